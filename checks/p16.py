"""LightsOut decoding: minimum-weight solutions, in every history of a decoder object; simulation counts exactly."""
import itertools
import json
import os
import shutil
import tempfile

import numpy as np

import gf2
import mc
from rngstub import BitRng

_CODES = {}


def code(kind, d):
    if (kind, d) not in _CODES:
        from mqt.qecc.cc_decoder import code_from_string
        _CODES[kind, d] = code_from_string(kind, d)
    return _CODES[kind, d]


def optimum(rows, n):
    """syndrome -> minimum weight, by breadth-first search over switches"""
    col = [gf2.vec([(r >> i) & 1 for r in rows]) for i in range(n)]
    best, front, w = {0: 0}, [0], 0
    while front:
        w += 1
        nxt = []
        for s in front:
            for c in col:
                if s ^ c not in best:
                    best[s ^ c] = w
                    nxt.append(s ^ c)
        front = nxt
    return best


def problem(case):
    from mqt.qecc.cc_decoder.decoder import LightsOut
    if "kind" in case:
        c = code(case["kind"], case["d"])
        p, rows, n = LightsOut(c.faces_to_qubits, c.qubits_to_faces), [gf2.vec(r) for r in c.H], c.n
    else:
        n, rows = case["n"], case["rows"]
        p = LightsOut({i: [j for j in range(n) if (r >> j) & 1] for i, r in enumerate(rows)}, {j: [i for i, r in enumerate(rows) if (r >> j) & 1] for j in range(n)})
    p.preconstruct_z3_instance()
    return p, rows, n


def histories(case, rec):
    p, rows, n = problem(case)
    best = optimum(rows, n)
    for step, s in enumerate(case["history"]):
        lights = [bool((s >> i) & 1) for i in range(len(rows))]
        rec.add(transitions=1)
        try:
            sw = p.solve(list(lights))[0]
        except AssertionError as e:
            if s in best:
                rec.bad(f"{case}: step {step}, lights {s:b}: {e}", case)
                return
            continue
        if s not in best:
            rec.bad(f"{case}: step {step}, lights {s:b} cannot be switched off, result {sw}", case)
            return
        e = gf2.vec(sw)
        if len(sw) != n or any(x not in (0, 1) for x in sw) or gf2.syn(rows, e) != s:
            rec.bad(f"{case}: step {step}, switches {sw} do not switch off the lights {s:b}", case)
            return
        if gf2.wt(e) != best[s]:
            rec.bad(f"{case}: step {step}, {gf2.wt(e)} switches for lights {s:b}, {best[s]} are enough", case)
            return
    rec.add(states=1, traces=1)


def wcnf(text):
    """(number of soft clauses, whether the hard clauses are satisfiable); which literals z3 prints in the soft clauses is not compared: some versions number them wrongly"""
    top, hard, soft = None, [], 0
    for l in text.splitlines():
        w = l.split()
        if not w or w[0] == "c":
            continue
        if w[0] == "p":
            top = int(w[4])
        elif int(w[0]) >= top:
            hard.append([int(x) for x in w[1:-1]])
        else:
            soft += 1

    def sat(true):
        true = set(true)
        while True:
            unit = split = None
            for c in hard:
                if any(x in true for x in c):
                    continue
                free = [x for x in c if -x not in true]
                if not free:
                    return False
                if len(free) == 1:
                    unit = free[0]
                    break
                split = free[0]
            if unit is None:
                return split is None or sat(true | {split}) or sat(true | {-split})
            true.add(unit)

    return soft, sat(set())


def external(case, rec):
    """an external solver is handed every problem once, and its calls leave other solutions as they are"""
    from mqt.qecc.cc_decoder import decoder
    p, rows, n = problem(case)
    best = optimum(rows, n)
    t = tempfile.mkdtemp(prefix="mc_p16_")
    cwd = os.getcwd()
    try:
        os.chdir(t)
        exe = os.path.join(t, "fakesolver")
        with open(exe, "w") as f:
            f.write('#!/bin/sh\nprintf "%s\\n" "$1"\nexit 30\n')  # 30: optimum found
        os.chmod(exe, 0o755)
        want = []
        for step, (s, ext) in enumerate(case["external"]):
            lights = [bool((s >> i) & 1) for i in range(len(rows))]
            rec.add(transitions=1)
            sw = p.solve(lights, exe)[0] if ext else p.solve(lights)[0]
            if ext:
                want.append((n, True))
                if list(sw):
                    rec.bad(f"{case}: step {step}: switches {sw} although the output of external solvers is not interpreted", case)
            elif gf2.syn(rows, gf2.vec(sw)) != s or gf2.wt(gf2.vec(sw)) != best[s]:
                rec.bad(f"{case}: step {step}, switches {sw} for lights {s:b}", case)
                return
        if case["run"]:
            c = code(case["kind"], case["d"])
            errs = case["run"]
            rng = BitRng([gf2.unvec(e, c.n) for e in errs])
            old = np.random.default_rng
            np.random.default_rng = lambda *a, **k: rng
            try:
                decoder.run(case["kind"], case["d"], 0.1, len(errs), "out", exe)
            finally:
                np.random.default_rng = old
            want += [(n, True)] * len(errs)
            fs = os.listdir("out")
            with open(os.path.join("out", fs[0])) as f:
                res = json.load(f)
            if len(fs) != 1 or "fakesolver" not in fs[0] or t in fs[0] or res["logical_error_rates"] != [0] * len(c.L) or res["min_wts_logical_err"] != [-1] * len(c.L):
                rec.bad(f"{case}: result file {fs}: {res}", case)
        logs = [f for f in os.listdir(t) if f not in ("fakesolver", "out")]
        texts = []
        for f in logs:
            with open(os.path.join(t, f)) as g:
                texts += ["p wcnf" + x for x in g.read().split("p wcnf")[1:]]
        got = [wcnf(x) for x in texts]
        if got != want:
            rec.bad(f"{case}: problems given to the external solver (soft clauses, satisfiable) {got}, expected {want}", case)
    finally:
        os.chdir(cwd)
        shutil.rmtree(t, ignore_errors=True)
    rec.add(states=1, traces=1)


def simulate(case, rec):
    from mqt.qecc.cc_decoder import decoder
    c = code(case["kind"], case["d"])
    rows = [gf2.vec(r) for r in c.H]
    stab = gf2.span(rows)
    col = {gf2.syn(rows, 1 << i): 1 << i for i in range(c.n)}  # distance 3: the minimum-weight estimate is unique
    col[0] = 0
    nl, minw = 0, -1
    for e in case["errors"]:
        r = e ^ col[gf2.syn(rows, e)]
        if r not in stab:
            nl += 1
            minw = gf2.wt(r) if minw < 0 else min(minw, gf2.wt(r))
    nr, p = len(case["errors"]), case["p"]
    rng = BitRng([gf2.unvec(e, c.n) for e in case["errors"]])
    old = np.random.default_rng
    np.random.default_rng = lambda *a, **k: rng
    t = tempfile.mkdtemp(prefix="mc_p16_")
    try:
        if case["file"]:
            decoder.run(case["kind"], case["d"], p, nr, os.path.join(t, "a", "b"))
            fs = os.listdir(os.path.join(t, "a", "b"))
            if len(fs) != 1:
                rec.bad(f"{case}: result files {fs}", case)
                return
            with open(os.path.join(t, "a", "b", fs[0])) as f:
                res = json.load(f)
            if str(case["d"]) not in fs[0]:
                rec.bad(f"{case}: result file {fs[0]} does not name the distance", case)
        else:
            res = decoder.simulate_error_rate(c, p, nr)
    finally:
        np.random.default_rng = old
        shutil.rmtree(t, ignore_errors=True)
    rec.add(states=1, transitions=nr, traces=1)
    want = {"distance": case["d"], "p": p, "logical_error_rates": [nl / nr], "min_wts_logical_err": [minw]}
    if rng.pos != nr:
        rec.bad(f"{case}: {rng.pos} errors sampled instead of {nr}", case)
    if any(abs(q - p) > 1e-12 for q in rng.probs):
        rec.bad(f"{case}: errors sampled with probability {rng.probs}", case)
    for k, v in want.items():
        if list(np.atleast_1d(res[k])) != list(np.atleast_1d(v)):
            rec.bad(f"{case}: {k} = {res[k]} instead of {v}", case)
            return
    eb = (nl / nr * (1 - nl / nr) / nr) ** 0.5
    if abs(res["logical_error_rate_ebs"][0] - eb) > 1e-9:
        rec.bad(f"{case}: error bar {res['logical_error_rate_ebs']} instead of {eb}", case)
    if "hexagon" not in str(res["lattice"]).lower() and "square" not in str(res["lattice"]).lower():
        rec.bad(f"{case}: lattice {res['lattice']}", case)
    ts = [res[k] for k in ("preconstr_time", "avg_constr_time", "avg_solve_time", "avg_total_time")]
    if any(t < 0 for t in ts) or abs(ts[1] + ts[2] - ts[3]) > 1e-9:
        rec.bad(f"{case}: times {ts}", case)


def cases(ctx):
    q = ctx.quick
    out = {"single": [], "histories": [], "graphs": [], "external": [], "simulation": []}
    for kind, d, m in (("hexagon", 3, 3), ("square_octagon", 3, 3), ("square_octagon", 5, 8), ("hexagon", 5, 9)):
        step = 4 if m > 4 else 1
        for s in range(0, 1 << m, step):
            out["single"].append({"kind": kind, "d": d, "history": list(range(s, s + step))})
        if m == 3:
            for h in itertools.product(range(8), repeat=3):
                out["histories"].append({"kind": kind, "d": d, "history": list(h)})
        else:
            reps = [0, 1, 2, 5, 85, 170, (1 << m) - 1, 37]
            for h in itertools.product(reps[: 5 if q else 8], repeat=2 if q else 3):
                out["histories"].append({"kind": kind, "d": d, "history": list(h)})
    # every lights-out problem in which each light has at least two switches
    for n in (2, 3, 4):
        masks = [r for r in range(1 << n) if gf2.wt(r) >= 2]
        for m in (1, 2, 3):
            if n == 4 and m == 3 and q:
                continue
            for rows in itertools.combinations_with_replacement(masks, m):
                for h in ([list(range(1 << m)), list(range((1 << m) - 1, -1, -1))]):
                    out["graphs"].append({"n": n, "rows": list(rows), "history": h})
    for kind in ("hexagon", "square_octagon"):
        for s in range(8):
            out["external"].append({"kind": kind, "d": 3, "external": [[s, 1]], "run": []})
            out["external"].append({"kind": kind, "d": 3, "external": [], "run": [s * 15, (s * 37) % 128]})
            for s2 in range(8):
                for m in ((1, 0), (0, 1), (1, 1)) if (s + s2) % 3 == 0 or not q else ((1, 0),):
                    out["external"].append({"kind": kind, "d": 3, "external": [[s, m[0]], [s2, m[1]]], "run": [1, 126] if s == s2 else []})
    # noise: every error in one run, histories of two and three runs
    for kind in ("hexagon", "square_octagon"):
        for e in range(128):
            out["simulation"].append({"kind": kind, "d": 3, "p": 0.125, "errors": [e], "file": e % 16 == 3})
        reps = [0, 1, 3, 7, 127, 96, 13, 90, 21] if q else list(range(0, 128, 5))
        for t in itertools.product(reps, repeat=2):
            out["simulation"].append({"kind": kind, "d": 3, "p": 0.01, "errors": list(t), "file": False})
        for t in itertools.product(reps[:5], repeat=3):
            out["simulation"].append({"kind": kind, "d": 3, "p": 0.3, "errors": list(t), "file": t[0] == 1})
    return out


def run(ctx):
    import mqt.qecc.cc_decoder  # noqa: F401
    for part, cs in cases(ctx).items():
        mc.explore(ctx, part, cs, {"simulation": simulate, "external": external}.get(part, histories), timeout=300)
        ctx.sample({part: cs[len(cs) // 2]})
    ctx.bound("all syndromes of both lattices at distance 3 and 5; all histories of three syndromes at distance 3, of two (thorough: three) of fixed syndromes at distance 5; every lights-out problem with 2-4 switches and up to 3 (quick: 2 for 4 switches) lights of >= 2 switches with all (also unsolvable) light patterns in sequence; "
              "all lights given to an external solver, alone and mixed in histories of two with the built-in one (recorded problems are satisfiable with one soft clause per switch); simulate_error_rate / run: every error in one run, all pairs and triples of fixed errors")
    ctx.assume("random generator of the simulation replaced by a prescribed one")


def replay(ctx, case):
    mc.explore(ctx, "replay", [case], simulate if "errors" in case else external if "external" in case else histories, timeout=300)
