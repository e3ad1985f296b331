"""Single-shot and analog-Tanner-graph simulations: verdicts on every fault history against exact decoding."""
import itertools
import json
import math
import os
import shutil
import tempfile

import numpy as np

import analog
import gf2
import mc
import p25
import p26

NOISE = (-1.15, 1.15, -0.87, 0.87, -1.74, 1.74)


def side(case, s, final, noisy, err, noise, n):
    """possible corrections of one side (s = "x": X errors, Z checks) for the error and the noise of its measurement"""
    H, M = (case["hz"], case["mz"]) if s == "x" else (case["hx"], case["mx"])
    use_meta = case[("z" if s == "x" else "x") + "_meta"] and M is not None
    m = len(H)
    p = analog.side_rate(case["per"], case["bias"], s)
    q = analog.side_rate(case["ser"], case["bias"], s)
    syn = [gf2.par(r & err) for r in H]
    mask = (1 << n) - 1
    hm = analog.mat(H, n)
    low = lambda c: {v & mask for v in c}
    num = lambda bits: sum(b << i for i, b in enumerate(bits))
    if final:
        return low(analog.best(hm, [p] * n, num(syn)))
    rel = None
    if case["tg"]:
        sig = analog.sigma(q)
        y = [1 - 2 * b + (v if sig else 0.0) for b, v in zip(syn, noise)]
        syn, rel = [int(v <= 0) for v in y], analog.virtual(y, sig)
    else:
        syn = [b ^ v for b, v in zip(syn, noise)]
    eye = np.identity(m, dtype=np.int32)
    mm = analog.mat(M, m) if use_meta else None
    if use_meta and case["single"]:
        H1 = np.block([[hm, eye], [np.zeros((len(M), n), dtype=np.int32), mm]])
        msyn = [gf2.par(num(syn) & r) for r in M]
        return low(analog.best(H1, [p] * n + (rel or [q] * m), num(syn + msyn)))
    cands = {num(syn)}
    if use_meta:
        cands = {num(syn) ^ u for u in analog.best(mm, [q] * m, num([gf2.par(num(syn) & r) for r in M]))}
    out = set()
    for c in cands:
        if case["tg"]:
            out |= low(analog.best(np.hstack((hm, eye)), [p] * n + rel, c))
        else:
            out |= low(analog.best(hm, [p] * n, c))
    return out


_SEEN = {}


def reference(case, n, lx, lz, hist):
    """possible verdicts (logical X error, logical Z error); the sides are independent"""
    out = []
    for s, stab, log in (("x", case["hx"], lz), ("z", case["hz"], lx)):
        states = {0}
        triv = None if case["logs"] else gf2.span(stab)
        for r, (ex, ez, nx, nz) in enumerate(hist):
            e, noise = (ex, nx) if s == "x" else (ez, nz)
            nxt = set()
            for v in states:
                key = case["id"], s, r == len(hist) - 1, v ^ e, tuple(noise)
                if key not in _SEEN:
                    _SEEN[key] = side(case, s, r == len(hist) - 1, True, v ^ e, noise, n)
                nxt |= {v ^ e ^ c for c in _SEEN[key]}
            states = nxt
        out.append({any(gf2.par(l & v) for l in log) if case["logs"] else v not in triv for v in states})
    return out


def histories(case, n):
    """[(faults, [(X errors, Z errors, noise of Z checks, noise of X checks) per round])]; the last round is measured perfectly"""
    R = case["depth"] + 1
    mz, mx = len(case["hz"]), len(case["hx"])
    alpha = NOISE[:case["alpha"]] if case["tg"] and case["ser"] else (1,) if case["ser"] else ()
    rates = {s: analog.side_rate(case["ser"], case["bias"], s) for s in "xz"}
    places = [(r, "d", i, p) for r in range(R) for i in range(n) for p in case["paulis"]]
    places += [(r, "x", i, v) for r in range(R - 1) for i in range(mz) for v in alpha if rates["x"]]
    places += [(r, "z", i, v) for r in range(R - 1) for i in range(mx) for v in alpha if rates["z"]]
    for k in range(case["faults"] + 1):
        for f in itertools.combinations(places, k):
            if len({p[:3] for p in f}) < k:
                continue
            h = [[0, 0, [0] * mz, [0] * mx] for _ in range(R)]
            for r, kind, i, v in f:
                if kind == "d":
                    h[r][0] |= (v in "XY") << i
                    h[r][1] |= (v in "ZY") << i
                else:
                    h[r][2 if kind == "x" else 3][i] = v
            yield f, h


def script(case, n, hist, val, swap):
    uni, nor = [], []
    q = {s: analog.side_rate(case["ser"], case["bias"], s) for s in "xz"}
    for r, (ex, ez, nx, nz) in enumerate(hist):
        uni += [val["IXZY"[((ex >> i) & 1) + 2 * ((ez >> i) & 1)]] for i in range(n)]
        if r == len(hist) - 1:
            break
        for s, v in (("z", nz), ("x", nx)) if swap else (("x", nx), ("z", nz)):
            if case["tg"]:
                if q[s]:
                    nor += [a / analog.sigma(q[s]) for a in v]
            elif case["ser"]:
                uni += [q[s] / 2 if b else (1 + q[s]) / 2 for b in v]
    return uni, nor


def make(case, n, lx, lz):
    from mqt.qecc.analog_information_decoding.simulators.simulation import SingleShotSimulator
    from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams
    m = lambda rows, k: None if rows is None else analog.mat(rows, k)
    return SingleShotSimulator(codename="c", per=case["per"], ser=case["ser"], single_stage=case["single"], seed=1, bias=analog.bias_of(case["bias"]),
                               x_meta=case["x_meta"], z_meta=case["z_meta"], sus_th_depth=case["depth"], bp_params=BpParams(osd_method="osd_cs"),
                               code_params={"n": n, "k": max(1, len(lx)), "d": 1}, hx=m(case["hx"], n), hz=m(case["hz"], n), mx=m(case["mx"], len(case["hx"])), mz=m(case["mz"], len(case["hz"])),
                               lx=m(lx, n) if case["logs"] else None, lz=m(lz, n) if case["logs"] else None, analog_tg=case["tg"])


def sampled(make_sim, run, case, n, hs, rec, what, build, ref, keys):
    """runs every history; the order in which the noise of the two sides is drawn is not specified, but always the same"""
    d = tempfile.mkdtemp(prefix="p27")
    cwd, old = os.getcwd(), np.random.default_rng
    os.chdir(d)
    alive = {False: None, True: None}
    try:
        sim = make_sim()
        for swap in (False, True):
            for g, (f, h) in enumerate(hs):
                uni, nor = build(h, swap)
                want = ref(h)
                group = [(f, h)]
                if case.get("samples"):
                    f2, h2 = hs[(7 * g + 3) % len(hs)]
                    a, b = build(h2, swap)
                    uni, nor = uni + a, nor + b
                    want = [{x + y for x in u for y in v} for u, v in zip(want, ref(h2))]
                    group.append((f2, h2))
                rng = p26.Draws(uni, nor)
                np.random.default_rng = rng
                try:
                    res = run(sim, len(group))
                except Exception as ex:
                    alive[swap] = f"{what}: faults {[x[0] for x in group]}: {type(ex).__name__}: {ex}"
                    break
                finally:
                    np.random.default_rng = old
                rec.add(traces=1, states=1, transitions=len(h) * len(group))
                got = [res[k] for k in keys]
                if any(a not in {len(group) - int(x) for x in w} for a, w in zip(got, want)):
                    alive[swap] = f"{what}: faults {[x[0] for x in group]}: {got} of {len(group)} samples without logical X and Z error, exact decoding has {[sorted(len(group) - int(x) for x in w) for w in want]}"
                    break
                msg = report(res, keys, len(group), case, rng, uni, nor)
                if msg:
                    alive[swap] = f"{what}: {msg}"
                    break
            if alive[swap] is None:
                return None
        return alive[False]
    finally:
        np.random.default_rng = old
        os.chdir(cwd)
        shutil.rmtree(d)


def report(res, keys, runs, case, rng, uni, nor):
    if rng.u != len(uni) or rng.v != len(nor):
        return f"{rng.u} uniform and {rng.v} normal draws instead of {len(uni)} and {len(nor)}"
    if res["nr_runs"] != runs or res["pers"] != case["per"]:
        return f"reported {res}"
    for k in keys:
        s = k[0]
        if not math.isclose(res[s + "_ler"], 1 - res[k] / runs, abs_tol=1e-12):
            return f"rate {res[s + '_ler']} for {res[k]} successes of {runs}"
    files = [os.path.join(r, f) for r, _, fs in os.walk(".") for f in fs if f.endswith(".json")]
    if len(files) != 1:
        return f"result files {files}"
    try:
        data = json.load(open(files[0]))
    except ValueError:
        return "the result file is no JSON file"
    for k in [*keys, "nr_runs", "code_N", "code_K"] + [s + x for s in "xz" for x in ("_ler", "_ler_eb", "_wer", "_wer_eb")]:
        if data.get(k) != res.get(k):
            return f"{k} is {res.get(k)} but {data.get(k)} in the result file"
    return None


def check(case, rec):
    n = case["n"]
    lx, lz = analog.logicals(n, case["hx"], case["hz"])
    val = values(case)
    hs = list(histories(case, n))
    lo, hi = case["part"]
    hs = hs[lo::hi]
    what = (f"{case['code']} depth={case['depth']} single stage={case['single']} analog={case['tg']} meta checks x={case['x_meta']} z={case['z_meta']} logicals given={case['logs']} "
            f"bias={case['bias']} rates {case['per']}, {case['ser']}")
    _SEEN.clear()
    msg = sampled(lambda: make(case, n, lx, lz), lambda s, k: s.run(k), case, n, hs, rec, what, lambda h, sw: script(case, n, h, val, sw),
                  lambda h: reference(case, n, lx, lz, h), ("x_success_cnt", "z_success_cnt"))
    if msg:
        rec.bad(msg, case)


def values(case):
    from mqt.qecc.analog_information_decoding.utils import simulation_utils as u
    return p26.uniform_for(u.error_channel_setup(case["per"], analog.bias_of(case["bias"]), 1))


U, A, Z, X = [1, 1, 1], [1, 2, 5], [0, 0, "inf"], ["inf", 0, 0]


def paulis(bias):
    return "Z" if bias == Z else "X" if bias == X else "XZ"


def cases(ctx):
    q = ctx.quick
    out = []

    def add(name, depth, faults, parts=1, **kw):
        n, hx, hz, mx, mz = analog.css(name)
        bias = kw.get("bias", U)
        for i in range(parts):
            c = {"code": name, "n": n, "hx": hx, "hz": hz, "mx": mx, "mz": mz, "depth": depth, "faults": faults, "part": (i, parts), "per": 0.05, "ser": 0.08, "bias": bias,
                 "paulis": paulis(bias), "x_meta": False, "z_meta": False, "single": False, "tg": False, "logs": True, "alpha": 6, **kw}
            out.append({**c, "id": len(out)})

    for single, tg, logs, bias in itertools.product((True, False), (True, False), (True, False), (U, A, Z, X)):
        kw = {"single": single, "tg": tg, "logs": logs, "bias": bias}
        if tg:
            kw.update(ser=0.2, per=0.1, alpha=6 if logs else 2)
        add("422", 1, 3 if not tg else 2, **kw)
        for c in ("rep3x", "rep3z"):
            add(c, 1, 2 if q or tg else 3, **kw)
            add(c, 2, 2, **{**kw, "alpha": 4})
            add(c, 1, 2, **{**kw, "per": 0.12, "ser": 0.06})
            add(c, 1, 2, **{**kw, "ser": 0.0})
            add(c + "m", 1, 2 if q else 3, x_meta="z" in c, z_meta="x" in c, **kw)
            add(c + "m", 2, 2, x_meta="z" in c, z_meta="x" in c, **{**kw, "alpha": 2})
        if not q:
            add("rep5x", 1, 3, **{**kw, "alpha": 2})
            add("422", 2, 2, **kw)
        add("steane", 1, 1 if tg else 2, **kw)
        add("shor6", 2, 1 if q else 2, **kw)
        add("422", 0, 2, **kw)
        for name, xm, zm in (("meta4", 0, 1), ("meta4x", 1, 0), ("meta4xz", 1, 1), ("ring5", 0, 1)):
            add(name, 1, 2, x_meta=bool(xm), z_meta=bool(zm), **kw)
            add(name, 2, 1 if tg else 2, x_meta=bool(xm), z_meta=bool(zm), **{**kw, "per": 0.15})
        # meta checks requested on both sides but available on one
        add("meta4", 1, 1, x_meta=True, z_meta=True, **kw)
        if tg:
            add("meta4", 1, 2, x_meta=False, z_meta=False, **kw)
            add("422", 1, 2, **{**kw, "ser": 0.0})
            add("meta4xz", 1, 2, x_meta=True, z_meta=True, **{**kw, "ser": 0.0})
        else:
            add("422", 1, 2, **{**kw, "ser": 0.0})
            add("meta4xz", 1, 2, x_meta=True, z_meta=True, **{**kw, "ser": 0.0})
        add("422", 1, 1, samples=2, **kw)
        if not q:
            add("meta4xz", 2, 3 if not tg else 2, parts=8, x_meta=True, z_meta=True, **kw)
            add("steane", 2, 2, parts=8, **{**kw, "alpha": 2})
            add("toric", 1, 2, parts=8, x_meta=True, z_meta=True, **{**kw, "alpha": 2})
        elif bias == U:
            add("toric", 1, 1, x_meta=True, z_meta=True, **{**kw, "alpha": 2})
    return out


def run(ctx):
    analog.install()
    import mqt.qecc.analog_information_decoding.simulators.simulation  # noqa: F401
    cs = cases(ctx)
    mc.explore(ctx, "histories", cs, check, timeout=600)
    ctx.sample(cs[len(cs) // 2])
    ctx.bound("see cases(): every combination of code, meta checks, single or two stages, hard, analog or analog-Tanner-graph decoding and sustainable-threshold depth; every history of data and measurement errors up to the given number of faults, and all histories for the smallest")
    ctx.assume("the ldpc decoder is replaced by an exact most-likely decoder, also in the expectation; random draws are prescribed; the order in which X and Z noise is drawn is not part of the property")


def replay(ctx, case):
    analog.install()
    import mqt.qecc.analog_information_decoding.simulators.simulation  # noqa: F401
    mc.explore(ctx, "replay", [case], check, timeout=600)
