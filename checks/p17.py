"""State preparation circuits prepare exactly the logical state, for every code, method and outcome of the timeouts."""
import itertools

import csscodes
import gf2
import mc
import mpstub
import prep


def check(case, rec):
    code = prep.code_of(case)
    base = None
    for zero in (True, False):
        for m, od, rng in case["methods"]:
            c = {**case, "method": m, "od": od, "zero": zero, "range": rng}
            scheds = [tuple(case.get("sched", ()))]
            seen = set()
            while scheds:
                ts = scheds.pop()
                try:
                    r = prep.build({**c, "tmin": 1, "tmax": 2} if case.get("timeouts") else c, code, ts)
                except Exception as e:
                    rec.bad(f"{case['hx']} {case['hz']} n={case['n']} zero={zero} {m} {od} {rng} timeouts {ts}: {type(e).__name__}: {e}", case)
                    return
                calls = mpstub.SCHEDULE.calls
                rec.add(transitions=max(calls, 1), traces=1)
                if r is None:
                    if m == "heuristic":
                        rec.bad(f"{case['hx']} {case['hz']} heuristic: no circuit", case)
                        return
                else:
                    if r.zero_state != zero or r.code is not code or r.num_qubits != case["n"]:
                        rec.bad(f"{case['hx']} {case['hz']} zero={zero} {m} {od}: result describes another state", case)
                        return
                    why = prep.wrong_state(r.circ, case, zero)
                    if why:
                        rec.bad(f"{case['hx']} {case['hz']} n={case['n']} zero={zero} {m} {od} {rng} timeouts {ts}: {why}; circuit {prep.show(r.circ)}", case)
                        return
                if case.get("timeouts") and m != "heuristic" and len(ts) < case["timeouts"]:
                    for i in range(calls):
                        n = tuple(sorted(set(ts) | {i}))
                        if n not in seen and (not ts or i > max(ts)):
                            seen.add(n)
                            scheds.append(n)
    rec.add(states=1)


def redundant(c):
    """dependent generators: a repeated row, the sum of two rows, a zero row"""
    hx, hz = c["hx"], c["hz"]
    yield {**c, "hx": hx + [hx[0]]}
    yield {**c, "hz": hz + [hz[-1]]}
    if len(hx) > 1:
        yield {**c, "hx": [hx[0] ^ hx[1]] + hx}
    if len(hz) > 1:
        yield {**c, "hz": hz + [hz[0] ^ hz[1]], "hx": hx + [hx[0]]}


def families(quick):
    small = []
    for n in (3, 4, 5):
        for mx in range(1, n):
            for mz in range(1, n - mx + 1):
                small += list(csscodes.codes(n, mx, mz, states=True))
    return small


def rowbases(c):
    """other generators of the same code: sums of rows"""
    hx = c["hx"]
    for i, j in itertools.permutations(range(len(hx)), 2):
        h = list(hx)
        h[i] ^= h[j]
        yield {**c, "hx": h}


H = [["heuristic", True, None], ["heuristic", False, None]]
G = [["gate", None, [1, 8]], ["depth", None, [1, 8]]]


def perms(n, quick):
    ps = [tuple((i * a + b) % n for i in range(n)) for a in range(1, n) if gcd(a, n) == 1 for b in range(n)]
    return ps[:: 3] if quick else ps


def gcd(a, b):
    return a if b == 0 else gcd(b, a % b)


def cases(ctx):
    q = ctx.quick
    small = families(q)
    out = {"heuristic": [], "optimal": [], "timeouts": [], "named": []}
    for c in small:
        out["heuristic"].append({**c, "methods": H})
        for v in list(rowbases(c)) + list(redundant(c)):
            out["heuristic"].append({**v, "methods": H})
    opt = [c for c in small if c["n"] <= (3 if q else 4) or c["d"][0] >= 2]
    for i, c in enumerate(opt):
        out["optimal"].append({**c, "methods": G})
        if c["n"] == 3 or c["d"][0] >= 2 and (not q or i % 4 == 0):
            for v in list(redundant(c))[: 2 if q else 9]:
                out["optimal"].append({**v, "methods": G})
    for c in small:
        if c["n"] == 4 and c["d"][0] == 2 or not q and c["n"] == 5 and c["d"][0] == 2 and len(c["hx"]) == 2:
            out["timeouts"].append({**c, "methods": G, "timeouts": 2 if c["n"] == 4 or not q else 1})
    for nm in ("steane", "shor", "shordual", "422", "642", "832", "surface3", "tetrahedral", "hamming", "surface5"):
        c = csscodes.named(nm)
        for p in perms(c["n"], q):
            for v in [csscodes.permuted(c, p)] + [csscodes.swapped(csscodes.permuted(c, p))]:
                out["named"].append({**v, "methods": H})
                if not q:
                    for w in rowbases(v):
                        out["named"].append({**w, "methods": H})
    out["optimal"].append({**csscodes.named("422"), "methods": [["gate", None, [0, 8]], ["depth", None, [0, 8]], ["gate", None, [2, 2]], ["depth", None, [5, 6]]]})
    out["optimal"].append({**csscodes.named("steane"), "methods": [["gate", None, [8, 8]], ["depth", None, [3, 3]]], "sched": [1]})
    return out


def run(ctx):
    mpstub.install()
    import mqt.qecc.ft_stateprep  # noqa: F401
    for part, cs in cases(ctx).items():
        mc.explore(ctx, part, cs, check, timeout=300)
        ctx.sample({part: cs[len(cs) // 2]})
    ctx.bound("every CSS code with checks of both types (k = 0 included) on up to 5 qubits (one per pair of spaces, plus row sums and dependent generators) with both heuristics and both basis states; gate and depth optimal for n <= 3 (thorough 4) and all distance-2 codes; "
              "every combination of up to two timeouts of the search (search window of two rounds); ten named codes under affine qubit permutations")
    ctx.assume("processes of the search are real forks, their timeouts are prescribed")


def replay(ctx, case):
    mpstub.install()
    mc.explore(ctx, "replay", [case], check, timeout=300)
