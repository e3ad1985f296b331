"""Named codes and bivariate bicycle codes have the parameters they are documented with: exhaustive enumeration of all errors below the distance."""
import itertools

import numpy as np

import gf2
import mc

NAMED = {  # name: n, k, dx, dz (minimum weight of an X / Z logical)
    "Steane": (7, 1, 3, 3), "Tetrahedral": (15, 1, 7, 3), "Hamming": (15, 7, 3, 3), "Shor": (9, 1, 3, 3), "Carbon": (12, 2, 4, 4),
    "Surface": (9, 1, 3, 3), "Surface,3": (9, 1, 3, 3), "Surface,5": (25, 1, 5, 5), "Golay": (23, 1, 7, 7),
}
BB = {72: (12, 6), 90: (8, 10), 108: (8, 10), 144: (12, 12), 288: (12, 18)}


def reduce_by(rows):
    """reduces a vector modulo the row space to its representative"""
    piv = []
    for r in rows:
        for p, b in piv:
            if (r >> p) & 1:
                r ^= b
        if r:
            p = r.bit_length() - 1
            piv = [(q, b ^ r if (b >> p) & 1 else b) for q, b in piv] + [(p, r)]

    def red(v):
        for p, b in piv:
            if (v >> p) & 1:
                v ^= b
        return v
    return red


def min_logical(n, checks, stabs, limit, rec):
    """smallest weight <= limit of an error without syndrome that is not a stabilizer (or None): all errors, meet in the middle"""
    col = [gf2.vec([(r >> i) & 1 for r in checks]) for i in range(n)]
    red = reduce_by(stabs)
    rep = [red(1 << i) for i in range(n)]
    half = limit // 2
    table = {}  # syndrome -> {class: weight}
    for w in range(0, limit - half + 1):
        for t in itertools.combinations(range(n), w):
            s = c = 0
            for i in t:
                s ^= col[i]
                c ^= rep[i]
            d = table.setdefault(s, {})
            if c not in d:
                d[c] = w
            rec.add(states=1)
    best = None
    for d in table.values():
        if len(d) > 1:
            ws = sorted(d.values())
            if best is None or ws[0] + ws[1] < best:
                best = ws[0] + ws[1]
    # two different classes with the same syndrome differ by a logical; every logical of weight w splits into halves
    return best if best is not None and best <= limit else None


def css(case):
    from mqt.qecc import CSSCode
    from mqt.qecc.codes import construct_bb_code
    if "name" in case:
        name, _, d = case["name"].partition(",")
        return CSSCode.from_code_name(name, int(d)) if d else CSSCode.from_code_name(name)
    return construct_bb_code(case["bb"])


def check(case, rec):
    c = css(case)
    bad = lambda w: rec.bad(f"{case}: {w}", case)  # noqa: E731
    rec.add(traces=1)
    n, k, dx, dz = case["params"]
    if (c.n, c.k) != (n, k):
        bad(f"[[n,k]] = [[{c.n},{c.k}]] instead of [[{n},{k}]]")
    if c.distance != min(dx, dz) or c.x_distance != dx or c.z_distance != dz:
        bad(f"distances {c.distance}, {c.x_distance}, {c.z_distance} instead of {min(dx, dz)}, {dx}, {dz}")
    hx, hz = [gf2.vec(r) for r in c.Hx], [gf2.vec(r) for r in c.Hz]
    lx, lz = [gf2.vec(r) for r in c.Lx], [gf2.vec(r) for r in c.Lz]
    if gf2.rank(hx) + gf2.rank(hz) != n - k or len(lx) != k or len(lz) != k:
        bad("wrong number of stabilizers or logicals")
    if any(gf2.par(a & b) for a in hx for b in [*hz, *lz]) or any(gf2.par(a & b) for a in hz for b in lx):
        bad("stabilizers and logicals do not commute")
    for who, (checks, stabs, d) in {"X": (hz, hx, dx), "Z": (hx, hz, dz)}.items():
        if who != case["side"]:
            continue
        lim = min(d, case["limit"])
        w = min_logical(n, checks, stabs, lim, rec)
        rec.add(transitions=1)
        if lim == d and w != d:
            bad(f"smallest {who} logical has weight {w if w is not None else '> ' + str(lim)} instead of {d}")
        if lim < d and w is not None:
            bad(f"{who} logical of weight {w}, distance is {d}")
    if "bb" in case and any(bin(r).count("1") != 6 for r in [*hx, *hz]):
        bad("a check does not act on six qubits")


def names(case, rec):
    from mqt.qecc import CSSCode
    from mqt.qecc.codes import InvalidCSSCodeError, construct_bb_code
    rec.add(states=1, transitions=1, traces=1)
    if "unknown" in case:
        try:
            CSSCode.from_code_name(case["unknown"], case.get("d"))
        except InvalidCSSCodeError:
            return
        rec.bad(f"unknown code {case} does not raise", case)
    elif "alias" in case:
        a, b = (CSSCode.from_code_name(*x) for x in case["alias"])
        if not (np.array_equal(a.Hx, b.Hx) and np.array_equal(a.Hz, b.Hz) and a.distance == b.distance):
            rec.bad(f"{case['alias']} are different codes", case)
    else:
        try:
            c = construct_bb_code(case["n"])
        except InvalidCSSCodeError:
            if case["n"] in BB:
                rec.bad(f"no code with {case['n']} qubits", case)
            return
        if case["n"] not in BB or c.n != case["n"]:
            rec.bad(f"construct_bb_code({case['n']}) returns {c.n} qubits", case)


def run(ctx):
    import mqt.qecc  # noqa: F401
    cs = []
    for name, p in NAMED.items():
        for side in "XZ":
            cs.append({"name": name, "params": list(p), "side": side, "limit": 9})
    for n, (k, d) in BB.items():
        for side in "XZ":
            lim = {72: 6, 90: 6 if ctx.quick else 8, 108: 6 if ctx.quick else 8, 144: 6, 288: 4 if ctx.quick else 6}[n]
            cs.append({"bb": n, "params": [n, k, d, d], "side": side, "limit": lim})
    mc.explore(ctx, "parameters", cs, check, timeout=600, chunk=1)
    ns = [{"unknown": x} for x in ("", "foo", "surface_7", "steane ", "bb")] + [{"unknown": "surface", "d": d} for d in (1, 2, 4, 7)]
    ns += [{"alias": [[a.upper()], [a.lower()]]} for a in ("Steane", "Golay", "Shor", "Carbon", "Hamming", "Tetrahedral", "Surface")] + [{"alias": [["surface"], ["Surface", 3]]}]
    ns += [{"n": n} for n in range(1, 400)]
    mc.explore(ctx, "names", ns, names, timeout=60)
    ctx.sample({"parameters": cs[0]})
    ctx.bound("every named code: all X and Z errors up to the distance (meet in the middle), [[n,k]], commutation; bivariate bicycle codes: distance of n=72 exact, no logical of weight <= 6 for 90, 108, 144 (thorough: 8 for 90, 108), <= 4 (thorough: 6) for 288, every n up to 400")


def replay(ctx, case):
    mc.explore(ctx, "replay", [case], check if "params" in case else names, timeout=600)
