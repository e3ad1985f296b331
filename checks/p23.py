"""Lookup-table decoder: a lightest error with the given syndrome, for both sides, in every order of building the tables."""
import itertools

import numpy as np

import csscodes
import gf2
import mc


def side_ok(got, rows, s, n, best):
    """None, or what is wrong with the estimate for syndrome s (tuple of bits) of the checks rows"""
    got = np.asarray(got)
    if got.shape != (n,) or not set(got.astype(int).tolist()) <= {0, 1}:
        return f"estimate {got.tolist()}"
    e = gf2.vec(got)
    if tuple(gf2.par(r & e) for r in rows) != s:
        return f"estimate {bin(e)} has syndrome {[gf2.par(r & e) for r in rows]}"
    if gf2.wt(e) != best[s]:
        return f"estimate {bin(e)} has weight {gf2.wt(e)}, {best[s]} is possible"
    return None


def table(rows, n):
    best = {}
    for e in sorted(range(1 << n), key=gf2.wt):
        best.setdefault(tuple(gf2.par(r & e) for r in rows), gf2.wt(e))
    return best


def check(case, rec):
    from mqt.qecc.ft_stateprep import LutDecoder
    n, hx, hz = case["n"], case["hx"], case["hz"]
    code = csscodes.make(n, hx, hz, *case["d"])
    rows = {"x": hz, "z": hx}
    best = {s: table(rows[s], n) for s in "xz"}
    for hist in case["histories"]:
        dec = LutDecoder(code, init_luts=hist[0] == "init")
        for i, op in enumerate(hist[1:]):
            what = f"{hx} {hz} n={n} {hist[:i + 2]}"
            rec.add(transitions=1)
            try:
                if op[0] == "gen":
                    dec.generate_x_lut() if op[1] == "x" else dec.generate_z_lut()
                    continue
                s = op[1]
                syns = sorted(best[s])
                if op[0] == "one":
                    syns = [syns[-1]]
                if op[0] == "batch":
                    res = (dec.batch_decode_x if s == "x" else dec.batch_decode_z)(np.array(syns, dtype=np.int8).reshape(len(syns), len(rows[s])))
                else:
                    res = [(dec.decode_x if s == "x" else dec.decode_z)(np.array(y, dtype=np.int8)) for y in syns]
            except Exception as e:
                rec.bad(f"{what}: {type(e).__name__}: {e}", case)
                return
            if len(res) != len(syns):
                rec.bad(f"{what}: {len(res)} estimates for {len(syns)} syndromes", case)
                return
            for y, r in zip(syns, res):
                rec.add(traces=1)
                bad = side_ok(r, rows[s], y, n, best[s])
                if bad:
                    rec.bad(f"{what}: syndrome {y}: {bad}", case)
                    return
    rec.add(states=1)


OPS = [["gen", "x"], ["gen", "z"], ["all", "x"], ["all", "z"], ["batch", "x"], ["batch", "z"], ["one", "x"], ["one", "z"]]


def hists(d):
    return [[i, *h] for i in ("init", "lazy") for h in itertools.product(OPS, repeat=d)]


def cases(ctx):
    from p17 import redundant, rowbases
    q = ctx.quick
    out = {"histories": [], "codes": []}
    short = hists(1) + [["lazy", ["all", a], ["all", b]] for a, b in ("xz", "zx")]
    for nm in ("steane", "422", "surface3" if not q else "422"):
        c = csscodes.named(nm)
        for h in hists(2 if q else 3):
            out["histories"].append({**c, "histories": [h]})
    # the same spaces on both sides, given by different rows
    for nm, perm in (("steane", (2, 0, 1)), ("422", None)):
        c = csscodes.named(nm)
        for p in itertools.permutations(range(len(c["hz"]))):
            for h in hists(2):
                out["histories"].append({**c, "hz": [c["hz"][i] for i in p], "histories": [h]})
    c = csscodes.named("steane")
    for i, j in itertools.permutations(range(3), 2):
        hz = list(c["hz"])
        hz[i] ^= hz[j]
        for h in hists(2):
            out["histories"].append({**c, "hz": hz, "histories": [h]})
    out["histories"].append({**c, "hz": c["hz"] + [c["hz"][0] ^ c["hz"][1]], "histories": hists(2)})
    for n in (2, 3, 4, 5):
        for mx in range(0, n):
            for mz in range(0, n - mx + 1):
                if not mx and not mz:
                    continue
                for i, c in enumerate(csscodes.codes(n, mx, mz, states=True)):
                    if q and n == 5 and i % 8:
                        continue
                    if mx == 0 or mz == 0:
                        hh = [h for h in short if not any((o[1] == "z") == (mx == 0) or (o[1] == "x") == (mz == 0) for o in h[1:])]
                        hh = [h for h in hh if h[0] == "lazy"]
                    else:
                        hh = short
                    out["codes"].append({**c, "histories": hh})
                    if n <= (3 if q else 4) and mx and mz:
                        for v in list(rowbases(c)) + list(redundant(c)):
                            out["codes"].append({**v, "histories": hh})
    for nm in ("shor", "surface3") + (() if q else ("642", "832")):
        out["codes"].append({**csscodes.named(nm), "histories": [["init", ["batch", "x"], ["batch", "z"]], ["lazy", ["all", "z"], ["all", "x"]]]})
        out["codes"].append({**csscodes.swapped(csscodes.named(nm)), "histories": [["init", ["batch", "x"], ["batch", "z"]]]})
    return out


def run(ctx):
    import mqt.qecc.ft_stateprep  # noqa: F401
    for part, cs in cases(ctx).items():
        mc.explore(ctx, part, cs, check, timeout=200)
        ctx.sample({part: cs[len(cs) // 2]})
    ctx.bound("all syndromes of all CSS codes (k = 0 included) up to 5 qubits (quick: an eighth for 5), with dependent and changed rows up to 3 (thorough 4); all histories of two (three) of eight operations on Steane and [[4,2,2]], also with the rows of one side permuted or added")
    ctx.assume("a syndrome is a vector of 8-bit integers in the order of the rows of the check matrix of the other side")


def replay(ctx, case):
    import mqt.qecc.ft_stateprep  # noqa: F401
    mc.explore(ctx, "replay", [case], check, timeout=200)
