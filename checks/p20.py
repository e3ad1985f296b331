"""Verification measurements: stabilizers that detect every dangerous fault; the optimal search is minimal; timeouts never give a wrong answer."""
import heapq
import itertools

import numpy as np

import csscodes
import gf2
import mc
import mpstub
import p19
import prep
import sp


def best_cover(cands, syns, max_anc):
    """(fewest CNOTs, fewest ancillas among these) of at most max_anc candidates that together detect all; None if impossible"""
    full = (1 << len(syns)) - 1
    det = {}
    for c in cands:
        m = sum(1 << i for i, f in enumerate(syns) if gf2.par(c & f))
        if m and (m not in det or gf2.wt(c) < det[m]):
            det[m] = gf2.wt(c)
    seen, heap = set(), [(0, 0, 0)]
    while heap:
        cost, anc, m = heapq.heappop(heap)
        if (m, anc) in seen:
            continue
        seen.add((m, anc))
        if m == full:
            return cost, anc
        if anc == max_anc:
            continue
        low = next(i for i in range(len(syns)) if not (m >> i) & 1)
        for d, w in det.items():
            if (d >> low) & 1 and (m | d, anc + 1) not in seen:
                heapq.heappush(heap, (cost + w, anc + 1, m | d))
    return None


def check(case, rec):
    import mqt.qecc.ft_stateprep as f
    n, zero = case["n"], case["zero"]
    code = prep.code_of(case)
    spc = p19.circuit(case, code)
    sx, sz = prep.state_of(case, zero)
    t = spc.max_errors
    for xs in (True, False):
        cos = sp.Cosets(sx if xs else sz, n)
        group = [g for g in gf2.span(sz if xs else sx) if g]
        sing = p19.singles(spc.circ, n, xs)
        for extra in case["extra"]:
            want = [p19.dangerous(case, sing, extra or (), k, zero, xs, cos) for k in range(1, t + 1)]
            add = None if extra is None else np.array([gf2.unvec(e, n) for e in extra], dtype=np.int8).reshape(len(extra), n)
            for m in case["methods"]:
                scheds, seen = [()], set()
                while scheds:
                    ts = scheds.pop()
                    mpstub.SCHEDULE.reset(ts)
                    what = f"{case['hx']} {case['hz']} n={n} zero={zero} x_errors={xs} extra={extra} {m} timeouts {ts}"
                    spc = p19.circuit(case, code)
                    try:
                        if m[0] == "heuristic":
                            res = f.heuristic_verification_stabilizers(spc, x_errors=xs, max_covering_sets=m[1], find_coset_leaders=m[2], additional_faults=add)
                        else:
                            tm = (1, 2) if case.get("timeouts") else (60, 100)
                            res = f.gate_optimal_verification_stabilizers(spc, x_errors=xs, min_timeout=tm[0], max_timeout=tm[1], max_ancillas=m[1], additional_faults=add)
                    except Exception as e:
                        rec.bad(f"{what}: {type(e).__name__}: {e}", case)
                        return
                    calls = mpstub.SCHEDULE.calls
                    rec.add(traces=1, transitions=max(calls, 1))
                    if case.get("timeouts") and len(ts) < case["timeouts"]:
                        for i in range(calls):
                            if not ts or i > max(ts):
                                scheds.append(ts + (i,))
                    anc = m[1] if m[0] == "optimal" and m[1] is not None else len(sz if xs else sx)
                    best = [best_cover(group, sorted(w), anc) for w in want] if m[0] == "optimal" else None
                    if m[0] == "optimal" and len(res) == 0:
                        if not ts and all(b is not None for b in best) and t:
                            rec.bad(f"{what}: no measurements found, optimum {best}", case)
                            return
                        continue
                    if len(res) != t:
                        rec.bad(f"{what}: {len(res)} layers for {t} errors", case)
                        return
                    for k, (layer, w) in enumerate(zip(res, want)):
                        ms = [gf2.vec(x) for x in layer]
                        if any(len(x) != n or not set(np.asarray(x).astype(int).tolist()) <= {0, 1} for x in layer) or any(x not in group for x in ms):
                            rec.bad(f"{what}: layer {k}: {[bin(x) for x in ms]} are not (non-trivial) stabilizers of the state", case)
                            return
                        miss = [e for e in w if not any(gf2.par(x & e) for x in ms)]
                        if miss:
                            rec.bad(f"{what}: layer {k}: fault {bin(miss[0])} is not detected by {[bin(x) for x in ms]}", case)
                            return
                        if not w and ms:
                            rec.bad(f"{what}: layer {k}: nothing to detect, but {len(ms)} measurements", case)
                            return
                        if m[0] == "optimal":
                            if len(ms) > anc:
                                rec.bad(f"{what}: layer {k}: {len(ms)} measurements, {anc} allowed", case)
                                return
                            got = (sum(gf2.wt(x) for x in ms), len(ms))
                            if not ts and got != best[k]:
                                rec.bad(f"{what}: layer {k}: {got} CNOTs and ancillas, {best[k]} are enough", case)
                                return
    rec.add(states=1)


def cases(ctx):
    q = ctx.quick
    out = {"heuristic": [], "optimal": [], "timeouts": []}
    from p17 import perms, rowbases
    Hm = [["heuristic", 10000, True], ["heuristic", 10000, False], ["heuristic", 1, True], ["heuristic", 6, False]]
    d2 = [c for n in (4, 5) for mx in range(1, n) for mz in range(1, n - mx) for c in csscodes.codes(n, mx, mz, 2)]
    hooks = [None, [], [3], [6, 9], [5, 10, 12]]
    small = []
    for c in d2:
        for zero in (True, False):
            for od in (True, False):
                small.append({**c, "zero": zero, "od": od})
    big = []
    for nm in ("steane", "shor", "surface3"):
        ps = perms(csscodes.named(nm)["n"], False)
        for i, p in enumerate(ps[:: (4 if q else 1)]):
            v = csscodes.permuted(csscodes.named(nm), p)
            for w in [v] + ([csscodes.swapped(v)] if nm != "steane" else []):
                for zero in (True, False):
                    for od in (True, False):
                        big.append({**w, "zero": zero, "od": od})
    for c in small:
        out["heuristic"].append({**c, "extra": hooks if not q else hooks[1:4:2] + [None], "methods": Hm})
    for i, c in enumerate(big):
        ex = [[0b1101], [0b1110000, 0b11]] if i % 3 == 0 else [None]
        out["heuristic"].append({**c, "extra": ex, "methods": Hm if not q else [Hm[i % 4], Hm[0]]})
    nm = [csscodes.named(x) for x in ("642", "832", "tetrahedral", "hamming")] + [csscodes.swapped(csscodes.named(x)) for x in ("832", "tetrahedral")]
    for c in nm:
        for zero in (True, False):
            for od in (True, False):
                out["heuristic"].append({**c, "zero": zero, "od": od, "extra": [None], "methods": Hm[:2]})
    for zero in (True, False):
        out["heuristic"].append({**p19.four_code(), "det": True, "od": True, "zero": zero, "extra": [None], "methods": Hm[:1] if q else Hm})
    O = [["optimal", None], ["optimal", 1], ["optimal", 2], ["optimal", 3]]
    for i, c in enumerate(small):
        if not q or c["n"] == 4 or i % 8 == 0:
            out["optimal"].append({**c, "extra": [None, [3], [6, 9]] if c["n"] == 4 else [None, [11]], "methods": O})
    for i, c in enumerate(big):
        if i % (6 if q else 2) == 0:
            out["optimal"].append({**c, "extra": [None] if i % 12 else [[0b111, 0b1010100], [0b110011, 0b11010, 0b1001101]], "methods": [O[0], O[1 + i // 4 % 3]]})
    for c in small:
        if c["n"] == 4 and c["od"]:
            out["timeouts"].append({**c, "extra": [None, [3]], "methods": [O[0]], "timeouts": 2})
    st = csscodes.named("steane")
    for zero in (True, False):
        out["timeouts"].append({**st, "zero": zero, "od": True, "extra": [None, [0b111, 0b1010100]], "methods": [O[0], O[2]], "timeouts": 1 if q else 2})
    return out


def run(ctx):
    mpstub.install()
    import mqt.qecc.ft_stateprep  # noqa: F401
    for part, cs in cases(ctx).items():
        mc.explore(ctx, part, cs, check, timeout=600)
        ctx.sample({part: cs[len(cs) // 2]})
    ctx.bound("fault sets of the heuristic preparation circuits of all distance-2 codes on 4 and 5 qubits, Steane, Shor and surface code under affine permutations and with X/Z exchanged, [[6,4,2]], [[8,3,2]], tetrahedral, Hamming and (two faults) Carbon, each with several sets of additional hook errors; four settings of the heuristic, "
              "unlimited and 1-3 ancillas for the optimal search; every single (pairs for n=4; thorough: also pairs for Steane) search step that runs into its timeout")
    ctx.assume("the optimum is the fewest CNOTs and among these the fewest measurements, per layer, by uniform-cost search over the stabilizer group; minimality is only demanded without timeouts")


def replay(ctx, case):
    mpstub.install()
    mc.explore(ctx, "replay", [case], check, timeout=600)
