"""Fault sets: exactly the dangerous propagated errors of up to k faults, for every circuit and call history."""
import itertools

import numpy as np

import csscodes
import gf2
import mc
import mpstub
import prep
import sp


def singles(circ, n, xside):
    f = sp.Faults(sp.ops(circ), n, list(range(n)))
    return {(e & ((1 << n) - 1)) if xside else ((e >> n) & ((1 << n) - 1)) for e in f.singles()}


def dangerous(case, sing, extra, k, zero, xside, cos):
    """representatives of the cosets of at most k faults that are heavier than k (times the allowed factor)"""
    d, dx, dz = case["d"]
    w = max(((dx if xside else dz) - 1) // 2, 1) // max((d - 1) // 2, 1)
    s = {0} | set(sing) | set(extra)
    reps = {cos.rep(e) for e in s}
    cur = {0}
    for _ in range(k):
        cur = {cos.rep(a ^ b) for a in cur for b in reps}
    return {e for e in cur if cos.weight(e) > w * k}


def steps(case):
    return case["history"]


def circuit(case, code):
    import mqt.qecc.ft_stateprep as f
    if "gates" in case:
        from qiskit import QuantumCircuit
        qc = QuantumCircuit(case["n"])
        for g in case["gates"]:
            qc.h(g[0]) if len(g) == 1 else qc.cx(*g)
        return f.StatePrepCircuit(qc, code, case["zero"], case.get("det", False))
    r = f.heuristic_prep_circuit(code, optimize_depth=case["od"], zero_state=case["zero"])
    if case.get("det"):
        r.set_error_detection(True)
    return r


def check(case, rec):
    n, zero = case["n"], case["zero"]
    code = prep.code_of(case)
    spc = circuit(case, code)
    sx, sz = prep.state_of(case, zero)
    cos = {True: sp.Cosets(sx, n), False: sp.Cosets(sz, n)}
    sing = {s: singles(spc.circ, n, s) for s in (True, False)}
    memo = {}

    def want(k, xs, extra=()):
        key = k, xs, extra
        if key not in memo:
            memo[key] = dangerous(case, sing[xs], extra, k, zero, xs, cos[xs])
        return memo[key]

    det = case.get("det", False) or case["d"][0] == 2

    def compare(got, k, xs, extra, what):
        got = [gf2.vec(r) for r in got] if got is not None and len(got) else []
        reps = [cos[xs].rep(g) for g in got]
        rec.add(traces=1)
        if set(reps) != want(k, xs, extra):
            miss, more = want(k, xs, extra) - set(reps), set(reps) - want(k, xs, extra)
            rec.bad(f"{case['hx']} {case['hz']} n={n} zero={zero} [{prep.show(spc.circ)}] {what}: missing {[bin(m) for m in list(miss)[:3]]}, not dangerous {[bin(m) for m in list(more)[:3]]}", case)
            return None
        for g in got:
            if gf2.wt(g) != cos[xs].weight(g):
                rec.bad(f"{case['hx']} {case['hz']} n={n} zero={zero} {what}: {bin(g)} is not reduced by the stabilizers", case)
                return None
        return reps

    for i, st in enumerate(case["history"]):
        t = case["d"][0] // 2 if det else (case["d"][0] - 1) // 2
        rec.add(transitions=1)
        what = f"step {i} of {case['history']}"
        if st[0] == "detect":
            det = st[1] or case["d"][0] == 2
            spc.set_error_detection(st[1])
            if spc.max_errors != (case["d"][0] // 2 if det else (case["d"][0] - 1) // 2):
                rec.bad(f"{case['d']} {what}: {spc.max_errors} errors", case)
                return
        elif st[0] == "set":
            _, k, xs, red = st
            if k > t:
                continue
            got = spc.compute_fault_set(k, xs, red)
            reps = compare(got, k, xs, (), what)
            if reps is None:
                return
            if red and i == 0 and len(reps) != len(set(reps)):
                rec.bad(f"{case['hx']} {case['hz']} {what}: equivalent faults not removed", case)
                return
        elif st[0] == "sets":
            spc.compute_fault_sets()
            for xs in (True, False):
                for k in range(1, t + 1):
                    if compare((spc.x_fault_sets if xs else spc.z_fault_sets)[k], k, xs, (), what) is None:
                        return
        else:
            _, xs, extra = st
            got = spc.combine_faults(np.array([gf2.unvec(e, n) for e in extra], dtype=np.int8), xs)
            for k in range(1, t + 1):
                if compare(got[k], k, xs, tuple(extra), what) is None:
                    return
    rec.add(states=1)


def all_circuits(c, zero, length):
    """every CNOT sequence of the given length that reduces the checks, as a preparation circuit"""
    n = c["n"]
    rows = csscodes.rref(c["hx"] if zero else c["hz"])
    cols = [sum(((r >> q) & 1) << i for i, r in enumerate(rows)) for q in range(n)]
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for seq in itertools.product(pairs, repeat=length):
        e = list(cols)
        for i, j in seq:
            e[j] ^= e[i]
        if sum(1 for x in e if x == 0) != n - len(rows):
            continue
        h = [[q] for q in range(n) if bool(e[q]) == zero]
        yield h + [[i, j] if zero else [j, i] for i, j in reversed(seq)]


def cases(ctx):
    q = ctx.quick
    out = {"circuits": [], "histories": [], "additional": [], "codes": []}
    both = [["sets"]]
    d2 = [c for n in (4, 5) for mx in range(1, n) for mz in range(1, n - mx) for c in csscodes.codes(n, mx, mz, 2)]
    for c in d2:
        if c["n"] == 4:
            for zero in (True, False):
                m = prep.min_cnots(c["hx"] if zero else c["hz"], 4)
                for ln in (m, m + 1) if m < 3 or not q else (m,):
                    for i, g in enumerate(all_circuits(c, zero, ln)):
                        out["circuits"].append({**c, "zero": zero, "gates": g, "history": both})
    base = csscodes.named("422")
    E = [["set", 1, True, True], ["set", 1, False, True], ["set", 1, True, False], ["set", 1, False, False], ["sets"], ["combine", True, [3, 9]], ["combine", False, [5]], ["combine", True, []], ["detect", True], ["detect", False]]
    for h in itertools.product(E, repeat=2 if q else 3):
        for zero in (True, False):
            out["histories"].append({**base, "zero": zero, "od": True, "history": list(h)})
    E2 = [["set", 2, True, True], ["set", 2, False, False], ["set", 1, True, False], ["sets"], ["combine", True, [7, 48]], ["combine", False, [5]], ["detect", False], ["detect", True]]
    six = four_code()
    for i, h in enumerate(itertools.product(E2, repeat=2)):
        for zero in (True, False):
            if q and i % 7:
                continue
            out["histories"].append({**six, "zero": zero, "od": True, "det": True, "history": list(h)})
    st = csscodes.named("steane")
    for h in itertools.product(E2 + E[:4], repeat=2):
        out["histories"].append({**st, "zero": True, "od": False, "history": list(h)})
    for xs in (True, False):
        for zero in (True, False):
            ex = [[a] for a in range(1, 16)] + [list(p) for p in itertools.combinations(range(1, 16), 2)]
            for e in ex:
                out["additional"].append({**base, "zero": zero, "od": False, "history": [["combine", xs, e]]})
            for e in ([[1 << 0 | 1 << 1, 0b1111000], [0b101, 0b1110000, 0b11]] if q else [[a, b] for a in range(1, 128, 7) for b in range(a + 1, 128, 11)]):
                out["additional"].append({**st, "zero": zero, "od": True, "history": [["combine", xs, e]]})
            for e in ([[3 << 4]] if q else [[a] for a in range(1, 256, 5)]):
                out["additional"].append({**six, "det": True, "zero": zero, "od": True, "history": [["combine", xs, e]]})
    fam = list(d2)
    from p17 import perms
    for nm in ("steane", "shor", "surface3"):
        ps = perms(csscodes.named(nm)["n"], False)
        for p in ps[:: (3 if q else 1)]:
            v = csscodes.permuted(csscodes.named(nm), p)
            fam += [v] + ([csscodes.swapped(v)] if nm != "steane" else [])
    fam += [csscodes.named(x) for x in ("642", "832", "tetrahedral", "hamming")] + [csscodes.swapped(csscodes.named(x)) for x in ("832", "tetrahedral")]
    for c in fam:
        for zero in (True, False):
            for od in (True, False):
                out["codes"].append({**c, "zero": zero, "od": od, "history": both})
    ps = [tuple((i * a + b) % 12 for i in range(12)) for a in (1, 5, 7, 11) for b in range(12)]
    for p in ps[:: (12 if q else 2)]:
        for zero in (True, False):
            out["codes"].append({**csscodes.permuted(six, p), "det": True, "zero": zero, "od": True, "history": both})
    return out


def four_code():
    """smallest named code with distance 4: two faults in detection mode"""
    from mqt.qecc import CSSCode
    c = CSSCode.from_code_name("Carbon")
    return {"n": int(c.n), "hx": [gf2.vec(r) for r in c.Hx], "hz": [gf2.vec(r) for r in c.Hz], "d": [4, 4, 4], "name": "carbon"}


def run(ctx):
    mpstub.install()
    import mqt.qecc.ft_stateprep  # noqa: F401
    for part, cs in cases(ctx).items():
        mc.explore(ctx, part, cs, check, timeout=400)
        ctx.sample({part: cs[len(cs) // 2]})
    ctx.bound("every CNOT sequence of optimal length (thorough: also one more for all) preparing each of the distance-2 codes on 4 qubits; heuristic circuits of all distance-2 codes on 4 and 5 qubits, of Steane, Shor, surface code under affine permutations, [[6,4,2]], [[8,3,2]], tetrahedral, Hamming, and (two faults) Carbon; "
              "all call histories of length 2 (thorough 3) of ten operations on [[4,2,2]], of length 2 on Steane and Carbon; every one or two additional faults on [[4,2,2]]")
    ctx.assume("a fault is any Pauli on the qubits of a gate behind it, or on a fresh qubit; dangerous = heavier than the number of faults times floor(t_side / t)")


def replay(ctx, case):
    mpstub.install()
    mc.explore(ctx, "replay", [case], check, timeout=400)
