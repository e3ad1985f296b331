"""Verified state preparation circuits: prepare the state, and no undetected combination of tolerated faults leaves a heavier error."""
import stim

import csscodes
import gf2
import mc
import mpstub
import p19
import prep
import sp


def weights(case):
    """errors tolerated per fault on the X and on the Z side"""
    d, dx, dz = case["d"]
    t = max((d - 1) // 2, 1)
    return [max((x - 1) // 2, 1) // t for x in (dx, dz)]


def build(case):
    import mqt.qecc.ft_stateprep as f
    mpstub.SCHEDULE.reset(())
    code = prep.code_of(case)
    spc = p19.circuit(case, code)
    m, full = case["method"], case["full"]
    kw = dict(zip(("max_covering_sets", "find_coset_leaders"), case.get("opts", ())))
    if m == "heuristic":
        return spc, f.heuristic_verification_circuit(spc, full_fault_tolerance=full, **kw)
    if m == "optimal":
        return spc, f.gate_optimal_verification_circuit(spc, 60, 100, full_fault_tolerance=full, **kw)
    return spc, f.naive_verification_circuit(spc)


def ideal(op, nq, n, want):
    """None, or what goes wrong without faults"""
    s = stim.TableauSimulator()
    s.do(stim.Circuit(f"I {nq - 1}"))
    for name, q, _ in op:
        if name == "h":
            s.h(*q)
        elif name == "cx":
            s.cx(*q)
        elif name == "reset":
            s.reset(*q)
        elif name == "measure":
            if s.peek_z(q[0]) != 1:
                return f"measurement of qubit {q[0]} is not deterministically 0"
            s.measure(q[0])
        else:
            return f"gate {name}"
    for side, rows in zip("XZ", want):
        for r in rows:
            p = "".join(side if (r >> i) & 1 else "_" for i in range(n))
            if s.peek_observable_expectation(stim.PauliString(p + "_" * (nq - n))) != 1:
                return f"stabilizer {p} of the state is not +1"
    return None


def check(case, rec):
    n, zero, full = case["n"], case["zero"], case["full"]
    spc, circ = build(case)
    t = spc.max_errors
    op = sp.ops(circ)
    what = f"{case['hx']} {case['hz']} n={n} zero={zero} depth={case['od']} {case['method']} full={full} {case.get('opts', '')}"
    sx, sz = prep.state_of(case, zero)
    bad = ideal(op, circ.num_qubits, n, (sx, sz))
    if bad:
        rec.bad(f"{what}: {bad}", case)
        return
    own = prep.cnots(spc.circ)
    if own != prep.cnots(circ)[:len(own)]:
        rec.bad(f"{what}: the circuit does not start with the given preparation circuit", case)
        return
    if case["method"] == "naive":
        # measures every generator: faults are only dangerous if they cause logical errors
        cos = sp.Cosets(prep._kernel_basis(case["hz"], n), n), sp.Cosets(prep._kernel_basis(case["hx"], n), n)
    else:
        cos = sp.Cosets(sx, n), sp.Cosets(sz, n)
    w = weights(case)
    sides = [i for i in (0, 1) if full or case["method"] == "naive" or (i == 0) == zero]
    if case["method"] == "naive":
        sides = [0] if zero else [1]
    F = sp.Faults(op, circ.num_qubits, list(range(n)))
    memo = {}
    for k in range(1, min(t, 2) + 1):
        es = F.silent(k)
        rec.add(traces=len(es))
        for e in es:
            x, z, _ = F.split(int(e))
            for i in sides:
                v = (x, z)[i]
                key = i, v
                if key not in memo:
                    memo[key] = cos[i].weight(v)
                if memo[key] > k * w[i]:
                    rec.bad(f"{what}: {k} fault(s) that flip no measurement leave the {'XZ'[i]} error {bin(v)} of weight {memo[key]} [{prep.show(circ)}]", case)
                    return
    rec.add(states=1, transitions=sum(len(l) for l in F.loc))


def load(name):
    if name in ("square5", "hexagonal5"):
        from mqt.qecc.codes import HexagonalColorCode, SquareOctagonColorCode
        c = (SquareOctagonColorCode if name[0] == "s" else HexagonalColorCode)(5)
        h = [gf2.vec(r) for r in c.H]
        return {"n": int(c.n), "hx": h, "hz": h, "d": [5, 5, 5], "name": name}
    if name == "carbon":
        return p19.four_code()
    return csscodes.named(name)


def cases(ctx):
    import p17
    q = ctx.quick
    out = {"small": [], "permuted": [], "named": [], "two faults": []}
    kinds = [(m, full) for m in ("heuristic", "optimal") for full in (True, False)] + [("naive", True)]
    d2 = [c for n in (4, 5) for mx in range(1, n) for mz in range(1, n - mx) for c in csscodes.codes(n, mx, mz, 2)]
    for i, c in enumerate(d2):
        for j, (zero, od) in enumerate((z, o) for z in (True, False) for o in (True, False)):
            for m, full in kinds:
                if q and c["n"] == 5 and (i + j) % 3:
                    continue
                out["small"].append({**c, "zero": zero, "od": od, "method": m, "full": full})
                if m == "heuristic" and not q:
                    out["small"].append({**c, "zero": zero, "od": od, "method": m, "full": full, "opts": [2, False]})
    for nm in ("steane", "shor", "surface3"):
        for i, p in enumerate(p17.perms(csscodes.named(nm)["n"], False)):
            v = csscodes.permuted(csscodes.named(nm), p)
            for k, w in enumerate([v] + ([csscodes.swapped(v)] if nm != "steane" else [])):
                for j, (zero, od) in enumerate((z, o) for z in (True, False) for o in (True, False)):
                    for l, (m, full) in enumerate(kinds):
                        if q and (i + 2 * j + 3 * l + k) % 4:
                            continue
                        out["permuted"].append({**w, "zero": zero, "od": od, "method": m, "full": full})
    for nm in ("642", "832", "tetrahedral", "hamming"):
        c = csscodes.named(nm)
        for w in [c] + ([csscodes.swapped(c)] if nm in ("832", "tetrahedral") else []):
            for zero in (True, False):
                for od in (True, False):
                    for m, full in kinds:
                        if m == "naive" and nm == "tetrahedral":
                            continue  # flags for three faults are not available
                        if q and m == "optimal" and nm in ("tetrahedral", "hamming"):
                            continue
                        out["named"].append({**w, "zero": zero, "od": od, "method": m, "full": full})
    two = [("carbon", m, full, od) for m in ("heuristic", "naive") for full in (True, False) for od in (True, False)]
    two += [(nm, m, full, od) for nm in ("square5", "hexagonal5") for m in ("heuristic", "naive") for full in (True, False) for od in (True, False)]
    if not q:
        two += [("carbon", "optimal", True, True)]
    for i, (nm, m, full, od) in enumerate(two):
        if m == "naive" and not full:
            continue
        if q and (nm == "hexagonal5" or not full or not od):
            continue
        for zero in (True, False):
            out["two faults"].append({**load(nm), **({"det": True} if nm == "carbon" else {}), "zero": zero, "od": od, "method": m, "full": full})
    return out


def run(ctx):
    mpstub.install()
    import mqt.qecc.ft_stateprep  # noqa: F401
    cs = cases(ctx)
    for part in ("two faults", "named", "permuted", "small"):
        mc.explore(ctx, part, cs[part], check, timeout=600)
        ctx.sample({part: cs[part][len(cs[part]) // 2]})
    ctx.bound("verified circuits (heuristic, gate-optimal, naive; full fault tolerance or not) of all distance-2 codes on 4 and 5 qubits, Steane, Shor and surface code under affine permutations and with X/Z exchanged, [[6,4,2]], [[8,3,2]], tetrahedral, Hamming; every single fault; "
              "every pair of faults for Carbon (error detection) and the distance-5 square-octagon (thorough: hexagonal) color code")
    ctx.assume("faults: any Pauli behind a gate, in front of or flipping a measurement, on a fresh qubit; silent = no written classical bit flips. Naive circuits measure every generator and are specified only up to logical operators of the side of the state; without full fault tolerance only the side that cannot be corrected by the state is specified")


def replay(ctx, case):
    mpstub.install()
    mc.explore(ctx, "replay", [case], check, timeout=600)
