"""Flagged measurement gadgets: measure exactly the stabilizer; undetected faults leave errors no heavier than their number."""
import itertools

import stim

import gf2
import mc
import sp


def gadget(case):
    from qiskit import AncillaRegister, ClassicalRegister, QuantumCircuit, QuantumRegister
    from mqt.qecc.ft_stateprep import state_prep as m
    w, t, z, n = case["w"], case["t"], case["z"], case["n"]
    q, a, c = QuantumRegister(n, "q"), AncillaRegister(1, "a"), ClassicalRegister(1, "c")
    qc = QuantumCircuit(q, a, c)
    data = [q[i] for i in case["on"]]
    m.measure_flagged(qc, data, a[0], c[0], t, z)
    return qc


def outcome(op, nq, n, on, z, eig):
    """None, or what goes wrong without faults on an eigenstate: random input state of the stabilizer tableau"""
    s = stim.TableauSimulator()
    s.do(stim.Circuit(f"I {nq - 1}"))
    # eig: bit pattern in the basis of the measurement -> result is its parity
    for i, b in enumerate(eig):
        if b:
            s.x(i)
        if not z:
            s.h(i)
    res = {}
    for name, q, c in op:
        if name == "h":
            s.h(*q)
        elif name == "cx":
            s.cx(*q)
        elif name == "reset":
            s.reset(*q)
        elif name == "measure":
            v = s.peek_z(q[0])
            if v == 0:
                return "random measurement result"
            s.measure(q[0])
            if c[0] in res and (res[c[0]] or v == -1) and c[0] != 0:
                return "flag measured as 1"
            res[c[0]] = v == -1
        else:
            return f"gate {name}"
    par = sum(eig[i] for i in on) % 2
    if 0 not in res or res[0] != bool(par):
        return f"result {res.get(0)} for parity {par}"
    if any(v for k, v in res.items() if k != 0):
        return "flag raised without a fault"
    for i, b in enumerate(eig):
        o = "_" * i + ("Z" if z else "X") + "_" * (nq - i - 1)
        if s.peek_observable_expectation(stim.PauliString(o)) != (-1 if b else 1):
            return f"data qubit {i} changed"
    return None


def preserved(op, nq, n, on, z):
    """None, or a Pauli that commutes with the stabilizer but is not preserved by the circuit"""
    # propagate the Pauli on the data through the circuit: it has to come out equal, up to the stabilizer, without touching a measurement
    full = sum(1 << i for i in on)
    for x, zz in itertools.chain(((0, 1 << i) for i in range(n)), ((1 << i, 0) for i in range(n)), (((1 << i) | (1 << j), 0) for i in range(n) for j in range(i)), ((0, (1 << i) | (1 << j)) for i in range(n) for j in range(i))):
        if gf2.par((x if z else zz) & full):
            continue
        px, pz, flips = x, zz, set()
        for name, q, c in op:
            if name == "h":
                b = 1 << q[0]
                xb, zb = px & b, pz & b
                px, pz = (px & ~b) | zb, (pz & ~b) | xb
            elif name == "cx":
                if (px >> q[0]) & 1:
                    px ^= 1 << q[1]
                if (pz >> q[1]) & 1:
                    pz ^= 1 << q[0]
            elif name == "reset":
                px &= ~(1 << q[0])
                pz &= ~(1 << q[0])
            elif name == "measure":
                if (px >> q[0]) & 1:
                    return f"X{x:b} Z{zz:b} flips the measurement of {c}"
                pz &= ~(1 << q[0])
        dx, dz = (px & ((1 << n) - 1)) ^ x, (pz & ((1 << n) - 1)) ^ zz
        st = (0, full) if z else (full, 0)
        if (dx, dz) not in ((0, 0), st):
            return f"X{x:b} Z{zz:b} becomes X{px:b} Z{pz:b}"
    return None


def check(case, rec):
    w, t, z, n, on = case["w"], case["t"], case["z"], case["n"], case["on"]
    what = f"t={t} weight {w} on {on} of {n} {'Z' if z else 'X'}"
    qc = gadget(case)
    op = sp.ops(qc)
    nq = qc.num_qubits
    for eig in itertools.product((0, 1), repeat=n):
        if n > 8 and sum(eig) not in (0, 1, 2, n - 1, n):
            continue
        bad = outcome(op, nq, n, on, z, eig)
        rec.add(traces=1)
        if bad:
            rec.bad(f"{what}: {bad} on {eig}", case)
            return
    bad = preserved(op, nq, n, on, z)
    if bad:
        rec.bad(f"{what}: {bad}", case)
        return
    unread = set(range(qc.num_clbits)) - {c[0] for nm, _, c in op if nm == "measure"}
    if unread:
        rec.bad(f"{what}: classical bits {unread} are never written", case)
        return
    F = sp.Faults(op, nq, list(range(n)))
    stab = sum(1 << i for i in on)
    cos = sp.Cosets([] if z else [stab], n), sp.Cosets([stab] if z else [], n)
    # flags only: the measurement result itself may flip without notice
    d = 2 * n
    keep = (1 << (d + qc.num_clbits)) - 1 & ~(1 << d)
    sing = {e & keep for e in F.singles()}
    rec.add(states=1, transitions=len(sing))
    groups = {}
    for e in sing:
        groups.setdefault(e >> d, set()).add(e & ((1 << d) - 1))
    for k in range(1, t + 1):
        es = groups.get(0, set()) if k == 1 else {a ^ b for g in groups.values() for a in g for b in g}
        for e in es:
            x, zz = e & ((1 << n) - 1), e >> n
            for s, v in enumerate((x, zz)):
                rec.add(traces=1)
                if cos[s].weight(v) > k:
                    rec.bad(f"{what}: {k} fault(s) without a flag leave the {'XZ'[s]} error {bin(v)}, weight {cos[s].weight(v)} up to the measured stabilizer [{' '.join(f'{a}{b}' for a, b, _ in op)}]", case)
                    return


def rejected(case, rec):
    from qiskit import AncillaRegister, ClassicalRegister, QuantumCircuit, QuantumRegister
    from mqt.qecc.ft_stateprep import state_prep as m
    w, t, z = case["w"], case["t"], case["z"]
    q, a, c = QuantumRegister(w, "q"), AncillaRegister(1, "a"), ClassicalRegister(1, "c")
    qc = QuantumCircuit(q, a, c)
    rec.add(states=1, traces=1)
    try:
        m.measure_flagged(qc, list(q), a[0], c[0], t, z)
    except NotImplementedError:
        return
    rec.bad(f"flagged measurement of weight {w} for {t} faults claims to exist", case)


def cases(ctx):
    q = ctx.quick
    out = []
    top = 16 if q else 22
    for z in (True, False):
        for t in (1, 2):
            for w in range(1, top + 1):
                out.append({"t": t, "w": w, "z": z, "n": w, "on": list(range(w))})
        for w in range(1, 8 if q else 11):
            for n in (w + 1, w + 2):
                for t in (1, 2):
                    for on in itertools.combinations(range(n), w):
                        out.append({"t": t, "w": w, "z": z, "n": n, "on": list(on)})
        for w in range(1, 7 if q else 8):
            for on in itertools.permutations(range(w)):
                for t in (1, 2):
                    out.append({"t": t, "w": w, "z": z, "n": w, "on": list(on)})
    return out


def run(ctx):
    import mqt.qecc.ft_stateprep  # noqa: F401
    cs = cases(ctx)
    mc.explore(ctx, "gadgets", cs, check, timeout=600)
    rs = [{"w": w, "t": t, "z": z, "reject": 1} for w in (5, 7, 9, 10) for t in (3, 4) for z in (True, False)]
    mc.explore(ctx, "unavailable gadgets", rs, rejected, timeout=60)
    for c in cs[:: len(cs) // 5]:
        ctx.sample(c)
    ctx.bound("stabilizers of weight 1-16 (thorough 22), X and Z, one and two flags; every choice of up to 7 (10) of one or two more qubits, every order of up to 6 (7) qubits; every single fault and every pair of faults; every eigenstate (up to 8 qubits, else few-bit ones)")
    ctx.assume("the measurement result itself may be flipped by a fault; a fault is detected if a flag bit flips")


def replay(ctx, case):
    import mqt.qecc.ft_stateprep  # noqa: F401
    mc.explore(ctx, "replay", [case], rejected if case.get("reject") else check, timeout=600)
