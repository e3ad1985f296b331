"""State preparation: shared pieces of the checks P17-P21"""
import csscodes
import gf2
import mpstub
import sp


def code_of(case):
    return csscodes.make(case["n"], case["hx"], case["hz"], *case["d"])


def state_of(case, zero):
    """(X stabilizer rows, Z stabilizer rows) of the logical |0..0> resp. |+..+>"""
    n, hx, hz = case["n"], case["hx"], case["hz"]
    comp = lambda rows: _kernel_basis(rows, n)
    return (list(hx), comp(hx)) if zero else (comp(hz), list(hz))


def _kernel_basis(rows, n):
    """basis of {e : e orthogonal to all rows}"""
    rows = [r for r in csscodes.rref(rows)]
    piv = [r.bit_length() - 1 for r in rows]
    out = []
    for f in range(n):
        if f in piv:
            continue
        v = 1 << f
        for r, p in zip(rows, piv):
            if (r >> f) & 1:
                v |= 1 << p
        out.append(v)
    return out


def same(a, b):
    return csscodes.rref(a) == csscodes.rref(b)


def build(case, code, timeouts=()):
    import mqt.qecc.ft_stateprep as f
    mpstub.SCHEDULE.reset(timeouts)
    m, zero = case["method"], case["zero"]
    if m == "heuristic":
        return f.heuristic_prep_circuit(code, optimize_depth=case["od"], zero_state=zero)
    fn = f.gate_optimal_prep_circuit if m == "gate" else f.depth_optimal_prep_circuit
    lo, hi = case["range"]
    kw = {"min_gates": lo, "max_gates": hi} if m == "gate" else {"min_depth": lo, "max_depth": hi}
    return fn(code, zero_state=zero, min_timeout=case.get("tmin", 60), max_timeout=case.get("tmax", 100), **kw)


def cnots(circ):
    return [q for name, q, _ in sp.ops(circ) if name == "cx"]


def cx_depth(circ):
    at = [0] * circ.num_qubits
    for a, b in cnots(circ):
        at[a] = at[b] = max(at[a], at[b]) + 1
    return max(at + [0])


def wrong_state(circ, case, zero):
    """None, or why the circuit does not prepare the state"""
    n = case["n"]
    if circ.num_qubits != n:
        return f"{circ.num_qubits} qubits"
    o = sp.ops(circ)
    bad = {name for name, _, _ in o} - {"h", "cx"}
    if bad:
        return f"gates {bad}"
    st = sp.css_state(o, n)
    if st is None:
        return "not a CSS state"
    want = state_of(case, zero)
    if not same(st[0], want[0]) or not same(st[1], want[1]):
        return f"state has X stabilizers {st[0]} Z stabilizers {st[1]}, not {want}"
    return None


def show(circ):
    return " ".join(f"{n}{q}".replace(" ", "") for n, q, _ in sp.ops(circ))


def min_cnots(rows, n, depth=False):
    """fewest CNOTs (CNOT layers) that reduce the rows by column additions to n - rank zero columns"""
    r = gf2.rank(rows)
    rows = csscodes.rref(rows)
    cols = tuple(sum(((row >> q) & 1) << i for i, row in enumerate(rows)) for q in range(n))
    done = lambda c: sum(1 for x in c if x == 0) == n - r
    if done(cols):
        return 0
    seen, front, w = {cols}, [cols], 0
    while True:
        w += 1
        nxt = []
        for c in front:
            for d in (_layers(c, n) if depth else ([(i, j)] for i in range(n) for j in range(n) if i != j)):
                e = list(c)
                for i, j in d:
                    e[j] ^= c[i]
                e = tuple(e)
                if e in seen:
                    continue
                if done(e):
                    return w
                seen.add(e)
                nxt.append(e)
        front = nxt


_LAY = {}


def _layers(c, n):
    if n not in _LAY:
        def rec(free):
            if len(free) < 2:
                yield []
                return
            a, rest = free[0], free[1:]
            yield from rec(rest)
            for b in rest:
                r2 = [x for x in rest if x != b]
                for l in rec(r2):
                    yield l + [(a, b)]
                    yield l + [(b, a)]
        _LAY[n] = [l for l in rec(list(range(n))) if l]
    return _LAY[n]
