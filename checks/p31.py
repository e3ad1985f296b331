"""The qiskit wrapper: noise channels of every model, printed outcomes of every run, exported circuits."""
import contextlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile

import numpy as np

import mc

ONE = {
    "h": np.array([[1, 1], [1, -1]]) / np.sqrt(2), "id": np.eye(2), "s": np.diag([1, 1j]), "sdg": np.diag([1, -1j]), "t": np.diag([1, np.exp(0.25j * np.pi)]), "tdg": np.diag([1, np.exp(-0.25j * np.pi)]),
    "x": np.array([[0, 1], [1, 0]]), "y": np.array([[0, -1j], [1j, 0]]), "z": np.diag([1, -1]),
}
PAULI = [np.eye(2), ONE["x"], ONE["y"], ONE["z"]]


def u3(t, p, l):
    return np.array([[np.cos(t / 2), -np.exp(1j * l) * np.sin(t / 2)], [np.exp(1j * p) * np.sin(t / 2), np.exp(1j * (p + l)) * np.cos(t / 2)]])


def rot(axis, t):
    return np.cos(t / 2) * np.eye(2) - 1j * np.sin(t / 2) * axis


def perm(n, f):
    m = np.zeros((1 << n, 1 << n))
    for i in range(1 << n):
        m[f(i), i] = 1
    return m


def swp(i, a, b):
    x, y = i >> a & 1, i >> b & 1
    return i ^ ((x ^ y) << a) ^ ((x ^ y) << b)


# the operations the wrapper adds noise to: name -> (number of qubits, parameters, unitary)
OPS = {k: (1, (), ONE[k]) for k in ("h", "id", "s", "sdg", "t", "tdg")}
OPS.update({"u1": (1, (0.7,), u3(0, 0, 0.7)), "u2": (1, (0.3, 1.1), u3(np.pi / 2, 0.3, 1.1)), "u3": (1, (0.4, 0.9, 1.7), u3(0.4, 0.9, 1.7)), "rx": (1, (0.6,), rot(PAULI[1], 0.6)),
            "ry": (1, (0.8,), rot(PAULI[2], 0.8)), "rz": (1, (1.3,), rot(PAULI[3], 1.3)), "cx": (2, (), perm(2, lambda i: i ^ ((i & 1) << 1))), "swap": (2, (), perm(2, lambda i: swp(i, 0, 1))),
            "cswap": (3, (), perm(3, lambda i: swp(i, 1, 2) if i & 1 else i))})


def kraus(c, p):
    """documented channels: bit flip, phase flip, depolarization, amplitude damping"""
    if c == "B":
        return [np.sqrt(1 - p) * PAULI[0], np.sqrt(p) * PAULI[1]]
    if c == "P":
        return [np.sqrt(1 - p) * PAULI[0], np.sqrt(p) * PAULI[3]]
    if c == "D":
        return [np.sqrt(1 - 0.75 * p) * PAULI[0], *(np.sqrt(p / 4) * m for m in PAULI[1:])]
    return [np.diag([1, np.sqrt(1 - p)]), np.array([[0, np.sqrt(p)], [0, 0]])]


def sup(ks):
    return sum(np.kron(k.conj(), k) for k in ks)  # column stacking


def tensor(ks, n):
    out = [np.eye(1)]
    for _ in range(n):
        out = [np.kron(a, b) for a in ks for b in out]
    return out


def reduce_kraus(s):
    """superoperator of one qubit -> Kraus operators (from the Choi matrix)"""
    c = np.zeros((4, 4), complex)
    for i, j, k, l in itertools.product(range(2), repeat=4):  # s maps |k><l| to |i><j|: row 2*j+i, column 2*l+k
        c[2 * k + i, 2 * l + j] = s[2 * j + i, 2 * l + k]
    w, v = np.linalg.eigh(c)
    return [np.sqrt(x) * v[:, n].reshape(2, 2).T for n, x in enumerate(w) if x > 1e-12]


def model(case, rec):
    from qiskit import QuantumCircuit
    from qiskit_aer import AerSimulator

    from mqt.qecc import ecc_qiskit_wrapper as w
    m, p = case["m"], case["p"]
    if set(m) - set("BPDA") or not m:
        try:
            w.create_noise_model(m, p)
        except (ValueError, AssertionError) as ex:
            rec.add(traces=1, states=1)
            if m and not isinstance(ex, ValueError):
                rec.bad(f"noise model {m!r}: {type(ex).__name__}", case)
            return
        rec.bad(f"noise model {m!r} accepted", case)
        return
    nm = w.create_noise_model(m, p)
    s = np.eye(4)
    for c in m:
        s = sup(kraus(c, p)) @ s
    ks = reduce_kraus(s)
    for op in case["ops"]:
        n, par, u = OPS[op]
        q = QuantumCircuit(n)
        if op[0] == "u" or op == "cswap":
            q.append(gate(op, par), range(n))
        else:
            getattr(q, op)(*par, *range(n))
        q.save_superop()
        r = AerSimulator(method="superop", noise_model=nm).run(q).result()
        rec.add(traces=1, transitions=len(m))
        if not r.success:
            rec.bad(f"noise model {m} p={p}: simulation of {op} fails: {r.status}", case)
            return
        got = np.asarray(r.data()["superop"].data)
        want = sup(tensor(ks, n)) @ sup([u]) if n < 3 else apply3(ks, u)
        if not np.allclose(got, want, atol=1e-6):
            rec.bad(f"noise model {m} p={p}: {op} is followed by another channel (difference {np.abs(got - want).max():.3g})", case)
            return
    rec.add(states=1)


def gate(op, par):
    from qiskit.circuit.library import U1Gate, U2Gate, U3Gate, UnitaryGate
    if op == "cswap":  # not available to the superoperator method: its unitary under its name
        return UnitaryGate(OPS[op][2], label="cswap")
    return {"u1": U1Gate, "u2": U2Gate, "u3": U3Gate}[op](*par)


def apply3(ks, u):
    """superoperator of three independent one-qubit channels after u, built from one-qubit superoperators"""
    s1 = sup(ks).reshape(2, 2, 2, 2)  # j i l k
    n = 3
    big = np.array(1.0)
    t = s1
    for _ in range(n - 1):
        t = np.multiply.outer(s1, t)
    # axes: (j i l k) for qubit 2, 1, 0 -> j2 j1 j0 i2 i1 i0 l2 l1 l0 k2 k1 k0
    t = np.asarray(t).transpose([0, 4, 8, 1, 5, 9, 2, 6, 10, 3, 7, 11]).reshape(64, 64) * big
    return t @ sup([u])


# ------------------------------------------------------------------------------------------------------
class Result:
    def __init__(self, c):
        self.c = c

    def get_counts(self):
        return dict(self.c)


LINE = re.compile(r"State \|([01]+)> probability ([0-9.e+-]+)$")


def parse(text):
    return [(m[1], float(m[2])) for m in map(LINE.search, text.splitlines()) if m]


def outcomes(case, rec):
    """all tables of counts: registers that follow the first are summed over"""
    from mqt.qecc import ecc_qiskit_wrapper as w
    keys = case["keys"]
    for cs in itertools.product(range(case["max"] + 1), repeat=len(keys)):
        n = sum(cs)
        if not n:
            continue
        for th in case["th"]:
            b = io.StringIO()
            with contextlib.redirect_stdout(b):
                w.print_simulation_results(Result({k: c for k, c in zip(keys, cs) if c}), n, *([th] if th is not None else []))
            got = parse(b.getvalue())
            tot = {}
            for k, c in zip(keys, cs):
                if c:
                    tot[k.split(" ")[-1]] = tot.get(k.split(" ")[-1], 0) + c
            want = sorted((k, c / n) for k, c in tot.items())
            must = [x for x in want if x[1] > (th or 0)]
            rec.add(traces=1, states=1)
            if got != must and not (not got or got == [x for i, x in enumerate(want) if i == 0 or x in must]):
                rec.bad(f"counts {dict(zip(keys, cs))}, threshold {th}: printed {got}, expected {must}", case)
                return
            if must and [g for g in got if g in must] != must:
                rec.bad(f"counts {dict(zip(keys, cs))}, threshold {th}: printed {got}, expected {must}", case)
                return


# ------------------------------------------------------------------------------------------------------
def call(qasm, args, top):
    from mqt.qecc import ecc_qiskit_wrapper as w
    f = os.path.join(top, "c.qasm")
    with open(f, "w") as o:
        o.write(qasm)
    old = sys.argv
    sys.argv = ["ecc_qiskit_wrapper", "-f", f, *map(str, args)]
    b = io.StringIO()
    try:
        with contextlib.redirect_stdout(b):
            w.main()
        return b.getvalue()
    finally:
        sys.argv = old


def text(case):
    out = 'OPENQASM 2.0;\ninclude "qelib1.inc";\n'
    names = []
    for r, n in case["qregs"]:
        out += f"qreg {r}[{n}];\n"
        names += [f"{r}[{i}]" for i in range(n)]
    clb = []
    for r, n in case["cregs"]:
        out += f"creg {r}[{n}];\n"
        clb += [f"{r}[{i}]" for i in range(n)]
    for g, *qs in case["gates"]:
        out += f"{g} {','.join(names[q] for q in qs)};\n"
    for q, c in case["meas"]:
        out += f"measure {names[q]} -> {clb[c]};\n"
    return out


def exact(case, noise=None):
    """distribution of the printed bits; noise: Pauli applied to every qubit of an operation the model covers"""
    n = sum(k for _, k in case["qregs"])
    v = np.zeros(1 << n, complex)
    v[0] = 1

    def ap(m, qs):
        nonlocal v
        t = v.reshape([2] * n)
        ax = [n - 1 - q for q in reversed(qs)]
        t = np.moveaxis(t, ax, range(len(qs)))
        sh = t.shape
        t = (m @ t.reshape(1 << len(qs), -1)).reshape(sh)
        v = np.moveaxis(t, range(len(qs)), ax).reshape(-1)
    for g, *qs in case["gates"]:
        ap(ONE[g] if g in ONE else OPS[g][2], qs)
        if noise is not None and g in OPS:
            for q in qs:
                ap(noise, [q])
    meas = case["meas"] or [(q, q) for q in range(n)]
    width = case["cregs"][0][1] if case["meas"] else n
    dist = {}
    for i, a in enumerate(v):
        if abs(a) > 1e-9:
            k = sum((i >> q & 1) << c for q, c in meas)
            key = format(k, f"0{width}b")
            dist[key] = dist.get(key, 0) + abs(a) ** 2
    return dist


def close(got, want, shots):
    """printed outcomes against the exact distribution (all probabilities are multiples of 1/8 and the shots are seeded)"""
    return {k for k, _ in got} == set(want) and [k for k, _ in got] == sorted(k for k, _ in got) and abs(sum(p for _, p in got) - 1) < 1e-9 and all(abs(p - want[k]) < (1e-9 if want[k] > 1 - 1e-9 else 0.25) for k, p in got)


def main_run(case, rec):
    from mqt.qecc import apply_ecc
    from qiskit import QuantumCircuit
    top = tempfile.mkdtemp(prefix="p31")
    try:
        q = text(case)
        shots = case["shots"]
        args = ["-n", shots, "-s", case["seed"], "-ecc", case["ecc"], "-fs", case["fs"], "-fq", case["fq"], *case["noise"]]
        what = f"{q[36:]!r} with {args}"
        try:
            out = call(q, args, top)
        except Exception as ex:
            rec.bad(f"{what}: {type(ex).__name__}: {ex}", case)
            return
        pauli = None
        if case["noise"][-1] == 1:
            pauli = np.eye(2)
            for c in case["noise"][1]:
                pauli = ONE["x" if c == "B" else "z"] @ pauli
        want = exact(case, pauli)
        got = parse(out)
        rec.add(traces=1, states=1, transitions=len(case["gates"]))
        if not close(got, want, shots):
            rec.bad(f"{what}: printed {got}, exact distribution {want}", case)
            return
        if ("No measurement" in out) != (not case["meas"]):
            rec.bad(f"{what}: warning about missing measurements {'missing' if not case['meas'] else 'printed'}", case)
            return
        if case["export"]:
            e = os.path.join(top, "out.qasm")
            out = call(q, [*args, "-e", e], top)
            rec.add(traces=1)
            if parse(out) or not os.path.exists(e):
                rec.bad(f"{what}: export simulates or writes no file", case)
                return
            c = QuantumCircuit.from_qasm_file(e)
            if case["meas"]:
                ref = QuantumCircuit.from_qasm_file(os.path.join(top, "c.qasm"))
                if case["ecc"].lower() != "none":
                    ref = QuantumCircuit.from_qasm_str(apply_ecc(ref, case["ecc"], case["fq"])["circ"])
                if c != ref:
                    rec.bad(f"{what}: exported circuit differs from the circuit to be simulated", case)
                    return
            again = call(open(e).read(), ["-n", shots, "-s", case["seed"], "-ecc", "none", "-fs", case["fs"], "-p", 0], top)
            if case["noise"][-1] == 0 and not close(parse(again), want, shots):
                rec.bad(f"{what}: exported circuit yields {parse(again)}, exact distribution {want}", case)
                return
    finally:
        shutil.rmtree(top)


FN = {"model": model, "outcomes": outcomes, "main": main_run}
NOISELESS = ["-p", 0]


def cases(ctx):
    q = ctx.quick
    out = {k: [] for k in FN}
    small = [o for o in OPS if o != "cswap"]
    for n in range(1, 4 if q else 5):
        for m in itertools.product("BPDA", repeat=n):
            if 4 ** m.count("D") * 2 ** (m.count("B") + m.count("P")) > (16 if n < 4 else 8):
                continue  # the wrapper builds all combinations of terms for three qubits
            for p in (0.3, 1.0) if q and n < 3 else (0.2,) if n > 2 else (0.001, 0.3, 0.5, 1.0):
                out["model"].append({"m": "".join(m), "p": p, "ops": small if n < 3 or not q else ["h", "rz", "cx"]})
                if n == 1:
                    out["model"].append({"m": m[0], "p": p, "ops": ["cswap"]})
    for bad in ("X", "BX", "XB", "b", "DPQ", "B B", ""):
        out["model"].append({"m": bad, "p": 0.1, "ops": []})
    for keys in (["0", "1"], ["00", "01", "11"], ["0 0", "1 0", "0 1", "1 1"], ["01 00 1", "00 00 1", "10 11 0", "01 11 0"]):
        out["outcomes"].append({"keys": keys, "max": 4 if q else 7, "th": [None, 0, 0.2, 0.25, 0.5, 0.99]})

    def add(ecc, gates, qregs=(("q", 2),), cregs=(("c", 2),), meas=((0, 0), (1, 1)), fs="stabilizer", fq=100, noise=NOISELESS, export=False, shots=200, seed=0):
        out["main"].append({"ecc": ecc, "gates": [list(g) for g in gates], "qregs": [list(x) for x in qregs], "cregs": [list(x) for x in cregs], "meas": [list(x) for x in meas], "fs": fs, "fq": fq, "noise": noise,
                            "export": export, "shots": shots, "seed": seed})

    layouts = [
        {}, {"meas": ()}, {"meas": (), "cregs": ()}, {"meas": (), "cregs": (("c", 1),)}, {"meas": (), "cregs": (("c", 3),)}, {"meas": (), "cregs": (("a", 1), ("meas", 2))}, {"meas": ((0, 1), (1, 0))}, {"cregs": (("c", 3),), "meas": ((0, 2), (1, 0))},
        {"qregs": (("b", 1), ("a", 1))}, {"qregs": (("b", 1), ("a", 1)), "meas": ()}, {"meas": ((1, 0),)}, {"cregs": (("c", 1),), "meas": ((1, 0),)},
    ]
    xs = [[("x", i) for i in range(2) if v >> i & 1] for v in range(4)]
    eccs = [("none", "stabilizer"), ("Q5Laflamme", "stabilizer"), ("Q7Steane", "stabilizer"), ("Q9Surface", "stabilizer"), ("Q18Surface", "stabilizer"), ("Q3Shor", "statevector"), ("None", "none"), ("Id", "stabilizer")]
    for (ecc, fs), lay, g in itertools.product(eccs, layouts, xs):
        for fq in (1, 100):
            if q and ecc not in ("none", "Q7Steane") and g != xs[1] and (lay not in layouts[:3]):
                continue
            add(ecc, g, fs=fs, fq=fq, export=fq == 1 or not q, shots=40, **lay)
    # entangled circuits
    for ecc, fs in eccs:
        if ecc != "Q5Laflamme" and ecc != "Q18Surface":
            for g in ([("h", 0), ("cx", 0, 1)], [("x", 0), ("cx", 0, 1)], [("x", 1), ("cx", 1, 0)], [("h", 0), ("z", 0), ("h", 0)]):
                if ecc == "Q3Shor" and g[0][0] == "h" or ecc == "Q9Surface" and g[1][0] == "cx":  # not supported by the code
                    continue
                for lay in layouts[:5]:
                    add(ecc, g, fs=fs, export=True, shots=64, **lay)
    # certain noise: every operation is followed by the Pauli of the model
    pool = [("h", 0), ("h", 1), ("s", 0), ("sdg", 1), ("cx", 0, 1), ("cx", 1, 0), ("swap", 0, 1), ("id", 0), ("id", 1)]
    for n in range(1, 4):
        for g in itertools.product(pool, repeat=n):
            if n == 3 and q and (pool.index(g[0]) + 2 * pool.index(g[1]) + 3 * pool.index(g[2])) % 4:
                continue
            for m in ("B", "P", "BP", "BB"):
                if n == 3 and m in ("BP", "BB") and q:
                    continue
                add("none", g, noise=["-m", m, "-p", 1], **({} if n < 3 else {"meas": ()}))
    for seed in range(3):
        for shots in (1, 2, 7):
            add("Q7Steane", xs[1], shots=shots, seed=seed)
    return out


def run(ctx):
    import qiskit_aer  # noqa: F401
    import mqt.qecc.ecc_qiskit_wrapper  # noqa: F401
    for part, cs in cases(ctx).items():
        mc.explore(ctx, part, cs, FN[part], timeout=300)
        ctx.sample({part: cs[len(cs) // 2]})
    ctx.bound("all noise models of up to 3 (thorough 4) channels (with at most 16, for 4 channels 8, terms) x probabilities x all 15 operations the wrapper adds noise to (cswap for single channels); all tables of counts up to 4 (7) per outcome; "
              "all two-qubit circuits of up to 3 (quick: part of 3) gates under certain Pauli noise; register layouts x codes x basis states without noise, simulated and exported")
    ctx.assume("operations for which the wrapper defines no noise (for example x) are not required to be noisy; sampled frequencies of outcomes with probability below 1 are only compared within 0.25, their set exactly, at a fixed simulator seed")


def replay(ctx, case):
    part = "model" if "m" in case else "outcomes" if "keys" in case else "main"
    mc.explore(ctx, "replay", [case], FN[part], timeout=300)
