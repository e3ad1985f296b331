"""Noisy simulation of state preparation: the simulated circuit, its noise, the verdict on every fault, and the counting of shots."""
import itertools
import math
from collections import Counter

import numpy as np
import stim

import csscodes
import gf2
import mc
import mpstub
import p21
import prep
import sp

P = 0.09


def circuit_of(case):
    if "gates" in case:
        from qiskit import QuantumCircuit
        qc = QuantumCircuit(case["nq"], case.get("nc", 0))
        for g in case["gates"]:
            if g[0] == "m":
                qc.measure(g[1], g[2])
            else:
                qc.h(g[0]) if len(g) == 1 else qc.cx(*g)
        return qc
    if case["method"] == "plain":
        import p19
        return p19.circuit(case, prep.code_of(case)).circ
    return p21.build(case)[1]


class Frame:
    """effects of Paulis at the current (backwards) position: sets of measurement keys"""

    def __init__(self):
        self.X, self.Z = {}, {}

    def x(self, q):
        return self.X.get(q, frozenset())

    def z(self, q):
        return self.Z.get(q, frozenset())

    def h(self, q):
        self.X[q], self.Z[q] = self.z(q), self.x(q)

    def cx(self, c, t):
        self.X[c] = self.x(c) ^ self.x(t)
        self.Z[t] = self.z(t) ^ self.z(c)

    def measure(self, q, key):
        self.X[q] = self.x(q) ^ {key}
        self.Z[q] = frozenset()

    def reset(self, q):
        self.X[q] = self.Z[q] = frozenset()

    def dep1(self, q):
        return [self.x(q), self.z(q), self.x(q) ^ self.z(q)]

    def dep2(self, a, b):
        A, B = [frozenset()] + self.dep1(a), [frozenset()] + self.dep1(b)
        return [i ^ j for i in A for j in B][1:]


def of_stim(circ, n, zero, nver):
    """(channels with their effects in order [(name, prob, [effects], position, targets)], problem or None)"""
    flat = [(i.name, [t.value for t in i.targets_copy()], i.gate_args_copy()) for i in circ.flattened()]
    single = []
    for name, t, a in flat:
        two = name in ("CX", "CNOT", "ZCX", "DEPOLARIZE2")
        step = 2 if two else 1
        for k in range(0, len(t), step):
            single.append((name, t[k:k + step], a))
    nm = sum(1 for s in single if s[0][0] == "M")
    seen = Counter()
    keys = {}
    k = 0
    for i, (name, t, _) in enumerate(single):
        if name[0] == "M":
            keys[i] = k, (t[0], seen[t[0]])
            seen[t[0]] += 1
            k += 1
    f = Frame()
    out = []
    for i in range(len(single) - 1, -1, -1):
        name, t, a = single[i]
        if name == "H":
            f.h(t[0])
        elif name in ("CX", "CNOT", "ZCX"):
            f.cx(*t)
        elif name in ("M", "MZ", "MR", "MRZ", "MX", "MRX", "R", "RZ", "RX"):
            if name.endswith("X"):
                f.h(t[0])
            if "R" in name:
                f.reset(t[0])
            if name[0] == "M":
                f.measure(t[0], keys[i][0])
            if name.endswith("X"):
                f.h(t[0])
        elif name == "DEPOLARIZE1":
            out.append((name, a[0], f.dep1(t[0]), i))
        elif name == "DEPOLARIZE2":
            out.append((name, a[0], f.dep2(*t), i))
        elif name in ("X_ERROR", "Z_ERROR", "Y_ERROR"):
            out.append((name, a[0], [{"X": f.x, "Z": f.z}.get(name[0], lambda q: f.x(q) ^ f.z(q))(t[0])], i))
        elif name not in ("I", "TICK"):
            return None, None, f"unexpected instruction {name}"
    return out[::-1], single, {v[0]: v[1] for v in keys.values()}


def linear(op, single):
    """order in which the simulated circuit executes the operations, or None if it is not an order of the given circuit"""
    queue = {}
    for i, (name, q, _) in enumerate(op):
        for x in q:
            queue.setdefault(x, []).append(i)
    order, live = [], set()
    want = sum(1 for o in op if o[0] == "cx" or o[0] == "measure")
    for name, t, _ in single:
        if not want:
            break
        if name == "H":
            if t[0] in live:
                i = queue[t[0]].pop(0) if queue.get(t[0]) else None
                if i is None or op[i][0] != "h":
                    return None
                order.append(i)
            continue
        if name not in ("CX", "MR", "M", "MZ", "MRZ"):
            continue
        for x in t:
            while queue.get(x) and (op[queue[x][0]][0] == "reset" or x not in live and op[queue[x][0]][0] == "h"):
                order.append(queue[x].pop(0))
        i = queue[t[0]][0] if queue.get(t[0]) else None
        if i is None or op[i][1] != t or any(queue[x][0] != i for x in t) or (op[i][0] == "cx") != (name == "CX"):
            return None
        for x in t:
            queue[x].pop(0)
        live = live | set(t) if name == "CX" else live - set(t)
        order.append(i)
        want -= 1
    return None if want else order + sorted({i for l in queue.values() for i in l})


def expected(circ, n, zero, parallel, p, single):
    """documented noise of the given circuit: [(prob, effects)] with effects on verification bits ('v', qubit, occurrence) and data ('d', i)"""
    op = sp.ops(circ)
    nq = circ.num_qubits
    # just-in-time initialization: (op index, noise list) in circuit order
    prog = []  # ("h"/"cx"/"measure"/"noise", ...)
    live, plus, occ = set(), set(), Counter()
    level, at = {}, []
    for i, (name, q, c) in enumerate(op):
        w = [("q", x) for x in q] + [("c", x) for x in c]
        l = max([level.get(x, 0) for x in w]) + 1
        for x in w:
            level[x] = l
        at.append(l)
    order = sorted(range(len(op)), key=lambda i: (at[i], i)) if parallel else linear(op, single)
    used, cur = [], None

    def idle(qs):
        for q in range(nq):
            if q in live and q not in qs:
                prog.append(("dep1", q, 2 * p / 3))

    for i in order:
        name, q, _ = op[i]
        if parallel and at[i] != cur:
            if used:
                idle(used)
            used, cur = [], at[i]
        if name == "h":
            if q[0] in live:
                prog += [("h", q[0]), ("dep1", q[0], 2 * p / 3)]
            else:
                plus ^= {q[0]}
                continue
        elif name == "cx":
            for x in q:
                if x not in live:
                    if x in plus:
                        prog += [("h", x), ("zerr", x, 2 * p / 3)]
                        plus.discard(x)
                    else:
                        prog.append(("xerr", x, 2 * p / 3))
                    live.add(x)
            prog += [("cx", *q), ("dep2", q, p)]
        elif name == "measure":
            prog += [("xerr", q[0], 2 * p / 3), ("measure", q[0], ("v", q[0], occ[q[0]]))]
            occ[q[0]] += 1
            live.discard(q[0])
        else:
            continue
        if parallel:
            used += q
        else:
            idle(q)
    for x in sorted(plus):
        prog.append(("h", x))
    f = Frame()
    for i in range(n):
        if zero:
            f.X[i] = frozenset({("d", i)})
        else:
            f.Z[i] = frozenset({("d", i)})
    out = []
    for s in reversed(prog):
        if s[0] == "h":
            f.h(s[1])
        elif s[0] == "cx":
            f.cx(s[1], s[2])
        elif s[0] == "measure":
            f.reset(s[1])
            f.measure(s[1], s[2])
        elif s[0] == "dep1":
            out.append((s[2], f.dep1(s[1])))
        elif s[0] == "dep2":
            out.append((s[2], f.dep2(*s[1])))
        else:
            out.append((s[2], [(f.x if s[0] == "xerr" else f.z)(s[1])]))
    return out


def norm(chs):
    """multiset of channels that do something"""
    return Counter((round(p, 12), tuple(sorted(tuple(sorted(e)) for e in effs))) for p, effs in chs if any(effs))


def verdicts(e, rows, trivial, best):
    """possible verdicts (logical error?) for the data error e: every lightest correction counts"""
    s = tuple(gf2.par(r & e) for r in rows)
    return {(e ^ c) not in trivial for c in best[s]}


def light(rows, n):
    best = {}
    for e in sorted(range(1 << n), key=gf2.wt):
        s = tuple(gf2.par(r & e) for r in rows)
        if s not in best or gf2.wt(best[s][0]) == gf2.wt(e):
            best.setdefault(s, []).append(e)
    return best


def check(case, rec):
    from mqt.qecc.ft_stateprep import NoisyNDFTStatePrepSimulator
    n, zero, par = case["n"], case["zero"], case["parallel"]
    code = prep.code_of(case)
    circ = circuit_of(case)
    what = f"{case['hx']} {case['hz']} n={n} zero={zero} parallel={par} {case.get('gates') or case['method']}"
    sim = NoisyNDFTStatePrepSimulator(circ, code, P, zero, par)
    rec.add(states=1)
    for p in ((P,) if case.get("once") else (P, 0.03)):
        if p != P:
            sim.set_p(p)
        if sim.num_qubits != n or len(sim.data_measurements) != n:
            rec.bad(f"{what}: {sim.num_qubits} data qubits, {len(sim.data_measurements)} measured", case)
            return
        ver = sim.x_verification_measurements + sim.z_verification_measurements
        nver = sum(1 for o in sp.ops(circ) if o[0] == "measure")
        if len(set(ver)) != len(ver) or len(ver) != nver or len(sim.x_measurements) != len(case["hx"]) or len(sim.z_measurements) != len(case["hz"]):
            rec.bad(f"{what}: measurement records {ver} {sim.x_measurements} {sim.z_measurements}", case)
            return
        chs, single, keys = of_stim(sim.stim_circ, n, zero, nver)
        if chs is None:
            rec.bad(f"{what}: {keys}", case)
            return
        name = {m: ("v",) + keys[m] for m in ver} | {m: ("d", i) for i, m in enumerate(sim.data_measurements)}
        rows = case["hz"] if zero else case["hx"]
        syn = {m: i for i, m in enumerate(sim.z_measurements if zero else sim.x_measurements)}
        ren = lambda e: frozenset(name[m] for m in e if m in name)
        got = norm([(a, [ren(e) for e in effs]) for _, a, effs, _ in chs])
        if linear(sp.ops(circ), single) is None:
            rec.bad(f"{what}: the simulated circuit is another one: {sim.stim_circ}", case)
            return
        want = norm(expected(circ, n, zero, par, p, single))
        rec.add(transitions=len(chs))
        if got != want:
            miss, more = list((want - got).items())[:2], list((got - want).items())[:2]
            rec.bad(f"{what} p={p}: noise differs: missing {miss}, unexpected {more}", case)
            return
        for _, _, effs, _ in chs:
            for e in effs:
                d = gf2.vec([1 if ("d", i) in ren(e) else 0 for i in range(n)])
                if {syn[m] for m in e if m in syn} != {i for i, r in enumerate(rows) if gf2.par(r & d)}:
                    rec.bad(f"{what}: syndrome of data error {bin(d)} is {[m for m in e if m in syn]}", case)
                    return
    # every fault through the public interface
    trivial = gf2.span(case["hx"] if zero else case["hz"])
    best = light(rows, n)
    noise = [(0, [frozenset()], None)] + [(j, effs, i) for j, (_, _, effs, i) in enumerate(chs)]
    paulis = {"DEPOLARIZE1": [(a,) for a in "XZY"], "DEPOLARIZE2": [(a, b) for a in "IXZY" for b in "IXZY"][1:]}
    faults, known = [], set()
    for j, effs, i in noise:
        if i is None:
            faults.append(((), frozenset()))
            continue
        nm = single[i][0]
        for pl, e in zip(paulis.get(nm, [(nm[0],)]), effs):
            if frozenset(e) not in known:  # faults with the same effect on all measurements are the same fault
                known.add(frozenset(e))
                faults.append((((i, pl),), e))
    combos = list(faults)
    if case.get("pairs"):
        seen = {}
        for fa in faults[1:]:
            seen.setdefault(frozenset(fa[1]), fa)
        reps = list(seen.values())
        combos += [(a[0] + b[0], a[1] ^ b[1]) for a, b in itertools.combinations(reps, 2)]
    for places, e in combos:
        c = stim.Circuit()
        at = {}
        for i, pl in places:
            at.setdefault(i, []).append(pl)
        for i, (nm, t, a) in enumerate(single):
            if nm in ("DEPOLARIZE1", "DEPOLARIZE2", "X_ERROR", "Y_ERROR", "Z_ERROR"):
                for pl in at.get(i, ()):
                    for ch, q in zip(pl, t):
                        if ch != "I":
                            c.append(ch, [q])
            else:
                c.append(nm, t, a)
        sim.stim_circ = c
        try:
            res = sim.logical_error_rate(shots=1, shots_per_batch=1, at_least_min_errors=False)
        except Exception as ex:
            rec.bad(f"{what} fault {places}: {type(ex).__name__}: {ex}", case)
            return
        rec.add(traces=1)
        names = ren(e)
        flagged = any(x[0] == "v" for x in names)
        d = gf2.vec([1 if ("d", i) in names else 0 for i in range(n)])
        oks = [(0.0, 0.0, 0, 1)] if flagged else [((1 / code.k, 1.0, 1, 1) if v else (0.0, 1.0, 0, 1)) for v in verdicts(d, rows, trivial, best)]
        if not any(all(math.isclose(x, y, abs_tol=1e-9) for x, y in zip(res, o)) for o in oks):
            rec.bad(f"{what} faults {places}: reported (rate, acceptance, errors, shots) = {tuple(map(float, res))}, data error {bin(d)}, verification flips {sorted(map(str, (x for x in names if x[0] == 'v')))}: expected {oks}", case)
            return


class Scripted:
    """stands for the sampled circuit: the outcomes of the shots are prescribed"""

    def __init__(self, rows, script):
        self.rows, self.script, self.pos, self.batches = rows, script, 0, []

    def compile_sampler(self, *a, **k):
        return self

    def sample(self, shots, *a, **k):
        if self.pos + shots > len(self.script):
            raise EOFError
        r = [self.rows[o] for o in self.script[self.pos:self.pos + shots]]
        self.pos += shots
        self.batches.append(shots)
        return np.array(r, dtype=bool)


def accounting(case, rec):
    from mqt.qecc.ft_stateprep import NoisyNDFTStatePrepSimulator
    n, zero = case["n"], case["zero"]
    code = prep.code_of(case)
    sim = NoisyNDFTStatePrepSimulator(circuit_of(case), code, P, zero)
    ver = sim.x_verification_measurements + sim.z_verification_measurements
    rows, triv = (case["hz"], gf2.span(case["hx"])) if zero else (case["hx"], gf2.span(case["hz"]))
    log = next(e for e in sorted(range(1, 1 << n), key=gf2.wt) if not any(gf2.par(r & e) for r in rows) and e not in triv)
    zerol = [0] * sim.n_measurements
    err, disc = list(zerol), list(zerol)
    for i in range(n):
        if (log >> i) & 1:
            err[sim.data_measurements[i]] = 1
    disc[ver[case["ver"] % len(ver)]] = 1
    lay = {"o": zerol, "e": err, "d": disc}
    for shots, per, least in itertools.product(range(1, case["shots"] + 1), range(1, case["shots"] + 2), (None, 1, 2)):
        b = min(per, shots)
        for script in itertools.product("oed", repeat=-(-shots // b) * b if least is None else case["shots"]):
            need = len(script)
            if least is not None:
                cnt, need = 0, None
                for i in range(0, len(script) - b + 1, b):
                    cnt += script[i:i + b].count("e")
                    if cnt >= least:
                        need = i + b
                        break
                if need is None or "o" in script[need:] or "d" in script[need:]:
                    continue  # endless, or the tail was tried already
            st = Scripted(lay, script)
            sim.stim_circ = st
            what = f"shots={shots} per batch={per} min errors={least} outcomes {''.join(script[:need])}"
            try:
                res = sim.logical_error_rate(shots=shots, shots_per_batch=per, at_least_min_errors=least is not None, min_errors=least or 500)
            except Exception as ex:
                rec.bad(f"{what}: {type(ex).__name__}: {ex}", case)
                return
            rec.add(traces=1, transitions=len(st.batches))
            e, d = script[:need].count("e"), script[:need].count("d")
            want = ((e / (need - d) if need > d else 0.0) / code.k, 1 - d / need, e, need)
            if st.pos != need or not all(math.isclose(x, y, abs_tol=1e-9) for x, y in zip(res, want)):
                rec.bad(f"{what}: reported (rate, acceptance, errors, shots) = {tuple(map(float, res))} after {st.pos} shots, counted {want}", case)
                return
    rec.add(states=1)


def plots(case, rec):
    """plot_state_prep shows, for every given rate in this order, the two rates measured with the circuit of that rate"""
    import inspect
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from mqt.qecc.ft_stateprep import NoisyNDFTStatePrepSimulator as Sim
    real, seen = Sim.logical_error_rate, []
    sig = inspect.signature(real)

    def fake(self, *a, **k):
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        noise = {i.gate_args_copy()[0] for i in self.stim_circ if i.name == "DEPOLARIZE2"}
        seen.append((noise, b.arguments["min_errors"], b.arguments["at_least_min_errors"]))
        (q,) = noise
        return q * 3, 1 - q, 7, 100

    n, code = case["n"], prep.code_of(case)
    sim = Sim(circuit_of(case), code, 0.07, case["zero"])
    what = f"plots {case['plots']}"
    Sim.logical_error_rate = fake
    try:
        plt.close("all")
        want = []
        for ps, name, least in case["plots"]:
            del seen[:]
            sim.plot_state_prep(list(ps), **({} if least is None else {"min_errors": least}), **({} if name is None else {"name": name}))
            rec.add(transitions=1)
            want.append((ps, name))
            if seen != [({p}, 500 if least is None else least, True) for p in ps]:
                rec.bad(f"{what}: simulated (noise, errors asked for) {seen}", case)
                return
        axs = plt.gcf().axes
        got = [[(list(map(float, ln.get_xdata())), list(map(float, ln.get_ydata())), ln.get_label()) for ln in a.lines] for a in axs]
        if len(axs) != 2 or "error" not in axs[0].get_ylabel().lower() or "acc" not in axs[1].get_ylabel().lower():
            rec.bad(f"{what}: axes {[a.get_ylabel() for a in axs]}", case)
            return
        for lines, f in zip(got, (lambda p: p * 3, lambda p: 1 - p)):
            if [x[:2] for x in lines] != [(list(ps), [f(p) for p in ps]) for ps, _ in want] or any(m is not None and ln[2] != m for ln, (_, m) in zip(lines, want)):
                rec.bad(f"{what}: shown {lines}", case)
                return
        rec.add(states=1, traces=1)
    except Exception as e:
        rec.bad(f"{what}: {type(e).__name__}: {e}", case)
    finally:
        Sim.logical_error_rate = real
        plt.close("all")


def cases(ctx):
    import p17
    q = ctx.quick
    out = {"verified": [], "circuits": [], "accounting": []}
    fam = []
    for nm in ("422", "steane", "surface3", "shor"):
        ps = p17.perms(csscodes.named(nm)["n"], False)
        for p in [None] + (list(ps[::6]) if not q else list(ps[::24])):
            c = csscodes.named(nm) if p is None else csscodes.permuted(csscodes.named(nm), p)
            fam += [c] + ([csscodes.swapped(c)] if nm in ("shor", "surface3") else [])
    for c in fam:
        for zero, par in itertools.product((True, False), repeat=2):
            for m, full in (("plain", True), ("heuristic", True), ("heuristic", False), ("naive", True)):
                for od in (True, False):
                    out["verified"].append({**c, "zero": zero, "od": od, "method": m, "full": full, "parallel": par, "pairs": not q and c["n"] <= 7 and m != "naive" and od and par})
    d2 = [c for n in (3, 4, 5) for mx in range(0, n) for mz in range(0, n - mx) if mx + mz for c in csscodes.codes(n, mx, mz)]
    for i, c in enumerate(d2):
        if not c["hx"] or not c["hz"]:
            continue
        if (c["n"] == 5 or c["n"] == 4 and c["d"][0] < 2) and (i % (24 if q else 5)):
            continue
        for zero, par in itertools.product((True, False), repeat=2):
            out["verified"].append({**c, "zero": zero, "od": False, "method": "plain", "full": True, "parallel": par})
            if c["d"][0] == 2:
                out["verified"].append({**c, "zero": zero, "od": True, "method": "heuristic", "full": True, "parallel": par, "pairs": not q})
    out["circuits"] = gate_cases(q)
    out["accounting"] = [{**csscodes.named(nm), "zero": z, "od": True, "method": "heuristic", "full": True, "ver": v, "shots": 5 if q else 7, "accounting": 1}
                         for nm in ("422", "steane") for z in (True, False) for v in (0, 1)]
    series = [[ps, name, least] for ps in ([0.01], [0.02, 0.05], [0.05, 0.02, 0.03]) for name in (None, "a") for least in (None, 3)]
    out["plots"] = [{**csscodes.named("422"), "zero": z, "od": True, "method": "heuristic", "full": True, "plots": list(h)}
                    for z in (True, False) for k in (1, 2) for h in itertools.product(series, repeat=k)]
    return out


def gate_cases(q):
    """circuits preparing a GHZ state (and a qubit in the plus or zero state) with every sequence of stabilizer measurements by ancillas that are used again"""
    out = []
    for extra in ("", "plus", "zero"):
        n = 3 + bool(extra)
        c = {"n": n, "hx": [7] + [8] * (extra == "plus"), "hz": [3] + [8] * (extra == "zero"), "d": [1, 1, 1]}
        for zero in (True, False):
            # |0>_L is the GHZ state; |+>_L (stabilizers XXX, ZZI and a logical X, IIX) is a Bell pair and a qubit in the plus state
            prep_ = [[(0,), (0, 1), (1, 2)], [(0,), (0, 1), (0, 2)]] if zero else [[(0,), (0, 1), (2,)], [(2,), (1,), (1, 0)], [(0,), (0, 1), (2,), (1, 2), (0, 2)]]
            if extra == "plus":
                prep_ = [p + e for p in prep_ for e in ([(3,)], [(3,), (1, 3)], [(3,), (0, 3), (0,), (0,)])] + [[(3,)] + p for p in prep_]
            zs = [(0, 1), (1, 2), (0, 1, 0, 2, 1, 2)] if zero else [(0, 1), (1, 0)]
            xs = [(0, 1, 2)] if zero else [(0, 1, 2), (2,)]
            menu = [("z", s) for s in zs] + [("x", s) for s in xs]
            for p in prep_:
                for k in range(0, 3 if q else 4):
                    for ms in itertools.product(menu, repeat=k):
                        for anc in itertools.product((n, n + 1), repeat=k) if k < 3 else [(n,) * 3, (n, n + 1, n)]:
                            if anc and anc[0] != n or q and k == 2 and extra == "zero":
                                continue
                            g = [tuple(x) for x in p]
                            for j, ((kind, s), a) in enumerate(zip(ms, anc)):
                                g += [(a,)] * (kind == "x") + [(x, a) if kind == "z" else (a, x) for x in s] + [(a,)] * (kind == "x") + [("m", a, j)]
                            nq = max([n] + [a + 1 for a in anc])
                            for wide in (0, 1) if k < 2 else (0,):
                                for par in (True, False):
                                    out.append({**c, "zero": zero, "parallel": par, "gates": g, "nq": nq + wide, "nc": max(1, k), "once": 1})
    return out


def run(ctx):
    mpstub.install()
    import mqt.qecc.ft_stateprep  # noqa: F401
    out = cases(ctx)
    mc.explore(ctx, "verified", out["verified"], check, timeout=600)
    mc.explore(ctx, "circuits", out["circuits"], check, timeout=300)
    mc.explore(ctx, "accounting", out["accounting"], accounting, timeout=600)
    mc.explore(ctx, "plots", out["plots"], plots, timeout=300)
    for k, v in out.items():
        ctx.sample({k: v[len(v) // 2]})
    ctx.bound("heuristic, verified and naive preparation circuits of [[4,2,2]], Steane, Shor and surface code under affine permutations and of distance-2 codes up to 5 qubits; GHZ circuits with every sequence of up to two (thorough three) stabilizer measurements by reused ancillas and qubits in the plus state; both noise schedules, two error rates; every distinct fault (thorough: every pair), and every sequence of outcomes of up to 5 (7) shots in batches of every size; every sequence of up to two plots")
    ctx.assume("where several lightest corrections exist each of them is accepted; an ancilla measurement is deterministic without faults; single-qubit gates on uninitialized qubits belong to their preparation and are noiseless, idle qubits have noise when another qubit of their layer (or, sequentially, gate) is used")


def replay(ctx, case):
    mpstub.install()
    import mqt.qecc.ft_stateprep  # noqa: F401
    mc.explore(ctx, "replay", [case], accounting if case.get("accounting") else plots if case.get("plots") else check, timeout=600)
