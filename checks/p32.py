"""Command-line evaluations run exactly the requested experiment; every stored circuit is what its name says."""
import contextlib
import inspect
import io
import itertools
import json
import os
import re
import shutil
import sys
import tempfile

import numpy as np

import gf2
import mc
import mpstub
import p16
import p21
import prep
import sp
from rngstub import BitRng

NAMES = ("steane", "tetrahedral", "shor", "rotated_surface_d3", "rotated_surface_d5", "cc_4_8_8", "cc_6_6_6", "hamming", "carbon")
_C = {}


def code(name):
    if name not in _C:
        from mqt.qecc.codes import CSSCode, HexagonalColorCode, SquareOctagonColorCode
        if name.startswith("rotated"):
            c = CSSCode.from_code_name("surface", int(name[-1]))
        else:
            c = {"cc_4_8_8": lambda: SquareOctagonColorCode(5), "cc_6_6_6": lambda: HexagonalColorCode(5)}.get(name, lambda: CSSCode.from_code_name(name))()
        _C[name] = (c, {"n": c.n, "hx": [gf2.vec(r) for r in c.Hx], "hz": [gf2.vec(r) for r in c.Hz], "d": (c.distance, c.x_distance, c.z_distance)})
    return _C[name]


def judge(circ, name, zero, verified, rec, naive=False):
    """None, or why the circuit is not a (fault-tolerant) preparation of the state"""
    c, case = code(name)
    n = case["n"]
    op = sp.ops(circ)
    sx, sz = prep.state_of(case, zero)
    bad = p21.ideal(op, circ.num_qubits, n, (sx, sz))
    if bad:
        return bad
    meas = sum(o[0] == "measure" for o in op)
    if not verified:
        return f"{circ.num_qubits} qubits and {meas} measurements without verification" if circ.num_qubits != n or meas else None
    if naive and name == "tetrahedral":
        return None  # three Z faults are not caught: not checked
    if naive:
        cos = sp.Cosets(prep._kernel_basis(case["hz"], n), n), sp.Cosets(prep._kernel_basis(case["hx"], n), n)
    else:
        cos = sp.Cosets(sx, n), sp.Cosets(sz, n)
    f = sp.Faults(op, circ.num_qubits, list(range(n)))
    t = max((case["d"][0] - 1) // 2, 1)
    w = p21.weights(case)
    i = 0 if zero else 1
    for k in range(1, min(t, 2) + 1):
        for e in f.silent(k):
            p = f.split(int(e))[i]
            rec.add(transitions=1)
            if cos[i].weight(p) > k * w[i]:
                return f"{k} faults leave the {'XZ'[i]} error {gf2.unvec(p, n)} undetected, weight {cos[i].weight(p)}"
    return None


def folder():
    import mqt.qecc.ft_stateprep as f
    return os.path.join(os.path.dirname(f.__file__), "eval", "circuits")


def load(path):
    """circuit of a QASM or stim file, or why there is none"""
    from qiskit import QuantumCircuit
    if path.endswith(".qasm"):
        return QuantumCircuit.from_qasm_file(path)
    import stim
    try:
        s = stim.Circuit.from_file(path).flattened()
    except ValueError as e:
        return f"not a stim circuit: {e}"
    circ = QuantumCircuit(s.num_qubits, s.num_measurements)
    k = 0
    for i in s:
        t = [x.value for x in i.targets_copy()]
        if i.name in ("H", "R"):
            for q in t:
                (circ.h if i.name == "H" else circ.reset)(q)
        elif i.name == "CX":
            for a, b in zip(t[::2], t[1::2]):
                circ.cx(a, b)
        elif i.name in ("M", "MR"):
            for q in t:
                circ.measure(q, k)
                k += 1
        elif i.name != "TICK":
            return f"unexpected instruction {i.name}"
    return circ


def stored(case, rec):
    from qiskit import QuantumCircuit
    name, f = case["stored"].split("/")
    m = re.fullmatch(r"(zero|plus)_(non_ft|ft)_(opt|heuristic)(_opt|_heuristic|_naive)?.(qasm|stim)", f)
    if not m:
        return
    circ = load(os.path.join(folder(), name, f))
    if isinstance(circ, str):
        rec.bad(f"{case['stored']}: {circ}", case)
        return
    bad = judge(circ, name, m[1] == "zero", m[2] == "ft", rec, m[4] == "_naive")
    rec.add(states=1, traces=1)
    heur = os.path.join(folder(), name, f"{m[1]}_non_ft_heuristic.qasm")
    if not bad and "non_ft_opt." in f and os.path.exists(heur) and size(circ)[1] > size(QuantumCircuit.from_qasm_file(heur))[1]:
        bad = f"{size(circ)[1]} CNOTs, more than the heuristic circuit"
    if bad:
        rec.bad(f"{case['stored']}: {bad}", case)


def size(circ):
    op = sp.ops(circ)
    return circ.num_qubits, sum(o[0] == "cx" for o in op), sum(o[0] == "measure" for o in op)


def expected(name, zero, exact, ver):
    """size of the circuit of the library for these options"""
    import mqt.qecc.ft_stateprep as f
    from qiskit import QuantumCircuit
    file = os.path.join(folder(), name, f"{'zero' if zero else 'plus'}_{'ft' if ver else 'non_ft'}_{'opt' if exact else 'heuristic'}" + (f"_{ver}" if ver else "") + ".qasm")
    if os.path.exists(file):
        return size(QuantumCircuit.from_qasm_file(file))
    mpstub.SCHEDULE.reset(())
    p = f.gate_optimal_prep_circuit(code(name)[0], zero_state=zero, max_timeout=600) if exact else f.heuristic_prep_circuit(code(name)[0], zero_state=zero)
    if not ver:
        return size(p.circ)
    return size({"opt": f.gate_optimal_verification_circuit, "heuristic": f.heuristic_verification_circuit, "naive": f.naive_verification_circuit}[ver](p))


def evaluate(case, rec):
    """main of the evaluation script: the simulation that it starts, and what it prints"""
    from mqt.qecc.ft_stateprep import NoisyNDFTStatePrepSimulator as Sim
    from mqt.qecc.ft_stateprep.eval import estimate_logical_error_rate as script
    seen = []

    def rate(self, *a, **k):
        bound = dict(zip(("shots", "shots_per_batch", "at_least_min_errors", "min_errors"), a), **k)
        seen.append((self, bound.get("min_errors", 500)))
        return 0.25, 0.5, 3, 12

    def init(self, *a, **k):
        b = inspect.signature(old_init).bind(self, *a, **k)
        b.apply_defaults()
        for n in ("code", "p", "zero_state", "parallel_gates"):
            setattr(self, n, b.arguments[n])
        self.circ = b.arguments["state_prep_circ"]

    old, old_init, argv = Sim.logical_error_rate, Sim.__init__, sys.argv
    Sim.logical_error_rate = rate
    if case["name"] == "rotated_surface_d5":
        Sim.__init__ = init  # the look-up table of this code takes minutes
    out = io.StringIO()
    sys.argv = ["estimate", *map(str, case["argv"])]
    mpstub.SCHEDULE.reset(())
    try:
        with contextlib.redirect_stdout(out):
            script.main()
    except ValueError as e:
        if not case["name"]:
            rec.add(states=1, traces=1)
            return
        raise e
    finally:
        Sim.logical_error_rate, Sim.__init__, sys.argv = old, old_init, argv
    rec.add(states=1, traces=1, transitions=1)
    what = " ".join(map(str, case["argv"]))
    if not case["name"]:
        rec.bad(f"{what}: evaluates an unknown code", case)
        return
    if len(seen) != 1:
        rec.bad(f"{what}: {len(seen)} simulations", case)
        return
    s, errors = seen[0]
    c, _ = code(case["name"])
    zero = case["zero"]
    if not (np.array_equal(s.code.Hx, c.Hx) and np.array_equal(s.code.Hz, c.Hz)):
        rec.bad(f"{what}: simulates another code", case)
    if s.p != case["p"] or errors != case["errors"] or s.zero_state != zero or s.parallel_gates != case["parallel"]:
        rec.bad(f"{what}: simulation with p={s.p}, {errors} errors, zero_state={s.zero_state}, parallel_gates={s.parallel_gates}", case)
    bad = judge(s.circ, case["name"], zero, case["ver"] is not None, rec, case["ver"] == "naive")
    if bad:
        rec.bad(f"{what}: simulated circuit: {bad}", case)
    want = expected(case["name"], zero, case["exact"], case["ver"])
    if size(s.circ) != want:
        rec.bad(f"{what}: simulated circuit has (qubits, CNOTs, measurements) {size(s.circ)}, that of the requested synthesis {want}", case)
    if [float(x) for x in out.getvalue().split(",")] != [0.25, 0.5, 3, 12]:
        rec.bad(f"{what}: prints {out.getvalue()!r}", case)


def cc(case, rec):
    """cli of the color code decoders: sampled errors prescribed, result file exact"""
    from mqt.qecc.cc_decoder import cli
    tn, nr, d, kind, p = case["tn"], len(case["errors"]), case["d"], case["kind"], case["p"]
    n = 7
    if tn:
        # minimum-weight decoding is maximum-likelihood decoding for the [[7,1,3]] code at small p; the triangular code of qecsim has one logical operator
        fails = sum(gf2.wt(e) not in (0, 1) and not _stab(e) for e in case["errors"])
    t = tempfile.mkdtemp(prefix="mc_p32_")
    rng = (PauliRng if tn else BitRng)([gf2.unvec(e, n) for e in case["errors"]])
    old, argv, cwd = np.random.default_rng, sys.argv, os.getcwd()
    np.random.default_rng = lambda *a, **k: rng
    sys.argv = ["cc", *map(str, case["argv"])]
    try:
        os.chdir(t)
        try:
            cli.cli()
        except ValueError:
            if case["bad"]:
                rec.add(states=1, traces=1)
                return
            raise
        fs = [os.path.join(b, f) for b, _, l in os.walk(t) for f in l]
        if case["bad"]:
            rec.bad(f"{case['argv']}: accepted", case)
            return
        if len(fs) != 1 or os.path.dirname(os.path.realpath(fs[0])) != os.path.realpath(os.path.join(t, case["dir"])):
            rec.bad(f"{case['argv']}: result files {fs}", case)
            return
        with open(fs[0]) as f:
            res = json.load(f)
    finally:
        np.random.default_rng, sys.argv = old, argv
        os.chdir(cwd)
        shutil.rmtree(t, ignore_errors=True)
    rec.add(states=1, traces=1, transitions=nr)
    if not re.search(rf"distance={d}(?!\d)", fs[0]) or f"p={p}" not in fs[0]:
        rec.bad(f"{case['argv']}: result file {os.path.basename(fs[0])} does not name distance and error rate", case)
    if rng.pos != nr or any(abs(q - p) > 1e-12 for q in rng.probs):
        rec.bad(f"{case['argv']}: {rng.pos} errors sampled with probabilities {set(rng.probs)}", case)
    if tn:
        got = {k: res[k] for k in ("n_run", "n_fail", "error_probability", "n_k_d")}
        want = {"n_run": nr, "n_fail": fails, "error_probability": p, "n_k_d": [7, 1, 3]}
        if "6.6.6" not in res["code"] or "flip" not in res["error_model"].lower():
            rec.bad(f"{case['argv']}: simulates {res['code']} with {res['error_model']}", case)
    else:
        c = p16.code(kind, d)
        rows = [gf2.vec(r) for r in c.H]
        stab = gf2.span(rows)
        col = {gf2.syn(rows, 1 << i): 1 << i for i in range(n)}
        col[0] = 0
        fails = sum((e ^ col[gf2.syn(rows, e)]) not in stab for e in case["errors"])
        got = {k: res[k] for k in ("distance", "p", "logical_error_rates", "lattice")}
        want = {"distance": d, "p": p, "logical_error_rates": [fails / nr], "lattice": kind}
        if "solver=z3" not in fs[0] or kind not in fs[0].lower():
            rec.bad(f"{case['argv']}: result file {os.path.basename(fs[0])} does not name lattice and solver", case)
    if got != want:
        rec.bad(f"{case['argv']}: result {got}, expected {want}", case)


class PauliRng(BitRng):
    def choice(self, a, size=None, replace=True, p=None, **_):
        self.probs.append(p[list(a).index("X")])
        if any(q and x not in "IX" for x, q in zip(a, p)):
            self.probs.append(-1)
        return np.array(["X" if b else "I" for b in self._next(size)])


def _stab(e):
    """bit-flip error on Color666Code(3) whose minimum-weight (= most likely) correction is right"""
    from qecsim.models.color import Color666Code
    if "q" not in _C:
        c = Color666Code(3)
        rows = [gf2.vec(r[:7]) for r in c.stabilizers if not any(r[7:])]
        col = {gf2.syn(rows, 1 << i): 1 << i for i in range(7)}
        col[0] = 0
        _C["q"] = rows, col, gf2.span(rows)
    rows, col, span = _C["q"]
    return e ^ col[gf2.syn(rows, e)] in span


FN = {"stored": stored, "evaluate": evaluate, "cc": cc}


def cases(ctx):
    q = ctx.quick
    out = {k: [] for k in FN}
    top = folder()
    have = sorted(f"{d}/{f}" for d in os.listdir(top) if d in NAMES for f in os.listdir(os.path.join(top, d)) if f.endswith(".qasm"))
    out["stored"] = [{"stored": f} for f in have]
    out["stored"] += [{"stored": f"{d}/{f}"} for d in sorted(NAMES) for f in sorted(os.listdir(os.path.join(top, d))) if f.endswith(".stim")]

    def add(name, zero, exact, ver, par=True, p=0.01, errors=None, variant=0, d=None):
        arg = [re.sub("rotated_(surface)_d.", r"\1", name), "-p" if variant % 2 == 0 else "--p_error", p]
        if not zero:
            arg.append("--plus_state")
        elif variant % 3 == 1:
            arg.append("--zero_state")
        if exact:
            arg.append("--exact_circ")
        elif variant % 3 == 2:
            arg.append("--heuristic_circ")
        if ver == "heuristic":
            arg.append("--heuristic_ver")
        elif ver == "naive":
            arg += ["--naive_ver"] + (["--heuristic_ver"] if variant % 2 else [])
        elif ver is None:
            arg += ["--no_ver"] + ([["--heuristic_ver"], ["--naive_ver"], []][variant % 3])
        elif variant % 2:
            arg.append("--exact_ver")
        if errors is not None:
            arg += ["-n" if variant % 2 else "--n_errors", errors]
        if not par:
            arg.append("--no_parallel_gates")
        if name == "rotated_surface_d5":
            arg += ["-d", 5]
        elif variant % 2:
            arg += ["--distance", 3]
        out["evaluate"].append({"name": name, "zero": zero, "exact": exact, "ver": ver, "parallel": par, "p": p, "errors": 500 if errors is None else errors, "argv": arg})

    i = 0
    for name, zero, exact, ver, par in itertools.product(NAMES, (True, False), (False, True), (None, "heuristic", "opt", "naive"), (True, False)):
        st, s = "zero" if zero else "plus", "opt" if exact else "heuristic"
        file = f"{name}/{st}_ft_{s}_{ver}.qasm" if ver else f"{name}/{st}_non_ft_{s}.qasm"
        if file not in have and (exact or (name, ver) == ("tetrahedral", "naive")):
            continue  # optimal synthesis of these codes takes minutes; flags for three faults are not implemented
        if file not in have and name in SLOW and ver in ("opt", "heuristic"):
            continue
        for p in (0.01, 0.002) if not q or name == "steane" else (0.01,):
            i += 1
            if q and not par and name not in ("steane", "shor"):
                continue
            add(name, zero, exact, ver, par, p, (None, 7, 100)[i % 3], i)
    for bad in ("golay", "Steane", "toric"):
        out["evaluate"].append({"name": None, "argv": [bad, "-p", 0.1]})

    # color code decoders
    def dec(errs, kind="hexagon", tn=False, p=0.05, dir_="results", variant=0, bad=False, extra=()):
        arg = [3, p, *(["--nr_sims", len(errs)] if len(errs) < 10000 else []), *extra]
        if kind != "hexagon" or variant % 2:
            arg += ["--type", kind]
        if dir_ != "results":
            arg += ["--results_dir", dir_]
        if tn or variant % 3 == 1:
            arg += ["--decoder", "tn" if tn else "maxsat"]
        if variant % 5 == 1 and not tn:
            arg += ["--solver", "z3"]
        out["cc"].append({"tn": tn, "errors": list(errs), "d": 3, "kind": kind, "p": p, "dir": dir_, "argv": arg, "bad": bad})

    v = 0
    for tn, kind, lo in itertools.product((False, True), ("hexagon", "square_octagon"), range(0, 128, 8 if q else 4)):
        if tn and kind != "hexagon":
            continue
        for dir_ in ("results", "a/b") if lo % 32 == 0 else ("results",):
            v += 1
            dec(range(lo, lo + (8 if q else 4)), kind, tn, (0.05, 0.1, 0.0123)[v % 3], dir_, v)
    for e in itertools.product((0, 1, 3, 127, 90) if q else range(0, 128, 9), repeat=2):
        for tn in (False, True):
            v += 1
            dec(e, "hexagon", tn, 0.02, variant=v)
    dec([0, 5] + [0] * 9998)  # the default number of simulations
    dec([1], bad=True, extra=["--decoder", "bp"])
    dec([1], "square", bad=True)
    return out


SLOW = ("rotated_surface_d5", "cc_4_8_8", "cc_6_6_6")


def run(ctx):
    mpstub.install()
    import mqt.qecc.cc_decoder.cli  # noqa: F401
    import mqt.qecc.ft_stateprep  # noqa: F401
    for name in NAMES:
        code(name)
    for part, cs in cases(ctx).items():
        mc.explore(ctx, part, cs, FN[part], timeout=150, chunk=1 if part != "cc" else None)
        ctx.sample({part: cs[len(cs) // 2]})
    ctx.bound("every stored circuit (QASM and stim): state, and all undetected combinations of up to min(t, 2) faults; all option combinations of the evaluation script over the nine codes (optimal preparation only where a circuit is stored; "
              "optimal and heuristic verification of distance-5 codes only where stored); color code command line: all 128 errors at distance 3 for both decoders, all pairs of fixed errors, option spellings in rotation")
    ctx.assume("the sampling loop of the simulator is replaced in the evaluation part (it is the subject of P24); a verified circuit is only required to catch errors of the side that damages the state; for the tetrahedral code with naive verification the state alone is checked")


def replay(ctx, case):
    mpstub.install()
    part = "stored" if "stored" in case else "cc" if "tn" in case else "evaluate"
    mc.explore(ctx, "replay", [case], FN[part], timeout=600)
