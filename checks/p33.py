"""Python bindings: every exposed operation against brute force, on a freshly compiled extension module."""
import ast
import importlib.util
import itertools
import json
import os
import re
import subprocess
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import mc

CORE = Path("/opt/deps/mqt_core-2.7.0")
GROWTH = ["ALL_COMPONENTS", "INVALID_COMPONENTS", "SINGLE_SMALLEST", "SINGLE_RANDOM", "SINGLE_QUBIT_RANDOM"]
SIZES = {"Id": 1, "Q3Shor": 5, "Q5Laflamme": 9, "Q7Steane": 10, "Q9Shor": 17, "Q9Surface": 17, "Q18Surface": 36}
M = None


def build(ctx):
    import pybind11
    pre = None
    srcs = [*sorted((mc.REPO / "src").glob("*.cpp")), *sorted((mc.REPO / "src" / "ecc").rglob("*.cpp")), *sorted((mc.REPO / "src" / "python").rglob("*.cpp"))]
    libs, more = mc.mqt_core_lib(ctx)
    for c in (Path("/opt/build/py/_deps/mqt-core-build/src/ir/libmqt-core-ir.a"),):
        if c.exists():
            libs, more = [str(c)], []
    srcs += [*more, *sorted((CORE / "src" / "python" / "qiskit").rglob("*.cpp"))]
    base = ["g++", "-std=c++17", "-O0", "-w", "-fPIC", "-fvisibility=hidden", "-DMQT_CORE_IR_STATIC_DEFINE", "-I", str(mc.REPO / "include"), "-I", str(CORE / "include/mqt-core"),
            "-I", sysconfig.get_paths()["include"], "-I", pybind11.get_include()]
    out = ctx.tmp / "ext"
    out.mkdir()
    jobs = [[*base, "-c", str(s), "-o", str(out / f"{i}.o")] for i, s in enumerate(srcs)]
    jobs.sort(key=lambda j: 0 if "python" in j[-3] else 1)
    run = lambda cmd: subprocess.run(cmd, capture_output=True, text=True)  # noqa: E731
    with ThreadPoolExecutor(mc.NPROC) as ex:
        for cmd, r in zip(jobs, ex.map(run, jobs)):
            if r.returncode:
                raise mc.Infra(f"compiling {cmd[-3]} failed:\n{r.stderr[-3000:]}")
    so = out / ("pyqecc" + sysconfig.get_config_var("EXT_SUFFIX"))
    r = run(["g++", "-shared", "-o", str(so), *[j[-1] for j in jobs], *libs])
    if r.returncode:
        raise mc.Infra(f"linking failed:\n{r.stderr[-3000:]}")
    return so


def load(so):
    global M
    spec = importlib.util.spec_from_file_location("pyqecc", so)
    M = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(M)


# ---------------------------------------------------------------------------------------------------- oracle
def vecs(n):
    return [list(map(bool, v)) for v in itertools.product((0, 1), repeat=n)]


def mul(h, v):
    return [bool(sum(a and b for a, b in zip(r, v)) % 2) for r in h]


def span(h):
    out = {tuple([False] * len(h[0]))}
    for r in h:
        out |= {tuple(a != b for a, b in zip(r, s)) for s in out}
    return out


def attempt(f, *a):
    """('ok', value) or ('raise', exception)"""
    try:
        return "ok", f(*a)
    except Exception as e:  # noqa: BLE001
        return "raise", f"{type(e).__name__}: {e}"


def mats(r, n):
    return [[list(map(bool, m[i * n:(i + 1) * n])) for i in range(r)] for m in itertools.product((0, 1), repeat=r * n)]


def write(h, d, name):
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write("".join(" ".join(str(int(x)) for x in r) + "\n" for r in h))
    return p


def make(how, hx, hz, d):
    if how == "lists":
        return M.Code(hz) if hx is None else M.Code(hx, hz)
    if how == "files":
        return M.Code(write(hz, d, "hz.txt")) if hx is None else M.Code(write(hx, d, "hx.txt"), write(hz, d, "hz.txt"))
    c = M.Code()
    for name, h in (("setHx", hx), ("setHz", hz)) if how == "set" else (("setHz", hz), ("setHx", hx)):
        if h is not None:
            getattr(c, name)(h)
    return c


def check_code(case, rec):
    hx, hz = case["hx"], case["hz"]
    n = len(hz[0])
    with tempfile.TemporaryDirectory() as d:
        for how in ("lists", "files", "set", "set2"):
            bad = lambda what: rec.bad(f"code built by {how}: {what}; Hx {hx}, Hz {hz}", {**case, "how": how})  # noqa: E731,B023
            code = make(how, hx, hz, d)
            rec.add(states=1, traces=1)
            if code.n != n:
                bad(f"n = {code.n}")
            if code.getHz() != hz:
                bad(f"getHz gives {code.getHz()}")
            want = {"n": n, "k": 0, "d": 0, "hX": {"pcm": hx} if hx is not None else "", "hZ": {"pcm": hz}}
            if code.json() != want or json.loads(repr(code)) != want:
                bad(f"json gives {code.json()}, the text {json.loads(repr(code))}")
            sz = span(hz)
            sx = span(hx) if hx is not None else None
            if hx is not None and code.getHx() != hx:
                bad(f"getHx gives {code.getHx()}")
            for v in vecs(n):
                rec.add(transitions=2)
                got = attempt(code.get_x_syndrome, v)
                if got != ("ok", mul(hz, v)):
                    bad(f"get_x_syndrome({v}) gives {got}")
                got = attempt(code.is_x_stabilizer, v), attempt(code.is_stabilizer, v)
                for name, g in zip(("is_x_stabilizer", "is_stabilizer"), got):
                    if hx is None:
                        if g[0] == "ok" and any(v):
                            bad(f"{name}({v}) gives {g[1]} without X checks")
                    elif g != ("ok", tuple(v) in sx):
                        bad(f"{name}({v}) gives {g}")
            for x, z in itertools.product(vecs(n), repeat=2) if n < 4 else ():
                rec.add(transitions=4)
                got = [attempt(code.get_syndrome, x, z), attempt(code.get_x_syndrome, x + z)]
                mem = [attempt(code.is_stabilizer, x, z), attempt(code.is_stabilizer, x + z)]
                if hx is None:
                    if any(g[0] == "ok" for g in got) or any(g[0] == "ok" and any(z + x) for g in mem):
                        bad(f"syndrome {got} and membership {mem} of X {x} Z {z} without X checks")
                    continue
                if got != [("ok", mul(hz, x) + mul(hx, z))] * 2:
                    bad(f"get_syndrome of X {x} Z {z} gives {got}")
                if mem != [("ok", tuple(x) in sx and tuple(z) in sz)] * 2:
                    bad(f"is_stabilizer of X {x} Z {z} gives {mem}")
            # wrong sizes: an exception, or at least a value; never the end of the interpreter
            for m in range(2 * n + 3):
                for v in ([True] * m, [False] * m, [True] + [False] * (m - 1) if m else []):
                    rec.add(transitions=3)
                    got = attempt(code.get_x_syndrome, v)
                    if got[0] == "ok" and m not in (n, 2 * n):
                        bad(f"get_x_syndrome of {m} bits gives {got[1]}")
                    attempt(code.is_stabilizer, v)
                    got = attempt(code.is_x_stabilizer, v)
                    if got[0] == "ok" and m != n and any(v):
                        bad(f"is_x_stabilizer of {m} bits gives {got[1]}")
                    for w in ([True] * n, [True] * (n + 1), []):
                        rec.add(transitions=2)
                        got = attempt(code.get_syndrome, v, w), attempt(code.get_syndrome, w, v)
                        if any(g[0] == "ok" for g in got) and {m, len(w)} != {n}:
                            bad(f"get_syndrome of {m} and {len(w)} bits gives {got}")
                        attempt(code.is_stabilizer, v, w)
                        attempt(code.is_stabilizer, w, v)


def decoder(name):
    return getattr(M, name)()


def solvable(h, s):
    return any(mul(h, e) == s for e in vecs(len(h[0])))


def check_decode(case, rec):
    h, name, growth = case["h"], case["decoder"], case["growth"]
    n = len(h[0])
    bad = lambda what: rec.bad(f"{name}, {growth}: {what}; checks {h}", case)  # noqa: E731
    for side in ("one", "two", "gone"):
        d = decoder(name)
        code = M.Code(h) if side == "one" else M.Code(h, h)
        d.set_code(code)
        if side == "gone":  # the decoder does not depend on what becomes of the object
            code.setHz([[True]])
            code.setHx([[True]])
            code = M.Code([[True] * 5])
            code = None
        g = M.GrowthVariant(growth)
        if d.growth != M.GrowthVariant.ALL_COMPONENTS:
            bad(f"the growth of a new decoder is {d.growth}")
        if side == "two":
            d.growth = g
        else:
            d.set_growth(g)
        if d.growth != g or d.growth.name != growth:
            bad(f"growth reads {d.growth}")
        rec.add(states=1)
        for s in vecs(len(h)):
            if not solvable(h, s):
                continue
            rec.add(traces=1, transitions=1)
            try:
                ret = d.decode(s)
            except ValueError as e:
                if (name, growth) == ("UFHeuristic", "SINGLE_QUBIT_RANDOM") and "Unsupported" in str(e) and any(s):
                    continue
                raise
            r = d.result
            est, idx = r.estimate, sorted(r.estim_vec_idxs)
            if ret is not None:
                bad(f"decode returns {ret}")
            if name == "UFDecoder" and mul(h, est) != s:
                bad(f"syndrome {s}: estimate {est} (two-sided: {side})")
            if len(est) != n or idx != [i for i, b in enumerate(est) if b]:
                bad(f"syndrome {s}: estimate {est} and indices {r.estim_vec_idxs} differ")
            if not any(s) and any(est):
                bad(f"estimate {est} of the trivial syndrome")
            want = {"decodingTime(ms)": r.decoding_time, "estimate": "[" + ",".join(str(int(b)) for b in est) + "]"}
            if r.json() != want or json.loads(repr(r)) != want:
                bad(f"json gives {r.json()}, the text {repr(r)!r}, expected {want}")
            if hasattr(d, "reset"):
                d.reset()


def check_robust(case, rec):
    """sequences of calls on unset or half-set objects: a value or an exception"""
    rec.add(states=1, traces=1, transitions=len(case["calls"]))
    h2, h3 = [[True, True]], [[True, True, False], [False, True, True]]
    env = {"h2": h2, "h3": h3, "M": M}
    env["c"] = {"unset": lambda: M.Code(), "one": lambda: M.Code(h3), "two": lambda: M.Code(h3, h3), "mixed": lambda: M.Code(h2, h3)}[case["code"]]() if case["code"] != "mixed" else attempt(M.Code, h2, h3)[1]
    if isinstance(env["c"], str):
        return
    env["d"] = decoder(case["decoder"])
    for call in case["calls"]:
        got = attempt(eval, call, env)  # noqa: S307
        if got[0] == "raise" and "Unregistered type" in got[1]:
            rec.bad(f"{call} is not usable: {got[1]}", case)


CODE_CALLS = ["c.getHx()", "c.getHz()", "c.json()", "repr(c)", "c.get_x_syndrome([True, False, True])", "c.get_x_syndrome([True])", "c.get_x_syndrome([True] * 6)", "c.get_syndrome([True] * 3, [True] * 3)",
              "c.get_syndrome([True], [True])", "c.is_x_stabilizer([True] * 3)", "c.is_stabilizer([True] * 3)", "c.is_stabilizer([True] * 3, [True] * 3)", "c.is_stabilizer([True] * 6)", "c.is_stabilizer([])",
              "setattr(c, 'n', 0)", "setattr(c, 'n', 7)", "c.setHz([])", "c.setHz([[]])", "c.setHx([])", "c.setHx([[]])", "c.setHz(h2)", "c.setHx(h2)", "c.setHz(h3)", "M.Code([])", "M.Code([[]])", "M.Code(h3, [])", "M.Code([], h3)", "M.Code('')", "M.Code('/nonexistent')",
              "M.Code('', '')", "M.Code([[True], [True, False]])", "M.Code([[True, False], [True]])"]
DEC_CALLS = ["d.set_code(c)", "d.decode([True, False])", "d.decode([False, False])", "d.decode([])", "d.decode([True])", "d.decode([False])", "d.decode([True] * 4)", "d.decode([False] * 6)", "d.reset()", "c.setHz(h2)", "c.setHx(h3)",
             "setattr(c, 'n', 2)", "d.result.json()", "setattr(d, 'result', M.DecodingResult())", "M.Decoder().set_code(c)"]


def check_enum(case, rec):
    rec.add(states=1, traces=1)
    cls = getattr(M, case["enum"])
    names = [m for m in cls.__members__]
    if names != case["names"] or [int(m) for m in cls.__members__.values()] != list(range(len(names))):
        rec.bad(f"members of {case['enum']}: {names}, the library has {case['names']}", case)
        return
    for i, n in enumerate(case["names"]):
        rec.add(transitions=3)
        for v in (n, str(i), i):
            got = attempt(cls, v)
            if got != ("ok", getattr(cls, n)):
                rec.bad(f"{case['enum']}({v!r}) gives {got}, not {n}", case)
        if getattr(M, n, None) is None or (case["exported"] and getattr(M, n) != getattr(cls, n)):
            rec.bad(f"the exported name {n} is {getattr(M, n, None)!r}, not {getattr(cls, n)!r}", case)
    for v in ("", "x", str(len(names)), "-1", " " + names[0], names[0].lower(), names[0] + "_"):
        rec.add(transitions=1)
        if attempt(cls, v)[0] == "ok":
            rec.bad(f"{case['enum']}({v!r}) is accepted", case)


def check_info(case, rec):
    p, size, err, syn, status, est = case["case"]
    r = M.DecodingResult()
    r.estimate, r.decoding_time, r.estim_vec_idxs = est, 7, [i for i, b in enumerate(est) if b]
    st = M.DecodingResultStatus(status or "0")
    objs = [M.DecodingRunInformation(p, size, err, syn, st, r) if status else M.DecodingRunInformation(p, size, err, syn, r), M.DecodingRunInformation()]
    o = objs[1]
    o.physicalErrR, o.codeSize, o.error, o.syndrome, o.status, o.result = p, size, err, syn, st, r
    r.estimate = [True] * 9  # the record keeps its own copy
    text = lambda v: "[" + ",".join(str(int(b)) for b in v) + "]"  # noqa: E731
    want = {"physicalErrRate": p, "codeSize": size, "error": text(err), "syndrome": text(syn), "decodingResult": {"decodingTime(ms)": 7, "estimate": text(est)},
            "decodingStatus": "failure" if int(st) else "success"}
    for o in objs:
        rec.add(states=1, traces=1, transitions=8)
        got = (o.physicalErrR, o.codeSize, o.error, o.syndrome, o.status, o.result.estimate, o.result.decoding_time, o.result.estim_vec_idxs)
        if got != (p, size, err, syn, st, est, 7, [i for i, b in enumerate(est) if b]):
            rec.bad(f"run information {case['case']} reads {got}", case)
        if o.json() != want or json.loads(repr(o)) != want:
            rec.bad(f"run information gives {o.json()}, expected {want}", case)


def check_sample(case, rec):
    n, p = case["n"], case["p"]
    rec.add(states=1, traces=1)
    got = M.sample_iid_pauli_err(n, p)
    if len(got) != n or any(type(b) is not bool for b in got) or (p in (0, 1) and got != [bool(p)] * n):
        rec.bad(f"sample_iid_pauli_err({n}, {p}) gives {got}", case)


def circuits(gates):
    from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister
    qc = QuantumCircuit(QuantumRegister(1, "q"), ClassicalRegister(1, "c"))
    for g in gates:
        getattr(qc, g)(0)
    qc.measure(0, 0)
    return qc


def rounds(qasm):
    return len(re.findall(r"^\s*measure", qasm, re.M))


def check_ecc(case, rec):
    import qiskit.qasm2
    name, gates = case["ecc"], case["gates"]
    bad = lambda what: rec.bad(f"apply_ecc, {name}, gates {gates}: {what}", case)  # noqa: E731
    qc = circuits(gates)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "c.qasm")
        qiskit.qasm2.dump(qc, p)
        res = {}
        for f in (1, 2, 3, 100):
            rec.add(states=1, traces=2, transitions=1)
            a, b = attempt(M.apply_ecc, qc, name, f), attempt(M.apply_ecc, p, name, f)
            if name not in SIZES:
                if a[0] == "ok" or b[0] == "ok":
                    bad("an unknown code is accepted")
                continue
            if a[0] != "ok" or b[0] != "ok" or list(a[1]) != ["circ"]:
                bad(f"frequency {f}: circuit {a}, file {b}")
                return
            strip = lambda t: [ln for ln in t.splitlines() if ln.strip() and not ln.startswith("//")]  # noqa: E731
            if strip(a[1]["circ"]) != strip(b[1]["circ"]):
                bad(f"frequency {f}: the file and the circuit are mapped differently")
            res[f] = a[1]["circ"]
            back = qiskit.qasm2.loads(res[f], custom_instructions=qiskit.qasm2.LEGACY_CUSTOM_INSTRUCTIONS)
            if back.num_qubits != SIZES[name]:
                bad(f"frequency {f}: {back.num_qubits} qubits instead of {SIZES[name]}")
        if name not in SIZES:
            return
        for v in (attempt(M.apply_ecc, qc, name), attempt(lambda: M.apply_ecc(circuit_name=qc, ecc_name=name)), attempt(lambda: M.apply_ecc(qc, ecc_frequency=100, ecc_name=name))):
            if v != ("ok", {"circ": res[100]}):
                bad("the default frequency is not 100")
        rs = [rounds(res[f]) for f in (1, 2, 3, 100)]
        if sorted(rs, reverse=True) != rs or (name != "Id" and len(gates) > 1 and rs[0] <= rs[3]):
            bad(f"measurements at frequency 1, 2, 3 and 100: {rs}")
        for obj in (None, 5, [], [qc], d + "/missing.qasm"):
            rec.add(transitions=1)
            if attempt(M.apply_ecc, obj, name, 1)[0] == "ok":
                bad(f"{'a file that does not exist' if isinstance(obj, str) else repr(obj)} is accepted as a circuit")


def check_sim(case, rec):
    """rates 0 and 1 leave nothing to chance"""
    h, hx, k, dec, p = case["hz"], case["hx"], case["k"], case["decoder"], case["p"]
    n = len(h[0])
    for how in ("class", "object"):
        with tempfile.TemporaryDirectory() as d:
            rec.add(states=1, traces=1)
            sim = M.DecodingSimulator if how == "class" else M.DecodingSimulator()
            code = M.Code(hx, h)
            code.k = k
            got = attempt(sim.simulate_wer, d + "/raw", d + "/stats", p, p + 0.05, 3, code, 0.1, M.DecoderType(dec))
            if got != ("ok", None):
                rec.bad(f"simulate_wer called on the {how} gives {got}", case)
                continue
            fs = sorted(os.listdir(d))
            raw = json.load(open(os.path.join(d, next(f for f in fs if f.startswith("raw")))))
            stats = json.load(open(os.path.join(d, next(f for f in fs if f.startswith("stats")))))
            err = [bool(p)] * n
            u = decoder("UFHeuristic" if dec == "UF_HEURISTIC" else "UFDecoder")
            u.set_code(code)
            u.decode(mul(h, err))
            fail = tuple(a != b for a, b in zip(u.result.estimate, err)) not in span(hx)
            want = (1 if fail else 0) / k
            if len(raw) != 1 or float(list(raw)[0]) != p or abs(list(raw.values())[0] - want) > 1e-12:
                rec.bad(f"{dec}, rate {p}: {raw}, expected {want}", case)
            runs = stats["runs"]
            if len(runs) != 1 or len(runs[0]["run"]["data"]) != 3 or {r["decodingStatus"] for r in runs[0]["run"]["data"]} != {"failure" if fail else "success"}:
                rec.bad(f"{dec}, rate {p}: statistics {runs}, expected {'failures' if fail else 'successes'}", case)
            os.mkdir(d + "/codes")
            write(h, d + "/codes", "a.txt")
            got = attempt(sim.simulate_avg_runtime, d + "/time", "", p, 2, d + "/codes", 2, M.DecoderType(dec))
            f = [x for x in os.listdir(d) if x.startswith("time")]
            times = json.load(open(os.path.join(d, f[0]))) if got == ("ok", None) and f else None
            if times is None or list(times) != [d + "/codes/a.txt"] or sorted(times[d + "/codes/a.txt"]) != ["0", "1"]:
                rec.bad(f"simulate_avg_runtime called on the {how} gives {got}, {times}", case)


def check_stub(case, rec):
    """what the type stub declares exists, with the declared numbers of arguments and under the declared names"""
    tree = ast.parse((mc.REPO / "src/mqt/qecc/pyqecc.pyi").read_text())
    decl = {}
    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                nm = m.name if isinstance(m, ast.FunctionDef) else m.target.id if isinstance(m, ast.AnnAssign) else None
                if nm:
                    decl.setdefault((n.name, nm), []).append(m)
        elif isinstance(n, ast.FunctionDef):
            decl.setdefault((None, n.name), []).append(n)
    for (cls, nm), _ in decl.items():
        rec.add(states=1, traces=1, transitions=1)
        obj = M if cls is None else getattr(M, cls, None)
        inst = obj if cls is None or not hasattr(obj, "__init__") else obj
        if obj is None or not hasattr(inst, nm):
            rec.bad(f"{(cls + '.') if cls else ''}{nm} is declared in the type stub but does not exist", {**case, "name": f"{cls}.{nm}"})
    for cls in [c for c in dir(M) if isinstance(getattr(M, c), type)]:
        for nm in vars(getattr(M, cls)):
            if nm.startswith("_"):
                continue
            rec.add(states=1, transitions=1)
            bases = [b.__name__ for b in getattr(M, cls).__mro__]
            if not any((b, nm) in decl for b in bases):
                rec.bad(f"{cls}.{nm} exists but is not declared in the type stub", {**case, "name": f"{cls}.{nm}"})


def cases(ctx):
    quick = ctx.quick
    out = {"code": [], "decode": [], "robust": [], "enum": [], "info": [], "sample": [], "ecc": [], "sim": [], "stub": [{"stub": 1}]}
    for r, n in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3), (3, 2)) + (() if quick else ((3, 3), (2, 4))):
        for h in mats(r, n):
            out["code"].append({"hx": None, "hz": h})
    for (a, b), n in itertools.product(((1, 1), (1, 2), (2, 1)) + (() if quick else ((2, 2),)), (1, 2, 3)):
        for hx in mats(a, n):
            for hz in mats(b, n):
                out["code"].append({"hx": hx, "hz": hz})
    for r, n in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3)) + (() if quick else ((3, 3), (2, 4))):
        for h in mats(r, n):
            for dec in ("UFDecoder", "UFHeuristic"):
                for g in GROWTH:
                    out["decode"].append({"h": h, "decoder": dec, "growth": g})
    for code in ("unset", "one", "two", "mixed"):
        for a in CODE_CALLS:
            for b in CODE_CALLS:
                out["robust"].append({"code": code, "decoder": "Decoder", "calls": [a, b]})
        for dec in ("UFDecoder", "UFHeuristic", "Decoder"):
            for calls in itertools.product(DEC_CALLS, repeat=3 if quick else 4):
                out["robust"].append({"code": code, "decoder": dec, "calls": list(calls)})
    out["enum"] = [{"enum": "GrowthVariant", "names": GROWTH, "exported": True}, {"enum": "DecodingResultStatus", "names": ["SUCCESS", "FAILURE"], "exported": True},
                   {"enum": "DecoderType", "names": ["UF_HEURISTIC", "ORIGINAL_UF"], "exported": True}]
    for err in vecs(2) + [[]]:
        for syn in vecs(1) + [[]]:
            for st in (None, "SUCCESS", "FAILURE"):
                for p, size in ((0.0, 0), (0.25, 3)):
                    out["info"].append({"case": [p, size, err, syn, st, [True, False]]})
    out["sample"] = [{"n": n, "p": p} for n in range(0, 70) for p in (0, 0.0, 0.5, 1, 1.0)]
    for name in [*SIZES, "", "q3shor", "Q3", "Q3Shor "]:
        for k in range(0, 3 if quick else 4):
            for gs in itertools.product(("x", "z"), repeat=k):
                out["ecc"].append({"ecc": name, "gates": list(gs)})
    for h in ([[True, True, False], [False, True, True]], [[True, True]], [[True, True, True]], [[True, False], [False, True]]):
        for hx in ([[True] * len(h[0])], [[True] + [False] * (len(h[0]) - 1)]):
            for k in (1, 2):
                for dec in ("UF_HEURISTIC", "ORIGINAL_UF"):
                    for p in (0.0, 1.0):
                        out["sim"].append({"hz": h, "hx": hx, "k": k, "decoder": dec, "p": p})
    return out


FN = {"code": check_code, "decode": check_decode, "robust": check_robust, "enum": check_enum, "info": check_info, "sample": check_sample, "ecc": check_ecc, "sim": check_sim, "stub": check_stub}


def quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    for t in (1, 2):
        os.dup2(fd, t)


def part_fn(part):
    def fn(c, rec):
        old = os.dup(1), os.dup(2)
        quiet()
        try:
            FN[part](c, rec)
        finally:
            for o, t in zip(old, (1, 2)):
                os.dup2(o, t)
                os.close(o)
    return fn


def run(ctx):
    load(build(ctx))
    for part, cs in cases(ctx).items():
        mc.explore(ctx, part, cs, part_fn(part), timeout=120, describe=lambda c, part=part: {**c, "part": part})
        ctx.sample({"part": part, "first": str(cs[0])[:200], "last": str(cs[-1])[:200]})
    ctx.bound("extension module compiled from the working tree; codes: all matrices up to 2x3 and 3x2 (thorough 3x3, 2x4) one-sided, all pairs with 1+1, 1+2 and 2+1 rows (thorough 2+2) on up to 3 qubits, four ways of construction, all errors and membership queries, arguments of all sizes up to 2n+2; "
              "decoders: all matrices up to 2x3 (thorough 3x3, 2x4), growth variants, syndromes, code replaced after set_code; all pairs of 32 calls on codes and all triples (thorough quadruples) of 15 calls on decoders, on unset, one-sided, two-sided and inconsistent codes; "
              "all enumeration texts; apply_ecc for all codes, X/Z circuits of up to 2 (thorough 3) gates, frequencies 1, 2, 3, 100 and default; simulations at error rates 0 and 1; every name of the type stub")
    ctx.assume("estimates of UFHeuristic are only checked for form here (P02), random growth is not controlled here (P01, P02)")


def replay(ctx, case):
    load(build(ctx))
    mc.explore(ctx, "replay", [case], part_fn(case["part"] if "part" in case else next(p for p, keys in (("stub", {"stub"}), ("enum", {"enum"}), ("robust", {"calls"}), ("decode", {"h"}), ("info", {"case"}), ("sample", {"n", "p"}), ("ecc", {"ecc"}), ("sim", {"k", "hz"}), ("code", {"hz"})) if keys <= set(case))), timeout=120)
