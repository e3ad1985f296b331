"""Common machinery of all checks: evidence, violations/replays, known findings, forked exploration, C++ builds."""
from __future__ import annotations
import hashlib, itertools, json, mmap, os, shutil, signal, struct, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("MC_REPO", "/repo"))
PY = sys.executable
NPROC = min(8, os.cpu_count() or 1)
MAX_VIOLATIONS = 5


class Infra(RuntimeError):
    """the machinery itself could not run (never used for a verdict about the code)"""


def load_known():
    """known_findings.txt lines:  known: property=<id> key=<key> <text>   |   fixed: property=<id> <commit> <text>"""
    out = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = line.split(None, 3)
            pid = parts[1].split("=", 1)[1]
            key = parts[2].split("=", 1)[1]
            out[(pid, key)] = parts[3] if len(parts) > 3 else ""
    return out


class Ctx:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.parts = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.known = load_known()
        self.exhaustive = []
        self._tmp = None
        self.nontrivial = {}

    # -- scratch -----------------------------------------------------------------------------------
    @property
    def tmp(self) -> Path:
        if self._tmp is None:
            self._tmp = Path(tempfile.mkdtemp(prefix=f"mc_{self.pid}_"))
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # -- accounting ---------------------------------------------------------------------------------
    def count(self, part, states=0, transitions=0, traces=0, **extra):
        p = self.parts.setdefault(part, {"states": 0, "transitions": 0, "traces": 0})
        p["states"] += states
        p["transitions"] += transitions
        p["traces"] += traces
        for k, v in extra.items():
            if isinstance(v, (int, float)):
                p[k] = p.get(k, 0) + v
            else:
                p[k] = v
        self.states += states
        self.transitions += transitions
        self.traces += traces

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def bound(self, text):
        self.exhaustive.append(text)

    def assume(self, text):
        self.assumptions.append(text)

    # -- verdicts -------------------------------------------------------------------------------------
    def violation(self, what, case, key=None):
        """case: JSON-able dict which replay() of the check module can execute again"""
        if key is not None and (self.pid, key) in self.known:
            if key not in self.known_hit:
                self.known_hit[key] = 0
                print(f"KNOWN-FINDING: property={self.pid} {self.known[(self.pid, key)]}", flush=True)
            self.known_hit[key] += 1
            return
        if len(self.violations) >= MAX_VIOLATIONS:
            return
        blob = json.dumps({"property": self.pid, "what": what, "key": key, "case": case}, indent=1, sort_keys=True, default=str)
        h = hashlib.sha256(blob.encode()).hexdigest()[:12]
        d = VERIF / "evidence" / "replays"
        d.mkdir(parents=True, exist_ok=True)
        path = d / f"{self.pid}-{h}.json"
        path.write_text(blob + "\n")
        self.violations.append({"what": what, "replay": str(path)})
        print(f"  {self.pid}: {what}", flush=True)
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)

    @property
    def full(self):
        return len(self.violations) >= MAX_VIOLATIONS

    # -- evidence ---------------------------------------------------------------------------------------
    def write_evidence(self):
        cov = {"states": int(self.states), "transitions": int(self.transitions),
               "traces_validated_against_impl": int(self.traces), "samples": self.samples or ["(none)"],
               "parts": self.parts, "known_findings_hit": self.known_hit}
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
              "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "exhaustive": True, "assumptions": self.assumptions + ["bounds: " + b for b in self.exhaustive],
              "violations": len(self.violations)}
        d = VERIF / "evidence"
        d.mkdir(exist_ok=True)
        (d / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")


# ------------------------------------------------------------------------------------------------------
# forked exhaustive exploration of python-level cases
# ------------------------------------------------------------------------------------------------------
def cpu_seconds(pid):
    try:
        f = Path(f"/proc/{pid}/stat").read_text().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


class Case:
    """collects what one worker saw"""

    def __init__(self):
        self.viol = []
        self.cnt = {}

    def bad(self, what, case, key=None):
        self.viol.append((what, case, key))

    def add(self, **kw):
        for k, v in kw.items():
            self.cnt[k] = self.cnt.get(k, 0) + v


def explore(ctx: Ctx, part, cases, fn, timeout=60.0, nproc=None, describe=None, chunk=None, hang_is_violation=True,
            budget=None):
    """Runs fn(case, rec) on EVERY case (list), in forked workers. A Python exception that escapes fn, a crash of the
    interpreter and a case that runs longer than `timeout` are reported as violations on that case (fn catches the
    exceptions which the property allows). Counts returned through rec.add are accumulated in the part."""
    cases = list(cases)
    n = len(cases)
    nproc = min(nproc or NPROC, max(1, n))
    describe = describe or (lambda c: {"case": c})
    import multiprocessing as mp
    # shared: next index, and per worker (current index, start time)
    shm = mmap.mmap(-1, 4096 + 16 * nproc)
    cur = memoryview(shm)[4096:].cast("q")  # per worker: index of the case, start time in ns (single aligned stores)
    lock = mp.get_context("fork").Lock()
    chunk = chunk or max(1, min(64, n // (nproc * 8) or 1))

    def claim():
        with lock:
            i = struct.unpack_from("q", shm, 0)[0]
            struct.pack_into("q", shm, 0, i + chunk)
        return i

    def child(w, wfd, first_range):
        rec = Case()
        out = os.fdopen(wfd, "w")

        def flush():
            if rec.viol or rec.cnt:
                out.write(json.dumps({"v": rec.viol[:50], "c": rec.cnt}, default=str) + "\n")
                out.flush()
                rec.viol, rec.cnt = [], {}

        rng = first_range
        while True:
            if rng is None:
                i0 = claim()
                if i0 >= n:
                    break
                rng = (i0, min(n, i0 + chunk))
            for i in range(*rng):
                cur[2 * w + 1] = time.monotonic_ns()
                cur[2 * w] = i
                try:
                    fn(cases[i], rec)
                except Exception as e:  # noqa: BLE001
                    tb = traceback.format_exc(limit=-4)
                    rec.bad(f"{part}: unexpected {type(e).__name__}: {e}"[:400], {**describe(cases[i]), "part": part, "traceback": tb})
                rec.add(_cases=1)
                flush()
            rng = None
        out.flush()
        os._exit(0)

    workers = {}
    import select

    def spawn(w, rng=None):
        r, wr = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        cur[2 * w + 1] = time.monotonic_ns()
        cur[2 * w] = -1
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for o in workers.values():
                try:
                    os.close(o["fd"])
                except OSError:
                    pass
            code = 1
            try:
                child(w, wr, rng)
            finally:
                os._exit(code)
        os.close(wr)
        workers[w] = {"pid": pid, "fd": r, "buf": b""}

    for w in range(nproc):
        spawn(w)
    agg = {}

    def handle(line):
        d = json.loads(line)
        for what, case, key in d["v"]:
            ctx.violation(what, case, key)
        for k, v in d["c"].items():
            agg[k] = agg.get(k, 0) + v

    hung = False
    while workers:
        rl, _, _ = select.select([o["fd"] for o in workers.values()], [], [], 1.0)
        now = time.monotonic()
        for w in list(workers):
            o = workers[w]
            dead = False
            if o["fd"] in rl:
                data = os.read(o["fd"], 1 << 20)
                if data:
                    o["buf"] += data
                    *lines, o["buf"] = o["buf"].split(b"\n")
                    for ln in lines:
                        handle(ln)
                    continue
                dead = True
            idx, st = cur[2 * w], cur[2 * w + 1] * 1e-9
            hang = False
            limit = 60 if hung else min(timeout, 240) if ctx.quick else timeout
            if not dead and idx >= 0 and now - st > min(limit, timeout):
                # wall time alone says nothing on a loaded machine: the case itself must have computed that long
                cpu = cpu_seconds(o["pid"])
                if o.get("late") != (idx, st):
                    o["late"], o["cpu0"] = (idx, st), cpu
                else:
                    hang = cpu - o["cpu0"] > 0.5 * min(limit, timeout) or now - st > 5 * timeout
            if hang:
                hung = True  # others that run into the limit need not wait for as long
                os.kill(o["pid"], signal.SIGKILL)
                dead = True
            if dead:
                _, status = os.waitpid(o["pid"], 0)
                os.close(o["fd"])
                del workers[w]
                if hang or status != 0:
                    if idx < 0:
                        raise Infra(f"{part}: worker failed to start, status {status}")
                    kind = f"no result within {timeout:.0f} s" if hang else f"process died (wait status {status})"
                    ctx.violation(f"{part}: {kind}", {**describe(cases[idx]), "part": part, "kind": kind})
                    # continue behind the failing case, in the same chunk
                    lo = (idx // chunk) * chunk
                    if not ctx.full:
                        spawn(w, (idx + 1, min(n, lo + chunk)))
        if ctx.full:
            for o in workers.values():
                os.kill(o["pid"], signal.SIGKILL)
                os.waitpid(o["pid"], 0)
                os.close(o["fd"])
            workers.clear()
    done = agg.pop("_cases", 0)
    ctx.count(part, states=agg.pop("states", 0), transitions=agg.pop("transitions", 0), traces=agg.pop("traces", 0),
              cases=done, **agg)
    if not ctx.full and not ctx.violations and done != n:
        raise Infra(f"{part}: {done} of {n} cases explored")
    return agg


# ------------------------------------------------------------------------------------------------------
# C++ harnesses, always compiled from REPO's working tree into the scratch directory
# ------------------------------------------------------------------------------------------------------
CORE = ["src/GF2.cpp", "src/Utils.cpp", "src/UFDecoder.cpp", "src/UFHeuristic.cpp", "src/DecodingSimulator.cpp"]


def _src_core():
    # every translation unit directly below src (new files of a refactoring are picked up as well)
    return sorted(p for p in (REPO / "src").glob("*.cpp"))


def _src_ecc():
    return sorted((REPO / "src" / "ecc").rglob("*.cpp"))


def mqt_core_lib(ctx):
    for c in ["/opt/build/cpp/_deps/mqt-core-build/src/ir/libmqt-core-ir.a"]:
        if Path(c).exists():
            return [c], []
    for c in Path("/opt/build").rglob("libmqt-core-ir.a") if Path("/opt/build").exists() else []:
        return [str(c)], []
    return [], sorted(Path("/opt/deps/mqt_core-2.7.0/src/ir").rglob("*.cpp"))


def build(ctx: Ctx, name, harness, group, opt="-O1", extra=()):
    """compile harness (path in /verif/cpp) + the sources of the group; returns the executable"""
    exe = ctx.tmp / name
    objs, jobs = [], []
    inc = ["-I", str(REPO / "include"), "-I", str(VERIF / "cpp")]
    libs, more = [], []
    srcs = []
    if group in ("core", "core_mc"):
        srcs = _src_core()
    elif group == "ecc":
        srcs = _src_ecc()
        inc += ["-I", "/opt/deps/mqt_core-2.7.0/include/mqt-core"]
        libs, more = mqt_core_lib(ctx)
    pre = ["-include", str(VERIF / "cpp" / "mc_random.hpp")] if group == "core_mc" else []
    base = ["g++", "-std=c++17", opt, "-w", "-pthread", *extra, *inc]
    for s in [*srcs, *more, VERIF / "cpp" / harness]:
        o = ctx.tmp / (name + "_" + hashlib.md5(str(s).encode()).hexdigest()[:10] + ".o")
        objs.append(str(o))
        jobs.append([*base, *pre, "-c", str(s), "-o", str(o)])

    def one(cmd):
        return subprocess.run(cmd, capture_output=True, text=True)

    with ThreadPoolExecutor(NPROC) as ex:
        for cmd, r in zip(jobs, ex.map(one, jobs)):
            if r.returncode != 0:
                raise Infra(f"compiling {cmd[-3]} failed:\n{r.stderr[-3000:]}")
    r = one(["g++", "-pthread", *objs, *libs, "-o", str(exe)])
    if r.returncode != 0:
        raise Infra(f"linking {name} failed:\n{r.stderr[-3000:]}")
    return exe


def run_harness(ctx: Ctx, exe, args, cwd=None, env=None, timeout=3000):
    """Harness protocol (stdout): lines 'V <json>' for violations {what, case, key?}, 'S <json>' for counters of a part
    {part, states, transitions, traces, ...}, 'X <text>' for samples. Exit code 0 means that it explored everything."""
    cmd = [str(exe), *map(str, args)]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True, cwd=cwd, env={**os.environ, **(env or {})}, errors="replace")
    nv = 0
    for line in p.stdout:
        line = line.rstrip("\n")
        if line.startswith("V "):
            d = json.loads(line[2:])
            ctx.violation(d["what"], {"args": [str(a) for a in args], **d["case"]}, d.get("key"))
            nv += 1
        elif line.startswith("S "):
            d = json.loads(line[2:])
            part = d.pop("part")
            ctx.count(part, **d)
        elif line.startswith("X "):
            ctx.sample(line[2:])
    rc = p.wait(timeout=timeout)
    if rc != 0 and nv == 0:
        raise Infra(f"harness {cmd} exited with {rc}")
    return rc
