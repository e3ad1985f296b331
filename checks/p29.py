"""Result files: merging, error rates, convergence and result paths, under every tree, history and schedule."""
import itertools
import json
import math
import os
import shutil
import tempfile
import threading
from pathlib import Path

import numpy as np

import mc

M = "mqt.qecc.analog_information_decoding.utils.data_utils"


def du():
    import importlib
    return importlib.import_module(M)


def same(a, b):
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)


def want_rates(s, runs, k):
    ler = 1 - s / runs
    return ler, math.sqrt(ler * (1 - ler) / runs), 1 - (1 - ler) ** (1 / k)


# ------------------------------------------------------------------------------------------------------
def rates(case, rec):
    u = du()
    k = case["k"]
    for runs in range(1, case["runs"] + 1):
        for s in range(runs + 1):
            got = u.calculate_error_rates(s, runs, {"k": k, "n": 9})
            rec.add(traces=1, states=1)
            w = want_rates(s, runs, k)
            if len(got) != 4 or not all(same(a, b) for a, b in zip(got, w)):
                rec.bad(f"{s} successes in {runs} runs, k={k}: rates {got}, expected {w}", case)
                return
            for prec in (0.02, 0.1, 0.3, 0.9):
                for s2 in {0, runs // 2, s, runs - 1, runs}:
                    g2 = u.calculate_error_rates(s2, runs, {"k": k})
                    conv = [b > 0 and b / a < prec for _, _, a, b in (got, g2)]
                    r = u.is_converged(s, s2, runs, {"k": k}, prec)
                    rec.add(traces=1)
                    if bool(r) != all(conv):
                        rec.bad(f"{s} and {s2} successes in {runs} runs, k={k}, precision {prec}: converged {r}", case)
                        return


# ------------------------------------------------------------------------------------------------------
SETS = {
    "xz": {"code_K": 2, "code_N": 5, "nr_runs": 10, "x_success_cnt": 7, "z_success_cnt": 4, "pers": 0.1},
    "XZ": {"code_K": 2, "code_N": 5, "nr_runs": 3, "x_success_cnt": 0, "z_success_cnt": 3, "pers": 0.1},
    "x": {"code_K": 2, "code_N": 5, "nr_runs": 6, "x_success_cnt": 5, "pers": 0.1},
    "X": {"code_K": 2, "code_N": 5, "nr_runs": 8, "x_success_cnt": 8, "pers": 0.1},
    "z": {"code_K": 2, "code_N": 5, "nr_runs": 4, "z_success_cnt": 1, "pers": 0.1},
    "Z": {"code_K": 2, "code_N": 5, "nr_runs": 9, "z_success_cnt": 2, "pers": 0.1},
}
for _v in SETS.values():  # rates that belong to the single data set
    for _s in "xz":
        if f"{_s}_success_cnt" in _v:
            _v[f"{_s}_ler"] = 1 - _v[f"{_s}_success_cnt"] / _v["nr_runs"]


def expected(kind, names):
    """merged counts {side: (runs, successes)} of the data sets, or None"""
    d = [SETS[x] for x in names]
    if kind == "all":
        return {s: (sum(x["nr_runs"] for x in d), sum(x[f"{s}_success_cnt"] for x in d)) for s in "xz"} if d else None
    out = {}
    for s in "xz" if kind == "xz" else kind:
        e = [x for x in d if f"{s}_success_cnt" in x]
        if e:
            out[s] = (sum(x["nr_runs"] for x in e), sum(x[f"{s}_success_cnt"] for x in e))
    return out or None


def merged_ok(kind, got, want):
    if want is None:
        return got in ({}, None)
    if kind == "xz" and any((f"{s}_success_cnt" in got) != (s in want) for s in "xz"):
        return False
    for s, (runs, ok) in want.items():
        r = got.get("nr_runs") if kind != "xz" else got.get(f"{s}_runs")
        w = want_rates(ok, runs, 2)
        if r != runs or got.get(f"{s}_success_cnt") != ok or any(not same(got.get(f"{s}_{k}", -1), v) for k, v in zip(("ler", "ler_eb", "wer"), w)):
            return False
    return True


def merge(case, rec):
    """every tree of result folders through every way to name it"""
    u = du()
    kind, tree = case["kind"], case["tree"]
    fn = {"all": u.merge_json_files, "x": u.merge_json_files_x, "z": u.merge_json_files_z, "xz": u.merge_json_files_xz}[kind]
    top = tempfile.mkdtemp(prefix="p29")
    cwd = os.getcwd()
    try:
        for how in case["how"]:
            base = Path(top) / f"run_{how}"
            code = base / "sub" / "code"
            code.mkdir(parents=True)
            for i, folder in enumerate(tree):
                d = code / f"f{i}"
                d.mkdir()
                for j, name in enumerate(folder):
                    if name == "?":
                        (d / f"id_{j}.json").write_text('{"nr_runs": ')
                    elif name == "t":
                        (d / f"id_{j}.txt").write_text(json.dumps(SETS["xz"]))
                    elif name == "d":
                        (d / f"dir{j}").mkdir()
                    else:
                        (d / f"id_{j}.json").write_text(json.dumps(SETS[name]))
            (code / "notes.json").write_text("[]")
            arg = {"abs": str(code), "abspath": code, "rel": "sub/code", "dot": "./sub/code/", "inside": "code", "up": "../sub/code", "relpath": Path("sub/code")}[how]
            os.chdir(base / "sub" if how in ("inside", "up") else base)
            try:
                fn(arg)
            except Exception as ex:
                rec.bad(f"merging ({kind}) {tree} named {arg}: {type(ex).__name__}: {ex}", case)
                return
            finally:
                os.chdir(cwd)
            rec.add(traces=1, states=1)
            out = base / "sub" / "code.json"
            got = json.loads(out.read_text()) if out.exists() else None
            want = [w for w in (expected(kind, [x for x in f if x in SETS]) for f in tree) if w]
            left = list(got) if isinstance(got, list) else None
            bad = left is None or len(left) != len(want)
            for w in want if not bad else ():
                hit = [g for g in left if merged_ok(kind, g, w)]
                if not hit:
                    bad = True
                    break
                left.remove(hit[0])
            if bad:
                rec.bad(f"merging ({kind}) {tree} named {arg}: result {got}, expected runs and successes {want}", case)
                return
            if kind == "all" and case["load"]:
                os.chdir(base / "sub" if how in ("inside", "up") else base)
                try:  # an unreadable result file is replaced by the merged data of the folder of the same name
                    out.write_text("{")
                    other = base / "sub" / "ok.json"
                    other.write_text('{"a": 1}')
                    data = u.load_data([str(arg).rstrip("/") + ".json", str(other)])
                except Exception as ex:
                    rec.bad(f"loading an unreadable result file of {tree} named {arg}: {type(ex).__name__}: {ex}", case)
                    return
                finally:
                    os.chdir(cwd)
                if len(data) != 2 or data[1] != {"a": 1} or not isinstance(data[0], list) or len(data[0]) != len(want):
                    rec.bad(f"loading an unreadable result file of {tree} named {arg}: {data}", case)
                    return
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)


def lists(case, rec):
    u = du()
    for n in range(case["n"] + 1):
        for names in itertools.product(case["names"], repeat=n):
            d = [dict(SETS[x]) for x in names]
            got = u.merge_datasets(d)
            rec.add(traces=1, states=1)
            if not merged_ok("all", got, expected("all", names)) or d != [SETS[x] for x in names]:
                rec.bad(f"merging data sets {names}: {got} (inputs {'changed' if d != [SETS[x] for x in names] else 'unchanged'})", case)
                return


# ------------------------------------------------------------------------------------------------------
class Sched:
    """runs threads one file-system call at a time, in a prescribed order"""

    def __init__(self, choices):
        self.choices, self.pos, self.cv = list(choices), 0, threading.Condition()
        self.turn, self.alive, self.waiting, self.opts = None, set(), set(), []
        self.me = threading.local()

    def point(self):
        i = getattr(self.me, "i", None)
        if i is None:
            return
        with self.cv:
            self.waiting.add(i)
            self.turn = None if self.turn == i else self.turn
            self.pick()
            while self.turn != i:
                if not self.cv.wait(300):
                    raise RuntimeError("schedule stuck")
            self.waiting.discard(i)

    def pick(self):
        if self.turn is None and self.alive and self.waiting == self.alive:
            o = sorted(self.alive)
            c = self.choices[self.pos] if self.pos < len(self.choices) else 0
            self.opts.append(len(o))
            self.pos += 1
            self.turn = o[c % len(o)]
            self.cv.notify_all()

    def run(self, fns):
        self.alive = set(range(len(fns)))
        out = [None] * len(fns)

        def body(i):
            self.me.i = i
            try:
                self.point()
                out[i] = ("ok", fns[i]())
            except Exception as ex:
                out[i] = ("error", f"{type(ex).__name__}: {ex}")
            with self.cv:
                self.alive.discard(i)
                if self.turn == i:
                    self.turn = None
                self.pick()
                self.cv.notify_all()
        ts = [threading.Thread(target=body, args=(i,)) for i in range(len(fns))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        return out


HOOKS = ("stat", "open", "mkdir", "utime", "replace", "rename", "link", "lstat", "unlink")
SETTINGS = [
    {"codename": "c", "bias": [1.0, 1.0, 1.0], "data_err_rate": 0.1, "syndr_err_rate": 0.05},
    {"codename": "c", "bias": [1.0, 1.0, 1.0], "data_err_rate": 0.1, "syndr_err_rate": 0.051},
    {"codename": "c", "bias": [1.0, 1.0, 1.0], "data_err_rate": 0.2, "syndr_err_rate": 0.05},
    {"codename": "d", "bias": [1.0, 1.0, 1.0], "data_err_rate": 0.1, "syndr_err_rate": 0.05},
    {"codename": "c", "bias": [1.0, 2.0, 1.0], "data_err_rate": 0.1, "syndr_err_rate": 0.05},
    {"codename": "c", "bias": [1.0, 1.0, 1.0], "data_err_rate": 0.1, "syndr_err_rate": 0.05, "analog_tg": True},
    {"codename": "c", "bias": [1.0, 1.0, 1.0], "data_err_rate": 0.1, "syndr_err_rate": 0.05, "analog_info": True},
    {"codename": "c", "bias": [1.0, 1.0, 1.0], "data_err_rate": 0.1, "syndr_err_rate": 0.05, "x_meta": True},
    {"codename": "c", "bias": [1.0, 1.0, 1.0], "data_err_rate": 0.1, "syndr_err_rate": 0.05, "z_meta": True},
    {"codename": "c", "bias": [1.0, 1.0, 1.0], "data_err_rate": 0.1, "syndr_err_rate": 0.05, "sus_th_depth": 2},
    {"codename": "c", "bias": [1.0, 1.0, 1.0], "data_err_rate": 0.1, "syndr_err_rate": 0.05, "rounds": 2},
    {"codename": "c", "bias": [1.0, 1.0, 1.0], "data_err_rate": 0.1, "syndr_err_rate": 0.05, "repetitions": 2},
    {"codename": "c", "bias": [1.0, 1.0, 1.0], "data_err_rate": 0.1, "syndr_err_rate": 0.05, "single_stage": False},
    {"codename": "c", "bias": [1.0, 1.0, 1.0], "data_err_rate": 0.1, "syndr_err_rate": 0.05, "experiment": "e"},
    {"codename": "c", "bias": [1.0, 1.0, 1.0], "data_err_rate": 0.1, "sigma": 0.3},
    {"codename": "c", "bias": [1.0, 1.0, 1.0], "data_err_rate": 0.1, "syndr_err_rate": None, "sigma": 0.4},
]


def paths(case, rec):
    """histories of result paths: fresh, existing, empty, in a folder of their settings"""
    u = du()
    top = tempfile.mkdtemp(prefix="p29")
    cwd = os.getcwd()
    os.chdir(top)
    try:
        got = []
        for i in case["seq"]:
            s, ident = i % 100, i // 100
            before = {str(p) for p in Path(top).rglob("*") if p.is_file()}
            p = u.create_outpath(**SETTINGS[s], **({"identifier": ident} if ident else {}))
            rec.add(transitions=1)
            full = str(Path(top) / p)
            after = {str(q) for q in Path(top).rglob("*") if q.is_file()}
            if full in before or after != before | {full} or not p.endswith(".json"):
                rec.bad(f"settings {case['seq']}: path {p}, new files {sorted(after - before)}, existing {sorted(before)}", case)
                return
            if Path(full).read_text():
                rec.bad(f"settings {case['seq']}: result file {p} is not empty", case)
                return
            Path(full).write_text("{}")
            for j, q in got:
                if (os.path.dirname(p) == os.path.dirname(q)) != (s == j):
                    rec.bad(f"settings {SETTINGS[s]} and {SETTINGS[j]} share a folder or are separated: {p}, {q}", case)
                    return
            got.append((s, p))
        rec.add(traces=1, states=1)
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)


def race(case, rec):
    """processes that choose their result path at the same time, under every interleaving of their file-system calls"""
    u = du()
    old = {h: getattr(os, h) for h in HOOKS}
    stack = [[]]
    cwd = os.getcwd()
    runs = 0
    while stack:
        prefix = stack.pop()
        top = tempfile.mkdtemp(prefix="p29")
        sched = Sched(prefix)

        def wrap(f):
            def g(*a, **k):
                sched.point()
                return f(*a, **k)
            return g
        os.chdir(top)
        try:
            for i in range(case["pre"]):
                u.create_outpath(**SETTINGS[0])
            for h in HOOKS:
                setattr(os, h, wrap(old[h]))
            res = sched.run([lambda s=s: u.create_outpath(**SETTINGS[s]) for s in case["settings"]])
        finally:
            for h in HOOKS:
                setattr(os, h, old[h])
            os.chdir(cwd)
            shutil.rmtree(top)
        runs += 1
        rec.add(traces=1, transitions=len(sched.opts))
        ps = [r[1] for r in res]
        if any(r is None or r[0] == "error" for r in res) or len(set(ps)) != len(ps):
            rec.bad(f"{len(ps)} simultaneous simulations, schedule {prefix + [0] * (len(sched.opts) - len(prefix))}: result paths {res}", case)
            return
        # next schedules: change one later choice, with a bounded number of preemptions
        for pos in range(len(prefix), len(sched.opts)):
            for c in range(1, sched.opts[pos]):
                nxt = prefix + [0] * (pos - len(prefix)) + [c]
                if switches(nxt) <= case["switches"]:
                    stack.append(nxt)
        if runs > case["cap"]:
            raise mc.Infra("more schedules than expected")
    rec.add(states=1)


def switches(s):
    return sum(1 for a, b in zip([0, *s], s) if a != b)


# ------------------------------------------------------------------------------------------------------
def dicts(case, rec):
    u = du()
    vals = [[], [1], [1, 2], [1, 2, 3]]
    for ks in range(0, 4):
        for vs in itertools.product(vals, repeat=ks):
            kw = {f"k{i}": v for i, v in enumerate(vs)}
            p = list(u.product_dict(**kw))
            z = list(u.zip_dict(**kw))
            rec.add(traces=2, states=1)
            if sorted(map(str, p)) != sorted(str(dict(zip(kw, c))) for c in itertools.product(*vs)) or z != [{k: v[i] for k, v in kw.items()} for i in range(min(map(len, vs), default=0))]:
                rec.bad(f"product or zip of {kw}: {p}, {z}", case)
                return
    for n in range(5):
        for l in itertools.product([1.0, math.inf, 0.5], repeat=n):
            rec.add(traces=1)
            if list(u.replace_inf(list(l))) != ["i" if x == math.inf else x for x in l]:
                rec.bad(f"replace_inf({l}) = {u.replace_inf(list(l))}", case)
                return
    fields = {"bp_method": "ps", "max_bp_iter": 7, "osd_order": 3, "osd_method": "osd_e", "ms_scaling_factor": 0.5, "schedule": "serial", "omp_thread_count": 2,
              "random_serial_schedule": 1, "serial_schedule_order": [1, 0], "cutoff": 5.0}
    base = u.BpParams()
    for n in range(4):
        for ks in itertools.combinations(fields, n):
            p = u.BpParams.from_dict({**{k: fields[k] for k in ks}, "other": 1})
            rec.add(traces=1)
            if any(getattr(p, k) != (fields[k] if k in ks else getattr(base, k)) for k in fields):
                rec.bad(f"BpParams from {ks}: {p}", case)
                return
    top = tempfile.mkdtemp(prefix="p29")
    try:
        lines = [{"a": 1, "b": "x"}, {"a": 2}, {"b": "x", "c": [1]}, {}]
        for n in range(4):
            for ls in itertools.product(lines, repeat=n):
                f = Path(top) / "s.txt"
                f.write_text("".join(json.dumps(x) + "\n" for x in ls))
                want = {}
                for x in ls:
                    for k, v in x.items():
                        if v not in want.setdefault(k, []):
                            want[k].append(v)
                rec.add(traces=1)
                if u.extract_settings(str(f)) != want:
                    rec.bad(f"settings of {ls}: {u.extract_settings(str(f))}", case)
                    return
    finally:
        shutil.rmtree(top)


FN = {"rates": rates, "merge": merge, "lists": lists, "paths": paths, "race": race, "dicts": dicts}


def cases(ctx):
    q = ctx.quick
    out = {k: [] for k in FN}
    out["rates"] = [{"k": k, "runs": 24 if q else 80} for k in (1, 2, 3, 5)]
    out["lists"] = [{"n": 3 if q else 5, "names": ["xz", "XZ"]}]
    hows = ["abs", "abspath", "rel", "dot", "inside", "up", "relpath"]
    full = [["xz"], ["xz", "XZ"], ["XZ", "xz", "xz"], ["?"], ["xz", "?", "t"], ["d", "XZ"], []]
    part = [["x"], ["x", "X"], ["z", "Z", "z"], ["x", "z"], ["z", "x", "X", "Z"], ["xz"], ["xz", "XZ"], ["XZ", "x", "z"], ["?", "x"], []]
    for kind, folders in (("all", full), ("x", part), ("z", part), ("xz", part)):
        for n in range(0, 3 if q else 4):
            for t in itertools.product(folders, repeat=n):
                out["merge"].append({"kind": kind, "tree": [list(f) for f in t], "how": hows if n < 2 or not q else ["abs", "rel"], "load": n < 2})
    ids = list(range(len(SETTINGS)))
    for n in (1, 2, 3):
        for seq in itertools.product(ids if n < 3 else [0, 5, 100, 300, 14], repeat=n):
            out["paths"].append({"seq": list(seq)})
    for seq in itertools.product([0, 100, 200, 5], repeat=4):
        out["paths"].append({"seq": list(seq)})
    for sets, pre, sw in (([0, 0], 0, 3), ([0, 0], 1, 3), ([0, 0], 2, 2), ([0, 1], 0, 2), ([0, 0, 0], 0, 2)):
        out["race"].append({"settings": sets, "pre": pre, "switches": sw + (0 if q or len(sets) > 2 else 1), "cap": 1000000})
    out["dicts"] = [{}]
    for k, v in out.items():
        for c in v:
            c["fn"] = k
    return out


def run(ctx):
    du()
    for part, cs in cases(ctx).items():
        mc.explore(ctx, part, cs, lambda c, r: FN[c["fn"]](c, r), timeout=600)
        ctx.sample({part: cs[len(cs) // 2]})
    ctx.bound("all numbers of successes and runs up to 24 (thorough 80) for k = 1, 2, 3, 5; all trees of up to 2 (3) result folders from 7 or 10 kinds of contents, named in up to 7 ways")
    ctx.bound("all histories of up to 2 result paths over 16 settings, and up to 4 over a choice; all interleavings of the file-system calls of 2 and 3 simultaneous create_outpath calls with up to 3 (2 for three processes; thorough 4) switches")
    ctx.assume("processes are interleaved as threads at their calls of os functions; the word error rate's error bar has no documented formula and is only used through the convergence test")


def replay(ctx, case):
    du()
    mc.explore(ctx, "replay", [case], FN[case["fn"]], timeout=600)
