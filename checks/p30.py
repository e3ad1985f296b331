"""Product code construction: homology (Kuenneth), chain complex, logical operators and saved files for every small seed."""
import collections
import ctypes
import itertools
import json
import os
import pickle
import shutil
import tempfile
from pathlib import Path

import numpy as np

import gf2
import mc

PKG = "mqt.qecc.analog_information_decoding.code_construction"


def mods():
    import importlib
    return importlib.import_module(PKG + ".code_constructor"), importlib.import_module(PKG + ".sparse_code_constructor")


def dense(m):
    return np.asarray(m.todense() if hasattr(m, "todense") else m).astype(np.int64)


def rows(m):
    return [int("".join("1" if v % 2 else "0" for v in r) or "0", 2) for r in dense(m)]


def rank(m):
    return gf2.rank(rows(m))


def poly(fs):
    """dimensions of the spaces and of the homology of the product of the one-step complexes f (dim1 -> dim0)"""
    dims, hom = [1], [1]
    for f in fs:
        r = rank(f)
        dims = [a + b for a, b in zip([x * f.shape[0] for x in dims] + [0], [0] + [x * f.shape[1] for x in dims])]
        hom = [a + b for a, b in zip([x * (f.shape[0] - r) for x in hom] + [0], [0] + [x * (f.shape[1] - r) for x in hom])]
    return dims, hom


def weights(parts):
    """multiset of (degree, boundary weight, coboundary weight) of the cells of a product of complexes given per factor"""
    acc = collections.Counter({(0, 0, 0): 1})
    for cells in parts:
        new = collections.Counter()
        for (a, b, c), m in acc.items():
            for (x, y, z), k in cells.items():
                new[a + x, b + y, c + z] += m * k
        acc = new
    return acc


def cells(maps):
    """cells of a complex given by its maps d_1, d_2, ..."""
    maps = [dense(m) for m in maps]
    out = collections.Counter()
    for deg in range(len(maps) + 1):
        n = maps[deg].shape[0] if deg < len(maps) else maps[-1].shape[1]
        for i in range(n):
            out[deg, int(maps[deg - 1][:, i].sum()) if deg else 0, int(maps[deg][i].sum()) if deg < len(maps) else 0] += 1
    return out


def judge(maps, factors, hom):
    """None or what is wrong with the maps of the product of complexes"""
    ms = [dense(m) for m in maps]
    if any(((m < 0) | (m > 1)).any() for m in ms):
        return "entries that are not bits"
    if any(a.shape[1] != b.shape[0] for a, b in zip(ms, ms[1:])):
        return f"shapes {[m.shape for m in ms]}"
    if any((a @ b % 2).any() for a, b in zip(ms, ms[1:])):
        return "boundary maps do not square to zero"
    if cells(ms) != weights([cells(f) for f in factors]):
        return f"dimensions or weights of the checks: {sorted(cells(ms).items())}"
    if hom is not None:
        r = [0, *map(rank, ms), 0]
        dims = [ms[0].shape[0]] + [m.shape[1] for m in ms]
        got = [d - a - b for d, a, b in zip(dims, r, r[1:])]
        if got != hom:
            return f"homology {got}, expected {hom}"
    return None


# ------------------------------------------------------------------------------------------------------
def mat(shape, v):
    return np.array([[v >> (i * shape[1] + j) & 1 for j in range(shape[1])] for i in range(shape[0])], dtype=np.int32).reshape(shape)


def mul(hs, gs):
    """homology of the product from the homology of the factors"""
    out = [0] * (len(hs) + len(gs) - 1)
    for i, a in enumerate(hs):
        for j, b in enumerate(gs):
            out[i + j] += a * b
    return out


def homology(maps):
    r = [0, *map(rank, maps), 0]
    dims = [maps[0].shape[0]] + [m.shape[1] for m in maps]
    return [d - a - b for d, a, b in zip(dims, r, r[1:])]


def product(case, rec):
    """generate_3d/4d_product_code for all matrices of given shapes, also those that are no chain complex"""
    from scipy import sparse
    dim, form = case["dim"], case["form"]
    mod = mods()[form == "sparse"]
    fn = getattr(mod, f"generate_{dim}d_product_code")
    conv = sparse.csr_matrix if form == "sparse" else (lambda m: m)
    shapes = [tuple(s) for s in case["shapes"]]
    n = [1 << (a * b) for a, b in shapes]
    firsts = range(n[0]) if case["first"] is None else case["first"]
    for vs in itertools.product(firsts, *(range(k) for k in n[1:])):
        ms = [mat(s, v) for s, v in zip(shapes, vs)]
        a, p = ms[:-1], ms[-1]
        chain = not any((x @ y % 2).any() for x, y in zip(a, a[1:]))
        if not chain and dim == 4 and case["checks"] is False:
            continue  # the caller vouches for the complex
        args = [conv(m) for m in ms]
        kw = {} if case["checks"] is None else {"checks": case["checks"]}
        try:
            got = fn(*args, **kw)
        except RuntimeError as ex:
            got = ex
        except Exception as ex:
            rec.bad(f"{form} {dim}D product of {[m.tolist() for m in ms]}: {type(ex).__name__}: {ex}", case)
            return
        rec.add(traces=1, states=1)
        if isinstance(got, Exception) == chain:
            rec.bad(f"{form} {dim}D product of {[m.tolist() for m in ms]}: {'rejected: ' + str(got) if chain else 'accepted although it is no chain complex'}", case)
            return
        if any((dense(x) != y).any() for x, y in zip(args, ms)):
            rec.bad(f"{form} {dim}D product of {[m.tolist() for m in ms]}: arguments changed", case)
            return
        if chain:
            err = "number of maps" if len(got) != dim else judge(got, [a, [p]], mul(homology(a), homology([p])))
            if err:
                rec.bad(f"{form} {dim}D product of {[m.tolist() for m in ms]}: {err}", case)
                return


# ------------------------------------------------------------------------------------------------------
def load(d, name):
    """matrix saved in both formats, or None"""
    import scipy.io as sio
    t, m = d / f"{name}.txt", d / f"{name}.mtx"
    if not t.exists() and not m.exists():
        return None
    a = dense(sio.mmread(str(m)))
    b = np.array([[int(x) for x in line.split()] for line in t.read_text().splitlines()], dtype=np.int64).reshape(-1, a.shape[1])
    if a.shape != b.shape or (a != b).any():
        raise ValueError(f"{name}: {t.name} and {m.name} differ")
    return a


def span(v, rows_):
    return gf2.rank(list(rows_) + [v]) == gf2.rank(list(rows_))


def logicals_ok(lx, hx, hz, k):
    """lx: k operators that commute with hz and are independent of hx and of each other"""
    if lx.shape != (k, hx.shape[1]) and not (k == 0 and lx.size == 0):
        return False
    return k == 0 or (not (lx @ hz.T % 2).any() and gf2.rank(rows(hx) + rows(lx)) == rank(hx) + k)


def in_scratch(fn, chroot):
    """runs fn(scratch folder) in a child whose file system is (or whose working directory is in) a new folder"""
    top = Path(tempfile.mkdtemp(prefix="p30"))
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.chdir(top)
            if chroot:
                if ctypes.CDLL(None, use_errno=True).unshare(0x10000000):
                    out = ("no chroot", "")
                else:
                    os.chroot(top)
                    os.chdir("/")
                    out = None
            else:
                out = None
            if out is None:
                try:
                    out = ("ok", fn())
                except PermissionError as ex:
                    out = ("no chroot" if chroot and "chroot" in str(ex) else "error", f"{type(ex).__name__}: {ex}")
                except Exception as ex:
                    out = ("error", f"{type(ex).__name__}: {ex}")
        except PermissionError as ex:
            out = ("no chroot", str(ex))
        except BaseException as ex:
            out = ("error", f"{type(ex).__name__}: {ex}")
        os.write(w, pickle.dumps(out)[:60000])
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return top, pickle.loads(data)


GAP = """#!/bin/bash
i=3
grep -v '^ *#' | grep -o 'Print("[A-Za-z]* = "' | while read -r l; do l=${l#Print\\(\\"}; echo "${l%\\"}$i"; i=$((i+1)); done
"""


def create(case, rec):
    """create_code with all its options; the saved code is the product of the seed codes"""
    form = case["form"]
    mod = mods()[form == "sparse"]
    seeds = [np.array(s, dtype=np.int64) for s in case["seeds"]]
    script = Path(mods()[0].__file__).parent / "compute_distances.sh"
    saved = []

    def body():
        for i, (lg, dist) in enumerate(case["steps"]):
            if dist:
                shutil.copy(script, "compute_distances.sh")
                os.mkdir("bin")
                Path("bin/gap").write_text(GAP)
                os.chmod("bin/gap", 0o755)
                os.environ["PATH"] = os.getcwd() + "/bin:" + os.environ["PATH"]
            mod.create_code("hgp", [np.copy(s) for s in seeds], f"code{i}", compute_logicals=lg, **({"compute_distance": True} if dist else {}))

    top, (res, why) = in_scratch(body, form == "sparse")
    what = f"{form} product code of {case['seeds']} steps (logicals, distance) {case['steps']}"
    try:
        rec.add(traces=1, transitions=len(case["steps"]))
        if res == "no chroot":
            return
        if res != "ok":
            rec.bad(f"{what}: {why}", case)
            return
        for i, (lg, dist) in enumerate(case["steps"]):
            d = top / ("codes/generated_codes" if form == "sparse" else "generated_codes") / f"code{i}"
            try:
                m = {x: load(d, x) for x in ("mx", "hx", "hz", "mz", "lx", "lz")}
            except Exception as ex:
                rec.bad(f"{what}: {type(ex).__name__}: {ex}", case)
                return
            rec.add(states=1)
            need = ["hx", "hz", "mz"] + (["mx"] if form == "dense" else []) + (["lx", "lz"] if lg else [])
            if sorted(x for x in m if m[x] is not None) != sorted(need):
                rec.bad(f"{what}: saved matrices {[x for x in m if m[x] is not None]}, expected {need}", case)
                return
            fs = [[seeds[0]], [seeds[1].T], *[[s] for s in seeds[2:]]]
            maps = ([m["mx"]] if form == "dense" else []) + [m["hx"], m["hz"].T, m["mz"].T]
            dims, hom = poly([f[0] for f in fs])
            err = judge(maps, fs, hom)
            k = hom[len(maps) // 2 if form == "dense" else 1]
            n = m["hx"].shape[1]
            if not err and lg and not (logicals_ok(m["lx"], m["hx"], m["hz"], k) and logicals_ok(m["lz"], m["hz"], m["hx"], k)):
                err = f"saved logicals are not {k} independent logical operators"
            if not err and (form == "sparse" or dist):
                p = json.loads((d / "code_params.txt").read_text())
                if p.get("n") != n or p.get("k") != k or (dist and {x: p[x] for x in ("dX", "dZ", "dMX", "dMZ")} != {a: int(b) for a, b in (line.split(" = ") for line in (d / "info.txt").read_text().splitlines())}):
                    err = f"saved parameters {p}, expected n={n}, k={k}"
            if err:
                rec.bad(f"{what}: {err}", case)
                return
    finally:
        shutil.rmtree(top)


def reject(case, rec):
    for form in (0, 1):
        for name in ("", "HGP", "lifted", "hgp2", None):
            top, (res, why) = in_scratch(lambda: mods()[form].create_code(name, [np.array([[1, 1]])] * 4, "x"), form == 1)
            left = sorted(str(p) for p in top.rglob("*"))
            shutil.rmtree(top)
            rec.add(traces=1, states=1)
            if res != "no chroot" and (res == "ok" or not why.startswith("ValueError") or left):
                rec.bad(f"constructor {name!r} ({'sparse' if form else 'dense'}): {res} {why}, files {left}", case)
                return


FN = {"product": product, "create": create, "reject": reject}
SEEDS = {
    "rep2": [[1, 1]], "rep3": [[1, 1, 0], [0, 1, 1]], "ring2": [[1, 1], [1, 1]], "ring3": [[1, 1, 0], [0, 1, 1], [1, 0, 1]], "col": [[1], [1]], "one": [[1]], "mix": [[1, 0], [1, 1]], "zero": [[0, 0]],
    "half": [[1, 0]], "wide": [[1, 1, 1]], "tall": [[1, 0], [1, 1], [0, 1]], "par": [[1, 1, 0, 1], [1, 0, 1, 1]],
}


def cases(ctx):
    q = ctx.quick
    out = {k: [] for k in FN}
    sh = [(1, 1), (1, 2), (2, 1), (2, 2)]
    sizes = (1, 2)
    for form in ("dense", "sparse"):
        for l, m, n in itertools.product(sizes, repeat=3):
            for p in sh:
                bits = l * m + m * n + p[0] * p[1]
                if q and form == "sparse" and bits > 8:
                    continue
                first = range(1 << (l * m))
                for f in ([None] if bits < 10 else [[v] for v in first]):
                    out["product"].append({"dim": 3, "form": form, "shapes": [(l, m), (m, n), p], "first": f, "checks": None})
        for l, m, n, k in itertools.product(sizes, repeat=4):
            for p in sh:
                bits = l * m + m * n + n * k + p[0] * p[1]
                if bits > ((10 if form == "dense" else 7) if q else (16 if form == "dense" else 11)):
                    continue
                for f in ([None] if bits < 9 else [[v] for v in range(1 << (l * m))]):
                    for checks in (None, True, False) if bits < 9 else (None,):
                        out["product"].append({"dim": 4, "form": form, "shapes": [(l, m), (m, n), (n, k), p], "first": f, "checks": checks})
        for big in ([(2, 3), (3, 1), (1, 2)], [(1, 3), (3, 2), (2, 2)], [(3, 2), (2, 3), (1, 1)], [(2, 2), (2, 3), (1, 3)], [(1, 2), (2, 1), (2, 3)]):
            bits = sum(a * b for a, b in big)
            if not q or bits < 12:
                for v in range(1 << (big[0][0] * big[0][1])):
                    out["product"].append({"dim": 3, "form": form, "shapes": big, "first": [v], "checks": None})
    names = ["rep2", "col", "one", "mix", "zero", "ring2"]
    steps = [[(True, False)], [(False, False)], [(False, False), (True, False)]]
    for form, d in (("dense", 4), ("sparse", 3)):
        for i, ns in enumerate(itertools.product(names, repeat=d)):
            if q and form == "dense" and sum(map(names.index, ns)) % 3:
                continue
            for st in steps if not q or len(set(ns)) < 3 else steps[:1]:
                out["create"].append({"form": form, "seeds": [SEEDS[x] for x in ns], "steps": st})
        for ns in itertools.product(SEEDS, repeat=2):  # pairs of larger seeds at every position
            for pos in itertools.combinations(range(d), 2):
                if q and (d == 4 and pos not in ((0, 1), (1, 3)) or d == 3 and pos == (0, 2)):
                    continue
                s = ["rep2" if form == "sparse" else "one"] * d
                s[pos[0]], s[pos[1]] = ns
                out["create"].append({"form": form, "seeds": [SEEDS[x] for x in s], "steps": steps[0]})
    for ns in itertools.product(names, repeat=2):
        for lg in (False, True):
            out["create"].append({"form": "dense", "seeds": [SEEDS[x] for x in (*ns, "rep2", "one")], "steps": [(lg, True)]})
    for x in ("ring3", "rep3"):
        for form, d in (("dense", 4), ("sparse", 3)):
            out["create"].append({"form": form, "seeds": [SEEDS[x]] * d, "steps": steps[0]})
    out["reject"] = [{}]
    for k, v in out.items():
        for c in v:
            c["fn"] = k
    return out


def warm():
    """everything that is imported lazily must be loaded before a child loses the file system"""
    cc, sc = mods()
    top, _ = in_scratch(lambda: None, False)
    cwd = os.getcwd()
    os.chdir(top)
    try:
        cc.create_code("hgp", [np.array([[1, 1]])] * 4, "w", compute_logicals=True, checks=True)
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)


def run(ctx):
    warm()
    top, (res, why) = in_scratch(lambda: None, True)
    shutil.rmtree(top)
    if res != "ok":
        ctx.assume(f"sparse create_code not explored: no user namespace for its absolute paths ({why})")
    for part, cs in cases(ctx).items():
        mc.explore(ctx, part, cs, lambda c, r: FN[c["fn"]](c, r), timeout=600)
        ctx.sample({part: cs[len(cs) // 2]})
    ctx.bound("all matrices with up to 2 rows and columns (and selected shapes with 3) as factors of 3D and 4D products, dense and sparse, chain complexes or not; all 3- and 4-tuples of 6 seeds (quick: a third of the 4-tuples) and pairs of 12 seeds for create_code")
    ctx.assume("the GAP program that estimates distances is replaced by a stand-in; sparse create_code runs in a child confined to a scratch folder and without distances")


def replay(ctx, case):
    warm()
    mc.explore(ctx, "replay", [case], FN[case["fn"]], timeout=600)
