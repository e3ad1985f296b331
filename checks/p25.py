"""Noise and syndrome conversions of the analog information decoding package, logical error tests and single-stage matrices."""
import itertools
import math

import numpy as np

import csscodes
import gf2
import mc

S = "mqt.qecc.analog_information_decoding.utils.simulation_utils"


class Grid:
    """random source that returns prescribed values of [0, 1)"""

    def __init__(self, vals):
        self.vals, self.pos = list(vals), 0

    def __call__(self, *a, **k):
        return self

    def random(self, size=None, *a, **k):
        if size is None:
            self.pos += 1
            return self.vals[self.pos - 1]
        n = int(np.prod(size))
        self.pos += n
        return np.array(self.vals[self.pos - n:self.pos]).reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc = np.asarray(loc, dtype=float)
        n = loc.size if size is None else int(np.prod(size))
        self.pos += n
        return loc + scale * np.array(self.vals[self.pos - n:self.pos]).reshape(loc.shape if size is None else size)


def with_rng(vals, fn):
    g = Grid(vals)
    old = np.random.default_rng
    np.random.default_rng = g
    try:
        return fn(), g
    finally:
        np.random.default_rng = old


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


# ------------------------------------------------------------------------------------------------------
def channels(case, rec):
    import importlib
    u = importlib.import_module(S)
    p, bias, n = case["p"], [math.inf if b == "inf" else b for b in case["bias"]], case["n"]
    chs = u.error_channel_setup(p, np.array(bias, dtype=float), n)
    rec.add(states=1, transitions=1)
    if math.inf in bias:
        i = bias.index(math.inf)
        want = [p if j == i else 0.0 for j in range(3)]
    else:
        want = [p * b / sum(bias) for b in bias]
    if len(chs) != 3 or any(not close(c, [w] * n) for c, w in zip(chs, want)):
        rec.bad(f"error channels for rate {p} bias {bias}: {[np.asarray(c).tolist() for c in chs]}, expected {want}", case)
        return
    # sampling: the probability of every outcome is its channel probability, independent of the residual error
    N = case["grid"]
    vals = [(i + 0.5) / N for i in range(N)]
    for rx, rz in itertools.product((0, 1), repeat=2):
        cnt = {}
        for v in vals:
            res = [np.array([rx], dtype=np.int32), np.array([rz], dtype=np.int32)]
            (e, g) = with_rng([v], lambda: u.generate_err(1, tuple(np.asarray(c)[:1] for c in chs), res))
            x, z = int(e[0][0]) ^ rx, int(e[1][0]) ^ rz
            cnt[x, z] = cnt.get((x, z), 0) + 1
            rec.add(traces=1)
            if g.pos != 1 or {int(e[0][0]), int(e[1][0])} - {0, 1}:
                rec.bad(f"error sampling: {e} using {g.pos} random numbers", case)
                return
        for key, w in (((1, 0), want[0]), ((1, 1), want[1]), ((0, 1), want[2]), ((0, 0), 1 - sum(want))):
            if abs(cnt.get(key, 0) / N - w) > 1.0001 / N:
                rec.bad(f"channels {want}, residual {rx, rz}: (x, z) = {key} is sampled with probability {cnt.get(key, 0) / N}, not {w}", case)
                return
    # the qubits are sampled independently: every combination of outcomes on n qubits
    outs = {}
    for v in vals:
        k = 1 if v < want[2] else 2 if v < want[2] + want[0] else 3 if v < sum(want) else 0
        outs.setdefault(k, v)
    for vs in itertools.product(sorted(outs.values()), repeat=min(n, 3)):
        m = len(vs)
        for rx, rz in itertools.product(range(1 << m), repeat=2):
            if m == 3 and (rx * 8 + rz) % 5:
                continue
            res = [np.array(gf2.unvec(r, m), dtype=np.int32) for r in (rx, rz)]
            one = [with_rng([v], lambda v=v, i=i: u.generate_err(1, tuple(np.asarray(c)[:1] for c in chs), [np.array([(r >> i) & 1], dtype=np.int32) for r in (rx, rz)]))[0] for i, v in enumerate(vs)]
            e, g = with_rng(vs, lambda: u.generate_err(m, tuple(np.asarray(c)[:m] for c in chs), res))
            rec.add(traces=1)
            if [int(b) for b in e[0]] != [int(o[0][0]) for o in one] or [int(b) for b in e[1]] != [int(o[1][0]) for o in one]:
                rec.bad(f"channels {want}, residual {rx:b} {rz:b}, random numbers {vs}: errors {e}", case)
                return
    # syndrome errors
    probs = np.array([p, 0.0, p / 2, 1.0])[: case["n"] + 1]
    for vs in itertools.product([0.0, p / 4, p / 2, p * 0.75, min(p, 0.999999), 0.999999], repeat=len(probs)):
        e, g = with_rng(vs, lambda: u.generate_syndr_err(probs))
        rec.add(traces=1)
        if [int(b) for b in e] != [int(v < q) for v, q in zip(vs, probs)]:
            rec.bad(f"syndrome error for probabilities {probs} and random numbers {vs}: {e}", case)
            return


def analog(case, rec):
    import importlib
    u = importlib.import_module(S)
    kind = case["kind"]
    rec.add(states=1)
    if kind == "sigma":
        last = 0.0
        for i in range(0, case["N"]):
            r = 0.5 * i / case["N"]
            s = u.get_sigma_from_syndr_er(r)
            b = u.get_error_rate_from_sigma(s)
            rec.add(traces=1)
            # P(1 + N(0, s) <= 0)
            want = 0.5 * math.erfc(1 / (s * math.sqrt(2))) if s > 0 else 0.0
            if not (s > last or i == 0 and s == 0) or abs(b - r) > 1e-9 or abs(want - r) > 1e-9:
                rec.bad(f"error rate {r}: sigma {s} (previous {last}), back to {b}, a sample has the wrong sign with {want}", case)
                return
            last = s
        for i in range(0, case["N"]):
            s = 0.05 * (i + 2) / 3
            r = u.get_error_rate_from_sigma(s)
            t = u.get_sigma_from_syndr_er(r)
            rec.add(traces=1)
            if r > 1e-300 and abs(t - s) > 1e-6 * s:
                rec.bad(f"sigma {s}: error rate {r}, back to {t}", case)
                return
        return
    m = case["m"]
    if kind == "conversions":
        for bits in itertools.product((0, 1), repeat=m):
            b = np.array(bits)
            s = u.get_signed_from_binary(b)
            rec.add(traces=1)
            if list(map(int, s)) != [1 - 2 * x for x in bits] or list(map(int, u.get_binary_from_analog(s.astype(float)))) != list(bits):
                rec.bad(f"binary {bits}: signed {s}, back to {u.get_binary_from_analog(s.astype(float))}", case)
                return
            for zs in itertools.product((-2.5, -1.0, -0.4, 0.0, 0.4, 1.0, 2.5), repeat=m):
                for sg in (0.0, 0.3, 1.0):
                    y, g = with_rng(zs, lambda: u.get_noisy_analog_syndrome(b, sg))
                    want = [1 - 2 * x + sg * z for x, z in zip(bits, zs)]
                    rec.add(traces=1)
                    if not close(y, want) or list(map(int, u.get_binary_from_analog(y))) != [int(w <= 0) for w in y]:
                        rec.bad(f"analog syndrome of {bits} sigma {sg} noise {zs}: {y}, thresholded {u.get_binary_from_analog(y)}", case)
                        return
        return
    # posterior probability of the wrong sign, given the analog value
    ys = [k / 8 for k in range(-24, 25)]
    for vals in ([[y] for y in ys] if m == 1 else itertools.product(ys[::6], repeat=m)):
        for sg in (0.1, 0.25, 0.5, 0.8, 1.0, 2.0):
            y = np.array(vals)
            v = u.get_virtual_check_init_vals(y, sg)
            l = u.get_analog_llr(y, sg)
            rec.add(traces=1)
            post = []
            for t in vals:
                d = ((abs(t) - 1) ** 2 - (abs(t) + 1) ** 2) / (2 * sg * sg)  # log likelihood ratio of the wrong sign
                post.append(math.exp(d) / (1 + math.exp(d)))
            llr = [((t + 1) ** 2 - (t - 1) ** 2) / (2 * sg * sg) for t in vals]
            if not close(v, post) or not close(l, llr):
                rec.bad(f"analog values {vals} sigma {sg}: error probabilities {v} (expected {post}), log likelihood ratios {l} (expected {llr})", case)
                return
        for sg in (0.0, -1.0):
            if not close(u.get_virtual_check_init_vals(np.array(vals), sg), [0.0] * m) or not close(u.get_analog_llr(np.array(vals), sg), [0.0] * m):
                rec.bad(f"analog values {vals} sigma {sg}: not zero", case)
                return


def logical(case, rec):
    """logical error tests of residuals, with logical operators and with the stabilizers"""
    import importlib
    u = importlib.import_module(S)
    n, hx, hz = case["n"], case["hx"], case["hz"]
    code = csscodes.make(n, hx, hz, *case["d"])
    mat = lambda rows: np.array([gf2.unvec(r, n) for r in rows], dtype=np.int32).reshape(len(rows), n)
    sx = gf2.span(hx)
    rec.add(states=1)
    lz = np.asarray(code.Lz).astype(np.int32)
    for e in range(1 << n):
        if gf2.syn(hz, e):
            continue
        r = np.array(gf2.unvec(e, n), dtype=np.int32)
        rec.add(traces=1)
        if bool(u.is_logical_err(lz, r)) != (e not in sx):
            rec.bad(f"{hx} {hz}: residual {e:b} logical: {u.is_logical_err(lz, r)}", case)
            return
    if not hx:
        return
    H = mat(hx)
    for e in range(1 << n):
        for d in (range(1 << n) if n <= 3 else (0, e, 1, (1 << n) - 1, e >> 1)):
            got = u.check_logical_err_h(H, np.array(gf2.unvec(e, n), dtype=np.int32), np.array(gf2.unvec(d, n), dtype=np.int32))
            rec.add(traces=1)
            if bool(got) != ((e ^ d) not in sx):
                rec.bad(f"checks {hx}: error {e:b} estimate {d:b} logical: {got}, residual {'not ' if (e ^ d) not in sx else ''}a stabilizer", case)
                return


def stage(case, rec):
    import importlib
    u = importlib.import_module(S)
    n, h, m = case["n"], case["h"], case["m"]
    mat = lambda rows, k: np.array([gf2.unvec(r, k) for r in rows], dtype=np.int32).reshape(len(rows), k)
    H, M = mat(h, n), mat(m, len(h))
    A = np.asarray(u.build_single_stage_pcm(H, M)) % 2
    rec.add(states=1)
    if A.shape != (len(h) + len(m), n + len(h)):
        rec.bad(f"single-stage matrix of {h} {m} has shape {A.shape}", case)
        return
    for e in range(1 << n):
        for s in range(1 << len(h)):
            v = np.array(gf2.unvec(e, n) + gf2.unvec(s, len(h)))
            syn = gf2.syn(h, e) if h else 0
            top = [(gf2.par(r & e) ^ ((s >> i) & 1)) for i, r in enumerate(h)]
            bot = [gf2.par(r & s) for r in m]
            rec.add(traces=1)
            if (A @ v % 2).astype(int).tolist() != top + bot:
                rec.bad(f"single-stage syndrome of data {e:b} and syndrome error {s:b} for {h} {m}: {A @ v % 2}, expected {top + bot}", case)
                return


def alist(case, rec):
    """matrices written in the alist format are read back"""
    import importlib, os, tempfile
    u = importlib.import_module(S)
    n, rows = case["n"], case["rows"]
    m = len(rows)
    M = [gf2.unvec(r, n) for r in rows]
    # the format read here: dimensions, maximal weights, row weights, column weights, then the column indices of every row
    lines = [f"{m} {n}", f"{max([sum(r) for r in M] + [0])} {max([sum(r[j] for r in M) for j in range(n)] + [0])}", " ".join(str(sum(r)) for r in M), " ".join(str(sum(r[j] for r in M)) for j in range(n))]
    lines += [" ".join(str(j + 1) for j in range(n) if r[j]) for r in M]
    lines += [" ".join(str(i + 1) for i in range(m) if M[i][j]) or "0" for j in range(n)]
    d = tempfile.mkdtemp(prefix="mc_P25_")
    try:
        f = os.path.join(d, "m.alist")
        with open(f, "w") as o:
            o.write("\n".join(lines) + "\n")
        got = np.asarray(u.alist2numpy(f))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    rec.add(states=1, traces=1)
    if got.shape != (m, n) or got.astype(int).tolist() != M:
        rec.bad(f"alist file of {M}: read {got.tolist()}", case)


def cases(ctx):
    q = ctx.quick
    out = {"channels": [], "analog": [], "logical": [], "stage": [], "alist": []}
    vals = [0, 0.5, 1.0, 2.0] if q else [0, 0.25, 0.5, 1.0, 2.0, 7.0]
    for b in itertools.product(vals, repeat=3):
        if sum(b):
            for p in (0.01, 0.1, 0.3, 1.0) if q else (0.0, 0.01, 0.05, 0.1, 0.3, 0.5, 0.75, 1.0):
                out["channels"].append({"p": p, "bias": list(b), "n": 2 if q else 3, "grid": 500 if q else 4000, "fn": "channels"})
    for i in range(3):
        for p in (0.0, 0.1, 0.5):
            out["channels"].append({"p": p, "bias": ["inf" if j == i else 1.0 for j in range(3)], "n": 2, "grid": 500, "fn": "channels"})
    out["analog"] = [{"kind": "sigma", "N": 400 if q else 5000}] + [{"kind": k, "m": m} for k in ("conversions", "posterior") for m in (1, 2, 3)]
    for c in out["analog"]:
        c["fn"] = "analog"
    for n in (2, 3, 4, 5):
        for mx in range(0, n):
            for mz in range(0, n - mx):
                if mx + mz == 0:
                    continue
                for i, c in enumerate(csscodes.codes(n, mx, mz)):
                    if n < 5 and not q or n < 4 or i % (6 if q else 2) == 0:
                        out["logical"].append({**c, "fn": "logical"})
    for nm in ("steane", "422"):
        out["logical"].append({**csscodes.named(nm), "fn": "logical"})
    for n in (1, 2, 3):
        for k in (1, 2, 3):
            for h in itertools.product(range(1 << n), repeat=k):
                for l in (1, 2) if k < 3 or not q else (1,):
                    ms = list(itertools.product(range(1 << k), repeat=l))
                    for i, m in enumerate(ms):
                        if q and k == 3 and n == 3 and (i + sum(h)) % 8:
                            continue
                        out["stage"].append({"n": n, "h": list(h), "m": list(m), "fn": "stage"})
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for m in (1, 2, 3):
            for rows in itertools.product(range(1, 1 << n), repeat=m):
                out["alist"].append({"n": n, "rows": list(rows), "fn": "alist"})
    return out


FN = {"channels": channels, "analog": analog, "logical": logical, "stage": stage, "alist": alist}


def run(ctx):
    import importlib
    importlib.import_module(S)
    for part, cs in cases(ctx).items():
        mc.explore(ctx, part, cs, FN[part], timeout=120)
        ctx.sample({part: cs[len(cs) // 2]})
    ctx.bound("error rates and biases on a grid incl. infinite bias; every Pauli outcome and residual error of one and several qubits; analog outcomes on a grid; all errors against all check matrices of up to 4 columns and 3 rows; all matrices up to 3x4 for the matrix constructions and the alist reader")
    ctx.assume("uniform random numbers are compared with cumulative channel probabilities in any order of the Paulis")


def replay(ctx, case):
    mc.explore(ctx, "replay", [case], FN[case["fn"]], timeout=120)
