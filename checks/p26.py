"""Overlapping-window (quasi single-shot) simulation: verdicts on every fault history against an exact window decoder."""
import itertools
import json
import math
import os
import tempfile

import numpy as np

import gf2
import mc
import p25

EPS = 1e-3


def code(kind, n):
    """(checks, logicals, number of correctable faults) as bit masks; at most two checks per bit"""
    if kind == "rep":
        return [3 << i for i in range(n - 1)], [1], n
    if kind == "ring":
        return [(1 << i) | (1 << (i + 1) % n) for i in range(n)], [1], n
    if kind == "bits":  # two independent repetition codes of n bits
        return [3 << i for i in range(n - 1)] + [3 << (n + i) for i in range(n - 1)], [1, 1 << n], n
    if kind == "steane":
        return [0b1010101, 0b1100110, 0b1111000], [0b1111111], 3
    raise ValueError(kind)


def mats(case):
    rows, logs, d = code(case["kind"], case["n"])
    n = case["n"] * 2 if case["kind"] == "bits" else case["n"]
    mat = lambda vs: np.array([[(v >> i) & 1 for i in range(n)] for v in vs], dtype=np.int32)
    return n, rows, logs, d, mat(rows), mat(logs)


def rates(case):
    """probabilities of a data error and a syndrome error on the simulated side"""
    b = [math.inf if x == "inf" else x for x in case["bias"]]
    side = (1, 2) if case["side"] == "X" else (0, 1)
    if math.inf in b:
        i = b.index(math.inf)
        f = 1.0 if i in side else 0.0
    else:
        f = sum(b[i] for i in side) / sum(b)
    return case["per"] * f, case["ser"] * f


class Draws:
    """random source with prescribed values, separately for uniform and normal draws"""

    def __init__(self, uni, nor):
        self.uni, self.nor, self.u, self.v = uni, nor, 0, 0

    def __call__(self, *a, **k):
        return self

    def random(self, size=None, *a, **k):
        m = 1 if size is None else int(np.prod(size))
        self.u += m
        r = np.array(self.uni[self.u - m:self.u])
        return float(r[0]) if size is None else r.reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        loc = np.asarray(loc, dtype=float)
        shape = loc.shape if size is None else size
        m = int(np.prod(shape))
        if np.all(np.asarray(scale) == 0):
            return loc + np.zeros(shape)
        self.v += m
        return loc + scale * np.array(self.nor[self.v - m:self.v], dtype=float).reshape(shape)


_VAL = {}


def uniform_for(chs):
    """value of the uniform random number that causes each Pauli"""
    key = tuple(float(c[0]) for c in chs)
    if key not in _VAL:
        from mqt.qecc.analog_information_decoding.utils import simulation_utils as u
        out = {}
        N = 4000
        for i in range(N - 1, -1, -1):
            v = (i + 0.5) / N
            e, _ = p25.with_rng([v], lambda: u.generate_err(1, tuple(np.asarray(c)[:1] for c in chs), [np.zeros(1, dtype=np.int32), np.zeros(1, dtype=np.int32)]))
            k = {(0, 0): "I", (1, 0): "X", (1, 1): "Y", (0, 1): "Z"}[int(e[0][0]), int(e[1][0])]
            out.setdefault(k, v)
        _VAL[key] = out
    return _VAL[key]


def window(rows, n, synd, wd, ws, commit):
    """every most likely total error of the first `commit` rounds given the syndromes of the window"""
    S = 1 << n
    syn = np.array([[gf2.par(r & e) for e in range(S)] for r in rows])
    wt = np.array([[gf2.wt(a ^ b) for b in range(S)] for a in range(S)]) * wd
    cost = wt[0].copy()
    tot = None
    for r, (s, w) in enumerate(zip(synd, ws)):
        pay = ((syn ^ np.array(s)[:, None]) * np.array(w)[:, None]).sum(axis=0)
        if r == 0:
            cost = cost + pay
        elif r < commit:
            cost = (cost[:, None] + wt).min(axis=0) + pay
        else:
            if tot is None:  # keep the error after the committed rounds
                tot = np.full((S, S), np.inf)
                tot[np.arange(S), np.arange(S)] = cost
            tot = np.stack([(tot[c][:, None] + wt).min(axis=0) for c in range(S)]) + pay
    fin = cost if tot is None else tot.min(axis=1)
    best = fin.min()
    return [e for e in range(S) if fin[e] <= best + EPS * max(1.0, abs(best))]


_WIN = {}


def reference(case, rows, logs, n, hist):
    """possible verdicts (success?) of the protocol on a history [(data error, flipped bits or noise of the analog outcomes)]"""
    pd, ps = rates(case)
    wd, wsy = math.log((1 - pd) / pd), math.log((1 - ps) / ps)
    sig = sigma(ps)
    T, R = case["rep"] // 2, case["rep"]
    hard = math.log((1 - 1e-15) / 1e-15)
    states = {(0, ())}  # (error, ((syndrome, weights of its bits), ...) in the window)
    for r, (d, noise) in enumerate(hist):
        nxt = set()
        last = r == len(hist) - 1
        for e, win in states:
            e ^= d
            s = tuple(gf2.par(x & e) for x in rows)
            if last:
                w = (hard,) * len(rows)
            elif case["analog"]:
                y = [1 - 2 * b + v for b, v in zip(s, noise)]
                s, w = tuple(int(v <= 0) for v in y), tuple(abs(2 * v / sig ** 2) for v in y)
            else:
                s, w = tuple(a ^ b for a, b in zip(s, noise)), (wsy,) * len(rows)
            win = win + ((s, w),)
            if len(win) == R:
                key = (tuple(rows), n, win, wd, last)
                if key not in _WIN:
                    if len(_WIN) > 50000:
                        _WIN.clear()
                    _WIN[key] = window(rows, n, [c[0] for c in win], wd, [c[1] for c in win], R if last else T)
                for c in _WIN[key]:
                    sc = tuple(gf2.par(x & c) for x in rows)
                    nxt.add((e ^ c, tuple((tuple(a ^ b for a, b in zip(col, sc)), w) for col, w in win[T:])))
            else:
                nxt.add((e, win))
        states = nxt
    return {not any(gf2.par(l & e) for l in logs) for e, _ in states}


def sigma(q):
    """deviation of Gaussian noise on +-1 that flips the sign with probability q"""
    from scipy.special import erfcinv
    return 1 / (math.sqrt(2) * erfcinv(2 * q))


def make(case, H, L, out):
    from mqt.qecc import QssSimulator
    from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams
    n, d = H.shape[1], case["n"]
    return QssSimulator(pcm=H, per=case["per"], ser=case["ser"], logicals=L, bias=np.array([math.inf if b == "inf" else b for b in case["bias"]], dtype=float),
                        codename="c", bp_params=BpParams(osd_method="osd_cs", osd_order=case.get("order", 10), max_bp_iter=30), code_params={"n": n, "k": len(L), "d": d},
                        decoding_method=case["dec"], check_side=case["side"], analog_tg=case["analog"], repetitions=case["rep"], rounds=case["rounds"], outpath=out)


def script(case, rows, n, hist, val):
    """random numbers that realize the history; optionally with errors of the other kind everywhere else"""
    pd, ps = rates(case)
    uni, nor = [], []
    for r, (d, noise) in enumerate(hist):
        uni += [val[case["pauli"]] if (d >> i) & 1 else val["other"] if case.get("noise") else val["I"] for i in range(n)]
        last = r == len(hist) - 1
        if case["analog"]:
            nor += [] if last else [v / sigma(ps) for v in noise]
        elif not last:
            uni += [ps / 2 if b else (1 + ps) / 2 for b in noise]
    return uni, nor


NOISE = (-1.15, 1.15, -0.87, 0.87, -1.74, 1.74)


def histories(case, rows, n):
    """(number of faults, [(data error, noise of the outcomes)])"""
    m, R = len(rows), case["rounds"]
    alpha = NOISE[:case["alpha"]] if case["analog"] else (1,)
    places = [(r, i, 1) for r in range(R) for i in range(n)] + [(r, n + i, v) for r in range(R - 1) for i in range(m) for v in alpha]
    ks = range(len({p[:2] for p in places}) + 1) if case["faults"] is None else range(case["faults"] + 1)
    for k in ks:
        for f in itertools.combinations(places, k):
            if len({p[:2] for p in f}) < k:
                continue
            d, b = [0] * R, [[0] * m for _ in range(R)]
            for r, i, v in f:
                if i >= n:
                    b[r][i - n] = v
                else:
                    d[r] |= 1 << i
            yield f, [(d[r], tuple(b[r])) for r in range(R)]


def check(case, rec):
    n, rows, logs, dist, H, L = mats(case)
    t = (dist - 1) // 2
    T = case["rep"] // 2
    hs = list(histories(case, rows, n))
    lo, hi = case.get("part", (0, 1))
    hs = hs[lo::hi]
    d = tempfile.mkdtemp(prefix="p26")
    out = os.path.join(d, "out.json")
    what = f"{case['kind']}{case['n']} {case['dec']} side={case['side']} analog={case['analog']} repetitions={case['rep']} rounds={case['rounds']} bias={case['bias']} rates {case['per']}, {case['ser']}"
    old = np.random.default_rng
    try:
        sim = make(case, H, L, out)
        chs = [np.asarray(c) for c in (sim.x_bit_chnl, sim.y_bit_chnl, sim.z_bit_chnl)]
        val = uniform_for(chs)
        if case["pauli"] not in val:
            rec.bad(f"{what}: the noise never has a {case['pauli']} error", case)
            return
        val = {**val, "other": val.get("X" if case["side"] == "X" else "Z", val["I"])}
        group = case.get("samples", 1)
        for g in range(0, len(hs), 1):
            batch = [hs[g]] if group == 1 else [hs[g], hs[(7 * g + 3) % len(hs)]]
            uni, nor = [], []
            for _, h in batch:
                a, b = script(case, rows, n, h, val)
                uni += a
                nor += b
            rng = Draws(uni, nor)
            np.random.default_rng = rng
            try:
                res = sim.run(len(batch))
            except Exception as ex:
                rec.bad(f"{what}: faults {[f for f, _ in batch]}: {type(ex).__name__}: {ex}", case)
                return
            finally:
                np.random.default_rng = old
            rec.add(traces=1, states=1, transitions=case["rounds"] * len(batch))
            if rng.u != len(uni) or rng.v != len(nor):
                rec.bad(f"{what}: {rng.u} uniform and {rng.v} normal draws instead of {len(uni)} and {len(nor)}", case)
                return
            key = ("z" if case["side"] == "X" else "x") + "_success_cnt"
            if not math.isclose(res[key.replace("success_cnt", "ler")], 1 - res[key] / len(batch)) or res["nr_runs"] != len(batch) or json.load(open(out)).get(key) != res[key]:
                rec.bad(f"{what}: reported results {res}", case)
                return
            got = res[key]
            exact = case["dec"] == "matching" or case.get("exact")
            want = {sum(c) for c in itertools.product(*(reference(case, rows, logs, n, h) if exact else {True} if len(f) <= 1 else {True, False} for f, h in batch))}
            if case.get("ft") and all(f is not None and len(f) <= t for f, _ in batch) and T >= dist and want != {len(batch)}:
                raise AssertionError(f"reference: {what} {batch}")
            if got not in want:
                rec.bad(f"{what}: faults {[f for f, _ in batch]}: {got} of {len(batch)} samples without a logical error, an exact window decoder has {sorted(want)}", {**case, "part": (lo + g * hi, 10 ** 9), **({"part": (0, 1)} if group > 1 else {})})
                return
    finally:
        np.random.default_rng = old
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)



def cases(ctx):
    q = ctx.quick
    out = []
    U, Zb, Xb, A = [1, 1, 1], [0, 0, "inf"], ["inf", 0, 0], [1, 2, 3]

    def add(kind, n, rep, rounds, faults, parts=1, **kw):
        base = {"kind": kind, "n": n, "rep": rep, "rounds": rounds, "faults": faults, "per": 0.06, "ser": 0.06, "bias": U, "side": "X", "pauli": "Z", "dec": "matching", "analog": False, "alpha": 6, **kw}
        for i in range(parts):
            out.append({**base, "part": (i, parts)})

    # hard syndromes: every history of small codes; few faults on larger ones
    for side, pauli, bias in (("X", "Z", U), ("Z", "X", U), ("X", "Z", Zb), ("Z", "X", Xb), ("X", "Y", A), ("Z", "Y", A)):
        noise = {"noise": True} if "inf" not in bias else {}
        add("rep", 2, 2, 4, None, per=0.05, side=side, pauli=pauli, bias=bias, **noise)
        add("rep", 2, 4, 4, None, per=0.09, ser=0.03, side=side, pauli=pauli, bias=bias, **noise)
        add("rep", 3, 2, 3, None, parts=4, per=0.04, side=side, pauli=pauli, bias=bias, **noise)
        add("rep", 3, 4, 6, 2, side=side, pauli=pauli, bias=bias, ser=0.09, ft=True, **noise)
        add("ring", 3, 2, 4, 2, side=side, pauli=pauli, bias=bias, per=0.02, **noise)
        add("rep", 3, 6, 9, 1 if q else 2, side=side, pauli=pauli, bias=bias, ft=True, **noise)
        add("rep", 2, 2, 3, 2, side=side, pauli=pauli, bias=bias, per=0.05, samples=2, **noise)
        add("bits", 2, 4, 6, 2, side=side, pauli=pauli, bias=bias, per=0.03, parts=2, **noise)
    for per, ser in ((0.12, 0.04), (0.04, 0.12)):
        add("rep", 3, 4, 6, 2, per=per, ser=ser, parts=2)
        add("rep", 3, 2, 4, 3, per=per, ser=ser, parts=4)
        add("ring", 3, 4, 6, 2, per=per, ser=ser, parts=4)
        add("ring", 4, 2, 3, 3, per=per, ser=ser, parts=4)
    # measurements so reliable that two errors of a bit explain a syndrome better
    for per, ser in ((0.24, 0.004), (0.3, 0.02)):
        add("rep", 2, 4, 4, None, per=per, ser=ser)
        add("rep", 3, 4, 6, 2, per=per, ser=ser, parts=2)
        add("rep", 2, 6, 9, 2, per=per, ser=ser)
        add("rep", 2, 4, 6, 3, per=per, ser=ser, side="Z", pauli="X", parts=2)
        add("ring", 3, 4, 6, 2, per=per, ser=ser, parts=4)
    add("rep", 5, 4, 8, 2, parts=8, per=0.05, ser=0.05)
    add("rep", 5, 10, 15, 1, per=0.05, ser=0.05, ft=True)
    add("rep", 3, 4, 4, 3 if q else 4, parts=8)
    # analog outcomes
    for side, pauli, bias in (("X", "Z", U), ("Z", "X", A), ("X", "Y", A)):
        kw = {"analog": True, "side": side, "pauli": pauli, "bias": bias}
        add("rep", 2, 2, 3, None, parts=4, ser=0.12, per=0.03, **kw)
        add("rep", 2, 4, 6, 3, parts=8, ser=0.2, per=0.13, **kw)
        add("rep", 3, 4, 6, 2, parts=8, ser=0.2, per=0.05, **kw)
        add("ring", 3, 2, 4, 2, parts=4, ser=0.15, per=0.1, **kw)
        add("rep", 2, 2, 3, 1, ser=0.2, per=0.13, samples=2, **kw)
    if not q:
        add("rep", 2, 4, 6, None, parts=16)
        add("rep", 3, 4, 6, 3, parts=16, ser=0.04)
        add("rep", 5, 10, 15, 2, parts=32, ft=True)
        add("rep", 2, 4, 4, None, parts=32, analog=True, alpha=4, ser=0.2, per=0.1)
        add("rep", 3, 2, 4, 3, parts=32, analog=True, ser=0.2, per=0.1)
    # BP+OSD
    for side, pauli in (("X", "Z"), ("Z", "X")):
        for analog in (False, True):
            kw = {"dec": "bposd", "side": side, "pauli": pauli, "analog": analog, "alpha": 2, "per": 0.03, "ser": 0.03 if not analog else 0.1}
            add("rep", 3, 4, 6, 1, **kw)
            add("rep", 3, 4, 6, 1, samples=2, **kw)
            add("ring", 3, 6, 6, 1, **kw)
    return out


def run(ctx):
    import mqt.qecc.analog_information_decoding.simulators.quasi_single_shot_v2  # noqa: F401
    cs = cases(ctx)
    mc.explore(ctx, "histories", cs, check, timeout=600)
    ctx.sample(cs[len(cs) // 2])
    ctx.bound("every history of data and measurement errors of 2 and 3 bit repetition codes over 3-4 rounds, histories with up to 2-3 errors of repetition, ring and double repetition codes up to 5 bits over up to 15 rounds, windows of 2-10 rounds, both sides, three biases, unequal rates; analog outcomes from an alphabet of seven noise values; two samples in a row; BP+OSD for single errors only")
    ctx.assume("the number of rounds fills the last window; all equally likely corrections (within 0.1% of the weight) are accepted; noise comes from numpy.random.default_rng")


def replay(ctx, case):
    mc.explore(ctx, "replay", [case], check, timeout=600)
