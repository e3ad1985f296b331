"""Analog Tanner graph decoding: decoder on every analog syndrome, simulator on every fault history."""
import itertools
import math

import numpy as np

import analog
import gf2
import mc
import p26
import p27
from p27 import A, U, X, Z


def num(bits):
    return sum(int(b) << i for i, b in enumerate(bits))


def decoder(case, rec):
    """all sequences of analog syndromes on one decoder"""
    from mqt.qecc.analog_information_decoding.simulators.analog_tannergraph_decoding import AnalogTannergraphDecoder, get_analog_pcm
    from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams
    n, m = case["n"], len(case["h"])
    H = analog.mat(case["h"], n)
    full = np.hstack((H, np.identity(m, dtype=np.int32)))
    what = f"checks {case['h']} n={n} p={case['p']} {case['by']}={case['s']}"
    if not np.array_equal(np.asarray(get_analog_pcm(H)) % 2, full):
        rec.bad(f"{what}: analog parity-check matrix {get_analog_pcm(H)}", case)
        return
    args = {"pcm": H, "bp_params": BpParams(osd_method="osd_cs"), "error_channel": np.array(case["p"])}
    for bad in ({"sigma": 0.3, "ser": 0.1}, {}):
        try:
            AnalogTannergraphDecoder(**args, **bad)
        except ValueError:
            continue
        rec.bad(f"{what}: decoder accepts noise strength {bad}", case)
        return
    dec = AnalogTannergraphDecoder(**args, **{case["by"]: case["s"]})
    sig = case["s"] if case["by"] == "sigma" else analog.sigma(case["s"])
    if not math.isclose(dec.sigma, sig, abs_tol=1e-12):
        rec.bad(f"{what}: deviation {dec.sigma}, expected {sig}", case)
        return
    # each syndrome is decoded after a different one: the decoder keeps the values of its last use
    ys = list(itertools.product(case["ys"], repeat=m))
    for i, y in enumerate(ys + ys[::-1]):
        got = num(dec.decode(np.array(y, dtype=float)))
        want = analog.best(full, case["p"] + analog.virtual(y, sig), num([int(v <= 0) for v in y]))
        rec.add(traces=1, states=1)
        if got not in want:
            rec.bad(f"{what}: analog syndrome {y}: decoded {bin(got)}, most likely {[bin(w) for w in want]}", case)
            return


def reference(case, n, lx, lz, h):
    c = {**case, "x_meta": False, "z_meta": False, "single": False, "tg": True, "mx": None, "mz": None}
    (ex, ez, nx, nz) = h[0]
    out = []
    for s, e, noise, log in (("x", ex, nx, lz), ("z", ez, nz, lx)):
        key = case["id"], s, e, tuple(noise)
        if key not in p27._SEEN:
            p27._SEEN[key] = p27.side(c, s, False, True, e, noise, n)
        out.append({any(gf2.par(l & (e ^ v)) for l in log) for v in p27._SEEN[key]})
    return out


def simulator(case, rec):
    from mqt.qecc.analog_information_decoding.simulators.analog_tannergraph_decoding import AtdSimulator
    from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams
    n = case["n"]
    lx, lz = analog.logicals(n, case["hx"], case["hz"])
    val = p27.values({**case, "bias": bias_(case)})
    hs = list(histories(case, n))
    lo, hi = case["part"]
    hs = hs[lo::hi]
    what = f"{case['code']} bias={case['bias']} rates {case['per']}, {case['ser']} given as {case['by']}"
    p27._SEEN.clear()
    m = lambda r: analog.mat(r, n)

    def make():
        strength = {"sigma": analog.sigma(case["ser"])} if case["by"] == "sigma" else {"syndr_err_rate": case["ser"]}
        bias = {} if case["bias"] == "default" else {"bias": analog.bias_of(case["bias"])}
        return AtdSimulator(hx=m(case["hx"]), lx=m(lx), hz=m(case["hz"]), lz=m(lz), codename="c", seed=1, bp_params=BpParams(osd_method="osd_cs"), data_err_rate=case["per"],
                            code_params={"n": n, "k": max(1, len(lx)), "d": 1}, output_path="out.json", **strength, **bias)

    def run(sim, k):
        res = sim.run(k)
        q = {s: analog.sigma(analog.side_rate(case["ser"], bias_(case), s)) for s in "xz"}
        if any(not math.isclose(res[s + "_sigma"], q[s], rel_tol=1e-9) for s in "xz"):
            raise ValueError(f"deviations {res['x_sigma']}, {res['z_sigma']} instead of {q}")
        return res

    if case["by"] == "both":
        for kw in ({"sigma": 0.4, "syndr_err_rate": 0.1}, {}):
            try:
                AtdSimulator(hx=m(case["hx"]), lx=m(lx), hz=m(case["hz"]), lz=m(lz), codename="c", seed=1, bp_params=BpParams(osd_method="osd_cs"), data_err_rate=case["per"],
                             code_params={"n": n, "k": 1, "d": 1}, output_path="out.json", **kw)
            except ValueError:
                rec.add(traces=1)
                continue
            rec.bad(f"{what}: simulator accepts {kw}", case)
        return
    msg = p27.sampled(make, run, case, n, hs, rec, what, lambda h, sw: script(case, n, h, val, sw), lambda h: reference({**case, "bias": bias_(case)}, n, lx, lz, h), ("x_success_cnt", "z_success_cnt"))
    if msg:
        rec.bad(msg, case)


def bias_(case):
    return U if case["bias"] == "default" else case["bias"]


def histories(case, n):
    c = {**case, "bias": bias_(case), "depth": 1, "tg": True}
    for f, h in p27.histories(c, n):
        if all(p[0] == 0 for p in f):
            yield f, h[:1]


def script(case, n, hist, val, swap):
    c = {**case, "bias": bias_(case), "tg": True}
    return p27.script(c, n, hist + [[0, 0, [], []]], val, swap)[0][:n], p27.script(c, n, hist + [[0, 0, [], []]], val, swap)[1]


def cases(ctx):
    q = ctx.quick
    out = {"decoder": [], "simulator": []}
    ys = [-2.0, -0.6, -0.05, 0.0, 0.05, 0.6, 2.0] if q else [-2.0, -1.0, -0.6, -0.3, -0.05, 0.0, 0.05, 0.3, 0.6, 1.0, 2.0]
    for n, m in ((1, 1), (2, 1), (2, 2), (3, 2), (4, 2), (3, 3)) + (() if q else ((4, 3), (5, 2))):
        for h in itertools.combinations(range(1, 1 << n), m) if n < 4 or not q else [(3, 6), (7, 11), (15, 5), (1, 14)]:
            for p in ([0.1] * n, [0.02 + 0.07 * i for i in range(n)]):
                for by, s in (("sigma", 0.5), ("sigma", 1.1), ("ser", 0.05), ("ser", 0.3)):
                    out["decoder"].append({"n": n, "h": list(h), "p": p, "by": by, "s": s, "ys": ys if m < 3 else ys[1:6]})

    def add(name, faults, parts=1, **kw):
        n, hx, hz, _, _ = analog.css(name)
        for i in range(parts):
            c = {"code": name, "n": n, "hx": hx, "hz": hz, "mx": None, "mz": None, "faults": faults, "part": (i, parts), "per": 0.1, "ser": 0.2, "bias": U, "alpha": 6, "by": "ser", "logs": True, **kw}
            out["simulator"].append({**c, "paulis": p27.paulis(bias_(c)), "id": len(out["simulator"])})

    for bias in (U, A, Z, X, "default", [5, 2, 1]):
        for by in ("ser", "sigma"):
            for per, ser in ((0.1, 0.2), (0.05, 0.1), (0.2, 0.12)):
                kw = {"bias": bias, "by": by, "per": per, "ser": ser}
                for c in ("rep3x", "rep3z", "422", "rep3xm", "rep4x"):
                    add(c, 2 if q else 3, parts=1 if q else 4, **kw)
                add("steane", 1 if q else 2, parts=1 if q else 8, **kw)
                add("rep3x", 1, samples=2, **kw)
        add("rep3x", 2, bias=bias, ser=0.0)
    add("rep3x", 0, by="both")
    return out


FN = {"decoder": decoder, "simulator": simulator}


def start():
    analog.install()
    import mqt.qecc.analog_information_decoding.simulators.analog_tannergraph_decoding  # noqa: F401


def run(ctx):
    start()
    for part, cs in cases(ctx).items():
        mc.explore(ctx, part, cs, FN[part], timeout=600)
        ctx.sample({part: cs[len(cs) // 2]})
    ctx.bound("see cases(): every analog syndrome over a grid of values for every small check matrix and noise level; every error history of the simulator up to the given number of faults")
    ctx.assume("the ldpc decoder is replaced by an exact most-likely decoder, also in the expectation; random draws are prescribed")


def replay(ctx, case):
    start()
    mc.explore(ctx, "replay", [case], FN["simulator" if "code" in case else "decoder"], timeout=600)
