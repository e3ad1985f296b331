"""Exact decoding and prescribed noise for the simulators of the analog information decoding package."""
import itertools
import math

import numpy as np

import gf2

TOL = 1e-6


class ML:
    """exact maximum-likelihood decoder with the interface of ldpc's bposd_decoder"""

    _vecs, _tab = {}, {}

    def __init__(self, parity_check_matrix=None, channel_probs=None, **_kw):
        h = parity_check_matrix
        h = h.toarray() if hasattr(h, "toarray") else np.asarray(h)
        self.H = np.rint(h).astype(np.int64) % 2
        self._set(channel_probs)
        self.iter, self.converge = 1, 1

    def _set(self, p):
        p = np.asarray(p, dtype=float)
        if p.shape != (self.H.shape[1],):
            raise ValueError("channel probabilities do not fit the parity-check matrix")
        self._p = p

    @property
    def channel_probs(self):
        return self._p.copy()

    def update_channel_probs(self, p):
        self._set(p)

    def decode(self, s):
        s = np.asarray(s)
        if s.shape != (self.H.shape[0],):
            raise ValueError("the syndrome does not fit the parity-check matrix")
        key = self.H.tobytes(), self.H.shape
        v = np.rint(s).astype(np.int64)
        if np.any(np.abs(s - v) > 1e-9) or np.any((v != 0) & (v != 1)):
            raise ValueError(f"{s} is no binary syndrome")
        syn = int((v << np.arange(len(v))).sum())
        c = best(self.H, self._p, syn)
        r = c[0] if c else 0
        return np.array([(r >> i) & 1 for i in range(self.H.shape[1])], dtype=np.uint8)


def install():
    """replace ldpc's decoder; must run before mqt.qecc is imported"""
    import ldpc
    import ldpc.osd
    ldpc.osd.bposd_decoder = ML
    ldpc.bposd_decoder = ML


_VEC, _TAB = {}, {}


def best(H, p, syn):
    """all most likely errors with the given syndrome (bit masks, ascending)"""
    n = H.shape[1]
    if n not in _VEC:
        _VEC[n] = ((np.arange(1 << n)[:, None] >> np.arange(n)) & 1).astype(np.float64)
    key = H.tobytes(), H.shape
    if key not in _TAB:
        if len(_TAB) > 50:
            _TAB.clear()
        s = (_VEC[n].astype(np.int64) @ H.T) % 2
        s = (s << np.arange(H.shape[0])).sum(axis=1)
        tab = {}
        for i in np.argsort(s, kind="stable"):
            tab.setdefault(int(s[i]), []).append(int(i))
        _TAB[key] = {k: np.array(v) for k, v in tab.items()}
    idx = _TAB[key].get(syn)
    if idx is None:
        return []
    q = np.clip(np.asarray(p, dtype=float), 1e-200, 1 - 1e-16)
    w = np.log((1 - q) / q)
    cost = _VEC[n][idx] @ w
    m = cost.min()
    return [int(i) for i in idx[cost <= m + TOL * max(1.0, abs(m))]]


def mat(rows, n):
    return np.array([[(r >> i) & 1 for i in range(n)] for r in rows], dtype=np.int32).reshape(len(rows), n)


def side_rate(rate, bias, side):
    b = [math.inf if x == "inf" else x for x in bias]
    on = (0, 1) if side == "x" else (1, 2)
    if math.inf in b:
        return rate if b.index(math.inf) in on else 0.0
    return rate * sum(b[i] for i in on) / sum(b)


def bias_of(bias):
    return np.array([math.inf if x == "inf" else x for x in bias], dtype=float)


def sigma(q):
    from scipy.special import erfcinv
    return 1 / (math.sqrt(2) * erfcinv(2 * q)) if q else 0.0


def virtual(y, sig):
    """probability that the sign of an analog outcome is wrong"""
    return [1 / (math.exp(min(700, abs(2 * v / sig ** 2))) + 1) if sig else 0.0 for v in y]


def css(name):
    """(n, hx, hz, mx, mz): small codes, some with redundant checks and all relations between them"""
    if name == "steane":
        h = [0b1010101, 0b1100110, 0b1111000]
        return 7, h, h, None, None
    if name == "422":
        return 4, [15], [15], None, None
    if name == "shor6":  # [[6,1]]: two checks of one side, three of the other side
        return 6, [0b111100, 0b001111], [0b000011, 0b001100, 0b110000], None, None
    if name == "meta4":  # redundant Z checks
        return 4, [15], [3, 12, 15], None, [7]
    if name == "meta4x":
        return 4, [3, 12, 15], [15], [7], None
    if name == "meta4xz":
        return 4, [15, 15], [3, 12, 15], [3], [7]
    if name == "ring5":
        return 5, [0b01111], [0b00011, 0b00110, 0b01100, 0b01001], None, [15]
    if name == "toric":
        # 2x2 torus: edges h(r,c)=2r+c, v(r,c)=4+2r+c
        e = lambda k, r, c: 1 << (4 * k + 2 * (r % 2) + c % 2)
        hx = [e(0, r, c) ^ e(0, r, c - 1) ^ e(1, r, c) ^ e(1, r - 1, c) for r in (0, 1) for c in (0, 1)]
        hz = [e(0, r, c) ^ e(0, r + 1, c) ^ e(1, r, c) ^ e(1, r, c + 1) for r in (0, 1) for c in (0, 1)]
        return 8, hx, hz, [15], [15]
    if name[:3] == "rep":  # a repetition code and a qubit in a fixed state; "m": all pairwise checks; "z": against Z errors
        n = int(name[3])
        chk = [3 << i for i in range(n - 1)] + [1 | 1 << (n - 1)] * ("m" in name)
        a = (n + 1, [1 << n], chk, None, [(1 << n) - 1] if "m" in name else None)
        return (n + 1, a[2], a[1], a[4], a[3]) if "z" in name else a
    raise ValueError(name)


def logicals(n, hx, hz):
    """independent logical X and Z operators"""
    def comp(commute, triv):
        out, span = [], gf2.span(triv)
        for v in sorted(range(1, 1 << n), key=gf2.wt):
            if not any(gf2.par(v & r) for r in commute) and v not in span:
                out.append(v)
                span = gf2.span(list(triv) + out)
        return out
    return comp(hz, hx), comp(hx, hz)
