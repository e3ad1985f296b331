"""Enumeration of CSS codes with exact distances, and construction of the repository's CSSCode"""
import itertools

import numpy as np

import gf2


def min_logical(stab, norm):
    """weights of the lightest element of kernel(norm) outside span(stab)"""
    n = max([r.bit_length() for r in stab + norm] + [1])
    return n


def dist(hx, hz, n):
    sx, sz = gf2.span(hx), gf2.span(hz)
    k = n - gf2.rank(hx) - gf2.rank(hz)
    if k == 0:
        return 0, None, None
    es = sorted(range(1, 1 << n), key=gf2.wt)
    dx = next(gf2.wt(e) for e in es if not gf2.syn(hz, e) and e not in sx)
    dz = next(gf2.wt(e) for e in es if not gf2.syn(hx, e) and e not in sz)
    return k, dx, dz


def make(n, hx, hz, d, dx, dz):
    from mqt.qecc import CSSCode
    mat = lambda rows: np.array([gf2.unvec(r, n) for r in rows], dtype=np.int8).reshape(len(rows), n)
    return CSSCode(d, mat(hx), mat(hz), x_distance=dx, z_distance=dz)


def independent(n, m, space=None):
    """all sets of m linearly independent vectors (as sorted tuples)"""
    for rows in itertools.combinations(space or range(1, 1 << n), m):
        if gf2.rank(rows) == m:
            yield rows


def rref(rows):
    rows = list(rows)
    out = []
    while rows:
        p = max(rows)
        if not p:
            break
        b = p.bit_length() - 1
        rows = [r ^ p if (r >> b) & 1 else r for r in rows if r is not p]
        out = [r ^ p if (r >> b) & 1 else r for r in out] + [p]
        rows = [r for r in rows if r]
    return tuple(sorted(out))


def codes(n, mx, mz, mind=1, states=False):
    """one generating set (reduced) for every pair of orthogonal spaces of the given dimensions with k > 0 and distance >= mind (with k = 0 as well if states)"""
    seen = set()
    for hx in independent(n, mx):
        rx = rref(hx)
        if rx in seen:
            continue
        seen.add(rx)
        ker = [e for e in gf2.kernel(list(rx), n) if e]
        zs = set()
        for hz in independent(n, mz, ker):
            rz = rref(hz)
            if rz in zs:
                continue
            zs.add(rz)
            k, dx, dz = dist(list(rx), list(rz), n)
            if not k and states:
                yield {"n": n, "hx": list(rx), "hz": list(rz), "d": [1, 1, 1]}
            if k and min(dx, dz) >= mind:
                yield {"n": n, "hx": list(rx), "hz": list(rz), "d": [min(dx, dz), dx, dz]}


_F = {}


def fixed(name):
    """named codes as (n, hx, hz, [d, dx, dz])"""
    if name in _F:
        return _F[name]
    def grid(d):
        # rotated surface code of odd distance d
        hx, hz = [], []
        for r in range(-1, d):
            for c in range(-1, d):
                q = [(r + a) * d + c + b for a in (0, 1) for b in (0, 1) if 0 <= r + a < d and 0 <= c + b < d]
                if len(q) < 2:
                    continue
                t = (r + c) % 2
                if len(q) == 2:
                    if r in (-1, d - 1) and t != 0 or c in (-1, d - 1) and t != 1:
                        continue
                (hx if t == 0 else hz).append(sum(1 << i for i in q))
        return d * d, hx, hz
    b = lambda *qs: [sum(1 << i for i in q) for q in qs]
    h7 = b((0, 1, 2, 3), (1, 2, 4, 5), (2, 3, 5, 6))
    rm = b(*[[i - 1 for i in range(1, 16) if (i >> j) & 1] for j in range(4)])
    rmz = rm + b(*[[i - 1 for i in range(1, 16) if (i >> j) & 1 and (i >> l) & 1] for j in range(4) for l in range(j)])
    t = {
        "steane": (7, h7, h7, [3, 3, 3]),
        "shor": (9, b((0, 1, 2, 3, 4, 5), (3, 4, 5, 6, 7, 8)), b((0, 1), (1, 2), (3, 4), (4, 5), (6, 7), (7, 8)), [3, 3, 3]),
        "422": (4, b((0, 1, 2, 3)), b((0, 1, 2, 3)), [2, 2, 2]),
        "642": (6, b((0, 1, 2, 3, 4, 5)), b((0, 1, 2, 3, 4, 5)), [2, 2, 2]),
        "832": (8, b(range(8)), b((0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 4, 5), (0, 2, 4, 6)), [2, 4, 2]),
        "surface3": (*grid(3), [3, 3, 3]),
        "tetrahedral": (15, rm, rmz, [3, 7, 3]),
        "hamming": (15, rm, rm, [3, 3, 3]),
    }
    t["shordual"] = (9, t["shor"][2], t["shor"][1], [3, 3, 3])
    if name == "surface5":
        return (*grid(5), [5, 5, 5])
    _F.update(t)
    return t[name]


def permuted(case, perm):
    p = lambda r: sum(1 << perm[i] for i in range(case["n"]) if (r >> i) & 1)
    return {**case, "hx": [p(r) for r in case["hx"]], "hz": [p(r) for r in case["hz"]]}


def named(name):
    n, hx, hz, d = fixed(name)
    return {"n": n, "hx": list(hx), "hz": list(hz), "d": list(d), "name": name}


def swapped(case):
    d, dx, dz = case["d"]
    return {**case, "hx": case["hz"], "hz": case["hx"], "d": [d, dz, dx]}
