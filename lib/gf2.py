"""Small exact GF(2) / Pauli oracle, independent of the repository (integers as bit vectors)."""
from __future__ import annotations
import itertools


def rank(rows):
    basis = []
    for r in rows:
        for b in basis:
            r = min(r, r ^ b)
        if r:
            basis.append(r)
    return len(basis)


def span(rows):
    out = {0}
    for r in rows:
        if r not in out:
            out |= {x ^ r for x in out}
    return out


def vec(row):
    """0/1 sequence -> int, bit i = entry i"""
    v = 0
    for i, b in enumerate(row):
        if int(b) & 1:
            v |= 1 << i
    return v


def unvec(v, n):
    return [(v >> i) & 1 for i in range(n)]


def par(v):
    return bin(v).count("1") & 1


def wt(v):
    return bin(v).count("1")


def syn(rows, e):
    s = 0
    for i, r in enumerate(rows):
        if par(r & e):
            s |= 1 << i
    return s


def kernel(rows, n):
    return [e for e in range(1 << n) if all(not par(r & e) for r in rows)]


# Paulis up to phase as (x, z)
def pauli(s):
    s = s.lstrip("+-")
    return vec([c in "XY" for c in s]), vec([c in "ZY" for c in s])


def pstr(x, z, n):
    return "".join("IXZY"[((x >> i) & 1) + 2 * ((z >> i) & 1)] for i in range(n))


def commute(a, b):
    return not (par(a[0] & b[1]) ^ par(a[1] & b[0]))


def join(p, n):
    return p[0] | (p[1] << n)


def strings(n, letters="IXZY"):
    return ["".join(t) for t in itertools.product(letters, repeat=n)]
