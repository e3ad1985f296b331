"""Exact oracle for H/CX/measure circuits: stabilizer states and linear propagation of faults (bit vectors as integers)."""
import numpy as np

import gf2


def ops(circ):
    """[(name, qubits, clbits)] without barriers"""
    out = []
    qi = {q: i for i, q in enumerate(circ.qubits)}
    ci = {c: i for i, c in enumerate(circ.clbits)}
    for inst in circ.data:
        n = inst.operation.name
        if n in ("barrier", "id"):
            continue
        out.append((n, [qi[q] for q in inst.qubits], [ci[c] for c in inst.clbits]))
    return out


def css_state(op, n):
    """CSS stabilizer state prepared by an H/CX circuit from |0..0>: (X generators, Z generators) or None if not CSS (signs are all +)"""
    st = [(0, 1 << q) for q in range(n)]  # (x, z)
    for name, q, _ in op:
        new = []
        for x, z in st:
            if name == "h":
                b = 1 << q[0]
                xb, zb = x & b, z & b
                if xb and zb:
                    return None
                x, z = (x & ~b) | zb, (z & ~b) | xb
            elif name == "cx":
                c, t = q
                if (x >> c) & 1 and (z >> t) & 1 and not (((x >> t) ^ (z >> c)) & 1) ^ 0:
                    return None  # sign could change; does not happen for CSS generators
                if (x >> c) & 1:
                    x ^= 1 << t
                if (z >> t) & 1:
                    z ^= 1 << c
            else:
                return None
            new.append((x, z))
        st = new
    # the group is CSS iff the ranks of its pure X and pure Z parts add up to n
    gx = _pure(st, n, 0)
    gz = _pure(st, n, 1)
    return (gx, gz) if gf2.rank(gx) + gf2.rank(gz) == n else None


def _pure(st, n, side):
    """generators whose Z (side 0) resp. X (side 1) part is empty"""
    rows = [((s[1] if side == 0 else s[0]), (s[0] if side == 0 else s[1])) for s in st]
    rows = list(rows)
    for b in range(n):
        piv = next((i for i, r in enumerate(rows) if (r[0] >> b) & 1), None)
        if piv is None:
            continue
        p = rows.pop(piv)
        rows = [(r[0] ^ p[0], r[1] ^ p[1]) if (r[0] >> b) & 1 else r for r in rows]
    return [r[1] for r in rows]


class Faults:
    """effects (data x, data z, flipped classical bits) of all Pauli faults of a circuit"""

    def __init__(self, op, nq, data):
        self.n, self.data = nq, data
        X, Z = [0] * nq, [0] * nq  # packed: x part | z part << n | flips << 2n ; of data qubits only
        d = len(data)
        for i, q in enumerate(data):
            X[q], Z[q] = 1 << i, 1 << (d + i)
        self.d = d
        written = set()  # classical bits that are overwritten later do not count
        loc = []  # per location: list of effects
        for name, q, c in reversed(op):
            if name == "h":
                loc.append(self._paulis([(X[q[0]], Z[q[0]])]))
                X[q[0]], Z[q[0]] = Z[q[0]], X[q[0]]
            elif name == "cx":
                a, b = q
                loc.append(self._paulis([(X[a], Z[a]), (X[b], Z[b])]))
                X[a] ^= X[b]
                Z[b] ^= Z[a]
            elif name == "measure":
                loc.append(self._paulis([(X[q[0]], Z[q[0]])]))
                flip = 0 if c[0] in written else 1 << (2 * d + c[0])
                written.add(c[0])
                X[q[0]] ^= flip
                Z[q[0]] = 0
                loc.append({X[q[0]], flip})
            elif name == "reset":
                loc.append(self._paulis([(X[q[0]], Z[q[0]])]))
                X[q[0]] = Z[q[0]] = 0
            else:
                raise ValueError(name)
        for q in range(nq):
            loc.append({X[q]})
        self.loc = [sorted(s - {0}) for s in reversed(loc)]

    @staticmethod
    def _paulis(xz):
        s = {0}
        for x, z in xz:
            s = {e ^ p for e in s for p in (0, x, z, x ^ z)}
        return s

    def split(self, e):
        m = (1 << self.d) - 1
        return e & m, (e >> self.d) & m, e >> (2 * self.d)

    def singles(self):
        s = {0}
        for l in self.loc:
            s.update(l)
        return s

    def silent(self, k):
        """data effects (x | z << d) of k <= 2 faults that flip no classical bit"""
        m = (1 << (2 * self.d)) - 1
        sing = self.singles()
        if k == 1:
            return {e for e in sing if e <= m}
        groups = {}
        for e in sing:
            groups.setdefault(e >> (2 * self.d), []).append(e & m)
        out = []
        for g in groups.values():
            g = np.array(g, dtype=np.uint64)
            out.append(np.unique(g[:, None] ^ g[None, :]))
        return {int(e) for e in np.unique(np.concatenate(out))}


class Cosets:
    """minimum weight in cosets of a span"""

    def __init__(self, rows, n):
        self.n = n
        self.basis = []
        for r in rows:
            for b in self.basis:
                r = min(r, r ^ b)
            if r:
                self.basis.append(r)
        # reduce fully: leading bits
        self.basis.sort(reverse=True)
        for i in range(len(self.basis)):
            for j in range(i):
                if self.basis[j] ^ self.basis[i] < self.basis[j] and (self.basis[j] >> (self.basis[i].bit_length() - 1)) & 1:
                    self.basis[j] ^= self.basis[i]
        self.span = gf2.span(self.basis)
        self.memo = {}

    def rep(self, e):
        for b in self.basis:
            if (e >> (b.bit_length() - 1)) & 1:
                e ^= b
        return e

    def weight(self, e):
        r = self.rep(e)
        if r not in self.memo:
            self.memo[r] = min(gf2.wt(r ^ s) for s in self.span)
        return self.memo[r]
