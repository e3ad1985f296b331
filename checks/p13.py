"""CSS codes: logical operators, syndromes, logical-error and stabilizer queries against brute force."""
import itertools

import numpy as np

import gf2
import mc


def mat(rows, n):
    return np.array([gf2.unvec(r, n) for r in rows], dtype=np.int8).reshape(len(rows), n)


def check(case, rec):
    from mqt.qecc import CSSCode
    n, hx, hz = case["n"], case["hx"], case["hz"]
    bad = lambda w: rec.bad(f"{w}: Hx {hx} Hz {hz} on {n} qubits (rows as bit masks)", case)  # noqa: E731
    mx, mz = (None if hx is None else mat(hx, n)), (None if hz is None else mat(hz, n))
    rx, rz = hx or [], hz or []
    code = CSSCode(case.get("d", 1), mx, mz)
    rec.add(states=1, traces=1)
    k = n - gf2.rank(rx) - gf2.rank(rz)
    if code.n != n or code.k != k:
        bad(f"[[n,k]] = [[{code.n},{code.k}]] instead of [[{n},{k}]]")
        return
    lx, lz = [gf2.vec(r) for r in code.Lx], [gf2.vec(r) for r in code.Lz]
    for name, l, own, other in (("X", lx, rx, rz), ("Z", lz, rz, rx)):
        m = code.Lx if name == "X" else code.Lz
        if np.asarray(m).shape != (k, n):
            bad(f"{name} logicals have shape {np.asarray(m).shape} instead of ({k}, {n})")
            return
        if any(gf2.par(a & b) for a in l for b in other):
            bad(f"{name} logicals do not commute with the stabilizers")
            return
        if gf2.rank(own + l) != gf2.rank(own) + k:
            bad(f"{name} logicals are not independent of the {name} stabilizers")
            return
    if code.x_checks_as_pauli_strings() != [gf2.pstr(r, 0, n) for r in rx] or code.z_checks_as_pauli_strings() != [gf2.pstr(0, r, n) for r in rz]:
        bad("checks as Pauli strings are wrong")
    if code.stabs_as_pauli_strings() != [gf2.pstr(r, 0, n) for r in rx] + [gf2.pstr(0, r, n) for r in rz]:
        bad("stabilizers as Pauli strings are wrong")
    if code.x_logicals_as_pauli_strings() != [gf2.pstr(r, 0, n) for r in lx] or code.z_logicals_as_pauli_strings() != [gf2.pstr(0, r, n) for r in lz]:
        bad("logicals as Pauli strings are wrong")
    spx, spz = gf2.span(rx), gf2.span(rz)
    if code.is_self_dual() != (hx is not None and hz is not None and spx == spz):
        bad(f"is_self_dual() = {code.is_self_dual()}")
    for e in range(1 << n):
        v = np.array(gf2.unvec(e, n), dtype=np.int8)
        rec.add(transitions=6)
        if [int(b) for b in code.get_x_syndrome(v)] != [gf2.par(r & e) for r in rx]:
            bad(f"X syndrome of {e:b}")
            return
        if [int(b) for b in code.get_z_syndrome(v)] != [gf2.par(r & e) for r in rz]:
            bad(f"Z syndrome of {e:b}")
            return
        if code.check_if_x_stabilizer(v) != (e in spx) or code.check_if_z_stabilizer(v) != (e in spz):
            bad(f"stabilizer membership of {e:b}")
            return
        # logical errors: residuals without a syndrome
        if not any(gf2.par(r & e) for r in rz) and code.check_if_logical_x_error(v) != (e not in spx):
            bad(f"X residual {e:b}, which is {'no ' if e not in spx else 'a '}stabilizer, is{'' if code.check_if_logical_x_error(v) else ' not'} reported as logical error")
            return
        if not any(gf2.par(r & e) for r in rx) and code.check_if_logical_z_error(v) != (e not in spz):
            bad(f"Z residual {e:b}, which is {'no ' if e not in spz else 'a '}stabilizer, is{'' if code.check_if_logical_z_error(v) else ' not'} reported as logical error")
            return
    es = range(1 << n) if n <= case["pairs"] else [0, 1, (1 << n) - 1]
    for a in es:
        va = np.array(gf2.unvec(a, n), dtype=np.int8)
        for b in range(1 << n):
            vb = np.array(gf2.unvec(b, n), dtype=np.int8)
            rec.add(transitions=2)
            if code.stabilizer_eq_x_error(va, vb) != ((a ^ b) in spx) or code.stabilizer_eq_z_error(va, vb) != ((a ^ b) in spz):
                bad(f"equivalence of {a:b} and {b:b}")
                return


def build(case, rec):
    from mqt.qecc import CSSCode
    from mqt.qecc.codes import InvalidCSSCodeError
    n, m = case["n"], case["m"]
    for hz in case["hz"]:
        for d, dx, dz in case["dist"]:
            valid = n == m and not any(gf2.par(a & b) for a in case["hx"] for b in hz) and (dx is None or dx >= d) and (dz is None or dz >= d)
            rec.add(states=1, transitions=1, traces=1)
            try:
                c = CSSCode(d, mat(case["hx"], n), mat(hz, m), x_distance=dx, z_distance=dz)
            except InvalidCSSCodeError:
                if valid:
                    rec.bad(f"Hx {case['hx']} Hz {hz} distances {d},{dx},{dz} are rejected", {**case, "hz": [hz], "dist": [[d, dx, dz]]})
                continue
            if not valid:
                rec.bad(f"Hx {case['hx']} ({n} columns) Hz {hz} ({m} columns) distances {d},{dx},{dz} are accepted", {**case, "hz": [hz], "dist": [[d, dx, dz]]})
            elif (c.distance, c.x_distance, c.z_distance) != (d, dx if dx is not None else d, dz if dz is not None else d):
                rec.bad(f"distances {d},{dx},{dz} come back as {c.distance},{c.x_distance},{c.z_distance}", {**case, "hz": [hz], "dist": [[d, dx, dz]]})


def cases(ctx):
    q = ctx.quick
    mats = lambda n, r: itertools.product(range(1 << n), repeat=r)  # noqa: E731
    codes = []
    for n in (1, 2, 3):
        for a, b in itertools.product((None, 1, 2) if n < 3 else (None, 1, 2), repeat=2):
            if a is None and b is None:
                continue
            for hx in ([None] if a is None else mats(n, a)):
                for hz in ([None] if b is None else mats(n, b)):
                    if not any(gf2.par(x & z) for x in hx or () for z in hz or ()):
                        codes.append((n, hx, hz))
    for hx in itertools.combinations(range(1, 16), 2):  # four qubits, rows in order, and with one dependent row
        ker = [z for z in range(1, 16) if not any(gf2.par(x & z) for x in hx)]
        for r in (1, 2) if q else (1, 2, 3):
            for hz in itertools.product(ker, repeat=r):
                if r < 2 or q is False or hz[0] <= hz[1]:
                    codes.append((4, hx, hz))
        codes.append((4, (*hx, hx[0] ^ hx[1]), tuple(ker[:1])))
        codes.append((4, None, hx))
        codes.append((4, hx, None))
    steane = [0b1010101, 0b0110011, 0b0001111][:3]
    s2 = [int("".join(reversed(r)), 2) for r in ("1111000", "1010101"[:7], "0110110")]
    for h in (steane, s2):
        codes += [(7, tuple(h), tuple(h)), (7, tuple(h), (h[1], h[0] ^ h[2], h[2])), (7, tuple(h), tuple(h[:2])), (7, (*h, h[0] ^ h[1]), tuple(h)), (7, tuple(h[:1]), tuple(h))] if not any(gf2.par(a & b) for a in h for b in h) else []
    codes += [(6, (0b111111,), (0b000011, 0b001100)), (5, (0b11110,), (0b00011 ^ 0b00010, ) if False else (0b00110,)), (6, (0b000111, 0b111000), (0b011011,)), (8, (255,), (255, 0b00001111, 0b00110011, 0b01010101))]
    out = {"codes": [{"n": n, "hx": None if hx is None else list(hx), "hz": None if hz is None else list(hz), "pairs": 4 if not q else 3} for n, hx, hz in codes]}
    dist = [[d, dx, dz] for d in (1, 2, 3) for dx in (None, 1, 2, 3) for dz in (None, 1, 2, 3)]
    out["construction"] = [{"n": n, "m": m, "hx": list(hx), "hz": [list(z) for z in mats(m, rz)], "dist": dist if rx == rz == 1 else [[2, None, None]]}
                           for n in (1, 2, 3) for m in (1, 2, 3) for rx in (1, 2) for rz in (1, 2) for hx in mats(n, rx) if (n == m or rx == rz == 1) and (n < 3 or rx * rz < 4 or not q)]
    return out


def run(ctx):
    import mqt.qecc  # noqa: F401
    cs = cases(ctx)
    for part, fn in (("codes", check), ("construction", build)):
        mc.explore(ctx, part, cs[part], fn, timeout=60, describe=lambda c: c)
        ctx.sample({part: cs[part][len(cs[part]) // 2]})
    ctx.bound("all orthogonal Hx, Hz with up to 2 rows each (or absent) on up to 3 qubits; on 4 qubits all pairs of different rows Hx with all Hz of up to 2 (thorough 3) rows of the orthogonal space, dependent and missing matrices; "
              "Steane and other fixed codes; all errors, all pairs of errors up to 3 (thorough 4) qubits; construction: all matrices up to 2x3 incl. non-orthogonal and of different width, all distances 1-3")
    ctx.assume("check_if_logical_x/z_error is specified for residuals without a syndrome")


def replay(ctx, case):
    mc.explore(ctx, "replay", [case], build if "m" in case else check)
