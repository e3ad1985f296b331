"""Triangular color codes: lattice geometry, parameters, distance, logical-error query and comparison."""
import itertools

import numpy as np

import gf2
import mc
from p14 import min_logical

KINDS = {"hexagon": lambda d: (3 * d * d + 1) // 4, "square_octagon": lambda d: (d * d - 1) // 2 + d}


def make(kind, d, how=0):
    from mqt.qecc.cc_decoder import code_from_string
    from mqt.qecc.codes import HexagonalColorCode, SquareOctagonColorCode
    if how:
        return code_from_string(kind, d)
    return (HexagonalColorCode if kind == "hexagon" else SquareOctagonColorCode)(d)


def layout(case, rec):
    kind, d = case["kind"], case["d"]
    c = make(kind, d, case["how"])
    bad = lambda w: rec.bad(f"{kind} code of distance {d}: {w}", case)  # noqa: E731
    rec.add(states=1, traces=1)
    n = KINDS[kind](d)
    if c.lattice_type != kind or c.distance != d:
        bad(f"lattice {c.lattice_type} distance {c.distance}")
    if c.n != n or len(c.data_qubits) != n or c.k != 1:
        bad(f"[[n,k]] = [[{c.n},{c.k}]] instead of [[{n},1]]")
        return
    H = np.asarray(c.H)
    faces = (n - 1) // 2
    if H.shape != (faces, n) or len(c.ancilla_qubits) != faces:
        bad(f"{H.shape[0]} faces instead of {faces}")
        return
    if not (np.array_equal(c.Hx, H) and np.array_equal(c.Hz, H)):
        bad("X and Z checks are not the faces")
    rows = [gf2.vec(r) for r in H]
    if gf2.rank(rows) != faces:
        bad("faces are not independent")
    # the adjacency maps are those of H, both ways
    if sorted(c.faces_to_qubits) != list(range(faces)) or sorted(c.qubits_to_faces) != list(range(n)):
        bad("adjacency maps do not cover all faces and qubits")
        return
    for f in range(faces):
        if sorted(c.faces_to_qubits[f]) != [q for q in range(n) if H[f, q]]:
            bad(f"qubits of face {f} are {sorted(c.faces_to_qubits[f])}")
            return
    for q in range(n):
        if sorted(c.qubits_to_faces[q]) != [f for f in range(faces) if H[f, q]]:
            bad(f"faces of qubit {q} are {sorted(c.qubits_to_faces[q])}")
            return
    rec.add(transitions=n * faces)
    ws = {int(r.sum()) for r in H}
    if not ws <= ({4, 6} if kind == "hexagon" else {4, 8}):
        bad(f"faces with {ws} qubits")
    # three-valent, three-colourable lattice: faces share edges (or nothing), qubits touch at most three faces of pairwise different colour
    if any(gf2.wt(a & b) not in (0, 2) for a, b in itertools.combinations(rows, 2)):
        bad("two faces overlap in an odd or too large number of qubits")
    if any(not 1 <= len(c.qubits_to_faces[q]) <= 3 for q in range(n)) or sum(len(c.qubits_to_faces[q]) == 1 for q in range(n)) != 3:
        bad("a triangular code has three corners and qubits on up to three faces")
    nb = {f: [g for g in range(faces) if g != f and rows[f] & rows[g]] for f in range(faces)}
    col = {}

    def colour(order):
        if not order:
            return True
        f = order[0]
        for k in range(3):
            if all(col.get(g) != k for g in nb[f]):
                col[f] = k
                if colour(order[1:]):
                    return True
                del col[f]
        return False
    order, seen = [], set()
    stack = [0]
    while stack:
        f = stack.pop(0)
        if f not in seen:
            seen.add(f)
            order.append(f)
            stack += nb[f]
    if len(order) != faces or not colour(order):
        bad("faces are not connected or not three-colourable")
    for again in (False, True):
        if again:
            c.compute_logical()
        L = [gf2.vec(r) for r in np.atleast_2d(c.L)]
        if len(L) != 1 or any(gf2.par(L[0] & r) for r in rows) or gf2.rank(rows + L) != faces + 1:
            bad("wrong logical operator" + (" when computed again" if again else ""))
    if case["dist"]:
        w = min_logical(n, rows, rows, d, rec)
        if w != d:
            bad(f"smallest logical has weight {w}")


def residuals(case, rec):
    kind, d = case["kind"], case["d"]
    c = make(kind, d)
    n = c.n
    rows = [gf2.vec(r) for r in c.H]
    red = gf2.span(rows) if n <= 20 else None
    for e in range(*case["range"]):
        v = np.array(gf2.unvec(e, n))
        s = [gf2.par(r & e) for r in rows]
        rec.add(states=1, transitions=2, traces=1)
        if [int(x) for x in c.get_syndrome(v)] != s:
            rec.bad(f"{kind} {d}: syndrome of {e:b}", {**case, "range": [e, e + 1]})
            return
        if not any(s):
            want = e not in red
            got = c.check_if_logical_error(v)
            if bool(got) != want:
                rec.bad(f"{kind} {d}: residual {e:b} is{'' if want else ' not'} a logical error, check_if_logical_error says {got}", {**case, "range": [e, e + 1]})
                return


def compare(case, rec):
    cs = [make(*x) for x in case["codes"]]
    for (a, ca), (b, cb) in itertools.product(list(zip(case["codes"], cs)), repeat=2):
        same = a[:2] == b[:2]
        rec.add(states=1, transitions=1, traces=1)
        if (ca == cb) != same or (same and hash(ca) != hash(cb)):
            rec.bad(f"codes {a} and {b} compare {'unequal' if same else 'equal'}", case)


def run(ctx):
    import mqt.qecc.cc_decoder  # noqa: F401
    top = {"hexagon": (11, 7 if ctx.quick else 9), "square_octagon": (11, 7 if ctx.quick else 9)}
    lay = [{"kind": k, "d": d, "how": h, "dist": d <= top[k][1] and h == 0} for k in KINDS for d in range(3, (15 if ctx.quick else 23), 2) for h in (0, 1)]
    mc.explore(ctx, "layout", lay, layout, timeout=600, chunk=1)
    res = []
    for k, d, n in (("hexagon", 3, 7), ("square_octagon", 3, 7), ("square_octagon", 5, 17), ("hexagon", 5, 19)):
        step = 1 << 12
        if n == 19 and ctx.quick:
            continue
        for lo in range(0, 1 << n, step):
            res.append({"kind": k, "d": d, "range": [lo, min(1 << n, lo + step)]})
    mc.explore(ctx, "residuals", res, residuals, timeout=600)
    mc.explore(ctx, "comparison", [{"codes": [[k, d, h] for k in KINDS for d in (3, 5, 7) for h in (0, 1)]}], compare)
    ctx.sample({"layout": lay[0], "residuals": res[-1]})
    ctx.bound("hexagonal and square-octagon codes of all odd distances 3-13 (thorough 21): adjacency, faces, colouring, logicals; distance by meet in the middle up to 7 (thorough 9); all residuals of distance 3 and of the 17 (thorough: 19) qubit code")


def replay(ctx, case):
    fn = compare if "codes" in case else residuals if "range" in case else layout
    mc.explore(ctx, "replay", [case], fn, timeout=600)
