"""Stabilizer codes: size, syndromes, equivalence and comparison against exact Pauli algebra."""
import itertools

import numpy as np

import gf2
import mc


def code_of(gens, as_array):
    from mqt.qecc import StabilizerCode
    from mqt.qecc.codes.stabilizer_code import paulis_to_binary
    return StabilizerCode(paulis_to_binary(gens) if as_array else list(gens))


def bits(p):
    p0 = p.lstrip("+-")
    return np.array([c in "XY" for c in p0] + [c in "ZY" for c in p0] + [p[0] == "-"]).astype(np.int8)


def consistent(gens, n):
    """signed generators commute and -1 is not in the group"""
    ps = [gf2.pauli(g) for g in gens]
    if not all(gf2.commute(a, b) for a, b in itertools.combinations(ps, 2)):
        return False
    # phase of every product, exponent of i with the operators written as i^k X^x Z^z
    group = {(0, 0): 0}
    for g, (x, z) in zip(gens, ps):
        k = (bin(x & z).count("1") + (2 if g[0] == "-" else 0)) % 4
        new = dict(group)
        for (gx, gz), gk in group.items():
            e = (gx ^ x, gz ^ z)
            ek = (gk + k + 2 * gf2.par(gz & x)) % 4
            if new.get(e, ek) != ek:
                return False
            new[e] = ek
        group = new
    return True


def group_of(gens, n):
    return gf2.span([gf2.join(gf2.pauli(g), n) for g in gens])


def check_code(case, rec, pairs):
    gens = case["gens"]
    n = len(gens[0].lstrip("+-"))
    bad = lambda what: rec.bad(f"{what}: generators {gens}", case)  # noqa: E731
    code = code_of(gens, False)
    code2 = code_of(gens, True)
    rows = [gf2.join(gf2.pauli(g), n) for g in gens]
    k = n - gf2.rank(rows)
    rec.add(states=1, traces=1)
    if code.n != n or code2.n != n:
        bad(f"n = {code.n}")
    if code.k != k or code2.k != k:
        bad(f"k = {code.k}, {n} qubits and {n - k} independent generators")
    signs = [int(g[0] == "-") for g in gens]
    if [int(x) for x in code.phases] != signs or [int(x) for x in code2.phases] != signs:
        bad(f"signs come back as {[int(x) for x in code.phases]}")
    want = [g.lstrip("+") for g in gens]
    if code.stabs_as_pauli_strings() != want or code2.stabs_as_pauli_strings() != want:
        bad(f"stabilizers come back as {code.stabs_as_pauli_strings()}")
    if not (code == code2) or hash(code) != hash(code2):
        bad("the code from strings and the code from the same binary matrix differ")
    ps = [gf2.pauli(g) for g in gens]
    allp = gf2.strings(n)
    for p in allp:
        q = gf2.pauli(p)
        s = [0 if gf2.commute(q, g) else 1 for g in ps]
        for form in (p, "-" + p, bits(p)):
            t = code.get_syndrome(form)
            rec.add(transitions=1)
            if [int(x) for x in t] != s:
                bad(f"syndrome of {p} is {[int(x) for x in t]} instead of {s}")
                return
    if any(g[0] in "+-" for g in gens):
        return
    grp = group_of(gens, n)
    for p in allp if pairs else allp[:: max(1, len(allp) // 4)]:
        for q in allp:
            same = (gf2.join(gf2.pauli(p), n) ^ gf2.join(gf2.pauli(q), n)) in grp
            rec.add(transitions=1)
            if code.stabilizer_equivalent(p, q) != same or code.stabilizer_equivalent(bits(p), bits(q)) != same:
                bad(f"{p} and {q} are{'' if same else ' not'} equivalent up to stabilizers")
                return


def check_eq(case, rec):
    from mqt.qecc import StabilizerCode
    codes = [StabilizerCode(list(g)) for g in case["list"]]
    me, g0 = StabilizerCode(list(case["gens"])), case["gens"]
    n = len(g0[0])
    grp = group_of(g0, n)
    for c, g in zip(codes, case["list"]):
        same = len(g[0]) == n and group_of(g, n) == grp
        rec.add(states=1, transitions=1, traces=1)
        if (me == c) != same or (me != c) == same:
            rec.bad(f"codes {g0} and {g} compare {'unequal' if same else 'equal'}", {**case, "list": [g]})
            return
        if same and hash(me) != hash(c):
            rec.bad(f"equal codes {g0} and {g} have different hashes", {**case, "list": [g]})
            return
    if me == "XX" or not (me != 3):
        rec.bad("equal to something that is not a code", case)


def check_build(case, rec):
    """accepted exactly when the generators commute and the logicals are symplectic pairs that commute with them"""
    from mqt.qecc import StabilizerCode
    from mqt.qecc.codes import InvalidStabilizerCodeError
    gens = case["gens"]
    n = len(gens[0])
    ps = [gf2.pauli(g) for g in gens]
    k = n - gf2.rank([gf2.join(p, n) for p in ps])
    for lz, lx in case["logicals"]:
        zs, xs = [gf2.pauli(p) for p in lz or []], [gf2.pauli(p) for p in lx or []]
        valid = all(gf2.commute(a, b) for a, b in itertools.combinations(ps, 2))
        if lz is None or lx is None:
            valid = valid and lz is None and lx is None
        else:
            valid = valid and all(len(p) == n for p in [*lz, *lx]) and len(zs) <= k and len(xs) <= k
            valid = valid and all(gf2.commute(a, b) for a in [*zs, *xs] for b in ps)
            valid = valid and all(sum(not gf2.commute(a, b) for b in xs) == 1 for a in zs)
            valid = valid and all(sum(not gf2.commute(a, b) for b in zs) == 1 for a in xs)
        rec.add(states=1, transitions=1, traces=1)
        c1 = {**case, "logicals": [[lz, lx]]}
        try:
            code = StabilizerCode(list(gens), Lz=lz, Lx=lx)
        except InvalidStabilizerCodeError as e:
            if valid:
                rec.bad(f"generators {gens} with Lz {lz} and Lx {lx} are rejected: {e}", c1)
                return
            continue
        if not valid:
            rec.bad(f"generators {gens} with Lz {lz} and Lx {lx} are accepted", c1)
            return
        if lz is not None and ([list(map(int, r)) for r in code.Lz] != [list(map(int, bits(p))) for p in lz] or [list(map(int, r)) for r in code.Lx] != [list(map(int, bits(p))) for p in lx]):
            rec.bad(f"logicals of {gens} come back different", c1)


def check_malformed(case, rec):
    """generator lists are accepted exactly when they are Pauli strings on equally many qubits, distances when positive"""
    import re
    from mqt.qecc import StabilizerCode
    from mqt.qecc.codes import InvalidStabilizerCodeError
    for gens in case["malformed"]:
        ok = len(gens) > 0 and all(re.fullmatch("[+-]?[IXYZ]+", g) for g in gens)
        ns = {len(g.lstrip("+-")) for g in gens}
        if ok and len(ns) == 1 and len({len(g) for g in gens}) > 1:
            continue  # signed and unsigned strings mixed
        if ok and len(ns) == 1:
            ps = [gf2.pauli(g) for g in gens]
            if not all(gf2.commute(a, b) for a, b in itertools.combinations(ps, 2)):
                continue
        ok = ok and len(ns) == 1
        rec.add(states=1, transitions=1, traces=1)
        try:
            StabilizerCode(list(gens))
            got = True
        except ValueError:
            got = False
        if got != ok:
            rec.bad(f"generator list {gens} is {'accepted' if got else 'rejected'}", {**case, "malformed": [gens]})
            return
    for d in case["distances"]:
        rec.add(states=1, transitions=1, traces=1)
        try:
            c = StabilizerCode(["XX"], distance=d)
        except InvalidStabilizerCodeError:
            if d is None or d > 0:
                rec.bad(f"distance {d} is rejected", {**case, "malformed": [], "distances": [d]})
            continue
        if d is not None and d <= 0:
            rec.bad(f"distance {d} is accepted", {**case, "malformed": [], "distances": [d]})
        elif c.distance != (1 if d is None else d):
            rec.bad(f"distance {d} is stored as {c.distance}", {**case, "malformed": [], "distances": [d]})


def check_helpers(case, rec):
    """the public commutation helpers on every pair of Paulis"""
    from mqt.qecc.codes import stabilizer_code as m
    n = case["helpers"]
    allp = gf2.strings(n)
    v = {p: bits(p)[:-1] for p in allp}
    for p, q in itertools.product(allp, repeat=2):
        com = gf2.commute(gf2.pauli(p), gf2.pauli(q))
        rec.add(states=1, transitions=3, traces=1)
        got = (m.commute(v[p], v[q]), m.anti_commute(v[p], v[q]), m.symplectic_inner_product(v[p], v[q]))
        if (bool(got[0]), bool(got[1]), int(got[2])) != (com, not com, int(not com)):
            rec.bad(f"{p} and {q} {'commute' if com else 'anticommute'}, commute/anti_commute/inner product say {got}", case)
            return


def commuting_lists(n, r):
    ps = [p for p in gf2.strings(n)]
    for t in itertools.product(ps, repeat=r):
        q = [gf2.pauli(p) for p in t]
        if all(gf2.commute(a, b) for a, b in itertools.combinations(q, 2)):
            yield list(t)


def cases(ctx):
    out = {"codes": [], "eq": [], "build": [], "malformed": [], "helpers": []}
    words = ["".join(t) for l in range(4) for t in itertools.product("IXYZ+-xA ", repeat=l)]
    for i in range(0, len(words), 100):
        out["malformed"].append({"malformed": [[w] for w in words[i: i + 100]], "distances": []})
    short = ["".join(t) for l in range(3) for t in itertools.product("IXZ+-a", repeat=l)] + ["+XX", "-ZZ", "XXX", "ZZI"]
    for w in short:
        out["malformed"].append({"malformed": [[w, u] for u in short], "distances": []})
    out["malformed"].append({"malformed": [[]], "distances": [None, *range(-3, 5)]})
    out["helpers"] = [{"helpers": n} for n in (1, 2, 3)]
    quick = ctx.quick
    for n, rs in ((1, (1, 2)), (2, (1, 2, 3)), (3, (1, 2) if quick else (1, 2, 3))):
        for r in rs:
            for g in commuting_lists(n, r):
                if "I" * n in g and r > 1 and n == 3:
                    continue
                if n == 3 and r == 3 and g != sorted(g):
                    continue
                out["codes"].append({"gens": g, "pairs": n < 3})
    for g in (["XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"], ["XXXX", "ZZZZ"], ["XXXXIII", "XIXIXIX", "IXXIXXI", "ZZZZIII", "ZIZIZIZ", "IZZIZZI"][:3], ["XYZ", "ZXI"], ["ZZI", "IZZ", "XXX"], ["YYY", "XXI"]):
        out["codes"].append({"gens": g, "pairs": len(g[0]) < 5})
    # signed generators: all sign patterns of all commuting lists
    for n, r in ((1, 1), (2, 1), (2, 2), (2, 3)) + (() if quick else ((3, 2),)):
        for g in commuting_lists(n, r):
            if "I" * n in g:
                continue
            for s in itertools.product("+-", repeat=r):
                t = [a + b for a, b in zip(s, g)]
                if consistent(t, n):
                    out["codes"].append({"gens": t, "pairs": False})
    # comparison: all pairs of codes; sizes mixed
    small = [g for n, r in ((1, 1), (2, 1), (2, 2), (2, 3)) for g in commuting_lists(n, r) if consistent(g, n)]
    three = [list(t) for t in itertools.combinations([p for p in gf2.strings(3) if p != "III"], 2) if gf2.commute(gf2.pauli(t[0]), gf2.pauli(t[1]))]
    groups = {}
    for g in three:
        groups.setdefault(frozenset(group_of(g, 3)), []).append(g)
    for g in small:
        other = [h for h in small if len(h) < 3 or not ctx.quick or len(g) < 2]
        out["eq"].append({"gens": g, "list": other + [["XXX"], ["ZZI", "IZZ"]]})
    for gs in groups.values():
        out["eq"].append({"gens": gs[0], "list": gs + three[:: 7 if quick else 1]})
    # construction
    p2, p3 = gf2.strings(2), gf2.strings(3)
    for r in (1, 2):
        for g in itertools.product(p2, repeat=r):
            l1 = [[p] for p in p2] + [["X"], ["XXX"]]
            ls = [[None, None], [["ZZ"], None], [None, ["XX"]]] + [[a, b] for a in l1 for b in l1]
            out["build"].append({"gens": list(g), "logicals": ls})
    for g in [p for p in p3 if p not in ("III",)] if not quick else ["ZZZ", "XXX", "XYZ", "ZII"]:
        com = [p for p in p3 if p != "III" and gf2.commute(gf2.pauli(p), gf2.pauli(g))]
        pairs = list(itertools.product(com[: 6 if quick else 31], repeat=2))
        for a in pairs:
            out["build"].append({"gens": [g], "logicals": [[list(a), list(b)] for b in pairs] + [[list(a), [b]] for b in com] + [[[b], list(a)] for b in com]})
    for g in itertools.product(p3, repeat=2):
        out["build"].append({"gens": list(g), "logicals": [[None, None]]})
    return out


FN = {"codes": lambda c, r: check_code(c, r, c["pairs"]), "eq": check_eq, "build": check_build, "malformed": check_malformed, "helpers": check_helpers}


def run(ctx):
    import mqt.qecc  # noqa: F401
    for part, cs in cases(ctx).items():
        mc.explore(ctx, part, cs, FN[part], timeout=120, describe=lambda c, part=part: {**{k: v for k, v in c.items() if k not in ("list", "logicals", "malformed")}, "part": part})
        ctx.sample({"part": part, "first": str(cs[0])[:200], "last": str(cs[-1])[:200]})
    ctx.bound("all commuting generator lists on 1 and 2 qubits (up to 3 generators, all consistent signs) and on 3 qubits (pairs; thorough: triples and signed pairs), five-qubit and other fixed codes; all Paulis as errors; "
              "all pairs of codes on up to 2 qubits (quick: without pairs of three-generator lists) and pairs per stabilizer group on 3; all generator lists with all single logical pairs on 2 qubits, two logical pairs on 3 qubits over 6 (thorough: all) commuting Paulis; all generator texts of up to 3 characters over IXYZ+-xA and space, pairs of texts, distances -3..4")
    ctx.assume("equivalence and comparison are specified for unsigned generators (the sign bit of a product is not tracked by the code)")


def replay(ctx, case):
    mc.explore(ctx, "replay", [case], FN[case["part"]] if "part" in case else (FN["malformed"] if "malformed" in case else FN["helpers"] if "helpers" in case else FN["build"] if "logicals" in case else FN["eq"] if "list" in case else FN["codes"]), timeout=120)
