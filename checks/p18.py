"""Depth- and gate-optimal state preparation: the result is minimal, and missing exactly if the allowed range is too small."""
import csscodes
import mc
import mpstub
import prep
from p17 import redundant, rowbases


def check(case, rec):
    code = prep.code_of(case)
    n = case["n"]
    for zero in case.get("zeros", (True, False)):
        rows = case["hx"] if zero else case["hz"]
        for m in case["metrics"]:
            best = prep.min_cnots(rows, n, depth=m == "depth")
            rec.add(states=1)
            if case["ranges"] == "tight":
                rngs = [[1, best]]
            else:
                rngs = [[lo, hi] for lo in range(0, best + 3) for hi in range(max(lo, best - 2), best + 3) if hi >= max(lo, 1)]
            for rng in rngs:
                what = f"{case['hx']} {case['hz']} n={n} zero={zero} {m} {rng}: optimum {best}"
                try:
                    r = prep.build({**case, "method": m, "zero": zero, "range": rng}, code)
                except Exception as e:
                    rec.bad(f"{what}, {type(e).__name__}: {e}", case)
                    return
                rec.add(transitions=max(1, mpstub.SCHEDULE.calls), traces=1)
                if r is None:
                    if best <= rng[1]:
                        rec.bad(f"{what}, no circuit found", case)
                        return
                    continue
                got = prep.cx_depth(r.circ) if m == "depth" else len(prep.cnots(r.circ))
                why = prep.wrong_state(r.circ, case, zero)
                if got != best or why:
                    rec.bad(f"{what}, circuit with {got}: {prep.show(r.circ)} {why or ''}", case)
                    return


def cases(ctx):
    q = ctx.quick
    out = {"ranges": [], "minimal": []}
    M = ["gate", "depth"]
    for n in (3, 4, 5):
        for mx in range(1, n):
            for mz in range(1, n - mx):
                for i, c in enumerate(csscodes.codes(n, mx, mz)):
                    c = {**c, "metrics": M}
                    if n == 3 and i % 3 == 0 or n == 4 and c["d"][0] == 2 or not q and (n == 4 and i % 3 == 0):
                        out["ranges"].append({**c, "ranges": "all"})
                    if n <= 3 or c["d"][0] == 2 and (not q or n == 4 or i % 2) or n == 4 and i % (4 if q else 1) == 0 or n == 5 and not q and i % 8 == 0:
                        out["minimal"].append({**c, "ranges": "tight"})
                    if n <= 4 and c["d"][0] == 2 or not q and c["d"][0] == 2:
                        for v in list(rowbases(c)) + list(redundant(c)):
                            out["minimal"].append({**v, "metrics": M, "ranges": "tight"})
    out["minimal"].append({**csscodes.named("642"), "metrics": ["depth"], "ranges": "tight"})
    if not q:
        out["minimal"].append({**csscodes.named("642"), "metrics": ["gate"], "ranges": "tight"})
    return out


def run(ctx):
    mpstub.install()
    import mqt.qecc.ft_stateprep  # noqa: F401
    for part, cs in cases(ctx).items():
        mc.explore(ctx, part, cs, check, timeout=400)
        ctx.sample({part: cs[len(cs) // 2]})
    ctx.bound("CSS codes with k > 0 on 3 and 4 qubits (quick: a fixed quarter for 4), all distance-2 codes on 5 qubits (quick: half) with row sums and dependent generators, [[6,4,2]]; both basis states; every search range around the optimum for 3 qubits and the distance-2 codes on 4")
    ctx.assume("processes of the search are real forks that never time out; the optimum is computed by breadth-first search over column additions")


def replay(ctx, case):
    mpstub.install()
    mc.explore(ctx, "replay", [case], check, timeout=400)
