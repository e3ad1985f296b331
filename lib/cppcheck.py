"""Boilerplate of a check whose exploration is one C++ harness (stdout protocol: see mc.run_harness)."""
import mc


def define(g, name, group, bounds, assumes=(), thorough_bounds=None, tmp=False):
    def exe(ctx):
        return mc.build(ctx, name, f"{name}.cpp", group)

    def extra(ctx):
        return [f"repo={mc.REPO}"] + ([f"tmp={ctx.tmp}"] if tmp else [])

    def run(ctx):
        mc.run_harness(ctx, exe(ctx), [f"tier={ctx.tier}", *extra(ctx)])
        ctx.bound(bounds if ctx.quick or not thorough_bounds else thorough_bounds)
        for a in assumes:
            ctx.assume(a)

    def replay(ctx, case):
        tier = next((a for a in case["args"] if a.startswith("tier=")), "tier=quick")
        mc.run_harness(ctx, exe(ctx), [tier, *extra(ctx), f"only={case['part']}:{case['index']}"])

    g["run"], g["replay"] = run, replay
