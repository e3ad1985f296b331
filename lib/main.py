import importlib, json, logging, os, sys, traceback
from pathlib import Path
HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.path.insert(0, str(HERE.parent / "checks"))
import mc


logging.disable(logging.CRITICAL)


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    mod = importlib.import_module(pid.lower())
    ctx = mc.Ctx(pid, tier, getattr(mod, "LEVEL", "model_checking"))
    try:
        if tier == "replay":
            case = json.loads(Path(sys.argv[3]).read_text())
            mod.replay(ctx, case["case"])
            print("replay:", "violation reproduced" if ctx.violations else "no violation")
            return 1 if ctx.violations else 0
        mod.run(ctx)
        ctx.write_evidence()
        print(f"{pid} {tier}: states={ctx.states} transitions={ctx.transitions} traces={ctx.traces} "
              f"violations={len(ctx.violations)} known={sum(ctx.known_hit.values())} wall={__import__('time').time()-ctx.t0:.1f}s")
        return 1 if ctx.violations else 0
    except mc.Infra as e:
        print(f"{pid}: machinery failure: {e}", file=sys.stderr)
        ctx.write_evidence()
        return 1 if ctx.violations else 2
    finally:
        ctx.cleanup()


if __name__ == "__main__":
    sys.exit(main())
