"""python -m symx.replay FILE|-   re-runs one counterexample on the unpatched code of /repo."""
import sys, os, json, importlib, traceback
os.environ["SYMX_MODE"] = "concrete"
from . import core, runner


def main():
    src = sys.argv[1]
    d = json.load(sys.stdin if src == "-" else open(src))
    ctx = core.ReplayCtx(d["model"], d["choices"])
    mod = importlib.import_module(d["spec"]["module"])
    fn = getattr(mod, d["spec"]["func"])
    err = None
    try:
        fn(ctx, **d["spec"]["cfg"])
    except (core.PathAbort, core.NotEncodable):
        err = "cut by an assumption"
    except Exception as e:
        ctx.failed.append(("exception", f"{type(e).__name__}: {e} @ {runner._tag(e, runner.REPO)}"))
    out = dict(failed=[(t, i[:1500]) for t, i in ctx.failed[:5]], error=err, inputs=ctx.log[:60])
    print("REPLAY " + json.dumps(out))
    if src != "-":
        print("inputs:", ctx.log)
        print("failed:" if ctx.failed else "not reproduced", ctx.failed[:5])
    sys.exit(1 if ctx.failed else 0)


if __name__ == "__main__":
    main()
