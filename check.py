#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current source."""
import importlib
import os
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def bounded(f, name, Budget):
    """A scenario that takes too long stays undecided; the others go on."""
    def g(ctx, *a, **k):
        try:
            return f(ctx, *a, **k)
        except Budget as e:
            if time.time() > ctx.t0 + ctx.total:
                raise
            ctx.und("budget", f"{name} {a} {k}"[:200], str(e))
    return g


def main():
    import gc
    gc.disable()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    from sa.harness import Ctx, AnchorError
    from sa.engine import Budget
    try:
        ctx = Ctx(pid, tier)
        mod = importlib.import_module("checks." + pid.lower())
        for n, f in list(vars(mod).items()):
            if n != "run" and getattr(f, "__module__", "") == mod.__name__ and hasattr(f, "__code__") and f.__code__.co_varnames[:1] == ("ctx",):
                setattr(mod, n, bounded(f, n, Budget))
        try:
            mod.run(ctx)
        except Budget as e:
            ctx.und("budget", "analysis", str(e))
        except Exception as e:
            if not ctx.broken():
                raise
            ctx.und("analysis", "stopped", repr(e))
        return ctx.finish()
    except AnchorError as e:
        print(f"{pid}: analysis broken: {e}")
        return 2


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    threading.stack_size(1 << 30)
    rc = [3]

    def target():
        try:
            rc[0] = main()
        except BaseException:
            import traceback
            traceback.print_exc(limit=-6)
    t = threading.Thread(target=target)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
