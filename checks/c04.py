"""C04: every path of a run over several cases that fail in every modelled way: which cases start, what is recorded, what escapes."""
from .suite import *

FORMS = ["pass", "value", "fail", "diff", "difffail", "Exception", "SystemExit", "asyncio.CancelledError"]


def judge_run(ctx, it, title, names, outs, ff, interactive=False, storing=False):
    for n, (k, s, v) in enumerate(outs):
        inst = f"{title}"
        if k == CUT:
            ctx.und("barrier", inst, v)
            continue
        if k == X:
            ctx.judge("barrier", inst, False, f"{v!r} escapes the run after {history(s)}", s)
            continue
        ctx.ok("barrier", inst)
        h = history(s)
        order = [x[0] for x in h]
        if len(order) != len(set(order)) or [x for x in names if x in order] != order:
            ctx.judge("all run", inst, False, f"cases start as {order}", s)
            continue
        recs = records(s)
        got = {r[0]: r[1] for r in recs} if recs is not None else None
        if got is None:
            ctx.und("recorded", inst, "report not readable")
            continue
        for name, form, ans in h:
            if form in ("fail", "difffail", "Exception", "SystemExit", "UserError", "asyncio.CancelledError"):
                ctx.judge("recorded", f"{inst}: {form}", name in got and got[name] in (Const("FAIL"), Const("DIFF")),
                          f"a case that ends with {form} is recorded as {got.get(name)!r}", s)
        if order != names:
            last = h[-1] if h else None
            why = None
            if last is None:
                why = False
            elif "q" in last[2]:
                why = True
            else:
                f = truth_of(it, s, ff)
                v2 = got.get(last[0])
                why = bool(f) and v2 is not None and v2 != Const("OK") and type(v2) is Const
                if f is None:
                    why = False
            ctx.judge("all run", inst, why, f"the run stops after {[x[:2] for x in h]} although nobody asked for it (recorded {got})", s)
        else:
            ctx.ok("all run", inst)


def run(ctx):
    ctx.rule("barrier", "no exception of a case or of storing its result leaves the run")
    ctx.rule("recorded", "a case that raised or failed is recorded as not OK")
    ctx.rule("all run", "every selected case is started, in order and once, unless the user quit or fail-fast applies")
    ctx.min_decided = 60
    sizes = (1, 2, 3) if not ctx.thorough else (1, 2, 3, 4)
    for n in sizes:
        names = [nm(i) for i in range(n)]
        forms = FORMS if n == 1 else FORMS[:4] + FORMS[5:] if n <= (2 if not ctx.thorough else 3) else ["pass", "fail", "Exception"]
        for snaps in ([True] * n, [False] * n) if n < 3 else ([True] * n,):
            for is_async in (False, True):
                if is_async and n > 2:
                    continue
                pol = SuitePol(dict(zip(names, snaps)))
                it = ctx.interp(pol)
                st = it.start()
                put_snaps(st, [x for x, b in zip(names, snaps) if b])
                ff = bsym("ff")
                outs = run_serial(it, st, functions(it, st, names, kinds_of(forms), is_async), names, cfg_of(st, fail_fast=ff))
                judge_run(ctx, it, f"{n} cases{', async' if is_async else ''}", names, outs, ff)
    # storing the result
    for exc in ("pickle.PicklingError", "TypeError", "AttributeError", "RecursionError", "OSError"):
        names = [nm(0), nm(1)]

        class P(SuitePol):
            def may_raise(self, it, st, q, args, node):
                if q in ("pickle.dump", "pickle.dumps"):
                    return [ExcV(exc, (), "storing")]
                return ()
        pol = P({x: True for x in names})
        it = ctx.interp(pol)
        st = it.start()
        put_snaps(st, names)
        outs = run_serial(it, st, functions(it, st, names, kinds_of(["pass", "value"])), names, cfg_of(st))
        judge_run(ctx, it, f"storing raises {exc}", names, outs, FALSE)
    # interactive
    names = [nm(i) for i in range(2 if not ctx.thorough else 3)]
    pol = SuitePol({x: True for x in names}, answers=("c", "q", "a"))
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, names)
    ff = bsym("ff")
    outs = run_serial(it, st, functions(it, st, names, kinds_of(["pass", "diff", "fail"])), names,
                      cfg_of(st, interactive=TRUE, always_interactive=bsym("ai"), fail_fast=ff))
    judge_run(ctx, it, "interactive", names, outs, ff, True)
