"""C07: over all earlier reports and selections, the set of cases that start in a run, are submitted by a parallel run, or are presented by a review, against the recorded verdicts."""
from itertools import product
from .par import *

OLD = [None, "OK", "DIFF", "FAIL", "MAYBE", "short"]


def put_old(st, names, old):
    parts = []
    for n, v in zip(names, old):
        if v == "short":
            parts.append(concat([n, Const("\n")]))
        elif v:
            parts.append(record(n, v))
    parts.append(record(atom("elsewhere"), "OK"))
    put_file(st, CASES_TXT, concat(parts))


def expected(names, old, cont):
    return [n for n, v in zip(names, old) if not (cont and v == "OK")]


def serial(ctx, old, sel, cont, is_async=False):
    names = [nm(i) for i in range(len(old))]
    picked = [names[i] for i in sel]
    pol = SuitePol({x: True for x in names})
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, names)
    put_old(st, names, old)
    cfg = cfg_of(st, continue_=cont)
    outs = run_serial(it, st, functions(it, st, names, kinds_of(["pass", "diff"]), is_async), picked, cfg)
    title = f"run over records {old}, selected {list(sel)}, continue {cont}"
    want = [n for n in expected(names, old, truth_of(it, st, cont) if isinstance(cont, Val) else cont) if n in picked]
    for k, s, v in outs:
        if k == CUT:
            ctx.und("run", title, v)
            continue
        got = [x[0] for x in history(s)]
        ctx.judge("run", title, k == V and sorted(map(repr, got)) == sorted(map(repr, want)), f"cases run: {got}, to be run: {want} ({k} {v!r})", s)


def parallel(ctx, old, sel, cont):
    names = [pname(i) for i in range(len(old))]
    picked = [names[i] for i in sel]
    pol = ParPol({x: True for x in names}, polls=0)
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, names)
    put_old(st, names, old)
    cfg = cfg_of(st, continue_=cont)
    outs = run_parallel(it, st, functions(it, st, names, kinds_of(["pass", "diff"])), picked, cfg)
    title = f"parallel run over records {old}, selected {list(sel)}, continue {cont}"
    want = {n for n in expected(names, old, cont) if n in picked}
    for k, s, v in outs:
        if k == CUT:
            ctx.und("run", title, v)
            continue
        got = {e.args[0] for e in s.events() if e.kind == "submit"}
        ran = {e.args[0] for e in s.events() if e.kind == "case"}
        ctx.judge("run", title, k == V and got == want and ran == want, f"cases submitted: {got}, run: {ran}, to be run: {want} ({k} {v!r})", s)


def reviewing(ctx, old, sel, cont):
    names = [nm(i) for i in range(len(old))]
    picked = [names[i] for i in sel]
    pol = SuitePol({}, ("c",))
    pol.kinds = pol.kinds | {"input"}
    pol.decide = lambda it, st, p: (True if p.op == "exists0" else None)
    it = ctx.interp(pol)
    st = it.start()
    put_old(st, names, old)
    put_file(st, Const("books/.out/metrics.json"), Const('{"tookMs": 5}'))
    for x in names:
        put_file(st, out_of(x), Const(""))
        put_file(st, out_of(x, ".txt"), Const(""))
    cfg = cfg_of(st, continue_=cont, always_interactive=TRUE, accept=TRUE)
    outs = it.call(st, it.glob(st, "booktest.review", "review"), [EXP, OUT, cfg, NONE, mklist(st, picked)], {})
    title = f"review over records {old}, selected {list(sel)}, continue {cont}"
    recorded = [v in VERDICTS for v in old]
    want = [n for n in expected(names, old, cont) if n in picked and recorded[names.index(n)]]
    for k, s, v in outs:
        if k == CUT:
            ctx.und("review", title, v)
            continue
        asked = len([e for e in s.events() if e.kind == "input"])
        ctx.judge("review", title, k == V and asked == len(want), f"{asked} cases are presented, expected {len(want)}: {want} ({k} {v!r})", s)
        recs = records(s)
        if recs is None:
            ctx.und("review", title, "report not readable")
            continue
        for n, v0 in zip(names, old):
            if v0 == "DIFF":        # accepting mode: presented exactly if it became OK
                now = [r[1] for r in recs if r[0] == n]
                ctx.judge("review", f"{title}: {n!r}", now == [Const("OK" if n in want else "DIFF")], f"{n!r} is recorded as {now}, presented: {n in want}", s)


def run(ctx):
    ctx.rule("run", "exactly the selected cases that are not recorded as OK are run (all of them without the option)")
    ctx.rule("review", "exactly the selected recorded cases that are not OK are presented (all of them without the option)")
    ctx.min_decided = 60
    T = ctx.thorough
    for cont in (True, False):
        for old in product(OLD, repeat=2):
            for sel in ([0, 1], [1]) if T or old[0] != old[1] else ([0, 1],):
                serial(ctx, old, sel, cont)
                reviewing(ctx, old, sel, cont)
        for old in product(OLD, repeat=2) if T else product(OLD[:4], repeat=2):
            parallel(ctx, old, [0, 1], cont)
        for old in [("OK", "FAIL", "OK"), (None, "OK", "DIFF")] + (list(product(OLD[:4], repeat=3)) if T else []):
            serial(ctx, old, [0, 1, 2], cont)
            serial(ctx, old, [0, 2], cont)
            parallel(ctx, old, [0, 2], cont)
        serial(ctx, ("OK", None), [0, 1], cont, True)
