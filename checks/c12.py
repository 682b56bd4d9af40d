"""C12: the effects of the worker job and of the main process, kept apart, on every path of a parallel run over all modes, earlier reports and leftover batches."""
from itertools import product
from .c10 import flags4, want
from .par import *


def split_events(s):
    """(events in workers, events in the main process)"""
    inside, w, m = False, [], []
    for e in s.events():
        if e.kind == "worker":
            inside = e.args[0] == Const("begin")
        elif inside:
            w.append(e)
        else:
            m.append(e)
    return w, m


def batch_report(name):
    return concat([OUT, Const("/.batches/"), name, Const("/cases.txt")])


def accepts(evs, names):
    r = []
    for e in evs:
        if e.kind == "fs":
            o = e.args[0].v
            for n in names:
                if o in ("mv", "cp") and e.args[2] == snap_of(n) or o == "w" and e.args[1] == snap_of(n):
                    r.append(n)
        if e.kind == "open" and len(e.args) > 1 and e.args[0] in [snap_of(n) for n in names] and str(getattr(e.args[1], "v", "r"))[:1] in "wax":
            r.append(e.args[0])
    return r


def scenario(ctx, n, forms, snaps, answers, stale=None, old=None, cont=FALSE, flags=None, **kw):
    names = [pname(i) for i in range(n)]
    sm = dict(zip(names, snaps))
    pol = ParPol(sm, answers, polls=0, **kw)
    pol.kinds = pol.kinds | {"fs", "input"}
    pol.while_bound = 3
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, [x for x in names if sm[x]])
    if old:
        put_report(st, [(x, v) for x, v in zip(names, old) if v])
    if stale:
        for x in names:
            put_report(st, [(x, stale)], batch_report(x))
    fl = flags or flags4()
    ff = bsym("ff")
    outs = run_parallel(it, st, functions(it, st, names, kinds_of(forms)), names,
                        cfg_of(st, interactive=fl[0], always_interactive=fl[1], update=fl[2], accept=fl[3], continue_=cont, fail_fast=FALSE))
    title = f"{n} cases, snapshots {snaps}, leftover batch {stale}, records {old}, continue {cont}"
    for k, s, v in outs:
        if k == CUT:
            continue
        if k != V:
            ctx.judge("reviewed", title, False, f"{k} {v!r}", s)
            continue
        w, m = split_events(s)
        asks = [e for e in w if e.kind in ("input", "answer")]
        ctx.judge("worker", title, not asks, f"a worker asks the user: {asks[:1]}", s)
        acc = accepts(w, names)
        ctx.judge("worker", title, not acc, f"a worker accepts {acc}", s)
        done = {e.args[0]: e.args[1].v for e in w if e.kind == "case"}
        outside = [e for e in m if e.kind == "case"]
        ctx.judge("worker", title, not outside, f"cases run in the main process: {outside}", s)
        sub = [e.args[0] for e in m if e.kind == "submit"] + [e.args[0] for e in w if e.kind == "submit"]
        ctx.judge("worker", title, sorted(map(repr, sub)) == sorted(map(repr, done)), f"submitted {sub}, run {list(done)}", s)
        recs = records(s)
        if recs is None:
            ctx.und("reviewed", title, "report not readable")
            continue
        ans = [e.args[0].v for e in m if e.kind == "answer"]
        if "q" in ans:
            continue
        got = [repr(x) for x in accepts(m, names)]
        for s2, bs in splits(it, s, *fl):
            prompts = 0
            for x in done:
                v0 = expect(done[x], sm[x])
                mine = [r[1] for r in recs if r[0] == x]
                if bs[0] or bs[1]:
                    prompts += want(v0, [], bs)[0]
                    if n > 1:
                        continue
                    w_ = want(v0, ans, bs)
                else:
                    w_ = want(v0, [], bs)
                inst = f"{title}: {v0}, flags {bs}, answers {ans}"
                ctx.judge("reviewed", inst, got.count(repr(x)) == int(bool(w_[1])), f"{x!r} is accepted {got.count(repr(x))} times by the main process", s2)
                ctx.judge("reviewed", inst, mine == [Const(w_[2])], f"{x!r} is recorded as {mine}, after review it is {w_[2]}", s2)
            if len(answers) == 1:
                ctx.judge("reviewed", f"{title}: flags {bs}", len(ans) == prompts, f"{len(ans)} prompts for {prompts} cases to be reviewed by the user", s2)
    ctx.scen[title] = len(outs)


def run(ctx):
    ctx.rule("worker", "a worker runs the case it was given, asks nothing and accepts nothing")
    ctx.rule("reviewed", "every verdict is reviewed, accepted if need be, and recorded once by the main process")
    ctx.min_decided = 100
    F = ["pass", "diff", "fail", "Exception"]
    for snap in (True, False):
        scenario(ctx, 1, F, [snap], ("c", "a"))
        scenario(ctx, 1, F[:3], [snap], ("c",), stale="OK", cont=TRUE)
        scenario(ctx, 1, F[:3], [snap], ("c",), stale="OK", old=["FAIL"], cont=TRUE)
    scenario(ctx, 2, F[:3], [True, True], ("c",), flags=(bsym("i"), bsym("ai"), FALSE, bsym("a")))
    scenario(ctx, 2, F[:2], [True, False], ("c",), stale="DIFF", old=["DIFF", None], cont=TRUE, flags=(FALSE, bsym("ai"), bsym("u"), bsym("a")))
    scenario(ctx, 1, F[:3], [True], ("c",), lazy=(True,))
    if ctx.thorough:
        scenario(ctx, 2, F[:3], [True, False], ("c", "a"))
        scenario(ctx, 3, F[:2], [True] * 3, ("c",), flags=(FALSE, bsym("ai"), FALSE, bsym("a")))
