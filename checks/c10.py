"""C10: every path from the end of a case (serial, asynchronous, parallel, review) to its recorded verdict, over all modes and answers: prompts, acceptance and verdict."""
from itertools import product
from .par import *

ALL_ANSWERS = ("c", "a", "q", "v", "")


def accepted(s, name, n0=0):
    """Was the text of the case moved or written over its accepted snapshot?"""
    log = s.fs["log"].items[n0:] if "log" in s.fs else ()
    for op in log:
        if op.items[0].v in ("mv", "cp") and op.items[2] == snap_of(name) or op.items[0].v == "w" and op.items[1] == snap_of(name):
            return True
    return False


def want(v0, ans, flags):
    i, ai, u, a = flags
    asks = ai or (i and v0 != "OK")
    acc = bool(ans and ans[-1] == "a" and v0 != "FAIL") or v0 == "OK" and u or v0 == "DIFF" and a
    return asks, acc, "OK" if acc else v0


def judge_case(ctx, s, title, name, v0, ans, flags, recorded, n0):
    asks, acc, final_v = want(v0, ans, flags)
    inst = f"{title}: {v0}, interactive {flags[0]}, always {flags[1]}, update {flags[2]}, accept {flags[3]}, answers {ans}"
    ctx.judge("asked", inst, bool(ans) == asks, f"the user is {'' if ans else 'not '}asked", s)
    if v0 == "FAIL" and "a" in ans:
        ctx.judge("accepted", inst, ans[-1] != "a", "accepting a failed case ends the review of it", s)
    got = accepted(s, name, n0)
    ctx.judge("accepted", inst, got == acc, f"the result is {'' if got else 'not '}accepted", s)
    ctx.judge("verdict", inst, recorded == Const(final_v), f"recorded as {recorded!r}, expected {final_v}", s)


def flags4():
    return bsym("interactive"), bsym("always"), bsym("update"), bsym("accept")


def cfg4(st, fl, **kw):
    return cfg_of(st, interactive=fl[0], always_interactive=fl[1], update=fl[2], accept=fl[3], **kw)


def serial(ctx, n, forms, snaps, answers, is_async=False):
    names = [nm(i) for i in range(n)]
    sm = dict(zip(names, snaps))
    pol = SuitePol(sm, answers)
    pol.while_bound = 2
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, [x for x in names if sm[x]])
    n0 = len(st.fs["log"].items) if "log" in st.fs else 0
    fl = flags4()
    outs = run_serial(it, st, functions(it, st, names, kinds_of(forms), is_async), names, cfg4(st, fl))
    title = f"run of {n}, snapshots {snaps}"
    for k, s, v in outs:
        if k == CUT:
            continue        # longer dialogues
        if k != V:
            ctx.judge("verdict", title, False, f"{k} {v!r}", s)
            continue
        recs = {r[0]: r[1] for r in records(s) or []}
        h = history(s)
        for s2, bs in splits(it, s, *fl):
            for name, form, ans in h:
                judge_case(ctx, s2, title, name, expect(form, sm[name]), ans, bs, recs.get(name), n0)


def parallel(ctx, forms, snaps, answers, n=1):
    names = [pname(i) for i in range(n)]
    sm = dict(zip(names, snaps))
    pol = ParPol(sm, answers, polls=0)
    pol.while_bound = 3
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, [x for x in names if sm[x]])
    n0 = len(st.fs["log"].items) if "log" in st.fs else 0
    fl = flags4()
    outs = run_parallel(it, st, functions(it, st, names, kinds_of(forms)), names, cfg4(st, fl))
    title = f"parallel run, snapshots {snaps}"
    for k, s, v in outs:
        if k == CUT:
            continue
        if k != V:
            ctx.judge("verdict", title, False, f"{k} {v!r}", s)
            continue
        recs = {r[0]: r[1] for r in records(s) or []}
        done = {e.args[0]: e.args[1].v for e in s.events() if e.kind == "case"}
        ans = [e.args[0].v for e in s.events() if e.kind == "answer"]
        if n > 1 and ("q" in ans):
            continue
        for s2, bs in splits(it, s, *fl):
            if n == 1:
                for name, form in done.items():
                    judge_case(ctx, s2, title, name, expect(form, sm[name]), ans, bs, recs.get(name), n0)
            else:       # no dialogue: the mode decides for each
                if bs[0] or bs[1]:
                    continue
                for name, form in done.items():
                    judge_case(ctx, s2, title, name, expect(form, sm[name]), [], bs, recs.get(name), n0)


def reviewing(ctx, combo, answers):
    names = [nm(i) for i in range(len(combo))]
    pol = SuitePol({}, answers)
    pol.while_bound = 2
    pol.decide = lambda it, st, p: (True if p.op == "exists0" else None)
    it = ctx.interp(pol)
    st = it.start()
    put_report(st, list(zip(names, combo)))
    put_file(st, Const("books/.out/metrics.json"), Const('{"tookMs": 5}'))
    for x in names:
        put_file(st, out_of(x), Const(""))
        put_file(st, out_of(x, ".txt"), Const(""))
    n0 = len(st.fs["log"].items)
    fl = flags4()
    outs = it.call(st, it.glob(st, "booktest.review", "review"), [EXP, OUT, cfg4(st, fl), NONE, NONE], {})
    title = f"review {combo}"
    for k, s, v in outs:
        if k == CUT:
            continue
        if k != V:
            ctx.judge("verdict", title, False, f"{k} {v!r}", s)
            continue
        recs = {r[0]: r[1] for r in records(s) or []}
        ans = [e.args[0].v for e in s.events() if e.kind == "answer"]
        for s2, bs in splits(it, s, *fl):
            if len(combo) == 1:
                judge_case(ctx, s2, title, names[0], combo[0], ans, bs, recs.get(names[0]), n0)
            elif not (bs[0] or bs[1]):
                for x, v0 in zip(names, combo):
                    judge_case(ctx, s2, title, x, v0, [], bs, recs.get(x), n0)


def run(ctx):
    ctx.rule("asked", "the user is asked exactly in always-interactive mode, or in interactive mode if the verdict is not OK")
    ctx.rule("accepted", "the snapshot is replaced exactly on the answer accept to a result that is not FAIL, in update mode on OK, in accept mode on DIFF")
    ctx.rule("verdict", "an accepted result is recorded as OK, any other keeps its verdict")
    ctx.min_decided = 150
    T = ctx.thorough
    F = ["pass", "diff", "fail", "difffail", "Exception"]
    serial(ctx, 1, F, [True], ALL_ANSWERS)
    serial(ctx, 1, F, [False], ALL_ANSWERS)
    serial(ctx, 1, F[:4], [True], ("c", "a"), True)
    serial(ctx, 2, ["pass", "diff", "fail"], [True, False], ("c", "a", "q") if T else ("c", "a"))
    parallel(ctx, F, [True], ("c", "a", "q", "v"))
    parallel(ctx, F[:2], [False], ("c", "a"))
    parallel(ctx, F[:4], [True, True], ("c",), 2)
    for v in VERDICTS:
        reviewing(ctx, (v,), ALL_ANSWERS)
    for c in product(VERDICTS, repeat=2):
        reviewing(ctx, c, ("c",))
