"""C05: every path of the runners and the review, over all verdicts, answers and aborts, with the value they return."""
from .par import *

FORMS = ["pass", "diff", "fail", "difffail", "Exception"]


def verdicts_of(h, snaps, upd, acc):
    return [final(expect(f, snaps[n]), a, upd, acc) for n, f, a in h]


def serial(ctx, entry, n, forms, snaps, answers=("c",), is_async=False, **opts):
    names = [nm(i) for i in range(n)]
    sm = dict(zip(names, snaps))
    pol = SuitePol(sm, answers)
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, [x for x in names if sm[x]])
    upd, acc = bsym("update"), bsym("accept")
    cfg = cfg_of(st, fail_fast=bsym("ff"), update=upd, accept=acc, **opts)
    cases = functions(it, st, names, kinds_of(forms), is_async)
    if entry == "TestRun":
        outs = run_serial(it, st, cases, names, cfg)
    elif entry == "TestRun.run":
        outs = run_serial(it, st, cases, names, cfg, awaited=False, via="run")
    else:
        st, tests = tests_obj(it, st, cases)
        f = it.glob(st, "booktest.runs", entry)
        st, setup = one(it.call(st, it.glob(st, "booktest.detection", "BookTestSetup"), [], {}))
        outs = run_case(it, st, f, [EXP, OUT, tests, mklist(st, names), cfg, mkdict(st), setup])
    title = f"{entry}, {n} cases, snapshots {snaps}, {'async, ' if is_async else ''}answers {'/'.join(answers)}"
    for k, s, v in outs:
        h = history(s)
        for s2, um, am in modes(it, s, upd, acc) if k == V else [(s, None, None)]:
            exit_judge(ctx, it, title + f": {[x[1:] for x in h]} update {um} accept {am}", k, s2, v, verdicts_of(h, sm, um, am),
                       any(x[1] == "KeyboardInterrupt" for x in h))
    ctx.scen[title] = len(outs)


def parallel(ctx, n, forms, snaps, answers=("c",), **kw):
    opts = kw.pop("opts", {})
    brk = kw.pop("interrupt", None)
    names = [pname(i) for i in range(n)]
    sm = dict(zip(names, snaps))
    pol = ParPol(sm, answers, **kw)
    if brk == "sleep":
        def sl(it, st, a, kw2, node):
            r = []
            if st.ext.get("thread") != Const("running"):
                s = st.fork()
                it.event(s, "answer", Const("^C"), node=node)
                r.append((X, s, ExcV("KeyboardInterrupt", (), "user")))
            return r + ParPol.sleep(pol, it, st, a, kw2, node)
        pol.ext["time.sleep"] = sl
    if brk == "input":
        def inp(it, st, a, kw2, node):
            s = st.fork()
            it.event(s, "answer", Const("^C"), node=node)
            return [(X, s, ExcV("KeyboardInterrupt", (), "user"))] + SuitePol.input(pol, it, st, a, kw2, node)
        pol.ext["builtins.input"] = inp
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, [x for x in names if sm[x]])
    upd, acc = FALSE, bsym("accept")
    cfg = cfg_of(st, fail_fast=bsym("ff"), update=upd, accept=acc, **opts)
    outs = run_parallel(it, st, functions(it, st, names, kinds_of(forms)), names, cfg)
    title = f"parallel, {n} cases, snapshots {snaps}, answers {'/'.join(answers)}, {kw or ''} {'interrupted while ' + brk if brk else ''}"
    for k, s, v in outs:
        recs = records(s)
        if k == CUT:
            ctx.und("exit", title, v)
            continue
        intr = any(e.kind == "answer" and e.args[0].v == "^C" for e in s.events())
        done = {e.args[0]: e.args[1].v for e in s.events() if e.kind == "case"}
        # the cases processed by the main process are the recorded ones, in the order of their reviews
        if recs is None or k == X:
            exit_judge(ctx, it, title, k, s, v, [], intr)
            continue
        vs = []
        for name, verdict, dur in recs:
            if name in done:
                vs.append(verdict.v if type(verdict) is Const else None)
        if any(x == "FAIL" for x in [expect(f, sm[n2]) for n2, f in done.items() if n2 in [r[0] for r in recs]]):
            vs.append("FAIL")       # a failure is never reviewed away
        exit_judge(ctx, it, title + f": {sorted(repr(x) for x in done.items())} {vs}", k, s, v, vs, intr)
    ctx.scen[title] = len(outs)


def reviewing(ctx, n, answers, **opts):
    from itertools import product
    for combo in product(VERDICTS, repeat=n):
        names = [nm(i) for i in range(n)]
        for sel in (None, names, names[:-1]):
            pol = SuitePol({}, answers)
            pol.decide = lambda it, st, p: (True if p.op == "exists0" else None)
            it = ctx.interp(pol)
            st = it.start()
            put_report(st, list(zip(names, combo)))
            put_file(st, Const("books/.out/metrics.json"), Const('{"tookMs": 5}'))
            for x in names:
                put_file(st, out_of(x), Const(""))
                put_file(st, out_of(x, ".txt"), Const(""))
            acc, ff = bsym("accept"), bsym("ff")
            cfg = cfg_of(st, fail_fast=ff, accept=acc, update=FALSE, **opts)
            f = it.glob(st, "booktest.review", "review")
            outs = it.call(st, f, [EXP, OUT, cfg, NONE, NONE if sel is None else mklist(st, sel)], {})
            title = f"review {combo}, {'all' if sel is None else len(sel)} selected, answers {'/'.join(answers)}"
            for k, s, v in outs:
                if k != V:
                    exit_judge(ctx, it, title, k, s, v, [])
                    continue
                recs = records(s)
                if recs is None:
                    ctx.und("exit", title, "report not readable")
                    continue
                got = {a: b for a, b, c in recs}
                sell = names if sel is None else sel
                ans = [e.args[0].v for e in s.events() if e.kind == "answer"]
                vs = [got[x].v if x in got and type(got[x]) is Const else None for x in sell]
                # a FAIL stays one; a DIFF nobody answered stays one unless accepted by mode
                for x, v0 in zip(names, combo):
                    if x in sell and v0 == "FAIL":
                        vs.append("FAIL")
                if not any(y != "OK" for y in vs) and any(got.get(x) != Const("OK") for x in names):
                    continue            # something that was not processed is not OK: not specified
                exit_judge(ctx, it, title, k, s, v, vs)
    ctx.scen[f"review of {n} records"] = 3 ** n * 3


def run(ctx):
    ctx.rule("exit", "status 0 if every processed case ended OK after review; non-zero if one did not or the run was interrupted")
    ctx.min_decided = 150
    T = ctx.thorough
    for entry in ("TestRun", "TestRun.run", "run_tests", "run_tests_async"):
        for n in (1, 2) + ((3,) if T else ()):
            for snaps in ([True] * n, [True] + [False] * (n - 1), [False] + [True] * (n - 1)):
                serial(ctx, entry, n, FORMS if n < 3 else FORMS[:3], snaps)
    serial(ctx, "run_tests", 3, ["pass", "diff", "fail"], [True] * 3)
    serial(ctx, "run_tests", 1, ["pass", "KeyboardInterrupt", "SystemExit"], [True])
    serial(ctx, "run_tests_async", 2, ["pass", "Exception", "SystemExit"], [True, True], is_async=True)
    for ans in (("c", "a"), ("q", "c")):
        serial(ctx, "run_tests", 2, ["pass", "diff", "fail"], [True, True], ans, interactive=TRUE)
    parallel(ctx, 1, FORMS + ["SystemExit"], [True], lazy=(False, True))
    parallel(ctx, 2, ["pass", "diff", "fail"], [True, True], lazy=(False, True))
    parallel(ctx, 2, ["pass", "fail"], [True, False], suspend=True)
    if T:
        parallel(ctx, 3, ["pass", "diff", "fail"], [True] * 3, suspend=True)
    parallel(ctx, 2, ["pass", "diff", "fail"], [True, True], ("c", "a", "q"), opts={"interactive": TRUE}, polls=0)
    parallel(ctx, 2, ["pass"], [True, True], interrupt="sleep", lazy=(True,))
    parallel(ctx, 2, ["pass", "diff"], [True, True], interrupt="input", opts={"interactive": TRUE}, polls=0)
    parallel(ctx, 1, ["pass"], [True], damage=("none", "gone", "empty", "junk"))
    reviewing(ctx, 1, ("c", "a", "q"), interactive=TRUE)
    reviewing(ctx, 2, ("c", "a"), interactive=TRUE)
    if T:
        reviewing(ctx, 3, ("c", "a"), interactive=TRUE)
        reviewing(ctx, 2, ("c", "a", "q"), interactive=TRUE)
    reviewing(ctx, 2, ("c",))
