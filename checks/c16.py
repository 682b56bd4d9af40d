"""C16: order of setup, case and teardown events on every path of the runners and of the setup_teardown decorator."""
from .par import *

KINDS = {"setup", "teardown"}


def generator(it, st, tag="setup"):
    """A user's setup and teardown: an event, a yield, an event."""
    def h(it, st, f, a, kw, node):
        n = a[0].v if a and type(a[0]) is Const else None
        if n == 0:
            it.event(st, "setup", Const(tag), node=node)
            return [(V, st, NONE)]
        if n == 1:
            it.event(st, "teardown", Const(tag), node=node)
        return [(X, st, ExcV("StopIteration", (), "generator"))]
    return it.user_fn(st, tag, is_gen=True, handler=h)


def bracket(evs, cases_expected=None):
    """None if the events are setup, cases, teardown; else what is wrong."""
    ks = [e.kind for e in evs if e.kind in ("setup", "teardown", "case")]
    if ks.count("setup") != 1 or ks.count("teardown") != 1:
        return f"setup runs {ks.count('setup')} times, teardown {ks.count('teardown')} times"
    if ks[0] != "setup":
        return "a case runs before the setup"
    if ks[-1] != "teardown":
        return "a case runs after the teardown"
    return None


def book_setup(it, st, gen):
    return one(it.call(st, it.glob(st, "booktest.detection", "BookTestSetup"), [gen], {}))


def serial(ctx, entry, n, forms, is_async=False, **opts):
    names = [nm(i) for i in range(n)]
    pol = SuitePol({x: True for x in names}, ("c", "q"))
    pol.kinds = pol.kinds | KINDS
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, names)
    st, setup = book_setup(it, st, generator(it, st))
    st, tests = tests_obj(it, st, functions(it, st, names, kinds_of(forms), is_async))
    outs = run_case(it, st, it.glob(st, "booktest.runs", entry), [EXP, OUT, tests, mklist(st, names), cfg_of(st, fail_fast=bsym("ff"), **opts), mkdict(st), setup])
    title = f"{entry}, {n} cases{', async' if is_async else ''}"
    for k, s, v in outs:
        if k == CUT:
            ctx.und("run", title, v)
            continue
        b = bracket(s.events())
        ctx.judge("run", f"{title}: {[x[1] for x in history(s)]}", b is None, f"{b} ({k} {v!r})", s)
    ctx.scen[title] = len(outs)


def parallel(ctx, n, forms, **kw):
    names = [pname(i) for i in range(n)]
    pol = ParPol({x: True for x in names}, ("c",), polls=0, **kw)
    pol.kinds = pol.kinds | KINDS
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, names)
    st, setup = book_setup(it, st, generator(it, st))
    outs = run_parallel(it, st, functions(it, st, names, kinds_of(forms)), names, cfg_of(st), setup)
    title = f"parallel run of {n}"
    for k, s, v in outs:
        if k == CUT:
            ctx.und("run", title, v)
            continue
        cur, jobs, outside = None, [], []
        for e in s.events():
            if e.kind == "worker" and e.args[0] == Const("begin"):
                cur = (e.args[1], [])
            elif e.kind == "worker":
                jobs.append(cur)
                cur = None
            elif e.kind in ("setup", "teardown", "case"):
                (cur[1] if cur else outside).append(e)
        for name, evs in jobs:
            b = bracket(evs)
            ctx.judge("run", f"{title}: job {[e.args[1].v for e in evs if e.kind == 'case']}", b is None, f"in the worker of {name!r}: {b}", s)
        ctx.judge("run", f"{title}: cases", all(e.kind != "case" for e in outside), f"cases outside the workers: {outside}", s)
    ctx.scen[title] = len(outs)


def decorator(ctx, forms, is_async, stacked=False):
    pol = SuitePol({})
    pol.kinds = pol.kinds | KINDS
    it = ctx.interp(pol)
    st = it.start()
    name = nm(0)
    fn = it.user_fn(st, "case", is_async=is_async, handler=kinds_of(forms)(name))
    d = it.glob(st, "booktest", "setup_teardown")
    tags = ["inner", "outer"] if stacked else ["setup"]
    for t in tags:
        st, dd = one(it.call(st, d, [generator(it, st, t)], {}))
        st, fn = one(it.call(st, dd, [fn], {}))
    title = f"setup_teardown {'twice ' if stacked else ''}on {'an async' if is_async else 'a'} case"
    for s, t in case_run(it, st, cfg_of(st)):
        for k, s2, v in it.bind(call_t(it, s, t, "start"), lambda z, _: run_case(it, z, fn, [t])):
            if k == CUT:
                ctx.und("decorator", title, v)
                continue
            evs = [e for e in s2.events() if e.kind in ("setup", "teardown", "case")]
            form = [e.args[1].v for e in evs if e.kind == "case"]
            want = [("setup", x) for x in reversed(tags)] + [("case", None)] + [("teardown", x) for x in tags]
            got = [(e.kind, e.args[0].v if e.kind != "case" else None) for e in evs]
            ctx.judge("decorator", f"{title}: {form}", got == want, f"order is {got}", s2)
            raised = form and form[0] in ("Exception", "SystemExit", "KeyboardInterrupt")
            ctx.judge("decorator", f"{title}: {form}, way out", (k == X and v.cls == form[0]) if raised else k == V, f"the case ends with {form}, the decorated one with {k} {v!r}", s2)
    ctx.scen[title] = 1


def run(ctx):
    ctx.rule("run", "setup once before the cases (of the process), teardown once after them, on every way out")
    ctx.rule("decorator", "setup once before the case, teardown once after it, on every way out, and the case's exception is passed on")
    ctx.min_decided = 40
    F = ["pass", "fail", "Exception", "SystemExit", "KeyboardInterrupt"]
    for entry in ("run_tests", "run_tests_async"):
        for a in (False, True):
            serial(ctx, entry, 1, F, a)
            serial(ctx, entry, 2, F if ctx.thorough else ["pass", "Exception", "KeyboardInterrupt"], a)
        serial(ctx, entry, 0, F)
        serial(ctx, entry, 2, ["pass", "fail"], interactive=TRUE)
    parallel(ctx, 1, F[:4])
    parallel(ctx, 2, F[:3] if ctx.thorough else ["pass", "Exception"])
    for a in (False, True):
        for stacked in (False, True):
            decorator(ctx, F, a, stacked)
