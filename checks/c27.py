"""C27: every interleaving of the scheduler's polls with every state a worker may leave its report in."""
from .deps import *
from .c06 import watch
from .c12 import batch_report
from .c16 import book_setup

DAMAGE = ("none", "gone", "empty", "junk", "badverdict", "cut", "baddur", "blank")


def after_join(s):
    """The main process still records cases after it waited for the scheduler."""
    evs = [e.kind for e in s.events() if e.kind == "joined" or e.kind == "write" and e.args[0] == CASES_TXT]
    return "joined" in evs and "write" in evs[evs.index("joined"):]


def judge(ctx, it, title, names, forms_of, k, s, v, snaps, damage=None):
    stuck = [e for e in s.events() if e.kind in ("died", "hang")]
    if stuck:
        e = stuck[0]
        ctx.judge("ends", title, False, f"{'the scheduler dies: ' if e.kind == 'died' else 'the run never ends: '}{e!r}", s, e.loc)
        return 1
    if k == CUT:
        if v != "waits for a suspended thread":
            ctx.und("ends", title, v)
        return 0
    if after_join(s):
        return 0
    ctx.judge("ends", title, k == V, f"the run ends with {v!r}", s)
    if k != V:
        return 1
    sub = sorted(e.args[0].v for e in s.events() if e.kind == "submit")
    ctx.judge("once", title, sub == sorted(n.v for n in names), f"submitted {sub}", s)
    recs = records(s)
    if recs is None:
        ctx.und("report", title, "case report not readable")
        return 1
    got = [r[0] for r in recs]
    ctx.judge("report", title, sorted(map(repr, got)) == sorted(map(repr, names)), f"reported {got}", s)
    done = {e.args[0]: e.args[1].v for e in s.events() if e.kind == "case"}
    dmg = {e.args[1]: e.args[3].v for e in s.events() if e.kind == "worker" and e.args[0] == Const("end")}
    how = {e.args[1]: e.args[2].v for e in s.events() if e.kind == "worker" and e.args[0] == Const("end")}
    for n, verdict, dur in recs:
        d = dmg.get(n, "gone")
        if d != "none" or how.get(n) == X:
            want = "FAIL"
        elif n in done:
            want = expect(done[n], snaps[n])
        else:
            want = "FAIL"
        ctx.judge("verdict", f"{title}: {done.get(n)}, report {d}", verdict == Const(want), f"{n.v} is reported as {verdict!r}, its worker's report says {want}", s)
    return 1


def scenario(ctx, n, forms, damage=("none",), stale=None, worker="run", recs=(), snaps=True, graph=None, setup=None, **kw):
    opts = kw.pop("opts", {})
    names = [pname(i) for i in range(n)]
    sm = {x: snaps for x in names}
    pol = ParPol(sm, worker=worker, damage=damage, **kw)
    watch(pol)
    it = ctx.interp(pol)
    st = it.start()
    if snaps:
        put_snaps(st, names)
    if stale:
        for x in names:
            put_file(st, batch_report(x), record(x, stale))
    if recs:
        put_report(st, [(names[i], v) for i, v in recs])
    st, cases = dependent(it, st, names, graph or {}, kinds_of(forms))
    bs = None
    if setup:
        st, bs = setup(it, st)
    title = f"{n} cases, {'worker leaves nothing' if worker == 'none' else 'report ' + '/'.join(damage)}, leftover {stale}{', ' + str(graph) if graph else ''}" \
            f"{', ' + setup.title if setup else ''}{', recorded ' + str(recs) if recs else ''} {kw or ''}"
    todo = names
    if opts.get("continue_"):
        todo = [x for i, x in enumerate(names) if (i, "OK") not in recs]
    m = 0
    for k, s, v in run_parallel(it, st, cases, names, cfg_of(st, parallel=Const(2), **opts), bs):
        if opts.get("continue_"):
            sub = sorted(e.args[0].v for e in s.events() if e.kind == "submit")
            if k == V:
                ctx.judge("once", title, sub == sorted(n.v for n in todo), f"submitted {sub}", s)
                m += 1
            continue
        m += judge(ctx, it, title, names, None, k, s, v, sm)
    ctx.scen[title] = m
    ctx.need(m > 0 or ctx.broken(), f"no path of a parallel run to its end ({title})")


def failing(when, exc):
    """A user's process setup that raises, in the worker only."""
    def make(it, st):
        def h(it, st, f, a, kw, node):
            n = a[0].v if a and type(a[0]) is Const else None
            if n == when and st.ext.get("in_child") == TRUE:
                return [(X, st, ExcV(exc, (Sym("message", typ="str"),), "setup"))]
            return [(V, st, NONE)] if n == 0 else [(X, st, ExcV("StopIteration", (), "generator"))]
        return book_setup(it, st, it.user_fn(st, "setup", is_gen=True, handler=h))
    make.title = f"{'setup' if when == 0 else 'teardown'} raises {exc}"
    return make


def run(ctx):
    ctx.rule("ends", "the scheduler thread never dies and the run always ends")
    ctx.rule("once", "every case is submitted exactly once")
    ctx.rule("report", "every finished case is reported exactly once")
    ctx.rule("verdict", "the report is the worker's, and FAIL if the worker left none that can be read")
    ctx.min_decided = 200
    F = ["pass", "diff", "fail", "Exception", "SystemExit", "asyncio.CancelledError"]
    T = ctx.thorough
    for stale in (None, "OK", "DIFF"):
        scenario(ctx, 1, F[:3], DAMAGE, stale=stale)
        scenario(ctx, 1, ["pass"], ("none", "gone"), stale=stale, lazy=(True,))
        scenario(ctx, 2, ["pass", "fail"], ("none", "gone", "badverdict"), stale=stale, polls=1)
        scenario(ctx, 3, ["pass"], worker="none", stale=stale, polls=1)
    scenario(ctx, 1, F, lazy=(False, True))
    scenario(ctx, 1, F, snaps=False)
    scenario(ctx, 2, F, polls=0)
    scenario(ctx, 2, F[:4], polls=1)
    scenario(ctx, 2, ["pass", "Exception"], polls=1, recs=[(0, "OK"), (1, "FAIL")])
    scenario(ctx, 2, ["pass"], polls=1, recs=[(0, "OK"), (1, "FAIL")], opts={"continue_": TRUE})
    scenario(ctx, 3, ["pass"], worker="none", polls=1, graph={1: (0,), 2: (0,)})
    scenario(ctx, 3, ["pass"], worker="none", polls=1, graph={1: (0,), 2: (1,)})
    scenario(ctx, 3, ["value", "fail"], polls=0, graph={2: (0, 1)})
    for when in (0, 1):
        for exc in ("Exception", "SystemExit", "asyncio.CancelledError"):
            scenario(ctx, 1, ["pass", "fail"], setup=failing(when, exc))
            scenario(ctx, 2, ["pass"], setup=failing(when, exc), stale="OK")
    scenario(ctx, 1, ["pass"], worker="none", suspend="anywhere")
    scenario(ctx, 2, ["pass"], worker="none", suspend="anywhere")
    scenario(ctx, 2, ["pass", "fail"], suspend="anywhere", polls=0)
    scenario(ctx, 2, ["pass"], worker="none", suspend="anywhere", graph={1: (0,)})
    if T:
        scenario(ctx, 3, ["pass", "fail"], ("none", "gone", "badverdict"), polls=1)
        scenario(ctx, 4, ["pass"], worker="none", polls=1)
        scenario(ctx, 2, F, DAMAGE, polls=1)
