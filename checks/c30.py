"""C30: stackings of all decorators over sync and async cases: calls, arguments, results and exceptions of the case, the scope it runs in,
and the dependencies, resources and identity seen by the runner through every decorator."""
from . import c25, c26, c28
from .c16 import generator
from .snap import *

LINES = {
    "mock_env": "bt.mock_env({'ME': 'mocked'})",
    "mock_missing_env": "bt.mock_missing_env({'MM': 'missing'})",
    "snapshot_env": "bt.snapshot_env('SE')",
    "mock_functions": "bt.mock_functions({fm.f: other})",
    "snapshot_functions": "bt.snapshot_functions(fm.g)",
    "snapshot_requests": "bt.snapshot_requests()",
    "snapshot_httpx": "bt.snapshot_httpx()",
    "setup_teardown": "bt.setup_teardown(gen)",
    "combine_decorators": "bt.combine_decorators(bt.mock_env({'C1': 'one'}), bt.setup_teardown(gen2))",
    "resource": "bt.depends_on(bt.Resource(the_value, 'r'), bt.port(80))",
}
NTH = [0]


class Pol(SnapPol):
    kinds = SnapPol.kinds | {"setup", "teardown"}
    max_depth = 150
    max_rec = 24


class ExecPol(CmdPol):
    """No snapshots are stored."""
    max_depth = 150
    max_rec = 24

    def decide(self, it, st, p):
        if p.op == "exists0":
            last = word_parts(p.args[0])[-1:]
            if last and type(last[0]) is Const and str(last[0].v).endswith((".requests", ".httpx", ".functions", ".json")):
                return False
        return CmdPol.decide(self, it, st, p)


def prep(it, st):
    st = world(it, st)
    st.env[Const("MM")] = NONE
    return st, {"fm": ModV("fm"), "gen": generator(it, st, "gen"), "gen2": generator(it, st, "gen2"), "the_value": Sym("the value", typ="object"),
                "other": HookV("other", lambda it, s, a, k, n: [(V, s, Sym("mock result", typ="object"))])}


def env_is(name, value):
    def f(it, st, orig):
        return [v for s, v in env_find(it, st.fork(), Const(name))] == [Const(value)]
    return f


def replaced(*names):
    def f(it, st, orig):
        now = entries(it, st.fork())
        return all(now[n] != orig[n] for n in names)
    return f


def began(tag):
    def f(it, st, orig):
        ks = [e.kind for e in st.events() if e.kind in ("setup", "teardown") and e.args[0] == Const(tag)]
        return ks == ["setup"]
    return f


# what holds inside the scope of each
SCOPE = {
    "mock_env": env_is("ME", "mocked"), "mock_missing_env": env_is("MM", "missing"),
    "mock_functions": replaced("f"), "snapshot_functions": replaced("g"),
    "snapshot_requests": replaced("requests"), "snapshot_httpx": replaced("httpx", "ahttpx"),
    "setup_teardown": began("gen"), "combine_decorators": lambda it, st, o: env_is("C1", "one")(it, st, o) and began("gen2")(it, st, o),
}


def direct(ctx, stack, is_async, extra=True):
    """Call the decorated case itself."""
    pol = Pol()
    pol.stubs = quiet_output(event=False)
    it = ctx.interp(pol)
    st = it.start()
    st, g = prep(it, st)
    orig = entries(it, st.fork())
    capture = "snapshot_env" in stack       # nothing is stored; mock_missing_env is off when snapshots are captured
    title = f"{' over '.join(stack) or 'nothing'}{', async' if is_async else ''}"

    def body(it, st, a, kw, node):
        it.event(st, "case", TupleV(tuple(a)), TupleV(tuple(TupleV((Const(k), v)) for k, v in sorted(kw.items()))), node=node)
        for d in stack:
            if d in SCOPE and not (d == "mock_missing_env" and capture):
                ctx.judge("inside", title, SCOPE[d](it, st, orig), f"the case runs outside the scope of {d}", st)
        outs = []
        for e in (None, 0, "UserError", "KeyboardInterrupt", "SystemExit"):
            s = st.fork()
            outs.append((V, s, Sym("the result", typ="object") if e is None else Const(0)) if not e else (X, s, ExcV(e, (Const("why"),), "case")))
        return outs
    NTH[0] += 1
    mod = f"deco{NTH[0]}_test"
    src = "import booktest as bt\n" + "".join(f"@{LINES[d]}\n" for d in stack) + \
        f"{'async ' if is_async else ''}def test_c(t, *args, **kw):\n    return body(t, *args, **kw)\n"
    st, m = one(load(it, st, mod, src, body=HookV("body", body), **g))
    fn = it.glob(st, mod, "test_c")
    want = (Sym("the value", typ="object"), Const(80)) if "resource" in stack else ()
    pos = [Const("more")] if extra and "resource" not in stack else []
    kws = {"key": Const("kv")} if extra else {}
    n = 0
    for s, t in case_run(it, st, config(st, complete_snapshots=Const(capture))):
        for k, s2, v in run_case(it, s, fn, [t] + pos, kws):
            if k == CUT:
                ctx.und("once", title, v)
                continue
            n += 1
            calls = ev_kinds(s2, "case")
            ctx.judge("once", title, len(calls) == 1, f"the case is called {len(calls)} times (ends with {v!r})", s2)
            if len(calls) != 1:
                continue
            c = calls[0]
            ctx.judge("given", title, c.args[0] == TupleV((t,) + want + tuple(pos)), f"the case is called with {c.args[0]!r}, expected {(t,) + want + tuple(pos)}", s2, c.loc)
            ctx.judge("given", title, c.args[1] == TupleV(tuple(TupleV((Const(a), b)) for a, b in kws.items())), f"the case is called with the keywords {c.args[1]!r}", s2, c.loc)
            if k == V:
                ctx.judge("passes on", title, v in (Sym("the result", typ="object"), Const(0)) and s2.mon.get("gave") in (None, v), f"the result is {v!r}", s2, vague=is_vague(v))
            else:
                good = k == X and v.origin == "case" and v.args == (Const("why"),)
                ctx.judge("passes on", title, good, f"the call ends with {v!r}, not with the exception of the case", s2)
            out = [e for e in s2.events() if e.kind in ("setup", "teardown", "case")]
            for tag, d in (("gen", "setup_teardown"), ("gen2", "combine_decorators")):
                if d in stack:
                    b = [e.kind for e in out if e.kind == "case" or e.args[0] == Const(tag)]
                    ctx.judge("inside", title, b == ["setup", "case", "teardown"], f"the case and the setup of {d} run as {b}", s2)
    ctx.need(n >= 4, f"{title}: the case is not reached")
    ctx.scen[title] = n


class Found:
    """Context that files the results of another check's scenarios under rules of this one."""
    def __init__(self, ctx, rules, tag=""):
        self.ctx, self.rules, self.tag = ctx, rules, tag

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def judge(self, rule, inst, good, msg="", st=None, where=None, vague=False):
        return self.ctx.judge(self.rules.get(rule, rule), self.tag + str(inst), good, msg, st, where, vague=vague)

    def und(self, rule, inst, msg=""):
        return self.ctx.und(self.rules.get(rule, rule), self.tag + str(inst), msg)


def wrap_with(name):
    def w(it, st, i, f):
        NTH[0] += 1
        mod = f"wrap{NTH[0]}"
        st, g = prep(it, st)
        st, m = one(load(it, st, mod, f"import booktest as bt\nD = {LINES[name]}\n", **g))
        return one(it.call(st, it.glob(st, mod, "D"), [f], {}))
    return w


def run(ctx):
    ctx.rule("once", "on every path the body of the decorated case is called exactly once")
    ctx.rule("given", "the body is called with the arguments and keywords the decorated case was called with (and the values it declares)")
    ctx.rule("passes on", "the decorated case returns the body's result and raises the body's exception, unchanged")
    ctx.rule("inside", "when the body runs, also that of an async case, every decorator of the stack is in effect")
    ctx.rule("found", "dependencies, dependents and bound methods declared below or above a decorator are found by the runner through it")
    ctx.rule("exclusive", "resources declared below a decorator keep cases apart in the parallel scheduler")
    ctx.min_decided = 300
    names = list(LINES)
    direct(ctx, (), False)
    for d in names:
        for a in (False, True):
            direct(ctx, (d,), a)
            direct(ctx, (d,), a, False)
    for d in names:
        for e in names:
            if d == e == "resource" or d == e and d in ("setup_teardown", "combine_decorators"):
                continue
            for a in (False, True):
                if ctx.thorough or a == (hash_of(d, e) % 2 == 0) or "resource" in (d, e):
                    direct(ctx, (d, e), a)
    direct(ctx, tuple(names), True)
    direct(ctx, tuple(names[::-1]), True)
    direct(ctx, tuple(names), False)
    two = [("FooBook", "x"), ("FooBook", "y")]
    sel2 = ["x/a", "x/b", "y/a", "y/b"]
    exp2 = [("x/b", ["x/a"]), ("y/b", ["y/a"])]
    f = Found(ctx, {"arguments": "found", "missing": "found", "release": "exclusive"})
    kw = dict(prep=prep, pol_cls=Pol, complete_snapshots=TRUE)
    for i, d in enumerate(names):
        line = "@" + LINES[d]
        if d != "resource":
            c28.book(f, f"{d} above", two, sel2, over=line, expects=exp2, **kw)
            c28.book(f, f"{d} below", two, ["y/a", "x/a", "x/b", "y/b"], under=line, expects=exp2, is_async=True, order=(1, 0, 2), **kw)
            c28.book(f, f"{d} and another", two, sel2, over=line + "\n    @" + LINES[names[(i + 1) % (len(names) - 1)]], da=line, expects=exp2, **kw)
            c28.book(f, f"{d} over all", two, sel2, deco=LINES[d], expects=exp2, **kw)
        if d != "resource":
            c28.book(f, f"{d} above the needed", two[:1], ["x/a", "x/b", "f/f", "f/g"], da=line, expects=[("x/b", ["x/a"]), ("f/g", ["f/f", "x/a"])], **kw)
        if d != "resource":
            c25.serial(Found(ctx, {"order": "found", "once": "found", "complete": "found"}, d + " above: "), "chain", [2, 0, 1], [2], opts=("-s",), pol=ExecPol({}), outer=wrap_with(d))
            c25.serial(Found(ctx, {"order": "found", "once": "found", "complete": "found"}, d + " below: "), "chain", [2, 0, 1], [2], opts=("-s",), pol=ExecPol({}), inner=wrap_with(d))
            c26.check(f, f"{d} above resources", [[("res", "r")], [("res", "r")]], wrap=wrap_with(d), polls=1)


def hash_of(a, b):
    return sum(map(ord, a + b))
