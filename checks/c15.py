"""C15: what the functions and HTTP entry points are when a decorated case has ended, over endings, faults and stacks of decorators."""
from .snap import *
from .c18 import DECOS, CALLS, U1, U2

FAULTS = ("builtins.open", "json.dump", "json.load", "os.makedirs", "os.listdir", "builtins.print", "copy.deepcopy", "hashlib.sha1")
MOCK = ("mock", {})


class FaultPol(SnapPol):
    """One outside operation fails while the decorated case runs, at any point."""
    faulty = False

    def may_raise(self, it, st, q, args, node):
        if not self.faulty or not isinstance(q, str) or st.mon.get("armed") != TRUE or "fault" in st.mon:
            return ()
        if q in FAULTS or q.rsplit(".", 1)[-1] in ("write", "flush", "close", "read"):
            return [ExcV("OSError", (Const(q),), "fault")]
        return ()


def guarded(it, st, f, is_async=True):
    """The decorated case f, called by a function that notes what everything is before and after."""
    def h(it, st, g, a, kw, node):
        before = entries(it, st)
        st.mon = dict(st.mon, armed=TRUE)
        r = []
        for k, s, v in it.bind(it.call(st, f, list(a), dict(kw)), lambda s, c: it.await_(s, c)):
            s.mon = dict(s.mon, armed=FALSE)
            if k in (V, X):
                after = entries(it, s)
                wrong = [n for n in before if after[n] != before[n]]
                it.event(s, "after", Const(", ".join(wrong)), TupleV([after[n] for n in wrong]),
                         Const(k == X and v.origin == "fault" or "fault" in s.mon), node=node)
            r.append((CUT, s, v) if "fault" in s.mon else (k, s, v))
        return r
    return it.user_fn(st, "guarded", is_async=True, handler=h)


def looker():
    """A case without decorators that notes what everything is."""
    def h(it, st, f, a, kw, node):
        e = entries(it, st)
        it.event(st, "look", TupleV([e[n] for n in sorted(e)]), node=node)
        return [(V, st, NONE)]
    return h


ENDS = (None, "fail", "diff", "UserError", "KeyboardInterrupt", "SystemExit", "asyncio.CancelledError", "GeneratorExit")
STACKS = [("functions",), ("mock",), ("requests",), ("httpx",), ("requests", "httpx"), ("httpx", "functions"), ("functions", "requests"), ("mock", "httpx"),
          ("env", "requests"), ("requests", "env"), ("env", "functions"), ("functions", "env"), ("httpx", "env")]


def deco_of(w):
    if type(w) is tuple:
        return w
    return MOCK if w == "mock" else DECOS[w][0]


def calls_of(stack):
    r = []
    for w in stack:
        w = w[0] if type(w) is tuple else w
        r += [Fn("f", 1), Fn("g", 2)] if w == "mock" else CALLS[w][:2] if w != "httpx" else CALLS["ahttpx"][:2]
    return r


def go(ctx, inst, stack, mode, end=None, stored=True, fault=False, stop=False, utf8=True, fails=(), resp=None, is_async=False, session=None, second=True):
    pol = FaultPol(utf8=utf8, fails=fails, resp=resp)
    pol.kinds = pol.kinds | {"after", "look"}
    pol.faulty = False
    N1 = Const("t/two")
    pol.snaps = {N0: True, N1: True}
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, [N0, N1])
    st = world(it, st)
    calls = calls_of(stack)
    if session:
        calls = [Req("requests", U1, session=session), Req("requests", U2, session=session)]
    orig = entries(it, st)
    f = it.user_fn(st, "case", is_async=is_async, handler=body(calls, end=lambda r: end if r == int(stored) else None, stop=stop))
    for w in reversed(stack):
        what, kw = deco_of(w)
        st, f = deco(it, st, what, f, **kw)
    g = guarded(it, st, f)
    look = it.user_fn(st, "look", handler=looker())
    decorated = entries(it, st)
    ctx.judge("outside", inst, decorated == orig, "decorating a case replaces something", st)
    for x in ("VAR_A", "VAR_B", "VAR_C", "VAR_D"):
        st.env = dict(st.env)
        st.env[Const(x)] = env_at(x, 0)
    outs = [(V, st, NONE)]
    if stored:
        outs = it.bind(outs, lambda s, v: run_once(it, s, f, "complete"))

    def last(s, v):
        s.ext["run"] = int(stored)
        pol.faulty = fault
        return run_once(it, s, g, mode, case2=(N1, look) if second else None)
    outs = it.bind(outs, last)
    n = 0
    for k, s, v in outs:
        n += 1
        wh = Where(it, s, Req(stack[0]) if stack[0] in ("requests", "httpx") else Fn("f"), None)
        done = [e for e in s.events() if e.kind == "after"]
        for e in done:
            ctx.judge("back", inst + (", fault" if e.args[2] == TRUE else ""), e.args[0] == Const(""),
                      f"after the case {e.args[0].v} is {e.args[1]}", s, wh)
        if k == CUT:
            continue            # a fault: the rest of the run is of no interest
        now = entries(it, s)
        wrong = [n for n in orig if now[n] != orig[n]]
        ctx.judge("back", inst + ", after the run", not wrong, f"after the run {wrong} are {[now[n] for n in wrong]}", s, wh)
        for e in s.events():
            if e.kind == "look":
                ctx.judge("outside", inst, e.args[0] == TupleV([orig[n] for n in sorted(orig)]), f"in a case without decorators things are {e.args[0]}", s, wh)
        for ses, own in s.ext.get("sessions", ()):
            got = s.heap[ses.oid].attrs.get("get_adapter")
            good = got is None and own is None or got == own and type(got) is type(own) or own is None and not (type(got) is FuncV and not got.fn.user)
            ctx.judge("session", inst, good, f"the session's get_adapter is {got} instead of {own}", s, wh)
    ctx.scen[inst] = n


def own_adapter(it, st):
    return HookV("own_get_adapter", lambda it, s, a, kw, node: [(V, s, s.alloc(ExtO("requests.adapters.HTTPAdapter")))])


def run(ctx):
    ctx.rule("back", "on every path out of a decorated case - return, exception, cancellation, and a failure of any one outside operation of "
                     "starting, storing or reporting - every function, method and HTTP entry point has the value it had before")
    ctx.rule("outside", "nothing is replaced by applying a decorator, nor during a case that is not decorated")
    ctx.rule("session", "a session's own get_adapter is again what it was before the request")
    ctx.min_decided = 100
    for stack in STACKS:
        nm_ = "/".join(stack)
        for end in ENDS:
            if end and len(stack) > 1 and end in ("fail", "diff", "GeneratorExit"):
                continue
            go(ctx, f"{nm_}: {end or 'normal'}", stack, "replay", end, is_async=end in ("UserError", "asyncio.CancelledError"))
        for mode in ("complete", "refresh"):
            go(ctx, f"{nm_}: {mode}, nothing stored", stack, mode, stored=False)
            go(ctx, f"{nm_}: {mode}, raises", stack, mode, "UserError", stored=False)
            if "mock" not in stack:
                go(ctx, f"{nm_}: {mode}, real call raises", stack, mode, stored=False, stop=True, fails=(0, 1))
        go(ctx, f"{nm_}: replay, nothing stored", stack, "replay", stored=False, stop=True)
        for mode, stored in (("replay", True), ("complete", False)):
            go(ctx, f"{nm_}: {mode}, one operation fails", stack, mode, stored=stored, fault=True, second=False)
            if ctx.thorough:
                go(ctx, f"{nm_}: {mode}, raises and one operation fails", stack, mode, "UserError", stored=stored, fault=True, second=False)
    for w in ("requests", "httpx", "functions"):
        go(ctx, f"{w}: what was captured cannot be stored", (w,), "complete", stored=False, utf8=None,
           resp={"value": Sym("not json", typ="object"), "content": Const(b"\xff\xfe")})
    for w in ("functions", "mock"):
        for mode, stored in (("replay", True), ("complete", False)):
            go(ctx, f"{w}, {mode}: something that cannot be replaced", ((w, {"extra": (Const(5),)}),), mode, stored=stored)
    go(ctx, "requests: session with an adapter of its own", ("requests",), "complete", stored=False, session=own_adapter)
    go(ctx, "requests: session with an adapter of its own, replay", ("requests",), "replay", session=own_adapter)
    go(ctx, "requests: session with an adapter of its own, missing", ("requests",), "replay", stored=False, session=own_adapter)
