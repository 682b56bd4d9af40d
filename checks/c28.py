"""C28: what a case's body is called with, on every path, over all orders of dependencies and resources, books with several instances, and decorators."""
from itertools import permutations
from sa.usermod import load
from .deps import *


def seen(log):
    """A body that records what it is called with."""
    def h(it, st, f, a, kw, node):
        it.event(st, "case", log, TupleV(tuple(a[1:])), node=node)
        return [(V, st, Sym(f"value of {log!r}", typ="object"))]
    return h


def value(n):
    return Sym(f"value of {n!r}", typ="object")


def stored(n):
    return Sym(f"stored of {n!r}", typ="object")


def outcome(ctx, title, it, k, s, v, name, want, verdicts=None):
    """The body of `name` was called once with the values `want` (None: not at all, and the case failed)."""
    if k != V:
        if k == CUT:
            ctx.und("arguments", title, v)
        else:
            ctx.judge("arguments", title, False, f"the run ends with {v!r}", s)
        return
    calls = [e for e in s.events() if e.kind == "case" and e.args[0] == name]
    recs = records(s)
    if want is None:
        ctx.judge("missing", title, not calls, f"the body of {name!r} runs with {[e.args[1] for e in calls]} although a dependency has no result", s)
        if recs is None:
            ctx.und("missing", title, "report not readable")
        else:
            got = [r[1] for r in recs if r[0] == name]
            ctx.judge("missing", title, got == [Const("FAIL")], f"{name!r} is recorded as {got}, a dependency's result is missing", s)
        return
    if len(calls) != 1:
        ctx.judge("arguments", title, False, f"the body of {name!r} runs {len(calls)} times", s)
        return
    got = calls[0].args[1].items
    if len(got) != len(want):
        ctx.judge("arguments", title, False, f"{name!r} is called with {len(got)} extra arguments {got}, declared are {want}", s)
        return
    for g, w in zip(got, want):
        b = g == w or same(it, s, g, w)
        if b is None and (type(g) is Const or type(g) is Sym and g.name.startswith(("value of ", "stored of ", "resource "))):
            b = False                   # another generic value of this scenario
        ctx.judge("arguments", title, b is True if b is not None else None, f"{name!r} is called with {got}, expected {tuple(want)}", s)


def functions_case(ctx, decl, where, mode="serial", is_async=False, outer=None, inner=None, tag=""):
    """The last case declares decl: 'a', 'b' (cases) and 'r', 's' (resources)."""
    par = mode == "parallel"
    names = [Const("t/a"), Const("t/b"), Const("t/c")]
    pol = ParPol({n: True for n in names}, polls=0) if par else SuitePol({n: True for n in names})
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, names)
    fa = it.user_fn(st, "case", is_async=is_async, handler=seen(names[0]))
    fb = it.user_fn(st, "case", is_async=is_async, handler=seen(names[1]))
    fc = it.user_fn(st, "case", is_async=is_async, handler=seen(names[2]))
    if inner:
        st, fc = inner(it, st, 0, fc)
    if outer == "all":
        st, fa = env_deco("mock_env")(it, st, 0, fa)
    st, r = one(it.call(st, it.glob(st, "booktest", "Resource"), [Sym("resource r", typ="object"), Const("r")], {}))
    st, p = one(it.call(st, it.glob(st, "booktest", "port"), [Const(80)], {}))
    ob = {"a": fa, "b": fb, "r": r, "s": p}
    if decl:
        st, d = one(it.call(st, it.glob(st, "booktest", "depends_on"), [ob[x] for x in decl], {}))
        st, fc = one(it.call(st, d, [fc], {}))
    if outer:
        st, fc = env_deco("mock_env")(it, st, 0, fc)
    have = {"run": {"a": value(names[0]), "b": value(names[1])}, "stored": {"a": stored(names[0]), "b": stored(names[1])},
            "one": {"a": stored(names[0])}, "none": {}}[where]
    if where != "run":
        for x, v in have.items():
            put_result(st, names["ab".index(x)], v)
    sel = names if where == "run" else names[2:]
    cases = [(names[0], fa), (names[1], fb), (names[2], fc)]
    missing = any(x in "ab" and x not in have for x in decl)
    want = None if missing else [have[x] if x in "ab" else Sym("resource r", typ="object") if x == "r" else Const(80) for x in decl]
    title = f"declares {''.join(decl) or 'nothing'}, results {where}, {mode}{', async' if is_async else ''}{tag}"
    outs = (run_parallel if par else run_serial)(it, st, cases, sel, cfg_of(st, parallel=Const(2)))
    for k, s, v in outs:
        if k == CUT and v == "polling":
            continue
        outcome(ctx, title, it, k, s, v, names[2], want)
    ctx.scen[title] = len(outs)


BOOK = '''
import booktest as bt

class FooBook(bt.TestBook):
    def __init__(self, path):
        super().__init__(full_path=path)

    %(da)s
    def test_a(self, t):
        return body("a", self, t)

    %(over)s
    @bt.depends_on(%(decl)s)
    %(under)s
    %(async)sdef test_b(self, t, *args):
        return body("b", self, t, *args)

class SubBook(FooBook):
    def test_a(self, t):
        return body("a", self, t)

    @bt.depends_on(test_a)
    def test_b(self, t, *args):
        return body("b", self, t, *args)

class UserBook(FooBook):
    @bt.depends_on(FooBook.test_a)
    def test_c(self, t, *args):
        return body("c", self, t, *args)

class OtherBook(bt.TestBook):
    def __init__(self, path):
        super().__init__(full_path=path)

    @bt.depends_on(FooBook.test_a)
    def test_o(self, t, *args):
        return body("o", self, t, *args)

def test_f(t):
    return body("f", None, t)

@bt.depends_on(test_f, FooBook.test_a)
def test_g(t, *args):
    return body("g", None, t, *args)
'''
NTH = [0]


def book(ctx, title, objs, select, decl="test_a", under="", over="", da="", expects=(), have=(), is_async=False, order=None, deco=None, mode="serial", prep=None, pol_cls=None, **opts):
    """objs: [(class, path)] ; expects: [(case, extra values or None)]"""
    par = mode == "parallel"

    def body(it, st, a, kw, node):
        slf = a[1]
        if slf == NONE:
            n = Const("f/" + a[0].v)
        else:
            k, s, p = it.getattr(st, slf, "__where__", node)[0]
            n = Const(p.v + "/" + a[0].v)
        it.event(st, "case", n, TupleV(tuple(a[3:])), node=node)
        return [(V, st, value(n))]
    names = [Const(x) for x in select]
    pol = ParPol({n: True for n in names}, polls=0) if par else (pol_cls or SuitePol)({n: True for n in names})
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, names)
    st, extra = prep(it, st) if prep else (st, {})
    for n in have:
        put_result(st, Const(n), stored(Const(n)))
    NTH[0] += 1
    mod = f"book{NTH[0]}_test"
    src = BOOK % {"decl": decl, "under": under, "over": over, "da": da, "async": "async " if is_async else ""}
    if deco:
        src, deco = src + f"\nDECO = {deco}\n", "DECO"
    st, m = one(load(it, st, mod, src, body=HookV("body", body), **extra))
    parts = []
    for c, p in objs:
        st, o = one(it.call(st, it.glob(st, mod, c), [Const(p)], {}))
        st.mut(o).attrs["__where__"] = Const(p)
        parts.append(o)
    l = mklist(st, [mklist(st, [Const("f/f"), it.glob(st, mod, "test_f")]), mklist(st, [Const("f/g"), it.glob(st, mod, "test_g")])])
    st, ft = one(it.call(st, it.glob(st, "booktest", "Tests"), [l], {}))
    parts.append(ft)
    if order:
        parts = [parts[i] for i in order]
    st, t = one(it.call(st, it.glob(st, "booktest", "merge_tests"), [mklist(st, parts)], {}))
    if deco:
        dd = it.glob(st, mod, deco)
        st, t = one(it.call(st, it.glob(st, "booktest.testsuite", "decorate_tests"), [dd, t], {}))
    if par:
        f = it.glob(st, "booktest.runs", "parallel_run_tests")
        st, setup = one(it.call(st, it.glob(st, "booktest.detection", "BookTestSetup"), [], {}))
        outs = it.call(st, f, [EXP, OUT, t, mklist(st, names), cfg_of(st, parallel=Const(2), **opts), setup], {})
    else:
        st, run = test_run(it, st, t, names, cfg_of(st, **opts))
        outs = it.bind(call_t(it, st, run, "run_async"), lambda s, v: it.await_(s, v))
    title = f"{title}, {mode}"
    for k, s, v in outs:
        if k == CUT and v == "polling":
            continue
        for n, w in expects:
            outcome(ctx, title, it, k, s, v, Const(n), None if w is None else [x if isinstance(x, Val) else value(Const(x)) for x in w])
    ctx.scen[title] = len(outs)


def run(ctx):
    ctx.rule("arguments", "the body gets exactly one extra argument per declared dependency or resource, in order, each its result or value")
    ctx.rule("missing", "a case whose dependency has no result is not run and is recorded as FAIL")
    ctx.min_decided = 100
    for n in (0, 1, 2, 3, 4):
        for decl in permutations("abrs", n):
            if n >= 3 and not ctx.thorough and decl[0] > decl[-1] and decl[0] != "r":
                continue
            functions_case(ctx, decl, "run")
            if n and any(x in "ab" for x in decl) and n <= 3:
                functions_case(ctx, decl, "stored")
                functions_case(ctx, decl, "one")
                functions_case(ctx, decl, "none")
    for decl in (("a",), ("r", "a"), ("a", "r", "b"), ("s", "b", "a", "r")):
        for a in (False, True):
            functions_case(ctx, decl, "run", "parallel", a)
            functions_case(ctx, decl, "stored", "parallel", a)
            functions_case(ctx, decl, "run", "serial", a)
        functions_case(ctx, decl, "run", outer="this", tag=", mock_env above")
        functions_case(ctx, decl, "run", outer="all", tag=", mock_env above all")
        for w in ("mock_env", "mock_missing_env"):
            functions_case(ctx, decl, "run", inner=env_deco(w), tag=f", {w} below")
    two = [("FooBook", "x"), ("FooBook", "y")]
    sel2 = ["x/a", "x/b", "y/a", "y/b"]
    exp2 = [("x/b", ["x/a"]), ("y/b", ["y/a"])]
    for mode in ("serial", "parallel"):
        book(ctx, "one book", two[:1], sel2[:2], expects=exp2[:1], mode=mode)
        book(ctx, "two instances", two, sel2, expects=exp2, mode=mode)
        book(ctx, "two instances, other order", two, ["y/a", "x/a", "x/b", "y/b"], expects=exp2, order=(1, 0, 2), mode=mode)
        book(ctx, "subclass", [("FooBook", "x"), ("SubBook", "y")], sel2, expects=exp2, mode=mode)
        book(ctx, "subclass first", [("SubBook", "x"), ("FooBook", "y")], sel2, expects=exp2, order=(1, 0, 2), mode=mode)
        book(ctx, "case of the base class", [("FooBook", "x"), ("UserBook", "y")], ["x/a", "y/c"], expects=[("y/c", ["x/a"])], mode=mode)
        book(ctx, "other book", two[:1] + [("OtherBook", "z")], ["x/a", "z/o"], expects=[("z/o", ["x/a"])], mode=mode)
        book(ctx, "function", two[:1], ["x/a", "f/f", "f/g"], expects=[("f/g", ["f/f", "x/a"])], mode=mode)
        book(ctx, "resource and method", two, sel2, decl="bt.Resource('value'), test_a, bt.port(80)",
             expects=[("x/b", [Const("value"), "x/a", Const(80)]), ("y/b", [Const("value"), "y/a", Const(80)])], mode=mode)
        book(ctx, "async", two, sel2, expects=exp2, is_async=True, mode=mode)
    for w in ("@bt.mock_env({'V': 'x'})", "@bt.mock_missing_env({'V': 'x'})"):
        book(ctx, f"below {w}", two, sel2, over=w, expects=exp2)
        book(ctx, f"above {w}", two, sel2, under=w, expects=exp2)
        book(ctx, f"dependency below {w}", two, sel2, da=w, expects=exp2)
        book(ctx, f"all below {w}", two, sel2, da=w, over=w, expects=exp2)
    book(ctx, "all cases decorated", two, sel2, deco="bt.mock_env({'V': 'x'})", expects=exp2)
    book(ctx, "stored", two, ["x/b", "y/b"], have=["x/a", "y/a"], expects=[("x/b", [stored(Const("x/a"))]), ("y/b", [stored(Const("y/a"))])])
    book(ctx, "missing", two[:1], ["x/b"], expects=[("x/b", None)])
    book(ctx, "missing for one", two, ["x/b", "y/b"], have=["y/a"], expects=[("x/b", None), ("y/b", [stored(Const("y/a"))])])
    book(ctx, "missing for the other", two, ["x/b", "y/b"], have=["x/a"], expects=[("y/b", None), ("x/b", [stored(Const("x/a"))])])
