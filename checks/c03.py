"""C03: assertions with unknown conditions; the verdict against the path's facts about the condition."""
from .outs import *

INF = float("inf")

C = Sym("condition")
OBJ, MEM, VAL, TYP = Sym("object"), Sym("member"), Sym("value"), Sym("type_", typ="obj")


def user_pred(it, st):
    """A user's condition function: returns an unknown."""
    def h(it2, s, f, a, kw, node):
        return [(V, s, Term("call", (Sym("cond"), a[0])))]
    return it.user_fn(st, "cond", handler=h)


def truth_of(v):
    return lambda it, s: [(s2, b) for k, s2, b in it.branch(s.fork(), v) if k == V]


def contains(it, s):
    return [(s2, b) for k, s2, b in it.contains(s.fork(), OBJ, MEM) if k == V]


def equal(it, s):
    return [(s2, b) for k, s2, b in it.eq(s.fork(), OBJ, VAL) if k == V]


def type_is(it, s):
    outs = it.call(s.fork(), ExtV("builtins.type"), [OBJ], {}, None)
    return [(s3, b) for k, s2, v in outs if k == V for k3, s3, b in it.eq(s2, v, TYP) if k3 == V]


def via_it(method, *args):
    """t.it("name", obj).<method>(...)"""
    def f(it, s, t):
        def step(s2, o):
            return it.bind(it.getattr(s2, o, method, None), lambda s3, m: it.call(s3, m, [a(it, s3) if callable(a) else a for a in args], {}))
        return it.bind(call_t(it, s, t, "it", Const("name"), OBJ), step)
    return f


def run(ctx):
    ctx.rule("assertion", "the case is FAIL exactly on the paths where the condition is false")
    ctx.rule("timed", "tmsln fails the case exactly on the paths where the measured time exceeds the maximum; imsln and results never do")
    ctx.rule("result", "tmsln and imsln call the function once and return its result")
    ctx.min_decided = 60
    msg = Sym("w:message", typ="str")
    calls = [
        ("assertln(c)", api("assertln", C), truth_of(C)),
        ("assertln(c, message)", api("assertln", C, msg), truth_of(C)),
        ("assertln(c, None)", api("assertln", C, NONE), truth_of(C)),
        ("assertln(empty list)", lambda it, s, t: call_t(it, s, t, "assertln", mklist(s, [])), lambda it, s: [(s, False)]),
        ("assertln(0)", api("assertln", Const(0)), lambda it, s: [(s, False)]),
        ("assertln(None)", api("assertln", NONE), lambda it, s: [(s, False)]),
        ("assertln('x')", api("assertln", Const("x")), lambda it, s: [(s, True)]),
        ("t.must_apply", lambda it, s, t: call_t(it, s, t, "must_apply", OBJ, Const("title"), user_pred(it, s)),
         truth_of(Term("call", (Sym("cond"), OBJ)))),
        ("t.must_apply with message", lambda it, s, t: call_t(it, s, t, "must_apply", OBJ, Const("title"), user_pred(it, s), msg),
         truth_of(Term("call", (Sym("cond"), OBJ)))),
        ("t.must_contain", api("must_contain", OBJ, MEM), contains),
        ("t.must_equal", api("must_equal", OBJ, VAL), equal),
        ("t.must_be_a", api("must_be_a", OBJ, TYP), type_is),
        ("it.must_apply", via_it("must_apply", Const("title"), user_pred), truth_of(Term("call", (Sym("cond"), OBJ)))),
        ("it.must_contain", via_it("must_contain", MEM), contains),
        ("it.must_equal", via_it("must_equal", VAL), equal),
        ("it.must_be_a", via_it("must_be_a", TYP), type_is),
    ]
    post = [("", None), ("; iln", lambda it, s, t: call_t(it, s, t, "iln", word("P"))), ("; assertln(True)", api("assertln", TRUE)),
            ("; diff", api("diff"))]
    pre = [("", None), ("i; ", lambda it, s, t: call_t(it, s, t, "i", word("Q"))), ("assertln(True); ", api("assertln", TRUE)),
           ("diff; ", api("diff"))]
    for name, call, truth in calls:
        for pname, pcall in pre:
            for qname, qcall in post:
                if pname and qname and not ctx.thorough:
                    continue
                ops = [Op("", c, None) for c in (pcall, call, qcall) if c is not None]
                for shape in (None, (1,)):
                    if shape and (pname or qname) and not ctx.thorough:
                        continue
                    title = pname + name + qname + (" [snapshot]" if shape else "")
                    it = ctx.interp(OutPol())
                    outs, _ = run_body(it, it.start(), body_of(ops), shape=shape)
                    for k, s, v in outs:
                        if k == CUT:
                            ctx.und("assertion", title, "cut")
                            continue
                        got = verdict_name(it, v) if k == V else None
                        for s2, b in truth(it, s):
                            ctx.judge("assertion", title, (got == "FAIL") == (not b) and got is not None,
                                      f"verdict {got or v!r} where the condition is {b}", s2, vague=got is None and k == V)
    # a chain of assertions on one object
    for name in ("two", "three"):
        conds = [Sym(f"c{i}") for i in range(2 if name == "two" else 3)]
        it = ctx.interp(OutPol())
        outs, _ = run_body(it, it.start(), body_of([Op("", api("assertln", c), None) for c in conds]))
        for k, s, v in outs:
            got = verdict_name(it, v) if k == V else None
            for s2, bs in splits(it, s, *conds):
                ctx.judge("assertion", f"{name} assertions in a row", (got == "FAIL") == (not all(bs)), f"verdict {got or v!r} where the conditions are {bs}", s2)
    # timed calls
    for name, limit in (("tmsln", Sym("max_ms", typ="float")), ("imsln", None)):
        pol = OutPol()
        pol.kinds = {"measured", "time"}
        pol.merge = False
        it = ctx.interp(pol)

        def measured(it2, s, f, a, kw, node):
            it2.event(s, "measured", node=node)
            return [(V, s, Sym("measured_result"))]

        def body(it2, s, f, a, kw, node, name=name, limit=limit):
            fn = it2.user_fn(s, "measured", handler=measured)
            r = []
            before = s.ext.get("now")
            for k, s2, v in call_t(it2, s, a[0], name, fn, *([limit] if limit is not None else [])):
                calls = len(ev_kinds(s2, "measured"))
                ctx.judge("result", name, k != V or (calls == 1 and v == Sym("measured_result")), f"returns {v!r} after {calls} calls", s2)
                r.append((k, s2, v))
            return r
        st = it.start()
        outs, _ = run_body(it, st, body)
        for k, s, v in outs:
            if k == CUT:
                continue
            got = verdict_name(it, v) if k == V else None
            if any(isinstance(f, Iv) and (f.lo > 1e15 and f.lo != INF or f.hi < -1e15 and f.hi != -INF) for f in s.facts.values()):
                continue        # more than thirty thousand years
            if limit is None:
                ctx.judge("timed", name, got in ("OK", "DIFF"), f"verdict {got or v!r}", s)
                continue
            over = exceeds(s, limit)
            ctx.judge("timed", name, over is not None and got is not None and (got == "FAIL") == over,
                      f"verdict {got or v!r} where time > max is {'not decided' if over is None else over}", s)


def exceeds(s, limit):
    """What the path knows about  elapsed*1000 - limit > 0: True, False or None."""
    for p, f in s.facts.items():
        if p.op != "num" or not isinstance(f, Iv) or type(p.args[0]) is not Term or p.args[0].op != "lin":
            continue
        terms = {t.items[0]: t.items[1].v for t in p.args[0].args[1:]}
        times = sorted((x for x in terms if type(x) is Sym and x.name == "t"), key=lambda x: x.uid)
        if limit not in terms or len(times) != 2 or len(terms) != 3 or p.args[0].args[0].v != 0:
            continue
        a, b = terms[limit], terms[times[1]]
        if terms[times[0]] != -b or b != -1000 * a:
            continue
        if a > 0:
            f = f.neg()
        # f: range of (elapsed*1000 - limit) times a positive factor
        if f.lo > 0 or f.lo == 0 and f.lop:
            return True
        if f.hi <= 0:
            return False
    return None
