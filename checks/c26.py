"""C26: on every interleaving of the scheduler's polls, the executions [submit, ready) of cases with an equal resource; equality of resources."""
from .par import *


class Sched(ParPol):
    kinds = ParPol.kinds | {"stuck"}

    def __init__(self, **kw):
        ParPol.__init__(self, {}, worker="none", **kw)
        self.ext["time.sleep"] = self.sleep2

    def sleep2(self, it, st, a, kw, node):
        if st.ext.get("thread") == Const("running"):
            out = [e for e in st.events() if e.kind in ("submit", "ready")]
            if sum(1 if e.kind == "submit" else -1 for e in out) == 0:
                it.event(st, "stuck", node=node)
                return [(CUT, st, "stuck")]
        return ParPol.sleep(self, it, st, a, kw, node)


def resource(it, st, spec):
    """('port', 80) | ('res', value) | ('res', value, identifier)"""
    f = it.glob(st, "booktest", "port" if spec[0] == "port" else "Resource")
    return one(it.call(st, f, [Const(x) if not isinstance(x, Val) else x for x in spec[1:]], {}))


def ident(spec):
    return ("port", spec[1]) if spec[0] == "port" else ("res", spec[-1])


def build(it, st, specs, deps=(), wrap=None):
    """Cases with the given resources (and dependencies on earlier cases by index)."""
    fns, cases = [], []
    base = kinds_of(["pass"])
    for i, rs in enumerate(specs):
        n = pname(i)
        f = it.user_fn(st, "case", handler=base(n))
        args = []
        for x in rs:
            st, r = resource(it, st, x)
            args.append(r)
        args += [fns[j] for a, j in deps if a == i]
        if args:
            st, d = one(it.call(st, it.glob(st, "booktest", "depends_on"), args, {}))
            st, f = one(it.call(st, d, [f], {}))
        if wrap:
            st, f = wrap(it, st, i, f)
        fns.append(f)
        cases.append((n, f))
    return st, cases


def overlaps(st, specs):
    """[(a, b, event)]: submissions while a case with an equal resource is in execution."""
    ids = [{ident(x) for x in rs} for rs in specs]
    running, r = [], []
    for e in st.events():
        if e.kind in ("submit", "ready"):
            i = "abcdef".index(e.args[0].v)
            if e.kind == "submit":
                for j in running:
                    if ids[i] & ids[j]:
                        r.append((j, i, e))
                running.append(i)
            elif i in running:
                running.remove(i)
    return r


def check(ctx, title, specs, deps=(), polls=1, order=None, wrap=None, **opts):
    pol = Sched(polls=polls)
    pol.max_steps = 3000000
    it = ctx.interp(pol)
    st = it.start()
    st, cases = build(it, st, specs, deps, wrap)
    names = [n for n, f in cases]
    sel = [names[i] for i in order] if order else names
    n = m = 0
    for k, s, v in run_parallel(it, st, cases, sel, cfg_of(st, parallel=Const(4), **opts)):
        n += 1
        died = [e for e in s.events() if e.kind in ("died", "hang", "stuck")]
        if died:
            ctx.judge("release", title, False, f"the run does not go on: {died[0]!r}", s)
        bad = overlaps(s, specs)
        for i, j, e in bad[:1]:
            ctx.judge("exclusive", title, False, f"case {'abcdef'[j]} is started while {'abcdef'[i]}, which shares a resource, is in execution", s, e.loc)
        if k != V:
            if not bad and not died:
                ctx.und("release", title, f"{k} {v}")
            continue
        m += 1
        if not bad:
            ctx.judge("exclusive", title, True, "", s)
        sub = [e.args[0].v for e in s.events() if e.kind == "submit"]
        ctx.judge("release", title, sorted(sub) == sorted(x.v for x in names), f"submitted: {sub}", s)
    ctx.scen[title] = n
    ctx.need(m > 0 or ctx.broken(), f"no path of a parallel run to its end ({title})")


def equality(ctx):
    it = ctx.interp(SuitePol())
    st = it.start()
    vals = [("port", 80), ("port", 81), ("res", 80), ("res", 81), ("res", "80"), ("res", "gpu", "x"), ("res", "ram", "x"), ("res", "gpu"), ("res", "gpu", "y"),
            ("res", "x")]
    objs = []
    for x in vals:
        st, o = resource(it, st, x)
        objs.append(o)
    hashf = it.glob(st, "builtins", "hash") if False else ExtV("builtins.hash")
    for x, a in zip(vals, objs):
        for y, b in zip(vals, objs):
            want = ident(x) == ident(y)
            for k, s, e in it.eq(st.fork(), a, b):
                ctx.judge("equality", f"{x} == {y}", k == V and e == want, f"is {e!r}", s)
            if want:
                for k, s, h1 in it.call(st.fork(), hashf, [a], {}):
                    for k2, s2, h2 in it.call(s, hashf, [b], {}) if k == V else [(k, s, h1)]:
                        ctx.judge("equality", f"hash {x} {y}", k2 == V and same(it, s2, h1, h2) is True, f"hashes {h1!r}, {h2!r}", s2)


def run(ctx):
    ctx.rule("exclusive", "between the submission of a case and the observation of its completion no case with an equal resource is submitted")
    ctx.rule("release", "every case is submitted eventually: a resource is given back when its holder's completion was observed")
    ctx.rule("equality", "two resources are equal exactly when their identifiers are; equal ones have equal hashes; a port is no other resource")
    ctx.min_decided = 100
    R, S, T = ("res", "r"), ("res", "s"), ("port", 80)
    T2 = ("port", 80)
    R2 = ("res", "other value", "r")
    pats = [("same", [[R], [R], [R]]), ("bridge", [[R], [R, S], [S]]), ("one free", [[R], [], [R]]), ("ports", [[T], [T2], [("port", 81)]]),
            ("value against identifier", [[R], [R2], [S]]), ("two each", [[R, S], [S, R], [R]]), ("number and port", [[T], [("res", 80)], [T2]])]
    if ctx.thorough:
        pats += [("four", [[R], [R], [S], [R, S]]), ("four ports", [[T], [T], [R], [R, T]]), ("square", [[R, S], [S, T], [T, R], [R]])]
    for name, p in pats:
        check(ctx, name, p)
        check(ctx, name + " reversed", p, order=list(range(len(p)))[::-1])
        check(ctx, name + " fail fast", p[:2], fail_fast=TRUE)
    check(ctx, "with a dependency", [[R], [S], [R]], deps=[(1, 0)])
    check(ctx, "dependent shares", [[R], [R], [R]], deps=[(2, 0)])
    check(ctx, "two polls", [[R], [R], []], polls=2)
    deco = lambda name: (lambda it, st, i, f: one(it.bind(it.call(st, it.glob(st, "booktest", name), [mkdict(st, {"V": Const("x")})], {}), lambda s, d: it.call(s, d, [f], {}))))
    check(ctx, "below mock_env", [[R], [R], []], wrap=deco("mock_env"))
    equality(ctx)
