"""C29: which results are stored, over every way a case ends and every kind of value; what dependents are given, over every kind of cache; the size of an LRU cache over histories."""
from itertools import product
from sa.extmodels import fs_lookup
from .deps import *

VALUES = {"object": Sym("a value", typ="object"), "zero": Const(0), "empty": Const(""), "no": FALSE, "float": Const(0.0),
          "pair": TupleV((Const(1), Sym("b", typ="object"))), "unit": TupleV(()), "text": Const("x")}
OLD = Sym("older value", typ="object")


def cache_of(it, st, kind):
    """[(st, cache)] of "dict", "none" or an LRU size."""
    if kind == "dict":
        return st, mkdict(st)
    m = it.glob(st, "booktest.cache", "NoCache" if kind == "none" else "LruCache")
    return one(it.call(st, m, [] if kind == "none" else [Const(kind)], {}))


def ends(form, v):
    """A body that ends in this way with the value v."""
    def make(name):
        def h(it, st, f, a, kw, node):
            it.event(st, "case", name, Const(form), node=node)
            t = a[0]
            val = st.alloc(ListO([])) if v == "list" else v
            if form == "value":
                return [(V, st, val)]
            if form in ("fail", "diff"):
                return it.bind(call_t(it, st, t, form), lambda s, _: [(V, s, val)])
            if form == "difffail":
                o = it.bind(call_t(it, st, t, "diff"), lambda s, _: call_t(it, s, t, "fail"))
                return it.bind(o, lambda s, _: [(V, s, val)])
            return [(X, st, ExcV(form, (Sym("message", typ="str"),), "case"))]
        return h
    return make


def on_disk(it, st, name):
    """("absent",), ("value", v) or None when unknown."""
    e = fs_lookup(st, bin_of(name))
    if e[0] == "absent":
        return e
    if e[0] == "init":
        r = [b for s, b in it.test(st, Term("exists0", (e[1],)))]
        return ("absent",) if r == [False] else None
    if e[0] != "file":
        return None
    t = file_text(st, bin_of(name))
    if type(t) is Term and t.op == "pickled":
        return ("value", t.args[0])
    if type(t) is Const:
        return ("junk", t)
    return None


def alike(v, w):
    if w == "list":
        return "ListO" in repr(type(v)) or type(v) is Term and v.op in ("list", "frozen") and not any(v.args) or (type(v) is Term and v.args == ()) or None
    if v == w and type(v) is type(w):
        return type(v) is not Const or type(v.v) is type(w.v)
    if type(v) in (Const, TupleV) or type(v) is Sym and not v.vague:
        return False
    return None


class DumpPol(SuitePol):
    """Storing raises, before or after something is written."""
    exc = None

    def may_raise(self, it, st, q, args, node):
        if self.exc and q in ("pickle.dump", "pickle.dumps"):
            return [ExcV(self.exc, (), "storing")]
        return ()


def storing(ctx, form, vname, old, kind, update=FALSE, accept=FALSE, snap=True, is_async=False, inter=False, exc=None, par=False):
    n = nm(0)
    v = {**VALUES, "none": NONE, "list": "list"}[vname]
    pol = (ParPol({n: snap}, polls=0) if par else DumpPol({n: snap}, answers=("c", "a")))
    pol.exc = exc
    it = ctx.interp(pol)
    st = it.start()
    if snap:
        put_snaps(st, [n])
    if old:
        put_result(st, n, OLD)
    cases = functions(it, st, [n], ends(form, v), is_async)
    cfg = cfg_of(st, update=update, accept=accept, interactive=Const(inter), parallel=Const(2))
    if par:
        outs = run_parallel(it, st, cases, [n], cfg)
    else:
        st, cache = cache_of(it, st, kind)
        if kind != "none" and old == "cached":
            st, _ = one(it.setitem(st, cache, bin_of(n), OLD, None)) if hasattr(it, "setitem") else (st, None)
        st, tests = tests_obj(it, st, cases)
        st, r = test_run(it, st, tests, [n], cfg, cache)
        outs = it.bind(call_t(it, st, r, "run_async"), lambda s, x: it.await_(s, x))
    title = f"{form} returning {vname}{', stored before' if old else ''}, cache {kind}{', accepting' if accept == TRUE else ''}" \
            f"{', updating' if update == TRUE else ''}{', async' if is_async else ''}{', interactive' if inter else ''}" \
            f"{'' if snap else ', no snapshot'}{', storing raises ' + exc if exc else ''}{', parallel' if par else ''}"
    for k, s, x in outs:
        if k == CUT:
            if x != "polling" and not inter:      # the user asks for the same refused thing again and again
                ctx.und("stored", title, x)
            continue
        if k == X:
            ctx.judge("stored", title, False, f"{x!r} leaves the run", s)
            continue
        recs = records(s)
        if recs is None or len(recs) != 1 or type(recs[0][1]) is not Const:
            ctx.und("stored", title, f"recorded {recs}")
            continue
        verdict = recs[0][1].v
        d = on_disk(it, s, n)
        if d is None:
            ctx.und("stored", title, f"what is stored is not known ({fs_lookup(s, bin_of(n))})")
            continue
        if verdict in ("OK", "DIFF"):
            if vname == "none":
                ctx.judge("stored", title, d[0] == "absent", f"the case returned nothing and was {verdict}, {d[1:]} is stored", s)
            elif d[0] == "absent":
                ctx.judge("stored", title, False, f"the case was {verdict} and its value is not stored", s)
            else:
                ctx.judge("stored", title, alike(d[1], v), f"the case was {verdict} and returned {v!r}, stored is {d[1]!r}", s)
        else:
            left = [("absent",)] + ([("value", OLD)] if old else [])
            ctx.judge("stored", title, d in left, f"the case failed, {d[1:]} is stored", s)
    ctx.scen[title] = len(outs)


def reading(ctx, kind, users, fillers, where, form="value", vname="object", is_async=False):
    """Case 0 ends with a value, `fillers` other cases return values, then `users` cases depend on 0."""
    v = VALUES[vname]
    names = [nm(i) for i in range(1 + fillers + users)]
    pol = SuitePol({n: True for n in names})
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, names)

    def body(name):
        i = names.index(name)
        if i == 0:
            return ends(form, v)(name)

        def h(it, st, f, a, kw, node):
            it.event(st, "case", name, TupleV(tuple(a[1:])), node=node)
            return [(V, st, Sym(f"value of {name!r}", typ="object"))]
        return h
    st, cases = dependent(it, st, names, {i: (0,) for i in range(1 + fillers, len(names))}, body, is_async)
    st, cache = cache_of(it, st, kind)
    if where == "disk":
        put_result(st, names[0], v)
    sel = names[1:] if where == "disk" else names
    st, tests = tests_obj(it, st, cases)
    st, r = test_run(it, st, tests, sel, cfg_of(st), cache)
    outs = it.bind(call_t(it, st, r, "run_async"), lambda s, x: it.await_(s, x))
    title = f"{form} {vname} from {where}, {users} users after {fillers} others, cache {kind}{', async' if is_async else ''}"
    for k, s, x in outs:
        if k != V:
            ctx.judge("read back", title, False if k == X else None, f"the run ends with {x!r}", s)
            continue
        for i in range(1 + fillers, len(names)):
            c = [e for e in s.events() if e.kind == "case" and e.args[0] == names[i]]
            if len(c) != 1 or len(c[0].args[1].items) != 1:
                ctx.judge("read back", title, False, f"case {i} runs {len(c)} times, with {[e.args[1] for e in c]}", s)
                continue
            ctx.judge("read back", title, alike(c[0].args[1].items[0], v), f"stored is {v!r}, the dependent is given {c[0].args[1].items[0]!r}", s)
    ctx.scen[title] = len(outs)


def twice(ctx, kind):
    """The same cache through two runs: the second value counts."""
    names = [nm(0), nm(1)]
    vals = [Sym("first value", typ="object"), Sym("second value", typ="object")]
    pol = SuitePol({n: True for n in names})
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, names)

    def body(name):
        def h(it, st, f, a, kw, node):
            c = len([e for e in st.events() if e.kind == "case" and e.args[0] == name])
            it.event(st, "case", name, TupleV(tuple(a[1:])), node=node)
            return [(V, st, vals[min(c, 1)] if name == names[0] else NONE)]
        return h
    st, cases = dependent(it, st, names, {1: (0,)}, body)
    st, cache = cache_of(it, st, kind)
    st, tests = tests_obj(it, st, cases)

    def go(s):
        s, r = test_run(it, s, tests, names, cfg_of(s), cache)
        return it.bind(call_t(it, s, r, "run_async"), lambda s2, x: it.await_(s2, x))
    outs = it.bind(go(st), lambda s, _: go(s))
    title = f"two runs with one cache {kind}"
    for k, s, x in outs:
        c = [e.args[1].items for e in s.events() if e.kind == "case" and e.args[0] == names[1]]
        if k == CUT:
            ctx.und("read back", title, x)
        else:
            ctx.judge("read back", title, k == V and c == [(vals[0],), (vals[1],)], f"the dependent is given {c}, the run ends with {x!r}", s)
    ctx.scen[title] = len(outs)


def lru(ctx, size, ops):
    """A history of an LRU cache; ops: ("set"|"get"|"in", key)."""
    it = ctx.interp(SuitePol())
    st = it.start()
    st, c = cache_of(it, st, size)
    keys = [atom("key0"), atom("key1"), atom("key2"), atom("key3")]
    model = {}
    outs = [(V, st, NONE)]
    title = f"size {size}: " + " ".join(f"{o}{k}" for o, k in ops)
    for n, (o, key) in enumerate(ops):
        name = {"set": "__setitem__", "get": "__getitem__", "in": "__contains__"}[o]
        args = [keys[key]]
        if o == "set":
            args.append(Sym(f"value {n}", typ="object"))
            model[key] = args[1]
        outs = it.bind(outs, lambda s, _: call_t(it, s, c, name, *args))
        for k, s, v in outs:
            if k != V:
                continue
            if o == "get":
                good = v == NONE or key in model and v == model[key]
                ctx.judge("cache", title, good if type(v) is Const or type(v) is Sym and not v.vague else None, f"step {n} reads {v!r}, last stored {model.get(key)!r}", s)
            for k2, s2, l in call_t(it, s.fork(), c, "__len__"):
                if k2 != V or type(l) is not Const:
                    ctx.und("size", title, f"length {l!r}")
                else:
                    ctx.judge("size", title, l.v <= size, f"after step {n} the cache of size {size} has {l.v} entries", s2)
        if any(k != V for k, s, v in outs):
            for k, s, v in outs:
                if k != V:
                    ctx.judge("cache", title, False if k == X else None, f"step {n} ends with {v!r}", s)
            return


def run(ctx):
    ctx.rule("stored", "after an OK or DIFF the returned value is what is stored, nothing if it is None; after FAIL nothing of this run is stored")
    ctx.rule("read back", "a dependent is given the value its dependency stored")
    ctx.rule("cache", "a cache returns the value stored last under the key, or nothing")
    ctx.rule("size", "an LRU cache has at most as many entries as its size")
    ctx.min_decided = 300
    FORMS = ("value", "diff", "fail", "difffail", "Exception", "SystemExit", "asyncio.CancelledError")
    kinds = ("dict", "none", 0, 1, 2)
    for vname in list(VALUES) + ["none", "list"]:
        for old in (None, "disk"):
            for form in FORMS:
                if form[0].isupper() and vname not in ("none", "object"):
                    continue
                storing(ctx, form, vname, old, "dict")
            for kind in kinds[1:]:
                storing(ctx, "value", vname, old, kind)
            if not old or vname in ("none", "zero"):
                storing(ctx, "value", vname, old, "dict", par=True)
                storing(ctx, "value", vname, old, "dict", is_async=True)
    for vname in ("object", "zero", "none"):
        for old in (None, "disk"):
            for form in FORMS:
                for upd, acc in ((TRUE, FALSE), (FALSE, TRUE), (TRUE, TRUE)):
                    storing(ctx, form, vname, old, "dict", upd, acc)
                storing(ctx, form, vname, old, "dict", inter=True)
                storing(ctx, form, vname, old, "dict", snap=False)
                storing(ctx, form, vname, old, "dict", snap=False, accept=TRUE)
                storing(ctx, form, vname, old, "dict", par=True)
            for exc in ("pickle.PicklingError", "TypeError", "OSError"):
                storing(ctx, "value", vname, old, "dict", exc=exc)
                storing(ctx, "value", vname, old, 1, exc=exc)
    for kind in kinds + (3,):
        for vname in ("object", "zero", "empty", "no", "unit"):
            for where in ("run", "disk"):
                for form in ("value", "diff") if where == "run" else ("value",):
                    for fill in (0, 1, 2) if vname == "object" else (0, 1):
                        reading(ctx, kind, 1 if fill else 2, fill, where, form, vname, is_async=fill == 1)
        twice(ctx, kind)
    steps = [(o, k) for o in ("set", "get") for k in (0, 1, 2)]
    n = 5 if ctx.thorough else 4
    for size in (0, 1, 2, 3):
        for ops in product(steps, repeat=n):
            if ops[0][0] != "set" or ops[0][1] != 0:
                continue
            lru(ctx, size, ops)
