"""User modules: sources of test trees, parsed and analysed like the repository's own code,
and the reflection booktest uses on them (dir, getmembers, signature, import_module)."""
import ast
from .values import *
from .state import *
from .prog import *
from .engine import V, X, N, Policy
from .extmodels import model, ret, kwget


def load(it, st, name, src, **names):
    """Analyse the body of a module; `names` are given to it as globals.  [(k, st, ModV)]"""
    it.prog.trees[name] = ast.parse(src)
    it.prog.files[name] = name.replace(".", "/") + ".py"
    v = {"__name__": Const(name), "__file__": Const(it.prog.files[name])}
    v.update(names)
    fr = st.alloc(FrameO(v, None, None, name))
    it.mods[name] = fr.oid
    old = st.stack
    st.stack = old + (fr.oid,)
    r = []
    for k, s, x in it.block(it.prog.trees[name].body, st):
        s.stack = old
        r.append((V, s, ModV(name)) if k == N else (k, s, x))
    return r


@model("importlib.import_module")
def m_import(it, st, a, kw, node):
    if type(a[0]) is Const:
        n = a[0].v
        it.event(st, "import", a[0], node=node)
        if n in it.mods and it.mods[n] in st.heap:
            return ret(st, ModV(n))
        src = getattr(it.pol, "modules", {}).get(n)
        if src is not None:
            return load(it, st, n, src)
        return it.exc(st, "ModuleNotFoundError", f"No module named '{n}'", node=node)
    return ret(st, Term("module", (a[0],)))


def members(it, st, o):
    """Names of an object, sorted, or None."""
    if type(o) is ModV:
        return sorted(st.heap[it.mods[o.name]].vars)
    cls = None
    names = set()
    if type(o) is ClassV:
        cls = o
    elif type(o) is Ref and st.heap[o.oid].kind == "inst":
        cls = st.heap[o.oid].cls
        names |= {x for x in st.heap[o.oid].attrs if isinstance(x, str)}
    if cls is None:
        return None
    for c in it.mro(cls):
        if isinstance(c, ClassInfo):
            names |= {x for x in st.heap[c.oid].attrs if isinstance(x, str)}
    return sorted(names)


@model("builtins.dir")
def m_dir(it, st, a, kw, node):
    ns = members(it, st, a[0]) if a else None
    if ns is None:
        return ret(st, Term("dir", tuple(a)))
    return ret(st, st.alloc(ListO([Const(n) for n in ns])))


@model("inspect.getmembers")
def m_getmembers(it, st, a, kw, node):
    ns = members(it, st, a[0])
    if ns is None or len(a) > 1 or kw:
        return ret(st, fresh("members", vague=True))
    outs = [(V, st, ())]
    for n in ns:
        outs = it.bind(outs, lambda s, acc, n=n: [(k, s2, acc + ((n, v),) if k == V else v) for k, s2, v in it.getattr(s, a[0], n, node)])
    return [(k, s, s.alloc(ListO([TupleV((Const(n), v)) for n, v in acc])) if k == V else acc) for k, s, acc in outs]


EMPTY = ExtV("inspect.Parameter.empty")


@model("inspect.signature")
def m_signature(it, st, a, kw, node):
    f = a[0]
    drop = 0
    if type(f) is ClassV:
        i = it.class_attr(st, f, "__init__")
        if type(i) is not FuncV:
            return ret(st, st.alloc(ExtO("inspect.Signature", (), {"parameters": st.alloc(DictO([]))})))
        f, drop = i, 1
    seen = 0
    while type(f) is FuncV and "__wrapped__" in st.heap[f.oid].attrs and seen < 20:
        w = st.heap[f.oid].attrs["__wrapped__"]
        if type(w) is not FuncV:
            break
        if f.self_ is not None:
            drop += 1
            w = FuncV(w.fn, w.env, w.oid, w.self_, w.defaults)
        f, seen = w, seen + 1
    if type(f) is not FuncV:
        return ret(st, fresh("signature", vague=True))
    if f.self_ is not None:
        drop += 1
    if f.fn.user:
        ps = [("t", None, 1)]
        if drop:
            ps = []
    else:
        n = f.fn.node.args
        pos = n.posonlyargs + n.args
        dn = len(n.defaults)
        def dflt(d):
            return Const(d.value) if isinstance(d, ast.Constant) and (d.value is None or isinstance(d.value, (str, int, float))) else True
        ps = [(x.arg, dflt(n.defaults[i - len(pos) + dn]) if i >= len(pos) - dn else None, 1) for i, x in enumerate(pos)]
        if n.vararg:
            ps.append((n.vararg.arg, None, 2))
        ps += [(x.arg, None if d is None else dflt(d), 3) for x, d in zip(n.kwonlyargs, n.kw_defaults)]
        if n.kwarg:
            ps.append((n.kwarg.arg, None, 4))
        ps = ps[drop:] if not (drop and n.vararg and not pos) else ps
    items = []
    for name, d, kind in ps:
        o = st.alloc(ExtO("inspect.Parameter", (), {"name": Const(name), "default": EMPTY if d is None else d if type(d) is Const else Sym("default of " + name),
                                                   "kind": ExtV("inspect.Parameter." + {1: "POSITIONAL_OR_KEYWORD", 2: "VAR_POSITIONAL",
                                                                                        3: "KEYWORD_ONLY", 4: "VAR_KEYWORD"}[kind]),
                                                   "annotation": EMPTY}))
        items.append((Const(name), o))
    return ret(st, st.alloc(ExtO("inspect.Signature", (), {"parameters": st.alloc(DictO(items))})))
