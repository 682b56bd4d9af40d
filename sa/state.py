"""Abstract states: a copy-on-write heap, path facts, recorded effects, file system,
process environment and overridden attributes of external modules."""
from .values import *

ALL = frozenset((-1, 0, 1))


class HObj:
    """Base class of abstract heap objects."""
    kind = "?"

    def copy(self):
        raise NotImplementedError

    def children(self):
        return ()

    def shape(self):
        return (self.kind,)


class FrameO(HObj):
    kind = "frame"
    __slots__ = ("vars", "parent", "fn", "yh", "isclass", "mod", "yields")

    def __init__(self, vars, parent, fn, mod, isclass=False, yh=None, yields=None):
        self.vars, self.parent, self.fn, self.mod, self.isclass, self.yh = vars, parent, fn, mod, isclass, yh
        self.yields = yields

    def copy(self):
        return FrameO(dict(self.vars), self.parent, self.fn, self.mod, self.isclass, self.yh,
                      list(self.yields) if self.yields is not None else None)

    def children(self):
        r = list(self.vars.values())
        if self.parent is not None:
            r.append(Ref(self.parent))
        if self.yields:
            r += self.yields
        return r

    def shape(self):
        return ("frame", tuple(self.vars), self.fn.qual if self.fn else None, self.mod,
                None if self.yields is None else len(self.yields))


class InstO(HObj):
    kind = "inst"
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, attrs if attrs is not None else {}

    def copy(self):
        return InstO(self.cls, dict(self.attrs))

    def children(self):
        return list(self.attrs.values())

    def shape(self):
        return ("inst", self.cls, tuple(self.attrs))


class ClassO(HObj):
    """Mutable attributes of a class."""
    kind = "class"
    __slots__ = ("attrs",)

    def __init__(self, attrs=None):
        self.attrs = attrs if attrs is not None else {}

    def copy(self):
        return ClassO(dict(self.attrs))

    def children(self):
        return list(self.attrs.values())

    def shape(self):
        return ("class", tuple(self.attrs))


class FnO(HObj):
    """Attributes of a function."""
    kind = "fn"
    __slots__ = ("attrs",)

    def __init__(self, attrs=None):
        self.attrs = attrs if attrs is not None else {}

    def copy(self):
        return FnO(dict(self.attrs))

    def children(self):
        return list(self.attrs.values())

    def shape(self):
        return ("fn", tuple(self.attrs))


class ListO(HObj):
    kind = "list"
    __slots__ = ("items", "typ")

    def __init__(self, items=(), typ="list"):
        self.items, self.typ = list(items), typ

    def copy(self):
        return ListO(self.items, self.typ)

    def children(self):
        return self.items

    def shape(self):
        return (self.typ, len(self.items))


class DictO(HObj):
    """Known entries over an optional unknown base; `gone` are base keys removed."""
    kind = "dict"
    __slots__ = ("items", "base", "gone", "factory", "typ")

    def __init__(self, items=(), base=None, gone=(), factory=None, typ="dict"):
        self.items, self.base, self.gone, self.factory, self.typ = list(items), base, list(gone), factory, typ

    def copy(self):
        return DictO(self.items, self.base, self.gone, self.factory, self.typ)

    def children(self):
        r = []
        for k, v in self.items:
            r.append(k)
            r.append(v)
        if self.base is not None:
            r.append(self.base)
        r += self.gone
        if self.factory is not None:
            r.append(self.factory)
        return r

    def shape(self):
        return (self.typ, len(self.items), self.base is None, len(self.gone))


class SetO(HObj):
    kind = "set"
    __slots__ = ("items", "typ")

    def __init__(self, items=(), typ="set"):
        self.items, self.typ = list(items), typ

    def copy(self):
        return SetO(self.items, self.typ)

    def children(self):
        return self.items

    def shape(self):
        return ("set", len(self.items))


class ExtO(HObj):
    """An object of an external class: constructor arguments and attributes."""
    kind = "ext"
    __slots__ = ("q", "args", "attrs")

    def __init__(self, q, args=(), attrs=None):
        self.q, self.args, self.attrs = q, tuple(args), attrs if attrs is not None else {}

    def copy(self):
        return ExtO(self.q, self.args, dict(self.attrs))

    def children(self):
        return list(self.args) + list(self.attrs.values())

    def shape(self):
        return ("ext", self.q, len(self.args), tuple(self.attrs))


class IterO(HObj):
    kind = "iter"
    __slots__ = ("items", "pos")

    def __init__(self, items, pos=0):
        self.items, self.pos = list(items), pos

    def copy(self):
        return IterO(self.items, self.pos)

    def children(self):
        return self.items

    def shape(self):
        return ("iter", len(self.items), self.pos)


class Event:
    __slots__ = ("kind", "args", "loc", "prev", "n", "_h")

    def __init__(self, kind, args, loc, prev):
        self.kind, self.args, self.loc, self.prev = kind, tuple(args), loc, prev
        self.n = prev.n + 1 if prev is not None else 1
        self._h = hash((kind, self.args, prev._h if prev is not None else 0))

    def __repr__(self):
        return f"{self.kind}({', '.join(map(repr, self.args))}) at {self.loc}"


_oid = [1000]


def new_oid():
    _oid[0] += 1
    return _oid[0]


_uid = [0]


def fresh(name, **kw):
    _uid[0] += 1
    return Sym(name, _uid[0], **kw)


class State:
    __slots__ = ("heap", "owned", "facts", "trace", "fs", "env", "ext", "attrs", "mon", "stack", "notes", "cur")

    def __init__(self):
        self.heap, self.owned, self.facts, self.trace = {}, set(), {}, None
        self.fs, self.env, self.ext, self.attrs, self.mon = {}, {}, {}, {}, {}
        self.stack, self.notes, self.cur = (), (), None

    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.owned = set()
        self.owned = set()
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.fs, s.env, s.ext, s.attrs, s.mon = dict(self.fs), dict(self.env), dict(self.ext), dict(self.attrs), dict(self.mon)
        s.stack, s.notes, s.cur = self.stack, self.notes, self.cur
        return s

    # heap ---------------------------------------------------------------
    def alloc(self, obj):
        o = new_oid()
        self.heap[o] = obj
        self.owned.add(o)
        return Ref(o)

    def get(self, ref):
        return self.heap.get(ref.oid)

    def mut(self, oid):
        if type(oid) is Ref:
            oid = oid.oid
        o = self.heap[oid]
        if oid not in self.owned:
            o = o.copy()
            self.heap[oid] = o
            self.owned.add(oid)
        return o

    # events -------------------------------------------------------------
    def events(self):
        r = []
        e = self.trace
        while e is not None:
            r.append(e)
            e = e.prev
        r.reverse()
        return r


def fingerprint(st, extra, base_heap, stop_trace=None):
    """Canonical form of everything observable in the state except path facts."""
    num, snum = {}, {}
    out = []
    queue = []

    def cv(v):
        t = type(v)
        if t is Const or t is EnumV or t is ExtV or t is ModV or t is ClassV or t is HookV:
            return v
        if t is Ref:
            return cref(v.oid)
        if t is Sym:
            if v.uid:
                n = snum.get(v)
                if n is None:
                    n = snum[v] = len(snum)
                return ("s", v.name, n)
            return v
        if t is Term:
            return ("t", v.op) + tuple(cv(a) if isinstance(a, Val) else a for a in v.args)
        if t is TupleV:
            return ("T",) + tuple(cv(a) for a in v.items)
        if t is FuncV:
            return ("f", cref(v.oid) if v.oid in st.heap else v.oid, None if v.self_ is None else cv(v.self_),
                    v.fn.qual, cref(v.env) if v.env is not None else None)
        if t is BoundM:
            return ("b", cv(v.recv), v.name)
        if t is PartialV:
            return ("p", cv(v.f), tuple(cv(a) for a in v.args), tuple((k, cv(a)) for k, a in v.kw))
        if t is CoroV:
            return ("c", cv(v.f), tuple(cv(a) for a in v.args), tuple((k, cv(a)) for k, a in v.kw))
        if t is ExcV:
            return ("e", v.cls if isinstance(v.cls, str) else cv(v.cls), tuple(cv(a) if isinstance(a, Val) else a for a in v.args), v.origin)
        if t is SuperV:
            return ("S", v.cls, cv(v.self_))
        if v is None:
            return None
        return v

    def cref(oid):
        o = st.heap.get(oid)
        if o is None or base_heap.get(oid) is o:
            return ("B", oid)
        n = num.get(oid)
        if n is None:
            n = num[oid] = len(num)
            queue.append(oid)
        return ("R", n)

    for e in extra:
        out.append(cv(e))
    e = st.trace
    while e is not None and e is not stop_trace:
        out.append((e.kind,) + tuple(cv(a) if isinstance(a, Val) else a for a in e.args))
        e = e.prev
    for o in st.stack:
        out.append(cref(o))
    for nm in ("fs", "env", "ext", "attrs", "mon"):
        d = getattr(st, nm)
        for k in d:
            v = d[k]
            out.append((nm, cv(k) if isinstance(k, Val) else (tuple(cv(x) if isinstance(x, Val) else x for x in k) if isinstance(k, tuple) else k),
                        cv(v) if isinstance(v, Val) else (tuple(cv(x) if isinstance(x, Val) else x for x in v) if isinstance(v, tuple) else v)))
    # modified base objects
    i = 0
    while True:
        while i < len(queue):
            oid = queue[i]
            i += 1
            o = st.heap[oid]
            out.append(o.shape())
            out.append(tuple(cv(c) for c in o.children()))
        for oid in st.heap if False else ():
            pass
        break
    reach = num
    return tuple(out), reach, snum


def mod_base(st, base_heap):
    """Base objects (module globals, classes) that this state has modified."""
    return tuple((oid, o) for oid, o in st.heap.items() if oid in base_heap and base_heap[oid] is not o)


def merge_facts(a, b):
    """If the union of the two fact sets is expressible, return it, else None."""
    if a == b:
        return a
    if len(a) == len(b):
        diff = None
        for k, v in a.items():
            w = b.get(k)
            if w is None:
                return None
            if w != v:
                if diff is not None:
                    return None
                diff = k
        if diff is None:
            return a
        v, w = a[diff], b[diff]
        r = dict(a)
        if isinstance(v, bool) and isinstance(w, bool):
            del r[diff]
            return r
        if isinstance(v, frozenset) and isinstance(w, frozenset):
            u = v | w
            if u == ALL:
                del r[diff]
            else:
                r[diff] = u
            return r
        return None
    if len(a) > len(b):
        a, b = b, a
    # a is weaker than b: it subsumes b
    for k, v in a.items():
        w = b.get(k)
        if w is None or w != v:
            return None
    return a
