"""Abstract values of the analyser.

Values are immutable.  A value is either known (Const, EnumV, functions, classes,
modules, tuples), a reference to an abstract heap object (Ref), an unknown input
(Sym) or a pure term over values (Term).  Terms are kept in a normal form, so two
ways of writing the same pure expression give the same value (value numbering).
"""


class Val:
    __slots__ = ()


class Const(Val):
    __slots__ = ("v", "_h")

    def __init__(self, v):
        self.v = v
        self._h = hash((type(v).__name__, v))

    def __eq__(self, o):
        return type(o) is Const and type(o.v) is type(self.v) and o.v == self.v

    def __hash__(self):
        return self._h

    def __repr__(self):
        return repr(self.v)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)
ELL = Const(Ellipsis)


class Sym(Val):
    """An unknown.  atom: a distinguished opaque name, different from every other
    atom and from every constant, and truthy.  fresh: made during the analysis
    (uid > 0).  vague: stands for something the analyser could not model."""
    __slots__ = ("name", "uid", "atom", "vague", "lo", "hi", "typ", "ge", "_h")

    def __init__(self, name, uid=0, atom=False, vague=False, lo=None, hi=None, typ=None, ge=None):
        self.name, self.uid, self.atom, self.vague = name, uid, atom, vague
        self.lo, self.hi, self.typ, self.ge = lo, hi, typ, ge
        self._h = hash((name, uid))

    def __eq__(self, o):
        return type(o) is Sym and o.name == self.name and o.uid == self.uid

    def __hash__(self):
        return self._h

    def __repr__(self):
        return f"<{self.name}{'#%d' % self.uid if self.uid else ''}>"


class Term(Val):
    __slots__ = ("op", "args", "_h")

    def __init__(self, op, args):
        self.op, self.args = op, tuple(args)
        self._h = hash((op, self.args))

    def __eq__(self, o):
        return self is o or (type(o) is Term and self._h == o._h and self.op == o.op and self.args == o.args)

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.op == "concat":
            return "`" + "".join(str(a.v) if type(a) is Const else "{%r}" % (a,) for a in self.args) + "`"
        if self.op == "attr":
            return f"{self.args[0]!r}.{self.args[1].v if type(self.args[1]) is Const else self.args[1]}"
        return f"{self.op}({', '.join(map(repr, self.args))})"


class TupleV(Val):
    __slots__ = ("items", "_h")

    def __init__(self, items):
        self.items = tuple(items)
        self._h = hash(("tuple", self.items))

    def __eq__(self, o):
        return type(o) is TupleV and o.items == self.items

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.items)) + ")"


class Ref(Val):
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return type(o) is Ref and o.oid == self.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return f"&{self.oid}"


class EnumV(Val):
    __slots__ = ("cls", "name", "value")

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return type(o) is EnumV and o.cls == self.cls and o.name == self.name

    def __hash__(self):
        return hash((self.cls, self.name))

    def __repr__(self):
        return f"{self.cls}.{self.name}"


class FuncV(Val):
    """An internal function: definition, closure environment, heap slot for its
    attributes, and bound self."""
    __slots__ = ("fn", "env", "oid", "self_", "defaults")

    def __init__(self, fn, env, oid, self_=None, defaults=None):
        self.fn, self.env, self.oid, self.self_, self.defaults = fn, env, oid, self_, defaults

    def bind(self, s):
        return FuncV(self.fn, self.env, self.oid, s, self.defaults)

    def __eq__(self, o):
        return type(o) is FuncV and o.oid == self.oid and o.self_ == self.self_

    def __hash__(self):
        return hash(("func", self.oid, self.self_))

    def __repr__(self):
        return f"<func {self.fn.qual}>"


class ClassV(Val):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def __eq__(self, o):
        return type(o) is ClassV and o.info is self.info

    def __hash__(self):
        return hash(("class", self.info.qual))

    def __repr__(self):
        return f"<class {self.info.qual}>"


class ModV(Val):
    """A module of the analysed program."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return type(o) is ModV and o.name == self.name

    def __hash__(self):
        return hash(("mod", self.name))

    def __repr__(self):
        return f"<module {self.name}>"


class ExtV(Val):
    """Something outside the analysed program, by its qualified name."""
    __slots__ = ("q",)

    def __init__(self, q):
        self.q = q

    def __eq__(self, o):
        return type(o) is ExtV and o.q == self.q

    def __hash__(self):
        return hash(("ext", self.q))

    def __repr__(self):
        return f"<{self.q}>"


class BoundM(Val):
    """A method of a value that is not an internal instance (str, dict, list, Sym...)."""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __eq__(self, o):
        return type(o) is BoundM and o.recv == self.recv and o.name == self.name

    def __hash__(self):
        return hash(("bm", self.recv, self.name))

    def __repr__(self):
        return f"{self.recv!r}.{self.name}"


class SuperV(Val):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class PartialV(Val):
    __slots__ = ("f", "args", "kw")

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, tuple(args), tuple(kw)

    def __eq__(self, o):
        return type(o) is PartialV and (o.f, o.args, o.kw) == (self.f, self.args, self.kw)

    def __hash__(self):
        return hash(("partial", self.f, self.args, self.kw))

    def __repr__(self):
        return f"partial({self.f!r})"


class HookV(Val):
    """A callable given by a check: fn(interp, st, args, kwargs, node) -> [Out]."""
    __slots__ = ("name", "fn")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __eq__(self, o):
        return type(o) is HookV and o.name == self.name

    def __hash__(self):
        return hash(("hook", self.name))

    def __repr__(self):
        return f"<{self.name}>"


class CoroV(Val):
    """A coroutine or generator object of an internal function: runs when awaited."""
    __slots__ = ("f", "args", "kw", "uid", "kind")

    def __init__(self, f, args, kw, uid, kind="coro"):
        self.f, self.args, self.kw, self.uid, self.kind = f, tuple(args), tuple(sorted(kw.items())) if isinstance(kw, dict) else kw, uid, kind

    def __eq__(self, o):
        return type(o) is CoroV and o.uid == self.uid and o.f == self.f

    def __hash__(self):
        return hash(("coro", self.uid))

    def __repr__(self):
        return f"<{self.kind} {self.f!r}>"


class ExcV(Val):
    __slots__ = ("cls", "args", "origin", "cause")

    def __init__(self, cls, args=(), origin=None):
        self.cls, self.args, self.origin = cls, tuple(args), origin

    def __eq__(self, o):
        return type(o) is ExcV and o.cls == self.cls and o.origin == self.origin and o.args == self.args

    def __hash__(self):
        return hash(("exc", self.cls, self.origin))

    def __repr__(self):
        return f"{self.cls}({', '.join(map(repr, self.args))})" + (f" from {self.origin}" if self.origin else "")


def walk(v, seen=None):
    """All values nested in v (not through the heap)."""
    stack = [v]
    while stack:
        x = stack.pop()
        yield x
        t = type(x)
        if t is Term:
            stack.extend(a for a in x.args if isinstance(a, Val))
        elif t is TupleV:
            stack.extend(x.items)
        elif t is BoundM:
            stack.append(x.recv)
        elif t is PartialV:
            stack.append(x.f)
            stack.extend(x.args)
            stack.extend(b for _, b in x.kw)
        elif t is CoroV:
            stack.append(x.f)
            stack.extend(x.args)
            stack.extend(b for _, b in x.kw)
        elif t is FuncV and x.self_ is not None:
            stack.append(x.self_)
        elif t is ExcV:
            stack.extend(a for a in x.args if isinstance(a, Val))
        elif t is Sym and x.ge is not None:
            stack.append(x.ge)


def is_vague(v):
    return any(type(x) is Sym and x.vague for x in walk(v))


# ------------------------------------------------------------------ terms

def concat(parts):
    """Normal form of string concatenation: a word over constants and opaque parts."""
    out = []
    for p in parts:
        if type(p) is Term and p.op == "concat":
            sub = p.args
        else:
            sub = (p,)
        for q in sub:
            if type(q) is Term and q.op == "str" and _stringy(q.args[0]):
                q = q.args[0]
            if type(q) is Const and isinstance(q.v, (str,)):
                if q.v == "":
                    continue
                if out and type(out[-1]) is Const and isinstance(out[-1].v, str):
                    out[-1] = Const(out[-1].v + q.v)
                    continue
            out.append(q)
    # dirname(p) + "/" + basename(p) == p
    i = 0
    while i + 2 < len(out):
        a, s, b = out[i:i + 3]
        if type(a) is Term and a.op == "dirname" and type(b) is Term and b.op == "basename" \
           and a.args == b.args and s == Const("/"):
            sub = list(a.args[0].args) if type(a.args[0]) is Term and a.args[0].op == "concat" else [a.args[0]]
            return concat(out[:i] + sub + out[i + 3:])
        i += 1
    if not out:
        return Const("")
    if len(out) == 1:
        x = out[0]
        if type(x) is Const and isinstance(x.v, str) or _stringy(x):
            return x
    return Term("concat", out)


STR_OPS = {"concat", "str", "dirname", "basename", "lower", "upper", "strip", "slice", "repr"}


def _stringy(x):
    if type(x) is Const:
        return isinstance(x.v, str)
    if type(x) is Sym:
        return x.typ == "str" or x.atom
    if type(x) is Term:
        return x.op in STR_OPS or x.op in ("key", "smeth", "chr")
    return False


def isword(v):
    """An unknown non-empty text without separators or line breaks (unlike an atom it may
    equal other texts)."""
    return type(v) is Sym and v.name.startswith("w:")


def parts_of(v):
    if type(v) is Term and v.op == "concat":
        return list(v.args)
    return [v]


def pjoin(args):
    """os.path.join in normal form."""
    parts = []
    for i, a in enumerate(args):
        if i:
            last = parts[-1] if parts else None
            if not (type(last) is Const and isinstance(last.v, str) and last.v.endswith("/")):
                parts.append(Const("/"))
        parts.extend(parts_of(a))
        # collapse so that endswith works
        c = concat(parts)
        parts = parts_of(c)
    return concat(parts)
