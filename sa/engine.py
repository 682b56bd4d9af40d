"""The abstract interpreter: transfer functions for the Python syntax, path facts,
joins and loop fixpoints."""
import ast
import os
import re
import time
import builtins
import sys
from .values import *
from .state import *
from .prog import *

sys.setrecursionlimit(1000000)

V, X, N, R, B, C, CUT = "v", "x", "n", "r", "b", "c", "cut"


class Budget(Exception):
    pass


class UserFn:
    """An unknown function supplied from outside (a test case, a user's function)."""
    user = True
    is_gen = False

    def __init__(self, name, is_async=False, handler=None, is_gen=False, qual=None):
        self.name, self.is_async, self.handler, self.is_gen = name, is_async, handler, is_gen
        self.qual = qual or "user." + name
        self.file = "<user>"
        self.node = None


class Policy:
    card = (0, 1, 2)
    while_bound = 6
    max_depth = 60
    max_steps = 400000
    preempt = None
    cancelling = (0,)       # requests to cancel the task that runs the cases
    kinds = None            # recorded event kinds, None = all
    stubs = {}
    ext = {}
    merge = True
    consts = {}

    def record(self, kind, args, st):
        return self.kinds is None or kind in self.kinds

    def may_raise(self, it, st, q, args, node):
        return ()

    def decide(self, it, st, pred):
        return None

    def on_event(self, it, st, kind, args, loc):
        """typestate monitors"""

    def opaque_call(self, it, st, f, args, kw, node):
        return None


BUILTIN_EXC = {k: v for k, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, BaseException)}
EXT_EXC = {"json.JSONDecodeError": "ValueError", "json.decoder.JSONDecodeError": "ValueError",
           "pickle.PicklingError": "Exception", "pickle.UnpicklingError": "Exception", "queue.Empty": "Exception",
           "asyncio.CancelledError": "BaseException", "subprocess.CalledProcessError": "Exception",
           "asyncio.TimeoutError": "Exception", "pickle.PickleError": "Exception"}

EXC_ALIAS = {"asyncio.exceptions.CancelledError": "asyncio.CancelledError", "asyncio.exceptions.TimeoutError": "asyncio.TimeoutError"}

NUM = {"lin", "len", "time", "int", "float", "abs", "round", "mul", "div", "mod", "pow", "hashnum"}


def is_num(v):
    t = type(v)
    if t is Const:
        return isinstance(v.v, (int, float))
    if t is Term:
        return v.op in NUM
    if t is Sym:
        return v.typ in ("int", "num", "float", "bool")
    return False


def is_strv(v):
    t = type(v)
    if t is Const:
        return isinstance(v.v, str)
    if t is Sym:
        return v.typ == "str" or (v.atom and v.typ is None)
    if t is Term:
        return v.op in STR_OPS or v.op in ("key", "chr", "smeth", "fmt", "hexdigest", "join", "decode", "dirname", "basename", "jsondumps", "replace")
    return False


def is_bytesv(v):
    t = type(v)
    return t is Sym and v.typ == "bytes" or t is Term and v.op in ("bytes", "encode", "b64encode", "b64decode", "bconcat", "decompress")


def notnone(v):
    t = type(v)
    if t is Const:
        return v.v is not None
    if t is Sym:
        return v.atom or v.typ is not None
    if t is Term:
        return v.op not in ("attr", "item", "call", "res", "get", "elem", "env0", "phi", "jsonload", "unpickle", "result", "input")
    return True


# ---------------------------------------------------------------- linear forms

def lin_parts(v):
    t = type(v)
    if t is Const:
        return (int(v.v) if isinstance(v.v, bool) else v.v), {}
    if t is Term and v.op == "lin":
        return v.args[0].v, {p.items[0]: p.items[1].v for p in v.args[1:]}
    return 0, {v: 1}


def mk_lin(c, d):
    d = {k: x for k, x in d.items() if x != 0}
    if not d:
        return Const(c)
    if c == 0 and len(d) == 1:
        (k, x), = d.items()
        if x == 1:
            return k
    return Term("lin", (Const(c),) + tuple(TupleV((k, Const(d[k]))) for k in sorted(d, key=repr)))


def lin_add(a, b, sb=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for k, x in db.items():
        d[k] = d.get(k, 0) + sb * x
    return mk_lin(ca + sb * cb, d)


INF = float("inf")


class Iv:
    """Interval fact about a linear combination of atoms."""
    __slots__ = ("lo", "lop", "hi", "hop", "ex")

    def __init__(self, lo=-INF, lop=True, hi=INF, hop=True, ex=frozenset()):
        self.lo, self.lop, self.hi, self.hop, self.ex = lo, lop, hi, hop, ex

    def __eq__(self, o):
        return type(o) is Iv and (self.lo, self.lop, self.hi, self.hop, self.ex) == (o.lo, o.lop, o.hi, o.hop, o.ex)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.lo, self.lop, self.hi, self.hop, self.ex))

    def __repr__(self):
        return f"{'(' if self.lop else '['}{self.lo},{self.hi}{')' if self.hop else ']'}" + (f"-{set(self.ex)}" if self.ex else "")

    def norm(self, integer):
        lo, lop, hi, hop, ex = self.lo, self.lop, self.hi, self.hop, self.ex
        if integer:
            import math
            if lo != -INF:
                lo2 = math.ceil(lo)
                if lop and lo2 == lo:
                    lo2 += 1
                lo, lop = lo2, False
            if hi != INF:
                hi2 = math.floor(hi)
                if hop and hi2 == hi:
                    hi2 -= 1
                hi, hop = hi2, False
        ch = True
        while ch:
            ch = False
            if lo in ex and not lop:
                if integer:
                    lo += 1
                else:
                    lop = True
                ch = True
            if hi in ex and not hop:
                if integer:
                    hi -= 1
                else:
                    hop = True
                ch = True
        ex = frozenset(e for e in ex if lo < e < hi)
        if lo > hi or (lo == hi and (lop or hop)):
            return None
        return Iv(lo, lop, hi, hop, ex)

    def meet(self, o):
        if self.lo > o.lo or (self.lo == o.lo and self.lop):
            lo, lop = self.lo, self.lop
        else:
            lo, lop = o.lo, o.lop
        if self.hi < o.hi or (self.hi == o.hi and self.hop):
            hi, hop = self.hi, self.hop
        else:
            hi, hop = o.hi, o.hop
        return Iv(lo, lop, hi, hop, self.ex | o.ex)

    def shift(self, c):
        return Iv(self.lo + c, self.lop, self.hi + c, self.hop, frozenset(e + c for e in self.ex))

    def neg(self):
        return Iv(-self.hi, self.hop, -self.lo, self.lop, frozenset(-e for e in self.ex))


def is_int(v):
    return (type(v) is Term and v.op in ("len", "int")) or (type(v) is Sym and v.typ in ("int", "bool")) or \
        (type(v) is Const and isinstance(v.v, int))


def iv_union(a, b):
    """Union of two intervals as one interval, if it is one; None otherwise."""
    if a == b:
        return a
    # same bounds, point filled
    if (a.lo, a.lop) > (b.lo, b.lop):
        a, b = b, a
    gap = b.lo - a.hi if (a.hi != INF and b.lo != -INF) else -INF
    if gap > 1 or (gap == 1 and (a.hop or b.lop)) or (gap == 0 and a.hop and b.lop):
        if gap == 0 and a.hop and b.lop:
            return Iv(a.lo, a.lop, b.hi, b.hop, a.ex | b.ex | frozenset([a.hi]))
        return None
    if 0 < gap <= 1 and not (isinstance(a.hi, int) and isinstance(b.lo, int)):
        return None
    if a.ex or b.ex:
        return None
    if (b.hi, not b.hop) >= (a.hi, not a.hop):
        return Iv(a.lo, a.lop, b.hi, b.hop)
    return Iv(a.lo, a.lop, a.hi, a.hop)


CHARPREDS = ("isalnum", "isnumeric", "isdigit", "isspace", "isalpha", "isdecimal", "isupper", "islower", "isidentifier")
ALNUM = ("isalnum", "isnumeric", "isdigit", "isalpha", "isdecimal")


class Interp:
    def __init__(self, prog, policy=None):
        self.prog = prog
        self.pol = policy or Policy()
        self.steps = 0
        self.classes = {}
        self.mods = {}
        self.visited = set()
        self.undecided = []
        self.unmodelled = {}
        self.cuts = 0
        self.forks = 0
        self.merged = 0
        self.base_heap = {}
        self.base = State()
        self.deadline = None
        self.cur = None
        self.pins = []          # values held by pending evaluations, roots of the state
        from . import extmodels, argmodel, usermod, netmodels
        self.xm = extmodels
        for m in sorted(prog.trees):
            self.load_module(self.base, m)
        self.base.trace = None
        self.base.facts = {}
        self.base_heap = dict(self.base.heap)

    def start(self):
        s = self.base.fork()
        return s

    # ------------------------------------------------------------ modules
    def load_module(self, st, name):
        if name in self.mods:
            return
        if name not in self.prog.trees:
            return
        if "." in name:
            self.load_module(st, name.rsplit(".", 1)[0])
            if name in self.mods:
                return
        fr = st.alloc(FrameO({"__name__": Const(name), "__file__": Const(self.prog.files[name])}, None, None, name))
        self.mods[name] = fr.oid
        old = st.stack
        st.stack = old + (fr.oid,)
        save, self.pol = self.pol, Policy()
        outs = self.block(self.prog.trees[name].body, st)
        self.pol = save
        outs = [o for o in outs if o[0] == N]
        if len(outs) != 1:
            raise AnchorError(f"module {name} could not be loaded statically ({len(outs)} outcomes)")
        s = outs[0][1]
        if s is not st:
            for a in State.__slots__:
                setattr(st, a, getattr(s, a))
        st.stack = old
        if "." in name:
            p, c = name.rsplit(".", 1)
            if p in self.mods:
                st.mut(self.mods[p]).vars.setdefault(c, ModV(name))

    def glob(self, st, mod, name):
        if mod not in self.mods:
            raise AnchorError(f"no module {mod}")
        v = st.heap[self.mods[mod]].vars.get(name)
        if v is None:
            raise AnchorError(f"no {mod}.{name}")
        return v

    # ------------------------------------------------------------ helpers
    def loc(self, st, node):
        fr = st.heap.get(st.stack[-1]) if st.stack else None
        if fr is None:
            return "<driver>"
        file = self.prog.files.get(fr.mod, fr.mod)
        q = fr.fn.qual if fr.fn else "<module>"
        return f"{file}:{getattr(node, 'lineno', '?')} in {q}"

    def event(self, st, kind, *args, node=None):
        loc = self.loc(st, node)
        self.pol.on_event(self, st, kind, args, loc)
        if self.pol.record(kind, args, st):
            st.trace = Event(kind, args, loc, st.trace)

    def note(self, st, msg):
        st.notes = st.notes + (msg,)

    def bind(self, outs, f):
        r = []
        for o in outs:
            if o[0] == V:
                r.extend(f(o[1], o[2]))
            else:
                r.append(o)
        return r

    def exc(self, st, cls, *args, node=None):
        st.cur = None
        return [(X, st, ExcV(cls, [Const(a) if isinstance(a, str) else a for a in args], self.loc(st, node)))]

    def vague(self, st, name, node=None):
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        return fresh("?" + name, vague=True)

    # ------------------------------------------------------------ predicates
    def lookup(self, st, p):
        """Truth of a predicate term under the path facts, or None."""
        f = st.facts.get(p)
        if f is not None:
            return f
        op = p.op
        if op == "truth":
            a = p.args[0]
            if st.facts.get(Term("isnone", (a,))) is True:
                return False
        elif op == "isnone":
            a = p.args[0]
            if notnone(a):
                return False
            if st.facts.get(Term("truth", (a,))) is True:
                return False
            for q in ("eq",):
                pass
        elif op in CHARPREDS and len(p.args) == 1:
            return self.charpred(st, op, p.args[0])
        elif op == "eq" and type(p.args[1]) is Const and type(p.args[1].v) is str and len(p.args[1].v) == 1:
            return self.chareq(st, p.args[0], p.args[1])
        elif op == "eq" and type(p.args[0]) is Const and type(p.args[0].v) is str and len(p.args[0].v) == 1:
            return self.chareq(st, p.args[1], p.args[0])
        elif op == "in":
            # membership of an element known to be drawn from the container
            k, c = p.args
            if type(k) is Term and k.op in ("elem", "key") and k.args[0] == c:
                return True
        return None

    def charpred(self, st, op, o):
        """isspace, isalnum, .. of a string of which something is known."""
        if type(o) is Const:
            return getattr(o.v, op)() if isinstance(o.v, str) else None
        for q, b in st.facts.items():
            if b is True and type(q) is Term:
                if q.op == "eq" and o in q.args:
                    c = q.args[1] if q.args[0] == o else q.args[0]
                    if type(c) is Const and isinstance(c.v, str):
                        return getattr(c.v, op)()
                elif q.op in CHARPREDS and q.args == (o,):
                    if q.op == "isspace" and op in ALNUM or op == "isspace" and q.op in ALNUM:
                        return False
                    if op == "isalnum" and q.op in ALNUM:
                        return True
                    if op in ("isnumeric", "isdigit") and q.op == "isdecimal" or op == "isnumeric" and q.op == "isdigit":
                        return True
            elif b is False and type(q) is Term and q.op == "isalnum" and q.args == (o,) and op in ALNUM:
                return False
        return None

    def chareq(self, st, o, c):
        if type(o) is not Term or o.op != "chr":
            return None
        for q in CHARPREDS:
            b = st.facts.get(Term(q, (o,)))
            if b is not None and getattr(c.v, q)() != b:
                return False
        for q, b in st.facts.items():
            if b is True and type(q) is Term and q.op == "eq" and o in q.args:
                d = q.args[1] if q.args[0] == o else q.args[0]
                if type(d) is Const and d.v != c.v:
                    return False
        return None

    def assume(self, st, p, b):
        k = self.lookup(st, p)
        if k is not None:
            return k == b
        st.facts[p] = b
        return True

    def test(self, st, p):
        k = self.lookup(st, p)
        if k is None:
            k = self.pol.decide(self, st, p)
        if k is not None:
            return [(st, k)]
        s2 = st.fork()
        self.forks += 1
        r = []
        if self.assume(st, p, True):
            r.append((st, True))
        if self.assume(s2, p, False):
            r.append((s2, False))
        return r

    # numbers
    def bounds(self, st, d):
        iv = Iv()
        lo = hi = 0
        for a, c in d.items():
            al, ah = -INF, INF
            if type(a) is Term and a.op in ("len", "time"):
                al = 0
                if a.op == "len" and type(a.args[0]) is Sym and (a.args[0].atom or isword(a.args[0])):
                    al = 1
            elif type(a) is Sym:
                if a.lo is not None:
                    al = a.lo
                if a.hi is not None:
                    ah = a.hi
                if a.typ == "bool":
                    al, ah = max(al, 0), min(ah, 1)
            if len(d) > 1:
                f = st.facts.get(Term("num", (a,)))
                if isinstance(f, Iv):
                    al, ah = max(al, f.lo), min(ah, f.hi)
            if c < 0:
                al, ah = -ah, -al
            c = abs(c)
            lo += al * c if al != -INF else -INF
            hi += ah * c if ah != INF else INF
        return Iv(lo, lo == -INF, hi, hi == INF)

    def numkey(self, d):
        ks = sorted(d, key=repr)
        s = 1 if d[ks[0]] > 0 else -1
        key = mk_lin(0, {k: d[k] * s for k in ks})
        return Term("num", (key,)), s

    def range_of(self, st, v, depth=0):
        """Interval of a numeric value."""
        c, d = lin_parts(v)
        if not d:
            return Iv(c, False, c, False)
        key, s = self.numkey(d)
        iv = self.bounds(st, d)
        f = st.facts.get(key)
        if isinstance(f, Iv):
            iv = iv.meet(f if s > 0 else f.neg())
        iv = iv.shift(c)
        if depth < 3:
            for a in d:
                if type(a) is Sym and a.ge is not None and d[a] > 0:
                    # a >= a.ge
                    r = self.range_of(st, mk_lin(c, self._subst(d, a)), depth + 1)
                    iv = iv.meet(Iv(r.lo, r.lop, INF, True))
                elif type(a) is Sym and a.ge is not None and d[a] < 0:
                    r = self.range_of(st, mk_lin(c, self._subst(d, a)), depth + 1)
                    iv = iv.meet(Iv(-INF, True, r.hi, r.hop))
        n = iv.norm(all(is_int(a) for a in d) and all(isinstance(x, int) for x in d.values()) and isinstance(c, int))
        return n if n is not None else iv

    def _subst(self, d, a):
        d2 = dict(d)
        k = d2.pop(a)
        gc, gd = lin_parts(a.ge)
        for x, y in gd.items():
            d2[x] = d2.get(x, 0) + k * y
        if gc:
            d2[Const(1)] = d2.get(Const(1), 0)
        # constants folded by caller through mk_lin: keep simple, ge has no constant part
        d2.pop(Const(1), None)
        return d2

    def num_test(self, st, diff, op):
        """[(st, bool)] for diff <op> 0."""
        iv = self.range_of(st, diff)
        if op == "lt":
            if iv.hi < 0 or (iv.hi == 0 and iv.hop):
                return [(st, True)]
            if iv.lo >= 0:
                return [(st, False)]
            yes, no = Iv(-INF, True, 0, True), Iv(0, False, INF, True)
        elif op == "eq":
            if iv.lo == 0 and iv.hi == 0:
                return [(st, True)]
            if iv.lo > 0 or iv.hi < 0 or (iv.lo == 0 and iv.lop) or (iv.hi == 0 and iv.hop) or 0 in iv.ex:
                return [(st, False)]
            yes, no = Iv(0, False, 0, False), Iv(ex=frozenset([0]))
        else:
            raise AssertionError(op)
        c, d = lin_parts(diff)
        key, s = self.numkey(d)
        s2 = st.fork()
        self.forks += 1
        r = []
        integer = all(is_int(a) for a in d) and all(isinstance(x, int) for x in d.values()) and isinstance(c, int)
        for z, iv2, b in ((st, yes, True), (s2, no, False)):
            g = iv2.shift(-c)
            if s < 0:
                g = g.neg()
            f = z.facts.get(key)
            base = self.bounds(z, d)
            if s < 0:
                base = base.neg()
            cur = base.meet(f) if isinstance(f, Iv) else base
            n = cur.meet(g).norm(integer)
            if n is None:
                continue
            z.facts[key] = n
            r.append((z, b))
        return r

    # truth
    def branch(self, st, v, node=None):
        """Outcomes ('v', st, bool) of bool(v)."""
        t = type(v)
        if t is Const:
            return [(V, st, bool(v.v))]
        if t is TupleV:
            return [(V, st, len(v.items) > 0)]
        if t is Ref:
            o = st.heap[v.oid]
            k = o.kind
            if k in ("list", "set"):
                return [(V, st, len(o.items) > 0)]
            if k == "dict":
                if o.items or o.base is None:
                    return [(V, st, len(o.items) > 0)]
                return [(V, s, b) for s, b in self.test(st, Term("truth", (o.base,)))]
            if k == "inst":
                for nm in ("__bool__", "__len__"):
                    m = self.class_attr(st, o.cls, nm)
                    if m is not None:
                        return self.bind(self.call(st, self.bindm(m, v), [], {}, node), lambda s, r: self.branch(s, r, node))
                return [(V, st, True)]
            return [(V, st, True)]
        if t in (EnumV, FuncV, ClassV, ModV, ExtV, BoundM, PartialV, HookV, CoroV, ExcV):
            if t is ExtV and v.q in self.xm.EXT_TRUTH:
                return [(V, st, self.xm.EXT_TRUTH[v.q])]
            return [(V, st, True)]
        if t is Sym and (v.atom or isword(v)):
            return [(V, st, True)]
        if t is Term and v.op == "not":
            return [(k, s, (not b) if k == V else b) for k, s, b in self.branch(st, v.args[0], node)]
        if t is Term and v.op == "pred":
            return [(V, s, b) for s, b in self.test(st, v.args[0])]
        if t is Term and v.op == "concat":
            if any(type(a) is Const or (type(a) is Sym and a.atom) for a in v.args):
                return [(V, st, True)]
        if is_num(v):
            return [(V, s, not b) for s, b in self.num_test(st, v, "eq")]
        if (t is Sym and v.typ in ("str", "bytes", "list", "dict")) or is_strv(v):
            return [(V, s, not b) for s, b in self.num_test(st, self.length(st, v), "eq")]
        return [(V, s, b) for s, b in self.test(st, Term("truth", (v,)))]

    def length(self, st, v):
        """Length as a value (pure part)."""
        t = type(v)
        if t is Const and isinstance(v.v, (str, bytes, tuple)):
            return Const(len(v.v))
        if t is TupleV:
            return Const(len(v.items))
        if t is Ref:
            o = st.heap[v.oid]
            if o.kind in ("list", "set"):
                return Const(len(o.items))
            if o.kind == "dict" and o.base is None:
                return Const(len(o.items))
            if o.kind == "dict":
                return lin_add(Term("len", (o.base,)), Const(len(o.items)))
        if t is Term and v.op == "concat":
            r = Const(0)
            for a in v.args:
                r = lin_add(r, self.length(st, a))
            return r
        if t is Term and v.op == "chr":
            return Const(1)
        if t is Term and v.op == "slice" and all(not isinstance(a, Const) or a.v is not None for a in v.args[1:3]):
            return lin_add(v.args[2], v.args[1], -1) if v.op == "slice" and len(v.args) == 3 else Term("len", (v,))
        return Term("len", (v,))

    # equality
    def eq(self, st, a, b, node=None):
        """Outcomes ('v', st, bool) of a == b."""
        if a == b and not (type(a) is Sym and a.typ == "nan"):
            return [(V, st, True)]
        ta, tb = type(a), type(b)
        if ta is Const and tb is Const:
            return [(V, st, a.v == b.v)]
        for x, y in ((a, b), (b, a)):
            if type(x) is Ref:
                o = st.heap[x.oid]
                if o.kind == "inst":
                    m = self.class_attr(st, o.cls, "__eq__")
                    if m is not None:
                        return self.bind(self.call(st, self.bindm(m, x), [y], {}, node), lambda s, r: self.branch(s, r, node))
        if a == NONE or b == NONE:
            x = b if a == NONE else a
            return self.isnone(st, x)
        opaque_a = ta in (Sym, Term)
        opaque_b = tb in (Sym, Term)
        if not opaque_a and not opaque_b:
            if ta is TupleV and tb is TupleV:
                if len(a.items) != len(b.items):
                    return [(V, st, False)]
                return self.eq_all(st, list(zip(a.items, b.items)), node)
            if ta is Ref and tb is Ref:
                oa, ob = st.heap[a.oid], st.heap[b.oid]
                if oa.kind == "list" and ob.kind == "list":
                    if len(oa.items) != len(ob.items):
                        return [(V, st, False)]
                    return self.eq_all(st, list(zip(oa.items, ob.items)), node)
                if oa.kind == "dict" and ob.kind == "dict" and oa.base == ob.base:
                    if len(oa.items) != len(ob.items):
                        return [(V, st, False)]
                    ps = []
                    for k, v in oa.items:
                        for k2, v2 in ob.items:
                            if k == k2:
                                ps.append((v, v2))
                                break
                        else:
                            return [(V, st, False)]
                    return self.eq_all(st, ps, node)
                if oa.kind == "set" and ob.kind == "set":
                    return [(V, st, set(oa.items) == set(ob.items))]
                return [(V, st, False)]
            return [(V, st, False)]
        # at least one opaque
        if ta is EnumV or tb is EnumV or ta in (FuncV, ClassV, ModV) or tb in (FuncV, ClassV, ModV):
            x = b if opaque_b else a
            if type(x) is Sym and (x.atom or x.typ) or is_num(x) or is_strv(x):
                return [(V, st, False)]
        if (is_num(a) and (is_num(b) or tb in (Sym, Term))) or (is_num(b) and ta in (Sym, Term)):
            if is_strv(a) or is_strv(b):
                return [(V, st, False)]
            if (ta is Const and isinstance(a.v, bool)) or (tb is Const and isinstance(b.v, bool)):
                c, x = (a, b) if ta is Const else (b, a)
                if type(x) is Sym and x.typ == "bool":
                    return [(V2, s, r == c.v) for V2, s, r in self.branch(st, x)]
                return [(V, s, r) for s, r in self.test(st, Term("eq", (c, x)))]
            return [(V, s, r) for s, r in self.num_test(st, lin_add(a, b, -1), "eq")]
        at_a = ta is Sym and a.atom
        at_b = tb is Sym and b.atom
        if (at_a or ta is Const) and (at_b or tb is Const):
            return [(V, st, False)]
        if (ta is Const and a.v == "") or (tb is Const and b.v == ""):
            x = b if ta is Const else a
            if is_strv(x):
                return [(V, s, r) for s, r in self.num_test(st, self.length(st, x), "eq")]
        for x, y in ((a, b), (b, a)):
            if ta is not tb and isword(x) and type(y) is Const and isinstance(y.v, str) and any(c in y.v for c in "\n/ \t"):
                return [(V, st, False)]
        if ta is Term and tb is Term and a.op == b.op and a.op in ("hexdigest", "encode", "b64encode", "decode", "jsondumps", "listv", "dictv"):
            r = self.image_eq(st, a, b, node)
            if r is not None:
                return r
        if is_strv(a) and is_strv(b):
            return self.word_eq(st, a, b)
        if (is_strv(a) and tb in (Ref, TupleV)) or (is_strv(b) and ta in (Ref, TupleV)):
            return [(V, st, False)]
        if (ta is Ref or tb is Ref) and ((ta is Sym and (a.atom or a.typ)) or (tb is Sym and (b.atom or b.typ))):
            return [(V, st, False)]
        k = sorted((a, b), key=repr)
        return [(V, s, r) for s, r in self.test(st, Term("eq", k))]

    def image_eq(self, st, a, b, node=None):
        """Equality of two images under an injective function (hashes taken as free of collisions); None: not known."""
        if a.op == "jsondumps":
            if a.args[1] != b.args[1]:
                return None
            return self.json_eq(st, a.args[0], b.args[0], a.args[1] == TRUE, node)
        if a.op in ("listv", "dictv"):
            return self.json_eq(st, a, b, True, node)
        if len(a.args) != len(b.args):
            return None
        return self.eq_all(st, list(zip(a.args, b.args)), node)

    def json_eq(self, st, a, b, sort, node=None):
        """Do two JSON values have the same text?"""
        if a == b and type(a) is type(b) and not (type(a) is Const and type(a.v) is not type(b.v)):
            return [(V, st, True)]
        ja, jb = (type(x) is Term and x.op in ("listv", "dictv") for x in (a, b))
        if ja or jb:
            o = b if ja else a
            if ja and jb and a.op == b.op:
                if a.op == "listv":
                    if len(a.args) != len(b.args):
                        return [(V, st, False)]
                    ps = list(zip(a.args, b.args))
                else:
                    if any(type(x) is not TupleV or type(x.items[0]) is not Const for x in a.args + b.args):
                        return None
                    da, db = ([(x.items[0].v, x.items[1]) for x in y.args] for y in (a, b))
                    if sort:
                        da.sort(key=lambda x: x[0])
                        db.sort(key=lambda x: x[0])
                    if [k for k, _ in da] != [k for k, _ in db]:
                        return [(V, st, False)]
                    ps = [(x, y) for (_, x), (_, y) in zip(da, db)]
                outs = [(V, st, True)]
                for x, y in ps:
                    nw = []
                    for o1 in outs:
                        if o1[0] != V or not o1[2]:
                            nw.append(o1)
                            continue
                        r = self.json_eq(o1[1], x, y, sort, node)
                        if r is None:
                            return None
                        nw.extend(r)
                    outs = nw
                return outs
            if ja and jb or type(o) in (Const, Sym) and (type(o) is Const or o.atom or o.typ):
                return [(V, st, False)]
            return None
        if type(a) is Const and type(b) is Const and type(a.v) is not type(b.v):
            return [(V, st, False)]
        return self.eq(st, a, b, node)

    def eq_all(self, st, pairs, node=None):
        if not pairs:
            return [(V, st, True)]
        (x, y), rest = pairs[0], pairs[1:]
        r = []
        for o in self.eq(st, x, y, node):
            if o[0] == V and o[2]:
                r.extend(self.eq_all(o[1], rest, node))
            else:
                r.append(o)
        return r

    def word_eq(self, st, a, b):
        pa, pb = list(parts_of(a)), list(parts_of(b))

        def strip(pa, pb, front):
            while pa and pb:
                i = 0 if front else -1
                x, y = pa[i], pb[i]
                if x == y:
                    pa.pop(i)
                    pb.pop(i)
                    continue
                if type(x) is Const and type(y) is Const:
                    sx, sy = x.v, y.v
                    n = 0
                    if front:
                        while n < min(len(sx), len(sy)) and sx[n] == sy[n]:
                            n += 1
                    else:
                        while n < min(len(sx), len(sy)) and sx[-1 - n] == sy[-1 - n]:
                            n += 1
                    if n < min(len(sx), len(sy)):
                        return False
                    for p, s in ((pa, sx), (pb, sy)):
                        rest = s[n:] if front else s[:len(s) - n]
                        if rest:
                            p[i] = Const(rest)
                        else:
                            p.pop(i)
                    continue
                if (type(x) is Sym and x.atom) and (type(y) is Sym and y.atom):
                    return False
                break
            return True
        if not strip(pa, pb, True) or not strip(pa, pb, False):
            return [(V, st, False)]
        if not pa and not pb:
            return [(V, st, True)]
        for p, q in ((pa, pb), (pb, pa)):
            if not p:
                if any(type(x) is Const or (type(x) is Sym and x.atom) for x in q):
                    return [(V, st, False)]
                return [(V, s, r) for s, r in self.num_test(st, self.length(st, concat(q)), "eq")]
        x, y = concat(pa), concat(pb)
        if all(type(z) is Const or type(z) is Sym and z.atom for z in pa + pb):
            # words over distinct atoms and constants: equal only if identical
            # (atoms contain no separator and are longer than any constant)
            return [(V, st, False)]
        k = sorted((x, y), key=repr)
        return [(V, s, r) for s, r in self.test(st, Term("eq", k))]

    def isnone(self, st, x):
        if x == NONE:
            return [(V, st, True)]
        if type(x) not in (Sym, Term) or notnone(x):
            return [(V, st, False)]
        return [(V, s, r) for s, r in self.test(st, Term("isnone", (x,)))]

    def is_(self, st, a, b):
        if a == NONE or b == NONE:
            return self.isnone(st, b if a == NONE else a)
        if a == b:
            return [(V, st, True)]
        ta, tb = type(a), type(b)
        if ta in (Sym, Term) or tb in (Sym, Term):
            if ta is Const or tb is Const:
                c, x = (a, b) if ta is Const else (b, a)
                if isinstance(c.v, bool):
                    if type(x) is Sym and x.typ == "bool":
                        return [(k, s, r == c.v) for k, s, r in self.branch(st, x)]
                    if is_strv(x) or is_num(x):
                        return [(V, st, False)]
                    r = []
                    for s, e in self.test(st, Term("is", (x, c))):
                        if e:
                            if not self.assume(s, Term("truth", (x,)), c.v):
                                continue
                        r.append((V, s, e))
                    return r
                return self.eq(st, a, b)
            if (ta is Sym and a.atom) or (tb is Sym and b.atom):
                if ta not in (Sym, Term) or tb not in (Sym, Term) or (ta is Sym and tb is Sym and a.atom and b.atom):
                    return [(V, st, False)]
            k = sorted((a, b), key=repr)
            return [(V, s, r) for s, r in self.test(st, Term("is", k))]
        if ta is Const and tb is Const:
            return [(V, st, a.v is b.v or (type(a.v) is type(b.v) and a.v == b.v))]
        return [(V, st, False)]

    # membership / search --------------------------------------------------
    def hashv(self, st, v, node=None):
        """Hash of a value as a value; TypeError when unhashable."""
        if type(v) is Ref:
            o = st.heap[v.oid]
            if o.kind == "inst":
                m = self.class_attr(st, o.cls, "__hash__")
                if m is not None and m != NONE:
                    return self.call(st, self.bindm(m, v), [], {}, node)
                if m == NONE or (self.class_attr(st, o.cls, "__eq__") is not None):
                    return self.exc(st, "TypeError", "unhashable", node=node)
                return [(V, st, Term("hash", (v,)))]
            if o.kind in ("list", "dict", "set"):
                return self.exc(st, "TypeError", "unhashable", node=node)
        return [(V, st, Term("hash", (v,)))]

    def key_eq(self, st, a, b, node=None):
        """Dict/set key equality: equal hash and equal."""
        needs = any(type(x) is Ref and st.heap[x.oid].kind == "inst" for x in (a, b))
        if not needs or a == b:
            return self.eq(st, a, b, node)

        def step(s, ha):
            def step2(s2, hb):
                r = []
                for o in self.eq(s2, ha, hb, node):
                    if o[0] == V and o[2]:
                        r.extend(self.eq(o[1], a, b, node))
                    else:
                        r.append(o)
                return r
            return self.bind(self.hashv(s, b, node), step2)
        return self.bind(self.hashv(st, a, node), step)

    def find(self, st, keys, key, node=None, hashed=True):
        """Outcomes ('v', st, index or -1)."""
        # identical first
        for i, k in enumerate(keys):
            if k == key:
                return [(V, st, i)]

        def go(s, i):
            if i >= len(keys):
                return [(V, s, -1)]
            r = []
            for o in (self.key_eq if hashed else self.eq)(s, keys[i], key, node):
                if o[0] != V:
                    r.append(o)
                elif o[2]:
                    r.append((V, o[1], i))
                else:
                    r.extend(go(o[1], i + 1))
            return r
        return go(st, 0)

    def contains(self, st, c, x, node=None):
        t = type(c)
        if t is TupleV:
            return [(k, s, (i >= 0) if k == V else i) for k, s, i in self.find(st, c.items, x, node, hashed=False)]
        if t is Ref:
            o = st.heap[c.oid]
            if o.kind in ("list", "set"):
                return [(k, s, (i >= 0) if k == V else i) for k, s, i in self.find(st, o.items, x, node, hashed=o.kind == "set")]
            if o.kind == "dict":
                r = []
                for k, s, i in self.dict_find(st, c, x, node):
                    r.append((k, s, (i is not None) if k == V else i))
                return r
            if o.kind == "inst":
                m = self.class_attr(st, o.cls, "__contains__")
                if m is not None:
                    return self.bind(self.call(st, self.bindm(m, c), [x], {}, node), lambda s, r: self.branch(s, r, node))
                if "__items__" in o.attrs:
                    return self.contains(st, o.attrs["__items__"], x, node)
                if self.class_attr(st, o.cls, "__iter__") is not None:
                    return self.bind(self.iterate(st, c, node), lambda s, items: self.contains(s, TupleV(items), x, node))
                if self.class_attr(st, o.cls, "__getitem__") is not None:
                    # the old sequence protocol: c[0], c[1], ... until IndexError
                    self.event(st, "endless_iter", Const(str(o.cls)), node=node)
                    return [(CUT, st, "sequence protocol")]
                return self.exc(st, "TypeError", "argument not iterable", node=node)
            if o.kind == "ext":
                if o.q == "argparse.Namespace" and type(x) is Const:
                    return [(V, st, x.v in o.attrs)]
                return [(V, s, b) for s, b in self.test(st, Term("in", (x, c)))]
        if t is ExtV:
            m = self.model("contains:" + c.q)
            if m:
                return self.bind(m(self, st, [x], {}, node), lambda s, r: self.branch(s, r, node))
        if t is ClassV and c.info.enum is not None:
            return [(V, st, type(x) is EnumV and x.cls == c.info.name)]
        if t is Const and isinstance(c.v, str):
            if type(x) is Const and isinstance(x.v, str):
                return [(V, st, x.v in c.v)]
            if c.v == "":
                return [(V, s, b) for s, b in self.num_test(st, self.length(st, x), "eq")]
            if type(x) is Term and x.op == "chr":
                return [(k, s, (i >= 0) if k == V else i) for k, s, i in self.find(st, [Const(h) for h in dict.fromkeys(c.v)], x, node, hashed=False)]
            return [(V, s, b) for s, b in self.test(st, Term("in", (x, c)))]
        if t is Term and c.op == "concat" and type(x) is Const and isinstance(x.v, str):
            if any(type(p) is Const and x.v in p.v for p in c.args):
                return [(V, st, True)]
            if all(type(p) is Const or (type(p) is Sym and p.atom) for p in c.args) and len(x.v) == 1:
                return [(V, st, False)]
        if t is Sym and c.atom and type(x) is Const and len(str(x.v)) == 1:
            return [(V, st, False)]
        if t is Term and c.op in ("keys",):
            c = c.args[0]
        return [(V, s, b) for s, b in self.test(st, Term("in", (x, c)))]

    def same_key(self, st, d, key):
        """The key under which a mapping that ignores case has this key."""
        o = st.heap[d.oid]
        if o.typ in ("requests.structures.CaseInsensitiveDict", "httpx.Headers") and type(key) is Const and isinstance(key.v, str):
            for k, _ in o.items:
                if type(k) is Const and isinstance(k.v, str) and k.v.lower() == key.v.lower():
                    return k
        return key

    def dict_find(self, st, d, key, node=None):
        """Outcomes ('v', st, value or None) of looking up key."""
        o = st.heap[d.oid]
        key = self.same_key(st, d, key)
        r = []
        for k, s, i in self.find(st, [k for k, _ in o.items], key, node):
            if k != V:
                r.append((k, s, i))
            elif i >= 0:
                r.append((V, s, st.heap[d.oid].items[i][1] if s is st else s.heap[d.oid].items[i][1]))
            elif o.base is None:
                r.append((V, s, None))
            else:
                for k2, s2, j in self.find(s, o.gone, key, node):
                    if k2 != V:
                        r.append((k2, s2, j))
                    elif j >= 0:
                        r.append((V, s2, None))
                    else:
                        for s3, b in self.test(s2, Term("in", (key, o.base))):
                            r.append((V, s3, self.item_term(o.base, key) if b else None))
        return r

    def item_term(self, base, key):
        if type(key) is Term and key.op == "key" and key.args[0] == base:
            return Term("item", (base, key))
        return Term("item", (base, key))

    def dict_set(self, st, d, key, val, node=None):
        r = []
        key = self.same_key(st, d, key)
        for k, s, i in self.find(st, [k for k, _ in st.heap[d.oid].items], key, node):
            if k != V:
                r.append((k, s, i))
                continue
            o = s.mut(d)
            if i >= 0:
                o.items[i] = (o.items[i][0], val)
            else:
                o.items.append((key, val))
                if key in o.gone:
                    o.gone.remove(key)
            r.append((V, s, NONE))
        return r

    def dict_del(self, st, d, key, node=None, missing="KeyError"):
        r = []
        key = self.same_key(st, d, key)
        for k, s, v in self.dict_find(st, d, key, node):
            if k != V:
                r.append((k, s, v))
                continue
            if v is None:
                r.extend(self.exc(s, "KeyError", key, node=node))
                continue
            for k2, s2, i in self.find(s, [k for k, _ in s.heap[d.oid].items], key, node):
                if k2 != V:
                    r.append((k2, s2, i))
                    continue
                o = s2.mut(d)
                if i >= 0:
                    del o.items[i]
                if o.base is not None:
                    o.gone.append(key)
                r.append((V, s2, v))
        return r

    # iteration ------------------------------------------------------------
    def elems(self, st, v, kind="elem"):
        """Representative elements of an unknown collection: outcomes with lists."""
        card = Term("card", (v,))
        known = st.facts.get(card)
        if known is None:
            known = self.pol.decide(self, st, card)
        opts = self.pol.card if known is None else (known,)
        r = []
        for j, n in enumerate(opts):
            s = st if j == len(opts) - 1 else st.fork()
            s.facts[card] = n
            t = Term("truth", (v,))
            if not self.assume(s, t, n > 0):
                continue
            ln = Term("num", (Term("len", (v,)),))
            f = s.facts.get(ln)
            hi = n if n < max(self.pol.card) else INF
            g = Iv(n, False, hi, hi == INF)
            if isinstance(f, Iv):
                g = f.meet(g).norm(True)
                if g is None:
                    continue
            s.facts[ln] = g
            if len(opts) > 1:
                self.forks += 1
            r.append((V, s, [Term(kind, (v, Const(i))) for i in range(n)]))
        return r

    def iterate(self, st, v, node=None):
        """Outcomes ('v', st, [elements])."""
        t = type(v)
        if t is TupleV:
            return [(V, st, list(v.items))]
        if t is Const:
            if isinstance(v.v, str):
                return [(V, st, [Const(c) for c in v.v])]
            if isinstance(v.v, (tuple, list, frozenset)):
                return [(V, st, [Const(c) for c in v.v])]
            if isinstance(v.v, bytes):
                return [(V, st, [Const(c) for c in v.v])]
            return self.exc(st, "TypeError", "not iterable", node=node)
        if t is Ref:
            o = st.heap[v.oid]
            if o.kind in ("list", "set"):
                return [(V, st, list(o.items))]
            if o.kind == "dict":
                return self.bind(self.dict_items(st, v), lambda s, its: [(V, s, [k for k, _ in its])])
            if o.kind == "iter":
                its = list(o.items[o.pos:])
                st.mut(v).pos = len(o.items)
                return [(V, st, its)]
            if o.kind == "inst":
                if "__items__" in o.attrs:
                    return self.iterate(st, o.attrs["__items__"], node)
                m = self.class_attr(st, o.cls, "__iter__")
                if m is not None:
                    return self.bind(self.call(st, self.bindm(m, v), [], {}, node),
                                     lambda s, r: self.iter_next_all(s, r, node) if r == v else self.iterate(s, r, node))
                m = self.class_attr(st, o.cls, "__next__")
                if m is not None:
                    return self.iter_next_all(st, v, node)
            if o.kind == "ext":
                if self.stepper(st, v) is not None:
                    return self.iter_next_all(st, v, node)
                m = self.model(o.q + ".__iter__")
                if m:
                    return self.bind(m(self, st, [v], {}, node), lambda s, r: self.iterate(s, r, node))
            return self.elems(st, v)
        if t is CoroV:
            if v.kind == "gen":
                return self.run_gen(st, v, node)
            return self.exc(st, "TypeError", "coroutine not iterable", node=node)
        if t is ClassV and v.info.enum is not None:
            return [(V, st, list(v.info.enum.values()))]
        if t is Term and v.op == "items":
            return self.bind(self.elems(st, v.args[0], "key"),
                             lambda s, ks: [(V, s, [TupleV((k, self.item_term(v.args[0], k))) for k in ks])])
        if t is Term and v.op == "keys":
            return self.elems(st, v.args[0], "key")
        if t is Term and v.op == "values":
            return self.bind(self.elems(st, v.args[0], "key"),
                             lambda s, ks: [(V, s, [self.item_term(v.args[0], k) for k in ks])])
        if t is Term and v.op == "sorted":
            return self.elems(st, v)
        if t is ExtV:
            m = self.model("iter:" + v.q)
            if m:
                return m(self, st, [], {}, node)
        return self.elems(st, v)

    def stepper(self, st, v):
        """The model of __next__ of an external iterator."""
        if type(v) is Ref and st.heap[v.oid].kind == "ext":
            return self.model(st.heap[v.oid].q + ".__next__")
        return None

    def iter_next_all(self, st, it, node):
        res, work = [], [(st, [])]
        for _ in range(self.pol.while_bound + 3):
            nxt = []
            for s, acc in work:
                step = self.stepper(s, it)
                m = self.class_attr(s, s.heap[it.oid].cls, "__next__") if step is None else None
                if m is None and step is None:
                    return self.elems(st, it)
                for k, s2, r in step(self, s, [it], {}, node) if step else self.call(s, self.bindm(m, it), [], {}, node):
                    if k == V:
                        nxt.append((s2, acc + [r]))
                    elif k == X and r.cls == "StopIteration":
                        res.append((V, s2, acc))
                    else:
                        res.append((k, s2, r))
            work = nxt
            if not work:
                return res
        for s, acc in work:
            self.cuts += 1
            res.append((CUT, s, "iterator bound"))
        return res

    def dict_items(self, st, d):
        o = st.heap[d.oid]
        if o.base is None:
            return [(V, st, list(o.items))]
        out = []
        for k, s, ks in self.elems(st, o.base, "key"):
            if k != V:
                out.append((k, s, ks))
                continue
            o = s.heap[d.oid]
            # base keys not overridden or removed
            work = [(s, list(o.items))]
            for key in ks:
                nw = []
                for s1, acc in work:
                    for k2, s2, i in self.find(s1, [x for x, _ in o.items] + list(o.gone), key):
                        if k2 != V:
                            out.append((k2, s2, i))
                        elif i >= 0:
                            nw.append((s2, acc))
                        else:
                            nw.append((s2, acc + [(key, self.item_term(o.base, key))]))
                work = nw
            out.extend((V, s1, acc) for s1, acc in work)
        return out

    def run_gen(self, st, g, node):
        """Elements of an internal generator, evaluated eagerly."""
        fn = g.f.fn
        if fn.user:
            return self.elems(st, g)
        outs = self.enter(st, g.f, list(g.args), dict(g.kw), node, gen="collect")
        r = []
        for k, s, v in outs:
            if k == V:
                r.append((V, s, list(v)))
            else:
                r.append((k, s, v))
        return r

    # ------------------------------------------------------------ merging
    def merge(self, outs, extra=()):
        if not self.pol.merge or len(outs) < 2:
            return outs
        groups = {}
        order = []
        for o in outs:
            k, s, v = o
            if k == CUT:
                order.append([o])
                continue
            ex = []
            if isinstance(v, Val):
                ex.append(v)
            elif v is not None:
                ex.append(Const(repr(v)) if not isinstance(v, list) else TupleV(v) if all(isinstance(x, Val) for x in v) else Const(repr(v)))
            mb = [(oid, o2) for oid, o2 in s.heap.items() if oid in self.base_heap and self.base_heap[oid] is not o2]
            for oid, o2 in mb:
                ex.append(Ref(oid))
            ex.extend(self.pins)
            fp, reach, syms = fingerprint(s, ex, self.base_heap)
            key = (k, s.notes, fp)
            try:
                g = groups.get(key)
            except TypeError:
                g = None
                key = id(o)
            if g is None:
                g = groups[key] = []
                order.append(g)
            # garbage collect facts about unreachable fresh symbols
            s.facts = {p: f for p, f in s.facts.items() if self.fact_live(p, syms)}
            if len(g) and syms:
                # rename this state's fresh symbols: keep only if literally the same
                pass
            g.append(o)
        res = []
        for g in order:
            if len(g) == 1:
                res.append(g[0])
                continue
            live = list(g)
            changed = True
            while changed and len(live) > 1:
                changed = False
                for i in range(len(live)):
                    for j in range(i + 1, len(live)):
                        f = self.merge2(live[i][1].facts, live[j][1].facts)
                        if f is not None and self.same_syms(live[i][1], live[j][1], f):
                            live[i][1].facts = dict(f)
                            del live[j]
                            self.merged += 1
                            changed = True
                            break
                    if changed:
                        break
            res.extend(live)
        return res

    def same_syms(self, a, b, f):
        return True

    def merge2(self, a, b):
        if a == b:
            return a
        if len(a) == len(b):
            diff = None
            for k, v in a.items():
                w = b.get(k)
                if w is None:
                    return None
                if w != v:
                    if diff is not None:
                        return None
                    diff = k
            v, w = a[diff], b[diff]
            r = dict(a)
            if isinstance(v, bool) and isinstance(w, bool):
                del r[diff]
                return r
            if isinstance(v, Iv) and isinstance(w, Iv):
                u = iv_union(v, w)
                if u is None:
                    return None
                if u == Iv():
                    del r[diff]
                else:
                    r[diff] = u
                return r
            return None
        if len(a) > len(b):
            a, b = b, a
        for k, v in a.items():
            w = b.get(k)
            if w is None or w != v:
                return None
        return a

    def fact_live(self, p, syms):
        for x in walk(p):
            if type(x) is Sym and x.uid and x not in syms:
                return False
        return True

    def pin(self, *vals):
        n = len(self.pins)
        for v in vals:
            if isinstance(v, Val) and type(v) not in (Const, EnumV, ExtV, ModV, ClassV, HookV) and v not in self.pins:
                self.pins.append(v)
        return n

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        work = [st]
        res = []
        for s in stmts:
            nxt = []
            for z in work:
                for o in self.stmt(s, z):
                    if o[0] == N:
                        nxt.append(o[1])
                    else:
                        res.append(o)
            if len(nxt) > 6 and self.pol.merge:
                nxt = [o[1] for o in self.merge([(N, z, None) for z in nxt])]
            work = nxt
            if not work:
                return res
        res.extend((N, z, None) for z in work)
        return res

    def stmt(self, n, st):
        self.steps += 1
        if self.steps & 1023 == 0 and self.deadline is not None and time.time() > self.deadline:
            raise Budget("out of time")
        if self.steps > self.pol.max_steps:
            raise Budget(f"more than {self.pol.max_steps} abstract steps")
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            self.note(st, "unsupported " + type(n).__name__)
            self.unmodelled["stmt " + type(n).__name__] = 1
            return [(N, st, None)]
        fr = st.heap[st.stack[-1]]
        if fr.fn is not None:
            self.visited.add(fr.fn.qual)
        if self.pol.preempt is not None:
            return self.pol.preempt(self, st, n, fr) + self.guarded(m, n, st)
        return self.guarded(m, n, st)

    def guarded(self, m, n, st):
        """A construct on which the analyser itself fails ends its path undecided."""
        stack = st.stack
        try:
            return m(n, st)
        except (IndexError, KeyError, AttributeError, TypeError, ValueError) as e:
            if os.environ.get("VERIF_DEBUG"):
                raise
            st.stack = stack
            self.unmodelled[f"analyser: {type(e).__name__} {e} at {self.loc(st, n)}"[:160]] = 1
            return [(CUT, st, "analyser")]

    def tonext(self, outs):
        return [(N, s, None) if k == V else (k, s, v) for k, s, v in outs]

    def s_Pass(self, n, st):
        return [(N, st, None)]

    def s_Break(self, n, st):
        return [(B, st, None)]

    def s_Continue(self, n, st):
        return [(C, st, None)]

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(N, st, None)]
        return self.tonext(self.ev(n.value, st))

    def s_Return(self, n, st):
        if n.value is None:
            return [(R, st, NONE)]
        return [(R, s, v) if k == V else (k, s, v) for k, s, v in self.ev(n.value, st)]

    def s_Assert(self, n, st):
        r = []
        for k, s, b in self.bind(self.ev(n.test, st), lambda s, v: self.branch(s, v, n)):
            if k == V and b:
                r.append((N, s, None))
            elif k == V:
                r.extend(self.exc(s, "AssertionError", node=n))
            else:
                r.append((k, s, b))
        return r

    def s_If(self, n, st):
        r = []
        for k, s, b in self.bind(self.ev(n.test, st), lambda s, v: self.branch(s, v, n)):
            if k == V:
                r.extend(self.block(n.body if b else n.orelse, s))
            else:
                r.append((k, s, b))
        nx = [o for o in r if o[0] == N]
        if len(nx) > 1 and self.pol.merge:
            r = [o for o in r if o[0] != N] + self.merge(nx)
        return r

    def s_Assign(self, n, st):
        def f(s, v):
            outs = [(V, s, v)]
            for t in n.targets:
                outs = self.bind(outs, lambda s2, _: [(k, s3, v if k == V else e) for k, s3, e in self.assign(t, s2, v)])
            return outs
        return self.tonext(self.bind(self.ev(n.value, st), f))

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [(N, st, None)]
        return self.tonext(self.bind(self.ev(n.value, st), lambda s, v: self.assign(n.target, s, v)))

    def s_AugAssign(self, n, st):
        def f(s, old, store):
            def g(s2, v):
                # in place for lists and sets
                if type(old) is Ref and s2.heap[old.oid].kind in ("list", "set", "dict"):
                    o = s2.heap[old.oid]
                    if o.kind == "list" and isinstance(n.op, ast.Add):
                        return self.bind(self.iterate(s2, v, n), lambda s3, its: self._ext(s3, old, its, store))
                    if o.kind == "set" and isinstance(n.op, (ast.BitOr, ast.Sub, ast.BitAnd)):
                        nm = {ast.BitOr: "update", ast.Sub: "difference_update", ast.BitAnd: "intersection_update"}[type(n.op)]
                        return self.bind(self.call(s2, BoundM(old, nm), [v], {}, n), lambda s3, _: store(s3, old))
                    if o.kind == "dict" and isinstance(n.op, ast.BitOr):
                        return self.bind(self.call(s2, BoundM(old, "update"), [v], {}, n), lambda s3, _: store(s3, old))
                return self.bind(self.binop(s2, n.op, old, v, n), store)
            return self.bind(self.ev(n.value, s), g)
        t = n.target
        if isinstance(t, ast.Name):
            return self.tonext(self.bind(self.e_Name(t, st, load=True), lambda s, o: f(s, o, lambda s2, v: self.assign(t, s2, v))))
        if isinstance(t, ast.Attribute):
            def h(s, obj):
                return self.bind(self.getattr(s, obj, t.attr, n),
                                 lambda s2, old: f(s2, old, lambda s3, v: self.setattr(s3, obj, t.attr, v, n)))
            return self.tonext(self.bind(self.ev(t.value, st), h))
        if isinstance(t, ast.Subscript):
            def h(s, vs):
                obj, idx = vs
                return self.bind(self.getitem(s, obj, idx, n),
                                 lambda s2, old: f(s2, old, lambda s3, v: self.setitem(s3, obj, idx, v, n)))
            return self.tonext(self.bind(self.evs([t.value, t.slice], st), h))
        return [(N, st, None)]

    def _ext(self, s, ref, its, store):
        s.mut(ref).items.extend(its)
        return store(s, ref)

    def s_Delete(self, n, st):
        outs = [(V, st, None)]
        for t in n.targets:
            outs = self.bind(outs, lambda s, _: self.delete(t, s))
        return self.tonext(outs)

    def delete(self, t, st):
        if isinstance(t, ast.Name):
            fr = st.mut(st.stack[-1])
            if t.id in fr.vars:
                del fr.vars[t.id]
                return [(V, st, NONE)]
            return self.exc(st, "NameError", t.id, node=t)
        if isinstance(t, ast.Subscript):
            def f(s, vs):
                obj, idx = vs
                return self.delitem(s, obj, idx, t)
            return self.bind(self.evs([t.value, t.slice], st), f)
        if isinstance(t, ast.Attribute):
            return self.bind(self.ev(t.value, st), lambda s, o: self.delattr(s, o, t.attr, t))
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = [(V, st, None)]
            for e in t.elts:
                outs = self.bind(outs, lambda s, _: self.delete(e, s))
            return outs
        return [(V, st, NONE)]

    def delitem(self, st, obj, idx, node):
        if type(obj) is Ref:
            o = st.heap[obj.oid]
            if o.kind == "dict":
                return self.dict_del(st, obj, idx, node)
            if o.kind == "list":
                if type(idx) is Const and isinstance(idx.v, int):
                    if -len(o.items) <= idx.v < len(o.items):
                        del st.mut(obj).items[idx.v]
                        return [(V, st, NONE)]
                    return self.exc(st, "IndexError", node=node)
                if type(idx) is Term and idx.op == "slice_":
                    lo, hi = idx.args[0], idx.args[1]
                    if all(type(x) is Const for x in (lo, hi)):
                        its = st.mut(obj).items
                        del its[slice(lo.v, hi.v)]
                        return [(V, st, NONE)]
            if o.kind == "inst":
                m = self.class_attr(st, o.cls, "__delitem__")
                if m is not None:
                    return self.call(st, self.bindm(m, obj), [idx], {}, node)
        if type(obj) is ExtV:
            m = self.model("delitem:" + obj.q)
            if m:
                return m(self, st, [idx], {}, node)
        self.event(st, "delitem", obj, idx, node=node)
        return [(V, st, NONE)]

    def delattr(self, st, obj, name, node):
        if type(obj) is Ref:
            o = st.mut(obj)
            if hasattr(o, "attrs") and name in o.attrs:
                del o.attrs[name]
                return [(V, st, NONE)]
            return self.exc(st, "AttributeError", name, node=node)
        if type(obj) is ExtV:
            st.ext.pop(obj.q + "." + name, None)
            self.event(st, "delattr", obj, Const(name), node=node)
            return [(V, st, NONE)]
        st.attrs[(obj, name)] = Const("<deleted>")
        self.event(st, "delattr", obj, Const(name), node=node)
        return [(V, st, NONE)]

    def s_Global(self, n, st):
        return [(N, st, None)]

    s_Nonlocal = s_Global

    def s_Import(self, n, st):
        for a in n.names:
            full = a.name
            if full.split(".")[0] == self.prog.package:
                self.import_mod(st, full)
                v = ModV(full if a.asname else full.split(".")[0])
            else:
                v = ExtV(self.xm.canon(full if a.asname else full.split(".")[0]))
            self.setname(st, a.asname or full.split(".")[0], v)
        return [(N, st, None)]

    def import_mod(self, st, full):
        if full in self.prog.trees:
            parts = full.split(".")
            for i in range(1, len(parts) + 1):
                self.load_module(st, ".".join(parts[:i]))

    def s_ImportFrom(self, n, st):
        mod = n.module or ""
        if n.level:
            cur = st.heap[st.stack[-1]].mod
            base = cur.split(".")
            isp = self.prog.files.get(cur, "").endswith("__init__.py")
            up = n.level - (1 if isp else 0)
            base = base[:len(base) - up] if up else base
            mod = ".".join(base + ([n.module] if n.module else []))
        if mod.split(".")[0] == self.prog.package:
            self.import_mod(st, mod)
        for a in n.names:
            if a.name == "*":
                if mod in self.mods:
                    for k, v in list(st.heap[self.mods[mod]].vars.items()):
                        if not k.startswith("_"):
                            self.setname(st, k, v)
                continue
            if mod.split(".")[0] == self.prog.package:
                v = st.heap[self.mods[mod]].vars.get(a.name) if mod in self.mods else None
                if v is None:
                    sub = mod + "." + a.name
                    if sub in self.prog.trees:
                        self.import_mod(st, sub)
                        v = ModV(sub)
                if v is None:
                    return self.exc(st, "ImportError", f"{mod}.{a.name}", node=n)
            else:
                v = self.ext_value(st, self.xm.canon(mod + "." + a.name))
            self.setname(st, a.asname or a.name, v)
        return [(N, st, None)]

    def ext_value(self, st, q):
        if q in st.ext:
            return st.ext[q]
        if q in self.xm.EXT_CONST:
            return Const(self.xm.EXT_CONST[q])
        if q in EXT_EXC:
            return ExtV(q)
        return ExtV(q)

    def s_FunctionDef(self, n, st):
        def f(s, v):
            self.setname(s, n.name, v)
            return [(V, s, NONE)]
        return self.tonext(self.bind(self.make_function(n, st), f))

    s_AsyncFunctionDef = s_FunctionDef

    def qual(self, st, name):
        fr = st.heap[st.stack[-1]]
        if fr.fn is not None:
            return fr.fn.qual + ".<locals>." + name
        if fr.isclass:
            return fr.isclass + "." + name
        return fr.mod + "." + name

    def make_function(self, n, st):
        name = getattr(n, "name", "<lambda>")
        fr = st.heap[st.stack[-1]]
        info = self.prog.info(n, self.qual(st, name), fr.mod)
        a = n.args
        dnodes = a.defaults + [d for d in a.kw_defaults if d is not None]

        def f(s, ds):
            nd = len(a.defaults)
            pos = (a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - nd:] if nd else []
            defs = {p.arg: d for p, d in zip(pos, ds[:nd])}
            i = nd
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    defs[p.arg] = ds[i]
                    i += 1
            env = s.stack[-1]
            if s.heap[env].isclass:
                env = s.heap[env].parent
            short = info.qual[len(info.mod) + 1:]
            ref = s.alloc(FnO({"__name__": Const(name), "__qualname__": Const(short), "__module__": Const(info.mod)}))
            fv = FuncV(info, env, ref.oid, None, defs)
            outs = [(V, s, fv)]
            for d in reversed(getattr(n, "decorator_list", [])):
                outs = self.bind(outs, lambda s2, cur: self.bind(self.ev(d, s2), lambda s3, dv: self.call(s3, dv, [cur], {}, d)))
            return outs
        return self.bind(self.evs(dnodes, st), f)

    def s_ClassDef(self, n, st):
        fr = st.heap[st.stack[-1]]
        q = self.qual(st, n.name)

        def f(s, bases):
            info = ClassInfo(n.name, q, fr.mod, n)
            info.bases = bases
            mro = [info]
            isenum = False
            for b in bases:
                if type(b) is ClassV:
                    for c in b.info.mro:
                        if c not in mro:
                            mro.append(c)
                    if b.info.enum is not None:
                        isenum = True
                    info.exc = info.exc or b.info.exc
                elif type(b) is ExtV:
                    mro.append(b.q)
                    if b.q in ("enum.Enum", "enum.IntEnum", "enum.StrEnum"):
                        isenum = True
                    if b.q.startswith("builtins.") and b.q[9:] in BUILTIN_EXC:
                        info.exc = True
            info.mro = mro
            cf = s.alloc(FrameO({}, s.stack[-1], None, fr.mod, isclass=q))
            s.stack = s.stack + (cf.oid,)
            outs = []
            for k, s2, v in self.block(n.body, s):
                if k == N:
                    vars_ = s2.heap[cf.oid].vars
                    s2.stack = s2.stack[:-1]
                    co = s2.alloc(ClassO(dict(vars_)))
                    info.oid = co.oid
                    for vv in vars_.values():
                        if type(vv) is FuncV and not vv.fn.user and vv.fn.owner is None:
                            vv.fn.owner = info
                    if isenum:
                        info.enum = {kk: EnumV(n.name, kk, vv.v if type(vv) is Const else repr(vv)) for kk, vv in vars_.items()
                                     if not kk.startswith("_") and type(vv) in (Const, TupleV)}
                        a = s2.mut(co.oid).attrs
                        for kk, ev in info.enum.items():
                            a[kk] = ev
                    if any(kw.arg == "metaclass" for kw in n.keywords):
                        info.meta = True
                    if any(getattr(c, "meta", False) for c in mro if isinstance(c, ClassInfo)):
                        ml = s2.alloc(ListO([Const("__module__"), Const("__qualname__")] + [Const(x) for x in vars_]))
                        s2.mut(co.oid).attrs["member_names"] = ml
                    self.classes[q] = info
                    outs.append((V, s2, ClassV(info)))
                elif k == X:
                    s2.stack = s2.stack[:-1]
                    outs.append((k, s2, v))
            for d in reversed(n.decorator_list):
                outs = self.bind(outs, lambda s2, cur: self.bind(self.ev(d, s2), lambda s3, dv: self.call(s3, dv, [cur], {}, d)))
            return outs

        def g(s, v):
            self.setname(s, n.name, v)
            return [(V, s, NONE)]
        return self.tonext(self.bind(self.bind(self.evs(n.bases, st), f), g))

    def s_Raise(self, n, st):
        if n.exc is None:
            if st.mon.get("__exc"):
                return [(X, st, st.mon["__exc"][-1])]
            return self.exc(st, "RuntimeError", "No active exception", node=n)

        def f(s, v):
            if type(v) is ExcV:
                return [(X, s, v if v.origin else ExcV(v.cls, v.args, self.loc(s, n)))]
            if type(v) is ExtV:
                nm = self.exc_name(v)
                return [(X, s, ExcV(nm, (), self.loc(s, n)))]
            if type(v) is ClassV:
                return self.bind(self.call(s, v, [], {}, n), f)
            if type(v) is Ref and s.heap[v.oid].kind == "inst":
                return [(X, s, ExcV(s.heap[v.oid].cls, (v,), self.loc(s, n)))]
            return [(X, s, ExcV("?Exception", (v,), self.loc(s, n)))]
        return self.bind(self.ev(n.exc, st), f)

    def exc_name(self, v):
        if type(v) is ExtV:
            q = v.q[9:] if v.q.startswith("builtins.") else v.q
            return EXC_ALIAS.get(q, q)
        return v

    def exc_matches(self, e, handler):
        """True/False/None: does exception value e match the handler class?"""
        if type(handler) is TupleV:
            rs = [self.exc_matches(e, h) for h in handler.items]
            if True in rs:
                return True
            return None if None in rs else False
        if type(handler) is ClassV:
            if isinstance(e.cls, ClassV):
                return handler.info in e.cls.info.mro
            return None if isinstance(e.cls, str) and e.cls.startswith("?") and e.cls != "?Exception" else False
        h = self.exc_name(handler)
        if not isinstance(h, str):
            return None
        c = e.cls
        if isinstance(c, ClassV):
            names = [self.exc_name(b) if isinstance(b, Val) else (b[9:] if isinstance(b, str) and b.startswith("builtins.") else b)
                     for b in c.info.mro]
            for x in names:
                if isinstance(x, str) and x in BUILTIN_EXC:
                    if h in BUILTIN_EXC and issubclass(BUILTIN_EXC[x], BUILTIN_EXC[h]):
                        return True
            return False
        if c.startswith("?"):
            bound = c[1:]
            if h in BUILTIN_EXC and issubclass(BUILTIN_EXC[bound], BUILTIN_EXC[h]):
                return True
            if h in BUILTIN_EXC and issubclass(BUILTIN_EXC[h], BUILTIN_EXC[bound]):
                return None
            return None if h not in BUILTIN_EXC else False
        if c == h:
            return True
        while c in EXT_EXC:
            c = EXT_EXC[c]
            if c == h:
                return True
        if c in BUILTIN_EXC and h in BUILTIN_EXC:
            return issubclass(BUILTIN_EXC[c], BUILTIN_EXC[h])
        if c not in BUILTIN_EXC and h in ("Exception", "BaseException"):
            return True
        return False

    def s_Try(self, n, st):
        depth = st.stack
        outs = self.block(n.body, st)
        res = []
        for k, s, v in outs:
            if k == X:
                s.stack = depth
                res.extend(self.handlers(n, s, v))
            elif k == N and n.orelse:
                res.extend(self.block(n.orelse, s))
            else:
                res.append((k, s, v))
        if not n.finalbody:
            return self.join(res)
        res = self.join(res)
        fin = []
        for k, s, v in res:
            if k == CUT:
                fin.append((k, s, v))
                continue
            if k == X:
                s.stack = depth
            old = s.mon.get("__exc")
            if k == X:
                s.mon["__exc"] = (old or ()) + (v,)
            for k2, s2, v2 in self.block(n.finalbody, s):
                if k == X:
                    if old:
                        s2.mon["__exc"] = old
                    else:
                        s2.mon.pop("__exc", None)
                if k2 == N:
                    fin.append((k, s2, v))
                else:
                    fin.append((k2, s2, v2))
        return self.join(fin)

    s_TryStar = s_Try

    def join(self, outs):
        if len(outs) < 2 or not self.pol.merge:
            return outs
        by = {}
        for o in outs:
            by.setdefault(o[0], []).append(o)
        if all(len(x) < 2 for x in by.values()):
            return outs
        r = []
        for x in by.values():
            r.extend(self.merge(x) if len(x) > 1 else x)
        return r

    def handlers(self, n, st, e):
        res = []
        work = [st]
        for h in n.handlers:
            nxt = []
            for s in work:
                if h.type is None:
                    res.extend(self.run_handler(h, s, e))
                    continue
                for k, s2, hv in self.ev(h.type, s):
                    if k != V:
                        res.append((k, s2, hv))
                        continue
                    m = self.exc_matches(e, hv)
                    if m is None:
                        s3 = s2.fork()
                        self.forks += 1
                        res.extend(self.run_handler(h, s2, e))
                        nxt.append(s3)
                    elif m:
                        res.extend(self.run_handler(h, s2, e))
                    else:
                        nxt.append(s2)
            work = nxt
            if not work:
                break
        res.extend((X, s, e) for s in work)
        return res

    def run_handler(self, h, st, e):
        if h.name:
            self.setname(st, h.name, e)
        old = st.mon.get("__exc")
        st.mon["__exc"] = (old or ()) + (e,)
        self.event(st, "except", Const(e.cls if isinstance(e.cls, str) else repr(e.cls)), node=h)
        res = []
        for k, s, v in self.block(h.body, st):
            if old:
                s.mon["__exc"] = old
            else:
                s.mon.pop("__exc", None)
            if h.name and k != CUT:
                fr = s.heap.get(s.stack[-1])
                if fr and h.name in fr.vars:
                    s.mut(s.stack[-1]).vars.pop(h.name, None)
            res.append((k, s, v))
        return res

    # loops ------------------------------------------------------------------
    def s_For(self, n, st):
        def f(s, items):
            it = None
            # live iteration over lists
            return self.loop_items(n, s, items)
        src = self.ev(n.iter, st)
        res = []
        for k, s, v in src:
            if k != V:
                res.append((k, s, v))
                continue
            if type(v) is Ref and s.heap[v.oid].kind == "list":
                res.extend(self.loop_live(n, s, v))
                continue
            if type(v) is CoroV and v.kind == "gen" and not v.f.fn.user:
                res.extend(self.loop_gen(n, s, v))
                continue
            if type(v) is Ref and s.heap[v.oid].kind == "inst" and "__items__" not in s.heap[v.oid].attrs:
                res.extend(self.loop_iterator(n, s, v))
                continue
            step = self.stepper(s, v)
            if step is not None:
                np = self.pin(v)
                res.extend(self.loop_general(n, s, lambda z, step=step, v=v: step(self, z, [v], {}, n)))
                del self.pins[np:]
                continue
            for k2, s2, items in self.iterate(s, v, n):
                if k2 != V:
                    res.append((k2, s2, items))
                else:
                    guard = None
                    if type(v) is Ref and s2.heap[v.oid].kind in ("dict", "set"):
                        guard = (v, len(s2.heap[v.oid].items))
                    res.extend(self.loop_items(n, s2, items, guard))
        return self.join(res)

    s_AsyncFor = s_For

    def loop_body(self, n, s):
        """Outcomes of one iteration: ('go'|'brk'|..., st, v)."""
        r = []
        for k, s2, v in self.block(n.body, s):
            if k in (N, C):
                r.append((N, s2, None))
            else:
                r.append((k, s2, v))
        nx = [o for o in r if o[0] == N]
        if len(nx) > 1 and self.pol.merge:
            r = [o for o in r if o[0] != N] + self.merge(nx)
        return r

    def loop_items(self, n, st, items, guard=None):
        work, res = [st], []
        for x in items:
            nxt = []
            for s in work:
                if guard and len(s.heap[guard[0].oid].items) != guard[1]:
                    res.extend(self.exc(s, "RuntimeError", "changed size during iteration", node=n))
                    continue
                for k, s2, v in self.assign(n.target, s, x):
                    if k != V:
                        res.append((k, s2, v))
                        continue
                    for k3, s3, v3 in self.loop_body(n, s2):
                        if k3 == N:
                            nxt.append(s3)
                        elif k3 == B:
                            res.append((N, s3, None))
                        else:
                            res.append((k3, s3, v3))
            if len(nxt) > 1 and self.pol.merge:
                nxt = [o[1] for o in self.merge([(N, z, None) for z in nxt])]
            work = nxt
        for s in work:
            if guard and len(s.heap[guard[0].oid].items) != guard[1]:
                res.extend(self.exc(s, "RuntimeError", "changed size during iteration", node=n))
            elif n.orelse:
                res.extend(self.block(n.orelse, s))
            else:
                res.append((N, s, None))
        return res

    def loop_live(self, n, st, ref):
        np = self.pin(ref)
        work, res = [(st, 0)], []
        steps = 0
        while work:
            steps += 1
            nxt = []
            for s, i in work:
                o = s.heap[ref.oid]
                if i >= len(o.items):
                    if n.orelse:
                        res.extend(self.block(n.orelse, s))
                    else:
                        res.append((N, s, None))
                    continue
                if steps > 200:
                    self.cuts += 1
                    res.append((CUT, s, "list loop"))
                    continue
                for k, s2, v in self.assign(n.target, s, o.items[i]):
                    if k != V:
                        res.append((k, s2, v))
                        continue
                    for k3, s3, v3 in self.loop_body(n, s2):
                        if k3 == N:
                            nxt.append((s3, i + 1))
                        elif k3 == B:
                            res.append((N, s3, None))
                        else:
                            res.append((k3, s3, v3))
            if len(nxt) > 1 and self.pol.merge:
                by = {}
                for s, i in nxt:
                    by.setdefault(i, []).append((N, s, None))
                nxt = [(o[1], i) for i, os_ in by.items() for o in self.merge(os_)]
            work = nxt
        del self.pins[np:]
        return res

    def loop_iterator(self, n, st, v):
        """for x in <internal object>: __iter__ then __next__ until StopIteration."""
        res = []

        def drive(s, it):
            if type(it) is not Ref or s.heap[it.oid].kind != "inst" or self.class_attr(s, s.heap[it.oid].cls, "__next__") is None:
                out = []
                for k, s2, items in self.iterate(s, it, n):
                    out.extend(self.loop_items(n, s2, items) if k == V else [(k, s2, items)])
                return out

            def nxt(s2):
                m = self.class_attr(s2, s2.heap[it.oid].cls, "__next__")
                return self.call(s2, self.bindm(m, it), [], {}, n)
            np = self.pin(it)
            r = self.loop_general(n, s, nxt)
            del self.pins[np:]
            return r
        m = self.class_attr(st, st.heap[v.oid].cls, "__iter__")
        if m is None:
            return drive(st, v)
        for k, s, it in self.call(st, self.bindm(m, v), [], {}, n):
            if k == V:
                res.extend(drive(s, it))
            else:
                res.append((k, s, it))
        return res

    def loop_general(self, n, st, nextf):
        work, res, seen = [st], [], []
        for _ in range(self.pol.while_bound):
            nw = []
            for s in work:
                for k, s2, x in nextf(s):
                    if k == X and x.cls == "StopIteration":
                        res.extend(self.block(n.orelse, s2) if n.orelse else [(N, s2, None)])
                    elif k != V:
                        res.append((k, s2, x))
                    else:
                        for k3, s3, v3 in self.bind(self.assign(n.target, s2, x), lambda z, _: [(V, z, None)]):
                            if k3 != V:
                                res.append((k3, s3, v3))
                                continue
                            for k4, s4, v4 in self.loop_body(n, s3):
                                if k4 == N:
                                    nw.append(s4)
                                elif k4 == B:
                                    res.append((N, s4, None))
                                else:
                                    res.append((k4, s4, v4))
            work = [o[1] for o in self.merge([(N, z, None) for z in nw])] if self.pol.merge else nw
            if not work:
                return res
        for s in work:
            self.cuts += 1
            res.append((CUT, s, "iterator loop"))
        return res

    def loop_gen(self, n, st, g):
        """for x in internal_generator(): run the generator, the loop body at each yield."""
        outs = []

        def handler(s, val, node):
            caller = s.stack
            s.stack = base_stack
            r = []
            np = self.pin(*[Ref(o) for o in caller[len(base_stack):]])
            try:
                return body(s, val, caller, r)
            finally:
                del self.pins[np:]

        def body(s, val, caller, r):
            for k, s2, v in self.assign(n.target, s, val):
                if k != V:
                    s2.stack = caller
                    r.append((k, s2, v))
                    continue
                for k3, s3, v3 in self.loop_body(n, s2):
                    s3.stack = caller
                    if k3 == N:
                        r.append((V, s3, NONE))
                    elif k3 == B:
                        # the generator is closed
                        s3.mon["__genexit"] = (N, None)
                        r.append((X, s3, ExcV("GeneratorExit", (), "loop")))
                    elif k3 == CUT:
                        r.append((k3, s3, v3))
                    elif k3 == R:
                        s3.mon["__genexit"] = (R, v3)
                        r.append((X, s3, ExcV("GeneratorExit", (), "loop")))
                    else:
                        s3.mon["__genexit"] = (X, v3)
                        r.append((X, s3, ExcV("GeneratorExit", (), "loop")))
            return r
        base_stack = st.stack
        res = []
        for k, s, v in self.enter(st, g.f, list(g.args), dict(g.kw), n, gen=handler):
            if k == X and v.cls == "GeneratorExit" and "__genexit" in s.mon:
                k2, v2 = s.mon.pop("__genexit")
                res.append((k2, s, v2))
            elif k == V:
                res.extend(self.block(n.orelse, s) if n.orelse else [(N, s, None)])
            else:
                res.append((k, s, v))
        return res

    def s_While(self, n, st):
        work, res = [st], []
        heads = {}
        bound = self.pol.while_bound
        for it in range(bound + 1):
            nxt = []
            for s in work:
                for k, s2, b in self.bind(self.ev(n.test, s), lambda z, v: self.branch(z, v, n)):
                    if k != V:
                        res.append((k, s2, b))
                        continue
                    if not b:
                        if n.orelse:
                            res.extend(self.block(n.orelse, s2))
                        else:
                            res.append((N, s2, None))
                        continue
                    if it == bound:
                        self.cuts += 1
                        self.event(s2, "cut", node=n)
                        res.append((CUT, s2, ("while", self.loc(s2, n))))
                        continue
                    for k3, s3, v3 in self.loop_body(n, s2):
                        if k3 == N:
                            nxt.append(s3)
                        elif k3 == B:
                            res.append((N, s3, None))
                        else:
                            res.append((k3, s3, v3))
            if len(nxt) > 1:
                nxt = [o[1] for o in self.merge([(N, z, None) for z in nxt])]
            keep = []
            for s in nxt:
                fp = self.headkey(s)
                seen = heads.setdefault(fp, [])
                if any(self.subsumes(f, s.facts) for f in seen):
                    self.pol.on_loop_closed(self, s, n) if hasattr(self.pol, "on_loop_closed") else None
                    continue
                seen.append(dict(s.facts))
                keep.append(s)
            work = keep
            if not work:
                break
        return self.join(res)

    def headkey(self, s):
        mb = [Ref(oid) for oid, o2 in s.heap.items() if oid in self.base_heap and self.base_heap[oid] is not o2] + self.pins
        fp, _, syms = fingerprint(s, mb, self.base_heap)
        s.facts = {p: f for p, f in s.facts.items() if self.fact_live(p, syms)}
        return (fp, s.notes)

    def subsumes(self, weaker, f):
        for k, v in weaker.items():
            w = f.get(k)
            if w is None:
                return False
            if w != v:
                if isinstance(v, Iv) and isinstance(w, Iv) and v.meet(w).norm(False) == w.norm(False):
                    continue
                return False
        return True

    # with -------------------------------------------------------------------
    def s_With(self, n, st):
        def body(s, i):
            if i >= len(n.items):
                return self.block(n.body, s)
            item = n.items[i]
            res = []
            for k, s2, cm in self.ev(item.context_expr, s):
                if k != V:
                    res.append((k, s2, cm))
                    continue

                def inner(s3, val):
                    if item.optional_vars is None:
                        return body(s3, i + 1)
                    r = []
                    for k4, s4, v4 in self.assign(item.optional_vars, s3, val):
                        r.extend(body(s4, i + 1) if k4 == V else [(k4, s4, v4)])
                    return r
                res.extend(self.with_(s2, cm, inner, n, isinstance(n, ast.AsyncWith)))
            return res
        return self.join(body(st, 0))

    s_AsyncWith = s_With

    def with_(self, st, cm, inner, n, is_async=False):
        """with cm as x: inner(state, x).  inner returns statement outcomes."""
        if type(cm) is CoroV and cm.kind == "ctx":
            return self.with_gen(st, cm, inner, n)
        en, ex = ("__aenter__", "__aexit__") if is_async else ("__enter__", "__exit__")
        res = []
        if type(cm) is Ref and st.heap[cm.oid].kind == "inst":
            cls = st.heap[cm.oid].cls
            if self.class_attr(st, cls, ex) is None and self.class_attr(st, cls, en) is None and self.ext_base(cls) is None:
                return self.exc(st, "AttributeError", en, node=n)
        depth = st.stack
        for k, s, m in self.getattr(st, cm, en, n):
            if k != V:
                res.append((k, s, m))
                continue
            for k2, s2, val in self.bind(self.call(s, m, [], {}, n), lambda z, v: self.await_(z, v, n) if is_async else [(V, z, v)]):
                if k2 != V:
                    res.append((k2, s2, val))
                    continue
                np = self.pin(cm)
                done = self.join(inner(s2, val))
                del self.pins[np:]
                for k3, s3, v3 in done:
                    if k3 == CUT:
                        res.append((k3, s3, v3))
                        continue
                    s3.stack = depth
                    if k3 == X:
                        ea = [Const("<exc type>") if not isinstance(v3.cls, str) else ExtV("builtins." + v3.cls), v3, fresh("traceback", typ="obj")]
                    else:
                        ea = [NONE, NONE, NONE]
                    for k4, s4, m4 in self.getattr(s3, cm, ex, n):
                        if k4 != V:
                            res.append((k4, s4, m4))
                            continue
                        for k5, s5, r5 in self.bind(self.call(s4, m4, ea, {}, n), lambda z, v: self.await_(z, v, n) if is_async else [(V, z, v)]):
                            if k5 != V:
                                res.append((k5, s5, r5))
                            elif k3 == X:
                                for k6, s6, b in self.branch(s5, r5, n):
                                    if k6 != V:
                                        res.append((k6, s6, b))
                                    elif b:
                                        res.append((N, s6, None))
                                    else:
                                        res.append((X, s6, v3))
                            else:
                                res.append((k3, s5, v3))
        return res

    def with_gen(self, st, cm, inner, n):
        """A @contextmanager generator: the body runs at its yield."""
        caller_stack = st.stack
        if cm.f.fn.user:
            # user supplied generator: setup, body, teardown.  An exception of the body is
            # thrown into the generator, which need not be prepared for it
            h = cm.f.fn.handler
            res = []
            if h:
                for k0, s0, v0 in h(self, st, cm.f, [Const(0)] + list(cm.args), {}, n):
                    if k0 != V:
                        res.append((k0, s0, v0))
                        continue
                    for k, s, v in inner(s0, v0):
                        s.stack = caller_stack
                        if k in (X, CUT):
                            res.append((k, s, v))
                            continue
                        for k1, s1, v1 in h(self, s, cm.f, [Const(1)] + list(cm.args), {}, n):
                            if k1 == X and v1.cls == "StopIteration":
                                res.append((k, s1, v))
                            elif k1 == V:
                                res.extend(self.exc(s1, "RuntimeError", "generator didn't stop", node=n))
                            else:
                                res.append((k1, s1, v1))
                return res
            self.event(st, "gen_setup", cm.f, node=n)
            for k, s, v in inner(st, fresh("yielded")):
                s.stack = caller_stack
                self.event(s, "gen_teardown", cm.f, Const(k == X), node=n)
                res.append((k, s, v))
            return res
        uid = len(caller_stack), fresh("cm").uid

        def handler(s, val, node):
            gen_stack = s.stack
            s.stack = caller_stack
            r = []
            np = self.pin(*[Ref(o) for o in gen_stack[len(caller_stack):]])
            done = self.join(inner(s, val))
            del self.pins[np:]
            for k, s2, v in done:
                if k == CUT:
                    r.append((k, s2, v))
                    continue
                s2.stack = gen_stack
                if k == X:
                    s2.mon[("pend", uid)] = (X, v)
                    r.append((X, s2, v))
                else:
                    s2.mon[("pend", uid)] = (k, v)
                    r.append((V, s2, NONE))
            return r
        res = []
        for k, s, v in self.enter(st, cm.f, list(cm.args), dict(cm.kw), n, gen=handler):
            p = s.mon.pop(("pend", uid), None)
            s.stack = caller_stack if k != CUT else s.stack
            if k == CUT:
                res.append((k, s, v))
            elif k == X:
                res.append((X, s, v))
            elif p is None:
                # finished without yielding
                res.extend(self.exc(s, "RuntimeError", "generator didn't yield", node=n))
            elif p[0] == X:
                res.append((N, s, None))    # exception swallowed
            else:
                res.append((p[0], s, p[1]))
        return res

    def s_Match(self, n, st):
        res = []

        def cases(s, subj, i):
            if i >= len(n.cases):
                return [(N, s, None)]
            c = n.cases[i]
            out = []
            for k, s2, m in self.match(c.pattern, s, subj):
                if k != V:
                    out.append((k, s2, m))
                elif not m:
                    out.extend(cases(s2, subj, i + 1))
                elif c.guard is not None:
                    for k3, s3, b in self.bind(self.ev(c.guard, s2), lambda z, v: self.branch(z, v, n)):
                        if k3 != V:
                            out.append((k3, s3, b))
                        else:
                            out.extend(self.block(c.body, s3) if b else cases(s3, subj, i + 1))
                else:
                    out.extend(self.block(c.body, s2))
            return out
        for k, s, v in self.ev(n.subject, st):
            res.extend(cases(s, v, 0) if k == V else [(k, s, v)])
        return self.join(res)

    def match(self, p, st, v):
        if isinstance(p, ast.MatchValue):
            return self.bind(self.ev(p.value, st), lambda s, x: self.eq(s, v, x, p))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(st, v, Const(p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.setname(st, p.name, v)
                return [(V, st, True)]
            r = []
            for k, s, b in self.match(p.pattern, st, v):
                if k == V and b and p.name:
                    self.setname(s, p.name, v)
                r.append((k, s, b))
            return r
        if isinstance(p, ast.MatchOr):
            def go(s, i):
                if i >= len(p.patterns):
                    return [(V, s, False)]
                r = []
                for k, s2, b in self.match(p.patterns[i], s, v):
                    r.extend(go(s2, i + 1) if k == V and not b else [(k, s2, b)])
                return r
            return go(st, 0)
        self.note(st, "unsupported pattern")
        return [(V, s, b) for s, b in self.test(st, Term("truth", (self.vague(st, "match"),)))]

    # ------------------------------------------------------------ names
    def setname(self, st, name, v):
        oid = st.stack[-1]
        fr = st.heap[oid]
        fn = fr.fn
        if fn is not None and not fn.user:
            if name in fn.globals:
                st.mut(self.mods[fr.mod]).vars[name] = v
                return
            if name in fn.nonlocals:
                p = fr.parent
                while p is not None:
                    pf = st.heap[p]
                    if name in pf.vars or (pf.fn is not None and name in pf.fn.locals):
                        st.mut(p).vars[name] = v
                        return
                    p = pf.parent
        st.mut(oid).vars[name] = v

    def assign(self, t, st, v):
        """Outcomes ('v', st, _)."""
        if isinstance(t, ast.Name):
            self.setname(st, t.id, v)
            return [(V, st, NONE)]
        if isinstance(t, ast.Attribute):
            return self.bind(self.ev(t.value, st), lambda s, o: self.setattr(s, o, t.attr, v, t))
        if isinstance(t, ast.Subscript):
            def f(s, vs):
                return self.setitem(s, vs[0], vs[1], v, t)
            return self.bind(self.evs([t.value, t.slice], st), f)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, st, v)
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]

            def put(s, items):
                if star:
                    i = star[0]
                    after = len(t.elts) - i - 1
                    if len(items) < len(t.elts) - 1:
                        return self.exc(s, "ValueError", "not enough values to unpack", node=t)
                    mid = s.alloc(ListO(items[i:len(items) - after]))
                    items = items[:i] + [mid] + (items[len(items) - after:] if after else [])
                if len(items) != len(t.elts):
                    return self.exc(s, "ValueError", "wrong number of values to unpack", node=t)
                outs = [(V, s, NONE)]
                for e, x in zip(t.elts, items):
                    outs = self.bind(outs, lambda s2, _: self.assign(e, s2, x))
                return outs
            if type(v) in (Sym, Term) and not star:
                n = self.unpack_len(st, v, len(t.elts))
                if n is not None:
                    return put(st, n)
            return self.bind(self.iterate(st, v, t), put)
        return [(V, st, NONE)]

    def unpack_len(self, st, v, n):
        """An opaque value unpacked into n targets: assume it has n parts."""
        if type(v) is Term and v.op == "split" and False:
            return None
        if type(v) is Term and v.op in ("items", "keys", "values"):
            return None
        return [Term("item", (v, Const(i))) for i in range(n)]

    # ------------------------------------------------------------ expressions
    def evs(self, nodes, st, f=None):
        """Outcomes with the list of values."""
        outs = [(V, st, [])]
        for nd in nodes:
            if len(outs) == 1 and outs[0][0] == V:
                k, s, acc = outs[0]
                outs = [(k2, s2, acc + [v2]) if k2 == V else (k2, s2, v2) for k2, s2, v2 in self.ev(nd, s)]
            else:
                outs = self.bind(outs, lambda s, acc: [(k2, s2, acc + [v2]) if k2 == V else (k2, s2, v2)
                                                       for k2, s2, v2 in self.ev(nd, s)])
        return outs

    def ev(self, n, st):
        t = type(n)
        if t is ast.Constant:
            return [(V, st, ELL if n.value is Ellipsis else Const(n.value))]
        if t is ast.Name:
            return self.e_Name(n, st)
        m = getattr(self, "e_" + t.__name__, None)
        if m is None:
            self.note(st, "unsupported " + t.__name__)
            return [(V, st, self.vague(st, "expr " + t.__name__))]
        return m(n, st)

    def e_Name(self, n, st, load=False):
        name = n.id
        oid = st.stack[-1]
        fr = st.heap[oid]
        v = fr.vars.get(name)
        if v is not None and not (fr.fn is not None and name in fr.fn.globals):
            return [(V, st, v)]
        fn = fr.fn
        if fn is not None and name in fn.locals:
            return self.exc(st, "UnboundLocalError", name, node=n)
        if fn is not None and name in fn.globals:
            p = None
        else:
            p = fr.parent
        while p is not None:
            pf = st.heap[p]
            if not pf.isclass:
                v = pf.vars.get(name)
                if v is not None:
                    return [(V, st, v)]
            p = pf.parent
        g = self.mods.get(fr.mod)
        if g is not None:
            v = st.heap[g].vars.get(name)
            if v is not None:
                return [(V, st, v)]
        if hasattr(builtins, name):
            return [(V, st, self.ext_value(st, "builtins." + name))]
        if name == "__class__":
            return [(V, st, ClassV(fn.owner))] if fn and fn.owner else self.exc(st, "NameError", name, node=n)
        return self.exc(st, "NameError", name, node=n)

    def e_Attribute(self, n, st):
        return self.bind(self.ev(n.value, st), lambda s, o: self.getattr(s, o, self.mangle(s, n.attr), n))

    def mangle(self, st, name):
        return name

    def e_Tuple(self, n, st):
        return self.bind(self.ev_star(n.elts, st), lambda s, vs: [(V, s, TupleV(vs))])

    def e_List(self, n, st):
        return self.bind(self.ev_star(n.elts, st), lambda s, vs: [(V, s, s.alloc(ListO(vs)))])

    def e_Set(self, n, st):
        def f(s, vs):
            ref = s.alloc(SetO())
            return self.bind(self.set_add(s, ref, vs, n), lambda s2, _: [(V, s2, ref)])
        return self.bind(self.ev_star(n.elts, st), f)

    def set_add(self, st, ref, vals, node=None):
        outs = [(V, st, NONE)]
        for v in vals:
            def g(s, _, v=v):
                r = []
                for k, s2, i in self.find(s, s.heap[ref.oid].items, v, node):
                    if k == V:
                        if i < 0:
                            s2.mut(ref).items.append(v)
                        r.append((V, s2, NONE))
                    else:
                        r.append((k, s2, i))
                return r
            outs = self.bind(outs, g)
        return outs

    def ev_star(self, elts, st):
        outs = [(V, st, [])]
        for e in elts:
            if isinstance(e, ast.Starred):
                outs = self.bind(outs, lambda s, acc, e=e: self.bind(
                    self.bind(self.ev(e.value, s), lambda s2, v: self.iterate(s2, v, e)),
                    lambda s3, its: [(V, s3, acc + its)]))
            else:
                outs = self.bind(outs, lambda s, acc, e=e: [(k, s2, acc + [v]) if k == V else (k, s2, v)
                                                            for k, s2, v in self.ev(e, s)])
        return outs

    def e_Dict(self, n, st):
        ref = [None]

        def start(s):
            r = s.alloc(DictO())
            return [(V, s, r)]
        outs = start(st)
        for k, v in zip(n.keys, n.values):
            if k is None:
                def f(s, d, v=v):
                    return self.bind(self.ev(v, s), lambda s2, src: self.bind(
                        self.dict_update(s2, d, src, v), lambda s3, _: [(V, s3, d)]))
            else:
                def f(s, d, k=k, v=v):
                    return self.bind(self.evs([k, v], s), lambda s2, kv: self.bind(
                        self.dict_set(s2, d, kv[0], kv[1], n), lambda s3, _: [(V, s3, d)]))
            outs = self.bind(outs, f)
        return outs

    def dict_update(self, st, d, src, node=None):
        if type(src) is Ref and st.heap[src.oid].kind == "dict":
            o = st.heap[src.oid]
            me = st.heap[d.oid]
            if o.base is not None and not me.items and me.base is None:
                me = st.mut(d)
                me.base, me.gone, me.items = o.base, list(o.gone), list(o.items)
                return [(V, st, NONE)]
            outs = self.dict_items(st, src)
        elif type(src) in (Sym, Term) and not (type(src) is Term and src.op == "items"):
            me = st.heap[d.oid]
            if not me.items and me.base is None:
                st.mut(d).base = src
                return [(V, st, NONE)]
            outs = self.bind(self.elems(st, src, "key"), lambda s, ks: [(V, s, [(k, self.item_term(src, k)) for k in ks])])
        else:
            outs = self.bind(self.iterate(st, src, node), lambda s, its: self.pairs(s, its, node))

        def f(s, items):
            o2 = [(V, s, NONE)]
            for k, v in items:
                o2 = self.bind(o2, lambda s2, _: self.dict_set(s2, d, k, v, node))
            return o2
        return self.bind(outs, f)

    def pairs(self, st, its, node):
        outs = [(V, st, [])]
        for x in its:
            outs = self.bind(outs, lambda s, acc, x=x: self.bind(self.iterate(s, x, node) if type(x) not in (Sym, Term) else
                                                                 [(V, s, [Term("item", (x, Const(0))), Term("item", (x, Const(1)))])],
                                                                 lambda s2, kv: [(V, s2, acc + [(kv[0], kv[1])])] if len(kv) == 2 else
                                                                 self.exc(s2, "ValueError", node=node)))
        return outs

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)

        def go(s, i):
            outs = self.ev(n.values[i], s)
            if i == len(n.values) - 1:
                return outs
            res = []
            for k, s2, v in outs:
                if k != V:
                    res.append((k, s2, v))
                    continue
                for k3, s3, b in self.branch(s2, v, n):
                    if k3 != V:
                        res.append((k3, s3, b))
                    elif b == is_and:
                        res.extend(go(s3, i + 1))
                    else:
                        res.append((V, s3, self.refine_bool(v, b)))
            return res
        return go(st, 0)

    def refine_bool(self, v, b):
        if type(v) is Sym and v.typ == "bool":
            return Const(b)
        if type(v) is Term and v.op in ("pred", "not"):
            return Const(b)
        return v

    def e_UnaryOp(self, n, st):
        def f(s, v):
            if isinstance(n.op, ast.Not):
                return [(k, s2, Const(not b) if k == V else b) for k, s2, b in self.branch(s, v, n)]
            if isinstance(n.op, ast.USub):
                if type(v) is Const and isinstance(v.v, (int, float)):
                    return [(V, s, Const(-v.v))]
                return [(V, s, lin_add(Const(0), v, -1))]
            if isinstance(n.op, ast.UAdd):
                return [(V, s, v)]
            if type(v) is Const:
                return [(V, s, Const(~v.v))]
            return [(V, s, Term("invert", (v,)))]
        return self.bind(self.ev(n.operand, st), f)

    def e_IfExp(self, n, st):
        res = []
        for k, s, b in self.bind(self.ev(n.test, st), lambda s, v: self.branch(s, v, n)):
            if k == V:
                res.extend(self.ev(n.body if b else n.orelse, s))
            else:
                res.append((k, s, b))
        return res

    def e_NamedExpr(self, n, st):
        def f(s, v):
            # comprehension frames: bind in the function
            self.setname(s, n.target.id, v)
            return [(V, s, v)]
        return self.bind(self.ev(n.value, st), f)

    def e_Lambda(self, n, st):
        return self.make_function(n, st)

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_Compare(self, n, st):
        def go(s, left, i):
            res = []
            for k, s2, right in self.ev(n.comparators[i], s):
                if k != V:
                    res.append((k, s2, right))
                    continue
                last = i == len(n.ops) - 1
                for k3, s3, b in self.compare(s2, n.ops[i], left, right, n):
                    if k3 != V:
                        res.append((k3, s3, b))
                    elif isinstance(b, Val):
                        res.append((V, s3, b))
                    elif last or not b:
                        res.append((V, s3, Const(b)))
                    else:
                        res.extend(go(s3, right, i + 1))
            return res
        return self.bind(self.ev(n.left, st), lambda s, v: go(s, v, 0))

    def compare(self, st, op, a, b, node=None):
        t = type(op)
        if t is ast.Eq:
            return self.eq(st, a, b, node)
        if t is ast.NotEq:
            return [(k, s, (not r) if k == V else r) for k, s, r in self.eq(st, a, b, node)]
        if t is ast.Is:
            return self.is_(st, a, b)
        if t is ast.IsNot:
            return [(k, s, (not r) if k == V else r) for k, s, r in self.is_(st, a, b)]
        if t is ast.In:
            return self.contains(st, b, a, node)
        if t is ast.NotIn:
            return [(k, s, (not r) if k == V else r) for k, s, r in self.contains(st, b, a, node)]
        # order
        if t is ast.Lt:
            return self.less(st, a, b, node)
        if t is ast.Gt:
            return self.less(st, b, a, node)
        if t is ast.GtE:
            return [(k, s, (not r) if k == V else r) for k, s, r in self.less(st, a, b, node)]
        if t is ast.LtE:
            return [(k, s, (not r) if k == V else r) for k, s, r in self.less(st, b, a, node)]
        return [(V, st, False)]

    def less(self, st, a, b, node=None):
        if type(a) is Const and type(b) is Const:
            try:
                return [(V, st, a.v < b.v)]
            except TypeError:
                return self.exc(st, "TypeError", "unorderable", node=node)
        if a == b:
            return [(V, st, False)]
        if NONE in (a, b):
            return self.exc(st, "TypeError", "unorderable None", node=node)
        if type(a) is TupleV and type(b) is TupleV:
            def go(s, i):
                if i >= len(a.items) or i >= len(b.items):
                    return [(V, s, len(a.items) < len(b.items))]
                r = []
                for k, s2, e in self.eq(s, a.items[i], b.items[i], node):
                    if k != V:
                        r.append((k, s2, e))
                    elif e:
                        r.extend(go(s2, i + 1))
                    else:
                        r.extend(self.less(s2, a.items[i], b.items[i], node))
                return r
            return go(st, 0)
        if type(a) is Ref and type(b) is Ref and st.heap[a.oid].kind == "list" and st.heap[b.oid].kind == "list":
            return self.less(st, TupleV(st.heap[a.oid].items), TupleV(st.heap[b.oid].items), node)
        if type(a) is Ref and st.heap[a.oid].kind == "set" and type(b) is Ref:
            return [(V, st, set(st.heap[a.oid].items) < set(st.heap[b.oid].items))]
        if type(a) is Ref and st.heap[a.oid].kind == "inst":
            m = self.class_attr(st, st.heap[a.oid].cls, "__lt__")
            if m is not None:
                return self.bind(self.call(st, self.bindm(m, a), [b], {}, node), lambda s, r: self.branch(s, r, node))
        if is_strv(a) or is_strv(b) or type(a) is Ref or type(b) is Ref:
            k = (a, b)
            f = st.facts.get(Term("slt", (b, a)))
            if f is True:
                return [(V, st, False)]
            if f is False:
                # b >= ... : not (b < a) means a <= b; unknown unless unequal
                e = st.facts.get(Term("eq", sorted((a, b), key=repr)))
                if e is False or (type(a) is Sym and type(b) is Sym and a.atom and b.atom):
                    return [(V, st, True)]
            return [(V, s, r) for s, r in self.test(st, Term("slt", k))]
        return [(V, s, r) for s, r in self.num_test(st, lin_add(a, b, -1), "lt")]

    def e_BinOp(self, n, st):
        return self.bind(self.evs([n.left, n.right], st), lambda s, vs: self.binop(s, n.op, vs[0], vs[1], n))

    OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
           ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
           ast.Pow: lambda a, b: a ** b, ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b,
           ast.BitXor: lambda a, b: a ^ b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b}

    def binop(self, st, op, a, b, node=None):
        t = type(op)
        ta, tb = type(a), type(b)
        if ta is Const and tb is Const:
            try:
                return [(V, st, Const(self.OPS[t](a.v, b.v)))]
            except ZeroDivisionError:
                return self.exc(st, "ZeroDivisionError", node=node)
            except TypeError:
                return self.exc(st, "TypeError", f"operand {a!r} {b!r}", node=node)
        # containers
        if ta is Ref or tb is Ref:
            oa = st.heap[a.oid] if ta is Ref else None
            ob = st.heap[b.oid] if tb is Ref else None
            if oa is not None and oa.kind == "list" and t is ast.Add:
                if ob is not None and ob.kind == "list":
                    return [(V, st, st.alloc(ListO(oa.items + ob.items)))]
                return self.bind(self.iterate(st, b, node), lambda s, its: [(V, s, s.alloc(ListO(oa.items + its)))])
            if oa is not None and oa.kind == "list" and t is ast.Mult and tb is Const:
                return [(V, st, st.alloc(ListO(oa.items * b.v)))]
            if ob is not None and ob.kind == "list" and t is ast.Mult and ta is Const:
                return [(V, st, st.alloc(ListO(ob.items * a.v)))]
            if oa is not None and oa.kind == "set" and t in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
                return self.setop(st, t, a, b, node)
            if oa is not None and oa.kind == "dict" and t is ast.BitOr:
                d = st.alloc(oa.copy())
                return self.bind(self.dict_update(st, d, b, node), lambda s, _: [(V, s, d)])
            nm = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitOr: "__or__", ast.BitAnd: "__and__",
                  ast.Div: "__truediv__"}.get(t)
            if oa is not None and oa.kind == "inst" and nm:
                m = self.class_attr(st, oa.cls, nm)
                if m is not None:
                    return self.call(st, self.bindm(m, a), [b], {}, node)
            if oa is not None and oa.kind == "ext":
                m = self.model(oa.q + "." + (nm or ""))
                if m:
                    return m(self, st, [a, b], {}, node)
        if ta is TupleV and tb is TupleV and t is ast.Add:
            return [(V, st, TupleV(a.items + b.items))]
        if ta is TupleV and t is ast.Mult and tb is Const:
            return [(V, st, TupleV(a.items * b.v))]
        if t is ast.Add:
            if is_strv(a) or is_strv(b):
                if a == NONE or b == NONE or is_num(a) and ta is Const or is_num(b) and tb is Const:
                    return self.exc(st, "TypeError", "can only concatenate str", node=node)
                return [(V, st, concat([a, b]))]
            if ta is Const and isinstance(a.v, bytes) or tb is Const and isinstance(b.v, bytes):
                return [(V, st, Term("bconcat", (a, b)))]
            if is_num(a) or is_num(b):
                return [(V, st, lin_add(a, b))]
            if NONE in (a, b):
                return self.exc(st, "TypeError", "None operand", node=node)
            return [(V, st, Term("add", (a, b)))]
        if t is ast.Sub:
            if NONE in (a, b):
                return self.exc(st, "TypeError", "None operand", node=node)
            if ta in (Sym, Term) and not is_num(a) and tb in (Ref,):
                return [(V, st, Term("diffset", (a, b)))]
            return [(V, st, lin_add(a, b, -1))]
        if t is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if type(x) is Const and isinstance(x.v, (int, float)) and not is_strv(y):
                    c, d = lin_parts(y)
                    return [(V, st, mk_lin(c * x.v, {k: w * x.v for k, w in d.items()}))]
            if is_strv(a) or is_strv(b):
                return [(V, st, Term("smeth", (a, Const("*"), b)))]
            return [(V, st, Term("mul", tuple(sorted((a, b), key=repr))))]
        if t is ast.Mod and is_strv(a):
            if ta is Const:
                r = self.percent(st, a.v, b, node)
                if r is not None:
                    return r
            return [(V, st, Term("smeth", (a, Const("%"), b)))]
        if t in (ast.BitOr, ast.BitAnd):
            # booleans / sets of unknowns
            if all(type(x) is Const and isinstance(x.v, bool) or type(x) is Sym and x.typ == "bool" for x in (a, b)):
                r = []
                for k, s, x in self.branch(st, a):
                    for k2, s2, y in self.branch(s, b):
                        r.append((V, s2, Const((x or y) if t is ast.BitOr else (x and y))))
                return r
        nm = {ast.Div: "div", ast.FloorDiv: "int", ast.Mod: "mod", ast.Pow: "pow"}.get(t, t.__name__.lower())
        if NONE in (a, b):
            return self.exc(st, "TypeError", "None operand", node=node)
        return [(V, st, Term(nm, (a, b)))]

    PERCENT = re.compile(r"%(?:\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([sdirf%])")

    def percent(self, st, form, b, node):
        """form % b: a list of outcomes, or None if a conversion is not modelled."""
        bits, at = [], 0
        for m in self.PERCENT.finditer(form):
            if "%" in form[at:m.start()]:
                return None
            bits += [form[at:m.start()], m]
            at = m.end()
        if "%" in form[at:]:
            return None
        bits.append(form[at:])
        convs = [m for m in bits if not isinstance(m, str) and m[3] != "%"]
        named = [m for m in convs if m[1]]
        if named:
            if len(named) != len(convs) or type(b) is not Ref or st.heap[b.oid].kind != "dict":
                return None
            args = None
        else:
            args = list(b.items) if type(b) is TupleV else [b]
            if len(args) != len(convs):
                return self.exc(st, "TypeError", "arguments of a format", node=node)
        outs = [(V, st, [])]
        i = 0
        for m in bits:
            if isinstance(m, str) or m[3] == "%":
                outs = [(k, s, v + [Const(m if isinstance(m, str) else "%")]) if k == V else (k, s, v) for k, s, v in outs]
                continue

            def f(s, acc, m=m, x=None if args is None else args[i]):
                def one(s2, v):
                    if m[3] in "di" and type(v) is not Const and (not is_num(v) or not is_int(v)):
                        v = Term("int", (v,))
                    if m[2] or m[3] == "f":
                        if type(v) is Const:
                            try:
                                return [(V, s2, acc + [Const(("%" + m[2] + m[3]) % v.v)])]
                            except TypeError:
                                return self.exc(s2, "TypeError", "argument of a format", node=node)
                        return [(V, s2, acc + [Term("fmt", (v, Const(m[2] + m[3])))])]
                    if m[3] == "r":
                        return [(V, s2, acc + [Const(repr(v.v)) if type(v) is Const else Term("repr", (self.freeze(s2, v),))])]
                    if m[3] in "di" and type(v) is Const:
                        try:
                            return [(V, s2, acc + [Const("%d" % v.v)])]
                        except TypeError:
                            return self.exc(s2, "TypeError", "argument of a format", node=node)
                    return self.bind(self.tostr(s2, v, node), lambda s3, w: [(V, s3, acc + [w])])
                if x is None:
                    return self.bind(self.getitem(s, b, Const(m[1]), node), one)
                return one(s, x)
            outs = self.bind(outs, f)
            i += 1
        return [(k, s, concat(v)) if k == V else (k, s, v) for k, s, v in outs]

    def setop(self, st, t, a, b, node):
        def f(s, items):
            oa = list(s.heap[a.oid].items)
            if t is ast.BitOr:
                ref = s.alloc(SetO(oa))
                return self.bind(self.set_add(s, ref, items, node), lambda s2, _: [(V, s2, ref)])

            def sel(s2, i, acc):
                if i >= len(oa):
                    return [(V, s2, s2.alloc(SetO(acc)))]
                r = []
                for k, s3, j in self.find(s2, items, oa[i], node):
                    if k != V:
                        r.append((k, s3, j))
                    else:
                        keep = (j >= 0) == (t is ast.BitAnd)
                        r.extend(sel(s3, i + 1, acc + [oa[i]] if keep else acc))
                return r
            return sel(s, 0, [])
        return self.bind(self.iterate(st, b, node), f)

    def e_JoinedStr(self, n, st):
        outs = [(V, st, [])]
        for p in n.values:
            if isinstance(p, ast.Constant):
                outs = [(k, s, v + [Const(p.value)]) if k == V else (k, s, v) for k, s, v in outs]
            else:
                def f(s, acc, p=p):
                    def g(s2, v):
                        if p.format_spec is not None:
                            return self.bind(self.ev(p.format_spec, s2), lambda s3, spec: [(V, s3, acc + [self.fmt(v, spec)])])
                        if p.conversion == ord("r"):
                            return [(V, s2, acc + [Term("repr", (v,))])]
                        return self.bind(self.tostr(s2, v, n), lambda s3, x: [(V, s3, acc + [x])])
                    return self.bind(self.ev(p.value, s), g)
                outs = self.bind(outs, f)
        return [(k, s, concat(v)) if k == V else (k, s, v) for k, s, v in outs]

    def fmt(self, v, spec):
        if type(v) is Const and type(spec) is Const:
            try:
                return Const(format(v.v, spec.v))
            except Exception:
                pass
        return Term("fmt", (v, spec))

    e_FormattedValue = None

    def tostr(self, st, v, node=None):
        t = type(v)
        if t is Const:
            return [(V, st, v if isinstance(v.v, str) else Const(str(v.v)))]
        if t is EnumV:
            return [(V, st, Const(f"{v.cls}.{v.name}"))]
        if is_strv(v):
            return [(V, st, v)]
        if t is Ref and st.heap[v.oid].kind == "inst":
            for nm in ("__str__", "__repr__"):
                m = self.class_attr(st, st.heap[v.oid].cls, nm)
                if m is not None:
                    return self.call(st, self.bindm(m, v), [], {}, node)
        if t is Ref or t is TupleV:
            return [(V, st, Term("str", (self.freeze(st, v),)))]
        return [(V, st, Term("str", (v,)))]

    def e_Subscript(self, n, st):
        return self.bind(self.evs([n.value, n.slice], st), lambda s, vs: self.getitem(s, vs[0], vs[1], n))

    def e_Slice(self, n, st):
        nodes = [n.lower, n.upper, n.step]

        def f(s, vs):
            it = iter(vs)
            return [(V, s, Term("slice_", [next(it) if x is not None else NONE for x in nodes]))]
        return self.bind(self.evs([x for x in nodes if x is not None], st), f)

    def e_Await(self, n, st):
        return self.bind(self.ev(n.value, st), lambda s, v: self.await_(s, v, n))

    def await_(self, st, v, node=None):
        if type(v) is CoroV and v.kind == "coro":
            self.event(st, "await", v.f, node=node)
            if v.f.fn.user:
                return self.user_body(st, v.f, list(v.args), dict(v.kw), node)
            return self.enter(st, v.f, list(v.args), dict(v.kw), node)
        if type(v) is Term and v.op in ("coro", "res", "call", "item", "attr") or type(v) is Sym and not v.typ:
            self.event(st, "await_ext", v, node=node)
            return [(V, st, Term("await", (v,)))]
        return self.exc(st, "TypeError", "object can't be used in 'await' expression", node=node)

    def e_Yield(self, n, st):
        outs = [(V, st, NONE)] if n.value is None else self.ev(n.value, st)

        def f(s, v):
            fr = s.heap[s.stack[-1]]
            if fr.yh == "collect":
                s.mut(s.stack[-1]).yields.append(v)
                return [(V, s, NONE)]
            if fr.yh is None:
                self.note(s, "yield outside modelled generator")
                return [(V, s, NONE)]
            return fr.yh(s, v, n)
        return self.bind(outs, f)

    def e_YieldFrom(self, n, st):
        def f(s, v):
            def g(s2, items):
                outs = [(V, s2, NONE)]
                for x in items:
                    def h(s3, _, x=x):
                        fr = s3.heap[s3.stack[-1]]
                        if fr.yh == "collect":
                            s3.mut(s3.stack[-1]).yields.append(x)
                            return [(V, s3, NONE)]
                        return fr.yh(s3, x, n) if fr.yh else [(V, s3, NONE)]
                    outs = self.bind(outs, h)
                return outs
            return self.bind(self.iterate(s, v, n), g)
        return self.bind(self.ev(n.value, st), f)

    # comprehensions -----------------------------------------------------------
    def comp(self, n, st, emit):
        """Run the generators of comprehension n; emit(st) -> outcomes at each element."""
        fr = st.heap[st.stack[-1]]
        # comprehension scope: a child frame that shares the function's identity
        cf = st.alloc(FrameO({}, st.stack[-1] if not fr.isclass else fr.parent, None, fr.mod, yh=fr.yh))
        st.stack = st.stack + (cf.oid,)

        def gen(s, i):
            if i >= len(n.generators):
                return self.tonext(emit(s))
            g = n.generators[i]
            res = []
            for k, s2, v in self.ev(g.iter, s):
                for k3, s3, items in (self.iterate(s2, v, n) if k == V else [(k, s2, v)]):
                    if k3 != V:
                        res.append((k3, s3, items))
                        continue
                    work = [s3]
                    for x in items:
                        nxt = []
                        for s4 in work:
                            for k5, s5, v5 in self.assign(g.target, s4, x):
                                if k5 != V:
                                    res.append((k5, s5, v5))
                                    continue
                                for k6, s6, b in self.conds(s5, g.ifs, n):
                                    if k6 != V:
                                        res.append((k6, s6, b))
                                    elif not b:
                                        nxt.append(s6)
                                    else:
                                        for k7, s7, v7 in gen(s6, i + 1):
                                            if k7 == N:
                                                nxt.append(s7)
                                            else:
                                                res.append((k7, s7, v7))
                        work = nxt
                    res.extend((N, z, None) for z in work)
            return res
        out = []
        for k, s, v in gen(st, 0):
            if k != CUT:
                s.stack = s.stack[:s.stack.index(cf.oid)]
            out.append((V, s, NONE) if k == N else (k, s, v))
        return out

    def conds(self, st, ifs, n):
        outs = [(V, st, True)]
        for c in ifs:
            r = []
            for k, s, b in outs:
                if k == V and b:
                    r.extend(self.bind(self.ev(c, s), lambda z, v: self.branch(z, v, n)))
                else:
                    r.append((k, s, b))
            outs = r
        return outs

    def e_ListComp(self, n, st):
        ref = st.alloc(ListO())

        def emit(s):
            def f(s2, v):
                s2.mut(ref).items.append(v)
                return [(V, s2, NONE)]
            return self.bind(self.ev(n.elt, s), f)
        return self.bind(self.comp(n, st, emit), lambda s, _: [(V, s, ref)])

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st):
        ref = st.alloc(SetO())

        def emit(s):
            return self.bind(self.ev(n.elt, s), lambda s2, v: self.set_add(s2, ref, [v], n))
        return self.bind(self.comp(n, st, emit), lambda s, _: [(V, s, ref)])

    def e_DictComp(self, n, st):
        ref = st.alloc(DictO())

        def emit(s):
            return self.bind(self.evs([n.key, n.value], s), lambda s2, kv: self.dict_set(s2, ref, kv[0], kv[1], n))
        return self.bind(self.comp(n, st, emit), lambda s, _: [(V, s, ref)])

    # ------------------------------------------------------------ attributes
    def mro(self, cls):
        return cls.info.mro if type(cls) is ClassV else []

    def class_attr(self, st, cls, name):
        """Attribute of an internal class along its MRO, or None."""
        if type(cls) is not ClassV:
            return None
        for c in cls.info.mro:
            if isinstance(c, ClassInfo):
                v = st.heap[c.oid].attrs.get(name)
                if v is not None:
                    return v
        return None

    def ext_base(self, cls):
        if type(cls) is ClassV:
            for c in cls.info.mro:
                if isinstance(c, str) and c not in ("builtins.object", "abc.ABC"):
                    return c
        return None

    def bindm(self, m, self_):
        if type(m) is FuncV and m.self_ is None:
            return m.bind(self_)
        if type(m) is Term and m.op == "staticmethod":
            return m.args[0]
        if type(m) is Term and m.op == "classmethod":
            return m.args[0]
        return m

    def getattr(self, st, o, name, node=None, default=None):
        """Outcomes of o.name; AttributeError when certainly or possibly absent."""
        t = type(o)
        if name in ("__class__",):
            return [(V, st, self.type_of(st, o))]
        if t is Ref:
            ob = st.heap[o.oid]
            k = ob.kind
            if k == "inst":
                if name == "__dict__":
                    return [(V, st, st.alloc(DictO([(Const(a), v) for a, v in ob.attrs.items() if not a.startswith("__items")])))]
                cv = self.class_attr(st, ob.cls, name)
                if type(cv) is Term and cv.op == "property":
                    return self.call(st, self.bindm(cv.args[0], o), [], {}, node)
                if type(cv) is Term and cv.op == "cached_property" and name not in ob.attrs:
                    def keep(s, v):
                        s.mut(o).attrs[name] = v
                        return [(V, s, v)]
                    return self.bind(self.call(st, self.bindm(cv.args[0], o), [], {}, node), keep)
                if name in ob.attrs:
                    return [(V, st, ob.attrs[name])]
                if cv is not None:
                    if type(cv) is FuncV:
                        return [(V, st, cv.bind(o))]
                    if type(cv) is Term and cv.op == "staticmethod":
                        return [(V, st, cv.args[0])]
                    if type(cv) is Term and cv.op == "classmethod":
                        return [(V, st, cv.args[0].bind(ob.cls))]
                    return [(V, st, cv)]
                g = self.class_attr(st, ob.cls, "__getattr__")
                if g is not None and not name.startswith("__"):
                    return self.call(st, self.bindm(g, o), [Const(name)], {}, node)
                eb = self.ext_base(ob.cls)
                if eb is not None and not (name.startswith("_") and not name.startswith("__")):
                    if self.model(eb + "." + name) or not self.xm.closed(eb):
                        return [(V, st, BoundM(o, name))]
                if name in ("__init__", "__str__", "__repr__", "__eq__", "__hash__"):
                    return [(V, st, BoundM(o, name))]
                return self.exc(st, "AttributeError", f"{ob.cls!r}.{name}", node=node)
            if k == "ext":
                if name in ob.attrs:
                    return [(V, st, ob.attrs[name])]
                m = self.model("attr:" + ob.q + "." + name)
                if m:
                    return m(self, st, [o], {}, node)
                if ob.q == "argparse.Namespace":
                    return self.exc(st, "AttributeError", name, node=node)
                cv = st.ext.get(ob.q + "." + name)
                if type(cv) is FuncV:
                    return [(V, st, cv.bind(o))]
                return [(V, st, BoundM(o, name))]
            if k in ("list", "dict", "set", "iter"):
                if name == "__iter__" and k == "iter":
                    return [(V, st, BoundM(o, name))]
                if not hasattr({"list": list, "dict": dict, "set": set, "iter": iter([]).__class__}[k], name) and \
                        name not in ("appendleft", "popleft", "move_to_end", "most_common", "extendleft"):
                    return self.exc(st, "AttributeError", name, node=node)
                return [(V, st, BoundM(o, name))]
            return [(V, st, BoundM(o, name))]
        if t is ModV:
            fr = st.heap[self.mods[o.name]]
            v = fr.vars.get(name)
            if v is None:
                if o.name + "." + name in self.prog.trees:
                    self.import_mod(st, o.name + "." + name)
                    return [(V, st, ModV(o.name + "." + name))]
                return self.exc(st, "AttributeError", f"{o.name}.{name}", node=node)
            return [(V, st, v)]
        if t is ExtV:
            q = o.q + "." + name
            q = self.xm.canon(q)
            if (o, name) in st.attrs:
                return [(V, st, st.attrs[(o, name)])]
            m = self.model("attr:" + q)
            if m:
                return m(self, st, [], {}, node)
            return [(V, st, self.ext_value(st, q))]
        if t is ClassV:
            if o.info.enum is not None:
                if name in o.info.enum:
                    return [(V, st, o.info.enum[name])]
                if name == "__members__":
                    return [(V, st, st.alloc(DictO([(Const(k), v) for k, v in o.info.enum.items()])))]
            if name == "__name__":
                return [(V, st, Const(o.info.name))]
            if name == "__qualname__":
                return [(V, st, Const(o.info.qual[len(o.info.mod) + 1:]))]
            if name == "__module__":
                return [(V, st, Const(o.info.mod))]
            v = self.class_attr(st, o, name)
            if v is not None:
                if type(v) is Term and v.op == "staticmethod":
                    return [(V, st, v.args[0])]
                if type(v) is Term and v.op == "classmethod":
                    return [(V, st, v.args[0].bind(o))]
                return [(V, st, v)]
            eb = self.ext_base(o)
            if eb:
                return [(V, st, ExtV(eb + "." + name))]
            if name in ("__doc__",):
                return [(V, st, NONE)]
            return self.exc(st, "AttributeError", f"{o!r}.{name}", node=node)
        if t is EnumV:
            if name == "name":
                return [(V, st, Const(o.name))]
            if name == "value":
                return [(V, st, Const(o.value))]
            for c in self.classes.values():
                if c.enum is not None and c.name == o.cls:
                    v = self.class_attr(st, ClassV(c), name)
                    if type(v) is FuncV:
                        return [(V, st, v.bind(o))]
                    if type(v) is Term and v.op == "property":
                        return self.call(st, v.args[0].bind(o), [], {}, node)
                    if v is not None:
                        return [(V, st, v)]
            return self.exc(st, "AttributeError", name, node=node)
        if t is FuncV:
            if o.self_ is not None:
                if name == "__self__":
                    return [(V, st, o.self_)]
                if name == "__func__":
                    return [(V, st, FuncV(o.fn, o.env, o.oid, None, o.defaults))]
            a = st.heap[o.oid].attrs
            if name in a:
                v = a[name]
                return [(V, st, v)]
            if name == "__get__":
                return [(V, st, BoundM(o, "__get__"))]
            if name == "__call__":
                return [(V, st, o)]
            if name == "__doc__":
                return [(V, st, NONE)]
            if name == "__dict__":
                return [(V, st, Term("fndict", (o,)))]
            if name in ("__code__", "__globals__", "__defaults__", "__annotations__"):
                return [(V, st, Term("attr", (o, Const(name))))]
            return self.exc(st, "AttributeError", name, node=node)
        if t is HookV:
            if name in ("__name__", "__qualname__"):
                return [(V, st, Const(o.name))]
            if (o, name) in st.attrs:
                return [(V, st, st.attrs[(o, name)])]
            return self.exc(st, "AttributeError", name, node=node)
        if t is SuperV:
            mro = o.self_cls.info.mro if False else None
            cls = st.heap[o.self_.oid].cls if type(o.self_) is Ref else o.self_
            chain = cls.info.mro
            i = chain.index(o.cls) if o.cls in chain else -1
            for c in chain[i + 1:]:
                if isinstance(c, ClassInfo):
                    v = st.heap[c.oid].attrs.get(name)
                    if v is not None:
                        return [(V, st, self.bindm(v, o.self_))]
                elif isinstance(c, str):
                    return [(V, st, PartialV(ExtV(c + "." + name), (o.self_,), ()))]
            return [(V, st, PartialV(ExtV("builtins.object." + name), (o.self_,), ()))]
        if t is ExcV:
            if name == "args":
                return [(V, st, TupleV(o.args))]
            if isinstance(o.cls, ClassV) and o.args and type(o.args[0]) is Ref:
                return self.getattr(st, o.args[0], name, node)
            if name in ("with_traceback", "add_note"):
                return [(V, st, BoundM(o, name))]
            return [(V, st, Term("attr", (o, Const(name))))]
        if t is PartialV:
            if name == "func":
                return [(V, st, o.f)]
            return [(V, st, Term("attr", (o, Const(name))))]
        if t is BoundM:
            if name == "__self__":
                return [(V, st, o.recv)]
            if name == "__name__":
                return [(V, st, Const(o.name))]
            return [(V, st, Term("attr", (o, Const(name))))]
        if t is CoroV:
            return [(V, st, BoundM(o, name))]
        if t is Const or is_strv(o) or is_bytesv(o):
            probe = o.v if t is Const else b"" if is_bytesv(o) else ""
            if name == "__class__":
                pass
            if not hasattr(probe, name):
                return self.exc(st, "AttributeError", f"{o!r}.{name}", node=node)
            return [(V, st, BoundM(o, name))]
        if t is TupleV:
            return [(V, st, BoundM(o, name))]
        # opaque
        if (o, name) in st.attrs:
            v = st.attrs[(o, name)]
            if v == Const("<deleted>"):
                return self.exc(st, "AttributeError", name, node=node)
            return [(V, st, v)]
        h = st.facts.get(Term("hasattr", (o, Const(name))))
        if h is False:
            return self.exc(st, "AttributeError", name, node=node)
        m = self.pol.opaque_attr(self, st, o, name, node) if hasattr(self.pol, "opaque_attr") else None
        if m is not None:
            return m
        return [(V, st, Term("attr", (o, Const(name))))]

    def hasattr(self, st, o, name, node=None):
        """[(st, bool)]"""
        if type(o) in (Sym, Term) and not is_strv(o) and not is_num(o):
            if (o, name) in st.attrs:
                return [(st, st.attrs[(o, name)] != Const("<deleted>"))]
            if self.pol and hasattr(self.pol, "opaque_hasattr"):
                r = self.pol.opaque_hasattr(self, st, o, name)
                if r is not None:
                    return [(st, r)]
            return self.test(st, Term("hasattr", (o, Const(name))))
        s0 = st.fork()
        r = []
        for k, s, v in self.getattr(st, o, name, node):
            if k == V:
                r.append((s, True))
            elif k == X and v.cls == "AttributeError":
                r.append((s, False))
        return r or [(s0, False)]

    def setattr(self, st, o, name, v, node=None):
        t = type(o)
        if t is Ref:
            ob = st.heap[o.oid]
            if ob.kind == "inst":
                cv = self.class_attr(st, ob.cls, name)
                if type(cv) is Term and cv.op == "property":
                    if len(cv.args) > 1:
                        return self.call(st, self.bindm(cv.args[1], o), [v], {}, node)
                    return self.exc(st, "AttributeError", "can't set", node=node)
                sa = self.class_attr(st, ob.cls, "__setattr__")
                if sa is not None:
                    return self.call(st, self.bindm(sa, o), [Const(name), v], {}, node)
                st.mut(o).attrs[name] = v
                self.event(st, "setattr", o, Const(name), v, node=node)
                return [(V, st, NONE)]
            if ob.kind in ("ext", "class", "fn"):
                st.mut(o).attrs[name] = v
                self.event(st, "setattr", o, Const(name), v, node=node)
                m = self.model("setattr:" + getattr(ob, "q", "") + "." + name)
                if m:
                    return m(self, st, [o, v], {}, node)
                return [(V, st, NONE)]
            return self.exc(st, "AttributeError", name, node=node)
        if t is FuncV:
            if o.self_ is not None:
                return self.exc(st, "AttributeError", f"'method' object has no attribute {name}", node=node)
            st.mut(o.oid).attrs[name] = v
            return [(V, st, NONE)]
        if t is ClassV:
            st.mut(o.info.oid).attrs[name] = v
            self.event(st, "setattr", o, Const(name), v, node=node)
            return [(V, st, NONE)]
        if t is ModV:
            st.mut(self.mods[o.name]).vars[name] = v
            self.event(st, "setattr", o, Const(name), v, node=node)
            return [(V, st, NONE)]
        if t is ExtV:
            q = self.xm.canon(o.q + "." + name)
            st.ext[q] = v
            self.event(st, "setattr", o, Const(name), v, node=node)
            return [(V, st, NONE)]
        if t in (Sym, Term, HookV):
            st.attrs[(o, name)] = v
            self.event(st, "setattr", o, Const(name), v, node=node)
            return [(V, st, NONE)]
        return self.exc(st, "AttributeError", name, node=node)

    def type_of(self, st, v):
        t = type(v)
        if t is Const:
            return ExtV("builtins." + type(v.v).__name__)
        if t is Ref:
            o = st.heap[v.oid]
            if o.kind == "inst":
                return o.cls
            if o.kind == "list":
                return ExtV("builtins." + ("list" if o.typ == "list" else o.typ))
            if o.kind == "dict":
                return ExtV("builtins.dict" if o.typ == "dict" else o.typ)
            if o.kind == "set":
                return ExtV("builtins.set")
            if o.kind == "ext":
                return ExtV(o.q)
        if t is TupleV:
            return ExtV("builtins.tuple")
        if t is EnumV:
            for c in self.classes.values():
                if c.enum is not None and c.name == v.cls:
                    return ClassV(c)
        if t is ExcV:
            return v.cls if isinstance(v.cls, ClassV) else ExtV("builtins." + v.cls)
        if t is FuncV:
            return ExtV("types.MethodType" if v.self_ is not None else "types.FunctionType")
        if is_strv(v):
            return ExtV("builtins.str")
        return Term("type", (v,))

    def isinstance(self, st, v, cls, node=None):
        """[(st, bool)]"""
        if type(cls) is TupleV:
            r, work = [], [st]
            for c in cls.items:
                nxt = []
                for s in work:
                    for s2, b in self.isinstance(s, v, c, node):
                        if b:
                            r.append((s2, True))
                        else:
                            nxt.append(s2)
                work = nxt
            return r + [(s, False) for s in work]
        if type(cls) is ExtV and cls.q in ("builtins.object",):
            return [(st, True)]
        t = type(v)
        cq = cls.q if type(cls) is ExtV else None
        if t is Ref and st.heap[v.oid].kind == "inst":
            c = st.heap[v.oid].cls
            if type(cls) is ClassV:
                return [(st, cls.info in self.mro(c))]
            return [(st, any(x == cq for x in self.mro(c)))]
        if t is EnumV:
            return [(st, type(cls) is ClassV and cls.info.name == v.cls or cq in ("enum.Enum",))]
        if t is ExcV:
            m = self.exc_matches(v, cls)
            if m is not None:
                return [(st, m)]
            return self.test(st, Term("isinstance", (v, cls)))
        known = None
        if t is Const:
            known = type(v.v)
        elif t is Ref:
            o = st.heap[v.oid]
            known = {"list": list, "dict": dict, "set": set}.get(o.kind)
            if o.kind == "list" and o.typ != "list":
                known = None
            if known is None:
                if o.kind == "ext" and cq is not None:
                    if cq == o.q or self.xm.is_sub(o.q, cq):
                        return [(st, True)]
                    if o.q == "file":
                        return [(st, cq.startswith("io."))]
                return [(st, False)]
        elif t is TupleV:
            known = tuple
        elif t in (FuncV, ClassV, ModV, CoroV, HookV, BoundM, PartialV):
            if cq in ("collections.abc.Callable", "typing.Callable"):
                return [(st, t not in (ModV, CoroV))]
            if cq == "types.MethodType":
                return [(st, t is FuncV and v.self_ is not None or t is BoundM)]
            if cq == "types.FunctionType":
                return [(st, t is FuncV and v.self_ is None)]
            if cq == "builtins.type":
                return [(st, t is ClassV)]
            return [(st, False)]
        elif is_strv(v):
            known = str
        elif t is Sym and v.typ in ("int", "bool", "bytes", "float", "list", "dict"):
            known = {"int": int, "bool": bool, "bytes": bytes, "float": float, "list": list, "dict": dict}[v.typ]
        elif t is Term and v.op in ("len", "int"):
            known = int
        elif is_bytesv(v):
            known = bytes
        elif t is ExtV and cq == "builtins.type" and v.q.rsplit(".", 1)[-1][:1].isupper():
            return [(st, True)]
        elif t is Sym and (v.atom or v.typ) and type(cls) is ClassV and v.typ != "obj":
            return [(st, False)]
        if known is not None:
            if type(cls) is ClassV:
                return [(st, False)]
            if cq and cq.startswith("builtins.") and isinstance(getattr(builtins, cq[9:], None), type):
                return [(st, issubclass(known, getattr(builtins, cq[9:])))]
            if cq in ("collections.abc.Mapping", "typing.Mapping"):
                return [(st, known is dict)]
            if cq and not cq.startswith("builtins"):
                return [(st, False)]
        return self.test(st, Term("isinstance", (v, cls)))

    # ------------------------------------------------------------ items
    def getitem(self, st, o, i, node=None):
        t = type(o)
        sl = type(i) is Term and i.op == "slice_"
        if t is Ref:
            ob = st.heap[o.oid]
            k = ob.kind
            if k == "list" or k == "iter":
                if sl:
                    return self.slice_seq(st, ob.items, i, lambda s, its: s.alloc(ListO(its)), o, node)
                return self.index_seq(st, ob.items, i, o, node)
            if k == "dict":
                r = []
                for k2, s, v in self.dict_find(st, o, i, node):
                    if k2 != V or v is not None:
                        r.append((k2, s, v))
                    elif ob.factory is not None:
                        def put(s2, dv):
                            return self.bind(self.dict_set(s2, o, i, dv, node), lambda s3, _: [(V, s3, dv)])
                        r.extend(self.bind(self.call(s, ob.factory, [], {}, node), put))
                    else:
                        r.extend(self.exc(s, "KeyError", i, node=node))
                return r
            if k == "inst":
                m = self.class_attr(st, ob.cls, "__getitem__")
                if m is not None:
                    return self.call(st, self.bindm(m, o), [i], {}, node)
                if "__items__" in ob.attrs:
                    return self.getitem(st, ob.attrs["__items__"], i, node)
                return self.exc(st, "TypeError", "not subscriptable", node=node)
            if k == "ext":
                m = self.model(ob.q + ".__getitem__")
                if m:
                    return m(self, st, [o, i], {}, node)
                return [(V, st, Term("item", (o, i)))]
        if t is TupleV:
            if sl:
                return self.slice_seq(st, list(o.items), i, lambda s, its: TupleV(its), o, node)
            return self.index_seq(st, list(o.items), i, o, node)
        if t is ClassV and o.info.enum is not None:
            if type(i) is Const:
                if i.v in o.info.enum:
                    return [(V, st, o.info.enum[i.v])]
                return self.exc(st, "KeyError", i, node=node)
            return self.xm.enum_lookup(self, st, o, i, node, "KeyError")
        if t is ClassV:
            return [(V, st, o)]
        if t is Const:
            if o.v is None:
                return self.exc(st, "TypeError", "'NoneType' object is not subscriptable", node=node)
            if sl and all(type(x) is Const for x in i.args):
                return [(V, st, Const(o.v[slice(*[x.v for x in i.args])]))]
            if type(i) is Const:
                try:
                    return [(V, st, Const(o.v[i.v]))]
                except IndexError:
                    return self.exc(st, "IndexError", node=node)
                except TypeError:
                    return self.exc(st, "TypeError", node=node)
        if t is ExtV:
            m = self.model("getitem:" + o.q)
            if m:
                return m(self, st, [i], {}, node)
            return [(V, st, o)]
        if is_strv(o) or (type(o) is Sym and o.typ in ("str", "bytes")):
            return self.xm.str_item(self, st, o, i, node)
        if sl:
            return [(V, st, Term("slice", (o,) + i.args))]
        m = self.pol.opaque_item(self, st, o, i, node) if hasattr(self.pol, "opaque_item") else None
        if m is not None:
            return m
        # opaque containers: a definitely absent key raises
        f = st.facts.get(Term("in", (i, o)))
        if f is False:
            return self.exc(st, "KeyError", i, node=node)
        return [(V, st, Term("item", (o, i)))]

    def index_seq(self, st, items, i, o, node):
        if type(i) is Const and isinstance(i.v, int):
            if -len(items) <= i.v < len(items):
                return [(V, st, items[i.v])]
            return self.exc(st, "IndexError", node=node)
        if not items:
            return self.exc(st, "IndexError", node=node)
        r = []
        work = [st]
        for j in range(len(items)):
            nxt = []
            for s in work:
                for k, s2, b in self.eq(s, i, Const(j), node):
                    if k != V:
                        r.append((k, s2, b))
                    elif b:
                        r.append((V, s2, items[j]))
                    else:
                        nxt.append(s2)
            work = nxt
        for s in work:
            r.extend(self.exc(s, "IndexError", node=node))
        return r

    def slice_seq(self, st, items, i, mk, o, node):
        if all(type(x) is Const for x in i.args):
            return [(V, st, mk(st, items[slice(*[x.v for x in i.args])]))]
        lo, hi, step = i.args
        lo_c = 0 if lo == NONE else lo.v if type(lo) is Const else None
        # constant-fold len arithmetic already done; otherwise enumerate the bound
        if lo_c is not None and hi not in (NONE,) and type(hi) is not Const and step == NONE:
            r, work = [], [st]
            for j in range(len(items) + 1):
                nxt = []
                for s in work:
                    for s2, b in self.num_test(s, lin_add(hi, Const(j), -1), "eq"):
                        if b:
                            r.append((V, s2, mk(s2, items[lo_c:j])))
                        else:
                            nxt.append(s2)
                work = nxt
            r.extend((V, s, mk(s, items[lo_c:])) for s in work)
            return r
        return [(V, st, Term("slice", (o,) + i.args))]

    def setitem(self, st, o, i, v, node=None):
        t = type(o)
        if t is Ref:
            ob = st.heap[o.oid]
            if ob.kind == "dict":
                return self.dict_set(st, o, i, v, node)
            if ob.kind == "list":
                if type(i) is Const and isinstance(i.v, int):
                    if -len(ob.items) <= i.v < len(ob.items):
                        st.mut(o).items[i.v] = v
                        return [(V, st, NONE)]
                    return self.exc(st, "IndexError", node=node)
                if type(i) is Term and i.op == "slice_" and all(type(x) is Const for x in i.args):
                    def f(s, its):
                        s.mut(o).items[slice(*[x.v for x in i.args])] = its
                        return [(V, s, NONE)]
                    return self.bind(self.iterate(st, v, node), f)
                work, r = [st], []
                for j in range(len(ob.items)):
                    nxt = []
                    for s in work:
                        for k, s2, b in self.eq(s, i, Const(j), node):
                            if b:
                                s2.mut(o).items[j] = v
                                r.append((V, s2, NONE))
                            else:
                                nxt.append(s2)
                    work = nxt
                for s in work:
                    r.extend(self.exc(s, "IndexError", node=node))
                return r
            if ob.kind == "inst":
                m = self.class_attr(st, ob.cls, "__setitem__")
                if m is not None:
                    return self.call(st, self.bindm(m, o), [i, v], {}, node)
                if "__items__" in ob.attrs:
                    return self.setitem(st, ob.attrs["__items__"], i, v, node)
                return self.exc(st, "TypeError", node=node)
            if ob.kind == "ext":
                m = self.model(ob.q + ".__setitem__")
                if m:
                    return m(self, st, [o, i, v], {}, node)
        if t is ExtV:
            m = self.model("setitem:" + o.q)
            if m:
                return m(self, st, [i, v], {}, node)
        self.event(st, "setitem", o, i, v, node=node)
        return [(V, st, NONE)]

    # ------------------------------------------------------------ calls
    def model(self, q):
        m = self.pol.ext.get(q)
        if m is not None:
            return m
        return self.xm.MODELS.get(q)

    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fr = st.heap[st.stack[-1]]
            fn = fr.fn
            p = st.stack[-1]
            while fn is None or fn.owner is None:
                p = st.heap[p].parent
                if p is None:
                    break
                fn = st.heap[p].fn
            if fn is not None and fn.owner is not None:
                first = fn.params[0]
                return [(V, st, SuperV(fn.owner, st.heap[p].vars[first]))]

        def f(s, fv):
            def g(s2, args):
                outs = [(V, s2, {})]
                for kw in n.keywords:
                    if kw.arg is None:
                        def h(s3, acc, kw=kw):
                            def star(s4, d):
                                if type(d) is Ref and s4.heap[d.oid].kind == "dict":
                                    o = s4.heap[d.oid]
                                    a2 = dict(acc)
                                    for k, v in o.items:
                                        a2[k.v if type(k) is Const else k] = v
                                    if o.base is not None:
                                        a2["**"] = o.base
                                    return [(V, s4, a2)]
                                a2 = dict(acc)
                                a2["**"] = d
                                return [(V, s4, a2)]
                            return self.bind(self.ev(kw.value, s3), star)
                        outs = self.bind(outs, h)
                    else:
                        def h(s3, acc, kw=kw):
                            def put(s4, v):
                                a2 = dict(acc)
                                a2[kw.arg] = v
                                return [(V, s4, a2)]
                            return self.bind(self.ev(kw.value, s3), put)
                        outs = self.bind(outs, h)
                return self.bind(outs, lambda s3, kw: self.call(s3, fv, args, kw, n))
            return self.bind(self.ev_call_args(n.args, s), g)
        return self.bind(self.ev(n.func, st), f)

    def ev_call_args(self, elts, st):
        outs = [(V, st, [])]
        for e in elts:
            if isinstance(e, ast.Starred):
                def f(s, acc, e=e):
                    def g(s2, v):
                        if type(v) in (Sym, Term):
                            return [(V, s2, acc + [Term("star", (v,))])]
                        return self.bind(self.iterate(s2, v, e), lambda s3, its: [(V, s3, acc + its)])
                    return self.bind(self.ev(e.value, s), g)
                outs = self.bind(outs, f)
            else:
                outs = self.bind(outs, lambda s, acc, e=e: [(k, s2, acc + [v]) if k == V else (k, s2, v)
                                                            for k, s2, v in self.ev(e, s)])
        return outs

    def call(self, st, f, args, kw, node=None):
        """Outcomes of f(*args, **kw)."""
        t = type(f)
        if t is FuncV:
            fn = f.fn
            if not fn.user:
                stub = self.pol.stubs.get(fn.qual)
                if stub is not None:
                    return stub(self, st, ([f.self_] if f.self_ is not None else []) + args, kw, node)
            if fn.is_async and not fn.is_gen:
                return [(V, st, CoroV(f, args, kw, fresh("c").uid))]
            if fn.is_gen:
                return [(V, st, CoroV(f, args, kw, fresh("c").uid, "gen"))]
            if fn.user:
                return self.user_body(st, f, args, kw, node)
            return self.enter(st, f, args, kw, node)
        if t is HookV:
            return f.fn(self, st, args, kw, node)
        if t is PartialV:
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(st, f.f, list(f.args) + args, k2, node)
        if t is ClassV:
            return self.instantiate(st, f, args, kw, node)
        if t is ExtV:
            return self.call_ext(st, f.q, args, kw, node)
        if t is BoundM:
            return self.call_method(st, f.recv, f.name, args, kw, node)
        if t is Ref:
            o = st.heap[f.oid]
            if o.kind == "inst":
                m = self.class_attr(st, o.cls, "__call__")
                if m is not None:
                    return self.call(st, self.bindm(m, f), args, kw, node)
            if o.kind == "ext":
                m = self.model(o.q + ".__call__")
                if m:
                    return m(self, st, [f] + args, kw, node)
                return self.call_opaque(st, f, args, kw, node)
            return self.exc(st, "TypeError", "not callable", node=node)
        if t is Term and f.op == "ctxfactory":
            g = f.args[0]
            return [(V, st, CoroV(g, args, kw, fresh("c").uid, "ctx"))]
        if t is Term and f.op in ("staticmethod", "classmethod"):
            return self.call(st, f.args[0], args, kw, node)
        if t is Const:
            return self.exc(st, "TypeError", f"{f!r} is not callable", node=node)
        return self.call_opaque(st, f, args, kw, node)

    def user_body(self, st, f, args, kw, node):
        """The body of a user supplied function runs here."""
        h = f.fn.handler
        a = ([f.self_] if f.self_ is not None else []) + list(args)
        if h is not None:
            return h(self, st, f, a, kw, node)
        self.event(st, "user", f, TupleV(a), *( [TupleV([TupleV((Const(k), v)) for k, v in kw.items()])] if kw else []), node=node)
        return [(V, st, fresh("ret_" + f.fn.name))]

    def raised(self, st, e):
        if e.origin == "fault":
            st.mon = dict(st.mon, fault=TRUE)
        return st

    def call_opaque(self, st, f, args, kw, node=None):
        r = self.pol.opaque_call(self, st, f, args, kw, node)
        if r is not None:
            return r
        self.event(st, "call", f, *args, *[TupleV((Const(k), v)) for k, v in kw.items() if isinstance(k, str)], node=node)
        outs = []
        for e in self.pol.may_raise(self, st, f, args, node):
            outs.append((X, self.raised(st.fork(), e), e))
        outs.append((V, st, fresh("ret", vague=True)))
        self.unmodelled["call " + repr(f)[:60]] = 1
        return outs

    def call_ext(self, st, q, args, kw, node=None):
        m = self.model(q)
        outs = []
        for e in self.pol.may_raise(self, st, q, args, node):
            outs.append((X, self.raised(st.fork(), e), e))
        if m is not None:
            return outs + m(self, st, args, kw, node)
        if q.startswith("builtins."):
            nm = q[9:]
            if nm in BUILTIN_EXC:
                return outs + [(V, st, ExcV(nm, args))]
        if q in EXT_EXC:
            return outs + [(V, st, ExcV(q, args))]
        if self.xm.is_class(q):
            ref = st.alloc(ExtO(q, args, {"kw:" + k: v for k, v in kw.items() if isinstance(k, str)}))
            self.event(st, "new", Const(q), ref, *args, node=node)
            return outs + [(V, st, ref)]
        self.event(st, "extcall", Const(q), *args, node=node)
        if q in self.xm.PURE_Q or q.rsplit(".", 1)[0] in self.xm.PURE_MODS:
            return outs + [(V, st, Term("ext", (Const(q),) + tuple(self.freeze(st, a) for a in args)))]
        self.unmodelled[q] = self.unmodelled.get(q, 0) + 1
        return outs + [(V, st, fresh(q, vague=True))]

    def call_method(self, st, recv, name, args, kw, node=None):
        t = type(recv)
        if t is Ref:
            o = st.heap[recv.oid]
            if o.kind == "inst":
                eb = self.ext_base(o.cls)
                m = self.model((eb or "builtins.object") + "." + name)
                if m:
                    return m(self, st, [recv] + args, kw, node)
                self.event(st, "extcall", Const((eb or "object") + "." + name), recv, *args, node=node)
                if name in ("__init__",):
                    return [(V, st, NONE)]
                return [(V, st, fresh("ret", vague=True))]
            if o.kind == "ext":
                outs = []
                for e in self.pol.may_raise(self, st, o.q + "." + name, [recv] + args, node):
                    outs.append((X, self.raised(st.fork(), e), e))
                m = self.model(o.q + "." + name) or self.xm.generic_method(name)
                if m:
                    return outs + m(self, st, [recv] + args, kw, node)
                self.event(st, "extcall", Const(o.q + "." + name), recv, *args, node=node)
                self.unmodelled[o.q + "." + name] = 1
                return outs + [(V, st, fresh(o.q + "." + name, vague=True))]
            m = self.xm.CONTAINER.get((o.kind, name))
            if m:
                return m(self, st, [recv] + args, kw, node)
        if t is FuncV and name == "__get__":
            if args and args[0] != NONE:
                return [(V, st, FuncV(recv.fn, recv.env, recv.oid, args[0], recv.defaults))]
            return [(V, st, recv)]
        if t is ExcV:
            return [(V, st, recv)]
        if t is CoroV:
            if name in ("close",):
                self.event(st, "gen_close", recv.f, node=node)
                return [(V, st, NONE)]
            if name in ("send", "__next__"):
                return self.call_ext(st, "builtins.next", [recv], {}, node)
        if t is TupleV:
            if name == "index":
                return [(k, s, Const(i) if k == V and i >= 0 else i) for k, s, i in self.find(st, recv.items, args[0], node, hashed=False)]
            if name == "count":
                return [(V, st, Const(sum(1 for x in recv.items if x == args[0])))]
        if t is Const and isinstance(recv.v, (str, bytes)) or is_strv(recv) or is_bytesv(recv):
            return self.xm.str_method(self, st, recv, name, args, kw, node)
        if t is Const:
            try:
                if all(type(a) is Const for a in args):
                    return [(V, st, Const(getattr(recv.v, name)(*[a.v for a in args])))]
            except Exception:
                pass
        return self.xm.opaque_method(self, st, recv, name, args, kw, node)

    def instantiate(self, st, cls, args, kw, node):
        info = cls.info
        if info.enum is not None:
            if args and type(args[0]) is Const:
                for e in info.enum.values():
                    if e.value == args[0].v:
                        return [(V, st, e)]
                return self.exc(st, "ValueError", f"not a valid {info.name}", node=node)
            if args and type(args[0]) is EnumV:
                return [(V, st, args[0])]
            return self.xm.enum_by_value(self, st, cls, args[0], node)
        nw = self.class_attr(st, cls, "__new__")
        ref = st.alloc(InstO(cls))
        eb = self.ext_base(cls)
        if eb in ("builtins.dict", "collections.OrderedDict", "collections.UserDict"):
            d = st.alloc(DictO())
            st.mut(ref).attrs["__items__"] = d
        elif eb in ("builtins.list",):
            d = st.alloc(ListO())
            st.mut(ref).attrs["__items__"] = d
        stub = self.pol.stubs.get(info.qual)
        if stub is not None:
            return stub(self, st, [ref] + args, kw, node)
        init = self.class_attr(st, cls, "__init__")
        if info.exc and init is None:
            return [(V, st, ExcV(cls, args, None))]
        if init is not None:
            outs = self.bind(self.call(st, self.bindm(init, ref), args, kw, node), lambda s, _: [(V, s, ref)])
            return outs
        if self.class_attr(st, cls, "__dcfields__") is not None:
            return self.xm.dataclass_init(self, st, cls, ref, args, kw, node)
        if eb is not None and self.model(eb + ".__init__"):
            return self.bind(self.model(eb + ".__init__")(self, st, [ref] + args, kw, node), lambda s, _: [(V, s, ref)])
        if (args or kw) and eb is None:
            return self.exc(st, "TypeError", f"{info.name}() takes no arguments", node=node)
        return [(V, st, ref)]

    def enter(self, st, f, args, kw, node, gen=None):
        """Inline an internal function."""
        fn = f.fn
        depth = len(st.stack)
        if depth > self.pol.max_depth:
            self.cuts += 1
            return [(CUT, st, "depth")]
        rec = 0
        for oid in st.stack:
            fr = st.heap.get(oid)
            if fr is not None and fr.fn is fn:
                rec += 1
        if rec > getattr(self.pol, "max_rec", 6):
            self.cuts += 1
            return [(CUT, st, "recursion " + fn.qual)]
        if f.self_ is not None:
            args = [f.self_] + list(args)
        a = fn.node.args
        vars_ = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        kw = dict(kw)
        extra = list(args[len(pos):])
        starred = [x for x in args if type(x) is Term and x.op == "star"]
        if starred and not a.vararg:
            self.note(st, "unknown number of arguments")
        for nme, v in zip(pos, args):
            vars_[nme] = v
        if extra and not a.vararg:
            return self.exc(st, "TypeError", f"{fn.name}() takes {len(pos)} positional arguments but {len(args)} were given", node=node)
        rest = {}
        base = kw.pop("**", None)
        ponly = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if isinstance(k, str) and (k in pos or k in kwonly) and k not in ponly:
                if k in vars_:
                    return self.exc(st, "TypeError", f"{fn.name}() got multiple values for argument {k}", node=node)
                vars_[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                return self.exc(st, "TypeError", f"{fn.name}() got an unexpected keyword argument {k}", node=node)
        for nme in pos + kwonly:
            if nme not in vars_:
                if f.defaults and nme in f.defaults:
                    vars_[nme] = f.defaults[nme]
                else:
                    return self.exc(st, "TypeError", f"{fn.name}() missing required argument {nme}", node=node)
        if a.vararg:
            vars_[a.vararg.arg] = TupleV(extra)
        if a.kwarg:
            vars_[a.kwarg.arg] = st.alloc(DictO([(Const(k) if isinstance(k, str) else k, v) for k, v in rest.items()], base=base))
        fr = st.alloc(FrameO(vars_, f.env, fn, fn.mod, yh=gen, yields=[] if gen == "collect" else None))
        caller = st.stack
        st.stack = caller + (fr.oid,)
        self.visited.add(fn.qual)
        self.event(st, "enter", Const(fn.qual), node=node)
        body = fn.node.body
        if isinstance(fn.node, ast.Lambda):
            outs = [(R, s, v) if k == V else (k, s, v) for k, s, v in self.ev(body, st)]
        else:
            outs = self.block(body, st)
        res = []
        for k, s, v in outs:
            if k == CUT:
                res.append((k, s, v))
                continue
            if gen == "collect":
                ys = s.heap[fr.oid].yields
                val = list(ys)
            s.stack = caller
            s.heap.pop(fr.oid, None) if not self.captured(fn) else None
            if k == N:
                v = NONE
            if k in (N, R):
                res.append((V, s, val if gen == "collect" else v))
            elif k == X:
                res.append((X, s, v))
            else:
                res.append((X, s, ExcV("SyntaxError", (), "stray break")))
        if len(res) > 1 and self.pol.merge:
            xs = [o for o in res if o[0] == X]
            vs = [o for o in res if o[0] == V]
            cs = [o for o in res if o[0] == CUT]
            n = self.pin(*args, *kw.values())
            res = (self.merge(vs) if len(vs) > 1 else vs) + (self.merge(xs) if len(xs) > 1 else xs) + cs
            del self.pins[n:]
        return res

    _cap = {}

    def captured(self, fn):
        """Does fn create closures over its frame?"""
        r = self._cap.get(fn.node)
        if r is None:
            r = any(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)) for x in ast.walk(fn.node)
                    if x is not fn.node) or fn.is_gen
            self._cap[fn.node] = r
        return r

    # ------------------------------------------------------------ deep values
    def freeze(self, st, v, depth=0):
        """A value snapshot of a heap structure as a term."""
        if depth > 12:
            return fresh("deep", vague=True)
        t = type(v)
        if t is Ref:
            o = st.heap[v.oid]
            if o.kind == "list":
                return Term("listv", [self.freeze(st, x, depth + 1) for x in o.items])
            if o.kind == "set":
                return Term("setv", sorted([self.freeze(st, x, depth + 1) for x in o.items], key=repr))
            if o.kind == "dict":
                its = [TupleV((self.freeze(st, k, depth + 1), self.freeze(st, x, depth + 1))) for k, x in o.items]
                if o.base is not None:
                    if not its and not o.gone:
                        return Term("copyof", (o.base,))
                    return Term("dictv", [Term("base", (o.base,) + tuple(o.gone))] + its)
                return Term("dictv", its)
            return v
        if t is TupleV:
            return TupleV([self.freeze(st, x, depth + 1) for x in v.items])
        return v

    def thaw(self, st, v, json=False):
        t = type(v)
        if t is Term and v.op == "listv":
            return st.alloc(ListO([self.thaw(st, x, json) for x in v.args]))
        if t is TupleV and json:
            return st.alloc(ListO([self.thaw(st, x, json) for x in v.items]))
        if t is Term and v.op == "setv":
            return st.alloc(SetO([self.thaw(st, x, json) for x in v.args]))
        if t is Term and v.op == "copyof":
            return st.alloc(DictO(base=v.args[0]))
        if t is Term and v.op == "dictv":
            base, gone, items = None, (), []
            for x in v.args:
                if type(x) is Term and x.op == "base":
                    base, gone = x.args[0], x.args[1:]
                else:
                    items.append((x.items[0], self.thaw(st, x.items[1], json)))
            return st.alloc(DictO(items, base, gone))
        if t is TupleV:
            return TupleV([self.thaw(st, x, json) for x in v.items])
        return v

    # ------------------------------------------------------------ user functions
    def user_fn(self, st, name, is_async=False, handler=None, is_gen=False, module=None, attrs=None):
        a = {"__name__": Sym(name + ".__name__", atom=True, typ="str"), "__qualname__": Sym(name + ".__qualname__", atom=True, typ="str"),
             "__module__": Sym(module or (name + ".__module__"), atom=True, typ="str")}
        a.update(attrs or {})
        ref = st.alloc(FnO(a))
        return FuncV(UserFn(name, is_async, handler, is_gen), None, ref.oid)
