"""C36: every path of the tokenizer's step over an unknown text and position, with symbolic positions and character facts."""
from sa.harness import *
from sa.engine import lin_parts, INF

BUF, AT = Sym("buf", typ="str"), Sym("at", typ="int", lo=0)
LEN = Term("len", (BUF,))
NOT_NL = ("isalnum", "isnumeric", "isdigit", "isalpha", "isdecimal", "isidentifier")


class Pol(Policy):
    kinds = set()
    merge = False
    max_steps = 4000000

    def __init__(self, bound):
        self.while_bound = bound


def left(st):
    """at - len(buf) on the path, as (lowest or None, highest or None)."""
    lo = hi = None
    for p, v in st.facts.items():
        if type(p) is Term and p.op == "num" and isinstance(v, Iv):
            c, d = lin_parts(p.args[0])
            if set(d) == {AT, LEN} and d[AT] == -d[LEN] and c == 0:
                a, b = (v.lo, v.hi) if d[AT] == 1 else (-v.hi, -v.lo)
                lo, hi = (None if a == -INF else a), (None if b == INF else b)
    return lo, hi


def offset(v):
    """k if v is at + k."""
    c, d = lin_parts(v)
    return c if d == {AT: 1} else None


def chars(st):
    """{offset: [(op, others, truth)]} of the characters the path looked at; None: looked at in another way."""
    r = {}
    for p, v in st.facts.items():
        if type(p) is not Term:
            continue
        for a in p.args:
            others = [x for x in p.args if x is not a]
            if type(a) is Term and a.op == "chr" and a.args[0] == BUF:
                r.setdefault(offset(a.args[1]), []).append((p.op, others, v))
            elif type(a) is Term and a.op == "slice" and piece(a) is not None:
                lo, hi = piece(a)
                for i in range(lo, hi):
                    o = others
                    if p.op == "eq" and len(others) == 1 and type(others[0]) is Const and isinstance(others[0].v, str):
                        if len(others[0].v) != hi - lo:
                            continue
                        o = [Const(others[0].v[i - lo])]
                        if v is not True and hi - lo > 1:
                            continue
                    elif hi - lo > 1 and v is not True:
                        continue
                    r.setdefault(i, []).append((p.op, o, v))
            elif p.op != "num" and p.op != "len" and a != BUF and any(x == BUF for x in walk(a)):
                r.setdefault(None, []).append((p.op, others, v))
    return r


def may_newline(facts):
    """Can the character be a line break: True / False / None."""
    unknown = False
    for op, others, v in facts:
        if op == "eq" and len(others) == 1 and type(others[0]) is Const:
            if v is True:
                return others[0].v == "\n"
            if others[0].v == "\n":
                return False
        elif op in NOT_NL:
            if v is True:
                return False
        elif op == "isspace":
            if v is False:
                return False
        else:
            unknown = True
    return None if unknown else True


def run(ctx):
    ctx.rule("partition", "a step returns exactly the characters between the old and the new position")
    ctx.rule("advance", "a step consumes at least one character and never passes the end")
    ctx.rule("stop", "the end is signalled exactly when no character is left, and nothing else is raised")
    ctx.rule("loops", "every iteration of a loop inside a step consumes a character that is there, so the loop ends")
    ctx.rule("line breaks", "a token of more than one character holds no line break")
    ctx.rule("start", "a new tokenizer stands at the first character; has_next tells whether one is left; iterating uses the steps")
    ctx.rule("buffer", "the buffering iterator yields every element of its source once, in order")
    ctx.min_decided = 100
    bound = 8 if ctx.thorough else 4
    it = ctx.interp(Pol(bound))
    st = it.start()
    cls = it.glob(st, "booktest.tokenizer", "TestTokenizer")
    st, t = one(it.call(st, cls, [BUF, AT], {}))
    n = 0
    for k, s, m in it.getattr(st, t, "__next__", None):
        for k3, s3, v in it.call(s, m, [], {}):
            n += 1
            lo, hi = left(s3)
            inst = f"path {n}"
            if k3 == CUT:
                if isinstance(v, (tuple, list)) and v and v[0] == "while":
                    ctx.judge("loops", inst, hi is not None and hi <= -bound,
                              f"{bound} iterations of the loop at {v[1]} do not need {bound} characters", s3, v[1])
                else:
                    ctx.und("loops", inst, v)
                continue
            if k3 == X:
                ctx.judge("stop", inst, v.cls == "StopIteration" and (lo is not None and lo >= 0),
                          f"{v!r} raised although characters may be left", s3)
                continue
            at2 = s3.heap[t.oid].attrs.get("at")
            o = offset(at2) if at2 is not None else None
            ctx.judge("stop", inst, hi is not None and hi <= -1, "a token is returned at the end of the text", s3)
            ctx.judge("advance", inst, None if o is None else (o >= 1 and hi is not None and hi <= -o),
                      f"position moves from at to {at2!r} with at - len(text) in [{lo}, {hi}]", s3)
            w = piece(v)
            if w is None or o is None:
                ctx.und("partition", inst, f"{v!r}")
            else:
                ctx.judge("partition", inst, w == (0, o), f"returns the characters [at+{w[0]}, at+{w[1]}) but moves to at+{o}", s3)
            if o is not None and o > 1:
                cs = chars(s3)
                for i in range(o):
                    m2 = may_newline(cs.get(i, []) + cs.get(None, []))
                    ctx.judge("line breaks", f"{inst} char {i}", None if m2 is None else not m2,
                              f"character {i} of a token of {o} characters may be a line break", s3)
    # construction, has_next, iter
    st = it.start()
    st, t = one(it.call(st, cls, [BUF], {}))
    a = st.heap[t.oid].attrs
    ctx.judge("start", "position", a.get("at") == Const(0), f"starts at {a.get('at')!r}", st)
    st, t = one(it.call(st, cls, [BUF, AT], {}))
    for k, s, m in it.getattr(st, t, "has_next", None):
        for k2, s2, v in it.call(s, m, [], {}):
            for k3, s3, b in it.branch(s2, v):
                lo, hi = left(s3)
                ok = hi is not None and hi <= -1 if b else lo is not None and lo >= 0
                ctx.judge("start", f"has_next {b}", ok, f"has_next is {b} with at - len(text) in [{lo}, {hi}]", s3)
    for k, s, m in it.getattr(st, t, "__iter__", None):
        for k2, s2, v in it.call(s, m, [], {}):
            ctx.judge("start", "iter", k2 == V and v == t, f"iterating uses {v!r}", s2)
    bcls = it.glob(st, "booktest.tokenizer", "BufferIterator")
    for size in range(0, 5 if ctx.thorough else 4):
        st = it.start()
        items = [atom(f"e{i}") for i in range(size)]
        src = mklist(st, items)
        outs = it.bind(it.call_ext(st, "builtins.iter", [src], {}), lambda s, i: it.call(s, bcls, [i], {}))
        for k, s, b in outs:
            got = []
            for j in range(size):
                k2, s, h = hn(it, s, b)
                ctx.judge("buffer", f"{size} elements: has_next {j}", h == TRUE, f"has_next is {h!r} before element {j} of {size}", s)
                k2, s, v = nx(it, s, b)
                got.append(v if k2 == V else None)
            ctx.judge("buffer", f"{size} elements", got == items, f"yields {got}", s)
            k2, s, h = hn(it, s, b)
            ctx.judge("buffer", f"{size} elements: end", h == FALSE, f"has_next is {h!r} at the end", s)
            k2, s, v = nx(it, s, b)
            ctx.judge("buffer", f"{size} elements: stop", k2 == X and v.cls == "StopIteration", f"next at the end gives {v!r}", s)


def hn(it, s, b):
    r = it.bind(it.getattr(s, b, "has_next", None), lambda s2, m: it.call(s2, m, [], {}))
    return r[0]


def nx(it, s, b):
    r = it.bind(it.getattr(s, b, "__next__", None), lambda s2, m: it.call(s2, m, [], {}))
    return r[0]


def piece(v):
    """(from, to) of a piece of the text relative to at."""
    if type(v) is Term and v.op == "slice" and v.args[0] == BUF:
        a, b = offset(v.args[1]), offset(v.args[2])
        if a is not None and b is not None and v.args[3] in (NONE, None, Const(1)):
            return a, b
    if type(v) is Term and v.op == "chr" and v.args[0] == BUF:
        a = offset(v.args[1])
        return None if a is None else (a, a + 1)
    return None
