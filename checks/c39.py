"""C39: where anchors, headers and seeks place the snapshot cursor, over unknown snapshot lines and unknown anchors."""
from itertools import product
from .outs import *


class World:
    """The snapshot as the specification sees it: lines of unknown one-token pieces."""

    def __init__(self, shape):
        self.lines = [[word(f"S{i}.{j}") for j in range(n)] for i, n in enumerate(shape)]

    def text(self, i):
        return concat(self.lines[i]) if self.lines[i] else Const("")


class At:
    """A cursor position at the beginning of a line, and what was found different so far."""

    def __init__(self, line, diff=False, open_=(), vague=False):
        self.line, self.diff, self.open, self.vague = line, diff, tuple(open_), vague

    def but(self, **k):
        a = At(self.line, self.diff, self.open, self.vague)
        for n, v in k.items():
            setattr(a, n, v)
        return a


def holds(it, st, x, y):
    return [(s, e) for k, s, e in it.eq(st, x, y) if k == V]


def starts(it, st, line, p):
    r = []
    for k, s, m in it.getattr(st, line, "startswith", None):
        if k != V:
            continue
        for k2, s2, v in it.call(s, m, [p], {}):
            if k2 == V:
                r += [(s3, b) for k3, s3, b in it.branch(s2, v) if k3 == V]
    return r


def seek(it, st, w, at, ok):
    """[(st, At)]: the next line from the cursor that matches, else the first earlier one, else unmoved."""
    n = len(w.lines)
    order = list(range(at.line, n)) + list(range(0, min(at.line, n)))
    acc, done = [st], []
    for j in order:
        nxt = []
        for s in acc:
            for s2, b in ok(it, s, w.text(j)):
                (done.append((s2, at.but(line=j, open=()))) if b else nxt.append(s2))
        acc = nxt
    return done + [(s, at.but(open=())) for s in acc]


def tested(it, st, w, at, tok):
    """[(st, At)] of one tested token."""
    pos = len(at.open)
    if at.line >= len(w.lines):
        other = NONE
    else:
        l = w.lines[at.line]
        other = l[pos] if pos < len(l) else NLT
    outs = [(st, True)] if at.diff else holds(it, st, tok, other)
    r = []
    for s, e in outs:
        if tok == NLT:
            r.append((s, at.but(line=min(at.line + 1, len(w.lines)), open=(), diff=at.diff or not e)))
        else:
            r.append((s, at.but(open=at.open + (tok,), diff=at.diff or not e)))
    return r


def chain(outs, f):
    return [y for s, a in outs for y in f(s, a)]


def toks(it, w, ts):
    def f(s, a):
        outs = [(s, a)]
        for t in ts:
            outs = chain(outs, lambda s2, a2, t=t: tested(it, s2, w, a2, t))
        return outs
    return f


def eqs(h):
    return lambda it, s, line: holds(it, s, line, h)


def pre(p):
    return lambda it, s, line: starts(it, s, line, p)


def ops(i):
    x, h, y = word(f"X{i}"), word(f"H{i}"), word(f"Y{i}")

    def tln(it, w):
        return toks(it, w, [x, NLT])

    def anchorln(it, w):
        return lambda s, a: chain(seek(it, s, w, a, eqs(h)), toks(it, w, [h, NLT]))

    def anchor(it, w):
        return lambda s, a: chain(seek(it, s, w, a, pre(h)), toks(it, w, [h, NLT]))

    def keyvalue(it, w):
        return lambda s, a: chain(seek(it, s, w, a, pre(h)), toks(it, w, [h, Const(" "), y, NLT]))

    def seek_line(it, w):
        return lambda s, a: seek(it, s, w, a, eqs(h))

    def seek_prefix(it, w):
        return lambda s, a: seek(it, s, w, a, pre(h))

    def header(it, w, h=h):
        def f(s, a):
            outs = [(s, a)]
            if i:
                if a.line >= len(w.lines):
                    # a new section after the end of the snapshot: only where its header goes is specified
                    outs = [(s, a.but(vague=True))]
                else:
                    outs = toks(it, w, [NLT])(s, a)
            return chain(chain(outs, lambda s2, a2: seek(it, s2, w, a2, eqs(h))), toks(it, w, [h, NLT, NLT]))
        return f

    def both(name, *args, end=False):
        def f(it, s, t):
            outs = call_t(it, s, t, name, *args)
            return it.bind(outs, lambda s2, _: call_t(it, s2, t, "tln")) if end else outs
        return f

    return {
        "tln": ("tln(x)", both("tln", x), tln),
        "anchorln": ("anchorln(h)", both("anchorln", h), anchorln),
        "anchor": ("anchor(h), tln()", both("anchor", h, end=True), anchor),
        "keyvalue": ("keyvalueln(h, y)", both("keyvalueln", h, y), keyvalue),
        "seek_line": ("seek_line(h)", both("seek_line", h), seek_line),
        "seek_prefix": ("seek_prefix(h)", both("seek_prefix", h), seek_prefix),
        "header": ("header(h)", both("header", h), header),
        "h2": ("h2(h)", both("h2", h), lambda it, w: header(it, w, concat([Const("## "), h]))),
    }


class Pol(OutPol):
    while_bound = 12


PLAIN = [(), (1,), (1, 1), (1, 1, 1)]
SECT = [(1, 0, 1, 0, 1, 0, 1), (1, 0, 1, 0, 1, 0), (1, 0)]


def run(ctx):
    ctx.rule("cursor", "the verdict is the one of comparing every tested token at the cursor, where an anchor has placed the cursor on the "
                       "next matching line, else on the first earlier one, else nowhere else")
    ctx.min_decided = 300
    cases = []
    for n in (1, 2, 3):
        for names in product(("tln", "anchorln", "seek_line"), repeat=n):
            if set(names) != {"tln"}:
                cases.append((names, PLAIN + ([(1, 1, 1, 1)] if ctx.thorough else [])))
    for names in product(("tln", "anchor", "seek_prefix"), repeat=2):
        if set(names) != {"tln"}:
            cases.append((names, [(), (1,), (2,), (1, 1), (2, 1)]))
    for names in (("keyvalue",), ("keyvalue", "keyvalue"), ("tln", "keyvalue"), ("keyvalue", "tln"), ("anchorln", "keyvalue")):
        cases.append((names, [(), (1,), (3,), (3, 3)]))
    for names in (("header",), ("header", "tln"), ("header", "tln", "header"), ("header", "tln", "header", "tln"), ("tln", "header", "tln"),
                  ("header", "header"), ("tln", "header", "header")):
        cases.append((names, SECT))
    for names, shapes in cases:
        for shape in shapes:
            title = ", ".join(ops(i)[n][0] for i, n in enumerate(names)) + f" against lines of {list(shape)} tokens"
            it = ctx.interp(Pol())
            opl = [ops(i)[n] for i, n in enumerate(names)]
            outs, _ = run_body(it, it.start(), body_of([Op(a, b, None) for a, b, _ in opl]), shape=shape)
            w = World(shape)
            for k, s, v in outs:
                if k == CUT:
                    ctx.und("cursor", title, "cut")
                    continue
                if k == X:
                    ctx.judge("cursor", title, False, f"the run ends with {v!r}", s)
                    continue
                got = verdict_name(it, v)
                acc = [(s.fork(), At(0))]
                for _, _, f in opl:
                    acc = chain(acc, f(it, w))
                for s2, a in acc:
                    if a.vague and not a.diff:
                        continue
                    want = "DIFF" if a.diff else "OK"
                    ctx.judge("cursor", title, got == want, f"verdict {got or v!r}, expected {want} with the cursor placed as specified",
                              s2, vague=got is None)
    ctx.scen["scripts"] = len(cases)
