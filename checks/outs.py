"""Driving the output API of a real TestCaseRun (C01-C03, C37)."""
from sa.harness import *
from sa.extmodels import text_of, content_of, word_parts, opaque_free

NLT = Const("\n")


def word(name):
    """A text of one token, otherwise unknown."""
    return Sym("w:" + name, typ="str")


def tokens_of(text):
    """Tokens of a text whose parts are one token each."""
    r = []
    for p in word_parts(text):
        if type(p) is Const and isinstance(p.v, str):
            for i, line in enumerate(p.v.split("\n")):
                if i:
                    r.append(NLT)
                if line:
                    r.append(Const(line))
        elif opaque_free(p):
            r.append(p)
        else:
            r.append(Sym(f"tok of {p!r}", typ="str"))
    return r


def tok_init(it, st, a, kw, node):
    text = a[1] if len(a) > 1 else kw.get("buf")
    o = st.mut(a[0])
    o.attrs["__toks__"] = TupleV(tokens_of(text))
    o.attrs["__at__"] = Const(0)
    return [(V, st, NONE)]


def tok_next(it, st, a, kw, node):
    o = st.heap[a[0].oid]
    i = o.attrs["__at__"].v
    ts = o.attrs["__toks__"].items
    if i >= len(ts):
        return it.exc(st, "StopIteration", node=node)
    st.mut(a[0]).attrs["__at__"] = Const(i + 1)
    return [(V, st, ts[i])]


def tok_has(it, st, a, kw, node):
    o = st.heap[a[0].oid]
    return [(V, st, Const(o.attrs["__at__"].v < len(o.attrs["__toks__"].items)))]


TOK = {
    "booktest.tokenizer.TestTokenizer.__init__": tok_init,
    "booktest.tokenizer.TestTokenizer.__next__": tok_next,
    "booktest.tokenizer.TestTokenizer.__iter__": lambda it, st, a, kw, node: [(V, st, a[0])],
    "booktest.tokenizer.TestTokenizer.has_next": tok_has,
}

CASE = atom("case")
SNAP = concat([EXP, Const("/"), CASE, Const(".md")])
TEXT = concat([OUT, Const("/"), CASE, Const(".md")])
REPT = concat([OUT, Const("/"), CASE, Const(".txt")])


class OutPol(LeanFs, Policy):
    kinds = set()
    stubs = dict(TOK)
    max_steps = 4000000

    def decide(self, it, st, p):
        r = LeanFs.decide(self, it, st, p)
        if r is not None:
            return r
        if p.op == "exists0" and p.args[0] == SNAP:
            return False
        return None


def snapshot(st, shape):
    """Put an accepted snapshot of the given shape (tokens per line) on the disk.
    Returns its token table."""
    table, parts = [], []
    for i, n in enumerate(shape):
        toks = [word(f"S{i}.{j}") for j in range(n)]
        table.append(toks)
        parts += toks + [NLT]
    data = concat(parts) if parts else Const("")
    st.fs["log"] = TupleV((TupleV((Const("w"), SNAP, data)),))
    return table


class Script:
    """What was asked for, as the specification sees it."""

    def __init__(self):
        self.lines = [[]]        # [(token, tested)], a complete line ends with the newline token
        self.marks = []          # 'fail' | 'diff' events
        self.anchors = False
        self.line_marks = {}
        self.open_mark = False
        self.last_tested = False

    def flags(self):
        n = len(self.lines) - (0 if self.lines[-1] or self.open_mark else 1)
        return ["!" if "fail" in self.line_marks.get(i, ()) else "?" if "diff" in self.line_marks.get(i, ()) else "" for i in range(n)]


def call_t(it, st, t, name, *args, **kw):
    return it.bind(it.getattr(st, t, name, None), lambda s, m: it.call(s, m, list(args), kw))


def out(script, toks, tested):
    for x in toks:
        script.lines[-1].append((x, tested))
        if x == NLT:
            script.lines.append([])


def start_t(it, st, cfg=None, shape=None):
    """[(st, t)] of a started case run."""
    if cfg is None:
        cfg = config(st, interactive=False, always_interactive=False, verbose=False, update=False, accept=False)
    table = snapshot(st, shape) if shape is not None else None
    r = []
    for s, t in case_run(it, st, cfg, CASE):
        for k, s2, v in call_t(it, s, t, "start"):
            if k == V:
                r.append((s2, t))
    return r, table


def end_t(it, st, t):
    """[(st, verdict)]"""
    r = []
    for k, s, v in call_t(it, st, t, "end"):
        r.append((k, s, v))
    return r


def mismatches(it, st, script, table):
    """[(st, bool)]: does any tested token differ from its counterpart in the snapshot
    (line by line, token by token; after the end of a line its newline, after the last
    line nothing)."""
    acc = [(st.fork(), False)]
    lines = [list(l) for l in script.lines]
    if lines[-1] or script.open_mark:
        lines[-1].append((NLT, script.last_tested))
    for i, line in enumerate(lines):
        for j, (tok, tested) in enumerate(line):
            if not tested:
                continue
            if i < len(table):
                other = table[i][j] if j < len(table[i]) else NLT
            else:
                other = NONE
            nxt = []
            for s, b in acc:
                if b:
                    nxt.append((s, b))
                    continue
                for k, s2, e in it.eq(s, tok, other):
                    if k == V:
                        nxt.append((s2, not e))
            acc = nxt
    return acc


def ok_dict(it, st):
    cls = it.glob(st, "booktest.reports", "TestResult")
    return cls


def verdict_name(it, v):
    """'OK' | 'DIFF' | 'FAIL' | None of a TestResult value, or of end()'s (verdict, request)."""
    if type(v) is TupleV and v.items:
        v = v.items[0]
    return v.name if type(v) is EnumV else None


def flat(v):
    """Constants and symbols of a text in order, looking through formatting."""
    if type(v) is Term:
        if v.op == "fmt":
            return flat(v.args[0])
        r = []
        for a in v.args:
            r += flat(a) if isinstance(a, Val) else []
        return r
    if type(v) is TupleV:
        return [y for x in v.items for y in flat(x)]
    return [v]


def file_text(st, path):
    d = content_of(st, path)
    return text_of(st, d) if d is not None else None


def run_body(it, st, body, cfg=None, is_async=False, shape=None):
    """Run one case with the given body through TestRun.run_async; [(k, st, value)] and the
    snapshot's token table."""
    if cfg is None:
        cfg = config(st, interactive=False, always_interactive=False, verbose=False, update=False, accept=False)
    table = snapshot(st, shape) if shape is not None else None
    fn = it.user_fn(st, "case", is_async=is_async, handler=body)
    st, tests = tests_obj(it, st, [(CASE, fn)])
    st, run = test_run(it, st, tests, [CASE], cfg)
    return it.bind(call_t(it, st, run, "run_async"), lambda s, v: it.await_(s, v)), table


class Op:
    """One step of a case: how it is called and what it means."""

    def __init__(self, title, call, effect):
        self.title, self.call, self.effect = title, call, effect


def body_of(ops, exc=None, rv=None):
    """A case body that performs ops in order (then raises exc)."""
    def h(it, st, f, a, kw, node):
        t = a[0]
        outs = [(V, st, NONE)]
        for op in ops:
            outs = it.bind(outs, lambda s, _, op=op: op.call(it, s, t))
        r = []
        for k, s, v in outs:
            if k == V and exc:
                r.append((X, s, ExcV(exc, (Sym("message", typ="str"),), "case")))
            else:
                r.append((k, s, rv if rv is not None and k == V else v))
        return r
    return h


def api(name, *args, **kw):
    return lambda it, s, t: call_t(it, s, t, name, *args, **kw)


def script_of(ops):
    sc = Script()
    for op in ops:
        op.effect(sc)
    return sc


def eff_text(toks, tested):
    def f(sc):
        out(sc, toks, tested)
        sc.last_tested = tested
        if toks:
            sc.open_mark = sc.open_mark and NLT not in toks
    return f


def eff_mark(kind):
    def f(sc):
        sc.marks.append(kind)
        sc.line_marks.setdefault(len(sc.lines) - 1, set()).add(kind)
        sc.open_mark = True
    return f


def ops_text(i):
    x = word(f"X{i}")
    return x
