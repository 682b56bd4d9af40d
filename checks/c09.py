"""C09: every file operation of a run, over decorators, modes, endings, serial and parallel runs."""
from itertools import product
from .snap import *
from .c18 import DECOS, CALLS, U1, U2
from .c10 import want

INDEX = Const("books/index.md")
OPS = {"w": (1,), "rm": (1,), "mv": (1, 2), "cp": (2,)}


def inside(p, d):
    """Is p the path d or below it?  None when that cannot be told."""
    a, b = flat_path(p), flat_path(d)
    if a is None or b is None:
        return None
    return a == b or a.startswith(b + "/")


def flat_path(p):
    r = ""
    for x in word_parts(p):
        if type(x) is Const and isinstance(x.v, str):
            r += x.v
        elif type(x) is Sym and not x.vague or type(x) is Term and x.op in ("hexdigest", "str"):
            r += repr(x).replace("/", "|")
        else:
            return None
    return r


def changes(log, since=0):
    """(operation, path changed) of the file operations that change something."""
    for e in log[since:]:
        for i in OPS.get(e.items[0].v, ()):
            yield e.items[0].v, e.items[i]


def accepted_paths(n):
    return [snap_of(n), concat([EXP, Const("/"), n])]


def verify(ctx, inst, st, log, since, ok_names, rule, where):
    """Changes are below the output directory, of the index, or of accepted cases."""
    for op, p in changes(log, since):
        good = [inside(p, OUT), inside(p, INDEX)] + [inside(p, q) for n in ok_names for q in accepted_paths(n)]
        ctx.judge(rule, inst, True if True in good else None if None in good else False, f"{op} of {p} outside of the output", st, where)


class Pol9(SnapPol):
    kinds = SnapPol.kinds | {"inside"}


class Par9(SnapPol, ParPol):
    kinds = ParPol.kinds | {"inside"}

    def __init__(self, snaps):
        ParPol.__init__(self, snaps, polls=0)
        self.utf8, self.resp, self.fails, self.order = True, {}, (), "up"


def watched(it, st, f, method=False):
    """Calls f and notes which file operations happened until it returned."""
    def h(it, st, g, a, kw, node):
        n = len(st.fs["log"].items)
        r = []
        for k, s, v in it.bind(it.call(st, f, list(a), dict(kw)), lambda s, c: it.await_(s, c)):
            it.event(s, "inside", TupleV(s.fs["log"].items[n:]), node=node)
            r.append((k, s, v))
        return r
    return it.user_fn(st, "watched", is_async=True, handler=h)


FORMS = (None, "fail", "diff", "UserError", "KeyboardInterrupt")
STACKS = [("functions",), ("requests",), ("httpx",), ("env",), ("mock",), ("mock_env",), ("mock_missing_env",), ("requests", "httpx", "functions", "env"),
          ("env", "functions", "httpx", "requests"), ("mock_env", "httpx"), ()]


def calls_of(stack):
    r = []
    for w in stack:
        r += [Fn("f", 1), Fn("g", 2)] if w == "mock" else CALLS["ahttpx" if w == "httpx" else w][:2] if w in CALLS else [Env("VAR_A")]
    return r


def apply(it, st, stack, f):
    for w in reversed(stack):
        if w in ("mock_env", "mock_missing_env"):
            st, d = one(it.call(st, it.glob(st, "booktest", w), [mkdict(st, [(Const("VAR_A"), Const("x"))])], {}))
            st, f = one(it.call(st, d, [f], {}))
        else:
            what, kw = ("mock", {}) if w == "mock" else DECOS[w][0]
            st, f = deco(it, st, what, f, **kw)
    return st, f


def form_of(end):
    return {None: "OK", "iln": "DIFF", "diff": "DIFF", "fail": "FAIL"}.get(end, "FAIL")


def go(ctx, stack, mode, end, flags, answers=(), stored=True, old=None, par=False, snap=True, is_async=False):
    """One run after (stored) a run that captured and accepted."""
    i, ai, u, a = flags
    names = [N0] + ([Const("t/two")] if par else [])
    pol = Par9({n: snap for n in names}) if par else Pol9({N0: snap}, answers=answers or ("c",))
    it = ctx.interp(pol)
    st = it.start()
    if snap:
        put_snaps(st, names)
    st = world(it, st)
    st.fs.setdefault("log", TupleV(()))
    for x in ("VAR_A", "VAR_B", "VAR_C", "VAR_D"):
        st.env = dict(st.env)
        st.env[Const(x)] = env_at(x, 0)
    f = it.user_fn(st, "case", is_async=is_async, handler=body(calls_of(stack), end=lambda r: end if r == int(stored) else None))
    st, f = apply(it, st, stack, f)
    g = watched(it, st, f)
    title = f"{'/'.join(stack) or 'no decorator'}: {mode}, {end or 'normal'}{', parallel' if par else ''}{'' if stored else ', nothing stored'}" \
            f"{f', {old[1] or chr(97) + chr(108) + chr(108)} in the old form' if old else ''}, update {u}, accept {a}{f', answers {answers}' if answers else ''}{'' if snap else ', no text accepted'}"
    outs = [(V, st, NONE)]
    if stored:
        outs = it.bind(outs, lambda s, v: run_once(it, s, f, "complete"))

    def last(s, v):
        s.ext["run"] = int(stored)
        if old and not legacy(s, *old):
            return [(CUT, s, NONE)]
        s.ext["at"] = Const(len(s.fs["log"].items) + 1)
        kw = dict(interactive=i, always_interactive=ai, update=u, accept=a)
        if not par:
            return run_once(it, s, g, mode, None, **kw)
        other = it.user_fn(s, "other", handler=lambda it, s2, f2, a2, k2, n2: [(V, s2, NONE)])
        s.fs["log"] = TupleV(tuple(s.fs["log"].items) + (TupleV((Const("rm"), CASES_TXT)),))
        return run_parallel(it, s, [(N0, g), (names[1], other)], names, cfg_of(s, **MODE[mode], **kw))
    outs = it.bind(outs, last)
    n = 0
    for k, s, v in outs:
        n += 1
        if k == CUT:
            continue
        log = list(s.fs["log"].items)
        wh = Where(it, s, Req(stack[0]) if stack and stack[0] in ("requests", "httpx") else Env("x") if stack and stack[0] == "env" else Fn("f"), None)
        for e in s.events():
            if e.kind == "inside":
                verify(ctx, title, s, list(e.args[0].items), 0, (), "case", wh)
        recs = {r[0]: r[1].v for r in records(s) or []}
        ans = [e.args[0].v for e in s.events() if e.kind == "answer"]
        oks = [x for x in names if recs.get(x) == "OK" and (u or a or ans and ans[-1] == "a")]
        verify(ctx, title, s, log, s.ext["at"].v, oks, "run", wh)
    ctx.scen[title] = n


def run(ctx):
    ctx.rule("case", "while a case with any stack of decorators runs, from its call to its last way out, no operation that creates, overwrites, renames "
                     "or deletes a file has a path outside of the output directory")
    ctx.rule("run", "in a whole run every such operation is below the output directory, on the index, or on the text and directory of a case that is "
                    "recorded as OK in a run that accepts (mode or answer)")
    ctx.min_decided = 100
    F, T = False, True
    none, upd, acc, both = (F, F, F, F), (F, F, T, F), (F, F, F, T), (F, F, T, T)
    for stack in STACKS:
        for end in FORMS:
            for mode in ("replay", "complete", "refresh"):
                if end in ("KeyboardInterrupt", "diff") and mode != "complete":
                    continue
                go(ctx, stack, mode, end, none, stored=mode != "complete", is_async=end == "fail")
                if end in ("fail", "diff", "UserError"):
                    go(ctx, stack, mode, end, both if end != "diff" else upd)
        go(ctx, stack, "complete", None, both, stored=False)
        go(ctx, stack, "complete", None, acc, stored=False, snap=False)
        go(ctx, stack, "complete", None, upd, stored=False, snap=False)
        go(ctx, stack, "replay", "diff", (T, F, F, F), answers=("c", "a", "q"))
        go(ctx, stack, "complete", "fail", (T, T, F, F), answers=("a", "c"))
        go(ctx, stack, "complete", None, (T, T, F, F), answers=("a", "c"))
        for end in (None, "fail"):
            go(ctx, stack, "complete", end, none, par=True)
            go(ctx, stack, "refresh", end, both, par=True)
        w = [x for x in stack if x in ("requests", "httpx")]
        for x in w:
            for mode in ("replay", "complete", "refresh"):
                for ix in (None, (0,)):
                    go(ctx, stack, mode, None, none, old=(x, ix))
                    go(ctx, stack, mode, "fail", both, old=(x, ix))
                go(ctx, stack, mode, None, none, old=(x, None), par=True)
