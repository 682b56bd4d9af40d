"""C41: what --setup asks and stores, over earlier settings and answers, and what the next invocation reads from it."""
from itertools import product
from .c32 import *

KEYS = {"diff_tool": "meld", "fast_diff_tool": "diff", "md_viewer": "retext --preview", "log_viewer": "less", "test_paths": "test,book,run",
        "default_tests": "test,book", "books_path": "books"}


class SetupPol(Pol):
    kinds = Pol.kinds | {"input"}


def asked(e):
    """The setting an input prompt names, or None."""
    t = e.args[0].v if e.args and type(e.args[0]) is Const else None
    if not isinstance(t, str):
        return None
    c = [k for k in KEYS if k in t.replace(":", " ").replace("'", " ").split()]
    return c[0] if len(c) == 1 else None


def parsed(text):
    r = {}
    for l in text.split("\n"):
        if l.strip() and not l.startswith("#"):
            if "=" not in l:
                return None
            k, v = l.strip().split("=", 1)
            r[k] = v
    return r


def go(ctx, title, answers, home=None, here=None, env=()):
    """answers: {setting: answer}; the others are left empty."""
    pol = SetupPol(home, here, [("BOOKTEST_" + k.upper(), v) for k, v in env])

    def inp(it, st, a, kw, node):
        it.event(st, "input", *a, node=node)
        last = [e for e in st.events() if e.kind == "input"][-1]
        k = asked(last)
        if k is None:
            return [(CUT, st, "prompt")]
        return [(V, st, Const(answers.get(k, "")))]
    pol.ext["builtins.input"] = inp
    it = ctx.interp(pol)
    st = it.start()
    for p, c in ((HOME, home), (HERE, here)):
        if c is not None:
            put_file(st, p, Const(text(c)))
    names = [Const("test/one")]
    st, tests = tests_obj(it, st, functions(it, st, names, kinds_of(["value"])))
    before = {}
    for l in (home or (), here or (), env):
        before.update(dict(l))
    want = {k: answers.get(k) or before.get(k, d) for k, d in KEYS.items()}
    outs = exec_args(it, st, tests, ["--setup"])
    ctx.need(outs, title)
    for k, s, v in outs:
        if k != V:
            ctx.judge("setup", title, None if k == CUT else False, f"ends with {v!r}", s)
            continue
        ctx.judge("setup", title, v == Const(0), f"exit status {v!r}", s, vague=type(v) is not Const)
        es = s.events()
        n = [asked(e) for e in es if e.kind == "input"]
        ctx.judge("setup", title, sorted(n) == sorted(KEYS), f"asks for {n}", s)
        ctx.judge("only", title, not any(e.kind in ("case", "submit") for e in es), "a case is run", s)
        content = file_text(s, HERE)
        if type(content) is not Const:
            ctx.und("setup", title, f"stored text not readable: {content!r}"[:150])
            continue
        got = parsed(content.v)
        ctx.judge("setup", title, got is not None and {k: x for k, x in got.items() if k in KEYS} == want,
                  f"stores {got}, expected {want}", s)
        others = [p for p in written_files(s) if p != HERE]
        ctx.judge("only", title, not others, f"writes {others[:3]}", s)
        if content.v == "":
            continue
        # another process reads what was stored
        pol2 = Pol(None, [("x", "y")], [])
        it2 = ctx.interp(pol2)
        st2 = it2.start()
        put_file(st2, HERE, content)
        pol2.files = {}
        st2, tests2 = tests_obj(it2, st2, [])
        for k2, s2, v2 in exec_args(it2, st2, tests2, ["--config"]):
            if k2 != V:
                ctx.judge("next", title, None if k2 == CUT else False, f"ends with {v2!r}", s2)
                continue
            now = settings(s2)
            if now is None:
                ctx.und("next", title, "printed text not readable")
                continue
            d = sorted(x for x in KEYS if now.get(x) != want[x])
            ctx.judge("next", title, not d, "; ".join(f"{x} is {now.get(x)}, expected {want[x]}" for x in d[:3]), s2)
    ctx.scen["dialogues"] = ctx.scen.get("dialogues", 0) + 1


def written_files(st):
    r = []
    for e in (st.fs["log"].items if "log" in st.fs else ()):
        if e.items[0] != Const("r") and e.items[1] not in r:
            r.append(e.items[1])
    return [p for p in r if p not in (HOME,)]


def run(ctx):
    ctx.rule("setup", "every setting is asked for once and stored with the answer, or with its value so far (else the default) if the answer is empty")
    ctx.rule("next", "the next invocation reads the stored settings")
    ctx.rule("only", "no case is run and no other file is written")
    ctx.min_decided = 100
    values = ["x", "my tool --opt=1 -v", "a=b", "books/here", "x y"]
    for cur in (None, [], [(k, "old " + k) for k in KEYS]):
        go(ctx, f"nothing answered, project {cur}", {}, here=cur)
        go(ctx, f"all answered, project {cur}", {k: "new " + k for k in KEYS}, here=cur)
        for k in KEYS:
            for v in values if ctx.thorough or k in ("diff_tool", "books_path") else values[:2]:
                go(ctx, f"{k} answered with {v!r}, project {cur}", {k: v}, here=cur)
            go(ctx, f"all but {k} answered, project {cur}", {x: "new " + x for x in KEYS if x != k}, here=cur)
    for k in KEYS:
        go(ctx, f"{k} from home", {}, home=[(k, "h")])
        go(ctx, f"{k} from home and project", {}, home=[(k, "h")], here=[(k, "p")])
        go(ctx, f"{k} from the environment", {}, here=[(k, "p")], env=[(k, "e")])
        go(ctx, f"{k} from the environment, answered", {k: "new"}, here=[(k, "p")], env=[(k, "e")])
