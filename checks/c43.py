"""C43: the tools run by the answers of the dialogue and by the viewing commands, and their files, over dialogues, settings and selections."""
import re
from itertools import product
from .par import *
from .c42 import write
from . import c34
from .c31 import selected
from .cmd import exec_args

TOOLS = {"v": "md_viewer", "l": "log_viewer", "d": "diff_tool", "D": "fast_diff_tool"}
CMDS = {"md_viewer": "see -m", "log_viewer": "less", "diff_tool": "cmp --all", "fast_diff_tool": "diff"}


def words_of(st, c):
    """The words of a command line: each a tuple of parts."""
    if type(c) is Ref and st.heap[c.oid].kind == "list":
        c = TupleV(tuple(st.heap[c.oid].items))
    if type(c) is TupleV:
        r = []
        for x in c.items:
            r += words_of(st, x)
        return r
    r, cur = [], []
    for p in word_parts(c):
        if type(p) is Const and isinstance(p.v, str):
            bits = re.split(r"\s+", p.v)
            for j, b in enumerate(bits):
                if j and cur:
                    r.append(tuple(cur))
                    cur = []
                if b:
                    cur.append(Const(b))
        else:
            cur.append(p)
    if cur:
        r.append(tuple(cur))
    return r


def parts(v):
    return tuple(word_parts(v))


def want_cmd(ans, name, exists):
    tool = TOOLS[ans]
    exp, out, log = parts(snap_of(name)), parts(out_of(name)), parts(out_of(name, ".log"))
    files = {"v": [exp, out] if exists else [out], "l": [log], "d": [exp, out], "D": [exp, out]}[ans]
    return [(Const(w),) for w in CMDS[tool].split()] + files


def normal(ws):
    """Words with adjacent constants joined."""
    return [tuple(word_parts(concat(list(w)))) for w in ws]


def asking(pol):
    base = pol.ext["builtins.input"]

    def ask(it, st, a, kw, node):
        it.event(st, "at", Const(len(st.fs["log"].items) if "log" in st.fs else 0), node=node)
        return base(it, st, a, kw, node)
    pol.ext["builtins.input"] = ask
    pol.ext["sys.stdout.write"] = write
    pol.kinds = pol.kinds | {"print", "system", "input", "at"}


def judge(ctx, s, title, order, verdict, exists, tools):
    """order: the cases asked about, in order; verdict: the verdict of each."""
    evs = [e for e in s.events() if e.kind in ("at", "answer", "system", "print")]
    who = 0
    cur, got, told, at = None, [], [], None

    def close(again):
        nonlocal who
        if cur is None:
            return
        if who >= len(order):
            ctx.judge("again", title, False, "the user is asked once too often", s)
            return
        name = order[who]
        inst = f"{title}: {verdict[name]}, answer {cur!r}"
        if cur in ("c", "q") or cur == "a" and verdict[name] != "FAIL":
            ctx.judge("tool", inst, not got, f"runs {got}", s)
            who += 1
            return
        ctx.judge("again", inst, again, "the user is not asked again", s)
        if cur not in TOOLS:
            ctx.judge("tool", inst, not got, f"runs {got}", s)
            return
        if TOOLS[cur] not in tools:
            ctx.judge("tool", inst, not got, f"{TOOLS[cur]} is not set, runs {got}", s)
            ctx.judge("told", inst, any(TOOLS[cur] in "".join(p.v for p in word_parts(t) if type(p) is Const).lower() for t in told),
                      f"the user is not told that {TOOLS[cur]} is not set", s)
            return
        want = [normal(want_cmd(cur, name, exists.get(name, False)))]
        have = [normal(words_of(s, c)) for c in got]
        ctx.judge("tool", inst, have == want, f"runs {have}, expected {want}", s)

    for e in evs:
        if e.kind == "at":
            if at is not None and cur is not None and cur not in ("c", "q", "a"):
                ctx.judge("again", f"{title}, answer {cur!r}", e.args[0] == at, "the answer changes files", s)
            close(True)
            cur, got, told, at = None, [], [], e.args[0]
        elif e.kind == "answer":
            cur = e.args[0].v
        elif e.kind == "system" and cur is not None:
            got.append(e.args[0])
        elif e.kind == "system":
            ctx.judge("tool", title, False, f"runs {e.args[0]!r} without being asked to", s)
        elif e.kind == "print" and cur is not None:
            told.append(e.args[0])
    close(False)


def settings(tools, **kw):
    return {**{t: Const(CMDS[t]) for t in tools}, **kw}


def serial(ctx, forms, snaps, answers, tools=tuple(CMDS), is_async=False, **modes):
    names = [nm(i) for i in range(len(snaps))]
    sm = dict(zip(names, snaps))
    pol = SuitePol(sm, answers)
    asking(pol)
    pol.while_bound = 3 if len(snaps) == 1 else 2
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, [x for x in names if sm[x]])
    outs = run_serial(it, st, functions(it, st, names, kinds_of(forms), is_async), names,
                      cfg_of(st, **settings(tools, **modes)))
    title = f"{'asynchronous ' if is_async else ''}run, snapshots {snaps}, {modes}, {len(tools)} tools"
    finish(ctx, outs, title, lambda s: ([x for x, f, a in history(s)], {x: expect(f, sm[x]) for x, f, a in history(s)}), sm, tools, modes)


def finish(ctx, outs, title, what, exists, tools, modes):
    n = 0
    for k, s, v in outs:
        if k == CUT:
            continue
        if k != V:
            ctx.judge("again", title, False, f"{k} {v!r}", s)
            continue
        order, verdict = what(s)
        asked = [x for x in order if modes.get("always_interactive") or verdict[x] != "OK"]
        n += 1
        judge(ctx, s, title, asked, verdict, exists, tools)
    ctx.need(n > 0 or ctx.broken(), title)
    ctx.scen[title.split(",")[0]] = ctx.scen.get(title.split(",")[0], 0) + n


def parallel(ctx, forms, snaps, answers, tools=tuple(CMDS), **modes):
    names = [pname(i) for i in range(len(snaps))]
    sm = dict(zip(names, snaps))
    pol = ParPol(sm, answers, polls=0)
    asking(pol)
    pol.while_bound = 4
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, [x for x in names if sm[x]])
    outs = run_parallel(it, st, functions(it, st, names, kinds_of(forms)), names, cfg_of(st, **settings(tools, **modes)))

    def what(s):
        done = {e.args[0]: e.args[1].v for e in s.events() if e.kind == "case"}
        return list(done), {x: expect(f, sm[x]) for x, f in done.items()}
    finish(ctx, outs, f"parallel run, snapshots {snaps}, {modes}, {len(tools)} tools", what, sm, tools, modes)


def reviewing(ctx, combo, answers, tools=tuple(CMDS), texts=True, sel=None, **modes):
    names = [nm(i) for i in range(len(combo))]
    pol = SuitePol({x: texts for x in names}, answers)
    asking(pol)
    pol.while_bound = 3 if len(combo) == 1 else 2
    it = ctx.interp(pol)
    st = it.start()
    put_report(st, list(zip(names, combo)))
    put_file(st, Const("books/.out/metrics.json"), Const('{"tookMs": 5}'))
    for x in names:
        for ext in (".md", ".txt", ".log"):
            put_file(st, out_of(x, ext), Const(""))
    if texts:
        put_snaps(st, names)
    outs = it.call(st, it.glob(st, "booktest.review", "review"),
                   [EXP, OUT, cfg_of(st, **settings(tools, **modes)), NONE, NONE if sel is None else mklist(st, [names[i] for i in sel])], {})
    shown = [x for i, x in enumerate(names) if sel is None or i in sel]
    finish(ctx, outs, f"review, {combo}, texts {texts}, selected {sel}, {modes}, {len(tools)} tools", lambda s: (shown, dict(zip(names, combo))),
           {x: texts for x in names}, tools, modes)


def viewing(ctx, cmd, sel, opts=(), tools=("md_viewer",), report=True):
    it, st, tests = c34.world(ctx, report, (0, 1) if report else ())
    it.pol.kinds = it.pol.kinds | {"print", "system"}
    it.pol.ext["sys.stdout.write"] = write
    it.pol.envs = [("BOOKTEST_" + t.upper(), CMDS[t]) for t in tools]
    entries = [a for a in sel] or ["test", "book"]
    chosen = [n.v for n in c34.NAMES if selected(entries, n.v)]
    have = [f"books/{n}.md" for n in chosen if f"books/{n}.md" in texts_of(st)]
    # a needed case without a stored result may count as selected
    free = [] if report or "test/b" not in chosen or "test/a" in chosen else ["books/test/a.md"]
    title = f"{' '.join([cmd] + list(opts) + list(sel))}, {len(tools)} tools" + ("" if report else ", nothing run before")
    for k, s, v in exec_args(it, st, tests, [cmd] + list(opts) + list(sel)):
        if k == CUT:
            ctx.und("shown", title, v)
            continue
        if k == X:
            ctx.judge("shown", title, False, f"ends with {v!r}", s)
            continue
        evs = s.events()
        cmds = [["".join(p.v if type(p) is Const else "?" for p in w) for w in words_of(s, e.args[0])] for e in evs if e.kind == "system"]
        cmds = [c for c in ([w for w in c if w not in free] for c in cmds) if len(c) > 1]
        text = "".join("".join(p.v if type(p) is Const else "?" for p in word_parts(e.args[0])) for e in evs if e.kind == "print")
        if cmd == "--path":
            got = [f for f in text.split() if f not in free]
            ctx.judge("shown", title, sorted(got) == sorted(f"books/{n}.md" for n in chosen) and not cmds, f"prints {got} for {chosen}", s)
        elif cmd == "--print":
            if not cmds and text and have:
                ctx.und("shown", title, "printed otherwise")
                continue
            got = [f for c in cmds for f in c[1:]]
            ctx.judge("shown", title, got == have and all(c[0] == "cat" for c in cmds), f"prints {cmds}, expected {have}", s)
        elif "md_viewer" not in tools:
            ctx.judge("shown", title, not cmds, f"runs {cmds}", s)
            ctx.judge("told", title, not have or "md_viewer" in text.lower(), "the user is not told that md_viewer is not set", s)
        else:
            pre = CMDS["md_viewer"].split()
            good = (not cmds and not have) or (len(cmds) == 1 and cmds[0][:len(pre)] == pre and sorted(cmds[0][len(pre):]) == sorted(have) and bool(have))
            ctx.judge("shown", title, good, f"runs {cmds}, expected {have}", s)
    ctx.scen[cmd] = ctx.scen.get(cmd, 0) + 1


def texts_of(st):
    return {op.items[1].v for op in st.fs["log"].items if op.items[0].v == "w" and type(op.items[1]) is Const}


def run(ctx):
    ctx.rule("tool", "the answers v, l, d and D run the configured tool once, with the files of the case asked about; other answers run nothing")
    ctx.rule("again", "these and all unknown answers change no file and decide nothing: the user is asked again about the same case")
    ctx.rule("told", "if the tool is not set, the user is told which")
    ctx.rule("shown", "--view opens the accepted texts of exactly the selected cases, --print prints them, --path prints their paths")
    ctx.min_decided = 300
    ANS = ("v", "l", "d", "D", "x", "c")
    ai = {"always_interactive": True}
    F = ["pass", "diff", "fail"]
    for snap in (True, False):
        for form in F:
            serial(ctx, [form], [snap], ANS, **ai)
        serial(ctx, F + ["Exception"], [snap], ("v", "d", "", "a", "q"), interactive=True)
        serial(ctx, F, [snap], ("v", "l", "d", "D", "c"), tools=(), **ai)
        for t in CMDS:
            serial(ctx, ["diff"], [snap], ("v", "l", "d", "D", "c"), tools=(t,), **ai)
        serial(ctx, ["pass", "diff"], [snap], ("v", "D", "c"), is_async=True, **ai)
        parallel(ctx, F, [snap], ANS, **ai)
        parallel(ctx, ["diff"], [snap], ("v", "l", "c"), tools=("log_viewer",), **ai)
        for v in VERDICTS:
            reviewing(ctx, (v,), ANS, texts=snap, **ai)
            reviewing(ctx, (v,), ("v", "l", "d", "D", "a", "c"), texts=snap, interactive=True)
            reviewing(ctx, (v,), ("v", "l", "d", "D", "c"), texts=snap, tools=(), **ai)
    for form in F:
        serial(ctx, [form], [True, True], ("v", "l", "c"), **ai)
        serial(ctx, [form], [False, True], ("d", "D", "a", "c"), **ai)
    for c in product(VERDICTS, repeat=2):
        reviewing(ctx, c, ("v", "l", "c"), **ai)
        reviewing(ctx, c, ("d", "D", "a", "c"), interactive=True)
        reviewing(ctx, c, ("v", "d", "c"), sel=(1,), **ai)
    sels = [[], ["test/a"], ["test/b", "test/c"], ["*"], ["skip:test/b"], ["other"], ["test", "skip:test/a"], ["test/d"], ["test/c"], ["test/a", "other"]]
    for cmd in ("--view", "--print", "--path"):
        for sel in sels:
            for tools in (("md_viewer",), ()) if cmd == "--view" else (("md_viewer",),):
                viewing(ctx, cmd, sel, tools=tools)
                viewing(ctx, cmd, sel, tools=tools, report=False)
            for o in (["-v"], ["-i"], ["-a", "-u"], ["-p2"], ["-f"]):
                viewing(ctx, cmd, sel, o)
