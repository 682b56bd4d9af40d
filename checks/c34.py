"""C34: the commands that list, print, forget and review, over selections, options and states of the books directory: cases run and files touched."""
from itertools import product
from .deps import *
from .c31 import selected

NAMES = [Const("test/" + x) for x in ("a", "b", "c", "d")] + [Const("other/a")]
VERDICT = {"test/a": "OK", "test/b": "DIFF", "test/c": "FAIL", "other/a": "OK"}
QUIET = ("-l", "--garbage", "--print", "--path", "--view", "--config")
TREE = ["books/index.md", "books/test/a.md", "books/test/b.md", "books/test/x.md", "books/test/a/pic.png", "books/.out/cases.txt", "books/.out/test/a.md"]


def walk_rows(it, st, files, top, reverse=False):
    """os.walk over a concrete tree."""
    dirs, fs = {}, {}
    for f in files:
        ps = f.split("/")
        for i in range(1, len(ps)):
            d = "/".join(ps[:i])
            (fs if i == len(ps) - 1 else dirs).setdefault(d, [])
            l = (fs if i == len(ps) - 1 else dirs)[d]
            if ps[i] not in l:
                l.append(ps[i])
    rows = []

    def go(d):
        ds, ff = list(dirs.get(d, ())), list(fs.get(d, ()))
        if reverse:
            ds, ff = ds[::-1], ff[::-1]
        rows.append(TupleV((Const(d), mklist(st, [Const(x) for x in ds]), mklist(st, [Const(x) for x in ff]))))
        for x in ds:
            go(d + "/" + x)
    go(top)
    return [(V, st, st.alloc(ListO(rows)))]


class Pol(CmdPol):
    def __init__(self, exists, files=(), reverse=False, out=True, **kw):
        CmdPol.__init__(self, exists, polls=0, **kw)
        self.tree, self.reverse = list(files), reverse
        self.kinds = self.kinds | {"removed"}

    def walk(self, it, st, top, node):
        if type(top) is not Const:
            return None
        return walk_rows(it, st, self.tree, top.v.rstrip("/"), self.reverse)

    def decide(self, it, st, p):
        if p.op == "exists0" and type(p.args[0]) is Const:
            f = p.args[0].v.rstrip("/")
            if f in self.tree or any(x.startswith(f + "/") for x in self.tree):
                return True
            if f.startswith("books/"):
                return False
        return CmdPol.decide(self, it, st, p)


def world(ctx, report=True, stored=(), answers=("c",), texts=True):
    pol = Pol({n: n.v in VERDICT for n in NAMES}, [f for f in TREE if report or "/.out/" not in f], answers=answers)
    it = ctx.interp(pol)
    st = it.start()
    for n in NAMES:
        if n.v in VERDICT:
            put_file(st, snap_of(n), Const("old\n"))
            if report:
                put_file(st, out_of(n), Const("new\n"))
                put_file(st, out_of(n, ".txt"), Const("report\n"))
                put_file(st, out_of(n, ".log"), Const("logged\n"))
    if report:
        put_report(st, [(n, VERDICT[n.v]) for n in NAMES if n.v in VERDICT] + [(Const("old/gone"), "OK"), (Const("test/ab"), "FAIL")])
        put_file(st, Const("books/.out/metrics.json"), Term("jsondumps", (Term("dictv", (TupleV((Const("tookMs"), Const(7))),)), FALSE)))
    for i in stored:
        put_result(st, NAMES[i], Sym("stored", typ="object"))
    st, cases = dependent(it, st, NAMES, {1: (0,)}, kinds_of(["pass"]))
    st, tests = tests_obj(it, st, cases)
    return it, st, tests


def commands(evs):
    r = []
    for e in evs:
        if e.kind == "system":
            c = e.args[0]
            r.append("".join(str(p.v) if type(p) is Const else "?" for p in word_parts(c)))
    return r


def touched(st, n0):
    """Files changed by the command: [text]"""
    return [f"{op.items[0].v} {' '.join(repr(x) for x in op.items[1:3])[:90]}" for op in st.fs["log"].items[n0:]]


def ops(st, n0):
    return list(st.fs["log"].items[n0:])


def opened(evs):
    return [e for e in evs if e.kind == "open" and any(c in str(getattr(e.args[1], "v", "r")) for c in "wax+")]


def go(ctx, cmd, args, report=True, stored=(0, 1), answers=("c",), env=()):
    if not report:
        stored = ()
    it, st, tests = world(ctx, report, stored, answers)
    it.pol.envs = [("BOOKTEST_" + k.upper(), v) for k, v in env]
    n0 = len(st.fs["log"].items) if "log" in st.fs else 0
    entries = [a for a in args if not a.startswith("-")] or ["test", "book"]
    sel = [n.v for n in NAMES if selected(entries, n.v)]
    title = f"{' '.join([cmd] + args)}{'' if report else ', nothing run before'}{', no stored results' if not stored else ''}{' ' + '/'.join(answers) if answers != ('c',) else ''}"
    before = records(st) if report else []
    outs = exec_args(it, st, tests, [cmd] + list(args))
    ctx.need(outs, title)
    for k, s, v in outs:
        if k == CUT:
            ctx.und("runs nothing", title, v)
            continue
        evs = s.events()
        ran = [e.args[0] for e in evs if e.kind in ("case", "submit")]
        ctx.judge("runs nothing", title, not ran, f"runs {ran}", s)
        new = ops(s, n0)
        cmds = [c for c in commands(evs)]
        if cmd in QUIET:
            ctx.judge("changes nothing", title, not new, f"changes files: {touched(s, n0)[:4]}", s)
            w = opened(evs)
            ctx.judge("changes nothing", title, not w, f"opens {[e.args[0] for e in w][:3]} for writing", s)
            if cmd == "--view":
                strange = [c for c in cmds if not c.startswith("see ")]
            elif cmd == "--print":
                strange = [c for c in cmds if not (c.startswith("cat ") and not set(c) & set(">|;&"))]
            else:
                strange = cmds
            ctx.judge("changes nothing", title, not strange, f"runs the commands {strange[:3]}", s)
            if k == X:
                ctx.judge("ends", title, False, f"ends with {v!r}", s)
        elif cmd == "--forget":
            other = [t for t, op in zip(touched(s, n0), new) if not (op.items[0].v in ("w", "mkdir") and op.items[1] == CASES_TXT)]
            ctx.judge("forget", title, not other or not report, f"changes other files: {other[:4]}", s)
            if not report:
                continue
            if k == X:
                ctx.judge("forget", title, False, f"ends with {v!r}", s)
                continue
            after = records(s)
            if after is None or before is None:
                ctx.und("forget", title, "report not readable")
                continue
            # a needed case without a stored result belongs to what is selected
            free = ["test/a"] if "test/b" in sel and ("-r" in args or 0 not in stored) and "test/a" not in sel else []
            want = [r for r in before if r[0].v not in sel and r[0].v not in free]
            got = [r for r in after if getattr(r[0], "v", None) not in free]
            same_ = len(got) == len(want) and all(g[0] == w[0] and g[1] == w[1] for g, w in zip(got, want))
            ctx.judge("forget", title, same_, f"the report lists {[(r[0], r[1]) for r in after]} afterwards, expected {[(r[0], r[1]) for r in want]}", s)
            if same_:
                for g, w in zip(got, want):
                    e = g[2] == w[2] or same(it, s, g[2], w[2])
                    ctx.judge("forget", title, True if e else None, f"the duration of {g[0]!r} becomes {g[2]!r}", s)
        else:
            if k == X and v.cls != "KeyboardInterrupt":
                if report:
                    ctx.judge("ends", title, False, f"ends with {v!r}", s)
                continue
            allow = ("see", "cmp")
            strange = [c for c in cmds if not c.startswith(allow)]
            ctx.judge("runs nothing", title, not strange, f"runs the commands {strange[:3]}", s)
    ctx.scen[cmd] = ctx.scen.get(cmd, 0) + len(outs)


def run(ctx):
    ctx.rule("runs nothing", "no path of the command starts a case or a worker job")
    ctx.rule("changes nothing", "no path of a listing or printing command writes, makes, moves or removes a file, by itself or by a command")
    ctx.rule("forget", "--forget changes the case report only: exactly the records of the selected cases are gone, the others are as before, in order")
    ctx.rule("ends", "the command ends regularly")
    ctx.min_decided = 300
    sels = [[], ["test/a"], ["test/b", "test/c"], ["*"], ["skip:test/b"], ["other"], ["test", "skip:test/a"], ["test/d"]]
    opts = [[], ["-c"], ["-r"], ["-a", "-u"], ["-p2"], ["-i"], ["-v", "-L"], ["-f"], ["-s", "-S"], ["-c", "-a", "-I"]]
    for cmd in QUIET + ("--forget",):
        env = [("md_viewer", "see"), ("diff_tool", "cmp")]
        for sel in sels:
            go(ctx, cmd, sel, env=env)
            go(ctx, cmd, sel, report=False, env=env)
            go(ctx, cmd, sel, stored=(), env=env)
        for o in opts:
            for sel in (sels if ctx.thorough else sels[:3]):
                go(ctx, cmd, o + sel, env=env)
                go(ctx, cmd, o + sel, stored=(), env=env)
            go(ctx, cmd, o, report=False, env=env)
        go(ctx, cmd, ["--cov"], env=env)
    for cmd in ("--review", "-w"):
        env = [("md_viewer", "see"), ("diff_tool", "cmp"), ("log_viewer", "see"), ("fast_diff_tool", "cmp")]
        for sel in sels:
            go(ctx, cmd, sel, env=env)
            go(ctx, cmd, sel, report=False, env=env)
        for o in opts:
            go(ctx, cmd, o, env=env)
            go(ctx, cmd, o + ["test/a", "test/b"], env=env)
        for sel in (["test/a"], ["test/b"], ["test/c"], ["test/a", "test/b"]):
            for o in (["-i"], ["-I"], ["-I", "-c"], ["-i", "-a"], ["-i", "-f"]):
                go(ctx, cmd, o + sel, env=env, answers=("a", "c", "q") if sel != ["test/c"] else ("c", "q"))
