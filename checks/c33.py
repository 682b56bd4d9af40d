"""C33: command lines with every option, alone and combined, serial and parallel: the settings they switch on and what the run then does."""
from itertools import combinations, product
from sa.extmodels import MODELS, env_find
from .deps import *
from .c32 import FLAGS, OPTION, compare, start, invoke

A, B, C, D, E = CASES = [Const("test/" + x) for x in "abcde"]


class Pol(CmdPol):
    kinds = CmdPol.kinds | {"pool", "stdout", "coverage", "shown"}
    max_depth = 90

    def __init__(self, script, env):
        CmdPol.__init__(self, {n: n != E and n != C for n in CASES}, script[-1:], env=env, polls=0)
        self.script = script
        self.ext["sys.stdout.write"] = self.out
        self.ext["os.listdir"] = self.listdir
        for q in ("coverage.Coverage", "coverage.coverage"):
            self.ext[q] = self.cov

    def listdir(self, it, st, a, kw, node):
        """Nothing lies in the working directory."""
        if not a or a[0] in (Const("."), NONE):
            return [(V, st, st.alloc(ListO([])))]
        return MODELS["os.listdir"](it, st, a, kw, node)

    def out(self, it, st, a, kw, node):
        it.event(st, "stdout", *a[-1:], node=node)
        return [(V, st, NONE)]

    def cov(self, it, st, a, kw, node):
        it.event(st, "coverage", node=node)
        return [(V, st, st.alloc(ExtO("coverage.Coverage")))]

    def pool(self, it, st, a, kw, node):
        it.event(st, "pool", kw.get("processes", a[0] if a else NONE), node=node)
        return CmdPol.pool(self, it, st, a, kw, node)

    def input(self, it, st, a, kw, node):
        n = st.ext.get("asked", 0)
        st.ext["asked"] = n + 1
        x = self.script[n % len(self.script)]
        it.event(st, "answer", Const(x), node=node)
        return [(V, st, Const(x))]

    def decide(self, it, st, p):
        if p.op == "exists0":
            last = word_parts(p.args[0])[-1:]
            if last and type(last[0]) is Const and str(last[0].v).endswith((".requests", ".httpx", ".functions", ".json", ".bin", ".coverage")):
                return False
        return CmdPol.decide(self, it, st, p)


def world(ctx, script=("c",), env=()):
    pol = Pol(script, list(env))
    it = ctx.interp(pol)
    st = it.start()
    put_file(st, snap_of(A), Const("alpha\n"))
    put_file(st, snap_of(B), Const("other\n"))
    put_file(st, snap_of(D), Const("delta\n"))
    put_file(st, Const("books/test/e/.env.json"), Term("jsondumps", (Term("dictv", (TupleV((Const("E_VAR"), Const("old"))),)), FALSE)))
    put_result(st, A, Sym("stored a", typ="object"))
    put_report(st, [(D, "OK"), (B, "DIFF")])
    st.env[Const("E_VAR")] = Const("new")
    st.env[Const("C_VAR")] = Const("c")

    def body(name, text, var=None):
        def h(it, st, f, a, kw, node):
            outs = [(st, NONE)] if var is None else env_find(it, st, Const(var))
            r = []
            for s, v in outs:
                it.event(s, "case", name, v, node=node)
                o = call_t(it, s, a[0], "tln", Const(text)) if text else [(V, s, NONE)]
                for k, s2, x in o:
                    r.append((k, s2, Const(name.v) if k == V else x))
            return r
        return h
    f = {}
    for n, text, var in ((A, "alpha", None), (B, "beta", None), (C, "", "C_VAR"), (D, "delta", None), (E, "", "E_VAR")):
        f[n] = it.user_fn(st, "case", handler=body(n, text, var))
    for n, var in ((C, "C_VAR"), (E, "E_VAR")):
        st, d = one(it.call(st, it.glob(st, "booktest", "snapshot_env"), [Const(var)], {}))
        st, f[n] = one(it.call(st, d, [f[n]], {}))
    st, d = one(it.call(st, it.glob(st, "booktest", "depends_on"), [f[A]], {}))
    st, f[B] = one(it.call(st, d, [f[B]], {}))
    st, tests = tests_obj(it, st, [(n, f[n]) for n in CASES])
    return it, st, tests


def texts(evs):
    r = []
    for e in evs:
        if e.kind in ("print", "stdout") and e.args:
            r += [str(p.v) for p in word_parts(e.args[0]) if type(p) is Const]
    return "".join(r)


def moved(st, name):
    """The accepted text of the case was replaced."""
    return any(op.items[0].v == "mv" and op.items[2] == snap_of(name) for op in st.fs["log"].items)


def judge(ctx, title, on, st, par, sel=(B, C, D, E), tools=None):
    """What a run with the settings `on` must and must not do."""
    evs = st.events()
    ran = [e.args[0] for e in evs if e.kind == "case"]
    want = [n for n in CASES if n in sel or n == A and B in sel and "refresh_sources" in on]
    if "continue" in on and D in want:
        want.remove(D)
    capture = "complete_snapshots" in on or "refresh_snapshots" in on
    verdict = {A: "OK", B: "DIFF", C: "DIFF" if capture else "FAIL", D: "OK", E: "DIFF"}
    if "accept" in on:
        verdict = {n: "OK" if v == "DIFF" else v for n, v in verdict.items()}
    first = dict(verdict)
    if "fail_fast" in on:
        if par:
            return
        for i, n in enumerate(want):
            if verdict[n] != "OK":
                want = want[:i + 1]
                break
    bodies = [n for n in want if n != C or capture]
    if par:
        ctx.judge("runs", title, sorted(map(repr, ran)) == sorted(map(repr, bodies)), f"runs {ran}, expected {bodies}", st)
    else:
        ctx.judge("runs", title, ran == bodies, f"runs {ran}, expected {bodies}", st)
    sub = [e.args[0] for e in evs if e.kind == "submit"]
    ctx.judge("parallel", title, sorted(map(repr, sub)) == (sorted(map(repr, want)) if par else []), f"given to worker processes: {sub}", st)
    pools = [e.args[0] for e in evs if e.kind == "pool"]
    if par is True:
        ctx.judge("parallel", title, len(pools) == 1 and type(pools[0]) is not Const or pools == [NONE], f"worker processes: {pools}", st)
    elif par:
        ctx.judge("parallel", title, pools == [Const(par)], f"worker processes: {pools}, asked for {par}", st)
    raw = {A: "OK", B: "DIFF", C: "DIFF" if capture else "FAIL", D: "OK", E: "DIFF"}
    asked = len([e for e in evs if e.kind == "answer" and e.args[0].v == "c"])
    expect = sum("always_interactive" in on or "interactive" in on and raw[n] != "OK" for n in want)
    ctx.judge("asks", title, asked == expect, f"asks about {asked} cases, expected {expect}", st)
    for n in want:
        m = moved(st, n)
        e = raw[n] == "OK" and "update" in on or raw[n] == "DIFF" and "accept" in on
        ctx.judge("accepts", title, m == e, f"the text of {n!r} ({raw[n]}) is {'accepted' if m else 'not accepted'}", st)
    for e in evs:
        if e.kind == "case" and e.args[0] == E:
            w = Const("new" if "refresh_snapshots" in on else "old")
            ctx.judge("snapshots", title, e.args[1] == w, f"the snapshotted variable is {e.args[1]!r} in the case, expected {w!r}", st, e.loc)
    t = texts(evs)
    if B in want:
        ctx.judge("prints", title, ("beta" in t) == ("verbose" in on), f"the output of the cases is {'' if 'beta' in t else 'not '}printed", st)
    logs = [e for e in evs if e.kind == "open" and type(e.args[0]) is not NONE and str(word_parts(e.args[0])[-1].v if type(word_parts(e.args[0])[-1]) is Const else "").endswith(".log")
            and "r" in str(e.args[1].v)]
    ctx.judge("logs", title, bool(logs) == ("print_logs" in on), f"the logs are {'' if logs else 'not '}read", st)
    cov = [e for e in evs if e.kind == "coverage"]
    ctx.judge("coverage", title, bool(cov) == ("coverage" in on), f"coverage is {'' if cov else 'not '}measured", st)
    cmds = [e.args[0] for e in evs if e.kind == "system"]
    cmds = [str(c.v) if type(c) is Const else "".join(str(p.v) if type(p) is Const else "?" for p in word_parts(c)) for c in cmds]
    cmds = [c for c in cmds if not c.startswith(("mkdir", "rm "))]
    if tools:
        ctx.judge("tools", title, all(any(c.startswith(x + " ") for c in cmds) for x in tools) and len(cmds) == expect * len(tools),
                  f"the commands run are {cmds[:4]}, expected those of {tools} for each of {expect} cases", st)
    else:
        ctx.judge("tools", title, not cmds, f"runs {cmds[:3]}", st)


def go(ctx, args, on, env=(), script=("c",), sel=(B, C, D, E), tools=None, par=None):
    par = (on.get("parallel") if par is None else par) or False
    it, st, tests = world(ctx, script, [("BOOKTEST_" + k.upper(), v) for k, v in env])
    title = f"{' '.join(args) or 'no options'}" + (f" with {list(env)} configured" if env else "")
    outs = exec_args(it, st, tests, list(args) + [n.v for n in sel])
    n = 0
    for k, s, v in outs:
        if k == CUT:
            if v != "polling":
                ctx.und("runs", title, v)
            continue
        n += 1
        if k != V:
            ctx.judge("runs", title, False, f"ends with {v!r}", s)
            continue
        judge(ctx, title, on, s, par, sel, tools)
    ctx.need(n > 0 or ctx.broken(), title)
    ctx.scen[title] = n


def run(ctx):
    ctx.rule("settings", "the settings in effect are those of the options given and no others")
    ctx.rule("runs", "the cases run are the selected ones, also their stored dependencies with -r, without successful ones with -c, up to the first failure with -f")
    ctx.rule("parallel", "cases are given to worker processes exactly with -p; -pN asks for N of them")
    ctx.rule("asks", "the user is asked about failed and differing cases with -i, about every case with -I, otherwise not at all")
    ctx.rule("accepts", "successful texts are replaced with -u, differing ones with -a, no others")
    ctx.rule("snapshots", "missing snapshots are captured with -s, all are with -S, otherwise stored values are used")
    ctx.rule("prints", "the output of the cases is printed exactly with -v")
    ctx.rule("logs", "logs are printed exactly with -L")
    ctx.rule("coverage", "coverage is measured exactly with --cov")
    ctx.rule("tools", "-md-viewer and -diff-tool give the commands that show a text and a difference")
    ctx.min_decided = 500
    opts = {k: v for k, v in FLAGS.items() if k != "parallel"}
    # settings
    keys = list(FLAGS)
    for n in (0, 1, 2):
        for ks in combinations(keys, n):
            for how in ("exec", "parsed") if n < 2 else ("exec",):
                it, st, tests = start(ctx)
                args = [FLAGS[k] for k in ks]
                for k, s, v in invoke(it, st, tests, args + ["--config"], how):
                    compare(ctx, "settings", f"{how} {args}", s, k, v, {x: "2" if x == "parallel" else "1" for x in ks})
    for o, v in (("-p", "1"), ("-p1", 1), ("-p2", 2), ("-p3", 3), ("-p4", 4), ("-p6", 6), ("-p8", 8), ("-p16", 16)):
        it, st, tests = start(ctx)
        for k, s, x in invoke(it, st, tests, [o, "--config"]):
            compare(ctx, "settings", o, s, k, x, {"parallel": "True" if o in ("-p", "-p1") and False else v})
    # effects, one option, serial and parallel, given as option and configured
    for par in (None, "-p2"):
        pa, pon = ([par], {"parallel": 2}) if par else ([], {})
        go(ctx, pa, pon)
        for key, o in opts.items():
            go(ctx, [o] + pa, {key: 1, **pon})
            go(ctx, pa, {key: 1, **pon}, env=[(key, "1")])
            go(ctx, pa, pon, env=[(key, "0")])
        pairs = list(combinations(opts, 2))
        for i, (a, b) in enumerate(pairs):
            if ctx.thorough or i % 4 == (0 if par else 1) or not par and "fail_fast" in (a, b):
                go(ctx, pa + [opts[a], opts[b]], {a: 1, b: 1, **pon})
        go(ctx, pa + ["-u", "-a", "-v", "-s", "-r"], {"update": 1, "accept": 1, "verbose": 1, "complete_snapshots": 1, "refresh_sources": 1, **pon})
        go(ctx, pa + ["-i", "-md-viewer", "see", "-diff-tool", "cmp"], {"interactive": 1, **pon}, script=("v", "d", "c"), tools=["see", "cmp"])
        go(ctx, pa + ["-I", "-md-viewer", "see it"], {"always_interactive": 1, **pon}, script=("v", "c"), tools=["see it"])
        go(ctx, pa + ["-i", "-diff-tool", "cmp"], {"interactive": 1, **pon}, script=("d", "c"), tools=["cmp"], env=[("md_viewer", "other")])
        go(ctx, pa + ["-i"], {"interactive": 1, **pon}, script=("d", "v", "c"), tools=["cmp", "see"], env=[("md_viewer", "see"), ("diff_tool", "cmp")])
        go(ctx, pa, pon, sel=(D,))
        go(ctx, pa, pon, sel=(C, E))
        go(ctx, pa + ["-r"], {"refresh_sources": 1, **pon}, sel=(D, E))
    for n in (1, 2, 3, 4, 6, 8, 16):
        go(ctx, [f"-p{n}"], {"parallel": n})
        go(ctx, ["--parallel-count", str(n)], {"parallel": n})
    go(ctx, [], {}, env=[("parallel", "5")], par=5)
    go(ctx, ["-p"], {"parallel": True})
