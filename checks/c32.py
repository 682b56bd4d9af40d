"""C32: the settings in effect for every combination of configuration sources, and those of later invocations in the same process."""
from itertools import product
from .cmd import *
from .c31 import listed

HOME = concat([Sym("home", typ="str"), Const("/.booktest")])
HERE = Const(".booktest")
OPTION = {"md_viewer": "-md-viewer", "diff_tool": "-diff-tool"}
FLAGS = {"interactive": "-i", "always_interactive": "-I", "verbose": "-v", "print_logs": "-L", "fail_fast": "-f", "continue": "-c", "refresh_sources": "-r",
         "update": "-u", "accept": "-a", "parallel": "-p2", "complete_snapshots": "-s", "refresh_snapshots": "-S", "coverage": "--cov"}


class Pol(CmdPol):
    def __init__(self, home, here, env, **kw):
        CmdPol.__init__(self, {}, files={HOME: home is not None, HERE: here is not None}, env=env, **kw)
        self.texts = {HOME: home, HERE: here}

    def decide(self, it, st, p):
        if p.op == "exists0" and p.args[0] in (Const("test"), Const("book"), Const("run")):
            return False
        return CmdPol.decide(self, it, st, p)


def text(pairs, noise=0):
    """The content of a configuration file."""
    ls = [f"{k}={v}" for k, v in pairs]
    if noise == 1:
        ls = ["# verbose=1", ""] + [x for l in ls for x in (l, "", "#" + l + "x", "   ", "# no setting")] + ["\t"]
    if noise == 2:
        ls = ["", "#"] + ls
        return "\n".join(ls)            # the last line is not ended
    return "".join(l + "\n" for l in ls)


def start(ctx, home=None, here=None, env=(), noise=0, cases=()):
    pol = Pol(home, here, list(env))
    it = ctx.interp(pol)
    st = it.start()
    for p, c in ((HOME, home), (HERE, here)):
        if c is not None:
            put_file(st, p, Const(text(c, noise)))
    pol.files = {}
    st, tests = tests_obj(it, st, cases)
    return it, st, tests


def settings(st, n0=0):
    """The settings printed by --config: {key: text}, or None."""
    ls = listed_from(st, n0)
    if ls is None:
        return None
    d = {}
    for l in ls:
        if "=" not in l:
            return None
        k, v = l.split("=", 1)
        if k in d:
            return {"?": f"{k} is printed twice"}
        d[k] = v
    return d


def listed_from(st, n0):
    r = []
    for e in st.events()[n0:]:
        if e.kind == "print":
            if type(e.args[0]) is not Const:
                return None
            r += [x for x in str(e.args[0].v).split("\n") if x.strip()]
    return r


def form(v):
    return {"1": "True", "0": "False"}.get(str(v), str(v))


def compare(ctx, rule, title, st, k, v, want, n0=0):
    if k != V:
        ctx.judge(rule, title, None if k == CUT else False, f"ends with {v!r}", st)
        return
    got = settings(st, n0)
    if got is None:
        ctx.und(rule, title, "printed text not readable")
        return
    got = {k: form(x) for k, x in got.items()}
    want = {k: form(x) for k, x in want.items()}
    d = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
    ctx.judge(rule, title, not d, "; ".join(f"{k} is {got.get(k)}, expected {want.get(k)}" for k in d[:3]), st)


def invoke(it, st, tests, args, how="exec"):
    if how == "exec":
        return exec_args(it, st, tests, args)
    if how == "parsed":
        return it.bind(parse(it, st, tests, args), lambda s, p: call_t(it, s, tests, "exec_parsed", EXP, p))
    f = it.glob(st, "booktest.cli", "main")
    return it.call(st, f, [mklist(st, [Const(a) for a in args])], {})


def layers(ctx, home, here, env, args, cli, noise=0, how="exec"):
    it, st, tests = start(ctx, home, here, [("BOOKTEST_" + k.upper(), v) for k, v in env], noise)
    want = {}
    for l in (home or (), here or (), env, cli):
        want.update(dict(l))
    title = f"home {home}, project {here}, environment {list(env)}, arguments {args}" + (f", noise {noise}" if noise else "") + (f", {how}" if how != "exec" else "")
    outs = invoke(it, st, tests, args + ["--config"], how)
    ctx.need(outs, title)
    for k, s, v in outs:
        compare(ctx, "layers", title, s, k, v, want)
    ctx.scen[f"layers, {how}"] = ctx.scen.get(f"layers, {how}", 0) + 1


def later(ctx, first, how, second=("--config",), base=(), env=(), cases=None):
    """An invocation with the options `first`, then one that prints the settings."""
    names = [Const("test/one"), Const("test/two")]
    pol_cases = ()
    it, st, tests = start(ctx, None, base or None, [("BOOKTEST_" + k.upper(), v) for k, v in env])
    it.pol.snaps = {n: True for n in names}
    put_snaps(st, names)
    if cases:
        st, tests = tests_obj(it, st, functions(it, st, names, kinds_of(cases)))
    want = dict(base)
    want.update(dict(env))
    title = f"{how} {list(first)}{' ' + str(list(base)) if base else ''}{' cases ' + '/'.join(cases) if cases else ''}, then {' '.join(second)}"
    n = 0
    for k, s, v in invoke(it, st, tests, list(first), how):
        if k == CUT:
            if v != "polling":
                ctx.und("later", title, v)
            continue
        n0 = len(s.events())
        for k2, s2, v2 in invoke(it, s, tests, list(second), how):
            n += 1
            w = dict(want)
            for a in second[:-1]:
                w.update({x: "1" for x, y in FLAGS.items() if y == a})
            compare(ctx, "later", title, s2, k2, v2, w, n0)
    ctx.scen[title] = n
    ctx.need(n > 0 or ctx.broken(), title)


def effect(ctx, first, forms, what, good):
    """Two runs; the second is given no options: good(events of the second run)."""
    names = [Const("test/one"), Const("test/two")]
    it, st, tests = start(ctx)
    it.pol.snaps = {n: True for n in names}
    put_snaps(st, names)
    st, tests = tests_obj(it, st, functions(it, st, names, kinds_of(forms)))
    title = f"run with {first}, then run"
    for k, s, v in exec_args(it, st, tests, list(first) + ["test"]):
        if k == CUT:
            continue
        n0 = len(s.events())
        for k2, s2, v2 in exec_args(it, s, tests, ["test"]):
            if k2 == CUT:
                ctx.und("later", title, v2)
                continue
            ctx.judge("later", title, good(s2.events()[n0:]), f"the second run {what}", s2)


def run(ctx):
    ctx.rule("layers", "the value in effect of each setting is that of the last source in the order home, project, environment, command line; other lines are ignored")
    ctx.rule("later", "an invocation uses the settings of the configuration and its own options only, whatever was invoked before it")
    ctx.min_decided = 300
    # one setting given by any subset of the sources
    for key in ("md_viewer", "diff_tool", "books_path", "my_key"):
        for a, b, c, d in product((0, 1), repeat=4):
            if d and key not in OPTION:
                continue
            for noise in (0, 1, 2):
                if noise and not (a or b):
                    continue
                layers(ctx, [(key, "from home")] if a else None, [(key, "from=project")] if b else None, [(key, "from env")] if c else [],
                       [OPTION[key], "from args"] if d else [], [(key, "from args")] if d else [], noise)
    for key, opt in FLAGS.items():
        val = "2" if key == "parallel" else "1"
        for a, b, c in product((None, "0", "1"), repeat=3):
            for d in (0, 1):
                if not ctx.thorough and sum(x is not None for x in (a, b, c)) == 2 and key != "verbose":
                    continue
                layers(ctx, a and [(key, a)], b and [(key, b)], [(key, c)] if c else [], [opt] if d else [], [(key, val)] if d else [])
    # several settings, each from another source; files that set nothing
    layers(ctx, [("a", "1"), ("b", "x"), ("c", "y")], [("b", "2"), ("d", "z")], [("c", "3"), ("e", "w")], ["-v", "-md-viewer", "cat"], [("verbose", "1"), ("md_viewer", "cat")])
    layers(ctx, [("a", "1"), ("b", "x"), ("c", "y")], [("b", "2"), ("d", "z")], [("c", "3"), ("e", "w")], ["-i"], [("interactive", "1")], 1)
    layers(ctx, [], [], [], [], [])
    layers(ctx, [], [("a", "x")], [], [], [], 1)
    layers(ctx, [("a", "x")], [], [], [], [], 2)
    layers(ctx, [("a", "")], [("b", "")], [("c", "")], [], [])
    layers(ctx, None, None, [], ["-v"], [("verbose", "1")])
    # other variables are no settings
    it, st, tests = start(ctx, None, [("a", "x")], [("A", "y"), ("XBOOKTEST_A", "z"), ("BOOKTEST_B", "w"), ("OTHER", "v"), ("booktestA", "u")])
    for k, s, v in exec_args(it, st, tests, ["--config"]):
        compare(ctx, "layers", "other variables", s, k, v, {"a": "x", "b": "w"})
    for how in ("parsed", "main"):
        for a, b, c, d in product((0, 1), repeat=4):
            layers(ctx, [("md_viewer", "h")] if a else None, [("md_viewer", "p")] if b else None, [("md_viewer", "e")] if c else [],
                   ["-md-viewer", "x"] if d else [], [("md_viewer", "x")] if d else [], how=how)
    # later invocations
    for how in ("exec", "parsed", "main"):
        for o in list(FLAGS.values()) + ["-p", "-p8"]:
            later(ctx, [o, "--config"], how)
            later(ctx, [o, "-l"], how, ("-f", "--config") if o != "-f" else ("-v", "--config"))
            later(ctx, [o, "--config"], how, base=[("verbose", "1"), ("md_viewer", "x")], env=[("update", "0")])
        later(ctx, ["-md-viewer", "x", "-diff-tool", "y", "--config"], how)
        later(ctx, list(FLAGS.values()) + ["-l"], how, base=[("verbose", "0")])
    for how in ("exec", "parsed"):
        for o in (["-v"], ["-f"], ["-u"], ["-a"], ["-c"], ["-r"], ["-s"], ["-S"], ["-L"], ["-v", "-f", "-u"]):
            later(ctx, o + ["test"], how, cases=["value"])
            later(ctx, o + ["test"], how, cases=["fail", "value"])
    ran = lambda n: (lambda es: sum(e.kind == "case" for e in es) == n)
    effect(ctx, ["-f"], ["fail"], "stops at the first failure", ran(2))
    effect(ctx, ["-c"], ["value"], "leaves out cases that were successful", ran(2))
    effect(ctx, ["-p2"], ["value"], "is parallel", lambda es: not any(e.kind == "submit" for e in es))
    effect(ctx, ["-i"], ["fail"], "asks", lambda es: not any(e.kind == "answer" for e in es))
