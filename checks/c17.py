"""C17: what of an earlier run the abstract file system still holds when a case's body starts and when it is accepted; where its files lie."""
from sa.extmodels import fs_lookup, under, norm
from .par import *

OLD = Const("left over\n")
NAMES = ("old.txt", "sub/old.txt")


def leftovers(st, name, what):
    if "dir" in what:
        for f in NAMES:
            put_file(st, concat([OUT, Const("/"), name, Const("/" + f)]), OLD)
    if "tmp" in what:
        for f in NAMES:
            put_file(st, concat([OUT, Const("/"), name, Const(".tmp/" + f)]), OLD)
    if "emptydir" in what:
        for x in ("", ".tmp"):
            log = list(st.fs["log"].items) if "log" in st.fs else []
            st.fs["log"] = TupleV(tuple(log) + (TupleV((Const("mkdir"), concat([OUT, Const("/"), name, Const(x)]))),))
    for ext in (".md", ".txt", ".log"):
        if ext in what:
            put_file(st, out_of(name, ext), OLD)


def check_clean(ctx, rule, title, st, name, base=OUT, files=("old.txt", "sub/old.txt"), tmp=True):
    for d in ("", ".tmp") if tmp else ("",):
        for f in files:
            p = concat([base, Const("/"), name, Const(d + "/" + f)])
            e = fs_lookup(st, p)
            ctx.judge(rule, title, e[0] != "file", f"{p!r} of the earlier run is still there", st)
    for ext in (".md", ".txt", ".log") if base == OUT else (".md",):
        t = file_text(st, concat([base, Const("/"), name, Const(ext)]))
        if t is not None:
            bad = any(type(x) is Const and isinstance(x.v, str) and "left over" in x.v for x in flat(t))
            ctx.judge(rule, title, not bad, f"{name!r}{ext} still holds text of the earlier run: {t!r}", st)


def body(ctx, title, forms):
    base = kinds_of(forms)

    def make(name):
        inner = base(name)

        def h(it, st, f, a, kw, node):
            check_clean(ctx, "start", title, st, name)
            t = a[0]
            outs = [(V, st, NONE)]
            for api_, arg, d in (("file", "made.txt", ""), ("tmp_file", "made.txt", ".tmp"), ("tmp_path", "other", ".tmp"), ("tmp_dir", "d", ".tmp"), ("file", "made2.txt", "")):
                def step(s, v, api_=api_, arg=arg, d=d):
                    def got(s2, p):
                        want = concat([OUT, Const("/"), name, Const(d)])
                        ctx.judge("inside", f"{title}: {api_}", under(norm(p), want) is not None and under(norm(p), want) != Const(""),
                                  f"{api_}({arg!r}) gives {p!r}, not a path below {want!r}", s2)
                        if api_ != "tmp_dir":
                            put_file(s2, norm(p), Const("made"))
                        return [(V, s2, NONE)]
                    return it.bind(call_t(it, s, t, api_, Const(arg)), got)
                outs = it.bind(outs, step)
            return it.bind(outs, lambda s, v: inner(it, s, f, a, kw, node))
        return h
    return make


def scenario(ctx, what, forms, mode, snap=True, twice=False, is_async=False, **opts):
    par = mode == "parallel"
    name = pname(0) if par else nm(0)
    pol = (ParPol if par else SuitePol)({name: snap}, ("a",) if opts.get("interactive") else ("c",), **({"polls": 0} if par else {}))
    it = ctx.interp(pol)
    st = it.start()
    if snap:
        put_snaps(st, [name])
    leftovers(st, name, what)
    title = f"{mode}{' twice' if twice else ''}, left over {what}, {'/'.join(opts)}"
    cases = functions(it, st, [name], body(ctx, title, forms), is_async)

    def go(s):
        if par:
            return run_parallel(it, s, cases, [name], cfg_of(s, **opts))
        return run_serial(it, s, cases, [name], cfg_of(s, **opts))
    outs = go(st)
    if twice:
        outs = it.bind(outs, lambda s, v: go(s))
    for k, s, v in outs:
        if k == CUT:
            ctx.und("start", title, v)
            continue
        ctx.judge("start", title, k == V, f"{k} {v!r}", s)
        check_clean(ctx, "end", title, s, name)
        check_clean(ctx, "end", title, s, name, EXP, tmp=False)
    ctx.scen[title] = len(outs)


def run(ctx):
    ctx.rule("start", "when a case's body starts, no file of its earlier run is in its file and temporary directories and its texts are empty")
    ctx.rule("end", "nothing of the earlier run is in the case's output or accepted snapshot afterwards")
    ctx.rule("inside", "file and tmp_* give paths below the case's own directories")
    ctx.min_decided = 60
    whats = [("dir",), ("tmp",), ("dir", "tmp", ".md", ".txt", ".log"), (".md", ".txt", ".log"), ("emptydir",), ()]
    for w in whats:
        for mode in ("serial", "parallel"):
            scenario(ctx, w, ["pass", "diff", "fail", "Exception"], mode)
            scenario(ctx, w, ["diff"], mode, interactive=TRUE)
            scenario(ctx, w, ["pass", "diff"], mode, snap=False, accept=TRUE, update=TRUE)
        scenario(ctx, w, ["pass", "fail"], "serial", is_async=True)
    for mode in ("serial", "parallel"):
        scenario(ctx, (), ["pass", "diff"], mode, twice=True)
        scenario(ctx, ("dir",), ["pass", "diff"], mode, twice=True, accept=TRUE, update=TRUE)
