"""C13: typestate of standard error, the root logger's handlers and the case's files along every path of a run."""
from .par import *

SYS, ROOT = ExtV("sys"), ExtV("logging.root")


def stderr_of(it, st):
    return one(it.getattr(st, SYS, "stderr", None))[1]


def handlers_of(it, st):
    v = one(it.getattr(st, ROOT, "handlers", None))[1]
    if type(v) is Ref and st.heap[v.oid].kind == "list":
        return list(st.heap[v.oid].items)
    return v


def file_name(st, v):
    """Path of a file object, or of the file a handler writes to."""
    if type(v) is not Ref:
        return None
    o = st.heap[v.oid]
    if o.kind == "ext" and o.q == "file":
        return o.attrs["name"]
    if o.kind == "ext":
        for x in list(o.args) + list(o.attrs.values()):
            if type(x) is Ref:
                r = file_name(st, x)
                if r is not None:
                    return r
            elif type(x) is not Const or isinstance(x.v, str):
                if "FileHandler" in o.q:
                    return x
    return None


def body(ctx, forms, meddle, loud):
    base = kinds_of(forms)

    def make(name):
        inner = base(name)

        def h(it, st, f, a, kw, node):
            log = out_of(name, ".log")
            e = stderr_of(it, st)
            n = file_name(st, e)
            inst = f"{loud}"
            ctx.judge("during", inst + ", stderr", n == log and st.heap[e.oid].attrs.get("closed") != TRUE if type(e) is Ref else
                      (False if type(e) is ExtV else None), f"while {name!r} runs, standard error is {e!r} ({n!r})", st)
            hs = handlers_of(it, st)
            if isinstance(hs, list):
                ns = [file_name(st, x) for x in hs]
                ctx.judge("during", inst + ", logging", bool(hs) and all(x == log for x in ns) if not hs or all(x is not None for x in ns) or H0 in hs else None,
                          f"while {name!r} runs, the root logger's handlers are {hs} writing to {ns}", st)
            else:
                ctx.judge("during", inst + ", logging", False if hs == Sym("handlers0", typ="list") else None, f"handlers: {hs!r}", st)
            if meddle:
                st.ext["sys.stderr"] = Sym("case's own stderr")
                st.ext["logging.root.handlers"] = mklist(st, [Sym("case's own handler")])
            return inner(it, st, f, a, kw, node)
        return h
    return make


H0 = Sym("handler0")


def after(ctx, it, s, title, names, hkind):
    e = stderr_of(it, s)
    ctx.judge("after", title + ", stderr", e == ExtV("sys.stderr"), f"afterwards standard error is {e!r} ({file_name(s, e)!r})", s)
    hs = handlers_of(it, s)
    want = {"list": [H0], "none": [], "unknown": Sym("handlers0", typ="list")}[hkind]
    ctx.judge("after", title + ", logging", hs == want, f"afterwards the root logger's handlers are {hs!r}, before {want!r}", s)


def files_closed(ctx, s, title, names):
    mine = [out_of(n, x) for n in names for x in (".md", ".txt", ".log")]
    n = 0
    opened = [(e.args[0], e.args[2]) for e in s.events() if e.kind == "open" and e.args[0] in mine and any(c in e.args[1].v for c in "wax")]
    for p, f in opened:
        if type(f) is Ref and f.oid in s.heap:
            n += 1
            ctx.judge("closed", title, s.heap[f.oid].attrs.get("closed") == TRUE, f"{p!r} is still open", s)
    return n


def setup(st, hkind):
    if hkind != "unknown":
        st.ext["logging.root.handlers"] = mklist(st, [H0] if hkind == "list" else [])


def scenario(ctx, n, forms, is_async=False, hkind="list", meddle=False, snap=True, answers=("c",), **opts):
    names = [nm(i) for i in range(n)]
    pol = SuitePol({x: snap for x in names}, answers)
    pol.kinds = pol.kinds | {"open"}
    pol.cancelling = (0, 1)
    it = ctx.interp(pol)
    st = it.start()
    setup(st, hkind)
    if snap:
        put_snaps(st, names)
    # keep the file objects of the cases alive in the abstract heap
    title = f"{n} cases{', async' if is_async else ''}, handlers {hkind}, snapshot {snap}{', meddling' if meddle else ''}{', ' + '/'.join(opts) if opts else ''}"
    outs = run_serial(it, st, functions(it, st, names, body(ctx, forms, meddle, title), is_async), names, cfg_of(st, **opts))
    for k, s, v in outs:
        if k == CUT:
            ctx.und("after", title, v)
            continue
        t2 = f"{title}: {[x[1] for x in history(s)]}"
        after(ctx, it, s, t2, names, hkind)
        files_closed(ctx, s, t2, names)
    ctx.scen[title] = len(outs)


def run(ctx):
    ctx.rule("during", "while a case runs, standard error and all root log handlers write to its log file")
    ctx.rule("after", "after the run, however the cases ended, standard error and the root handlers are those from before")
    ctx.rule("closed", "the text, report and log files of every case that has ended are closed")
    ctx.min_decided = 40
    F = ["pass", "diff", "fail", "Exception", "SystemExit", "KeyboardInterrupt", "asyncio.CancelledError"]
    for hk in ("list", "none", "unknown"):
        for a in (False, True):
            scenario(ctx, 1, F, a, hk)
    for m in (False, True):
        scenario(ctx, 2, ["pass", "fail", "Exception"], meddle=m)
        scenario(ctx, 1, ["pass", "Exception"], meddle=m, snap=False)
    scenario(ctx, 2, ["pass", "diff", "fail"], answers=("a", "q", "c"), interactive=TRUE)
    scenario(ctx, 1, ["pass", "diff", "fail"], verbose=TRUE, print_logs=TRUE)
    scenario(ctx, 2, ["pass", "diff"], update=TRUE, accept=TRUE)
    if ctx.thorough:
        scenario(ctx, 3, F[:4])
        scenario(ctx, 2, F, True, "unknown")
