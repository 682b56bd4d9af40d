"""C11: the abstract file system below the snapshots after every path that accepts a result, or fails to, against the state it must have."""
from itertools import product
from sa.extmodels import fs_lookup
from .par import *

NEW = {"a.txt": "new a", "b.txt": "new b"}
OLDF = {"a.txt": "old a", "old.txt": "old"}


def exp_file(name, f):
    return concat([EXP, Const("/"), name, Const("/" + f)])


def body(names, files, forms):
    base = kinds_of(forms)

    def make(name):
        inner = base(name)

        def h(it, st, f, a, kw, node):
            outs = call_t(it, st, a[0], "tln", Sym(f"w:text of {name!r}", typ="str"))
            for x in files:
                def step(s, v, x=x):
                    def put(s2, p):
                        put_file(s2, p, Const(NEW[x]))
                        return [(V, s2, NONE)]
                    return it.bind(call_t(it, s, a[0], "file", Const(x)), put)
                outs = it.bind(outs, step)
            return it.bind(outs, lambda s, v: inner(it, s, f, a, kw, node))
        return h
    return make


def put_old(st, name, text, files):
    if text is not None:
        put_file(st, snap_of(name), text)
    for f in files:
        put_file(st, exp_file(name, f), Const(OLDF[f]))


def tree(st, name):
    """Accepted state of a case: (text, {file: content or None})."""
    r = {}
    for f in sorted(set(NEW) | set(OLDF)):
        e = fs_lookup(st, exp_file(name, f))
        r[f] = text_of(st, e[1]) if e[0] == "file" else None
    return file_text(st, snap_of(name)) if fs_lookup(st, snap_of(name))[0] == "file" else None, r


def full(files, d):
    return {f: Const(d[f]) if f in files else None for f in sorted(set(NEW) | set(OLDF))}


def accepting(ctx, how, files, old, old_files):
    """A run that accepts what it produced."""
    mode, form = how
    name = pname(0) if mode == "parallel" else nm(0)
    pol = ParPol({name: old}, ("a",), polls=0) if mode == "parallel" else SuitePol({name: old}, ("a",))
    it = ctx.interp(pol)
    st = it.start()
    put_old(st, name, Const("old text\n") if old else None, old_files)
    opts = {"interactive": TRUE} if mode != "mode" else {"accept": TRUE, "update": TRUE}
    cases = functions(it, st, [name], body([name], files, [form]))
    if mode == "parallel":
        outs = run_parallel(it, st, cases, [name], cfg_of(st, **opts))
    else:
        outs = run_serial(it, st, cases, [name], cfg_of(st, **opts))
    title = f"{how}, files {files}, snapshot {old} with {old_files}"
    for k, s, v in outs:
        recs = records(s) if k == V else None
        if k != V or recs is None or len(recs) != 1:
            ctx.judge("replaced", title, None if k == CUT else False, f"{k} {v!r}, records {recs}", s)
            continue
        if recs[0][1] != Const("OK"):
            ctx.judge("replaced", title, False, f"accepted, but recorded as {recs[0][1]!r}", s)
            continue
        text, fl = tree(s, name)
        want = concat([Sym(f"w:text of {name!r}", typ="str"), NLT])
        ps = flat(text) if text is not None else []
        ctx.judge("replaced", title, None if text is None else want.args[0] in ps, f"the accepted text is {text!r}", s)
        if text is None:
            ctx.judge("replaced", title, False, "no accepted text", s)
        ctx.judge("replaced", title, fl == full(files, NEW), f"the accepted files are {fl}, of the run {files}", s)
    ctx.scen[title] = len(outs)


def reviewing(ctx, verdict, has_text, files, old, old_files, twice=False, answers=("a",), **opts):
    name = nm(0)
    pol = SuitePol({}, answers)
    pol.while_bound = 2
    it = ctx.interp(pol)
    st = it.start()
    put_old(st, name, Const("old text\n") if old else None, old_files)
    put_report(st, [(name, verdict)])
    put_file(st, Const("books/.out/metrics.json"), Const('{"tookMs": 5}'))
    if has_text:
        put_file(st, out_of(name), Const("new text\n"))
    put_file(st, out_of(name, ".txt"), Const(""))
    for f in files:
        put_file(st, concat([OUT, Const("/"), name, Const("/" + f)]), Const(NEW[f]))
    before = tree(st, name)
    cfg = cfg_of(st, **opts)
    rv = it.glob(st, "booktest.review", "review")
    outs = it.call(st, rv, [EXP, OUT, cfg, NONE, NONE], {})
    if twice:
        outs = [o for k, s, v in outs for o in (it.call(s, rv, [EXP, OUT, cfg, NONE, NONE], {}) if k == V else [(k, s, v)])]
    title = f"review{' twice' if twice else ''} of {verdict} ({'/'.join(opts)}), text {has_text}, files {files}, snapshot {old} with {old_files}"
    for k, s, v in outs:
        if k == CUT:
            ctx.und("kept", title, v)
            continue
        now = tree(s, name)
        if has_text:
            want = (Const("new text\n"), full(files, NEW))
            ctx.judge("replaced", title, now == want, f"the accepted snapshot is {now}, of the run {want} ({k} {v!r})", s)
        else:
            ctx.judge("kept", title, now == before, f"nothing to accept, but the snapshot {before} becomes {now} ({k} {v!r})", s)
    ctx.scen[title] = len(outs)


def run(ctx):
    ctx.rule("replaced", "the accepted text and files are exactly those of the accepted run")
    ctx.rule("kept", "if there is no text to accept, the snapshot is as before")
    ctx.min_decided = 60
    subsets = [[], ["a.txt"], ["a.txt", "b.txt"]]
    olds = [(False, []), (True, []), (True, ["a.txt", "old.txt"]), (True, ["old.txt"])]
    for mode in ("mode", "answer", "parallel"):
        for form in ("pass", "diff"):
            if mode == "answer" and form == "pass":
                continue
            for files in subsets:
                for old, of in olds:
                    if form == "pass" and mode == "parallel" and old:
                        continue
                    accepting(ctx, (mode, form), files, old, of)
    for files in subsets:
        for old, of in olds + [(False, ["old.txt"])]:
            for has_text in (True, False):
                reviewing(ctx, "DIFF", has_text, files, old, of, interactive=TRUE)
                reviewing(ctx, "DIFF", has_text, files, old, of, accept=TRUE)
                reviewing(ctx, "OK", has_text, files, old, of, update=TRUE)
            reviewing(ctx, "OK", True, files, old, of, twice=True, update=TRUE)
            reviewing(ctx, "DIFF", True, files, old, of, twice=True, update=TRUE, accept=TRUE)
