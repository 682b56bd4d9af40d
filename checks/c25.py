"""C25: order of the cases on every path of a serial and a parallel run over dependency graphs, selections and stored results."""
from .deps import *

GRAPHS = {
    "pair": (2, {1: (0,)}),
    "chain": (3, {1: (0,), 2: (1,)}),
    "diamond": (4, {1: (0,), 2: (0,), 3: (1, 2)}),
    "two": (3, {2: (0, 1)}),
    "shortcut": (3, {1: (0,), 2: (1, 0)}),
    "fork": (3, {1: (0,), 2: (0,)}),
}


def title_of(g, listing, sel, stored, mode, opts, recs=()):
    return f"{g}, listed {listing}, selected {sel}, stored {stored}{', recorded ' + str(recs) if recs else ''}, {mode} {' '.join(opts)}"


def setup(ctx, g, listing, stored, pol, recs=(), forms=("value",), inner=None, outer=None):
    n, deps = GRAPHS[g]
    names = [Const("test/" + "abcdef"[i]) for i in range(n)]
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, names)
    for i in stored:
        put_result(st, names[i], Sym(f"stored{i}"))
    if recs:
        put_report(st, [(names[i], v) for i, v in recs])
    st, cases = dependent(it, st, names, deps, kinds_of(list(forms)), inner=inner, outer=outer)
    cases = [cases[i] for i in listing]
    return it, st, names, deps, cases


def args_of(names, sel, opts):
    return [x for x in opts] + [names[i].v for i in sel]


def judge(ctx, title, deps, names, want, k, s, v, start, finish, run_all=True):
    """start/finish: event kinds of a case."""
    order = {}
    bad = False
    running, done, seen = [], [], []
    wanted = needs(deps, want)
    for e in s.events():
        if e.kind not in (start, finish):
            continue
        i = names.index(e.args[0]) if e.args[0] in names else None
        if i is None:
            ctx.und("order", title, "unknown case")
            return
        if e.kind == start:
            if i in seen:
                ctx.judge("once", title, False, f"case {names[i].v} is run twice", s, e.loc)
                bad = True
            seen.append(i)
            for a, b in wanted:
                if a == i and b not in done:
                    ctx.judge("order", title, False, f"case {names[i].v} is started before {names[b].v}, on which it depends, has finished", s, e.loc)
                    bad = True
        if e.kind == finish:
            done.append(i)
    if k != V:
        if not bad:
            ctx.und("order", title, f"{k} {v!r}")
        return
    if not bad:
        ctx.judge("order", title, True, "", s)
        ctx.judge("once", title, True, "", s)
    if run_all:
        ctx.judge("complete", title, set(seen) == want, f"ran {[names[i].v for i in seen]}, to be run were {sorted(names[i].v for i in want)}", s)


def serial(ctx, g, listing, sel, stored=(), opts=(), **kw):
    kw.setdefault("forms", ("value",))
    forms = kw["forms"]
    pol = kw.pop("pol", None) or CmdPol({})
    it, st, names, deps, cases = setup(ctx, g, listing, stored, pol, **kw)
    st, tests = tests_obj(it, st, cases)
    want = closure(deps, sel, stored, "-r" in opts)
    full = kw.get("forms", ("value",)) == ("value",)
    if "-c" in opts:
        want = {i for i in want if (i, "OK") not in kw.get("recs", ())}
    title = title_of(g, listing, sel, stored, "serial " + "/".join(forms) + (" wrapped" if "outer" in kw else " wrapping" if "inner" in kw else ""), opts, kw.get("recs", ()))
    n = 0
    for k, s, v in exec_args(it, st, tests, args_of(names, sel, opts)):
        n += 1
        judge(ctx, title, deps, names, want, k, s, v, "case", "case", full)
    # a dependent whose dependency failed does not start its body: only what started is compared
    ctx.scen[title] = n
    ctx.need(n > 0, title)


class Par(CmdPol):
    def __init__(self, **kw):
        CmdPol.__init__(self, {}, worker="none", **kw)


def parallel(ctx, g, listing, sel, stored=(), opts=("-p2",), direct=False, **kw):
    pol = Par(polls=1)
    it, st, names, deps, cases = setup(ctx, g, listing, stored, pol, **kw)
    want = closure(deps, sel, stored, "-r" in opts)
    full = kw.get("forms", ("value",)) == ("value",)
    if "-c" in opts:
        want = {i for i in want if (i, "OK") not in kw.get("recs", ())}
    title = title_of(g, listing, sel, stored, "parallel" + (" direct" if direct else "") + (" wrapped" if "outer" in kw else " wrapping" if "inner" in kw else ""), opts, kw.get("recs", ()))
    n = 0
    if direct:
        outs = run_parallel(it, st, cases, [names[i] for i in sel], cfg_of(st, parallel=Const(2)))
        want = set(sel)
    else:
        st, tests = tests_obj(it, st, cases)
        outs = exec_args(it, st, tests, args_of(names, sel, opts))
    for k, s, v in outs:
        n += 1
        judge(ctx, title, deps, names, want, k, s, v, "submit", "ready", full)
    ctx.scen[title] = n
    ctx.need(n > 0, title)


def run(ctx):
    ctx.rule("order", "a case starts only after every case it depends on, through cases that are to be run, has finished")
    ctx.rule("once", "no case is started twice")
    ctx.rule("complete", "exactly the selected cases run, and dependencies of cases that run which are not stored or are refreshed")
    ctx.min_decided = 200
    from itertools import permutations
    T = ctx.thorough
    for g, (n, deps) in GRAPHS.items():
        lists = list(permutations(range(n))) if n < 4 else [(0, 1, 2, 3), (3, 2, 1, 0), (3, 0, 2, 1), (1, 3, 0, 2)]
        last, al = (n - 1,), tuple(range(n))
        for x, listing in enumerate(lists):
            serial(ctx, g, listing, al)
            serial(ctx, g, listing, last)
            parallel(ctx, g, listing, al)
            if T or x in (0, len(lists) - 1):
                parallel(ctx, g, listing, al, stored=al)
                parallel(ctx, g, listing, last)
                serial(ctx, g, listing, al, stored=al)
                serial(ctx, g, listing, last, stored=al[:-1], opts=("-r",))
                parallel(ctx, g, listing, last, stored=al, opts=("-r", "-p2"))
                serial(ctx, g, listing, (n - 1, 0), stored=(0,))
                serial(ctx, g, listing, (n - 1, 0), stored=al, opts=("-u",))
                parallel(ctx, g, listing, (n - 1, 0), stored=al)
            if T or x == len(lists) - 1:
                parallel(ctx, g, listing, al, direct=True)
                parallel(ctx, g, listing, last, stored=(0,))
                serial(ctx, g, listing, last, stored=(0,))
                serial(ctx, g, listing, last, stored=al)
    for w in ("mock_env", "mock_missing_env"):
        serial(ctx, "chain", (2, 1, 0), (2,), outer=env_deco(w))
        serial(ctx, "chain", (2, 1, 0), (2,), inner=env_deco(w))
    for w in ("mock_env", "snapshot_env"):
        parallel(ctx, "chain", (2, 1, 0), (0, 1, 2), outer=env_deco(w))
        parallel(ctx, "chain", (2, 1, 0), (0, 1, 2), inner=env_deco(w))
    for mode in (serial, parallel):
        o = ("-p2",) if mode is parallel else ()
        for recs in ([(0, "OK")], [(1, "OK")], [(0, "OK"), (1, "FAIL"), (2, "DIFF")], [(0, "FAIL"), (1, "OK")], [(0, "DIFF"), (1, "OK"), (2, "OK")]):
            for g in ("chain", "shortcut", "two", "fork"):
                mode(ctx, g, (2, 1, 0), (0, 1, 2), stored=(0, 1, 2), recs=recs, opts=("-c",) + o)
                mode(ctx, g, (2, 1, 0), (2,), stored=[i for i, v in recs if v == "OK"], recs=recs, opts=("-c",) + o)
                mode(ctx, g, (2, 1, 0), (0, 1, 2), recs=recs, opts=o)
    for g in ("chain", "diamond", "two"):
        n = GRAPHS[g][0]
        serial(ctx, g, tuple(range(n))[::-1], (n - 1,), forms=("value", "fail", "diff"))
        serial(ctx, g, tuple(range(n))[::-1], tuple(range(n)), stored=(0,), forms=("value", "Exception"))
