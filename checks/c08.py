"""C08: value flow from the written record (name, verdict, duration) back through the report reader, and every damaged line shape through the same reader."""
from itertools import product
from .suite import *

DAMAGED = {
    "name only": lambda n: n,
    "name and tab": lambda n: concat([n, Const("\t")]),
    "cut verdict": lambda n: concat([n, Const("\tO")]),
    "no duration": lambda n: concat([n, Const("\tOK")]),
    "empty duration": lambda n: concat([n, Const("\tOK\t")]),
    "unknown verdict": lambda n: concat([n, Const("\tMAYBE\t1.5")]),
    "lower case verdict": lambda n: concat([n, Const("\tok\t1.5")]),
    "padded verdict": lambda n: concat([n, Const("\t OK\t1.5")]),
    "longer verdict": lambda n: concat([n, Const("\tOKAY\t1.5")]),
    "junk duration": lambda n: concat([n, Const("\tOK\tx")]),
    "no verdict": lambda n: concat([n, Const("\t\t1.5")]),
    "blank": lambda n: Const("   "),
    "tabs": lambda n: Const("\t\t"),
}


def reports_of(it, st, file=True):
    cls = it.glob(st, "booktest.reports", "CaseReports")
    return it.bind(call_t(it, st, cls, "of_dir", OUT), lambda s, r: [(V, s, r)])


def cases_of(it, st, r):
    """[(k, st, [(name, verdict name, duration)], passed, failed)]"""
    res = []
    for k, s, v in it.getattr(st, r, "cases", None):
        if k != V:
            res.append((k, s, v, None))
            continue
        for k2, s2, items in it.iterate(s, v, None):
            if k2 != V:
                res.append((k2, s2, items, None))
                continue
            rows = []
            for x in items:
                for k3, s3, parts in it.iterate(s2, x, None):
                    s2 = s3
                    rows.append(parts if k3 == V else None)
            for k4, s4, p in it.bind(call_t(it, s2, r, "passed"), lambda s5, p: it.iterate(s5, p, None)):
                res.append((k4, s4, rows if k4 == V else p, p))
    return res


def eq_sure(it, st, a, b):
    """a == b; a constant never equals an arbitrary input."""
    r = same(it, st, a, b)
    return False if r is None and type(a) is Const and type(b) is Sym else r


def verdict_vals(it, st):
    cls = it.glob(st, "booktest.reports", "TestResult")
    return {v: one(it.getattr(st, cls, v, None))[1] for v in VERDICTS}


def round_trip(ctx, n, verdicts, durations):
    pol = SuitePol({})
    it = ctx.interp(pol)
    st = it.start()
    vals = verdict_vals(it, st)
    names = [atom(f"case{i}") for i in range(n)]
    rows = [TupleV((a, vals[v], d)) for a, v, d in zip(names, verdicts, durations)]
    cls = it.glob(st, "booktest.reports", "CaseReports")
    st, rep = one(it.call(st, cls, [mklist(st, rows)], {}))
    title = f"{list(verdicts)} {durations}"
    outs = it.bind(call_t(it, st, rep, "to_dir", OUT), lambda s, _: reports_of(it, s))
    for k, s, r in outs:
        if k != V:
            ctx.judge("round trip", title, None if k == CUT else False, f"{k} {r!r}", s)
            continue
        for k2, s2, got, passed in cases_of(it, s, r):
            if k2 != V:
                ctx.judge("round trip", title, None if k2 == CUT else False, f"{k2} {got!r}", s2)
                continue
            ok = len(got) == n
            for g, w in zip(got, rows):
                for a, b in zip(g, w.items):
                    e = eq_sure(it, s2, a, b)
                    ok = ok and e if e is not None or not ok else None
            ctx.judge("round trip", title, ok, f"written {rows}, read back {got}", s2)
            ctx.judge("passed", title, passed == [a for a, v in zip(names, verdicts) if v == "OK"], f"passed cases: {passed}", s2)


def damaged(ctx, kind, line, pos, end):
    pol = SuitePol({})
    it = ctx.interp(pol)
    st = it.start()
    good = [(atom("case0"), "OK", "1.5"), (atom("case1"), "FAIL", "2.5")]
    bad = atom("damaged")
    ls = [concat([a, Const(f"\t{v}\t{d}")]) for a, v, d in good]
    ls.insert(pos, line(bad))
    parts = []
    for i, l in enumerate(ls):
        parts += [l, NLT] if i + 1 < len(ls) or end else [l]
    put_file(st, CASES_TXT, concat(parts))
    title = f"{kind} at {pos}{'' if end else ', not ended'}"
    for k, s, r in reports_of(it, st):
        if k != V:
            ctx.judge("damaged", title, None if k == CUT else False, f"reading ends with {k} {r!r}", s)
            continue
        for k2, s2, got, passed in cases_of(it, s, r):
            if k2 != V:
                ctx.judge("damaged", title, None if k2 == CUT else False, f"{k2} {got!r}", s2)
                continue
            want = [(a, v, float(d)) for a, v, d in good]
            ok = len(got) == 2
            for g, w in zip(got, want):
                ok = ok and g[0] == w[0] and verdict_name(it, g[1]) == w[1] and (g[2] == Const(w[2]) or same(it, s2, g[2], Const(w[2])) is True)
            ctx.judge("damaged", title, ok, f"the intact records {want} are read as {got}", s2)
            ctx.judge("passed", title, passed == [good[0][0]], f"passed cases: {passed}", s2)


def of_a_run(ctx, forms, snaps):
    names = [nm(i) for i in range(len(snaps))]
    sm = dict(zip(names, snaps))
    it = ctx.interp(SuitePol(sm))
    st = it.start()
    put_snaps(st, [x for x in names if sm[x]])
    outs = run_serial(it, st, functions(it, st, names, kinds_of(forms)), names, cfg_of(st))
    for k, s, v in outs:
        if k != V:
            ctx.und("round trip", "run", v)
            continue
        h = history(s)
        title = f"run {[x[1] for x in h]}"
        for k2, s2, r in reports_of(it, s):
            if k2 != V:
                ctx.judge("round trip", title, None if k2 == CUT else False, f"{k2} {r!r}", s2)
                continue
            for k3, s3, got, passed in cases_of(it, s2, r):
                if k3 != V:
                    ctx.judge("round trip", title, None if k3 == CUT else False, f"{k3} {got!r}", s3)
                    continue
                want = [(n, expect(f, sm[n])) for n, f, a in h]
                ctx.judge("round trip", title, [(g[0], verdict_name(it, g[1])) for g in got] == want, f"cases that ended as {want} are read back as {got}", s3)


def metrics(ctx):
    it = ctx.interp(SuitePol({}))
    st = it.start()
    ms = Sym("took", typ="int")
    cls = it.glob(st, "booktest.reports", "Metrics")
    st, m = one(it.call(st, cls, [ms], {}))
    outs = it.bind(call_t(it, st, m, "to_dir", OUT), lambda s, _: call_t(it, s, cls, "of_dir", OUT))
    outs = it.bind(outs, lambda s, r: it.getattr(s, r, "took_ms", None))
    for k, s, v in outs:
        ctx.judge("round trip", "metrics", None if k == CUT else k == V and eq_sure(it, s, v, ms), f"written {ms!r}, read back {k} {v!r}", s)


def run(ctx):
    ctx.rule("round trip", "a written record is read back with the same name, verdict and duration")
    ctx.rule("damaged", "a damaged line is skipped; the intact records around it are read")
    ctx.rule("passed", "exactly the cases recorded as OK count as passed")
    ctx.min_decided = 60
    sizes = (0, 1, 2) + ((3,) if ctx.thorough else ())
    for n in sizes:
        for vs in product(VERDICTS, repeat=n):
            round_trip(ctx, n, vs, [Const(float(2 ** i) + 0.125) for i in range(n)])
            if n:
                round_trip(ctx, n, vs, [Sym(f"took{i}", typ="float") for i in range(n)])
                round_trip(ctx, n, vs, [Const(0)] * n)
    for kind, line in DAMAGED.items():
        for pos in (0, 1, 2):
            for end in (True, False):
                damaged(ctx, kind, line, pos, end)
    of_a_run(ctx, ["pass", "diff", "fail", "Exception"], [True, False])
    metrics(ctx)
