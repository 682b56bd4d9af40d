"""C06: the abstract content of the case report at the end of every path of a run or review, and the writes and flushes on the way."""
from itertools import product
from .par import *


def watch(pol):
    """Record what happens to the case report."""
    old = pol.record

    def rec(kind, args, st):
        if kind in ("write", "flush", "close") and args and args[0] == CASES_TXT:
            return True
        return old(kind, args, st)
    pol.record = rec
    return pol


def flushed(s):
    """Cases that ended before another started without their record being on disk: [(name, next)]"""
    bad, ran, pend, dirty = [], [], {}, set()
    for e in s.events():
        if e.kind == "case":
            for n in ran:
                if n not in pend:
                    bad.append((n, e.args[0]))
                elif n in dirty:
                    bad.append((n, e.args[0]))
            ran.append(e.args[0])
        elif e.kind == "write":
            r = parse_records(e.args[1])
            for x in ran:
                if any(p == x for p in word_parts(e.args[1])[:1]) or (r and any(y[0] == x for y in r)):
                    pend[x] = True
                    dirty.add(x)
        elif e.kind in ("flush", "close"):
            dirty.clear()
    return bad


def judge_records(ctx, rule, inst, s, old, ran, extra_ok=()):
    """old: [(name, verdict, duration)] not re-run; ran: {name: verdict or None (open)}."""
    recs = records(s)
    if recs is None:
        ctx.judge(rule, inst, False if not vague_state(s) else None, f"the report is not a list of complete records: {file_text(s, CASES_TXT)!r}", s)
        return
    names = [r[0] for r in recs]
    for n, v, d in old:
        mine = [r for r in recs if r[0] == n]
        ctx.judge("carried over", inst, mine == [(n, Const(v), Const(d))], f"record {n!r} {v} {d} of a case that was not run becomes {mine}", s)
    for n, v in ran.items():
        mine = [r for r in recs if r[0] == n]
        ctx.judge(rule, f"{inst}: {n!r}", len(mine) == 1, f"{len(mine)} records for {n!r}: {recs}", s)
        if len(mine) == 1 and v is not None:
            ctx.judge("verdict", f"{inst}: {n!r}", mine[0][1] == Const(v), f"{n!r} ended as {v} but is recorded as {mine[0][1]!r}", s)
    known = {n for n, v, d in old} | set(ran) | set(extra_ok)
    ctx.judge(rule, f"{inst}: others", all(n in known for n in names), f"records of cases that were not run: {names}", s)


def todo_of(names, old, cont):
    d = {}
    for n, v, _ in old:
        d.setdefault(n, v)
    return [n for n in names if not (cont and d.get(n) == "OK")]


def scenario_serial(ctx, n, old_v, cont, forms, snaps, answers=("c",), is_async=False, **opts):
    names = [nm(i) for i in range(n)]
    other = nm(7)
    sm = dict(zip(names, snaps))
    pol = watch(SuitePol(sm, answers))
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, [x for x in names if sm[x]])
    old = [(other, "FAIL", "7.25")] + [(x, v, "3.5") for x, v in zip(names, old_v) if v]
    put_report(st, old)
    upd, acc = bsym("update"), bsym("accept")
    cfg = cfg_of(st, fail_fast=bsym("ff"), update=upd, accept=acc, continue_=cont, **opts)
    outs = run_serial(it, st, functions(it, st, names, kinds_of(forms), is_async), names, cfg)
    todo = todo_of(names, old, cont)
    keep = [r for r in old if r[0] not in todo]
    title = f"serial, records {old_v}, continue {cont}, snapshots {snaps}, answers {'/'.join(answers)}"
    for k, s, v in outs:
        if k == CUT:
            ctx.und("recorded once", title, v)
            continue
        h = history(s)
        inst = title + f": {[x[1:] for x in h]}"
        for s2, um, am in modes(it, s, upd, acc):
            ran = {n2: final(expect(f, sm[n2]), a, um, am) for n2, f, a in h}
            if len(h) != len(ran):
                continue
            judge_records(ctx, "recorded once", inst + f" update {um} accept {am}", s2, keep, ran)
        b = flushed(s)
        ctx.judge("flushed", inst, not b, f"{b[:1]}: the record of the first is not on disk when the second starts", s)


def scenario_parallel(ctx, n, old_v, cont, forms, snaps, answers=("c",), opts=None, **kw):
    names = [pname(i) for i in range(n)]
    other = pname(5)
    sm = dict(zip(names, snaps))
    pol = ParPol(sm, answers, **kw)
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, [x for x in names if sm[x]])
    old = [(other, "FAIL", "7.25")] + [(x, v, "3.5") for x, v in zip(names, old_v) if v]
    put_report(st, old)
    acc, ff = bsym("accept"), bsym("ff")
    cfg = cfg_of(st, fail_fast=ff, accept=acc, continue_=cont, **(opts or {}))
    outs = run_parallel(it, st, functions(it, st, names, kinds_of(forms)), names, cfg)
    todo = todo_of(names, old, cont)
    keep = [r for r in old if r[0] not in todo]
    title = f"parallel, records {old_v}, continue {cont}, snapshots {snaps}, answers {'/'.join(answers)}, {kw or ''}"
    for k, s, v in [(k, s2, v) for k, s, v in outs for s2, (_, _) in (splits(it, s, acc, ff) if k == V else [(s, (0, 0))])]:
        if k != V:
            ctx.und("recorded once", title, v)
            continue
        done = {e.args[0]: e.args[1].v for e in s.events() if e.kind == "case"}
        hurt = {e.args[1] for e in s.events() if e.kind == "worker" and e.args[0] == Const("end") and e.args[-1] != Const("none")}
        seen = [e.args[0] for e in s.events() if e.kind == "ready"]
        recs = records(s)
        aborted = any(e.kind == "answer" and e.args[0].v == "q" for e in s.events()) or truth_of(it, s, ff) is not False
        ran = {}
        for x in seen:
            if aborted and recs is not None and not any(r[0] == x for r in recs):
                continue
            v0 = expect(done[x], sm[x]) if x in done and x not in hurt else "FAIL"
            # without prompts the review is decided by the mode, unless the run was aborted before it
            ran[x] = final(v0, [], False, truth_of(it, s, acc)) if len(answers) == 1 and not aborted else "FAIL" if v0 == "FAIL" else None
        if not aborted and not kw.get("suspend"):
            for x in todo:
                ctx.judge("recorded once", f"{title}: all", x in seen, f"{x!r} is never finished", s)
        judge_records(ctx, "recorded once", title + f": {sorted((repr(a), b) for a, b in done.items())}", s, keep, ran,
                      extra_ok=[] if not aborted else todo)


def scenario_review(ctx, combo, sel, cont, answers, **opts):
    names = [nm(i) for i in range(len(combo))]
    pol = SuitePol({}, answers)
    pol.decide = lambda it, st, p: (True if p.op == "exists0" else None)
    it = ctx.interp(pol)
    st = it.start()
    old = [(x, v, f"{i}.5") for i, (x, v) in enumerate(zip(names, combo))]
    put_report(st, old)
    put_file(st, Const("books/.out/metrics.json"), Const('{"tookMs": 5}'))
    for x in names:
        put_file(st, out_of(x), Const(""))
        put_file(st, out_of(x, ".txt"), Const(""))
    acc, ff = bsym("accept"), bsym("ff")
    cfg = cfg_of(st, fail_fast=ff, accept=acc, continue_=cont, **opts)
    f = it.glob(st, "booktest.review", "review")
    picked = names if sel is None else [names[i] for i in sel]
    outs = it.call(st, f, [EXP, OUT, cfg, NONE, NONE if sel is None else mklist(st, picked)], {})
    title = f"review {combo}, selected {'all' if sel is None else list(sel)}, continue {cont}, answers {'/'.join(answers)}"
    for k, s, v in [(k, s2, v) for k, s, v in outs for s2, _ in (splits(it, s, acc, ff) if k == V else [(s, 0)])]:
        if k != V:
            ctx.und("recorded once", title, v)
            continue
        recs = records(s)
        if recs is None:
            ctx.judge("recorded once", title, False, f"the report is not a list of complete records: {file_text(s, CASES_TXT)!r}", s)
            continue
        ctx.judge("recorded once", title, [r[0] for r in recs] == names or sorted(map(repr, (r[0] for r in recs))) == sorted(map(repr, names)),
                  f"records {[r[0] for r in recs]} after reviewing {names}", s)
        got = {r[0]: r for r in recs}
        ans = [e.args[0].v for e in s.events() if e.kind == "answer"]
        stopped = False
        for x, v0, d in old:
            if x not in got:
                continue
            r = got[x]
            reviewed = x in picked and not (cont and v0 == "OK")
            ctx.judge("carried over", title, r[2] == Const(d), f"duration {d} of {x!r} becomes {r[2]!r}", s)
            fixed = x not in picked or v0 == "FAIL" or (cont and v0 == "OK") or (v0 == "OK" and "a" not in answers)
            if fixed:
                ctx.judge("verdict", title, r[1] == Const(v0), f"{x!r} was {v0}, cannot change, and is recorded as {r[1]!r}", s)
            elif len(answers) == 1 and "q" not in answers:
                w = v0 if stopped else final(v0, ans, False, truth_of(it, s, acc))
                if w is not None:
                    ctx.judge("verdict", title, r[1] == Const(w), f"{x!r} is {w} after review and recorded as {r[1]!r}", s)
            # fail fast ends the review at the first case that stays not OK
            if reviewed and truth_of(it, s, ff) is not False and r[1] != Const("OK"):
                stopped = True


def run(ctx):
    ctx.rule("recorded once", "the report holds exactly one record for every case that was run, and no others but those carried over")
    ctx.rule("verdict", "a record names the verdict the case has after review")
    ctx.rule("carried over", "records of cases that were not run keep verdict and duration")
    ctx.rule("flushed", "when a case starts, the records of all earlier ones have been written and flushed")
    ctx.min_decided = 200
    T = ctx.thorough
    olds = [None, "OK", "DIFF", "FAIL"]
    for cont in (False, True):
        for old in product(olds, repeat=2) if T else [(None, None), ("OK", "FAIL"), ("DIFF", "OK"), ("OK", "OK"), (None, "OK")]:
            scenario_serial(ctx, 2, old, cont, ["pass", "diff", "fail", "Exception"] if T else ["pass", "diff", "Exception"], [True, False])
        scenario_serial(ctx, 3, ("OK", None, "OK"), cont, ["pass", "fail"], [True] * 3)
        scenario_serial(ctx, 2, ("FAIL", "OK"), cont, ["pass", "diff"], [True] * 2, is_async=True)
        for old in product(olds, repeat=2) if T else [(None, None), ("OK", "FAIL"), ("DIFF", "OK")]:
            scenario_parallel(ctx, 2, old, cont, ["pass", "diff", "fail"] if T else ["pass", "diff"], [True, False])
        scenario_parallel(ctx, 2, (None, "OK"), cont, ["pass", "fail"], [True, True], damage=("none", "gone", "junk"))
        for combo in product(VERDICTS, repeat=2):
            for sel in (None, (0,), (1,), ()):
                if sel == () and not T:
                    continue
                scenario_review(ctx, combo, sel, cont, ("c",))
    scenario_serial(ctx, 2, (None, "OK"), False, ["pass", "diff", "fail"], [True] * 2, ("c", "a", "q"), interactive=TRUE)
    scenario_parallel(ctx, 2, (None, None), False, ["pass", "diff"], [True] * 2, ("c", "a", "q"), {"interactive": TRUE}, polls=0)
    scenario_parallel(ctx, 2, (None, None), False, ["pass", "fail"], [True] * 2, suspend=True)
    for combo in product(VERDICTS, repeat=2):
        scenario_review(ctx, combo, None, False, ("c", "a", "q"), interactive=TRUE)
