"""C42: what a run or review prints about each case and in its summary, over verdicts, modes, answers and earlier reports, against the verdicts."""
import re
from itertools import product
from .par import *


def write(it, st, a, kw, node):
    it.event(st, "print", a[-1], node=node)
    return [(V, st, NONE)]


def printed(st):
    """The printed lines, each a list of constants and other parts."""
    lines, cur = [], []
    for e in st.events():
        if e.kind != "print":
            continue
        for p in word_parts(e.args[0]):
            if type(p) is Const and isinstance(p.v, str):
                bits = p.v.split("\n")
                for j, b in enumerate(bits):
                    if j:
                        lines.append(cur)
                        cur = []
                    if b:
                        cur.append(Const(b))
            else:
                cur.append(p)
    return lines + ([cur] if cur else [])


def words(line):
    return " ".join(p.v for p in line if type(p) is Const)


def has(line, name):
    want = [p for p in word_parts(name)]
    ps = [p for p in line if not (type(p) is Const)]
    if type(name) is Const:
        return re.search(r"(^|\s)" + re.escape(name.v) + r"(\s|\.\.|$)", words(line)) is not None
    keys = [p for p in want if type(p) is not Const]
    return all(k in ps for k in keys)


def summary(lines):
    """(failed?, the lines after the summary line), or None."""
    at = [i for i, l in enumerate(lines) if "failed in" in words(l) or "succeeded in" in words(l)]
    if len(at) != 1:
        return None
    return "failed in" in words(lines[at[0]]), lines[at[0] + 1:]


def judge(ctx, s, title, verdicts, finals, others=()):
    """verdicts: {name: verdict before review}; finals: {name: verdict after review} of the cases
    processed; others: names that must not be listed."""
    lines = printed(s)
    vague = any(type(p) is Term and p.op == "smeth" for l in lines for p in l)      # text the analysis does not know
    for n, v in verdicts.items():
        told = [w for l in lines if has(l, n) for w in ("DIFFERED", "FAILED") if w in words(l)]
        done = [l for l in lines if has(l, n) and " ms" in words(l)]
        want = {"DIFF": ["DIFFERED"], "FAIL": ["FAILED"], "OK": []}[v]
        ctx.judge("case", f"{title}: {v}", told == want and len(done) == 1,
                  f"a case that ended as {v} is reported as {'/'.join(told) or 'ok'}" + ("" if len(done) == 1 else f", {len(done)} times"), s, vague=vague)
    sm = summary(lines)
    if sm is None:
        ctx.judge("summary", title, False, "there is no (single) summary line", s, vague=vague)
        return
    bad = [n for n, v in finals.items() if v != "OK"]
    listed = [n for n in finals if any(has(l, n) for l in sm[1])]
    ctx.judge("summary", title, set(listed) == set(bad), f"the summary names {listed}, not OK are {bad}", s, vague=vague)
    twice = [n for n in listed if sum(has(l, n) for l in sm[1]) > 1]
    ctx.judge("summary", title, not twice, f"the summary names {twice} twice", s)
    if bad or not others:
        ctx.judge("summary", title, sm[0] == bool(bad), f"the summary says the run {'failed' if sm[0] else 'succeeded'}, not OK are {bad}", s, vague=vague)


def final_of(v0, ans, upd, acc):
    if "a" in ans and v0 != "FAIL":
        return "OK"
    return "OK" if v0 == "DIFF" and acc else v0


def serial(ctx, forms, snaps, is_async=False, cont=False, old=(), **modes):
    names = [nm(i) for i in range(len(snaps))]
    sm = dict(zip(names, snaps))
    pol = SuitePol(sm, modes.pop("answers", ("c",)))
    pol.kinds = pol.kinds | {"print"}
    pol.ext["sys.stdout.write"] = write
    pol.while_bound = 2
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, [x for x in names if sm[x]])
    if old:
        put_report(st, list(zip(names, old)))
        base = pol.decide
        pol.decide = lambda it, st, p: True if p.op == "exists0" and p.args[0] == CASES_TXT else base(it, st, p)
    outs = run_serial(it, st, functions(it, st, names, kinds_of(forms), is_async), names, cfg_of(st, continue_=cont, **modes))
    title = f"{'asynchronous ' if is_async else ''}run of {len(names)}, snapshots {snaps}, {modes}" + (f", continued after {old}" if cont else "")
    n = 0
    for k, s, v in outs:
        if k == CUT:
            continue
        if k != V:
            ctx.judge("case", title, False, f"{k} {v!r}", s)
            continue
        n += 1
        h = history(s)
        vs = {x: expect(f, sm[x]) for x, f, a in h}
        fs = {x: final_of(vs[x], a, modes.get("update"), modes.get("accept")) for x, f, a in h}
        judge(ctx, s, title, vs, fs)
    ctx.need(n > 0 or ctx.broken(), title)
    ctx.scen["runs"] = ctx.scen.get("runs", 0) + 1


def parallel(ctx, forms, snaps, **modes):
    names = [pname(i) for i in range(len(snaps))]
    sm = dict(zip(names, snaps))
    pol = ParPol(sm, modes.pop("answers", ("c",)), polls=0)
    pol.kinds = pol.kinds | {"print"}
    pol.ext["sys.stdout.write"] = write
    pol.while_bound = 3
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, [x for x in names if sm[x]])
    outs = run_parallel(it, st, functions(it, st, names, kinds_of(forms)), names, cfg_of(st, **modes))
    title = f"parallel run of {len(names)}, snapshots {snaps}, {modes}"
    n = 0
    for k, s, v in outs:
        if k == CUT:
            continue
        if k != V:
            ctx.judge("case", title, False, f"{k} {v!r}", s)
            continue
        n += 1
        done = {e.args[0]: e.args[1].v for e in s.events() if e.kind == "case"}
        ans = [e.args[0].v for e in s.events() if e.kind == "answer"]
        if "q" in ans or len(done) < len(names):
            continue
        vs = {x: expect(f, sm[x]) for x, f in done.items()}
        if len(names) > 1 and ans:
            continue
        judge(ctx, s, title, vs, {x: final_of(v0, ans, modes.get("update"), modes.get("accept")) for x, v0 in vs.items()})
    ctx.need(n > 0 or ctx.broken(), title)
    ctx.scen["parallel runs"] = ctx.scen.get("parallel runs", 0) + 1


def reviewing(ctx, combo, cases=None, **modes):
    names = [nm(i) for i in range(len(combo))]
    pol = SuitePol({}, modes.pop("answers", ("c",)))
    pol.kinds = pol.kinds | {"print"}
    pol.ext["sys.stdout.write"] = write
    pol.while_bound = 2
    pol.decide = lambda it, st, p: (True if p.op == "exists0" else None)
    it = ctx.interp(pol)
    st = it.start()
    put_report(st, list(zip(names, combo)))
    put_file(st, Const("books/.out/metrics.json"), Const('{"tookMs": 5}'))
    for x in names:
        put_file(st, out_of(x), Const(""))
        put_file(st, out_of(x, ".txt"), Const(""))
        put_file(st, out_of(x, ".log"), Const(""))
    sel = NONE if cases is None else mklist(st, [names[i] for i in cases])
    outs = it.call(st, it.glob(st, "booktest.review", "review"), [EXP, OUT, cfg_of(st, **modes), NONE, sel], {})
    title = f"review of {combo}" + (f", selected {cases}" if cases is not None else "") + f", {modes}"
    for k, s, v in outs:
        if k == CUT:
            continue
        if k != V:
            ctx.judge("case", title, False, f"{k} {v!r}", s)
            continue
        ans = [e.args[0].v for e in s.events() if e.kind == "answer"]
        if "q" in ans or len(names) > 1 and ans:
            continue
        vs = {x: c for i, (x, c) in enumerate(zip(names, combo)) if cases is None or i in cases}
        judge(ctx, s, title, vs, {x: final_of(v0, ans, modes.get("update"), modes.get("accept")) for x, v0 in vs.items()},
              [x for x in names if x not in vs])
    ctx.scen["reviews"] = ctx.scen.get("reviews", 0) + 1


def run(ctx):
    ctx.rule("case", "each case processed is reported once, as differing if it ended as DIFF, as failed if it ended as FAIL, else as neither")
    ctx.rule("summary", "the summary names exactly the processed cases whose final verdict is not OK, each once, and says succeeded only if there are none")
    ctx.min_decided = 150
    F = ["pass", "diff", "fail", "difffail", "Exception"]
    for v in (False, True):
        for a in ((), ("accept",), ("update",), ("accept", "update")):
            m = {x: True for x in a}
            serial(ctx, F, [True], verbose=v, **m)
            serial(ctx, F, [False], verbose=v, **m)
            serial(ctx, ["pass", "diff", "fail"], [True, True], verbose=v, **m)
            parallel(ctx, F, [True], verbose=v, **m)
            for c in VERDICTS:
                reviewing(ctx, (c,), verbose=v, **m)
            for c in product(VERDICTS, repeat=2):
                reviewing(ctx, c, verbose=v, **m)
        serial(ctx, F, [True], verbose=v, interactive=True, answers=("c", "a"))
        serial(ctx, ["pass", "diff", "fail"], [True, False], True, verbose=v)
        parallel(ctx, F[:3], [True, True], verbose=v)
        parallel(ctx, F[:3], [True, True], verbose=v, accept=True)
        parallel(ctx, F[:4], [True], verbose=v, interactive=True, answers=("c", "a"))
        for c in VERDICTS:
            reviewing(ctx, (c,), verbose=v, interactive=True, answers=("c", "a"))
        serial(ctx, F[:3], [True, True], cont=True, old=("OK", "DIFF"), verbose=v)
        serial(ctx, F[:3], [True, True], cont=True, old=("FAIL", "OK"), verbose=v)
    for c in product(VERDICTS, repeat=2):
        reviewing(ctx, c, cases=(0,))
        reviewing(ctx, c, cases=(1,))
    for c in product(VERDICTS, repeat=3):
        reviewing(ctx, c)
    if ctx.thorough:
        serial(ctx, ["pass", "diff", "fail"], [True, True, True])
        serial(ctx, F, [True, False])
        parallel(ctx, F[:3], [True, True, True])
