"""C37: the abstract content of the result file and the report file after a case, against everything the case wrote."""
from itertools import product
from .outs import *


def ops(i):
    x, y = word(f"X{i}"), word(f"Y{i}")
    return [
        Op("t(x)", api("t", x), eff_text([x], True)),
        Op("tln(x)", api("tln", x), eff_text([x, NLT], True)),
        Op("i(x)", api("i", x), eff_text([x], False)),
        Op("iln(x)", api("iln", x), eff_text([x, NLT], False)),
        Op("t(x newline y)", api("t", concat([x, NLT, y])), eff_text([x, NLT, y], True)),
        Op("fail", api("fail"), eff_mark("fail")),
        Op("diff", api("diff"), eff_mark("diff")),
    ]


def more(i):
    x, y = word(f"X{i}"), word(f"Y{i}")
    sp = Const(" ")
    return [
        Op("tln()", api("tln"), eff_text([NLT], True)),
        Op("iln()", api("iln"), eff_text([NLT], False)),
        Op("t(space)", api("t", Const(" ")), eff_text([Const(" ")], True)),
        Op("tln(x space)", api("tln", concat([x, Const(" ")])), eff_text([x, Const(" "), NLT], True)),
        Op("iln(space x)", api("iln", concat([Const(" "), x])), eff_text([Const(" "), x, NLT], False)),
        Op("h1(x)", api("h1", x), eff_header("# ", x)),
        Op("h2(x)", api("h2", x), eff_header("## ", x)),
        Op("h3(x)", api("h3", x), eff_header("### ", x)),
        Op("header(x)", api("header", x), eff_header("", x)),
        Op("anchor(x)", api("anchor", x), eff_text([x], True)),
        Op("anchorln(x)", api("anchorln", x), eff_text([x, NLT], True)),
        Op("keyvalueln(x, y)", api("keyvalueln", x, y), eff_text([x, sp, y, NLT], True)),
        Op("tlist([x, y])", lambda it, s, t: call_t(it, s, t, "tlist", mklist(s, [x, y])),
           eff_text([Const(" * "), x, NLT, Const(" * "), y, NLT], True)),
        Op("tset([x])", lambda it, s, t: call_t(it, s, t, "tset", mklist(s, [x])), eff_text([Const(" * "), x, NLT], False)),
        Op("assertln(True)", api("assertln", TRUE), eff_text([Const("ok"), NLT], False)),
        Op("assertln(False)", api("assertln", FALSE), both(eff_mark("fail"), eff_text([Const("FAILED"), NLT], False))),
        Op("assertln(False, y)", api("assertln", FALSE, y), both(eff_mark("fail"), eff_text([y, NLT], False))),
        Op("must_apply", lambda it, s, t: call_t(it, s, t, "must_apply", Const(1), x, it.user_fn(s, "p", handler=lambda *a: [(V, a[1], TRUE)])),
           eff_text([Const(" * MUST "), x, Const("...ok"), NLT], False)),
        Op("test_feed(x)", api("test_feed", x), eff_text([x], True)),
        Op("feed(x)", api("feed", x), eff_text([x], False)),
        Op("timage", api("timage", Const("books/.out/a.png"), x), None),
    ]


def both(a, b):
    def f(sc):
        a(sc)
        b(sc)
    return f


def eff_header(prefix, x):
    def f(sc):
        toks = ([Const(prefix)] if prefix else []) + [x, NLT, NLT]
        if len(sc.lines) > 1:
            toks = [NLT] + toks
        eff_text(toks, True)(sc)
    return f


def expected_lines(sc):
    """Lines of the result (concatenated tokens, without the newline)."""
    lines = [list(l) for l in sc.lines]
    last = lines.pop()
    if last or sc.open_mark:
        lines.append(last)
    return [concat([x for x, _ in l if x != NLT]) if any(x != NLT for x, _ in l) else Const("") for l in lines]


def subsequence(need, have):
    j = 0
    for x in have:
        if j < len(need) and need[j] == x:
            j += 1
    return j == len(need)


def syms(v):
    return [x for x in flat(v) if type(x) is Sym and isword(x)]


def run(ctx):
    ctx.rule("text", "the result file is exactly the concatenation of everything written, each line ended by one line break, on every path")
    ctx.rule("report", "the case's report holds the text of every line, in order and once")
    ctx.rule("marks", "exactly the report lines of marked result lines are flagged")
    ctx.min_decided = 300
    n = 4 if ctx.thorough else 3
    scripts = []
    for k in range(1, n + 1):
        for idx in product(range(7), repeat=k):
            scripts.append([ops(i)[j] for i, j in enumerate(idx)])
    for a in more(0)[:-1]:
        scripts.append([a])
        for j in range(7):
            scripts.append([ops(1)[j], a])
            scripts.append([a, ops(1)[j]])
        for j in (1, 3):
            scripts.append([ops(1)[j], a, ops(2)[j]])
    for opl in scripts:
        sc = script_of(opl)
        want = expected_lines(sc)
        full = concat([y for l in want for y in (l, NLT)]) if want else Const("")
        title = ", ".join(o.title for o in opl)
        for shape in (None, (1, 1)):
            if shape and "tset" in title:
                continue        # a missing item is a mark of its own after the list
            if shape and (len(opl) > 2 or (len(opl) == 2 and not ctx.thorough)):
                continue
            pol = OutPol()
            it = ctx.interp(pol)
            outs, table = run_body(it, it.start(), body_of(opl), shape=shape)
            for k, s, v in outs:
                if k == CUT:
                    ctx.und("text", title, "cut")
                    continue
                if k == X:
                    ctx.judge("text", title, False, f"the run ends with {v!r}", s)
                    continue
                got = file_text(s, TEXT)
                ctx.judge("text", title, got == full, f"the result is {got!r}, written was {full!r}", s, vague=got is None)
                rep = file_text(s, REPT)
                need = [x for l in want for x in syms(l)]
                have = syms(rep) if rep is not None else []
                # tokens of the snapshot may be shown beside marked lines
                have = [x for x in have if x.name[2] in "XYPQ"]
                ctx.judge("report", title, have == need, f"the report shows {have}, written was {need}", s, vague=rep is None)
                if shape is None and rep is not None:
                    marked = sc.flags()
                    flags = report_flags(rep)
                    if flags is not None and len(flags) == len(want):
                        ctx.judge("marks", title, flags == [m for m in marked], f"flags of the report lines are {flags}, marked are {marked}", s)
                    else:
                        ctx.und("marks", title, "report format not recognised")


def report_flags(rep):
    """'' / '?' / '!' per report line, or None."""
    r, start = [], True
    for p in word_parts(rep):
        if type(p) is Const and isinstance(p.v, str):
            ls = p.v.split("\n")
            for i, l in enumerate(ls):
                if i:
                    start = True
                if start and l:
                    r.append("!" if l.startswith("! ") else "?" if l.startswith("? ") else "")
                    start = False
        elif start:
            return None
    return r
