"""C02: tested text against the snapshot, token by token, on every abstract path; informational text never judged."""
from itertools import product
from .outs import *

SHAPES = [(), (0,), (1,), (2,), (1, 1), (0, 1), (2, 1), (1, 0, 1)]


def text_ops(i):
    x, y = word(f"X{i}"), word(f"Y{i}")
    two = concat([x, y])
    return [
        Op("t(x)", api("t", x), eff_text([x], True)),
        Op("t(xy)", api("t", two), eff_text([x, y], True)),
        Op("tln(x)", api("tln", x), eff_text([x, NLT], True)),
        Op("tln()", api("tln"), eff_text([NLT], True)),
        Op("i(x)", api("i", x), eff_text([x], False)),
        Op("iln(x)", api("iln", x), eff_text([x, NLT], False)),
        Op("iln()", api("iln"), eff_text([NLT], False)),
    ]


def extra_tested(it, s):
    x, y = word("X0"), word("Y0")
    return [
        Op("tln(x newline y)", api("tln", concat([x, NLT, y])), eff_text([x, NLT, y, NLT], True)),
        Op("test_feed(x newline)", api("test_feed", concat([x, NLT])), eff_text([x, NLT], True)),
        Op("test_feed_token(x)", api("test_feed_token", x), eff_text([x], True)),
        Op("tlist([x, y])", lambda it, s, t: call_t(it, s, t, "tlist", mklist(s, [x, y])),
           eff_text([Const(" * "), x, NLT, Const(" * "), y, NLT], True)),
        Op("tlist([x], prefix=y)", lambda it, s, t: call_t(it, s, t, "tlist", mklist(s, [x]), prefix=y), eff_text([y, x, NLT], True)),
        Op("feed(x), t(y)", lambda it, s, t: it.bind(call_t(it, s, t, "feed", x), lambda s2, _: call_t(it, s2, t, "t", y)),
           lambda sc: (eff_text([x], False)(sc), eff_text([y], True)(sc))),
    ]


INFO = [
    ("i, iln", lambda it, s, t, x: it.bind(call_t(it, s, t, "i", x), lambda s2, _: call_t(it, s2, t, "iln", word("Y0")))),
    ("iln()", lambda it, s, t, x: call_t(it, s, t, "iln")),
    ("iln(x newline y)", lambda it, s, t, x: call_t(it, s, t, "iln", concat([x, NLT, word("Y0")]))),
    ("feed", lambda it, s, t, x: call_t(it, s, t, "feed", x)),
    ("feed_token", lambda it, s, t, x: call_t(it, s, t, "feed_token", x)),
    ("ifloatln", lambda it, s, t, x: call_t(it, s, t, "ifloatln", Sym("value", typ="float"))),
    ("ifloatln(unit)", lambda it, s, t, x: call_t(it, s, t, "ifloatln", Sym("value", typ="float"), Const("ms"))),
    ("assertln(True)", lambda it, s, t, x: call_t(it, s, t, "assertln", TRUE)),
]

ANCHORED = [
    ("header", lambda it, s, t, h, x: call_t(it, s, t, "header", h)),
    ("h1", lambda it, s, t, h, x: call_t(it, s, t, "h1", h)),
    ("h2", lambda it, s, t, h, x: call_t(it, s, t, "h2", h)),
    ("h3", lambda it, s, t, h, x: call_t(it, s, t, "h3", h)),
    ("h(4)", lambda it, s, t, h, x: call_t(it, s, t, "h", Const(4), h)),
    ("anchorln", lambda it, s, t, h, x: call_t(it, s, t, "anchorln", h)),
    ("anchor", lambda it, s, t, h, x: call_t(it, s, t, "anchor", h)),
    ("keyvalueln key", lambda it, s, t, h, x: call_t(it, s, t, "keyvalueln", h, x)),
    ("keyvalueln value", lambda it, s, t, h, x: call_t(it, s, t, "keyvalueln", x, h)),
    ("timage", lambda it, s, t, h, x: call_t(it, s, t, "timage", Const("books/.out/a.png"), h)),
    ("tformat", lambda it, s, t, h, x: call_t(it, s, t, "tformat", mkdict(s, [(h, Const(1))]))),
]


def run(ctx):
    ctx.rule("tested", "the verdict is OK only if every tested token is known equal to its counterpart on this path, DIFF only if one is "
                       "known different")
    ctx.rule("info", "a case that only writes informational text ends OK whatever the snapshot holds")
    ctx.rule("anchored", "text given to a header, anchor, key-value, image or format call that occurs nowhere in the snapshot ends in DIFF")
    ctx.min_decided = 300

    def go(title, body, shape, judge):
        it = ctx.interp(OutPol())
        outs, table = run_body(it, it.start(), body, shape=shape)
        for k, s, v in outs:
            if k == CUT:
                ctx.und("tested", title, "cut")
            elif k == X:
                ctx.judge("tested", title, False, f"the run ends with {v!r}", s)
            else:
                judge(it, s, verdict_name(it, v), table, v)

    n = 3 if ctx.thorough else 2
    scripts = []
    for k in range(1, n + 1):
        for idx in product(range(7), repeat=k):
            scripts.append([text_ops(i)[j] for i, j in enumerate(idx)])
    scripts += [[o] for o in extra_tested(None, None)]
    scripts += [[o, text_ops(1)[2]] for o in extra_tested(None, None)]
    for opl in scripts:
        sc = script_of(opl)
        for shape in SHAPES:
            if not ctx.thorough and len(opl) == 2 and shape in ((0, 1), (1, 0, 1), ()):
                continue
            title = ", ".join(o.title for o in opl) + f" against lines of {list(shape)} tokens"

            def judge(it, s, got, table, v, title=title, sc=sc):
                for s2, mis in mismatches(it, s, sc, table):
                    want = "DIFF" if mis else "OK"
                    ctx.judge("tested", title, got == want,
                              f"verdict {got or v!r}, expected {want}: a tested token {'differs' if mis else 'never differs'}", s2, vague=got is None)
            go(title, body_of(opl), shape, judge)
    for name, f in INFO:
        for shape in SHAPES:
            for pre in (False, True):
                title = f"{name} against lines of {list(shape)} tokens" + (" after t" if pre else "")
                x = word("X0")

                def call(it, s, t, f=f, x=x, pre=pre):
                    if pre:
                        return it.bind(call_t(it, s, t, "iln", word("P")), lambda s2, _: f(it, s2, t, x))
                    return f(it, s, t, x)

                def judge(it, s, got, table, v, title=title):
                    ctx.judge("info", title, got == "OK", f"verdict {got or v!r} although nothing was tested", s, vague=got is None)
                go(title, body_of([Op(name, call, None)]), shape, judge)
    for name, f in ANCHORED:
        for shape in ((), (1,), (2,), (1, 1)):
            title = f"{name} against lines of {list(shape)} tokens that do not contain it"
            h, x = atom("header"), atom("other")
            # the atoms differ from every constant of the snapshot: its lines are atoms of their own

            def judge(it, s, got, table, v, title=title, name=name):
                compared = name == "tformat" and any(p.op == "eq" and b is True for p, b in s.facts.items())
                ctx.judge("anchored", title, got == "DIFF" or compared, f"verdict {got or v!r}: the text is not compared", s, vague=got is None)
            it = ctx.interp(OutPol())
            st = it.start()
            parts = []
            for i, k in enumerate(shape):
                parts += [atom(f"S{i}.{j}") for j in range(k)] + [NLT]
            st.fs["log"] = TupleV((TupleV((Const("w"), SNAP, concat(parts) if parts else Const(""))),))
            outs, _ = run_body(it, st, body_of([Op(name, lambda it, s, t, f=f: f(it, s, t, h, x), None)]))
            for k, s, v in outs:
                if k == CUT:
                    ctx.und("anchored", title, "cut")
                elif k == X:
                    ctx.judge("anchored", title, False, f"the run ends with {v!r}", s)
                else:
                    judge(it, s, verdict_name(it, v), None, v)
