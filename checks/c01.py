"""C01: on every abstract path of a case's run, the verdict against the marks the path made."""
from itertools import product
from .outs import *


def ops(i):
    x = word(f"X{i}")
    c = Const("ok")
    return [
        Op("fail", api("fail"), eff_mark("fail")),
        Op("diff", api("diff"), eff_mark("diff")),
        Op("assertln(False)", api("assertln", FALSE), lambda sc: (eff_mark("fail")(sc), eff_text([Const("FAILED"), NLT], False)(sc))),
        Op("iln(x)", api("iln", x), eff_text([x, NLT], False)),
        Op("i(x)", api("i", x), eff_text([x], False)),
        Op("tln(x)", api("tln", x), eff_text([x, NLT], True)),
        Op("h1(x)", api("h1", x), lambda sc: setattr(sc, "anchors", True)),
        Op("t(x)", api("t", x), eff_text([x], True)),
    ]


def run(ctx):
    ctx.rule("verdict", "FAIL iff the case raised or marked a failure; else DIFF iff it marked a difference, a tested token differs "
                        "from the snapshot on this path, or there is no accepted snapshot; else OK")
    ctx.min_decided = 200
    n = 4 if ctx.thorough else 3
    base = ops(0)
    seqs = []
    for k in range(0, n + 1):
        for idx in product(range(len(base)), repeat=k):
            if k == n and n > 2 and len([i for i in idx if i >= 6]) > (0 if not ctx.thorough else 1):
                continue
            seqs.append(idx)
    for shape, snap in ((None, "no accepted snapshot"), ((1, 1), "accepted snapshot")):
        for exc in (None, "Exception", "SystemExit"):
            for idx in seqs:
                if exc and len(idx) > 1 or (exc == "SystemExit" and idx):
                    continue
                opl = [ops(i)[j] for i, j in enumerate(idx)]
                sc = script_of(opl)
                pol = OutPol()
                it = ctx.interp(pol)
                outs, table = run_body(it, it.start(), body_of(opl, exc), shape=shape)
                title = ", ".join(o.title for o in opl) + (f", raises {exc}" if exc else "") + f" [{snap}]"
                failed = exc is not None or "fail" in sc.marks
                for k, s, v in outs:
                    if k == CUT:
                        ctx.und("verdict", title, "cut")
                        continue
                    if k == X:
                        ctx.judge("verdict", title, False, f"the run ends with {v!r} instead of a verdict", s)
                        continue
                    got = verdict_name(it, v)
                    if failed:
                        ctx.judge("verdict", title, got == "FAIL", f"verdict {got or v!r}, expected FAIL", s, vague=got is None)
                        continue
                    if "diff" in sc.marks or shape is None:
                        ctx.judge("verdict", title, got == "DIFF", f"verdict {got or v!r}, expected DIFF", s, vague=got is None)
                        continue
                    if sc.anchors:
                        ctx.judge("verdict", title, got in ("OK", "DIFF"), f"verdict {got or v!r}, expected OK or DIFF", s, vague=got is None)
                        continue
                    for s2, mis in mismatches(it, s, sc, table):
                        want = "DIFF" if mis else "OK"
                        ctx.judge("verdict", title, got == want, f"verdict {got or v!r}, expected {want}", s2, vague=got is None)
    ctx.scen["scripts"] = len(seqs)
