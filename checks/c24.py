"""C24: environment mocks take effect exactly as specified."""
from sa.harness import *
from .envs import *

A, B = atom("VAR_A"), atom("VAR_B")


class Pol(LeanFs, Policy):
    kinds = {"case"}

    def json_content(self, it, st, text):
        return [(V, st, st.alloc(DictO(base=Term("jsonload", (text,)))))]


def expected(it, s, deco, name, value, refresh, complete, stored):
    """[(st, expected value or 'error')] for one variable"""
    env0 = Term("env0", (name,))
    r = []
    if deco == "mock_env":
        return [(s, value)]
    for s2, (rf, cm) in splits(it, s, refresh, complete):
        if deco == "mock_missing_env":
            if rf or cm:
                r.append((s2, env0))
                continue
            for s3, absent in none_splits(it, s2, env0):
                r.append((s3, value if absent else env0))
        else:
            for s3, ex in [(x, b) for x, b in it.test(s2.fork(), Term("exists0", (stored,)))]:
                if rf or not ex:
                    r.append((s3, env0 if rf or cm else "error"))
                    continue
                snap = Term("jsonload", (Term("content0", (stored,)),))
                for s4, b in it.test(s3.fork(), Term("in", (name, snap))):
                    if b:
                        r.append((s4, Term("item", (snap, name))))
                    else:
                        r.append((s4, env0 if cm else "error"))
    return r


def run(ctx):
    ctx.rule("effect", "in every state in which the decorated case's body starts, each named variable's abstract value is the one the "
                       "decorator specifies for the configuration, the stored snapshot and the value on entry")
    ctx.rule("missing", "no path on which a snapshot_env variable has no stored value reaches the body unless snapshots are captured")
    ctx.rule("runs", "mock_env and mock_missing_env reach the body on every path")
    ctx.min_decided = 12
    refresh, complete = bsym("refresh"), bsym("complete")
    scen = [("mock_env", [A, B], [Sym("mockA", typ="str"), NONE]), ("mock_env", [A, B], [NONE, Sym("mockB", typ="str")]),
            ("mock_missing_env", [A, B], [Sym("mockA", typ="str"), NONE]), ("mock_missing_env", [A, B], [NONE, Sym("mockB", typ="str")]),
            ("mock_missing_env", [A], [Sym("mockA", typ="str")]), ("mock_env", [A], [Const("")]),
            ("snapshot_env", [A, B], [None, None]), ("snapshot_env", [A], [None])]
    for deco, names, values in scen:
        for is_async in (False, True):
            pol = Pol()
            pol.stubs = quiet_output(event=False)
            it = ctx.interp(pol)

            def body(it, st, f, a, kw, node, names=names):
                outs = [(st, ())]
                for n in names:
                    outs = [(s2, vs + (v,)) for s, vs in outs for s2, v in env_value(it, s, n)]
                r = []
                for s, vs in outs:
                    it.event(s, "case", TupleV(vs), node=node)
                    r.append((V, s, Sym("case_result")))
                return r
            st = it.start()
            st, fn = decorated(it, st, deco, names, values, body, is_async)
            cfg = config(st, refresh_snapshots=refresh, complete_snapshots=complete)
            title = f"{deco}({', '.join(f'{n.name}={v!r}' if v is not None else n.name for n, v in zip(names, values))})"
            for s, t in case_run(it, st, cfg):
                stored = concat([EXP, Const("/"), atom("case"), Const("/.env.json")])
                for k, s2, v in run_case(it, s, fn, [t]):
                    if k == CUT:
                        continue
                    cases = ev_kinds(s2, "case")
                    if not cases:
                        if deco != "snapshot_env":
                            ctx.judge("runs", title, False, f"the body is not reached: {v!r}", s2)
                            continue
                        # legal only if some variable is missing
                        states = [(s2.fork(), False)]
                        for n in names:
                            nxt = []
                            for s3, err in states:
                                for s4, e in expected(it, s3, deco, n, None, refresh, complete, stored):
                                    nxt.append((s4, err or e == "error"))
                            states = nxt
                        for s4, err in states:
                            ctx.judge("missing", title, err, f"the body is not reached although all variables are stored or captured: {v!r}", s4)
                        continue
                    got = cases[0].args[0].items
                    for n, val, g in zip(names, values, got):
                        for s3, e in expected(it, s2, deco, n, val, refresh, complete, stored):
                            if e == "error":
                                ctx.judge("missing", title, False, f"the body runs although {n!r} has no stored value and nothing is captured", s3)
                                continue
                            good = g == e
                            if not good:
                                # absent on both sides
                                gn = [b for _, b in none_splits(it, s3, g)]
                                en = [b for _, b in none_splits(it, s3, e)]
                                good = gn == [True] and en == [True]
                            ctx.judge("effect", title, good, f"in the case {n!r} is {g!r}, not {e!r}", s3, cases[0].loc,
                                      vague=is_vague(g))
