"""Runs of several cases through the public entry points (C04-C08, C10-C13, C16, C17, C28, C29)."""
from .outs import *

OUTDIR = OUT
CASES_TXT = Const("books/.out/cases.txt")
VERDICTS = ("OK", "DIFF", "FAIL")


def nm(i):
    return atom(f"case{i}")


def snap_of(name):
    return concat([EXP, Const("/"), name, Const(".md")])


def out_of(name, ext=".md"):
    return concat([OUT, Const("/"), name, Const(ext)])


class SuitePol(LeanFs, Policy):
    """Nothing of an earlier run is in the output directory (unless `old`); accepted
    snapshots exist as given by `snaps` (name -> bool)."""
    kinds = {"case", "answer"}
    stubs = dict(TOK)
    max_steps = 6000000
    while_bound = 4

    def __init__(self, snaps=None, answers=("c",)):
        self.snaps = snaps or {}
        self.answers = answers
        self.ext = {"builtins.input": self.input}

    def input(self, it, st, a, kw, node):
        it.event(st, "input", *a, node=node)
        r = []
        for x in self.answers:
            s = st.fork()
            it.event(s, "answer", Const(x), node=node)
            r.append((V, s, Const(x)))
        return r

    def decide(self, it, st, p):
        r = LeanFs.decide(self, it, st, p)
        if r is not None:
            return r
        if p.op == "exists0":
            for n, b in self.snaps.items():
                if p.args[0] == snap_of(n):
                    return b
                if p.args[0] == concat([EXP, Const("/"), n]):
                    return False
        return None


def put_file(st, path, text):
    log = list(st.fs["log"].items) if "log" in st.fs else []
    st.fs["log"] = TupleV(tuple(log) + (TupleV((Const("w"), path, text)),))


def put_snaps(st, names, text=Const("")):
    for n in names:
        put_file(st, snap_of(n), text)


def record(name, verdict, dur="1.5"):
    return concat([name, Const(f"\t{verdict}\t{dur}\n")])


def put_report(st, recs, path=CASES_TXT):
    put_file(st, path, concat([record(*r) for r in recs]) if recs else Const(""))


def kinds_of(forms):
    """A case body that ends in one of several ways, each recorded as event 'case' (name, form)."""
    def make(name):
        def h(it, st, f, a, kw, node):
            r = []
            for form in forms:
                s = st.fork()
                it.event(s, "case", name, Const(form), node=node)
                t = a[0]
                if form == "pass":
                    r.append((V, s, NONE))
                elif form == "value":
                    r.append((V, s, Sym(f"value of {name!r}", typ="object")))
                elif form == "fail":
                    r += it.bind(call_t(it, s, t, "fail"), lambda s2, v: [(V, s2, NONE)])
                elif form == "difffail":
                    o = it.bind(call_t(it, s, t, "diff"), lambda s2, v: call_t(it, s2, t, "iln"))
                    r += it.bind(it.bind(o, lambda s2, v: call_t(it, s2, t, "fail")), lambda s2, v: [(V, s2, NONE)])
                elif form == "diff":
                    r += it.bind(call_t(it, s, t, "diff"), lambda s2, v: [(V, s2, NONE)])
                else:
                    r.append((X, s, ExcV(form, (Sym("message", typ="str"),), "case")))
            return r
        return h
    return make


def functions(it, st, names, body, is_async=False):
    r = []
    for n in names:
        r.append((n, it.user_fn(st, "case", is_async=is_async, handler=body(n))))
    return r


def cfg_of(st, **kw):
    d = {k: FALSE for k in ("interactive", "always_interactive", "verbose", "update", "accept", "continue", "fail_fast", "print_logs")}
    d.update({k.replace("continue_", "continue"): (v if isinstance(v, Val) else Const(v)) for k, v in kw.items()})
    return mkdict(st, forms(d))


def records(st, path=CASES_TXT):
    """[(name, verdict, duration)] of a case report on disk; None if it cannot be read."""
    t = file_text(st, path)
    if t is None:
        return None
    return parse_records(t)


def parse_records(t):
    lines, cur = [], []
    for p in word_parts(t):
        if type(p) is Const:
            bits = p.v.split("\n")
            for j, b in enumerate(bits):
                if j:
                    lines.append(cur)
                    cur = []
                if b:
                    cur.append(Const(b))
        else:
            cur.append(p)
    if cur:
        return None
    r = []
    for l in lines:
        fields, f = [], []
        for p in l:
            if type(p) is Const:
                bits = p.v.split("\t")
                for j, b in enumerate(bits):
                    if j:
                        fields.append(f)
                        f = []
                    if b:
                        f.append(Const(b))
            else:
                f.append(p)
        fields.append(f)
        if len(fields) != 3:
            return None
        r.append(tuple(concat(x) if x else Const("") for x in fields))
    return r


def started(st):
    """[(name, form)] of the cases in the order they ran."""
    return [(e.args[0], e.args[1].v) for e in st.events() if e.kind == "case"]


def run_serial(it, st, cases, selected, cfg, awaited=True, via="run_async"):
    st, tests = tests_obj(it, st, cases)
    st, run = test_run(it, st, tests, selected, cfg)
    outs = call_t(it, st, run, via)
    return it.bind(outs, lambda s, v: it.await_(s, v) if awaited else [(V, s, v)])


def expect(form, snap):
    """Verdict a case must get before review."""
    if form == "pass" or form == "value":
        return "OK" if snap else "DIFF"
    if form == "diff":
        return "DIFF"
    return "FAIL"


def truth_of(it, st, v):
    """Truth of a value on this path: True, False or None (open)."""
    if type(v) is Const:
        return bool(v.v)
    r = {b for k, s, b in it.branch(st.fork(), v) if k == V}
    return r.pop() if len(r) == 1 else None


def history(st):
    """[(name, form, [answers])] in the order the cases ran (answers given until the next case)."""
    h = []
    for e in st.events():
        if e.kind == "case":
            h.append((e.args[0], e.args[1].v, []))
        elif e.kind == "answer" and h:
            h[-1][2].append(e.args[0].v)
    return h


def final(v0, answers, update, accept):
    """Verdict after review of a case that ended as v0; None if update/accept is open."""
    if "a" in answers and v0 != "FAIL":
        return "OK"
    if v0 == "DIFF":
        return "OK" if accept is True else "DIFF" if accept is False else None
    return v0


def exit_judge(ctx, it, inst, k, s, v, verdicts, aborted=False, rule="exit"):
    """Exit status v against the final verdicts (list of OK/DIFF/FAIL/None)."""
    if k == CUT:
        ctx.und(rule, inst, v)
        return
    bad = any(x in ("DIFF", "FAIL") for x in verdicts)
    unk = any(x is None for x in verdicts)
    if k == X:
        ok = v.cls in ("KeyboardInterrupt",) or (v.cls == "SystemExit" and v.args and v.args[0] not in (NONE, Const(0), FALSE))
        ctx.judge(rule, inst, ok, f"ends with {v!r}", s)
        return
    if type(v) is EnumV:
        z = v.name == "OK"
    else:
        z = same(it, s, v, Const(0))
        if v == NONE:
            z = True
    if bad or aborted:
        ctx.judge(rule, inst, None if z is None else not z, f"status {v!r} although the verdicts are {verdicts}{', interrupted' if aborted else ''}", s)
    elif not unk:
        ctx.judge(rule, inst, z, f"status {v!r} although every case ended OK", s)


def modes(it, s, upd, acc):
    """[(st, update, accept)] with both modes decided."""
    return [(s2, u, a) for s2, (u, a) in splits(it, s, upd, acc)]
