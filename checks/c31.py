"""C31: which cases a command line or configuration selects, against a path-component oracle, over generated trees of names and selections."""
from itertools import product, permutations
from .cmd import *

NAMES = ["test/a", "test/ab", "test/a/b", "test/ab/b", "test/b", "tests/a", "test", "a", "ab/c"]


def parts(p):
    return p.split("/")


def matches(entry, name):
    if entry == "":
        return True
    e, n = parts(entry), parts(name)
    return n[:len(e)] == e


def selected(entries, name):
    """The specification."""
    skips = [e[5:] for e in entries if e.startswith("skip:")]
    pos = [e for e in entries if not e.startswith("skip:")]
    if any(matches(e, name) for e in skips):
        return False
    return not pos or any(e == "*" or matches(e, name) for e in pos)


def pool(names):
    ps = []
    for n in names:
        for i in range(len(parts(n))):
            p = "/".join(parts(n)[:i + 1])
            if p not in ps:
                ps.append(p)
    return ps


def listed(st):
    """Texts printed, one per line."""
    r = []
    for e in st.events():
        if e.kind == "print":
            x = e.args[0]
            if type(x) is not Const or not isinstance(x.v, str):
                return None
            r += x.v.split("\n")
    return [x.strip() for x in r if x.strip()]


class Pol(CmdPol):
    def decide(self, it, st, p):
        if p.op == "exists0":
            return CmdPol.decide(self, it, st, p) or False
        return CmdPol.decide(self, it, st, p)


class Base:
    """The tests object, built once for a tree of names."""
    def __init__(self, ctx, names, env=()):
        self.ctx, self.names = ctx, names
        self.pol = Pol({Const(n): True for n in names}, env=list(env))
        self.it = ctx.interp(self.pol)
        st = self.it.start()
        put_snaps(st, [Const(n) for n in names])
        self.st, self.tests = tests_obj(self.it, st, functions(self.it, st, [Const(n) for n in names], kinds_of(["pass"])))

    def go(self, args, entries, how, mode="-l"):
        ctx, it = self.ctx, self.it
        want = [n for n in self.names if selected(entries, n)]
        title = f"{how} {entries}"
        outs = exec_args(it, self.st.fork(), self.tests, args + [mode] if mode else args)
        ctx.need(outs, title)
        for k, s, v in outs:
            if k == CUT and v == "polling":
                continue
            if k != V:
                ctx.judge("selected", title, None if k == CUT else False, f"ends with {v!r}", s)
                continue
            if mode == "-l":
                got = listed(s)
            else:
                got = [e.args[0].v for e in s.events() if e.kind == ("submit" if "-p2" in args else "case")]
            if got is None:
                ctx.und("selected", title, "printed text not readable")
                continue
            wrong = sorted(set(got) ^ set(want))
            ctx.judge("selected", title, not wrong, f"{wrong} " + (f"{'is' if len(wrong) == 1 else 'are'} " + ("selected but matched by no entry or by a skip entry" if wrong and wrong[0] in got else "not selected")), s)
            ctx.judge("once", title, len(got) == len(set(got)), f"listed are {got}", s)
        ctx.scen[f"{how}, {len(entries)} entries"] = ctx.scen.get(f"{how}, {len(entries)} entries", 0) + len(outs)


def run(ctx):
    ctx.rule("selected", "the cases listed or run are exactly those matched by whole path components and not skipped, in every order of the entries")
    ctx.rule("once", "no case is listed or run twice")
    ctx.min_decided = 500
    b = Base(ctx, NAMES)
    ps = pool(NAMES)
    entries = ps + ["*"] + ["skip:" + p for p in ps]
    b.go([], ["test", "book"], "no arguments")
    for e in entries:
        b.go([e], [e], "arguments")
    some = ["test", "test/a", "test/ab", "a", "*", "skip:test", "skip:test/a", "skip:test/a/b", "skip:a", "skip:test/ab"]
    for es in product(entries, repeat=2):
        b.go(list(es), list(es), "arguments")
    three = [("test", "skip:test/a", "tests"), ("skip:test/a", "skip:test/b", "ab"), ("*", "skip:a", "skip:tests"), ("test/a", "test/ab", "skip:test/a/b"),
             ("a", "test/b", "skip:test"), ("skip:test/a", "test/a/b", "*")]
    if ctx.thorough:
        three += [x for x in product(some + ["ab/c", "skip:ab", "tests/a"], repeat=3) if x == tuple(sorted(x))]
    for t in three:
        for es in permutations(t):
            b.go(list(es), list(es), "arguments")
    # what is configured may be any text
    free = ["te", "test/", "", "nothing", "test/a/b/c", "ab", "test/a/", "skip:", "skip:te", "skip:test/a/b/c", "skip:nothing", "skip:test"]
    free = [e for e in free if not (e.endswith("/"))]
    for n in (1, 2):
        for es in product(free + ["*", "test"], repeat=n):
            if n == 2 and not ctx.thorough and sum(map(len, es)) % 2:
                continue
            Base(ctx, NAMES, env=[("BOOKTEST_DEFAULT_TESTS", ",".join(es))]).go([], list(es), "configured")
    # names with parts that are any word
    for sel in (["t/one"], ["t"], ["skip:t/one"], ["t", "skip:t/one/two"]):
        Base(ctx, ["t/one", "t/one two", "t/one/two", "t/one_two", "t/onetwo", "t/one-two", "t/one.two"]).go(list(sel), list(sel), "similar names")
    # what is run is what is listed
    for sel in (["test"], ["test/a"], ["*", "skip:test/a"], ["skip:test"], ["test/a", "skip:test/a/b", "ab"], ["skip:test/ab", "test"]):
        Base(ctx, NAMES).go(list(sel), list(sel), "run", None)
    for sel in (["test/a"], ["skip:test"], ["ab", "test", "skip:test/a", "skip:test/ab"]):
        Base(ctx, NAMES).go(["-p2"] + list(sel), list(sel), "run in parallel", None)
