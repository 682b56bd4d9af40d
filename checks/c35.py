"""C35: what --garbage lists and --clean removes, over directory contents, case names, selections and listing orders."""
from itertools import permutations
from .cmd import *
from .c34 import walk_rows

CASES = ["test/a", "test/a/b", "test/ab", "test/c_d", "other", "other/x"]
FILES = [
    "index.md", "test/a.md", "test/a/pic.png", "test/a/b.md", "test/a/b/deep/file.txt", "test/a/b/deep.md", "test/ab.md", "test/ab/x", "test/c_d.md",
    "test/c_d/.env.json", "other.md", "other/x.md", "other/x/data.bin", "other/unknown.md",
    # of no known case
    "test/abc.md", "test/abc/x", "test/a.txt", "test/a.md.bak", "test/index.md", "index.md.old", "test/c.md", "test/c_/x", "test/b.md", "a.md", "oth.md",
    "othe/x.md", "test2/a.md", "tes/t.md", "new/test/a.md", "test.md", "stray", ".hidden", "test/.keep", "test/d/a.md", "index/x", "xindex.md", "test/AB.md",
    "a", "test/abmd", "other.mdx", "test/ab.html",
    ".out/cases.txt", ".out/test/a.md", ".out/index.md", ".out/test/a/pic.png", ".out/test/a.bin",
]


def keep(f, cases):
    """The specification, for a path relative to the books directory."""
    return f == "index.md" or any(f == n + ".md" or f.startswith(n + "/") for n in cases)


class Pol(CmdPol):
    def __init__(self, root, files, reverse, **kw):
        CmdPol.__init__(self, {}, polls=0, **kw)
        self.root, self.tree, self.reverse = root, [root + "/" + f for f in files], reverse

    def walk(self, it, st, top, node):
        if type(top) is not Const or top.v.rstrip("/") != self.root:
            return None
        if top.v.endswith("/"):
            return None
        return walk_rows(it, st, self.tree, top.v, self.reverse)

    def decide(self, it, st, p):
        if p.op == "exists0" and type(p.args[0]) is Const:
            f = p.args[0].v.rstrip("/")
            if f in self.tree or f == self.root or any(x.startswith(f + "/") for x in self.tree):
                return True
            return False
        return CmdPol.decide(self, it, st, p)


def go(ctx, cmd, args, cases=CASES, files=FILES, reverse=False, root="books", env=(), how="", recs=()):
    pol = Pol(root, [f for f in files], reverse, env=list(env))
    it = ctx.interp(pol)
    st = it.start()
    for f in pol.tree:
        put_file(st, Const(f), Const("x\n"))
    put_report(st, [(Const(n), v) for n, v in recs], Const(root + "/.out/cases.txt"))
    n0 = len(st.fs["log"].items)
    st, tests = tests_obj(it, st, functions(it, st, [Const(n) for n in cases], kinds_of(["pass"])))
    want = sorted(root + "/" + f for f in files if not keep(f, cases))
    title = f"{cmd} {' '.join(args)}".strip() + (f", {how}" if how else "") + (", other listing order" if reverse else "") + (f", {len(cases)} cases" if cases is not CASES else "")
    outs = exec_args(it, st, tests, [cmd] + list(args), root=Const(root))
    ctx.need(outs, title)
    for k, s, v in outs:
        if k != V:
            ctx.judge("garbage", title, None if k == CUT else False, f"ends with {v!r}", s)
            continue
        ops = s.fs["log"].items[n0:]
        if cmd == "--garbage":
            got = []
            for e in s.events():
                if e.kind == "print" and type(e.args[0]) is Const:
                    got += [x for x in e.args[0].v.split("\n") if x]
                elif e.kind == "print":
                    ctx.und("garbage", title, "printed text not readable")
            wrong = sorted(set(got) ^ set(want))
            ctx.judge("garbage", title, not wrong, f"{wrong[:4]} " + ("listed although known" if wrong and wrong[0] in got else "not listed"), s)
            ctx.judge("garbage", title, not ops, f"changes files {ops[:2]}", s)
        else:
            gone = []
            for op in ops:
                if op.items[0].v == "rm" and type(op.items[1]) is Const:
                    gone.append(op.items[1].v)
                else:
                    ctx.judge("clean", title, False, f"changes files: {op!r}", s)
            lost = sorted(f for f in pol.tree if any(f == g or f.startswith(g.rstrip("/") + "/") for g in gone))
            wrong = sorted(set(lost) ^ set(want))
            ctx.judge("clean", title, not wrong, f"{wrong[:4]} " + ("removed although known" if wrong and wrong[0] in lost else "not removed"), s)
        ran = [e for e in s.events() if e.kind in ("case", "submit")]
        ctx.judge("clean" if cmd == "--clean" else "garbage", title, not ran, "runs cases", s)
    ctx.scen[cmd] = ctx.scen.get(cmd, 0) + len(outs)


def run(ctx):
    ctx.rule("garbage", "--garbage lists exactly the files that are neither the index nor the text of a known case nor in a known case's directory")
    ctx.rule("clean", "--clean removes exactly those files and changes nothing else, whatever is selected or configured")
    ctx.min_decided = 60
    sels = [[], ["test"], ["test/a"], ["other/x"], ["skip:test/a"], ["*"], ["skip:test", "skip:other"], ["test/ab", "skip:test/a"]]
    for cmd in ("--garbage", "--clean"):
        for sel in sels:
            go(ctx, cmd, sel)
            go(ctx, cmd, sel, reverse=True)
        for o in (["-c"], ["-r"], ["-u", "-a"], ["-s"], ["-S"], ["-p2"], ["-i"], ["-v"], ["-f"], ["--cov"]):
            go(ctx, cmd, o)
            go(ctx, cmd, o + ["test/ab"])
            go(ctx, cmd, o, recs=[("test/a", "OK"), ("test/ab", "FAIL"), ("test/abc", "OK")], how="with a report")
        go(ctx, cmd, [], env=[("BOOKTEST_DEFAULT_TESTS", "nothing")], how="nothing selected by default")
        go(ctx, cmd, [], env=[("BOOKTEST_DEFAULT_TESTS", "other")], how="other selected by default")
        go(ctx, cmd, [], root="some/books", how="another directory")
        for cases in ([], ["test/a"], ["other"], ["test/ab", "test/c_d"], CASES[::-1], ["test"], ["index"], ["a"], ["test/a", "new/test/a"]):
            go(ctx, cmd, [], cases=cases)
        go(ctx, cmd, [], files=["index.md"], how="only an index")
        go(ctx, cmd, [], files=["test/x.md"], how="one file")
        go(ctx, cmd, [], files=[f for f in FILES if keep(f, CASES)], how="no garbage")
        if ctx.thorough:
            for i in range(len(FILES)):
                go(ctx, cmd, [], files=[FILES[i]], how=f"only {FILES[i]}")
            for n in range(1, len(CASES)):
                go(ctx, cmd, [], cases=CASES[:n])
                go(ctx, cmd, [], cases=CASES[n:])
