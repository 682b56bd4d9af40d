"""C38: the cases found in a test tree and their order under several listing orders of the file system, and the index written by runs of every kind."""
from itertools import permutations
from sa.usermod import load
from .deps import *

TREE = {
    "test/__init__.py": "",
    "test/helper.py": "def test_no(t):\n    pass\n",
    "test/notes.txt": None,
    "test/b_test.py": "import booktest as bt\ndef test_x(t):\n    pass\ndef test_y(t):\n    pass\ndef helper(t):\n    pass\n",
    "test/a_book.py": "import booktest as bt\nclass ABook(bt.TestBook):\n    def test_one(self, t):\n        pass\n    def test_two(self, t):\n        pass\n",
    "test/test_c.py": "def test_z(t):\n    pass\n",
    "test/__booktest__.py": "def process_setup_teardown():\n    yield\n",
    "test/sub2/d_test.py": "def test_q(t):\n    pass\n",
    "test/sub2/__booktest__.py": "def process_setup_teardown():\n    yield\n",
    "test/sub1/d_test.py": "def test_q(t):\n    pass\ndef test_p(t):\n    pass\n",
    "test/sub1/__booktest__.py": "def process_setup_teardown():\n    yield\n",
    "test/sub1/deep/e_suite.py": "import booktest as bt\ndef some(t):\n    pass\nsuite = bt.Tests([('suite/second', some), ('suite/first', some)])\n",
    "test/sub1/deep/data.csv": None,
    "test/sub1/flat/f_test.py": "def test_f(t):\n    pass\n",
}
OTHER = {
    "book/g_book.py": "import booktest as bt\nclass GBook(bt.TestBook):\n    def test_g(self, t):\n        pass\n",
    "book/more/h_test.py": "def test_h(t):\n    pass\n",
    "run/i_test.py": "def test_i(t):\n    pass\n",
}
# a case of the tree and the number of cases each test file has
FILES = {"test/b_test": 2, "test/a_book": 2, "test/test_c": 1, "test/sub2/d_test": 1, "test/sub1/d_test": 2, "test/sub1/deep/e_suite": 2,
         "test/sub1/flat/f_test": 1, "book/g_book": 1, "book/more/h_test": 1, "run/i_test": 1}
ORDERS = {"as written": lambda l: l, "reversed": lambda l: l[::-1], "sorted": sorted, "sorted backwards": lambda l: sorted(l)[::-1],
          "inside out": lambda l: l[len(l) // 2:] + l[:len(l) // 2], "by the last letters": lambda l: sorted(l, key=lambda x: x[::-1]),
          "odd first": lambda l: l[1::2] + l[::2]}


class TreePol(CmdPol):
    """A concrete tree whose directories are listed in a given order."""
    while_bound = 24
    kinds = CmdPol.kinds | {"import"}

    def __init__(self, tree, order, **kw):
        CmdPol.__init__(self, {}, polls=0, **kw)
        self.tree, self.order = tree, order
        self.modules = {f[:-3].replace("/", "."): s for f, s in tree.items() if s is not None}
        self.ext.update({"os.walk": self.m_walk, "os.walk().__next__": self.step, "os.listdir": self.listdir, "os.scandir": self.scandir})

    def listing(self, d):
        """(directories, files) in a directory, in the order of the file system."""
        l = []
        for f in self.tree:
            if f.startswith(d + "/"):
                x = f[len(d) + 1:].split("/")[0]
                if x not in l:
                    l.append(x)
        l = self.order(l)
        return [x for x in l if d + "/" + x not in self.tree], [x for x in l if d + "/" + x in self.tree], l

    def m_walk(self, it, st, a, kw, node):
        if type(a[0]) is not Const:
            return [(V, st, fresh("walk", vague=True))]
        top = a[0].v.rstrip("/")
        if not self.isdir(top):
            return [(V, st, st.alloc(ListO([])))]
        td = kw.get("topdown", a[1] if len(a) > 1 else TRUE)
        if td == FALSE:
            rows = []

            def go(d):
                ds, fs, _ = self.listing(d)
                for x in ds:
                    go(d + "/" + x)
                rows.append(TupleV((Const(d), mklist(st, [Const(x) for x in ds]), mklist(st, [Const(x) for x in fs]))))
            go(top)
            return [(V, st, st.alloc(ListO(rows)))]
        return [(V, st, st.alloc(ExtO("os.walk()", (), {"todo": TupleV((Const(top),))})))]

    def step(self, it, st, a, kw, node):
        """The next directory: the directory list handed out before is read when the walk goes on."""
        o = st.mut(a[0])
        todo = list(o.attrs["todo"].items)
        if "last" in o.attrs:
            d, l = o.attrs.pop("last").items
            todo = [Const(d.v + "/" + x.v) for x in st.heap[l.oid].items] + todo
        if not todo:
            o.attrs["todo"] = TupleV(())
            return it.exc(st, "StopIteration", node=node)
        d = todo.pop(0)
        ds, fs, _ = self.listing(d.v)
        dl = mklist(st, [Const(x) for x in ds])
        o.attrs["todo"], o.attrs["last"] = TupleV(tuple(todo)), TupleV((d, dl))
        return [(V, st, TupleV((d, dl, mklist(st, [Const(x) for x in fs]))))]

    def listdir(self, it, st, a, kw, node):
        if not a or type(a[0]) is not Const or not self.isdir(a[0].v.rstrip("/")):
            from sa.extmodels import MODELS
            return MODELS["os.listdir"](it, st, a, kw, node)
        return [(V, st, mklist(st, [Const(x) for x in self.listing(a[0].v.rstrip("/"))[2]]))]

    def scandir(self, it, st, a, kw, node):
        return [(V, st, fresh("scandir", vague=True))]

    def isdir(self, d):
        return any(f.startswith(d + "/") for f in self.tree)

    def decide(self, it, st, p):
        if p.op in ("exists0", "isdir0") and type(p.args[0]) is Const:
            f = str(p.args[0].v).rstrip("/")
            if p.op == "isdir0":
                return self.isdir(f)
            if f in self.tree or self.isdir(f):
                return True
            if f.split("/")[0] in ("test", "book", "run"):
                return False
        return CmdPol.decide(self, it, st, p)


def names_in(it, st, tests):
    """Names of the cases of a suite or list of suites, or None."""
    st = st.fork()
    if type(tests) is Ref and st.heap[tests.oid].kind == "list":
        outs = it.call(st, it.glob(st, "booktest", "merge_tests"), [tests], {})
        if len(outs) != 1 or outs[0][0] != V:
            return None
        _, st, tests = outs[0]
    outs = [o for o in it.bind(call_t(it, st, tests, "all_names"), lambda s, v: it.iterate(s, v))]
    if len(outs) != 1 or outs[0][0] != V or not all(type(x) is Const for x in outs[0][2]):
        return None
    return [x.v for x in outs[0][2]]


def detected(ctx, tree, order, fn, arg):
    """[(k, st, names or setup)] of a detection function."""
    pol = TreePol(tree, order)
    it = ctx.interp(pol)
    st = it.start()
    g = it.glob(st, "booktest", fn)
    res = []
    for k, s, v in it.call(st, g, [Const(arg)], {}):
        if k == V and fn == "detect_setup":
            f = s.heap[v.oid].attrs.get("_setup_teardown") if type(v) is Ref else v
            v = ("setup", f.fn.mod if type(f) is FuncV else repr(f))
        elif k == V:
            v = names_in(it, s, v)
        res.append((k, s, v))
    return res


def cli(ctx, tree, order, args):
    pol = TreePol(tree, order)
    it = ctx.interp(pol)
    st = it.start()
    l = mklist(st, [Const(a) for a in args])
    f = it.glob(st, "booktest.cli", "main")
    from .c31 import listed
    return [(k, s, listed(s) if k == V else v) for k, s, v in it.call(st, f, [l], {})]


def found(names, files):
    """The cases of each file are found once (the names of cases are made of those of the file)."""
    if len(names) != len(set(names)):
        return f"found twice: {sorted(n for n in set(names) if names.count(n) > 1)}"
    want = sum(FILES[f[:-3]] for f in files if f[:-3] in FILES)
    if len(names) != want:
        return f"{len(names)} cases found, the tree has {want}: {names}"
    return None


def compare(ctx, rule, title, runs, count=None):
    """The outcomes under every order are one and the same."""
    ref = None
    for order, outs in runs:
        t = f"{title}, directories listed {order}"
        for k, s, v in outs:
            if k != V:
                ctx.judge(rule, t, None if k == CUT else False, f"ends with {v!r}", s)
                continue
            if v is None:
                ctx.und(rule, t, "the cases are not readable")
                continue
            if ref is None:
                ref = v
                why = count(v) if count else None
                ctx.judge(rule, t, why is None, why or "", s)
                continue
            ctx.judge(rule, t, v == ref, f"gives {v}, another listing order gives {ref}", s)


def detection(ctx):
    tree, files = TREE, list(TREE)
    full = {**TREE, **OTHER}
    ctx.rule("detection", "the cases found, and their order, are the same for every listing order of the directories, and each case is found once")
    ctx.rule("setup", "the process setup that is found is the same for every listing order")
    orders = ORDERS.items()
    for fn in ("detect_tests", "detect_test_suite"):
        compare(ctx, "detection", fn, [(o, detected(ctx, tree, f, fn, "test")) for o, f in orders], lambda v: found(v, files))
    compare(ctx, "setup", "detect_setup", [(o, detected(ctx, tree, f, "detect_setup", "test")) for o, f in orders])
    compare(ctx, "detection", "-l", [(o, cli(ctx, full, f, ["-l", "*"])) for o, f in orders], lambda v: found(v, list(full)))


def index_errors(text, names):
    """What is wrong with an index of the cases `names`."""
    if type(text) is not Const:
        return None
    import re
    links, heads = [], []
    for l in text.v.split("\n"):
        m = re.match(r"^( *)\* (.*)$", l)
        if not m:
            continue
        depth = len(m.group(1)) // 4
        x = re.match(r"^\[([^\]]*)\]\((.*)\)$", m.group(2))
        if x:
            links.append((x.group(1), x.group(2), depth, list(heads[:depth])))
        else:
            heads = heads[:depth] + [m.group(2)]
    got = [t for _, t, _, _ in links]
    if sorted(got) != sorted(n + ".md" for n in names):
        return f"the index links {got}, the cases are {names}"
    for label, target, depth, hs in links:
        ps = target[:-3].split("/")
        if label != ps[-1]:
            return f"the link to {target} is labelled {label}"
        if hs != ps[:-1]:
            return f"the link to {target} stands under {hs}"
    return ""


SHAPES = [["t/a", "t/b"], ["t/s/a", "t/b"], ["t/a", "t/s/b", "t/c"], ["a", "t/b"], ["t/b", "a"], ["t/s/a", "u/s/a"], ["t/a", "u/a", "t/b"],
          ["t/a", "t/a/b"], ["t/a/b", "t/a"], ["t/s/d/a", "t/s/b", "t/u/d/c", "u"], ["t/s/d/a", "t"], ["t/s/a", "t/s/a/b", "t/s/a/b/c", "t/z"],
          ["t/s/a", "s/t/a", "s/a"], ["t/a b", "t/a_b", "t/a-b"]]
SELECTIONS = [None, 0, -1, ()]


def index(ctx):
    ctx.rule("index", "the index written by a run links every known case once, under the headings of its directory, whichever cases were selected")
    for names in SHAPES:
        for sel in SELECTIONS if len(names) < 4 or ctx.thorough else SELECTIONS[:2]:
            args = [] if sel is None else [names[sel]] if sel != () else [names[0], "skip:" + names[0]]
            for par in (False, True) if ctx.thorough or names in SHAPES[:3] else (False,):
                for kind in ("pass", "diff"):
                    written(ctx, names, args, par, kind)
    for opt in (["-c"], ["-f"], ["-i"], ["-u", "-a"], ["-v"], ["-s"]):
        written(ctx, SHAPES[3], opt, False, "diff")
    written(ctx, SHAPES[2], [], False, "diff", ("q",), ["-i"])
    written(ctx, SHAPES[2], [], False, "fail")


def written(ctx, names, args, par, kind, answers=("c",), extra=()):
    args = list(extra) + (["-p2"] if par else []) + list(args)
    pol = CmdPol({Const(n): True for n in names}, answers=answers, polls=0)
    it = ctx.interp(pol)
    st = it.start()
    cases = []
    for n in names:
        put_file(st, snap_of(Const(n)), Const("x\n"))

        def h(it2, s, f, a, kw, node):
            r = call_t(it2, s, a[0], "tln", Const("x" if kind == "pass" else "y"))
            return it2.bind(r, lambda z, _: call_t(it2, z, a[0], "fail")) if kind == "fail" else r
        cases.append((Const(n), it.user_fn(st, n.replace("/", "_"), handler=h)))
    st, tests = tests_obj(it, st, cases)
    title = f"index of {' '.join(names)} after {' '.join(args) or 'a plain run'}, cases {kind}"
    for k, s, v in exec_args(it, st, tests, args):
        if k != V:
            ctx.judge("index", title, None if k == CUT else False, f"the run ends with {v!r}", s)
            continue
        t = file_text(s, Const("books/index.md"))
        if t is None:
            ctx.judge("index", title, False, "no index is written", s)
            continue
        e = index_errors(t, names)
        ctx.judge("index", title, None if e is None else e == "", e or f"index {t!r}", s)


def run(ctx):

    detection(ctx)
    index(ctx)
    ctx.min_decided = 60
