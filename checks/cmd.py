"""Command lines driven through Tests.exec / Tests.exec_parsed, with a model of argparse (C25, C31-C35)."""
from .par import *


class CmdPol(ParPol):
    kinds = {"case", "answer", "submit", "ready", "fs", "print", "system", "toolrun", "write", "run", "open"}
    max_depth = 90

    def __init__(self, snaps=None, answers=("c",), files=None, env=None, **kw):
        ParPol.__init__(self, snaps, answers, **kw)
        self.files = files or {}
        self.envs = env or []
        for q in ("os.environ.items", "iter:os.environ", "os.environ.keys", "os.environ.copy"):
            self.ext[q] = self.environ(q)

    def environ(self, q):
        def f(it, st, a, kw, node):
            ps = [(Const(k), v if isinstance(v, Val) else Const(v)) for k, v in self.envs]
            if q.endswith("copy"):
                return [(V, st, st.alloc(DictO(ps)))]
            return [(V, st, st.alloc(ListO([TupleV((k, v)) for k, v in ps] if q.endswith("items") else [k for k, v in ps])))]
        return f

    def decide(self, it, st, p):
        if p.op == "exists0":
            for n, b in self.files.items():
                if p.args[0] == (n if isinstance(n, Val) else Const(n)):
                    return b
            last = word_parts(p.args[0])[-1:]
            if last and type(last[0]) is Const and str(last[0].v).endswith(".booktest"):
                return False
        return ParPol.decide(self, it, st, p)


def exec_args(it, st, tests, args, root=EXP, cache=None):
    """Outcomes of tests.exec(root, args)."""
    l = mklist(st, [a if isinstance(a, Val) else Const(a) for a in args])
    return call_t(it, st, tests, "exec", root, l, *([] if cache is None else [cache]))


def parse(it, st, tests, args):
    """[(k, st, parsed)]: the parser of the tests applied to the arguments."""
    st, p = one(it.call(st, ExtV("argparse.ArgumentParser"), [], {}))
    l = mklist(st, [a if isinstance(a, Val) else Const(a) for a in args])
    return it.bind(call_t(it, st, tests, "setup_parser", p),
                   lambda s, _: it.call_method(s, p, "parse_args", [l], {}))
