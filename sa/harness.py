"""What the checks share: obligations, reports, evidence, and abstract inputs."""
import copy
import json
import os
import time
from .values import *
from .state import *
from .prog import *
from .extmodels import under, norm
from .engine import Interp, Policy, Budget, V, X, N, R, CUT, Iv

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def vague_state(st, *vals):
    """The path or a value went through something the analyser does not model."""
    if st is not None:
        if st.notes:
            return True
        for p in st.facts:
            if is_vague(p):
                return True
    return any(v is not None and isinstance(v, Val) and is_vague(v) for v in vals)


class Ctx:
    def __init__(self, pid, tier="quick", root=None):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.prog = Program(root or REPO)
        self.interps = []
        self.obl = []           # (rule, instance, status, detail)
        self.scen = {}
        self.assumptions = []
        self.min_decided = 1
        self.rules = {}
        self.samples = []
        self._base = None
        self.limit, self.total = (150, 780) if tier != "thorough" else (900, 6000)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def interp(self, pol):
        if self._base is None:
            self._base = Interp(self.prog, Policy())
        it = copy.copy(self._base)
        it.pol = pol
        now = time.time()
        it.deadline = min(now + self.limit, self.t0 + self.total)
        it.steps = it.cuts = it.forks = it.merged = 0
        it.pins = []
        it.visited, it.undecided, it.unmodelled, it.cur = set(), [], {}, None
        self.interps.append(it)
        return it

    # -------------------------------------------------------- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, inst):
        self.obl.append((rule, str(inst), "ok", None))

    def und(self, rule, inst, why=""):
        self.obl.append((rule, str(inst), "undecided", {"why": str(why)}))

    def bad(self, rule, inst, msg, st=None, where=None):
        path, facts = [], []
        if st is not None:
            ev = st.events()
            for e in ev[-60:]:
                path.append(repr(e)[:400])
            facts = [f"{k!r} = {v!r}"[:300] for k, v in st.facts.items()][:60]
            if where is None and ev:
                where = ev[-1].loc
        self.obl.append((rule, str(inst), "violated", {"msg": msg, "where": where, "path": path, "facts": facts}))

    def judge(self, rule, inst, good, msg, st=None, where=None, vague=False):
        """good: True / False / None (unknown).  A violation is only claimed on a fully
        modelled path."""
        if good is True:
            self.ok(rule, inst)
        elif good is None or vague or (st is not None and vague_state(st)):
            self.und(rule, inst, msg)
        else:
            self.bad(rule, inst, msg, st, where)

    def need(self, cond, what):
        if not cond:
            raise AnchorError(what)

    def broken(self):
        return any(o[2] == "violated" for o in self.obl)

    # -------------------------------------------------------- known findings
    def known(self):
        r = {}
        f = os.path.join(HERE, "known_findings.txt")
        if os.path.exists(f):
            for l in open(f):
                l = l.strip()
                if l.startswith("known: "):
                    p = dict(x.split("=", 1) for x in l[7:].split(" | ")[0].split() if "=" in x)
                    if p.get("property") == self.pid:
                        r[p["key"]] = l.split(" | ", 1)[1] if " | " in l else ""
        return r

    def finish(self):
        viol, seen = [], {}
        known = self.known()
        hit = {}
        for rule, inst, status, d in self.obl:
            if status != "violated":
                continue
            key = f"{rule}/{inst}".replace(" ", "_")
            if key in known:
                hit[key] = known[key]
                continue
            if key in seen:
                continue
            seen[key] = d
            viol.append((rule, inst, d))
        n_ok = sum(1 for o in self.obl if o[2] == "ok")
        n_und = sum(1 for o in self.obl if o[2] == "undecided")
        n_bad = sum(1 for o in self.obl if o[2] == "violated")
        visited = sorted(set().union(*[i.visited for i in self.interps]) if self.interps else set())
        unmod = {}
        for i in self.interps:
            for k, v in i.unmodelled.items():
                unmod[str(k)] = unmod.get(str(k), 0) + v
        und = {}
        for rule, inst, status, d in self.obl:
            if status == "undecided":
                und[f"{rule}/{inst}"] = d["why"][:200]
        per = {}
        for rule, inst, status, d in self.obl:
            c = per.setdefault(rule, {"ok": 0, "violated": 0, "undecided": 0})
            c[status] += 1
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": "Abstract interpretation of the current source (path-sensitive dataflow/typestate with value "
                               "numbering; nothing of the repository is executed, no solver). Each obligation is a postcondition "
                               "of one rule on one abstract path that reaches the end of a scenario; 'undecided' means the path "
                               "went through something unmodelled and is not counted as shown.",
                "rules": self.rules,
                "obligations": n_ok + n_und + n_bad,
                "discharged": n_ok,
                "undecided": n_und,
                "violated": n_bad,
                "per_rule": per,
                "scenarios": self.scen,
                "functions_analysed": visited,
                "functions_count": len(visited),
                "modules_parsed": len(self.prog.trees),
                "steps": sum(i.steps for i in self.interps),
                "path_forks": sum(i.forks for i in self.interps),
                "states_merged": sum(i.merged for i in self.interps),
                "paths_cut": sum(i.cuts for i in self.interps),
                "unmodelled": dict(sorted(unmod.items())[:40]),
                "undecided_list": dict(list(und.items())[:40]),
                "samples": self.samples[:10],
                "known_findings_hit": sorted(hit),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        evd = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
        os.makedirs(evd, exist_ok=True)
        for k, msg in hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {k} {msg}")
        rc = 0
        if viol:
            rp = os.path.join(evd, f"{self.pid}.violation.json")
            with open(rp, "w") as f:
                json.dump([{"property": self.pid, "rule": r, "instance": i, "rule_text": self.rules.get(r), **d} for r, i, d in viol],
                          f, indent=1)
            for r, i, d in viol[:8]:
                print(f"{self.pid}: rule {r}, {i}: {d['msg']}" + (f" [{d['where']}]" if d.get("where") else ""))
            print(f"VIOLATION property={self.pid} replay={rp}")
            rc = 1
        with open(os.path.join(evd, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if rc == 0 and n_ok < self.min_decided:
            print(f"{self.pid}: analysis broken: only {n_ok} obligations decided, at least {self.min_decided} expected"
                  f" ({n_und} undecided); unmodelled: {list(unmod)[:5]}")
            return 2
        if rc == 0:
            print(f"{self.pid}: ok: {n_ok} obligations shown, {n_und} undecided, {len(visited)} functions analysed, "
                  f"{ev['wall_s']} s")
        return rc


# ------------------------------------------------------------------ abstract inputs

def atom(name, typ="str"):
    return Sym(name, atom=True, typ=typ)


def bsym(name):
    return Sym(name, typ="bool")


def mklist(st, items):
    return st.alloc(ListO(items))


def mkdict(st, d=(), base=None):
    items = d.items() if isinstance(d, dict) else d
    return st.alloc(DictO([(Const(k) if isinstance(k, str) else k, v) for k, v in items], base=base))


EXP, OUT, REP = Const("books"), Const("books/.out"), Const("books/.out")
CONFIG_OFF = ["interactive", "always_interactive", "verbose", "print_logs", "fail_fast", "continue", "refresh_sources", "update",
              "accept", "refresh_snapshots", "complete_snapshots", "point_error_pos", "coverage"]


def config(st, **kw):
    return mkdict(st, forms({k: (v if isinstance(v, Val) else Const(v)) for k, v in kw.items()}))


_nforms = [0]


def forms(d):
    """A setting that is off is False in one configuration and absent, as it usually is, in the next two."""
    _nforms[0] += 1
    return d if _nforms[0] % 3 == 1 else {k: v for k, v in d.items() if v != FALSE}


def tests_obj(it, st, cases):
    """booktest.Tests over [(name, method)]."""
    cls = it.glob(st, "booktest", "Tests")
    l = mklist(st, [mklist(st, [n, m]) for n, m in cases])
    return one(it.call(st, cls, [l], {}))


def one(outs):
    vs = [o for o in outs if o[0] == V]
    if len(vs) != 1:
        raise AnchorError(f"expected one outcome, got {[(o[0], o[2]) for o in outs][:4]}")
    return vs[0][1], vs[0][2]


def test_run(it, st, tests, selected, cfg, cache=None, exp=EXP, out=OUT, rep=None, output=NONE):
    cls = it.glob(st, "booktest", "TestRun")
    if cache is None:
        cache = mkdict(st)
    sel = mklist(st, selected) if isinstance(selected, list) else selected
    return one(it.call(st, cls, [exp, out, rep if rep is not None else out, tests, sel, cfg, cache, output], {}))


class LeanFs:
    """Mixin: nothing of an earlier run is in the output directory, the book directories exist."""
    def decide(self, it, st, p):
        if p.op == "exists0":
            q = p.args[0]
            if q in (Const("books"), Const("books/")):
                return True
            if under(norm(q), OUT) is not None:
                return False
        return None


def case_run(it, st, cfg, name=None, run=None):
    """A real TestCaseRun in its constructed state: [(st, t)]"""
    if run is None:
        st, tests = tests_obj(it, st, [])
        st, run = test_run(it, st, tests, [], cfg)
    cls = it.glob(st, "booktest", "TestCaseRun")
    name = name if name is not None else atom("case")
    return [(s, t) for k, s, t in it.call(st, cls, [run, name, cfg, NONE], {}) if k == V]


OUTPUT_API = ["t", "tln", "i", "iln", "h", "h1", "h2", "h3", "header", "anchor", "anchorln", "keyvalueln", "fail", "diff",
              "test_feed", "feed", "assertln", "tformat", "tlist", "print", "report"]


def quiet_output(raises=(), event=True):
    """Stubs for the output calls of TestCaseRun: they record the text and return the run.
    raises: exceptions such a call may raise."""
    def stub(name):
        def f(it, st, a, kw, node):
            if event:
                it.event(st, "say", Const(name), *a[1:], node=node)
            r = [(V, st, a[0])]
            for e in raises:
                r.append((X, st.fork(), ExcV(e, (), "output")))
            return r
        return f
    return {f"booktest.testcaserun.TestCaseRun.{n}": stub(n) for n in OUTPUT_API}


def run_case(it, st, f, args=(), kw=None):
    """Outcomes of calling f and awaiting it if it is a coroutine."""
    return it.bind(it.call(st, f, list(args), dict(kw or {})), lambda s, v: it.await_(s, v) if type(v) is CoroV and v.kind == "coro" else [(V, s, v)])


def ev_kinds(st, *kinds):
    return [e for e in st.events() if e.kind in kinds]


def splits(it, st, *vals):
    """All ways the truth of the given values can be under the path facts: [(st, (bool,...))]"""
    acc = [(st.fork(), ())]
    for v in vals:
        nxt = []
        for s, bs in acc:
            for k, s2, b in it.branch(s, v):
                if k == V:
                    nxt.append((s2, bs + (b,)))
        acc = nxt
    return acc


def none_splits(it, st, v):
    return [(s, b) for k, s, b in it.isnone(st.fork(), v) if k == V]


def same(it, st, a, b):
    """a == b on this path: True, False, or None if open."""
    if a == b:
        return True
    r = set()
    for k, s, x in it.eq(st.fork(), a, b):
        if k == V:
            r.add(x)
    if r == {True}:
        return True
    if r == {False}:
        return False
    return None


def equal_or_vague(it, st, a, b):
    """Is a == b entailed?  (True, vague) / (False, vague)"""
    if same(it, st, a, b) is True:
        return True
    return False
