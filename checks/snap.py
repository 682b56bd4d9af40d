"""Cases with mocked or snapshotted functions, requests and httpx, run one after another over the same files (C15, C18-C23)."""
from sa.usermod import load
from sa import netmodels as net
from sa.extmodels import fs_lookup, env_find, opaque_free
from .deps import *
from .par import *

N0 = Const("t/one")
FM = '''
def f(*args, **kwargs):
    return real("f", args, kwargs)

def g(*args, **kwargs):
    return real("g", args, kwargs)

async def h(*args, **kwargs):
    return real("h", args, kwargs)

class Obj:
    def m(self, *args, **kwargs):
        return real("m", args, kwargs)

obj = Obj()
'''


def secret(n):
    return atom(n)


class Req:
    """One HTTP request.  kind: requests, httpx, ahttpx"""
    def __init__(self, kind, url="http://h/a", method="GET", headers=(), body=None, opts=(), session=None, use="read"):
        """use: how the caller takes the body: read, stream (in pieces), close (not at all), late (read after the client returned it unread)"""
        self.use = use
        self.kind, self.url, self.method, self.headers, self.body, self.opts, self.session = kind, url, method, tuple(headers), body, tuple(opts), session

    def ident(self, ignored=True):
        low = None if ignored is True else {x.lower() for x in ignored or ()}
        hs = () if low is None else tuple(sorted((k if self.kind == "requests" else k.lower(), v) for k, v in self.headers if k.lower() not in low))
        return (self.kind.lstrip("a"), self.url, self.method, hs, self.body)

    def __repr__(self):
        return f"{self.kind} {self.method} {self.url}" + (f" {dict(self.headers)}" if self.headers else "") + (f" body {self.body}" if self.body else "")


class Fn:
    """One call of a function of the module fm."""
    kind = "fn"

    def __init__(self, name, *args, **kw):
        self.name, self.args, self.kw = name, args, kw

    def ident(self, ignored=True):
        return ("fn", self.name, repr([val(x) for x in self.args]), repr(sorted((k, val(v)) for k, v in self.kw.items())))

    def __repr__(self):
        return f"{self.name}({', '.join([str(x) for x in self.args] + [f'{k}={v}' for k, v in self.kw.items()])})"


class Env:
    """Reading one environment variable in the case."""
    kind = "env"

    def __init__(self, name):
        self.name = name

    def ident(self, ignored=True):
        return ("env", self.name)

    def __repr__(self):
        return f"${self.name}"


def val(x):
    return x if isinstance(x, Val) else TupleV([val(y) for y in x]) if isinstance(x, tuple) else Const(x)


def tok_seen(it, st, a, kw, node):
    """A text that is printed in a result."""
    t = a[1] if len(a) > 1 else kw.get("buf")
    if not all(opaque_free(p) for p in word_parts(t)):
        it.event(st, "token", t, node=node)
    return tok_init(it, st, a, kw, node)


class SnapPol(SuitePol):
    kinds = {"case", "answer", "real", "seen", "err", "fs", "open", "hook", "token"}
    max_depth = 90
    stubs = dict(SuitePol.stubs, **{"booktest.tokenizer.TestTokenizer.__init__": tok_seen})

    def __init__(self, snaps=None, answers=("c",), utf8=True, resp=None, fails=(), order="up", broken=()):
        self.broken = broken            # real calls whose body cannot be read
        self.order = order              # how unknown hash codes compare: "up", "down", None (every way)
        SuitePol.__init__(self, snaps or {N0: True}, answers)
        self.utf8, self.resp, self.fails = utf8, resp or {}, fails

    def answer(self, it, st, what, n):
        """What the real world answers to its n-th call: default, or given by resp(n)."""
        if n in self.fails:
            return [(X, st, ExcV("ConnectionError", (Const("real"),), "case"))]
        d = self.resp(n) if callable(self.resp) else self.resp
        return [(V, st, (d.get("status", Sym(f"status {n}", typ="int")), d.get("headers", [("Content-Type", atom(f"ctype{n}"))]),
                         d.get("content", atom(f"content{n}", typ="bytes")), d.get("encoding", atom(f"encoding{n}"))) + ((True,) if n in self.broken else ()))]

    def decide(self, it, st, p):
        if p.op == "isutf8" and self.utf8 is not None:
            return self.utf8
        if p.op == "eq" and Const("\n") in p.args and any(type(y) is Term and y.op == "hexdigest" for x in p.args for y in word_parts(x)):
            return False                # hex digits are no line ends
        if p.op == "slt" and self.order and all(type(x) is Term and x.op == "hexdigest" for x in p.args):
            return (repr(p.args[0]) < repr(p.args[1])) == (self.order == "up")
        last = word_parts(p.args[0])[-1:] if p.op == "exists0" else []
        if last and type(last[0]) is Const and (last[0].v.endswith("/.requests") or last[0].v.endswith("/.httpx") or last[0].v.endswith("/.functions")):
            return False
        if p.op == "exists0" and last and type(last[0]) is Const and last[0].v.endswith(".json") and str(p.args[0]).find(".out") < 0:
            return False
        return super().decide(it, st, p)


def world(it, st, mod="fm"):
    """Load the module with the real functions."""
    def real(it, st, a, kw, node):
        n = st.ext.get("real_calls", 0)
        st.ext["real_calls"] = n + 1
        it.event(st, "real", a[0], a[1], Const(n), it.freeze(st, a[2]), node=node)
        if n in it.pol.fails:
            return [(X, st, ExcV("ConnectionError", (Const("real"),), "case"))]
        d = it.pol.resp(n) if callable(it.pol.resp) else it.pol.resp
        x = d.get("value", atom(f"result{n}", typ="obj2"))
        return [(V, st, x(st) if callable(x) else x)]
    st, m = one(load(it, st, mod, FM, real=HookV("real", real)))
    return st


def target(it, st, name):
    """The function as the module (or object) has it now: [(k, st, f)]"""
    if name == "m":
        return it.bind(it.getattr(st, ModV("fm"), "obj"), lambda s, o: it.getattr(s, o, "m"))
    return it.getattr(st, ModV("fm"), name)


ENTRY = {"requests": ("requests.Session", "send"), "httpx": ("httpx.HTTPTransport", "handle_request"),
         "ahttpx": ("httpx.AsyncHTTPTransport", "handle_async_request")}


def entries(it, st):
    """The current value of everything that could be replaced."""
    r = {}
    for n in ("f", "g", "h", "m"):
        r[n] = one(target(it, st, n))[1]
    for n, (c, a) in ENTRY.items():
        r[n] = one(it.getattr(st, ExtV(c), a))[1]
    r["get_adapter"] = one(it.getattr(st, ExtV("requests.Session"), "get_adapter"))[1]
    return r


def perform(it, st, c):
    """What a user's call does: [(k, st, response)]"""
    if c.kind == "env":
        return [(V, s, v) for s, v in env_find(it, st, Const(c.name))]
    if c.kind == "fn":
        return it.bind(it.bind(target(it, st, c.name), lambda s, f: it.call(s, f, [val(x) for x in c.args], {k: val(v) for k, v in c.kw.items()})),
                       lambda s, v: it.await_(s, v) if c.name == "h" else [(V, s, v)])
    hs = [(k, val(v)) for k, v in c.headers]
    typ = "requests.structures.CaseInsensitiveDict" if c.kind == "requests" else "httpx.Headers"
    if c.kind != "requests":
        hs = [(k.lower(), v) for k, v in hs]
    h = st.alloc(DictO([(Const(k), v) for k, v in hs], typ=typ))
    body = NONE if c.body is None else val(c.body)
    if c.kind == "requests":
        req = st.alloc(ExtO("requests.PreparedRequest", (), {"url": Const(c.url), "method": Const(c.method), "headers": h, "body": body}))
        ses = st.alloc(ExtO("requests.Session"))
        if c.session:
            st.mut(ses).attrs["get_adapter"] = c.session(it, st)
        st.ext["sessions"] = tuple(st.ext.get("sessions", ())) + ((ses, st.heap[ses.oid].attrs.get("get_adapter")),)
        st.ext["sent"] = req
        f = one(it.getattr(st, ExtV("requests.Session"), "send"))[1]
        return it.call(st, f, [ses, req], {k: val(v) for k, v in c.opts})
    req = st.alloc(ExtO("httpx.Request", (), {"url": Const(c.url), "method": Const(c.method), "headers": h,
                                             "content": Const(b"") if c.body is None else body}))
    cl, a = ENTRY[c.kind]
    tr = st.alloc(ExtO(cl))
    f = one(it.getattr(st, ExtV(cl), a))[1]
    return it.bind(it.call(st, f, [tr, req], {}), lambda s, v: it.await_(s, v) if c.kind == "ahttpx" else [(V, s, v)])


def observed(it, st, c, v):
    """[(k, st, tuple of what the caller can see of the response)]"""
    if c.kind in ("fn", "env"):
        return [(V, st, TupleV((it.freeze(st, v),)))]
    if type(v) is not Ref or st.heap[v.oid].kind != "ext":
        return [(V, st, TupleV((Sym("not a response", vague=True), v)))]
    o = st.heap[v.oid]
    h = o.attrs.get("headers")
    o0 = o
    ci = type(h) is Ref and st.heap[h.oid].kind == "dict"
    hs = NONE
    if ci:
        d = st.heap[h.oid]
        hs = Term("ci" if d.typ != "dict" else "plain",
                  [TupleV((Const(k.v.lower()) if type(k) is Const else k, x)) for k, x in sorted(d.items, key=lambda z: repr(z[0]).lower())])
    about = TRUE
    if c.kind == "requests" and (o0.attrs.get("url") != Const(c.url) or o0.attrs.get("request") != st.ext.get("sent")):
        about = TupleV((Const("url and request"), o0.attrs.get("url", NONE), Const(o0.attrs.get("request") == st.ext.get("sent"))))
    out = []
    for k, s, content in taken(it, st, c, v):
        if k != V:
            out.append((k, s, content))
            continue
        enc = s.heap[v.oid].attrs.get("encoding", NONE) if c.kind == "requests" else NONE
        out.append((V, s, TupleV((s.heap[v.oid].attrs.get("status_code", NONE), hs, content, enc, about))))
    return out


def taken(it, st, c, v):
    """The body of the response as the caller takes it."""
    if c.use == "read":
        if c.kind == "requests":
            return it.getattr(st, v, "content")
        return net.m_httpx_read(it, st, [v], {}, None)
    if c.use == "stream":
        return net.stream(it, st, v, httpx=c.kind != "requests")
    return it.bind(net.close(it, st, v, httpx=c.kind != "requests"), lambda s, _: [(V, s, Const("not read"))])


def body(plan, end=None, stop=False):
    """A case that performs the calls of plan(st) and records what it sees; end: exception or method at the end."""
    def h(it, st, f, a, kw, node):
        t = a[0] if len(a) == 1 else a[-1]
        run = st.ext.get("run", 0)
        it.event(st, "case", N0, Const(run), node=node)
        calls = plan(run) if callable(plan) else plan
        sts = [(V, st, NONE)]
        for i, c in enumerate(calls):
            nw = []
            for k, s, v in sts:
                if k != V:
                    nw.append((k, s, v))
                    continue
                for k2, s2, r in it.bind(perform(it, s, c), lambda s2, r: observed(it, s2, c, r)):
                    if k2 == V:
                        it.event(s2, "seen", Const(run), Const(i), r, node=node)
                        nw.append((V, s2, NONE))
                    elif k2 == X and not stop:
                        it.event(s2, "err", Const(run), Const(i), Const(r.cls), TupleV(r.args), Const(str(r.origin)), node=node)
                        nw.append((V, s2, NONE))
                    else:
                        nw.append((k2, s2, r))
            sts = nw
        fin_ = end(run) if callable(end) else end
        if fin_ is None:
            return sts

        def fin(s, _):
            if fin_ in ("fail", "diff"):
                return it.bind(call_t(it, s, t, fin_), lambda s2, v: [(V, s2, NONE)])
            if fin_ == "iln":
                return it.bind(call_t(it, s, t, "iln", Const("text")), lambda s2, v: [(V, s2, NONE)])
            return [(X, s, ExcV(fin_, (Sym("message", typ="str"),), "case"))]
        return it.bind(sts, fin)
    return h


def deco(it, st, what, f, **kw):
    """Apply one snapshot or mock decorator: (st, f)."""
    if what == "functions":
        fs = [one(target(it, st, n))[1] for n in kw.get("funcs", ("f", "g", "h", "m"))] + list(kw.get("extra", ()))
        st, d = one(it.call(st, it.glob(st, "booktest", "snapshot_functions"), fs, {}))
    elif what == "mock":
        fs = [one(target(it, st, n))[1] for n in kw.get("funcs", ("f", "g"))] + list(kw.get("extra", ()))
        m = st.alloc(DictO([(x, HookV("mock", lambda it, s, a, k, n: [(V, s, Sym("mock result", typ="object"))])) for x in fs]))
        st, d = one(it.call(st, it.glob(st, "booktest", "mock_functions"), [m], {}))
    elif what == "env":
        st, d = one(it.call(st, it.glob(st, "booktest", "snapshot_env"), [Const(x) for x in kw["names"]], {}))
    else:
        st, d = one(it.call(st, it.glob(st, "booktest", "snapshot_" + what), [],
                            {k: (v if isinstance(v, Val) else mklist(st, [Const(x) for x in v]) if isinstance(v, (list, tuple)) else Const(v)) for k, v in kw.items() if k != "funcs"}))
    return one(it.call(st, d, [f], {}))


MODE = {"replay": {}, "complete": {"complete_snapshots": TRUE}, "refresh": {"refresh_snapshots": TRUE},
        "both": {"complete_snapshots": TRUE, "refresh_snapshots": TRUE}}


def run_once(it, st, case, mode, accepting=True, case2=None, **cfg):
    """One run of the case over the files as they are (but for the report of earlier runs)."""
    st.fs["log"] = TupleV(tuple(st.fs["log"].items if "log" in st.fs else ()) + (TupleV((Const("rm"), CASES_TXT)),))
    cases = [(N0, case)] if case2 is None else [(N0, case), case2]
    c = dict(MODE[mode])
    if accepting:
        c.update(update=TRUE, accept=TRUE)
    c.update(cfg)
    st, tests = tests_obj(it, st, cases)
    st, r = test_run(it, st, tests, [x for x, _ in cases], cfg_of(st, **c))
    outs = it.bind(call_t(it, st, r, "run_async"), lambda s, v: it.await_(s, v))
    for k, s, v in outs:
        s.ext["run"] = s.ext.get("run", 0) + 1
    return outs


def of_run(st, n, kind):
    """Events of the n-th run: (position of call, payload)"""
    r, cur = [], None
    for e in st.events():
        if e.kind == "case":
            cur = e.args[1].v
        if cur == n and e.kind == kind:
            r.append(e)
    return r


def results(st, n):
    """{call index: ("seen", obs) | ("err", class, args)} of a run."""
    r = {}
    for e in st.events():
        if e.kind in ("seen", "err") and e.args[0].v == n:
            r[e.args[1].v] = (e.kind,) + e.args[2:]
    return r


def eqv(it, st, a, b):
    """True / False / None: equal in every, no, some model."""
    if a == b and type(a) is type(b):
        return True
    if type(a) is TupleV and type(b) is TupleV:
        if len(a.items) != len(b.items):
            return False
        rs = [eqv(it, st, x, y) for x, y in zip(a.items, b.items)]
        return False if False in rs else None if None in rs else True
    if type(a) is Term and type(b) is Term and a.op in ("ci", "plain") and b.op in ("ci", "plain"):
        if a.op != b.op:
            return False
        return eqv(it, st, TupleV(a.args), TupleV(b.args))
    for x in (a, b):
        if type(x) is Sym and x.vague:
            return None
    if type(a) is Const and type(b) is Const:
        return a.v == b.v and type(a.v) is type(b.v)
    if type(a) is Sym and type(b) is Sym:
        return False                # different sources
    if Term not in (type(a), type(b)):
        return False
    return same(it, st, a, b) or None


class Run:
    """One run of a history: mode, calls, whether it is accepted, how the case ends."""
    def __init__(self, mode, calls, accept=True, end=None, legacy=None, decos=None):
        """legacy: (what, indices) of the stored snapshots that are in files of the old form when the run starts."""
        self.mode, self.calls, self.accept, self.end, self.legacy, self.decos = mode, list(calls), accept, end, legacy, decos

    def __repr__(self):
        return f"{self.mode}({', '.join(map(repr, self.calls))}{'' if self.accept else '; not accepted'}{'; ' + self.end if self.end else ''}{'; old form' if self.legacy else ''})"


def legacy(st, what, indices=None):
    """Move stored snapshots to the old form, one file for each in a directory. True when that was possible."""
    d = concat([EXP, Const("/"), N0, Const("/." + what)])
    t = file_text(st, concat([d, Const(".json")]))
    t = word_parts(t)[0] if t is not None and len(word_parts(t)) == 1 else t
    if not (type(t) is Term and t.op == "jsondumps" and type(t.args[0]) is Term and t.args[0].op == "dictv"):
        return False
    log, rest = list(st.fs["log"].items) + [TupleV((Const("mkdir"), d))], []
    for i, p in enumerate(t.args[0].args):
        if indices is None or i in indices:
            log.append(TupleV((Const("w"), concat([d, Const("/"), p.items[0], Const(".json")]), Term("jsondumps", (p.items[1], FALSE)))))
        else:
            rest.append(p)
    if rest:
        log.append(TupleV((Const("w"), concat([d, Const(".json")]), Term("jsondumps", (Term("dictv", rest), FALSE)))))
    else:
        log.append(TupleV((Const("rm"), concat([d, Const(".json")]))))
    st.fs["log"] = TupleV(log)
    return True


class Oracle:
    """What the specification says about a history.  After run(r): .exp = [("stored", key, obs) | ("real", n, key) | ("fails", n) | ("missing",)]
    per call, or None when the case must not start."""

    def __init__(self, decos, ignored=True, fails=()):
        self.decos, self.ignored, self.fails = decos, ignored, fails
        self.store, self.real, self.envs = {}, 0, [n for w, kw in decos if w == "env" for n in kw["names"]]

    def run(self, r, i):
        """[expectation per call]; the values of real calls are filled in by learn()."""
        seen, exp, used = {}, [], {}
        self.missing_env = []
        for n in self.envs:
            k = ("env", n)
            if r.mode in ("replay", "complete") and k in self.store:
                used[k] = self.store[k]
            elif r.mode == "replay":
                self.missing_env.append(n)
            else:
                used[k] = ("obs", TupleV((env_at(n, i),)))
        if self.missing_env:
            self.used = {}
            return None
        for c in r.calls:
            k = self.ident(c)
            if c.kind == "env":
                exp.append(("stored", k, used[k][1]) if k in self.store and r.mode in ("replay", "complete") else ("env", k, used[k][1]))
                continue
            if c.kind != "fn":
                seen[k] = n = seen.get(k, 0) + 1
                k = (k, n)
            if r.mode in ("replay", "complete") and k in self.store:
                exp.append(("stored", k, self.store[k][1]))
                used[k] = self.store[k]
            elif r.mode == "replay":
                exp.append(("missing", k))
                if c.kind != "fn":
                    seen[self.ident(c)] -= 1
            else:
                n, self.real = self.real, self.real + 1
                if n in self.fails:
                    exp.append(("fails", k, n))
                    if c.kind != "fn":
                        seen[self.ident(c)] -= 1
                else:
                    exp.append(("real", k, n))
                    used[k] = ("obs", resp_of(self.pol, c, n, True))
        self.used = used
        return exp

    def ident(self, c):
        return self.ignored(c) if callable(self.ignored) and c.kind not in ("fn", "env") else c.ident(self.ignored)

    def accepted(self):
        self.store = dict(self.used)


def env_at(name, run):
    """The real value of a variable during a run: VAR_C is not set in the first run, VAR_D only there."""
    if name == "VAR_C" and run == 0 or name == "VAR_D" and run > 0:
        return NONE
    return atom(f"env {name} run {run}")


def resp_of(pol, c, n, replayed=False):
    """What the caller sees of the n-th real answer (httpx undoes a content encoding once, the saved body has none)."""
    d = pol.resp(n) if callable(pol.resp) else pol.resp
    if c.kind == "fn":
        return TupleV((d.get("expect", d.get("value", atom(f"result{n}", typ="obj2"))),))
    st, hs, content, enc = pol.answer(None, None, None, n)[0][2][:4]
    content = Const("not read") if c.use == "close" else content
    if replayed and c.kind != "requests":
        hs = [(k, v) for k, v in hs if k.lower() != "content-encoding"]
    return TupleV((st, Term("ci", [TupleV((Const(k.lower()), v)) for k, v in sorted(hs, key=lambda z: repr(Const(z[0])).lower())]), content,
                   enc if c.kind == "requests" else NONE, TRUE))


def history(ctx, decos, runs, pol=None, ignored=True, seen=None, setup=None, is_async=False):
    """Abstractly run the history; yields (state, [(run, expectations, results, reals per call)]) of every path that got to its end."""
    pol = pol or SnapPol()
    it = ctx.interp(pol)
    st = it.start()
    put_snaps(st, [N0])
    st = world(it, st)
    f0 = it.user_fn(st, "case", is_async=is_async, handler=body(lambda i: runs[i].calls, end=lambda i: runs[i].end))
    fs = []
    for r in runs:
        f = f0
        for what, kw in reversed(r.decos or decos):
            st, f = deco(it, st, what, f, **kw)
        fs.append(f)
    if setup:
        st = setup(it, st)
    outs = [(V, st, NONE)]
    for i, r in enumerate(runs):
        def go(s, v, r=r, i=i):
            for w, kw in decos:
                if w == "env":
                    for n in kw["names"]:
                        s.env = dict(s.env)
                        s.env[Const(n)] = env_at(n, i)
            if r.legacy and not legacy(s, *r.legacy):
                return [(CUT, s, NONE)]
            return run_once(it, s, fs[i], r.mode, r.accept)
        outs = it.bind(outs, go)
    orc = Oracle(decos, ignored, tuple(pol.fails) + tuple(pol.broken))
    orc.pol = pol
    exps = []
    for i, r in enumerate(runs):
        exps.append(orc.run(r, i))
        if r.accept and r.end is None and exps[-1] is not None:
            orc.accepted()
    for k, s, v in outs:
        yield it, k, s, v, [(r, exps[i], results(s, i), reals(s, i)) for i, r in enumerate(runs)]


def reals(st, n):
    """{call index: [events of real calls made while it was answered]} of a run; those outside of a call under None."""
    r, cur, i, done = {}, None, 0, False
    for e in st.events():
        if e.kind == "case":
            cur, i = e.args[1].v, 0
        elif cur == n and e.kind == "real":
            r.setdefault(i, []).append(e)
        elif cur == n and e.kind in ("seen", "err"):
            i = e.args[1].v + 1
    return r


def is_real_of(it, st, c, e):
    """Was the real thing asked for just this call?"""
    if c.kind == "fn":
        a = TupleV([val(x) for x in c.args])
        return e.args[0] == Const(c.name) and eqv(it, st, e.args[1], a) and len(e.args[3].args) == len(c.kw) if type(e.args[3]) is Term else None
    if e.args[0] != Const(c.kind):
        return False
    o = st.heap[e.args[1].oid]
    return o.attrs.get("url") == Const(c.url) and o.attrs.get("method") == Const(c.method)


def Where(it, st, c, got):
    """The raise that the caller saw, or else the decorator."""
    if got is not None and got[0] == "err" and not got[3].v.startswith(("case", "None")):
        return got[3].v
    d = {"fn": "snapshot_functions", "requests": "snapshot_requests", "env": "snapshot_env"}.get(c.kind, "snapshot_httpx")
    f = it.glob(st.fork(), "booktest", d)
    return f"{f.fn.file}:{f.fn.node.lineno} in {f.fn.qual}" if type(f) is FuncV else None


def check(ctx, it, k, st, v, rows, inst, modes=("replay", "complete", "refresh", "both"), last_only=False, rules=None):
    """Judge every run of the history in one of the modes. rules: names for (answer, real, error)."""
    ans, rl, er = rules
    for i, (r, exp, res, rea) in enumerate(rows):
        if r.mode not in modes or last_only and i < len(rows) - 1:
            continue
        at = f"{inst} run {i + 1}"
        if exp is None:
            ctx.judge(er, at, not res and not rea, "the case runs although a variable has no stored value", st)
            continue
        if not res and r.calls:
            started = any(e.kind == "case" and e.args[1].v == i for e in st.events())
            ctx.judge(ans, at, None if k == CUT else False if not started else None, f"the case is not run ({v})", st)
            continue
        for j, (c, e) in enumerate(zip(r.calls, exp)):
            at_ = Where(it, st, c, res.get(j))
            got, real = res.get(j), rea.get(j, [])
            what = f"{c!r} (call {j + 1} of run {i + 1}, {r.mode})"
            if got is None:
                ctx.judge(ans, at, None, f"{what}: no outcome", st)
                continue
            if e[0] in ("stored", "env"):
                if e[0] == "stored":
                    ctx.judge(rl, at, not real, f"{what} reaches the real world although it is stored", st, real and real[0].loc)
                good = got[0] == "seen" and eqv(it, st, got[1], e[2])
                ctx.judge(ans, at, good, f"{what} gives {got[1]} instead of {e[2]}", st, at_)
            elif e[0] == "missing":
                ctx.judge(rl, at, not real, f"{what} reaches the real world in a replay", st, real and real[0].loc)
                ctx.judge(er, at, got[0] == "err", f"{what} is answered with {got[1]} though it is not stored", st, at_)
            else:
                ok = len(real) == 1 and is_real_of(it, st, c, real[0])
                ctx.judge(rl, at, ok, f"{what}: the real call is made {len(real)} times" if len(real) != 1 else f"{what}: something else is called for it", st,
                          real and real[0].loc)
                if e[0] == "fails":
                    ctx.judge(ans, at, got[0] == "err" and (got[1] == Const("ConnectionError") or None), f"{what} does not give the error of the real call but {got[1]}", st, at_)
                elif len(real) == 1:
                    good = got[0] == "seen" and eqv(it, st, got[1], resp_of(it.pol, c, real[0].args[2].v))
                    ctx.judge(ans, at, good, f"{what} gives {got[1]} instead of the real answer", st, at_)
                    for on, ov in getattr(c, "opts", ()):
                        o = real[0].args[3]
                        ctx.judge(rl, at, TupleV((Const(on), val(ov))) in o.items, f"{what}: the caller's {on} does not reach the real call", st, real[0].loc)
