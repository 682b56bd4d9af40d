"""C21: what of a request reaches the saved files and its hash."""
from .snap import *
from .c18 import DECOS, U1, U2

NAME = "X-Secret"
BODY = {"requests": lambda: atom("body", typ="bytes"), "httpx": lambda: atom("body", typ="bytes"), "ahttpx": lambda: atom("body", typ="bytes")}
SEC, SEC2, PUB = atom("secret1"), atom("secret2"), atom("other")


def parts(st, v, hashes, seen):
    """Every constant and symbol of a saved value; those below a hash only if wanted."""
    if type(v) is Ref:
        if v.oid in seen:
            return
        o = st.heap[v.oid]
        seen = seen | {v.oid}
        for x in (o.items if o.kind in ("list", "set") else [y for p in o.items for y in p] if o.kind == "dict" else o.attrs.values() if hasattr(o, "attrs") else ()):
            yield from parts(st, x, hashes, seen)
    elif type(v) is Term:
        if v.op == "hexdigest" and not hashes:
            return
        for x in v.args:
            yield from parts(st, x, hashes, seen)
    elif type(v) is TupleV:
        for x in v.items:
            yield from parts(st, x, hashes, seen)
    elif isinstance(v, Val):
        yield v


def leaks(st, atoms=(), names=(), hashes=True):
    """(file, what) of everything unwanted in what was written; None when something cannot be seen."""
    r, vague = [], False
    data = [(e.items[1], e.items[2]) for e in st.fs["log"].items if e.items[0] == Const("w")]
    for f, d in data + [("the result", e.args[0]) for e in st.events() if e.kind == "token"]:
        for x in parts(st, d, hashes, frozenset()):
            if x in atoms:
                r.append((f, x))
            elif type(x) is Const and any(n.lower() in (x.v if isinstance(x.v, str) else x.v.decode("latin1")).lower() for n in names if isinstance(x.v, (str, bytes))):
                r.append((f, x))
            elif type(x) is Sym and x.vague:
                vague = True
    return None if vague and not r else r


def scenarios(kind, thorough):
    """(name, options, calls of the first run, calls of the second, ignored set, atoms hidden everywhere, names hidden everywhere,
    atoms not to be saved outside of hashes, names of the latter)"""
    C = lambda *a, **kw: Req(kind, *a, **kw)
    b = BODY[kind]()
    h1, h2 = ((NAME, SEC), ("X-Other", PUB)), ((NAME.upper(), SEC2), ("X-Other", PUB))
    low = ((NAME.lower(), SEC2), ("X-Other", PUB))
    none = (("X-Other", PUB),)
    a1 = [C(U1, headers=h1), C(U1, "POST", headers=h1, body=b), C(U1, headers=h1)]
    for n, hs in (("other value", h2), ("lower case", low), ("left out", none)):
        a2 = [C(U1, headers=hs), C(U1, "POST", headers=hs, body=b), C(U1, headers=hs)]
        yield f"defaults, {n}", {}, a1, a2, True, (SEC, SEC2, PUB), ("x-secret", "x-other"), (b,), ()
        for ig in ([NAME], [NAME.lower()], [NAME.upper(), "Date"]) + (([],) if thorough else ()):
            if not ig:
                continue
            yield f"{ig} ignored, {n}", {"ignore_headers": ig}, a1, a2, {NAME}, (SEC, SEC2), ("x-secret",), (PUB, b), ("x-other",)
            yield f"{ig} ignored, details kept, {n}", {"ignore_headers": ig, "lose_request_details": FALSE}, a1, a2, {NAME}, (SEC, SEC2), ("x-secret",), (), ()
        yield f"details kept, {n}", {"lose_request_details": FALSE}, a1, a2, True, (SEC, SEC2, PUB), ("x-secret", "x-other"), (), ()
        if hs is not none:
            both = {"ignore_headers": [NAME, "x-other"]}
            yield f"two ignored, {n}", both, a1, a2, True, (SEC, SEC2, PUB), ("x-secret", "x-other"), (b,), ()
    yield "no header ignored", {"ignore_headers": FALSE}, a1, a1, (), (), (), (SEC, PUB, b), ("x-secret", "x-other")


def run(ctx):
    ctx.rule("hidden", "no ignored header, by name or value, is part of any value written to a file, hashes included")
    ctx.rule("details", "without request details no header and no body is part of any written value, except below a hash")
    ctx.rule("same", "requests that differ only in ignored headers are answered by the same snapshot")
    ctx.rule("no-real", "(without a real call)")
    ctx.rule("error", "(and without an error)")
    ctx.min_decided = 60
    for kind in ("requests", "httpx", "ahttpx"):
        w = DECOS[kind][0][0]
        for name, kw, a1, a2, ign, everywhere, names, outside, onames in scenarios(kind, ctx.thorough):
            for mode in ("complete", "refresh"):
                inst = f"{kind}: {name}, {mode}"
                n = 0
                for it, k, st, v, rows in history(ctx, [(w, kw)], [Run(mode, a1), Run("replay", a2)], ignored=ign):
                    n += 1
                    if k == CUT:
                        judge(ctx, it, st, kind, inst, everywhere, names, outside, onames, True)
                        continue
                    check(ctx, it, k, st, v, rows, inst, modes=("replay",), rules=("same", "no-real", "error"))
                    judge(ctx, it, st, kind, inst, everywhere, names, outside, onames)
                ctx.scen[inst] = n
        # snapshots that were saved with details are written again without them
        C = lambda *a, **kw: Req(kind, *a, **kw)
        b = BODY[kind]()
        calls = [C(U1, "POST", headers=((NAME, SEC),), body=b)]
        for old in (False, True):
            inst = f"{kind}: details no longer kept{', old form' if old else ''}"
            keep = [(w, {"lose_request_details": FALSE})]
            for it, k, st, v, rows in history(ctx, [(w, {})], [Run("complete", calls, decos=keep), Run("replay", calls, legacy=(w, None) if old else None)]):
                if k == CUT:
                    continue
                check(ctx, it, k, st, v, rows, inst, modes=("replay",), rules=("same", "no-real", "error"))
                log = list(st.fs["log"].items)
                at = max([i for i, e in enumerate(log) if e.items[0] == Const("rm") and e.items[1] == CASES_TXT] or [0])
                s2 = st.fork()
                s2.fs["log"] = TupleV(log[at:])
                judge(ctx, it, s2, kind, inst, (SEC,), (NAME,), (b,), ())


def judge(ctx, it, st, kind, inst, everywhere, names, outside, onames, part=False):
    wh = Where(it, st, Req(kind), None)
    for rule, atoms, nm_, hashes in (("hidden", everywhere, names, True), ("details", outside, onames, False)):
        if not atoms:
            continue
        l = leaks(st, atoms, nm_, hashes)
        if part and not l:
            continue
        ctx.judge(rule, inst, None if l is None else not l, f"{l and l[0][1]} is in {l and l[0][0]}", st, wh)
