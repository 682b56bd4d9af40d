"""C22: which calls share a snapshot: pairs that differ in one input, repetitions, custom encoders and hashes."""
from .snap import *
from .c18 import DECOS, U1, U2


def requests_pairs(kind):
    """(input, options, a, b): requests that differ in one input that counts."""
    C = lambda *a, **kw: Req(kind, *a, **kw)
    X, Y = atom("x"), atom("y")
    bx, by = atom("bx", typ="bytes"), atom("by", typ="bytes")
    for on, kw in (("", {}), (" (details kept)", {"lose_request_details": FALSE}), (" (one header ignored)", {"ignore_headers": ["Date"]})):
        yield "url" + on, kw, C(U1), C(U2)
        yield "query" + on, kw, C(U1 + "?a=1"), C(U1 + "?a=2")
        yield "method" + on, kw, C(U1, "GET"), C(U1, "HEAD")
        yield "body" + on, kw, C(U1, "POST", body=bx), C(U1, "POST", body=by)
        yield "constant body" + on, kw, C(U1, "POST", body=b"one"), C(U1, "POST", body=b"onf")
        yield "no body" + on, kw, C(U1, "POST", body=b"one"), C(U1, "POST")
        if kind == "requests":
            yield "text body" + on, kw, C(U1, "POST", body="one"), C(U1, "POST", body="two")
            yield "empty body" + on, kw, C(U1, "POST", body=b""), C(U1, "POST")
    for on, kw in ((" (no header ignored)", {"ignore_headers": FALSE}), (" (another header ignored)", {"ignore_headers": ["Date"]}),
                   (" (another header ignored, details kept)", {"ignore_headers": ["DATE"], "lose_request_details": FALSE})):
        d = (("Date", atom("d")),)
        yield "header value" + on, kw, C(U1, headers=(("X-A", X),) + d), C(U1, headers=(("X-A", Y),) + d)
        yield "header name" + on, kw, C(U1, headers=(("X-A", X),) + d), C(U1, headers=(("X-B", X),) + d)
        yield "more headers" + on, kw, C(U1, headers=(("X-A", X),) + d), C(U1, headers=(("X-A", X), ("X-B", Y)) + d)
        yield "no headers" + on, kw, C(U1, headers=(("X-A", X),) + d), C(U1, headers=d)
        yield "header and body swapped" + on, kw, C(U1, headers=(("X-A", Const("1")),) + d, body=b"2"), C(U1, headers=(("X-A", Const("2")),) + d, body=b"1")


def function_pairs():
    X, Y = atom("x"), atom("y")
    yield "name", Fn("f", 1), Fn("g", 1)
    yield "name of a method", Fn("f", 1), Fn("m", 1)
    yield "argument", Fn("f", X), Fn("f", Y)
    yield "second argument", Fn("f", 1, X), Fn("f", 1, Y)
    yield "order of arguments", Fn("f", X, Y), Fn("f", Y, X)
    yield "more arguments", Fn("f", X), Fn("f", X, Y)
    yield "no argument", Fn("f"), Fn("f", NONE)
    yield "type of argument", Fn("f", 1), Fn("f", "1")
    yield "zero and false", Fn("f", 0), Fn("f", False)
    yield "empty text and none", Fn("f", ""), Fn("f", None)
    yield "keyword value", Fn("f", a=X), Fn("f", a=Y)
    yield "second keyword value", Fn("f", a=1, b=X), Fn("f", a=1, b=Y)
    yield "keyword name", Fn("f", a=X), Fn("f", b=X)
    yield "more keywords", Fn("f", a=X), Fn("f", a=X, b=Y)
    yield "values of keywords swapped", Fn("f", a=X, b=Y), Fn("f", a=Y, b=X)
    yield "keyword instead of argument", Fn("f", X), Fn("f", a=X)
    yield "argument and keyword swapped", Fn("f", X, a=Y), Fn("f", Y, a=X)


RULES = ("own", "no-real", "error")


def enc_hook(kind, out):
    """encode_body: what it was called with is recorded; gives out(body)."""
    def h(it, st, a, kw, node):
        it.event(st, "hook", Const("encode"), TupleV(a), node=node)
        return [(V, st, out(a[0]))]
    return HookV("encode_body", h)


def hash_hook(keys):
    """json_to_hash: a code made from some parts of the request only."""
    def h(it, st, a, kw, node):
        d = {k.v: v for k, v in st.heap[a[0].oid].items if type(k) is Const} if type(a[0]) is Ref and st.heap[a[0].oid].kind == "dict" else {}
        it.event(st, "hook", Const("hash"), Const(d.get("order", Const(0)).v if type(d.get("order", Const(0))) is Const else "?"), node=node)
        return [(V, st, Term("hexdigest", (Const("custom"),) + tuple(d.get(k, Const("none")) for k in keys)))]
    return HookV("json_to_hash", h)


def run(ctx):
    ctx.rule("own", "each of two calls that differ in one input is answered with its own response, repetitions and custom hashes included")
    ctx.rule("error", "when only one of them is stored, the other one raises")
    ctx.rule("no-real", "(without a real call)")
    ctx.rule("hook", "a custom body encoder is given the body, url and method of every request with a body, and a custom hash function makes every code")
    ctx.min_decided = 100
    for kind in ("requests", "httpx", "ahttpx"):
        w = DECOS[kind][0][0]
        for name, kw, a, b in requests_pairs(kind):
            ig = kw.get("ignore_headers", TRUE)
            ign = True if ig == TRUE else set() if ig == FALSE else set(ig)
            for r in pair_runs(a, b, ctx.thorough):
                histo(ctx, f"{kind}: {name}", [(w, kw)], r, ign)
        C = lambda *a, **k: Req(kind, *a, **k)
        # repetitions
        for m in (2, 3, 4):
            rep = [C(U1, "POST", body=b"x")] * m
            mixed = [c for x in rep for c in (x, C(U2))]
            for kw in ({}, {"lose_request_details": FALSE, "ignore_headers": FALSE}):
                histo(ctx, f"{kind}: {m} times, {len(kw)} options", [(w, kw)], [Run("complete", rep), Run("replay", rep), Run("replay", rep)], True if not kw else set())
                histo(ctx, f"{kind}: {m} times, mixed, {len(kw)} options", [(w, kw)], [Run("complete", mixed), Run("replay", mixed)], True if not kw else set())
            histo(ctx, f"{kind}: {m} times, one less stored", [(w, {})], [Run("complete", rep[1:]), Run("replay", rep)], True)
        # custom body encoder
        ba, bb = atom("ba", typ="bytes"), atom("bb", typ="bytes")
        for name, out, same_ in (("that drops the body", lambda b: Const("-"), True), ("that keeps it", lambda b: Term("decode", (b,)), False)):
            kw = {"encode_body": enc_hook(kind, out)}
            ident = (lambda c: (c.url, c.method, c.body is None)) if same_ else (lambda c: (c.url, c.method, c.body))
            for calls, again in (([C(U1, "POST", body=ba)], [C(U1, "POST", body=bb)]), ([C(U1, "POST", body=ba)] * 3, [C(U1, "POST", body=bb)] * 3),
                                 ([C(U1, "POST", body=ba), C(U1, "PUT", body=ba)], [C(U1, "PUT", body=bb), C(U1, "POST", body=bb)])):
                for it, k, st, v, rows in histo(ctx, f"{kind}: encoder {name}, {len(calls)} calls", [(w, kw)], [Run("complete", calls), Run("replay", again), Run("replay", calls)], ident):
                    for i, r in enumerate((calls, again, calls)):
                        got = [e.args[1].items for e in of_run(st, i, "hook")]
                        for c in r:
                            good = any(g[0] == c.body and text(it, st, g[1]) == Const(c.url) and text(it, st, g[2]) == Const(c.method) for g in map(list, got) if len(g) == 3)
                            ctx.judge("hook", f"{kind}: encoder {name}, {len(calls)} calls", good, f"the body of {c} in run {i + 1} is not given to the encoder", st, Where(it, st, c, None))
        # custom hash
        for name, keys, key in (("of url and order", ("url", "order"), lambda c: c.url), ("of method and order", ("method", "order"), lambda c: c.method),
                                ("of everything", ("url", "method", "body", "order"), lambda c: (c.url, c.method, c.body))):
            kw = {"json_to_hash": hash_hook(keys)}
            for cname, calls in (("different", [C(U1), C(U2, "POST", body=b"a")]), ("three times", [C(U1)] * 3), ("alike", [C(U1), C(U1, "POST", body=b"a"), C(U2), C(U2, "POST", body=b"b")])):
                inst = f"{kind}: hash {name}, {cname}"
                for it, k, st, v, rows in histo(ctx, inst, [(w, kw)], [Run("complete", calls), Run("replay", calls), Run("replay", calls)], key):
                    left = [x for e in st.fs["log"].items if e.items[0] == Const("w") for x in hashes(st, e.items[2])]
                    ctx.judge("hook", inst, not left, f"a saved identity is not made by the custom hash function: {left and left[0]}", st, Where(it, st, calls[0], None))
    for name, a, b in function_pairs():
        for r in pair_runs(a, b, ctx.thorough):
            histo(ctx, f"functions: {name}", DECOS["functions"], r, True)


def text(it, st, v):
    return one(it.to_str(st, v))[1] if not type(v) is Const else v


def hashes(st, v):
    if type(v) is Ref:
        return [y for x in st.heap[v.oid].items for y in hashes(st, x)]
    if type(v) is Term:
        return [v] if v.op == "hexdigest" and v.args[0] != Const("custom") else [] if v.op == "hexdigest" else [y for x in v.args if isinstance(x, Val) for y in hashes(st, x)]
    return [y for x in v.items for y in hashes(st, x)] if type(v) is TupleV else []


def pair_runs(a, b, thorough):
    yield [Run("complete", [a]), Run("replay", [b])]
    yield [Run("complete", [b]), Run("replay", [a])]
    yield [Run("complete", [a, b]), Run("replay", [b, a])]
    yield [Run("complete", [a]), Run("complete", [b, a]), Run("replay", [a, b])]
    if thorough:
        yield [Run("refresh", [a, b]), Run("replay", [a, b]), Run("replay", [b])]


def histo(ctx, inst, decos, runs, ign):
    n, r = ctx.scen.get(inst, 0), []
    for it, k, st, v, rows in history(ctx, decos, runs, ignored=ign):
        n += 1
        if k == CUT:
            continue
        check(ctx, it, k, st, v, rows, inst, rules=RULES)
        r.append((it, k, st, v, rows))
    ctx.scen[inst] = n
    return r
