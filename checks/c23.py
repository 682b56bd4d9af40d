"""C23: the response as captured and as replayed, over kinds of responses."""
from .snap import *
from .c18 import DECOS, CALLS, U1, U2

LINES = Const(b'{"a": 1}\r\n\xc3\xa4')


def responses(kind):
    hs = [("Content-Type", Const("application/json")), ("X-Id", atom("id")), ("ETag", Const('"x"'))]
    yield "plain", {}
    yield "several headers", {"headers": hs}
    yield "no headers", {"headers": []}
    yield "lower-case headers", {"headers": [(k.lower(), v) for k, v in hs]}
    yield "empty body", {"content": Const(b"")}
    yield "constant body", {"content": LINES}
    yield "not found", {"status": Const(404)}
    yield "no content", {"status": Const(204), "content": Const(b""), "headers": []}
    yield "server error", {"status": Const(500), "headers": hs}
    if kind == "requests":
        yield "no encoding", {"encoding": NONE}
        yield "compressed", {"headers": [("Content-Encoding", Const("gzip"))] + hs}
        yield "latin1", {"encoding": Const("ISO-8859-1")}
        yield "encoding as text", {"encoding": Const("utf-8"), "content": LINES}
    else:
        yield "binary body", {"content": Const(b"\x00\xff\xfe\x80")}
        yield "compressed", {"headers": [("Content-Encoding", Const("gzip"))] + hs}
        yield "compressed, lower case", {"headers": [("content-encoding", Const("br")), ("x-a", atom("a"))]}


def values(it, st):
    yield "none", NONE
    yield "zero", Const(0)
    yield "false", FALSE
    yield "empty text", Const("")
    yield "float", Const(1.5)
    yield "text", atom("text")
    x, y = atom("x"), atom("y")
    yield "list", (lambda st: mklist(st, [Const(1), x, NONE]), Term("listv", (Const(1), x, NONE)))
    yield "dictionary", (lambda st: mkdict(st, [(Const("a"), x), (Const("b"), mklist(st, [y, Const(0)]))]),
                         Term("dictv", (TupleV((Const("a"), x)), TupleV((Const("b"), Term("listv", (y, Const(0))))))))


def run(ctx):
    ctx.rule("same", "status, headers with case-insensitive names, content and encoding, or the result, that the replaying run sees are the terms "
                     "the capturing run saw, through saving, accepting and reading, also when saved again by a replay")
    ctx.rule("no-real", "(without a real call)")
    ctx.rule("error", "(and without an error)")
    ctx.min_decided = 60
    for kind in ("requests", "httpx", "ahttpx"):
        w = DECOS[kind][0][0]
        calls = [Req(kind, U1), Req(kind, U2, "POST", body=b"x"), Req(kind, U1)]
        for name, resp in responses(kind):
            for on, kw in (("", {}), (", details kept", {"lose_request_details": FALSE, "ignore_headers": FALSE})):
                for old in (False, True):
                    for utf8 in (True, None) if "content" not in resp else (True,):
                        inst = f"{kind}: {name}{on}{', old form' if old else ''}{'' if utf8 else ', any body'}"
                        pol = SnapPol(resp=resp, utf8=utf8)
                        n = 0
                        runs = [Run("complete", calls), Run("replay", calls, legacy=(w, None) if old else None), Run("replay", calls)]
                        for it, k, st, v, rows in history(ctx, [(w, kw)], runs, pol, ignored=True if not kw else set()):
                            n += 1
                            if k == CUT:
                                continue
                            if utf8 is None and any(f.op == "isutf8" and not b for f, b in st.facts.items()):
                                continue          # such a response cannot be saved
                            check(ctx, it, k, st, v, rows, inst, modes=("replay",), rules=("same", "no-real", "error"))
                        ctx.scen[inst] = n
        for use in ("stream", "close"):
            for kw in ({}, {"stream": TRUE}):
                if kw and kind != "requests":
                    continue
                calls = [Req(kind, U1, use=use, opts=kw.items()), Req(kind, U2), Req(kind, U1, use=use, opts=kw.items())]
                inst = f"{kind}: body taken by {use}{', stream=True' if kw else ''}"
                n = 0
                runs = [Run("complete", calls), Run("replay", calls), Run("replay", calls)]
                for it, k, st, v, rows in history(ctx, [(w, {})], runs, SnapPol()):
                    n += 1
                    if k != CUT:
                        check(ctx, it, k, st, v, rows, inst, rules=("same", "no-real", "error"))
                ctx.scen[inst] = n
        calls = [Req(kind, U1), Req(kind, U2)]
        inst = f"{kind}: a body that cannot be read"
        n = 0
        for it, k, st, v, rows in history(ctx, [(w, {})], [Run("complete", calls), Run("replay", calls), Run("complete", calls)], SnapPol(broken=(0,))):
            n += 1
            if k != CUT:
                check(ctx, it, k, st, v, rows, inst, rules=("same", "no-real", "error"))
        ctx.scen[inst] = n
    it0 = ctx.interp(SnapPol())
    for name, x in values(it0, None):
        calls = CALLS["functions"]
        inst = f"functions: {name}"
        n = 0
        for it, k, st, v, rows in history(ctx, DECOS["functions"], [Run("complete", calls), Run("replay", calls), Run("replay", calls)], SnapPol(resp={"value": x[0], "expect": x[1]} if type(x) is tuple else {"value": x})):
            n += 1
            if k == CUT:
                continue
            check(ctx, it, k, st, v, rows, inst, modes=("replay",), rules=("same", "no-real", "error"))
        ctx.scen[inst] = n

