"""C18: replay, over histories of runs with every kind of snapshot."""
from .snap import *

R, H, A = (lambda k: lambda *a, **kw: Req(k, *a, **kw))("requests"), (lambda k: lambda *a, **kw: Req(k, *a, **kw))("httpx"), (lambda k: lambda *a, **kw: Req(k, *a, **kw))("ahttpx")
U1, U2 = "http://h/a", "http://h/b"
DECOS = {"functions": [("functions", {})], "requests": [("requests", {})], "httpx": [("httpx", {})], "ahttpx": [("httpx", {})],
         "env": [("env", {"names": ["VAR_A", "VAR_B", "VAR_C", "VAR_D"]})]}
CALLS = {"functions": [Fn("f", 1), Fn("g", 2, x=3), Fn("m", "a")],
         "requests": [R(U1), R(U2, "POST", body=b"one"), R(U1)],
         "httpx": [H(U1), H(U2, "POST", body=b"one"), H(U1)],
         "ahttpx": [A(U1), H(U2, "POST", body=b"one"), A(U1)],
         "env": [Env("VAR_A"), Env("VAR_B"), Env("VAR_C"), Env("VAR_D")]}
OTHER = {"functions": [Fn("f", 2), Fn("f", 1, x=1), Fn("f"), Fn("g", 1), Fn("g", 2), Fn("g", 2, x=4), Fn("h", 1)],
         "requests": [R(U1, "POST"), R(U2, "POST", body=b"two"), R(U2, "POST"), R("http://h/a?x"), R(U1, body=b"")],
         "httpx": [H(U1, "POST"), H(U2, "POST", body=b"two"), H("http://h/a?x")],
         "ahttpx": [A(U1, "POST"), A(U2, "POST", body=b"two"), A("http://h/a?x")],
         "env": []}


def scenarios(thorough):
    for k, cs in CALLS.items():
        d = DECOS[k]
        yield f"{k}: nothing stored", d, [Run("replay", cs)]
        yield f"{k}: all stored", d, [Run("complete", cs), Run("replay", cs), Run("replay", cs)]
        yield f"{k}: other order", d, [Run("refresh", cs), Run("replay", list(reversed(cs)))]
        yield f"{k}: the capture is not accepted", d, [Run("complete", cs, accept=False), Run("replay", cs)]
        yield f"{k}: the case failed", d, [Run("complete", cs, end="fail"), Run("replay", cs)]
        if k not in ("functions", "env"):
            w = d[0][0]
            for ix in (None, (0,), (1, 2)):
                yield f"{k}: {ix or 'all'} in the old form", d, [Run("complete", cs), Run("replay", cs, legacy=(w, ix))]
            yield f"{k}: some in the old form, some missing", d, [Run("complete", cs[:2]), Run("replay", cs, legacy=(w, (0,)))]
        for c in OTHER[k]:
            yield f"{k}: {c} instead", d, [Run("complete", cs), Run("replay", [c] + cs)]
        if k != "env":
            yield f"{k}: part stored", d, [Run("complete", cs[:1]), Run("replay", cs)]
            yield f"{k}: once more", d, [Run("complete", cs[:2]), Run("replay", cs[:2] + cs[:1] if k == "functions" else cs[:2] + cs[:2])]
    both = DECOS["requests"] + DECOS["httpx"] + DECOS["functions"] + DECOS["env"]
    allc = CALLS["requests"][:1] + CALLS["ahttpx"][:2] + CALLS["functions"][:1] + CALLS["env"]
    for d in ([both, list(reversed(both))] if thorough else [both]):
        yield f"{'/'.join(w for w, _ in d)}: all stored", d, [Run("complete", allc), Run("replay", allc)]
        yield f"{'/'.join(w for w, _ in d)}: part stored", d, [Run("complete", allc[1:2] + allc[4:]), Run("replay", allc)]


def run(ctx):
    ctx.rule("no-real", "on every path of a run that replays, no real function, adapter or transport is reached, whatever is stored")
    ctx.rule("answer", "a call with a stored snapshot gets the stored response of just that call")
    ctx.rule("error", "a call or variable without a stored snapshot raises")
    ctx.min_decided = 60
    for inst, d, runs in scenarios(ctx.thorough):
        n = 0
        for is_async in (False, True) if ctx.thorough or ": part stored" in inst else (False,):
            for it, k, st, v, rows in history(ctx, d, runs, is_async=is_async):
                n += 1
                if k == CUT:
                    continue
                check(ctx, it, k, st, v, rows, inst, modes=("replay",), rules=("answer", "no-real", "error"))
        ctx.scen[inst] = n
