"""C20: what is saved is what replay reads, over histories of capturing, accepting and replaying runs."""
from itertools import combinations
from .snap import *
from .c18 import DECOS, CALLS, R, H, A, U1, U2

DETAILS = {"lose_request_details": FALSE, "ignore_headers": FALSE}


def scenarios(thorough):
    """(name, decorators, runs, ignored, policy)"""
    for k, cs in CALLS.items():
        d = DECOS[k]
        for m in ("complete", "refresh"):
            yield f"{k}: {m}", d, [Run(m, cs), Run("replay", cs)], True, {}
            yield f"{k}: {m}, {m}, replay", d, [Run(m, cs), Run(m, cs), Run("replay", cs)], True, {}
            if k != "env":
                for sub in combinations(range(len(cs)), 1 if not thorough else 2):
                    part = [cs[i] for i in sub]
                    yield f"{k}: {m} with {sub} stored", d, [Run("complete", part), Run(m, cs), Run("replay", cs)], True, {}
                    yield f"{k}: {m} with {sub} stored, reversed", d, [Run("complete", part), Run(m, cs[::-1]), Run("replay", cs)], True, {}
                for j in range(len(cs)):
                    yield f"{k}: {m}, real call {j + 1} fails", d, [Run(m, cs), Run("replay", cs)], True, {"fails": (j,)}
        yield f"{k}: replay, accept, replay", d, [Run("complete", cs), Run("replay", cs), Run("replay", cs)], True, {}
        yield f"{k}: no call", d, [Run("complete", []), Run("replay", [])], True, {}
    for k in ("requests", "httpx", "ahttpx"):
        w = DECOS[k][0][0]
        cs = CALLS[k]
        for ix in (None, (0,), (1, 2)):
            yield f"{k}: {ix or 'all'} in the old form", DECOS[k], [Run("complete", cs), Run("replay", cs, legacy=(w, ix)), Run("replay", cs)], True, {}
            yield f"{k}: completed from {ix or 'all'} in the old form", DECOS[k], \
                [Run("complete", cs), Run("complete", cs, legacy=(w, ix)), Run("replay", cs)], True, {}
        C = lambda *a, **kw: Req(k, *a, **kw)
        hs = (("X-Key", "abc"), ("Accept", "*/*"))
        cs = [C(U1, headers=hs), C(U1, "POST", headers=hs, body=b"data"), C(U1, headers=(("X-Key", "def"),)), C(U1, headers=hs)]
        for name, kw, ign in (("all details kept", DETAILS, ()), ("no header ignored", {"ignore_headers": FALSE}, ()),
                              ("one header ignored", {"ignore_headers": ["x-KEY"]}, ("x-key",)),
                              ("details kept, one header ignored", {"ignore_headers": ["x-KEY"], "lose_request_details": FALSE}, ("x-key",)),
                              ("details kept, headers ignored", {"lose_request_details": FALSE}, True)):
            yield f"{k}: {name}", [(w, kw)], [Run("complete", cs), Run("replay", cs), Run("replay", cs)], ign, {}
            yield f"{k}: {name}, completed in two runs", [(w, kw)], [Run("complete", cs[:1]), Run("complete", cs), Run("replay", cs)], ign, {}
        yield f"{k}: the same request four times", DECOS[k], [Run("complete", cs[:1] * 4), Run("replay", cs[:1] * 4), Run("replay", cs[:1] * 4)], True, {}
        yield f"{k}: repetitions completed", DECOS[k], [Run("complete", cs[:1] * 2), Run("complete", cs[:1] * 4), Run("replay", cs[:1] * 4)], True, {}
        yield f"{k}: text body", DECOS[k], [Run("complete", [C(U1, "POST", body="text" if k == "requests" else b"text")])] * 1 + \
            [Run("replay", [C(U1, "POST", body="text" if k == "requests" else b"text")])], True, {}
    mix = [A(U1), H(U1), A(U1)]
    yield "httpx: sync and async", DECOS["httpx"], [Run("complete", mix), Run("replay", mix)], True, {}
    parts = {k: DECOS[k] for k in ("requests", "httpx", "functions", "env")}
    for r in ((2, 4) if not thorough else (2, 3, 4)):
        for ks in combinations(parts, r):
            for order in (ks, ks[::-1]):
                d = [x for k in order for x in parts[k]]
                cs = [c for k in order for c in CALLS[k][:2]]
                yield f"{'/'.join(order)}: complete", d, [Run("complete", cs), Run("replay", cs)], True, {}
    f1, f2 = [("functions", {"funcs": ("f",)}), ("functions", {"funcs": ("g", "m")})], [Fn("f", 1), Fn("g", 2), Fn("m", 3), Fn("f", 2)]
    yield "functions/functions: complete", f1, [Run("complete", f2), Run("replay", f2)], True, {}


def run(ctx):
    ctx.rule("replayed", "after a capturing run was accepted, every call and variable it used is answered with the response that run saw, "
                         "on every path, and again after that replay was accepted")
    ctx.rule("no-real", "none of them is taken from the real world again")
    ctx.rule("error", "a call whose real call failed is not stored")
    ctx.min_decided = 60
    for inst, d, runs, ign, kw in scenarios(ctx.thorough):
        n = 0
        for it, k, st, v, rows in history(ctx, d, runs, SnapPol(**kw), ignored=ign):
            n += 1
            if k == CUT:
                continue
            check(ctx, it, k, st, v, rows, inst, modes=("replay",), rules=("replayed", "no-real", "error"))
        ctx.scen[inst] = n
