"""C19: completing and refreshing, over histories of runs with every kind of snapshot."""
from .snap import *
from .c18 import DECOS, CALLS, R, H, A, U1, U2

OPTS = (("timeout", 5), ("verify", False), ("stream", True), ("proxies", None))


def scenarios(thorough):
    for k, cs in CALLS.items():
        d = DECOS[k]
        for m in ("complete", "refresh", "both"):
            yield f"{k}: {m}, nothing stored", d, [Run(m, cs)]
            yield f"{k}: {m}, all stored", d, [Run("complete", cs), Run(m, cs)]
            yield f"{k}: {m}, refreshed before", d, [Run("refresh", cs), Run(m, cs), Run("replay", cs)]
            if k != "env":
                yield f"{k}: {m}, first stored", d, [Run("complete", cs[:1]), Run(m, cs)]
                yield f"{k}: {m}, first stored, other order", d, [Run("complete", cs[:1]), Run(m, list(reversed(cs)))]
                yield f"{k}: {m}, middle stored", d, [Run("complete", cs[1:2]), Run(m, cs)]
            yield f"{k}: {m} after a capture that was not accepted", d, [Run("complete", cs, accept=False), Run(m, cs)]
            yield f"{k}: {m} twice without accepting", d, [Run("complete", cs), Run(m, cs, accept=False), Run("complete", cs)]
            if k in ("requests", "httpx", "ahttpx"):
                rep = [cs[0]] * 3
                yield f"{k}: {m}, repeated, two stored", d, [Run("complete", rep[:2]), Run(m, rep)]
            if k in ("requests", "httpx", "ahttpx"):
                w = DECOS[k][0][0]
                for ix in (None, (0,), (1, 2)):
                    yield f"{k}: {m}, {ix or 'all'} in the old form", d, [Run("complete", cs), Run(m, cs, legacy=(w, ix)), Run("replay", cs)]
                yield f"{k}: {m}, some in the old form, some missing", d, [Run("complete", cs[:2]), Run(m, cs, legacy=(w, (0,)))]
    for m in ("complete", "refresh"):
        yield f"requests: {m}, options", DECOS["requests"], [Run("complete", [R(U2)]), Run(m, [R(U1, opts=OPTS), R(U2, opts=OPTS)])]
    two = [("env", {"names": ["VAR_A"]})], [("env", {"names": ["VAR_A", "VAR_B"]})]
    both = DECOS["requests"] + DECOS["httpx"] + DECOS["functions"] + DECOS["env"]
    allc = CALLS["requests"][:1] + CALLS["ahttpx"][:2] + CALLS["functions"][:1] + CALLS["env"]
    for m in ("complete", "refresh"):
        for d in ([both, list(reversed(both))] if thorough else [both]):
            yield f"{'/'.join(w for w, _ in d)}: {m}, all stored", d, [Run("complete", allc), Run(m, allc)]
            yield f"{'/'.join(w for w, _ in d)}: {m}, part stored", d, [Run("complete", allc[1:2] + allc[4:]), Run(m, allc)]


def run(ctx):
    ctx.rule("real", "on every path of a capturing run a call reaches the real function, adapter or transport exactly once, with the caller's "
                     "options, if it is not stored or everything is refreshed, and not at all otherwise")
    ctx.rule("answer", "it gets the stored response, or else the real one; an environment variable its stored or else its real value")
    ctx.rule("error", "(never an error for a missing snapshot)")
    ctx.min_decided = 60
    for inst, d, runs in scenarios(ctx.thorough):
        n = 0
        for is_async in (False, True) if ctx.thorough else (False,):
            for it, k, st, v, rows in history(ctx, d, runs, is_async=is_async):
                n += 1
                if k == CUT:
                    continue
                check(ctx, it, k, st, v, rows, inst, modes=("complete", "refresh", "both"), rules=("answer", "real", "error"))
        ctx.scen[inst] = n
