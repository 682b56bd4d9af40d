"""C40: what tset accepts, over unknown items and unknown snapshot lines, and where it leaves the cursor."""
from itertools import product
from .outs import *


class Pol(OutPol):
    while_bound = 12


def equal(it, st, x, y):
    return [(s, e) for k, s, e in it.eq(st, x, y) if k == V]


def feasible(st):
    """No two terms are both equal (through others) and different."""
    up = {}

    def find(x):
        while x in up:
            x = up[x]
        return x
    eqs = [(p.args, b) for p, b in st.facts.items() if type(p) is Term and p.op == "eq"]
    for (x, y), b in eqs:
        if b is True and find(x) != find(y):
            up[find(x)] = find(y)
    return not any(b is False and find(x) == find(y) for (x, y), b in eqs)


def distinct(it, st, xs):
    """States in which the given items are pairwise different."""
    acc = [st]
    for i, x in enumerate(xs):
        for y in xs[:i]:
            acc = [s2 for s in acc for s2, e in equal(it, s, x, y) if not e]
    return acc


def same_set(it, st, xs, ys):
    """[(st, bool)] for two collections of pairwise different items."""
    if len(xs) != len(ys):
        return [(st, False)]
    acc = [(st, True)]
    for x in xs:
        nxt = []
        for s, b in acc:
            if not b:
                nxt.append((s, b))
                continue
            open_ = [s]
            for y in ys:
                rest = []
                for z in open_:
                    for z2, e in equal(it, z, x, y):
                        (nxt.append((z2, True)) if e else rest.append(z2))
                open_ = rest
            nxt += [(z, False) for z in open_]
        acc = nxt
    return acc


def run(ctx):
    ctx.rule("set", "tset of pairwise different items is a difference exactly when they are not the items of the snapshot lines with the "
                    "prefix at the cursor, in any order")
    ctx.rule("after", "the text after a tset is compared with what follows the set in the snapshot")
    ctx.min_decided = 150

    def go(title, parts, script, rule):
        """script: [(call, kind, payload)]; parts: snapshot as [('line', text) | ('set', prefix, items)]"""
        it = ctx.interp(Pol())
        st = it.start()
        text = []
        for p in parts:
            if p[0] == "line":
                text += [p[1], NLT]
            else:
                for x in p[2]:
                    text += [Const(p[1]), x, NLT]
        st.fs["log"] = TupleV((TupleV((Const("w"), SNAP, concat(text) if text else Const(""))),))
        body = body_of([Op(c, f, None) for c, f, _, _ in script])
        outs, _ = run_body(it, st, body)
        for k, s, v in outs:
            if k == CUT:
                ctx.und(rule, title, "cut")
                continue
            if k == X:
                ctx.judge(rule, title, False, f"the run ends with {v!r}", s)
                continue
            got = verdict_name(it, v)
            acc = [s.fork()]
            for p in parts:
                if p[0] == "set":
                    acc = [z for a in acc for z in distinct(it, a, p[2])]
            for _, _, kind, pay in script:
                if kind == "set":
                    acc = [z for a in acc for z in distinct(it, a, pay[1])]
            acc = [(z, False) for z in acc]
            at = 0
            for _, _, kind, pay in script:
                nxt = []
                here = parts[at] if at < len(parts) else None
                for z, d in acc:
                    if d:
                        nxt.append((z, d))
                    elif kind == "line":
                        if here is None or here[0] != "line":
                            # a text of one token never is a line of the set
                            nxt.append((z, True))
                        else:
                            nxt += [(z2, not e) for z2, e in equal(it, z, pay, here[1])]
                    else:
                        if here is not None and here[0] == "set" and here[1] == pay[0]:
                            nxt += [(z2, not e) for z2, e in same_set(it, z, pay[1], here[2])]
                        else:
                            nxt.append((z, bool(pay[1])))
                if kind == "line" or (here is not None and here[0] == "set"):
                    at += 1
                acc = nxt
            for z, d in acc:
                if not feasible(z):
                    continue
                want = "DIFF" if d else "OK"
                ctx.judge(rule, title, got == want, f"verdict {got or v!r}, expected {want}", z, vague=got is None)

    def tset(items, prefix=" * ", how="list"):
        def f(it, s, t):
            xs = mklist(s, items)
            if how == "tuple":
                xs = TupleV(tuple(items))
            if prefix == " * ":
                return call_t(it, s, t, "tset", xs)
            return call_t(it, s, t, "tset", xs, prefix=Const(prefix))
        return (f"tset({len(items)} items{'' if prefix == ' * ' else ', prefix'}{'' if how == 'list' else ', ' + how})", f, "set", (prefix, items))

    def tln(x):
        return ("tln", lambda it, s, t: call_t(it, s, t, "tln", x), "line", x)

    n = 4 if ctx.thorough else 3
    p, q = atom("before"), atom("after")
    for a, b in product(range(n + 1), repeat=2):
        if a == b == n and not ctx.thorough and n > 3:
            continue
        xs = [word(f"I{i}") for i in range(a)]
        ys = [word(f"S{i}") for i in range(b)]
        for pre, post, prefix in product((False, True), (False, True), (" * ", "- ")):
            if prefix == "- " and (not post or a > 2 or b > 2):
                continue
            parts = ([("line", p)] if pre else []) + ([("set", prefix, ys)] if b else []) + ([("line", q)] if post else [])
            script = ([tln(p)] if pre else []) + [tset(xs, prefix, "tuple" if pre else "list")]
            where = f"{'after a line' if pre else 'at the beginning'}, {'followed by a line' if post else 'at the end'} of the snapshot"
            go(f"tset of {a} items against {b}, prefix '{prefix}', {where}", parts, script, "set")
            if post:
                for w, nm in ((q, "same"), (atom("other"), "other"), (word("Z"), "unknown")):
                    go(f"tset of {a} items against {b}, prefix '{prefix}', {where}, then the {nm} line", parts, script + [tln(w)], "after")
    # two sets, with and without a line between
    xs, ys = [word("I0"), word("I1")], [word("S0"), word("S1")]
    zs, ws = [word("J0")], [word("T0")]
    go("two sets", [("set", " * ", ys), ("line", p), ("set", " * ", ws), ("line", q)], [tset(xs), tln(p), tset(zs), tln(q)], "after")
    go("two sets with different prefixes", [("set", " * ", ys), ("set", "- ", ws), ("line", q)], [tset(xs), tset(zs, "- "), tln(q)], "after")
    ctx.scen["sizes"] = (n + 1) ** 2
