"""Model of argparse: what a parser built by the program makes of given arguments."""
from .values import *
from .state import *
from .engine import V, X
from .extmodels import model, ret, kwget


@model("argparse.ArgumentParser")
def m_parser(it, st, a, kw, node):
    st, l = st, st.alloc(ListO([]))
    return ret(st, st.alloc(ExtO("argparse.ArgumentParser", (), {"_actions": l, "_defaults": st.alloc(DictO([]))})))


@model("argparse.ArgumentParser.add_argument_group", "argparse.ArgumentParser.add_mutually_exclusive_group")
def m_group(it, st, a, kw, node):
    return ret(st, a[0])


@model("argparse.ArgumentParser.set_defaults")
def m_setdef(it, st, a, kw, node):
    d = st.heap[a[0].oid].attrs["_defaults"]
    for k, v in kw.items():
        o = st.mut(d)
        o.items = [(x, y) for x, y in o.items if x != Const(k)] + [(Const(k), v)]
    return ret(st)


@model("argparse.ArgumentParser.print_help", "argparse.ArgumentParser.print_usage", "argcomplete.autocomplete")
def m_help(it, st, a, kw, node):
    return ret(st)


@model("argparse.ArgumentParser.error", "argparse.ArgumentParser.exit")
def m_error(it, st, a, kw, node):
    return it.exc(st, "SystemExit", Const(2), node=node)


@model("argparse.ArgumentParser.add_argument")
def m_add(it, st, a, kw, node):
    l = st.heap[a[0].oid].attrs["_actions"]
    act = st.alloc(ExtO("argparse.Action", tuple(a[1:]), dict(kw)))
    st.mut(l).items.append(act)
    return ret(st, act)


def cval(v, d=None):
    return v.v if type(v) is Const else d


def dest_of(o):
    if "dest" in o.attrs:
        return o.attrs["dest"].v
    names = [cval(x) for x in o.args]
    if any(n is None for n in names):
        return None
    long = [n for n in names if n.startswith("--")]
    n = (long or names)[0]
    return n.lstrip("-").replace("-", "_")


@model("argparse.ArgumentParser.parse_args")
def m_parse(it, st, a, kw, node):
    p = st.heap[a[0].oid]
    args = a[1] if len(a) > 1 else kw.get("args", NONE)
    if args == NONE:
        args = st.ext.get("sys.argv", NONE)
    acts = [st.heap[x.oid] for x in st.heap[p.attrs["_actions"].oid].items]
    r = []
    for k, s, items in (it.iterate(st, args, node) if args != NONE else [(V, st, [])]):
        if k != V:
            r.append((k, s, items))
            continue
        r += parse(it, s, p, acts, list(items), node)
    return r


def parse(it, st, p, acts, items, node):
    opts, pos, vals = {}, [], {}
    for o in acts:
        names = [cval(x) for x in o.args]
        d = dest_of(o)
        if d is None or any(n is None for n in names):
            it.unmodelled["argparse"] = 1
            return [(V, st, fresh("namespace", vague=True))]
        kind = cval(o.attrs.get("action", Const("store")))
        if names and names[0].startswith("-"):
            for n in names:
                opts[n] = (o, d, kind)
            dflt = o.attrs.get("default")
            if dflt is None:
                dflt = FALSE if kind == "store_true" else TRUE if kind == "store_false" else NONE
            if d not in vals:
                vals[d] = dflt
            if kind not in ("store", "store_true", "store_false", "store_const"):
                it.unmodelled["argparse action"] = 1
                return [(V, st, fresh("namespace", vague=True))]
        else:
            pos.append((o, d))
    for x, y in st.heap[p.attrs["_defaults"].oid].items:
        vals[x.v] = y
    rest, i, conv = [], 0, []
    while i < len(items):
        v = items[i]
        t = cval(v)
        i += 1
        if not (isinstance(t, str) and t.startswith("-") and len(t) > 1):
            rest.append(v)
            continue
        val = None
        if t not in opts and "=" in t and t.split("=", 1)[0] in opts:
            t, e = t.split("=", 1)
            val = Const(e)
        if t not in opts:
            return it.exc(st, "SystemExit", Const(2), node=node)
        o, d, kind = opts[t]
        if kind == "store_true":
            vals[d] = TRUE
        elif kind == "store_false":
            vals[d] = FALSE
        elif kind == "store_const":
            vals[d] = o.attrs.get("const", NONE)
        else:
            if val is None:
                if i >= len(items):
                    return it.exc(st, "SystemExit", Const(2), node=node)
                val = items[i]
                i += 1
            ty = o.attrs.get("type")
            if ty is not None:
                conv.append((d, ty, val))
            vals[d] = val
    outs = [(V, st, NONE)]
    for d, ty, val in conv:
        def f(s, _, d=d, ty=ty, val=val):
            rr = []
            for k, s2, x in it.call(s, ty, [val], {}, node):
                if k == X:
                    x = ExcV("SystemExit", (Const(2),), it.loc(s2, node))
                else:
                    vals[d] = x
                rr.append((k, s2, x))
            return rr
        outs = it.bind(outs, f)
    if len(pos) > 1:
        it.unmodelled["argparse positionals"] = 1
        return [(V, st, fresh("namespace", vague=True))]
    for o, d in pos:
        nargs = cval(o.attrs.get("nargs", NONE))
        ch = o.attrs.get("choices")
        if nargs in ("*", "+"):
            if rest:
                def g(s, _, ch=ch, d=d):
                    ss = [(V, s, True)]
                    for x in (rest if ch is not None else []):
                        nxt = []
                        for k, s2, b in ss:
                            nxt += [(k3, s3, b and b3) if k3 == V else (k3, s3, b3) for k3, s3, b3 in it.contains(s2, ch, x, node)]
                        ss = [z for z in nxt]
                    rr = []
                    for k, s2, b in ss:
                        if k == V and not b:
                            rr += it.exc(s2, "SystemExit", Const(2), node=node)
                        elif k == V:
                            rr.append((V, s2, s2.alloc(ListO(list(rest)))))
                        else:
                            rr.append((k, s2, b))
                    return rr
                outs = it.bind(outs, g)
            else:
                if nargs == "+":
                    return it.exc(st, "SystemExit", Const(2), node=node)
                dv = o.attrs.get("default")
                outs = it.bind(outs, lambda s, _, dv=dv: [(V, s, dv if dv is not None else s.alloc(ListO([])))])
        else:
            it.unmodelled["argparse nargs"] = 1
            return [(V, st, fresh("namespace", vague=True))]
    if not pos and rest:
        return it.exc(st, "SystemExit", Const(2), node=node)
    r = []
    for k, s, v in outs:
        if k != V:
            r.append((k, s, v))
            continue
        at = dict(vals)
        for o, d in pos:
            at[d] = v
        r.append((V, s, s.alloc(ExtO("argparse.Namespace", (), at))))
    return r


@model("argparse.Namespace")
def m_ns(it, st, a, kw, node):
    return ret(st, st.alloc(ExtO("argparse.Namespace", (), dict(kw))))
