"""Cases that declare dependencies and resources (C25, C26, C28, C29)."""
from .cmd import *


def bin_of(name):
    return out_of(name, ".bin")


def put_result(st, name, value):
    put_file(st, bin_of(name), Term("pickled", (value,)))


def dependent(it, st, names, deps, body, is_async=False, resources=(), outer=None, inner=None):
    """[(name, fn)]: case i depends on the cases deps[i] (indices below i)."""
    fns, cases = [], []
    for i, n in enumerate(names):
        f = it.user_fn(st, "case", is_async=is_async, handler=body(n))
        if inner:
            st, f = inner(it, st, i, f)
        args = [fns[j] for j in deps.get(i, ())] + [x for a, x in resources if a == i]
        if args:
            st, d = one(it.call(st, it.glob(st, "booktest", "depends_on"), args, {}))
            st, f = one(it.call(st, d, [f], {}))
        if outer:
            st, f = outer(it, st, i, f)
        fns.append(f)
        cases.append((n, f))
    return st, cases


def env_deco(name):
    """Wrapper applying a booktest environment decorator to a case."""
    def w(it, st, i, f):
        d = it.glob(st, "booktest", name)
        if name == "snapshot_env":
            st, dd = one(it.call(st, d, [Const("V")], {}))
        else:
            st, dd = one(it.call(st, d, [mkdict(st, {"V": Const("x")})], {}))
        return one(it.call(st, dd, [f], {}))
    return w


def closure(deps, selected, stored, refresh):
    """Cases that have to run: what is selected, and what it needs that is not stored."""
    todo, seen = list(selected), []
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.append(i)
        for j in deps.get(i, ()):
            if j in selected or refresh or j not in stored:
                todo.append(j)
    return set(seen)


def needs(deps, running):
    """(i, j): j must have finished before i starts; through cases that run."""
    r = set()

    def walk(i, j):
        for k in deps.get(j, ()):
            if k in running and (i, k) not in r:
                r.add((i, k))
                walk(i, k)
    for i in running:
        walk(i, i)
    return r
