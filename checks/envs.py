"""Scenarios of the environment decorators, shared by C14, C24, C18-C20, C30."""
from sa.harness import *
from sa.extmodels import env_find

DECOS = ("snapshot_env", "mock_env", "mock_missing_env")


def env_value(it, st, name):
    """Values of a variable now, as [(st, value)] (NONE: absent)."""
    return env_find(it, st, name)


def mock_value(i):
    return Sym(f"mock{i}", typ=None)


def case_body(it_effect, raises=("UserError",)):
    """Body of a user's case: effect, then returns or raises."""
    def h(it, st, f, a, kw, node):
        outs = []
        for s in it_effect(it, st):
            s2 = s.fork()
            it.event(s, "case", TupleV([x for x in a if isinstance(x, Val)]), node=node)
            it.event(s2, "case", TupleV([x for x in a if isinstance(x, Val)]), node=node)
            outs.append((V, s, Sym("case_result")))
            for e in raises:
                outs.append((X, s2, ExcV(e, (), "case")))
        return outs
    return h


def decorated(it, st, deco, names, values, body, is_async=False):
    """The decorated case: [(st, fn)]."""
    d = it.glob(st, "booktest", deco)
    f = it.user_fn(st, "case", is_async=is_async, handler=body)
    if deco == "snapshot_env":
        outs = it.call(st, d, list(names), {})
    else:
        outs = it.call(st, d, [mkdict(st, list(zip(names, values)))], {})
    st, dd = one(outs)
    return one(it.call(st, dd, [f], {}))
