"""C14: environment variables are given back exactly."""
from sa.harness import *
from .envs import *


class Pol(LeanFs, Policy):
    kinds = {"case"}
    card = (0, 1, 2)

    def json_content(self, it, st, text):
        """a stored environment snapshot is some mapping of names to text or null"""
        return [(V, st, st.alloc(DictO(base=Term("jsonload", (text,)))))]


def run(ctx):
    ctx.rule("restored", "on every way out of a decorated case, every named variable's abstract value equals its value on entry")
    ctx.min_decided = 12
    A, B = atom("VAR_A"), atom("VAR_B")
    scen = []
    for deco in DECOS:
        scen.append((deco, "two variables", [A, B], [Sym("mockA"), Sym("mockB")]))
        scen.append((deco, "absent value first", [A, B], [NONE, Const("x")]))
        scen.append((deco, "absent value last", [A, B], [Const("x"), NONE]))
    scen.append(("snapshot_env", "same variable twice", [A, A], [NONE, NONE]))
    for deco, title, names, values in scen:
        for raises in (True, False):
            for effect in ("none", "set", "delete"):
                if deco == "snapshot_env" and values[0] == NONE and title != "same variable twice":
                    continue
                pol = Pol()
                pol.stubs = quiet_output(raises=("OutputError",) if effect == "none" else (), event=False)
                it = ctx.interp(pol)
                st = it.start()

                def eff(it, s, names=names, effect=effect):
                    if effect == "set":
                        for n in names:
                            s.env[n] = Sym("user_set_" + n.name, typ="str")
                        return [s]
                    if effect == "delete":
                        for n in names:
                            s.env[n] = NONE
                        return [s]
                    return [s]
                st, fn = decorated(it, st, deco, names, values, case_body(eff, ("UserError",) if raises else ()))
                cfg = config(st, refresh_snapshots=bsym("refresh"), complete_snapshots=bsym("complete"))
                n = 0
                for s, t in case_run(it, st, cfg):
                    for k, s2, v in run_case(it, s, fn, [t]):
                        if k == CUT:
                            continue
                        n += 1
                        for name in names:
                            for s3, val in env_value(it, s2.fork(), name):
                                good = val == Term("env0", (name,))
                                if val == NONE and s3.facts.get(Term("isnone", (Term("env0", (name,)),))) is True:
                                    good = True
                                ctx.judge("restored", f"{deco}, {title}, case {'raises' if k == X else 'returns'}, case effect {effect}",
                                          good, f"after the case {name!r} is {val!r} instead of its value on entry"
                                          + (f" (way out: {v!r})" if k == X else ""), s3, vague=is_vague(val))
                ctx.scen[f"{deco}/{title}/{effect}/{raises}"] = n
