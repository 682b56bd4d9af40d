"""Parallel runs: the scheduler thread and the worker pool as an environment.

The real main function, scheduler thread function and job callable are interpreted.  The
thread runs either when it is started or when the main thread first waits; while it polls
it may be suspended for good, so that the main thread goes on with what was delivered so
far.  A job runs in a copy of the heap (another process): only its files and events remain.
Each poll of a job may find it finished or not (bounded)."""
from .suite import *


class ParPol(SuitePol):
    kinds = {"case", "answer", "submit", "ready", "report", "died", "hang", "worker", "lost", "joined"}
    while_bound = 8
    max_depth = 90

    def __init__(self, snaps=None, answers=("c",), worker="run", damage=("none",), polls=1, suspend=False, lazy=(False,)):
        SuitePol.__init__(self, snaps, answers)
        self.worker, self.damage, self.polls, self.susp, self.lazy = worker, damage, polls, suspend, lazy
        if suspend == "anywhere":
            self.preempt = self.suspend_here
        self.ext.update({
            "threading.Lock.__enter__": self.lock,
            "threading.Lock.acquire": self.lock,
            "threading.Lock.__exit__": self.unlock,
            "threading.Lock.release": self.unlock,
            "threading.RLock.__enter__": self.lock,
            "threading.RLock.acquire": self.lock,
            "threading.RLock.__exit__": self.unlock,
            "threading.RLock.release": self.unlock,
            "multiprocessing.get_context": lambda it, st, a, kw, node: [(V, st, ExtV("multiprocessing"))],
            "multiprocessing.Pool": self.pool,
            "multiprocessing.pool.Pool": self.pool,
            "mp.Pool.__enter__": lambda it, st, a, kw, node: [(V, st, a[0])],
            "mp.Pool.apply_async": self.apply_async,
            "mp.Pool.close": lambda it, st, a, kw, node: [(V, st, NONE)],
            "mp.Pool.join": lambda it, st, a, kw, node: [(V, st, NONE)],
            "mp.Pool.terminate": lambda it, st, a, kw, node: [(V, st, NONE)],
            "mp.Pool.__exit__": lambda it, st, a, kw, node: [(V, st, NONE)],
            "mp.Async.ready": self.ready,
            "mp.Async.get": lambda it, st, a, kw, node: [(V, st, fresh("rc", typ="int"))],
            "mp.Async.successful": lambda it, st, a, kw, node: [(V, st, TRUE)],
            "mp.Async.wait": lambda it, st, a, kw, node: [(V, st, NONE)],
            "threading.Thread": self.thread,
            "mp.Thread.start": self.start,
            "mp.Thread.join": self.join,
            "mp.Thread.is_alive": lambda it, st, a, kw, node: [(V, st, Const(st.ext.get("thread") == Const("suspended")))],
            "time.sleep": self.sleep,
        })

    def pool(self, it, st, a, kw, node):
        return [(V, st, st.alloc(ExtO("mp.Pool", (), {})))]

    def thread(self, it, st, a, kw, node):
        target = kw.get("target", a[1] if len(a) > 1 else NONE)
        args = kw.get("args", TupleV(()))
        return [(V, st, st.alloc(ExtO("mp.Thread", (), {"target": target, "args": args})))]

    def lock(self, it, st, a, kw, node):
        st.ext["held"] = Const(st.ext.get("held", Const(0)).v + 1)
        return [(V, st, TRUE)]

    def unlock(self, it, st, a, kw, node):
        st.ext["held"] = Const(st.ext.get("held", Const(1)).v - 1)
        return [(V, st, FALSE)]

    def suspend_here(self, it, st, n, fr):
        """The scheduler thread is preempted before this statement, and not resumed before
        the main thread waits or ends."""
        if st.ext.get("thread") == Const("running") and fr.mod == "booktest.runs" and st.ext.get("held", Const(0)).v == 0:
            return [(CUT, st.fork(), "suspend")]
        return []

    # ---- the scheduler thread
    def start(self, it, st, a, kw, node):
        r = []
        for lazy in self.lazy:
            s = st.fork()
            if lazy:
                s.ext["thread"] = Const("pending")
                s.ext["thread_obj"] = a[0]
                r.append((V, s, NONE))
            else:
                r += self.run_thread(it, s, a[0], node)
        return r

    def run_thread(self, it, st, obj, node):
        o = st.heap[obj.oid]
        st.ext["thread"] = Const("running")
        r = []
        args = o.attrs["args"]
        for k, s, v in it.call(st, o.attrs["target"], list(args.items) if type(args) is TupleV else [], {}, node):
            if k == CUT and v == "suspend":
                s.ext["thread"] = Const("suspended")
                r.append((V, s, NONE))
            elif k == V:
                s.ext["thread"] = Const("done")
                r.append((V, s, NONE))
            elif k == X:
                it.event(s, "died", v, node=node)
                s.ext["thread"] = Const("dead")
                r.append((V, s, NONE))
            else:
                r.append((k, s, v))
        return r

    def sleep(self, it, st, a, kw, node):
        t = st.ext.get("thread")
        t = t.v if t is not None else None
        if t == "running":            # the thread polls
            evs = st.events()
            lost = [e for e in evs if e.kind == "lost"]
            if lost and sum(1 if e.kind == "submit" else -1 if e.kind in ("ready", "lost") else 0 for e in evs) == 0:
                it.event(st, "hang", lost[0].args[0], node=node)
                return [(CUT, st, "hang")]
            r = [(V, st, NONE)]
            if self.susp:
                s = st.fork()
                r.append((CUT, s, "suspend"))
            n = st.ext.get("sleeps", Const(0)).v
            if n >= self.polls * 4:
                return [(CUT, st, "polling")]
            st.ext["sleeps"] = Const(n + 1)
            return r
        if t == "pending":
            return self.run_thread(it, st, st.ext["thread_obj"], node)
        if t == "suspended":
            return [(CUT, st, "waits for a suspended thread")]
        # nothing will ever change again
        it.event(st, "hang", Const(t or "no thread"), node=node)
        return [(CUT, st, "hang")]

    def join(self, it, st, a, kw, node):
        t = st.ext.get("thread")
        if t == Const("pending"):
            return self.run_thread(it, st, a[0], node)
        if t == Const("suspended"):
            it.event(st, "joined", node=node)
        return [(V, st, NONE)]

    # ---- jobs
    def apply_async(self, it, st, a, kw, node):
        fn = a[1] if len(a) > 1 else kw.get("func")
        args = kw.get("args", a[2] if len(a) > 2 else TupleV(()))
        r = []
        for k, s, items in it.iterate(st, args, node):
            if k != V:
                r.append((k, s, items))
                continue
            it.event(s, "submit", *items, node=node)
            h = s.alloc(ExtO("mp.Async", (), {"job": TupleV(items), "polls": Const(0), "_ready": FALSE}))
            if self.worker == "none":
                r.append((V, s, h))
                continue
            r += [(k2, s2, h if k2 == V else v2) for k2, s2, v2 in self.child(it, s, fn, items, node, h)]
        return r

    def child(self, it, st, fn, items, node, job):
        par = st.fork()
        saved = st.ext.get("thread")
        st.ext["thread"] = Const("child")
        st.ext["in_child"] = TRUE
        it.event(st, "worker", Const("begin"), *items, node=node)
        r = []
        pins = list(par.heap)
        for k, s, v in it.call(st, fn, list(items), {}, node):
            if k == CUT:
                r.append((k, s, v))
                continue
            for d in self.damage:
                s2 = s.fork()
                it.event(s2, "worker", Const("end"), *items, Const(k), Const(d), node=node)
                h = dict(s2.heap)
                for o in pins:
                    h[o] = par.heap[o]
                s2.heap = h
                s2.owned = set()
                s2.env, s2.attrs, s2.stack, s2.cur = dict(par.env), dict(par.attrs), par.stack, par.cur
                s2.ext = dict(par.ext)
                if d != "none":
                    n0 = len(par.fs["log"].items) if "log" in par.fs else 0
                    log = list(s2.fs["log"].items) if "log" in s2.fs else []
                    new = []
                    for op in log[n0:]:
                        if op.items[0].v == "w" and d == "empty":
                            new.append(TupleV((op.items[0], op.items[1], Const(""))))
                        elif op.items[0].v == "w" and d == "junk":
                            new.append(TupleV((op.items[0], op.items[1], Const("half a reco"))))
                        elif op.items[0].v == "w" and d == "badverdict":
                            new.append(TupleV((op.items[0], op.items[1], concat([items[0], Const("\tMAYBE\t1.0\n")]))))
                        elif op.items[0].v == "w" and d == "cut":
                            new.append(TupleV((op.items[0], op.items[1], concat([items[0], Const("\tOK")]))))
                        elif op.items[0].v == "w" and d == "baddur":
                            new.append(TupleV((op.items[0], op.items[1], concat([items[0], Const("\tOK\tsoon\n")]))))
                        elif op.items[0].v == "w" and d == "blank":
                            new.append(TupleV((op.items[0], op.items[1], Const("\n\n"))))
                        elif d == "gone":
                            pass
                        else:
                            new.append(op)
                    s2.fs["log"] = TupleV(tuple(log[:n0]) + tuple(new))
                if k == X and it.exc_matches(v, ExtV("builtins.Exception")) is False:
                    # the pool's worker process ends, its result never arrives
                    s2.mut(job).attrs["_lost"] = TRUE
                    it.event(s2, "lost", *items, v, node=node)
                r.append((V, s2, NONE))
        return r

    def ready(self, it, st, a, kw, node):
        o = st.heap[a[0].oid]
        if o.attrs["_ready"] == TRUE:
            return [(V, st, TRUE)]
        if o.attrs.get("_lost") == TRUE:
            return [(V, st, FALSE)]
        r = []
        n = o.attrs["polls"].v
        if n < self.polls:
            s = st.fork()
            s.mut(a[0]).attrs["polls"] = Const(n + 1)
            r.append((V, s, FALSE))
        st.mut(a[0]).attrs["_ready"] = TRUE
        it.event(st, "ready", *o.attrs["job"].items, node=node)
        r.append((V, st, TRUE))
        return r


def pname(i):
    return Const("abcdef"[i])


def run_parallel(it, st, cases, selected, cfg, setup=None):
    """Outcomes of runs.parallel_run_tests."""
    st, tests = tests_obj(it, st, cases)
    f = it.glob(st, "booktest.runs", "parallel_run_tests")
    if setup is None:
        st, setup = one(it.call(st, it.glob(st, "booktest.detection", "BookTestSetup"), [], {}))
    return it.call(st, f, [EXP, OUT, tests, mklist(st, selected), cfg, setup], {})
