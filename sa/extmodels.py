"""Models of what lies outside booktest: builtins, the standard library, and the few
libraries booktest plugs into.  Each model is fn(interp, state, args, kwargs, node) ->
outcomes.  Effects on the outside (files, environment, processes, terminal) are
recorded as events and applied to the abstract file system / environment."""
import builtins
from .values import *
from .state import *

V, X, N, R, B, C, CUT = "v", "x", "n", "r", "b", "c", "cut"

MODELS = {}
CONTAINER = {}
EXT_TRUTH = {}
EXT_CONST = {"sys.maxsize": 2 ** 63 - 1, "os.sep": "/", "os.path.sep": "/", "os.linesep": "\n", "os.pathsep": ":",
             "sys.platform": "linux", "os.name": "posix", "os.curdir": ".", "builtins.True": True, "typing.TYPE_CHECKING": False}
CANON = {"posixpath": "os.path", "six.moves.builtins": "builtins", "requests.sessions.Session": "requests.Session",
         "requests.models.Response": "requests.Response", "requests.models.PreparedRequest": "requests.PreparedRequest",
         "concurrent.futures.thread": "concurrent.futures"}
PURE_MODS = {"os.path", "math", "re", "string", "textwrap", "html", "urllib.parse", "base64", "binascii", "operator", "typing",
             "difflib", "unicodedata"}
PURE_Q = {"sys.getsizeof", "sys.exc_info", "traceback.format_exc", "traceback.format_exception", "os.getpid", "platform.system",
          "sys.getrecursionlimit", "inspect.getsource", "inspect.getdoc", "multiprocessing.cpu_count", "threading.current_thread",
          "threading.get_ident", "uuid.uuid4", "random.random"}


def canon(q):
    for a, b in CANON.items():
        if q == a or q.startswith(a + "."):
            return b + q[len(a):]
    if q.startswith("builtins.") and q[9:].startswith("builtins."):
        return q[9:]
    return q


def closed(q):
    return q.startswith("builtins.") or q in ("abc.ABC", "enum.Enum", "typing.Generic", "typing.Protocol", "typing.NamedTuple")


def is_class(q):
    return q in CLASSES or (q.rsplit(".", 1)[-1][:1].isupper() and not q.startswith("typing."))


CLASSES = {"threading.Lock", "threading.RLock", "collections.deque"}


def is_sub(q, c):
    return False


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def method(kind, *names):
    def d(f):
        for n in names:
            CONTAINER[(kind, n)] = f
        return f
    return d


def ret(st, v=NONE):
    return [(V, st, v)]


def B_(outs):
    """bool outcomes -> value outcomes"""
    return [(k, s, Const(b) if k == V else b) for k, s, b in outs]


def kwget(kw, args, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


# ------------------------------------------------------------------ words

def word_parts(v):
    """Characters classes of a string value: list of Const / opaque parts."""
    return list(parts_of(v))


def opaque_free(p):
    """A part that certainly contains no separator characters."""
    return type(p) is Const or (type(p) is Sym and (p.atom or isword(p))) or (type(p) is Term and p.op in ("hexdigest",)) or numstr(p)


def numstr(p):
    """The text of a number."""
    if type(p) is Term and p.op == "str" and len(p.args) == 1:
        from .engine import is_num
        return is_num(p.args[0])
    return False


def word_split(v, sep):
    """Split a word at a constant separator; None if unknown."""
    ps = word_parts(v)
    if not all(opaque_free(p) for p in ps):
        return None
    if not sep.strip("0123456789.+-einfa") and any(numstr(p) for p in ps):
        return None
    cur, out = [], []
    for p in ps:
        if type(p) is Const:
            bits = p.v.split(sep)
            cur.append(Const(bits[0]))
            for b in bits[1:]:
                out.append(concat(cur))
                cur = [Const(b)]
        else:
            cur.append(p)
    out.append(concat(cur))
    return out


def under(p, q):
    """Remainder of path p below path q: '' if equal, '/...' value if below, None otherwise."""
    if p == q:
        return Const("")
    a, b = word_parts(p), word_parts(q)
    i = 0
    while b:
        if not a:
            return None
        x, y = a[0], b[0]
        if x == y:
            a, b = a[1:], b[1:]
            continue
        if type(x) is Const and type(y) is Const and isinstance(x.v, str) and isinstance(y.v, str) and x.v.startswith(y.v) and len(b) == 1:
            rest = x.v[len(y.v):]
            if not rest.startswith("/"):
                return None
            return concat([Const(rest)] + a[1:])
        return None
    if a and type(a[0]) is Const and a[0].v.startswith("/"):
        return concat(a)
    return None


# ------------------------------------------------------------------ file system

def fslog(st):
    l = st.fs.get("log")
    return list(l.items) if l is not None else []


def fsop(it, st, op, *args, node=None):
    st.fs["log"] = TupleV(fslog(st) + [TupleV((Const(op),) + args)])
    it.event(st, "fs", Const(op), *args, node=node)


def norm(p):
    """Normal form of a path value."""
    ps = word_parts(p)
    if ps and type(ps[0]) is Const and isinstance(ps[0].v, str) and ps[0].v.startswith("./"):
        ps[0] = Const(ps[0].v[2:])
        p = concat(ps)
        ps = word_parts(p)
    if ps and type(ps[-1]) is Const and isinstance(ps[-1].v, str) and len(ps[-1].v) >= 1 and ps[-1].v.endswith("/") and len(ps) > 1:
        ps[-1] = Const(ps[-1].v.rstrip("/"))
        p = concat(ps)
    return p


def fs_lookup(st, p, before=None):
    """('file', data ref) | ('dir',) | ('absent',) | ('init', original path)"""
    p = norm(p)
    isdir = False
    log = fslog(st)
    for n in range((len(log) if before is None else before) - 1, -1, -1):
        op = log[n]
        o = op.items[0].v
        if o == "w":
            q = op.items[1]
            if p == q:
                return ("file", op.items[2])
            if under(q, p) is not None:
                isdir = True
                return ("dir",)
        elif o == "mkdir":
            q = op.items[1]
            if p == q or under(q, p) is not None:
                return ("dir",)
        elif o == "rm":
            q = op.items[1]
            if under(p, q) is not None:
                return ("absent",)
        elif o == "mv":
            s, d = op.items[1], op.items[2]
            r = under(p, d)
            if r is not None:
                p = concat([s, r])
                continue
            if under(p, s) is not None:
                return ("absent",)
            if under(d, p) is not None:
                return ("dir",)
        elif o == "cp":
            s, d = op.items[1], op.items[2]
            r = under(p, d)
            if r is not None:
                if len(op.items) > 3:       # merged into what was there
                    sub = fs_lookup(st, concat([s, r]), n)
                    if sub[0] == "absent" or sub[0] == "init" and r != Const("") and fs_lookup(st, p, n)[0] != "init":
                        continue
                    return sub
                p = concat([s, r])
                continue
    return ("init", p)


def fs_exists(it, st, p):
    """[(st, bool)]"""
    e = fs_lookup(st, p)
    if e[0] in ("file", "dir"):
        return [(st, True)]
    if e[0] == "absent":
        return [(st, False)]
    return fs_exists0(it, st, e[1])


def fs_exists0(it, st, q):
    """Did q exist before anything of this run?"""
    # a file below an absent directory is absent; ancestors of a present file are present
    for f, b in st.facts.items():
        if f.op == "exists0":
            if b is False and under(q, f.args[0]) is not None:
                return [(st, False)]
            if b is True and under(f.args[0], q) is not None:
                return [(st, True)]
    if q == Const(".") or q == Const("") or q == Const("/"):
        return [(st, True)]
    return it.test(st, Term("exists0", (q,)))


def content_of(st, p):
    e = fs_lookup(st, p)
    if e[0] == "file":
        return e[1]
    if e[0] == "init":
        return Term("content0", (e[1],))
    return None


def data_value(st, d):
    """The text of a file's data."""
    if type(d) is Ref:
        return TupleV(st.heap[d.oid].items)
    return d


def text_of(st, d):
    """A file's data as one value."""
    if type(d) is Ref:
        its = st.heap[d.oid].items
        if all(is_strlike(x) for x in its):
            return concat(its)
        if len(its) == 1:
            return its[0]
        return Term("data", tuple(its))
    return d


def is_strlike(v):
    from .engine import is_strv
    return is_strv(v) or (type(v) is Term and v.op == "str")


@model("builtins.open", "io.open")
def m_open(it, st, a, kw, node):
    p = norm(a[0])
    mode = kwget(kw, a, 1, "mode", Const("r"))
    m = mode.v if type(mode) is Const else "r"
    if p == NONE:
        return it.exc(st, "TypeError", "open(None)", node=node)
    res = []
    if any(c in m for c in "wax+"):
        if "a" in m or "+" in m:
            old = content_of(st, p)
            init = [] if old is None else (list(st.heap[old.oid].items) if type(old) is Ref else [old])
            if "w" in m:
                init = []
        else:
            init = []
        d = st.alloc(ListO(init))
        fsop(it, st, "w", p, d, node=node)
        f = st.alloc(ExtO("file", (p, Const(m)), {"data": d, "name": p, "mode": Const(m), "closed": FALSE, "pos": Const(0)}))
        it.event(st, "open", p, Const(m), f, node=node)
        return ret(st, f)
    for s, b in fs_exists(it, st, p):
        if not b:
            res.extend(it.exc(s, "FileNotFoundError", p, node=node))
            continue
        c = content_of(s, p)
        if c is None:
            res.extend(it.exc(s, "IsADirectoryError", p, node=node))
            continue
        f = s.alloc(ExtO("file", (p, Const(m)), {"data": c, "name": p, "mode": Const(m), "closed": FALSE, "pos": Const(0)}))
        it.event(s, "open", p, Const(m), f, node=node)
        res.extend(ret(s, f))
    return res


def file_closed(it, st, f, node):
    o = st.heap[f.oid]
    return o.attrs.get("closed") == TRUE


@model("file.write")
def m_fwrite(it, st, a, kw, node):
    f, v = a[0], a[1]
    if file_closed(it, st, f, node):
        return it.exc(st, "ValueError", "I/O operation on closed file", node=node)
    d = st.heap[f.oid].attrs["data"]
    if type(d) is Ref:
        o = st.mut(d)
        if v != Const(""):
            o.items.append(v)
            join_tail(o.items)
    it.event(st, "write", st.heap[f.oid].attrs["name"], v, f, node=node)
    return ret(st, Term("len", (v,)))


def join_tail(items):
    if len(items) >= 2 and is_strlike(items[-1]) and is_strlike(items[-2]):
        b = items.pop()
        a = items.pop()
        items.append(concat([a, b]))


@model("file.writelines")
def m_writelines(it, st, a, kw, node):
    def f(s, its):
        outs = ret(s)
        for x in its:
            outs = it.bind(outs, lambda s2, _, x=x: m_fwrite(it, s2, [a[0], x], {}, node))
        return outs
    return it.bind(it.iterate(st, a[1], node), f)


@model("file.close", "file.__exit__")
def m_fclose(it, st, a, kw, node):
    o = st.mut(a[0])
    if o.attrs.get("closed") != TRUE:
        o.attrs["closed"] = TRUE
        it.event(st, "close", o.attrs["name"], a[0], node=node)
    return ret(st)


@model("file.__enter__")
def m_fenter(it, st, a, kw, node):
    return ret(st, a[0])


@model("file.flush", "file.fileno", "file.seek", "file.truncate", "file.tell")
def m_fflush(it, st, a, kw, node):
    it.event(st, "flush", st.heap[a[0].oid].attrs["name"], a[0], node=node)
    return ret(st)


@model("file.read")
def m_fread(it, st, a, kw, node):
    if file_closed(it, st, a[0], node):
        return it.exc(st, "ValueError", "I/O operation on closed file", node=node)
    d = st.heap[a[0].oid].attrs["data"]
    if len(a) > 1:
        return ret(st, fresh("chunk", typ="bytes"))
    return ret(st, text_of(st, d))


def lines_of(it, st, text):
    """The lines of a text, with their newlines."""
    ls = word_split(text, "\n") if is_strlike(text) else None
    if ls is None:
        return None
    r = [concat([x, Const("\n")]) for x in ls[:-1]]
    if ls[-1] != Const(""):
        r.append(ls[-1])
    return r


@model("file.__iter__", "file.readlines")
def m_flines(it, st, a, kw, node):
    d = st.heap[a[0].oid].attrs["data"]
    t = text_of(st, d)
    if t == Const("") or t == Term("data", ()):
        return ret(st, st.alloc(ListO([])))
    ls = lines_of(it, st, t)
    if ls is not None:
        return ret(st, st.alloc(ListO(ls)))
    return it.bind(it.elems(st, Term("lines", (t,))), lambda s, its: ret(s, s.alloc(ListO(its))))


@model("file.readline")
def m_freadline(it, st, a, kw, node):
    o = st.heap[a[0].oid]
    if o.attrs.get("closed") == TRUE:
        return it.exc(st, "ValueError", "I/O operation on closed file", node=node)
    t = text_of(st, o.attrs["data"])
    pos = o.attrs["pos"].v
    ls = lines_of(it, st, t)
    if ls is not None:
        st.mut(a[0]).attrs["pos"] = Const(pos + 1)
        return ret(st, ls[pos] if pos < len(ls) else Const(""))
    r = []
    for k, s, its in it.elems(st, Term("lines", (t,))):
        s.mut(a[0]).attrs["pos"] = Const(pos + 1)
        r.append((k, s, its[pos] if pos < len(its) else Const("")))
    return r


@model("os.path.exists", "os.path.lexists")
def m_exists(it, st, a, kw, node):
    return [(V, s, Const(b)) for s, b in fs_exists(it, st, norm(a[0]))]


@model("os.path.isfile")
def m_isfile(it, st, a, kw, node):
    r = []
    p = norm(a[0])
    for s, b in fs_exists(it, st, p):
        if not b:
            r.append((V, s, FALSE))
            continue
        e = fs_lookup(s, p)
        if e[0] == "file":
            r.append((V, s, TRUE))
        elif e[0] == "dir":
            r.append((V, s, FALSE))
        else:
            r.extend((V, s2, Const(not d)) for s2, d in it.test(s, Term("isdir0", (e[1],))))
    return r


@model("os.path.isdir")
def m_isdir(it, st, a, kw, node):
    r = []
    p = norm(a[0])
    for s, b in fs_exists(it, st, p):
        if not b:
            r.append((V, s, FALSE))
            continue
        e = fs_lookup(s, p)
        if e[0] == "file":
            r.append((V, s, FALSE))
        elif e[0] == "dir":
            r.append((V, s, TRUE))
        else:
            r.extend((V, s2, Const(d)) for s2, d in it.test(s, Term("isdir0", (e[1],))))
    return r


@model("os.path.join")
def m_join(it, st, a, kw, node):
    if any(x == NONE for x in a):
        return it.exc(st, "TypeError", "join(None)", node=node)
    a = list(a)
    while len(a) > 1 and a[0] == Const(""):
        a.pop(0)
    for i in range(len(a) - 1, 0, -1):
        if type(a[i]) is Const and str(a[i].v).startswith("/"):
            a = a[i:]
            break
    return ret(st, pjoin(a))


@model("os.path.dirname")
def m_dirname(it, st, a, kw, node):
    return ret(st, path_split(a[0])[0])


@model("os.path.basename")
def m_basename(it, st, a, kw, node):
    return ret(st, path_split(a[0])[1])


def path_split(p):
    ps = word_parts(p)
    for i in range(len(ps) - 1, -1, -1):
        x = ps[i]
        if type(x) is Const and "/" in x.v:
            h, t = x.v.rsplit("/", 1)
            return concat(ps[:i] + [Const(h)]), concat([Const(t)] + ps[i + 1:])
        if not opaque_free(x):
            break
    else:
        return Const(""), p
    # a trailing opaque part may contain separators
    return Term("dirname", (p,)), Term("basename", (p,))


@model("os.path.split")
def m_split(it, st, a, kw, node):
    return ret(st, TupleV(path_split(a[0])))


@model("os.path.splitext")
def m_splitext(it, st, a, kw, node):
    ps = word_parts(a[0])
    for i in range(len(ps) - 1, -1, -1):
        x = ps[i]
        if type(x) is Const:
            tail = x.v.rsplit("/", 1)[-1]
            if "." in tail.lstrip("."):
                h, t = x.v.rsplit(".", 1)
                return ret(st, TupleV((concat(ps[:i] + [Const(h)]), concat([Const("." + t)] + ps[i + 1:]))))
            if "/" in x.v:
                break
        elif not opaque_free(x):
            return ret(st, TupleV((Term("splitroot", (a[0],)), Term("splitext", (a[0],)))))
    return ret(st, TupleV((a[0], Const(""))))


@model("os.path.abspath", "os.path.realpath")
def m_abspath(it, st, a, kw, node):
    p = a[0]
    ps = word_parts(p)
    if ps and type(ps[0]) is Const and str(ps[0].v).startswith("/"):
        return ret(st, p)
    return ret(st, pjoin([Sym("cwd", typ="str"), p]))


@model("os.path.normpath", "os.path.expandvars", "os.fspath")
def m_normpath(it, st, a, kw, node):
    return ret(st, norm(a[0]))


@model("os.path.expanduser")
def m_expanduser(it, st, a, kw, node):
    ps = word_parts(a[0])
    if ps and type(ps[0]) is Const and ps[0].v.startswith("~"):
        return ret(st, concat([Sym("home", typ="str"), Const(ps[0].v[1:])] + ps[1:]))
    return ret(st, a[0])


@model("os.path.relpath")
def m_relpath(it, st, a, kw, node):
    if len(a) > 1:
        r = under(norm(a[0]), norm(a[1]))
        if r is not None:
            ps = word_parts(r)
            if ps and type(ps[0]) is Const and ps[0].v.startswith("/"):
                return ret(st, concat([Const(ps[0].v[1:])] + ps[1:]))
            return ret(st, Const("."))
    return ret(st, Term("ext", (Const("os.path.relpath"),) + tuple(a)))


@model("os.makedirs")
def m_makedirs(it, st, a, kw, node):
    p = norm(a[0])
    ok = kwget(kw, a, 2, "exist_ok", FALSE)
    r = []
    for s, b in fs_exists(it, st, p):
        if b:
            for k, s2, t in it.branch(s, ok, node):
                if t:
                    r.extend(ret(s2))
                else:
                    r.extend(it.exc(s2, "FileExistsError", p, node=node))
        else:
            fsop(it, s, "mkdir", p, node=node)
            r.extend(ret(s))
    return r


@model("os.mkdir")
def m_mkdir(it, st, a, kw, node):
    p = norm(a[0])
    r = []
    for s, b in fs_exists(it, st, p):
        if b:
            r.extend(it.exc(s, "FileExistsError", p, node=node))
        else:
            fsop(it, s, "mkdir", p, node=node)
            r.extend(ret(s))
    return r


def remove_path(it, st, p, node, missing_ok=False, op="rm"):
    r = []
    p = norm(p)
    for s, b in fs_exists(it, st, p):
        if not b and not missing_ok:
            r.extend(it.exc(s, "FileNotFoundError", p, node=node))
        else:
            if b:
                fsop(it, s, "rm", p, node=node)
            r.extend(ret(s))
    return r


@model("os.remove", "os.unlink", "os.rmdir")
def m_remove(it, st, a, kw, node):
    return remove_path(it, st, a[0], node)


@model("os.removedirs")
def m_removedirs(it, st, a, kw, node):
    return remove_path(it, st, a[0], node)


@model("shutil.rmtree")
def m_rmtree(it, st, a, kw, node):
    ig = kwget(kw, a, 1, "ignore_errors", FALSE)
    return remove_path(it, st, a[0], node, missing_ok=ig == TRUE)


def move(it, st, s0, d, node):
    r = []
    for s, b in fs_exists(it, st, s0):
        if not b:
            r.extend(it.exc(s, "FileNotFoundError", s0, node=node))
            continue
        src, dst = fs_lookup(s, s0), fs_lookup(s, d)
        if src[0] == "file" and dst[0] == "dir":
            r.extend(it.exc(s, "IsADirectoryError", s0, d, node=node))
        elif src[0] == "dir" and dst[0] == "file":
            r.extend(it.exc(s, "NotADirectoryError", s0, d, node=node))
        elif src[0] == "dir" and dst[0] == "dir" and s0 != d and listing(it, s, d)[0]:
            r.extend(it.exc(s, "OSError", Const("Directory not empty"), node=node))
        else:
            fsop(it, s, "mv", s0, d, node=node)
            r.extend(ret(s))
    return r


@model("os.rename", "os.replace", "os.renames")
def m_rename(it, st, a, kw, node):
    return move(it, st, norm(a[0]), norm(a[1]), node)


def into(st, s0, d):
    """Destination of a move or copy of s0 to d, which may be a directory."""
    if fs_lookup(st, d)[0] == "dir":
        return pjoin([d, path_split(s0)[1]])
    return d


@model("shutil.move")
def m_move(it, st, a, kw, node):
    s0, d = norm(a[0]), norm(a[1])
    return [(k, s, d if k == V else v) for k, s, v in move(it, st, s0, into(st, s0, d), node)]


@model("shutil.copy", "shutil.copyfile", "shutil.copy2")
def m_copyf(it, st, a, kw, node):
    s0, d = norm(a[0]), norm(a[1])
    d = into(st, s0, d)
    r = []
    for s, b in fs_exists(it, st, s0):
        if not b:
            r.extend(it.exc(s, "FileNotFoundError", s0, node=node))
        else:
            fsop(it, s, "cp", s0, d, node=node)
            r.extend(ret(s, d))
    return r


@model("shutil.copytree")
def m_copytree(it, st, a, kw, node):
    s0, d = norm(a[0]), norm(a[1])
    ok = kwget(kw, a, 6, "dirs_exist_ok", FALSE)
    r = []
    for s, b in fs_exists(it, st, s0):
        if not b:
            r.extend(it.exc(s, "FileNotFoundError", s0, node=node))
            continue
        for s2, b2 in fs_exists(it, s, d):
            if b2 and ok != TRUE:
                r.extend(it.exc(s2, "FileExistsError", d, node=node))
            else:
                fsop(it, s2, "cp", s0, d, *([TRUE] if b2 else []), node=node)
                r.extend(ret(s2, d))
    return r


def listing(it, st, p):
    """Values naming the children of p: known ones plus an unknown base."""
    p = norm(p)
    known, gone, removed_all = [], [], False
    base = None
    q = p
    log = fslog(st)
    e = fs_lookup(st, p)
    seen = []
    cur = p
    for i in range(len(log) - 1, -1, -1):
        op = log[i]
        o = op.items[0].v
        if o == "mkdir" and norm(op.items[1]) == cur:
            removed_all = True      # it was not there before
            break
        if o in ("w", "mkdir"):
            r = under(op.items[1], cur)
            if r is not None and r != Const(""):
                nm = first_comp(r)
                if nm is not None and nm not in seen:
                    seen.append(nm)
                    known.append(nm)
        elif o == "rm":
            if under(cur, op.items[1]) is not None:
                removed_all = True
                break
            r = under(op.items[1], cur)
            if r is not None:
                nm = first_comp(r)
                if nm is not None and concat([Const("/"), nm]) == r and nm not in seen:
                    seen.append(nm)
        elif o == "mv":
            s, d = op.items[1], op.items[2]
            r = under(cur, d)
            if r is not None:
                cur = concat([s, r])
                continue
            r = under(d, cur)
            if r is not None and r != Const(""):
                nm = first_comp(r)
                if nm is not None and nm not in seen:
                    seen.append(nm)
                    known.append(nm)
            r = under(s, cur)
            if r is not None:
                nm = first_comp(r)
                if nm is not None and concat([Const("/"), nm]) == r and nm not in seen:
                    seen.append(nm)
            elif under(cur, s) is not None:
                removed_all = True
                break
        elif o == "cp":
            s, d = op.items[1], op.items[2]
            r = under(cur, d)
            if r is not None and len(op.items) == 3:
                cur = concat([s, r])
                continue
            r = under(d, cur)
            if r is not None and r != Const(""):
                nm = first_comp(r)
                if nm is not None and nm not in seen:
                    seen.append(nm)
                    known.append(nm)
    known.reverse()
    if not removed_all:
        base = Term("listdir", (cur,))
        gone = [x for x in seen if x not in known]
    return known, base, [x for x in seen]


def first_comp(r):
    ps = word_split(r, "/")
    if ps is None:
        a = word_parts(r)
        # "/" + opaque: take everything up to the next separator
        if a and type(a[0]) is Const and a[0].v.startswith("/"):
            rest = [Const(a[0].v[1:])] + a[1:]
            out = []
            for x in rest:
                if type(x) is Const and "/" in x.v:
                    out.append(Const(x.v.split("/")[0]))
                    break
                out.append(x)
            return concat(out)
        return None
    return ps[1] if len(ps) > 1 else None


@model("os.listdir")
def m_listdir(it, st, a, kw, node):
    p = norm(a[0]) if a else Const(".")
    r = []
    for s, b in fs_exists(it, st, p):
        if not b:
            r.extend(it.exc(s, "FileNotFoundError", p, node=node))
            continue
        known, base, seen = listing(it, s, p)
        it.event(s, "listdir", p, node=node)
        if base is not None and [b2 for _, b2 in fs_exists0(it, s.fork(), base.args[0])] == [False]:
            base = None         # the directory itself was made in this run
        if base is None:
            r.extend(ret(s, s.alloc(ListO(known))))
            continue
        if not known and not seen:
            r.extend(ret(s, base))
            continue
        for k, s2, its in it.elems(s, base):
            acc = [(s2, [])]
            for x in its:
                nw = []
                for s3, l in acc:
                    for k4, s4, i in it.find(s3, seen, x, node):
                        nw.append((s4, l + ([x] if i < 0 else [])))
                acc = nw
            for s3, l in acc:
                r.extend(ret(s3, s3.alloc(ListO(l + known))))
    return r


@model("os.walk")
def m_walk(it, st, a, kw, node):
    top = norm(a[0])
    r = []
    for s, b in fs_exists(it, st, top):
        if not b:
            r.extend(ret(s, s.alloc(ListO([]))))
            continue
        it.event(s, "walk", top, node=node)
        w = it.pol.walk(it, s, top, node) if hasattr(it.pol, "walk") else None
        if w is not None:
            r.extend(w)
            continue
        # the top directory and one representative subdirectory
        sub = Term("elem", (Term("walkdirs", (top,)), Const(0)))
        rows = [TupleV((top, Term("walkdirs", (top,)), Term("listdir", (top,)))),
                TupleV((pjoin([top, sub]), s.alloc(ListO([])), Term("listdir", (pjoin([top, sub]),))))]
        r.extend(ret(s, s.alloc(ListO(rows))))
    return r


@model("os.system", "subprocess.call", "subprocess.run", "subprocess.Popen", "subprocess.check_call")
def m_system(it, st, a, kw, node):
    c = a[0]
    if type(c) is Ref and st.heap[c.oid].kind == "list":
        words = list(st.heap[c.oid].items)
        cmd = words[0].v if type(words[0]) is Const else None
        paths = words
    ps = word_parts(c)
    if ps and type(ps[0]) is Const and isinstance(ps[0].v, str):
        for pre, op in (("mkdir -p ", "mkdir"), ("rm -rf ", "rm"), ("rm -r ", "rm"), ("rm ", "rm")):
            if ps[0].v.startswith(pre):
                p = norm(concat([Const(ps[0].v[len(pre):])] + ps[1:]))
                if op == "mkdir":
                    r = []
                    for s, b in fs_exists(it, st, p):
                        if not b:
                            fsop(it, s, "mkdir", p, node=node)
                        r.extend(ret(s, Const(0)))
                    return r
                return [(k, s, Const(0)) for k, s, _ in remove_path(it, st, p, node, missing_ok=True)]
    it.event(st, "system", c, node=node)
    return ret(st, fresh("status", typ="int"))


# ------------------------------------------------------------------ environment

def env_find(it, st, key, node=None):
    """[(st, value)]: current value of an environment variable (NONE = absent)."""
    outs = []
    keys = list(st.env)
    for k, s, i in it.find(st, keys, key, node):
        if k != V:
            continue
        if i >= 0:
            outs.append((s, s.env[keys[i]]))
        else:
            outs.append((s, Term("env0", (key,))))
    return outs


def env_key(it, st, key):
    for k in st.env:
        if k == key:
            return k
    return key


@model("os.environ.get", "os.getenv")
def m_envget(it, st, a, kw, node):
    r = []
    d = kwget(kw, a, 1, "default", NONE)
    for s, v in env_find(it, st, a[0], node):
        it.event(s, "env_get", a[0], node=node)
        if d == NONE:
            r.append((V, s, v))
            continue
        for k, s2, b in it.isnone(s, v):
            r.append((V, s2, d if b else v))
    return r


@model("getitem:os.environ")
def m_envitem(it, st, a, kw, node):
    r = []
    for s, v in env_find(it, st, a[0], node):
        for k, s2, b in it.isnone(s, v):
            if b:
                r.extend(it.exc(s2, "KeyError", a[0], node=node))
            else:
                r.append((V, s2, v))
    return r


@model("contains:os.environ", "os.environ.__contains__")
def m_envin(it, st, a, kw, node):
    r = []
    for s, v in env_find(it, st, a[0], node):
        for k, s2, b in it.isnone(s, v):
            r.append((V, s2, Const(not b)))
    return r


@model("setitem:os.environ", "os.putenv", "os.environ.__setitem__")
def m_envset(it, st, a, kw, node):
    r = []
    for k, s, b in it.isnone(st, a[1]):
        if b:
            r.extend(it.exc(s, "TypeError", "str expected, not NoneType", node=node))
            continue
        for s2, _ in env_find(it, s, a[0], node):
            s2.env[env_key(it, s2, a[0])] = a[1]
            it.event(s2, "env_set", a[0], a[1], node=node)
            r.append((V, s2, NONE))
    return r


@model("delitem:os.environ", "os.unsetenv", "os.environ.__delitem__")
def m_envdel(it, st, a, kw, node):
    r = []
    for s, v in env_find(it, st, a[0], node):
        for k, s2, b in it.isnone(s, v):
            if b:
                r.extend(it.exc(s2, "KeyError", a[0], node=node))
            else:
                s2.env[env_key(it, s2, a[0])] = NONE
                it.event(s2, "env_del", a[0], node=node)
                r.append((V, s2, NONE))
    return r


@model("os.environ.pop")
def m_envpop(it, st, a, kw, node):
    r = []
    for s, v in env_find(it, st, a[0], node):
        for k, s2, b in it.isnone(s, v):
            if b:
                if len(a) > 1:
                    r.append((V, s2, a[1]))
                else:
                    r.extend(it.exc(s2, "KeyError", a[0], node=node))
            else:
                s2.env[env_key(it, s2, a[0])] = NONE
                it.event(s2, "env_del", a[0], node=node)
                r.append((V, s2, v))
    return r


@model("os.environ.setdefault")
def m_envsetdef(it, st, a, kw, node):
    r = []
    for s, v in env_find(it, st, a[0], node):
        for k, s2, b in it.isnone(s, v):
            if b:
                r.extend(m_envset(it, s2, a, kw, node))
            else:
                r.append((V, s2, v))
    return r


@model("os.environ.update")
def m_envupd(it, st, a, kw, node):
    outs = ret(st)

    def pairs(s):
        if a and type(a[0]) is Ref and s.heap[a[0].oid].kind == "dict":
            return it.dict_items(s, a[0])
        return [(V, s, [])]

    def f(s, items):
        o = ret(s)
        for k, v in items + [(Const(k), v) for k, v in kw.items()]:
            o = it.bind(o, lambda s2, _, k=k, v=v: m_envset(it, s2, [k, v], {}, node))
        return o
    return it.bind(pairs(st), f)


@model("os.environ.items", "iter:os.environ", "os.environ.keys", "os.environ.copy")
def m_envitems(it, st, a, kw, node):
    return ret(st, Term("items", (Sym("environ0", typ="dict"),)))


# ------------------------------------------------------------------ builtins

@model("builtins.print")
def m_print(it, st, a, kw, node):
    f = kw.get("file")
    sep = kw.get("sep", Const(" "))
    end = kw.get("end", Const("\n"))
    if sep == NONE:
        sep = Const(" ")
    if end == NONE:
        end = Const("\n")
    outs = [(V, st, [])]
    for i, x in enumerate(a):
        def g(s, acc, x=x, i=i):
            return it.bind(it.tostr(s, x, node), lambda s2, v: [(V, s2, acc + ([sep] if i else []) + [v])])
        outs = it.bind(outs, g)

    def fin(s, parts):
        text = concat(parts + [end])
        if f is not None and f != NONE:
            return it.bind(it.getattr(s, f, "write", node), lambda s2, m: it.bind(it.call(s2, m, [text], {}, node), lambda s3, _: ret(s3)))
        it.event(s, "print", text, node=node)
        return ret(s)
    return it.bind(outs, fin)


@model("sys.stdout.write")
def m_stdout_write(it, st, a, kw, node):
    it.event(st, "print", a[-1], node=node)
    return ret(st, fresh("written", typ="int"))


@model("builtins.len")
def m_len(it, st, a, kw, node):
    v = a[0]
    if type(v) is Ref and st.heap[v.oid].kind == "inst":
        m = it.class_attr(st, st.heap[v.oid].cls, "__len__")
        if m is not None:
            return it.call(st, it.bindm(m, v), [], {}, node)
        if "__items__" in st.heap[v.oid].attrs:
            return ret(st, it.length(st, st.heap[v.oid].attrs["__items__"]))
    if type(v) is Const and not isinstance(v.v, (str, bytes, tuple)):
        return it.exc(st, "TypeError", "no len()", node=node)
    c = st.facts.get(Term("card", (v,)))
    if c is not None and c < max(it.pol.card):
        return ret(st, Const(c))
    if type(v) is Term and v.op in ("keys", "items", "values"):
        return ret(st, Term("len", (v.args[0],)))
    return ret(st, it.length(st, v))


@model("builtins.str")
def m_str(it, st, a, kw, node):
    if not a:
        return ret(st, Const(""))
    return it.tostr(st, a[0], node)


@model("builtins.repr", "builtins.ascii")
def m_repr(it, st, a, kw, node):
    if type(a[0]) is Const:
        return ret(st, Const(repr(a[0].v)))
    if type(a[0]) is Ref and st.heap[a[0].oid].kind == "inst":
        m = it.class_attr(st, st.heap[a[0].oid].cls, "__repr__")
        if m is not None:
            return it.call(st, it.bindm(m, a[0]), [], {}, node)
    return ret(st, Term("repr", (it.freeze(st, a[0]),)))


@model("builtins.format")
def m_format(it, st, a, kw, node):
    return ret(st, it.fmt(a[0], a[1] if len(a) > 1 else Const("")))


@model("builtins.int")
def m_int(it, st, a, kw, node):
    from .engine import is_num, is_int
    if not a:
        return ret(st, Const(0))
    v = a[0]
    if type(v) is Const:
        try:
            return ret(st, Const(int(v.v)))
        except (TypeError, ValueError) as e:
            return it.exc(st, type(e).__name__, node=node)
    if is_int(v):
        return ret(st, v)
    if v == NONE:
        return it.exc(st, "TypeError", node=node)
    if type(v) is Term and v.op == "str" and is_num(v.args[0]):
        return ret(st, v.args[0])
    if is_strlike(v) or not is_num(v):
        # text that may not be a number
        r = []
        for s, b in it.test(st, Term("isint", (v,))):
            if b:
                r.append((V, s, Term("int", (v,))))
            else:
                r.extend(it.exc(s, "ValueError", "invalid literal for int()", node=node))
        return r
    return ret(st, Term("int", (v,)))


@model("builtins.float")
def m_float(it, st, a, kw, node):
    from .engine import is_num
    v = a[0] if a else Const(0)
    if type(v) is Const:
        try:
            return ret(st, Const(float(v.v)))
        except (TypeError, ValueError) as e:
            return it.exc(st, type(e).__name__, node=node)
    if is_num(v):
        return ret(st, v)
    if type(v) is Term and v.op == "str" and is_num(v.args[0]):
        return ret(st, v.args[0])
    r = []
    for s, b in it.test(st, Term("isfloat", (v,))):
        if b:
            r.append((V, s, Term("float", (v,))))
        else:
            r.extend(it.exc(s, "ValueError", "could not convert string to float", node=node))
    return r


@model("builtins.bool")
def m_bool(it, st, a, kw, node):
    if not a:
        return ret(st, FALSE)
    return B_(it.branch(st, a[0], node))


@model("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "collections.deque")
def m_seq(it, st, a, kw, node, kind=None):
    return None


def _seq(kind):
    def f(it, st, a, kw, node):
        def mk(s, items):
            if kind == "list":
                return ret(s, s.alloc(ListO(items)))
            if kind == "deque":
                return ret(s, s.alloc(ListO(items, "collections.deque")))
            if kind == "tuple":
                return ret(s, TupleV(items))
            ref = s.alloc(SetO())
            return it.bind(it.set_add(s, ref, items, node), lambda s2, _: ret(s2, ref))
        if not a:
            return mk(st, [])
        return it.bind(it.iterate(st, a[0], node), mk)
    return f


for _n in ("list", "tuple", "set", "frozenset"):
    MODELS["builtins." + _n] = _seq(_n)
MODELS["collections.deque"] = _seq("deque")


@model("builtins.dict", "collections.OrderedDict")
def m_dict(it, st, a, kw, node):
    d = st.alloc(DictO())
    outs = ret(st, d)
    if a:
        outs = it.bind(outs, lambda s, _: it.dict_update(s, d, a[0], node))
    for k, v in kw.items():
        if k == "**":
            outs = it.bind(outs, lambda s, _, v=v: it.dict_update(s, d, v, node))
        else:
            outs = it.bind(outs, lambda s, _, k=k, v=v: it.dict_set(s, d, Const(k), v, node))
    return it.bind(outs, lambda s, _: ret(s, d))


@model("collections.defaultdict")
def m_ddict(it, st, a, kw, node):
    d = st.alloc(DictO(factory=a[0] if a and a[0] != NONE else None, typ="collections.defaultdict"))
    if len(a) > 1:
        return it.bind(it.dict_update(st, d, a[1], node), lambda s, _: ret(s, d))
    return ret(st, d)


@model("builtins.dict.__setitem__")
def m_dictset(it, st, a, kw, node):
    o = st.heap[a[0].oid]
    d = o.attrs["__items__"] if o.kind == "inst" else a[0]
    return it.dict_set(st, d, a[1], a[2], node)


@model("builtins.object.__init__", "builtins.Exception.__init__", "builtins.dict.__init__", "builtins.object.__init_subclass__")
def m_objinit(it, st, a, kw, node):
    if a and len(a) > 1 and type(a[0]) is Ref:
        st.mut(a[0]).attrs["args"] = TupleV(a[1:])
    return ret(st)


@model("builtins.object.__setattr__")
def m_objsetattr(it, st, a, kw, node):
    st.mut(a[0]).attrs[a[1].v] = a[2]
    return ret(st)


@model("builtins.object")
def m_object(it, st, a, kw, node):
    return ret(st, st.alloc(ExtO("builtins.object")))


def sort_items(it, st, items, keys, reverse, node):
    """Insertion sort that forks on undecided comparisons."""
    def ins(s, srt, i):
        if i >= len(items):
            return [(V, s, srt)]

        def place(s2, j):
            # insert items[i] after all elements not greater
            if j >= len(srt):
                return ins(s2, srt + [i], i + 1)
            r = []
            x, y = (keys[i], keys[srt[j]]) if not reverse else (keys[srt[j]], keys[i])
            for k, s3, b in it.less(s2, x, y, node):
                if k != V:
                    r.append((k, s3, b))
                elif b:
                    r.extend(ins(s3, srt[:j] + [i] + srt[j:], i + 1))
                else:
                    r.extend(place(s3, j + 1))
            return r
        return place(s, 0)
    return it.bind(ins(st, [], 0), lambda s, order: [(V, s, [items[i] for i in order])])


def with_keys(it, st, items, key, node):
    if key is None or key == NONE:
        return [(V, st, list(items))]
    outs = [(V, st, [])]
    for x in items:
        outs = it.bind(outs, lambda s, acc, x=x: it.bind(it.call(s, key, [x], {}, node), lambda s2, k: [(V, s2, acc + [k])]))
    return outs


@model("builtins.sorted")
def m_sorted(it, st, a, kw, node):
    key, rev = kw.get("key"), kw.get("reverse", FALSE) == TRUE
    v = a[0]
    if it.pol.__dict__.get("keep_sorted") or getattr(it.pol, "keep_sorted", False):
        if type(v) in (Sym, Term):
            return ret(st, Term("sorted", (v,)))

    def f(s, items):
        return it.bind(with_keys(it, s, items, key, node),
                       lambda s2, ks: it.bind(sort_items(it, s2, items, ks, rev, node), lambda s3, r: ret(s3, s3.alloc(ListO(r)))))
    return it.bind(it.iterate(st, v, node), f)


@method("list", "sort")
def m_lsort(it, st, a, kw, node):
    key, rev = kw.get("key"), kw.get("reverse", FALSE) == TRUE
    items = list(st.heap[a[0].oid].items)

    def put(s, r):
        s.mut(a[0]).items[:] = r
        return ret(s)
    return it.bind(with_keys(it, st, items, key, node),
                   lambda s2, ks: it.bind(sort_items(it, s2, items, ks, rev, node), put))


@model("builtins.reversed")
def m_reversed(it, st, a, kw, node):
    return it.bind(it.iterate(st, a[0], node), lambda s, its: ret(s, s.alloc(IterO(list(reversed(its))))))


@model("builtins.enumerate")
def m_enumerate(it, st, a, kw, node):
    start = kwget(kw, a, 1, "start", Const(0))
    return it.bind(it.iterate(st, a[0], node),
                   lambda s, its: ret(s, s.alloc(IterO([TupleV((Const(i + start.v), x)) for i, x in enumerate(its)]))))


@model("builtins.zip")
def m_zip(it, st, a, kw, node):
    outs = [(V, st, [])]
    for x in a:
        outs = it.bind(outs, lambda s, acc, x=x: it.bind(it.iterate(s, x, node), lambda s2, its: [(V, s2, acc + [its])]))
    return it.bind(outs, lambda s, ls: ret(s, s.alloc(IterO([TupleV(t) for t in zip(*ls)]))))


@model("builtins.map")
def m_map(it, st, a, kw, node):
    def f(s, items):
        outs = [(V, s, [])]
        for x in items:
            outs = it.bind(outs, lambda s2, acc, x=x: it.bind(it.call(s2, a[0], [x], {}, node), lambda s3, v: [(V, s3, acc + [v])]))
        return it.bind(outs, lambda s2, vs: ret(s2, s2.alloc(IterO(vs))))
    return it.bind(it.iterate(st, a[1], node), f)


@model("builtins.filter")
def m_filter(it, st, a, kw, node):
    def f(s, items):
        outs = [(V, s, [])]
        for x in items:
            def g(s2, acc, x=x):
                t = [(V, s2, x)] if a[0] == NONE else it.call(s2, a[0], [x], {}, node)
                return it.bind(it.bind(t, lambda s3, v: it.branch(s3, v, node)), lambda s4, b: [(V, s4, acc + ([x] if b else []))])
            outs = it.bind(outs, g)
        return it.bind(outs, lambda s2, vs: ret(s2, s2.alloc(IterO(vs))))
    return it.bind(it.iterate(st, a[1], node), f)


@model("builtins.range")
def m_range(it, st, a, kw, node):
    if all(type(x) is Const for x in a):
        return ret(st, TupleV([Const(i) for i in range(*[x.v for x in a])][:300]))
    return ret(st, Term("range", tuple(a)))


def _minmax(name):
    def f(it, st, a, kw, node):
        key = kw.get("key")

        def g(s, items):
            if not items:
                if "default" in kw:
                    return ret(s, kw["default"])
                return it.exc(s, "ValueError", "empty sequence", node=node)

            def h(s2, ks):
                def step(s3, best, i):
                    if i >= len(items):
                        return ret(s3, items[best])
                    r = []
                    x, y = (ks[i], ks[best]) if name == "min" else (ks[best], ks[i])
                    for k, s4, b in it.less(s3, x, y, node):
                        r.extend(step(s4, i if b else best, i + 1) if k == V else [(k, s4, b)])
                    return r
                return step(s2, 0, 1)
            return it.bind(with_keys(it, s, items, key, node), h)
        if len(a) == 1:
            return it.bind(it.iterate(st, a[0], node), g)
        return g(st, list(a))
    return f


MODELS["builtins.min"] = _minmax("min")
MODELS["builtins.max"] = _minmax("max")


@model("builtins.sum")
def m_sum(it, st, a, kw, node):
    import ast as _ast

    def f(s, items):
        outs = [(V, s, a[1] if len(a) > 1 else Const(0))]
        for x in items:
            outs = it.bind(outs, lambda s2, acc, x=x: it.binop(s2, _ast.Add(), acc, x, node))
        return outs
    return it.bind(it.iterate(st, a[0], node), f)


def _anyall(which):
    def f(it, st, a, kw, node):
        def g(s, items):
            def go(s2, i):
                if i >= len(items):
                    return ret(s2, Const(not which))
                r = []
                for k, s3, b in it.branch(s2, items[i], node):
                    if k != V:
                        r.append((k, s3, b))
                    elif b == which:
                        r.extend(ret(s3, Const(which)))
                    else:
                        r.extend(go(s3, i + 1))
                return r
            return go(s, 0)
        return it.bind(it.iterate(st, a[0], node), g)
    return f


MODELS["builtins.any"] = _anyall(True)
MODELS["builtins.all"] = _anyall(False)


@model("builtins.isinstance")
def m_isinstance(it, st, a, kw, node):
    return [(V, s, Const(b)) for s, b in it.isinstance(st, a[0], a[1], node)]


@model("builtins.issubclass")
def m_issubclass(it, st, a, kw, node):
    if type(a[0]) is ClassV and type(a[1]) is ClassV:
        return ret(st, Const(a[1].info in a[0].info.mro))
    if type(a[0]) is ClassV and type(a[1]) is ExtV:
        return ret(st, Const(a[1].q in a[0].info.mro or a[1].q == "builtins.object"))
    return [(V, s, Const(b)) for s, b in it.test(st, Term("issubclass", (a[0], a[1])))]


@model("builtins.hasattr")
def m_hasattr(it, st, a, kw, node):
    if type(a[1]) is not Const:
        return [(V, s, Const(b)) for s, b in it.test(st, Term("hasattr", (a[0], a[1])))]
    return [(V, s, Const(b)) for s, b in it.hasattr(st, a[0], a[1].v, node)]


@model("builtins.getattr")
def m_getattr(it, st, a, kw, node):
    if type(a[1]) is not Const:
        return ret(st, Term("getattr", (a[0], a[1])))
    if len(a) > 2:
        r = []
        for s, b in it.hasattr(st, a[0], a[1].v, node):
            r.extend(it.getattr(s, a[0], a[1].v, node) if b else ret(s, a[2]))
        return r
    return it.getattr(st, a[0], a[1].v, node)


@model("builtins.setattr")
def m_setattr(it, st, a, kw, node):
    if type(a[1]) is Const:
        return it.setattr(st, a[0], a[1].v, a[2], node)
    nm = a[1]
    st.attrs[(a[0], nm)] = a[2]
    it.event(st, "setattr", a[0], nm, a[2], node=node)
    return ret(st)


@model("builtins.delattr")
def m_delattr(it, st, a, kw, node):
    if type(a[1]) is Const:
        return it.delattr(st, a[0], a[1].v, node)
    st.attrs[(a[0], a[1])] = Const("<deleted>")
    it.event(st, "delattr", a[0], a[1], node=node)
    return ret(st)


@model("builtins.callable")
def m_callable(it, st, a, kw, node):
    if type(a[0]) in (FuncV, ClassV, BoundM, PartialV, HookV, ExtV):
        return ret(st, TRUE)
    if type(a[0]) is Ref and st.heap[a[0].oid].kind == "inst":
        return ret(st, Const(it.class_attr(st, st.heap[a[0].oid].cls, "__call__") is not None))
    if type(a[0]) in (Const, TupleV, EnumV, Ref):
        return ret(st, FALSE)
    return [(V, s, Const(b)) for s, b in it.test(st, Term("callable", (a[0],)))]


@model("builtins.iter")
def m_iter(it, st, a, kw, node):
    if len(a) == 2:
        return ret(st, fresh("iter2"))
    v = a[0]
    if type(v) is Ref:
        o = st.heap[v.oid]
        if o.kind == "iter":
            return ret(st, v)
        if o.kind == "inst":
            m = it.class_attr(st, o.cls, "__iter__")
            if m is not None:
                return it.call(st, it.bindm(m, v), [], {}, node)
    if type(v) is CoroV:
        return ret(st, v)
    return it.bind(it.iterate(st, v, node), lambda s, its: ret(s, s.alloc(IterO(its))))


@model("builtins.next")
def m_next(it, st, a, kw, node):
    v = a[0]

    def stop(s):
        return ret(s, a[1]) if len(a) > 1 else it.exc(s, "StopIteration", node=node)
    if type(v) is Ref:
        o = st.heap[v.oid]
        if o.kind == "iter":
            if o.pos < len(o.items):
                x = o.items[o.pos]
                st.mut(v).pos += 1
                return ret(st, x)
            return stop(st)
        if o.kind == "list":
            # a generator expression, evaluated eagerly
            if o.items:
                x = o.items[0]
                st.mut(v).items.pop(0)
                return ret(st, x)
            return stop(st)
        step = it.stepper(st, v)
        if step is not None:
            r = []
            for k, s, x in step(it, st, [v], {}, node):
                r.extend(ret(s, a[1]) if k == "x" and x.cls == "StopIteration" and len(a) > 1 else [(k, s, x)])
            return r
        if o.kind == "inst":
            m = it.class_attr(st, o.cls, "__next__")
            if m is not None:
                outs = it.call(st, it.bindm(m, v), [], {}, node)
                if len(a) > 1:
                    return [x for k, s, e in outs for x in (ret(s, a[1]) if k == X and e.cls == "StopIteration" else [(k, s, e)])]
                return outs
    if type(v) is CoroV and v.f.fn.user:
        n = st.mon.get(("gen", v.uid), 0)
        st.mon[("gen", v.uid)] = n + 1
        if v.f.fn.handler:
            return v.f.fn.handler(it, st, v.f, [Const(n)] + list(v.args), {}, node)
        it.event(st, "gen_next", v.f, Const(n), node=node)
        if n == 0:
            return ret(st, fresh("yielded"))
        if n == 1:
            return stop(st)
        return stop(st)
    if type(v) is CoroV:
        # an internal generator driven by hand: evaluate eagerly, once
        key = ("genlist", v.uid)
        if key not in st.mon:
            def f(s, items):
                ref = s.alloc(IterO(items))
                s.mon[key] = ref
                return m_next(it, s, [ref] + a[1:], kw, node)
            st0 = st.fork()
            outs = it.run_gen(st, v, node)
            for o in outs:
                s = o[1]
                if s.trace is not st0.trace or s.fs != st0.fs or s.env != st0.env or s.ext != st0.ext or s.attrs != st0.attrs:
                    it.note(s, "generator driven by next()")
            return it.bind(outs, f)
        return m_next(it, st, [st.mon[key]] + a[1:], kw, node)
    return ret(st, fresh("next", vague=True))


@model("builtins.type")
def m_type(it, st, a, kw, node):
    if len(a) == 1:
        return ret(st, it.type_of(st, a[0]))
    return ret(st, fresh("type", vague=True))


@model("builtins.super")
def m_super(it, st, a, kw, node):
    return ret(st, SuperV(a[0].info, a[1]))


@model("builtins.id")
def m_id(it, st, a, kw, node):
    return ret(st, Term("id", (a[0],)))


@model("builtins.hash")
def m_hash(it, st, a, kw, node):
    return it.hashv(st, a[0], node)


@model("builtins.abs", "builtins.round")
def m_abs(it, st, a, kw, node):
    if type(a[0]) is Const:
        return ret(st, Const(abs(a[0].v)))
    return ret(st, Term("abs", tuple(a)))


@model("builtins.input")
def m_input(it, st, a, kw, node):
    it.event(st, "input", *a, node=node)
    return ret(st, fresh("answer", typ="str"))


@model("builtins.exit", "sys.exit", "builtins.quit", "os._exit")
def m_exit(it, st, a, kw, node):
    return [(X, st, ExcV("SystemExit", a, it.loc(st, node)))]


@model("builtins.staticmethod")
def m_static(it, st, a, kw, node):
    return ret(st, Term("staticmethod", (a[0],)))


@model("builtins.classmethod", "abc.abstractclassmethod")
def m_classm(it, st, a, kw, node):
    return ret(st, Term("classmethod", (a[0],)))


@model("builtins.property")
def m_prop(it, st, a, kw, node):
    return ret(st, Term("property", (a[0],)))


@model("functools.cached_property")
def m_cprop(it, st, a, kw, node):
    return ret(st, Term("cached_property", (a[0],)))


@model("builtins.vars", "builtins.globals", "builtins.locals")
def m_vars(it, st, a, kw, node):
    if a and type(a[0]) is Ref and st.heap[a[0].oid].kind == "inst":
        return it.getattr(st, a[0], "__dict__", node)
    return ret(st, Term("dir", tuple(a)))


@model("builtins.bytes", "builtins.bytearray")
def m_bytes(it, st, a, kw, node):
    if not a:
        return ret(st, Const(b""))
    if type(a[0]) is Sym and a[0].typ == "bytes":
        return ret(st, a[0])
    return ret(st, Term("bytes", tuple(a)))


@model("builtins.ord")
def m_ord(it, st, a, kw, node):
    return ret(st, Const(ord(a[0].v)) if type(a[0]) is Const and len(a[0].v) == 1 else Term("int", (Term("ord", (a[0],)),)))


@model("builtins.chr")
def m_chr(it, st, a, kw, node):
    return ret(st, Const(chr(a[0].v)) if type(a[0]) is Const else Term("chr", (a[0], NONE)))


@model("builtins.slice")
def m_slice(it, st, a, kw, node):
    a = list(a) + [NONE] * 3
    if len([x for x in a if x != NONE]) == 1 and a[1] == NONE:
        return ret(st, Term("slice_", (NONE, a[0], NONE)))
    return ret(st, Term("slice_", a[:3]))


# ------------------------------------------------------------------ containers

@method("list", "append")
def l_append(it, st, a, kw, node):
    st.mut(a[0]).items.append(a[1])
    return ret(st)


@method("list", "extend", "__iadd__")
def l_extend(it, st, a, kw, node):
    def f(s, its):
        s.mut(a[0]).items.extend(its)
        return ret(s)
    return it.bind(it.iterate(st, a[1], node), f)


@method("list", "insert")
def l_insert(it, st, a, kw, node):
    i = a[1].v if type(a[1]) is Const else 0
    st.mut(a[0]).items.insert(i, a[2])
    return ret(st)


@method("list", "appendleft")
def l_appendleft(it, st, a, kw, node):
    st.mut(a[0]).items.insert(0, a[1])
    return ret(st)


@method("list", "pop", "popleft")
def l_pop(it, st, a, kw, node):
    o = st.heap[a[0].oid]
    if not o.items:
        return it.exc(st, "IndexError", "pop from empty list", node=node)
    i = a[1].v if len(a) > 1 and type(a[1]) is Const else -1
    if getattr(node, "func", None) is not None and getattr(node.func, "attr", "") == "popleft":
        i = 0
    if not (-len(o.items) <= i < len(o.items)):
        return it.exc(st, "IndexError", node=node)
    return ret(st, st.mut(a[0]).items.pop(i))


@method("list", "remove")
def l_remove(it, st, a, kw, node):
    r = []
    for k, s, i in it.find(st, st.heap[a[0].oid].items, a[1], node, hashed=False):
        if k != V:
            r.append((k, s, i))
        elif i < 0:
            r.extend(it.exc(s, "ValueError", "not in list", node=node))
        else:
            s.mut(a[0]).items.pop(i)
            r.extend(ret(s))
    return r


@method("list", "index")
def l_index(it, st, a, kw, node):
    r = []
    for k, s, i in it.find(st, st.heap[a[0].oid].items, a[1], node, hashed=False):
        r.extend([(k, s, i)] if k != V else it.exc(s, "ValueError", node=node) if i < 0 else ret(s, Const(i)))
    return r


@method("list", "clear")
def l_clear(it, st, a, kw, node):
    st.mut(a[0]).items.clear()
    return ret(st)


@method("set", "clear")
def s_clear(it, st, a, kw, node):
    st.mut(a[0]).items.clear()
    return ret(st)


@method("list", "copy")
def l_copy(it, st, a, kw, node):
    return ret(st, st.alloc(st.heap[a[0].oid].copy()))


@method("set", "copy")
def s_copy(it, st, a, kw, node):
    return ret(st, st.alloc(st.heap[a[0].oid].copy()))


@method("dict", "copy", "__copy__")
def d_copy(it, st, a, kw, node):
    return ret(st, st.alloc(st.heap[a[0].oid].copy()))


@method("list", "reverse")
def l_reverse(it, st, a, kw, node):
    st.mut(a[0]).items.reverse()
    return ret(st)


@method("list", "count")
def l_count(it, st, a, kw, node):
    return ret(st, Const(sum(1 for x in st.heap[a[0].oid].items if x == a[1])))


@method("list", "__contains__")
def l_contains(it, st, a, kw, node):
    return B_(it.contains(st, a[0], a[1], node))


@method("set", "add")
def s_add(it, st, a, kw, node):
    return it.set_add(st, a[0], [a[1]], node)


@method("set", "update", "__ior__")
def s_update(it, st, a, kw, node):
    outs = ret(st)
    for x in a[1:]:
        outs = it.bind(outs, lambda s, _, x=x: it.bind(it.iterate(s, x, node), lambda s2, its: it.set_add(s2, a[0], its, node)))
    return outs


def _set_filter(keep_if_found):
    def f(it, st, a, kw, node):
        def g(s, its):
            cur = list(s.heap[a[0].oid].items)

            def go(s2, i, acc):
                if i >= len(cur):
                    s2.mut(a[0]).items[:] = acc
                    return ret(s2)
                r = []
                for k, s3, j in it.find(s2, its, cur[i], node):
                    r.extend(go(s3, i + 1, acc + [cur[i]] if (j >= 0) == keep_if_found else acc) if k == V else [(k, s3, j)])
                return r
            return go(s, 0, [])
        return it.bind(it.iterate(st, a[1], node), g)
    return f


CONTAINER[("set", "difference_update")] = _set_filter(False)
CONTAINER[("set", "intersection_update")] = _set_filter(True)


def _setop(name):
    import ast as _ast
    op = {"union": _ast.BitOr, "difference": _ast.Sub, "intersection": _ast.BitAnd}[name]

    def f(it, st, a, kw, node):
        outs = ret(st, a[0])
        for x in a[1:]:
            outs = it.bind(outs, lambda s, cur, x=x: it.setop(s, op, cur, x, node))
        if len(a) == 1:
            return ret(st, st.alloc(st.heap[a[0].oid].copy()))
        return outs
    return f


for _n in ("union", "difference", "intersection"):
    CONTAINER[("set", _n)] = _setop(_n)


@method("set", "isdisjoint")
def s_isdisjoint(it, st, a, kw, node):
    import ast as _ast
    return it.bind(it.setop(st, _ast.BitAnd, a[0], a[1], node), lambda s, r: ret(s, Const(not s.heap[r.oid].items)))


@method("set", "issubset")
def s_issubset(it, st, a, kw, node):
    import ast as _ast
    return it.bind(it.setop(st, _ast.Sub, a[0], a[1], node), lambda s, r: ret(s, Const(not s.heap[r.oid].items)))


@method("set", "remove", "discard")
def s_remove(it, st, a, kw, node):
    r = []
    name = getattr(getattr(node, "func", None), "attr", "remove")
    for k, s, i in it.find(st, st.heap[a[0].oid].items, a[1], node):
        if k != V:
            r.append((k, s, i))
        elif i < 0:
            r.extend(ret(s) if name == "discard" else it.exc(s, "KeyError", a[1], node=node))
        else:
            s.mut(a[0]).items.pop(i)
            r.extend(ret(s))
    return r


@method("set", "pop")
def s_pop(it, st, a, kw, node):
    o = st.heap[a[0].oid]
    if not o.items:
        return it.exc(st, "KeyError", "pop from an empty set", node=node)
    return ret(st, st.mut(a[0]).items.pop(0))


@method("dict", "get")
def d_get(it, st, a, kw, node):
    d = kwget(kw, a, 2, "default", NONE)
    return [(k, s, d if v is None else v) for k, s, v in it.dict_find(st, a[0], a[1], node)]


@method("dict", "setdefault")
def d_setdefault(it, st, a, kw, node):
    r = []
    for k, s, v in it.dict_find(st, a[0], a[1], node):
        if k != V or v is not None:
            r.append((k, s, v))
        else:
            dv = a[2] if len(a) > 2 else NONE
            r.extend(it.bind(it.dict_set(s, a[0], a[1], dv, node), lambda s2, _: ret(s2, dv)))
    return r


@method("dict", "pop")
def d_pop(it, st, a, kw, node):
    if len(a) > 2:
        r = []
        for k, s, v in it.dict_find(st, a[0], a[1], node):
            if k != V:
                r.append((k, s, v))
            elif v is None:
                r.extend(ret(s, a[2]))
            else:
                r.extend(it.dict_del(s, a[0], a[1], node))
        return r
    return it.dict_del(st, a[0], a[1], node)


@method("dict", "popitem")
def d_popitem(it, st, a, kw, node):
    o = st.heap[a[0].oid]
    if not o.items:
        return it.exc(st, "KeyError", "dictionary is empty", node=node)
    last = kwget(kw, a, 1, "last", TRUE)
    k, v = st.mut(a[0]).items.pop(-1 if last == TRUE else 0)
    return ret(st, TupleV((k, v)))


@method("dict", "move_to_end")
def d_move(it, st, a, kw, node):
    r = []
    for k, s, i in it.find(st, [x for x, _ in st.heap[a[0].oid].items], a[1], node):
        if k != V:
            r.append((k, s, i))
        elif i < 0:
            r.extend(it.exc(s, "KeyError", a[1], node=node))
        else:
            its = s.mut(a[0]).items
            x = its.pop(i)
            if kwget(kw, a, 2, "last", TRUE) == TRUE:
                its.append(x)
            else:
                its.insert(0, x)
            r.extend(ret(s))
    return r


@method("dict", "items")
def d_items(it, st, a, kw, node):
    return it.bind(it.dict_items(st, a[0]), lambda s, its: ret(s, TupleV([TupleV((k, v)) for k, v in its])))


@method("dict", "keys", "__iter__")
def d_keys(it, st, a, kw, node):
    return it.bind(it.dict_items(st, a[0]), lambda s, its: ret(s, s.alloc(SetO([k for k, v in its]))))


@method("dict", "values")
def d_values(it, st, a, kw, node):
    return it.bind(it.dict_items(st, a[0]), lambda s, its: ret(s, TupleV([v for k, v in its])))


@method("dict", "update", "__ior__")
def d_update(it, st, a, kw, node):
    outs = ret(st)
    if len(a) > 1:
        outs = it.dict_update(st, a[0], a[1], node)
    for k, v in kw.items():
        outs = it.bind(outs, lambda s, _, k=k, v=v: it.dict_set(s, a[0], Const(k), v, node))
    return outs


@method("dict", "clear")
def d_clear(it, st, a, kw, node):
    o = st.mut(a[0])
    o.items, o.base, o.gone = [], None, []
    return ret(st)


@method("dict", "__contains__")
def d_contains(it, st, a, kw, node):
    return B_(it.contains(st, a[0], a[1], node))


@method("dict", "__getitem__")
def d_getitem(it, st, a, kw, node):
    return it.getitem(st, a[0], a[1], node)


@method("dict", "__setitem__")
def d_setitem(it, st, a, kw, node):
    return it.dict_set(st, a[0], a[1], a[2], node)


@method("iter", "__next__")
def i_next(it, st, a, kw, node):
    return m_next(it, st, a, kw, node)


# ------------------------------------------------------------------ strings

def str_item(it, st, o, i, node):
    from .engine import lin_add
    if type(i) is Term and i.op == "slice_":
        lo, hi, step = i.args
        if step == NONE:
            L = it.length(st, o)
            # s[len(p):] after s.startswith(p); s[:len(s)-k]
            if lo == NONE or lo == Const(0):
                if hi == NONE:
                    return ret(st, o)
            r = word_slice(it, st, o, lo, hi)
            if r is not None:
                return ret(st, r)
            if type(o) is Sym and o.typ == "str" and lo != NONE and hi != NONE and lin_add(hi, lo, -1) == Const(1):
                # one character, or nothing at the end
                r = []
                for s, neg in it.num_test(st, lo, "lt"):
                    if neg:
                        r.extend(ret(s, Term("slice", (o,) + tuple(i.args))))
                    else:
                        r.extend((V, s2, Term("chr", (o, lo)) if b else Const("")) for s2, b in it.num_test(s, lin_add(lo, L, -1), "lt"))
                return r
        return ret(st, Term("slice", (o,) + tuple(i.args)))
    ps = word_parts(o)
    if type(i) is Const and isinstance(i.v, int):
        if i.v >= 0 and ps and type(ps[0]) is Const and len(ps[0].v) > i.v:
            return ret(st, Const(ps[0].v[i.v]))
        if i.v < 0 and ps and type(ps[-1]) is Const and len(ps[-1].v) >= -i.v:
            return ret(st, Const(ps[-1].v[i.v]))
    r = []
    # in range?
    from .engine import lin_add
    L = it.length(st, o)
    if type(i) is Const and i.v < 0:
        conds = it.num_test(st, lin_add(L, Const(-i.v), -1), "lt")
    else:
        conds = [(s, not b) for s, b in it.num_test(st, lin_add(i, L, -1), "lt")]
    for s, out in conds:
        if out:
            r.extend(it.exc(s, "IndexError", "string index out of range", node=node))
        else:
            r.append((V, s, Term("chr", (o, i))))
    return r


def word_slice(it, st, o, lo, hi):
    """Slices that cut a word at a part boundary or inside a constant."""
    from .engine import lin_add
    ps = word_parts(o)
    # positions of boundaries
    pos = [Const(0)]
    for p in ps:
        pos.append(lin_add(pos[-1], it.length(st, p)))

    def cut(at):
        """index (part, offset) of a position or None"""
        if at == NONE:
            return None
        for i, q in enumerate(pos):
            if q == at:
                return (i, 0)
        for i, q in enumerate(pos[:-1]):
            d = lin_add(at, q, -1)
            if type(d) is Const and isinstance(d.v, int) and d.v > 0 and type(ps[i]) is Const and d.v <= len(ps[i].v):
                return (i, d.v)
        return None
    if type(lo) is Const and isinstance(lo.v, int) and lo.v < 0:
        lo = lin_add(pos[-1], lo)
    if type(hi) is Const and isinstance(hi.v, int) and hi.v < 0:
        hi = lin_add(pos[-1], hi)
    a = (0, 0) if lo == NONE else cut(lo)
    b = (len(ps), 0) if hi == NONE else cut(hi)
    if a is None or b is None:
        return None
    if a > b:
        return Const("")
    out = []
    for i, p in enumerate(ps):
        if i < a[0] or i > b[0]:
            continue
        if type(p) is Const:
            s = a[1] if i == a[0] else 0
            e = b[1] if i == b[0] else len(p.v)
            out.append(Const(p.v[s:e]))
        elif i < b[0]:
            out.append(p)
    return concat(out)


def starts(it, st, o, p, node, end=False):
    """[(st,bool)] o.startswith(p)"""
    if type(p) is TupleV:
        r, work = [], [st]
        for x in p.items:
            nxt = []
            for s in work:
                for s2, b in starts(it, s, o, x, node, end):
                    if b:
                        r.append((s2, True))
                    else:
                        nxt.append(s2)
            work = nxt
        return r + [(s, False) for s in work]
    a, b = word_parts(o), word_parts(p)
    if p == Const(""):
        return [(st, True)]
    if o == Const(""):
        a = []
    if end:
        a, b = a[::-1], b[::-1]
    while b:
        if not a:
            if all(type(x) is Const or type(x) is Sym and x.atom for x in b):
                return [(st, False)]
            break
        x, y = a[0], b[0]
        if x == y:
            a, b = a[1:], b[1:]
            continue
        if type(x) is Const and type(y) is Const:
            sx, sy = (x.v, y.v) if not end else (x.v[::-1], y.v[::-1])
            n = min(len(sx), len(sy))
            if sx[:n] != sy[:n]:
                return [(st, False)]
            rx, ry = sx[n:], sy[n:]
            if end:
                rx, ry = rx[::-1], ry[::-1]
            a = ([Const(rx)] if rx else []) + a[1:]
            b = ([Const(ry)] if ry else []) + b[1:]
            continue
        ax = type(x) is Sym and x.atom
        ay = type(y) is Sym and y.atom
        if (ax or type(x) is Const) and (ay or type(y) is Const):
            # a distinguished atom never begins or ends with other constants or atoms,
            # and constants do not begin with it
            if not getattr(it.pol, "atom_prefix", False):
                return [(st, False)]
        break
    if not b:
        return [(st, True)]
    if end:
        a, b = a[::-1], b[::-1]
    op = "endswith" if end else "startswith"
    x, y = concat(a), concat(b)
    return it.test(st, Term(op, (x, y)))


def str_method(it, st, o, name, a, kw, node):
    if type(o) is Const and all(type(x) is Const for x in a) and not kw and name not in ("join",):
        try:
            r = getattr(o.v, name)(*[x.v for x in a])
        except (AttributeError, TypeError, ValueError, UnicodeError) as e:
            return it.exc(st, type(e).__name__, name, node=node)
        if isinstance(r, list):
            return ret(st, st.alloc(ListO([Const(x) for x in r])))
        if isinstance(r, tuple):
            return ret(st, TupleV([Const(x) for x in r]))
        return ret(st, Const(r))
    if name == "startswith":
        return [(V, s, Const(b)) for s, b in starts(it, st, o, a[0], node)]
    if name == "endswith":
        return [(V, s, Const(b)) for s, b in starts(it, st, o, a[0], node, end=True)]
    if name in ("split", "rsplit") and a and type(a[0]) is Const and len(a) == 1 and not kw:
        ps = word_split(o, a[0].v)
        if ps is not None:
            return ret(st, st.alloc(ListO(ps)))
        return ret(st, Term("split", (o, a[0])))
    if name in ("split", "rsplit") and len(a) == 2 and type(a[0]) is Const and type(a[1]) is Const:
        ps = word_split(o, a[0].v)
        if ps is not None:
            n = a[1].v
            sep = a[0]
            if name == "split":
                head, tail = ps[:n], ps[n:]
                if tail:
                    w = []
                    for i, x in enumerate(tail):
                        w += ([sep] if i else []) + [x]
                    head = head + [concat(w)]
            else:
                k = max(len(ps) - n, 1)
                w = []
                for i, x in enumerate(ps[:k]):
                    w += ([sep] if i else []) + [x]
                head = [concat(w)] + ps[k:]
            return ret(st, st.alloc(ListO(head)))
        return ret(st, Term(name, (o,) + tuple(a)))
    if name in ("partition", "rpartition") and type(a[0]) is Const:
        ps = word_split(o, a[0].v)
        if ps is not None:
            if len(ps) == 1:
                return ret(st, TupleV((o, Const(""), Const("")) if name == "partition" else (Const(""), Const(""), o)))
            sep = a[0]

            def jn(xs):
                w = []
                for i, x in enumerate(xs):
                    w += ([sep] if i else []) + [x]
                return concat(w)
            if name == "partition":
                return ret(st, TupleV((ps[0], sep, jn(ps[1:]))))
            return ret(st, TupleV((jn(ps[:-1]), sep, ps[-1])))
        return ret(st, TupleV([Term("smeth", (o, Const(name), a[0], Const(i))) for i in range(3)]))
    if name == "join":
        def f(s, its):
            parts = []
            for i, x in enumerate(its):
                if type(x) is Const and not isinstance(x.v, str):
                    return it.exc(s, "TypeError", "sequence item: expected str", node=node)
                parts += ([o] if i else []) + [x]
            return ret(s, concat(parts))
        if type(a[0]) is Term and a[0].op == "split" and a[0].args[1] == o:
            return ret(st, a[0].args[0])
        return it.bind(it.iterate(st, a[0], node), f)
    if name == "splitlines":
        ps = lines_of(it, st, o)
        if ps is not None:
            return ret(st, st.alloc(ListO([strip_nl(x) for x in ps])))
        return ret(st, Term("lines", (o,)))
    if name in ("strip", "lstrip", "rstrip"):
        ps = word_parts(o)
        chars = a[0].v if a and type(a[0]) is Const else None
        if all(opaque_free(p) for p in ps) or (type(ps[-1]) is Const and type(ps[0]) is Const):
            if name in ("strip", "lstrip") and type(ps[0]) is Const:
                ps[0] = Const(ps[0].v.lstrip(chars))
            if name in ("strip", "rstrip") and type(ps[-1]) is Const:
                ps[-1] = Const(ps[-1].v.rstrip(chars))
            return ret(st, concat(ps))
        if type(o) is Term and o.op == "strip":
            return ret(st, o)
        return ret(st, Term("strip" if name == "strip" and not a else "smeth", (o,) if name == "strip" and not a else (o, Const(name)) + tuple(a)))
    if name == "encode":
        if type(o) is Term and o.op == "decode" and len(o.args) == 1 and not a:
            return ret(st, o.args[0])
        if type(o) is Const and isinstance(o.v, str):
            return ret(st, Const(o.v.encode(a[0].v if a and type(a[0]) is Const else "utf-8", "surrogatepass")))
        return ret(st, Term("encode", (o,)))
    if name == "decode":
        if type(o) is Term and o.op == "encode":
            return ret(st, o.args[0])
        return it.bind([(V, st, None)], lambda s, _: decode(it, s, o, a, node))
    if name in ("lower", "casefold"):
        if type(o) is Term and o.op == "lower":
            return ret(st, o)
        return ret(st, concat([Const(p.v.lower()) if type(p) is Const else Term("lower", (p,)) for p in word_parts(o)]))
    if name == "upper":
        return ret(st, Term("upper", (o,)))
    if name == "format":
        if type(o) is Const:
            r = str_format(it, st, o.v, a, kw, node)
            if r is not None:
                return r
        return ret(st, Term("smeth", (o, Const(name)) + tuple(a)))
    if name in ("removeprefix", "removesuffix"):
        r = []
        for s, b in starts(it, st, o, a[0], node, end=name == "removesuffix"):
            if not b:
                r.append((V, s, o))
            else:
                from .engine import lin_add
                L = it.length(s, a[0])
                x = word_slice(it, s, o, L, NONE) if name == "removeprefix" else \
                    word_slice(it, s, o, NONE, lin_add(it.length(s, o), L, -1))
                r.append((V, s, x if x is not None else Term("smeth", (o, Const(name), a[0]))))
        return r
    if name == "replace":
        if all(type(x) is Const for x in a) and all(opaque_free(p) for p in word_parts(o)):
            return ret(st, concat([Const(p.v.replace(a[0].v, a[1].v)) if type(p) is Const else p for p in word_parts(o)]))
        return ret(st, Term("replace", (o,) + tuple(a)))
    if name in ("isalnum", "isnumeric", "isdigit", "isspace", "isalpha", "isupper", "islower", "isidentifier", "isdecimal"):
        return [(V, s, Const(b)) for s, b in it.test(st, Term(name, (o,)))]
    if name in ("find", "index", "rfind", "count"):
        t = fresh("find", typ="int", lo=-1 if "find" in name else 0)
        return ret(st, t)
    if name == "__contains__":
        return B_(it.contains(st, o, a[0], node))
    if name in ("hex",):
        return ret(st, Term("hexdigest", (o,)))
    return ret(st, Term("smeth", (o, Const(name)) + tuple(a)))


def strip_nl(x):
    ps = word_parts(x)
    if type(ps[-1]) is Const and ps[-1].v.endswith("\n"):
        return concat(ps[:-1] + [Const(ps[-1].v[:-1])])
    return x


def decode(it, st, o, a, node):
    enc = a[0].v if a and type(a[0]) is Const else "utf-8"
    if type(o) is Term and o.op in ("b64encode",):
        return ret(st, Term("decode", (o,)))
    if type(o) is Const and isinstance(o.v, bytes):
        try:
            return ret(st, Const(o.v.decode(enc)))
        except UnicodeError:
            return it.exc(st, "UnicodeDecodeError", node=node)
    if enc in ("latin-1", "latin1", "iso-8859-1"):
        return ret(st, Term("decode", (o, Const(enc))))
    r = []
    lossy = len(a) > 1 and type(a[1]) is Const and a[1].v != "strict"
    if lossy:
        return ret(st, Term("decode", (o, Const("lossy"))))
    for s, b in it.test(st, Term("isutf8", (o,))):
        if b:
            r.append((V, s, Term("decode", (o,))))
        else:
            r.extend(it.exc(s, "UnicodeDecodeError", node=node))
    return r


def str_format(it, st, fmt, a, kw, node):
    import string
    try:
        fields = list(string.Formatter().parse(fmt))
    except ValueError:
        return None
    parts, auto = [], 0
    for lit, field, spec, conv in fields:
        parts.append(Const(lit))
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            return None
        parts.append((v, spec))
    outs = [(V, st, [])]
    for p in parts:
        if isinstance(p, tuple):
            if p[1]:
                outs = [(k, s, acc + [it.fmt(p[0], Const(p[1]))]) for k, s, acc in outs]
            else:
                outs = it.bind(outs, lambda s, acc, p=p: it.bind(it.tostr(s, p[0], node), lambda s2, x: [(V, s2, acc + [x])]))
        else:
            outs = [(k, s, acc + [p]) for k, s, acc in outs]
    return [(k, s, concat(v)) if k == V else (k, s, v) for k, s, v in outs]


# ------------------------------------------------------------------ opaque receivers

def opaque_method(it, st, o, name, a, kw, node):
    """A method of a value of unknown type: pure readers of collections are terms,
    anything else is an unknown call."""
    if name == "items" and not a:
        return ret(st, Term("items", (o,)))
    if name == "keys" and not a:
        return ret(st, Term("keys", (o,)))
    if name == "values" and not a:
        return ret(st, Term("values", (o,)))
    if name == "get" and a:
        d = a[1] if len(a) > 1 else kw.get("default", NONE)
        return [(V, s, it.item_term(o, a[0]) if b else d) for s, b in it.test(st, Term("in", (a[0], o)))]
    if name == "copy" and not a:
        return ret(st, Term("copyof", (o,)))
    if name in ("__contains__",):
        return B_(it.contains(st, o, a[0], node))
    return it.call_opaque(st, Term("attr", (o, Const(name))), a, kw, node)


def generic_method(name):
    return GENERIC.get(name)


def g_enter(it, st, a, kw, node):
    it.event(st, "ext_enter", a[0], node=node)
    return ret(st, a[0])


def g_exit(it, st, a, kw, node):
    it.event(st, "ext_exit", a[0], node=node)
    return ret(st, FALSE)


GENERIC = {"__enter__": g_enter, "__exit__": g_exit, "__aenter__": g_enter, "__aexit__": g_exit}


# ------------------------------------------------------------------ standard library

@model("functools.wraps")
def m_wraps(it, st, a, kw, node):
    return ret(st, PartialV(ExtV("functools.update_wrapper@"), (a[0],), ()))


@model("functools.update_wrapper@")
def m_wraps2(it, st, a, kw, node):
    return m_update_wrapper(it, st, [a[1], a[0]], kw, node)


@model("functools.update_wrapper")
def m_update_wrapper(it, st, a, kw, node):
    w, f = a[0], a[1]
    if type(w) is not FuncV:
        return ret(st, w)
    o = st.mut(w.oid)
    if type(f) is FuncV:
        o.attrs.update(st.heap[f.oid].attrs)
    elif type(f) is Ref and st.heap[f.oid].kind == "inst":
        o.attrs.update(st.heap[f.oid].attrs)
    else:
        for n in ("__name__", "__qualname__", "__module__"):
            o.attrs[n] = Term("attr", (f, Const(n)))
        for (ob, n), v in list(st.attrs.items()):
            if ob == f and isinstance(n, str):
                o.attrs[n] = v
    o.attrs["__wrapped__"] = f
    return ret(st, w)


@model("functools.partial")
def m_partial(it, st, a, kw, node):
    return ret(st, PartialV(a[0], a[1:], tuple(kw.items())))


@model("functools.lru_cache", "functools.cache", "functools.total_ordering", "functools.singledispatch")
def m_lru(it, st, a, kw, node):
    if a and type(a[0]) in (FuncV, ClassV):
        return ret(st, a[0])
    return ret(st, HookV("identity", lambda it, st, a, kw, node: ret(st, a[0])))


@model("functools.reduce")
def m_reduce(it, st, a, kw, node):
    def f(s, items):
        items = ([a[2]] if len(a) > 2 else []) + items
        if not items:
            return it.exc(s, "TypeError", node=node)
        outs = ret(s, items[0])
        for x in items[1:]:
            outs = it.bind(outs, lambda s2, acc, x=x: it.call(s2, a[0], [acc, x], {}, node))
        return outs
    return it.bind(it.iterate(st, a[1], node), f)


@model("contextlib.contextmanager", "contextlib.asynccontextmanager")
def m_ctxm(it, st, a, kw, node):
    return ret(st, Term("ctxfactory", (a[0],)))


class _CM:
    pass


def _cm(kind):
    def f(it, st, a, kw, node):
        return ret(st, st.alloc(ExtO("cm." + kind, a, {"kw:" + k: v for k, v in kw.items()})))
    return f


for _n in ("suppress", "nullcontext", "closing", "redirect_stderr", "redirect_stdout", "ExitStack"):
    MODELS["contextlib." + _n] = _cm(_n)


@model("cm.nullcontext.__enter__")
def cm_null(it, st, a, kw, node):
    o = st.heap[a[0].oid]
    return ret(st, o.args[0] if o.args else o.attrs.get("kw:enter_result", NONE))


@model("cm.suppress.__exit__")
def cm_suppress(it, st, a, kw, node):
    o = st.heap[a[0].oid]
    if a[2] == NONE:
        return ret(st, FALSE)
    m = it.exc_matches(a[2], TupleV(o.args))
    if m is None:
        s2 = st.fork()
        return ret(st, TRUE) + ret(s2, FALSE)
    return ret(st, Const(m))


@model("cm.closing.__enter__")
def cm_closing(it, st, a, kw, node):
    return ret(st, st.heap[a[0].oid].args[0])


@model("cm.closing.__exit__")
def cm_closing_x(it, st, a, kw, node):
    t = st.heap[a[0].oid].args[0]
    return it.bind(it.bind(it.getattr(st, t, "close", node), lambda s, m: it.call(s, m, [], {}, node)), lambda s, _: ret(s, FALSE))


def _redirect(name):
    def en(it, st, a, kw, node):
        o = st.mut(a[0])
        o.attrs["old"] = st.ext.get("sys." + name, ExtV("sys." + name))
        st.ext["sys." + name] = o.args[0]
        return ret(st, o.args[0])

    def ex(it, st, a, kw, node):
        st.ext["sys." + name] = st.heap[a[0].oid].attrs["old"]
        return ret(st, FALSE)
    MODELS["cm.redirect_" + name + ".__enter__"] = en
    MODELS["cm.redirect_" + name + ".__exit__"] = ex


_redirect("stderr")
_redirect("stdout")


@model("cm.ExitStack.callback")
def es_callback(it, st, a, kw, node):
    o = st.mut(a[0])
    o.attrs["stack"] = TupleV(o.attrs.get("stack", TupleV(())).items + (TupleV((Const("cb"), PartialV(a[1], a[2:], tuple(kw.items())))),))
    return ret(st, a[1])


@model("cm.ExitStack.enter_context")
def es_enter(it, st, a, kw, node):
    cm = a[1]
    if type(cm) is CoroV:
        it.note(st, "generator context manager in ExitStack")
        return ret(st, fresh("entered", vague=True))

    def f(s, m):
        def g(s2, v):
            o = s2.mut(a[0])
            o.attrs["stack"] = TupleV(o.attrs.get("stack", TupleV(())).items + (TupleV((Const("cm"), cm)),))
            return ret(s2, v)
        return it.bind(it.call(s, m, [], {}, node), g)
    return it.bind(it.getattr(st, cm, "__enter__", node), f)


@model("cm.ExitStack.push")
def es_push(it, st, a, kw, node):
    o = st.mut(a[0])
    o.attrs["stack"] = TupleV(o.attrs.get("stack", TupleV(())).items + (TupleV((Const("cm"), a[1])),))
    return ret(st, a[1])


@model("cm.ExitStack.__exit__", "cm.ExitStack.close")
def es_exit(it, st, a, kw, node):
    exc = a[2] if len(a) > 2 else NONE
    items = st.heap[a[0].oid].attrs.get("stack", TupleV(())).items
    st.mut(a[0]).attrs["stack"] = TupleV(())
    work = [(st, exc)]
    out = []
    for kind, x in (i.items for i in reversed(items)):
        nxt = []
        for s, e in work:
            if kind.v == "cb":
                outs = it.call(s, x, [], {}, node)
                outs = [(k, s2, FALSE if k == V else v) for k, s2, v in outs]
            else:
                ea = [NONE, NONE, NONE] if e == NONE else [Const("<exc>"), e, fresh("tb", typ="obj")]
                outs = it.bind(it.getattr(s, x, "__exit__", node), lambda s2, m: it.call(s2, m, ea, {}, node))
            for k, s2, v in outs:
                if k == X:
                    nxt.append((s2, v))
                elif k == V:
                    for k3, s3, b in it.branch(s2, v):
                        nxt.append((s3, NONE if b and e != NONE else e))
                else:
                    out.append((k, s2, v))
        work = nxt
    for s, e in work:
        if e == NONE:
            out.append((V, s, Const(exc != NONE)))
        elif e == exc:
            out.append((V, s, FALSE))
        else:
            out.append((X, s, e))
    return out


@model("copy.copy")
def m_copy(it, st, a, kw, node):
    v = a[0]
    if type(v) is Ref:
        o = st.heap[v.oid]
        if o.kind == "inst":
            m = it.class_attr(st, o.cls, "__copy__")
            if m is not None:
                return it.call(st, it.bindm(m, v), [], {}, node)
        return ret(st, st.alloc(o.copy()))
    if type(v) in (Sym, Term) and v not in ():
        return ret(st, Term("copyof", (v,)) if not (type(v) is Sym and v.atom) else v)
    return ret(st, v)


@model("copy.deepcopy")
def m_deepcopy(it, st, a, kw, node):
    def dc(v, memo):
        if type(v) is Ref:
            if v.oid in memo:
                return memo[v.oid]
            o = st.heap[v.oid]
            if o.kind not in ("list", "dict", "set", "inst", "ext"):
                return v
            n = o.copy()
            r = st.alloc(n)
            memo[v.oid] = r
            if o.kind in ("list", "set"):
                n.items = [dc(x, memo) for x in o.items]
            elif o.kind == "dict":
                n.items = [(k, dc(x, memo)) for k, x in o.items]
            else:
                n.attrs = {k: dc(x, memo) for k, x in o.attrs.items()}
            return r
        if type(v) is TupleV:
            return TupleV([dc(x, memo) for x in v.items])
        return v
    return ret(st, dc(a[0], {}))


@model("json.dumps")
def m_dumps(it, st, a, kw, node):
    r = []
    for k, s, v in to_json(it, st, a[0], node):
        r.append((k, s, Term("jsondumps", (v, Const(kw.get("sort_keys", FALSE) == TRUE))) if k == V else v))
    return r


def to_json(it, st, v, node):
    """The JSON image of a value: tuples become lists; TypeError for non-JSON."""
    bad = []

    def conv(x, d=0):
        t = type(x)
        if d > 12:
            return fresh("deep", vague=True)
        if t is Ref:
            o = st.heap[x.oid]
            if o.kind == "list":
                return Term("listv", [conv(y, d + 1) for y in o.items])
            if o.kind == "dict" and "." in (o.typ or "") and not o.typ.startswith("collections."):
                bad.append(x)
                return x
            if o.kind == "dict":
                its = [TupleV((k if not (type(k) is Const and not isinstance(k.v, str)) else Const(str(k.v)), conv(y, d + 1))) for k, y in o.items]
                if o.base is not None:
                    if not its and not o.gone:
                        return Term("copyof", (o.base,))
                    return Term("dictv", [Term("base", (o.base,) + tuple(o.gone))] + its)
                return Term("dictv", its)
            bad.append(x)
            return x
        if t is TupleV:
            return Term("listv", [conv(y, d + 1) for y in x.items])
        if t is Const and isinstance(x.v, bytes) or t is EnumV or t in (FuncV, ClassV, ModV, BoundM, CoroV, ExcV) or \
                (t is Sym and x.typ in ("bytes", "obj")) or (t is Term and x.op in ("encode", "bytes", "b64encode", "b64decode", "bconcat")):
            bad.append(x)
        return x
    r = conv(v)
    if bad:
        return it.exc(st, "TypeError", f"not JSON serializable: {bad[0]!r}", node=node)
    return [(V, st, r)]


@model("json.dump")
def m_dump(it, st, a, kw, node):
    def f(s, j):
        return it.bind(it.getattr(s, a[1], "write", node), lambda s2, m: it.bind(it.call(s2, m, [Term("jsondumps", (j, Const(kw.get("sort_keys", FALSE) == TRUE)))], {}, node), lambda s3, _: ret(s3)))
    outs = []
    for k, s, v in to_json(it, st, a[0], node):
        if k == V:
            outs.extend(f(s, v))
        else:
            # the file has been truncated by then
            outs.append((k, s, v))
    return outs


def from_json(it, st, text, node):
    ps = word_parts(text)
    if len(ps) == 1 and type(ps[0]) is Term and ps[0].op == "jsondumps":
        text = ps[0]
    if type(text) is Term and text.op == "jsondumps":
        return ret(st, it.thaw(st, text.args[0], json=True))
    if type(text) is Term and text.op == "content0":
        m = it.pol.json_content(it, st, text) if hasattr(it.pol, "json_content") else None
        if m is not None:
            return m
    return ret(st, Term("jsonload", (text,)))


@model("json.load")
def m_load(it, st, a, kw, node):
    return it.bind(it.bind(it.getattr(st, a[0], "read", node), lambda s, m: it.call(s, m, [], {}, node)),
                   lambda s, t: from_json(it, s, t, node))


@model("json.loads")
def m_loads(it, st, a, kw, node):
    v = a[0]
    if type(v) is Term and v.op == "encode":
        v = v.args[0]
    return from_json(it, st, v, node)


@model("pickle.dump")
def m_pdump(it, st, a, kw, node):
    v = it.freeze(st, a[0])
    return it.bind(it.bind(it.getattr(st, a[1], "write", node), lambda s, m: it.call(s, m, [Term("pickled", (v,))], {}, node)), lambda s, _: ret(s))


@model("pickle.dumps")
def m_pdumps(it, st, a, kw, node):
    return ret(st, Term("pickled", (it.freeze(st, a[0]),)))


def unpickle(it, st, t, node):
    if type(t) is Term and t.op == "pickled":
        return ret(st, it.thaw(st, t.args[0]))
    return ret(st, Term("unpickle", (t,)))


@model("pickle.load")
def m_pload(it, st, a, kw, node):
    return it.bind(it.bind(it.getattr(st, a[0], "read", node), lambda s, m: it.call(s, m, [], {}, node)), lambda s, t: unpickle(it, s, t, node))


@model("pickle.loads")
def m_ploads(it, st, a, kw, node):
    return unpickle(it, st, a[0], node)


@model("hashlib.sha1", "hashlib.sha256", "hashlib.md5", "hashlib.sha512", "hashlib.blake2b")
def m_sha(it, st, a, kw, node):
    q = "hashlib"
    return ret(st, st.alloc(ExtO("hasher", (), {"parts": TupleV([x for x in a])})))


@model("hasher.update")
def m_shaup(it, st, a, kw, node):
    o = st.mut(a[0])
    o.attrs["parts"] = TupleV(o.attrs["parts"].items + (a[1],))
    return ret(st)


@model("hasher.hexdigest", "hasher.digest")
def m_shahex(it, st, a, kw, node):
    return ret(st, Term("hexdigest", st.heap[a[0].oid].attrs["parts"].items))


@model("base64.b64encode", "base64.standard_b64encode", "base64.urlsafe_b64encode")
def m_b64e(it, st, a, kw, node):
    v = a[0]
    if is_strlike(v):
        return it.exc(st, "TypeError", "a bytes-like object is required, not 'str'", node=node)
    if v == NONE:
        return it.exc(st, "TypeError", "a bytes-like object is required", node=node)
    if type(v) is Term and v.op == "b64decode":
        return ret(st, v.args[0])
    return ret(st, Term("b64encode", (v,)))


@model("base64.b64decode", "base64.standard_b64decode", "base64.urlsafe_b64decode")
def m_b64d(it, st, a, kw, node):
    v = a[0]
    for _ in range(4):
        if type(v) is Term and v.op in ("encode",):
            v = v.args[0]
        elif type(v) is Term and v.op == "decode" and type(v.args[0]) is Term and v.args[0].op == "b64encode":
            v = v.args[0]
        else:
            break
    if type(v) is Term and v.op == "b64encode":
        return ret(st, v.args[0])
    return ret(st, Term("b64decode", (v,)))


@model("time.time", "time.perf_counter", "time.monotonic", "time.time_ns", "time.process_time")
def m_time(it, st, a, kw, node):
    return ret(st, fresh("t", typ="num", lo=0))


@model("time.sleep")
def m_sleep(it, st, a, kw, node):
    it.event(st, "sleep", node=node)
    return ret(st)


@model("inspect.iscoroutinefunction", "asyncio.iscoroutinefunction")
def m_iscoro(it, st, a, kw, node):
    f = a[0]
    if type(f) is FuncV:
        if f.fn.is_async is None:
            return [(V, s, Const(b)) for s, b in it.test(st, Term("iscoro", (f,)))]
        return ret(st, Const(bool(f.fn.is_async)))
    if type(f) is PartialV:
        return m_iscoro(it, st, [f.f], kw, node)
    if type(f) in (Sym, Term):
        return [(V, s, Const(b)) for s, b in it.test(st, Term("iscoro", (f,)))]
    return ret(st, FALSE)


@model("inspect.isawaitable", "inspect.iscoroutine", "asyncio.iscoroutine")
def m_isaw(it, st, a, kw, node):
    if type(a[0]) is CoroV:
        return ret(st, Const(a[0].kind == "coro"))
    if type(a[0]) in (Const, Ref, TupleV, EnumV):
        return ret(st, FALSE)
    if type(a[0]) is Sym and a[0].name.startswith("ret_"):
        return ret(st, FALSE)
    return [(V, s, Const(b)) for s, b in it.test(st, Term("isawaitable", (a[0],)))]


@model("inspect.isgeneratorfunction")
def m_isgenf(it, st, a, kw, node):
    return ret(st, Const(type(a[0]) is FuncV and bool(a[0].fn.is_gen)))


@model("inspect.unwrap")
def m_unwrap(it, st, a, kw, node):
    f = a[0]
    while type(f) is FuncV and "__wrapped__" in st.heap[f.oid].attrs:
        f = st.heap[f.oid].attrs["__wrapped__"]
    return ret(st, f)


@model("inspect.ismethod")
def m_ismethod(it, st, a, kw, node):
    if type(a[0]) is FuncV:
        return ret(st, Const(a[0].self_ is not None))
    return [(V, s, Const(b)) for s, b in it.test(st, Term("ismethod", (a[0],)))]


@model("asyncio.run")
def m_asyncrun(it, st, a, kw, node):
    if type(a[0]) is not CoroV:
        return it.exc(st, "ValueError", "a coroutine was expected", node=node)
    return it.await_(st, a[0], node)


@model("asyncio.current_task")
def m_curtask(it, st, a, kw, node):
    return ret(st, st.alloc(ExtO("asyncio.Task", (), {})))


@model("asyncio.Task.cancelling")
def m_cancelling(it, st, a, kw, node):
    return [(V, st.fork(), Const(n)) for n in it.pol.cancelling]


@model("asyncio.Task.cancelled", "asyncio.Task.done")
def m_cancelled(it, st, a, kw, node):
    return ret(st, FALSE)


@model("six.create_bound_method", "types.MethodType")
def m_boundm(it, st, a, kw, node):
    f = a[0]
    if type(f) is FuncV:
        return ret(st, f.bind(a[1]))
    return ret(st, Term("boundmethod", (f, a[1])))


@model("six.get_method_self")
def m_getself(it, st, a, kw, node):
    return it.getattr(st, a[0], "__self__", node)


@model("six.get_method_function", "six.get_unbound_function")
def m_getfunc(it, st, a, kw, node):
    return it.getattr(st, a[0], "__func__", node)


@model("logging.getLogger")
def m_getlogger(it, st, a, kw, node):
    if not a or a[0] == NONE:
        return ret(st, ExtV("logging.root"))
    return ret(st, Term("logger", (a[0],)))


@model("attr:logging.root.handlers")
def m_handlers(it, st, a, kw, node):
    v = st.ext.get("logging.root.handlers")
    return ret(st, v if v is not None else Sym("handlers0", typ="list"))


def _logroot(op):
    def f(it, st, a, kw, node):
        v = st.ext.get("logging.root.handlers", Sym("handlers0", typ="list"))
        if type(v) is Ref:
            if op == "add":
                st.mut(v).items.append(a[0])
                return ret(st)
            return it.bind([(V, st, None)], lambda s, _: CONTAINER[("list", "remove")](it, s, [v, a[0]], {}, node))
        st.ext["logging.root.handlers"] = Term(op + "Handler", (v, a[0])) if op == "add" else \
            (v.args[0] if type(v) is Term and v.op == "addHandler" and v.args[1] == a[0] else Term("removeHandler", (v, a[0])))
        return ret(st)
    return f


MODELS["logging.root.addHandler"] = _logroot("add")
MODELS["logging.root.removeHandler"] = _logroot("remove")


def _pure_none(kind):
    def f(it, st, a, kw, node):
        it.event(st, kind, *[x for x in a if isinstance(x, Val)], node=node)
        return ret(st)
    return f


for _n in ("exception", "error", "warning", "info", "debug", "log", "basicConfig"):
    MODELS["logging." + _n] = _pure_none("log")
    MODELS["logging.root." + _n] = _pure_none("log")
MODELS["logging.StreamHandler.setFormatter"] = _pure_none("log")
MODELS["logging.StreamHandler.close"] = _pure_none("logclose")
MODELS["logging.StreamHandler.flush"] = _pure_none("log")
MODELS["traceback.print_exc"] = _pure_none("traceback")
MODELS["traceback.print_exception"] = _pure_none("traceback")


@model("traceback.format_exc")
def m_fexc(it, st, a, kw, node):
    return ret(st, fresh("traceback", typ="str"))


@model("os.cpu_count", "multiprocessing.cpu_count")
def m_cpu(it, st, a, kw, node):
    return ret(st, Sym("cpu_count", typ="int", lo=1))


@model("os.getcwd")
def m_cwd(it, st, a, kw, node):
    return ret(st, Sym("cwd", typ="str"))


@model("sys.modules.get", "getitem:sys.modules")
def m_sysmod(it, st, a, kw, node):
    if type(a[-1]) is Const and a[-1].v in it.mods and it.mods[a[-1].v] in st.heap:
        return ret(st, ModV(a[-1].v))
    return ret(st, Term("module", (a[0],)))


@model("inspect.getmodule")
def m_getmodule(it, st, a, kw, node):
    if type(a[0]) is ClassV:
        return ret(st, ModV(a[0].info.mod))
    return ret(st, Term("getmodule", (a[0],)))


# locks are typestate events
for _c in ("threading.Lock", "threading.RLock"):
    MODELS[_c + ".acquire"] = lambda it, st, a, kw, node: (it.event(st, "lock", a[0], node=node), ret(st, TRUE))[1]
    MODELS[_c + ".release"] = lambda it, st, a, kw, node: (it.event(st, "unlock", a[0], node=node), ret(st))[1]
    MODELS[_c + ".__enter__"] = lambda it, st, a, kw, node: (it.event(st, "lock", a[0], node=node), ret(st, TRUE))[1]
    MODELS[_c + ".__exit__"] = lambda it, st, a, kw, node: (it.event(st, "unlock", a[0], node=node), ret(st, FALSE))[1]


@model("dataclasses.dataclass")
def m_dataclass(it, st, a, kw, node):
    def deco(it, st, a, kw2, node):
        cls = a[0]
        import ast as _ast
        fields = [x.target.id for x in cls.info.node.body if isinstance(x, _ast.AnnAssign) and isinstance(x.target, _ast.Name)]
        base = it.class_attr(st, cls, "__dcfields__")
        pre = [x for x in base.items] if base is not None else []
        st.mut(cls.info.oid).attrs["__dcfields__"] = TupleV(pre + [Const(f) for f in fields])
        if it.class_attr(st, cls, "__eq__") is None:
            st.mut(cls.info.oid).attrs["__eq__"] = HookV("dc_eq", dc_eq)
        return ret(st, cls)
    if a:
        return deco(it, st, a, {}, node)
    return ret(st, HookV("dataclass", deco))


def dc_eq(it, st, a, kw, node):
    return ret(st, FALSE)


@model("dataclasses.field")
def m_field(it, st, a, kw, node):
    if "default_factory" in kw:
        return ret(st, Term("dcfactory", (kw["default_factory"],)))
    return ret(st, kw.get("default", NONE))


def dataclass_init(it, st, cls, ref, args, kw, node):
    fields = [f.v for f in it.class_attr(st, cls, "__dcfields__").items]
    outs = [(V, st, NONE)]
    vals = dict(zip(fields, args))
    vals.update({k: v for k, v in kw.items()})
    for f in fields:
        def put(s, _, f=f):
            if f in vals:
                s.mut(ref).attrs[f] = vals[f]
                return ret(s)
            d = it.class_attr(s, cls, f)
            if type(d) is Term and d.op == "dcfactory":
                def g(s2, v):
                    s2.mut(ref).attrs[f] = v
                    return ret(s2)
                return it.bind(it.call(s, d.args[0], [], {}, node), g)
            if d is None:
                return it.exc(s, "TypeError", f"missing {f}", node=node)
            s.mut(ref).attrs[f] = d
            return ret(s)
        outs = it.bind(outs, put)
    post = it.class_attr(st, cls, "__post_init__")
    if post is not None:
        outs = it.bind(outs, lambda s, _: it.call(s, it.bindm(post, ref), [], {}, node))
    return it.bind(outs, lambda s, _: ret(s, ref))


@model("collections.namedtuple")
def m_namedtuple(it, st, a, kw, node):
    return ret(st, fresh("namedtuple", vague=True))


def enum_lookup(it, st, cls, key, node, exc):
    """Enum[name] for an unknown name: one branch per member, one for no member."""
    r, work = [], [st]
    for nm, e in cls.info.enum.items():
        nxt = []
        for s in work:
            for k, s2, b in it.eq(s, key, Const(nm), node):
                if k != V:
                    r.append((k, s2, b))
                elif b:
                    r.append((V, s2, e))
                else:
                    nxt.append(s2)
        work = nxt
    for s in work:
        r.extend(it.exc(s, exc, key, node=node))
    return r


def enum_by_value(it, st, cls, val, node):
    r, work = [], [st]
    for nm, e in cls.info.enum.items():
        nxt = []
        for s in work:
            for k, s2, b in it.eq(s, val, Const(e.value), node):
                if k != V:
                    r.append((k, s2, b))
                elif b:
                    r.append((V, s2, e))
                else:
                    nxt.append(s2)
        work = nxt
    for s in work:
        r.extend(it.exc(s, "ValueError", val, node=node))
    return r
