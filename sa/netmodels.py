"""requests and httpx: sessions, adapters, transports, responses and headers."""
from .values import *
from .state import *
from .engine import V, X
from .extmodels import model, ret, kwget, MODELS

CI = ("requests.structures.CaseInsensitiveDict", "httpx.Headers")


def headers(it, st, typ, src, node=None):
    """[(k, st, headers)] of a mapping, a list of pairs or None."""
    d = st.alloc(DictO(typ=typ))
    if src is None or src == NONE:
        return ret(st, d)

    def low(s, _):
        if typ == "httpx.Headers":
            o = s.mut(d)
            o.items = [(Const(k.v.lower()) if type(k) is Const and isinstance(k.v, str) else k, v) for k, v in o.items]
        return ret(s, d)
    return it.bind(it.dict_update(st, d, src, node), low)


for _q in CI:
    MODELS[_q] = (lambda q: lambda it, st, a, kw, node: headers(it, st, q, a[0] if a else kw.get("headers", kw.get("data")), node))(_q)


def real(it, st, what, request, opts, node):
    """The outside world answers; policy hook `answer(it, st, what, n)` gives status, header pairs, content, encoding."""
    n = st.ext.get("real_calls", 0)
    st.ext["real_calls"] = n + 1
    it.event(st, "real", Const(what), request, Const(n), opts, node=node)
    return it.pol.answer(it, st, what, n)


@model("requests.Response")
def m_response(it, st, a, kw, node):
    return it.bind(headers(it, st, CI[0], None),
                   lambda s, h: ret(s, s.alloc(ExtO("requests.Response", (), {"headers": h, "status_code": NONE, "encoding": NONE, "_content": FALSE,
                                                                                  "_content_consumed": FALSE, "raw": NONE, "url": NONE, "request": NONE, "reason": NONE}))))


@model("attr:requests.Response.content")
def m_content(it, st, a, kw, node):
    """The body: what is there, or else read now, unless it was streamed already."""
    at = st.heap[a[0].oid].attrs
    if at["_content"] == FALSE or "~body" in at and at["_content_consumed"] == FALSE:
        if at["_content_consumed"] == TRUE or "~streamed" in at:
            return it.exc(st, "RuntimeError", "The content for this response was already consumed", node=node)
        if "~fails" in at:
            return [(X, st, ExcV("ConnectionError", (Const("real"),), "case"))]
        st.mut(a[0]).attrs["_content"] = at.get("~body", NONE)
    st.mut(a[0]).attrs["_content_consumed"] = TRUE
    return ret(st, st.heap[a[0].oid].attrs["_content"])


def stream(it, st, r, node=None, httpx=False):
    """What the caller gets who reads the body of a response in pieces: [(k, st, bytes)]"""
    at = st.heap[r.oid].attrs
    if httpx:
        if at["~read"] == TRUE:
            return ret(st, at["_content"])
        st.mut(r).attrs["~streamed"] = TRUE
        return ret(st, at["_content"])
    if at["_content_consumed"] == TRUE:
        return ret(st, at["_content"])
    if at["raw"] == NONE:
        return it.exc(st, "AttributeError", "'NoneType' object has no attribute 'read'", node=node)
    st.mut(r).attrs.update({"~streamed": TRUE})
    return ret(st, at.get("~body", NONE))


def close(it, st, r, node=None, httpx=False):
    """The caller closes the response without having read it."""
    at = st.heap[r.oid].attrs
    if httpx:
        if at["~read"] != TRUE:
            st.mut(r).attrs["~streamed"] = TRUE
    elif at["_content_consumed"] != TRUE:
        if at["raw"] == NONE:
            return it.exc(st, "AttributeError", "'NoneType' object has no attribute 'close'", node=node)
        st.mut(r).attrs["~streamed"] = TRUE
    return ret(st)


MODELS["requests.Response.iter_content"] = lambda it, st, a, kw, node: it.bind(stream(it, st, a[0], node), lambda s, v: ret(s, mklist(s, [v])))
MODELS["requests.Response.iter_lines"] = lambda it, st, a, kw, node: it.bind(stream(it, st, a[0], node), lambda s, v: ret(s, s.alloc(ListO([fresh("lines", vague=True)]))))
MODELS["requests.Response.close"] = lambda it, st, a, kw, node: close(it, st, a[0], node)
MODELS["requests.Response.__enter__"] = lambda it, st, a, kw, node: ret(st, a[0])
MODELS["requests.Response.__exit__"] = lambda it, st, a, kw, node: close(it, st, a[0], node)


@model("attr:requests.Response.text")
def m_text(it, st, a, kw, node):
    at = st.heap[a[0].oid].attrs
    return it.bind(m_content(it, st, a, kw, node), lambda s, c: ret(s, Term("decode", (c, at["encoding"]))))


def requests_response(it, st, req, status, hs, content, enc, fails=False):
    url = st.heap[req.oid].attrs.get("url", NONE) if type(req) is Ref else NONE
    return it.bind(headers(it, st, CI[0], st.alloc(DictO([(Const(k), v) for k, v in hs]))),
                   lambda s, h: ret(s, s.alloc(ExtO("requests.Response", (), dict({"headers": h, "status_code": status, "encoding": enc, "_content": FALSE,
                   "_content_consumed": FALSE, "raw": fresh("raw", typ="object"), "url": url, "request": req, "reason": fresh("reason"), "~body": content}, **({"~fails": TRUE} if fails else {}))))))


def opts_of(kw):
    return TupleV([TupleV((Const(k), v)) for k, v in sorted(kw.items())])


@model("requests.adapters.HTTPAdapter.send")
def m_adapter_send(it, st, a, kw, node):
    outs = []
    for r in real(it, st, "requests", a[1], opts_of(kw), node):
        k, s, v = r
        outs += [r] if k != V else requests_response(it, s, a[1], *v)
    return outs


MODELS["requests.adapters.BaseAdapter.__init__"] = lambda it, st, a, kw, node: ret(st)
MODELS["requests.adapters.BaseAdapter.close"] = lambda it, st, a, kw, node: ret(st)
MODELS["requests.adapters.HTTPAdapter.close"] = lambda it, st, a, kw, node: ret(st)
MODELS["requests.Session.close"] = lambda it, st, a, kw, node: ret(st)


@model("requests.Session.get_adapter")
def m_get_adapter(it, st, a, kw, node):
    return ret(st, st.alloc(ExtO("requests.adapters.HTTPAdapter")))


@model("requests.Session.send")
def m_session_send(it, st, a, kw, node):
    """requests' own Session.send: the adapter of the session gets the request."""
    ses, req = a[0], a[1]
    kw = dict(kw)
    return it.bind(it.getattr(st, req, "url", node), lambda s, url:
                   it.bind(session_attr(it, s, ses, "get_adapter", node), lambda s2, g:
                           it.bind(it.call(s2, g, [], {"url": url}, node), lambda s3, ad:
                                   it.bind(it.getattr(s3, ad, "send", node), lambda s4, f: it.call(s4, f, [req], kw, node)))))


def session_attr(it, st, ses, name, node=None):
    """Attribute of a session: its own, or the one of the class, bound."""
    o = st.heap[ses.oid]
    if name in o.attrs:
        return ret(st, o.attrs[name])
    v = st.ext.get("requests.Session." + name)
    if v is not None and v != ExtV("requests.Session." + name):
        if type(v) is FuncV:
            return ret(st, v.bind(ses))
        if type(v) is ExtV:
            return ret(st, BoundM(ses, name))
        return ret(st, v)
    return ret(st, BoundM(ses, name))


def httpx_response(it, st, status, hs, content, read=True, fails=False):
    if not (type(hs) is Ref or hs is None or hs == NONE):
        hs = st.alloc(DictO([(Const(k), v) for k, v in hs]))

    def f(s, h):
        return ret(s, s.alloc(ExtO("httpx.Response", (), {"headers": h, "status_code": status, "_content": content, "~read": Const(read), **({"~fails": TRUE} if fails else {})})))
    return it.bind(headers(it, st, CI[1], hs), f)


@model("httpx.Response")
def m_httpx_response(it, st, a, kw, node):
    content = kw.get("content", Const(b""))
    if is_str(content):
        content = Term("encode", (content,))
    for k in ("text", "json", "html", "stream"):
        if k in kw:
            content = fresh(k, vague=True, typ="bytes")

    def f(s, r):
        hs = dict(s.heap[s.heap[r.oid].attrs["headers"].oid].items)
        enc = hs.get(Const("content-encoding"))
        if enc is not None and enc not in (Const("identity"), Const("")):
            s.mut(r).attrs["_content"] = Term("decompress", (enc, s.heap[r.oid].attrs["_content"]))
        return ret(s, r)
    return it.bind(httpx_response(it, st, a[0] if a else kw["status_code"], kw.get("headers"), content), f)


def is_str(v):
    return type(v) is Const and isinstance(v.v, str) or type(v) is Sym and v.typ == "str"


@model("httpx.Response.read")
def m_httpx_read(it, st, a, kw, node):
    at = st.heap[a[0].oid].attrs
    if at["~read"] != TRUE:
        if "~streamed" in at:
            return it.exc(st, "httpx.StreamConsumed", node=node)
        if "~fails" in at:
            return [(X, st, ExcV("ConnectionError", (Const("real"),), "case"))]
        st.mut(a[0]).attrs["~read"] = TRUE
    return ret(st, at["_content"])


@model("attr:httpx.Response.content")
def m_httpx_content(it, st, a, kw, node):
    at = st.heap[a[0].oid].attrs
    if at["~read"] != TRUE:
        return it.exc(st, "httpx.ResponseNotRead", node=node)
    return ret(st, at["_content"])


MODELS["httpx.Response.close"] = lambda it, st, a, kw, node: close(it, st, a[0], node, True)
MODELS["httpx.Request.read"] = lambda it, st, a, kw, node: ret(st, st.heap[a[0].oid].attrs["content"])
MODELS["httpx.Request.aread"] = MODELS["httpx.Request.read"]


def _transport(what):
    def m(it, st, a, kw, node):
        outs = []
        for r in real(it, st, what, a[1], opts_of(kw), node):
            k, s, v = r
            outs += [r] if k != V else httpx_response(it, s, v[0], v[1], v[2], False, len(v) > 4 and v[4])
        return outs
    return m


MODELS["httpx.HTTPTransport.handle_request"] = _transport("httpx")


def _coro(m):
    def f(it, st, a, kw, node):
        h = it.user_fn(st, "transport", is_async=True, handler=lambda it2, s, g, a2, kw2, n2: m(it2, s, list(a2), dict(kw2), n2))
        return it.call(st, h, list(a), kw, node)
    return f


MODELS["httpx.Response.aread"] = _coro(m_httpx_read)
MODELS["httpx.Response.aclose"] = _coro(MODELS["httpx.Response.close"])
MODELS["httpx.AsyncHTTPTransport.handle_async_request"] = _coro(_transport("ahttpx"))
