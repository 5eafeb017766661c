"""C22  The page served is complete, cacheable and the same for every request."""
import hashlib

from ..absint import deep
from ..lib import *
from ..objs import SELF
from .c20 import ARGS, PY, SA, SCOPE, USER, heap_after_init
from .c20 import W as Base

EXPLANATION = """
The page application of each standalone executor is interpreted from the executor's constructor over
sequences of requests (methods, conditional headers, headers of the user). What renders the parts of
the page is represented by texts with characters of several bytes, dates by counting. The response
to each request, its headers and its body are compared with what HTTP and the page's parts require,
and with the responses to earlier requests.
"""
ASSUMPTIONS = ["asgi_tools' responses send the headers and the content they are given, encoded as UTF-8"]
APP = ("S", "page")
MON = ("S", "monitor")
NONE = ("k", None)
HEAD, BODY = ("S", "html", "head"), ("S", "html", "prepended")
T_HEAD, T_BODY, T_MOUNT, T_SETUP = f"<head><title>\u20ac{'head' * 20000}</title></head>", "<p>prepended \u00e9</p>", "<script>mount</script>", "<script>setup</script>"


CSR = {"root_name": ("k", "main"), "initial": ("k", "<i>loading</i>"), "extra_py": ("T", ("k", "numpy")), "extra_js": ("S", "extra_js"), "pyscript_config": ("S", "config")}
HANDED = (("pyscript_component_html", "initial", "initial"), ("pyscript_component_html", "root", "root_name"), ("pyscript_setup_html", "extra_py", "extra_py"), ("pyscript_setup_html", "extra_js", "extra_js"), ("pyscript_setup_html", "config", "pyscript_config"))


class M(Base):
    method, inm, ims = "GET", None, None

    def __init__(self, ck, cls, app):
        super().__init__(ck, cls, "/reactpy/")
        self.classes = {**self.classes, APP: app}
        self.parts = {}

    def attr(self, st, v, name):
        if v == APP and name == "parent":
            return SELF
        return super().attr(st, v, name)

    def item(self, st, v, k):
        if v == SCOPE and k[0] == "k":
            if k[1] == "method":
                return ("k", self.method)
            if k[1] == "headers":
                return ("T", *[("T", ("k", n), x) for n, x in ((b"host", ("k", b"x")), (b"if-none-match", self.inm), (b"if-modified-since", self.ims), (b"accept", ("k", b"*"))) if x is not None])
        return super().item(st, v, k)

    def truth(self, st, v):
        if v[0] == "op" and v[1] in ("Is", "IsNot", "Eq", "NotEq") and ("k", ...) in v[2:]:
            same = v[2] == v[3]
            return same if v[1] in ("Is", "Eq") else not same
        if v[0] == "S" and v[1] in ("html", "extra_js", "config") or v[0] == "C" and isinstance(v[1], str) and v[1].startswith("."):
            return True
        return super().truth(st, v)

    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        d = dict(kw)
        f = self.P.funcs.get(key)
        if f is not None and f.module.name.startswith(("reactpy.executors.utils", "reactpy.executors.pyscript.utils", "reactpy.utils")):
            from ..objs import bind_call

            got = {k: deep(st, v) for k, v in bind_call(f, args, kw).items()}
            if last in ("vdom_head_to_html", "reactpy_to_string"):
                v = next(iter(got.values()), NONE)
                if v == HEAD:
                    return [("v", ("k", T_HEAD))]
                if v == BODY:
                    return [("v", ("k", T_BODY))]
                if "noscript" in repr(v):
                    return [("v", ("k", "<noscript></noscript>"))]
                return [("v", ("k", f"<{last}>{abs(hash(repr(v))) % 1000}</{last}>"))]
            if last in ("server_side_component_html", "pyscript_component_html", "pyscript_setup_html"):
                self.parts[last] = got
                return [("v", ("k", T_SETUP if "setup" in last else T_MOUNT))]
        if (key.startswith("asgi_tools.") or key.startswith("class:")) and last.startswith("Response"):
            self.n = len(st.ev)
            return [("v", ("response", args[0] if args else d.get("content", NONE), deep(st, d.get("headers", NONE), 24), d.get("status_code", ("k", 200)), d.get("content_type", ("k", "text/html" if "HTML" in last else None))))]
        if key == "value" and recv[0] == "response" or recv is not None and recv[0] == "response" and last == "__call__":
            return [("v", ("awaitable", NONE, ("coro", i.func.qual, i.id), "respond", recv, tuple(args)))]
        if recv is not None and recv[0] == "hash" and last in ("hexdigest", "digest"):
            return [("v", ("k", hashlib.md5(recv[1]).hexdigest()))]
        if args and args[0][0] == "k" and isinstance(args[0][1], bytes) and key.startswith(("hashlib.", "zlib.", "binascii.")):
            return [("v", ("hash", args[0][1]) if key.startswith("hashlib.") else ("k", hashlib.md5(args[0][1]).hexdigest()))]
        if last == "len" and args and args[0][0] == "k" and isinstance(args[0][1], (str, bytes)):
            return [("v", ("k", len(args[0][1])))]
        if key == "str" and args and args[0][0] == "k":
            return [("v", ("k", str(args[0][1])))]
        if last in ("formatdate", "format_datetime", "strftime"):
            n = st.heap.get(("@", MON, "time"), ("k", 0))[1]
            st = st.copy()
            st.heap[("@", MON, "time")] = ("k", n + 1)
            return [("v", ("k", f"Thu, 19 Nov 2026 23:55:{10 + n} GMT"), st)]
        if last in ("warning", "error", "info", "debug"):
            return [("v", NONE)]
        if last == "head" and recv is not None or last == "noscript" and recv is not None:
            return [("v", ("S", "html", last))]
        return None

    def awaited(self, st, v, i):
        if v[0] == "awaitable" and len(v) > 3 and v[3] == "respond":
            ns = st.copy()
            ns.ev = ns.ev + (("respond", v[4], v[5]),)
            return [("v", NONE, ns)]
        return super().awaited(st, v, i)


class Response:
    def __init__(self, e):
        _, (_, body, headers, status, ctype), args = e
        self.ok = tuple(args) == ARGS
        self.body = body[1] if body[0] == "k" else body
        if isinstance(self.body, bytes):
            self.body = self.body.decode()
        hs = headers[1] if headers[0] == "dict" else headers[1:] if headers[0] == "T" else ()
        self.headers = {}
        for k, v in hs:
            self.headers[str(k[1]).lower()] = v[1] if v[0] == "k" else v
        self.status = int(status[1]) if status[0] == "k" and status[1] is not None else 200
        self.headers.setdefault("content-type", f"{ctype[1]}; charset=utf-8")

    def __eq__(self, o):
        return (self.body, self.headers, self.status) == (o.body, o.headers, o.status)


def request(m, st, method="GET", inm=None, ims=None):
    """(response or problem, state after the request)"""
    m.method, m.inm, m.ims = method, inm, ims
    s = st.copy()
    s.ev = ()
    outs = m.interpret(m.P.method(m.classes[APP], "__call__"), APP, ARGS, (), s) or []
    ends = [o for o in outs if o.kind == "exit"]
    rs = []
    for o in ends:
        if len(o.st.ev) != 1:
            return f"{len(o.st.ev)} responses to a request", None
        r = Response(o.st.ev[0])
        if not r.ok:
            return "the response is not given the request's scope, receive and send", None
        if r not in rs:
            rs.append(r)
    if len(rs) != 1 or len(ends) != len(outs):
        return "no response to a request" if not rs else "the response depends on something else than the request", None
    return rs[0], ends[0].st


def executors(ck):
    P = ck.p
    for cq, aq in ((SA + ".ReactPy", SA + ".ReactPyApp"), (PY + ".ReactPyCsr", PY + ".ReactPyPyscriptApp")):
        yield cq.rsplit(".", 1)[-1], P.cls(cq), P.cls(aq)


def start(ck, cls, app, **given):
    m = M(ck, cls, app)
    vals = {"app": USER, "root_component": ("S", "root"), "file_paths": ("T", ("k", "a.py"), ("k", "b.py")), "html_head": HEAD, "html_lang": ("k", "fr"), **(CSR if cls.qual.startswith(PY) else {}), **given}
    st = heap_after_init(m, m.P.method(cls, "__init__"), vals)
    ck.need(st, f"the constructor of {cls.qual}")
    return m, st


def run(ck):
    P = ck.p
    for name, cls, app in executors(ck):
        loc = P.method(app, "__call__").loc()
        m, st = start(ck, cls, app)
        ob = lambda what, bad: ck.ob(not bad, f"{name}: {what}", loc, f"{name}, {what}: {bad}")
        ck.rule("page", "a request is answered with the whole page and headers which describe it", 2)
        first, s1 = request(m, st)
        if isinstance(first, str):
            ob("GET", first)
            continue
        h = first.headers
        bad = None
        if first.status != 200 or not isinstance(first.body, str) or T_MOUNT not in first.body:
            bad = f"status {first.status}, or not the page"
        elif h.get("content-length") not in (None, str(len(first.body.encode()))):
            bad = f"content-length {h.get('content-length')} of {len(first.body.encode())} bytes"
        elif "utf-8" not in str(h.get("content-type")).lower() or "text/html" not in str(h.get("content-type")):
            bad = f"content-type {h.get('content-type')}"
        elif not (isinstance(h.get("etag"), str) and h["etag"].removeprefix("W/").startswith('"') and h["etag"].endswith('"') and len(h["etag"]) > 8):
            bad = f"etag {h.get('etag')!r}"
        elif hashlib.md5(first.body.encode()).hexdigest() not in h["etag"]:
            bad = "the etag does not depend on the whole page"
        elif not str(h.get("last-modified")).endswith("GMT"):
            bad = f"last-modified {h.get('last-modified')!r}"
        ob("GET", bad)
        etag, mod = ("k", str(h.get("etag")).encode()), ("k", str(h.get("last-modified")).encode())
        ck.rule("again", "every request gets the same page, etag and date", 4)
        states = {"after GET": s1}
        for what, a in (("HEAD", {"method": "HEAD"}), ("not modified, etag", {"inm": etag}), ("not modified, date", {"ims": mod})):
            r, s = request(m, s1, **a)
            if s is not None:
                states["after " + what] = s
            ck.rule("head" if what == "HEAD" else "conditional", "", 0)
            if isinstance(r, str):
                bad = r
            elif what == "HEAD":
                bad = "the body is sent" if r.body else "the headers are not those of GET" if r.headers != h or r.status != 200 else None
            else:
                bad = f"status {r.status} instead of 304" if r.status != 304 else "the body is sent" if r.body else f"content-length {r.headers['content-length']} of an empty body" if r.headers.get("content-length") not in (None, "0") else "the etag is not sent" if r.headers.get("etag") != h["etag"] else None
            ob(what, bad)
        for what, s in states.items():
            shared = sorted({f"{k[1][1]}.{k[2]}" for k in s.heap if k[0] == "@" and k[1][0] in ("g", "class", "op")})
            ck.rule("again", "", 0)
            if shared:
                ob("kept " + what, f"{shared[0]} is kept for every application")
            r, _ = request(m, s)
            ob("GET " + what, r if isinstance(r, str) else "a different response" if r != first else None)
        ck.rule("conditional", "what the client has is confirmed, anything else is sent", 8)
        for what, a in (("another etag", {"inm": ("k", b'"0123456789abcdef"')}), ("a part of the etag", {"inm": ("k", etag[1][:9])}), ("empty etag", {"inm": ("k", b"")}), ("an older date", {"ims": ("k", b"Wed, 01 Jan 2020 00:00:00 GMT")})):
            for where, s in (("", s1), (", first request", st)):
                r, _ = request(m, s, **a)
                ob(what + where, r if isinstance(r, str) else f"status {r.status}, not the page" if r.status != 200 or r.body != first.body else None)
        ck.rule("head", "HEAD gets the headers of GET without the body", 2)
        r, s = request(m, st, method="HEAD")
        ob("HEAD, first request", r if isinstance(r, str) else "the body is sent" if r.body else "the headers are not those of GET" if {k: v for k, v in r.headers.items() if k != "last-modified"} != {k: v for k, v in h.items() if k != "last-modified"} else None)
        r, s = request(m, st, inm=etag)
        ck.rule("conditional", "", 0)
        ob("not modified, first request", r if isinstance(r, str) else "neither the page nor a confirmation" if (r.status, r.body) not in ((304, ""), (200, first.body)) else None)
        content(ck, name, cls, app, ob)
        headers(ck, name, cls, app, ob)


def headers(ck, name, cls, app, ob):
    ck.rule("headers", "headers of the user are part of every response and stay the user's", 2)
    from ..absint import State

    o = ("O", "user's headers", 98)
    m = M(ck, cls, app)
    given = (("x-a", "1"), ("cache-control", "no-store"))
    orig = ("dict", tuple((("k", k), ("k", v)) for k, v in given))
    vals = {"app": USER, "root_component": ("S", "root"), "file_paths": ("T", ("k", "a.py")), "html_head": HEAD, "html_lang": ("k", "fr"), "http_headers": o}
    st = heap_after_init(m, m.P.method(cls, "__init__"), vals, {o: orig})
    bad = None
    r0, s1 = request(m, st)
    if isinstance(r0, str):
        bad = r0
    else:
        for a in ({}, {"method": "HEAD"}, {"inm": ("k", str(r0.headers.get("etag")).encode())}):
            r, s1 = request(m, s1, **a)
            if isinstance(r, str):
                bad = bad or r
                break
            for k, v in given:
                if r.headers.get(k) != v:
                    bad = bad or f"{k} is not sent {a or ''}"
            if s1.heap.get(o) != orig:
                bad = bad or "the user's dictionary is changed"
    ob("user's headers", bad)


def content(ck, name, cls, app, ob):
    ck.rule("content", "the page has the language, head, prepended body and what mounts the component", 6)
    for what, given, want in (("prepended", {"prepend_body": BODY}, T_BODY), ("nothing prepended", {"prepend_body": NONE}, None), ("default", {}, "<noscript></noscript>")):
        m, st = start(ck, cls, app, **given)
        r, _ = request(m, st)
        if isinstance(r, str):
            ob(what, r)
            continue
        d = r.body if isinstance(r.body, str) else ""
        bad = None
        if not d.lower().startswith("<!doctype html"):
            bad = "no doctype"
        elif '<html lang="fr">' not in d:
            bad = "not the language"
        elif d.count(T_HEAD.removesuffix("</head>")) != 1 or d.count("</head>") != 1 or d.index("<head>") > d.index("<body>"):
            bad = "not the head, once"
        elif d.count(T_MOUNT) != 1 or not d.index("<body>") < d.index(T_MOUNT) < d.index("</body>"):
            bad = "not what mounts the component, once"
        elif want and (d.count(want) != 1 or not d.index("<body>") < d.index(want) < d.index(T_MOUNT)):
            bad = "not what is prepended, before the component"
        elif not want and d[d.index("<body>") + 6:d.index(T_MOUNT)].strip():
            bad = "something is prepended"
        if name == "ReactPyCsr" and not bad:
            comp = m.parts.get("pyscript_component_html", {})
            if d.count(T_SETUP) != 1 or d.index(T_SETUP) > d.index("</head>"):
                bad = "the setup of PyScript is not in the head"
            elif comp.get("file_paths") not in (("T", ("k", "a.py"), ("k", "b.py")), ("list", (("k", "a.py"), ("k", "b.py")))) or any(m.parts.get(f, {}).get(p) != CSR[a] for f, p, a in HANDED):
                bad = "the page is not made from the files, root name, initial content and options which were given"
        if name == "ReactPy" and not bad:
            comp = m.parts.get("server_side_component_html", {})
            if comp.get("component_path") != ("k", "") or not comp.get("element_id", NONE)[1]:
                bad = "the component is mounted for another path"
        ob(what, bad)


RULES = [run]
