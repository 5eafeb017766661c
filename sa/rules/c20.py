"""C20  Each request goes to the application it is meant for, and to no other."""
from ..absint import Abs, Closure
from ..lib import *
from ..objs import SELF, World

EXPLANATION = """
For each executor class the constructor is interpreted for two path prefixes, then the ASGI entry
point for every class of requests (protocol and kind of path: dispatch, static, modules, user's
route, look-alikes of these, anything else); methods are looked up in the class at hand. In every
case exactly one application is called, the expected one, once, with the scope, receive and send of the request.
"""
ASSUMPTIONS = ["ServeStaticASGI serves files below its root under its prefix and otherwise calls the application it wraps"]
MW = "reactpy.executors.asgi.middleware"
SA = "reactpy.executors.asgi.standalone"
PY = "reactpy.executors.asgi.pyscript"
SCOPE, RECEIVE, SEND = ("S", "scope"), ("S", "receive"), ("S", "send")
USER = ("S", "user's application")
ARGS = (SCOPE, RECEIVE, SEND)


class W(World):
    def __init__(self, ck, cls, prefix, typ="http", path="/"):
        super().__init__(ck, (MW, SA, PY), {SELF: cls})
        self.prefix, self.typ, self.path = prefix, typ, path

    def attr(self, st, v, name):
        if name == "current" and "REACTPY_PATH_PREFIX" in repr(v):
            return ("k", self.prefix)
        if v[0] == "match":
            return None
        return super().attr(st, v, name)

    def item(self, st, v, k):
        if v == SCOPE and k[0] == "k":
            return {"type": ("k", self.typ), "path": ("k", self.path), "method": ("k", "GET")}.get(k[1])
        return None

    def truth(self, st, v):
        if v[0] == "C" and v[1] == "isinstance" and v[2][0][0] == "S":
            return False
        if v[0] == "S" or v[0] == "C" and isinstance(v[1], str) and v[1].endswith(("ServeStaticASGI", "guarantee_single_callable")):
            return True
        return super().truth(st, v)

    def reach(self, st, label, args, i):
        ns = st.copy()
        ns.ev = ns.ev + ((label, tuple(args[:3]) == ARGS),)
        return [("v", ("S", "socket") if label == "dispatch" else self.coro(ns, ("k", None), i), ns)]

    def ext(self, ai, st, i, key, recv, args, kw):
        if key == "class:" + MW + ".ReactPyWebsocket":
            return self.reach(st, "dispatch", [dict(kw).get(n, a) for n, a in zip(("scope", "receive", "send"), list(args) + [None] * 3)], i)
        if key.endswith("guarantee_single_callable"):
            return [("v", ("C", "guarantee_single_callable", args, ()))]
        if key.endswith(("asgi_tools.ResponseHTML", "render_index_html")):
            st = st.copy()
            st.ev = st.ev + (("index", True),) if not any(e[0] == "index" for e in st.ev) else st.ev
            return [("v", ("S", "response"), st)]
        v = recv if key == "value" else ai.getattr(st, recv, key.rsplit(".", 1)[-1]) if recv is not None else None
        if v is None:
            return None
        if v == ("S", "response"):
            st = st.copy()
            return [("v", self.coro(st, ("k", None), i), st)]
        if v[0] == "C" and v[1] == "guarantee_single_callable":
            if v[2] == (USER,):
                return self.reach(st, "user's application", args, i)
            v = v[2][0]
            t = self.target(st, v)
            if t:
                return self.results(t[0], self.interpret(t[0], t[1], args, kw, st), st, i)
        if v == USER:
            return self.reach(st, "user's application", args, i)
        if v[0] == "C" and isinstance(v[1], str) and v[1].endswith("ServeStaticASGI"):
            d = dict(v[3])
            pre = d.get("prefix", ("k", None))[1]
            root = repr(d.get("root"))
            label = f"files under {pre!r}"
            if pre == self.prefix + "static/" and "'static'" in root and "MODULES" not in root:
                label = "static files"
            elif pre == self.prefix + "modules/" and "REACTPY_WEB_MODULES_DIR" in root:
                label = "web modules"
            return self.reach(st, label, args, i)
        if v[0] == "S" and v[1] == "route":
            return self.reach(st, v[2], args, i)
        return None


def cases(prefix, standalone, csr):
    """protocol, kind of path, path, expected"""
    rest = "index" if standalone else "user's application"
    no_ws = None if standalone else "user's application"
    outside = "/x" + prefix
    out = [
        ("http", "static file", prefix + "static/index.js", "static files"),
        ("http", "static folder", prefix + "static/", "static files"),
        ("http", "web module", prefix + "modules/a/b.js", "web modules"),
        ("http", "static, without slash", prefix + "static", rest),
        ("http", "looks like static", prefix + "staticx/index.js", rest),
        ("http", "static outside of the prefix", outside + "static/index.js", rest),
        ("http", "modules outside of the prefix", outside + "modules/index.js", rest),
        ("http", "dispatch path", prefix + "app.Root/", rest),
        ("http", "prefix", prefix, rest),
        ("http", "root", "/", rest),
        ("websocket", "static path", prefix + "static/index.js", no_ws),
        ("websocket", "modules path", prefix + "modules/index.js", no_ws),
        ("websocket", "root", "/", no_ws),
        ("websocket", "elsewhere", "/elsewhere/", no_ws),
        ("websocket", "dispatch outside of the prefix", outside + "app.Root/", no_ws),
        ("websocket", "below dispatch", prefix + "app.Root/more/", no_ws),
        ("websocket", "dispatch without slash", prefix + "app.Root", no_ws),
        ("lifespan", "lifespan", "", rest if not standalone else "nothing"),
    ]
    alike = prefix.replace(".", "x").replace("+", "")
    if alike != prefix:
        out.append(("websocket", "prefix taken as a pattern", alike + ("" if standalone else "app.Root/"), no_ws))
    if csr:
        out += [("websocket", "prefix", prefix, no_ws), ("websocket", "component", prefix + "app.Root/", no_ws)]
    elif standalone:
        out += [("websocket", "prefix", prefix, "dispatch"), ("websocket", "component", prefix + "app.Root/", no_ws)]
    else:
        out += [("websocket", "component", prefix + "app.Root/", "dispatch"), ("websocket", "name with digits", prefix + "a_1.b2/", "dispatch"), ("websocket", "prefix", prefix, no_ws), ("websocket", "empty name", prefix + "/", no_ws)]
    return out


def run(ck):
    P = ck.p
    call = role(P, MW + ".ReactPyMiddleware", "__call__")
    ck.rule("routes", "a request goes to exactly one application, the expected one", 100)
    for cq, standalone, csr in ((MW + ".ReactPyMiddleware", False, False), (SA + ".ReactPy", True, False), (PY + ".ReactPyCsr", True, True)):
        cls = P.cls(cq)
        init = P.method(cls, "__init__")
        for prefix in ("/reactpy/", "/a.b/c++/"):
            w = W(ck, cls, prefix)
            st = heap_after_init(w, init, {"app": USER, "root_component": ("S", "root"), "file_paths": ("T", ("k", "a.py"))})
            ck.need(st, f"the constructor of {cls.qual}")
            for typ, kind, path, want in cases(prefix, standalone, csr):
                one(ck, w, call, cls, st, typ, path, want, f"{cls.qual.rsplit('.', 1)[-1]} at {prefix}: {typ} {kind}")
            if standalone:
                routes(ck, w, call, cls, st, prefix)


def heap_after_init(w, init, values, heap=None):
    """state in which the constructor leaves the object"""
    from ..absint import State

    base = State({}, {("@", ("S", "none"), "x"): ("k", None), **(heap or {})})
    o = ("O", "settings", 99)
    base.heap[o] = ("dict", ())
    l = ("O", "empty", 99)
    base.heap[l] = ("list", ())
    a = init.node.args
    kw = []
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    for k, v in values.items():
        if k in names:
            kw.append((k, v))
    if "root_components" in names and "root_components" not in values:
        kw.append(("root_components", l))
    kw.append((None, o))
    args = values["file_paths"][1:] if a.vararg else ()
    outs = w.interpret(init, SELF, args, kw, base)
    ok = [x for x in outs or () if x.kind == "exit"]
    if not ok:
        return None
    st = ok[0].st.copy()
    st.ev = ()
    return st


def one(ck, w, call, cls, st, typ, path, want, what):
    w.typ, w.path = typ, path
    f = w.P.method(cls, "__call__")
    outs = w.interpret(f, SELF, ARGS, (), st)
    bad = None if outs else "the request is not answered"
    for o in outs or ():
        labels = [e[0] for e in o.st.ev]
        if any(not e[1] for e in o.st.ev):
            bad = bad or f"the {labels[0]} does not get the scope, receive and send of the request"
        if o.value and o.value[0] == "awaitable" or w.unawaited(o):
            bad = bad or "the application is called but not awaited"
        if o.kind == "exc_exit" and not labels:
            labels = ["refused"]
        if want is None:
            # no application is meant for it
            if labels not in ([], ["refused"]):
                bad = bad or f"the request goes to the {labels[0]}, though nothing is meant for it"
        elif want == "nothing":
            if labels:
                bad = bad or f"the request goes to the {labels[0]}"
        elif labels != [want]:
            bad = bad or (f"the request goes to {'the ' + ' and the '.join(labels) if labels else 'nothing'}, not to the {want}")
    ck.ob(not bad, what, call.loc(), f"{what}: {bad}")


def routes(ck, w, call, cls, st, prefix):
    """routes which the user adds"""
    P = ck.p
    short = f"{cls.qual.rsplit('.', 1)[-1]} at {prefix}"
    for k, (path, typ) in enumerate((("/api/", "http"), ("^/item/[0-9]+$", "http"), ("/ws/", "websocket"))):
        outs = w.interpret(P.method(cls, "route"), SELF, (("k", path), ("k", typ)), (), st)
        ok = [o for o in outs or () if o.kind == "exit"]
        ck.need(ok, "the decorator for routes")
        o = ok[0]
        v = o.value
        ck.need(v[0] == "F" and v[1] in P.funcs, "the decorator for routes")
        f = P.funcs[v[1]]
        app = ("S", "route", f"route {path}")
        ai = Abs(flow(ck, f, w.opq), {f.params()[0]: app}, Closure(w, o, {"self": SELF, "path": ("k", path), "type": ("k", typ)}), heap=dict(o.st.heap))
        ok = [x for x in ai.ended if x.kind == "exit"]
        ck.ob(bool(ok) and all(x.value == app for x in ok), f"{short}: what the decorator for {path} returns", f.loc(), "the decorator does not return the application")
        if not ok:
            return
        st = ok[0].st.copy()
        st.ev = ()
    for typ, kind, path, want in (
        ("http", "route", "/api/", "route /api/"),
        ("http", "pattern route", "/item/42", "route ^/item/[0-9]+$"),
        ("http", "below a route", "/api/more", "index"),
        ("http", "before a route", "/x/api/", "index"),
        ("http", "pattern not matched", "/item/x", "index"),
        ("http", "websocket route", "/ws/", "index"),
        ("websocket", "route", "/ws/", "route /ws/"),
        ("websocket", "http route", "/api/", None),
        ("http", "static file, with routes", prefix + "static/a.js", "static files"),
        ("http", "no route", "/other/", "index"),
    ):
        one(ck, w, call, cls, st, typ, path, want, f"{short}: {typ} {kind}")
    # a route cannot take what belongs to ReactPy
    outs = w.interpret(P.method(cls, "route"), SELF, (("k", ".*"), ("k", "http")), (), st)
    o = [o for o in outs if o.kind == "exit"][0]
    f = P.funcs[o.value[1]]
    ai = Abs(flow(ck, f, w.opq), {f.params()[0]: ("S", "route", "catch-all")}, Closure(w, o, {"self": SELF, "path": ("k", ".*"), "type": ("k", "http")}), heap=dict(o.st.heap))
    st2 = [x for x in ai.ended if x.kind == "exit"][0].st.copy()
    st2.ev = ()
    one(ck, w, call, cls, st2, "http", prefix + "static/a.js", "static files", f"{short}: static file with a route for everything")
    one(ck, w, call, cls, st2, "http", prefix + "modules/a.js", "web modules", f"{short}: web module with a route for everything")
    one(ck, w, call, cls, st2, "http", "/other/", "catch-all", f"{short}: route for everything")
    one(ck, w, call, cls, st2, "http", "/api/", "route /api/", f"{short}: first of two routes")


RULES = [run]
