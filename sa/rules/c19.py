"""C19  Only registered root components are rendered, and no request imports anything."""
from ..absint import deep
from ..lib import *
from ..objs import SELF, World
from .c20 import ARGS, MW, PY, RECEIVE, SA, SCOPE, SEND, USER

EXPLANATION = """
A connection is interpreted from its constructor to the point where a layout is served, for requests
which name a registered component, another one, or something that merely resembles a registered name.
The layout served has exactly the registered component, made for this connection, with the connection's own
scope and location; for every other name nothing is served.  Independently, no function that a
request reaches (call graph from every ASGI entry point) calls anything that imports by name.
"""
ASSUMPTIONS = ["calls through values (the user's application and components) are the user's business"]
U = "reactpy.executors.utils"
WS = ("S", "ws")
REG = {"app.Root": ("S", "component", "app.Root"), "app.Root2": ("S", "component", "app.Root2"), "pkg_1.mod.page": ("S", "component", "pkg_1.mod.page")}
ROOT = ("S", "component", "root")
IMPORTERS = ("importlib.import_module", "__import__", "exec", "eval", "runpy.run_module", "runpy.run_path", "pkgutil.resolve_name", "importlib.__import__")


class W(World):
    path = "/"
    query = b"path=%2Fa%20b&qs=%3Fx%3D1"

    def __init__(self, ck, cls, prefix="/reactpy/"):
        super().__init__(ck, (MW, SA, PY, U), {SELF: cls, WS: ck.p.cls(MW + ".ReactPyWebsocket")}, {q for q, f in ck.p.funcs.items() if f.module.name == U and f.name != "import_components"})
        self.prefix = prefix

    def attr(self, st, v, name):
        if name == "current" and "REACTPY_PATH_PREFIX" in repr(v):
            return ("k", self.prefix)
        return super().attr(st, v, name)

    def item(self, st, v, k):
        if v == SCOPE and k[0] == "k":
            return {"type": ("k", "websocket"), "path": ("k", self.path), "query_string": ("k", self.query)}.get(k[1])
        return None

    def truth(self, st, v):
        if v[0] == "S":
            return True
        return super().truth(st, v)

    def awaited(self, st, v, i):
        if v[0] == "awaitable" and len(v) > 3 and v[3] == "serve":
            ns = st.copy()
            ns.ev = ns.ev + (("served", *v[4:]),)
            fs = ns.copy()
            fs.ev = fs.ev + (("failed",),)
            return [("v", ("k", None), ns), ("raise", "Exception", ("k", None), fs), ("raise", "RuntimeError", ("k", None), fs)]
        return super().awaited(st, v, i)

    def ext(self, ai, st, i, key, recv, args, kw):
        if key == "reactpy.core.serve.serve_layout":
            return [("v", ("awaitable", ("k", None), ("coro", i.func.qual, i.id), "serve", tuple(deep(st, x, 24) for x in args), tuple(kw)))]
        if key == "value" and recv[0] == "S" and recv[1] == "component":
            st = st.copy()
            st.ev = st.ev + (("made", recv),)
            return [("v", ("S", "instance", *recv[1:]), st)]
        if key.endswith("parse_qs") and args and args[0][0] == "k":
            from urllib.parse import parse_qs

            keep = dict(kw).get("keep_blank_values", ("k", False))
            d = parse_qs(args[0][1], keep_blank_values=bool(keep[1]))
            return [("v", ("new", "dict", tuple((("k", k), ("T", *[("k", x) for x in v])) for k, v in d.items())))]
        if key.endswith(("import_dotted_path", "import_module", "__import__")):
            st = st.copy()
            st.ev = st.ev + (("import",),)
            return [("v", ("S", "component", args[0][1] if args and args[0][0] == "k" else "?"), st)]
        return None


def connection(ck, cls, root=None):
    """(model, state of an executor and a connection to it)"""
    from .c20 import heap_after_init

    w = W(ck, cls)
    init = w.P.method(cls, "__init__")
    st = heap_after_init(w, init, {"app": USER, "root_component": ROOT, "root_components": ("T", *[("k", n) for n in REG]), "file_paths": ("T", ("k", "a.py"))})
    ck.need(st, f"the constructor of {cls.qual}")
    st.ev = ()
    return w, st


def connect(w, st):
    """outcomes of entering a connection"""
    P = w.P
    ws = w.classes[WS]
    made = w.interpret(P.method(ws, "__init__"), WS, ARGS, (("parent", SELF),), st)
    out = []
    for o in made or ():
        if o.kind != "exit":
            continue
        s = o.st.copy()
        s.ev = ()
        out += w.interpret(P.method(ws, "__aenter__"), WS, (), (), s) or []
    return out


def terms(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            yield from terms(x)


def run(ck):
    P = ck.p
    wsc = P.cls(MW + ".ReactPyWebsocket")
    enter = P.method(wsc, "__aenter__")
    ck.need(enter, "entering a connection")
    loc = enter.loc()
    ck.rule("selection", "the component served is the one registered under the name in the path, or none", 12)
    pre = "/reactpy/"
    for cq, standalone in ((MW + ".ReactPyMiddleware", False), (SA + ".ReactPy", True)):
        cls = P.cls(cq)
        w, st = connection(ck, cls)
        short = cls.qual.rsplit(".", 1)[-1]
        if standalone:
            cases = [("own path", pre, ROOT), ("a name in the path", pre + "os.system/", ROOT)]
        else:
            cases = [("registered", pre + n + "/", c) for n, c in REG.items()]
            cases += [("not registered", pre + "os.system/", None), ("part of a name", pre + "app.Roo/", None), ("longer name", pre + "app.Root.x/", None), ("module of a name", pre + "app/", None),
                      ("name in other case", pre + "app.root/", None), ("dunder", pre + "app.Root.__class__/", None), ("dots", pre + "../", None), ("nothing", pre, None),
                      ("last part of a name", pre + "Root/", None), ("last part of a name", pre + "page/", None), ("last parts of a name", pre + "mod.page/", None), ("same last part", pre + "other.Root/", None),
                      ("dot after a name", pre + "app.Root./", None), ("dot before a name", pre + ".app.Root/", None), ("module in other case", pre + "App.Root/", None), ("dash for underscore", pre + "pkg-1.mod.page/", None), ("same first part", pre + "app.Other/", None)]
        for what, path, want in cases:
            w.path = path
            outs = connect(w, st)
            bad = None if outs else "the connection cannot be made"
            for o in outs:
                served = [e for e in o.st.ev if e[0] == "served"]
                made = [e[1] for e in o.st.ev if e[0] == "made"]
                if any(e[0] == "import" for e in o.st.ev):
                    bad = bad or "something is imported"
                if want is None:
                    if served or made:
                        bad = bad or f"{'a layout is served' if served else 'a component is made'} for a name which is not registered"
                elif len(served) != 1 or made != [want]:
                    bad = bad or ("nothing is served" if not served else "the component is not made once for the connection" if len(served) == 1 else "two layouts are served")
            ck.ob(not bad, f"{short}: {what} {path}", loc, f"{short}, {what} ({path}): {bad}")
            if want is not None and what in ("registered", "own path"):
                conn(ck, w, outs, want, f"{short}: {path}", loc)
    # the query string of the connection
    w, st = connection(ck, P.cls(SA + ".ReactPy"))
    w.path = pre
    ck.rule("location", "the connection has the location in its query string", 4)
    for q, path, qs in ((b"path=%2Fa%20b&qs=%3Fx%3D1", "/a b", "?x=1"), (b"path=/x", "/x", ""), (b"qs=%3Fy%3D%26z&path=%2Fp%3Fq", "/p?q", "?y=&z"), (b"qs=%C3%A9&path=%2F%E2%82%AC", "/\u20ac", "\u00e9")):
        w.query = q
        outs = connect(w, st)
        bad = None if outs else "the connection cannot be made"
        for o in outs:
            for e in o.st.ev:
                if e[0] == "served":
                    l = [t for t in terms(e[1]) if t[:2] == ("C", "class:reactpy.types.Location")]
                    f = dict(w.fields(P.cls("reactpy.types.Location"), l[0])) if l else {}
                    if f.get("path") != ("k", path) or f.get("query_string") != ("k", qs):
                        bad = bad or f"location {f.get('path', ('', None))[1]!r}, {f.get('query_string', ('', None))[1]!r} instead of {path!r}, {qs!r}"
        ck.ob(not bad, f"location of {q.decode()}", loc, f"{q.decode()}: {bad}")
    imports(ck)


def conn(ck, w, outs, want, what, loc):
    """the layout served: instance and connection"""
    P = ck.p
    ck.rule("connection", "what is served is that component, in a context which describes this connection", 2)
    bad = None
    for o in outs:
        for e in o.st.ev:
            if e[0] != "served":
                continue
            args = list(e[1]) + [v for _, v in e[2]]
            layout = args[0] if args else ("?",)
            inst = ("S", "instance", *want[1:])
            if layout[:2] != ("C", "class:reactpy.core.layout.Layout"):
                bad = bad or "what is served is not a layout made here"
                continue
            if inst not in set(t for t in terms(layout) if t and t[0] == "S"):
                bad = bad or "the layout has not the component"
            if any(t and t[0] == "C" and str(t[1]).rsplit(".", 1)[-1] in ("setdefault", "get", "pop") and inst in t[2] for t in terms(layout)):
                bad = bad or "the component may be one which was made for another connection"
            cs = [t for t in terms(layout) if t[:2] == ("C", "class:reactpy.types.Connection")]
            f = dict(w.fields(P.cls("reactpy.types.Connection"), cs[0])) if cs else {}
            if f.get("scope") != SCOPE or f.get("carrier") != WS:
                bad = bad or "the connection is not described by its own scope and socket"
    ck.ob(not bad, what, loc, f"{what}: {bad}")
    ck.rule("selection", "", 0)


def imports(ck):
    """call graph from the entry points of requests"""
    P = ck.p
    ck.rule("no-import", "nothing that a request reaches imports by name", 8)
    roots = [f for f in P.funcs.values() if f.module.name.startswith("reactpy.executors.asgi") and isinstance(f.node, ast.AsyncFunctionDef)]
    ck.need(len(roots) >= 8, "the ASGI entry points")
    edges = {}

    def out(f):
        if f.qual not in edges:
            es = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    d = dotted(n.func) or ""
                    t = resolve_func(P, f, n.func)
                    if t is not None:
                        es.add(("f", t.qual))
                    elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" or isinstance(n.func, ast.Attribute) and f.module.name.startswith("reactpy.executors"):
                        # any method of that name in the executors
                        es |= {("f", q) for q, x in P.funcs.items() if x.cls and x.module.name.startswith("reactpy.executors.asgi") and x.name == n.func.attr}
                    full = P.resolve_dotted(f"{f.module.name}.{d}") if d else ""
                    head = d.split(".")[0]
                    imp = f.module.imports.get(head) if hasattr(f.module, "imports") else None
                    if imp:
                        full = ".".join([imp, *d.split(".")[1:]])
                    if d in ("__import__", "exec", "eval") or full in IMPORTERS:
                        es.add(("import", full or d))
            edges[f.qual] = es
        return edges[f.qual]

    for r in roots:
        seen, todo, bad = {r.qual: None}, [r.qual], None
        while todo:
            q = todo.pop()
            for k, t in out(P.funcs[q]):
                if k == "import":
                    c, chain = q, []
                    while c:
                        chain.append(c.removeprefix("reactpy."))
                        c = seen[c]
                    bad = f"{t} is called: {' <- '.join(chain)}"
                elif t not in seen and P.funcs[t].module.name.startswith(("reactpy.executors", "reactpy.utils")):
                    seen[t] = q
                    todo.append(t)
        ck.ob(not bad, name_of(r), r.loc(), f"a request reaches an import by name: {bad}")


RULES = [run]
