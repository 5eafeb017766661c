"""C24  Settings given to an executor configure exactly their options, and pages use them."""
import ast
import json
import re

from ..absint import deep
from ..lib import *
from ..objs import SELF, World
from .c20 import ARGS, MW, PY, SA, USER
from .c20 import W as Base

EXPLANATION = """
The constructor of every executor is interpreted for every setting (alone, all together, wrong ones):
the settings assigned to options are compared with those which were given. The page parts and import
maps are then interpreted for several values of the options, as concrete text, and parsed again:
every value a page carries is that of its option at the time, under the name the client reads.
Every place in the package which reads an option is a place which runs after settings are made.
"""
ASSUMPTIONS = ["options behave as specified in C23"]
CFG, U, JM, PU = "reactpy.config", "reactpy.executors.utils", "reactpy.reactjs.module", "reactpy.executors.pyscript.utils"
NONE = ("k", None)
DIR = ("S", "directory given as REACTPY_WEB_MODULES_DIR")
DEFAULTS = {"PATH_PREFIX": "/reactpy/", "RECONNECT_INTERVAL": 750, "RECONNECT_MAX_INTERVAL": 60000, "RECONNECT_MAX_RETRIES": 150, "RECONNECT_BACKOFF_MULTIPLIER": 1.25, "DEBUG": False}
SAMPLES = {"path_prefix": ("k", "/p2/"), "web_modules_dir": DIR, "reconnect_interval": ("k", 0), "reconnect_backoff_multiplier": ("k", 0.0), "async_rendering": ("k", False), "debug": ("k", False)}


def options(P):
    """{name: line} of the options the package declares"""
    m = P.modules[CFG]
    out = {}
    for n in m.tree.body:
        t = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AnnAssign) else None
        if isinstance(t, ast.Name) and t.id.startswith("REACTPY_") and isinstance(n.value, ast.Call):
            out[t.id] = n.lineno
    return out


def option_of(v):
    """name of the option a value is"""
    if isinstance(v, tuple) and len(v) > 1 and v[0] == "g" and isinstance(v[1], str):
        n = v[1].rsplit(".", 1)[-1]
        return n if n.startswith("REACTPY_") else None
    if isinstance(v, tuple) and v and v[0] == "attr" and isinstance(v[2], str) and v[2].startswith("REACTPY_"):
        return v[2]
    return None


class Settings(World):
    """options are a table: assigned values are events, values read are the last assigned"""
    table = DEFAULTS
    exists = True

    def now(self, st, n):
        for e in reversed(st.ev):
            if e[0] == "option" and e[1] == n:
                return e[2]
        v = self.table.get(n.removeprefix("REACTPY_"), ...)
        return ("k", v) if v is not ... else ("S", "value before", n.lower())

    def attr(self, st, v, name):
        n = option_of(v)
        if n and name == "current":
            return self.now(st, n)
        if v[0] == "g" and (self.P.resolve_dotted(v[1]) or v[1]) == CFG and name.startswith("REACTPY_"):
            return ("g", f"{CFG}.{name}") if name in options(self.P) else ("missing",)
        return super().attr(st, v, name)

    def truth(self, st, v):
        if option_of(v):
            return True
        if v[0] == "S" and v[1] in ("page", "root", "user's application", DIR[1]):
            return True
        if v[0] == "op" and v[1] in ("Is", "IsNot") and v[3] == NONE and option_of(v[2]):
            return v[1] == "IsNot"
        return super().truth(st, v)

    def assign(self, st, n, v):
        st = st.copy()
        st.ev = st.ev + (("option", n, v),)
        return [("v", NONE, st), ("raise", "ValueError", NONE, st.copy())] if v == ("k", "wrong") else [("v", NONE, st)]

    def access(self, ai, st, i, how, obj, name, val):
        n = option_of(obj)
        if n and name == "current" and how == "set":
            return self.assign(st, n, val)
        return super().access(ai, st, i, how, obj, name, val)

    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        if key in ("getattr", "builtins.getattr", "hasattr") and len(args) > 1 and args[1][0] == "k" and args[0][0] == "g" and (self.P.resolve_dotted(args[0][1]) or args[0][1]) == CFG:
            known = args[1][1] in options(self.P)
            if last == "hasattr":
                return [("v", ("k", known))]
            return [("v", ("g", f"{CFG}.{args[1][1]}"))] if known else [("v", args[2])] if len(args) > 2 else [("raise", "AttributeError")]
        if key in ("vars", "builtins.vars") and args and args[0][0] == "g":
            return [("v", ("dict", tuple((("k", n), ("g", f"{CFG}.{n}")) for n in options(self.P))))]
        if recv is not None and option_of(recv) and last in ("set_current", "set_default", "unset", "reload"):
            if last == "set_current":
                return self.assign(st, option_of(recv), (*args, *[v for _, v in kw])[0])
            return self.assign(st, option_of(recv), (last,))
        if recv is not None and option_of(recv) and last == "get":
            return [("v", self.now(st, option_of(recv)))]
        if recv == DIR and last in ("exists", "is_dir"):
            return [("v", ("k", self.exists))]
        return super().ext(ai, st, i, key, recv, args, kw)


class Exec(Settings, Base):
    def __init__(self, ck, cls):
        Base.__init__(self, ck, cls, "/p2/")
        self.modules += (U,)
        self.opq -= {q for q, f in self.P.funcs.items() if f.module.name == U and not f.cls and f.name in ("process_settings", "check_path", "import_components")}
        self.opq |= {q for q, f in self.P.funcs.items() if f.module.name == U and f.name in ("import_components", "vdom_head_to_html", "server_side_component_html", "default_import_map")}
        self.opaque |= {U + ".import_components"}


def construct(ck, cls, settings):
    """outcomes of making an executor with these settings"""
    from ..absint import State

    w = Exec(ck, cls)
    init = w.P.method(cls, "__init__")
    a = init.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    st = State({}, {("@", ("S", "none"), "x"): NONE, ("O", "empty", 99): ("list", ())})
    kw = [(k, v) for k, v in (("app", USER), ("root_component", ("S", "root")), ("root_components", ("O", "empty", 99))) if k in names]
    return w, w.interpret(init, SELF, (("k", "a.py"),) if a.vararg else (), (*kw, *settings), st) or []


def sets(o):
    return [(e[1], e[2]) for e in o.st.ev if e[0] == "option"]


def executors(ck):
    P = ck.p
    td = P.cls("reactpy.types.ReactPyConfig")
    keys = [n.target.id for n in td.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]
    opts = options(P)
    ck.rule("declared", "every setting has an option", 8)
    for k in keys:
        ck.ob("REACTPY_" + k.upper() in opts, f"setting {k}", f"{td.module.rel}:{td.node.lineno}", f"no option REACTPY_{k.upper()} for the setting {k}")
    every = sorted({n.removeprefix("REACTPY_").lower() for n in opts} | set(keys))
    ck.rule("settings", "exactly the settings which were given are assigned, each to its option", 40)
    for cq in (MW + ".ReactPyMiddleware", SA + ".ReactPy", PY + ".ReactPyCsr"):
        cls = P.cls(cq)
        init = P.method(cls, "__init__")
        short = cq.rsplit(".", 1)[-1]

        def one(what, given, want, error=None, exists=True):
            Settings.exists = exists
            w, outs = construct(ck, cls, given)
            Settings.exists = True
            ck.need(outs, f"the constructor of {cq}")
            bad = None
            for o in outs:
                if error:
                    if o.kind == "exit":
                        bad = bad or "it is accepted"
                    elif sets(o):
                        bad = bad or f"it is refused after {sets(o)[0][0]} was assigned"
                elif o.kind != "exit":
                    bad = bad or f"it is refused ({str(o.value)[:80]})"
                elif sorted(map(repr, sets(o))) != sorted(map(repr, want)):
                    bad = bad or f"options {[n for n, _ in sets(o)]} are assigned, not {[n for n, _ in want]} with what was given"
            ck.ob(not bad, f"{short}: {what}", init.loc(), f"{short}, {what}: {bad}")
            return w, outs

        one("no settings", (), [])
        for k in every:
            v = SAMPLES.get(k, ("S", "setting", k))
            one(k, ((k, v),), [("REACTPY_" + k.upper(), v)])
        many = [(k, SAMPLES.get(k, ("S", "setting", k))) for k in keys]
        w, outs = one("all settings", tuple(many), [("REACTPY_" + k.upper(), v) for k, v in many])
        ck.rule("refused", "a setting which is not valid is refused before anything is changed", 15)
        first = ("max_queue_size", ("S", "setting", "max_queue_size"))
        for bad in ("", "x", "/x", "x/"):
            one(f"path prefix {bad!r}", (first, ("path_prefix", ("k", bad))), [], "ValueError")
        one("directory which does not exist", (first, ("web_modules_dir", DIR)), [], "ValueError", exists=False)
        one("unknown setting", (("no_such_setting", ("S", "v")),), [], "ValueError")
        for n in ("_debug", "debug_", "reactpy_debug"):
            one(f"unknown setting {n}", ((n, ("k", True)),), [], "ValueError")
        ck.rule("settings", "", 0)
        # the executor itself goes by the new settings
        ck.rule("effect", "the executor which got a setting goes by it", 6)
        for k, (path, want) in enumerate((("/p2/static/index.js", "static files"), ("/p2/modules/a.js", "web modules"))):
            bad = None
            for o in outs:
                if o.kind != "exit":
                    continue
                s = o.st.copy()
                w.typ, w.path = "http", path
                for r in w.interpret(P.method(cls, "__call__"), SELF, ARGS, (), s) or ():
                    labels = [e[0] for e in r.st.ev if e[0] != "option"]
                    if labels != [want]:
                        bad = f"a request for {path} goes to {labels}"
            ck.ob(not bad, f"{short}: {want} below the new prefix", init.loc(), f"{short}: {bad} after the prefix /p2/ was given")
        ck.rule("settings", "", 0)


class Text(Settings):
    """page parts as concrete text"""

    def __init__(self, ck, table):
        super().__init__(ck, (U, JM, PU))
        self.table = {**DEFAULTS, **table}

    def truth(self, st, v):
        return super().truth(st, v)

    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        d = dict(kw)
        if last in ("dumps",) and key.startswith(("json.", "orjson.")):
            try:
                return [("v", ("k", json.dumps(plain(deep(st, args[0], 24)))))]
            except ValueError:
                return None
        if last == "script" and recv is not None and "html" in repr(recv) or key.endswith("html.script"):
            return [("v", ("script", tuple(deep(st, a, 24) for a in args)))]
        return super().ext(ai, st, i, key, recv, args, kw)


def plain(v):
    if v[0] == "k":
        return v[1]
    if v[0] in ("dict",):
        return {plain(k): plain(x) for k, x in v[1]}
    if v[0] == "list":
        return [plain(x) for x in v[1]]
    if v[0] == "T":
        return [plain(x) for x in v[1:]]
    raise ValueError(v)


TABLES = [{}, {"PATH_PREFIX": "/p2/x.y/", "RECONNECT_INTERVAL": 0, "RECONNECT_MAX_INTERVAL": 11, "RECONNECT_MAX_RETRIES": 13, "RECONNECT_BACKOFF_MULTIPLIER": 2.5, "DEBUG": True}, {"PATH_PREFIX": "/"}]
MOUNT = {"pathPrefix": "PATH_PREFIX", "reconnectInterval": "RECONNECT_INTERVAL", "reconnectMaxInterval": "RECONNECT_MAX_INTERVAL", "reconnectMaxRetries": "RECONNECT_MAX_RETRIES", "reconnectBackoffMultiplier": "RECONNECT_BACKOFF_MULTIPLIER"}


def text(ck, table, qual, args, kw=()):
    """(concrete result or None, model)"""
    from ..absint import State

    w = Text(ck, table)
    f = ck.p.func(qual)
    st = State({}, {("@", ("S", "none"), "x"): NONE})
    outs = w.interpret(f, None, args, kw, st) or []
    vs = {repr(o.value): o.value for o in outs if o.kind == "exit"}
    if len(vs) != 1 or len(outs) != len([o for o in outs if o.kind == "exit"]):
        return None, f
    return next(iter(vs.values())), f


def pages(ck):
    P = ck.p
    ck.rule("page", "a page carries the current settings under the names the client reads", 20)
    for t in TABLES:
        want = {**DEFAULTS, **t}
        pre = want["PATH_PREFIX"]
        v, f = text(ck, t, U + ".server_side_component_html", (("k", "the-id"), ("k", "the-class"), ("k", "a.b/")))
        ob = lambda what, ok, msg: ck.ob(ok, f"prefix {pre}: {what}", f.loc(), f"prefix {pre}, {what}: {msg}")
        s = v[1] if v and v[0] == "k" and isinstance(v[1], str) else None
        if s is None:
            ob("text", False, "the page does not depend on its arguments and the options at the time alone")
            continue
        m = re.search(r"mountReactPy\(\{(.*?)\}\)", s, re.S)
        ob("mounted", m is not None and s.count("mountReactPy(") == 1, "the page does not mount the client once")
        props = dict(re.findall(r"([A-Za-z]+):\s*((?:\"[^\"]*\"|[^,()]|\([^)]*\))+)", m[1])) if m else {}
        for k, n in MOUNT.items():
            got = props.get(k, "").strip()
            try:
                val = json.loads(got)
            except ValueError:
                val = got or None
            ob(k, val == want[n] and type(val) is not bool, f"{k} is {val!r} where the option is {want[n]!r}")
        ob("componentPath", props.get("componentPath", "").strip() == '"a.b/"', f"the component path is {props.get('componentPath')}")
        ids = re.findall(r'<div[^>]*\bid="([^"]*)"', s)
        ob("element", ids == ["the-id"] and re.search(r"getElementById\([\"']the-id[\"']\)", props.get("mountElement", "")) is not None and 'class="the-class"' in s, "the client is not mounted in the element of the page")
        ob("client", re.findall(r'from\s+"([^"]*)"', s) == [pre + "static/index.js"], "the client is not imported from the static files")
        maps = re.findall(r"textContent\s*=\s*'([^']*)'", s)
        ob("import map", len(maps) == 1 and good_map(maps[0], pre), "the page's import map does not point to the static files below the prefix")
        ob("import map, same name", set(re.findall(r"#([\w-]*importmap)", s)) == set(re.findall(r"\.id = \"([\w-]*)\"", s)) != set(), "the import map is not looked for under the name it is given")
    # served with the page or alone
    ck.rule("import map", "every import map has the same modules, from where they are meant to come", 8)
    base = None
    for t in TABLES:
        pre = {**DEFAULTS, **t}["PATH_PREFIX"]
        dbg = {**DEFAULTS, **t}["DEBUG"]
        v, f = text(ck, t, U + ".default_import_map", ())
        ok = v is not None and v[0] == "k" and good_map(v[1], pre)
        ck.ob(ok, f"default map, prefix {pre}", f.loc(), f"with the prefix {pre} the import map does not point to the static files below it")
        if ok:
            base = set(json.loads(v[1])["imports"])
        for fw, ver in ((None, None), ("preact", "10.1"), ("react", None), ("react", "18")):
            v, f = text(ck, t, JM + ".import_reactjs", (), (("framework", ("k", fw)), ("version", ("k", ver))))
            bad = None
            try:
                attrs, body = v[1][0], v[1][1]
                a = plain(attrs)
                d = json.loads(plain(body))["imports"]
            except (TypeError, ValueError, IndexError, KeyError, AttributeError):
                bad = "it is not a script with an import map"
            if not bad:
                if a.get("type") != "importmap" or a.get("id") != "reactpy-importmap":
                    bad = f"it is not the import map which pages look for ({a})"
                elif base and set(d) != base:
                    bad = f"it does not have the modules of the default map ({sorted(set(d) ^ base)})"
                elif ver and not all(f"@{ver}/" in u or f"@{ver}?" in u or u.endswith(f"@{ver}") for u in d.values()):
                    bad = "the version is not the one which was asked for"
                elif not all(("/react@" in u or "/react-dom@" in u) if fw == "react" else "/preact@" in u for u in d.values()):
                    bad = "it is not the framework which was asked for"
                elif not all(("?dev" in u) == bool(dbg) for u in d.values()):
                    bad = "the development version is not used in debug mode and only then"
            ck.ob(not bad, f"import_reactjs({fw}, {ver}), debug {dbg}, prefix {pre}", f.loc(), f"import_reactjs({fw}, {ver}): {bad}")


def good_map(s, pre):
    try:
        d = json.loads(s)
    except ValueError:
        return False
    im = d.get("imports") if isinstance(d, dict) else None
    need = {"react": "preact.js", "react-dom": "preact-dom.js", "react-dom/client": "preact-dom.js", "react/jsx-runtime": "preact-jsx-runtime.js"}
    root = "/" + pre.strip("/") + "/" if pre.strip("/") else None
    return isinstance(im, dict) and set(d) == {"imports"} and set(need) <= set(im) and all(im[k] == (root or "/") + "static/" + n for k, n in need.items())


def boolean(ck):
    """the spellings of true and false"""
    from ..absint import State

    P = ck.p
    f = P.func(CFG + ".boolean")
    ck.rule("boolean", "a boolean option means the same in every spelling, and nothing else is taken for one", 12)
    w = World(ck, (CFG,))
    st = State({}, {("@", ("S", "none"), "x"): NONE})
    for v, want in ((True, True), (False, False), (1, True), (0, False), ("true", True), ("True", True), ("TRUE", True), ("1", True), ("false", False), ("False", False), ("0", False), ("FALSE", False), ("", None), ("yes", None), ("2", None), (None, None), (1.5, None)):
        outs = w.interpret(f, None, (("k", v),), (), st) or []
        ck.need(outs, "boolean")
        if want is None:
            ok = all(o.kind == "exc_exit" for o in outs)
        else:
            ok = all(o.kind == "exit" and o.value == ("k", want) and type(o.value[1]) is bool for o in outs)
        ck.ob(ok, f"boolean({v!r})", f.loc(), f"boolean({v!r}) is {[str(o.value)[:60] for o in outs]}, not {'refused' if want is None else want}")


def late(ck):
    """options are read when they are needed"""
    P = ck.p
    ck.rule("late", "no option is read when a module is imported or a function defined", 15)
    opts = options(P)
    for m in P.modules.values():
        if not m.name.startswith("reactpy") or m.name == CFG or m.name.startswith("reactpy.testing"):
            continue
        inside = set()
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                body = n.body if isinstance(n.body, list) else [n.body]
                inside |= {id(x) for b in body for x in ast.walk(b)}
        # names of options in this module
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr == "current" and isinstance(n.ctx, ast.Load):
                v = n.value
                name = v.attr if isinstance(v, ast.Attribute) else v.id if isinstance(v, ast.Name) else None
                if name in opts:
                    ck.ob(id(n) in inside, f"{m.name}: {name} in {at(m, n)}", f"{m.rel}:{n.lineno}", f"{name} is read when {m.name} is imported: settings which are made later have no effect")


def at(m, n):
    best = "the module"
    for f in ast.walk(m.tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.lineno <= n.lineno <= (f.end_lineno or 0):
            best = f.name
    return best


RULES = [executors, pages, boolean, late]
