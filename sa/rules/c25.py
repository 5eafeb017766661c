"""C25  A component from JavaScript is made of exactly what was asked for."""
from pathlib import PurePosixPath

from ..absint import State, deep
from ..lib import *
from ..objs import World

EXPLANATION = """
The functions which make components from JavaScript are interpreted over histories of calls: a call,
and the same call again after another one which differs in one parameter. What a component is made of
(source, fallback, names, whether children are allowed, the content published) has to be what the
call itself asked for, as if no other call had come before. Names which a module is known not to
export are refused. The resolution of exported names is interpreted over modules which refer to each other.
"""
ASSUMPTIONS = ["sha256 of different texts differs", "the exports found in a module's text are right (regular expressions over JavaScript)"]
RJS, JM, JU, WM = "reactpy.reactjs", "reactpy.reactjs.module", "reactpy.reactjs.utils", "reactpy.web.module"
NONE = ("k", None)
T, F = ("k", True), ("k", False)


class W(World):
    exports = None  # names found in every module
    tables = True

    def __init__(self, ck):
        opaque = {JM + "." + n for n in ("get_module_path", "import_reactjs")} | {q for q, f in ck.p.funcs.items() if f.module.name == JU and f.name != "file_lock"}
        super().__init__(ck, (RJS, JM, WM), {}, opaque)

    def truth(self, st, v):
        if v[0] in ("S", "sum"):
            return True
        if v[0] == "op" and v[1] in ("Is", "IsNot") and v[3] == NONE and v[2][0] in ("S", "names", "new"):
            return v[1] == "IsNot"
        if v[0] == "op" and v[1] in ("Eq", "NotEq", "Is", "IsNot") and {v[2][0], v[3][0]} <= {"k", "sum", "S", "path"} and v[2] != v[3]:
            return v[1] in ("NotEq", "IsNot")
        return super().truth(st, v)

    def item(self, st, v, k):
        return v if v[0] == "sum" else super().item(st, v, k)

    def attr(self, st, v, name):
        if v[0] == "S" and v[1].startswith("file") and name in ("name", "stem", "suffix"):
            return ("k", getattr(PurePosixPath("same.js"), name))  # files in different folders
        if v[0] == "C" and isinstance(v[1], str) and v[1].endswith("PurePosixPath") and v[2] and v[2][0][0] == "k" and name in ("suffix", "name", "stem"):
            return ("k", getattr(PurePosixPath(v[2][0][1]), name))
        return super().attr(st, v, name)

    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        d = dict(kw)
        f = self.P.funcs.get(key)
        if key.startswith("hashlib."):
            return [("v", ("sum", args[0]))] if args else None
        if recv is not None and recv[0] == "sum":
            return [("v", recv)]
        if last == "encode" and recv is not None:
            return [("v", recv)]
        if key == "str" and args and args[0][0] == "S":
            return [("v", ("k", "text of " + args[0][1]))]
        if f is not None and f.module.name == JU:
            if last.startswith("resolve_names"):
                from ..objs import bind_call

                got = bind_call(f, args, kw)
                what = "url" if "url" in last else "file"
                st = st.copy()
                st.ev = st.ev + (("resolved", what, got.get(what), got.get("max_depth")),)
                return [("v", ("names", what, got.get(what), got.get("max_depth")) if self.exports is None else ("new", "set", tuple(("k", n) for n in self.exports)), st)]
            if last == "copy_file":
                st = st.copy()
                st.ev = st.ev + (("published", args[0], args[1], args[2] if len(args) > 2 else d.get("symlink")),)
                return [("v", NONE, st)]
            return [("v", ("S", "made by", last))] if last != "are_files_identical" else [("v", T), ("v", F)]
        if last == "get_module_path":
            return [("v", ("path", args[0]))]
        if key.startswith("class:") and last == "Vdom":
            from ..objs import bind_call

            c = self.P.cls("reactpy.core.vdom.Vdom")
            got = bind_call(self.P.method(c, "__init__"), args, kw)
            return [("v", ("component", tuple(sorted((k, deep(st, v, 24)) for k, v in got.items()))))]
        if recv is not None and recv[0] in ("path", "S", "C", "op", "attr") and last in ("exists", "read_text", "write_text", "replace", "with_name", "resolve", "mkdir", "unlink"):
            if last == "exists":
                return [("v", T), ("v", F)] if recv[0] == "path" else [("v", T)]
            if last == "write_text":
                st = st.copy()
                st.ev = st.ev + (("published", recv, args[0], None),)
                return [("v", NONE, st)]
            if last == "read_text":
                return [("v", ("S", "text of", recv))]
            if last == "with_name":
                return [("v", ("path", recv))]
            if last == "resolve":
                return [("v", recv)]
            return [("v", NONE)]
        if key.startswith("class:") and last == "Path" or key == "pathlib.Path":
            return [("v", args[0])]
        if last in ("info", "warning", "warn", "debug"):
            return [("v", NONE)]
        return None


def terms(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            yield from terms(x)


# what the parameters of a call may be; the first is what the other is compared with
FN = {
    "component_from_url": {"url": [("k", "https://h/a.js"), ("k", "https://h/b.js")], "resolve_imports": [F, T], "resolve_imports_depth": [("k", 5), ("k", 1)], "unmount_before_update": [F, T]},
    "component_from_file": {"file": [("S", "file a"), ("S", "file b")], "name": [("k", ""), ("k", "n")], "resolve_imports": [F, T], "resolve_imports_depth": [("k", 5), ("k", 1)], "unmount_before_update": [F, T], "symlink": [F, T]},
    "component_from_string": {"content": [("k", "text a"), ("k", "text b")], "name": [("k", ""), ("k", "n")], "resolve_imports": [F, T], "resolve_imports_depth": [("k", 5), ("k", 1)], "unmount_before_update": [F, T]},
    "component_from_npm": {"package": [("k", "pkg"), ("k", "pkg2")], "version": [("k", "latest"), ("k", "2.1")], "cdn": [("k", "https://esm.sh/v135"), ("k", "https://cdn.example")], "bundle": [T, F], "resolve_imports": [F, T], "resolve_imports_depth": [("k", 5), ("k", 1)], "unmount_before_update": [F, T]},
}
COMMON = {"import_names": [("k", "A"), ("T", ("k", "A"), ("k", "B.C"))], "fallback": [NONE, ("S", "fallback")], "allow_children": [T, F]}


def start(w):
    st = State({}, {("@", ("S", "none"), "x"): NONE})
    return st


def call(w, f, given, st):
    s = st.copy()
    s.ev = ()
    return w.interpret(f, None, (), tuple(given.items()), s) or []


def vdoms(v):
    """the components a value holds: list of {parameter: value}"""
    if v[0] == "component":
        return dict(v[1])
    if v[0] in ("list", "T"):
        xs = v[1] if v[0] == "list" else v[1:]
        return [vdoms(x) for x in xs]
    return v


def field(src, k):
    """field of an import source"""
    if src[0] == "dict":
        return next((v for n, v in src[1] if n == ("k", k)), None)
    if src[0] == "C":
        return next((v for n, v in src[3] if n == k), None)
    return None


def has(v, x):
    return any(t == x for t in terms(v))


def made_of(w, fn, g, o):
    """problem with what a call of fn with g made"""
    v = vdoms(deep(o.st, o.value, 24))
    names = [g["import_names"]] if g["import_names"][0] == "k" else list(g["import_names"][1:])
    many = g["import_names"][0] == "T"
    if isinstance(v, list) != many or many and len(v) != len(names):
        return f"not {'a list of ' + str(len(names)) if many else 'one'} component"
    for c, n in zip(v if many else [v], names):
        if not isinstance(c, dict):
            return f"not a component ({str(c)[:60]})"
        if c.get("tag_name") != n:
            return f"a component named {c.get('tag_name')}, not {n}"
        if c.get("allow_children", T) != g["allow_children"]:
            return "whether children are allowed is not what was asked for"
        src = c.get("import_source")
        if src is None:
            return "a component without a source"
        if field(src, "fallback") != g["fallback"]:
            return f"the fallback is {field(src, 'fallback')}, not the given one"
        if field(src, "unmountBeforeUpdate") != g["unmount_before_update"]:
            return "unmount_before_update is not what was asked for"
        s, t = field(src, "source"), field(src, "sourceType")
        if s is None or t is None:
            return "a source without name or type"
        byname = has(t, ("k", "NAME")) or "NAME" in repr(t)
        if fn == "component_from_url":
            if s != g["url"] or byname:
                return f"the source is {s}"
        elif fn == "component_from_npm":
            u = s[1] if s[0] == "k" else ""
            cdn = g["cdn"][1]
            if byname or not isinstance(u, str) or not (u == f"{cdn}/{g['package'][1]}@{g['version'][1]}" or u.startswith(f"{cdn}/{g['package'][1]}@{g['version'][1]}?")):
                return f"the source is {u}"
            if "esm.sh" in cdn and (("bundle" in u.replace("?", "&").split("&")) != g["bundle"][1] or "external=react,react-dom,react/jsx-runtime" not in u):
                return f"the source is {u}"
        else:
            if not byname:
                return "the source is not a module served by ReactPy"
            what = g["file"] if "file" in g else g["content"]
            if g["name"][1]:
                if not (s == ("k", g["name"][1] + ".js") or has(s, g["name"])):
                    return f"the module is named {s}"
            elif not (has(s, what) or has(s, ("k", "text of " + str(what[1])))):
                return "modules with different contents have the same name"
    return None


def histories(w, fn, f, st0, first, second, k):
    """problem with a call, alone or after another"""
    firsts = call(w, f, first, st0)
    w.ck.need(firsts, fn)
    for where, st in [("first", st0)] + [("after another", o.st) for o in firsts if o.kind == "exit"]:
        outs = call(w, f, second, st)
        if not outs:
            return "no result"
        published = False
        for o in outs:
            if o.kind != "exit":
                return f"{where}: it is refused ({str(o.value)[:60]})"
            why = made_of(w, fn, second, o)
            if why:
                return f"{where}: {why}"
            # what is published is the content which was given
            pub = [e for e in o.st.ev if e[0] == "published"]
            res = [e for e in o.st.ev if e[0] == "resolved"]
            new = where == "first" or k in ("content", "file", "name", "symlink")
            if "content" in second and (new and not pub or any(e[2] != second["content"] for e in pub)):
                return f"{where}: the content is not published"
            if "file" in second and any(e[2] != second["file"] or (e[3] or F) != second["symlink"] for e in pub):
                return f"{where}: {pub[0][2]} is published"
            published = published or bool(pub)
            if second["resolve_imports"] == F and res:
                return f"{where}: names are resolved though this was not asked for"
            if second["resolve_imports"] == T and where == "first" and not any(e[3] == second["resolve_imports_depth"] for e in res):
                return f"{where}: names are not resolved to the depth which was asked for"
            if k == "resolve_imports_depth" and second["resolve_imports"] == T and not any(e[3] == second["resolve_imports_depth"] for e in res):
                return f"{where}: names are not resolved to the depth which was asked for"
        if "file" in second and not published and (where == "first" or k in ("file", "name", "symlink")):
            return f"{where}: the file is not published"
    return None


def history(ck):
    P = ck.p
    ck.rule("history", "a component is made of what its own call asked for, whatever was called before", 35)
    w = W(ck)
    w.exports = None
    for fn, own in FN.items():
        f = P.func(f"{RJS}.{fn}")
        space = {**own, **COMMON}
        w.exports = ("A", "B")
        base = {k: v[0] for k, v in space.items()}
        st0 = start(w)
        for k, vals, named in [("nothing", None, False), *[(k, v, False) for k, v in space.items()], *[(k, v, True) for k, v in own.items() if "name" in own and k in ("file", "content")]]:
            rest = {"resolve_imports": T} if k == "resolve_imports_depth" else {"name": ("k", "m")} if named else {}
            other = {**base, **rest} if vals is None else {**base, **rest, k: vals[1]}
            bad = None
            for first, second in (({**base, **rest}, other), (other, {**base, **rest})):
                bad = bad or histories(w, fn, f, st0, first, second, k)
            ck.ob(not bad, f"{fn}: {k} differs{', same name' if named else ''}", f.loc(), f"{fn}, {'called twice' if vals is None else k + ' is ' + str(vals[1])}: {bad}")


def names(ck):
    P = ck.p
    ck.rule("names", "names which a module is known not to export are refused, all others are accepted", 20)
    w = W(ck)
    for fn, own in FN.items():
        f = P.func(f"{RJS}.{fn}")
        for resolve in (F, T):
            for n, ok in ((("k", "A"), True), (("k", "B.C.D"), True), (("k", "C"), False), (("k", "C.A"), False), (("T", ("k", "A"), ("k", "B.x")), True), (("T", ("k", "A"), ("k", "C")), False), (("T",), True)):
                w.exports = ("A", "B")
                g = {k: v[0] for k, v in {**own, **COMMON}.items()} | {"import_names": n, "resolve_imports": resolve}
                outs = call(w, f, g, start(w))
                want = ok or resolve == F
                good = bool(outs) and all((o.kind == "exit") == want for o in outs)
                if n == ("k", "A") and resolve == T:
                    w.exports = ()
                    outs = call(w, f, g, start(w))
                    good = good and bool(outs) and all(o.kind != "exit" for o in outs)
                ck.ob(good, f"{fn}, resolve_imports={resolve[1]}: {n}", f.loc(), f"{fn}(import_names={n}, resolve_imports={resolve[1]}) is {'refused' if want else 'accepted'} though the module exports A and B")


def wrappers(ck):
    """the older names of the same functions"""
    P = ck.p
    ck.rule("wrappers", "modules made under older names are what was asked for", 10)
    w = W(ck)
    w.exports = ("A",)
    for fn, g in (
        ("module_from_url", {"url": ("k", "https://h/a.js")}),
        ("module_from_file", {"name": ("k", "n"), "file": ("S", "file a"), "symlink": T}),
        ("module_from_string", {"name": ("k", "n"), "content": ("k", "text")}),
    ):
        f = P.func(f"{WM}.{fn}")
        for res in (T, F):
            given = {**g, "fallback": ("S", "fallback"), "resolve_exports": res, "resolve_exports_depth": ("k", 3), "unmount_before_update": T}
            outs = call(w, f, given, start(w))
            bad = None if outs else "no result"
            for o in outs:
                v = deep(o.st, o.value, 24)
                d = dict(v[3]) if v[0] == "C" else {}
                rs = [e for e in o.st.ev if e[0] == "resolved"]
                if o.kind != "exit" or not d:
                    bad = bad or "no module"
                elif d.get("default_fallback") != ("S", "fallback"):
                    bad = bad or "the fallback is not the given one"
                elif d.get("unmount_before_update") != T:
                    bad = bad or "unmount_before_update is not the given one"
                elif (d.get("import_names") == NONE) != (res == F) or (res == T and not any(e[3] == ("k", 3) for e in rs)):
                    bad = bad or "names are not resolved as asked for"
                elif not has(d.get("source", NONE), g.get("url", ("k", "n.js"))):
                    bad = bad or f"the source is {d.get('source')}"
                elif "symlink" in g and not all(e[3] == T for e in o.st.ev if e[0] == "published"):
                    bad = bad or "it is not a symlink"
            ck.ob(not bad, f"{fn}, resolve_exports={res[1]}", f.loc(), f"{fn}: {bad}")
    # fallback of the module and of the component
    f = P.func(f"{WM}.export")
    m = P.func(f"{JM}.url_to_module")
    for mf, cf, want in ((("S", "m"), NONE, ("S", "m")), (("S", "m"), ("S", "c"), ("S", "c")), (NONE, NONE, NONE), (NONE, ("S", "c"), ("S", "c"))):
        w.exports = ("A",)
        o = [x for x in call(w, m, {"url": ("k", "u"), "fallback": mf}, start(w)) if x.kind == "exit"]
        ck.need(o, "url_to_module")
        bad = None
        for ac in (T, F):
            outs = w.interpret(f, None, (o[0].value, ("k", "A")), (("fallback", cf), ("allow_children", ac)), o[0].st) or []
            for x in outs:
                v = vdoms(deep(x.st, x.value, 24))
                if x.kind != "exit" or not isinstance(v, dict):
                    bad = bad or "no component"
                elif field(v["import_source"], "fallback") != want:
                    bad = bad or f"the fallback is {field(v['import_source'], 'fallback')}"
                elif v.get("allow_children", T) != ac:
                    bad = bad or "whether children are allowed is not what was asked for"
            if not outs:
                bad = bad or "no result"
        ck.ob(not bad, f"export: fallback {cf[1]} of a module with fallback {mf[1]}", f.loc(), f"export: {bad}")


class Web(World):
    """modules which refer to each other"""
    table = {}

    def truth(self, st, v):
        return super().truth(st, v)

    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        if key == "requests.get" or key.endswith("requests.get"):
            u = args[0][1] if args and args[0][0] == "k" else None
            st = st.copy()
            st.ev = st.ev + (("read", u),)
            if u in self.table:
                return [("v", ("page", u), st)]
            return [("raise", "requests.exceptions.ConnectionError", NONE, st)]
        if last == "resolve_names_from_source":
            from ..objs import bind_call

            got = bind_call(self.P.funcs[key], args, kw)
            src, ex = got["content"], got["exclude_default"]
            if src[0] != "text" or ex[0] != "k":
                return None
            ns, refs = self.table[src[1]]
            ns = [n for n in ns if not (ex[1] and n == "default")]
            st = st.copy()
            o, r = ("O", f"names of {src[1]} {len(st.ev)}", 0), ("O", f"references of {src[1]} {len(st.ev)}", 0)
            st.heap[o] = ("set", tuple(("k", n) for n in ns))
            st.heap[r] = ("set", tuple(("k", n) for n in refs))
            return [("v", ("T", o, r), st)]
        if last in ("urlparse", "urlsplit", "urljoin", "urlunparse", "urlunsplit") and all(a[0] in ("k", "parsed") or a[0] == "T" and all(x[0] == "k" for x in a[1:]) for a in args):
            import urllib.parse

            r = getattr(urllib.parse, last)(*[tuple(x[1] for x in a[1:]) if a[0] == "T" else a[1] for a in args])
            return [("v", ("k", r) if isinstance(r, str) else ("parsed", r))]
        if recv is not None and recv[0] == "file":
            if last == "exists":
                return [("v", ("k", recv[1] in self.table))]
            if last == "read_text":
                st = st.copy()
                st.ev = st.ev + (("read", recv[1]),)
                return [("v", ("text", recv[1]), st)]
        if recv is not None and recv[0] == "folder" and last == "joinpath":
            import posixpath

            parts = [x[1] for a in args for x in (a[1] if a[0] == "*" else (a,))] if all(a[0] == "k" for a in args) else None
            if parts is not None:
                return [("v", ("file", posixpath.normpath(posixpath.join(recv[1], *parts))))]
        if last in ("warning", "info", "debug"):
            return [("v", NONE)]
        return super().ext(ai, st, i, key, recv, args, kw)

    def item(self, st, v, k):
        if v[0] == "parsed" and k[0] == "k":
            r = v[1][k[1]]
            return ("k", r) if isinstance(r, str) else ("T", *[("k", x) for x in r])
        return super().item(st, v, k)

    def attr(self, st, v, name):
        if v[0] == "parsed":
            return ("k", getattr(v[1], name))
        if v[0] == "page" and name == "text":
            return ("text", v[1])
        if v[0] == "file" and name == "parent":
            return ("folder", v[1].rsplit("/", 1)[0])
        return super().attr(st, v, name)


URLS = {
    "https://h/p/main.js": (["Main"], ["./sub/one.js", "two.js", "/root.js", "https://other/x.js", "../up.js"]),
    "https://h/p/sub/one.js": (["default", "One"], ["./deep.js"]),
    "https://h/p/sub/deep.js": (["Deep"], ["./deeper.js"]),
    "https://h/p/sub/deeper.js": (["Deeper"], []),
    "two.js": (["Bare"], []),
    "https://h/root.js": (["Root"], []),
    "https://other/x.js": (["Other", "default"], []),
    "https://h/q.js": (["Q"], ["./p/sub/one.js"]),
    "https://h/up.js": (["Up"], ["./p/main.js", "./p/a/b/c.js"]),
    "https://h/p/a/b/c.js": (["Deepest"], ["../../top.js", "../side.js"]),
    "https://h/p/top.js": (["Top"], []),
    "https://h/p/a/side.js": (["Side"], []),
}
FILES = {
    "/d/main.js": (["Main"], ["./sub/one.js", "../up.js", "./sub/none.js", "https://other/x.js"]),
    "/d/sub/one.js": (["default", "One"], ["./deep.js"]),
    "/d/sub/deep.js": (["Deep"], []),
    "/up.js": (["Up"], ["./d/main.js"]),
    "https://other/x.js": (["Other", "default"], []),
}


def expected(table, start, depth, resolve, first=True):
    if depth == 0 or start not in table:
        return set()
    ns, refs = table[start]
    out = {n for n in ns if first or n != "default"}
    for r in refs:
        out |= expected(table, resolve(start, r), depth - 1, resolve, False)
    return out


def resolution(ck):
    import posixpath
    from urllib.parse import urljoin, urlparse

    def url(base, ref):
        return ref if not ref.startswith((".", "/", "http")) else urljoin(base, ref)

    def file(base, ref):
        return ref if urlparse(ref).scheme else posixpath.normpath(posixpath.join(posixpath.dirname(base), ref))

    P = ck.p
    ck.rule("resolution", "the names of a module are its own and those of the modules it refers to, wherever they are", 8)
    for fn, table, begin, rel in (("resolve_names_from_url", URLS, "https://h/p/main.js", url), ("resolve_names_from_file", FILES, "/d/main.js", file)):
        f = P.func(f"{JU}.{fn}")
        for depth, begin in [(d, begin) for d in (0, 1, 2, 3, 4)] + [(2, begin.replace("main.js", "sub/one.js"))]:
            w = Web(ck, (JU,), {}, {JU + ".resolve_names_from_source"})
            w.table = table
            outs = w.interpret(f, None, (("k", begin) if fn.endswith("url") else ("file", begin), ("k", depth)), (), start(w)) or []
            want = expected(table, begin, depth, rel)
            bad = None if outs else "no result"
            for o in outs:
                v = deep(o.st, o.value, 24)
                xs = v[1] if v[0] in ("set", "list") else v[2] if v[0] == "new" else v[1:] if v[0] == "T" else None
                got = {x[1] for x in xs} if xs is not None and all(x[0] == "k" for x in xs) else None
                if o.kind != "exit" or got is None:
                    bad = bad or f"no set of names ({str(v)[:80]})"
                elif got != want:
                    bad = bad or f"{sorted(want - got)} are not found" + (f", {sorted(got - want)} are" if got - want else "")
            ck.ob(not bad, f"{fn}, depth {depth} from {begin}", f.loc(), f"{fn} with a depth of {depth}: {bad}")


RULES = [history, names, wrappers, resolution]
