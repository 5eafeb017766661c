"""C30  Constructors of elements, components and widgets give what was asked for, every time."""
import ast
import base64

from ..absint import State
from ..hooked import Hooks, fn
from ..lib import *
from ..objs import World

EXPLANATION = """
`html` and `html.svg` are asked for series of names, first and later ones, by interpretation of their
attribute lookup over the containers of their classes: what is given is compared with the tag name,
and whether children are allowed. The constructors of fragments and scripts are interpreted over
kinds of attributes, children and handlers. The component decorator is interpreted over functions with
every kind of parameter, then its constructor for several calls, then render, in turns. The widgets are
interpreted over kinds of values, and the handler of each linked input is called with an event.
"""
ASSUMPTIONS = ["Vdom(name, ...) makes elements as C15 says", "use_state works as C12 says"]
H, CO, TY, WI = "reactpy._html", "reactpy.core.component", "reactpy.types", "reactpy.widgets"
NONE = ("k", None)
VOID = ("area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr")
NAMES = {"div": "div", "p": "p", "del_": "del", "data_table": "data-table", "my_own_element": "my-own-element", "button": "button", "label": "label", "ul": "ul", "var": "var", "title": "title", "style": "style", "image": "image", "text": "text", "set": "set"}
SVG = {"g": "g", "a": "a", "svg": "svg", "defs": "defs", "clipPath": "clipPath", "marker": "marker", "color_profile": "color-profile", "pattern": "pattern", "switch": "switch", "symbol": "symbol", "mask": "mask"}


class NoAnswer(Exception):
    pass


class W(Hooks):
    clip = 60

    def __init__(self, ck):
        World.__init__(self, ck, (H, CO, TY, WI), {})
        self.opq = set(self.P.funcs)
        self.running, self.comps, self.ids, self.lambdas, self.pending, self.failing, self.stackq = [], {}, set(), {}, [], (), None

    def begin(self):
        return State({}, {("@", ("S", "none"), "x"): NONE})

    def d(self, st, x):
        if isinstance(x, dict):
            return self.obj(st, "dict", tuple((("k", k), self.d(st, v)) for k, v in x.items()))
        if isinstance(x, list):
            return self.obj(st, "list", tuple(self.d(st, v) for v in x))
        return x if isinstance(x, tuple) and x and isinstance(x[0], str) else ("k", x)

    def py(self, st, v):
        if v[0] == "k":
            return v[1]
        if v[0] in ("O", "new") and (c := st.heap.get(v) if v[0] == "O" else (v[1], v[2])) and c[0] in ("dict", "list"):
            return {self.py(st, k): self.py(st, x) for k, x in c[1]} if c[0] == "dict" else [self.py(st, x) for x in c[1]]
        if v[0] == "T":
            return [self.py(st, x) for x in v[1:]]
        return v

    # ---- what belongs to a class
    def static(self, st, c, name):
        for x in self.P.mro(c):
            for n in x.node.body:
                t = n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else n.target if isinstance(n, ast.AnnAssign) and n.value is not None else None
                if isinstance(t, ast.Name) and t.id == name:
                    return self.expr(st, x, n.value, f"{x.qual}.{name}")
        return None

    def expr(self, st, c, n, where):
        m = c.module.name
        if isinstance(n, ast.Constant):
            return ("k", n.value)
        if isinstance(n, ast.Dict):
            o = ("O", "belongs to " + where, 0)
            if o not in st.heap:
                st.heap[o] = ("dict", tuple((self.expr(st, c, k, where), self.expr(st, c, v, f"{where}[{ast.unparse(k)}]")) for k, v in zip(n.keys, n.values) if k is not None))
            return o
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            q = self.P.resolve_dotted(f"{m}.{n.func.id}") or n.func.id
            k = self.P.classes.get(q)
            if q == "builtins.dict" or n.func.id == "dict" and not n.args and not n.keywords:
                o = ("O", "belongs to " + where, 0)
                st.heap.setdefault(o, ("dict", ()))
                return o
            if k is not None and k.module.name == H:
                o = ("S", "obj", k.qual, where)
                return o
            if k is not None:
                return ("C", "class:" + k.qual, tuple(self.expr(st, c, a, where) for a in n.args), tuple((a.arg, self.expr(st, c, a.value, where)) for a in n.keywords))
        if isinstance(n, ast.Name):
            q = self.P.resolve_dotted(f"{m}.{n.id}") or f"{m}.{n.id}"
            return self.name(st, ("g", q)) or (("F", q) if q in self.P.funcs else ("g", q))
        if isinstance(n, ast.Subscript):
            o = self.expr(st, c, n.value, where) if not isinstance(n.value, ast.Name) else self.static(st, c, n.value.id)
            k = self.expr(st, c, n.slice, where)
            return next((v for x, v in st.heap.get(o, ("", ()))[1] if x == k), None) or ("S", "unknown", where)
        return ("S", "unknown", where)

    def attr(self, st, v, name):
        c = self.cls_of(st, v) if v[:2] == ("S", "obj") else None
        if c is not None and c.module.name == H:
            x = self.static(st, c, name)
            if x is not None:
                return x
        if v[:2] == ("S", "parameter") and name == "kind":
            return ("g", "inspect.Parameter." + v[3])
        if v[:2] == ("S", "parameter") and name == "name":
            return ("k", v[2])
        if v[:2] == ("S", "signature") and name == "parameters":
            return v[2]
        if v[0] == "C" and v[1].endswith(".Vdom") and name == "__call__":
            return v
        if v[0] == "g" and v[1].startswith("inspect.") or v == ("g", "inspect"):
            return ("g", v[1] + "." + name)
        return super().attr(st, v, name)

    def truth(self, st, v):
        if v[0] == "op" and v[1] in ("Eq", "Is") and all(x[0] == "g" and x[1].split(".")[-1].isupper() for x in v[2:4]):
            return v[2][1].split(".")[-1] == v[3][1].split(".")[-1]
        if v[0] == "op" and v[1] in ("Is", "Eq") and v[3] == NONE and v[2][0] in ("S", "C", "closure"):
            return False
        if v[0] == "S" and v[1] in ("handler", "child", "parameter", "signature", "unknown", "setter", "element"):
            return True
        if v[0] == "C" and v[1].endswith(".Vdom"):
            return True
        return super().truth(st, v)

    def lookup(self, st, obj, name):
        """results of obj.name"""
        c = self.cls_of(st, obj)
        x = self.static(st, c, name)
        if x is not None:
            return [("v", x, st)]
        f = self.P.method(c, "__getattr__") or self.P.method(c, "__getattribute__")
        if f is None:
            raise NoAnswer(f"{c.name} has no attribute lookup")
        outs = self.interpret(f, obj, (("k", name),), (), st)
        if not outs:
            raise NoAnswer(f"{c.name}.{name}")
        return [("v", o.value, self.after(st, o)) if o.kind == "exit" else ("raise", str(o.value), NONE, self.after(st, o)) for o in outs]

    # ---- calls
    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        if last == "Vdom":
            return [("v", ("C", "class:reactpy.core.vdom.Vdom", args, kw))]
        if last == "VdomDict":
            if args and args[0][0] == "O":
                kw = (*((k[1], v) for k, v in st.heap[args[0]][1]), *kw)
            return [("v", ("new", "dict", tuple((("k", k), v) for k, v in kw)))]
        if last == "signature" and key.startswith("inspect") and args:
            return [("v", ("S", "signature", self.params))]
        if last == "wraps" and key.startswith("functools"):
            return [("v", ("S", "wraps"))]
        if recv == ("S", "wraps") and args:
            return [("v", args[0])]
        if last == "use_state":
            return [("v", ("T", ("S", "value", "the state", "str", "the state", "eq"), ("S", "setter", "the state")), self.note(st, "state", *args))]
        if last in ("b64encode", "standard_b64encode", "encodebytes") and args and args[0][0] == "k" and isinstance(args[0][1], bytes):
            return [("v", ("k", getattr(base64, last)(args[0][1])))]
        name = last if recv is not None and (recv[0] == "g" and recv[1].rsplit(".", 1)[-1] in ("html", "h")) else key[len("reactpy.html."):] if key.startswith("reactpy.html.") else None
        if name == "value" and recv[0] == "attr":
            name = recv[2]
        if name is not None:
            st = st.copy()
            e = ("S", "element", self.fresh(st))
            for n, a in enumerate(args):
                st.heap[("@", e, f"argument {n}")] = a
            st.heap[("@", e, "name")] = ("k", name)
            return [("v", e, st)]
        if key == "len" and args and args[0][0] == "T":
            return [("v", ("k", len(args[0]) - 1))]
        if key == "isinstance" and len(args) == 2 and args[0][:1] == ("S",) and args[0][1] in ("child", "handler"):
            return [("v", ("k", False))]
        return super().ext(ai, st, i, key, recv, args, kw)

    def calling(self, ai, st, i, v, args, kw):
        if v[:2] == ("S", "setter"):
            return [("v", NONE, self.note(st, "set", *args))]
        if v[:2] == ("S", "fn"):
            ns = self.note(st, "called", v[2], tuple(args), tuple(sorted(kw)))
            if v[4] is not None and v[4][0] == "raise":
                return [("raise", v[4][1], NONE, ns)]
            return [("v", ("S", "result", v[2], tuple(args)), ns)]
        return super().calling(ai, st, i, v, args, kw)


def constructors(ck):
    P = ck.p
    hc = P.classes[P.resolve_dotted(H + ".HtmlConstructor") or H + ".HtmlConstructor"] if H + ".HtmlConstructor" in P.classes else P.class_of_global(H + ".html")
    ck.need(hc is not None, "the class of html")
    f = P.method(hc, "__getattr__") or P.method(hc, "__getattribute__")
    loc = f.loc() if f else f"{P.modules[H].rel}:1"
    ck.rule("names", "each name gives the constructor of its own element, the first time and later", 60)
    w = W(ck)
    st = w.begin()
    html = ("S", "obj", hc.qual, "html")

    def only(rs, what):
        if len(rs) != 1 or rs[0][0] != "v":
            return None if any(r[0] == "raise" for r in rs) else ("several",)
        return rs[0][1]

    r = w.lookup(st, html, "svg")
    svg = only(r, "svg")
    ck.need(svg and w.cls_of(st, svg) is not None, "the constructor of SVG elements")
    asked = [(html, "html", k, v) for k, v in (*NAMES.items(), *((x, x) for x in VOID))] + [(svg, "svg", k, v) for k, v in SVG.items()]
    # names which both have come one after the other
    asked += [(svg, "svg", k, None) for k in ("image", "text", "style", "title", "a", "script", "set", "p", "link", "img")]
    asked += [(html, "html", k, k) for k in ("a", "pattern", "link")]
    first = {}
    for n in range(2):
        for o, where, name, tag in asked:
            rs = w.lookup(st, o, name)
            v = only(rs, name)
            bad = ""
            if v is None:
                bad = "fails"
            elif v == ("several",) or v[0] == "S" and v[1] == "unknown":
                raise NoAnswer(f"{where}.{name}")
            else:
                st = rs[0][2]
                a = dict(zip(("tag_name", "allow_children", "custom_constructor", "import_source"), v[2])) | dict(v[3]) if v[0] == "C" else {}
                allow = a.get("allow_children", ("k", True))
                t = ai_truth(w, st, allow)
                if a.get("tag_name") != ("k", tag if tag else name):
                    bad = f"makes elements named {a.get('tag_name', v)}"
                elif t is None and tag is not None:
                    raise NoAnswer(f"children of {name}")
                elif tag is not None and t == (where == "html" and tag in VOID) and (where == "svg" or tag in VOID or tag in ("div", "p", "del", "button", "label", "ul", "image", "text", "set", "data-table", "title", "style", "a", "pattern", "my-own-element", "var")):
                    bad = f"{'allows' if t else 'refuses'} children"
                elif a.get("custom_constructor", NONE) != NONE or a.get("import_source", NONE) != NONE:
                    bad = "has the constructor of another"
                same = (a.get("tag_name"), t)
                if (where, name) not in first:  # what it gives where it is the first name used
                    s0 = w.begin()
                    o0 = html if where == "html" else only(w.lookup(s0, html, "svg"), "svg")
                    v0 = only(w.lookup(s0, o0, name), name)
                    a0 = dict(zip(("tag_name", "allow_children"), v0[2])) | dict(v0[3]) if v0 and v0[0] == "C" else {}
                    first[where, name] = (a0.get("tag_name"), ai_truth(w, s0, a0.get("allow_children", ("k", True))))
                if not bad and first[where, name] != same:
                    bad = "depends on which names were used before"
            ck.ob(not bad, f"{where}.{name}{' later' if n else ''}", loc, f"{where}.{name} {bad}")
    customs = {}
    for name, tag in (("fragment", ""), ("script", "script")):
        for n in range(2):
            rs = w.lookup(st, html, name)
            v = only(rs, name)
            a = dict(zip(("tag_name", "allow_children", "custom_constructor"), v[2])) | dict(v[3]) if v and v[0] == "C" else {}
            cc = a.get("custom_constructor")
            ck.ob(a.get("tag_name") == ("k", tag) and cc is not None, f"html.{name}{' later' if n else ''}", loc, f"html.{name} is not the special constructor of {name}s")
            customs[name] = cc
    call = w.static(st, hc, "__call__")
    ck.ob(P.method(hc, "__call__") is not None or call is not None and (call[0] != "C" or call == only(w.lookup(st, html, "fragment"), "")), "html(...)", loc, "calling html does not make a fragment")
    special(ck, customs)


def ai_truth(w, st, v):
    if v[0] == "k":
        return bool(v[1])
    if v[0] == "op" and v[1] == "Not":
        t = ai_truth(w, st, v[2])
        return None if t is None else not t
    return w.truth(st, v)


def special(ck, customs):
    ck.rule("special", "a fragment has only children and a key, a script one text and a key which says what it is", 20)
    K, HND = ("S", "child", 1), ("S", "handler", 1)
    cases = {
        "fragment": [
            ({}, [], {}, {"tagName": ""}),
            ({}, [K, ("k", "text")], {}, {"tagName": "", "children": [K, "text"]}),
            ({"key": 1}, [K], {}, {"tagName": "", "children": [K], "attributes": {"key": 1}}),
            ({"key": 0}, [], {}, {"tagName": "", "attributes": {"key": 0}}),
            ({"id": 1}, [K], {}, "TypeError"),
            ({"key": 1, "id": 1}, [], {}, "TypeError"),
            ({}, [K], {"onClick": HND}, "TypeError"),
            ({"key": 1}, [], {"onClick": HND}, "TypeError"),
        ],
        "script": [
            ({}, ["code"], {}, {"tagName": "script", "children": ["code"], "attributes": {"key": "code"}}),
            ({"key": "k"}, ["code"], {}, {"tagName": "script", "children": ["code"], "attributes": {"key": "k"}}),
            ({"key": 0}, ["code"], {}, {"tagName": "script", "children": ["code"], "attributes": {"key": 0}}),
            ({"src": "s"}, [], {}, {"tagName": "script", "attributes": {"src": "s", "key": "s"}}),
            ({"src": "s", "key": "k"}, [], {}, {"tagName": "script", "attributes": {"src": "s", "key": "k"}}),
            ({"src": "s", "key": 0}, [], {}, {"tagName": "script", "attributes": {"src": "s", "key": 0}}),
            ({"src": "s", "type": "t"}, ["code"], {}, {"tagName": "script", "children": ["code"], "attributes": {"src": "s", "type": "t", "key": "code"}}),
            ({"type": "t"}, [], {}, {"tagName": "script", "attributes": {"type": "t"}}),
            ({"type": "module"}, ["code"], {}, {"tagName": "script", "children": ["code"], "attributes": {"type": "module", "key": "code"}}),
            ({}, [], {}, {"tagName": "script"}),
            ({}, ["a", "b"], {}, "ValueError"),
            ({"key": 1}, ["a", "b"], {}, "ValueError"),
            ({}, [K], {}, "ValueError"),
            ({"src": "s"}, [K], {}, "ValueError"),
            ({}, ["code"], {"onClick": HND}, "ValueError"),
            ({"src": "s"}, [], {"onLoad": HND}, "ValueError"),
        ],
    }
    for name, cs in cases.items():
        v = customs.get(name)
        f = ck.p.funcs.get(v[1]) if v and v[0] == "F" else None
        if f is None:
            ck.open.append(f"the constructor of {name}s is not a known function")
            ck.rules["special"]["floor"] = 0
            continue
        for at, kids, ev, want in cs:
            w = W(ck)
            st = w.begin()
            a = (w.d(st, at), ("T", *[w.d(st, k) for k in kids]), w.d(st, ev))
            outs = w.interpret(f, None, a, (), st) or []
            bad = "" if outs else "has no result"
            for o in outs:
                got = w.py(o.st, o.value) if o.kind == "exit" else o.value
                if isinstance(want, str):
                    if o.kind == "exit" or want not in str(got):
                        bad = f"gives {str(got)[:120]} instead of a {want}"
                else:
                    if isinstance(got, dict):
                        got = {k: x for k, x in got.items() if x not in ({}, [], None)}
                    if o.kind != "exit" or got != want or any(type(got.get("attributes", {}).get(k)) is not type(x) for k, x in want.get("attributes", {}).items()):
                        bad = f"gives {str(got)[:160]} instead of {want}"
            ck.ob(not bad, f"{name} of {at}, {len(kids)} {'texts' if kids and kids[0] != K else 'children'}, {sorted(ev)}", f.loc(), f"{name}({at}, {kids}, handlers {sorted(ev)}) {bad}")


KINDS = ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY", "VAR_KEYWORD")


def components(ck):
    P = ck.p
    f = P.func(CO + ".component")
    ck.rule("components", "a component keeps its function, its key and its arguments, and renders with them", 12)

    def decorate(w, params, g=None):
        st = w.begin()
        w.params = w.obj(st, "dict", tuple((("k", n), ("S", "parameter", n, k)) for n, k in params))
        return w.interpret(f, None, (g or fn("function"),), (), st) or []

    for k in ("POSITIONAL_OR_KEYWORD", "KEYWORD_ONLY"):
        for before in ([], [("a", "POSITIONAL_OR_KEYWORD")], [("args", "VAR_POSITIONAL")]):
            for rest in ([], [("kwargs", "VAR_KEYWORD")]):
                outs = decorate(W(ck), [*before, ("key", k), *rest])
                ck.ob(outs and all(o.kind == "exc_exit" and "TypeError" in str(o.value) for o in outs), f"parameter key, {k}, {[x[0] for x in before + rest]}", f.loc(), "a function with a parameter 'key' is made a component, which never gets it")
    lists = [[], [("a", "POSITIONAL_OR_KEYWORD")], [("args", "VAR_POSITIONAL"), ("kwargs", "VAR_KEYWORD")], [("keys", "POSITIONAL_OR_KEYWORD"), ("a_key", "KEYWORD_ONLY")]]
    A, B, C = (("S", "value", x, "object", x, "eq") for x in "abc")
    calls = [((), ()), ((A,), ()), ((A, B), (("key", ("k", "one")),)), ((), (("x", C), ("y", A))), ((B,), (("key", ("k", 0)), ("x", A))), ((C,), (("function", A), ("args", B), ("sig", C)))]
    for n, ps in enumerate(lists):
        w = W(ck)
        outs = decorate(w, ps)
        if not outs or len(outs) != 1 or outs[0].kind != "exit":
            ck.ob(False, f"function {n}", f.loc(), f"a function with the parameters {[p[0] for p in ps]} is refused")
            continue
        st, con, bad, made = w.after(w.begin(), outs[0]), outs[0].value, "", []
        for args, kw in calls:
            rs = w.calling(None, st, None, con, args, kw)
            if not rs or len(rs) != 1:
                raise NoAnswer("calling a constructor of components")
            if rs[0][0] != "v":
                bad = bad or f"calling the component with {len(args)} arguments and {[k for k, _ in kw]} fails"
                made.append(None)
                continue
            made.append(rs[0][1])
            st = rs[0][2]
        for j in (*range(len(calls)), 1, 0, 3, 2):
            (args, kw), o = calls[j], made[j]
            if o is None:
                continue
            c = w.cls_of(st, o)
            m = c and P.method(c, "render")
            if m is None:
                raise NoAnswer("what a component's constructor gives")
            key = dict(kw).get("key", NONE)
            get = lambda n: st.heap.get(("@", o, n))
            if get("key") != key:
                bad = bad or f"a component made with the key {key[1]!r} has the key {get('key')}"
            if get("type") != fn("function"):
                bad = bad or "the type of a component is not its function"
            n0 = len(st.ev)
            rs = w.interpret(m, o, (), (), st)
            if not rs or len(rs) != 1 or rs[0].kind != "exit":
                bad = bad or "render fails"
                continue
            st = w.after(st, rs[0])
            want = [("called", "function", args, tuple(sorted((k, v) for k, v in kw if k != "key")))]
            if [e for e in st.ev[n0:] if e[0] == "called"] != want:
                bad = bad or "render does not call the function once, with the arguments of the component"
            if rs[0].value != ("S", "result", "function", args):
                bad = bad or "render gives something else than the function gives"
        ck.ob(not bad, f"function {n}: {[p[0] for p in ps]}", f.loc(), bad)


def widgets(ck):
    P = ck.p
    ck.rule("linked inputs", "linked inputs show one value, which each of them sets, and tell of it", 18)
    f = P.func(WI + ".use_linked_inputs")
    lists = [[], [{}], [{"type": "text", "key": 1}, {"type": "range", "min": 0}, {"onChange": ("S", "handler", 9), "value": "own"}]]
    for attrs in lists:
        for ignore in (None, True, False):
            for bad_cast in (False, True):
                w = W(ck)
                st = w.begin()
                given = w.d(st, [*attrs])
                kw = (("on_change", fn("on_change")), ("cast", fn("cast", gives=("raise", "ValueError") if bad_cast else None)), ("initial_value", ("k", "first")))
                if ignore is not None:
                    kw += (("ignore_empty", ("k", ignore)),)
                outs = w.interpret(f, None, (given,), kw, st) or []
                bad = "" if len(outs) == 1 and outs[0].kind == "exit" else "fails"
                if not bad:
                    o = outs[0]
                    st = w.after(st, o)
                    bad = linked(w, st, o.value, given, attrs, ignore is not False, bad_cast)
                ck.ob(not bad, f"{len(attrs)} inputs, ignore_empty={ignore}, cast {'fails' if bad_cast else 'works'}", f.loc(), f"with {len(attrs)} inputs: {bad}")
    ck.rule("images", "an image has its data as a data URL of its format, and the attributes given", 8)
    f = P.func(WI + ".image")
    for fmt, value, mime in (("png", b"\x00\xff\x01", "png"), ("svg", "<svg>\u00e9</svg>", "svg+xml"), ("jpeg", b"", "jpeg"), ("gif", "text", "gif"), ("svg+xml", b"<svg/>", "svg+xml")):
        for at in (None, {}, {"alt": "a", "className": "c"}):
            w = W(ck)
            st = w.begin()
            args = (("k", fmt), ("k", value)) + ((w.d(st, at),) if at is not None else ())
            outs = w.interpret(f, None, args, (), st) or []
            raw = value.encode() if isinstance(value, str) else value
            want = {"tagName": "img", "attributes": {"src": f"data:image/{mime};base64,{base64.b64encode(raw).decode()}", **(at or {})}}
            bad = "" if outs else "no result"
            for o in outs:
                got = w.py(o.st, o.value) if o.kind == "exit" else o.value
                if got != want:
                    bad = f"{str(got)[:200]} instead of {want}"
                if at is not None and w.py(o.st, args[2]) != at:
                    bad = "the attributes given are modified"
            ck.ob(not bad, f"{fmt} of {value!r}, {at}", f.loc(), f"image({fmt!r}, {value!r}, {at}): {bad}")


def linked(w, st, result, given, attrs, ignore, bad_cast):
    made = st.heap.get(result, ("", ()))[1] if result[0] == "O" else result[1:] if result[0] == "T" else result[2] if result[0] == "new" else ()
    if [e[1:] for e in st.ev if e[0] == "state"] != [(("k", "first"),)]:
        return "there is not one state which begins with the initial value"
    if len(made) != len(attrs):
        return f"{len(made)} inputs are given"
    if w.py(st, given) != [w.py(st, w.d(st, a)) for a in attrs]:
        return "the attributes given are modified"
    for n, (e, a) in enumerate(zip(made, attrs)):
        if st.heap.get(("@", e, "name")) != ("k", "input") or st.heap.get(("@", e, "argument 1")) is not None:
            return "what is given is not an input"
        got = w.py(st, st.heap[("@", e, "argument 0")])
        h = got.pop("onChange", None)
        if got.pop("value", None) != ("S", "value", "the state", "str", "the state", "eq"):
            return f"input {n} does not show the value"
        if got != {k: v for k, v in a.items() if k not in ("onChange", "value")}:
            return f"input {n} has the attributes {got} instead of {a}"
        for text in ("5", "", "0", " "):
            s = st.copy()
            ev = w.d(s, {"target": {"value": text}})
            rs = w.calling(None, s, None, h, (ev,), ()) if h else None
            if not rs or len(rs) != 1:
                raise NoAnswer("the handler of a linked input")
            r = rs[0]
            new = (r[2] if r[0] == "v" else r[3]).ev[len(st.ev):]
            sets = [e[1:] for e in new if e[0] == "set"]
            if sets != [(("k", text),)]:
                return f"a change of input {n} to {text!r} sets {[x[0][1] if x[0][0] == 'k' else x for x in sets]}" + (", as the cast fails" if bad_cast else "")
            told = [e[1:3] for e in new if e[0] == "called"]
            cast = ("cast", (("k", text),))
            want = [] if not text and ignore else [cast] if bad_cast else [cast, ("on_change", (("S", "result", "cast", (("k", text),)),))]
            if told != want:
                return f"a change of input {n} to {text!r} calls {[t[0] for t in told]} instead of {[t[0] for t in want]}, or with something else"
    return ""


def guarded(f):
    def run(ck):
        try:
            f(ck)
        except NoAnswer as e:
            ck.open.append(f"{f.__name__}: not followed ({e})")
            for r in ck.rules.values():
                if not r["instances"]:
                    r["floor"] = 0

    run.__name__ = f.__name__
    return run


RULES = [guarded(constructors), guarded(components), guarded(widgets)]
