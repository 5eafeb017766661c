"""C15  Everything given to an element constructor ends up in exactly one place."""
from ..absint import Abs, Model, deep
from ..lib import *

EXPLANATION = """
The element constructor is interpreted over classes of arguments: every class of first argument
(plain dict, element, text, nothing, list, generator, component), every shape of children, and for the
attributes every pair of classes of entries (callable, handler, inline JavaScript, text under an
event name or another name, anything else). The dictionaries are summaries, any number of entries
of these classes in any order. In every abstract result each entry is in exactly one of attributes, eventHandlers and
inlineJavaScript, under its own name, and the children are the given ones, flattened, in order.
"""
ASSUMPTIONS = ["an attribute's value is of one of the classes which the API documents"]
VD = "reactpy.core.vdom"
CALL = VD + ".Vdom.__call__"
TO_EH = "reactpy.core.events.to_event_handler_function"
EH = "reactpy.core.events.EventHandler"
SELF = ("S", "self")
NONE = ("k", None)
ATTRS = ("S", "attributes")

# classes of attribute entries: name, callable, BaseEventHandler, str, InlineJavaScript
ENTRY = {
    "callable": ("onClick", True, False, False, False),
    "callable, other name": ("ref", True, False, False, False),
    "handler": ("onBlur", False, True, False, False),
    "callable handler": ("onFocus", True, True, False, False),
    "handler, other name": ("value", False, True, False, False),
    "inline": ("mount", False, False, True, True),
    "inline, event name": ("onKeyUp", False, False, True, True),
    "text, event name": ("onChange", False, False, True, False),
    "text": ("title", False, False, True, False),
    "text, on-": ("once", False, False, True, False),
    "text, lower case": ("onclick", False, False, True, False),
    "text, dashed": ("data-onClick", False, False, True, False),
    "other": ("style", False, False, False, False),
    "other, event name": ("onData", False, False, False, False),
    "None": ("width", False, False, False, False),
    "None, event name": ("onDrop", False, False, False, False),
    "False": ("checked", False, False, False, False),
    "zero": ("tabIndex", False, False, False, False),
    "empty text": ("alt", False, False, True, False),
}
CONST = {"None": None, "None, event name": None, "False": False, "zero": 0, "empty text": ""}
PLACE = {"callable": 1, "callable, other name": 1, "handler": 1, "handler, other name": 1, "inline": 2, "inline, event name": 2, "text, event name": 2}


def value_of(e):
    return ("k", CONST[e]) if e in CONST else ("S", "val", e)


KEYS = ("attributes", "eventHandlers", "inlineJavaScript")


class M(Model):
    def __init__(self, entries, first="dict", kids=None, custom=False, imp=False, allow=True):
        self.entries, self.first, self.kids = entries, first, kids or {}
        self.custom, self.imp, self.allow = custom, imp, allow

    rec = ()

    def kind(self, v):
        return ENTRY.get(v[2]) if v[0] == "S" and v[1] == "val" else None

    def cls_of(self, v):
        """class names of a value"""
        if v[0] == "k":
            t = type(v[1]).__name__
            return {t} | ({"__iter__", "__len__", "Sequence", "Iterable"} if t == "str" else {"NoneType"} if v[1] is None else {"int"} if t == "bool" else set())
        e = self.kind(v)
        if e is not None:
            out = {"callable"} if e[1] else set()
            if e[2]:
                out |= {"BaseEventHandler", "EventHandler"}
            if e[3]:
                out |= {"str", "__iter__", "__len__", "Sequence", "Iterable"}
            if e[4]:
                out |= {"InlineJavaScript"}
            return out
        if v == ATTRS:
            return {"dict", "Mapping", "MutableMapping", "__iter__", "__len__", "Iterable"}
        if v[0] == "S" and v[1] == "kid":
            return {
                "text": {"str", "__iter__", "__len__", "Iterable", "Sequence"}, "element": {"VdomDict", "dict", "Mapping", "MutableMapping", "__iter__", "__len__", "Iterable"},
                "component": {"Component"}, "number": {"int"},
                "dict": {"dict", "Mapping", "MutableMapping", "__iter__", "__len__", "Iterable"},
                "list": {"list", "__iter__", "__len__", "Sequence", "Iterable"}, "tuple": {"tuple", "__iter__", "__len__", "Sequence", "Iterable"},
                "generator": {"__iter__", "Iterator", "Iterable", "Generator"},
            }.get(v[2])
        return None

    def attr(self, st, v, name):
        if v == SELF:
            return {"custom_constructor": ("S", "custom") if self.custom else ("k", None), "import_source": ("S", "import") if self.imp else ("k", None),
                    "allow_children": ("k", self.allow), "__name__": ("S", "tag")}.get(name)
        return None

    def truth(self, st, v):
        if v[0] == "S":
            if v[1] in ("custom", "import", "tag"):
                return True
            if v == ATTRS:
                return bool(self.entries)
            e = self.kind(v)
            if e is not None and (e[1] or e[2]):
                return True
            if v[1] == "kid" and v[2] in ("component", "generator"):
                return True
            return None
        if v[0] == "C":
            if v[1] in ("isinstance", "callable", "hasattr", "issubclass") and v[2]:
                cs = self.cls_of(v[2][0])
                if cs is None:
                    return None
                if v[1] == "callable":
                    return "callable" in cs
                if v[1] == "hasattr" and v[2][1][0] == "k":
                    return v[2][1][1] in cs if v[2][1][1] in ("__iter__", "__len__") else None
                if v[1] == "isinstance":
                    t = v[2][1]
                    names = [t] if t[0] in ("b", "g") else list(t[1:]) if t[0] == "T" else []
                    names = [n[1].rsplit(".", 1)[-1] for n in names if n[0] in ("b", "g")]
                    return bool(set(names) & cs)
        if v[0] == "op" and v[1] == "In" and v[3] == ATTRS and v[2][0] == "k":
            return v[2][1] in [ENTRY[e][0] for e in self.entries]
        if v[0] == "op" and v[1] == "In" and v[2] == ("k", "tagName") and v[3][:3] == ("S", "kid", "element"):
            return True
        if v[0] == "op" and v[1] in ("Is", "Eq"):
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if a[0] == "C" and a[1] == "type" and b[0] in ("b", "g"):
                    cs = self.cls_of(a[2][0])
                    n = b[1].rsplit(".", 1)[-1]
                    if cs is None:
                        return None
                    exact = "dict" if a[2][0] == ATTRS else a[2][0][2] if a[2][0][1] == "kid" else None
                    return n == {"element": "VdomDict", "text": "str", "number": "int", "component": "Component"}.get(exact, exact)
                if b == ("k", None) and a[0] == "S" and a[1] in ("val", "kid", "attributes", "custom", "import"):
                    return False
        return None

    def elements(self, st, v):
        if v[0] == "S" and v[1] == "kid":
            return tuple(self.kids[v[2:]]) if v[2:] in self.kids else None
        if v == ATTRS or v == ("C", ".keys", (ATTRS,), ()):
            return [("k", ENTRY[e][0]) for e in self.entries]
        if v == ("C", ".items", (ATTRS,), ()):
            return [("T", ("k", ENTRY[e][0]), value_of(e)) for e in self.entries]
        if v == ("C", ".values", (ATTRS,), ()):
            return [value_of(e) for e in self.entries]
        return None

    def item(self, st, v, k):
        if v == ATTRS and k[0] == "k":
            for e in self.entries:
                if ENTRY[e][0] == k[1]:
                    return value_of(e)
            return ("missing",)
        return None

    def call(self, ai, st, i, key, recv, args, kw):
        if key == ".keys" and recv == ATTRS:
            return [("v", ("C", ".keys", (ATTRS,), ()))]
        if key in ("dict", ".copy") and (args or (recv,))[0] == ATTRS and not kw:
            o = ai.alloc(st, i, "dict", ())
            ai.update(st, o, ATTRS)
            return [("v", o)]
        if key in self.rec and args:
            # by induction a recursive call gives the nested children in order
            x = args[-1]
            st.heap[("@iter", x)] = min(st.heap.get(("@iter", x), 0) + 1, 3)
            ok = x[0] == "S" and x[1] == "kid" and x[2:] in self.kids
            return [("v", ("new", "list", tuple(flat([x], self.kids)) if ok else (("S", "pieces"),)))]
        if key == "json.dumps":
            return [("v", ("S", "json"))]
        return None


def recursive_calls(ck, fl):
    """functions of the module which call themselves: their call stands for the recursion"""
    g = call_graph(ck.p, VD)
    return {q for q in g if q in reach_set(g, q)}


def flat(children, kids):
    """children with nested collections in place"""
    out = []
    for c in children:
        if c[0] == "S" and c[1] == "kid" and c[2:] in kids:
            out += flat(kids[c[2:]], kids)
        else:
            out.append(c)
    return out


def parts(o):
    """{key: contents} of the model an outcome returns, or None"""
    v = o.deep()
    if v[0] == "C" and isinstance(v[1], str) and v[1].endswith("VdomDict"):
        d = {}
        for x in v[2]:
            if x[0] != "dict":
                return None
            d.update({k[1]: y for k, y in x[1] if k[0] == "k"})
        for k, x in v[3]:
            if k is None:
                return None
            d[k] = x
        return d
    return None


def entries_of(v):
    if v is None or v == ("k", None):
        return ()
    return v[1] if v[0] == "dict" else None


def is_handler_of(ck, x, val):
    """EventHandler(to_event_handler_function(val)) with every other option at its default"""
    if not (x[0] == "C" and x[1] == "class:" + EH):
        return False
    f = role(ck.p, EH, "__init__")
    names = [p for p in f.params() if p != "self"]
    given = dict(zip(names, x[2])) | {k: v for k, v in x[3]}
    fn = given.pop(names[0], None)
    df = f.node.args.defaults
    defaults = dict(zip(names[len(names) - len(df):], df))
    for k, v in given.items():
        d = defaults.get(k)
        if not (isinstance(d, ast.Constant) and v == ("k", d.value)):
            return False
    if not (fn and fn[0] == "C" and fn[1] == TO_EH):
        return False
    g = ck.p.func(TO_EH)
    names = g.params()
    given = dict(zip(names, fn[2])) | dict(fn[3])
    pa = given.get("positional_args", ("k", g.node.args.defaults[-1].value if g.node.args.defaults else True))
    return given.get(names[0]) == val and pa == ("k", True)


def interp(ck, fl, model, values):
    P = ck.p
    f = fl.g.entry_func
    ai = Abs(fl, {"self": SELF, f.node.args.vararg.arg: values}, model)
    ck.states += ai.states
    return ai.ended


def run(ck):
    P = ck.p
    f = P.func(CALL)
    ck.need(f.node.args.vararg is not None, "the arguments of the element constructor")
    fl = flow(ck, f, {TO_EH} | {q for q, x in P.funcs.items() if x.module.name not in (VD, 'reactpy.core.events')})
    M.rec = recursive_calls(ck, fl)
    C = lambda *a: ("S", "kid", *a)
    one = C("text", 1)

    # --- attributes
    ck.rule("entries", "every attribute ends up in one place, under its name, with its value", 90)
    for a in ENTRY:
        for b in ENTRY:
            if a > b:
                continue
            es = [a] if a == b else [a, b]
            outs = interp(ck, fl, M(es), ("T", ATTRS, one))
            bad = _entries(ck, outs, es)
            ck.ob(not bad, f"{name_of(f)}: {' and '.join(es)}", f.loc(), f"with attributes of the class {' and '.join(es)}: {bad}", bad and show(fl.g, bad.path) or "")

    # --- first argument and children
    ck.rule("children", "a plain dict in first place is the attributes, everything else is a child; children are flattened in order", 12)
    kids = {("list", 1): [C("text", 11), C("element", 12)], ("generator", 2): [C("element", 21), C("list", 3)], ("list", 3): [C("number", 31), C("text", 32)], ("tuple", 4): [C("component", 41)]}
    shapes = [
        ("dict, then children", ("T", ATTRS, C("text", 1), C("element", 2)), True),
        ("only attributes", ("T", ATTRS), True),
        ("element first", ("T", C("element", 1), C("text", 2)), False),
        ("text first", ("T", C("text", 1), C("element", 2)), False),
        ("component first", ("T", C("component", 1), C("number", 2)), False),
        ("list first", ("T", C("list", 1), C("text", 2)), False),
        ("None first", ("T", ("k", None), C("text", 2)), False),
        ("None among children", ("T", ATTRS, C("text", 1), ("k", None), C("number", 2)), True),
        ("dict as a child", ("T", ATTRS, C("dict", 1), C("text", 2)), True),
        ("nested list", ("T", ATTRS, C("text", 1), C("list", 1), C("element", 2)), True),
        ("nested generator", ("T", ATTRS, C("element", 1), C("generator", 2), C("tuple", 4), C("text", 2)), True),
        ("generator first", ("T", C("generator", 2), C("text", 2)), False),
        ("nothing", ("T",), False),
    ]
    for name, values, has in shapes:
        es = ["text", "callable"] if has else []
        want = flat(values[2:] if has else values[1:], kids)
        outs = interp(ck, fl, M(["text", "callable"], kids=kids), values)
        bad = None if any(o.kind == "exit" for o in outs) else "no element is made"
        for o in outs:
            if o.kind != "exit":
                bad = bad or "an exception is raised"
                continue
            p = parts(o)
            if p is None:
                bad = bad or "the result is not recognised as an element"
                continue
            got = p.get("children", ("list", ()))
            got = got[1] if got[0] == "list" else got[1:] if got[0] == "T" else [("?",)]
            if list(got) != list(want):
                bad = bad or f"the children are {len(got)} instead of {len(want)}" if len(got) != len(want) else "the children are not the given ones in their order"
            at = entries_of(p.get("attributes"))
            if bool(at) != bool(es):
                bad = bad or ("the first argument is not taken as attributes" if es else "a child is taken as attributes")
            for k, n in o.st.heap.items():
                if k[0] == "@iter" and k[1][1:3] == ("kid", "generator") and n > 1:
                    bad = bad or "a generator among the children is gone through twice"
        ck.ob(not bad, f"{name_of(f)}: {name}", f.loc(), f"{name}: {bad}")

    # --- result
    ck.rule("result", "tag name, import source, custom constructor and refused children", 6)
    for imp in (False, True):
        outs = interp(ck, fl, M(["text"], imp=imp), ("T", ATTRS, one))
        ps = [parts(o) for o in outs if o.kind == "exit"]
        ok = bool(ps) and all(p and p.get("tagName") == ("S", "tag") for p in ps)
        ck.ob(ok, f"{name_of(f)}: tag name, import source {imp}", f.loc(), "the element does not get its tag name")
        ok = bool(ps) and all(p and p.get("importSource") == (("S", "import") if imp else None) for p in ps)
        ck.ob(ok, f"{name_of(f)}: import source {imp}", f.loc(), "the element does not get the import source of its constructor")
    for name, values in (("text", ("T", one)), ("attributes and text", ("T", ATTRS, one)), ("number", ("T", C("number", 1)))):
        outs = interp(ck, fl, M(["text"], allow=False), values)
        ck.ob(bool(outs) and all(o.kind == "exc_exit" for o in outs), f"{name_of(f)}: children refused ({name})", f.loc(), "an element which may not have children is made with children")
    outs = interp(ck, fl, M(["text"], allow=False, custom=True), ("T", ATTRS, one))
    ck.ob(bool(outs) and all(o.kind == "exc_exit" for o in outs), f"{name_of(f)}: children refused (custom constructor)", f.loc(), "an element of a custom constructor which may not have children is made with children")
    outs = interp(ck, fl, M(["text"], allow=False), ("T", ATTRS))
    ck.ob(bool(outs) and all(o.kind == "exit" for o in outs), f"{name_of(f)}: no children", f.loc(), "an element without children is refused")
    seen = []

    class MC(M):
        def call(self, ai, st, i, key, recv, args, kw):
            if recv == ("S", "custom"):
                d = {k: deep(st, v) for k, v in kw}
                seen.append(d)
                return [("v", ai.alloc(st, i, "dict", ((("k", "made"), ("S", "made")), (("k", "tagName"), ("S", "made tag")))))]
            return super().call(ai, st, i, key, recv, args, kw)

    outs = interp(ck, fl, MC(["text", "callable"], custom=True), ("T", ATTRS, one))
    ok = bool(seen) and all(set(d) == {"attributes", "children", "event_handlers"} and d["children"] == ("list", (one,)) and [k for k, _ in d["attributes"][1]] == [("k", "title")] and [k for k, _ in d["event_handlers"][1]] == [("k", "onClick")] for d in seen)
    ck.ob(ok, f"{name_of(f)}: custom constructor", f.loc(), "a custom constructor does not get attributes, children and event handlers")
    ps = [parts(o) for o in outs if o.kind == "exit"]
    ck.ob(bool(ps) and all(p and p.get("made") == ("S", "made") and p.get("tagName") == ("S", "tag") for p in ps), f"{name_of(f)}: result of a custom constructor", f.loc(), "what a custom constructor returns is not the element")


def nested(ck):
    """components reached through an attribute of another one"""
    P = ck.p
    f = P.method(P.cls(VD + ".Vdom"), "__getattr__")
    ck.rule("nested", "a component which is an attribute of another has its import source and its options", 3)
    if f is None:
        ck.open.append("nested: components have no __getattr__")
        ck.rules["nested"]["floor"] = 0
        return
    fl = flow(ck, f, {q for q in P.funcs if q != f.qual})
    par = [p for p in f.params() if p != "self"][0]
    init = P.method(P.cls(VD + ".Vdom"), "__init__")
    names = [p for p in init.params() if p != "self"]
    for allow in (True, False):
        outs = Abs(fl, {"self": SELF, par: ("S", "part")}, M([], imp=True, allow=allow)).ended
        made = [o.deep() for o in outs if o.kind == "exit"]
        ok = bool(made)
        for v in made:
            if v[0] != "C" or v[1] != f"class:{VD}.Vdom" or any(k is None for k, _ in v[3]):
                ck.open.append("nested: what __getattr__ returns is not recognised")
                ck.rules["nested"]["floor"] = 0
                return
            d = dict(zip(names, v[2])) | dict(v[3])
            ck.ob(d.get("import_source") == ("S", "import"), f"{name_of(f)}: import source", f.loc(), "a nested component has not the import source of its parent")
            ck.ob(d.get("allow_children", ("k", True)) == ("k", allow), f"{name_of(f)}: children allowed ({allow})", f.loc(), "a nested component may have children where its parent may not" if not allow else "a nested component may not have children")
            n = d.get(names[0], NONE)
            ck.ob(n[0] in ("str", "fstr") and n[1:] == (("S", "tag"), ("k", "."), ("S", "part")), f"{name_of(f)}: tag name", f.loc(), "a nested component is not named by its parent and its attribute")
        ck.ob(ok, f"{name_of(f)}: found", f.loc(), "no nested component is made")
    outs = Abs(fl, {"self": SELF, par: ("S", "part")}, M([])).ended
    ck.ob(bool(outs) and all(o.kind == "exc_exit" for o in outs), f"{name_of(f)}: other elements", f.loc(), "an element which is not of a module has nested components")


class Bad(str):
    path = ()


def _entries(ck, outs, es):
    def fail(msg, o=None):
        b = Bad(msg)
        b.path = o.path if o else ()
        return b

    if not any(o.kind == "exit" for o in outs):
        return fail("no element is made", outs[0] if outs else None)
    for o in outs:
        if o.kind != "exit":
            return fail("an exception is raised", o)
        p = parts(o)
        if p is None:
            return fail("the result is not recognised as an element", o)
        cols = [entries_of(p.get(k)) for k in KEYS]
        if None in cols:
            return fail("the collections of the element are not recognised", o)
        for k, c in zip(KEYS, cols):
            if k in p and not c:
                return fail(f"the element has an empty {k}", o)
        for e in es:
            name, val = ("k", ENTRY[e][0]), value_of(e)
            hits = [(n, x) for n, c in enumerate(cols) for k, x in c if k == name]
            if len(hits) != 1:
                return fail(f"an entry ({e}) is lost" if not hits else f"an entry ({e}) is in {len(hits)} places", o)
            n, x = hits[0]
            want = PLACE.get(e, 0)
            if e == "callable handler":
                want = 1
            if n != want:
                return fail(f"an entry ({e}) is put into {KEYS[n]} instead of {KEYS[want]}", o)
            ok = x == val
            if e.startswith("callable"):
                ok = is_handler_of(ck, x, val) or e == "callable handler" and ok
            elif want == 2:
                ok = ok or x[0] == "C" and x[1].endswith("InlineJavaScript") and x[2] == (val,)
            if not ok:
                return fail(f"the value of an entry ({e}) is not kept", o)
        extra = sum(len(c) for c in cols) - len(es)
        if extra:
            return fail("the element has entries which were not given", o)
    return None


RULES = [run, nested]
