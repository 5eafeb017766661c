"""C28  Converting HTML to models and models to HTML keeps every part in its place."""
from html import escape

from ..absint import State
from ..lib import *
from ..objs import World, bind_call

EXPLANATION = """
Both conversions are interpreted over trees which stand for every kind of child in every neighbourhood
(text before, between and after elements, fragments, components, nothing, values which are no text) and
for every kind of attribute. For models the tree which lxml is asked to build is followed and written
down as lxml would; for HTML a parsed tree is given and the model which results is compared
with what each element, attribute and text has to become. The tables of names are computed and
checked for every name in them.
"""
ASSUMPTIONS = ["lxml parses and serialises as documented: text and tail, bytes unless an encoding is given", "elements are made as C15 says"]
U, TR = "reactpy.utils", "reactpy.transforms"
NONE = ("k", None)
VOID = {"br", "img", "input", "hr", "meta", "link", "area", "base", "col", "embed", "source", "track", "wbr"}


class El:
    """an element, in a model or a parsed document; tag "" is a fragment"""

    def __init__(self, _tag, *kids, **attrs):
        self.tag, self.kids, self.attrs = _tag, kids, {k.replace("__", "-"): v for k, v in attrs.items()}


class Comp:
    def __init__(self, result):
        self.result = result


class W(World):
    tables = True
    clip = 60
    distinct = True

    def __init__(self, ck):
        super().__init__(ck, (U, TR))
        self.comps = {}
        self.n = 0

    def fresh(self):
        self.n += 1
        return self.n

    # --- models given to the conversion
    def vdom(self, st, x):
        if isinstance(x, Comp):
            v = ("S", "component", self.fresh())
            self.comps[v] = self.vdom(st, x.result)
            return v
        if isinstance(x, El):
            items = [(("k", "tagName"), ("k", x.tag))]
            if x.attrs:
                o = ("O", "attributes", self.fresh())
                st.heap[o] = ("dict", tuple((("k", k), self.vdom(st, v)) for k, v in x.attrs.items()))
                items.append((("k", "attributes"), o))
            if x.kids:
                o = ("O", "children", self.fresh())
                st.heap[o] = ("list", tuple(self.vdom(st, k) for k in x.kids))
                items.append((("k", "children"), o))
            o = ("O", "vdom", self.fresh())
            st.heap[o] = ("dict", tuple(items))
            return o
        if isinstance(x, dict):
            o = ("O", "style", self.fresh())
            st.heap[o] = ("dict", tuple((("k", k), ("k", v)) for k, v in x.items()))
            return o
        if isinstance(x, list):
            o = ("O", "list", self.fresh())
            st.heap[o] = ("list", tuple(self.vdom(st, k) for k in x))
            return o
        return ("k", x)

    # --- documents of lxml
    def node(self, st, tag, attrs=(), text=None, tail=None, kids=()):
        e = ("E", self.fresh())
        o = ("O", "attrib", self.fresh())
        st.heap[o] = ("dict", tuple(attrs))
        for k, v in (("tag", tag), ("text", ("k", text)), ("tail", ("k", tail)), ("kids", ("T", *kids)), ("attrib", o)):
            st.heap[("@", e, k)] = v
        return e

    def parsed(self, st, x, tail=None):
        """a parsed element: texts become text and tail"""
        kids, text = [], None
        for k in x.kids:
            if isinstance(k, El):
                kids.append([k, None])
            elif kids:
                kids[-1][1] = k
            else:
                text = k
        return self.node(st, ("k", x.tag), [(("k", k), ("k", v)) for k, v in x.attrs.items()], text, tail, [self.parsed(st, k, t) for k, t in kids])

    def kids(self, st, e):
        return st.heap[("@", e, "kids")][1:]

    def attr(self, st, v, name):
        if v[0] == "E":
            x = st.heap.get(("@", v, name))
            return x if x is not None and name != "kids" else ("attr", v, name)
        if v[0] == "S" and v[1] == "component" and name != "render":
            return ("missing",)
        if v[0] == "attr" or v[0] == "g" and name.startswith("__"):
            return None
        return super().attr(st, v, name)

    def item(self, st, v, k):
        if v[0] == "E" and k[0] == "k" and isinstance(k[1], int):
            xs = self.kids(st, v)
            return xs[k[1]] if -len(xs) <= k[1] < len(xs) else ("missing",)
        return super().item(st, v, k)

    def elements(self, st, v):
        if v[0] == "E":
            return tuple(self.kids(st, v))
        return super().elements(st, v)

    def truth(self, st, v):
        if v[0] in ("E", "maker") or v[0] == "S" and v[1] in ("component", "transform"):
            return True
        if v[0] == "op" and v[1] in ("Is", "IsNot") and v[3] == NONE and v[2][0] in ("E", "S", "handler"):
            return v[1] == "IsNot"
        if v[0] == "C" and v[1] in ("isinstance", "hasattr", "callable") and v[2]:
            x = v[2][0]
            if v[1] == "hasattr" and v[2][1][0] == "k":
                n = v[2][1][1]
                if x[0] == "S" and x[1] == "component":
                    return n == "render"
                if x[0] == "O":
                    return hasattr({"dict": dict, "list": list, "set": set}[st.heap[x][0]], n)
            if v[1] == "callable":
                return x[0] in ("S", "F", "maker")
            if v[1] == "isinstance":
                return self.isinst(st, x, v[2][1])
        return super().truth(st, v)

    def isinst(self, st, x, t):
        names = {n[1].rsplit(".", 1)[-1] if n[0] in ("b", "g") else str(n[-1]) for n in (t[1:] if t[0] == "T" else [t])}
        own = None
        if x[0] == "E":
            own = {"_Element"}
        elif x[0] == "S" and x[1] == "component":
            own = {"Component", "ComponentType"}
        elif x[0] == "O":
            k = st.heap[x][0]
            own = {k} | ({"VdomDict", "Mapping", "MutableMapping", "Iterable"} if k == "dict" else {"Sequence", "Iterable"})
        elif x[0] == "k":
            own = {c.__name__ for c in type(x[1]).__mro__}
        elif x[0] == "handler":
            own = {"EventHandler", "BaseEventHandler"}
        return None if own is None else bool(own & names)

    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        d = dict(kw)
        if key in ("isinstance", "builtins.isinstance") and len(args) == 2:
            r = self.isinst(st, *args)
            return [("v", ("k", r))] if r is not None else None
        if recv is not None and recv[0] == "S" and recv[1] == "component" and last == "render":
            return [("v", self.comps[recv])]
        if recv is None or recv[0] == "g" or recv[0] == "attr":
            if last in ("Element", "SubElement") and "etree" in key:
                st = st.copy()
                sub = last == "SubElement"
                parent = args[0] if sub else None
                tag = args[1] if sub else args[0]
                at = [(("k", k), v) for k, v in kw if k != "attrib"]
                for x in (*args[2 if sub else 1:3 if sub else 2], *([d["attrib"]] if "attrib" in d else [])):
                    at += list(st.heap[x][1]) if x[0] == "O" else []
                e = self.node(st, tag, at)
                if sub:
                    st.heap[("@", parent, "kids")] = ("T", *self.kids(st, parent), e)
                return [("v", e, st)]
            if last == "tostring" and args and args[0][0] == "E":
                text = self.serial(st, args[0])
                if text is None or d.get("method") != ("k", "html"):
                    return [("v", ("S", "other text"))]
                return [("v", ("k", text if d.get("encoding") in (("k", "unicode"), ("b", "str")) else text.encode("ascii", "xmlcharrefreplace")))]
            if last in ("fromstring", "document_fromstring", "fragment_fromstring", "HTML") and args:
                st = st.copy()
                st.ev = st.ev + (("parsed", args[0], d.get("parser", args[1] if len(args) > 1 else NONE)),)
                return [("v", self.root, st), ("raise", "ParserError", NONE, st)]
        if recv is not None and recv[0] == "E":
            if last in ("iterchildren", "getchildren", "__iter__", "iter") and last != "iter":
                if any(a != NONE for a in args) or kw:
                    return [("v", ("S", "some children"))]
                return [("v", ("T", *self.kids(st, recv)))]
            if last == "items":
                return [("v", ("T", *[("T", k, v) for k, v in st.heap[st.heap[("@", recv, "attrib")]][1]]))]
            if last == "set":
                st = st.copy()
                ai.put(st, st.heap[("@", recv, "attrib")], *args)
                return [("v", NONE, st)]
            if last == "append":
                st = st.copy()
                st.heap[("@", recv, "kids")] = ("T", *self.kids(st, recv), args[0])
                return [("v", NONE, st)]
            if last == "get":
                x = [v for k, v in st.heap[st.heap[("@", recv, "attrib")]][1] if k == args[0]]
                return [("v", x[0] if x else args[1] if len(args) > 1 else NONE)]
        if key == "len" and args and args[0][0] == "E":
            return [("v", ("k", len(self.kids(st, args[0]))))]
        if key in ("list", "tuple", "iter") and args and args[0][0] == "E":
            return [("v", ("T", *self.kids(st, args[0])))]
        if key == "dir" and args and self.cls_of(st, args[0]):
            names = sorted({n for c in self.P.mro(self.cls_of(st, args[0])) for n in c.methods} | {"__class__", "__doc__", "__eq__", "__repr__"})
            return [("v", ("T", *[("k", n) for n in names]))]
        # elements are made by h.<tag>(...) or getattr(h, tag)(...)
        if key == "getattr" and args and is_h(args[0]) and args[1][0] == "k":
            return [("v", ("maker", args[1][1]))]
        m = recv[1] if recv is not None and recv[0] == "maker" else last if recv is not None and is_h(recv) else key[len("reactpy.h."):] if key.startswith("reactpy.h.") else None
        if m == "value":
            m = recv[1] if recv[0] == "maker" else None
        if m is not None:
            return [("v", self.make(ai, st, i, m, args), st)]
        if recv is not None and recv[0] == "S" and recv[1] == "transform":
            return self.transform(ai, st, i, recv, args)
        if last == "EventHandler" and (key.startswith("class:") or recv is None):
            return [("v", ("handler", tuple(kw), tuple(args)))]
        if last == "to_event_handler_function":
            return [("v", ("C", "function", tuple(args), tuple(kw)))]
        if key.startswith("class:"):
            c = self.P.classes.get(key[6:])
            init = c and self.P.method(c, "__init__")
            if c and c.module.name == TR and init:
                o = ("C", key, (), (("n", self.fresh()),))
                outs = self.interpret(init, o, args, kw, st)
                return [(r[0], o, *r[2:]) if r[0] == "v" else r for r in self.results(init, outs, st, i)]
        return None

    def fields(self, c, v):
        return []

    def make(self, ai, st, i, tag, args):
        """what the constructor of an element gives, as C15 says"""
        tag = "" if tag in ("fragment", "_") else tag
        attrs, kids = [], []

        def flat(x):
            if x[0] == "O" and st.heap[x][0] == "list" or x[0] == "T":
                for y in st.heap[x][1] if x[0] == "O" else x[1:]:
                    flat(y)
            else:
                kids.append(x)

        for n, a in enumerate(args):
            if n == 0 and a[0] == "O" and st.heap[a][0] == "dict" and not any(k == ("k", "tagName") for k, _ in st.heap[a][1]):
                attrs = list(st.heap[a][1])
            else:
                flat(a)
        inline = [(k, ("inline", v)) for k, v in attrs if event_name(k[1]) and v[0] == "k" and isinstance(v[1], str)]
        attrs = [(k, v) for k, v in attrs if k not in dict(inline)]
        items = []
        for n, kind, xs in (("attributes", "dict", attrs), ("inlineJavaScript", "dict", inline), ("children", "list", kids)):
            if xs:
                o = ("O", n, self.fresh())
                st.heap[o] = (kind, tuple(xs))
                items.append((("k", n), o))
        o = ("O", "vdom", self.fresh())
        st.heap[o] = ("dict", ((("k", "tagName"), ("k", tag)), *items))
        return o

    def transform(self, ai, st, i, t, args):
        """a transform gives a new model with its mark"""
        st = st.copy()
        o = ("O", "vdom", self.fresh())
        c = st.heap[args[0]][1] if args and args[0][0] == "O" else ((("k", "given"), args[0] if args else NONE),)
        old = dict(c).get(("k", "marks"), ("T",))
        st.heap[o] = ("dict", (*[(k, v) for k, v in c if k != ("k", "marks")], (("k", "marks"), ("T", *old[1:], t))))
        return [("v", o, st)]

    def serial(self, st, e, tail=False):
        def s(x):
            return None if x[0] != "k" or not isinstance(x[1], (str, type(None))) else escape(x[1] or "", quote=False)

        tag, text, tl = (st.heap[("@", e, n)] for n in ("tag", "text", "tail"))
        at = st.heap[st.heap[("@", e, "attrib")]][1]
        if tag[0] != "k" or not tag[1] or s(text) is None or s(tl) is None or any(k[0] != "k" or v[0] != "k" or not isinstance(v[1], str) or not isinstance(k[1], str) for k, v in at):
            return None
        kids = [self.serial(st, k, True) for k in self.kids(st, e)]
        if None in kids:
            return None
        a = "".join(f' {k[1]}="{escape(v[1])}"' for k, v in at)
        end = "" if tag[1] in VOID else f"</{tag[1]}>"
        return f"<{tag[1]}{a}>{s(text)}{''.join(kids)}{end}" + (s(tl) if tail else "")


def is_h(v):
    return v[0] == "g" and v[1].rsplit(".", 1)[-1] in ("h", "html")


def event_name(n):
    return isinstance(n, str) and n.startswith("on") and n[2:3].isupper()


# --- models to HTML
def html_of(x):
    """what a model has to become"""
    if isinstance(x, Comp):
        r = x.result
        if r is None:
            return ""
        return f"<div>{escape(r, quote=False)}</div>" if isinstance(r, str) else html_of(r)
    if x is None:
        return ""
    if not isinstance(x, El):
        return escape(str(x), quote=False)
    inner = "".join(html_of(k) for k in x.kids)
    if not x.tag:
        return inner
    at = "".join(f' {k}="{escape(v)}"' for k, v in html_attrs(x.attrs))
    return f"<{x.tag}{at}>{inner}" + ("" if x.tag in VOID else f"</{x.tag}>")


BACK = {"className": "class", "htmlFor": "for", "httpEquiv": "http-equiv", "acceptCharset": "accept-charset", "tabIndex": "tabindex", "readOnly": "readonly", "dataX": "datax"}


def html_attrs(attrs):
    out = []
    for k, v in attrs.items():
        if v is None or v is False and not k.startswith(("data-", "aria-")):
            continue
        if k == "style" and isinstance(v, dict):
            v = ";".join(f"{css(n)}:{x}" for n, x in v.items())
        out.append((BACK.get(k, k), str(v)))
    return out


def css(n):
    return n if n.startswith("--") else "".join("-" + c.lower() if c.isupper() else c for c in n)


def to_html(ck):
    f = ck.p.func(U + ".reactpy_to_string")
    p, q = El("p", "in p"), El("q")
    pieces = {
        "text": "text", "another text": "more", "number": 0, "empty text": "", "element": p, "empty element": q, "void element": El("br"), "nothing": None,
        "component": Comp(El("i", "made")), "component of a component": Comp(Comp(El("u"))), "component without result": Comp(None), "component of text": Comp("word"),
        "fragment of text": El("", "frag"), "fragment of elements": El("", El("b"), "tail"), "fragment of a component": El("", "x", Comp(El("s"))), "component of a fragment": Comp(El("", El("em"), "end")), "empty fragment": El(""),
        "nested element": El("div", "a", El("b", "c", El("i", "d"), "e"), "f"), "text with markup": "<x> & \"y\" é",
    }
    names = list(pieces)
    ck.rule("to HTML", "every child is written once, at its place", 60)

    def run(name, x):
        w = W(ck)
        st = State({}, {("@", ("S", "none"), "x"): NONE})
        v = w.vdom(st, x)
        bad = None
        outs = w.interpret(f, None, (v,), (), st) or []
        for o in outs:
            want = html_of(x)
            if o.kind != "exit":
                bad = f"raises {o.value[1:2]}"
            elif o.value[0] != "k":
                bad = "the result is not the text of the tree which was built, or the tree cannot be written"
            elif o.value[1].encode("ascii", "xmlcharrefreplace").decode() != want.encode("ascii", "xmlcharrefreplace").decode():
                bad = f"gives {o.value[1]!r:.120} instead of {want!r:.120}"
            if bad:
                break
        ck.ob(bool(outs) and not bad, name, f.loc(), f"{name}: {bad or 'no result'}")

    for a in names:
        run(a, El("div", pieces[a]) if not isinstance(pieces[a], Comp) else pieces[a])
        for b in ("text", "element", "fragment of elements", "component", "nothing", "fragment of text"):
            run(f"{a}, then {b}", El("div", pieces[a], pieces[b]))
            run(f"in a fragment: {b}, then {a}", El("", pieces[b], pieces[a]))
            run(f"{b}, {a} and text", El("div", pieces[b], pieces[a], "end"))
    ck.rule("attributes to HTML", "every attribute is written under its HTML name with its value, those which are absent are not", 12)
    for k, v in (("className", "c"), ("htmlFor", "x"), ("httpEquiv", "x"), ("acceptCharset", "x"), ("tabIndex", 1), ("readOnly", True), ("title", ""), ("title", None), ("disabled", False), ("data-fooBar", 1), ("data-x", False), ("aria-labelX", "x"), ("aria-hidden", False), ("aria-x", None), ("data-x", None), ("hidden", True), ("data-y", ""), ("dataX", "1"), ("href", 'a"b<c&'),
                 ("style", "color:red"), ("style", {"backgroundColor": "red"}), ("style", {"WebkitX": 1, "color": "a"}), ("style", {"--myVar": "1px"}), ("style", {}), ("id", 0)):
        run(f"attribute {k}={v!r}", El("p", "x", **{k: v}))
    run("several attributes", El("p", **{"id": "a", "className": "b", "data-c": "d"}))
    ck.rule("no model", "what is not a model is refused", 1)
    w = W(ck)
    st = State({}, {("@", ("S", "none"), "x"): NONE})
    o = ("O", "attributes", 77)
    st.heap[o] = ("dict", ((("k", "notVdom"), ("k", True)),))
    outs = w.interpret(f, None, (o,), (), st) or []
    ck.ob(bool(outs) and all(x.kind == "exc_exit" and "TypeError" in str(x.value) for x in outs), "a dict without tagName", f.loc(), "no TypeError is raised")


# --- HTML to models
def model_of(x, marks=()):
    """what a parsed element without special meaning has to become"""
    d = {"tagName": x.tag}
    at = {NAMES.get(k, k): v for k, v in x.attrs.items()}
    inline = {k: v for k, v in at.items() if event_name(k)}
    at = {k: v for k, v in at.items() if k not in inline}
    if at:
        d["attributes"] = at
    if inline:
        d["inlineJavaScript"] = inline
    if x.kids:
        d["children"] = [model_of(k, marks) if isinstance(k, El) else k for k in x.kids]
    if marks:
        d["marks"] = list(marks)
    return d


NAMES = {"class": "className", "for": "htmlFor", "checked": "defaultChecked", "accept-charset": "acceptCharset", "http-equiv": "httpEquiv", "tabindex": "tabIndex", "readonly": "readOnly", "maxlength": "maxLength", "onclick": "onClick", "onchange": "onChange", "contenteditable": "contentEditable", "crossorigin": "crossOrigin", "ondoubleclick": "onDoubleClick", "onkeydown": "onKeyDown"}


def py(st, v):
    """Python value of a model"""
    if v[0] == "k":
        return v[1]
    if v[0] == "O":
        c = st.heap[v]
        if c[0] == "dict":
            d = {py(st, k): py(st, x) for k, x in c[1]}
            return {k: x for k, x in d.items() if k not in ("attributes", "eventHandlers", "inlineJavaScript", "children") or x}
        return [py(st, x) for x in c[1]]
    if v[0] == "T":
        return [py(st, x) for x in v[1:]]
    if v[0] == "inline":
        return py(st, v[1])
    if v[0] == "handler" or v[0] == "S":
        return v
    return ("?", v)


def same(got, want):
    if isinstance(want, dict) and isinstance(got, dict):
        return set(got) == set(want) and all(same(got[k], want[k]) for k in want)
    if isinstance(want, list) and isinstance(got, list):
        return len(got) == len(want) and all(map(same, got, want))
    if want is HANDLER:
        return got[0] == "handler" and any(k == "prevent_default" and v == ("k", True) for k, v in got[1])
    return type(got) is type(want) and got == want


HANDLER = object()


def el(tag, *kids, attributes=None, **more):
    d = {"tagName": tag} | ({"attributes": attributes} if attributes else {}) | more
    return d | ({"children": list(kids)} if kids else {})


def from_html(ck):
    f = ck.p.func(U + ".string_to_reactpy")
    T1, T2 = ("S", "transform", 1), ("S", "transform", 2)

    def outs_of(x, transforms=(), source=("k", "<p>the text</p>"), **kw):
        w = W(ck)
        st = State({}, {("@", ("S", "none"), "x"): NONE})
        w.root = w.parsed(st, x) if x is not None else NONE
        return w.interpret(f, None, (source, *transforms), tuple((k, ("k", v)) for k, v in kw.items()), st) or []

    def run(name, x, want, transforms=(), **kw):
        bad, n = None, 0
        for o in outs_of(x, transforms, **kw):
            if o.kind != "exit":
                if "ParseError" not in str(o.value):
                    bad = bad or f"raises {o.value[1] if o.value[0] == 'exc' else o.value}"
                continue
            n += 1
            got = py(o.st, o.value)
            if not same(got, want):
                bad = bad or f"gives {got!r:.260} instead of {want!r:.200}"
        ck.ob(n and not bad, name, f.loc(), f"{name}: {bad or 'no result'}")

    ck.rule("from HTML", "every element and text becomes one child at its place, every attribute one with its React name", 40)
    b, br = El("b", "bold"), El("br")
    deep = El("section", "t", El("p", El("i"), "after i", El("u", "u")), "tail")
    seqs = [(), ("text",), (b,), ("text", b), (b, "tail"), ("text", b, "tail"), (b, br), (b, "between", br), (br, b, "end"), ("a", b, "b", br, "c", deep, "d"), (deep, deep), (deep, "x", deep), (b, " ", br), (" ", b, "\n")]
    for n, ks in enumerate(seqs):
        x = El("div", *ks)
        run(f"children {n}", x, model_of(x))
        run(f"children {n}, below", El("main", x, "z"), model_of(El("main", x, "z")))
        run(f"children {n}, transformed", El("main", x, "z"), model_of(El("main", x, "z"), (T1, T2)), (T1, T2))
    for k in [*NAMES, "id", "title", "href", "data-fooBar", "aria-label", "data-class", "xlink:href", "colspan", "type"]:
        x = El("p", "x", **{k: "v"})
        want = model_of(x)
        if k == "id":
            want["attributes"]["key"] = "v"
        run(f"attribute {k}", x, want)
    x = El("p", **{"class": "a", "title": "b", "onclick": "c", "data-d": "e"})
    run("several attributes", x, model_of(x))
    ck.rule("tables", "every known React prop is found under its name in HTML", 100)
    try:
        from ..consts import value

        props, subs = value(ck.p, TR + ".KNOWN_REACT_PROPS"), value(ck.p, TR + ".REACT_PROP_SUBSTITUTIONS")
    except Exception:
        props, subs = None, None
    ck.need(props and isinstance(subs, dict), "tables of names are not constants")
    for p in sorted(props):
        h = {v: k for k, v in NAMES.items()}.get(p, p.lower())
        special = {"checked": "defaultChecked", "classname": "className", "htmlfor": "htmlFor"}
        want = special.get(p.lower(), p)
        ck.ob(subs.get(p.lower()) == want and (h not in NAMES or subs.get(h) == NAMES[h]), p, f"{ck.p.modules[TR].rel}:1", f"the HTML name {p.lower()} is converted to {subs.get(p.lower())} instead of {want}")
    for k, v in NAMES.items():
        ck.ob(subs.get(k) == v, f"HTML name {k}", f"{ck.p.modules[TR].rel}:1", f"the HTML name {k} is converted to {subs.get(k)} instead of {v}")
    for k, v in subs.items():
        ck.ob(v in props or v in NAMES.values(), f"known {k}", f"{ck.p.modules[TR].rel}:1", f"{k} is converted to {v}, which React does not know")

    ck.rule("elements", "elements which work differently in React are converted without losing anything", 25)
    st = lambda s: El("p", style=s)
    for s, d in (("color: red; background-color : blue;", {"color": "red", "backgroundColor": "blue"}), ("--my-Var:1px", {"--my-Var": "1px"}), ("background:url(data:image/png;base64,x);color:a", {"background": "url(data:image/png;base64,x)", "color": "a"}), ("content:';:'", {"content": "';:'"}), ("-webkit-box-x:1", {"WebkitBoxX": "1"}), ("a:b:c;;d:e", {"a": "b:c", "d": "e"})):
        run(f"style {s}", st(s), el("p", attributes={"style": d}))
    run("textarea", El("textarea", "text", title="a"), el("textarea", attributes={"title": "a", "defaultValue": "text"}))
    run("textarea with a default", El("textarea", "text", defaultvalue="other"), el("textarea", attributes={"defaultValue": "text"}))
    run("textarea with a name", El("textarea", "text", name="n"), el("textarea", attributes={"name": "n", "key": "n", "defaultValue": "text"}))
    run("empty textarea", El("textarea", title="a"), el("textarea", attributes={"title": "a"}))
    run("input", El("input", value="v", type="text"), el("input", attributes={"type": "text", "defaultValue": "v"}))
    run("input with an empty value", El("input", value=""), el("input", attributes={"defaultValue": ""}))
    run("value of another element", El("button", "b", value="v"), el("button", "b", attributes={"value": "v"}))
    o = lambda text, **a: El("option", *([text] if text else []), **a)
    wo = lambda text, **a: el("option", *([text] if text else []), attributes=a)
    run("select", El("select", o("A", value="a"), o("B", value="b", selected="selected")), el("select", wo("A", value="a"), wo("B", value="b"), attributes={"defaultValue": "b"}))
    run("select, nothing selected", El("select", o("A", value="a"), o("B")), el("select", wo("A", value="a"), el("option", "B")))
    run("select by text", El("select", o("A"), o("B", selected="")), el("select", el("option", "A"), wo("B", value="B"), attributes={"defaultValue": "B"}))
    run("select without text", El("select", o("", value="a", selected="")), el("select", wo("", value="a"), attributes={"defaultValue": "a"}))
    run("select several", El("select", o("A", selected=""), o("C", value="c"), o("B", value="b", selected=""), multiple="", title="t"), el("select", wo("A", value="A"), wo("C", value="c"), wo("B", value="b"), attributes={"multiple": True, "title": "t", "defaultValue": ["A", "b"]}))
    run("select one of several", El("select", o("A", value="a", selected=""), o("C", value="c"), multiple=""), el("select", wo("A", value="a"), wo("C", value="c"), attributes={"multiple": True, "defaultValue": ["a"]}))
    run("select none of several", El("select", o("A", value="a"), multiple=""), el("select", wo("A", value="a"), attributes={"multiple": True}))
    run("select with a name", El("select", o("A", value="a"), name="n"), el("select", wo("A", value="a"), attributes={"name": "n", "key": "n"}))
    run("select with groups", El("select", El("optgroup", o("A", selected=""), label="g"), o("B", value="b")), el("select", el("optgroup", wo("A", value="A"), attributes={"label": "g"}), wo("B", value="b"), attributes={"defaultValue": "A"}))
    run("option elsewhere", El("datalist", o("A", value="a")), el("datalist", wo("A", value="a")))
    run("key of an id", El("p", id="i"), el("p", attributes={"id": "i", "key": "i"}))
    run("key", El("p", id="i", key="k"), el("p", attributes={"id": "i", "key": "k"}))
    run("key of an input", El("input", name="n"), el("input", attributes={"name": "n", "key": "n"}))
    run("key of an input with an id", El("input", name="n", id="i"), el("input", attributes={"name": "n", "id": "i", "key": "i"}))
    run("name of another element", El("form", name="n"), el("form", attributes={"name": "n"}))
    r = lambda v: El("input", type="radio", name="n", value=v)
    wr = lambda v: el("input", attributes={"type": "radio", "name": "n", "defaultValue": v})
    run("radio buttons", El("p", r("1"), "or", r("2"), El("i", id="x")), el("p", wr("1"), "or", wr("2"), el("i", attributes={"id": "x", "key": "x"})))
    run("radio buttons, apart", El("p", El("b", r("1")), El("b", r("2"))), el("p", el("b", el("input", attributes={"type": "radio", "name": "n", "defaultValue": "1", "key": "n"})), el("b", el("input", attributes={"type": "radio", "name": "n", "defaultValue": "2", "key": "n"}))))
    a = El("a", "to", href="/x")
    run("link", El("p", a), el("p", el("a", "to", attributes={"href": "/x"}, eventHandlers={"onClick": HANDLER})))
    run("link which is not intercepted", El("p", a), el("p", el("a", "to", attributes={"href": "/x"})), intercept_links=False)
    run("link, transformed", a, el("a", "to", attributes={"href": "/x"}, eventHandlers={"onClick": HANDLER}, marks=[T1]), (T1,))

    ck.rule("source", "what cannot be converted is refused, nothing is the empty fragment", 6)

    def refused(name, src, err, x=None):
        os = outs_of(x, source=src)
        ck.ob(bool(os) and all(o.kind == "exc_exit" and err in str(o.value) for o in os), name, f.loc(), f"{name}: {err} is not raised")

    for v in (123, None, b"<p>a</p>"):
        refused(f"source {v!r}", ("k", v), "TypeError")
    for v in ("no tags", "a < b", "b > a"):
        refused(f"source {v!r}", ("k", v), "ValueError")
    for v in ("", "  ", "\n\t "):
        os = outs_of(None, source=("k", v))
        ck.ob(bool(os) and all(o.kind == "exit" and py(o.st, o.value) == {"tagName": ""} for o in os), f"source {v!r}", f.loc(), "not the empty fragment")
    for strict in (True, False):
        os = outs_of(b, strict=strict)
        ps = [e for o in os for e in o.st.ev if e[0] == "parsed"]
        ok = ps and all(dict(e[2][3] if e[2][0] == "C" else ()).get("recover", ("k", True)) == ("k", not strict) for e in ps)
        ck.ob(ok, f"strict={strict}", f.loc(), f"with strict={strict} the parser is not asked to {'fail on' if strict else 'recover from'} errors")
        ck.ob(all(e[1] == ("k", "<p>the text</p>") for e in ps), f"text which is parsed, strict={strict}", f.loc(), "another text than the given one is parsed")
        fails = [o for o in os if o.kind == "exc_exit"]
        ck.ob(fails and all("HTMLParseError" in str(o.value) for o in fails), f"HTML which cannot be parsed, strict={strict}", f.loc(), "no HTMLParseError is raised")


RULES = [to_html, from_html]
