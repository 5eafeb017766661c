"""C33  PyScript shows each update of the layout, and keeps only workspaces which are on the page."""
import re

from ..absint import State, deep
from ..hooked import Hooks
from ..lib import *
from ..objs import World
from ..tree import Tree

EXPLANATION = """
The handler is interpreted from its constructor through `run`, with a layout which gives a scripted
series of updates (of the root and of parts below it) and a page which holds a container and the
elements of workspaces. After each update the tree handed to morphdom is written down and compared
with what the model has to look like: tags, texts and fragments in order, attributes, classes, styles,
listeners. Every listener is then called: its event reaches the layout with the target of its handler,
in a task which something keeps until it is done. What is left of the namespace of the scripts is
compared with the workspaces which are on the page.
"""
ASSUMPTIONS = ["morphdom makes the first tree like the second one", "PyScript runs the scripts of components in the namespace of __main__", "set_pointer replaces what a JSON pointer leads to"]
HM = "reactpy.executors.pyscript.layout_handler"
NONE = ("k", None)
LAYOUT, ROOT, PAGE, MAIN = ("S", "layout"), ("S", "root component"), ("S", "document"), ("O", "namespace of __main__", 0)
OTHERS = ("O", "namespace of the module", 0)
OWN, LIVE, DEAD, LOST = "a1", "b2", "c3", "d4"


class NoAnswer(Exception):
    pass


class M:
    """a model"""

    def __init__(self, _tag, *kids, on=None, **attributes):
        self.tag, self.kids, self.attributes, self.on = _tag, kids, {k.replace("__", "-"): v for k, v in attributes.items()}, on or {}


class W(Hooks):
    clip = 60

    def __init__(self, ck, updates):
        World.__init__(self, ck, (HM,), {})
        self.opq = set(self.P.funcs)
        self.running, self.comps, self.ids, self.lambdas, self.pending, self.failing, self.stackq = [], {}, set(), {}, [], (), None
        self.updates = updates

    # ---- the page
    def element(self, st, tag, kids=(), **attrs):
        e = ("S", "node", self.fresh(st))
        st.heap[("@", e, "tag")] = tag
        st.heap[("@", e, "kids")] = ("T", *kids)
        st.heap[("@", e, "attrs")] = ("T", *[("T", ("k", k), ("k", v)) for k, v in attrs.items()])
        return e

    def kids(self, st, e):
        return st.heap[("@", e, "kids")][1:]

    def attrs(self, st, e):
        return {k: v for _, k, v in st.heap[("@", e, "attrs")][1:]}

    def change(self, st, e, name, value):
        a = self.attrs(st, e)
        a.pop(name, None)
        if value is not None:
            a[name] = value
        st.heap[("@", e, "attrs")] = ("T", *[("T", k, v) for k, v in a.items()])

    def all(self, st, e):
        yield e
        for k in self.kids(st, e):
            if k[1] == "node":
                yield from self.all(st, k)

    def matching(self, st, sel):
        m = re.fullmatch(r"(\w*)((?:[.#][\w-]+|\[[\w-]+(?:=[\"']?[\w-]*[\"']?)?\])*)", sel.strip())
        if not m:
            raise NoAnswer(f"elements {sel}")
        out = []
        for e in (x for top in self.page for x in self.all(st, top)):
            a = {k[1]: v[1] for k, v in self.attrs(st, e).items() if k[0] == v[0] == "k"}
            ok = m[1] in ("", st.heap[("@", e, "tag")][1])
            for p in re.findall(r"[.#][\w-]+|\[[^\]]+\]", m[2]):
                if p[0] == "[":
                    n, _, v = p[1:-1].partition("=")
                    ok &= n in a and ("=" not in p or str(a[n]) == v.strip("'\""))
                else:
                    ok &= p[1:] in str(a.get("class" if p[0] == "." else "id", "")).split()
            if ok:
                out.append(e)
        return out

    def begin(self, uuid):
        """the page and the namespace of the scripts"""
        st = State({}, {("@", ("S", "none"), "x"): NONE})
        mk = lambda u, *kids: self.element(st, ("k", "div"), kids, **{"id": f"pyscript-{u}", "class": "pyscript", "data-uuid": u})
        self.box = mk(uuid, ("S", "string", ("k", "Loading")))
        self.page = [self.element(st, ("k", "body"), (self.element(st, ("k", "p")), self.box, mk(LIVE)))]
        self.workspaces = {u: ("S", "fn", f"workspace {u}", (), ROOT, None, False, True) for u in (OWN, LIVE, DEAD, LOST)}
        items = [("k", "asyncio"), ("S", "module", "asyncio")], [("k", "user_workspaces"), ("k", 1)], [("k", "task_force"), ("k", 2)], [("k", "user_workspaces_e5"), ("k", 3)], [("k", "task_e5"), ("S", "task", "of no workspace")]
        items = [tuple(x) for x in items]
        for u, f in self.workspaces.items():
            items.append((("k", f"user_workspace_{u}"), f))
            if u != LOST:
                items.append((("k", f"task_{u}"), ("S", "task", f"of {u}")))
        st.heap[MAIN] = ("dict", tuple(items))
        st.heap[OTHERS] = ("dict", ((("k", "ReactPyLayoutHandler"), ("S", "class")), (("k", "asyncio"), ("S", "module", "asyncio"))))
        return st

    # ---- values
    def name(self, st, op):
        if op[0] == "g":
            q = self.P.resolve_dotted(op[1]) or op[1]
            if q in ("js.document", "js.window.document", "pyscript.document"):
                return PAGE
            if q in ("__main__", "js", "sys"):
                return ("S", "module", q)
        return super().name(st, op)

    def truth(self, st, v):
        if v[0] == "S" and v[1] in ("node", "string", "layout", "document", "module", "task", "style", "data", "event", "class", "root component"):
            return True
        if v[0] == "op" and v[1] == "Is" and v[3] == NONE and v[2][0] == "S":
            return False
        return super().truth(st, v)

    def attr(self, st, v, name):
        if v == ("S", "module", "__main__"):
            if name == "__dict__":
                return MAIN
            return next((x for k, x in st.heap[MAIN][1] if k == ("k", name)), ("missing",))
        if v == ("S", "module", "js") and name == "document":
            return PAGE
        if v == ("S", "module", "sys") and name == "modules":
            return ("S", "modules")
        if v[:2] == ("S", "node"):
            a = self.attrs(st, v)
            if name in ("style", "dataset"):
                return ("S", "style" if name == "style" else "data", v)
            if name in ("id", "className", "tagName"):
                return a.get(("k", "class" if name == "className" else name), ("k", "")) if name != "tagName" else st.heap[("@", v, "tag")]
            if name in ("childNodes", "children", "attributes"):
                return ("T", *self.kids(st, v)) if name != "attributes" else ("S", "attributes", v)
        if v[:2] == ("S", "data"):
            return self.attrs(st, v[2]).get(("k", "data-" + name), ("missing",))
        return super().attr(st, v, name)

    def item(self, st, v, k):
        if v == ("S", "modules"):
            return ("S", "module", k[1]) if k[0] == "k" else None
        return super().item(st, v, k)

    def entered(self, st, cm, i):
        if cm == LAYOUT:
            st.ev = st.ev + (("opened",),)
            return LAYOUT
        return super().entered(st, cm, i)

    def exited(self, st, cm, i):
        if cm == LAYOUT:
            st.ev = st.ev + (("closed",),)
        return super().exited(st, cm, i)

    def awaited(self, st, v, i):
        if v[:1] == ("awaitable",) and v[2:3] == ("deliver",) and i.op == "await":
            return [("v", NONE, self.note(st, "delivered", v[3]))]
        return super().awaited(st, v, i)

    def types(self, v):
        return super().types(v) | {x[1] for x in (v[1:] if v[0] == "T" else (v,)) if x[0] == "b"}

    def setattr(self, st, obj, name, val, i):
        if obj[:2] == ("S", "node"):
            if name in ("className", "id"):
                self.change(st, obj, ("k", "class" if name == "className" else "id"), val)
            elif name in ("textContent", "innerText", "innerHTML"):
                st.heap[("@", obj, "kids")] = ("T", *([("S", "string", val)] if val not in (("k", ""), NONE) else []))
            else:
                st.heap[("@", obj, "property " + name)] = val
        return super().setattr(st, obj, name, val, i)

    # ---- calls
    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        d = dict(kw)
        if key == "class:reactpy.core.layout.Layout" or last == "Layout" and recv is None:
            return [("v", LAYOUT, self.note(st, "layout of", *args))]
        if recv == LAYOUT or key == "value" and recv is not None and recv[:2] == ("attr", LAYOUT):
            m = last if recv == LAYOUT else recv[2]
            if m == "render":
                n = sum(e[0] == "render" for e in st.ev)
                ns = self.note(st, "render", n)
                if n >= len(self.updates):
                    return [("v", ("failing", "CancelledError", ("S", "the end")), ns)]
                path, model = self.updates[n]
                return [("v", ("awaitable", self.obj(ns, "dict", ((("k", "type"), ("k", "layout-update")), (("k", "path"), ("k", path)), (("k", "model"), self.model(ns, model))))), ns)]
            if m in ("__aenter__", "__aexit__"):
                return [("v", ("awaitable", LAYOUT if m == "__aenter__" else NONE), self.note(st, "opened" if m == "__aenter__" else "closed"))]
            if m == "deliver" and args:
                return [("v", ("awaitable", NONE, "deliver", deep(st, args[0], 9)))]
        if last == "create_task" or last == "ensure_future":
            st = st.copy()
            t = ("S", "task", self.fresh(st))
            if args[0][:1] == ("awaitable",) and args[0][2:3] == ("deliver",):
                st = self.note(st, "delivered", args[0][3])
            return [("v", t, self.note(st, "task", t))]
        if last == "set_pointer" and len(args) >= 3:
            return self.pointer(st, *args[:3])
        if last in ("globals",) and not args:
            return [("v", OTHERS)]
        if key in ("vars",) and args == (("S", "module", "__main__"),):
            return [("v", MAIN)]
        if last == "import_module" and args and args[0][0] == "k":
            return [("v", ("S", "module", args[0][1]))]
        if recv == ("S", "modules") and last == "get" and args[0][0] == "k":
            return [("v", ("S", "module", args[0][1]))]
        if key in ("getattr", "hasattr", "delattr") and args and args[0] == ("S", "module", "__main__"):
            x = self.attr(st, *args[:1], args[1][1])
            if key == "hasattr":
                return [("v", ("k", x != ("missing",)))]
            if key == "delattr":
                st = st.copy()
                st.heap[MAIN] = ("dict", tuple(y for y in st.heap[MAIN][1] if y[0] != args[1]))
                return [("v", NONE, st)] if x != ("missing",) else [("raise", "AttributeError")]
            return [("v", x)] if x != ("missing",) else [("v", args[2])] if len(args) > 2 else [("raise", "AttributeError")]
        if recv is not None and recv[:2] == ("S", "task"):
            if last == "add_done_callback":
                st = st.copy()
                k = ("@", recv, "callbacks")
                st.heap[k] = ("T", *st.heap.get(k, ("T",))[1:], args[0])
                return [("v", NONE, st)]
            if last == "cancel":
                return [("v", ("k", True), self.note(st, "cancel", recv))]
            if last in ("done", "cancelled"):
                return [("v", ("k", False))]
        if last == "add_event_listener" and len(args) >= 3:
            return [("v", NONE, self.note(st, "listener", *args[:3]))]
        if last in ("create_proxy", "create_once_callable") and args:
            return [("v", args[0])]
        if (last == "default" or key == "value" or last == "morphdom") and "morphdom" in str(recv if recv is not None else key) and len(args) >= 2:
            ns = st.copy()
            if args[0] != self.box:
                return [("v", NONE, self.note(ns, "shown", "elsewhere"))]
            e = args[1]
            ns = self.note(ns, "shown", self.snapshot(ns, e))
            ns.heap[("@", self.box, "kids")] = ns.heap[("@", e, "kids")]
            ns.heap[("@", self.box, "attrs")] = ns.heap[("@", e, "attrs")]
            return [("v", self.box, ns)]
        if recv == PAGE or recv == ("attr", PAGE, last):
            return self.document(st, last, args)
        if recv is not None and recv[:2] == ("S", "node"):
            r = self.on_node(st, recv, last, args)
            if r is not None:
                return r
        if recv is not None and recv[:2] == ("S", "style") and last == "setProperty":
            st = st.copy()
            st.heap[("@", recv, args[0][1])] = args[1]
            return [("v", NONE, st)]
        if key == "setattr" and len(args) == 3 and args[0][0] == "S" and args[1][0] == "k":
            st = st.copy()
            if args[0][1] == "style":
                st.heap[("@", args[0], args[1][1])] = args[2]
            elif self.setattr(st, args[0], args[1][1], args[2], i) is None:
                st.heap[("@", args[0], args[1][1])] = args[2]
            return [("v", NONE, st)]
        if key == "isinstance" and len(args) == 2 and args[0][:2] in (("S", "task"),):
            return [("v", ("k", "Task" in self.types(args[1])))]
        return super().ext(ai, st, i, key, recv, args, kw)

    def document(self, st, last, args):
        st = st.copy()
        if last == "createElement":
            return [("v", self.element(st, args[0]), st)]
        if last == "createTextNode":
            return [("v", ("S", "string", args[0]))]
        if last == "getElementById" and args[0][0] == "k":
            found = self.matching(st, "#" + args[0][1])
            return [("v", found[0] if found else NONE)]
        if last in ("querySelector", "querySelectorAll") and args[0][0] == "k":
            found = self.matching(st, args[0][1])
            return [("v", ("T", *found) if last.endswith("All") else found[0] if found else NONE)]
        if last in ("getElementsByClassName",) and args[0][0] == "k":
            return [("v", ("T", *self.matching(st, "." + args[0][1])))]
        raise NoAnswer(f"document.{last}")

    def on_node(self, st, e, m, args):
        st = st.copy()
        if m == "cloneNode":
            c = self.element(st, st.heap[("@", e, "tag")], self.kids(st, e) if args[:1] == (("k", True),) else ())
            st.heap[("@", c, "attrs")] = st.heap[("@", e, "attrs")]
            return [("v", c, st)]
        if m in ("appendChild", "append"):
            st.heap[("@", e, "kids")] = ("T", *self.kids(st, e), *[("S", "string", a) if a[0] == "k" else a for a in args])
            return [("v", args[0], st)]
        if m in ("prepend",):
            st.heap[("@", e, "kids")] = ("T", *args, *self.kids(st, e))
            return [("v", NONE, st)]
        if m == "setAttribute":
            self.change(st, e, *args[:2])
            return [("v", NONE, st)]
        if m == "removeAttribute":
            self.change(st, e, args[0], None)
            return [("v", NONE, st)]
        if m == "getAttribute":
            return [("v", self.attrs(st, e).get(args[0], NONE))]
        if m == "addEventListener":
            return [("v", NONE, self.note(st, "listener", e, *args[:2]))]
        if m in ("remove", "replaceWith"):
            return [("v", NONE)]
        return None

    # ---- models
    def model(self, st, m):
        if not isinstance(m, M):
            return ("k", m)
        d = [("tagName", ("k", m.tag))]
        pairs = lambda x: tuple((("k", k), self.obj(st, "dict", pairs(v)) if isinstance(v, dict) else ("k", v)) for k, v in x.items())
        if m.attributes:
            d.append(("attributes", self.obj(st, "dict", pairs(m.attributes))))
        if m.on:
            d.append(("eventHandlers", self.obj(st, "dict", pairs({n: {"target": t, "preventDefault": False, "stopPropagation": False} for n, t in m.on.items()}))))
        if m.kids:
            d.append(("children", self.obj(st, "list", tuple(self.model(st, k) for k in m.kids))))
        return self.obj(st, "dict", tuple((("k", k), v) for k, v in d))

    def pointer(self, st, doc, path, value):
        if path[0] != "k":
            raise NoAnswer(f"the path of set_pointer {path}")
        st = st.copy()
        *way, end = path[1].lstrip("/").split("/")
        for p in way:
            c = st.heap.get(doc)
            doc = c and (dict(c[1]).get(("k", p)) if c[0] == "dict" else c[1][int(p)] if p.isdigit() and int(p) < len(c[1]) else None)
            if doc is None:
                return [("raise", "JsonPointerException")]
        kind, xs = st.heap[doc]
        if kind == "dict":
            st.heap[doc] = (kind, (*[x for x in xs if x[0] != ("k", end)], (("k", end), value)))
        elif end.isdigit() and int(end) < len(xs):
            st.heap[doc] = (kind, tuple(value if n == int(end) else x for n, x in enumerate(xs)))
        else:
            return [("raise", "JsonPointerException")]
        return [("v", NONE, st)]

    # ---- what is shown
    def snapshot(self, st, e):
        if e[1] == "string":
            v = e[2]
            return ("text", str(v[1]) if v[0] == "k" else v)
        py = lambda v: v[1] if v[0] == "k" else v
        a = {str(py(k)): py(v) for k, v in self.attrs(st, e).items()}
        style = {k[2]: py(v) for k, v in st.heap.items() if k[0] == "@" and k[1] == ("S", "style", e)}
        for part in str(a.pop("style", "")).split(";"):
            n, s, v = part.partition(":")
            if s:
                style[re.sub(r"-(\w)", lambda m: m[1].upper(), n.strip())] = v.strip()
        kids = []
        for k in self.kids(st, e):
            s = self.snapshot(st, k)
            if s[0] == "text" and kids and kids[-1][0] == "text":
                s = ("text", kids.pop()[1] + s[1])
            if s != ("text", ""):
                kids.append(s)
        lower = tuple(sorted((py(v[2]), n) for n, v in enumerate(x for x in st.ev if x[0] == "listener") if v[1] == e))
        return ("element", py(st.heap[("@", e, "tag")]), frozenset((k, str(v)) for k, v in a.items()), frozenset(style.items()), lower, tuple(kids))


def wanted(m):
    """what a model has to look like (list of nodes)"""
    if not isinstance(m, M):
        return [("text", m)] if m else []
    kids = []
    for k in m.kids:
        for s in wanted(k):
            if s[0] == "text" and kids and kids[-1][0] == "text":
                s = ("text", kids.pop()[1] + s[1])
            kids.append(s)
    if not m.tag:
        return kids
    a = {("class" if k == "className" else k): v for k, v in m.attributes.items() if k != "style" and v is not None and (v is not False or k.startswith(("data-", "aria-")))}
    return [("element", m.tag, a, m.attributes.get("style", {}), m.on, tuple(kids))]


def differs(got, want, where="the page"):
    """how a snapshot differs from what is wanted"""
    if len(got) != len(want):
        return f"{where} has {[g[1] for g in got]} instead of {[w[1] for w in want]}"
    for g, w in zip(got, want):
        if g[0] != w[0] or g[1] != w[1]:
            return f"{where} has {g[1]!r} where {w[1]!r} has to be"
        if g[0] == "text":
            continue
        at = dict(g[2])
        for k, v in w[2].items():
            ok = ("", "True", "true", k) if v is True else (str(v), str(v).lower()) if v is False else (str(v),)
            if at.pop(k, None) not in ok:
                return f"<{w[1]}> has {dict(g[2]).get(k)!r} as its {k} instead of {v!r}"
        if at:
            return f"<{w[1]}> has {at}, which its model has not (or as None or False)"
        if dict(g[3]) != {k: str(v) for k, v in w[3].items()} and dict(g[3]) != w[3]:
            return f"<{w[1]}> has the style {dict(g[3])} instead of {w[3]}"
        names = sorted(n.lower()[2:] if n.lower().startswith("on") else n.lower() for n in w[4])
        if [n for n, _ in g[4]] != names:
            return f"<{w[1]}> listens to {[n for n, _ in g[4]]} instead of {names}"
        b = differs(g[5], w[5], f"<{w[1]}>")
        if b:
            return b
    return ""


def at(m, path, new):
    """a model with another at a path"""
    if not path:
        return new
    _, n, *rest = path.strip("/").split("/")
    c = M(m.tag, *[at(k, "/".join(("", *rest)) if rest else "", new) if j == int(n) else k for j, k in enumerate(m.kids)], on=m.on)
    c.attributes = m.attributes
    return c


FULL = M("", M("div", "x", M("b", "bold"), M("", "f1", M("i"), M("", "f2"), "f3"), "y", M("ul", *[M("li", str(n), on={"onClick": f"li{n}"}) for n in range(3)]), className="a b", id="i", data__x=False, style={"color": "red", "backgroundColor": "blue"}, disabled=False, title=None, hidden=True, aria__label="l", on={"onClick": "t1", "onMouseMove": "t2", "custom": "t3", "onNavigate": "t6", "onTransitionEnd": "t7"}), M("input", on={"onChange": "t8"}, value=0))
EMPTY = M("")
SERIES = {
    "one update": [("", FULL)],
    "nested updates": [("", FULL), ("/children/0/children/1", M("u", "new", M("s", "s"), className="c", on={"onChange": "t4"})), ("/children/0/children/2", M("", M("p", "f")))],
    "a part without children": [("", FULL), ("/children/0/children/2", EMPTY), ("/children/0/children/4/children/1", M("li", "other", on={"onKeyDown": "t5"}))],
    "nothing after something": [("", FULL), ("", EMPTY)],
    "something after nothing": [("", EMPTY), ("", FULL)],
    "another root": [("", M("", "text")), ("", M("", M("p", id="j"))), ("", M("", M("p", "x")))],
    "a part of a part": [("", M("", M("div", M("div", M("div", "deep"))))), ("/children/0/children/0", M("p", M("q", "a"), M("q", "b"))), ("/children/0/children/0/children/1", M("q", "c"))],
    "the same part again": [("", M("", M("div", "1"), M("div", "2"))), ("/children/1", M("div", "3")), ("/children/1", M("div", "4")), ("/children/0", M("div", "5"))],
}


def outcomes(ck, cls, w, st):
    """outcomes of ReactPyLayoutHandler(uuid).run(workspace)"""
    rs = w.make(st, cls, (("k", OWN),), ())
    if not rs or len(rs) != 1 or rs[0][0] != "v":
        raise NoAnswer("the constructor")
    run = ck.p.method(cls, "run")
    outs = w.interpret(run, rs[0][1], (w.workspaces[OWN],), (), rs[0][2])
    if not outs:
        raise NoAnswer("run has no outcome")
    return rs[0][1], [(o, w.after(st, o)) for o in outs]


def shows(ck, cls, name, updates):
    run = ck.p.method(cls, "run")
    w = W(ck, updates)
    st = w.begin(OWN)
    handler, outs = outcomes(ck, cls, w, st)
    bad = {}
    for o, st in outs:
        if o.kind == "exit":
            bad.setdefault("shown", "showing updates ends, or a failure of the layout is hidden")
            continue
        n = sum(e[0] == "render" for e in st.ev)
        if n <= len(updates):
            bad.setdefault("shown", f"update {n} of {len(updates)} fails: {str(o.value)[:120]}")
            continue
        if [e[1:] for e in st.ev if e[0] == "layout of"] != [(ROOT,)]:
            bad.setdefault("shown", "there is not one layout, of what the workspace gives")
        if [e[0] for e in st.ev if e[0] in ("opened", "closed")] != ["opened", "closed"]:
            bad.setdefault("shown", "the layout is not opened before, and closed after, its updates are shown")
        model, last, seen = EMPTY, None, -1
        for e in st.ev:
            if e[0] == "shown":
                last, seen = e[1], seen + 1
            elif e[0] == "render" and e[1] > 0:
                path, new = updates[e[1] - 1]
                model = at(model, path, new)
                if last is None:
                    bad.setdefault("shown", f"update {e[1]} is not shown before the next is waited for")
                elif last == "elsewhere":
                    bad.setdefault("shown", "an update is shown outside the container of the component")
                else:
                    b = differs(last[5], wanted(model))
                    if b:
                        bad.setdefault("shown", f"after update {e[1]}: {b}")
                    want = {"id": f"pyscript-{OWN}", "class": "pyscript", "data-uuid": OWN}
                    if dict(last[2]) != want or last[1] != "div":
                        bad.setdefault("shown", "the container loses its name or its marks")
                last = None
        if "shown" not in bad:
            events(w, st, handler, model, bad)
    for rule, what in (("shown", "updates"), ("events", "listeners")):
        ck.rule(rule, "", 0)
        ck.ob(rule not in bad, f"{name}: {what}", run.loc(), f"{name}: {bad.get(rule)}")
    return outs


def events(w, st, handler, model, bad):
    """every listener of what is shown last delivers to its target"""
    listeners = [e for e in st.ev if e[0] == "listener"]
    final = [e[1] for e in st.ev if e[0] == "shown"][-1]
    args = (("S", "event", 1), ("S", "event", 2))

    def walk(gots, wants):
        for g, x in zip(gots, wants):
            if g[0] == "element":
                yield g[1], g[4], {n.lower()[2:] if n.lower().startswith("on") else n.lower(): t for n, t in x[4].items()}
                yield from walk(g[5], x[5])

    state, tasks = st, []
    for tag, got, targets in walk(final[5], wanted(model)):
        for name, n in got:
            os = w.apply(state, listeners[n][3], *args)
            if not os or len(os) != 1:
                raise NoAnswer("what a listener does")
            o, before = os[0], len(state.ev)
            if o.kind != "exit":
                bad.setdefault("events", f"the listener for {name} of <{tag}> fails")
                continue
            state = w.after(state, o)
            new = [e[1] for e in state.ev[before:] if e[0] == "task"]
            sent = [e[1] for e in state.ev[before:] if e[0] == "delivered"]
            if len(new) != 1 or len(sent) != 1:
                bad.setdefault("events", f"the event {name} of <{tag}> is not delivered to the layout, once, in a task of its own")
                continue
            m = sent[0]
            d = {k[1]: v for k, v in m[-1]} if m[0] in ("O", "C", "dict") and isinstance(m[-1], tuple) else {}
            if d.get("type") != ("k", "layout-event") or d.get("target") != ("k", targets[name]):
                bad.setdefault("events", f"the event {name} of <{tag}> is delivered as {d.get('type')} to {d.get('target')} instead of the target {targets[name]!r}")
            if items(d.get("data", NONE)) != args:
                bad.setdefault("events", f"the event {name} of <{tag}> is delivered with other data than those of the event")
            tasks.append((name, new[0]))
    # first the later half ends, then the rest
    h = len(tasks) // 2
    for n, (name, t) in enumerate(tasks[h:] + tasks[:h]):
        for other, x in (tasks[h:] + tasks[:h])[n:]:
            if not holders(state, x, handler):
                bad.setdefault("events", f"nothing keeps the task which delivers the event {other}, it may be collected before it is done")
        for cb in state.heap.get(("@", t, "callbacks"), ("T",))[1:]:
            rs = w.called(state, cb, t)
            if not rs or len(rs) != 1:
                raise NoAnswer("what is called when a task is done")
            state = w.after(state, rs[0])
        if holders(state, t, handler):
            bad.setdefault("events", f"the task which delivers the event {name} is kept after it is done")


def items(v):
    return tuple(v[1:]) if v[0] == "T" else tuple(v[-1]) if v[0] in ("O", "C", "list", "tuple") and isinstance(v[-1], tuple) else ()


def holders(st, t, handler):
    """containers which hold a task and can be reached: from the handler, or a name of a module"""
    reach, todo = set(), [v for k, v in st.heap.items() if k[0] == "@" and k[1] == handler]
    todo += [k for k in st.heap if k[0] == "O" and str(k[1]).startswith("global ")]
    while todo:
        v = todo.pop()
        if v == t:
            return True
        if not isinstance(v, tuple) or v in reach:
            continue
        reach.add(v)
        todo += [x for x in (st.heap.get(v, ()) if v[:1] == ("O",) else v) if isinstance(x, tuple)]
    return False


def run(ck):
    P = ck.p
    cls = P.cls(HM + ".ReactPyLayoutHandler")
    f = P.method(cls, "run")
    ck.need(f is not None, "the handler's run")
    ck.rule("shown", "after each update the page shows the model, before the next is waited for", len(SERIES))
    ck.rule("events", "each event is delivered to its target, in a task which is kept until it is done", len(SERIES))
    outs = None
    for name, updates in SERIES.items():
        try:
            outs = shows(ck, cls, name, updates)
        except NoAnswer as e:
            ck.rule("shown", "", 0)
            ck.open.append(f"{name}: not followed ({e})")
    ck.rule("workspaces", "what remains of the scripts' names are the workspaces on the page and their tasks", 6)
    for o, st in outs or ():
        before = W(ck, []).begin(OWN).heap[MAIN][1]
        left = dict(st.heap[MAIN][1])
        cancelled = {e[1][2] for e in st.ev if e[0] == "cancel"}
        for k, v in before:
            u = k[1].rsplit("_", 1)[-1]
            gone = u in (DEAD, LOST)
            ck.ob((k in left) != gone, f"name {k[1]}", f.loc(), f"{k[1]} is {'kept though its workspace is not on the page any more' if gone else 'deleted'}")
            if v[:2] == ("S", "task"):
                ck.ob((v[2] in cancelled) == gone, f"task {k[1]}", f.loc(), f"the task {k[1]} is {'not ' if gone else ''}cancelled")


RULES = [run]
