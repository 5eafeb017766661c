"""C31  What the browser sends of an event is finite plain data, with what handlers read."""
import json

from ..js import UNDEF, Arr, Fn, Obj, Prop, Sym, Throw, Unsup, paths, show
from ..js.browser import Dom
from ..js.scene import CLIENT, CONVERT, Scene, used

EXPLANATION = """
The conversion of events is interpreted over its syntax trees for kinds of event objects, made of the
browser's classes as models: values of every type, own and inherited properties, getters (also failing
ones), cycles, objects shared by several properties, lists, deep chains, inputs, forms, files and
selections. The result has to be a tree of plain data (it is written as JSON), with every text, number
and boolean within the depth, under its name, and without what the browser gives of its own structure.
"""
ASSUMPTIONS = ["enumeration and getters of browser objects behave as their classes say"]


class W:
    def __init__(self, ck, choices=()):
        self.s = Scene(ck, choices, convert=True)
        m = self.m = self.s.m
        top = m.top.v
        self.c = {}
        for n in ("CSSStyleSheet", "CSSStyleDeclaration", "HTMLFormElement", "Node", "Event"):
            f = Fn(n, host=lambda t, a: UNDEF)
            f.p["prototype"].hidden = {"constructor"}
            self.c[n] = top[n] = f
        self.c["Document"] = top["Document"]
        W_ = Fn("Window", host=lambda t, a: UNDEF)
        W_.p["prototype"].hidden = {"constructor"}
        self.c["Window"] = top["Window"] = W_
        self.window = top["window"]
        self.window.proto = W_.p["prototype"]
        self.c["HTMLFormElement"].p["prototype"].proto = self.c["Node"].p["prototype"]
        for k in self.c["Document"].p["prototype"].p:
            self.c["Document"].p["prototype"].hidden = {"constructor"}
        self.selection = None
        top["getSelection"] = m.fn(lambda t, a: self.selection, "getSelection")
        self.convert = m.module(CONVERT).value("default")

    def obj(self, cls=None, hidden=(), inherited=None, **props):
        proto = self.c[cls].p["prototype"] if cls else None
        if inherited:
            base = proto
            proto = Obj({k: Prop(self.m.fn(lambda t, a, v=v: v)) for k, v in inherited.items()}, proto=base)
        o = Obj(props, proto=proto)
        o.hidden = set(hidden)
        return o

    def run(self, e, *a):
        r = self.m.call(self.convert, UNDEF, [e, *a])
        self.m.run_micro()
        return r

    def plain(self, r):
        """The result as the server gets it."""
        return json.loads(self.m.dumps(r))


def depth(x):
    return 1 + max([0, *(depth(y) for y in (x.values() if isinstance(x, dict) else x))]) if isinstance(x, (dict, list)) else 0


def has(got, exp, where="the event"):
    """Everything of exp is in got."""
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            return f"{where} is {got!r}"
        for k, v in exp.items():
            if k not in got:
                return f"{where} has no {k}"
            bad = has(got[k], v, f"{where}.{k}")
            if bad:
                return bad
        return ""
    if isinstance(exp, list):
        if not isinstance(got, list) or len(got) != len(exp):
            return f"{where} is {got!r} instead of {exp!r}"
        return next((b for i, (x, y) in enumerate(zip(got, exp)) if (b := has(x, y, f"{where}[{i}]"))), "")
    return "" if got == exp and type(got) is type(exp) else f"{where} is {got!r} instead of {exp!r}"


def simple(w):
    fn = w.m.fn(lambda t, a: UNDEF)
    e = w.obj("Event", type="keydown", key="a", code="", detail=0, timeStamp=1.5, bubbles=True, ctrlKey=False, nothing=None, undef=UNDEF, preventDefault=fn, NONE=0, AT_TARGET=2, view=w.window, sheet=w.obj("CSSStyleSheet", x=1), doc=w.m.top.v["document"],
              inherited={"clientX": 12, "altKey": False, "pointerType": "pen", "CAPTURING_PHASE": 1, "isTrusted": True})
    got = w.plain(w.run(e))
    bad = has(got, {"type": "keydown", "key": "a", "code": "", "detail": 0, "timeStamp": 1.5, "bubbles": True, "ctrlKey": False, "clientX": 12, "altKey": False, "pointerType": "pen", "isTrusted": True})
    extra = {"NONE", "AT_TARGET", "view", "sheet", "doc", "preventDefault", "CAPTURING_PHASE"} & set(got)
    return bad or (f"the event has {sorted(extra)}" if extra else "")


def target(w):
    # what inputs say of themselves is on their classes, some of it is not enumerated
    for hide in ((), ("value", "checked", "name", "type")):
        t = w.obj("Node", hidden=hide, value="typed", checked=False, type="checkbox", name="n", id="i", tagName="INPUT", parentNode=w.obj("Node", id="p"), children=Arr(), offsetWidth=4, innerHTML="<b>", inherited={"disabled": False, "scrollTop": 3})
        e = w.obj("Event", type="change", target=t, currentTarget=t)
        got = w.plain(w.run(e))
        for k in ("target", "currentTarget"):
            bad = has(got, {k: {"value": "typed", "checked": False, "type": "checkbox", "name": "n", "id": "i", "tagName": "INPUT", "disabled": False}})
            if bad:
                return bad + (" (where it is not enumerated)" if hide else "")
            extra = {"parentNode", "offsetWidth", "innerHTML", "scrollTop", "children"} & set(got[k])
            if extra:
                return f"the {k} has {sorted(extra)}"
    return ""


def empty_values(w):
    t = w.obj("Node", hidden=("value", "checked", "name"), value="", checked=False, name="")
    got = w.plain(w.run(w.obj("Event", type="input", target=t)))
    return has(got, {"target": {"value": "", "checked": False, "name": ""}})


def dataset(w):
    t = w.obj("Node", hidden=("dataset",), dataset=w.obj(userId="7", empty=""), value="v")
    got = w.plain(w.run(w.obj("Event", type="click", target=t)))
    return has(got, {"target": {"dataset": {"userId": "7", "empty": ""}, "value": "v"}})


def cycles(w):
    a, b = w.obj(name="a", n=1), w.obj(name="b", n=2)
    a.p.update(b=b, me=a)
    b.p.update(a=a, late="x")
    e = w.obj("Event", type="custom", a=a, b=b)
    e.p["me"] = e
    r = w.run(e)
    got = w.plain(r)
    bad = has(got, {"type": "custom", "a": {"name": "a", "n": 1, "b": {"name": "b", "late": "x"}}, "b": {"name": "b", "n": 2, "a": {"name": "a"}, "late": "x"}})
    if bad:
        return bad
    return "an object which contains itself is repeated" if "me" in got or "me" in got["a"] or "a" in got["a"]["b"] else ""


def shared(w):
    s = w.obj(v="s")
    e = w.obj("Event", type="x", p=w.obj(s=s, t=s), q=w.obj(s=s), list=Arr([s, s]))
    got = w.plain(w.run(e))
    return has(got, {"p": {"s": {"v": "s"}, "t": {"v": "s"}}, "q": {"s": {"v": "s"}}, "list": [{"v": "s"}, {"v": "s"}]})


def lists(w):
    nodes = w.obj("Node")
    like = Obj({"0": w.obj(i=0), "1": w.obj(i=1), "2": w.obj(i=2), "length": 3, w.m.symiter: w.m.top.v["Array"].p["prototype"].p[w.m.symiter]})
    like.hidden = {"length"}
    e = w.obj("Event", type="x", touches=Arr([w.obj(clientX=1), w.obj(clientX=2)]), numbers=Arr([0, 1, "", False, "b"]), like=like, none=Arr(), nested=Arr([Arr([1]), Arr()]), holes=Arr([None, 1, UNDEF]))
    got = w.plain(w.run(e))
    return has(got, {"touches": [{"clientX": 1}, {"clientX": 2}], "numbers": [0, 1, "", False, "b"], "like": [{"i": 0}, {"i": 1}, {"i": 2}], "none": [], "nested": [[1], []], "holes": [1]})


def deep(w):
    def chain(n):
        o = w.obj(level=n)
        if n < 14:
            o.p["next"] = chain(n + 1)
        return o

    got = w.plain(w.run(w.obj("Event", type="x", next=chain(1))))
    x, n = got, 0
    while "next" in x:
        x = x["next"]
        n += 1
        if x.get("level") != n:
            return f"at level {n} there is {x}"
    if n < 6:
        return f"only {n} levels of nested objects are kept"
    if n > 10:
        return f"{n} levels of nested objects are kept, more than the depth allowed"
    got = w.plain(w.run(w.obj("Event", type="x", next=chain(1), after="y"), 3))
    if depth(got) > 4 or not has(got, {"next": {"level": 1}, "after": "y"}) == "":
        return f"with a depth of 3, {depth(got)} levels are kept"
    return ""


def wide(w):
    """Long lists and chains through lists end."""
    e = w.obj("Event", type="x")
    a = Arr()
    a.a = [a, w.obj(l=a, v=1), e, 5]
    e.p["list"] = a
    got = w.plain(w.run(e))
    return has(got, {"list": [{"v": 1}, 5]}) if isinstance(got.get("list"), list) and len(got["list"]) == 2 else f"a list which contains itself is {got.get('list')!r}"


def failing(w):
    def boom(t, a):
        raise Throw(w.m.error("Error", "SecurityError"))

    def with_bad(o):
        ks = dict(o.p)
        o.p.clear()
        first = True
        for k, v in ks.items():
            o.p[k] = v
            if first:
                o.p["bad"] = Prop(w.m.fn(boom))
                first = False
        return o

    e = with_bad(w.obj("Event", type="x", target=with_bad(w.obj("Node", id="i", caption="c", more=with_bad(w.obj(x=1, y=2)), value="v")), list=Arr([with_bad(w.obj(p=1, q=2)), 5]), after=1))
    got = w.plain(w.run(e))
    return has(got, {"type": "x", "target": {"id": "i", "caption": "c", "more": {"x": 1, "y": 2}, "value": "v"}, "list": [{"p": 1, "q": 2}, 5], "after": 1}) or ("a property which cannot be read is there" if "bad" in got else "")


def files(w):
    fs = Arr([w.obj(name="a.txt", type="text/plain", lastModified=5), w.obj(name="b.png", type="image/png", lastModified=6)])
    t = w.obj("Node", hidden=("files",), value="C:\\a.txt", files=fs)
    got = w.plain(w.run(w.obj("Event", type="change", target=t)))
    return has(got, {"target": {"files": [{"name": "a.txt", "type": "text/plain"}, {"name": "b.png", "type": "image/png"}]}})


def form(w):
    els = Arr([w.obj("Node", name="user", value="u", type="text"), w.obj("Node", name="", value="x"), w.obj("Node", name="agree", checked=True, value="on")])
    t = w.obj("HTMLFormElement", hidden=("elements",), id="f", elements=els)
    got = w.plain(w.run(w.obj("Event", type="submit", target=t)))
    return has(got, {"target": {"id": "f", "user": {"name": "user", "value": "u"}, "agree": {"checked": True, "value": "on"}}})


def selection(w):
    got = w.plain(w.run(w.obj("Event", type="select")))
    if got.get("selection", 0) is not None:
        return f"without a selection, the event's is {got.get('selection')!r}"
    n = w.obj("Node", data="text")
    n.p["rootNode"] = w.obj("Node", id="r", inner=n)
    s = w.obj(type="Range", anchorNode=n, anchorOffset=0, focusNode=n, focusOffset=3, isCollapsed=False, rangeCount=1)
    s.p["toString"] = w.m.fn(lambda t, a: "tex")
    s.hidden = {"toString"}
    w.selection = s
    got = w.plain(w.run(w.obj("Event", type="select", a=1)))
    return has(got, {"a": 1, "selection": {"type": "Range", "anchorOffset": 0, "focusOffset": 3, "isCollapsed": False, "rangeCount": 1, "selectedText": "tex", "anchorNode": {"data": "text"}, "focusNode": {"data": "text"}}})


def not_objects(w):
    for v in ("text", 3, True, False, 0, ""):
        if w.run(v) != v or type(w.run(v)) is not type(v):
            return f"{v!r} becomes {w.run(v)!r}"
    return ""


def styles(w):
    st = w.obj("CSSStyleDeclaration", color="red", font="", length=1)
    got = w.plain(w.run(w.obj("Event", type="x", target=w.obj("Node", style=st, id="i"))))
    return has(got, {"target": {"id": "i", "style": {"color": "red"}}}) or ("an empty style is sent" if "font" in got["target"]["style"] else "")


def unchanged(w):
    """The event is still what it was."""
    t = w.obj("Node", value="v")
    e = w.obj("Event", type="x", target=t, a=Arr([1, 2]))
    before = (list(e.p), list(t.p), list(e.p["a"].a))
    w.run(e)
    if (list(e.p), list(t.p), list(e.p["a"].a)) != before or e.p["target"] is not t:
        return "converting an event changes it"
    got = w.plain(w.run(e))
    return has(got, {"target": {"value": "v"}, "a": [1, 2]})


CASES = {"values of every type": simple, "inputs": target, "empty values of inputs": empty_values, "datasets": dataset, "cycles": cycles, "shared objects": shared, "lists": lists, "depth": deep, "lists which contain themselves": wide,
         "failing getters": failing, "files": files, "forms": form, "selection": selection, "not objects": not_objects, "styles": styles, "the event itself": unchanged}



def converted(ck):
    ck.rule("plain", "each event becomes a finite tree of plain data with the values handlers read", len(CASES))
    for name, f in CASES.items():
        try:
            bad = ""

            def make(ch):
                w = W(ck, ch)
                try:
                    x = f(w)
                except Throw as e:
                    x = f"fails: {show(e.value)}"
                used(ck, w.m)
                return w.m, x

            for m, x in paths(make):
                bad = bad or x
                ck.graphs += 1
                ck.states += m.steps
            ck.ob(not bad, name, CONVERT, bad)
        except Unsup as e:
            if str(e) in ("too long", "too deep"):
                ck.ob(False, name, CONVERT, "the conversion does not end")
            else:
                ck.rules["plain"]["floor"] -= 1
                ck.open.append(f"{name}: not followed ({e})")


RULES = [converted]
