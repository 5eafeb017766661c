"""C27  The browser shows each model as it was sent, and sends each event as asked."""
import copy
import json

from ..js import UNDEF, Arr, Fn, Obj, Promise, Sym, Throw, Unsup, paths, show
from ..js.builtins import advance
from ..js.browser import Dom
from ..js.scene import CLIENT, Scene, used

EXPLANATION = """
The client's TypeScript is interpreted over its syntax trees, with preact (components, hooks, effects,
reconciliation) and the page as models. Histories of layout updates, events and time passing are
followed. After each update the page is compared with what the model, with all updates so far applied,
asks for; each event's message is compared with its handler's; what inputs show is compared with what
the acknowledged sequence numbers allow; imported modules are followed from loading to unmounting.
"""
ASSUMPTIONS = ["preact's components, hooks and keyed children work as documented", "json-pointer's set works as documented"]
V, C = CLIENT + "vdom.tsx", CLIENT + "components.tsx"


class W:
    def __init__(self, ck, choices=(), convert=None, **kw):
        self.s = s = Scene(ck, choices, convert, **kw)
        self.m, self.b = s.m, s.b
        self.sent, self.hear, self.loaded, self.modules = [], [], [], {}
        self.model = {"tagName": ""}
        m = self.m

        def on(t, a):
            h = (a[0], a[1])
            self.hear.append(h)
            return m.fn(lambda t2, b: (self.hear.remove(h) if h in self.hear else None, UNDEF)[1])

        def load(t, a):
            self.loaded.append(a[0])
            p = Promise()
            x = self.modules.get(a[0])
            if isinstance(x, Promise):
                return x
            if x is None:
                m.reject(p, m.error("TypeError", "Failed to fetch"))
            else:
                m.resolve(p, x)
            return p

        self.c = Obj({"onMessage": m.fn(on, "onMessage"), "sendMessage": m.fn(lambda t, a: (self.sent.append(a[0]), UNDEF)[1], "sendMessage"), "loadModule": m.fn(load, "loadModule")})
        layout = s.load("components.tsx").value("Layout")
        self.root = self.b.make("div")
        self.b.body.add(self.root)
        m.call(self.b.preact["render"], UNDEF, [self.b.h(UNDEF, [layout, Obj({"client": self.c})]), self.root])
        self.b.flush()

    def update(self, path, model):
        """The server's update, on the page and in what is expected."""
        if path == "":
            self.model = copy.deepcopy(model)
        else:
            o = self.model
            ks = path.split("/")[1:]
            for k in ks[:-1]:
                o = o[int(k)] if isinstance(o, list) else o[k]
            k = int(ks[-1]) if isinstance(o, list) else ks[-1]
            if isinstance(o, list) and k == len(o):
                o.append(None)
            o[k] = copy.deepcopy(model)
        hs = [h for t, h in self.hear if t == "layout-update"]
        if not hs:
            raise Broken("nothing listens for layout updates")
        for h in hs:
            self.m.call(h, UNDEF, [self.m.tojs({"type": "layout-update", "path": path, "model": model})])
        self.b.flush()

    def page(self):
        return [self.b.snapshot(x) for x in self.root.kids]

    def find(self, pred, top=None):
        for x in self.b.below(top or self.root):
            if pred(x):
                return x
        return None

    def tag(self, name, n=0):
        xs = [x for x in self.b.below(self.root) if x.tagname == name and x is not self.root]
        if len(xs) <= n:
            raise Broken(f"the page has no element {name}" + (f" number {n}" if n else ""))
        return xs[n]

    def event(self, d, name, **kw):
        try:
            e, seen = self.b.event(d, name, **kw)
        except KeyError:
            raise Broken(f"the page's {d.tagname} does not listen for {name}") from None
        self.b.flush()
        return e, seen

    def wait(self, ms):
        advance(self.m, ms)
        self.b.flush()

    def messages(self):
        return self.sent


class Broken(Exception):
    pass


# ------------------------------------------------------------------ what the page should show
def want(v):
    """-> snapshots for a model."""
    if isinstance(v, str):
        return [v]
    if "error" in v:
        return [("pre", {}, [], [v["error"]])] if v["error"] else []
    kids = [y for c in v.get("children", []) for y in want(c)]
    t = v["tagName"]
    if t == "":
        return kids
    at = {k: x for k, x in (v.get("attributes") or {}).items() if x is not None and k not in ("key", "_reactpy_ack_seq") and x is not False and not (k in ("value", "checked") and t in ("input", "select", "textarea"))}
    if t == "script":
        at = {k: x if isinstance(x, str) else json.dumps(x) for k, x in (v.get("attributes") or {}).items()}
        text = next((c for c in v.get("children", []) if isinstance(c, str)), "")
        return [("div", {}, [], [("script", at, [], [text] if text else [])])]
    return [(t, at, sorted([*(v.get("eventHandlers") or {}), *(k for k in v.get("inlineJavaScript") or {} if k[:2] == "on")]), kids)]


def py(v):
    if isinstance(v, Arr):
        return [py(x) for x in v.a]
    if isinstance(v, Obj) and not isinstance(v, (Fn, Dom)):
        return {k: py(x) for k, x in v.p.items()}
    return v


def norm(x):
    if isinstance(x, tuple):
        at = {k: py(v) for k, v in x[1].items()}
        if x[0] == "script":
            at.pop("key", None)
        return (x[0], at, x[2], [norm(y) for y in merge(x[3])])
    return x


def merge(xs):
    out = []
    for x in xs:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


def brief(x):
    if isinstance(x, str):
        return repr(x)
    t, a, on, kids = x
    return f"<{t}{''.join(f' {k}={v!r}' for k, v in a.items())}{''.join(' ' + o for o in on)}>{''.join(map(brief, kids))}</{t}>"


def differs(w):
    got, exp = [norm(x) for x in merge(w.page())], [norm(x) for x in merge(want(w.model))]
    return "" if got == exp else f"the page shows {''.join(map(brief, got))[:160]} for {''.join(map(brief, exp))[:160]}"


def el(tag, *kids, h=None, key=None, **attrs):
    d = {"tagName": tag}
    if key is not None:
        attrs["key"] = key
    if attrs:
        d["attributes"] = attrs
    if kids:
        d["children"] = list(kids)
    if h:
        d["eventHandlers"] = h
    return d


def ev(target, prevent=False, stop=False, **kw):
    return {"target": target, "preventDefault": prevent, "stopPropagation": stop, **kw}


SERIES = {
    "one element": [("", el("div", "a", id="x", title="t"))],
    "nested elements": [("", el("", el("div", el("p", "one", id="p"), "two", el("", "three", el("b", "four")), el("br")), "five", **{}))],
    "a wrapped component": [("", el("", el("div", "a")))],
    "attributes": [("", el("a", "x", href="/u", className="c d", tabIndex=0, **{"data-x": "1", "aria-hidden": "true", "hidden": True, "title": ""})), ("", el("a", "x", href="/v", className="c"))],
    "root replaced": [("", el("div", "a", id="x", h={"onClick": ev("t")})), ("", el("p", "b")), ("", el("div"))],
    "part replaced": [("", el("", el("div", el("p", "a"), el("p", "b")))), ("/children/0/children/1", el("p", "c", id="n")), ("/children/0/children/0", el("i", "d")), ("/children/0", el("ul", el("li", "e")))],
    "part grows and shrinks": [("", el("", el("ul", el("li", "a", key="a")))), ("/children/0", el("ul", el("li", "a", key="a"), el("li", "b", key="b"), el("li", "c", key="c"))), ("/children/0", el("ul", el("li", "c", key="c"), el("li", "a", key="a"))), ("/children/0", el("ul"))],
    "handlers come and go": [("", el("button", "b", h={"onClick": ev("1")})), ("", el("button", "b", h={"onClick": ev("2"), "onFocus": ev("3")})), ("", el("button", "b"))],
    "error and recovery": [("", el("", {"tagName": "", "error": "ValueError: <x>", "children": []}, el("p", "k"))), ("/children/0", el("p", "ok")), ("/children/0", {"tagName": "", "error": "", "children": ["hidden"]}), ("", {"tagName": "", "error": "bad"}), ("", el("p", "fine"))],
    "same place, other kind": [("", el("div", "text")), ("", el("div", el("b", "text"))), ("", el("div", "more", el("b", "text"), "end"))],
    "update of a part after the root": [("", el("", el("p", "a"))), ("", el("", el("p", "b"), el("p", "c"))), ("/children/1", el("p", "d"))],
    "script": [("", el("div", el("script", "let a = 1;", src="/x.js", type="module"), el("p", "a")))],
    "script removed": [("", el("div", el("script", "let a = 1;", key="s"), el("p", "a"))), ("", el("div", el("p", "a")))],
    "script replaced by key": [("", el("div", el("script", "one", key="1"))), ("", el("div", el("script", "two", key="2")))],
    "input and others": [("", el("form", el("input", type="text", name="n", placeholder="p"), el("textarea", rows=2), el("select", el("option", "A", value="a"), el("option", "B", value="b"), name="s"))), ("", el("form", el("input", type="text", name="m")))],
    "styles": [("", el("p", "a", style={"color": "red", "fontSize": "1px"}))],
    "deep part": [("", el("", el("div", el("", el("div", el("", el("p", "deep"))))))), ("/children/0/children/0/children/0/children/0/children/0", el("p", "deeper", h={"onClick": ev("z")}))],
    "spaces": [("", el("p", " a ", el("b", "  "), "\n", el("pre", " x\n y")))],
    "many texts": [("", el("p", "a", "b", el("i"), "c"))],
}


def identity(w):
    """Elements with a key are the same ones wherever they go."""
    for tag, at in (("input", {}), ("li", {})):
        mk = lambda ks: el("", el("ul", *(el(tag, key=k, id=k, **at) for k in ks)))
        w.update("", el("p"))
        w.update("", mk("abc"))
        was = {k: w.find(lambda x: x.attrs.get("id") == k) for k in "abc"}
        for order in ("cab", "bc", "bxc"):
            w.update("", mk(order))
            for k in order:
                now = w.find(lambda x: x.attrs.get("id") == k)
                if k in was and now is not was[k] and (k != "a" or order == "cab"):
                    return f"in a list of keyed {tag}, abc becoming {order}, {k} is not the same element any more"
    return ""


def shown(w, steps):
    for n, (path, model) in enumerate(steps):
        w.update(path, model)
        d = differs(w)
        if d:
            return f"after update {n + 1} ({path or 'root'}): {d}"
    return ""


# ------------------------------------------------------------------ events
def expect(w, msgs, e, target, what):
    """One message, for this event."""
    if len(msgs) != 1:
        return f"{what} sends {len(msgs)} messages"
    m = msgs[0]
    g = lambda k: w.m.get(m, k)
    if g("type") != "layout-event":
        return f"{what} sends a message of type {g('type')}"
    if g("target") != target:
        return f"{what} is sent to {g('target')} instead of {target}"
    d = g("data")
    if not isinstance(d, Arr) or len(d.a) != 1 or d.a[0] is not w.s.plain.get(id(e), (0,))[0]:
        return f"{what} is sent with {d!r} instead of the event's data"
    return ""


def take(w):
    out = list(w.sent)
    w.sent.clear()
    return out


KINDS = {"button": {}, "div": {}, "input": {"type": "text"}, "textarea": {}, "select": {}, "form": {}, "a": {"href": "#"}}


def events(w):
    for tag, at in KINDS.items():
        for prevent in (False, True):
            for stop in (False, True):
                w.update("", el("", el(tag, h={"onClick": ev(f"{tag}1", prevent, stop), "onKeyDown": ev(f"{tag}2", stop, prevent)}, **at)))
                for name, target, p, s in (("onClick", f"{tag}1", prevent, stop), ("onKeyDown", f"{tag}2", stop, prevent)):
                    take(w)
                    e, seen = w.event(w.tag(tag), name)
                    bad = expect(w, take(w), e, target, f"{name} of {tag}")
                    asked = {k for k, on in (("preventDefault", p), ("stopPropagation", s)) if on}
                    if not bad and set(seen) != asked:
                        bad = f"{name} of {tag}, which asks for {sorted(asked) or 'nothing'}, has {sorted(set(seen)) or 'nothing'} done"
                    if bad:
                        return bad
    return ""


def defaults(w):
    w.update("", el("button", h={"onClick": {"target": "t"}}))
    e, seen = w.event(w.tag("button"), "onClick")
    return expect(w, take(w), e, "t", "a click") or (f"a handler which asks for nothing has {seen} done" if seen else "")


def two_elements(w):
    w.update("", el("div", el("button", "a", h={"onClick": ev("A")}), el("button", "b", h={"onClick": ev("B")}), el("input", h={"onChange": ev("C")})))
    for n, (tag, i, name, t) in enumerate([("button", 1, "onClick", "B"), ("button", 0, "onClick", "A"), ("input", 0, "onChange", "C"), ("button", 1, "onClick", "B")]):
        e, _ = w.event(w.tag(tag, i), name)
        bad = expect(w, take(w), e, t, f"{name} of {tag} {i}")
        if bad:
            return bad
    w.update("", el("div", el("button", "a", h={"onClick": ev("D")}), el("button", "b"), el("input", h={"onChange": ev("E")})))
    for tag, name, t in (("button", "onClick", "D"), ("input", "onChange", "E")):
        e, _ = w.event(w.tag(tag), name)
        bad = expect(w, take(w), e, t, f"{name} of {tag} after its handler was replaced")
        if bad:
            return bad
    return ""


def sequence(w):
    for tag in ("button", "input", "textarea", "select"):
        w.update("", el("", el("p"), el(tag, h={"onChange": ev("1"), "onKeyDown": ev("2")})))
        got = []
        for k in range(6):
            w.event(w.tag(tag), ["onChange", "onKeyDown"][k % 2])
            got += [w.m.get(x, "seq") for x in take(w)]
            if k == 3 and tag != "button":
                w.update("", el("", el("p"), el(tag, h={"onChange": ev("1"), "onKeyDown": ev("2")}, _reactpy_ack_seq=3)))
        if tag == "button":
            for h in (got[::2], got[1::2]):
                if any(y <= x for x, y in zip(h, h[1:])):
                    return f"the events of a handler of {tag} are numbered {h}"
        elif any(y <= x for x, y in zip(got, got[1:])):
            return f"six events of one {tag}, with an update in between, are numbered {got}"
    return ""


def arguments(w):
    # a component of a module may call its handler with anything
    w.update("", el("button", h={"onClick": ev("t", True, True)}))
    f = w.tag("button").on["onClick"]
    w.m.top.v["_"] = None
    n = []
    for a in ([], [1, "two", True]):
        take(w)
        try:
            w.update("", el("button", h={"onClick": ev("t")}))
            w.m.call(w.tag("button").on["onClick"], UNDEF, a)
        except Throw as e:
            return f"a handler called with {len(a)} plain values fails: {show(e.value)}"
        ms = take(w)
        if len(ms) != 1 or w.m.get(ms[0], "data").a != a:
            return f"a handler called with {a} sends {[w.m.get(x, 'data') for x in ms]}"
    return ""


def inline(w):
    ran = []

    def evaluate(this, text):
        ran.append((text, this))
        return w.m.fn(lambda t, a: (ran.append(("called", t, a)), 5)[1], "f") if text.startswith("(") else UNDEF

    w.m.evaluate = evaluate
    w.update("", {"tagName": "button", "inlineJavaScript": {"onClick": "this.value = 1", "onFocus": "(e) => e"}, "eventHandlers": {"onBlur": ev("t")}})
    d = w.tag("button")
    w.event(d, "onClick")
    if len(ran) != 1 or ran[0][0] != "this.value = 1" or ran[0][1] is not d:
        return "inline JavaScript of a click is not run once with the element as `this`"
    ran.clear()
    e, _ = w.event(d, "onFocus")
    if len(ran) != 2 or ran[1][0] != "called" or ran[1][2][:1] != [e]:
        return "an inline JavaScript function is not called with the event"
    if take(w):
        return "inline JavaScript sends a message to the server"
    e, _ = w.event(d, "onBlur")
    return expect(w, take(w), e, "t", "a handler beside inline JavaScript")


# ------------------------------------------------------------------ rates
def data(w, ms):
    es = {id(v[0]): v[1] for v in w.s.plain.values()}
    return [w.m.get(es[id(w.m.get(x, "data").a[0])], "n") for x in ms]


def rate(w, tag, kw, at):
    """at: times of events -> [(time, number)] of what is sent."""
    w.update("", el(tag, h={"onInput": ev("t", **kw)}))
    t0, out = w.m.now, []

    def collect():
        out.extend((w.m.now - t0, n) for n in data(w, take(w)))

    for n, t in enumerate(at):
        while w.m.now - t0 < t:
            w.wait(min(10, t - (w.m.now - t0)))
            collect()
        w.event(w.tag(tag), "onInput", n=n)
        collect()
    for _ in range(60):
        w.wait(10)
        collect()
    return out


RATES = [
    ("throttled button", "button", {"throttle": 100}, [0, 20, 50, 90], [(0, 0), (100, 3)]),
    ("throttled button, spread", "button", {"throttle": 100}, [0, 150, 300], [(0, 0), (150, 1), (300, 2)]),
    ("throttled button, two windows", "button", {"throttle": 100}, [0, 30, 130, 160], [(0, 0), (100, 1), (200, 3)]),
    ("throttled input", "input", {"throttle": 100}, [0, 40, 80, 300], [(0, 0), (100, 2), (300, 3)]),
    ("debounced input", "input", {"debounce": 100}, [0, 50, 90, 400], [(190, 2), (500, 3)]),
    ("debounced textarea", "textarea", {"debounce": 50}, [0, 20, 100], [(70, 1), (150, 2)]),
    ("debounced select", "select", {"debounce": 30}, [0], [(30, 0)]),
    ("not limited", "input", {}, [0, 1, 2], [(0, 0), (1, 1), (2, 2)]),
    ("limits of zero", "input", {"debounce": 0, "throttle": 0}, [0, 1, 2], [(0, 0), (1, 1), (2, 2)]),
    ("not limited button", "button", {}, [0, 0, 0], [(0, 0), (0, 1), (0, 2)]),
]


def rates(w, tag, kw, at, exp):
    got = rate(w, tag, kw, at)
    return "" if got == exp else f"events at {at} of a {tag} with {kw} are sent as (time, event) {got} instead of {exp}"


def same_turn(w):
    # preventDefault has to happen while the event is dispatched, not when it is sent
    w.update("", el("input", h={"onInput": ev("t", debounce=50)}))
    return ""


def after_update(w):
    """A debounced event is sent although the element is rendered again meanwhile."""
    w.update("", el("", el("input", h={"onInput": ev("t", debounce=100)}), el("p", "a")))
    w.event(w.tag("input"), "onInput", n=7)
    w.update("/children/1", el("p", "b"))
    w.wait(200)
    got = data(w, take(w))
    return "" if got == [7] else f"a debounced event is sent {len(got)} times when the page is updated before its time"


def two_limited(w):
    """Each element's limit is its own."""
    w.update("", el("", el("button", h={"onInput": ev("a", throttle=100)}), el("button", h={"onInput": ev("b", throttle=100)})))
    w.event(w.tag("button", 0), "onInput", n=1)
    w.event(w.tag("button", 1), "onInput", n=2)
    got = data(w, take(w))
    return "" if got == [1, 2] else f"first events of two throttled buttons are sent as {got}"


# ------------------------------------------------------------------ inputs
def typed(w, tag, text, name="onChange"):
    d = w.tag(tag)
    d.p["value"] = text
    w.event(d, name)
    return [w.m.get(x, "seq") for x in take(w)]


def inp(tag, ack=None, h=("onChange",), **at):
    if ack is not None:
        at["_reactpy_ack_seq"] = ack
    return el("div", el(tag, h={n: ev("t" + n) for n in h}, **at))


def value(w, tag):
    return w.tag(tag).p["value"]


TAGS = ("input", "textarea", "select")


def server_value(w):
    for tag in TAGS:
        w.update("", el("p"))
        w.update("", inp(tag, value="a"))
        if value(w, tag) != "a":
            return f"the first value of {tag} is not shown"
        w.update("", inp(tag, value="b"))
        if value(w, tag) != "b":
            return f"a new value of {tag} is not shown though nothing was typed"
        w.update("", inp(tag, value=""))
        if value(w, tag) != "":
            return f"the value of {tag} is not cleared"
    return ""


def behind(w):
    for tag in TAGS:
        w.update("", el("p"))
        w.update("", inp(tag, value=""))
        s0 = typed(w, tag, "h")
        s1 = typed(w, tag, "he")
        if len(s0 + s1) != 2:
            return f"two changes of {tag} send {len(s0 + s1)} events"
        w.update("", inp(tag, ack=s0[0], value="H"))
        if value(w, tag) != "he":
            return f"{tag} shows {value(w, tag)!r} instead of what was typed, when only the first of two events is acknowledged"
        w.update("", inp(tag, ack=s1[0], value="HE"))
        if value(w, tag) != "HE":
            return f"{tag} shows {value(w, tag)!r} instead of the server's value, when all events are acknowledged"
        s2 = typed(w, tag, "HEL")
        w.update("", inp(tag, ack=s1[0], value="other"))
        if value(w, tag) != "HEL":
            return f"{tag} shows {value(w, tag)!r} instead of what was typed, when the last event is not acknowledged"
        w.update("", inp(tag, ack=s2[0], value="done"))
        if value(w, tag) != "done":
            return f"{tag} shows {value(w, tag)!r} instead of the server's value after its event was acknowledged"
    return ""


def reset_same(w):
    """The server's value does not change, but it answers what was typed."""
    for tag in TAGS:
        w.update("", el("p"))
        w.update("", inp(tag, value=""))
        s = typed(w, tag, "abc")
        w.update("", inp(tag, ack=s[0], value=""))
        if value(w, tag) != "":
            return f"{tag} shows {value(w, tag)!r} though the server answered with an empty value"
    return ""


def no_answer_yet(w):
    for tag in TAGS:
        w.update("", el("p"))
        w.update("", inp(tag, value=""))
        typed(w, tag, "x")
        w.update("", inp(tag, value="server"))
        if value(w, tag) != "x":
            return f"{tag} shows {value(w, tag)!r} instead of what was typed, when nothing is acknowledged"
    return ""


def uncontrolled(w):
    for tag in TAGS:
        w.update("", el("p"))
        w.update("", inp(tag, placeholder="p"))
        s = typed(w, tag, "mine")
        w.update("", inp(tag, ack=s[0], placeholder="q"))
        if value(w, tag) != "mine":
            return f"{tag} without a value shows {value(w, tag)!r} instead of what was typed"
        if "_reactpy_ack_seq" in w.tag(tag).attrs:
            return f"{tag} has _reactpy_ack_seq as an attribute"
    return ""


def handlers_share(w):
    for tag in TAGS:
        w.update("", el("p"))
        hs = ("onKeyDown", "onChange")
        w.update("", inp(tag, h=hs, value=""))
        s0 = typed(w, tag, "a", "onKeyDown")
        s1 = typed(w, tag, "ab", "onChange")
        w.update("", inp(tag, ack=s0[0], h=hs, value="zero"))
        if value(w, tag) != "ab":
            return f"{tag} shows {value(w, tag)!r} when the later event, of another handler, is not acknowledged"
        w.update("", inp(tag, ack=s1[0], h=hs, value="one"))
        if value(w, tag) != "one":
            return f"{tag} shows {value(w, tag)!r} instead of the server's value when events of both handlers are acknowledged"
    return ""


def debounced_ack(w):
    for tag in TAGS:
        w.update("", el("p"))
        mk = lambda ack=None, v="": el("div", el(tag, h={"onInput": ev("t", debounce=50)}, value=v, **({} if ack is None else {"_reactpy_ack_seq": ack})))
        w.update("", mk())
        for t in ("a", "ab", "abc"):
            typed(w, tag, t, "onInput")
        w.wait(100)
        ms = take(w)
        if len(ms) != 1:
            return f"three quick changes of a debounced {tag} send {len(ms)} events"
        w.update("", mk(w.m.get(ms[0], "seq"), "ABC"))
        if value(w, tag) != "ABC":
            return f"{tag} shows {value(w, tag)!r} instead of the server's answer to the debounced event"
    return ""


def others_untouched(w):
    w.update("", el("", el("input", h={"onChange": ev("a")}, value="1"), el("input", h={"onChange": ev("b")}, value="2")))
    d = w.tag("input", 0)
    d.p["value"] = "typed"
    w.event(d, "onChange")
    w.update("/children/1", el("input", h={"onChange": ev("b")}, value="3"))
    got = [w.tag("input", i).p["value"] for i in (0, 1)]
    return "" if got == ["typed", "3"] else f"after typing in the first of two inputs and an update of the second, they show {got}"


# ------------------------------------------------------------------ modules
class Mod:
    """A module with its own bind."""

    def __init__(self, w, name, bad=False):
        self.w, self.calls, self.nodes = w, [], []
        m = w.m

        def bind(t, a):
            node = a[0]
            self.nodes.append(node)
            self.calls.append(("bind", node))
            me = len(self.nodes) - 1
            if bad:
                return Obj()
            return Obj({"create": m.fn(lambda t2, b: self.create(b), "create"), "render": m.fn(lambda t2, b: (self.calls.append(("render", me, b[0])), UNDEF)[1], "render"), "unmount": m.fn(lambda t2, b: (self.calls.append(("unmount", me)), UNDEF)[1], "unmount")})

        self.comp = Sym(name + ".Comp", "function")
        self.part = Sym(name + ".Group.Part", "function")
        self.deep = Sym(name + ".Group.Deep.Part", "function")
        self.exports = Obj({"bind": m.fn(bind, "bind"), "Comp": self.comp, "Group": Obj({"Part": self.part, "Deep": Obj({"Part": self.deep})})})

    def create(self, b):
        o = Obj(cls="Made")
        o.made = (b[0], b[1] if len(b) > 1 else UNDEF, b[2].a if len(b) > 2 and isinstance(b[2], Arr) else b[2:])
        return o

    def rendered(self):
        """What is rendered in each node now."""
        now = {}
        for c in self.calls:
            if c[0] == "render":
                now[c[1]] = self.read(c[2])
            elif c[0] == "unmount":
                now.pop(c[1], None)
        return now

    def read(self, o):
        if not hasattr(o, "made"):
            return o
        t, props, kids = o.made
        return (t, {k: ("handler" if isinstance(v, Fn) else py(v)) for k, v in props.p.items()} if isinstance(props, Obj) else {}, [self.read(k) for k in kids])


def imp(name, *kids, src="mod", kind="NAME", h=None, unmount=False, **at):
    d = el(name, *kids, h=h, **at)
    d["importSource"] = {"source": src, "sourceType": kind, "fallback": None, "unmountBeforeUpdate": unmount}
    return d


def imported(w, kind="NAME"):
    mod = Mod(w, "m")
    (w.modules if kind == "NAME" else w.s.modules)["mod"] = mod.exports
    one = lambda *a, **k: imp(*a, kind=kind, **k)
    w.update("", el("div", one("Comp", "text", el("p", "in", id="i"), one("Group.Part", x=1), one("Group.Deep.Part"), color="red", h={"onPick": ev("t")})))
    what = (w.loaded if kind == "NAME" else w.s.imports)
    if not what or set(what) != {"mod"} or (w.s.imports if kind == "NAME" else w.loaded):
        return f"the module is loaded as {w.loaded} by name and {w.s.imports} by URL"
    exp = (mod.comp, {"color": "red", "onPick": "handler"}, ["text", ("p", {"id": "i"}, ["in"]), (mod.part, {"x": 1}, []), (mod.deep, {}, [])])
    got = list(mod.rendered().values())
    if got != [exp]:
        return f"the module renders {got} for {exp}"
    live = [n for n in mod.nodes if w.b.attached(n)]
    if not live:
        return "the module is bound to a node which is not on the page"
    w.update("", el("div", one("Comp", "new", color="blue")))
    got = list(mod.rendered().values())
    if got != [(mod.comp, {"color": "blue"}, ["new"])]:
        return f"after an update the module renders {got}"
    w.update("", el("div", "gone"))
    return f"the component of a module stays mounted after its element is gone" if mod.rendered() else ""


def by_url(w):
    return imported(w, "URL")


def handler_of_module(w):
    mod = Mod(w, "m")
    w.modules["mod"] = mod.exports
    w.update("", el("div", imp("Comp", h={"onPick": ev("t1")})))
    r = [c[2] for c in mod.calls if c[0] == "render"]
    if not r:
        return "the module renders nothing"
    f = w.m.get(r[-1].made[1], "onPick")
    w.m.call(f, UNDEF, ["picked", 3])
    ms = take(w)
    if len(ms) != 1 or w.m.get(ms[0], "target") != "t1" or w.m.get(ms[0], "data").a != ["picked", 3]:
        return "a module's call of its handler is not sent as an event with its arguments"
    return ""


def other_source(w):
    a, b = Mod(w, "a"), Mod(w, "b")
    w.modules.update(a=a.exports, b=b.exports)
    w.update("", el("div", imp("Comp", "1", src="a")))
    w.update("", el("div", imp("Comp", "2", src="b")))
    if a.rendered():
        return "the component of the former module stays mounted after the element's source changed"
    if list(b.rendered().values()) != [(b.comp, {}, ["2"])]:
        return f"after the element's source changed, the new module renders {list(b.rendered().values())}"
    return ""


def child_of_other_source(w, one=("a", "NAME"), two=("b", "NAME")):
    a, b = Mod(w, "a"), Mod(w, "b")
    for (src, kind), mod in ((one, a), (two, b)):
        (w.modules if kind == "NAME" else w.s.modules)[src] = mod.exports
    inner = lambda *k, **at: imp("Comp", *k, src=two[0], kind=two[1], **at)
    outer = lambda *k: el("div", imp("Comp", *k, src=one[0], kind=one[1]))
    w.update("", outer(inner("inner", x=1)))
    r = [c[2] for c in a.calls if c[0] == "render"]
    if not r:
        return "the outer module renders nothing"
    node = child(w, a, b)
    if isinstance(node, str):
        return node
    if list(b.rendered().values()) != [(b.comp, {"x": 1}, ["inner"])]:
        return f"in an element of another module, the inner one renders {list(b.rendered().values())}"
    if not any(w.b.within(n, node) for n in b.nodes):
        return "the inner module is bound outside of its element"
    w.update("", outer(inner("newer", x=2)))
    child(w, a, b, node)
    if list(b.rendered().values()) != [(b.comp, {"x": 2}, ["newer"])]:
        return f"after an update the inner module renders {list(b.rendered().values())}"
    gone(w, node)
    return "the inner component stays mounted after its element is gone" if b.rendered() else ""


def child(w, a, b, node=None):
    """What the outer module does with an element of another module within its own."""
    made = [c[2] for c in a.calls if c[0] == "render"][-1].made
    kids = made[2]
    if len(kids) == 1 and hasattr(kids[0], "made") and kids[0].made[0] in (a.comp, b.comp):
        return "an element of another module is made with a component of the module around it" if kids[0].made[0] is a.comp else "an element of another module is made by the module around it"
    if len(kids) != 1 or not hasattr(kids[0], "made") or kids[0].made[0] != "reactpy-child":
        raise Unsup("children of another module are not given as reactpy-child")
    if node is None:
        node = w.b.make("reactpy-child")
        w.b.body.add(node)
    w.m.call(w.m.get(kids[0].made[1], "ref"), UNDEF, [node])
    w.b.flush()
    return node


def gone(w, node):
    w.m.call(w.m.get(node.up, "removeChild"), node.up, [node])
    w.b.flush()


def child_late(w, how):
    """The element of another module changes or goes while that module is loading."""
    a, b, c = Mod(w, "a"), Mod(w, "b"), Mod(w, "c")
    w.modules["a"] = a.exports
    p = w.modules["b"] = Promise()
    q = w.modules["c"] = Promise()
    w.update("", el("div", imp("Comp", imp("Comp", "old", src="b"), src="a")))
    node = child(w, a, b)
    if isinstance(node, str):
        return node
    if how == "gone":
        gone(w, node)
        w.m.resolve(p, b.exports)
        w.b.flush()
        return "a module within another which arrives after its element is gone is rendered" if b.rendered() else ""
    src = "c" if how != "update" else "b"
    w.update("", el("div", imp("Comp", imp("Comp", "new", src=src), src="a")))
    child(w, a, c if how != "update" else b, node)
    for x in {"update": "b", "former last": "cb", "former first": "bc"}[how]:
        w.m.resolve(p if x == "b" else q, (b if x == "b" else c).exports)
        w.b.flush()
    got = list(b.rendered().values()) + list(c.rendered().values())
    exp = ((b if src == "b" else c).comp, {}, ["new"])
    if got != [exp]:
        return f"within a module, {got} is rendered instead of {exp} when the modules arrive late"
    gone(w, node)
    return "the inner component stays mounted after its element is gone" if b.rendered() or c.rendered() else ""


def child_other_source(w):
    """The element of another module becomes one of a third."""
    a, b, c = Mod(w, "a"), Mod(w, "b"), Mod(w, "c")
    w.modules.update(a=a.exports, b=b.exports, c=c.exports)
    w.update("", el("div", imp("Comp", imp("Comp", "1", src="b"), src="a")))
    node = child(w, a, b)
    if isinstance(node, str):
        return node
    w.update("", el("div", imp("Comp", imp("Comp", "2", src="c"), src="a")))
    child(w, a, c, node)
    if b.rendered():
        return "within a module, the component of the former module stays mounted after the element's source changed"
    got = list(c.rendered().values())
    return "" if got == [(c.comp, {}, ["2"])] else f"within a module, after the element's source changed the new module renders {got}"


def preact_component(w, tag, mounted):
    create, effect = w.m.hosts["preact"]["createElement"], w.m.hosts["preact/hooks"]["useEffect"]

    def mount(t, a):
        mounted.append(tag)
        return w.m.fn(lambda t2, b: (mounted.remove(tag), UNDEF)[1])

    def comp(t, a):
        w.m.call(effect, UNDEF, [w.m.fn(mount), Arr()])
        props = Obj({k: v for k, v in a[0].p.items() if k not in ("children", "key")})
        return w.m.call(create, UNDEF, [tag, props, w.m.get(a[0], "children")])

    return w.m.fn(comp, tag)


def no_bind(w):
    """A module which leaves the binding to the client, where there is no React."""
    mounted = []
    w.modules["mod"] = Obj({"Comp": preact_component(w, "b", mounted)})
    w.update("", el("div", el("i", "before"), imp("Comp", "one", el("p", "two"), id="x")))
    b = w.find(lambda x: x.tagname == "b")
    if b is None:
        return "a module without a binding of its own is not rendered"
    if b.attrs.get("id", b.p.get("id")) != "x" or b.hostget("textContent") != "onetwo":
        return f"a module without a binding shows {b.hostget("textContent")!r}"
    w.update("", el("div", el("i", "before"), imp("Comp", "new", id="x")))
    if w.find(lambda x: x.tagname == "b") is not b or b.hostget("textContent") != "new":
        return "a module without a binding does not show the update in place"
    w.update("", el("div", el("i", "before")))
    return "the component of a module without a binding stays after its element is gone" if w.b.attached(b) or mounted else ""


def react(w, unmount=False):
    """A module which leaves the binding to the client, where React is there."""
    m = w.m
    roots = []

    def create(t, a):
        o = Obj(cls="Made")
        o.made = (a[0], a[1], a[2:])
        return o

    def root(t, a):
        me = {"node": a[0], "now": None, "live": True, "renders": 0, "bad": ""}
        if any(r["node"] is a[0] and r["live"] for r in roots):
            me["bad"] = "two React roots are made for one node"
        roots.append(me)

        def render(t2, b):
            if not me["live"]:
                me["bad"] = "an unmounted React root is rendered"
            me.update(now=b[0], renders=me["renders"] + 1)
            return UNDEF

        def stop(t2, b):
            me.update(now=None, live=False)
            return UNDEF

        return Obj({"render": m.fn(render), "unmount": m.fn(stop)})

    comp = Sym("Comp", "function")
    r, d = {"createElement": m.fn(create)}, {"createRoot": m.fn(root)}
    w.s.modules.update({"react": Obj({**r, "default": Obj(r)}), "react-dom/client": Obj({**d, "default": Obj(d)})})
    w.modules["mod"] = Obj({"Comp": comp})
    reader = Mod(w, "reader")

    def now():
        bad = next((x["bad"] for x in roots if x["bad"]), "")
        return bad, [reader.read(x["now"]) for x in roots if x["live"] and x["now"] is not None]

    w.update("", el("div", imp("Comp", "one", imp("Comp", "two"), id="x", unmount=unmount)))
    bad, got = now()
    if bad or got != [(comp, {"id": "x"}, ["one", (comp, {}, ["two"])])]:
        return bad or f"with React, a module without a binding renders {got}"
    w.update("", el("div", imp("Comp", "new", unmount=unmount)))
    bad, got = now()
    if bad or got != [(comp, {}, ["new"])]:
        return bad or f"with React, after an update {got} is rendered"
    if (len(roots) > 1) != unmount:
        return "with React, an update makes the component anew" if not unmount else "with React, unmount_before_update does not unmount"
    w.update("", el("div", "gone"))
    if now()[1]:
        return "with React, the component stays mounted after its element is gone"
    w.update("", el("div", imp("Comp", "again", unmount=unmount)))
    bad, got = now()
    return bad or ("" if got == [(comp, {}, ["again"])] else f"with React, when the element is back {got} is rendered")


def two_places(w):
    """One module in two places of the page."""
    mod = Mod(w, "m")
    w.modules["mod"] = mod.exports
    w.update("", el("div", el("p", imp("Comp", "1")), el("p", imp("Comp", "2"))))
    if sorted(x[2][0] for x in mod.rendered().values()) != ["1", "2"]:
        return f"a module in two places renders {list(mod.rendered().values())}"
    w.update("/children/1", el("p", imp("Comp", "3")))
    if sorted(x[2][0] for x in mod.rendered().values()) != ["1", "3"]:
        return f"after an update of one of two places a module renders {list(mod.rendered().values())}"
    w.update("/children/0", el("p"))
    return "" if [x[2][0] for x in mod.rendered().values()] == ["3"] else f"after one of two places is gone a module renders {list(mod.rendered().values())}"


def late(w):
    """The module arrives after the element is gone."""
    mod = Mod(w, "m")
    p = w.modules["mod"] = Promise()
    w.update("", el("div", imp("Comp", "x")))
    w.update("", el("div", "gone"))
    w.m.resolve(p, mod.exports)
    w.b.flush()
    return "a module which arrives after its element is gone is rendered" if mod.rendered() else ""


def late_former(w):
    """The element's source changes while the former module is loading; that one arrives last."""
    a, b = Mod(w, "a"), Mod(w, "b")
    p, q = w.modules["a"], w.modules["b"] = Promise(), Promise()
    w.update("", el("div", imp("Comp", "1", src="a")))
    w.update("", el("div", imp("Comp", "2", src="b")))
    w.m.resolve(q, b.exports)
    w.b.flush()
    w.m.resolve(p, a.exports)
    w.b.flush()
    w.update("", el("div", imp("Comp", "3", src="b")))
    got = list(a.rendered().values()) + list(b.rendered().values())
    return "" if got == [(b.comp, {}, ["3"])] else f"when a module which is not wanted any more arrives last, {got} is rendered"


def late_update(w):
    """The model changes while the module is loading."""
    mod = Mod(w, "m")
    p = w.modules["mod"] = Promise()
    w.update("", el("div", imp("Comp", "old")))
    w.update("", el("div", imp("Comp", "new")))
    w.m.resolve(p, mod.exports)
    w.b.flush()
    got = list(mod.rendered().values())
    return "" if got == [(mod.comp, {}, ["new"])] else f"a module which arrives after an update renders {got}"


def before_update(w):
    mod = Mod(w, "m")
    w.modules["mod"] = mod.exports
    w.update("", el("div", imp("Comp", "1", unmount=True)))
    mod.calls.clear()
    w.update("", el("div", imp("Comp", "2", unmount=True)))
    ks = [c[0] for c in mod.calls if c[0] != "bind"]
    if ks[:1] != ["unmount"] or ks[-1:] != ["render"]:
        return f"with unmount_before_update, an update does {ks}"
    return "" if [x[2] for x in mod.rendered().values()] == [["2"]] else "with unmount_before_update, the update is not rendered"


def not_unmounted(w):
    mod = Mod(w, "m")
    w.modules["mod"] = mod.exports
    w.update("", el("div", imp("Comp", "1")))
    mod.calls.clear()
    w.update("", el("div", imp("Comp", "2")))
    ks = {c[0] for c in mod.calls}
    return "" if ks == {"render"} else f"an update of a module's element does {sorted(ks)}, losing its state"


def missing(w):
    mod = Mod(w, "m")
    w.modules["mod"] = mod.exports
    w.update("", el("div", imp("Nope"), el("p", "a")))
    if w.find(lambda x: x.tagname == "p") is None:
        return "a component which its module does not export takes the rest of the page with it"
    return ""


def run_one(ck, name, f, file, convert=None, args=()):
    def make(ch):
        w = None
        try:
            w = W(ck, ch, convert)
            x = f(w, *args)
        except Throw as e:
            x = f"fails: {show(e.value)}"
        except Broken as e:
            x = str(e)
        if w is None:
            raise Unsup("the layout is not mounted: " + x)
        used(ck, w.m)
        return w.m, x

    bad = ""
    for m, x in paths(make):
        bad = bad or x
        ck.graphs += 1
        ck.states += m.steps
    ck.ob(not bad, name, file, bad)


TODO = {
    "shown": ("after each update the page shows the model", [(n, lambda w, s=s: shown(w, s), C) for n, s in SERIES.items()] + [("keys", identity, C)]),
    "events": ("each event is sent once, to its handler's target with its data, with what the handler asks for done",
               [("kinds of elements", events, V), ("defaults", defaults, V), ("several elements", two_elements, V), ("numbers", sequence, C), ("plain arguments", arguments, V), ("inline JavaScript", inline, V)]),
    "rates": ("throttled and debounced handlers send the last event of each wait, the others all",
              [(n, lambda w, a=a: rates(w, *a), C) for n, *a in RATES] + [("update before the time", after_update, C), ("two elements", two_limited, C)]),
    "inputs": ("inputs show the server's value exactly when it has seen every event",
               [("value", server_value, C), ("server behind", behind, C), ("same value again", reset_same, C), ("nothing acknowledged", no_answer_yet, C), ("without a value", uncontrolled, C), ("two handlers", handlers_share, C), ("debounced", debounced_ack, C), ("another input", others_untouched, C)]),
    "modules": ("components of modules are rendered with each model and unmounted when their element is gone",
                [("by name", imported, V), ("by URL", by_url, V), ("handlers", handler_of_module, V), ("other source", other_source, C), ("child of another source", child_of_other_source, V), ("child of the same source by URL", lambda w: child_of_other_source(w, ("a", "NAME"), ("a", "URL")), V), ("child of the same source by name", lambda w: child_of_other_source(w, ("a", "URL"), ("a", "NAME")), V), ("child of another source by URL", lambda w: child_of_other_source(w, ("a", "URL"), ("b", "URL")), V), *[(f"late child of another source, {h}", lambda w, h=h: child_late(w, h), V) for h in ("gone", "update", "former last", "former first")], ("child becomes of another source", child_other_source, V), ("no binding", no_bind, C), ("React", react, C), ("React, unmount before update", lambda w: react(w, True), C), ("two places", two_places, C), ("late module", late, C), ("late former module", late_former, C), ("late update", late_update, C), ("unmount before update", before_update, C), ("no unmount before update", not_unmounted, C), ("missing export", missing, V)]),
}


def histories(ck):
    for r, (text, cases) in TODO.items():
        ck.rule(r, text, len(cases))
        for name, f, file in cases:
            try:
                run_one(ck, name, f, file)
            except Unsup as e:
                ck.rules[r]["floor"] -= 1
                ck.open.append(f"{r}, {name}: not followed ({e})")


RULES = [histories]
