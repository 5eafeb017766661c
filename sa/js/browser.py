"""A model of what the browser and preact do with what the client gives them."""
from __future__ import annotations

import urllib.parse

from . import UNDEF, _MISSING, Arr, Fn, Machine, Obj, Promise, Prop, Throw, Unsup, key_of, show
from .builtins import advance, same

HIDDEN = ("value", "checked")


class Dom(Obj):
    cls = "HTMLElement"

    def __init__(self, b, tag):
        super().__init__()
        self.b, self.tagname, self.kids, self.attrs, self.on, self.up = b, tag, [], {}, {}, None
        self.proto = b.elproto
        self.text = None
        if tag in ("input", "textarea", "select"):
            self.p["value"] = ""
        self.p["style"] = Obj()

    def hostget(self, k):
        if k in ("tagName", "nodeName"):
            return self.tagname.upper()
        if k == "isConnected":
            return self.b.attached(self)
        if k in ("parentNode", "parentElement"):
            return self.up
        if k in ("childNodes", "children"):
            return Arr([x for x in self.kids if k == "childNodes" or x.tagname != "#text"])
        if k == "firstChild":
            return self.kids[0] if self.kids else None
        if k == "lastChild":
            return self.kids[-1] if self.kids else None
        if k == "textContent":
            return self.text if self.text is not None else "".join(show(x.hostget("textContent")) for x in self.kids)
        return _MISSING

    def hostset(self, k, v):
        if k in ("textContent", "innerText"):
            self.kids = []
            if show(v):
                t = Dom(self.b, "#text")
                t.text = show(v)
                self.add(t)
            return True
        if k == "innerHTML":
            raise Unsup("innerHTML")
        if k == "value":
            self.p["value"] = "" if v is None else show(v)
            return True
        if k in ("src", "type", "id", "className", "href", "async", "defer", "text") and self.tagname == "script":
            if k == "text":
                return self.hostset("textContent", v)
            self.attrs[k] = v
            return True
        return False

    def add(self, x, before=None):
        if not isinstance(x, Dom):
            raise Unsup("appendChild")
        if x.up is not None:
            x.up.kids.remove(x)
        x.up = self
        if before is not None and before in self.kids:
            self.kids.insert(self.kids.index(before), x)
        else:
            self.kids.append(x)
        self.b.connected(x)
        return x

    def drop(self, x):
        if x not in self.kids:
            raise Throw(self.b.m.error("NotFoundError", "not a child"))
        was = self.b.attached(x)
        self.kids.remove(x)
        x.up = None
        if was:
            self.b.disconnected(x)
        return x


class VNode(Obj):
    cls = "VNode"

    def __init__(self, type, props, key, ref, children):
        super().__init__()
        self.type, self.props, self.key, self.ref, self.children = type, props, key, ref, children

    def hostget(self, k):
        return {"type": self.type, "props": self.props, "key": self.key, "ref": self.ref}.get(k, _MISSING)


class Inst:
    def __init__(self, b, v, up):
        self.b, self.v, self.up, self.kids, self.hooks, self.dom, self.dirty, self.gone, self.i = b, v, up, [], [], None, False, False, 0


class Browser:
    def __init__(self, m: Machine):
        self.m = m
        self.elproto = Obj()
        self.elproto.builtin = True
        self.current = None
        self.queue: list = []
        self.effects: list = []
        self.roots: list = []
        self.define: dict = {}
        fn, top = m.fn, m.top.v
        arg = lambda a, i=0: a[i] if i < len(a) else UNDEF
        el = self.elproto

        def reg(o, **fs):
            for k, f in fs.items():
                o.p[k] = fn(f, k)
            return o

        reg(el,
            setAttribute=lambda t, a: (t.attrs.__setitem__(show(a[0]), show(a[1]) if not isinstance(a[1], (Obj,)) else a[1]), UNDEF)[1],
            getAttribute=lambda t, a: t.attrs.get(show(a[0]), None),
            removeAttribute=lambda t, a: (t.attrs.pop(show(a[0]), None), UNDEF)[1],
            hasAttribute=lambda t, a: show(a[0]) in t.attrs,
            appendChild=lambda t, a: t.add(a[0]),
            append=lambda t, a: ([t.add(self.asnode(x)) for x in a], UNDEF)[1],
            replaceChildren=lambda t, a: ([t.drop(x) for x in list(t.kids)], [t.add(self.asnode(x)) for x in a], UNDEF)[2],
            removeChild=lambda t, a: t.drop(a[0]),
            insertBefore=lambda t, a: t.add(a[0], a[1] if isinstance(arg(a, 1), Dom) else None),
            remove=lambda t, a: (t.up.drop(t) if t.up is not None else None, UNDEF)[1],
            contains=lambda t, a: self.within(a[0], t))
        E = Fn("HTMLElement", host=lambda t, a: UNDEF, construct=lambda a: Dom(self, "custom"))
        E.p["prototype"] = el
        el.p["constructor"] = E
        for n in ("HTMLElement", "Element", "Node"):
            top[n] = E
        self.body = Dom(self, "body")
        self.doc = Obj(cls="Document")
        self.doc.p["body"] = self.body
        reg(self.doc, createElement=lambda t, a: self.make(show(a[0])), createTextNode=lambda t, a: self.textnode(show(a[0])))
        top["document"] = self.doc
        D = Fn("Document", host=lambda t, a: UNDEF)
        D.p["prototype"] = Obj()
        self.doc.proto = D.p["prototype"]
        top["Document"] = D
        ce = Obj()
        reg(ce, get=lambda t, a: self.define.get(show(a[0]), UNDEF), define=lambda t, a: (self.define.__setitem__(show(a[0]), a[1]), UNDEF)[1])
        top["customElements"] = ce
        ev = Fn("Event", host=lambda t, a: UNDEF, construct=lambda a: Obj({"type": arg(a)}, cls="Event"))
        top["Event"] = ev
        self.eventproto = ev.p["prototype"]
        self.prevented: list = []
        # ---- preact
        self.fragment = fn(lambda t, a: m.get(a[0], "children"), "Fragment")
        m.fragment = self.fragment
        m.jsxmake = lambda ty, props, kids: self.h(UNDEF, [ty, props, *kids])
        self.preact = {
            "createElement": fn(self.h, "createElement"), "h": fn(self.h, "h"), "Fragment": self.fragment,
            "createContext": fn(self.context, "createContext"), "render": fn(self.render_call, "render"),
            "cloneElement": fn(lambda t, a: (_ for _ in ()).throw(Unsup("cloneElement")), "cloneElement"),
            "createRef": fn(lambda t, a: Obj({"current": None}), "createRef"),
        }
        self.hooks = {k: fn(f, k) for k, f in dict(
            useState=self.use_state, useReducer=self.use_reducer, useEffect=lambda t, a: self.use_effect(a, False), useLayoutEffect=lambda t, a: self.use_effect(a, True),
            useRef=lambda t, a: self.slot(lambda: Obj({"current": arg(a)})), useContext=self.use_context,
            useMemo=lambda t, a: self.use_memo(a[0], arg(a, 1), False), useCallback=lambda t, a: self.use_memo(a[0], arg(a, 1), True)).items()}

    # ---- the page
    def asnode(self, x):
        return x if isinstance(x, Dom) else self.textnode(show(x))

    def make(self, tag):
        c = self.define.get(tag)
        if c is not None:
            d = self.m.new(c, [])
            d.tagname = tag
            return d
        return Dom(self, tag)

    def textnode(self, s):
        t = Dom(self, "#text")
        t.text = s
        return t

    def within(self, x, top):
        while x is not None:
            if x is top:
                return True
            x = x.up
        return False

    def attached(self, x):
        return self.within(x, self.body)

    def below(self, x):
        yield x
        for k in list(x.kids):
            yield from self.below(k)

    def connected(self, x):
        if self.attached(x):
            for y in self.below(x):
                f = self.m.get(y, "connectedCallback")
                if isinstance(f, Fn):
                    self.m.call(f, y, [])

    def disconnected(self, x):
        for y in self.below(x):
            f = self.m.get(y, "disconnectedCallback")
            if isinstance(f, Fn):
                self.m.call(f, y, [])

    # ---- vnodes
    def h(self, t, a):
        ty = a[0]
        given = a[1] if len(a) > 1 and isinstance(a[1], Obj) else Obj()
        props, key, ref = Obj(), UNDEF, UNDEF
        for k in self.m.own(given):
            v = self.m.get(given, k)
            if k == "key":
                key = v
            elif k == "ref" and not isinstance(ty, Fn):
                ref = v
            else:
                props.p[k] = v
        kids = a[2:]
        if kids:
            props.p["children"] = Arr(kids) if len(kids) > 1 else kids[0]
        return VNode(ty, props, key, ref, self.flatten(self.m.get(props, "children") if "children" in props.p else UNDEF))

    def flatten(self, c):
        if isinstance(c, Arr):
            return [y for x in c.a for y in self.flatten(x)]
        if c is UNDEF or c is None or isinstance(c, bool):
            return [None]
        return [c]

    def context(self, t, a):
        c = Obj(cls="Context")
        c.default = a[0] if a else UNDEF

        def provide(t2, b):
            self.current.provides = (c, self.m.get(b[0], "value"))
            return self.m.get(b[0], "children")

        c.p["Provider"] = self.m.fn(provide, "Provider")
        return c

    # ---- hooks
    def slot(self, make):
        i = self.current
        if i is None:
            raise Throw(self.m.error("Error", "hook outside of a component"))
        if i.i >= len(i.hooks):
            i.hooks.append(make())
        i.i += 1
        return i.hooks[i.i - 1]

    def use_state(self, t, a):
        i = self.current

        def make():
            v = a[0] if a else UNDEF
            cell = {"v": self.m.call(v) if isinstance(v, Fn) else v}

            def setter(t2, b):
                x = b[0] if b else UNDEF
                if isinstance(x, Fn):
                    x = self.m.call(x, UNDEF, [cell["v"]])
                if same(x) != same(cell["v"]):
                    cell["v"] = x
                    self.invalidate(i)
                return UNDEF

            cell["set"] = self.m.fn(setter, "setState")
            return cell

        c = self.slot(make)
        return Arr([c["v"], c["set"]])

    def use_reducer(self, t, a):
        i = self.current

        def make():
            cell = {"v": self.m.call(a[2], UNDEF, [a[1]]) if len(a) > 2 else a[1], "f": a[0]}

            def dispatch(t2, b):
                x = self.m.call(cell["f"], UNDEF, [cell["v"], b[0] if b else UNDEF])
                if same(x) != same(cell["v"]):
                    cell["v"] = x
                    self.invalidate(i)
                return UNDEF

            cell["set"] = self.m.fn(dispatch, "dispatch")
            return cell

        c = self.slot(make)
        c["f"] = a[0]
        return Arr([c["v"], c["set"]])

    def changed(self, old, new):
        if not isinstance(new, Arr) or not isinstance(old, Arr):
            return True
        return [same(x) for x in old.a] != [same(x) for x in new.a]

    def use_effect(self, a, early):
        c = self.slot(lambda: {"effect": True, "deps": None, "clean": UNDEF, "first": True})
        d = a[1] if len(a) > 1 else UNDEF
        if c["first"] or self.changed(c["deps"], d):
            c["first"], c["deps"] = False, d
            self.effects.append((0 if early else 1, self.current, c, a[0]))
        return UNDEF

    def use_memo(self, f, d, plain):
        c = self.slot(lambda: {"deps": None, "first": True})
        if c["first"] or self.changed(c["deps"], d):
            c["first"], c["deps"] = False, d
            c["v"] = f if plain else self.m.call(f)
        return c["v"]

    def use_context(self, t, a):
        i = self.current
        self.slot(lambda: {})
        while i is not None:
            p = getattr(i, "provides", None)
            if p and p[0] is a[0]:
                return p[1]
            i = i.up
        return a[0].default

    def invalidate(self, i):
        if not i.gone and not i.dirty:
            i.dirty = True
            self.queue.append(i)

    # ---- rendering
    def render_call(self, t, a):
        v, dom = a[0], a[1]
        r = next((x for x in self.roots if x[0] is dom), None)
        if r is None:
            r = [dom, []]
            self.roots.append(r)
        vs = self.flatten(v)
        r[1] = self.children(None, r[1], vs)
        self.place(dom, r[1])
        self.commit()
        return UNDEF

    def commit(self):
        todo, self.effects = self.effects, []
        for early in (0, 1):
            for own in dict.fromkeys(id(i) for k, i, _, _ in todo if k == early):
                # a component's cleanups run before its effects
                mine = [(c, f) for k, i, c, f in todo if k == early and id(i) == own and not i.gone]
                for c, _ in mine:
                    if isinstance(c["clean"], Fn):
                        g, c["clean"] = c["clean"], UNDEF
                        self.m.call(g)
                for c, f in mine:
                    c["clean"] = self.m.call(f)

    def flush(self):
        """Let what is scheduled run."""
        n = 0
        while self.m.micro or self.queue:
            self.m.run_micro()
            q, self.queue = self.queue, []
            for i in q:
                if i.dirty and not i.gone:
                    self.update(i, i.v)
                    for r in self.roots:
                        self.place(r[0], r[1])
            self.commit()
            n += 1
            if n > 200:
                raise Unsup("endless rendering")

    def children(self, up, old, vs):
        used, out = set(), []

        def kind(v):
            return (v.type if isinstance(v, VNode) else "#text", same(v.key) if isinstance(v, VNode) and v.key not in (UNDEF, None) else None) if v is not None else None

        for n, v in enumerate(vs):
            if v is None:
                out.append(None)
                continue
            if isinstance(v, Obj) and not isinstance(v, VNode):
                raise Throw(self.m.error("Error", "Objects are not valid as a child."))
            k = kind(v)
            hit = None
            for j in [n, *range(len(old))]:
                if j < len(old) and j not in used and old[j] is not None and kind(old[j].v) is not None:
                    o = kind(old[j].v)
                    if o[0] is k[0] if not isinstance(k[0], str) else o[0] == k[0]:
                        if o[1] == k[1]:
                            hit = j
                            break
            if hit is not None:
                used.add(hit)
                i = old[hit]
                i.up = up
                if i.dirty or i.v is not v or not isinstance(v, VNode):
                    self.update(i, v)
            else:
                i = Inst(self, v, up)
                self.update(i, v)
            out.append(i)
        for j, o in enumerate(old):
            if o is not None and j not in used:
                self.unmount(o)
        return out

    def unmount(self, i):
        i.gone = True
        for c in i.hooks:
            if isinstance(c, dict) and c.get("effect") and isinstance(c["clean"], Fn):
                f, c["clean"] = c["clean"], UNDEF
                self.m.call(f)
        if i.v is not None and isinstance(i.v, VNode):
            self.setref(i.v.ref, None)
        for k in i.kids:
            if k is not None:
                self.unmount(k)
        if i.dom is not None and i.dom.up is not None:
            i.dom.up.drop(i.dom)

    def setref(self, ref, v):
        if isinstance(ref, Fn):
            self.m.call(ref, UNDEF, [v])
        elif isinstance(ref, Obj):
            self.m.put(ref, "current", v)

    def update(self, i, v):
        was, i.v, i.dirty = i.v, v, False
        if not isinstance(v, VNode):
            if i.dom is None:
                i.dom = self.textnode(show(v))
            else:
                i.dom.text = show(v)
            return
        if isinstance(v.type, Fn):
            before, self.current = self.current, i
            i.i = 0
            try:
                r = self.m.call(v.type, UNDEF, [v.props])
            finally:
                self.current = before
            if isinstance(r, Sym_):
                raise Unsup("opaque element")
            i.kids = self.children(i, i.kids, self.flatten(r))
            return
        if not isinstance(v.type, str):
            raise Throw(self.m.error("Error", f"element of type {show(v.type) if not isinstance(v.type, Obj) else 'object'}"))
        fresh = i.dom is None
        if fresh:
            i.dom = self.make(v.type)
        d = i.dom
        old = {} if fresh else was.props.p
        for k in set(old) - set(v.props.p):
            self.prop(d, k, UNDEF)
        for k in self.m.own(v.props):
            x = self.m.get(v.props, k)
            if k != "children" and (fresh or same(old.get(k, UNDEF)) != same(x) or k in HIDDEN):
                self.prop(d, k, x)
        i.kids = self.children(i, i.kids, v.children)
        self.place(d, i.kids)
        if fresh or was.ref is not v.ref:
            if not fresh and was.ref is not UNDEF:
                self.setref(was.ref, None)
            i.b.setref(v.ref, d)

    def prop(self, d, k, x):
        if k == "dangerouslySetInnerHTML":
            d.attrs[k] = x
        elif k[:2] == "on":
            if isinstance(x, Fn):
                d.on[k] = x
            else:
                d.on.pop(k, None)
        elif k in HIDDEN and d.tagname in ("input", "select", "textarea"):
            if x is not UNDEF:
                d.p[k] = "" if x is None and k == "value" else x
            elif k == "value":
                d.p[k] = ""
        elif x is UNDEF or x is None or (x is False and "-" not in k):
            d.attrs.pop(k, None)
        elif isinstance(x, Fn):
            d.attrs.pop(k, None)
        else:
            d.attrs[k] = x

    def doms(self, kids):
        for i in kids:
            if i is None:
                continue
            if i.dom is not None:
                yield i.dom
            else:
                yield from self.doms(i.kids)

    def place(self, dom, kids):
        want = list(self.doms(kids))
        mine = [x for x in dom.kids if getattr(x, "managed", None) is self or x in want]
        for x in mine:
            if x not in want:
                dom.kids.remove(x)
                x.up = None
        have = [x for x in dom.kids if x in want]
        if have != want or len(have) != len(want):
            extra = [x for x in dom.kids if x not in want]
            new = [x for x in want if x.up is not dom]
            for x in want:
                x.managed, x.up = self, dom
            dom.kids = want + extra
            for x in new:
                self.connected(x)
        # parts in other places of the tree
        for i in kids:
            if i is not None:
                self.placed(i)

    def placed(self, i):
        if i.dom is not None and i.kids:
            want = list(self.doms(i.kids))
            if [x for x in i.dom.kids if x in want] != want:
                self.place(i.dom, i.kids)
            else:
                for k in i.kids:
                    if k is not None:
                        self.placed(k)
        elif i.dom is None:
            for k in i.kids:
                if k is not None:
                    self.placed(k)

    # ---- what is seen
    def snapshot(self, d):
        if d.tagname == "#text":
            return d.text
        return (d.tagname, {k: v for k, v in d.attrs.items()}, sorted(d.on), [self.snapshot(x) for x in d.kids])

    def event(self, d, name, **props):
        """The user does something: -> (event, what was recorded)."""
        f = d.on.get(name)
        seen = []
        e = Obj({"type": name, "target": d, "currentTarget": d, **props}, proto=self.eventproto, cls="Event")
        for k in ("preventDefault", "stopPropagation", "stopImmediatePropagation", "persist"):
            e.p[k] = self.m.fn(lambda t, a, k=k: (seen.append(k), UNDEF)[1], k)
        if f is None:
            raise KeyError(name)
        self.m.call(f, d, [e])
        return e, seen


class Sym_:
    pass


class Location(Obj):
    pass


def url_class(m):
    """URL with its search parameters."""

    def params(u):
        o = Obj(cls="URLSearchParams")
        arg = lambda a, i=0: show(a[i]) if i < len(a) else ""

        def set_(t, a):
            k, v = arg(a), arg(a, 1)
            if any(x == k for x, _ in u.q):
                done, out = False, []
                for x, y in u.q:
                    if x != k:
                        out.append((x, y))
                    elif not done:
                        out.append((x, v))
                        done = True
                u.q = out
            else:
                u.q.append((k, v))
            return UNDEF

        for k, f in dict(set=set_, append=lambda t, a: (u.q.append((arg(a), arg(a, 1))), UNDEF)[1], delete=lambda t, a: (setattr(u, "q", [x for x in u.q if x[0] != arg(a)]), UNDEF)[1],
                         get=lambda t, a: next((y for x, y in u.q if x == arg(a)), None), has=lambda t, a: any(x == arg(a) for x, _ in u.q), toString=lambda t, a: urllib.parse.urlencode(u.q)).items():
            o.p[k] = m.fn(f, k)
        return o

    def make(a):
        if a and isinstance(a[0], URL):
            u = URL()
            u.base, u.q = a[0].base, list(a[0].q)
        else:
            s = show(a[0])
            if len(a) > 1 and a[1] is not UNDEF:
                s = urllib.parse.urljoin(show(a[1]), s)
            u = URL()
            b, _, q = s.partition("?")
            if "://" not in b:
                raise Throw(m.error("TypeError", "Invalid URL"))
            u.base, u.q = b, urllib.parse.parse_qsl(q, keep_blank_values=True)
        u.proto = f.p["prototype"]
        u.p["searchParams"] = params(u)
        u.p["href"] = Prop(m.fn(lambda t, a: t.text()))
        u.p["toString"] = m.fn(lambda t, a: t.text())
        return u

    f = Fn("URL", host=lambda t, a: UNDEF, construct=make)
    m.top.v["URL"] = f
    return f


class URL(Obj):
    cls = "URL"

    def text(self):
        return self.base + ("?" + urllib.parse.urlencode(self.q) if self.q else "")


def sockets(m, box):
    """A WebSocket class; box.made lists what was opened, with what each was sent."""

    def make(a):
        s = Obj(cls="WebSocket", proto=f.p["prototype"])
        s.url = show(a[0])
        s.sent, s.lost = [], []
        s.at = m.now
        s.p["readyState"] = 0

        def send(t, b):
            if t.p["readyState"] == 0:
                raise Throw(m.error("InvalidStateError", "still connecting"))
            (t.sent if t.p["readyState"] == 1 else t.lost).append(b[0])
            return UNDEF

        def listen(t, b):
            t.p.setdefault("%on", {}).setdefault(show(b[0]), []).append(b[1])
            return UNDEF

        s.p["send"], s.p["addEventListener"] = m.fn(send, "send"), m.fn(listen, "addEventListener")
        s.p["close"] = m.fn(lambda t, b: (t.p.__setitem__("readyState", 3), UNDEF)[1], "close")
        box.append(s)
        return s

    f = Fn("WebSocket", host=lambda t, a: UNDEF, construct=make)
    for i, k in enumerate(("CONNECTING", "OPEN", "CLOSING", "CLOSED")):
        f.p[k] = i
        f.p["prototype"].p[k] = i
    m.top.v["WebSocket"] = f


def fire(m, s, name, e):
    g = m.get(s, "on" + name)
    if isinstance(g, Fn):
        m.call(g, s, [e])
    for h in s.p.get("%on", {}).get(name, []):
        m.call(h, s, [e])
    m.run_micro()
