"""C17  The browser client gets every message through, in order, and reconnects."""
import json
import urllib.parse

from ..js import UNDEF, Arr, Fn, Obj, Throw, Unsup, paths, show
from ..js.builtins import advance
from ..js.browser import fire
from ..js.scene import CLIENT, Scene, used

EXPLANATION = """
The client's TypeScript is interpreted over its syntax trees, with the browser's part (sockets, timers,
location, promises) as a model. Histories of handlers registered, messages asked to be sent, connections
opened and lost and messages received are followed; what each socket was given, when sockets were made
and with which URL, and which handlers were called with what is compared with what the history requires.
Payloads are opaque to the client; where it branches on one, both ways are followed.
"""
ASSUMPTIONS = ["sockets, timers and promises of the browser work as specified", "handlers are registered with onMessage(type, handler)"]
A, B, TOP = CLIENT + "client.ts", CLIENT + "websocket.ts", CLIENT + "index.ts"
OPTS = {"interval": 100, "maxInterval": 350, "maxRetries": 4, "backoffMultiplier": 2}


class World:
    def __init__(self, ck, choices=(), opts=OPTS, search="", **kw):
        self.s = Scene(ck, choices, search=search, **kw)
        self.m = self.s.m
        ns = self.s.load("client.ts")
        cls = ns.value("ReactPyClient")
        if not isinstance(cls, Fn):
            raise Unsup("ReactPyClient")
        url = self.m.new(self.m.top.v["URL"], ["ws://h:1/reactpy/comp"])
        self.mount = self.s.b.make("div")
        self.c = self.m.new(cls, [Obj({"urls": Obj({"componentUrl": url, "jsModulesPath": "http://h:1/reactpy/modules/"}), "mountElement": self.mount, "reconnectOptions": Obj(opts)})])
        self.m.run_micro()
        self.heard = []

    def on(self, type_, name, raises=False):
        def h(t, a):
            self.heard.append((name, json.loads(self.m.dumps(a[0]))))
            if raises:
                raise Throw(self.m.error("Error", "handler"))
            return UNDEF

        r = self.m.call(self.m.get(self.c, "onMessage"), self.c, [type_, self.m.fn(h, name)])
        self.m.run_micro()
        return r

    def send(self, msg):
        self.m.call(self.m.get(self.c, "sendMessage"), self.c, [self.m.tojs(msg)])
        self.m.run_micro()

    def open(self, i=-1):
        s = self.s.made[i]
        s.p["readyState"] = 1
        fire(self.m, s, "open", Obj({"type": "open"}))

    def close(self, i=-1):
        s = self.s.made[i]
        s.p["readyState"] = 3
        fire(self.m, s, "close", Obj({"type": "close", "code": 1006}))

    def receive(self, msg, i=-1):
        fire(self.m, self.s.made[i], "message", Obj({"type": "message", "data": json.dumps(msg)}))

    def off(self, r):
        self.m.call(r)
        self.m.run_micro()

    def wait(self, ms):
        advance(self.m, ms)

    def sent(self, i=-1):
        return [json.loads(x) for x in self.s.made[i].sent]


def msg(i, t="layout-event"):
    return {"type": t, "target": f"t{i}", "data": [{"x": i}], "seq": i}


# ------------------------------------------------------------------ histories: -> "" or what is wrong
def not_before(w):
    if w.s.made:
        return "a connection is opened before anything is registered for messages"
    w.on("layout-update", "h")
    return "" if len(w.s.made) == 1 else f"{len(w.s.made)} connections are opened once a handler is registered"


def once_only(w):
    w.on("layout-update", "h")
    w.on("other", "g")
    w.on("layout-update", "k")
    return "" if len(w.s.made) == 1 else f"{len(w.s.made)} connections are opened for three handlers"


def queued(w):
    w.send(msg(0))
    w.on("layout-update", "h")
    w.send(msg(1))
    w.send(msg(2))
    if w.sent() or w.s.made[-1].lost:
        return "something is sent before the connection is open"
    w.open()
    if w.sent() != [msg(0), msg(1), msg(2)]:
        return f"messages 0, 1, 2 asked for before the connection is open are sent as {[x.get('seq') for x in w.sent()]}"
    w.send(msg(3))
    w.send(msg(4))
    return "" if w.sent() == [msg(i) for i in range(5)] else f"messages 0 to 4 are sent as {[x.get('seq') for x in w.sent()]}"


def queued_again(w):
    w.on("layout-update", "h")
    w.open()
    w.send(msg(0))
    w.close()
    w.send(msg(1))
    w.send(msg(2))
    if w.s.made[0].lost:
        return "a message is given to a closed socket"
    w.wait(100)
    if len(w.s.made) != 2:
        return f"{len(w.s.made) - 1} new connections are opened after the first was lost"
    w.send(msg(3))
    w.open()
    w.send(msg(4))
    w.receive({"type": "layout-update", "path": "", "model": {}})
    got = [x.get("seq") for x in w.sent(0)], [x.get("seq") for x in w.sent(1)]
    if got != ([0], [1, 2, 3, 4]):
        return f"messages 1 to 4 asked for around a reconnection, after 0: the sockets get {got}"
    return "" if len(w.heard) == 1 else "what the new connection receives does not reach the handler"


def lost_twice(w):
    w.on("layout-update", "h")
    w.open()
    w.close()
    w.send(msg(1))
    w.wait(100)
    w.close()
    w.send(msg(2))
    w.wait(200)
    w.open()
    got = [[x.get("seq") for x in w.sent(i)] for i in range(len(w.s.made))]
    return "" if got == [[], [], [1, 2]] else f"messages 1 and 2 asked for during two failed connections: the sockets get {got}"


def dispatch(w):
    a = w.on("layout-update", "a")
    w.on("layout-update", "b")
    w.on("custom", "c")
    w.open()
    u = lambda i: {"type": "layout-update", "path": "/x", "model": {"tagName": f"t{i}", "children": ["ä", None, 1.5, True]}}
    w.receive(u(1))
    if w.heard != [("a", u(1)), ("b", u(1))]:
        return f"a message for two handlers reaches {[x[0] for x in w.heard]}" + (" changed" if {x[0] for x in w.heard} == {"a", "b"} else "")
    w.heard.clear()
    w.receive({"type": "custom", "n": 0})
    if w.heard != [("c", {"type": "custom", "n": 0})]:
        return f"a message of type custom reaches {[x[0] for x in w.heard]}"
    w.heard.clear()
    w.receive({"type": "unknown"})
    w.receive({"no": "type"})
    w.receive(u(2))
    if w.heard != [("a", u(2)), ("b", u(2))]:
        return "after messages without a handler or type, the next reaches " + str([x[0] for x in w.heard])
    w.heard.clear()
    w.off(a)
    w.receive(u(3))
    if w.heard != [("b", u(3))]:
        return f"after the first of two handlers is removed, a message reaches {[x[0] for x in w.heard]}"
    w.heard.clear()
    w.off(a)
    w.on("layout-update", "d")
    w.receive(u(4))
    if w.heard != [("b", u(4)), ("d", u(4))]:
        return f"after a removal is repeated and a handler added, a message reaches {[x[0] for x in w.heard]} instead of b and d"
    w.heard.clear()
    w.receive({"type": "custom", "n": 1})
    return "" if w.heard == [("c", {"type": "custom", "n": 1})] else "removing a handler of one type affects another"


def removing_itself(w):
    got = []

    def h(t, a):
        got.append("a")
        w.off(r)
        return UNDEF

    r = w.m.call(w.m.get(w.c, "onMessage"), w.c, ["x", w.m.fn(h)])
    w.on("x", "b")
    w.open()
    w.receive({"type": "x"})
    w.receive({"type": "x"})
    return "" if got == ["a"] and [n for n, _ in w.heard] == ["b", "b"] else f"with a handler which removes itself on two messages, the other is called {len(w.heard)} times and it {len(got)}"


def in_order(w):
    w.on("x", "h")
    w.open()
    for i in range(4):
        w.receive({"type": "x", "n": i})
    got = [x["n"] for _, x in w.heard]
    return "" if got == [0, 1, 2, 3] else f"messages 0 to 3 reach the handler as {got}"


def after_failure(w):
    w.on("x", "h", raises=True)
    w.open()
    for i in range(2):
        try:
            w.receive({"type": "x", "n": i})
        except Throw:
            pass
    got = [x["n"] for _, x in w.heard]
    return "" if got == [0, 1] else f"when a handler fails on the first of two messages it is called with {got}"


def waits(w, times, opts):
    """When connections were made after the first loss."""
    made = len(w.s.made)
    out = []
    for _ in range(times):
        t = w.m.now
        w.wait(100000)
        if len(w.s.made) == made:
            break
        if len(w.s.made) > made + 1:
            return out + ["more than one"]
        made = len(w.s.made)
        out.append(w.s.made[-1].at - t)
        w.close()
    return out


def backoff(w):
    w.on("x", "h")
    w.open()
    w.close()
    got = waits(w, 8, OPTS)
    return "" if got == [100, 200, 350, 350] else f"with interval 100, factor 2, at most 350 and 4 retries, reconnections are tried after {got} instead of [100, 200, 350, 350]"


def reset(w):
    w.on("x", "h")
    w.open()
    w.close()
    for _ in range(3):
        w.wait(1000)
        w.close()
    w.wait(1000)
    if len(w.s.made) != 5:
        return f"{len(w.s.made) - 1} connections are tried in four retries"
    w.open()
    w.close()
    got = waits(w, 8, OPTS)
    return "" if got == [100, 200, 350, 350] else f"after a reconnection succeeded, the next loss is retried after {got} instead of [100, 200, 350, 350]"


def never(w):
    w.on("x", "h")
    w.close()
    w.wait(100000)
    return "" if len(w.s.made) == 1 else "a connection which was never established is tried again"


def no_retries(w):
    w.on("x", "h")
    w.open()
    w.close()
    w.wait(100000)
    return "" if len(w.s.made) == 1 else "a lost connection is retried though no retries are allowed"


def where(w, i=-1):
    u = w.s.made[i].url
    base, _, q = u.partition("?")
    return base, sorted(urllib.parse.parse_qsl(q, keep_blank_values=True))


def location(w):
    w.on("x", "h")
    base = "ws://h:1/reactpy/comp"
    want = (base, [("path", "/here"), ("qs", "?a=1&b=ä x")])
    if where(w) != want:
        return f"the first connection's URL has {where(w)[1]} (at {where(w)[0]})"
    w.open()
    w.close()
    w.s.location.p.update(pathname="/there", search="?c=2")
    w.wait(100)
    if len(w.s.made) < 2 or where(w) != (base, [("path", "/there"), ("qs", "?c=2")]):
        return f"after navigating to /there?c=2, the connection's URL has {where(w)[1]}"
    w.open()
    w.close()
    w.s.location.p.update(pathname="/", search="")
    w.wait(100)
    return "" if len(w.s.made) == 3 and where(w) == (base, [("path", "/")]) else f"after navigating to / without a query, the connection's URL has {where(w)[1]}"


def unlimited_open(w):
    # the queue is empty when the connection opens a second time
    w.send(msg(0))
    w.on("x", "h")
    w.open()
    w.close()
    w.wait(100)
    w.open()
    got = [[x.get("seq") for x in w.sent(i)] for i in range(2)]
    return "" if got == [[0], []] else f"a message sent on the first connection is sent again: {got}"


HISTORIES = [
    ("sent", "before anything is registered", not_before, {}), ("sent", "handlers of several types", once_only, {}),
    ("sent", "messages before the connection is open", queued, {}), ("sent", "messages around a reconnection", queued_again, {}),
    ("sent", "messages during two failed connections", lost_twice, {}), ("sent", "nothing is sent twice", unlimited_open, {}),
    ("received", "handlers of a type", dispatch, {}), ("received", "a handler which removes itself", removing_itself, {}),
    ("received", "order", in_order, {}), ("received", "a handler fails", after_failure, {}),
    ("reconnects", "backoff", backoff, {}), ("reconnects", "reset by success", reset, {}), ("reconnects", "never connected", never, {}),
    ("reconnects", "no retries", no_retries, {"opts": {**OPTS, "maxRetries": 0}}), ("reconnects", "location", location, {"search": "?a=1&b=ä x"}),
]
TEXT = {"sent": "each message is sent once, in order, as soon as there is an open connection", "received": "each message reaches the handlers of its type and no other",
        "reconnects": "lost connections are opened again, after the waits and as often as the options say, for the current location"}


def histories(ck):
    for r, t in TEXT.items():
        ck.rule(r, t, sum(h[0] == r for h in HISTORIES))
    for r, name, f, kw in HISTORIES:
        ck.rule(r, "", 0)
        try:
            bad = ""

            def make(ch):
                w = World(ck, ch, **kw)
                try:
                    x = f(w)
                except Throw as e:
                    x = f"fails: {show(e.value)}"
                used(ck, w.m)
                return w.m, x

            for m, x in paths(make):
                bad = bad or x
                ck.graphs += 1
                ck.states += m.steps
            ck.ob(not bad, name, B if r == "reconnects" else A, bad)
        except Unsup as e:
            ck.rules[r]["floor"] -= 1
            ck.open.append(f"{name}: not followed ({e})")


def mounted(ck):
    ck.rule("mounted", "mounting a component connects to its URL, with the options given", 2)
    for name, kw, props, want, opts in [
        ("defaults", {"search": "?q=1"}, {"pathPrefix": "/reactpy/", "componentPath": "a.b"}, ("ws://h:1/reactpy/a.b", [("path", "/here"), ("qs", "?q=1")]), [750, 937.5]),
        ("options", {"protocol": "https:"}, {"pathPrefix": "/p/", "componentPath": "", "reconnectInterval": 40, "reconnectMaxInterval": 60, "reconnectMaxRetries": 3, "reconnectBackoffMultiplier": 3}, ("wss://h:1/p/", [("path", "/here")]), [40, 60, 60, None]),
        ("zero retries", {}, {"pathPrefix": "/p/", "reconnectMaxRetries": 0}, ("ws://h:1/p/", [("path", "/here")]), [None]),
    ]:
        try:
            s = Scene(ck, (), **kw)
            f = s.load("mount.tsx").value("mountReactPy")
            el = s.b.make("div")
            s.b.body.add(el)
            bad = ""
            try:
                s.m.call(f, UNDEF, [Obj({"mountElement": el, **props})])
                s.b.flush()
                w = World.__new__(World)
                w.s, w.m, w.heard = s, s.m, []
                if len(s.made) != 1:
                    bad = f"{len(s.made)} connections are opened by mounting"
                elif where(w) != want:
                    bad = f"the connection is to {where(w)} instead of {want}"
                else:
                    w.open()
                    w.close()
                    got = [] if opts == [None] else waits(w, len(opts), None)
                    if opts == [None]:
                        w.wait(10**6)
                        got = [s.made[-1].at] if len(s.made) > 1 else [None]
                    got += [None] * (len(opts) - len(got))
                    if got != opts:
                        bad = f"reconnections are tried after {got} instead of {opts}"
                    s.b.flush()
            except Throw as e:
                bad = f"fails: {show(e.value)}"
            used(ck, s.m)
            ck.ob(not bad, name, CLIENT + "mount.tsx", bad)
        except Unsup as e:
            ck.rules["mounted"]["floor"] = 0
            ck.open.append(f"mounted {name}: not followed ({e})")


RULES = [histories, mounted]
