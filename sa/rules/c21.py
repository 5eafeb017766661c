"""C21  A connection delivers every event to its own layout and ends cleanly."""
from ..absint import deep
from ..lib import *
from ..objs import SELF
from .c19 import REG, W as Base, WS, connection, terms
from .c20 import ARGS, MW, SA, SEND

EXPLANATION = """
The websocket class is interpreted through its life (constructor, entering, leaving) and the dispatch
application through its receive loop, with a monitor: which queue belongs to the connection, which
task renders, which message is held.  Each message that is a layout event is put in the connection's
own queue, once, before the next is received; others are not; the loop ends when the client
disconnects.  What the layout sends reaches the connection's send as text; its failures are logged;
the rendering task starts once the connection has been accepted, and is cancelled on every way out.
"""
ASSUMPTIONS = ["asgi_tools' ResponseWebSocket accepts on entering, closes on leaving and hands over what the server sends", "an asyncio.Queue is first in, first out"]
MON = ("S", "monitor")
QUEUE, TASK, UPDATE = ("S", "queue"), ("S", "task"), ("S", "update")
DISPATCH = ("S", "dispatcher")
NONE = ("k", None)
KINDS = ("event", "other message", "message of another type", "message without type", "disconnect", "other")
TYPES = {"event": "layout-event", "message of another type": "layout-update", "other message": "something-else"}
CANCELS = ("cancel",)


def own(v):
    """the attribute of the connection that comes from its base class"""
    return v[0] == "attr" and v[1] == WS


class M(Base):
    def __init__(self, ck, cls, prefix="/reactpy/"):
        super().__init__(ck, cls, prefix)
        self.classes = {**self.classes, DISPATCH: ck.p.cls(MW + ".ComponentDispatchApp")}
        self.problems, self.seen = [], set()

    def get(self, st, n):
        return st.heap.get(("@", MON, n), NONE)

    def set(self, st, n, v):
        st.heap[("@", MON, n)] = v

    def bad(self, rule, msg, i=None):
        self.problems.append((rule, msg, f"{i.func.module.rel}:{i.line}" if i is not None else ""))

    # -- values
    def attr(self, st, v, name):
        if v == DISPATCH and name == "parent":
            return SELF
        return super().attr(st, v, name)

    def item(self, st, v, k):
        if v[0] == "S" and k[0] == "k":
            if v[1] == "received":
                if k[1] == "type":
                    return ("k", {"disconnect": "websocket.disconnect", "other": "websocket.connect"}.get(v[2], "websocket.receive"))
                if k[1] in ("text", "bytes"):
                    return ("S", "text", v[2])
            if v[1] == "message" and k[1] == "type":
                return ("k", TYPES[v[2]]) if v[2] in TYPES else ("missing",)
        return super().item(st, v, k)

    def truth(self, st, v):
        if v[0] == "k":
            return bool(v[1])
        if v[0] == "bound":
            return True
        return super().truth(st, v)

    # -- calls
    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        callee = recv if key == "value" else ai.getattr(st, recv, last) if recv is not None else None
        if key.endswith("asyncio.Queue") or key == "class:asyncio.Queue":
            n = self.get(st, "queues")
            st = st.copy()
            self.set(st, "queues", ("k", (n[1] or 0) + 1))
            self.set(st, "queue size", (args + tuple(v for _, v in kw) or (NONE,))[0])
            return [("v", QUEUE, st)]
        if key == "class:" + MW + ".ReactPyWebsocket":
            given = {**dict(zip(("scope", "receive", "send", "parent"), args)), **dict(kw)}
            if tuple(given.get(k) for k in ("scope", "receive", "send")) != ARGS or given.get("parent") != SELF:
                self.bad("loop", "the connection is not made from the request's scope, receive and send", i)
            return [("v", WS)]
        if last in ("create_task", "ensure_future") and args and callee is None or last == "create_task" and args:
            st = st.copy()
            v = args[0]
            n = self.get(st, "tasks")[1] or 0
            if v[0] == "awaitable" and len(v) > 3 and v[3] == "put":
                self.bad("loop", "the event is put by a task of its own: events may overtake each other, and nothing holds back a client", i)
            if v[0] == "awaitable" and len(v) > 3 and v[3] == "send":
                self.bad("serve", "an update is sent by a task of its own: updates may overtake each other and failures are lost", i)
            self.set(st, "tasks", ("k", min(n + 1, 2)))
            if self.get(st, "accepted") == NONE:
                self.set(st, "early", ("k", True))
            return [("v", TASK, st)]
        if callee is not None and callee[0] == "attr":
            obj, name = callee[1], callee[2]
            if obj == TASK and name in CANCELS:
                st = st.copy()
                self.set(st, "cancelled", ("k", True))
                return [("v", NONE, st)]
            if obj == QUEUE:
                return self.queue(st, i, name, args)
            if obj == WS and name == "receive":
                out = []
                for k in KINDS:
                    ns = st.copy()
                    out.append(("v", ("awaitable", ("S", "received", k), ("coro", i.func.qual, i.id, k), "receive", k), ns))
                return out + [("raise", "Exception")]
            if obj == WS and name in ("accept", "close"):
                return self.base(st, "__aenter__" if name == "accept" else "__aexit__", i)
        if key.startswith("super.") or recv is not None and recv[0] == "C" and recv[1] == "super":
            if last in ("__aenter__", "__aexit__"):
                return self.base(st, last, i)
        if last == "get" and recv is not None and recv[:2] == ("S", "message") and args and args[0] == ("k", "type"):
            v = self.item(st, recv, args[0])
            return [("v", v if v != ("missing",) else args[1] if len(args) > 1 else NONE)]
        if last == "loads" and args:
            k = [t for t in terms(args[0]) if t[:2] == ("S", "text")]
            return [("v", ("S", "message", k[0][2])), ("raise", "Exception")] if k else None
        if last == "to_thread" and args and self.logs(args[0]):
            st = st.copy()
            self.set(st, "logged", ("k", True))
            return [("v", self.coro(st, NONE, i), st)]
        if callee is not None and self.logs(callee):
            st = st.copy()
            self.set(st, "logged", ("k", True))
            return [("v", NONE, st)]
        if callee in (SEND, ("attr", WS, "_send"), ("attr", WS, "send")):
            return [("v", ("awaitable", NONE, ("coro", i.func.qual, i.id), "send", deep(st, args[0], 24) if args else NONE, callee[-1])), ("raise", "Exception")]
        return super().ext(ai, st, i, key, recv, args, kw)

    def logs(self, v):
        return v[0] == "attr" and v[2] in ("error", "exception", "critical") or v[0] == "S" and "logger" in repr(v)

    def base(self, st, name, i):
        st = st.copy()
        what = "accepted" if name == "__aenter__" else "closed"
        fs = st.copy()
        return [("v", ("awaitable", WS if what == "accepted" else NONE, ("coro", i.func.qual, i.id), what), st), ("raise", "Exception", NONE, fs)]

    def queue(self, st, i, name, args):
        if name == "put":
            st = st.copy()
            return [("v", ("awaitable", NONE, ("coro", i.func.qual, i.id), "put", *args[:1]), st)]
        if name == "put_nowait":
            self.bad("loop", "an event is lost when the queue is full", i)
            self.put(st, args, i)
            return [("v", NONE), ("raise", "asyncio.QueueFull")]
        if name == "get":
            return [("v", ("awaitable", ("S", "from the queue"), ("coro", i.func.qual, i.id), "get"))]
        return None

    def put(self, st, args, i):
        self.seen.add("put")
        k = self.get(st, "held")
        if k == NONE or k[1] not in ("event",):
            self.bad("loop", "an event is put twice" if args[:1] == (("S", "message", "event"),) else "something which is not an event reaches the layout", i)
        elif args[:1] != (("S", "message", "event"),):
            self.bad("loop", "what is put in the queue is not the message received", i)
        self.set(st, "held", NONE)

    def awaited(self, st, v, i):
        r = super().awaited(st, v, i)
        if r is not None or v[0] != "awaitable" or len(v) < 4:
            return r
        what = v[3]
        if what == "receive":
            self.seen.add("receive")
            if self.get(st, "held") == ("k", "event"):
                self.bad("loop", "an event is not delivered before the next is received", i)
            if self.get(st, "held") == ("k", "disconnect"):
                self.bad("loop", "the loop goes on after the client has disconnected", i)
            if self.get(st, "entered") == NONE:
                self.bad("loop", "a message is received before the connection is entered", i)
            self.set(st, "held", ("k", v[4]))
        elif what == "put":
            self.put(st, v[4:5], i)
        elif what in ("accepted", "closed", "get"):
            self.set(st, what, ("k", True))
        elif what == "send":
            fs = st.copy()
            self.set(st, "sent", ("T", v[4], ("k", v[5]), self.get(st, "sent")))
            return [("v", NONE), ("raise", "Exception", NONE, fs)]
        return None

    def entered(self, st, cm, i):
        if cm == WS:
            self.set(st, "entered", ("k", True))
            return WS
        return super().entered(st, cm, i)

    def exited(self, st, cm, i):
        if cm == WS:
            self.set(st, "left", ("k", True))


def held(o, n):
    return o.st.heap.get(("@", MON, n), NONE)


def model(ck, cls):
    w, st = connection(ck, cls)
    m = M(ck, cls)
    return m, st


def swallows(ck, f, opq):
    """a way from a cancellation to a normal end"""
    g = flow(ck, f, opq).g
    starts = [s for i in g.live() for s, lab in i.succ if lab == "c"]
    seen, todo = set(starts), list(starts)
    while todo:
        n = todo.pop()
        if n == g.exit:
            return True
        for s, lab in g.instrs[n].succ:
            if s not in seen and lab in ("n", "t", "f", "e", "c", None):
                seen.add(s)
                todo.append(s)
    return False


def run(ck):
    P = ck.p
    wsc = P.cls(MW + ".ReactPyWebsocket")
    cls = P.cls(SA + ".ReactPy")
    init, enter, leave = (P.method(wsc, n) for n in ("__init__", "__aenter__", "__aexit__"))
    call = P.method(P.cls(MW + ".ComponentDispatchApp"), "__call__")
    ck.need(init and enter and leave and call, "the life of a connection")
    loop(ck, cls, call)
    life(ck, cls, init, enter, leave)


def loop(ck, cls, call):
    ck.rule("loop", "each event received is put in the connection's queue once, in order; the loop ends with the connection", 3)
    m, st = model(ck, cls)
    # the connection as its constructor leaves it
    made = [o for o in m.interpret(ck.p.method(m.classes[WS], "__init__"), WS, ARGS, (("parent", SELF),), st) or () if o.kind == "exit"]
    ck.need(made, "the constructor of a connection")
    outs = m.interpret(call, DISPATCH, ARGS, (), made[0].st) or []
    for rule, msg, where in m.problems[:1]:
        ck.ob(False, f"{name_of(call)}: events", where, msg)
    ck.ob(bool(m.problems) or m.seen >= {"receive", "put"}, f"{name_of(call)}: events", call.loc(), "events are not received, or not put in the queue of the connection")
    bad = None
    for o in outs:
        if o.kind == "exit":
            if held(o, "held") != ("k", "disconnect"):
                bad = bad or f"the loop ends although the client has not disconnected ({held(o, 'held')[1]})"
            if m.unawaited(o):
                bad = bad or "a coroutine is not awaited"
        if held(o, "entered") != NONE and held(o, "left") == NONE and held(o, "closed") == NONE:
            bad = bad or "the connection is not left"
    ck.ob(not bad and any(o.kind == "exit" for o in outs), f"{name_of(call)}: end", call.loc(), bad or "the loop never ends")
    ck.ob(not swallows(ck, call, m.opq), f"{name_of(call)}: cancellation", call.loc(), "a cancellation is swallowed")


def life(ck, cls, init, enter, leave):
    P = ck.p
    m, st = model(ck, cls)
    made = [o for o in m.interpret(init, WS, ARGS, (("parent", SELF),), st) or () if o.kind == "exit"]
    ck.need(made, "the constructor of a connection")
    ck.rule("queue", "each connection has its own bounded queue", 1)
    bad = None
    for o in made:
        if held(o, "queues") != ("k", 1):
            bad = "the queue is not made for the connection"
        elif "REACTPY_MAX_QUEUE_SIZE" not in repr(held(o, "queue size")):
            bad = "the queue has not the configured size"
    ck.ob(not bad, name_of(init), init.loc(), bad or "")
    m.path = "/reactpy/"
    s = made[0].st.copy()
    s.ev = ()
    outs = m.interpret(enter, WS, (), (), s) or []
    ck.rule("start", "entering starts one rendering task, after the connection has been accepted", 1)
    bad = None if any(o.kind == "exit" for o in outs) else "a connection cannot be entered"
    after, served = None, None
    for o in outs:
        if o.kind == "exit":
            after = o
            if held(o, "tasks") != ("k", 1):
                bad = bad or "no single rendering task is started"
            if held(o, "accepted") == NONE:
                bad = bad or "the connection is not accepted"
            if o.value != WS:
                bad = bad or "entering does not give the connection"
        if held(o, "early") != NONE:
            bad = bad or "rendering starts before the connection is accepted"
        served = served or next((e for e in o.st.ev if e[0] == "served"), None)
    ck.ob(not bad, name_of(enter), enter.loc(), bad or "")
    ck.rule("stop", "leaving cancels the rendering task, whatever happens", 2)
    if after is None:
        ck.ob(False, name_of(leave), leave.loc(), "not reached")
    else:
        for what, s in (("after entering", after.st), ("not entered", made[0].st)):
            s = s.copy()
            s.ev = ()
            for k in ("logged", "cancelled", "closed"):
                s.heap.pop(("@", MON, k), None)
            outs2 = m.interpret(leave, WS, (NONE, NONE, NONE), (), s) or []
            bad = None if any(o.kind == "exit" for o in outs2) else "a connection cannot be left"
            for o in outs2:
                if what == "after entering" and held(o, "cancelled") == NONE:
                    bad = bad or "the rendering task is not cancelled"
                if o.kind == "exit" and held(o, "closed") == NONE:
                    bad = bad or "the connection is not closed"
                if o.kind == "exit" and o.value not in (NONE, ("k", False)):
                    bad = bad or "leaving may swallow an exception"
            ck.ob(not bad, f"{name_of(leave)}, {what}", leave.loc(), bad or "")
    serve(ck, m, enter, outs, served, after)


def serve(ck, m, enter, outs, served, after):
    ck.rule("serve", "the layout sends with the connection and receives from its queue; failures are logged", 3)
    P = ck.p
    ck.need(served, "a layout which is served")
    args = list(served[1]) + [v for _, v in served[2]]
    s = after.st.copy() if after else outs[0].st.copy()
    for k in ("sent", "get", "logged"):
        s.heap.pop(("@", MON, k), None)
    s.ev = ()
    m.problems.clear()

    def use(v, a):
        """outcomes of awaiting v(*a)"""
        if v == ("attr", QUEUE, "get"):
            return "get"
        t = m.target(s, v)
        return (m.interpret(t[0], t[1], a, (), s), t[0]) if t else None

    send, recv = (args[1:3] + [NONE, NONE])[:2]
    r = use(recv, ())
    ok = r == "get" or r is not None and r[0] and all(o.value == ("S", "from the queue") and held(o, "get") != NONE for o in r[0] if o.kind == "exit")
    ck.ob(bool(ok), "receiving", enter.loc(), "the layout does not receive from the connection's own queue")
    r = use(send, (UPDATE,))
    bad = None
    if r is None or r == "get" or not r[0] or not any(o.kind == "exit" for o in r[0]):
        bad = "what the layout sends does not reach the connection"
    else:
        for o in r[0]:
            if o.kind != "exit":
                continue
            v = held(o, "sent")
            if v == NONE or v[3] != NONE:
                bad = bad or "an update is not sent, exactly once"
                continue
            d = dict((k[1], x) for k, x in v[1][1]) if v[1][0] == "dict" else None
            text = v[1] if d is None and v[2] == ("k", "send") else (d or {}).get("text")
            if d is not None and d.get("type") != ("k", "websocket.send"):
                bad = bad or "not a websocket.send message"
            dumps = [t for t in terms(text or ()) if t and t[0] == "C" and str(t[1]).endswith("dumps")]
            if not dumps or not any(t[2][:1] == (UPDATE,) for t in dumps):
                bad = bad or "what is sent is not the update as JSON text"
            elif str(dumps[0][1]).startswith("orjson") and "decode" not in repr(text) and "str" not in repr(text[:2]):
                bad = bad or "what is sent is not text"
            for t in terms(text or ()):
                if t and t[0] == "C" and str(t[1]).rsplit(".", 1)[-1] in ("decode", "encode", "str", "bytes") and len(t) > 3:
                    code = next((x for x in [*t[2][1:], *[v for k, v in t[3] if k == "encoding"]] if x[0] == "k" and isinstance(x[1], str)), None)
                    if code is not None and code[1].lower().replace("_", "-") not in ("utf-8", "utf8"):
                        bad = bad or f"the text which is sent is decoded as {code[1]}"
    bad = bad or next((msg for rule, msg, _ in m.problems if rule == "serve"), None)
    ck.ob(not bad, "sending", r[1].loc() if isinstance(r, tuple) else enter.loc(), bad or "")
    # failures of the layout; the coroutine was interpreted when it was made
    d = [f for f in P.funcs.values() if f.module.name == MW and isinstance(f.node, ast.AsyncFunctionDef) and any(isinstance(n, ast.Call) and resolve_func(P, f, n.func) is P.func("reactpy.core.serve.serve_layout") for n in ast.walk(f.node))]
    ck.need(d, "the function which serves a layout")
    for f in d:
        outs = m.interpret(f, WS, (), (), s) if f.cls else []
        bad = None
        for o in outs or ():
            if o.kind == "exit" and held(o, "logged") == NONE and (("failed",) in o.st.ev or not o.st.ev):
                bad = "a failure is neither logged nor raised"
        ck.ob(not bad and not swallows(ck, f, m.opq), f"{name_of(f)}: failures", f.loc(), bad or "a cancellation is swallowed")


RULES = [run]
