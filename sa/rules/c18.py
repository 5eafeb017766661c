"""C18  The serve loop sends each update once, in order, and delivers each event at once."""
from types import SimpleNamespace

from ..absint import Abs, Closure, Model
from ..lib import *

EXPLANATION = """
serve_layout is interpreted with a monitor; every task which it starts is interpreted in turn, each
call of render, send and receive both succeeding and raising. The monitor holds the update not yet
sent and the event not yet delivered: a second render or receive while one is held is a loss, sending
anything else is a mix-up, waiting for a handler delays the next event, going on (or ending quietly) after a failure hides
it. Tasks are started in a task group which is opened inside, and closed before, the layout.
"""
ASSUMPTIONS = ["a task group cancels and waits for its tasks when one of them fails", "render, send and receive are those given"]
SERVE = "reactpy.core.serve.serve_layout"
L, SEND, RECV = ("S", "layout"), ("S", "send"), ("S", "recv")
UPDATE, EVENT = ("S", "update"), ("S", "event")
MON = ("S", "monitor")
GROUPS = ("anyio.create_task_group", "asyncio.TaskGroup", "class:asyncio.TaskGroup")


class M(Model):
    exact = True

    def __init__(self, ck, opq, depth=0):
        self.ck, self.opq, self.depth = ck, opq, depth
        self.problems, self.seen, self.tasks, self.where = [], set(), [], {}

    def truth(self, st, v):
        if v[0] in ("S", "F") and v[1] not in ("exception",):
            return True
        return None

    # -- monitor
    def get(self, st, n):
        return st.heap.get(("@", MON, n), ("k", None))

    def set(self, st, n, v):
        st.heap[("@", MON, n)] = v

    def bad(self, msg, i):
        self.problems.append((msg, f"{i.func.module.rel}:{i.line}"))

    def action(self, st, act, args, i):
        self.seen.add(act)
        if self.get(st, "failed") != ("k", None):
            self.bad(f"the loop goes on ({act}) after a failure", i)
        none = ("k", None)
        if act == "render":
            if self.get(st, "update") != none:
                self.bad("an update is not sent before the next one is rendered", i)
            self.set(st, "update", UPDATE)
        elif act == "send":
            if self.get(st, "update") == none:
                self.bad("an update is sent twice, or something is sent which was not rendered", i)
            elif args[:1] != (UPDATE,):
                self.bad("what is sent is not the update which was rendered", i)
            self.set(st, "update", none)
        elif act == "recv":
            if self.get(st, "event") != none:
                self.bad("an event is not delivered before the next one is received", i)
            self.set(st, "event", EVENT)
        elif act == "deliver":
            if self.get(st, "event") == none:
                self.bad("an event is delivered twice, or something is delivered which was not received", i)
            elif args[:1] != (EVENT,):
                self.bad("what is delivered is not the event received", i)
            self.set(st, "event", none)

    def kind(self, key, recv):
        v = recv if key == "value" else ("attr", recv, key.rsplit(".", 1)[-1]) if recv is not None else None
        if v is None:
            return None
        if v == SEND:
            return "send"
        if v == RECV:
            return "recv"
        if v[0] == "attr" and v[1] == L and v[2] in ("render", "deliver"):
            return v[2]
        return None

    def call(self, ai, st, i, key, recv, args, kw):
        k = self.kind(key, recv)
        if k:
            res = {"render": UPDATE, "recv": EVENT}.get(k, ("k", None))
            fs = st.copy()
            self.set(fs, "failed", ("k", True))
            return [("v", ("awaitable", res, k, tuple(args))), ("raise", "Exception", ("k", None), fs)]
        last = key.rsplit(".", 1)[-1]
        if last in ("start_soon", "create_task", "ensure_future") and args:
            self.start(ai, st, i, recv, args, last)
            return [("v", ("S", "task"))]
        return None

    def awaited(self, st, v, i):
        if v[0] == "awaitable" and len(v) > 3:
            if v[2] == "deliver" and not self.depth:
                self.bad("the next event waits for the handler of this one", i)
            self.action(st, v[2], v[3], i)

    # -- contexts
    def entered(self, st, cm, i):
        s = self.get(st, "open")
        self.set(st, "open", ("T", *(s[1:] if s[0] == "T" else ()), cm))
        if cm == L:
            return L
        return None

    def exited(self, st, cm, i):
        s = self.get(st, "open")
        xs = list(s[1:]) if s[0] == "T" else []
        if cm in xs:
            if cm == L and any(self.group(x) for x in xs[xs.index(cm):]):
                self.bad("the layout is closed before its loops have ended", i)
            xs.remove(cm)
        self.set(st, "open", ("T", *xs))

    def group(self, v):
        return v[0] == "C" and v[1] in GROUPS

    def start(self, ai, st, i, recv, args, how):
        s = self.get(st, "open")
        xs = list(s[1:]) if s[0] == "T" else []
        cm = recv[2][0] if recv and recv[0] == "C" and recv[1] == "enter" else recv
        if cm is None or not self.group(cm):
            self.bad("a task is started outside the task group", i)
        elif cm not in xs or L not in xs or xs.index(L) > xs.index(cm):
            self.bad("a task is started while the layout or the task group is not open", i)
        f, rest = args[0], tuple(args[1:])
        if f[0] == "awaitable" and len(f) > 3:
            f, rest = ("attr", L, f[2]) if f[2] in ("render", "deliver") else ("S", f[2]), f[3]
        while f[0] == "C" and f[1] == "functools.partial":
            f, rest = f[2][0], f[2][1:] + rest
        if f[0] == "C" and f[1] in ai.P.funcs:
            f, rest = ("F", f[1]), f[2]
        if f == ("attr", L, "deliver"):
            self.action(st, "deliver", rest, i)
            return
        if f[0] == "F" and f[1] in ai.P.funcs:
            if self.get(st, "event") != ("k", None) and EVENT in rest:
                self.seen.add("deliver")
                self.helper(st, f[1], rest, i)
                return
            if not any(t[0] == f[1] and t[1] == rest for t in self.tasks):
                self.tasks.append((f[1], rest, st.copy(), ai.params, i))
            return
        self.bad("what a task runs is not recognised", i)

    def helper(self, st, q, rest, i):
        """a task which delivers the event"""
        m = M(self.ck, self.opq, self.depth + 1)
        f = self.ck.p.funcs[q]
        ai = Abs(flow(self.ck, f, self.opq), dict(zip(f.params(), rest)), Closure(m, SimpleNamespace(st=st), {}), heap=dict(st.heap))
        for o in ai.ended:
            if o.kind == "exit" and o.st.heap.get(("@", MON, "event")) != ("k", None):
                self.bad("an event is not delivered", i)
        self.problems += m.problems
        self.set(st, "event", ("k", None))


def run(ck):
    P = ck.p
    f = P.func(SERVE)
    opq = {q for q, x in P.funcs.items() if x.module is not f.module}
    ps = f.params()
    ck.need(len(ps) >= 3, "layout, send and receive of the serve loop")
    ck.rule("update", "each update rendered is sent once, before the next is rendered", 1)
    ck.rule("event", "each event received is delivered once, without waiting for its handler", 1)
    ck.rule("failure", "a failure ends the loop it happens in, with its exception", 2)
    ck.rule("scope", "the loops run in one task group inside the layout", 1)
    m = M(ck, opq)
    ai = Abs(flow(ck, f, opq), dict(zip(ps, (L, SEND, RECV))), m)
    ck.states += ai.states
    parts = [(f, m, ai)]
    for q, rest, st, params, i in m.tasks:
        t = P.funcs[q]
        mm = M(ck, opq)
        names = [p for p in t.params() if p not in ("self", "cls")]
        a = Abs(flow(ck, t, opq), dict(zip(names, rest)), Closure(mm, SimpleNamespace(st=st), params), heap=dict(st.heap))
        ck.states += a.states
        parts.append((t, mm, a))
        ck.need(len(parts) < 8, "a bounded number of loops")
    by = {}
    for t, mm, a in parts:
        for act in mm.seen:
            by.setdefault(act, []).append((t, mm))
    for rule, acts, what in (("update", ("render", "send"), "updates"), ("event", ("recv", "deliver"), "events")):
        for act in acts:
            n = len(by.get(act, ()))
            ck.rule(rule, "", 0)
            ck.ob(n == 1, f"{name_of(f)}: {act}", f.loc(), f"no loop does {act}" if not n else f"{n} loops do {act}")
    for t, mm, a in parts:
        bads = {}
        for msg, where in mm.problems:
            r = "update" if "update" in msg or "sent" in msg else "event" if "event" in msg or "delivered" in msg else "scope" if "group" in msg or "closed" in msg else "failure"
            bads.setdefault(r, (msg, where))
        for o in a.ended:
            failed = o.st.heap.get(("@", MON, "failed"), ("k", None)) != ("k", None)
            if o.kind == "exit" and failed:
                bads.setdefault("failure", ("a failure is swallowed", t.loc()))
            elif o.kind == "exit" and mm.seen:
                bads.setdefault("failure", ("the loop ends", t.loc()))
        for r in ("update", "event", "failure", "scope"):
            ck.rule(r, "", 0)
            b = bads.get(r)
            ck.ob(not b, f"{name_of(t)}", b[1] if b else t.loc(), b[0] if b else "")


RULES = [run]
