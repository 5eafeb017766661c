"""Abstract interpretation of the layout engine over the shapes of component trees.

Components, texts, attribute values and handlers are symbols, of which only kind, key and function
are known; life cycle hooks and queues are models which record what is done with them. The methods
of the layout are interpreted from its public methods on, whatever they are made of."""
from __future__ import annotations

import ast
import itertools
import multiprocessing
import os
from types import SimpleNamespace

from .absint import State, deep
from .flow import StateCap
from .lib import LAYOUT, name_of
from .objs import SELF, World
from .project import Func

NONE = ("k", None)
LM = "reactpy.core.layout"
COUNT = ("@", ("S", "counter"), "n")
QUEUE = ("S", "render queue")


class _Closed:
    def __contains__(self, v):
        return isinstance(v, tuple) and len(v) > 1 and (v == SELF or v[0] == "S" and v[1] in ("obj", "hook", "comp"))


class Shape:
    """part of a tree: what an element or component has"""

    n = 0

    def __init__(self, kind, name="", key=None, kids=(), on=(), fn=None, fails=False, attrs=()):
        self.kind, self.name, self.key, self.kids, self.on, self.fn, self.fails, self.attrs = kind, name, key, tuple(kids), tuple(on), fn, fails, tuple(attrs)
        Shape.n += 1
        self.id = Shape.n

    def handlers(self):
        """(event, name of its handler, target)"""
        for e in self.on:
            ev, _, target = e.partition("@")
            ev, _, own = ev.partition("=")
            yield ev, own or f"{self.name}{self.id}.{ev}", target or None

    def __repr__(self):
        k = "" if self.key is None else f"#{self.key!r}"
        o = "".join(f"!{x}" for x in self.on)
        f = "?" if self.fails else ""
        return f"{self.name}{k}{o}{f}" + (f"[{', '.join(map(repr, self.kids))}]" if self.kids else "")


def E(name, *kids, key=None, on=(), attrs=()):
    return Shape("element", name, key, kids, on, attrs=attrs)


def C(fn, *kids, key=None, fails=False):
    """a component whose function returns the first of these, in later renders of the tree the others"""
    return Shape("component", fn, key, kids, fn=fn, fails=fails)


def T(name):
    return Shape("text", name)


N = Shape("none", "None")


class Tree(World):
    closed = _Closed()
    distinct = True
    escapes = True
    collect = False
    tables = True
    maxlist = 200
    maxdepth = 60
    debug = False
    requests = False  # whether it is about the queue of requests
    current = None  # the task which runs
    parallel = False  # whether renders are tasks
    version = 0
    cuts = cut = None  # at which place where it waits a task is cancelled
    late = False  # whether state changes while tasks are cancelled and components unmounted

    def __init__(self, ck):
        super().__init__(ck, (LM,), {SELF: ck.p.cls(LAYOUT)})
        self.opq = {q for q, f in self.P.funcs.items() if f.module.name != LM or f.cls}
        self.comps = {}
        self.ids = set()
        self.lambdas = {}
        self.pending, self.failing = [], {}  # events of the queue at hand, which of them have failing handlers

    # ---- shapes as values
    def value(self, st, s):
        if s.kind == "none":
            return NONE
        if s.kind == "text":
            return ("S", "text", s.name)
        if s.kind == "component":
            v = ("S", "comp", self.fresh(st))
            self.comps[v] = s
            return v
        d = [("tagName", ("k", s.name))]
        at = [(a, ("S", "attribute", a)) for a in s.attrs]
        if s.key is not None:
            at.append(("key", ("k", s.key)))
        if at:
            d.append(("attributes", self.obj(st, "dict", tuple((("k", k), v) for k, v in at))))
        if s.kids:
            d.append(("children", self.obj(st, "list", tuple(self.value(st, k) for k in s.kids))))
        if s.on:
            hs = [(("k", ev), ("S", "handler", own, ("k", target))) for ev, own, target in s.handlers()]
            d.append(("eventHandlers", self.obj(st, "dict", tuple(hs))))
        return self.obj(st, "dict", tuple((("k", k), v) for k, v in d))

    def fresh(self, st):
        n = st.heap.get(COUNT, ("k", 0))[1] + 1
        st.heap[COUNT] = ("k", n)
        return n

    def obj(self, st, kind, items):
        o = ("O", "model", self.fresh(st) + 100)
        st.heap[o] = (kind, items)
        return o

    # ---- values
    def name(self, st, op):
        if op[0] == "g":
            mod, _, n = (self.P.resolve_dotted(op[1]) or op[1]).rpartition(".")
            m = self.P.modules.get(mod)
            vs = m.assigns.get(n) if m else None
            if vs and len(vs) == 1 and isinstance(vs[0], ast.Call) and len(vs[0].args) == 1 and isinstance(vs[0].args[0], ast.Constant) and isinstance(vs[0].func, ast.Name) and self.newtype(f"{mod}.{vs[0].func.id}"):
                return ("k", vs[0].args[0].value)
        return super().name(st, op)

    def cls_of(self, st, v):
        if v[:2] == ("S", "obj"):
            return self.P.classes.get(v[2])
        return super().cls_of(st, v)

    def attr(self, st, v, name):
        if v[0] == "S":
            if v[1] == "comp":
                s = self.comps[v]
                if name == "key":
                    return ("k", s.key)
                if name == "type":
                    return ("S", "function", s.fn)
            if v[1] == "handler":
                if name == "function":
                    return ("S", "handled by", v[2])
                return v[3] if name == "target" else NONE if name in ("debounce", "throttle") else ("S", "option", name, v[2])
            if v[1] == "uuid" and name in ("hex", "int"):
                return ("k", v[2])
            if v[1] == "function" and name in ("__name__", "__qualname__", "__module__"):
                return ("k", "the name all of them have")
        if v[0] == "g" and v[1].endswith("REACTPY_DEBUG") and name == "current":
            return ("k", self.debug)
        if v[0] == "g" and v[1].rsplit(".", 1)[-1] in ("REACTPY_ASYNC_RENDERING", "REACTPY_CHECK_VDOM_SPEC") and name == "current":
            return ("k", self.parallel and v[1].endswith("ASYNC_RENDERING"))
        return super().attr(st, v, name)

    def truth(self, st, v):
        if v[0] == "S" and v[1] in ("obj", "comp", "hook", "handler", "weak", "uuid", "function", "token", "exits", "permits", "error", "events", "datum", "render queue", "task", "text"):
            return True
        if v[0] == "op" and v[1] == "Is" and v[3] == NONE and v[2][0] == "S" and v[2][1] in ("obj", "comp", "hook", "handler", "weak", "function", "task", "text"):
            return False
        if v[0] == "op" and v[1] in ("Eq", "Is") and all(x[0] == "S" and x[1] in ("function", "obj", "comp", "hook", "task") for x in v[2:4]):
            return v[2] == v[3]
        if v[0] == "op" and v[1] in ("Eq", "Is") and {v[2][0], v[3][0]} == {"S", "k"} and any(x[0] == "S" and x[1] in ("task", "obj", "hook", "comp") for x in v[2:4]):
            return False
        return super().truth(st, v)

    def text_of(self, v):
        return v[0] == "S" and v[1] == "text" or v[0] == "str" and len(v) == 2 and self.text_of(v[1])

    def types(self, v):
        ts = v[1:] if v[0] == "T" else v[2:4] if v[0] == "op" and v[1] == "BitOr" else (v,)
        return {x[1].rsplit(".", 1)[-1] for x in ts if x[0] in ("g", "b", "class")}

    def newtype(self, dotted):
        mod, _, n = (self.P.resolve_dotted(dotted) or dotted).rpartition(".")
        m = self.P.modules.get(mod)
        vs = m.assigns.get(n) if m else None
        return bool(vs) and all(isinstance(v, ast.Call) and ast.unparse(v.func).endswith("NewType") for v in vs)

    # ---- calls
    def note(self, st, *e):
        st = st.copy()
        st.ev = st.ev + (e,)
        return st

    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        d = dict(kw)
        if key.startswith("class:"):
            c = self.P.classes.get(key[6:])
            if c is not None and self.P.method(c, "get") is not None and self.P.method(c, "put") is not None and c.module.name == LM:
                return [("v", QUEUE)]
            if c is not None and c.name == "Ref":
                st = st.copy()
                o = ("S", "obj", c.qual, self.fresh(st))
                if args or "value" in d or "initial_value" in d:
                    st.heap[("@", o, "current")] = args[0] if args else next(iter(d.values()))
                return [("v", o, st)]
            if c is not None and c.name == "LifeCycleHook":
                st = st.copy()
                o = ("S", "hook", self.fresh(st))
                st.heap[("@", o, "schedule")] = self.captured(ai, st, args[0] if args else next(iter(d.values()), NONE))
                return [("v", o, st)]
            init = self.P.method(c, "__init__") if c is not None else None
            if init is not None and self.interpretable(init):
                st = st.copy()
                o = ("S", "obj", c.qual, self.fresh(st))
                return [("v", o, r[2]) if r[0] == "v" else r for r in self.run(ai, st, i, init, o, args, kw)]
        if recv is not None and recv[0] == "S":
            r = self.on(ai, st, i, recv, last, args, kw)
            if r is not None:
                return r
        if key == "value" and recv is not None and recv[0] == "g" and len(args) == 1 and self.newtype(recv[1]):
            return [("v", args[0])]
        if recv is not None and (recv[:2] == ("S", "handled by") or recv[:2] == ("S", "handler") and last == "function"):
            n = st.heap.get(("@", QUEUE, "taken"), ("k", 0))[1]
            known = [c[1] for x, t in st.heap.items() if x[0] == "@" and x[1] == SELF and isinstance(c := st.heap.get(t), tuple) and c[0] == "dict" and c[1] and all(v[0] == "k" and isinstance(v[1], int) for _, v in c[1])]
            ns = self.note(st, "handled", recv[2], deep(st, args[0], 9) if args else NONE, known[0] if len(known) == 1 else ())
            return [("v", ("failing", self.failing[n - 1], NONE) if n - 1 in self.failing else self.coro(ns, NONE, i), ns)]
        if key == "value" and recv is not None and recv[:2] == ("S", "weak"):
            return [("v", recv[2])]
        if key in ("weakref.ref", "class:weakref.ref") and args:
            return [("v", ("S", "weak", args[0]))]
        if last == "uuid4":
            st = st.copy()
            n = f"id{self.fresh(st)}"
            self.ids.add(n)
            return [("v", ("S", "uuid", n), st)]
        if last in ("Semaphore", "BoundedSemaphore", "Event", "Condition") and key.removeprefix("class:").split(".")[0] in ("asyncio", "anyio", "threading"):
            st = st.copy()
            o = ("S", "permits", self.fresh(st))
            st.heap[("@", o, "n")] = args[0] if args and args[0][0] == "k" else ("k", 0)
            return [("v", o, st)]
        if last == "Queue" and i.a["callee"][0] != "repo":
            st = st.copy()
            return [("v", ("S", "events", self.fresh(st)), st)]
        if key in ("asyncio.sleep", "anyio.sleep"):
            return [("v", ("awaitable", NONE))]
        if last in ("create_task", "ensure_future"):
            if self.parallel:
                st = st.copy()
                t = ("S", "task", self.fresh(st))
                st.heap[("@", t, "result")] = args[0]
                st.heap[("@", t, "coroutine")] = args[0]
                return [("v", t, self.note(st, "task", t))]
            return [("v", ("S", "task", 0), self.note(st, "task", args[0] if args else NONE))]
        if last == "current_task":
            return [("v", self.current or ("S", "task", "current"))]
        if last in ("gather", "wait") and self.parallel and key.startswith("asyncio"):
            xs = [y for x in args for y in (ai.spread(st, x) if last == "wait" else [x])]
            ns, out = st.copy(), []
            for x in xs:
                if x[:2] == ("S", "task"):
                    r = ns.heap.get(("@", x, "result"), ("awaitable", NONE))
                    ns = self.note(ns, "awaited", x)
                    ns.heap[("@", x, "over")] = ("k", True)
                    if r[0] == "failing" and last == "gather" and d.get("return_exceptions") != ("k", True):
                        return [("v", r, ns)]
                    out.append(r[1] if r[0] == "awaitable" else NONE)
            return [("v", ("awaitable", ("T", *out)), ns)]
        if last == "AsyncExitStack":
            return [("v", ("S", "exits"))]
        if key in ("isinstance",) and len(args) == 2:
            ts, v = self.types(args[1]), args[0]
            if v[:2] == ("S", "comp"):
                return [("v", ("k", bool(ts & {"Component", "ComponentType", "ComponentProtocol"})))]
            if self.text_of(v):
                return [("v", ("k", "str" in ts))]
            if v[:2] == ("S", "obj"):
                c = self.P.classes.get(v[2])
                return [("v", ("k", c is not None and c.name in ts))]
            if v == NONE:
                return [("v", ("k", "NoneType" in ts))]
            if v[:2] == ("S", "datum"):
                return [("v", ("k", False))]
        if key == "hasattr" and len(args) == 2 and args[0][:2] == ("S", "comp"):
            return [("v", ("k", args[1][1] in ("render", "key", "type")))]
        if key == "type" and args and args[0][0] == "S":
            return [("v", ("S", "type of", args[0][1]))]
        if key == "str" and args and self.text_of(args[0]):
            return [("v", args[0])]
        if last in ("get_running_loop", "get_event_loop"):
            return [("v", ("S", "loop"))]
        if last == "Counter" and len(args) == 1:
            n = {}
            for x in ai.spread(st, args[0]):
                n[x] = n.get(x, 0) + 1
            return [("v", ("new", "dict", tuple((x, ("k", c)) for x, c in n.items())))]
        if key in ("collections.deque", "class:collections.deque"):
            return [("v", ("new", "list", ()))]
        return super().ext(ai, st, i, key, recv, args, kw)

    def run(self, ai, st, i, f, me, args, kw):
        self.frames.append((ai, st))
        try:
            return self.results(f, self.interpret(f, me, args, kw, st), st, i)
        finally:
            self.frames.pop()

    def on(self, ai, st, i, o, m, args, kw):
        """a method of an object of the model"""
        k = o[1]
        if k == "hook":
            ns = self.note(st, m, o, *args)
            if self.cut is not None and m in ("affect_component_will_render", "affect_component_will_unmount"):
                self.cut -= 1
                if self.cut < 1:
                    self.cut = None
                    return [("v", ("failing", "asyncio.CancelledError", NONE), ns)]
            if m == "affect_component_will_unmount" and self.late:
                ns = self.changes(ns)
            return [("v", self.coro(ns, NONE, i), ns)] if m.startswith("affect_") else [("v", NONE, ns)]
        if k == "comp" and m == "render":
            s = self.comps[o]
            st = self.note(st, "rendered", s)
            if s.fails is True or s.fails and self.version in s.fails:
                return [("raise", "Exception", ("S", "failure", s.fn), st)]
            n = min(self.version, len(s.kids) - 1)
            return [("v", self.value(st, s.kids[n]) if s.kids else NONE, st)]
        if o == QUEUE:
            if m.startswith("put"):
                ns = self.note(st, "requested", *args)
                return [("v", NONE, ns)]
            if m.startswith("get"):
                return [("v", ("awaitable", st.heap.get(("@", QUEUE, "next"), NONE)))]
            return [("v", ("awaitable", NONE))]
        if k == "events" and self.requests:
            c = st.heap.get(("@", o, "n"), ("T",))
            st = st.copy()
            if m in ("put", "put_nowait"):
                st.heap[("@", o, "n")] = (*c, args[0])
                return [("v", ("awaitable", NONE), st)]
            if m in ("get", "get_nowait"):
                if len(c) < 2:
                    return [("v", ("failing", "asyncio.CancelledError", NONE), self.note(st, "waits", o))]
                st.heap[("@", o, "n")] = ("T", *c[2:])
                return [("v", ("awaitable", c[1]), st)]
            if m == "empty":
                return [("v", ("k", len(c) < 2))]
            if m == "qsize":
                return [("v", ("k", len(c) - 1))]
            return [("v", NONE)]
        if k == "events":
            if m in ("put", "put_nowait"):
                return [("v", ("awaitable", NONE), self.note(st, "put", o, *args))]
            if m in ("get", "get_nowait"):
                n = st.heap.get(("@", QUEUE, "taken"), ("k", 0))[1]
                if n >= len(self.pending):
                    return [("v", ("failing", "asyncio.CancelledError", NONE))]
                ns = self.note(st, "taken", o)
                ns.heap[("@", QUEUE, "taken")] = ("k", n + 1)
                return [("v", ("awaitable", self.pending[n]), ns)]
            return [("v", NONE)]
        if k == "exits":
            if m in ("push_async_callback", "callback", "push_async_exit"):
                return [("v", NONE, self.note(st, "at exit", *args))]
            return [("v", NONE)]
        if k == "permits":
            n = st.heap[("@", o, "n")][1]
            st = st.copy()
            if m in ("release", "set"):
                st.heap[("@", o, "n")] = ("k", n + 1 if m == "release" else 1)
                return [("v", NONE, self.note(st, "released", o))]
            if m in ("acquire", "wait"):
                if n < 1:
                    return [("v", ("failing", "asyncio.CancelledError", ("k", "it waits")), self.note(st, "waits", o))]
                st.heap[("@", o, "n")] = ("k", n - 1 if m == "acquire" else n)
                return [("v", ("awaitable", ("k", True)), st)]
            if m == "clear":
                st.heap[("@", o, "n")] = ("k", 0)
            if m == "locked":
                return [("v", ("k", n < 1))]
            return [("v", NONE, st)]
        if k == "task" and self.parallel and o[2] != "current" and m != "cancelling":
            r = st.heap.get(("@", o, "result"), ("awaitable", NONE))
            over = ("@", o, "over") in st.heap
            if m == "add_done_callback":
                st = st.copy()
                st.heap[("@", o, "callbacks")] = ("T", *st.heap.get(("@", o, "callbacks"), ("T",))[1:], self.captured(ai, st, args[0]))
                return [("v", NONE, st)]
            if m in ("result", "exception"):
                if not over:
                    return [("raise", "asyncio.InvalidStateError")]
                if m == "result":
                    return [("raise", r[1], r[2])] if r[0] == "failing" else [("v", r[1])]
                return [("raise", r[1], r[2])] if r[:2] == ("failing", "asyncio.CancelledError") else [("v", ("S", "error") if r[0] == "failing" else NONE)]
            if m == "done":
                return [("v", ("k", over))]
            if m == "cancelled":
                return [("v", ("k", over and r[:2] == ("failing", "asyncio.CancelledError")))]
            if m == "cancel":
                st = st.copy()
                if not over:
                    st.heap[("@", o, "result")] = ("failing", "asyncio.CancelledError", NONE)
                return [("v", ("k", not over), self.note(st, "task cancel", o))]
        if k == "task" and m == "cancelling":
            return [("v", ("k", 0))]
        if k == "task":
            return [("v", NONE, self.note(st, "task " + m, o))]
        if k == "loop":
            return [("v", NONE, self.note(st, "loop " + m, *args))]
        return None

    def cut_off(self, st, task):
        """a task which has begun is cancelled where it waits"""
        c = st.heap.get(("@", task, "coroutine"), NONE)
        if c[0] != "coroutine":
            return st
        self.cut, self.current = self.cuts, task
        rs = self.ran(c, st)
        self.cut = self.current = None
        if len(rs) != 1:
            self.cuts = "no answer"
            return st
        return rs[0][-1]

    def changes(self, st):
        """the state of every component changes: cleaning up does that"""
        for h in dict.fromkeys(e[1] for e in st.ev if e[0] == "affect_component_will_render"):
            outs = self.apply(st, st.heap[("@", h, "schedule")])
            if outs is not None and [o.kind for o in outs] == ["exit"]:
                st = st.copy()
                st.heap, st.ev, st.facts = dict(outs[0].st.heap), outs[0].st.ev, dict(outs[0].st.facts)
            else:
                self.late = "no answer"
        return st

    def awaited(self, st, v, i):
        if v[:2] == ("S", "task") and v[2] != "current" and self.parallel:
            if i.op != "await":
                return None
            r = st.heap.get(("@", v, "result"), ("awaitable", NONE))
            if self.late and ("@", v, "over") not in st.heap:
                st = self.changes(st)
            if self.cuts and ("@", v, "over") not in st.heap:
                st = self.cut_off(st, v)
            st = self.note(st, "awaited", v)
            st.heap[("@", v, "over")] = ("k", True)
            return [("raise", r[1], r[2], st)] if r[0] == "failing" else [("v", r[1] if r[0] == "awaitable" else NONE, st)]
        if v[0] == "coroutine" and i.op == "await":
            return self.ran(v, st)
        return super().awaited(st, v, i)

    def ran(self, v, st):
        """what awaiting a coroutine gives"""
        out = []
        for o in self.interpret(self.P.funcs[v[1]], v[2], v[3], v[4], st) or []:
            ns = st.copy()
            ns.heap, ns.ev, ns.facts = dict(o.st.heap), o.st.ev, dict(o.st.facts)
            x = o.value
            if o.kind == "exit":
                out.append(("v", x, ns))
            else:
                out.append(("raise", x[1] if x[0] in ("exc", "C") and isinstance(x[1], str) else "Exception", x[2] if x[0] == "exc" and len(x) > 2 else x, ns))
        return out

    def captured(self, ai, st, v):
        """a function with what it refers to"""
        f = self.function(v)
        if f is None or f.parent is None and v[:2] != ("F", "lambda"):
            return v
        used = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)}
        env = {n: x for n, x in ai.params.items() if n in used}
        env.update({k[2]: x for k, x in st.env.items() if k[0] == "v" and k[2] in used})
        above, g = set(), f.parent and f.parent.parent
        while g is not None:  # names of functions around the one which makes this one
            above |= {*g.params(), *(n.id for n in ast.walk(g.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))}
            g = g.parent
        for n in (used & above) - set(env):
            x = self.name(st, ("free", None, n))
            if x is not None:
                env[n] = x
        return ("closure", v, tuple(sorted(env.items(), key=lambda x: x[0])))

    def function(self, v):
        if v[0] == "F" and len(v) == 2:
            return self.P.funcs.get(v[1])
        if v[:2] == ("F", "lambda"):
            if v not in self.lambdas:
                self.lambdas[v] = None
                owners = [f for f in self.P.funcs.values() if f.module.name in self.modules and not isinstance(f.node, ast.Lambda) and any(isinstance(n, ast.Lambda) and (n.lineno, n.col_offset) == v[2:] for n in ast.walk(f.node))]
                if owners:
                    own = min(owners, key=lambda f: f.node.end_lineno - f.node.lineno)
                    node = next(n for n in ast.walk(own.node) if isinstance(n, ast.Lambda) and (n.lineno, n.col_offset) == v[2:])
                    self.lambdas[v] = Func(f"{own.qual}.<lambda {v[2]}:{v[3]}>", own.module, node, own.cls, own)
            return self.lambdas[v]
        return None

    def apply(self, st, v, *args):
        """outcomes of calling a value"""
        env = {}
        if v[0] == "C" and v[1] == "functools.partial":
            return self.apply(st, v[2][0], *v[2][1:], *args)
        if v[0] == "closure":
            env, v = dict(v[2]), v[1]
        f = self.function(v)
        me = None
        if f is None:
            t = self.target(st, v)
            if t is None:
                return None
            f, me = t
        self.frames.append((SimpleNamespace(params=env), State({}, dict(st.heap))))
        try:
            return self.interpret(f, me, args, (), st)
        finally:
            self.frames.pop()

    def called(self, st, v, *args):
        """outcomes of a callback: also of a method of an object of the model"""
        if v[0] == "attr" and self.cls_of(st, v[1]) is None:
            o, m = v[1], v[2]
            st = st.copy()
            if o[0] == "O" and o in st.heap and m in ("append", "add", "appendleft", "discard", "remove"):
                k, xs = st.heap[o]
                st.heap[o] = (k, (*xs, *args) if m in ("append", "add") else (*args, *xs) if m == "appendleft" else tuple(x for x in xs if x not in args))
                return [SimpleNamespace(kind="exit", value=NONE, st=st)]
            if o[0] == "S":
                rs = self.on(None, st, None, o, m, args, ())
                return [SimpleNamespace(kind="exit", value=r[1], st=r[2] if len(r) > 2 else st) for r in rs or () if r[0] == "v"] or None
        return self.apply(st, v, *args)

    def entered(self, st, cm, i):
        if cm == ("S", "exits"):
            return cm
        return super().entered(st, cm, i)

    def interpret(self, f, selfv, args, kw, st):
        d = self.depth
        if d < self.maxdepth:
            self.depth = min(d, 10)
        try:
            return super().interpret(f, selfv, args, kw, st)
        finally:
            self.depth = d

    # ---- scenarios
    def layout(self, st, name, *args):
        """outcomes of a method of the layout"""
        return self.interpret(self.P.method(self.classes[SELF], name), SELF, args, (), st) or []

    def start(self, shape):
        """states after entering the context of a layout with this root"""
        self.version = 0
        st = State({}, {("@", ("S", "none"), "x"): NONE})
        root = self.value(st, shape)
        outs = [x for o in self.layout(st, "__init__", root) if o.kind == "exit" for x in self.layout(o.st, "__aenter__")]
        return [o.st for o in outs if o.kind == "exit"]

    def identity(self, st, hook):
        """the id of the component with this hook"""
        ids = set()
        for v in st.heap.values():
            todo = [v]
            while todo:
                x = todo.pop()
                if isinstance(x, tuple):
                    if any(y == hook or isinstance(y, tuple) and hook in y for y in x):
                        ids |= {a for a in _atoms(x) if a[:1] == ("k",) and isinstance(a[1], str) and a[1] in self.ids}
                    todo.extend(x)
        return ids.pop() if len(ids) == 1 else None

    def render(self, st, ident):
        """outcomes of render() for the component with this id"""
        st = st.copy()
        st.heap[("@", QUEUE, "next")] = ident
        return self.layout(st, "render")


# ---------------------------------------------------------------- what should come of it
class Node:
    """what is in a place of the tree"""

    def __init__(self, shape, key, pos, old=None):
        self.shape, self.key, self.pos, self.old = shape, key, pos, old
        self.kids, self.error, self.hook, self.targets = [], None, None, {}

    def places(self, parent=None, path=""):
        """(node, parent, path)"""
        yield self, parent, path
        for i, k in enumerate(self.kids):
            yield from k.places(self, f"{path}/children/{i}")

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


class Duplicate(Exception):
    """siblings with one key"""


class Failure(Exception):
    """a component which fails"""


def place(shape, key, pos, old, version):
    """the node for a shape, given what was in its place"""
    if old is not None and (old.shape.kind != shape.kind or old.shape.fn != shape.fn):
        old = None
    n = Node(shape, key, pos, old)
    if shape.kind == "component":
        try:
            if shape.fails is True or shape.fails and version in shape.fails:
                raise Failure
            n.kids = siblings([shape.kids[min(version, len(shape.kids) - 1)]] if shape.kids else [N], old, version)
        except (Duplicate, Failure) as e:
            n.kids, n.error = [], type(e)
    elif shape.kind == "element":
        n.kids = siblings(shape.kids, old, version)
    return n


def siblings(shapes, old, version):
    before = {k.key: k for k in old.kids} if old is not None else {}
    here = [(s, i if s.key is None else s.key, i) for i, s in enumerate(shapes) if s.kind != "none"]
    if len({k for _, k, _ in here}) < len(here):
        raise Duplicate
    return [place(s, k, p, before.get(k), version) for s, k, p in here]


class Deliver:
    """events for the n-th target displayed (or one which is gone): sequence number, data, whether the handler fails"""

    def __init__(self, at, *messages, old=False):
        self.at, self.messages, self.old = at, messages, old

    def __repr__(self):
        return f"events {[m[0] for m in self.messages]} for {'an element which is gone' if self.old else f'target {self.at + 1}'}"


class Scenario:
    """A tree which is rendered again and again, from its root or from a component in it."""

    def __init__(self, tree, shape, *renders):
        """renders: the function of the component to render, None for the root"""
        self.t, self.shape, self.renders = tree, shape, (None, *renders)
        self.bad = []  # (what is wrong, explanation)
        self.queues, self.acks, self.known = {}, {}, {}  # by target
        self.ended = set()  # hooks which were unmounted

    def say(self, what, text):
        self.bad.append((what, f"{text} ({self.story})"))

    def run(self):
        t = self.t
        self.story = f"first render of {self.shape}"
        ss = t.start(self.shape)
        if len(ss) != 1:
            return self.say("answer", "the layout does not start")
        st = ss[0]
        ids = [e[1] for e in st.ev if e[0] == "requested"]
        if len(ids) != 1:
            return self.say("answer", f"{len(ids)} renders are requested at the start")
        root, v = None, -1
        for which in self.renders:
            if isinstance(which, Deliver):
                st = self.deliver(which, root, st)
                if st is None:
                    return
                continue
            v += 1
            t.version = v
            ident, path = ids[0], ""
            old, parent = root, None
            if which is not None:
                found = [(n, p, w) for n, p, w in root.places() if n.shape.fn == which]
                ident = t.identity(st, found[0][0].hook) if found and found[0][0].hook else None
                if ident is None:
                    return self.say("answer", f"no {which} is found")
                old, parent, path = found[0]
            if v:
                self.story = f"render {v + 1} of {self.shape}{'' if which is None else f', of {which} alone'}"
            outs = t.render(st, ident)
            ends = {o.kind for o in outs}
            if ends != {"exit"} or len(outs) != 1:
                return self.say("answer" if len(outs) != 1 else "raised", f"rendering ends {len(outs)} ways: {', '.join(sorted(ends))}")
            ev, st = outs[0].st.ev[len(st.ev):], outs[0].st
            before = list(root.walk()) if root else []
            node = place(old.shape if old else self.shape, old.key if old else None, old.pos if old else 0, old, v)
            if parent is None:
                root = node
            else:
                parent.kids[parent.kids.index(old)] = node
            self.hooks(node, before, root, ev)
            self.payload(node, root, path, deep(st, outs[0].value, 60), st)
        self.story = f"closing after {self.story}"
        outs = t.layout(st, "__aexit__", NONE, NONE, NONE)
        if [o.kind for o in outs] != ["exit"]:
            return self.say("answer", "closing has no single end")
        gone = [e[1] for e in outs[0].st.ev[len(st.ev):] if e[0] == "affect_component_will_unmount"]
        self.unmounted(gone, {n.hook: n for n in root.walk() if n.hook}, {}, "close")

    def deliver(self, d, root, st):
        t = self.t
        all_targets = [(x, own) for n in root.walk() for x, own in n.targets.items()]
        if d.old:
            gone = [x for x in self.known if x not in dict(all_targets)]
            if not gone:
                return self.say("answer", "no target is gone")
            target, own = gone[0], None
        else:
            if d.at >= len(all_targets):
                return self.say("answer", "no such target")
            target, own = all_targets[d.at]
        self.story = f"{d} after {self.story}"
        st = st.copy()
        t.pending, t.failing = [], {n: "asyncio.CancelledError" if m[2] == "c" else "ValueError" for n, m in enumerate(d.messages) if m[2]}
        data = []
        for n, (seq, kinds, _) in enumerate(d.messages):
            xs = [t.obj(st, "dict", ((("k", "n"), ("k", 10 * n + j)),)) if k == "d" else ("S", "datum", 10 * n + j) for j, k in enumerate(kinds)]
            data.append([deep(st, x) for x in xs])
            items = [("target", target), ("data", t.obj(st, "list", tuple(xs)))] + ([("seq", ("k", seq))] if seq is not None else [])
            t.pending.append(t.obj(st, "dict", tuple((("k", k), x) for k, x in items)))
        st.heap[("@", QUEUE, "taken")] = ("k", 0)
        before = len(st.ev)
        first = target not in self.queues
        for e in t.pending:
            outs = t.layout(st, "deliver", e)
            if [o.kind for o in outs] != ["exit"]:
                return self.say("answer" if len(outs) != 1 else "event", f"delivering an event ends {len(outs)} ways: {', '.join(sorted({o.kind for o in outs}))}")
            ev, st = outs[0].st.ev[len(st.ev):], outs[0].st
            puts = [x for x in ev if x[0] == "put"]
            if len(puts) != 1 or puts[0][2] != e:
                self.say("event", f"an event is put into a queue {len(puts)} times")
                continue
            if self.queues.setdefault(target, puts[0][1]) != puts[0][1]:
                self.say("event", "events of one target are put into different queues")
            if list(self.queues.values()).count(puts[0][1]) > 1:
                self.say("event", "events of different targets wait in one queue")
            tasks = [x for x in ev if x[0] == "task"]
            if len(tasks) != (1 if e == t.pending[0] and first else 0):
                self.say("event", f"{len(tasks)} tasks are started for an event")
        ev = st.ev[before:]
        if not first:
            return st
        if {x[1] for x in ev if x[0] == "taken"} != {self.queues.get(target)}:
            self.say("event", "events are taken from another queue than they are put into")
        if sum(x[0] == "taken" for x in ev) != len(d.messages):
            self.say("event", f"after {sum(x[0] == 'taken' for x in ev)} of {len(d.messages)} events no more are taken")
        handled = [x for x in ev if x[0] == "handled"]
        want = [(own, x) for x in data] if own is not None else []
        if [x[1] for x in handled] != [x[0] for x in want]:
            self.say("event", f"{len(want)} events of {own} are handled by {[x[1] for x in handled]}")
        else:
            for h, (_, x) in zip(handled, want):
                got = list(h[2][1]) if h[2][0] == "list" else list(h[2][1:]) if h[2][0] == "T" else []
                if len(got) != len(x) or any(b not in _atoms(a) for a, b in zip(got, x)):
                    self.say("event", f"the handler gets {got} of the data {x}")
        high = self.acks.get(target)
        for n, (seq, _, _) in enumerate(d.messages):
            if isinstance(seq, int) and seq >= 0 and (high is None or seq > high):
                high = seq
            if n < len(handled) and dict(handled[n][3]).get(target, NONE) != ("k", high):
                self.say("recorded", f"when the event with number {seq} is handled {dict(handled[n][3]).get(target, NONE)[1]} is recorded, not {high}")
        if high is not None:
            self.acks[target] = high
        return st

    def hooks(self, node, before, root, ev):
        t = self.t
        old = {n.hook: n for n in before if n.hook}
        began, rendered = {}, {}
        for e in ev:
            if e[0] == "affect_component_will_render":
                began.setdefault(t.comps.get(e[2]), []).append(e[1])
            elif e[0] == "rendered":
                rendered[e[1]] = rendered.get(e[1], 0) + 1
            elif e[0] == "task":
                self.say("task", "something is left to a task")
        now = {}
        for n in node.walk():
            s = n.shape
            if s.kind != "component":
                continue
            hs = began.pop(s, [])
            if rendered.get(s, 0) != 1 or len(hs) != 1:
                self.say("rendered", f"{s} is rendered {rendered.get(s, 0)} times")
                continue
            n.hook = h = hs[0]
            if n.old is not None and h != n.old.hook:
                self.say("lost", f"{s} does not keep its state")
            elif n.old is None and (h in old or h in now):
                self.say("mixed", f"{s} gets the state of {(old.get(h) or now[h]).shape}")
            elif n.old is None and h in self.ended:
                self.say("ended", f"{s} gets the state of a component which was unmounted")
            now[h] = n
        now = {n.hook: n for n in root.walk() if n.hook}
        mounted = {h for hs in began.values() for h in hs}
        live = {h: n for h, n in old.items()} | {h: None for h in mounted} | now
        self.ended |= {e[1] for e in ev if e[0] == "affect_component_will_unmount"}
        self.unmounted([e[1] for e in ev if e[0] == "affect_component_will_unmount"], {h: n for h, n in live.items() if h not in now}, now)
        done = [e[1] for e in ev if e[0] == "affect_component_did_render"]
        for h in {*(n.hook for n in node.walk() if n.hook), *mounted}:
            if done.count(h) != 1:
                self.say("did", f"the render of {now[h].shape if h in now else 'a component'} is ended {done.count(h)} times")
        late = [e[1] for e in ev if e[0] == "at exit"]
        for h, n in [(n.hook, n) for n in node.walk() if n.hook]:
            if sum(h in _atoms(x) for x in late) != 1:
                self.say("effects", f"the effects of {n.shape} are started {sum(h in _atoms(x) for x in late)} times")

    def unmounted(self, gone, should, stay, what="unmount"):
        for h, n in should.items():
            if gone.count(h) != 1:
                self.say(what, f"{n.shape if n else 'a component which is not displayed'} is unmounted {gone.count(h)} times")
        for h, n in stay.items():
            if h in gone:
                self.say(what, f"{n.shape} is unmounted although it stays")

    def payload(self, node, root, path, value, st):
        if not isinstance(value, tuple) or value[0] != "dict":
            return self.say("model", f"the update is {value!r:.80}")
        d = dict(value[1])
        if d.get(("k", "path")) != ("k", path):
            self.say("path", f"the path of {node.shape} is {d.get(('k', 'path'))}")
        self.model(node, d.get(("k", "model")))
        tables = [c[1] for k, o in st.heap.items() if k[0] == "@" and k[1] == SELF and (c := st.heap.get(o)) and isinstance(c, tuple) and c[0] == "dict" and c[1] and any(_handler(v) for _, v in c[1])]
        have = dict(tables[0]) if tables else {}
        targets = {}
        for n in root.walk():
            for target, own in n.targets.items():
                if target in targets:
                    self.say("target", f"{own} has the target of {targets[target]}")
                targets[target] = own
                if have.get(target) is None or have[target][2] != own:
                    self.say("handler", f"an event for {own} is handled by {have[target][2] if target in have else 'nobody'}")
        for target, h in have.items():
            if target not in targets:
                self.say("kept", f"the handler {h[2]} of an element which is gone is kept")

    def model(self, node, m):
        s = node.shape
        if s.kind == "text":
            if m is None or s.name not in str(m) or m[0] == "dict":
                self.say("model", f"the text {s} is displayed as {m!r:.80}")
            return
        if m is None or m[0] != "dict":
            return self.say("model", f"{s} is displayed as {m!r:.80}")
        d = {k[1]: v for k, v in m[1]}
        if d.get("tagName") != ("k", "" if s.kind == "component" else s.name):
            return self.say("model", f"{s} is displayed as {d.get('tagName')}")
        if bool(node.error) != ("error" in d):
            return self.say("duplicate" if node.error is Duplicate else "error" if node.error else "refused", f"{s} is {'not ' if node.error else ''}displayed as an error")
        kids = d.get("children", ("list", ()))[1]
        if len(kids) != len(node.kids):
            return self.say("model", f"{s} is displayed with {len(kids)} children")
        at = {k[1] for k, _ in d.get("attributes", ("dict", ()))[1]} - {"key"}
        extra = [(k[1], v) for k, v in d.get("attributes", ("dict", ()))[1] if k[1] not in ("key", *s.attrs)]
        acks = [v[1] for k, v in extra if v[0] == "k" and isinstance(v[1], int)]
        if s.kind == "element" and (at - {k for k, _ in extra} != set(s.attrs) or len(acks) < len(extra)):
            self.say("model", f"{s} is displayed with the attributes {sorted(at)}")
        hs = {k[1]: v for k, v in d.get("eventHandlers", ("dict", ()))[1]}
        if set(hs) != {e for e, _, _ in s.handlers()}:
            self.say("handler", f"{s} is displayed with handlers of {sorted(hs)}")
        for e, own, target in s.handlers():
            got = dict(hs[e][1]).get(("k", "target")) if e in hs and hs[e][0] == "dict" else None
            if got is None or target and got != ("k", target):
                self.say("handler", f"the target of {own} is {got}")
            else:
                node.targets[got] = own
        if node.old is None:
            for x in node.targets:
                self.acks.pop(x, None)
        self.known.update(node.targets)
        high = max([self.acks[x] for x in node.targets if x in self.acks], default=None) if s.name in ("input", "select", "textarea") else None
        if s.kind == "element" and acks != ([] if high is None else [high]):
            self.say("ack", f"{s} is told {acks or 'nothing'} where {high} is the highest number received")
        for k, x in zip(node.kids, kids):
            self.model(k, x)


def _handler(v):
    return isinstance(v, tuple) and v[:2] == ("S", "handler")


def _atoms(v):
    out, todo = set(), [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            out.add(x)
            todo.extend(x)
    return out


class Delivery:
    """Renders as tasks, which finish in some order: what render() gives, one call after another."""

    def __init__(self, tree, ops, lazy):
        """ops: 'a' begin a render of component a, 1 let the first one begun finish, '!1' fail, '/1' be cancelled,
        '>' call render(), 'e' deliver an event. lazy: tasks run when they finish, otherwise when they begin"""
        self.t, self.ops, self.bad = tree, ops.split(), []
        self.t.parallel, self.t.lazy, self.t.version = True, lazy, 0

    def say(self, what, text):
        self.bad.append((what, f"{text} ({' '.join(self.done)})"))

    def run(self):
        t = self.t
        self.done = []
        below = [C("u"), C("v", C("u"))]  # they change places, and those there were go
        parts = [C(n, *[E("s", T(f"{n}{v}."), *(() if n != "b" else below[::-1] if v % 2 else below), on=("onClick@own",) if n == "a" else ()) for v in range(9)]) for n in "abc"]
        root = C("Root", E("div", parts[0], E("p", parts[1]), parts[2]))
        paths = {"a": "/children/0/children/0", "b": "/children/0/children/1/children/0", "c": "/children/0/children/2", "Root": ""}
        ss = t.start(root)
        if len(ss) != 1:
            return self.say("answer", "the layout does not start")
        st = ss[0]
        made = [[e[1], "Root", 0] for e in st.ev if e[0] == "task"]
        if len(made) != 1:
            return self.say("answer", f"{len(made)} renders begin at the start")
        finished = []
        for op in ("0", ">", *self.ops):
            n = len(st.ev)
            if op in ("a", "b", "c"):
                t.version += 1
                hooks = {t.comps[e[2]].fn: e[1] for e in st.ev if e[0] == "affect_component_will_render"}
                call = st.heap.get(("@", hooks.get(op), "schedule"))
                outs = t.apply(st, call) if call is not None else None
                if outs is None or [o.kind for o in outs] != ["exit"]:
                    return self.say("answer", f"a render of {op} cannot be requested")
                st = outs[0].st
                new = [e[1] for e in st.ev[n:] if e[0] == "task"]
                if len(new) != 1:
                    return self.say("delivery", f"{len(new)} renders begin when one of {op} is requested")
                made.append([new[0], op, t.version])
                self.done.append(f"begin({op})")
            elif op == "e":
                e = t.obj(st, "dict", ((("k", "target"), ("k", "own")), (("k", "data"), t.obj(st, "list", ()))))
                outs = t.layout(st, "deliver", e)
                if [o.kind for o in outs] != ["exit"]:
                    return self.say("answer", "delivering an event has no single end")
                st = outs[0].st
                self.done.append("event")
            elif op == ">":
                self.done.append("render()")
                outs = t.layout(st, "render")
                if len(outs) != 1:
                    return self.say("answer", f"render() ends {len(outs)} ways")
                o = outs[0]
                st = o.st
                while finished and finished[0][3] == "/":
                    finished.pop(0)
                waits = any(e[0] == "waits" for e in st.ev[n:])
                if not finished:
                    if not waits:
                        self.say("delivery", f"render() ends ({o.kind}) although no render has finished")
                        return
                    return self.close(st)
                task, comp, version, how = finished.pop(0)
                if waits:
                    return self.say("delivery", f"render() waits although a render of {comp} has finished")
                if how == "!":
                    if o.kind == "exit" or o.value[1] != "ValueError":
                        return self.say("delivery", f"the failure of a render of {comp} is not raised: {o.kind} {o.value[1]}")
                    continue
                if o.kind != "exit":
                    return self.say("delivery", f"render() raises {o.value[1]} where it has to return the update of {comp}")
                v = deep(st, o.value, 60)
                d = dict(v[1]) if v[0] == "dict" else {}
                if d.get(("k", "path")) != ("k", paths[comp]) or comp != "Root" and ("S", "text", f"{comp}{version}.") not in _atoms(d.get(("k", "model"), NONE)):
                    return self.say("delivery", f"render() does not return the update which finished next, of {comp}, but one for {d.get(('k', 'path'), NONE)[1]!r}")
            else:
                how, k = ("", int(op)) if op.isdigit() else (op[0], int(op[1:]))
                if k >= len(made):
                    return self.say("answer", "no such render")
                task, comp, version = made[k]
                r = st.heap.get(("@", task, "result"), ("awaitable", NONE))
                if r[:2] == ("failing", "asyncio.CancelledError"):
                    how = "/"
                st = st.copy()
                if how:
                    st.heap[("@", task, "result")] = ("failing", "ValueError" if how == "!" else "asyncio.CancelledError", NONE)
                elif r[0] == "coroutine":
                    t.current, version = task, t.version
                    rs = t.ran(r, st)
                    t.current = None
                    if len(rs) != 1:
                        return self.say("answer", f"a render has {len(rs)} ends")
                    st = rs[0][-1]
                    st.heap[("@", task, "result")] = ("awaitable", rs[0][1]) if rs[0][0] == "v" else ("failing", *rs[0][1:3])
                    how = "" if rs[0][0] == "v" else "!"
                st.heap[("@", task, "over")] = ("k", True)
                self.done.append({"": "finish", "!": "fail", "/": "cancel"}[how] + f"({comp})")
                finished.append((task, comp, version, how))
                for cb in st.heap.get(("@", task, "callbacks"), ("T",))[1:]:
                    outs = t.called(st, cb, task)
                    if outs is None or [o.kind for o in outs] != ["exit"]:
                        return self.say("answer", "the callback of a task has no single end")
                    st = outs[0].st
        self.close(st)

    def close(self, st):
        hooks = {e[1] for e in st.ev if e[0] == "affect_component_will_render"} - {e[1] for e in st.ev if e[0] == "affect_component_will_unmount"}
        self.done.append("close")
        running = [e[1] for e in st.ev if e[0] == "task" and ("@", e[1], "over") not in st.heap]
        for late in (False, True):
            self.leave(st, late, hooks, running)
        if running and self.t.lazy:
            for n in (1, 2, 3, 4):
                self.t.cuts = n
                self.leave(st, False, hooks, running)
                self.t.cuts = None

    def leave(self, st, late, hooks, running):
        self.t.late = late
        try:
            outs = self.t.layout(st, "__aexit__", NONE, NONE, NONE)
            if "no answer" in (self.t.late, self.t.cuts):
                return self.say("answer", "what goes on while the layout is closed has no single end")
        finally:
            self.t.late = False
        if [o.kind for o in outs] != ["exit"]:
            return self.say("answer" if len(outs) != 1 else "close", f"closing ends {len(outs)} ways: {', '.join(sorted({o.kind for o in outs}))}")
        ev = outs[0].st.ev[len(st.ev):]
        gone = [e[1] for e in ev if e[0] == "affect_component_will_unmount"]
        hooks = hooks | {e[1] for e in ev if e[0] == "affect_component_will_render"}
        if sorted(gone) != sorted(hooks):
            self.say("close", f"{len(gone)} of {len(hooks)} components are unmounted when the layout is closed" + (" while a render is under way" if self.t.cuts else ""))
        at = {e[:2]: n for n, e in enumerate(ev)}
        first = min([n for n, e in enumerate(ev) if e[0] == "affect_component_will_unmount"], default=len(ev))
        for x in [*running, *(e[1] for e in ev if e[0] == "task")]:
            if x not in running and ("awaited", x) not in at:
                self.say("close", "a render begins which goes on after the layout was closed, if state is changed meanwhile")
            elif x not in running:
                continue
            elif ("task cancel", x) not in at:
                self.say("close", "a task which is under way is not cancelled")
            elif ("awaited", x) not in at or at["awaited", x] < at["task cancel", x]:
                self.say("close", "the end of a cancelled task is not awaited")
            elif at["awaited", x] > first and not self.t.cuts:
                self.say("close", "components are unmounted before a cancelled task has ended")


class Requests:
    """The queue of render requests: which are merged, what remains when it is closed."""

    def __init__(self, tree, ops):
        """ops: 'a' request a render of a, '.' let what was requested in a thread or task go on, '>' take one, '#' close"""
        self.t, self.ops, self.bad = tree, ops.split(), []

    def say(self, what, text):
        self.bad.append((what, f"{text} ({' '.join(self.done)})"))

    def method(self, st, name, *args):
        return self.t.interpret(self.t.P.method(self.cls, name), TSQ, args, (), st) or []

    def run(self):
        t = self.t
        t.parallel = t.lazy = t.requests = True
        self.done = []
        cs = [c for c in t.P.classes.values() if c.module.name == LM and all(t.P.method(c, m) for m in ("get", "put", "close"))]
        if len(cs) != 1:
            return self.say("answer", "the queue of requests")
        self.cls = t.classes[TSQ] = cs[0]
        outs = self.method(State({}, {("@", ("S", "none"), "x"): NONE}), "__init__")
        if [o.kind for o in outs] != ["exit"]:
            return self.say("answer", "the queue cannot be made")
        st, wanted = outs[0].st, []  # requests which no render has begun for
        later = []
        for op in self.ops:
            n = len(st.ev)
            if op in "abc":
                self.done.append(f"request({op})")
                outs = self.method(st, "put", ("k", op))
                if op not in wanted:
                    wanted.append(op)
            elif op == ">":
                self.done.append("take")
                outs = self.method(st, "get")
            elif op == "#":
                self.done.append("close")
                running = [e[1] for e in st.ev if e[0] == "task" and ("@", e[1], "over") not in st.heap]
                outs = self.method(st, "close")
                if len(outs) == 1 and outs[0].kind == "exit":
                    at = {e[:2]: k for k, e in enumerate(outs[0].st.ev[n:])}
                    for x in running:
                        if not ("task cancel", x) in at or at.get(("awaited", x), -1) < at["task cancel", x]:
                            self.say("close", "a task of the queue is not cancelled and awaited when it is closed")
            elif op == ".":
                self.done.append("later")
                todo, later = later, []
                for cb, args in todo:
                    outs = t.called(st, cb, *args)
                    if outs is None or [o.kind for o in outs] != ["exit"]:
                        return self.say("answer", "a callback has no single end")
                    st = outs[0].st
                for x in [e[1] for e in st.ev if e[0] == "task"]:
                    r = st.heap.get(("@", x, "result"))
                    if ("@", x, "over") not in st.heap and r[0] == "coroutine":
                        rs = t.ran(r, st)
                        if len(rs) != 1:
                            return self.say("answer", "a task of the queue has no single end")
                        st = rs[0][-1].copy()
                        st.heap[("@", x, "over")] = ("k", True)
                        st.heap[("@", x, "result")] = ("awaitable", NONE)
                continue
            else:  # let only what was asked for in a thread begin
                self.done.append("begin")
                todo, later = later, []
                for cb, args in todo:
                    outs = t.called(st, cb, *args)
                    if outs is None or [o.kind for o in outs] != ["exit"]:
                        return self.say("answer", "a callback has no single end")
                    st = outs[0].st
                continue
            if len(outs) != 1:
                return self.say("answer", f"{op} has {len(outs)} ends")
            o = outs[0]
            st = o.st
            later += [(e[1], e[2:]) for e in st.ev[n:] if e[0].startswith("loop call_soon")]
            if op == ">":
                empty = any(e[0] == "waits" for e in st.ev[n:])
                if not wanted and not empty:
                    return self.say("request", f"the queue gives {o.value} which nobody asked for")
                if wanted:
                    if empty:
                        return self.say("request", f"the request of {wanted[0]} is lost")
                    if o.kind != "exit" or o.value != ("k", wanted[0]):
                        return self.say("request", f"the queue gives {o.value[-1]}, not {wanted[0]} which was asked for")
                    wanted.pop(0)
            elif o.kind != "exit":
                return self.say("request", f"{self.done[-1]} raises {o.value[1]}")


TSQ = ("S", "requests")


# ---------------------------------------------------------------- scenarios
KINDS = {
    "-": lambda: N,
    "x": lambda: T("x"),
    "e": lambda: E("p", on=("onClick",)),
    "e(a)": lambda: E("p", key="a", on=("onClick",)),
    "e(b)": lambda: E("p", key="b", on=("onClick",)),
    "e(1)": lambda: E("p", key=1, on=("onClick",)),
    "e(0)": lambda: E("p", key=0),
    "e('1')": lambda: E("p", key="1", on=("onClick",)),
    "ef": lambda: E("p", C("f")),
    "ef(a)": lambda: E("p", C("f"), key="a"),
    "eef": lambda: E("p", T("x"), E("q", C("f"), E("r", on=("onClick", "onBlur")))),
    "i": lambda: E("input", on=("onChange",), attrs=("value",)),
    "i0": lambda: E("input", attrs=("value",)),
    "s2": lambda: E("select", on=("onChange", "onBlur"), attrs=("value",)),
    "ta": lambda: E("textarea", on=("onChange",), attrs=("value",)),
    "f": lambda: C("f", E("s", on=("onClick",))),
    "f(a)": lambda: C("f", E("s", on=("onClick",)), key="a"),
    "f(b)": lambda: C("f", E("s", on=("onClick",)), key="b"),
    "f(1)": lambda: C("f", key=1),
    "g": lambda: C("g"),
    "g(a)": lambda: C("g", key="a"),
    "f!": lambda: C("f", fails=True),
    "fg": lambda: C("f", C("g")),
    "ff": lambda: C("f", C("f")),
    "feg": lambda: C("f", E("s", C("g", E("u", on=("onClick",))), C("g", key="k"))),
    "d": lambda: C("h", E("p", C("f", key="k"), C("g", key="k"))),
    "t": lambda: E("p", on=("onClick@own",)),
    "t2": lambda: E("q", on=("onBlur@own",)),
}

LISTS = ["", "feg", "f", "f f", "f(a) f(b)", "f(b) f(a)", "f(b)", "- f", "f -", "x f", "e f", "g f", "f g", "g(a) f(b)",
         "ef", "ef(a)", "e(a) e(b)", "e(b) e(a)", "e", "x", "eef", "f(a) ef(a)", "e(1) e", "f e(0)", "i", "- - i", "e(1) e('1')", "e f(1)", "f f(1)"]

PAIRS = [("f(a) f(b)", "f(b) f(a)"), ("f f", "f"), ("f", "f f"), ("f(a) f(b)", "f(b)"), ("f(b)", "f(a) f(b)"), ("- f", "f -"), ("f -", "- f"), ("f", "- f"), ("- f", "x f"),
         ("f", "g"), ("f", "e"), ("e", "f"), ("f", "x"), ("x", "f"), ("f(a)", "g(a)"), ("f(a)", "e(a)"), ("e(a)", "f(a)"), ("ef", "e"), ("ef", "ef"), ("ef", "f"), ("ef(a)", "ef"), ("ef", "ef(a)"),
         ("fg", "f"), ("fg", "fg"), ("ff", "ff"), ("fg", "g"), ("fg", "ff"), ("feg", "e"), ("feg", "feg"), ("feg", ""), ("feg feg", "feg"), ("eef", "eef"), ("eef", "e"), ("eef", "x"),
         ("e(a) e(b)", "e(b) e(a)"), ("e(a) e(b)", "e(b)"), ("e", "ef"), ("i", "i"), ("i e", "e i"), ("f g", "g f"), ("x f e", "x f e"), ("f f(a) f", "f f f(a)"),
         ("f(1)", "f"), ("e e(a)", "e"), ("t", "t2"), ("t e", "e t"), ("t", "e t"), ("- - f", "- f -"), ("f!", "f"), ("f f!", "f f"), ("f e", "f! e"),
         ("f(a) f(a)", "f(a)"), ("f(a) e(b) f(a)", "f(a)"), ("e(a)", "e(a) f e(b) e(a)"), ("f(a)", "f(a) f(a)"), ("e(1) e", "e"), ("e f(1)", "e f"), ("e e(1)", "e"), ("f(a) ef(a)", "f(a)"), ("d", "e"), ("f d", "f d"), ("e f", "d f"), ("e(1) e('1')", "e('1') e(1)"), ("x e(1)", "e x")]


def part(text, *more):
    return E("div", *[KINDS[k]() for k in text.split()], *more)


def scenarios(deep):
    """(name, function making (shape, renders))"""
    out = []
    pairs = list(PAIRS)
    if deep:
        pairs += [(a, b) for a in LISTS for b in LISTS if (a, b) not in pairs]
    for a, b in pairs:
        out.append((f"{a} -> {b} -> {a}", lambda a=a, b=b: (C("Root", part(a), part(b), part(a)), [None, None])))
    for a, b in pairs if deep else PAIRS[::2]:
        # within a component which is rendered alone, then with the root
        out.append((f"in a component: {a} -> {b}", lambda a=a, b=b: (C("Root", E("div", T("x"), C("m", part(a), part(b)), C("f"))), ["m", None])))
    for a in LISTS if deep else ["f", "f(a) f(b)", "feg", "eef", "e f", "i"]:
        out.append((f"{a}, failure, {a}", lambda a=a: (C("Root", part(a), part(a), part(a), fails=(1,)), [None, None])))
        out.append((f"{a}, failure, {a} in a component", lambda a=a: (C("Root", E("div", C("f"), C("m", part(a), fails=(1,)), part("f e"))), ["m", "m", None])))
        out.append((f"{a}, failure below", lambda a=a: (C("Root", part(a), part(a + " d f"), part(a)), [None, None])))
        out.append((f"{a}, duplicates, {a}", lambda a=a: (C("Root", part(a), part(a, part("f(a) f(a)")), part(a)), [None, None])))
        out.append((f"{a}, duplicates twice", lambda a=a: (C("Root", E("div", C("m", part(a, part("e(1) e")), part(a, part("x f(1) f")), part(a)))), ["m", None])))
    D = Deliver
    for a in (["i", "x i e", "e i", "s2", "ta", "e", "t"] + (["f(a) ef(a)", "eef"] if deep else [])):
        for n, ms in enumerate(EVENTS):
            out.append((f"{a}: events {n}", lambda a=a, ms=ms: (C("Root", part(a), part(a)), [D(0, *ms), None])))
    for n, ms in enumerate(EVENTS[:4]):
        out.append((f"two: events {n}", lambda ms=ms: (C("Root", part("i i"), part("i i")), [D(0, *ms), D(1, (1, "d", False)), None])))
        out.append((f"two handlers: events {n}", lambda ms=ms: (C("Root", part("s2"), part("s2"), part("s2")), [D(0, *ms), D(1, (4, "d", False)), None, None])))
        out.append((f"gone: events {n}", lambda ms=ms: (C("Root", part("i"), part(""), part("i")), [D(0, (7, "d", False)), None, D(0, *ms, old=True), None])))
        out.append((f"never used: events {n}", lambda ms=ms: (C("Root", part("i"), part(""), part("i")), [None, D(0, *ms, old=True), None])))
        out.append((f"handler comes back: events {n}", lambda ms=ms: (C("Root", part("i"), part("i0"), part("i")), [D(0, (2, "d", False)), None, D(0, *ms, old=True), None])))
        out.append((f"handler comes late: events {n}", lambda ms=ms: (C("Root", part("i"), part("i0"), part("i")), [None, D(0, *ms, old=True), None])))
        out.append((f"replaced: events {n}", lambda ms=ms: (C("Root", part("i e"), part("e e"), part("i i")), [D(0, *ms), None, None])))
        out.append((f"below: events {n}", lambda ms=ms: (C("Root", E("div", C("m", part("i"), part("i"), part("x i")))), [D(0, *ms), "m", None])))
    return out


def tasks(deep):
    """orders in which renders begin, finish and are asked for"""
    out = ["e", "e a", "a e 1", "e a b c", "e a b 2 > !1", "a b c /2", "a >", "a b 1 > >", "a b 2 > >", "a 1 > >", "a b 1 2 > > >", "a b 2 1 > > >", "a 1 b > 2 > >", "a b 2 > 1 > >", "a !1 > b 2 >", "a b !2 1 > > >", "a b /1 2 > >", "a b /2 1 > >", "a /1 b 2 > >",
           "a a 1 2 > >", "a 1 a 2 > > >", "a a 2 1 > >", "a 1 > a 2 > >", "a 1 b 2 a 3 > > > >", "a !1 a 2 > > >", "a 1 a !2 > > >", "a b c 3 1 2 > > > >", "a b c 2 > 3 1 > > >",
           "a b /1 /2 c 3 > >", "a b a 2 1 3 > > >"]
    if deep:
        for n in (2, 3):
            for comps in itertools.product("abc"[:n], repeat=n):
                for order in itertools.permutations(range(1, n + 1)):
                    for hows in itertools.product(("", "!", "/"), repeat=n):
                        out.append(" ".join([*comps, *[h + str(k) for h, k in zip(hows, order)], *[">"] * (n + 1)]))
    return list(dict.fromkeys(out))


def requests(deep):
    out = ["a . >", "a a . > >", "a b . > >", "a . > a . >", "a . a > >", "a b . > a . > >", "a . > > a . >", "b a . > b > . >", "a #", "a , #", "a b , #", "a b c , #", "a . b , #", "a . #", "a a , . > >", "a , a . > >", "a b . > > b . >"]
    if deep:
        out += [" ".join(x) for n in (4, 5) for x in itertools.product("a", "ab.", *["ab.>,"] * (n - 3), ".>#")]
    return list(dict.fromkeys(out))


EVENTS = [
    [(0, "d", False)],
    [(0, "dsd", False), (1, "ss", False)],
    [(None, "", False), (5, "d", False), (4, "sd", False)],
    [(2, "d", True), (3, "dd", False)],
    [(-1, "d", False), ("x", "d", False), (1.5, "s", False)],
    [(1, "ds", False), (9, "sdd", True), (8, "d", False), (9, "", False)],
    [(3, "d", False)],
    [(0, "s", True), (0, "d", False), (0, "d", False)],
    [(1, "d", "c"), (2, "d", False)],
]


def _one(job):
    name, debug = job
    if name.startswith(("tasks: ", "tasks, ", "queue: ")):
        t = Tree(_CK[0])
        n0 = t.ck.states
        s = Requests(t, name[7:]) if name[0] == "q" else Delivery(t, name[7:], name[5] == ",")
        try:
            s.run()
        except StateCap:
            s.say("answer", "too many states")
        return name, s.bad, t.ck.states - n0
    t = Tree(_CK[0])
    n0 = t.ck.states
    t.debug = debug
    make = _MAKE.get(name) or _MAKE.setdefault(name, dict(scenarios(True))[name])
    shape, renders = make()
    s = Scenario(t, shape, *renders)
    try:
        s.run()
    except StateCap:
        s.say("answer", "too many states")
    return name, s.bad, t.ck.states - n0


_CK, _MAKE = [], {}


def explore(ck, deep):
    """[(scenario, [(what is wrong, text)])]"""
    ck.p.method(ck.p.cls(LAYOUT), "render")
    _CK[:] = [ck]
    _MAKE.update(scenarios(deep))
    names = [n for n, _ in scenarios(deep)] + [f"{k} {x}" for x in tasks(deep) for k in ("tasks:", "tasks,")] + [f"queue: {x}" for x in requests(deep)]
    # flow graphs are made once, before the work is shared out
    first = _one((names[0], False))
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        rest = pool.map(_one, [(n, False) for n in names[1:]], chunksize=4)
    ck.states += sum(r[2] for r in rest)
    return [(n, b) for n, b, _ in [first, *rest]]


def decide(ck, name, text, *whats):
    """One rule: in no scenario something of this kind is wrong."""
    ck.rule(name, text, 1)
    if not hasattr(ck, "trees"):
        ck.trees = explore(ck, ck.tier == "thorough")
    f = ck.p.method(ck.p.cls(LAYOUT), "render")
    ck.need(f is not None, "the layout has no render method")
    ck.uses(f.module.rel)
    where = f"{name_of(f)}: {name}"
    answered = [(n, b) for n, b in ck.trees if not any(w == "answer" for w, _ in b)]
    ck.undecided = len(ck.trees) - len(answered)
    wrong = [(n, x) for n, b in ck.trees for w, x in b if w in whats]
    for n, b in answered:
        if not any(w in whats for w, _ in b):
            ck.ob(True, f"{where}, {n}", f.loc())
    if wrong:
        n, x = min(wrong, key=lambda y: len(y[1]))
        ck.ob(False, where, f.loc(), x)
    if ck.undecided * 5 < len(ck.trees):
        ck.covered.add(name)
    elif not wrong:
        why = next(x for _, b in ck.trees for w, x in b if w == "answer")
        ck.open.append(f"{name}: {ck.undecided} of {len(ck.trees)} scenarios have no answer, e.g. {why}")
        ck.rules[name]["floor"] = 0
