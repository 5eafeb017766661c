"""Abstract interpretation of hooks over histories of renders.

What is rendered, the values and the functions handed to hooks are symbols of which only what the
hooks may ask for is known: their type, which of them are equal, what they close over. Life cycle
hooks are objects of the analysis; the hook functions are interpreted from their public names on."""
from __future__ import annotations

import ast
from types import SimpleNamespace

from .absint import State
from .flow import StateCap
from .lib import HOOK, name_of
from .objs import World, bind_call
from .tree import NONE, Tree, _atoms, _Closed

HM = "reactpy.core.hooks"
HL = "reactpy.core._life_cycle_hook"
STACK = ("O", "hook stack", 0)


def val(name, type="object", eq=None, how="eq"):
    """a value: which of its type it is equal to; how: 'eq', 'raises' (on comparing), 'vague' (no truth value)"""
    return ("S", "value", name, type, eq if eq is not None else name, how)


def fn(name, *cells, gives=None, code=None, local=False, plain=True):
    """a function of a user: what it closes over, and what it returns (or ('raise', exception))"""
    return ("S", "fn", name, tuple(cells), gives, code or name, local, plain)


class Hooks(Tree):
    closed = _Closed()

    def __init__(self, ck):
        World.__init__(self, ck, (HM, HL, "reactpy.utils", "reactpy.types"), {})
        self.opq = set(self.P.funcs)
        self.running = []
        self.comps, self.ids, self.lambdas, self.pending, self.failing = {}, set(), {}, [], {}
        self.stackq = next((q for q in (f"{HL}.{n}" for n in self.P.mod(HL).assigns) if (c := self.P.class_of_global(q)) is not None and self.P.method(c, "current_hook")), None)
        if self.stackq:
            self.classes[("g", self.stackq)] = self.P.class_of_global(self.stackq)

    def interpretable(self, f):
        return f.module.name in self.modules

    # ---- values
    def name(self, st, op):
        if op[0] == "g":
            q = self.P.resolve_dotted(op[1]) or op[1]
            if q == self.stackq:
                return ("g", q)
            f = self.P.funcs.get(q)
            if f is not None and f.cls is None:
                return ("F", q)
        return super().name(st, op)

    def attr(self, st, v, name):
        if v[:2] == ("S", "fn"):
            if name == "__closure__":
                return ("T", *[("S", "cell", c) for c in v[3]]) if v[3] else NONE
            if name in ("__name__",):
                return ("k", v[2])
            if name == "__qualname__":
                return ("k", f"f.<locals>.{v[2].split('@')[0]}" if v[6] else v[2])
            if name == "__code__":
                return ("S", "code", v[5], v[2])
            if name in ("__defaults__", "__kwdefaults__"):
                return NONE
        if v[0] == "closure":
            f = self.function(v[1])
            local = f is not None and f.parent is not None
            if name == "__closure__":
                return ("T", *[("S", "cell", x) for _, x in v[2]]) if v[2] else NONE
            if name == "__code__":
                return ("S", "code", v[1], v[1])
            if name == "__qualname__" and f is not None:
                return ("k", "<lambda>" if isinstance(f.node, ast.Lambda) else f.qual.removeprefix(f.module.name + ".") if local else f.name)
        if v[:2] == ("S", "code") and name.startswith("co_"):
            where = name in ("co_positions", "co_linetable", "co_lines", "co_lnotab", "co_branches", "co_firstlineno", "co_end_lineno", "co_col_offset", "co_end_col_offset")
            return ("S", "code attribute", name, v[3] if where else v[2] if isinstance(v[2], str) else dict(v[2]).get(name, "the same"))
        if v[:2] == ("S", "cell") and name == "cell_contents":
            return v[2]
        if v[:2] == ("S", "value") and name == "__class__":
            return ("S", "type", v[3])
        if v[0] == "closure" and name == "__kwdefaults__":
            f = self.function(v[1])
            kws = [(x.arg, d) for x, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults) if d is not None]
            if not kws:
                return NONE
            o = ("O", ("defaults", v), 0)
            st.heap.setdefault(o, ("dict", tuple((("k", n), self.default(d, dict(v[2]), f)) for n, d in kws)))
            return o
        if v[0] == "g" and v[1] == self.stackq:
            for c in self.P.mro(self.classes[v]):
                for n in c.node.body:
                    t = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) else None
                    if isinstance(t, ast.Name) and t.id == name and isinstance(n.value, ast.Call) and "ContextVar" in ast.unparse(n.value.func):
                        return ("S", "contextvar", name)
        if v[0] == "g" and v[1].endswith("REACTPY_DEBUG") and name == "current":
            return ("k", self.debug)
        if v[0] == "C" and isinstance(v[1], str) and v[1].startswith("class:"):
            c = self.P.classes.get(v[1][6:])
            if c is not None:
                fs = dict(self.fields(c, v))
                if name in fs:
                    return fs[name]
        return super().attr(st, v, name)

    def item(self, st, v, k):
        if v[0] == "C" and isinstance(v[1], str) and v[1].startswith("class:") and k[0] == "k" and isinstance(k[1], int):
            c = self.P.classes.get(v[1][6:])
            fs = self.fields(c, v) if c is not None else []
            if -len(fs) <= k[1] < len(fs):
                return fs[k[1]][1]
        return super().item(st, v, k)

    def default(self, d, env, f):
        if isinstance(d, ast.Constant):
            return ("k", d.value)
        if isinstance(d, ast.Name):
            return env.get(d.id, ("g", f"{f.module.name}.{d.id}"))
        return ("S", "default", ast.unparse(d))

    def kind(self, v):
        """type of a value"""
        if v[0] == "k":
            return type(v[1]).__name__
        if v[:2] == ("S", "value"):
            return v[3]
        if v[:2] == ("S", "fn") or v[0] == "closure" or v[0] == "F":
            return "function"
        if v[:2] == ("S", "obj"):
            return v[2]
        return None

    def truth(self, st, v):
        if v[0] == "S" and v[1] in ("fn", "cell", "code", "contextvar", "scheduler", "component", "setter"):
            return True
        if v[:2] == ("S", "value"):
            return True
        if v[0] in ("closure", "gen"):
            return True
        if v[0] == "op" and v[1] in ("Is", "Eq") and len(v) == 4:
            a, b = v[2], v[3]
            if any(x[:2] == ("S", "vague") for x in (a, b)):
                return None
            if {a[0], b[0]} == {"S", "k"} or {a[0], b[0]} == {"closure", "k"}:
                x = a if a[0] != "k" else b
                if x[0] == "closure" or x[1] in ("fn", "value", "cell", "code", "scheduler", "component", "type", "obj", "setter"):
                    return False
            if a[0] == b[0] == "closure":
                return a == b
            if v[1] == "Is" and "g" in (a[0], b[0]) and (a[0] in ("S", "closure", "k", "O") or b[0] in ("S", "closure", "k", "O")):
                return False
            if a[:2] == b[:2] == ("S", "value"):
                return a[3:5] == b[3:5] if v[1] == "Eq" else a == b
            if a[0] == b[0] == "S" and a[1] == b[1] and a[1] in ("fn", "type", "code attribute", "obj", "cell", "component", "code", "setter"):
                return a == b
            if a[0] == b[0] == "S" and a[1] != b[1] and {a[1], b[1]} <= {"fn", "type", "value", "obj", "component"}:
                return False
            if v[1] == "Is" and "b" in (a[0], b[0]) and "S" in (a[0], b[0]):
                return self.typename(a) == self.typename(b) if self.typename(a) and self.typename(b) else None
        return super().truth(st, v)

    def fails_as_condition(self, v):
        while v[0] == "op" and v[1] == "Not":
            v = v[2]
        return v == ("S", "vague")

    def typename(self, v):
        return v[2] if v[:2] == ("S", "type") else v[1] if v[0] == "b" else None

    def operate(self, st, fnm, args):
        if fnm in ("Eq", "NotEq") and any(a[:2] == ("S", "value") and a[5] == "vague" for a in args):
            return ("S", "vague")
        return super().operate(st, fnm, args)

    # ---- calls
    def call(self, ai, st, i, key, recv, args, kw):
        args = tuple(self.captured(ai, st, a) for a in args)
        kw = tuple((k, self.captured(ai, st, v)) for k, v in kw)
        if recv is not None:
            recv = self.captured(ai, st, recv)
        if key == "value" and recv[0] in ("g",) and self.P.resolve_dotted(recv[1]) in self.P.funcs:
            key, recv = self.P.resolve_dotted(recv[1]), None
        return super().call(ai, st, i, key, recv, args, kw)

    def captured(self, ai, st, v, seen=()):
        if v[0] != "F" or v in seen:
            return v
        for c in reversed(self.running):
            # the function which runs, or one which it refers to
            for x in (c, *[x for _, x in c[2]]):
                if x[0] == "closure" and x[1] == v:
                    return x
        r = super().captured(ai, st, v)
        if r[0] != "closure":
            return r
        return ("closure", v, tuple((n, self.captured(ai, st, x, (*seen, v)) if x[0] == "F" else x) for n, x in r[2]), self.fresh(st))

    def called_value(self, ai, st, recv, last, key):
        """the value which is called, if it is one"""
        if key == "value":
            return recv
        if recv is not None and ("@", recv, last) in st.heap:
            return st.heap[("@", recv, last)]
        if recv is not None and recv[0] == "C":
            v = self.attr(st, recv, last)
            return v
        return None

    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        d = dict(kw)
        v = self.called_value(ai, st, recv, last, key)
        if v is not None:
            r = self.calling(ai, st, i, v, args, kw)
            if r is not None:
                return r
        if recv is not None and recv[:2] == ("S", "contextvar"):
            st = st.copy()
            k = ("@", recv, "value")
            if last == "get":
                x = st.heap.get(k)
                return [("v", x)] if x is not None else [("v", args[0])] if args else [("raise", "LookupError")]
            if last == "set":
                old = st.heap.get(k, ("missing",))
                st.heap[k] = args[0] if args[0][0] != "new" else STACK
                return [("v", ("S", "token", old), st)]
            if last == "reset" and args and args[0][:2] == ("S", "token"):
                if args[0][2] == ("missing",):
                    st.heap.pop(k, None)
                else:
                    st.heap[k] = args[0][2]
                return [("v", NONE, st)]
        if recv is not None and recv[:2] == ("S", "component"):
            return [("v", NONE, self.note(st, last, recv))]
        if key.startswith("class:"):
            c = self.P.classes.get(key[6:])
            if c is not None and c.module.name in self.modules:
                rs = self.make(st, c, args, kw)
                if rs is not None:
                    return rs
        if key == "isinstance" and len(args) == 2:
            ts, x = self.types(args[1]), args[0]
            if x[0] in ("closure", "F") or x[:2] == ("S", "fn"):
                return [("v", ("k", bool(ts & ({"FunctionType", "Callable", "LambdaType"} if x[0] != "S" or x[7] else {"Callable"}))))]
            if x[:2] in (("S", "contextvar"), ("S", "value"), ("S", "component"), ("S", "token"), ("S", "type")):
                return [("v", ("k", x[:2] == ("S", "value") and x[3] in ts or x[:2] == ("S", "component") and bool(ts & {"Component", "ComponentType"})))]
            if x == ("k", Ellipsis):
                return [("v", ("k", bool(ts & {"ellipsis", "EllipsisType"})))]
        if key == "callable" and args:
            if args[0][0] in ("closure", "F") or args[0][:2] in (("S", "fn"), ("S", "setter")):
                return [("v", ("k", True))]
            if args[0][0] in ("k", "S", "O", "T"):
                return [("v", ("k", False))]
        if last == "iscoroutinefunction" and args and args[0][0] in ("S", "closure"):
            f = self.function(args[0][1]) if args[0][0] == "closure" else None
            return [("v", ("k", bool(f and f.is_async) or args[0][:2] == ("S", "fn") and args[0][2].startswith("async ")))]
        if key == "type" and args:
            k = self.kind(args[0])
            if k is not None:
                return [("v", ("S", "type", k))]
        if key == "hasattr" and len(args) == 2 and args[1][0] == "k":
            x, n = args[0], args[1][1]
            if x[:2] == ("S", "value"):
                return [("v", ("k", n in ("__eq__", "__ne__", "__hash__", "__class__", "__doc__")))]
            if x[:2] == ("S", "fn") or x[0] == "closure":
                return [("v", ("k", n in ("__eq__", "__code__", "__qualname__", "__name__", "__closure__", "__call__", "__module__")))]
        if key == "getattr" and len(args) in (2, 3) and args[1][0] == "k":
            x, n = args[0], args[1][1]
            if x[:2] == ("S", "value") and n.startswith("__") and n != "__class__":
                return [("v", args[2])] if len(args) > 2 else [("raise", "AttributeError")]
            if x[0] == "k" and not hasattr(x[1], n):
                return [("v", args[2])] if len(args) > 2 else [("raise", "AttributeError")]
            if x[:2] in (("S", "fn"), ("S", "code")):
                r = self.attr(st, x, n)
                if r is not None:
                    return [("v", r)]
        if key == "dir" and args and args[0][:2] == ("S", "code"):
            return [("v", ("new", "list", tuple(("k", n) for n in sorted(dir((lambda: 0).__code__)))))]
        if key == "object" and not args:
            st = st.copy()
            return [("v", ("S", "obj", "object", self.fresh(st)), st)]
        if key == "bool" and args and args[0] == ("S", "vague"):
            return [("raise", "ValueError")]
        if last in ("__eq__",) and recv is not None and len(args) == 1:
            return [("v", ai.op(st, "Eq", [recv, args[0]]))]
        if last == "getclosurevars" and args and args[0][:2] == ("S", "fn"):
            return [("v", ("S", "closure variables", args[0]))]
        if key in ("operator.eq", "operator.is_") and len(args) == 2:
            return [("v", ai.op(st, "Eq" if key.endswith("eq") else "Is", list(args)))]
        if key in ("map", "filter", "itertools.starmap") and len(args) >= 2:
            xs = [ai.spread(st, x) for x in args[1:]]
            if not any(y[0] == "star" for x in xs for y in x):
                rows = list(zip(*xs)) if key != "itertools.starmap" else [tuple(ai.spread(st, y)) for y in xs[0]]
                outs = []
                for r in rows:
                    rs = self.calling(ai, st, i, args[0], r, ())
                    if rs is None or len(rs) != 1 or rs[0][0] != "v":
                        return None
                    outs.append(rs[0][1])
                    st = rs[0][2] if len(rs[0]) > 2 else st
                return [("v", ("T", *outs) if key != "filter" else ("T", *[y for (y,), t in zip(rows, outs) if ai.truth(st, t)]), st)]
        if last == "current_thread" or last == "get_ident":
            return [("v", ("S", "thread"))]
        return super().ext(ai, st, i, key, recv, args, kw)

    def make(self, st, c, args, kw):
        """an object of a class of the repository"""
        if self.P.method(c, "__init__") is None and not kw and not args or self.P.method(c, "__init__") is not None:
            st = st.copy()
            o = ("S", "obj", c.qual, self.fresh(st))
            f = self.P.method(c, "__init__")
            if f is None:
                return [("v", o, st)]
            if f.module.name not in self.modules:
                return None
            outs = self.interpret(f, o, args, kw, st)
            if outs is None:
                return None
            return [("v", o, self.after(st, x)) if x.kind == "exit" else ("raise", x.value[1] if x.value[0] == "exc" else "Exception", x.value, self.after(st, x)) for x in outs]
        return None

    def calling(self, ai, st, i, v, args, kw):
        """results of calling a value"""
        if v[0] == "closure" or v[0] == "F" and v[1] == "lambda" or v[0] == "F" and len(v) == 2 and v[1] in self.P.funcs and self.P.funcs[v[1]].module.name in self.modules:
            if v[0] == "F":
                v = self.captured(ai, st, v) if ai is not None else v
            f = self.function(v[1]) if v[0] == "closure" else self.function(v)
            if f is None:
                return None
            outs = self.apply(st, v, *args, kw=kw)
            if outs is None:
                return None
            return [("v", o.value, self.after(st, o)) if o.kind == "exit" else ("raise", o.value[1] if o.value[0] == "exc" and isinstance(o.value[1], str) else "Exception", o.value, self.after(st, o)) for o in outs]
        if v[0] == "C" and v[1] == "functools.partial":
            return self.calling(ai, st, i, v[2][0], (*v[2][1:], *args), (*v[3], *kw))
        if v[0] == "attr" or v[0] == "bound":
            t = self.target(st, v)
            if t is not None:
                outs = self.interpret(t[0], t[1], args, kw, st)
                return None if outs is None else [("v", o.value, self.after(st, o)) if o.kind == "exit" else ("raise", "Exception", o.value, self.after(st, o)) for o in outs]
        c = self.P.classes.get(self.P.resolve_dotted(v[1]) or v[1]) if v[0] in ("class", "g") and isinstance(v[1], str) else None
        if c is not None and c.module.name in self.modules:
            return self.make(st, c, args, kw)
        if v[:2] == ("S", "scheduler"):
            return [("v", NONE, self.note(st, "scheduled", v))]
        if v[:2] == ("S", "fn"):
            n = sum(e[:2] == ("called", v[2]) for e in st.ev)
            ns = self.note(st, "called", v[2], *args)
            g = v[4]
            if g is not None and g[0] == "per call":
                g = g[1:][min(n, len(g) - 2)]
            if g is None:
                g = ("S", "value", f"{v[2]}({', '.join(show(a) for a in args)})", "object", f"{v[2]}({', '.join(show(a) for a in args)})", "eq")
            if g[0] == "raise":
                return [("raise", g[1], NONE, ns)]
            return [("v", g, ns)]
        return None

    def after(self, st, o):
        ns = st.copy()
        ns.heap, ns.ev, ns.facts = dict(o.st.heap), o.st.ev, dict(o.st.facts)
        return ns

    def on(self, ai, st, i, o, m, args, kw):
        if o[1] == "obj" and o[2] == HOOK and m == "add_effect":
            return [("v", NONE, self.note(st, "effect", o, *args))]
        if o[1] in ("obj", "fn", "value", "contextvar"):
            return None
        return super().on(ai, st, i, o, m, args, kw)

    def apply(self, st, v, *args, kw=()):
        env = {n: v if x == v[1] else x for n, x in v[2]} if v[0] == "closure" else {}
        f = self.function(v[1]) if v[0] == "closure" else self.function(v)
        if f is None:
            return super().apply(st, v, *args)
        a = f.node.args
        given = {k for k, _ in kw}
        extra = tuple((x.arg, self.default(d, env, f)) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None and x.arg not in given)
        pos = [x.arg for x in a.posonlyargs + a.args]
        for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            if pos.index(x) >= len(args) and x not in given:
                extra += ((x, self.default(d, env, f)),)
        self.frames.append((SimpleNamespace(params=env), State({}, dict(st.heap))))
        self.running.append(v if v[0] == "closure" else ("", v, ()))
        try:
            return self.interpret(f, None, args, (*kw, *extra), st)
        finally:
            self.frames.pop()
            self.running.pop()

    def interpret(self, f, selfv, args, kw, st):
        outs = super().interpret(f, selfv, args, kw, st)
        if outs and (f.nested or any(isinstance(n, ast.Lambda) for n in ast.walk(f.node))):
            ps = bind_call(f, args, kw)
            first = f.params()[:1]
            if selfv is not None and first:
                ps[first[0]] = selfv
            for o in outs:
                self.shut(o, f, SimpleNamespace(params=ps))
        return outs

    def shut(self, o, f, ai):
        """functions of the frame which outlive it keep what they refer to"""
        done = {}

        def walk(v):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] == "F":
                g = self.function(v)
                if g is None or g.parent is None or g.parent is not f and g.parent.qual != f.qual:
                    return v
                if v not in done:
                    done[v] = self.captured(ai, o.st, v)
                return done[v]
            if v[0] in ("k", "S", "g", "b"):
                return v
            if v[0] == "closure":
                return (*v[:2], tuple((n, walk(x)) for n, x in v[2]), *v[3:])
            w = tuple(walk(x) if isinstance(x, tuple) else x for x in v)
            return w if w != v else v

        o.value = walk(o.value)
        for k, v in list(o.st.heap.items()):
            w = walk(v)
            if w is not v and w != v:
                o.st.heap[k] = w


def show(v):
    if v[0] == "k":
        return repr(v[1])
    if v[0] == "S" and v[1] in ("value", "fn"):
        return v[2]
    return v[0]


class NoAnswer(Exception):
    pass


class History:
    """One history of renders; what is wrong is collected in `bad`."""

    def __init__(self, world):
        self.w, self.bad = world, []
        self.st = State({}, {("@", ("S", "none"), "x"): NONE, STACK: ("list", ())})
        for c in (world.P.mro(world.classes[("g", world.stackq)]) if world.stackq else ()):
            for n in c.node.body:
                t = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) else None
                if isinstance(t, ast.Name):
                    self.st.heap[("@", ("S", "contextvar", t.id), "value")] = STACK
        self.hooks = 0

    def say(self, text):
        self.bad.append(text)

    def one(self, rs, what):
        """go on with the only result"""
        if not rs:
            raise NoAnswer(f"{what} has no result")
        if len(rs) > 1 and len({(r[0], r[1]) for r in rs}) > 1 or len(rs) > 1 and len({(r[2] if r[0] == 'v' else r[3]).key() for r in rs if len(r) > 2}) > 1:
            raise NoAnswer(f"{what} has {len(rs)} results")
        r = rs[0]
        st = (r[2] if len(r) > 2 else None) if r[0] == "v" else (r[3] if len(r) > 3 else None)
        if st is not None:
            self.st = State({}, dict(st.heap), {}, st.ev)
        if r[0] == "v" and r[1][0] == "new":
            o = ("O", "result", self.w.fresh(self.st))
            self.st.heap[o] = r[1][1:]
            return "v", o
        return r[0], r[1]

    def call(self, f, *args, **kw):
        """call a hook function, or a value: (kind, value)"""
        if isinstance(f, str):
            q = f"{HM}.{f}"
            g = self.w.P.funcs.get(q)
            if g is None:
                raise NoAnswer(f"{f} is not a function of the hooks module")
            outs = self.w.apply(self.st, ("F", q), *args, kw=tuple(kw.items()))
            rs = [("v", o.value, o.st) if o.kind == "exit" else ("raise", o.value[1] if o.value[0] == "exc" and isinstance(o.value[1], str) else "Exception", o.value, o.st) for o in outs or []]
            return self.one(rs, f)
        return self.one(self.w.calling(None, self.st, None, f, args, tuple(kw.items())), "calling what a hook returned")

    def get(self, f, *args, **kw):
        k, v = self.call(f, *args, **kw)
        if k != "v" and v == "ValueError":
            # that of comparing values
            self.say(f"{f if isinstance(f, str) else 'what a hook returned'} fails where the comparison of two values does")
        if k != "v":
            raise NoAnswer(f"{f if isinstance(f, str) else 'what a hook returned'} raises {v}")
        return v

    def part(self, v, n):
        """element of what use_state or use_reducer returns"""
        if v[0] == "T":
            return v[1 + n]
        if v[0] == "C":
            x = self.w.item(self.st, v, ("k", n))
            if x is not None:
                return x
        raise NoAnswer("the value of a state is not found in what a hook returns")

    def method(self, o, name, *args):
        c = self.w.cls_of(self.st, o)
        f = self.w.P.method(c, name) if c is not None else None
        if f is None:
            raise NoAnswer(f"{name} is not a method")
        outs = self.w.interpret(f, o, args, (), self.st)
        rs = [("v", o.value, o.st) if o.kind == "exit" else ("raise", o.value[1] if o.value[0] == "exc" and isinstance(o.value[1], str) else "Exception", o.value, o.st) for o in outs or []]
        return self.one(rs, name)

    def hook(self):
        self.hooks += 1
        c = self.w.P.cls(HOOK)
        k, v = self.one(self.w.make(self.st, c, (("S", "scheduler", self.hooks),), ()), "a life cycle hook")
        return v

    def begin(self, hook, comp="c"):
        k, v = self.method(hook, "affect_component_will_render", ("S", "component", comp))
        if k != "v":
            raise NoAnswer("a render does not begin")

    def end(self, hook):
        k, v = self.method(hook, "affect_component_did_render")
        if k != "v":
            raise NoAnswer("a render does not end")

    def since(self, n, what):
        return [e for e in self.st.ev[n:] if e[0] == what]

    def list(self, *xs):
        o = ("O", "given", self.w.fresh(self.st))
        self.st.heap[o] = ("list", tuple(xs))
        return o


def explore(ck, histories):
    """[(name, [what is wrong] or None if there is no answer, why)]"""
    out = []
    for name, run in histories:
        h = History(Hooks(ck))
        try:
            run(h)
            out.append((name, h.bad, ""))
        except NoAnswer as e:
            out.append((name, h.bad or None, str(e)))
        except StateCap:
            out.append((name, h.bad or None, "too many states"))
    return out


def decide(ck, name, text, histories, where):
    ck.rule(name, text, 1)
    f = ck.p.func(where)
    rs = explore(ck, histories)
    no = [(n, why) for n, b, why in rs if b is None]
    for n, b, _ in rs:
        if b == []:
            ck.ob(True, f"{name_of(f)}: {name}, {n}", f.loc())
    for n, b, _ in rs:
        for x in dict.fromkeys(b or []):
            ck.ob(False, f"{name_of(f)}: {name}, {n}", f.loc(), x)
    if not no:
        ck.covered.add(name)
    elif not any(b for _, b, _ in rs):
        ck.open.append(f"{name}: {len(no)} of {len(rs)} histories have no answer, e.g. {no[0][0]}: {no[0][1]}")
        if len(no) == len(rs):
            ck.rules[name]["floor"] = 0
