"""Interpretation of methods of known classes: calls on objects of the analysis are interpreted in
the most derived definition, constructed objects carry what their constructor was given."""
from __future__ import annotations

import ast

from . import consts
from .absint import Abs, Model
from .lib import flow, is_agen

SELF = ("S", "self")


def bind_call(f, args, kw, skip=("self", "cls")):
    """{parameter: value} of a call of f, constant defaults filled in"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    ds = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults)) | {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    out = {n: ("k", x.value) for n, x in ds.items() if isinstance(x, ast.Constant)}
    out.update({n: ("g", f"{f.module.name}.{x.id}") for n, x in ds.items() if isinstance(x, ast.Name)})
    out.update({n: ("T",) for n, x in ds.items() if isinstance(x, ast.Tuple) and not x.elts})
    if pos and pos[0] in skip:
        pos = pos[1:]
    out.update(zip(pos, args))
    if a.vararg:
        out[a.vararg.arg] = ("T", *args[len(pos):])
    named = set(pos) | {x.arg for x in a.kwonlyargs}
    rest = []
    for k, v in kw:
        if k in named:
            out[k] = v
        else:
            rest.append((k, v))
    if a.kwarg:
        if len(rest) == 1 and rest[0][0] is None:
            out[a.kwarg.arg] = rest[0][1]
        else:
            out[a.kwarg.arg] = ("kwargs", tuple(rest))
    return out


def is_property(f):
    return any(d == "property" or str(d).endswith((".getter", "cached_property")) for d in f.decorators)


def empty(n):
    """kind of an expression for an empty container"""
    if isinstance(n, (ast.Dict, ast.List)):
        return {ast.Dict: "dict", ast.List: "list"}[type(n)] if not (n.keys if isinstance(n, ast.Dict) else n.elts) else None
    if isinstance(n, ast.Call) and not n.args and not n.keywords:
        f = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
        return {"dict": "dict", "OrderedDict": "dict", "WeakValueDictionary": "dict", "list": "list", "set": "set"}.get(f)
    return None


class World(Model):
    exact = True
    closed = ()  # objects which have no attributes but those assigned and those of their class
    clip = 24
    lazy = False  # whether coroutines run only when they are awaited
    most = 60000  # states of one function
    deepest = 12  # calls within calls
    tables = False  # whether containers of modules are followed

    def __init__(self, ck, modules, classes=None, opaque=()):
        """modules: whose plain functions and methods are interpreted, except those in `opaque`"""
        self.ck, self.P = ck, ck.p
        self.modules, self.opaque = tuple(modules), set(opaque)
        self.classes = classes or {}
        P = ck.p
        self.opq = {q for q, f in P.funcs.items() if f.module.name not in self.modules or f.cls or q in self.opaque}
        self.depth = 0
        self.frames = []  # (interpretation, state) of the calls under way

    def name(self, st, op):
        if op[0] == "free":
            for ai, s in reversed(self.frames):
                vs = [v for k, v in s.env.items() if k[0] == "v" and k[2] == op[2]]
                if vs:
                    return vs[-1]
                if op[2] in ai.params:
                    return ai.params[op[2]]
        if op[0] == "g" and self.tables:
            mod, _, n = (self.P.resolve_dotted(op[1]) or op[1]).rpartition(".")
            m = self.P.modules.get(mod)
            vs = m.assigns.get(n) if m else None
            if vs and len(vs) == 1:
                k = empty(vs[0])
                o = ("O", "global " + mod + "." + n, 0)
                if k:
                    st.heap.setdefault(o, (k, ()))
                    return o
                d = self.constant(mod, n)
                if isinstance(d, dict):
                    st.heap.setdefault(o, ("dict", tuple((("k", x), ("k", y)) for x, y in d.items())))
                    return o
                if isinstance(d, (set, frozenset)):
                    return ("k", frozenset(d))
                if isinstance(d, (list, tuple)):
                    return ("T", *[("k", x) for x in d])
        return None

    def constant(self, mod, n):
        """the container a module level name stands for"""
        c = self.P.__dict__.setdefault("_consts", {})
        if (mod, n) not in c:
            try:
                c[mod, n] = v = consts.value(self.P, f"{mod}.{n}")
                flat = [*v.keys(), *v.values()] if isinstance(v, dict) else v if isinstance(v, (set, frozenset, list, tuple)) else [v]
                if not all(x is None or isinstance(x, (str, int, float, bytes)) for x in flat):
                    c[mod, n] = None
            except Exception:
                c[mod, n] = None
        return c[mod, n]

    # what subclasses say about external calls
    def ext(self, ai, st, i, key, recv, args, kw):
        return None

    def cls_of(self, st, v):
        if v in self.classes:
            return self.classes[v]
        if isinstance(v, tuple) and v and v[0] == "C" and isinstance(v[1], str) and v[1].startswith("class:"):
            return self.P.classes.get(v[1][6:])
        return None

    def attr(self, st, v, name):
        c = self.cls_of(st, v)
        if c is None:
            return None
        if v[0] == "C":
            for k, x in self.fields(c, v):
                if k == name:
                    return x
        r = self.class_attr(c, name)
        if r is None and v in self.closed and self.P.method(c, name) is None and not name.startswith("__"):
            return ("missing",)
        return r

    def access(self, ai, st, i, how, obj, name, val):
        """properties run code"""
        P = self.P
        me = obj
        if obj[0] == "C" and obj[1] == "super":
            me = ai.params.get("self", SELF)
            c = self.cls_of(st, me)
            here = P.funcs.get(i.func.qual)
            mro = P.mro(c) if c else []
            if here is not None and here.cls in mro:
                mro = mro[mro.index(here.cls) + 1:]
        else:
            c = self.cls_of(st, obj)
            mro = P.mro(c) if c else []
        key = name + {"get": "", "set": "@setter", "del": "@deleter"}[how]
        f = next((x.methods[key] for x in mro if key in x.methods), None)
        if f is None or how == "get" and not is_property(f) or not self.interpretable(f):
            return None
        self.frames.append((ai, st))
        try:
            return self.results(f, self.interpret(f, me, (val,) if how == "set" else (), (), st), st, i)
        finally:
            self.frames.pop()

    def class_attr(self, c, name):
        for x in self.P.mro(c):
            for n in x.node.body:
                t = n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else n.target if isinstance(n, ast.AnnAssign) and n.value is not None else None
                if isinstance(t, ast.Name) and t.id == name and isinstance(n.value, ast.Constant):
                    return ("k", n.value.value)
        return None

    def fields(self, c, v):
        """attributes of an object made by a dataclass-like constructor"""
        if self.P.method(c, "__init__") is not None:
            return []
        names = [n.target.id for n in c.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]
        return [*zip(names, v[2]), *[(k, x) for k, x in v[3] if k]]

    def truth(self, st, v):
        if v in self.classes or v[0] in ("F", "bound"):
            return True
        if v[0] == "C" and isinstance(v[1], str) and v[1].startswith("class:"):
            c = self.P.classes.get(v[1][6:])
            if c and not self.P.method(c, "__bool__") and not self.P.method(c, "__len__"):
                return True
        if v[0] == "op" and v[1] == "Is" and v[3] == ("k", None) and (v[2] in self.classes or v[2][0] in ("F", "O", "T", "re", "match", "str", "C")):
            if v[2][0] != "C" or self.truth(st, v[2]):
                return False
        return None

    def interpret(self, f, selfv, args, kw, st):
        """outcomes of calling f"""
        self.depth += 1
        try:
            if self.depth > self.deepest:
                return None
            ps = bind_call(f, args, kw)
            a = f.node.args
            if a.kwarg and ps.get(a.kwarg.arg, ("",))[0] == "kwargs":
                o = ("O", "kwargs", 50 + self.depth)
                while self.distinct and o in st.heap:
                    o = (*o[:2], o[2] + 100)
                st = st.copy()
                st.heap[o] = ("dict", tuple((("k", k), v) for k, v in ps[a.kwarg.arg][1] if k))
                ps[a.kwarg.arg] = o
            first = f.params()[:1]
            if selfv is not None and first:
                ps[first[0]] = selfv
            ai = Abs(flow(self.ck, f, self.opq), ps, self, cap=self.most, heap=dict(st.heap) or {("@", ("S", "none"), "x"): ("k", None)}, ev=st.ev, facts=dict(st.facts))
            self.ck.states += ai.states
            return ai.ended
        finally:
            self.depth -= 1

    # coroutines which nobody awaits never run
    def coro(self, st, v, i):
        mark = ("coro", i.func.qual, i.id)
        st.heap[("@", ("S", "unawaited"), mark)] = ("k", i.line)
        return ("awaitable", v, mark)

    def awaited(self, st, v, i):
        if v[0] == "awaitable" and len(v) > 2:
            st.heap.pop(("@", ("S", "unawaited"), v[2]), None)

    @staticmethod
    def unawaited(o):
        return sorted({v[1] for k, v in o.st.heap.items() if k[0] == "@" and k[1] == ("S", "unawaited")})

    def results(self, f, outs, st, i):
        if outs is None:
            return None
        res, seen = [], set()
        gen = is_agen(f) and not f.is_async
        for o in outs:
            ns = st.copy()
            ns.heap, ns.ev = dict(o.st.heap), o.st.ev
            ns.facts = dict(o.st.facts)
            v = o.value
            if gen:
                new = ns.ev[len(st.ev):]
                ns.ev = st.ev + tuple(e for e in new if e[0] != "yield")
            if o.kind == "exit":
                if gen:
                    v = ("T", *[e[1] for e in new if e[0] == "yield"])
                if isinstance(f.node, ast.AsyncFunctionDef):
                    v = self.coro(ns, v, i)
                r = ("v", v, ns)
            elif o.kind == "exc_exit" or o.kind == "cancel_exit" and self.escapes and v[0] == "exc":
                r = ("raise", v[1] if v[0] == "exc" and isinstance(v[1], str) else v[1] if v[0] == "C" else "Exception", v[2] if v[0] == "exc" and len(v) > 2 else v, ns)
                if isinstance(f.node, ast.AsyncFunctionDef) and all(l != "e" for _, l in i.succ):
                    r = ("v", ("failing", r[1], r[2]), ns)  # when it is awaited
            else:
                continue
            k = (r[0], r[1], r[2] if r[0] == "raise" else None, ns.key())
            if k not in seen:
                seen.add(k)
                res.append(r)
        return res or []

    def callee(self, ai, st, i, key, recv, args):
        """(function, self value) if the callee is known"""
        P = self.P
        c = i.a["callee"]
        if recv is not None and recv[0] == "C" and recv[1] == "super":
            f = P.funcs.get(key)
            return (f, ai.params.get("self", SELF)) if f else None
        if c[0] == "repo" and i.a["fn"][0] == "f" or recv is not None and recv[0] == "g" and c[0] == "repo" and P.resolve_dotted(recv[1]) in P.classes:
            f = P.funcs.get(key)
            if f is None or f.cls is None or f.parent is not None:
                return (f, None) if f else None
            if any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.node.decorator_list):
                return f, None
            return f, "first argument"
        if key == "value":
            v = recv
        elif recv is not None and (c[0] == "method" or c[0] == "repo"):
            name = c[2] if c[0] == "method" else key.rsplit(".", 1)[-1]
            v = ai.getattr(st, recv, name)
        else:
            f = P.funcs.get(key)
            return (f, None) if f and (f.cls is None or f.parent is not None) else None
        return self.target(st, v)

    def target(self, st, v):
        """what calling a value calls"""
        P = self.P
        if v[0] == "attr":
            k = self.cls_of(st, v[1])
            if k is not None:
                f = P.method(k, v[2])
                if f is not None:
                    static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.node.decorator_list)
                    return f, None if static else v[1]
            return None
        if v[0] == "F" and len(v) == 2:
            f = P.funcs.get(v[1])
            return (f, None) if f else None
        k = self.cls_of(st, v)
        if k is not None:
            f = P.method(k, "__call__")
            return (f, v) if f else None
        return None

    def interpretable(self, f):
        return f.module.name in self.modules and f.qual not in self.opaque

    def call(self, ai, st, i, key, recv, args, kw):
        for x in (*args, *[v for _, v in kw]):
            self.awaited(st, x, i)  # whoever gets a coroutine has to care for it
        r = self.ext(ai, st, i, key, recv, args, kw)
        if r is not None:
            return r
        if key == "hasattr" and len(args) == 2 and args[0] in self.closed and args[1][0] == "k":
            return [("v", ("k", ai.getattr(st, *args[:1], args[1][1]) != ("missing",)))]
        if key in ("getattr", "setattr", "delattr") and args and args[0] in self.closed and args[1:] and args[1][0] == "k":
            how, n = key[:3], args[1][1]
            rs = self.access(ai, st, i, how, args[0], n, args[2] if how == "set" and len(args) > 2 else None)
            if rs is not None:
                return rs
            if how == "get":
                v = ai.getattr(st, args[0], n)
                return [("v", v)] if v != ("missing",) else [("v", args[2])] if len(args) > 2 else [("raise", "AttributeError")]
            st = st.copy()
            if how == "set":
                st.heap[("@", args[0], n)] = args[2]
            elif st.heap.pop(("@", args[0], n), None) is None:
                return [("raise", "AttributeError")]
            return [("v", ("k", None), st)]
        t = self.callee(ai, st, i, key, recv, args)
        if t is None or not self.interpretable(t[0]):
            return None
        f, me = t
        if any(str(d).endswith("contextmanager") for d in f.decorators):
            return [("v", ("C", "manager", (f.qual, *args), tuple(kw)))]
        if me == "first argument":
            me, args = (args[0], args[1:]) if args else (None, args)
        if self.lazy and isinstance(f.node, ast.AsyncFunctionDef) and not is_agen(f) and not any(ai.g.instrs[s].op == "await" and ai.g.instrs[s].a["src"] == i.dst for s, _ in i.succ):
            return [("v", ("coroutine", f.qual, me, tuple(args), tuple(kw)))]
        self.frames.append((ai, st))
        try:
            return self.results(f, self.interpret(f, me, args, kw, st), st, i)
        finally:
            self.frames.pop()
