"""Abstract interpretation of a flow graph over classes of values.

Parameters get abstract values (symbols standing for every value of a class); the interpreter
computes, to a fixpoint, which abstract states reach each exit.  Nothing is executed: tests whose
outcome the classes do not determine take both branches, loops over collections of unknown size
are iterated until no new state appears, containers are abstracted to what they may hold.

Values
  ('k', c)            constant              ('S', name, ...)    symbol of the analysis
  ('O', site)         container, contents in the heap: ('list', items) / ('dict', ((key, value), ...))
  ('T', v, ...)       tuple                 ('str', part, ...)  concatenation
  ('C', callee, args, kw)  result of a call that is not interpreted
  ('attr', v, n) ('item', v, k) ('op', fn, v, ...) ('F', function) ('exc', name, value)
"""
from __future__ import annotations

import ast
import builtins
import re
from collections import deque

from .flow import StateCap, operands

PURE_STR = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "title", "isidentifier", "isdigit", "replace", "split", "rsplit", "partition", "rpartition", "removeprefix", "removesuffix", "encode", "decode", "join", "format", "capitalize", "casefold", "count", "find", "index", "isupper", "islower", "isspace", "hex", "splitlines"}
MAXLIST = 10


class State:
    __slots__ = ("env", "heap", "facts", "ev")

    def __init__(self, env=None, heap=None, facts=None, ev=()):
        self.env, self.heap, self.facts, self.ev = env or {}, heap or {}, facts or {}, ev

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), self.ev)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.facts.items()), self.ev)


class Outcome:
    def __init__(self, kind, value, st, path):
        self.kind, self.value, self.st, self.path = kind, value, st, path

    def deep(self, v=None, depth=8):
        return deep(self.st, self.value if v is None else v, depth)

    def __repr__(self):
        return f"<{self.kind} {self.deep()!r} {dict(self.st.facts)} {self.st.ev}>"


def deep(st, v, depth=8):
    """value with the contents of its containers in place"""
    if not isinstance(v, tuple) or not v or depth <= 0:
        return v
    if v[0] == "O":
        c = st.heap.get(v)
        if c is None:
            return v
        if c[0] == "dict":
            return ("dict", tuple((deep(st, k, depth - 1), deep(st, x, depth - 1)) for k, x in c[1]))
        return (c[0], tuple(deep(st, x, depth - 1) for x in c[1]))
    if v[0] in ("k", "S", "g", "b", "F"):
        return v
    return tuple(deep(st, x, depth - 1) if isinstance(x, tuple) else x for x in v)


class Model:
    """What the analysis knows about values; the default knows nothing."""

    distinct = False  # whether objects made at the same place are kept apart
    maxlist = MAXLIST  # elements a list may get one after another
    yields = 60  # values one generator may give
    clip = 7  # depth to which arguments of unknown calls are kept
    collect = True  # whether containers nobody refers to are forgotten
    escapes = False  # whether errors the flow graph has no edge for end the function
    hierarchy = False  # whether it is known which handlers an exception of a known class goes to
    exact = False  # collections have exactly the elements of their abstraction

    def call(self, ai, st, i, key, recv, args, kw):
        """None, or a list of ('v', value[, state]) / ('raise', name, value)"""
        return None

    def truth(self, st, v):
        return None

    def fails_as_condition(self, v):
        return False

    def attr(self, st, v, name):
        return None

    def item(self, st, v, k):
        return None

    def elements(self, st, v):
        """for a collection of unknown size: its elements (at least one of them)"""
        return None

    def name(self, st, op):
        """value of a global, builtin or free name"""
        return None

    def operate(self, st, fn, args):
        """value of an operator"""
        return None

    def setattr(self, st, obj, name, val, i):
        pass

    def access(self, ai, st, i, how, obj, name, val):
        """for attributes which run code ("get", "set", "del"): results, like call"""

    def awaited(self, st, v, i):
        """may give results, like call"""

    def yielded(self, ai, st, v, i):
        """what whoever gets a value of a generator does with it; may give results, like call"""

    def entered(self, st, cm, i):
        """value of `with cm as value`"""
        return None

    def exited(self, st, cm, i):
        pass


class Abs:
    def __init__(self, fl, params, model, cap=60000, heap=None, ev=(), facts=None):
        self.fl, self.g, self.m, self.cap = fl, fl.g, model, cap
        self.P = fl.g.project
        self.params = params
        self.heap0 = heap or {}
        self.level = 1 + max([k[2] for k in self.heap0 if k[0] == "O" and len(k) > 2], default=0) if self.heap0 else 0
        self.st0 = (facts or {}, ev)
        self.ended = []
        if not hasattr(fl.g, "_live"):
            fl.g._live = _captured({i.func for i in fl.g.live()}), self._liveness()
        self.captured, self.live = fl.g._live
        self.run()

    # ------------------------------------------------------------ liveness
    def _liveness(self):
        g = self.g
        ids = [i.id for i in g.live()]
        use, dfn = {}, {}
        for i in g.live():
            u = {o for o in operands(i) if o and o[0] in ("v", "t", "free", "gv")}
            for x in i.a.get("args", []) if i.op == "enter" else []:
                u.add(x[1])
            if i.op == "leave":
                u.add(i.a["ret"])
            if i.op == "call" and i.a["callee"][0] == "method":
                u.add(i.a["callee"][1])
            if i.op == "call" and i.a["callee"][0] == "repo" and i.a["fn"] and i.a["fn"][0] == "t":
                d = g.deftmp.get(i.a["fn"][1])
                if d is not None and d.op == "getattr":
                    u.add(d.a["obj"])
            use[i.id] = u
            dfn[i.id] = i.dst
        f0 = self.frame0()
        rets = {d for d in dfn.values() if d and d[0] == "v" and d[2] == "$ret" and d[1] == f0}
        live = {n: set() for n in ids}
        live[g.exit] = set(rets)
        todo = deque(ids)
        inq = set(ids)
        while todo:
            n = todo.popleft()
            inq.discard(n)
            out = set()
            for s, _ in g.instrs[n].succ:
                out |= live.get(s, set())
            new = (out - {dfn[n]} if dfn[n] and g.instrs[n].op != "next" else out) | use[n]
            if n == g.exit:
                new |= rets
            if new != live[n]:
                live[n] = new
                for p, _ in g.instrs[n].pred:
                    if p not in inq and p in live:
                        inq.add(p)
                        todo.append(p)
        return live

    # ------------------------------------------------------------ values
    def val(self, st, op):
        if op is None:
            return ("k", None)
        k = op[0]
        if k == "k":
            return op if _hashable(op[1]) else ("k?", repr(op[1]))
        if k == "p":
            return self.params.get(op[2], ("S", "param", op[2]))
        if k in ("v", "t", "gv"):  # noqa
            if op in st.env:
                return st.env[op]
            return ("S", "unbound", op[-1]) if k == "v" else self._name(st, op)
        if k == "f":
            return ("F", op[1].qual)
        if k == "l":
            return ("F", "lambda", op[1].lineno, op[1].col_offset)
        if k in ("g", "b", "free"):
            if k == "free" and op in st.env:
                return st.env[op]
            return self._name(st, op)
        if k == "exc":
            return st.env.get(("exc",), ("S", "exception"))
        return ("S",) + tuple(op)

    def _name(self, st, op):
        v = self.m.name(st, op)
        if v is not None:
            return v
        if op[0] == "g":
            c = self._const(op[1])
            if c is not None:
                return c
        return op

    def _const(self, qual):
        P = self.P
        mod, _, nm = P.resolve_dotted(qual).rpartition(".")
        m = P.modules.get(mod)
        vs = m.assigns.get(nm) if m else None
        if not vs or len(vs) != 1:
            return None
        v = vs[0]
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("frozenset", "set", "tuple") and len(v.args) == 1:
            v = v.args[0]
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "compile" and len(v.args) == 1 and isinstance(v.args[0], ast.Constant) and isinstance(v.args[0].value, str):
            return ("re", v.args[0].value)
        try:
            r = ast.literal_eval(v)
        except (ValueError, SyntaxError):
            return None
        if isinstance(r, (set, list)):
            r = tuple(r) if isinstance(r, list) else frozenset(r)
        if isinstance(r, dict):
            return None
        return ("k", r) if _hashable(r) else None

    def truth(self, st, v):
        """True / False / None"""
        if v in st.facts:
            return st.facts[v]
        k = v[0]
        if k == "k":
            return bool(v[1])
        if k in ("F", "re", "match"):
            return True
        r = self.m.truth(st, v)
        if r is not None:
            return r
        if k == "O":
            c = st.heap.get(v)
            return bool(c[1]) if c and not (c[0] in ("list", "set") and c[1] == (("S", "any"),)) else None
        if k == "T":
            return len(v) > 1
        if k == "str":
            if any(p[0] == "k" and p[1] for p in v[1:]):
                return True
            return None
        if k == "op":
            fn = v[1]
            if fn == "Not":
                t = self.truth(st, v[2])
                return None if t is None else not t
            if fn == "allof":
                ts = [self.truth(st, x) for x in v[2:]]
                return False if False in ts else True if all(ts) else None
            if fn in ("Is", "Eq"):
                a, b = v[2], v[3]
                if a == b and (fn == "Is" or a[0] in ("k", "S")) and not (fn == "Is" and a[0] == "k" and type(a[1]) is not type(b[1])):
                    return True
                if fn == "Is" and {a[0], b[0]} in ({"k", "O"}, {"k", "T"}, {"k", "F"}):
                    return False
                for x, y in ((a, b), (b, a)):
                    if y == ("k", None) and x[0] in ("O", "T", "F", "str", "re", "match"):
                        return False
                    if y == ("k", None) and x[0] == "C" and isinstance(x[1], str) and x[1].startswith("class:"):
                        return False
                    if y == ("k", None) and x[0] not in ("k",):
                        # a truthy value is not None
                        if self.known(st, x) is True:
                            return False
                if a[0] == "b" and b[0] == "b":
                    return a[1] == b[1]
                if a[0] == "k" and b[0] == "k":
                    return a[1] == b[1] if fn == "Eq" else a[1] is b[1]
        return None

    def known(self, st, v):
        if v in st.facts:
            return st.facts[v]
        return self.m.truth(st, v)

    def op(self, st, fn, args):
        neg = {"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}
        if fn in neg:
            return self.op1(st, "Not", [self.op(st, neg[fn], args)])
        return self.op1(st, fn, args)

    def op1(self, st, fn, args):
        if all(a[0] == "k" for a in args):
            try:
                r = _fold(fn, [a[1] for a in args])
                if _hashable(r):
                    return ("k", r)
            except Exception:
                pass
        if fn == "Not":
            t = self.truth(st, args[0])
            return ("op", "Not", args[0]) if t is None else ("k", not t)
        if fn == "Add" and (args[0][0] in ("str", "fstr") or args[1][0] == "str" or any(a[0] == "k" and isinstance(a[1], (str, bytes)) for a in args)):
            return concat(args)
        if fn == "Add" and all(a[0] == "T" for a in args):
            return ("T", *[x for a in args for x in a[1:]])
        if fn == "Add" and all(a[0] in ("O", "T") for a in args):
            items = []
            for a in args:
                c = st.heap.get(a) if a[0] == "O" else ("list", a[1:])
                if c is None or c[0] != "list":
                    return ("op", fn, *args)
                items += c[1]
            return ("new", "list", tuple(items))
        if fn == "Eq" and args[0][0] == args[1][0] == "T":
            if len(args[0]) != len(args[1]):
                return ("k", False)
            rs = [self.op1(st, "Eq", [x, y]) for x, y in zip(args[0][1:], args[1][1:])]
            if ("k", False) in rs:
                return ("k", False)
            if all(r == ("k", True) for r in rs):
                return ("k", True)
        if fn == "BitOr" and all(a[0] == "O" and st.heap.get(a, ("",))[0] == "dict" for a in args):
            d = {}
            for a in args:
                d.update(dict(st.heap[a][1]))
            return ("new", "dict", tuple(d.items()))
        if fn in SETOPS and len(args) == 2 and any(a[0] == "O" for a in args):
            xs = [st.heap[a][1] if a[0] == "O" and st.heap.get(a, ("",))[0] == "set" else tuple(("k", x) for x in sorted(a[1], key=repr)) if a[0] == "k" and isinstance(a[1], frozenset) else None for a in args]
            r = None if None in xs else _setop(fn, xs)
            if r is not None:
                return ("new", "set", r) if isinstance(r, tuple) else ("k", r)
        if fn in SETOPS and len(args) == 2 and all(a[0] == "O" and st.heap.get(a, ("",))[0] == "set" for a in args):
            r = _setop(fn, [st.heap[a][1] for a in args])
            if r is not None:
                return ("new", "set", r) if isinstance(r, tuple) else ("k", r)
        if fn == "In" and args[1][0] in ("O", "T"):
            c = st.heap.get(args[1]) if args[1][0] == "O" else ("list", args[1][1:])
            if c is not None:
                xs = [k for k, _ in c[1]] if c[0] == "dict" else list(c[1])
                if args[0] in xs and args[0][0] in ("k",):
                    return ("k", True)
                if all(x[0] == "k" for x in xs) and args[0][0] == "k":
                    return ("k", args[0][1] in [x[1] for x in xs])
                if c[0] == "dict" and not xs:
                    return ("k", False)
                if args[0] in xs:
                    return ("k", True)
                if c[0] in ("dict", "set") and xs and all(self.op1(st, "Eq", [args[0], x]) == ("k", False) for x in xs):
                    return ("k", False)
        v = self.m.operate(st, fn, args)
        if v is not None:
            return v
        v = ("op", fn, *args)
        t = self.truth(st, v) if fn in ("Eq", "Is", "In", "Lt", "LtE", "Gt", "GtE", "allof", "match") else None
        return v if t is None else ("k", t)

    def alloc(self, st, i, kind, contents):
        o = ("O", i.id, self.level) if self.level else ("O", i.id)
        n = 0
        while self.m.distinct and o in st.heap and n < 40:
            # objects made here before may be still in use
            n += 1
            o = ("O", (i.id, n), self.level)
        st.heap[o] = (kind, contents)
        return o

    def bases(self, v):
        """names of the class of an exception and of its bases, if it is known"""
        n = v[1] if v[0] in ("exc", "C") and isinstance(v[1], str) else ""
        n = n.removeprefix("class:")
        k = self.P.classes.get(self.P.resolve_dotted(n) or n)
        out = set()
        if k is not None:
            for c in self.P.mro(k):
                out.add(c.name)
                for b in c.node.bases:
                    out |= self.bases(("exc", b.id)) if isinstance(b, ast.Name) else set()
            return out | {"BaseException"}
        c = getattr(builtins, n, None)
        if isinstance(c, type) and issubclass(c, BaseException) and c not in (Exception, BaseException):
            return {x.__name__ for x in c.__mro__}
        return out

    def targets(self, i, lab, st):
        """successors; an exception of a known class goes to the handlers of that class"""
        ss = [s for s, l in i.succ if l == lab]
        if self.m.hierarchy and len(ss) > 1 and any(self.g.instrs[s].op == "catch" for s in ss):
            out, known = [], self.bases(st.env.get(("exc",), ("?",)))
            for s in ss:
                h = self.g.instrs[s]
                ts = [str(t).rsplit(".", 1)[-1] for t in h.a.get("types") or ["BaseException"]] if h.op == "catch" else []
                if known and ts:
                    if "None" not in ts and not known & set(ts):
                        continue
                    return [*out, s]
                out.append(s)
            return out
        if lab != "e" or len(ss) < 2 or not self.m.exact:
            return ss
        v = st.env.get(("exc",), ("?",))
        n = v[1] if v[0] == "exc" else v[1].removeprefix("class:") if v[0] == "C" and isinstance(v[1], str) else ""
        c = getattr(builtins, str(n), None)
        if not isinstance(c, type) and isinstance(n, str) and n:
            # a class from elsewhere: the handler which names it, if there is one
            for s in ss:
                h = self.g.instrs[s]
                if h.op == "catch" and any(str(t) == n for t in h.a.get("types") or ()):
                    return [s]
        if not isinstance(c, type) or c in (Exception, BaseException):
            return ss
        out = []
        for s in ss:
            h = self.g.instrs[s]
            if h.op == "catch":
                ts = [getattr(builtins, str(t), None) for t in h.a.get("types") or ["BaseException"]]
                if any(isinstance(t, type) and issubclass(c, t) for t in ts):
                    return [*out, s]
                if all(isinstance(t, type) for t in ts):
                    continue
            out.append(s)
        return out

    # ------------------------------------------------------------ fixpoint
    def run(self):
        g = self.g
        seen = {}
        st = State({}, dict(self.heap0), dict(self.st0[0]), self.st0[1])
        start = (0, st.key())
        seen[start] = None
        todo = deque([(0, st, start)])
        while todo:
            n, st, me = todo.popleft()
            i = g.instrs[n]
            if i.op in ("exit", "exc_exit", "cancel_exit"):
                ret = next((v for k, v in st.env.items() if k[0] == "v" and k[2] == "$ret" and k[1] == self.frame0()), ("k", None))
                val = ret if i.op == "exit" else st.env.get(("exc",), ("S", "exception"))
                path, c = [], me
                while c is not None:
                    path.append(c[0])
                    c = seen[c]
                self.ended.append(Outcome(i.op, val, st, path[::-1]))
                continue
            for lab, ns in self.step(i, st):
                if lab == "e" and self.m.escapes and str(ns.env.get(("exc",), ("", ""))[1]).endswith("CancelledError") and any(l == "c" for _, l in i.succ):
                    lab = "c"
                if lab == "e" and self.m.escapes and all(l != "e" for _, l in i.succ):
                    self.ended.append(Outcome("exc_exit", ns.env.get(("exc",), ("S", "exception")), ns, [n]))
                for s in self.targets(i, lab, ns):
                    lv = self.live.get(s, set())
                    ns2 = ns.copy() if self.m.collect else State({}, ns.heap, ns.facts, ns.ev)
                    ns2.env = {k: v for k, v in ns.env.items() if k in lv or k[0] == "exc" or k[0] in ("free", "gv") or k[0] == "v" and k[2] in self.captured}
                    if len(ns2.heap) > 1 and self.m.collect:
                        gc(ns2, self.heap0)
                    # where paths meet states are compared; elsewhere only if there may be many of them
                    c = (s, ns2.key() if self.m.collect or len(g.instrs[s].pred) > 1 else len(seen))
                    if c not in seen:
                        if len(seen) > self.cap:
                            raise StateCap()
                        seen[c] = me
                        todo.append((s, ns2, c))
        self.states = len(seen)

    def frame0(self):
        if not hasattr(self, "_f0"):
            self._f0 = next((i.dst[1] for i in self.g.live() if i.op == "assign" and i.dst[0] == "v" and i.func is self.g.entry_func), 1)
        return self._f0

    def step(self, i, st0):
        st = st0.copy()
        a = i.a
        V = lambda o: self.val(st, o)
        out = None
        op = i.op
        if op == "assign":
            out = V(a["src"])
        elif op == "branch":
            c = V(a["cond"])
            t = self.truth(st, c)
            if t is None and self.m.fails_as_condition(c) and not _guarded(i):
                st.env[("exc",)] = ("exc", "ValueError", ("k", "no truth value"))
                return [("e", st)]
            res = []
            for lab, w in (("t", True), ("f", False)):
                if t is None or t is w:
                    ns = st.copy()
                    if t is None:
                        x, b = c, w
                        while x[0] == "op" and x[1] == "Not":
                            x, b = x[2], not b
                        ns.facts[x] = b
                        if b and x[0] == "op" and x[1] == "Is" and x[3] == ("k", None):
                            ns.facts[x[2]] = False
                    res.append((lab, ns))
            return res
        elif op == "op":
            out = self.op(st, a["fn"], [V(x) for x in a["args"]]) if a["fn"] != "match" else ("op", "match", V(a["args"][0]), ("k", a.get("pattern")))
            if out[0] == "new":
                if a.get("aug") and V(a["args"][0])[0] == "O":
                    o = V(a["args"][0])
                    st.heap[o] = (out[1], out[2])
                    out = o
                else:
                    out = self.alloc(st, i, out[1], out[2])
        elif op == "fstr":
            out = concat([V(x) for x in a["parts"]])
        elif op == "build":
            out = self.build(st, i, V)
        elif op == "comp_add":
            self.append(st, V(a["obj"]), V(a["val"]))
        elif op == "setitem":
            self.put(st, V(a["obj"]), V(a["key"]), V(a["val"]))
        elif op == "delitem":
            o, k = V(a["obj"]), V(a["key"])
            c = st.heap.get(o)
            if c and c[0] == "dict":
                st.heap[o] = ("dict", tuple((x, y) for x, y in c[1] if x != k))
            elif c and c[0] == "list" and self.m.exact and k[0] == "k" and isinstance(k[1], (int, slice)):
                xs = list(c[1])
                if isinstance(k[1], int) and not -len(xs) <= k[1] < len(xs):
                    return self.results_of(st, i, [("raise", "IndexError")])
                del xs[k[1]]
                st.heap[o] = ("list", tuple(xs))
            elif c is None:
                st.heap[("@item", o, k)] = ("deleted",)
        elif op == "getattr":
            rs = self.m.access(self, st, i, "get", V(a["obj"]), a["attr"], None)
            if rs is not None:
                return self.results_of(st, i, rs)
            out = self.getattr(st, V(a["obj"]), a["attr"])
            if out == ("missing",):
                return self.results_of(st, i, [("raise", "AttributeError")])
        elif op == "delattr":
            o = V(a["obj"])
            rs = self.m.access(self, st, i, "del", o, a["attr"], None)
            if rs is not None:
                return self.results_of(st, i, rs)
            st.heap.pop(("@", o, a["attr"]), None)
        elif op == "setattr":
            o, v = V(a["obj"]), V(a["val"])
            rs = self.m.access(self, st, i, "set", o, a["attr"], v)
            if rs is not None:
                return self.results_of(st, i, rs)
            st.heap[("@", o, a["attr"])] = v
            self.m.setattr(st, o, a["attr"], v, i)
        elif op == "getitem":
            o, k = V(a["obj"]), V(a["key"])
            out = self.item(st, o, k)
            if out == ("missing",):
                if any(l == "e" for _, l in i.succ):
                    st.env[("exc",)] = ("exc", "KeyError", k)
                    return [("e", st)]
                st.env[("exc",)] = ("exc", "KeyError", k)
                return [("e", st)]
            if isinstance(out, list):
                return [("n", self.with_dst(st, i, x)) for x in out]
            if out[0] == "new":
                out = self.alloc(st, i, out[1], out[2])
        elif op == "unpack":
            o = V(a["obj"])
            out = self.unpack(st, o, a["idx"], a.get("n"), i) if not a.get("star") else self.rest(st, o, a["idx"], a["n"], i)
        elif op == "star":
            out = ("star", V(a["src"]))
        elif op == "iter":
            src = V(a["src"])
            out = ("It", src, 0)
            if src[0] == "S":
                st.heap[("@iter", src)] = min(st.heap.get(("@iter", src), 0) + 1, 3)
        elif op == "next":
            return self.next(st, i)
        elif op == "call":
            return self.call(st, i)
        elif op == "await":
            v = V(a["src"])
            rs = self.m.awaited(st, v, i)
            if isinstance(rs, list):
                return self.results_of(st, i, rs)
            if v[0] == "failing":
                st.env[("exc",)] = ("exc", v[1], v[2])
                return [("e", st)]
            out = v[1] if v[0] == "awaitable" else v
        elif op == "with_enter":
            cm = V(a["cm"])
            out = self.m.entered(st, cm, i) or ("C", "enter", (cm,), ())
        elif op == "with_exit":
            self.m.exited(st, V(a["cm"]), i)
            if a.get("sup") and a.get("cat") and self.m.exact:
                # whether the error is one of those which are suppressed
                c = getattr(builtins, str(st.env.get(("exc",), ("", ""))[1]), None)
                ts = [getattr(builtins, str(t).rsplit(".", 1)[-1], None) for t in a["sup"]]
                if isinstance(c, type) and c not in (Exception, BaseException) and all(isinstance(t, type) for t in ts) and not issubclass(c, tuple(ts)) and any(l == "e" for _, l in i.succ):
                    return [("e", st)]
        elif op == "raise":
            v = V(a["exc"]) if a.get("exc") is not None else st.env.get(("exc",), ("S", "exception"))
            st.env[("exc",)] = v
            labs = {l for _, l in i.succ}
            return [(l, st) for l in labs]
        elif op == "catch":
            out = st.env.get(("exc",), ("S", "exception")) if i.dst else None
        elif op == "decorated":
            out = V(a["fn"])
        elif op == "import":
            out = V(a["src"]) if "src" in a else None
        elif op == "yield":
            v = V(a.get("val") or a.get("src"))
            rs = self.m.yielded(self, st, v, i)
            if rs is not None:
                return self.results_of(st, i, rs)
            vs = self.spread(st, v) if a.get("from") and self.m.exact else [v]
            if len(st.ev) < (self.m.yields if self.m.exact else 12):
                st.ev = st.ev + tuple(("yield", x) for x in vs)
            out = ("k", None)
        if i.dst is not None and out is not None:
            st.env[i.dst] = out
        labs = {l for _, l in i.succ}
        return [("n", st)] if "n" in labs else [(l, st) for l in labs if l not in ("e", "c")]

    def with_dst(self, st, i, v):
        st = st.copy()
        if i.dst is not None:
            st.env[i.dst] = v
        return st

    # ------------------------------------------------------------ containers
    def append(self, st, o, v):
        c = st.heap.get(o)
        if c is None or c[0] not in ("list", "set"):
            return
        xs = c[1]
        if xs == (("S", "any"),):
            return
        if c[0] == "set" and v in xs:
            return
        if xs and xs[-1] == v and v[0] != "k" and not self.m.exact:
            return  # one or more of it
        xs = (*xs, v)
        st.heap[o] = (c[0], xs if len(xs) <= self.m.maxlist else (("S", "any"),))

    def extend(self, st, o, v):
        for x in self.spread(st, v):
            self.append(st, o, x)

    def spread(self, st, v):
        if v[0] == "T":
            return list(v[1:])
        if v[0] == "O":
            c = st.heap.get(v)
            if c is not None:
                return [k for k, _ in c[1]] if c[0] == "dict" else list(c[1])
        es = self.m.elements(st, v)
        if es is not None:
            return list(es)
        if v[0] == "k" and isinstance(v[1], (tuple, frozenset)):
            return [("k", x) for x in (v[1] if isinstance(v[1], tuple) else sorted(v[1], key=repr))]
        return [("star", v)] if v[0] != "star" else [v]

    def _plain(self, st, v):
        """elements of a container"""
        if v[0] == "O" and v in st.heap:
            c = st.heap[v]
            return tuple(k for k, _ in c[1]) if c[0] == "dict" else c[1]
        return v[1:] if v[0] == "T" else v[2] if v[0] == "new" and v[1] in ("list", "set") else None

    def put(self, st, o, k, v):
        c = st.heap.get(o)
        if c is None:
            st.heap[("@item", o, k)] = v
            return
        if c[0] == "dict":
            xs = [(a, b) for a, b in c[1]]
            for n, (a, b) in enumerate(xs):
                if a == k:
                    xs[n] = (k, v)
                    break
            else:
                xs.append((k, v))
            st.heap[o] = ("dict", tuple(xs[:40]))
        elif c[0] == "list" and k[0] == "k" and isinstance(k[1], int) and -len(c[1]) <= k[1] < len(c[1]):
            xs = list(c[1])
            xs[k[1]] = v
            st.heap[o] = ("list", tuple(xs))
        elif self.m.exact and c[0] == "list" and k[0] == "k" and isinstance(k[1], slice):
            xs = list(c[1])
            xs[k[1]] = self.spread(st, v)
            st.heap[o] = ("list", tuple(xs))

    def build(self, st, i, V):
        a = i.a
        kind = a["kind"]
        if kind == "dict":
            o = self.alloc(st, i, "dict", ())
            for it in a["items"]:
                ko, vo = it
                if ko is None:
                    self.update(st, o, V(vo))
                else:
                    self.put(st, o, V(ko), V(vo))
            return o
        items = []
        for x in a["items"]:
            v = V(x)
            items += self.spread(st, v[1]) if v[0] == "star" else [v]
        if kind == "tuple":
            return ("T", *items)
        return self.alloc(st, i, "set" if kind == "set" else "list", tuple(items))

    def update(self, st, o, v):
        c = st.heap.get(v) if v[0] == "O" else None
        if c is not None and c[0] == "dict":
            for k, x in c[1]:
                self.put(st, o, k, x)
            return
        es = self.m.elements(st, ("C", ".items", (v,), ()))
        if es is None and (v[0] == "T" or c is not None and c[0] == "list"):
            xs = v[1:] if v[0] == "T" else c[1]
            if all(x[0] == "T" and len(x) == 3 for x in xs):
                es = xs
        if es is not None:
            for e in es:
                if e[0] == "T" and len(e) == 3:
                    self.put(st, o, e[1], e[2])
            return
        self.put(st, o, ("spread", v), v)

    def item(self, st, o, k):
        c = st.heap.get(o) if o[0] == "O" else None
        if ("@item", o, k) in st.heap:
            x = st.heap[("@item", o, k)]
            return ("missing",) if x == ("deleted",) else x
        r = self.m.item(st, o, k)
        if r is not None:
            return r
        if c is not None:
            if c[0] == "dict":
                for a, b in c[1]:
                    if a == k:
                        return b
                sp = [b for a, b in c[1] if a[0] == "spread"]
                if sp:
                    return ("item", sp[-1], k)
                if all(a[0] == k[0] == "k" or self.op1(st, "Eq", [k, a]) == ("k", False) for a, _ in c[1]):
                    return ("missing",)
                return ("item", o, k)
            xs = c[1]
            if k[0] == "k" and isinstance(k[1], slice) and not any(x[0] == "star" for x in xs):
                return ("new", "list", tuple(xs[k[1]]))
            if k[0] == "k" and isinstance(k[1], int) and -len(xs) <= k[1] < len(xs):
                return xs[k[1]]
            if self.m.distinct and c[0] == "list" and k[0] == "k" and isinstance(k[1], int) and not any(x[0] == "star" for x in xs):
                return ("missing",)
            return ("item", o, k)
        if o[0] == "T" and k[0] == "k" and isinstance(k[1], slice):
            return ("T", *o[1:][k[1]])
        if o[0] == "T" and k[0] == "k" and isinstance(k[1], int) and -len(o) < k[1] < len(o) - 1:
            return o[1:][k[1]]
        if o[0] == "match" and k[0] == "k":
            return _group(o, k[1])
        if o[0] == "k" and k[0] == "k":
            try:
                x = o[1][k[1]]
                return ("k", x) if _hashable(x) else ("item", o, k)
            except Exception:
                return ("item", o, k)
        return ("item", o, k)

    def unpack(self, st, o, idx, n, i):
        if isinstance(idx, int):
            xs = None
            if o[0] == "T":
                xs = o[1:]
            elif o[0] == "O" and st.heap.get(o, ("",))[0] == "list":
                xs = st.heap[o][1]
            elif o[0] == "k" and isinstance(o[1], tuple):
                xs = tuple(("k", x) for x in o[1])
            if xs is not None and 0 <= idx < len(xs):
                return xs[idx]
            r = self.m.item(st, o, ("k", idx))
            return r if r is not None and not isinstance(r, list) else ("item", o, ("k", idx))
        return ("item", o, ("k", idx))

    def rest(self, st, o, idx, n, i):
        """`*rest` in an unpacking of n targets"""
        xs = o[1:] if o[0] == "T" else st.heap[o][1] if o[0] == "O" and st.heap.get(o, ("",))[0] == "list" else None
        if xs is not None and not any(x[0] == "star" for x in xs):
            return self.alloc(st, i, "list", tuple(xs[idx:len(xs) - (n - idx - 1)]))
        return ("rest", o, ("k", idx))

    def getattr(self, st, o, name):
        if ("@", o, name) in st.heap:
            return st.heap[("@", o, name)]
        r = self.m.attr(st, o, name)
        if r is not None:
            return r
        if o[0] == "g":
            c = self._const(f"{o[1]}.{name}")
            if c is not None:
                return c
        return ("attr", o, name)

    def next(self, st, i):
        it = self.val(st, i.a["it"])
        slot = i.a["it"]
        src, pos = (it[1], it[2]) if it[0] == "It" else (it, 0)
        xs = None
        if src[0] == "T":
            xs = src[1:]
        elif src[0] == "enum":
            # the list may change meanwhile
            xs = [("T", ("k", n + src[2]), x) for n, x in enumerate(st.heap[src[1]][1])]
        elif src[0] == "O":
            c = st.heap.get(src)
            if c is not None and c[1] != (("S", "any"),):
                xs = [k for k, _ in c[1]] if c[0] == "dict" else list(c[1])
        elif src[0] == "k" and isinstance(src[1], (tuple, frozenset, str)) and not isinstance(src[1], str):
            xs = [("k", x) for x in (src[1] if isinstance(src[1], tuple) else sorted(src[1], key=repr))]
        if xs is not None and not any(x[0] == "star" for x in xs):
            if pos < len(xs):
                ns = st.copy()
                ns.env[slot] = ("It", src, pos + 1)
                ns.env[i.dst] = xs[pos]
                return [("t", ns)]
            return [("f", st)]
        es = self.m.elements(st, src)
        if isinstance(es, tuple):
            if pos < len(es):
                ns = st.copy()
                ns.env[slot] = ("It", src, pos + 1)
                ns.env[i.dst] = es[pos]
                return [("t", ns)]
            return [("f", st)]
        if es is None:
            es, least = [("elem", src)], False
        else:
            least = True
        res = []
        got = pos if isinstance(pos, frozenset) else frozenset()
        if not least or len(got) == len(es):
            ns = st.copy()
            ns.facts = {k: v for k, v in ns.facts.items() if not any(mentions(k, e) for e in es)}
            res.append(("f", ns))
        for n, e in enumerate(es):
            ns = st.copy()
            ns.env[slot] = ("It", src, got | {n})
            ns.env[i.dst] = e
            # what was assumed about the previous element does not hold for this one
            ns.facts = {k: v for k, v in ns.facts.items() if not mentions(k, e)}
            res.append(("t", ns))
        return res

    # ------------------------------------------------------------ calls
    def call(self, st, i):
        a = i.a
        c = a["callee"]
        V = lambda o: self.val(st, o)
        key = self.fl.callee_key(i)
        recv = V(c[1]) if c[0] == "method" else None
        if c[0] != "method" and a["fn"][0] == "t" and c[0] == "repo":
            d = self.g.deftmp.get(a["fn"][1])
            if d is not None and d.op == "getattr":
                recv = V(d.a["obj"])
        args = []
        for x in a["args"]:
            v = V(x)
            args += [v] if v[0] != "star" else [y if y[0] != "star" else y for y in self.spread(st, v[1])]
        kw = []
        for k, x in a["kw"]:
            v = V(x)
            if k is None and v[0] == "O" and st.heap.get(v, ("",))[0] == "dict" and all(z[0] == "k" for z, _ in st.heap[v][1]):
                kw += [(z[1], y) for z, y in st.heap[v][1]]
            else:
                kw.append((k, v))
        if c[0] == "method" and a["fn"][0] == "t" and a["fn"] in st.env and st.env[a["fn"]][0] in ("S", "F"):
            fv = st.env[a["fn"]]
            key, recv = ("value", fv) if fv[0] == "S" or len(fv) > 2 else (fv[1], None)
        if c[0] == "value":
            fv = V(a["fn"])
            key = "value"
            recv = fv
            if fv[0] == "F" and len(fv) == 2:
                key = fv[1]
                recv = None
        if c[0] == "class":
            key = "class:" + c[1].qual
        rs = self.m.call(self, st, i, key, recv, tuple(args), tuple(kw))
        if rs is None:
            rs = self.builtin(st, i, key, recv, args, kw)
        return self.results_of(st, i, rs)

    def results_of(self, st, i, rs):
        """successors for what a model says about an operation"""
        res = []
        for r in rs:
            if r[0] == "raise":
                ns = (r[3] if len(r) > 3 else st).copy()
                ns.env[("exc",)] = ("exc", r[1], r[2] if len(r) > 2 else ("k", None))
                res.append(("e", ns))
            else:
                ns = r[2] if len(r) > 2 else st
                v = r[1]
                ns = ns.copy()
                if v[0] == "new":
                    v = self.alloc(ns, i, v[1], v[2])
                res.append(("n", self.with_dst(ns, i, v) if i.dst is not None else ns))
        return res

    def builtin(self, st, i, key, recv, args, kw):
        meth = key.rsplit(".", 1)[-1] if recv is not None and i.a["callee"][0] == "method" else None
        c = st.heap.get(recv) if recv is not None and recv[0] == "O" else None
        if meth and c is not None:
            if meth == "append" or meth == "add":
                self.append(st, recv, args[0])
                return [("v", ("k", None))]
            if meth == "extend":
                self.extend(st, recv, args[0])
                return [("v", ("k", None))]
            if meth == "insert" and c[0] == "list" and args[0] == ("k", 0):
                st.heap[recv] = ("list", (args[1], *c[1]))
                return [("v", ("k", None))]
            if meth == "insert" and c[0] == "list" and args[0][0] == "k" and isinstance(args[0][1], int) and not any(x[0] in ("star",) or x == ("S", "any") for x in c[1]):
                xs = list(c[1])
                xs.insert(args[0][1], args[1])
                st.heap[recv] = ("list", tuple(xs))
                return [("v", ("k", None))]
            if meth == "clear" and not args:
                st.heap[recv] = (c[0], ())
                return [("v", ("k", None))]
            if self.m.exact and c[0] == "list" and not any(x[0] in ("star",) or x == ("S", "any") for x in c[1]):
                if meth == "reverse":
                    st.heap[recv] = ("list", c[1][::-1])
                    return [("v", ("k", None))]
                if meth == "appendleft":
                    st.heap[recv] = ("list", (args[0], *c[1]))
                    return [("v", ("k", None))]
                if meth in ("popleft", "pop") and not c[1]:
                    return [("raise", "IndexError")]
                if meth == "popleft":
                    st.heap[recv] = ("list", c[1][1:])
                    return [("v", c[1][0])]
                if meth == "remove" and args[0] in c[1]:
                    n = c[1].index(args[0])
                    st.heap[recv] = ("list", c[1][:n] + c[1][n + 1:])
                    return [("v", ("k", None))]
            if self.m.distinct and meth in ("discard", "remove") and c[0] == "set" and args and args[0] in c[1]:
                st.heap[recv] = ("set", tuple(x for x in c[1] if x != args[0]))
                return [("v", ("k", None))]
            if meth == "update" and c[0] == "dict":
                for x in args:
                    self.update(st, recv, x)
                for k, v in kw:
                    self.put(st, recv, ("k", k), v)
                return [("v", ("k", None))]
            if meth in SETOPS and c[0] == "set":
                sets = [c[1], *[self._plain(st, x) for x in args]]
                if all(x is not None for x in sets):
                    r = _setop(meth, sets)
                    if isinstance(r, tuple):
                        if meth.endswith("update"):
                            st.heap[recv] = ("set", r)
                            return [("v", ("k", None))]
                        return [("v", ("new", "set", r))]
                    if r is not None:
                        return [("v", ("k", r))]
            if meth in ("discard", "remove") and c[0] == "set" and args and args[0][0] == "k" and all(x[0] == "k" for x in c[1]):
                if meth == "remove" and args[0] not in c[1]:
                    return [("raise", "KeyError")]
                st.heap[recv] = ("set", tuple(x for x in c[1] if x != args[0]))
                return [("v", ("k", None))]
            if meth == "items" and c[0] == "dict":
                return [("v", ("T", *[("T", k, v) for k, v in c[1]]))]
            if meth == "keys" and c[0] == "dict":
                return [("v", ("T", *[k for k, v in c[1]]))]
            if meth == "values" and c[0] == "dict":
                return [("v", ("T", *[v for k, v in c[1]]))]
            if meth == "copy":
                return [("v", ("new", c[0], c[1]))]
            if meth in ("get", "pop", "setdefault") and c[0] == "dict":
                v = self.item(st, recv, args[0])
                d = args[1] if len(args) > 1 else ("k", None)
                if v == ("missing",):
                    if meth == "setdefault":
                        self.put(st, recv, args[0], d)
                    if meth == "pop" and len(args) < 2:
                        return [("raise", "KeyError")] if any(l == "e" for _, l in i.succ) else []
                    return [("v", d)]
                if meth == "pop":
                    st.heap[recv] = ("dict", tuple((x, y) for x, y in c[1] if x != args[0]))
                return [("v", v)] if not isinstance(v, list) else [("v", x) for x in v]
            if meth == "pop" and c[0] == "list" and c[1]:
                n = args[0][1] if args and args[0][0] == "k" else -1
                xs = list(c[1])
                v = xs.pop(n)
                st.heap[recv] = ("list", tuple(xs))
                return [("v", v)]
        if meth and recv[0] == "k" and isinstance(recv[1], (str, bytes)) and meth in PURE_STR and all(plain(x) is not None for x in args) and not kw:
            try:
                r = getattr(recv[1], meth)(*[plain(x)[0] for x in args])
                if isinstance(r, list):
                    return [("v", ("new", "list", tuple(("k", x) for x in r)))]
                return [("v", ("k", r))]
            except Exception:
                pass
        rx = (recv, *args) if meth and recv[0] == "re" else tuple(args) if key.startswith("re.") else ()
        if (meth or key[3:]) in ("sub", "split", "findall") and rx and rx[0][0] in ("re", "k") and all(x[0] == "k" and isinstance(x[1], str) for x in rx[1:]) and not kw:
            r = getattr(re, meth or key[3:])(*[x[1] for x in rx])
            return [("v", ("k", r) if isinstance(r, str) else ("new", "list", tuple(("k", x) if not isinstance(x, tuple) else ("T", *[("k", y) for y in x]) for x in r)))]
        if meth in ("match", "fullmatch", "search") and recv[0] == "re" and len(args) == 1 and args[0][0] == "k" and isinstance(args[0][1], str):
            return [("v", _rematch(meth, recv[1], args[0][1]))]
        if key in ("re.match", "re.fullmatch", "re.search") and len(args) == 2 and args[0][0] in ("k", "re") and args[1][0] == "k" and all(isinstance(x[1], str) for x in args):
            return [("v", _rematch(key[3:], args[0][1], args[1][1]))]
        if key == "re.compile" and len(args) == 1 and args[0][0] == "k" and isinstance(args[0][1], str):
            return [("v", ("re", args[0][1]))]
        if key == "re.compile" and len(args) + len(kw) == 2 and args[0][0] == "k" and isinstance(args[0][1], str):
            f = _flags(args[1] if len(args) > 1 else kw[0][1])
            if f is not None:
                return [("v", ("re", f"(?{f}){args[0][1]}"))]
        if key == "iter" and len(args) == 1 and args[0][0] in ("T", "O") and self.m.exact:
            return [("v", ("T", *self.spread(st, args[0])))]
        if key == "re.escape" and args[0][0] == "k":
            return [("v", ("k", re.escape(args[0][1])))]
        if meth in ("group", "__getitem__") and recv[0] == "match" and all(x[0] == "k" for x in args):
            return [("v", _group(recv, args[0][1] if args else 0))]
        if meth == "groupdict" and recv[0] == "match":
            return [("v", ("new", "dict", tuple((("k", k), v) for k, v in dict(recv[2]).items() if isinstance(k, str))))]
        if meth == "join" and recv[0] == "k" and len(args) == 1:
            xs = self.spread(st, args[0])
            if not any(x[0] == "star" for x in xs):
                parts = []
                for n, x in enumerate(xs):
                    parts += ([recv] if n else []) + [x]
                return [("v", concat(parts) if parts else ("k", ""))]
        if meth == "format" and recv[0] == "k" and isinstance(recv[1], str):
            r = _format(recv[1], args, dict(kw))
            if r is not None:
                return [("v", r)]
        if meth in ("get", "pop") and args:
            v = self.item(st, recv, args[0])
            if isinstance(v, list):
                return [("v", x) for x in v]
            if v != ("item", recv, args[0]):
                return [("v", (args[1] if len(args) > 1 else ("k", None)) if v == ("missing",) else v)]
        if key == "typing.cast" and len(args) == 2:
            return [("v", args[1])]
        if key in ("list", "tuple", "set", "frozenset", "sorted") and len(args) <= 1:
            xs = self.spread(st, args[0]) if args else []
            if key == "tuple":
                return [("v", ("T", *xs))]
            if key == "sorted" and all(x[0] == "k" for x in xs):
                try:
                    xs = [("k", x) for x in sorted((x[1] for x in xs), reverse=dict(kw).get("reverse") == ("k", True))] if "key" not in dict(kw) else xs
                except TypeError:
                    pass
            return [("v", ("new", "set" if "set" in key else "list", tuple(dict.fromkeys(xs)) if "set" in key else tuple(xs)))]
        if key == "dict":
            o = self.alloc(st, i, "dict", ())
            for x in args:
                self.update(st, o, x)
            for k, v in kw:
                if k is None:
                    self.update(st, o, v)
                else:
                    self.put(st, o, ("k", k), v)
            return [("v", o)]
        if key == "len" and len(args) == 1 and args[0][0] in ("O", "T"):
            c = st.heap.get(args[0]) if args[0][0] == "O" else ("list", args[0][1:])
            if c is not None and not any(x[0] == "star" for x in c[1]) and (self.m.exact or all(x[0] == "k" for x in c[1])):
                return [("v", ("k", len(c[1])))]
        if key == "len" and len(args) == 1 and args[0][0] == "k" and hasattr(args[0][1], "__len__"):
            return [("v", ("k", len(args[0][1])))]
        if key == "bool" and len(args) == 1:
            t = self.truth(st, args[0])
            return [("v", ("k", t) if t is not None else ("op", "Not", ("op", "Not", args[0])))]
        if key in ("min", "max") and args and not kw:
            xs = self.spread(st, args[0]) if len(args) == 1 else args
            if xs and all(x[0] == "k" and isinstance(x[1], (int, float)) for x in xs):
                return [("v", ("k", {"min": min, "max": max}[key](x[1] for x in xs)))]
        if key == "enumerate" and args and args[0][0] in ("T", "O"):
            xs = self.spread(st, args[0])
            n0 = args[1] if len(args) > 1 else dict(kw).get("start", ("k", 0))
            if not any(x[0] == "star" for x in xs) and n0[0] == "k":
                return [("v", ("T", *[("T", ("k", n), x) for n, x in enumerate(xs, n0[1])]))]
        if key == "range" and args and all(x[0] == "k" and type(x[1]) is int for x in args):
            xs = range(*[x[1] for x in args])
            if len(xs) <= self.m.maxlist:
                return [("v", ("T", *[("k", x) for x in xs]))]
        if key == "zip" and args and all(x[0] in ("T", "O") for x in args):
            xs = [self.spread(st, x) for x in args]
            if not any(y[0] == "star" for x in xs for y in x):
                return [("v", ("T", *[("T", *r) for r in zip(*xs)]))]
        if key == "isinstance" and len(args) == 2 and args[0][0] in ("k", "O", "T", "str"):
            t = _isinst(st, args[0], args[1])
            if t is not None:
                return [("v", ("k", t))]
        if key == "type" and len(args) == 1 and args[0][0] in ("k", "O", "T", "str"):
            x = args[0]
            return [("v", ("b", {"O": st.heap.get(x, ("?",))[0], "T": "tuple", "str": "str"}.get(x[0]) or type(x[1]).__name__))]
        if key == "hasattr" and len(args) == 2 and args[0][0] == "k" and args[1][0] == "k":
            return [("v", ("k", hasattr(args[0][1], args[1][1])))]
        if key == "callable" and args and args[0][0] in ("k", "O", "T", "str"):
            return [("v", ("k", False))]
        if key in ("repr", "ascii", "format") and 0 < len(args) < 3 and all(a[0] == "k" for a in args):
            try:
                r = _fold(key, [a[1] for a in args])
                if isinstance(r, str):
                    return [("v", ("k", r))]
            except Exception:
                pass
        if key == "str" and len(args) == 1 and args[0][0] == "k":
            return [("v", ("k", str(args[0][1])))]
        if key == "str" and len(args) == 1 and args[0][0] == "str":
            return [("v", args[0])]
        if key in ("itertools.chain", "itertools.chain.from_iterable") and self.m.exact:
            outer = list(args) if key.endswith("chain") else self.spread(st, args[0])
            if all(x[0] in ("T", "O") for x in outer):
                xs = [y for x in outer for y in self.spread(st, x)]
                if not any(x[0] == "star" for x in xs):
                    return [("v", ("T", *xs))]
        if key == "reversed" and args and args[0][0] in ("T", "O") and self.m.exact:
            xs = self.spread(st, args[0])
            if not any(x[0] == "star" for x in xs):
                return [("v", ("T", *reversed(xs)))]
        if key == "collections.Counter" and len(args) == 1 and args[0][0] in ("T", "O"):
            xs = self.spread(st, args[0])
            if all(x[0] == "k" for x in xs):
                return [("v", ("new", "dict", tuple((x, ("k", xs.count(x))) for x in dict.fromkeys(xs))))]
        if key == "next" and args and args[0][0] in ("O", "T") and self.m.exact:
            xs = self.spread(st, args[0])
            if not any(x[0] == "star" for x in xs):
                if xs:
                    return [("v", xs[0])]
                return [("v", args[1])] if len(args) > 1 else [("raise", "StopIteration")]
        if key in ("any", "all") and len(args) == 1:
            xs = self.spread(st, args[0])
            if not any(x[0] == "star" for x in xs):
                ts = [self.truth(st, x) for x in xs]
                if key == "any":
                    r = True if True in ts else False if all(t is False for t in ts) else None
                else:
                    r = False if False in ts else True if all(ts) else None
                if r is not None:
                    return [("v", ("k", r))]
                return [("v", ("C", key, tuple(xs), ()))]
        if key == "getattr" and len(args) in (2, 3) and args[1][0] == "k":
            v = self.getattr(st, args[0], args[1][1])
            if len(args) == 2 or v != ("attr", args[0], args[1][1]):
                return [("v", v)]
        full = (recv, *args) if recv is not None else tuple(args)
        v = ("C", key, tuple(clip(x, self.m.clip) for x in full), tuple((k, clip(x, self.m.clip)) for k, x in kw))
        if key in ("isinstance", "callable", "hasattr", "issubclass", "inspect.iscoroutinefunction", "any", "all"):
            t = self.truth(st, v)
            if t is not None:
                return [("v", ("k", t))]
        return [("v", v)]


def plain(x):
    """(Python value,) of a constant or a tuple of constants"""
    if x[0] == "k":
        return (x[1],)
    if x[0] == "T" and all(y[0] == "k" for y in x[1:]):
        return (tuple(y[1] for y in x[1:]),)
    return None


SETOPS = {"difference": 0, "Sub": 0, "union": 1, "BitOr": 1, "update": 1, "intersection": 2, "BitAnd": 2, "difference_update": 0, "intersection_update": 2, "issubset": 3, "LtE": 3, "issuperset": 4, "GtE": 4, "isdisjoint": 5}


def _setop(how, sets):
    """elements of the result, or a truth value; None if not all elements are constants"""
    if SETOPS[how] == 1:
        return tuple(dict.fromkeys(x for s in sets for x in s)) if all(x[0] != "star" for s in sets for x in s) else None
    if any(x[0] != "k" for s in sets for x in s):
        return None
    a, bs = sets[0], sets[1:]
    k = SETOPS[how]
    if k == 0:
        return tuple(x for x in a if not any(x in b for b in bs))
    if k == 2:
        return tuple(x for x in a if all(x in b for b in bs))
    return {3: lambda b: set(a) <= set(b), 4: lambda b: set(a) >= set(b), 5: lambda b: not set(a) & set(b)}[k](bs[0])


def _guarded(i):
    """whether an error of an expression may be handled in its function"""
    for n in ast.walk(i.func.node):
        if isinstance(n, ast.Try) and n.handlers and any(x is i.node for s in n.body for x in ast.walk(s)):
            return True
        if isinstance(n, ast.With) and any(x is i.node for s in n.body for x in ast.walk(s)):
            return True
    return False


def _rematch(how, pat, s):
    m = getattr(re, how)(pat, s)
    if not m:
        return ("k", None)
    gs = {0: m.group(0)} | {n + 1: g for n, g in enumerate(m.groups())} | m.groupdict()
    return ("match", pat, tuple((k, ("k", g)) for k, g in gs.items()))


def _flags(v):
    """letters of regular expression flags"""
    if v[0] == "op" and v[1] == "BitOr":
        a, b = _flags(v[2]), _flags(v[3])
        return None if a is None or b is None else a + b
    nm = v[1].rsplit(".", 1)[-1] if v[0] == "g" else v[2] if v[0] == "attr" else ""
    return {"ASCII": "a", "A": "a", "IGNORECASE": "i", "I": "i", "MULTILINE": "m", "M": "m", "DOTALL": "s", "S": "s", "VERBOSE": "x", "X": "x"}.get(nm)


def _group(m, k):
    return dict(m[2]).get(k, ("k", None))


def _captured(funcs):
    """names which functions nested in the given ones may read"""
    out = set()
    for f in funcs:
        for n in ast.walk(f.node):
            if n is not f.node and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                out |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
    return out


class Closure(Model):
    """Model of a nested function: its free names have the values they had when `o` ended."""

    def __init__(self, base, o, params):
        self.base, self.o, self.params = base, o, params
        self.exact, self.escapes, self.distinct, self.collect = base.exact, base.escapes, base.distinct, base.collect
        self.maxlist, self.clip, self.yields = base.maxlist, base.clip, base.yields

    def name(self, st, op):
        if op[0] == "free":
            vs = [v for k, v in self.o.st.env.items() if k[0] == "v" and k[2] == op[2]]
            if vs:
                return vs[-1]
            if op[2] in self.params:
                return self.params[op[2]]
        return self.base.name(st, op)

    def __getattr__(self, n):
        return getattr(self.base, n)

    def call(self, *a):
        return self.base.call(*a)

    def truth(self, *a):
        return self.base.truth(*a)

    def operate(self, *a):
        return self.base.operate(*a)

    def attr(self, *a):
        return self.base.attr(*a)

    def item(self, *a):
        return self.base.item(*a)

    def elements(self, *a):
        return self.base.elements(*a)

    def setattr(self, *a):
        return self.base.setattr(*a)

    def access(self, *a):
        return self.base.access(*a)

    def awaited(self, *a):
        return self.base.awaited(*a)

    def entered(self, *a):
        return self.base.entered(*a)

    def exited(self, *a):
        return self.base.exited(*a)


def gc(st, keep=()):
    """forget containers which cannot be reached any more"""
    seen = set()

    def walk(v):
        if isinstance(v, tuple):
            if v and v[0] == "O":
                if v not in seen:
                    seen.add(v)
                    c = st.heap.get(v)
                    if c is not None:
                        walk(c)
                return
            for x in v:
                walk(x)

    for v in st.env.values():
        walk(v)
    walk(st.ev)
    walk(tuple(k for k in keep if k[0] == "O"))
    walk(tuple(k for k in st.heap if k[0] == "O" and isinstance(k[1], str) and k[1].startswith("global ")))
    for k, v in st.heap.items():
        if k[0] in ("@", "@item") and not (isinstance(k[1], tuple) and k[1] and k[1][0] == "O"):
            walk(v)
    dead = [k for k in st.heap if k[0] == "O" and k not in seen or k[0] in ("@", "@item") and k[1] and k[1][0] == "O" and k[1] not in seen]
    for k in dead:
        del st.heap[k]
    gone = {k for k in dead if k[0] == "O"}
    if gone:
        st.facts = {k: v for k, v in st.facts.items() if not any(mentions(k, d) for d in gone)}


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t)


def clip(v, depth=7):
    if not isinstance(v, tuple):
        return v
    if depth <= 0:
        return ("...",)
    return tuple(clip(x, depth - 1) if isinstance(x, tuple) else x for x in v)


def concat(parts):
    out = []
    for p in parts:
        if p[0] == "str":
            out += p[1:]
        elif p[0] == "k" and isinstance(p[1], (int, float)) and not isinstance(p[1], bool):
            out.append(("k", str(p[1])))
        else:
            out.append(p)
    res = []
    for p in out:
        if p[0] == "k" and isinstance(p[1], (str, bytes)) and res and res[-1][0] == "k" and type(res[-1][1]) is type(p[1]):
            res[-1] = ("k", res[-1][1] + p[1])
        elif p == ("k", ""):
            continue
        else:
            res.append(p)
    if not res:
        return ("k", "")
    if len(res) == 1 and res[0][0] == "k":
        return res[0]
    return ("str", *res)


def _format(s, args, kw):
    import string
    parts, n = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(("k", lit))
            if field is None:
                continue
            if field == "":
                parts.append(args[n])
                n += 1
            elif field.isdigit():
                parts.append(args[int(field)])
            elif field in kw:
                parts.append(kw[field])
            else:
                return None
    except Exception:
        return None
    return concat(parts)


def _fold(fn, a):
    if fn == "Eq":
        return a[0] == a[1]
    if fn == "Is":
        return a[0] is a[1] if any(x is None or isinstance(x, bool) for x in a) else a[0] == a[1]
    if fn == "In":
        return a[0] in a[1]
    if fn == "Not":
        return not a[0]
    if fn == "Lt":
        return a[0] < a[1]
    if fn == "LtE":
        return a[0] <= a[1]
    if fn == "Gt":
        return a[0] > a[1]
    if fn == "GtE":
        return a[0] >= a[1]
    if fn == "Add":
        return a[0] + a[1]
    if fn == "Sub":
        return a[0] - a[1]
    if fn == "Mult" and all(isinstance(x, int) for x in a):
        return a[0] * a[1]
    if fn == "Mult" and any(isinstance(x, int) and abs(x) < 99 for x in a) and any(isinstance(x, (str, bytes, float, int)) for x in a):
        return a[0] * a[1]
    if fn == "Mod" and isinstance(a[0], (int, float)) and a[1]:
        return a[0] % a[1]
    if fn == "FloorDiv" and all(isinstance(x, (int, float)) for x in a) and a[1]:
        return a[0] // a[1]
    if fn == "Div" and all(isinstance(x, (int, float)) for x in a) and a[1]:
        return a[0] / a[1]
    if fn == "Mod" and isinstance(a[0], str) and isinstance(a[1], (str, int)):
        return a[0] % a[1]
    if fn in ("repr", "ascii") and isinstance(a[0], (str, bytes, int, float, type(None))):
        return repr(a[0]) if fn == "repr" else ascii(a[0])
    if fn == "format" and isinstance(a[0], (str, int, float)):
        return format(*a)
    if fn == "USub":
        return -a[0]
    if fn == "BitOr" and all(isinstance(x, (int, frozenset)) for x in a):
        return a[0] | a[1]
    if fn == "BitAnd" and all(isinstance(x, (int, frozenset)) for x in a):
        return a[0] & a[1]
    if fn == "allof":
        return all(a)
    if fn == "slice":
        return slice(*a)
    raise ValueError(fn)


TYPES = {"str": str, "int": int, "bool": bool, "bytes": bytes, "float": float, "dict": dict, "list": list, "tuple": tuple, "set": set}


def _isinst(st, v, cls):
    names = [cls] if cls[0] in ("b", "g") else list(cls[1:]) if cls[0] == "T" else None
    if names is None:
        return None
    names = [n[1].rsplit(".", 1)[-1] for n in names if n[0] in ("b", "g")]
    if v[0] == "k":
        res = [isinstance(v[1], TYPES[n]) for n in names if n in TYPES]
        return True if any(res) else False
    mine = {"T": {"tuple", "Sequence", "Iterable"}, "str": {"str"}, "O": {"dict": {"dict", "Mapping", "MutableMapping", "Iterable"}, "list": {"list", "Sequence", "Iterable"}, "set": {"set", "Iterable"}}.get(st.heap.get(v, ("?",))[0], set())}[v[0]]
    return bool(mine & set(names))


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False
