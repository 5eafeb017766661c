"""Ownership analysis: which values may be objects the application handed over.

Levels: 0 own, 1 own container whose items may be the application's, 2 the application's object;
('t', levels...) a tuple by position, ('d', ((key, level), ...)) a dict by constant key.  Propagated
through assignments, containers, parameters, results, attributes and constant keys of all modules
until nothing changes."""
from __future__ import annotations

import ast

from .flow import Flow
from .ir import build
from .project import Project, dotted

MUTATORS = {"append", "extend", "insert", "pop", "popitem", "remove", "clear", "update", "setdefault", "sort", "reverse", "add", "discard", "__setitem__", "__delitem__", "__ior__", "__iadd__", "appendleft"}
SHALLOW = {"copy", "items", "values", "union", "fromkeys"}
CONTAINERS = {"list", "tuple", "dict", "set", "frozenset", "sorted", "reversed", "enumerate", "zip", "iter", "map", "filter", "itertools.chain", "copy.copy", "itertools.chain.from_iterable", "collections.ChainMap", "collections.OrderedDict", "collections.deque"}


def top(lv):
    if isinstance(lv, int):
        return lv
    if lv[0] in ("t", "l"):
        return 1 if any(top(x) for x in lv[1:]) else 0
    return 1 if any(top(v) for _, v in lv[1]) else 0


def join(a, b):
    if a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if a[0] in ("t", "l") and len(a) == len(b):
            return (a[0], *[join(x, y) for x, y in zip(a[1:], b[1:])])
        if a[0] == "d":
            d = dict(a[1])
            for k, v in b[1]:
                d[k] = join(d[k], v) if k in d else v
            return ("d", tuple(sorted(d.items(), key=repr)))
    if a == 0 and isinstance(b, tuple):
        return b
    if b == 0 and isinstance(a, tuple):
        return a
    return max(top(a), top(b))


def item(lv, key=None):
    """level of an item of a container"""
    if isinstance(lv, int):
        return 2 if lv else 0
    if lv[0] == "l":
        return lv[1]
    if lv[0] == "t":
        if isinstance(key, int) and -len(lv) < key < len(lv) - 1:
            return lv[1:][key]
        out = 0
        for x in lv[1:]:
            out = join(out, x)
        return out
    if isinstance(key, str):
        return dict(lv[1]).get(key, dict(lv[1]).get(None, 0))
    out = 0
    for _, x in lv[1]:
        out = join(out, x)
    return out


def clip(lv, depth=3):
    if isinstance(lv, int) or depth <= 0:
        return top(lv) if depth <= 0 else lv
    if lv[0] in ("t", "l"):
        return (lv[0], *[clip(x, depth - 1) for x in lv[1:]])
    return ("d", tuple((k, clip(v, depth - 1)) for k, v in lv[1]))


class Own:
    def __init__(self, P: Project, funcs, source_calls, param_levels):
        """source_calls(flow, call instr) -> level or None; param_levels {(qual, name): level}"""
        self.P = P
        self.funcs = funcs
        self.src = source_calls
        self.param = dict(param_levels)
        self.ret: dict = {}
        self.attr: dict = {}
        self.key: dict = {}
        self.var: dict = {}  # captured variables
        self.flows = {}
        self.adds = {}
        self.hits = {}
        cache = P.__dict__.setdefault("_own_flows", {})
        for f in funcs:
            if f.qual not in cache:
                cache[f.qual] = Flow(build(P, f, lambda x: False))
            self.flows[f.qual] = cache[f.qual]
        self.kwfuncs = {}
        for m in P.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    for k in n.keywords:
                        if k.arg and isinstance(k.value, ast.Name):
                            r = P.funcs.get(P.resolve_in(m, k.value.id))
                            if r is not None:
                                self.kwfuncs.setdefault(k.arg, set()).add(r)
        self.changed = True
        rounds = 0
        while self.changed and rounds < 12:
            self.changed = False
            rounds += 1
            for f in funcs:
                self.run(f)
        for f in funcs:
            self.report(f)

    def put(self, d, k, lv):
        lv = clip(lv)
        if not top(lv) and k not in d:
            return
        new = join(d.get(k, 0), lv)
        if new != d.get(k, 0):
            d[k] = new
            self.changed = True

    # ------------------------------------------------------------ levels of operands
    def level(self, fl, op, at):
        self.busy = set()
        return self._level(fl, op, at)

    def _level(self, fl, op, at):
        if op is None:
            return 0
        k = op[0]
        if k == "p":
            return self.param.get((op[1], op[2]), 0)
        if k == "free":
            lv = self.var.get((op[1], op[2]), 0)
            for d in fl.reaching(op, at):
                if d.op == "assign":
                    lv = join(lv, self._level(fl, d.a["src"], d))
            return lv
        if k == "v":
            lv = 0
            for d in fl.reaching(op, at):
                if d.op == "catch" or d.id in self.busy:
                    continue
                self.busy.add(d.id)
                one = self._level(fl, d.a["src"], d)
                self.busy.discard(d.id)
                if top(one) and not self._may_hold(fl, op, d, at):
                    one = 0
                lv = join(lv, one)
            return lv
        if k == "t":
            d = fl.g.deftmp.get(op[1])
            return self._instr(fl, d) if d is not None else 0
        return 0

    def _may_hold(self, fl, v, d, at):
        """Can a container assigned by d be what the variable holds at `at`?  Not if every way
        there passes a test which says that it is none."""
        g = fl.g
        tests = set()
        for b in g.live():
            if b.op != "branch" or b.a["cond"][0] != "t":
                continue
            c = g.deftmp.get(b.a["cond"][1])
            neg = False
            while c is not None and c.op == "op" and c.a["fn"] == "Not" and c.a["args"][0][0] == "t":
                c, neg = g.deftmp.get(c.a["args"][0][1]), not neg
            if c is not None and c.op == "call" and c.a["callee"] == ("builtin", "isinstance") and c.a["args"][0] == v:
                k = c.a["args"][1]
                names = {k[1].rsplit(".", 1)[-1]} if k[0] in ("b", "g") else set()
                none_left = {"dict", "list", "Mapping", "MutableMapping", "Sequence", "tuple", "VdomDict", "Iterable"}
                if names & none_left:
                    tests.add((b.id, "t" if neg else "f"))
                elif names & {"str", "int", "bytes"}:
                    tests.add((b.id, "f" if neg else "t"))
        if not tests:
            return True
        r = fl.reach_avoiding([s for s, _ in d.succ], lambda x: x.id == at.id, lambda x: x.id != at.id and x.dst == v, lambda a, l, t: (a.id, l) not in tests)
        return r is not None

    def _instr(self, fl, d):
        if d.id in self.busy:
            return 0
        self.busy.add(d.id)
        try:
            return self._instr2(fl, d)
        finally:
            self.busy.discard(d.id)

    def _instr2(self, fl, d):
        a, m = d.a, d.func.module.name
        L = lambda o: self._level(fl, o, d)
        if d.op == "getattr":
            b = L(a["obj"])
            if isinstance(b, int) and b == 2:
                return 2
            return self.attr.get((m, a["attr"]), 0)
        if d.op == "getitem":
            b = L(a["obj"])
            kk = a["key"][1] if a["key"][0] == "k" else None
            lv = item(b, kk)
            if kk is not None and isinstance(kk, str) and not (isinstance(b, int) and b):
                lv = join(lv, self.key.get((m, kk), 0))
            return lv
        if d.op == "call":
            return self._call(fl, d)
        if d.op == "await":
            return L(a["src"])
        if d.op == "build":
            if a["kind"] == "tuple":
                items = [L(x) for x in a["items"]]
                if not any(self._is_star(fl, x) for x in a["items"]):
                    return ("t", *items)
                return 1 if any(top(x) for x in items) else 0
            if a["kind"] == "dict" and not a.get("comp"):
                out, fuzzy = {}, 0
                for it in a["items"]:
                    ko, v = it if isinstance(it, tuple) and len(it) == 2 and (it[0] is None or isinstance(it[0], tuple)) else (None, it)
                    lv = L(v)
                    if ko is not None and ko[0] == "k" and isinstance(ko[1], str):
                        out[ko[1]] = lv
                    elif isinstance(lv, tuple) and lv[0] == "d":
                        out.update(dict(lv[1]))
                    else:
                        fuzzy = max(fuzzy, 1 if top(lv) else 0)
                if fuzzy:
                    out[None] = 2
                more = self._added(fl, d)
                if top(more):
                    out[None] = join(out.get(None, 0), more)
                return ("d", tuple(sorted(out.items(), key=repr))) if out else 0
            lv = 0
            for x in a["items"]:
                if isinstance(x, tuple) and len(x) == 2 and (x[0] is None or isinstance(x[0], tuple)):
                    lv = join(lv, L(x[1]))
                else:
                    lv = join(lv, item(L(x)) if self._is_star(fl, x) else L(x))
            if a.get("comp"):
                for c in fl.g.live():
                    if c.op in ("comp_add", "setitem") and c.a.get("obj") == d.dst:
                        lv = join(lv, self._level(fl, c.a["val"], c))
            lv = join(lv, self._added(fl, d))
            return ("l", lv) if top(lv) else 0
        if d.op == "op":
            if a["fn"] in ("BitOr", "Add", "Or", "And"):
                ls = [L(x) for x in a["args"]]
                if a["fn"] == "BitOr" and all(isinstance(x, tuple) and x[0] == "d" or x == 0 for x in ls):
                    out = {}
                    for x in ls:
                        if x:
                            out.update(dict(x[1]))
                    return ("d", tuple(sorted(out.items(), key=repr))) if out else 0
                return 1 if any(top(x) for x in ls) else 0
            return 0
        if d.op == "iter":
            return L(a["src"])
        if d.op == "next":
            return item(L(a["it"]))
        if d.op == "unpack":
            return item(L(a["obj"]), a["idx"] if isinstance(a["idx"], int) else None)
        if d.op == "star":
            return L(a["src"])
        if d.op in ("with_enter",):
            return 0
        return 0

    def _added(self, fl, d):
        """what is put into the container built by d, by way of its variables"""
        if id(fl) not in self.adds:
            t = self.adds[id(fl)] = {}
            for c in fl.g.live():
                obj = vals = None
                if c.op == "setitem" and not c.a.get("comp"):
                    obj, vals = c.a["obj"], [(c.a["val"], False)]
                    if c.a["key"][0] == "k" and isinstance(c.a["key"][1], str):
                        continue
                elif c.op == "call" and c.a["callee"][0] == "method":
                    n = c.a["callee"][2]
                    if n in ("append", "add", "insert", "appendleft", "setdefault"):
                        obj, vals = c.a["callee"][1], [(c.a["args"][-1], False)] if c.a["args"] else []
                    elif n in ("extend", "update"):
                        obj, vals = c.a["callee"][1], [(x, True) for x in c.a["args"]]
                elif c.op == "op" and c.a.get("aug") and c.a["fn"] in ("Add", "BitOr"):
                    obj, vals = c.a["args"][0], [(c.a["args"][1], True)]
                if obj is not None:
                    for o in fl.origins(obj, c):
                        t.setdefault(o, []).append((c, vals))
        lv = 0
        for c, vals in self.adds[id(fl)].get(d.id, ()):
            if c.id in self.busy:
                continue
            self.busy.add(c.id)
            for x, many in vals:
                one = self._level(fl, x, c)
                lv = join(lv, item(one) if many else one)
            self.busy.discard(c.id)
        return lv

    def _is_star(self, fl, x):
        return x[0] == "t" and fl.g.deftmp.get(x[1]) is not None and fl.g.deftmp[x[1]].op == "star"

    def _call(self, fl, d):
        s = self.src(fl, d)
        if s is not None:
            return s
        a = d.a
        c = a["callee"]
        L = lambda o: self._level(fl, o, d)
        key = fl.callee_key(d)
        if key == "typing.cast" and len(a["args"]) == 2:
            return L(a["args"][1])
        if c[0] == "method":
            b = L(c[1])
            n = c[2]
            m = d.func.module.name
            if n in ("get", "pop", "setdefault"):
                kk = a["args"][0][1] if a["args"] and a["args"][0][0] == "k" else None
                lv = item(b, kk)
                if isinstance(kk, str) and not (isinstance(b, int) and b):
                    lv = join(lv, self.key.get((m, kk), 0))
                for x in a["args"][1:]:
                    lv = join(lv, L(x))
                return lv
            if n in SHALLOW:
                if n == "copy" and isinstance(b, tuple):
                    return b
                return 1 if top(b) else 0
            return 0
        if c[0] == "repo":
            return self.ret.get(c[1].qual, 0)
        if c[0] == "class":
            bases = " ".join(c[1].bases)
            if "dict" in bases or "list" in bases:
                return 1 if any(top(L(x)) for x in list(a["args"]) + [v for _, v in a["kw"]]) else 0
            return 0
        if c[0] in ("builtin", "ext") and (key in CONTAINERS or key.rsplit(".", 1)[-1] in ("chain",)):
            return 1 if any(top(L(x)) for x in list(a["args"]) + [v for _, v in a["kw"]]) else 0
        if key in ("next", "max", "min") and a["args"]:
            return item(L(a["args"][0]))
        if key == "getattr" and a["args"]:
            return 2 if L(a["args"][0]) == 2 else 0
        return 0

    # ------------------------------------------------------------ propagation
    def targets(self, fl, d):
        c = d.a["callee"]
        if c[0] == "repo":
            return [c[1]]
        if c[0] == "class":
            i = self.P.method(c[1], "__init__")
            return [i] if i is not None else []
        if c[0] == "method" and c[2] in self.kwfuncs:
            return list(self.kwfuncs[c[2]])
        return []

    def run(self, f):
        fl = self.flows[f.qual]
        g = fl.g
        for i in g.live():
            if i.op == "call":
                for t in self.targets(fl, i):
                    ps = t.params()
                    if ps and ps[0] in ("self", "cls") and t.cls is not None and not any(d == "staticmethod" for d in t.decorators):
                        ps = ps[1:]
                    va = t.node.args.vararg
                    kwa = t.node.args.kwarg
                    for n, x in enumerate(i.a["args"]):
                        lv = self.level(fl, x, i)
                        if self._is_star(fl, x):
                            for p in ps[n:]:
                                self.put(self.param, (t.qual, p), item(lv))
                            if va:
                                self.put(self.param, (t.qual, va.arg), 1 if top(lv) else 0)
                            break
                        if n < len(ps):
                            self.put(self.param, (t.qual, ps[n]), lv)
                        elif va:
                            self.put(self.param, (t.qual, va.arg), 1 if top(lv) else 0)
                    for k, x in i.a["kw"]:
                        lv = self.level(fl, x, i)
                        if k is None:
                            for p in t.all_params():
                                if p not in ("self", "cls"):
                                    self.put(self.param, (t.qual, p), item(lv, p))
                        elif k in t.all_params():
                            self.put(self.param, (t.qual, k), lv)
                        elif kwa:
                            self.put(self.param, (t.qual, kwa.arg), 1 if top(lv) else 0)
                c = i.a["callee"]
                # items added to own containers
            elif i.op == "setattr":
                self.put(self.attr, (f.module.name, i.a["attr"]), self.level(fl, i.a["val"], i))
            elif i.op == "setitem" and not i.a.get("comp"):
                if i.a["key"][0] == "k" and isinstance(i.a["key"][1], str):
                    self.put(self.key, (f.module.name, i.a["key"][1]), self.level(fl, i.a["val"], i))
            elif i.op == "return" and i.func is f:
                self.put(self.ret, f.qual, self.level(fl, i.a["val"], i))
            elif i.op == "assign" and i.dst[0] == "v" and f.nested:
                self.put(self.var, (f.qual, i.dst[2]), self.level(fl, i.a["src"], i))

    def report(self, f):
        fl = self.flows[f.qual]
        self.hits[f.qual] = out = []
        self.sites = getattr(self, "sites", 0)
        for i in fl.g.live():
            obj = what = None
            if i.op in ("setitem", "delitem") and not i.a.get("comp"):
                obj, what = i.a["obj"], "an item of it is set or deleted"
            elif i.op in ("setattr", "delattr") and "obj" in i.a:
                obj, what = i.a["obj"], f"its attribute {i.a.get('attr')} is set"
            elif i.op == "call" and i.a["callee"][0] == "method" and i.a["callee"][2] in MUTATORS:
                obj, what = i.a["callee"][1], f".{i.a['callee'][2]}() is called on it"
            elif i.op == "op" and i.a.get("aug") and i.a["fn"] in ("BitOr", "Add") and i.a["args"]:
                o = fl.origins(i.a["args"][1], i) if len(i.a["args"]) > 1 else ()
                cont = any(fl.g.instrs[x].op == "build" for x in o)
                for t in fl.terms(i.a["args"][0], i):
                    if t[0] == "p" and t[1] in self.P.funcs:
                        for x in ast.walk(self.P.funcs[t[1]].node.args):
                            if isinstance(x, ast.arg) and x.arg == t[2] and x.annotation is not None and any(w in ast.unparse(x.annotation) for w in ("list", "List", "Sequence", "set[")):
                                cont = True
                if i.a["fn"] == "BitOr" or cont:
                    obj, what = i.a["args"][0], "it is extended in place"
            if obj is None:
                continue
            self.sites += 1
            if self.level(fl, obj, i) == 2:
                out.append((i, what))
