"""Interpretation of the browser client's TypeScript over its syntax trees.

Values which only pass through are opaque (`Sym`); a branch on one of them is followed both ways, by
running the interpretation again with the other answer (`paths`). What the browser and preact provide
are host objects given by the rules. Anything not understood raises `Unsup`, which never counts as a
violation.
"""
from __future__ import annotations

import json
import math
import os
import re
import shutil
import subprocess
import sys
from pathlib import Path

HERE = Path(__file__).parent


sys.setrecursionlimit(max(sys.getrecursionlimit(), 12000))


class Unsup(Exception):
    pass


class Throw(Exception):
    def __init__(self, value):
        self.value = value


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    def __init__(self, label=None):
        self.label = label


class _Continue(Exception):
    def __init__(self, label=None):
        self.label = label


class _Undef:
    def __repr__(self):
        return "undefined"

    def __bool__(self):
        return False


UNDEF = _Undef()
_MISSING = object()


class Sym:
    """An opaque value of a known type."""

    def __init__(self, name, typ="object"):
        self.name, self.typ = name, typ

    def __repr__(self):
        return f"<{self.name}>"


class Prop:
    def __init__(self, get=None, set=None):
        self.get, self.set = get, set


class Obj:
    cls = "Object"

    def __init__(self, props=None, proto=None, cls=None):
        self.p = dict(props or {})
        self.proto = proto
        if cls:
            self.cls = cls

    def __repr__(self):
        return f"{self.cls}{{{', '.join(map(str, self.p))}}}"


class Arr(Obj):
    cls = "Array"

    def __init__(self, items=()):
        super().__init__()
        self.a = list(items)

    def __repr__(self):
        return f"[{', '.join(map(repr, self.a))}]"


class Fn(Obj):
    cls = "Function"

    def __init__(self, name="", host=None, node=None, scope=None, this=_MISSING, file="", isclass=False, construct=None, home=None):
        super().__init__()
        self.name, self.host, self.node, self.scope, self.this, self.file, self.isclass, self.construct, self.home = name, host, node, scope, this, file, isclass, construct, home
        self.fields, self.ctor, self.base = [], None, None
        self.p["prototype"] = Obj()
        self.p["prototype"].p["constructor"] = self

    def __repr__(self):
        return f"function {self.name}"


class Promise(Obj):
    cls = "Promise"

    def __init__(self):
        super().__init__()
        self.state, self.value, self.subs = "pending", UNDEF, []


class Scope:
    __slots__ = ("v", "up", "const", "fn", "this", "newt", "home")

    def __init__(self, up=None, fn=False):
        self.v, self.up, self.const, self.fn = {}, up, set(), fn
        self.this, self.home = _MISSING, None

    def find(self, name):
        s = self
        while s is not None:
            if name in s.v:
                return s
            s = s.up
        return None


TDZ = object()
_cache: dict = {}


def trees(texts: dict) -> dict:
    """Syntax trees of the given sources, by node's TypeScript."""
    key = tuple(sorted(texts.items()))
    if key not in _cache:
        node = shutil.which("node") or "/usr/bin/node"
        r = subprocess.run([node, str(HERE / "dump.cjs")], input=json.dumps(texts), capture_output=True, text=True, timeout=300)
        if r.returncode:
            raise Unsup("no syntax trees: " + r.stderr[-300:])
        _cache[key] = json.loads(r.stdout)
    return _cache[key]


def typeof(v):
    if v is UNDEF:
        return "undefined"
    if v is None:
        return "object"
    if isinstance(v, bool):
        return "boolean"
    if isinstance(v, (int, float)):
        return "number"
    if isinstance(v, str):
        return "string"
    if isinstance(v, Fn):
        return "function"
    if isinstance(v, Sym):
        return v.typ
    return "object"


def num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, float)):
        return v
    if v is None:
        return 0
    if v is UNDEF:
        return math.nan
    if isinstance(v, str):
        t = v.strip()
        if not t:
            return 0
        try:
            return int(t, 0) if re.match(r"0[xXbBoO]", t) else norm(float(t))
        except ValueError:
            return math.nan
    if isinstance(v, Arr):
        return num(show(v))
    if isinstance(v, Sym):
        raise Unsup(f"number of {v}")
    return math.nan


def norm(x):
    if isinstance(x, float) and math.isfinite(x) and x == int(x) and abs(x) < 2**53:
        return int(x)
    return x


def show(v):
    if isinstance(v, str):
        return v
    if v is UNDEF:
        return "undefined"
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        if math.isnan(v):
            return "NaN"
        if math.isinf(v):
            return "Infinity" if v > 0 else "-Infinity"
        return repr(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Arr):
        return ",".join("" if x is None or x is UNDEF else show(x) for x in v.a)
    if isinstance(v, Fn):
        return f"function {v.name}() {{}}"
    if isinstance(v, Sym):
        raise Unsup(f"text of {v}")
    if v.cls == "Error" or "message" in v.p and "name" in v.p:
        return f"{v.p.get('name', 'Error')}: {v.p.get('message', '')}"
    if v.cls == "URL":
        return v.text()
    return f"[object {v.cls if v.cls in ('Map', 'Set', 'Date', 'Promise') else 'Object'}]"


def key_of(v):
    if isinstance(v, str):
        return v
    if isinstance(v, Sym):
        if v.typ == "symbol":
            return v
        raise Unsup(f"key {v}")
    if isinstance(v, float):
        v = norm(v)
    return show(v)


class Machine:
    def __init__(self, sources: dict, hosts: dict | None = None, choices=()):
        """sources: {file: text}; hosts: {module name: {export: value}}."""
        self.trees = trees(sources)
        self.hosts = hosts or {}
        self.mods: dict = {}
        self.micro: list = []
        self.choices, self.taken = list(choices), []
        self.memo: dict = {}
        self.steps = self.deep = 0
        self.at = ("", 0)
        self.logs: list = []
        self.escaped: list = []
        self.now = 1_000_000
        self.timers: dict = {}
        self.nexttimer = 1
        self.protos: dict = {}
        self.top = Scope()
        self.symiter = Sym("Symbol.iterator", "symbol")
        self.evaluate = None
        self.importer = None
        from . import builtins

        builtins.install(self)

    # ---- choices
    def choose(self, key):
        if key in self.memo:
            return self.memo[key]
        i = len(self.taken)
        v = self.choices[i] if i < len(self.choices) else True
        self.taken.append(v)
        if len(self.taken) > 12:
            raise Unsup("too many branches on opaque values")
        self.memo[key] = v
        return v

    def truthy(self, v):
        if v is UNDEF or v is None or v is False:
            return False
        if v is True:
            return True
        if isinstance(v, (int, float)):
            return not (v == 0 or v != v)
        if isinstance(v, str):
            return v != ""
        if isinstance(v, Sym) and v.typ not in ("object", "function", "symbol"):
            return self.choose(("true", v))
        return True

    def strict(self, a, b):
        if a is b:
            return not (isinstance(a, float) and a != a)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if typeof(a) != typeof(b):
                return False
            if typeof(a) in ("object", "function", "symbol"):
                return False
            return self.choose(("eq", a, b) if id(a) < id(b) else ("eq", b, a))
        if isinstance(a, bool) or isinstance(b, bool):
            return False
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return False

    def loose(self, a, b):
        if (a is None or a is UNDEF) and (b is None or b is UNDEF):
            return True
        if a is None or a is UNDEF or b is None or b is UNDEF:
            return False
        if typeof(a) == typeof(b):
            return self.strict(a, b)
        pa, pb = (isinstance(x, (bool, int, float, str)) for x in (a, b))
        if pa and pb:
            return num(a) == num(b)
        if pa or pb:
            return num(a) == num(b) if (typeof(a) == "number" or typeof(b) == "number") else show(a) == show(b)
        return a is b

    # ---- properties
    def proto_of(self, v):
        if isinstance(v, str):
            return self.protos["String"]
        if isinstance(v, bool):
            return self.protos["Boolean"]
        if isinstance(v, (int, float)):
            return self.protos["Number"]
        if isinstance(v, Obj):
            if v.proto is not None:
                return v.proto if v.proto is not Machine else None
            q = self.protos.get(v.cls) or self.protos["Object"]
            return q if q is not v else (None if v is self.protos["Object"] else self.protos["Object"])
        return None

    def get(self, v, k):
        if v is None or v is UNDEF:
            raise Throw(self.error("TypeError", f"Cannot read properties of {show(v)} (reading '{k}')"))
        if isinstance(v, Sym):
            raise Unsup(f"property {k} of {v}")
        if isinstance(v, str):
            if k == "length":
                return len(v)
            if isinstance(k, str) and k.isdigit():
                return v[int(k)] if int(k) < len(v) else UNDEF
        if isinstance(v, Arr):
            if k == "length":
                return len(v.a)
            if isinstance(k, str) and k.isdigit():
                i = int(k)
                return v.a[i] if i < len(v.a) else UNDEF
        if isinstance(v, Fn) and k == "name" and "name" not in v.p:
            return v.name
        if k == "__proto__":
            return self.proto_of(v) or None
        o, seen = v, 0
        while o is not None:
            if isinstance(o, Obj):
                if hasattr(o, "hostget"):
                    r = o.hostget(k)
                    if r is not _MISSING:
                        return r
                if k in o.p:
                    x = o.p[k]
                    if isinstance(x, Prop):
                        return self.call(x.get, v, []) if x.get is not None else UNDEF
                    return x
            o = self.proto_of(o)
            seen += 1
            if seen > 60:
                raise Unsup("chain of prototypes")
        return UNDEF

    def has(self, v, k):
        o = v
        while o is not None:
            if isinstance(o, Arr) and (k == "length" or isinstance(k, str) and k.isdigit() and int(k) < len(o.a)):
                return True
            if hasattr(o, "hostget") and o.hostget(k) is not _MISSING:
                return True
            if isinstance(o, Obj) and k in o.p:
                return True
            o = self.proto_of(o)
        return False

    def own(self, v):
        if isinstance(v, Sym):
            raise Unsup(f"keys of {v}")
        if isinstance(v, str):
            return [str(i) for i in range(len(v))]
        if not isinstance(v, Obj):
            return []
        ks = [str(i) for i in range(len(v.a))] if isinstance(v, Arr) else []
        hidden = getattr(v, "hidden", ())
        mine = [k for k in v.p if isinstance(k, str) and k not in hidden and not (isinstance(v, Fn) and k == "prototype")]
        return ks + sorted((k for k in mine if k.isdigit()), key=int) + [k for k in mine if not k.isdigit()]

    def put(self, v, k, x):
        if v is None or v is UNDEF:
            raise Throw(self.error("TypeError", f"Cannot set properties of {show(v)} (setting '{k}')"))
        if isinstance(v, Sym):
            raise Unsup(f"set {k} of {v}")
        if not isinstance(v, Obj):
            return
        if getattr(v, "frozen", False):
            raise Throw(self.error("TypeError", f"Cannot assign to read only property '{k}'"))
        if isinstance(v, Arr):
            if k == "length":
                n = int(num(x))
                v.a[n:] = []
                v.a += [UNDEF] * (n - len(v.a))
                return
            if isinstance(k, str) and k.isdigit():
                i = int(k)
                v.a += [UNDEF] * (i + 1 - len(v.a))
                v.a[i] = x
                return
        o = v
        while o is not None:
            if isinstance(o, Obj) and isinstance(o.p.get(k), Prop):
                s = o.p[k].set
                if s is None:
                    raise Throw(self.error("TypeError", f"Cannot set property {k} which has only a getter"))
                self.call(s, v, [x])
                return
            o = self.proto_of(o)
        if hasattr(v, "hostset") and v.hostset(k, x):
            return
        v.p[k] = x

    def delete(self, v, k):
        if isinstance(v, Arr) and isinstance(k, str) and k.isdigit():
            if int(k) < len(v.a):
                v.a[int(k)] = UNDEF
            return True
        if isinstance(v, Obj):
            if getattr(v, "frozen", False):
                raise Throw(self.error("TypeError", "cannot delete"))
            v.p.pop(k, None)
        return True

    def error(self, name, msg):
        c = self.top.v.get(name) or self.top.v.get("Error")
        e = Obj({"message": msg, "stack": ""}, proto=c.p["prototype"] if c else None, cls="Error")
        e.hidden = {"message", "stack"}
        e.p["name"] = name
        e.hidden.add("name")
        return e

    # ---- calls
    def fn(self, f, name=""):
        """A host function: f(this, args)."""
        return Fn(name or getattr(f, "__name__", ""), host=f)

    def call(self, f, this=UNDEF, args=()):
        if isinstance(f, Sym):
            raise Unsup(f"call of {f}")
        if not isinstance(f, Fn):
            raise Throw(self.error("TypeError", f"{show(f) if not isinstance(f, Obj) else 'object'} is not a function"))
        self.steps += 1
        if self.steps > 400000:
            raise Unsup("too long")
        args = list(args)
        if f.host is not None:
            return f.host(this, args)
        if f.isclass:
            raise Throw(self.error("TypeError", f"Class constructor {f.name} cannot be invoked without 'new'"))
        mods = f.node.get("modifiers") or []
        if f.node.get("asteriskToken"):
            raise Unsup("generator")
        g = self.body(f, this, args)
        if self.deep > 100:
            raise Unsup("too deep")
        self.deep += 1
        try:
            return self.spawn(g) if "AsyncKeyword" in mods else self.drive(g)
        finally:
            self.deep -= 1

    def drive(self, g):
        here = self.at
        try:
            next(g)
        except StopIteration as e:
            self.at = here
            return e.value
        raise Unsup("await in a function which is not async")

    def spawn(self, g):
        p = Promise()

        def step(send, v):
            try:
                w = g.send(v) if send else g.throw(Throw(v))
            except StopIteration as e:
                self.resolve(p, e.value)
                return
            except Throw as e:
                self.reject(p, e.value)
                return
            q = self.promised(w)
            self.then(q, lambda x: step(True, x), lambda x: step(False, x))

        try:
            w = next(g)
        except StopIteration as e:
            self.resolve(p, e.value)
            return p
        except Throw as e:
            self.reject(p, e.value)
            return p
        q = self.promised(w)
        self.then(q, lambda x: step(True, x), lambda x: step(False, x))
        return p

    def promised(self, v):
        if isinstance(v, Promise):
            return v
        p = Promise()
        self.resolve(p, v)
        return p

    def resolve(self, p, v):
        if p.state != "pending" or getattr(p, "locked", False):
            if p.state != "pending":
                return
        if isinstance(v, Promise):
            p.locked = True
            self.then(v, lambda x: self.settle(p, "ok", x), lambda x: self.settle(p, "bad", x))
            return
        if isinstance(v, Obj) and not isinstance(v, Fn):
            t = self.get(v, "then")
            if isinstance(t, Fn):
                self.micro.append(lambda: self.call(t, v, [self.fn(lambda th, a: self.settle(p, "ok", a[0] if a else UNDEF)), self.fn(lambda th, a: self.settle(p, "bad", a[0] if a else UNDEF))]))
                return
        self.settle(p, "ok", v)

    def reject(self, p, v):
        self.settle(p, "bad", v)

    def settle(self, p, state, v):
        if p.state != "pending":
            return UNDEF
        p.state, p.value = state, v
        for ok, bad in p.subs:
            self.micro.append(lambda ok=ok, bad=bad: (ok if state == "ok" else bad)(v))
        if state == "bad" and not p.subs:
            p.unheard = True
            self.escaped.append(p)
        p.subs = []
        return UNDEF

    def then(self, p, ok, bad):
        p.unheard = False
        if p.state == "pending":
            p.subs.append((ok, bad))
        else:
            v = p.value
            self.micro.append(lambda: (ok if p.state == "ok" else bad)(v))

    def run_micro(self):
        n = 0
        while self.micro:
            self.micro.pop(0)()
            n += 1
            if n > 5000:
                raise Unsup("endless tasks")

    def new(self, f, args=(), target=None):
        if isinstance(f, Sym):
            raise Unsup(f"new {f}")
        if not isinstance(f, Fn):
            raise Throw(self.error("TypeError", "not a constructor"))
        args = list(args)
        target = target or f
        if f.construct is not None:
            o = f.construct(args)
            if target is not f and isinstance(o, Obj):
                o.proto = target.p["prototype"]
            return o
        if f.host is not None:
            raise Throw(self.error("TypeError", f"{f.name} is not a constructor"))
        if f.isclass:
            if f.base is not None:
                return self.derived(f, args, target)
            o = Obj(proto=target.p["prototype"])
            self.fields(f, o)
            if f.ctor is not None:
                self.drive(self.body(f.ctor, o, args, owner=f))
            return o
        o = Obj(proto=target.p["prototype"])
        r = self.call(f, o, args)
        return r if isinstance(r, Obj) else o

    def derived(self, f, args, target):
        if f.ctor is None:
            o = self.new(f.base, args, target)
            self.fields(f, o)
            return o
        box = {"this": None, "class": f, "target": target}
        sc = Scope(f.scope, fn=True)
        sc.this, sc.home = _MISSING, f
        sc.v["%super"] = box
        self.drive(self.body(f.ctor, box, args, owner=f, scope=sc))
        if box["this"] is None:
            raise Throw(self.error("ReferenceError", "super() was not called"))
        return box["this"]

    def fields(self, f, o):
        for n, file in f.fields:
            sc = Scope(f.scope, fn=True)
            sc.this, sc.home = o, f
            init = n.get("initializer")
            k = self.drive(self.propname(n["name"], sc))
            o.p[k] = self.named(self.drive(self.ev(init, sc)), k) if init else UNDEF

    def body(self, f, this, args, owner=None, scope=None):
        n = f.node
        sc = scope or Scope(f.scope, fn=True)
        if n["k"] != "ArrowFunction":
            if not isinstance(this, dict):
                sc.this = this
            sc.v["arguments"] = Arr(args)
            sc.home = f.home or owner
        for i, p in enumerate(n.get("parameters") or []):
            if p["name"].get("text") == "this" and p["name"]["k"] == "Identifier":
                continue
            if p.get("dotDotDotToken"):
                yield from self.bind(p["name"], Arr(args[i:]), sc, "let")
                continue
            v = args[i] if i < len(args) else UNDEF
            if v is UNDEF and p.get("initializer"):
                v = yield from self.ev(p["initializer"], sc)
            yield from self.bind(p["name"], v, sc, "let")
            if {"PrivateKeyword", "PublicKeyword", "ReadonlyKeyword", "ProtectedKeyword"} & set(p.get("modifiers") or []):
                self.put(this, p["name"]["text"], v)
        b = n.get("body")
        if b is None:
            return UNDEF
        if b["k"] != "Block":
            return (yield from self.ev(b, sc))
        try:
            yield from self.block(b["statements"], sc)
        except _Return as r:
            return r.value
        return UNDEF

    # ---- names
    def bind(self, pat, v, sc, decl):
        k = pat["k"]
        if k == "Identifier":
            if decl == "assign":
                self.assign_name(pat["text"], v, sc)
            else:
                t = sc
                if decl == "var":
                    while not t.fn and t.up is not None and t.up is not self.top:
                        t = t.up
                t.v[pat["text"]] = v
                if decl == "const":
                    t.const.add(pat["text"])
            return
        if k == "ObjectBindingPattern":
            if v is None or v is UNDEF:
                raise Throw(self.error("TypeError", f"Cannot destructure {show(v)}"))
            used = set()
            for e in pat["elements"]:
                if e.get("dotDotDotToken"):
                    rest = Obj({x: self.get(v, x) for x in self.own(v) if x not in used})
                    yield from self.bind(e["name"], rest, sc, decl)
                    continue
                kk = (yield from self.propname(e["propertyName"], sc)) if e.get("propertyName") else e["name"]["text"]
                used.add(kk)
                x = self.get(v, kk)
                if x is UNDEF and e.get("initializer"):
                    x = yield from self.ev(e["initializer"], sc)
                yield from self.bind(e["name"], x, sc, decl)
            return
        if k == "ArrayBindingPattern":
            items = list(self.iterate(v))
            for i, e in enumerate(pat["elements"]):
                if e["k"] == "OmittedExpression":
                    continue
                if e.get("dotDotDotToken"):
                    yield from self.bind(e["name"], Arr(items[i:]), sc, decl)
                    continue
                x = items[i] if i < len(items) else UNDEF
                if x is UNDEF and e.get("initializer"):
                    x = yield from self.ev(e["initializer"], sc)
                yield from self.bind(e["name"], x, sc, decl)
            return
        if k == "ArrayLiteralExpression":
            items = list(self.iterate(v))
            for i, e in enumerate(pat["elements"]):
                if e["k"] == "OmittedExpression":
                    continue
                if e["k"] == "SpreadElement":
                    yield from self.assign(e["expression"], Arr(items[i:]), sc)
                else:
                    yield from self.assign(e, items[i] if i < len(items) else UNDEF, sc)
            return
        raise Unsup(f"pattern {k}")

    def assign_name(self, name, v, sc):
        s = sc.find(name)
        if s is None:
            raise Throw(self.error("ReferenceError", f"{name} is not defined"))
        if s.v[name] is TDZ:
            raise Throw(self.error("ReferenceError", f"Cannot access '{name}' before initialization"))
        if name in s.const:
            raise Throw(self.error("TypeError", "Assignment to constant variable."))
        s.v[name] = v

    def assign(self, t, v, sc):
        k = t["k"]
        if k == "Identifier":
            self.assign_name(t["text"], v, sc)
        elif k == "PropertyAccessExpression":
            o = yield from self.ev(t["expression"], sc)
            self.put(o, t["name"]["text"], v)
        elif k == "ElementAccessExpression":
            o = yield from self.ev(t["expression"], sc)
            i = yield from self.ev(t["argumentExpression"], sc)
            self.put(o, key_of(i), v)
        elif k == "BinaryExpression" and t["op"] == "=":
            if v is UNDEF:
                v = yield from self.ev(t["right"], sc)
            yield from self.assign(t["left"], v, sc)
        elif k == "ObjectLiteralExpression":
            used = set()
            for e in t["properties"]:
                if e["k"] == "ShorthandPropertyAssignment":
                    x = self.get(v, e["name"]["text"])
                    used.add(e["name"]["text"])
                    if x is UNDEF and e.get("objectAssignmentInitializer"):
                        x = yield from self.ev(e["objectAssignmentInitializer"], sc)
                    self.assign_name(e["name"]["text"], x, sc)
                elif e["k"] == "PropertyAssignment":
                    kk = yield from self.propname(e["name"], sc)
                    used.add(kk)
                    yield from self.assign(e["initializer"], self.get(v, kk), sc)
                elif e["k"] == "SpreadAssignment":
                    yield from self.assign(e["expression"], Obj({x: self.get(v, x) for x in self.own(v) if x not in used}), sc)
        else:
            yield from self.bind(t, v, sc, "assign")

    def propname(self, n, sc):
        k = n["k"]
        if k == "ComputedPropertyName":
            return key_of((yield from self.ev(n["expression"], sc)))
        if k == "NumericLiteral":
            return key_of(norm(n["num"]))
        if k == "PrivateIdentifier":
            return n["text"]
        return n["text"]

    def iterate(self, v):
        if isinstance(v, Arr):
            i = 0
            while i < len(v.a):
                yield v.a[i]
                i += 1
            return
        if isinstance(v, str):
            yield from v
            return
        if isinstance(v, Sym):
            raise Unsup(f"items of {v}")
        if isinstance(v, Obj):
            if hasattr(v, "items_"):
                yield from v.items_()
                return
            f = self.get(v, self.symiter)
            if isinstance(f, Fn):
                it = self.call(f, v, [])
                if isinstance(it, Arr):
                    yield from list(it.a)
                    return
                nx = self.get(it, "next")
                while True:
                    r = self.call(nx, it, [])
                    if self.truthy(self.get(r, "done")):
                        return
                    yield self.get(r, "value")
        raise Throw(self.error("TypeError", f"{show(v) if not isinstance(v, Obj) else 'object'} is not iterable"))

    def named(self, v, name):
        if isinstance(v, Fn) and v.host is None and not v.name and isinstance(name, str):
            v.name = name
        return v

    # ---- statements
    def hoist(self, stmts, sc):
        for s in stmts:
            if s["k"] == "FunctionDeclaration" and s.get("body") and s.get("name"):
                sc.v[s["name"]["text"]] = self.closure(s, sc)
            elif s["k"] == "ClassDeclaration" and s.get("name"):
                sc.v[s["name"]["text"]] = TDZ
            elif s["k"] == "VariableStatement" and s["declarationList"]["decl"] != "var":
                for d in s["declarationList"]["declarations"]:
                    for name in self.names(d["name"]):
                        sc.v[name] = TDZ

    def names(self, pat):
        if pat["k"] == "Identifier":
            yield pat["text"]
        elif pat["k"] != "OmittedExpression":
            for e in pat["elements"]:
                if e["k"] != "OmittedExpression":
                    yield from self.names(e["name"])

    def block(self, stmts, sc):
        self.hoist(stmts, sc)
        for s in stmts:
            yield from self.st(s, sc)

    def closure(self, n, sc, home=None):
        this = sc
        name = (n.get("name") or {}).get("text", "")
        f = Fn(name, node=n, scope=sc, file=self.file_of(sc), home=home)
        return f

    def file_of(self, sc):
        s = sc
        while s is not None:
            if "%file" in s.v:
                return s.v["%file"]
            s = s.up
        return ""

    def st(self, n, sc):
        k = n["k"]
        self.steps += 1
        if self.steps > 400000:
            raise Unsup("too long")
        self.at = (self.at[0], n.get("l", 0))
        if k == "ExpressionStatement":
            yield from self.ev(n["expression"], sc)
        elif k == "VariableStatement":
            yield from self.declare(n["declarationList"], sc)
        elif k == "ReturnStatement":
            v = (yield from self.ev(n["expression"], sc)) if n.get("expression") else UNDEF
            raise _Return(v)
        elif k == "IfStatement":
            c = yield from self.ev(n["expression"], sc)
            if self.truthy(c):
                yield from self.st(n["thenStatement"], sc)
            elif n.get("elseStatement"):
                yield from self.st(n["elseStatement"], sc)
        elif k == "Block":
            yield from self.block(n["statements"], Scope(sc))
        elif k in ("EmptyStatement", "FunctionDeclaration", "ImportDeclaration", "EndOfFileToken", "DebuggerStatement"):
            pass
        elif k == "ClassDeclaration":
            c = yield from self.klass(n, sc)
            sc.v[n["name"]["text"]] = c
        elif k in ("WhileStatement", "DoStatement"):
            first = k == "DoStatement"
            while True:
                if not first and not self.truthy((yield from self.ev(n["expression"], sc))):
                    break
                first = False
                try:
                    yield from self.st(n["statement"], sc)
                except _Break as b:
                    if b.label:
                        raise
                    break
                except _Continue as c:
                    if c.label and c.label != n.get("%label"):
                        raise
        elif k == "ForStatement":
            s = Scope(sc)
            i = n.get("initializer")
            if i:
                if i["k"] == "VariableDeclarationList":
                    yield from self.declare(i, s)
                else:
                    yield from self.ev(i, s)
            while not n.get("condition") or self.truthy((yield from self.ev(n["condition"], s))):
                inner = Scope(s.up)
                inner.v.update(s.v)
                try:
                    yield from self.st(n["statement"], inner)
                except _Break as b:
                    if b.label:
                        raise
                    break
                except _Continue as c:
                    if c.label and c.label != n.get("%label"):
                        raise
                s = Scope(inner.up)
                s.v.update(inner.v)
                if n.get("incrementor"):
                    yield from self.ev(n["incrementor"], s)
        elif k in ("ForOfStatement", "ForInStatement"):
            v = yield from self.ev(n["expression"], sc)
            if k == "ForOfStatement":
                items = self.iterate(v)
            else:
                items = [] if v is None or v is UNDEF else self.forin(v)
            for x in items:
                if n.get("awaitModifier"):
                    x = yield x
                s = Scope(sc)
                i = n["initializer"]
                if i["k"] == "VariableDeclarationList":
                    yield from self.bind(i["declarations"][0]["name"], x, s, i["decl"] if i["decl"] != "const" else "let")
                else:
                    yield from self.assign(i, x, s)
                try:
                    yield from self.st(n["statement"], s)
                except _Break as b:
                    if b.label:
                        raise
                    break
                except _Continue as c:
                    if c.label and c.label != n.get("%label"):
                        raise
        elif k == "BreakStatement":
            raise _Break((n.get("label") or {}).get("text"))
        elif k == "ContinueStatement":
            raise _Continue((n.get("label") or {}).get("text"))
        elif k == "LabeledStatement":
            lab = n["label"]["text"]
            n["statement"]["%label"] = lab
            try:
                yield from self.st(n["statement"], sc)
            except _Break as b:
                if b.label != lab:
                    raise
        elif k == "ThrowStatement":
            raise Throw((yield from self.ev(n["expression"], sc)))
        elif k == "TryStatement":
            try:
                try:
                    yield from self.st(n["tryBlock"], sc)
                except Throw as e:
                    c = n.get("catchClause")
                    if not c:
                        raise
                    s = Scope(sc)
                    if c.get("variableDeclaration"):
                        yield from self.bind(c["variableDeclaration"]["name"], e.value, s, "let")
                    yield from self.block(c["block"]["statements"], s)
            finally:
                if n.get("finallyBlock"):
                    yield from self.st(n["finallyBlock"], sc)
        elif k == "SwitchStatement":
            v = yield from self.ev(n["expression"], sc)
            s = Scope(sc)
            cl = n["caseBlock"]["clauses"]
            start = None
            for i, c in enumerate(cl):
                if c["k"] == "CaseClause" and self.strict(v, (yield from self.ev(c["expression"], s))):
                    start = i
                    break
            if start is None:
                start = next((i for i, c in enumerate(cl) if c["k"] == "DefaultClause"), None)
            if start is not None:
                try:
                    for c in cl[start:]:
                        self.hoist(c["statements"], s)
                        for x in c["statements"]:
                            yield from self.st(x, s)
                except _Break as b:
                    if b.label:
                        raise
        elif k == "ExportAssignment":
            sc.v["default"] = yield from self.ev(n["expression"], sc)
        elif k == "ExportDeclaration":
            pass
        else:
            raise Unsup(f"statement {k}")

    def forin(self, v):
        seen, o = [], v
        while isinstance(o, Obj) or isinstance(o, str):
            for x in self.own(o) if not getattr(o, "builtin", False) else []:
                if x not in seen and not (o is not v and x == "constructor"):
                    seen.append(x)
            if isinstance(o, str):
                break
            o = self.proto_of(o)
        return seen

    def declare(self, dl, sc):
        for d in dl["declarations"]:
            i = d.get("initializer")
            v = UNDEF
            if i:
                v = yield from self.ev(i, sc)
                if d["name"]["k"] == "Identifier":
                    self.named(v, d["name"]["text"])
            elif dl["decl"] == "var" and d["name"]["k"] == "Identifier" and sc.find(d["name"]["text"]):
                continue
            yield from self.bind(d["name"], v, sc, dl["decl"])

    def klass(self, n, sc):
        name = (n.get("name") or {}).get("text", "")
        inner = Scope(sc)
        c = Fn(name, node=n, scope=inner, isclass=True, file=self.file_of(sc))
        inner.v[name or "%class"] = c
        for h in n.get("heritageClauses") or []:
            # `implements` has types only; `extends` names a value
            if h.get("token") in (None, "extends") and h.get("types"):
                t = h["types"][0]
                if t["k"] == "Identifier" and sc.find(t["text"]) is None:
                    continue
                try:
                    b = yield from self.ev(t, sc)
                except Throw:
                    continue
                if isinstance(b, Fn) and c.base is None:
                    c.base = b
                    c.p["prototype"].proto = b.p["prototype"]
                    c.proto = b
        pr = c.p["prototype"]
        pr.hidden = {"constructor"}
        for m in n["members"]:
            mods = set(m.get("modifiers") or [])
            if "AbstractKeyword" in mods or "DeclareKeyword" in mods:
                continue
            where = c if "StaticKeyword" in mods else pr
            k = m["k"]
            if k == "Constructor":
                if m.get("body"):
                    c.ctor = Fn("constructor", node=m, scope=inner, file=c.file, home=c)
            elif k == "MethodDeclaration":
                if m.get("body"):
                    nm = yield from self.propname(m["name"], inner)
                    where.p[nm] = self.closure(m, inner, home=c)
                    where.p[nm].name = nm if isinstance(nm, str) else ""
                    if where is pr:
                        pr.hidden.add(nm)
            elif k in ("GetAccessor", "SetAccessor"):
                nm = yield from self.propname(m["name"], inner)
                p = where.p.get(nm)
                if not isinstance(p, Prop):
                    p = where.p[nm] = Prop()
                setattr(p, "get" if k == "GetAccessor" else "set", self.closure(m, inner, home=c))
                if where is pr:
                    pr.hidden.add(nm)
            elif k == "PropertyDeclaration":
                if where is c:
                    s = Scope(inner, fn=True)
                    s.this = c
                    c.p[m["name"]["text"]] = (yield from self.ev(m["initializer"], s)) if m.get("initializer") else UNDEF
                else:
                    c.fields.append((m, c.file))
            elif k in ("SemicolonClassElement", "IndexSignature"):
                pass
            else:
                raise Unsup(f"member {k}")
        return c

    # ---- expressions
    def this(self, sc):
        s = sc
        while s is not None:
            if "%super" in s.v and s.v["%super"]["this"] is not None:
                return s.v["%super"]["this"]
            if s.this is not _MISSING:
                return s.this
            s = s.up
        return UNDEF

    def args(self, ns, sc):
        out = []
        for a in ns or []:
            if a["k"] == "SpreadElement":
                out += list(self.iterate((yield from self.ev(a["expression"], sc))))
            else:
                out.append((yield from self.ev(a, sc)))
        return out

    def optional(self, n):
        """Whether a chain contains `?.`"""
        while n["k"] in ("PropertyAccessExpression", "ElementAccessExpression", "CallExpression"):
            if n.get("questionDotToken"):
                return True
            n = n["expression"]
        return False

    class Short(Exception):
        pass

    def ev(self, n, sc, chain=False):
        k = n["k"]
        f = getattr(self, "x_" + k, None)
        if f is None:
            raise Unsup(f"expression {k} at line {n.get('l')}")
        if not chain and k in ("PropertyAccessExpression", "ElementAccessExpression", "CallExpression") and self.optional(n):
            try:
                return (yield from f(n, sc))
            except Machine.Short:
                return UNDEF
        return (yield from f(n, sc))

    def x_Identifier(self, n, sc):
        t = n["text"]
        s = sc.find(t)
        if s is None:
            if t == "undefined":
                return UNDEF
            raise Throw(self.error("ReferenceError", f"{t} is not defined"))
        v = s.v[t]
        if v is TDZ:
            raise Throw(self.error("ReferenceError", f"Cannot access '{t}' before initialization"))
        if type(v) is Link:
            return v()
        return v
        yield

    def x_StringLiteral(self, n, sc):
        return n["text"]
        yield

    x_NoSubstitutionTemplateLiteral = x_StringLiteral

    def x_NumericLiteral(self, n, sc):
        return norm(n["num"])
        yield

    def x_TrueKeyword(self, n, sc):
        return True
        yield

    def x_FalseKeyword(self, n, sc):
        return False
        yield

    def x_NullKeyword(self, n, sc):
        return None
        yield

    def x_ThisKeyword(self, n, sc):
        return self.this(sc)
        yield

    def x_RegularExpressionLiteral(self, n, sc):
        from .builtins import regex

        return regex(self, n["text"])
        yield

    def x_TemplateExpression(self, n, sc):
        out = n["head"]["text"]
        for s in n["templateSpans"]:
            out += show((yield from self.ev(s["expression"], sc))) + s["literal"]["text"]
        return out

    def x_ArrayLiteralExpression(self, n, sc):
        return Arr((yield from self.args([e if e["k"] != "OmittedExpression" else {"k": "VoidExpression"} for e in n["elements"]], sc)))

    def x_VoidExpression(self, n, sc):
        if n.get("expression"):
            yield from self.ev(n["expression"], sc)
        return UNDEF

    def x_ObjectLiteralExpression(self, n, sc):
        o = Obj()
        for p in n["properties"]:
            k = p["k"]
            if k == "PropertyAssignment":
                nm = yield from self.propname(p["name"], sc)
                o.p[nm] = self.named((yield from self.ev(p["initializer"], sc)), nm)
            elif k == "ShorthandPropertyAssignment":
                o.p[p["name"]["text"]] = yield from self.ev(p["name"], sc)
            elif k == "SpreadAssignment":
                v = yield from self.ev(p["expression"], sc)
                for x in self.own(v) if v is not None and v is not UNDEF else []:
                    o.p[x] = self.get(v, x)
            elif k == "MethodDeclaration":
                nm = yield from self.propname(p["name"], sc)
                o.p[nm] = self.closure(p, sc)
                o.p[nm].name = nm if isinstance(nm, str) else ""
            elif k in ("GetAccessor", "SetAccessor"):
                nm = yield from self.propname(p["name"], sc)
                q = o.p.get(nm)
                if not isinstance(q, Prop):
                    q = o.p[nm] = Prop()
                setattr(q, "get" if k == "GetAccessor" else "set", self.closure(p, sc))
            else:
                raise Unsup(f"property {k}")
        return o

    def x_ArrowFunction(self, n, sc):
        return self.closure(n, sc)
        yield

    def x_FunctionExpression(self, n, sc):
        if n.get("name"):
            s = Scope(sc)
            f = self.closure(n, s)
            s.v[n["name"]["text"]] = f
            return f
        return self.closure(n, sc)
        yield

    def x_ClassExpression(self, n, sc):
        return (yield from self.klass(n, sc))

    def x_ConditionalExpression(self, n, sc):
        c = yield from self.ev(n["condition"], sc)
        return (yield from self.ev(n["whenTrue"] if self.truthy(c) else n["whenFalse"], sc))

    def x_TypeOfExpression(self, n, sc):
        e = n["expression"]
        if e["k"] == "Identifier" and sc.find(e["text"]) is None:
            return "undefined"
        return typeof((yield from self.ev(e, sc)))

    def x_AwaitExpression(self, n, sc):
        v = yield from self.ev(n["expression"], sc)
        return (yield v)

    def x_DeleteExpression(self, n, sc):
        e = n["expression"]
        o = yield from self.ev(e["expression"], sc)
        k = e["name"]["text"] if e["k"] == "PropertyAccessExpression" else key_of((yield from self.ev(e["argumentExpression"], sc)))
        return self.delete(o, k)

    def x_PropertyAccessExpression(self, n, sc):
        if n["expression"]["k"] == "SuperKeyword":
            return self.get(self.superproto(sc), n["name"]["text"])
        o = yield from self.ev(n["expression"], sc, True)
        if n.get("questionDotToken") and (o is None or o is UNDEF):
            raise Machine.Short()
        self.at = (self.at[0], n.get("l", 0))
        return self.get(o, n["name"]["text"])

    def superproto(self, sc):
        s = sc
        while s is not None:
            if s.home is not None:
                return self.proto_of(s.home.p["prototype"])
            s = s.up
        raise Unsup("super")

    def x_ElementAccessExpression(self, n, sc):
        o = yield from self.ev(n["expression"], sc, True)
        if n.get("questionDotToken") and (o is None or o is UNDEF):
            raise Machine.Short()
        i = yield from self.ev(n["argumentExpression"], sc)
        return self.get(o, key_of(i))

    def x_MetaProperty(self, n, sc):
        raise Unsup("meta property")
        yield

    def x_CallExpression(self, n, sc):
        e = n["expression"]
        here = n.get("l", 0)
        if e["k"] == "SuperKeyword":
            a = yield from self.args(n.get("arguments"), sc)
            s = sc.find("%super")
            if s is None:
                raise Unsup("super call")
            box = s.v["%super"]
            f = box["class"]
            box["this"] = self.new(f.base, a, box["target"])
            self.fields(f, box["this"])
            return UNDEF
        if e["k"] == "ImportKeyword":
            a = yield from self.args(n.get("arguments"), sc)
            if self.importer is None:
                raise Unsup("import()")
            return self.importer(show(a[0]))
        if e["k"] in ("PropertyAccessExpression", "ElementAccessExpression"):
            if e["expression"]["k"] == "SuperKeyword":
                o, f = self.this(sc), self.get(self.superproto(sc), e["name"]["text"])
            else:
                o = yield from self.ev(e["expression"], sc, True)
                if e.get("questionDotToken") and (o is None or o is UNDEF):
                    raise Machine.Short()
                kk = e["name"]["text"] if e["k"] == "PropertyAccessExpression" else key_of((yield from self.ev(e["argumentExpression"], sc)))
                self.at = (self.at[0], here)
                f = self.get(o, kk)
        else:
            o, f = UNDEF, (yield from self.ev(e, sc, True))
        if n.get("questionDotToken") and (f is None or f is UNDEF):
            raise Machine.Short()
        a = yield from self.args(n.get("arguments"), sc)
        self.at = (self.at[0], here)
        if e["k"] == "Identifier" and e["text"] == "eval" and isinstance(f, Fn) and f.name == "eval":
            return f.host(self.this(sc), a)
        return self.call(f, o, a)

    def x_NewExpression(self, n, sc):
        f = yield from self.ev(n["expression"], sc)
        a = yield from self.args(n.get("arguments"), sc)
        return self.new(f, a)

    def x_SpreadElement(self, n, sc):
        raise Unsup("spread")
        yield

    def x_PrefixUnaryExpression(self, n, sc):
        op = n["op"]
        if op in ("++", "--"):
            v = num((yield from self.ev(n["operand"], sc)))
            v = v + 1 if op == "++" else v - 1
            yield from self.assign(n["operand"], v, sc)
            return v
        v = yield from self.ev(n["operand"], sc)
        if op == "!":
            return not self.truthy(v)
        if op == "-":
            return norm(-num(v))
        if op == "+":
            return norm(num(v))
        if op == "~":
            return ~int(num(v))
        raise Unsup(op)

    def x_PostfixUnaryExpression(self, n, sc):
        v = num((yield from self.ev(n["operand"], sc)))
        yield from self.assign(n["operand"], v + 1 if n["op"] == "++" else v - 1, sc)
        return v

    def x_BinaryExpression(self, n, sc):
        op = n["op"]
        if op == "=":
            v = yield from self.ev(n["right"], sc)
            if n["left"]["k"] == "Identifier":
                self.named(v, n["left"]["text"])
            yield from self.assign(n["left"], v, sc)
            return v
        if op in ("&&", "||", "??"):
            a = yield from self.ev(n["left"], sc)
            if op == "&&":
                return a if not self.truthy(a) else (yield from self.ev(n["right"], sc))
            if op == "||":
                return a if self.truthy(a) else (yield from self.ev(n["right"], sc))
            return a if not (a is None or a is UNDEF) else (yield from self.ev(n["right"], sc))
        if op in ("&&=", "||=", "??="):
            a = yield from self.ev(n["left"], sc)
            if (op == "&&=" and not self.truthy(a)) or (op == "||=" and self.truthy(a)) or (op == "??=" and not (a is None or a is UNDEF)):
                return a
            v = yield from self.ev(n["right"], sc)
            yield from self.assign(n["left"], v, sc)
            return v
        if op == ",":
            yield from self.ev(n["left"], sc)
            return (yield from self.ev(n["right"], sc))
        a = yield from self.ev(n["left"], sc)
        b = yield from self.ev(n["right"], sc)
        if op.endswith("=") and op not in ("==", "===", "!=", "!==", "<=", ">="):
            v = self.binary(op[:-1], a, b)
            yield from self.assign(n["left"], v, sc)
            return v
        return self.binary(op, a, b)

    def binary(self, op, a, b):
        if op == "===":
            return self.strict(a, b)
        if op == "!==":
            return not self.strict(a, b)
        if op == "==":
            return self.loose(a, b)
        if op == "!=":
            return not self.loose(a, b)
        if op == "in":
            if not isinstance(b, Obj):
                raise Throw(self.error("TypeError", "cannot use 'in' here"))
            return self.has(b, key_of(a))
        if op == "instanceof":
            if not isinstance(b, Fn):
                raise Throw(self.error("TypeError", "Right-hand side of 'instanceof' is not callable"))
            if isinstance(a, Sym):
                raise Unsup(f"{a} instanceof")
            o = self.proto_of(a) if isinstance(a, Obj) else None
            while o is not None:
                if o is b.p["prototype"]:
                    return True
                o = self.proto_of(o)
            return False
        if op == "+":
            if isinstance(a, Sym) or isinstance(b, Sym):
                raise Unsup("sum of opaque values")
            pa, pb = (x if not isinstance(x, Obj) else show(x) for x in (a, b))
            if isinstance(pa, str) or isinstance(pb, str):
                return show(pa) + show(pb)
            return norm(num(pa) + num(pb))
        if op in ("<", ">", "<=", ">="):
            if isinstance(a, str) and isinstance(b, str):
                x, y = a, b
            else:
                x, y = num(a), num(b)
            return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        x, y = num(a), num(b)
        try:
            if op == "-":
                return norm(x - y)
            if op == "*":
                return norm(x * y)
            if op == "/":
                if y == 0:
                    return math.nan if x == 0 or x != x else math.inf if x > 0 else -math.inf
                return norm(x / y)
            if op == "%":
                return math.nan if y == 0 else norm(math.fmod(x, y))
            if op == "**":
                return norm(x**y)
            x, y = (int(z) if z == z else 0 for z in (x, y))
            if op == "|":
                return x | y
            if op == "&":
                return x & y
            if op == "^":
                return x ^ y
            if op == "<<":
                return x << y
            if op in (">>", ">>>"):
                return x >> y
        except OverflowError:
            return math.inf
        raise Unsup(f"operator {op}")

    # ---- JSX
    def x_JsxElement(self, n, sc):
        return (yield from self.jsx(n["openingElement"], n["children"], sc))

    def x_JsxSelfClosingElement(self, n, sc):
        return (yield from self.jsx(n, [], sc))

    def x_JsxFragment(self, n, sc):
        kids = yield from self.jsxkids(n["children"], sc)
        return self.jsxmake(self.fragment, Obj(), kids)

    def x_JsxExpression(self, n, sc):
        return (yield from self.ev(n["expression"], sc)) if n.get("expression") else UNDEF

    def jsx(self, o, children, sc):
        t = o["tagName"]
        if t["k"] == "Identifier" and t["text"][0].islower():
            ty = t["text"]
        else:
            ty = yield from self.ev(t, sc)
        props = Obj()
        for a in o["attributes"]["properties"]:
            if a["k"] == "JsxSpreadAttribute":
                v = yield from self.ev(a["expression"], sc)
                for x in self.own(v) if v is not None and v is not UNDEF else []:
                    props.p[x] = self.get(v, x)
            else:
                i = a.get("initializer")
                props.p[a["name"]["text"]] = (yield from self.ev(i, sc)) if i else True
        kids = yield from self.jsxkids(children, sc)
        return self.jsxmake(ty, props, kids)

    def jsxkids(self, children, sc):
        out = []
        for c in children:
            if c["k"] == "JsxText":
                lines = c["text"].split("\n")
                t = " ".join(x for x in ([lines[0].rstrip() if len(lines) > 1 else lines[0]] + [y.strip() for y in lines[1:-1]] + ([lines[-1].lstrip()] if len(lines) > 1 else [])) if x)
                if t:
                    out.append(t)
            elif c["k"] == "JsxExpression":
                if c.get("expression"):
                    v = yield from self.ev(c["expression"], sc)
                    out += list(self.iterate(v)) if c.get("dotDotDotToken") else [v]
            else:
                out.append((yield from self.ev(c, sc)))
        return out

    # ---- modules
    def module(self, file):
        if file in self.mods:
            return self.mods[file]
        tree = self.trees.get(file)
        if tree is None:
            raise Unsup(f"module {file}")
        if tree["k"] == "Broken":
            raise Unsup(f"{file}: {tree['text']}")
        sc = Scope(self.top, fn=True)
        sc.v["%file"] = file
        sc.this = UNDEF
        ns = self.mods[file] = Exports(self, sc)
        for s in tree["statements"]:
            if s["k"] == "ImportDeclaration":
                self.imported(s, sc, file)
            elif s["k"] == "ExportDeclaration":
                self.exported(s, ns, file)
            elif s["k"] == "ExportAssignment":
                ns.names["default"] = (sc, "default")
            elif "ExportKeyword" in (s.get("modifiers") or []):
                if s["k"] == "VariableStatement":
                    for d in s["declarationList"]["declarations"]:
                        for x in self.names(d["name"]):
                            ns.names[x] = (sc, x)
                elif s.get("name"):
                    d = "DefaultKeyword" in s["modifiers"]
                    ns.names["default" if d else s["name"]["text"]] = (sc, s["name"]["text"])
                elif s["k"] == "FunctionDeclaration":
                    sc.v["default"] = self.closure(s, sc)
                    ns.names["default"] = (sc, "default")
        self.drive(self.block(tree["statements"], sc))
        return ns

    def resolve_module(self, spec, file):
        if spec.startswith("."):
            base = os.path.normpath(os.path.join(os.path.dirname(file), spec))
            for c in (base, base + ".ts", base + ".tsx", base + "/index.ts", base + "/index.tsx", re.sub(r"\.js$", ".ts", base), re.sub(r"\.jsx?$", ".tsx", base)):
                if c in self.trees:
                    return self.module(c)
            raise Unsup(f"module {spec}")
        if spec in self.hosts:
            h = self.hosts[spec]
            return self.module(h) if isinstance(h, str) else h
        raise Unsup(f"module {spec}")

    def imported(self, s, sc, file):
        c = s.get("importClause")
        spec = s["moduleSpecifier"]["text"]
        if c and c.get("isTypeOnly"):
            return
        nb = (c or {}).get("namedBindings")
        if c and not c.get("name") and nb and nb["k"] == "NamedImports" and nb["elements"] and all(e.get("isTypeOnly") for e in nb["elements"]):
            return
        m = self.resolve_module(spec, file)
        if not c:
            return
        if c.get("name"):
            sc.v[c["name"]["text"]] = Link(self, m, "default")
        if nb:
            if nb["k"] == "NamespaceImport":
                sc.v[nb["name"]["text"]] = m if isinstance(m, Obj) else Obj(m)
            else:
                for e in nb["elements"]:
                    if not e.get("isTypeOnly"):
                        sc.v[e["name"]["text"]] = Link(self, m, (e.get("propertyName") or e["name"])["text"])

    def exported(self, s, ns, file):
        if s.get("isTypeOnly"):
            return
        spec = (s.get("moduleSpecifier") or {}).get("text")
        cl = s.get("exportClause")
        m = self.resolve_module(spec, file) if spec else None
        if cl is None:
            ns.stars.append(m)
        elif cl["k"] == "NamespaceExport":
            ns.fixed[cl["name"]["text"]] = m if isinstance(m, Obj) else Obj(m)
        else:
            for e in cl["elements"]:
                src = (e.get("propertyName") or e["name"])["text"]
                if m is None:
                    ns.names[e["name"]["text"]] = (ns.scope, src)
                else:
                    ns.fixed[e["name"]["text"]] = Link(self, m, src)


class Link:
    """An imported name."""

    def __init__(self, m, mod, name):
        self.m, self.mod, self.name = m, mod, name

    def __call__(self):
        if isinstance(self.mod, Exports):
            return self.mod.value(self.name)
        if isinstance(self.mod, dict):
            if self.name not in self.mod:
                raise Unsup(f"import of {self.name}")
            return self.mod[self.name]
        return self.m.get(self.mod, self.name)


class Exports(Obj):
    cls = "Module"

    def __init__(self, m, scope):
        super().__init__()
        self.m, self.scope, self.names, self.stars, self.fixed = m, scope, {}, [], {}

    def value(self, name):
        if name in self.names:
            sc, n = self.names[name]
            v = sc.v.get(n, UNDEF)
            return v() if type(v) is Link else v
        if name in self.fixed:
            v = self.fixed[name]
            return v() if type(v) is Link else v
        for s in self.stars:
            v = s.value(name) if isinstance(s, Exports) else s.get(name, UNDEF) if isinstance(s, dict) else self.m.get(s, name)
            if v is not UNDEF:
                return v
        return UNDEF

    def hostget(self, k):
        v = self.value(k)
        return v if v is not UNDEF else _MISSING


def paths(make, limit=64):
    """Run `make(choices)` (-> machine, result) for every answer to the branches on opaque values."""
    todo, n = [()], 0
    while todo:
        ch = todo.pop()
        n += 1
        if n > limit:
            raise Unsup("too many paths")
        m, r = make(ch)
        for i in range(len(ch), len(m.taken)):
            todo.append(tuple(m.taken[:i]) + (False,))
        yield m, r
