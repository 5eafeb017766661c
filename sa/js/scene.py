"""A page with the client's modules, for the rules."""
from __future__ import annotations

from . import UNDEF, Arr, Exports, Fn, Machine, Obj, Promise, Throw, Unsup, paths, show
from .browser import Browser, Dom, sockets, url_class

BASE = "src/js/packages/"
CLIENT = BASE + "@reactpy/client/src/"
CONVERT = BASE + "event-to-object/src/index.ts"


def sources(ck):
    P = ck.p
    if "_js" not in P.__dict__:
        out = {}
        for pkg in ("@reactpy/client", "event-to-object"):
            for p in sorted((P.root / BASE / pkg / "src").rglob("*.ts*")):
                rel = p.relative_to(P.root).as_posix()
                out[rel] = P.overlay.get(rel) or p.read_text(encoding="utf-8")
        out.update({k: v for k, v in P.overlay.items() if k.startswith(BASE) and "/src/" in k and k not in out})
        P._js = out
    return P._js


class Scene:
    def __init__(self, ck, choices=(), convert=None, protocol="http:", search="", path="/here"):
        self.ck = ck
        m = self.m = Machine(sources(ck), {}, choices)
        b = self.b = Browser(m)
        self.made: list = []
        sockets(m, self.made)
        url_class(m)
        self.location = Obj({"protocol": protocol, "host": "h:1", "hostname": "h", "origin": protocol + "//h:1", "pathname": path, "search": search, "href": protocol + "//h:1" + path + search})
        m.top.v["location"] = self.location
        self.imports: list = []
        self.modules: dict = {}
        m.importer = self.dynamic
        pre = dict(b.preact)
        hooks = dict(b.hooks)
        m.hosts = {"preact": pre, "preact/hooks": hooks, "preact/compat": {**pre, **hooks, "default": Obj({**pre, **hooks})}, "preact/jsx-runtime": {"Fragment": b.fragment, "jsx": UNDEF, "jsxs": UNDEF},
                   "json-pointer": {"set": m.fn(self.pointer, "set"), "default": Obj({"set": m.fn(self.pointer, "set")})},
                   "event-to-object": {"default": m.fn(lambda t, a: self.converted(a), "convert")} if convert is None else CONVERT}
        self.plain: dict = {}

    def converted(self, a):
        e = a[0]
        if id(e) not in self.plain:
            self.plain[id(e)] = (Obj({"of": len(self.plain)}), e)
        return self.plain[id(e)][0]

    def pointer(self, t, a):
        """json-pointer's set."""
        o, p, v = a
        parts = list(p.a) if isinstance(p, Arr) else [x.replace("~1", "/").replace("~0", "~") for x in show(p).split("/")[1:]]
        if not parts:
            raise Throw(self.m.error("Error", "Can not set the root document"))
        for i, k in enumerate(parts[:-1]):
            k = show(k)
            if not self.m.has(o, k):
                self.m.put(o, k, Arr() if parts[i + 1].isdigit() else Obj())
            o = self.m.get(o, k)
        k = show(parts[-1])
        if isinstance(o, Arr) and k == "-":
            k = str(len(o.a))
        self.m.put(o, k, v)
        return UNDEF

    def dynamic(self, spec):
        self.imports.append(spec)
        p = Promise()
        v = self.modules.get(spec)
        if v is None:
            self.m.reject(p, self.m.error("TypeError", f"Failed to fetch {spec}"))
        elif isinstance(v, Promise):
            return v
        else:
            self.m.resolve(p, v)
        return p

    def load(self, name):
        return self.m.module(CLIENT + name)

    def js(self, v):
        return self.m.tojs(v)

    def fn(self, f, name=""):
        return self.m.fn(f, name)


def used(ck, m):
    for f in m.mods:
        ck.modules.add(f)
