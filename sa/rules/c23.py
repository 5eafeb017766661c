"""C23  A configuration option follows its specification in every history."""
from ..absint import State, deep
from ..lib import *
from ..objs import SELF, World, bind_call

EXPLANATION = """
The methods of Option are interpreted on every state which any sequence of operations can reach (for
representative values: valid, valid and equal, not valid, of the wrong type; mutable or not; with or
without environment variable, parent and subscribers), side by side with the specification of an option.
After every operation the result, the value (through the public properties) and the notifications agree.
Every option which the package declares is named like its environment variable and has a default its validator accepts.
"""
ASSUMPTIONS = ["validators are idempotent", "os.environ does not change under the analysis"]
OPT = "reactpy._option"
PARENT = ("S", "parent")
VALID = ("S", "validator")
SUBS = (("S", "subscriber", 1), ("S", "subscriber", 2))
NONE = ("k", None)
NAME = "AN_OPTION"


def validate(v):
    """value, or the exception"""
    if v[0] != "k" or isinstance(v[1], list):
        return "TypeError"
    try:
        return ("k", int(v[1]))
    except ValueError:
        return "ValueError"
    except TypeError:
        return "TypeError"


class W(World):
    env = None

    def __init__(self, ck, cls):
        super().__init__(ck, (OPT,), {SELF: cls, PARENT: ck.p.cls(OPT + ".Option")})
        self.closed = (SELF, PARENT)

    def truth(self, st, v):
        if v[0] == "op" and v[1] in ("In", "NotIn") and "environ" in repr(v[3]):
            return (self.env is not None and v[2] == ("k", NAME)) == (v[1] == "In")
        if v[0] == "op" and v[1] in ("Is", "IsNot", "Eq", "NotEq") and len(v) == 4:
            a, b = v[2], v[3]
            if "UNDEFINED" in repr(v):
                return (a == b) == (v[1] in ("Is", "Eq"))
            if a[0] == b[0] == "k":
                same = a == b and type(a[1]) is type(b[1]) if v[1] in ("Is", "IsNot") else a[1] == b[1]
                return same == (v[1] in ("Is", "Eq"))
            if a != b and {a[0], b[0]} <= {"k", "S"}:
                return v[1] in ("IsNot", "NotEq")
        if v in (VALID, *SUBS):
            return True
        return super().truth(st, v)

    def item(self, st, v, k):
        if v[0] == "g" and v[1].endswith("environ"):
            return ("k", self.env) if self.env is not None and k == ("k", NAME) else ("missing",)
        return None

    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        if last in ("debug", "info", "warning") and recv is not None and "logger" in repr(recv):
            return [("v", NONE)]
        callee = recv if key == "value" else ai.getattr(st, recv, last) if recv is not None and i.a["callee"][0] == "method" else None
        if "environ" in repr(recv) and last == "get" or key == "os.getenv":
            return [("v", ("k", self.env) if self.env is not None and args[:1] == (("k", NAME),) else args[1] if len(args) > 1 else NONE)]
        if callee == VALID:
            r = validate(args[0])
            return [("v", r)] if isinstance(r, tuple) else [("raise", r)]
        if callee in SUBS:
            st = st.copy()
            outs = self.interpret(self.P.method(self.classes[SELF], "current"), SELF, (), (), st) or []
            now = outs[0].value if len(outs) == 1 else None
            st.ev = st.ev + (("notified", callee[2], args[0] if args else NONE, now),)
            return [("v", NONE, st)]
        if key.endswith("_warnings.warn"):
            st = st.copy()
            st.ev = st.ev + (("warned",),)
            return [("v", NONE, st)]
        return None


class Spec:
    """what an option is"""

    def __init__(self, default, mutable, cur=None, subs=(), env=None):
        self.default, self.mutable, self.cur, self.subs, self.env = default, mutable, cur, subs, env

    @property
    def current(self):
        return self.default if self.cur is None else self.cur

    def key(self):
        return (self.default, self.mutable, self.cur, self.subs, self.env)

    def copy(self):
        return Spec(*(self.default, self.mutable, self.cur, self.subs, self.env))

    def changed(self, old):
        return [("notified", n, self.current) for n in self.subs] if self.current != old else []

    def set(self, v):
        """(exception or None, value, notifications)"""
        old = self.current
        if v == old and type(v[1]) is type(old[1]):
            return None, NONE, []
        if not self.mutable:
            return "TypeError", None, []
        r = validate(v)
        if isinstance(r, str):
            return r, None, []
        self.cur = r
        return None, NONE, self.changed(old)

    def do(self, op, *a):
        if op in ("set_current", "current@setter"):
            return self.set(*a)
        if op in ("unset", "current@deleter"):
            if not self.mutable:
                return "TypeError", None, []
            old = self.current
            self.cur = None
            return None, NONE, self.changed(old)
        if op == "set_default":
            if self.cur is not None:
                return None, self.current, []
            e, _, ev = self.set(*a)
            return e, None if e else self.current, ev
        if op == "reload":
            return self.set(("k", self.env) if self.env is not None else self.default)
        if op == "subscribe":
            if not self.mutable:
                return "TypeError", None, []
            self.subs += (a[0][2],)
            return None, a[0], [("notified", a[0][2], self.current)]
        raise KeyError(op)


OPS = [(op, (v,)) for op in ("set_current", "current@setter", "set_default") for v in (("k", 1), ("k", True), ("k", 2), ("k", 0), ("k", "2"), ("k", "x"), ("k", None))]
OPS += [("unset", ()), ("current@deleter", ()), ("reload", ())] + [("subscribe", (s,)) for s in SUBS]


def observe(w, st, me=SELF):
    """public state of an option"""
    c = w.classes[me]
    out = {}
    for n in ("current", "default", "mutable", "name", "is_set"):
        f = w.P.method(c, n)
        outs = w.interpret(f, me, (), (), st) or []
        vs = {o.value for o in outs if o.kind == "exit"}
        out[n] = vs.pop() if len(vs) == 1 and len(outs) == 1 else ("?", n)
        if outs and outs[0].st.heap != st.heap and {k: v for k, v in outs[0].st.heap.items() if k[0] == "@"} != {k: v for k, v in st.heap.items() if k[0] == "@"}:
            out[n] = ("reading", n, "changes the option")
    return out


def differs(w, st, spec, me=SELF):
    o = observe(w, st, me)
    want = {"current": spec.current, "default": spec.default, "mutable": ("k", spec.mutable), "is_set": ("k", spec.cur is not None)}
    for n, v in want.items():
        if o[n] != v:
            return f"{n} is {show(o[n])} instead of {show(v)}"
    return None


def show(v):
    return repr(v[1]) if v and v[0] == "k" else " ".join(str(x) for x in v)


def make(w, me, st, kw):
    f = w.P.method(w.classes[me], "__init__")
    return w.interpret(f, me, (), kw, st) or []


def begin():
    return State({}, {("@", ("S", "none"), "x"): NONE})


def exc_name(o):
    v = o.value
    if v[0] == "exc":
        return v[1]
    return v[1].removeprefix("class:") if v[0] == "C" else str(v)


def run(ck):
    P = ck.p
    cls = P.cls(OPT + ".Option")
    for n in ("__init__", "current", "current@setter", "current@deleter", "subscribe", "is_set", "set_current", "set_default", "reload", "unset"):
        ck.need(P.method(cls, n), f"Option.{n}")
    create(ck, cls)
    histories(ck, cls)
    parents(ck, cls)
    deprecated(ck)
    declared(ck)


def create(ck, cls):
    ck.rule("create", "a new option has its default, or the value of its environment variable", 6)
    loc = ck.p.method(cls, "__init__").loc()
    base = [("name", ("k", NAME)), ("validator", VALID)]
    for what, env, kw, want in (
        ("default", None, [("default", ("k", 1))], Spec(("k", 1), True)),
        ("immutable", None, [("default", ("k", 1)), ("mutable", ("k", False))], Spec(("k", 1), False)),
        ("false default", None, [("default", ("k", 0))], Spec(("k", 0), True)),
        ("None as default", None, [("default", NONE)], Spec(NONE, True)),
        ("environment", "7", [("default", ("k", 1))], Spec(("k", 1), True, ("k", 7))),
        ("environment, immutable", "7", [("default", ("k", 1)), ("mutable", ("k", False))], Spec(("k", 1), False, ("k", 7))),
        ("zero in the environment", "0", [("default", ("k", 1))], Spec(("k", 1), True, ("k", 0))),
        ("empty in the environment", "", [("default", ("k", 1))], "ValueError"),
        ("not valid in the environment", "x", [("default", ("k", 1))], "ValueError"),
        ("no default", None, [], "TypeError"),
    ):
        w = W(ck, cls)
        w.env = env
        outs = make(w, SELF, begin(), base + kw)
        bad = None if outs else "not possible"
        for o in outs:
            if isinstance(want, str):
                if o.kind == "exit":
                    bad = f"no {want}"
            elif o.kind != "exit":
                bad = f"{exc_name(o)} is raised"
            else:
                bad = bad or differs(w, o.st, want)
        ck.ob(not bad, what, loc, f"{what}: {bad}")


def histories(ck, cls):
    loc = ck.p.method(cls, "set_current").loc()
    ck.rule("history", "after every operation of every history the option is as specified", 150)
    for mutable in (True, False):
        for env in (None, "2", ""):
            w = W(ck, cls)
            w.env = None
            outs = [o for o in make(w, SELF, begin(), [("name", ("k", NAME)), ("validator", VALID), ("default", ("k", 1)), ("mutable", ("k", mutable))]) if o.kind == "exit"]
            if not outs:
                continue
            w.env = env
            todo = [(outs[0].st, Spec(("k", 1), mutable, env=env), ())]
            seen = {todo[0][1].key()}
            bads = {}
            n = {}
            while todo:
                st, spec, hist = todo.pop(0)
                for op, args in OPS:
                    if op == "subscribe" and args[0][2] in spec.subs:
                        continue
                    sp = spec.copy()
                    e, val, ev = sp.do(op, *args)
                    s = st.copy()
                    s.ev = ()
                    f = w.P.method(cls, op)
                    outs = w.interpret(f, SELF, args, (), s) or []
                    n[op] = n.get(op, 0) + 1
                    name = op.replace("@setter", " =").replace("@deleter", ", deleted")
                    bad = None if outs else "nothing can happen"
                    for o in outs:
                        if (o.kind == "exit") != (e is None):
                            bad = bad or (f"no {e}" if e else f"{exc_name(o)} is raised")
                        elif e and exc_name(o) != e:
                            bad = bad or f"{exc_name(o)} instead of {e}"
                        elif not e and val is not None and o.value != val:
                            bad = bad or f"gives {show(o.value)} instead of {show(val)}"
                        elif any(x[0] == "notified" and x[3] not in (x[2], None) for x in o.st.ev):
                            bad = bad or "subscribers are told before the option has its new value"
                        elif [x[:3] for x in o.st.ev] != ev:
                            bad = bad or f"subscribers are told {[show(x[2]) for x in o.st.ev]} instead of {[show(x[2]) for x in ev]}"
                        else:
                            bad = bad or differs(w, o.st, sp)
                    if bad:
                        h = ", ".join(f"{o}({', '.join(show(x) for x in a)})" for o, a in (*hist, (op, args)))
                        bads.setdefault(op, f"{h}: {bad}")
                    elif not e and sp.key() not in seen:
                        seen.add(sp.key())
                        s2 = next(o for o in outs if o.kind == "exit").st
                        todo.append((s2, sp, (*hist, (op, args))))
            for op, k in n.items():
                for _ in range(k - 1):
                    ck.ob(True, f"{op}, {'mutable' if mutable else 'immutable'}, environment {env}", loc)
                ck.ob(op not in bads, f"{op}, {'mutable' if mutable else 'immutable'}, environment {env}", ck.p.method(cls, op).loc(), bads.get(op, ""))


def parents(ck, cls):
    ck.rule("parent", "a child option follows its parent", 6)
    loc = ck.p.method(cls, "__init__").loc()
    for what, pmut, cmut, env in (("mutable", True, True, None), ("environment", True, True, "7"), ("immutable child", True, False, None), ("immutable child, parent not set", True, False, None), ("immutable parent", False, True, None)):
        w = W(ck, cls)
        mk = lambda me, st, kw: [o for o in make(w, me, st, [("name", ("k", NAME if me == SELF else "PARENT")), ("validator", VALID), *kw])]
        po = [o for o in mk(PARENT, begin(), [("default", ("k", 1)), ("mutable", ("k", pmut))]) if o.kind == "exit"]
        if not po:
            ck.ob(False, what, loc, "no parent can be made")
            continue
        st = po[0].st
        if pmut and "not set" not in what:
            st = next((o.st for o in w.interpret(ck.p.method(cls, "set_current"), PARENT, (("k", 3),), (), st) if o.kind == "exit"), st)
        w.env = env
        outs = mk(SELF, st, [("parent", PARENT), ("mutable", ("k", cmut))])
        ok = [o for o in outs if o.kind == "exit"]
        if not (pmut and cmut):
            ck.ob(not ok and bool(outs) and all(exc_name(o) == "TypeError" for o in outs), what, loc, f"{what}: no TypeError")
            continue
        if not ok or len(ok) != len(outs):
            ck.ob(False, what, loc, f"{what}: the child cannot be made")
            continue
        st = ok[0].st

        def cur(st, me):
            return observe(w, st, me)["current"]

        def then(what2, me, op, args, child, parent):
            nonlocal st
            outs = [o for o in w.interpret(ck.p.method(cls, op), me, args, (), st) or () if o.kind == "exit"]
            bad = None if len(outs) == 1 else f"{op} is not possible"
            if not bad:
                st = outs[0].st
                got = (cur(st, SELF), cur(st, PARENT))
                if got != (child, parent):
                    bad = f"child {show(got[0])}, parent {show(got[1])} instead of {show(child)}, {show(parent)}"
            ck.ob(not bad, f"{what}: {what2}", loc, f"{what}, {what2}: {bad}")

        first = ("k", 7) if env else ("k", 3)
        got = cur(st, SELF), observe(w, st, SELF)["default"]
        ck.ob(got == (first, ("k", 1)), f"{what}: created", loc, f"{what}: created with {show(got[0])}, default {show(got[1])} instead of {show(first)}, 1")
        then("parent set", PARENT, "set_current", (("k", 5),), ("k", 5), ("k", 5))
        then("child set", SELF, "set_current", (("k", 6),), ("k", 6), ("k", 5))
        then("parent set again", PARENT, "set_current", (("k", 8),), ("k", 8), ("k", 8))
        then("parent unset", PARENT, "unset", (), ("k", 1), ("k", 1))


def deprecated(ck):
    P = ck.p
    cls = P.classes.get(OPT + ".DeprecatedOption")
    ck.rule("deprecated", "a deprecated option warns whenever it is used, and is the option otherwise", 2)
    if cls is None:
        ck.ob(True, "none", '')
        ck.ob(True, "none", '')
        return
    w = W(ck, cls)
    loc = P.method(cls, "__init__").loc()
    outs = [o for o in make(w, SELF, begin(), [("name", ("k", NAME)), ("validator", VALID), ("default", ("k", 1)), ("message", ("k", "gone"))])]
    ck.ob(bool(outs) and all(o.kind == "exit" and not o.st.ev for o in outs), "created", loc, "a deprecated option cannot be made, or warns when it is made")
    bad = None
    for o in outs:
        if o.kind != "exit":
            continue
        r = w.interpret(P.method(cls, "current"), SELF, (), (), o.st) or []
        if not r or any(x.kind != "exit" or x.value != ("k", 1) or x.st.ev.count(("warned",)) != 1 for x in r):
            bad = "reading it does not warn once and give its value"
    ck.ob(not bad, "read", P.method(cls, "current").loc(), bad or "")


def declared(ck):
    """options of the package"""
    P = ck.p
    ck.rule("declared", "each option is named like its environment variable, and its default is valid", 8)
    m = P.mod("reactpy.config")
    names = {}
    for n in m.tree.body:
        t = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AnnAssign) else None
        if not (isinstance(t, ast.Name) and isinstance(getattr(n, "value", None), ast.Call)):
            continue
        q = P.resolve_dotted(f"{m.name}.{dotted(n.value.func)}") if dotted(n.value.func) else ""
        if q not in (OPT + ".Option", OPT + ".DeprecatedOption"):
            continue
        kw = {k.arg: k.value for k in n.value.keywords}
        kw.update(zip(("name", "default", "mutable", "parent", "validator"), n.value.args))
        nm = kw.get("name")
        bad = None
        got = const_value(m, nm)
        if got != t.id:
            bad = f"{t.id} is named {got!r}"
        if got in names:
            bad = f"two options are named {got!r}"
        names[got] = t.id
        d, v = kw.get("default"), kw.get("validator")
        vn = dotted(v) if v is not None else None
        if isinstance(d, ast.Constant) and vn in ("int", "float", "str") and not bad:
            if type(d.value).__name__ != vn:
                bad = f"the default of {t.id} is not what its validator gives"
        if v is not None and vn == "boolean" and isinstance(d, ast.Constant) and not isinstance(d.value, bool):
            bad = f"the default of {t.id} is not what its validator gives"
        p = kw.get("parent")
        if p is not None and not (isinstance(p, ast.Name) and any(x == p.id for x in names.values())):
            bad = f"the parent of {t.id} is not an option declared before it"
        ck.ob(not bad, t.id, f"{m.rel}:{n.lineno}", bad or "")
    f = P.funcs.get("reactpy.config.boolean")
    if f is None:
        return
    ck.rule("boolean", "true, 1, false and 0 in any case are booleans, other texts are not", 10)
    w = World(ck, (m.name,))
    for v, want in ((True, True), (False, False), ("true", True), ("TRUE", True), ("True", True), ("1", True), ("false", False), ("False", False), ("0", False), (1, True), (0, False), ("", "ValueError"), ("yes", "ValueError"), ("2", "ValueError"), (None, "TypeError"), (1.5, "TypeError")):
        outs = w.interpret(f, None, (("k", v),), (), begin()) or []
        bad = None if outs else "nothing can happen"
        for o in outs:
            got = exc_name(o) if o.kind != "exit" else o.value
            if got != (want if isinstance(want, str) else ("k", want)):
                bad = f"{v!r} gives {got if isinstance(got, str) else show(got)}"
        ck.ob(not bad, repr(v), f.loc(), bad or "")


def const_value(m, node):
    if isinstance(node, ast.Constant):
        return node.value
    return None


RULES = [run]
