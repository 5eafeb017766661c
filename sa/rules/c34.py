"""C34  What the test tools say about logged records is so, whatever is logged and however they nest."""
import ast
import builtins
import logging

from ..absint import State
from ..flow import StateCap
from ..hooked import Hooks
from ..lib import *
from ..objs import World

EXPLANATION = """
The context managers for assertions about logs are interpreted with bodies which log records of every kind
(with and without exceptions, below and above the level of the logger, before, within and after one another),
which raise, and which use such a context manager themselves. The logger and its handlers are objects of
the analysis: which records reach a handler is decided by the level and the handlers which the interpreted
code has set by then. What the context managers raise, and how they leave the logger, is compared to
what was logged.
"""
ASSUMPTIONS = ["the standard library's loggers pass records of their level or above to their handlers", "re and traceback.format_exception work as documented"]
PK = "reactpy.testing.logs"
NONE = ("k", None)
LOGGER = ("S", "root logger")
ERR = f"{PK}.LogAssertionError"

#: name: (message, level, class and text of the exception)
RECORDS = {
    "plain": ("abc one", logging.INFO, None),
    "low": ("abc low", logging.DEBUG, None),
    "warned": ("other", logging.WARNING, None),
    "value": ("abc failed", logging.ERROR, ("ValueError", "wrong x")),
    "key": ("xabc", logging.ERROR, ("KeyError", "missing y")),
    "type": ("def", logging.CRITICAL, ("TypeError", "wrong x")),
    "unicode": ("bad", logging.ERROR, ("UnicodeError", "missing y")),
    "mild": ("abc mild", logging.WARNING, ("ValueError", "wrong x")),
    "empty": ("", logging.ERROR, None),
    "none": ("abc no error", logging.ERROR, (None, None)),
}
CRITERIA = {
    "anything": {},
    "message": {"match_message": "abc"},
    "message anywhere": {"match_message": "c (one|mild)$"},
    "message at start": {"match_message": "^abc"},
    "empty message": {"match_message": "^$"},
    "class": {"error_type": "ValueError"},
    "base class": {"error_type": "LookupError"},
    "text": {"match_error": "wrong"},
    "text of traceback": {"match_error": "KeyError: "},
    "text anywhere": {"match_error": ""},
    "message and class": {"match_message": "abc", "error_type": "ValueError"},
    "message and text": {"match_message": "abc", "match_error": "wrong x"},
    "class and text": {"error_type": "ValueError", "match_error": "missing"},
    "all": {"match_message": "failed", "error_type": "Exception", "match_error": "wr.ng"},
}


def matches(crit, name):
    import re
    msg, _, err = RECORDS[name]
    cls = getattr(builtins, err[0]) if err and err[0] else None
    t = crit.get("error_type")
    m = crit.get("match_error")
    return bool(re.search(crit.get("match_message", ""), msg)) and (not t or cls is not None and issubclass(cls, getattr(builtins, t))) and (
        not m or cls is not None and bool(re.search(m, text(*err))))


def text(cls, msg):
    return f"Traceback (most recent call last):\n{cls}: {msg}\n"


class NoAnswer(Exception):
    pass


class Logs(Hooks):
    collect = False
    distinct = True
    hierarchy = True
    escapes = True
    maxlist = 200
    most = 20000
    deepest = 14
    clip = 20

    def __init__(self, ck, extra=()):
        World.__init__(self, ck, (PK, *extra), {})
        self.opq = {q for q, f in self.P.funcs.items() if f.module.name != PK}
        self.running, self.comps, self.ids, self.lambdas, self.pending, self.failing, self.stackq = [], {}, set(), {}, [], (), None
        self.bodies = []
        self.handlers = {}
        self.made = 0

    def start(self, level=logging.INFO):
        st = State({}, {("@", ("S", "none"), "x"): NONE})
        st.heap["@", LOGGER, "level"] = ("k", level)
        st.heap[("O", "handlers", 0)] = ("list", ())
        st.heap["@", LOGGER, "handlers"] = ("O", "handlers", 0)
        # loggers' handlers which the modules make
        for mn in self.modules:
            for n in self.P.mod(mn).assigns:
                c = self.P.class_of_global(f"{mn}.{n}")
                if c is None or not self.is_handler(c):
                    continue
                v = ("S", "handler", f"{mn}.{n}")
                self.handlers[v] = c
                self.classes[v] = c
                f = self.P.method(c, "__init__")
                if f is not None:
                    outs = self.interpret(f, v, (), (), st)
                    if not outs or len(outs) != 1 or outs[0].kind != "exit":
                        raise NoAnswer("handler")
                    st = self.carry(st, outs[0].st)
                    if ("@", v, "level") not in st.heap:
                        st.heap["@", v, "level"] = ("k", 0)
        return st

    def is_handler(self, c):
        return any(str(b).rsplit(".", 1)[-1].endswith("Handler") for k in self.P.mro(c) for b in k.bases)

    def carry(self, st, new):
        st = st.copy()
        st.heap, st.ev, st.facts = dict(new.heap), new.ev, dict(new.facts)
        return st

    # ---- values
    def name(self, st, op):
        if op[0] == "g":
            q = self.P.resolve_dotted(op[1]) or op[1]
            if q.endswith(".ROOT_LOGGER"):
                return LOGGER
            if q.startswith("logging.") and isinstance(getattr(logging, q[8:], None), int):
                return ("k", getattr(logging, q[8:]))
            v = ("S", "handler", q)
            if v in self.handlers:
                return v
        return World.name(self, st, op)

    def attr(self, st, v, name):
        if v[:2] == ("S", "record"):
            msg, level, err = RECORDS[v[2]]
            if name == "exc_info":
                return NONE if err is None else ("T", NONE, NONE, NONE) if err[0] is None else ("T", ("b", err[0]), ("S", "error", *err), ("S", "traceback"))
            r = {"levelno": level, "msg": msg, "message": msg, "levelname": logging.getLevelName(level), "args": ()}.get(name)
            return ("k", r) if r is not None else None
        if v[:2] == ("S", "error") and name == "__class__":
            return ("b", v[2])
        return World.attr(self, st, v, name)

    def interpret(self, f, selfv, args, kw, st):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        given = {*pos[:len(args) + (selfv is not None)], *[k for k, _ in kw]}
        for n, x in [*zip(pos[len(pos) - len(a.defaults):], a.defaults), *zip([x.arg for x in a.kwonlyargs], a.kw_defaults)]:
            if n not in given and isinstance(x, (ast.Attribute, ast.Name)):
                q = f.module.name + "." + ast.unparse(x)
                q = self.P.resolve_dotted(q) or q
                q = q if "." in q and not hasattr(builtins, q.rsplit(".", 1)[-1]) else None
                v = ("b", x.id) if q is None and isinstance(x, ast.Name) else self.name(st, ("g", q)) if q else None
                if v is not None:
                    kw = (*kw, (n, v))
        return World.interpret(self, f, selfv, args, kw, st)

    def truth(self, st, v):
        if v[0] == "exc" or v[0] == "C" and str(v[1]).startswith("class:") and v[1].endswith("Error"):
            return True
        if v[0] == "op" and v[1] == "Is" and v[3] == NONE and self.truth(st, v[2]) is True:
            return False
        if v[:2] in (("S", "record"), ("S", "error"), ("S", "handler"), ("S", "root logger")) or v[0] == "b":
            return True
        if v[0] == "op" and v[1] in ("Is", "Eq") and all(x[0] in ("S", "b", "k") for x in v[2:4]):
            return v[2] == v[3]
        if v[0] == "op" and v[1] == "In" and v[3][0] == "O" and v[3] in st.heap and v[2][0] == "S":
            return v[2] in st.heap[v[3]][1]
        if v[0] == "op" and v[1] == "In" and v[3][0] == "T" and v[2][0] == "S":
            return v[2] in v[3][1:]
        return World.truth(self, st, v)

    def operate(self, st, fn, args):
        if fn in ("Is", "Eq") and all(a[0] == "O" for a in args):
            return ("k", args[0] == args[1])
        if fn == "In" and args[0][0] == "S" and args[1][0] in ("O", "T"):
            xs = args[1][1:] if args[1][0] == "T" else st.heap.get(args[1], (0, ()))[1]
            return ("k", args[0] in xs)
        return World.operate(self, st, fn, args)

    def classes_of(self, st, v):
        vs = v[1:] if v[0] == "T" else st.heap[v][1] if v[0] == "O" and v in st.heap else (v,)
        out = []
        for x in vs:
            c = getattr(builtins, str(x[1]), None) if x[0] == "b" else None
            if not isinstance(c, type):
                return None
            out.append(c)
        return tuple(out)

    # ---- calls
    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        d = dict(kw)
        if recv is None and key.startswith("class:") and "Error" in key or last == "LogAssertionError":
            return None
        if recv is not None and recv[:2] == ("S", "record"):
            if last == "getMessage":
                return [("v", ("k", RECORDS[recv[2]][0]))]
            raise NoAnswer(last)
        if recv == LOGGER:
            hs = st.heap.get(("@", LOGGER, "handlers"))
            st = st.copy()
            if last == "setLevel":
                if args[0][0] == "k" and isinstance(args[0][1], str):
                    args = (("k", getattr(logging, args[0][1])),)
                st.heap["@", LOGGER, "level"] = args[0]
                return [("v", NONE, st)]
            if last == "getEffectiveLevel":
                return [("v", st.heap["@", LOGGER, "level"])]
            if last == "addHandler":
                if args[0] not in st.heap[hs][1]:
                    st.heap[hs] = ("list", (*st.heap[hs][1], args[0]))
                return [("v", NONE, st)]
            if last == "removeHandler":
                st.heap[hs] = ("list", tuple(x for x in st.heap[hs][1] if x != args[0]))
                return [("v", NONE, st)]
            if last == "hasHandlers":
                return [("v", ("k", bool(st.heap[hs][1])))]
            raise NoAnswer(last)
        if recv is not None and recv[:2] == ("S", "handler") and last == "setLevel":
            st = st.copy()
            st.heap["@", recv, "level"] = args[0]
            return [("v", NONE, st)]
        if recv is not None and recv[0] == "C" and recv[1] == "super" and not (key in self.P.funcs):
            return [("v", NONE)]
        if key == "super" and not args:
            return [("v", ("C", "super", (), ()))]
        if key == "isinstance" and len(args) == 2 and args[0][:2] == ("S", "error"):
            cs = self.classes_of(st, args[1])
            if cs is not None:
                return [("v", ("k", issubclass(getattr(builtins, args[0][2]), cs)))]
        if key == "isinstance" and len(args) == 2 and args[0] == NONE and self.classes_of(st, args[1]):
            return [("v", ("k", False))]
        if key == "issubclass" and len(args) == 2:
            a, b = self.classes_of(st, args[0]), self.classes_of(st, args[1])
            if a and b is not None and len(a) == 1:
                return [("v", ("k", issubclass(a[0], b)))]
            if args[0] == NONE:
                return [("raise", "TypeError")]
        if key == "type" and len(args) == 1 and args[0][:2] == ("S", "error"):
            return [("v", ("b", args[0][2]))]
        if key == "str" and len(args) == 1 and args[0][:2] == ("S", "error"):
            return [("v", ("k", repr(args[0][3]) if args[0][2] == "KeyError" else args[0][3]))]
        if last in ("format_exception", "format_exception_only") and "traceback" in key:
            e = next((x for x in (*args, *d.values()) if x[:2] == ("S", "error")), None)
            if e is None:
                return [("v", ("new", "list", (("k", "NoneType: None\n"),)))]
            lines = text(*e[2:]).splitlines(True)
            return [("v", ("new", "list", tuple(("k", x) for x in (lines if last == "format_exception" else lines[1:]))))]
        if last in ("findall", "search", "match", "fullmatch", "finditer") and (recv is not None and recv[0] == "re" or key.startswith("re.")) and any(x[0] != "k" for x in args if x[0] != "re"):
            raise NoAnswer(last)
        if key == "enumerate" and len(args) + len(kw) <= 2 and args[0][0] == "O" and st.heap.get(args[0], ("",))[0] == "list":
            n = args[1] if len(args) > 1 else d.get("start", ("k", 0))
            if n[0] == "k":
                return [("v", ("enum", args[0], n[1]))]
        if key in ("list", "tuple", "sorted", "reversed", "enumerate", "zip", "any", "all", "next", "len", "filter", "map") or recv is not None or key.startswith(("re.", "class:")) or key == "value" or key in self.P.funcs or i.a["callee"][0] == "repo":
            return None
        if key in ("bool", "str", "repr", "iter", "isinstance", "getattr", "hasattr", "print", "format"):
            return None
        if key in ("range", "min", "max", "sum", "abs", "slice"):
            return None
        raise NoAnswer(key)

    # ---- bodies of context managers
    def yielded(self, ai, st, v, i):
        if not self.bodies or self.depth != self.bodies[-1][1]:
            return None
        body = self.bodies[-1][0]
        return self.play(st, body, v)

    def play(self, st, body, got):
        """results of what happens in the body of a with statement"""
        sts = [st]
        for n, act in enumerate(body):
            nxt = []
            for s in sts:
                if act[0] == "log":
                    nxt += self.log(s, act[1])
                elif act[0] == "look":
                    s = s.copy()
                    recs = self.plain_list(s, got)
                    s.ev += (("look", recs),)
                    nxt.append(s)
                elif act[0] == "raise":
                    return [("raise", act[1], ("S", "of the body", act[1]), x) for x in sts]
                elif act[0] == "forget":
                    s = s.copy()
                    s.heap[got] = ("list", ())
                    nxt.append(s)
                elif act[0] == "within":
                    # another of the context managers, around a body of its own
                    for o in self.around(s, act[1], act[2], act[3]):
                        if o.kind == "exit":
                            nxt.append(self.carry(s, o.st))
                        else:
                            s2 = self.carry(s, o.st)
                            s2.ev += (("inner raised", self.said(o)),)
                            nxt.append(s2) if act[4:] == ("caught",) else nxt.append(("raised", o, s2))
            bad = [x for x in nxt if isinstance(x, tuple)]
            if bad:
                return [("raise", x[1].value[1] if x[1].value[0] == "exc" else x[1].value[1], x[1].value[2] if x[1].value[0] == "exc" else x[1].value, x[2]) for x in bad]
            sts = nxt
        return [("v", NONE, s) for s in sts]

    def plain_list(self, st, v):
        if v[0] == "O" and v in st.heap and all(x[:2] == ("S", "record") for x in st.heap[v][1]):
            return tuple(x[2] for x in st.heap[v][1])
        if v[0] == "T" and all(x[:2] == ("S", "record") for x in v[1:]):
            return tuple(x[2] for x in v[1:])
        raise NoAnswer("records")

    def level(self, st, of):
        v = st.heap.get(("@", of, "level"), ("k", 0))
        if v[0] != "k":
            raise NoAnswer("level")
        return v[1] if not isinstance(v[1], str) else getattr(logging, v[1])

    def log(self, st, name):
        """a record is logged"""
        lv = RECORDS[name][1]
        if lv < self.level(st, LOGGER):
            return [st]
        sts = [st]
        for h in st.heap[st.heap["@", LOGGER, "handlers"]][1]:
            if h not in self.handlers or lv < self.level(st, h):
                continue
            k = self.handlers[h]
            f = self.P.method(k, "handle")
            if f is None and not any(str(b).endswith("NullHandler") for c in self.P.mro(k) for b in c.bases):
                f = self.P.method(k, "emit")
                if self.P.method(k, "filter"):
                    raise NoAnswer("filter")
            if f is None:
                continue
            nxt = []
            for s in sts:
                save, self.bodies = self.bodies, []
                try:
                    outs = self.interpret(f, h, (("S", "record", name),), (), s)
                finally:
                    self.bodies = save
                if not outs or any(o.kind != "exit" for o in outs):
                    raise NoAnswer("handler")
                nxt += [self.carry(s, o.st) for o in outs]
            sts = nxt
        return sts

    def around(self, st, f, crit, body):
        kw = tuple((k, ("b", v) if k == "error_type" else ("k", v)) for k, v in crit.items())
        self.bodies.append((body, self.depth + 1))
        try:
            outs = self.interpret(f, None, (), kw, st)
        finally:
            self.bodies.pop()
        outs = [o for o in outs or [] if o.kind in ("exit", "exc_exit")]
        if not outs:
            raise NoAnswer(f.name)
        return outs

    @staticmethod
    def said(o):
        """what came of a with statement"""
        if o.kind == "exit":
            return "passes"
        v = o.value
        if v[0] == "exc":
            return f"the {v[1].rsplit('.', 1)[-1]} of the body" if v[2][:2] == ("S", "of the body") else f"{str(v[1]).removeprefix('class:').rsplit('.', 1)[-1]}"
        if v[0] == "C" and isinstance(v[1], str):
            return v[1].removeprefix("class:").rsplit(".", 1)[-1]
        if v[:2] == ("S", "of the body"):
            return f"the {v[2].rsplit('.', 1)[-1]} of the body"
        raise NoAnswer("error")

    def left(self, st):
        """how the logger is left"""
        hs = st.heap[st.heap["@", LOGGER, "handlers"]][1]
        return self.level(st, LOGGER), tuple(h[2] for h in hs if h in self.handlers)


def functions(ck):
    fs = {n: ck.p.funcs.get(f"{PK}.{n}") for n in ("assert_reactpy_did_log", "assert_reactpy_did_not_log", "capture_reactpy_logs", "list_logged_exceptions")}
    return fs


def histories(fs):
    """(name, level before, function, criteria, body, what comes of it)"""
    did, did_not = fs["assert_reactpy_did_log"], fs["assert_reactpy_did_not_log"]
    cap = fs["capture_reactpy_logs"]
    YES, NO = "passes", "LogAssertionError"
    for c, crit in CRITERIA.items():
        for r in RECORDS:
            m = matches(crit, r)
            yield f"{c}: {r} is logged", logging.INFO, did, crit, [("log", r)], YES if m else NO
            yield f"not {c}: {r} is logged", logging.INFO, did_not, crit, [("log", r)], NO if m else YES
        yield f"{c}: nothing is logged", logging.INFO, did, crit, [], NO
        yield f"not {c}: nothing is logged", logging.INFO, did_not, crit, [], YES
    both = CRITERIA["message and class"]
    for f, y, n in ((did, YES, NO), (did_not, NO, YES)):
        w = "" if f is did else "not "
        yield f"{w}both: two records which match in part", logging.INFO, f, both, [("log", "plain"), ("log", "unicode")], n
        yield f"{w}both: the first of three", logging.INFO, f, both, [("log", "value"), ("log", "plain"), ("log", "unicode")], y
        yield f"{w}both: the second of three", logging.INFO, f, both, [("log", "plain"), ("log", "value"), ("log", "unicode")], y
        yield f"{w}both: the last of three", logging.INFO, f, both, [("log", "plain"), ("log", "unicode"), ("log", "value")], y
        yield f"{w}low: level of errors", logging.ERROR, f, {"match_message": "low"}, [("log", "low")], y
        for e in ("ValueError", "AssertionError", ERR):
            for crit in ({}, {"match_message": "nothing"}):
                yield f"{w}{sorted(crit)}: {e} is raised after a record", logging.INFO, f, crit, [("log", "plain"), ("raise", e)], f"the {e.rsplit('.', 1)[-1]} of the body"
        if cap is not None:
            yield f"{w}abc: logged before, in the capture around", logging.INFO, cap, {}, [("log", "plain"), ("within", f, {"match_message": "abc"}, [("log", "warned")])], n
            yield f"{w}abc: logged before and within", logging.INFO, cap, {}, [("log", "plain"), ("within", f, {"match_message": "abc"}, [("log", "value")])], y
            yield f"{w}abc: logged after", logging.INFO, cap, {}, [("within", f, {"match_message": "abc"}, [("log", "warned")]), ("log", "plain")], n
        yield f"{w}abc: logged in another within", logging.INFO, f, {"match_message": "abc"}, [("within", did, {}, [("log", "warned")]), ("log", "plain")], y
        yield f"{w}abc: logged after another within", logging.INFO, f, {"match_message": "abc"}, [("log", "warned"), ("within", did_not, {}, []), ("log", "value")], y
        yield f"{w}abc: logged before another within", logging.INFO, f, {"match_message": "abc"}, [("log", "plain"), ("within", did, {"match_message": "other"}, [("log", "warned")])], y
        yield f"{w}abc: another within fails", logging.INFO, f, {"match_message": "abc"}, [("log", "plain"), ("within", did, {"match_message": "z"}, [("log", "warned")])], "LogAssertionError"


def assertions(ck):
    fs = functions(ck)
    lost = []
    hs = [h for h in histories(fs) if h[2] is not None] if all(fs.values()) else []
    ck.rule("asserted", "the assertions pass when, and only when, a record which meets all criteria was (not) logged within; errors of their bodies come through", len(hs))
    for name, level, f, crit, body, want in hs:
        w = Logs(ck)
        try:
            st = w.start(level)
            outs = w.around(st, f, crit, body)
            got = sorted({w.said(o) for o in outs})
            left = {w.left(o.st) for o in outs}
        except (NoAnswer, StateCap, RecursionError) as e:
            lost.append(name)
            ck.open.append(f"asserted {name}: not followed ({e})")
            continue
        if len(got) > 1:
            lost.append(name)
            ck.open.append(f"asserted {name}: not decided")
            continue
        ck.ob(got == [want], name, f.loc(), f"with {body!r:.150}, {f.name} of {crit} gives {got[0]}, not {want}", rule="asserted")
        ck.ob(left == {(level, ())}, f"{name}: what is left", f.loc(), f"after it, the logger has level and handlers {sorted(left)}", rule="asserted")
    if lost or not hs:
        ck.rules["asserted"]["floor"] = 0


def captures(ck):
    fs = functions(ck)
    cap = fs["capture_reactpy_logs"]
    did = fs["assert_reactpy_did_log"]
    L = lambda *ns: [("log", n) for n in ns]
    look = [("look",)]
    cases = []
    if cap is not None:
        cases = [
            ("one", L("plain", "low", "value") + look, [("plain", "low", "value")]),
            ("as they are logged", look + L("low") + look + L("key") + look, [(), ("low",), ("low", "key")]),
            ("one in another", L("plain") + [("within", cap, {}, L("value"))] + look + L("key") + look, [("plain",), ("plain", "key")]),
            ("two in another", L("plain") + [("within", cap, {}, L("value")), ("within", cap, {}, L("type", "low"))] + look, [("plain",)]),
            ("three", L("plain") + [("within", cap, {}, L("value") + [("within", cap, {}, L("type"))] + L("low"))] + L("low") + look, [("plain", "low")]),
            ("an error in the inner", L("plain") + [("within", cap, {}, L("value") + [("raise", "ValueError")], "caught")] + L("low") + look, [("plain", "low")]),
            ("an error", L("plain") + look + [("raise", "ValueError")], [("plain",)]),
        ]
        if did is not None:
            cases.append(("an assertion in it", L("plain") + [("within", did, {"match_message": "other"}, L("warned"))] + look + L("low") + look, [("plain",), ("plain", "low")]))
            cases.append(("an assertion which fails in it", L("plain") + [("within", did, {"match_message": "z"}, L("warned"), "caught")] + look, [("plain",)]))
    ck.rule("captured", "a capture gives the records of its context, whatever their level, without those of contexts within, and leaves the logger as it was", len(cases))
    lost = False
    for name, body, want in cases:
        for level in (logging.INFO, logging.CRITICAL):
            w = Logs(ck)
            try:
                st = w.start(level)
                outs = w.around(st, cap, {}, body)
                got = {tuple(e[1] for e in o.st.ev if e[0] == "look") for o in outs}
                left = {w.left(o.st) for o in outs}
                # and once more
                again = set()
                for o in outs:
                    for o2 in w.around(w.carry(st, o.st), cap, {}, look + L("mild") + look):
                        again.add(tuple(e[1] for e in o2.st.ev[len(o.st.ev):] if e[0] == "look"))
            except (NoAnswer, StateCap, RecursionError) as e:
                lost = True
                ck.open.append(f"captured {name}: not followed ({e})")
                continue
            ck.ob(got == {tuple(want)}, name, cap.loc(), f"with {body!r:.150}, what is captured is {sorted(got)}, not {want}", rule="captured")
            ck.ob(left == {(level, ())}, f"{name}: what is left", cap.loc(), f"after it, the logger has level and handlers {sorted(left)}", rule="captured")
            ck.ob(again == {((), ("mild",))}, f"{name}: the next", cap.loc(), f"a capture after it gives {sorted(again)}", rule="captured")
    if lost or not cases:
        ck.rules["captured"]["floor"] = 0


LISTS = [
    ("none", []), ("one", ["value"]), ("two", ["value", "key"]), ("three", ["value", "key", "type"]),
    ("others between", ["plain", "value", "mild", "low", "key", "empty", "type", "none"]),
    ("the last", ["plain", "mild", "type"]), ("no error", ["plain", "none", "warned", "empty"]),
    ("twice", ["value", "type", "unicode", "value", "mild", "mild"]),
]
ASKED = [
    ("all", {}), ("by pattern", {"pattern": "wrong"}), ("by pattern anywhere", {"pattern": "[xy]'?$"}), ("by type", {"types": ("ValueError",)}),
    ("by types", {"types": ("LookupError", "TypeError")}), ("by level", {"log_level": logging.WARNING}), ("severe", {"log_level": logging.CRITICAL}),
    ("kept", {"del_log_records": False}), ("by type, kept", {"types": ("ValueError",), "del_log_records": False}),
]


def lists(ck):
    import re
    f = functions(ck)["list_logged_exceptions"]
    ck.rule("listed", "each exception logged at the level which meets the criteria is listed, in order, and its record is deleted if that is asked for, and no other", len(LISTS) * len(ASKED) if f else 0)
    lost = f is None
    for (name, records) in LISTS if f else []:
        for asked, crit in ASKED:
            def meets(r):
                msg, lv, err = RECORDS[r]
                if err is None or err[0] is None:
                    return False
                said = repr(err[1]) if err[0] == "KeyError" else err[1]
                return lv >= crit.get("log_level", logging.ERROR) and re.search(crit.get("pattern", ""), said) and issubclass(getattr(builtins, err[0]), tuple(getattr(builtins, t) for t in crit.get("types", ("Exception",))))

            want = [("S", "error", *RECORDS[r][2]) for r in records if meets(r)]
            rest = records if crit.get("del_log_records") is False else [r for r in records if not meets(r)]
            w = Logs(ck)
            try:
                st = w.start()
                o = ("O", "records", 0)
                st.heap[o] = ("list", tuple(("S", "record", r) for r in records))
                kw = tuple((k, ("k", v) if k != "types" else ("b", v[0]) if len(v) == 1 else ("T", *[("b", x) for x in v])) for k, v in crit.items())
                outs = [x for x in w.interpret(f, None, (o,), kw, st) or [] if x.kind in ("exit", "exc_exit")]
                if not outs:
                    raise NoAnswer("no result")
                got = []
                for x in outs:
                    if x.kind != "exit":
                        got.append((w.said(x), None))
                        continue
                    v = x.value
                    xs = list(v[1:]) if v[0] == "T" else list(x.st.heap[v][1]) if v[0] == "O" and v in x.st.heap else None
                    if xs is None:
                        raise NoAnswer("result")
                    got.append((xs, list(w.plain_list(x.st, o))))
            except (NoAnswer, StateCap, RecursionError) as e:
                lost = True
                ck.open.append(f"listed {name}, {asked}: not followed ({e})")
                continue
            bad = [g for g in got if g != (want, rest)]
            if bad and len(bad) < len(got):
                lost = True
                ck.open.append(f"listed {name}, {asked}: not decided")
                continue
            ck.ob(not bad, f"{name}, {asked}", f.loc(), f"of {records}, asked for {crit}: {bad[0] if bad else ''} are listed and kept, not {(want, rest)}"[:400], rule="listed")
    if lost:
        ck.rules["listed"]["floor"] = 0


class Served(Logs):
    """the end of a fixture which runs a server"""

    me = ("S", "backend")

    def __init__(self, ck, cls):
        super().__init__(ck, (cls.module.name,))
        self.classes[self.me] = cls
        self.records = ("O", "records", 0)

    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        if last in ("aclose", "close", "__aexit__", "__exit__", "pop_all"):
            st = st.copy()
            st.heap[self.records] = ("list", ())
            return [("v", ("awaitable", NONE), st)]
        if last in ("shutdown", "cancel", "wait_for", "gather", "sleep", "wait") or recv is not None and recv[0] == "attr":
            return [("v", ("awaitable", NONE))]
        return super().ext(ai, st, i, key, recv, args, kw)


def fixtures(ck):
    P = ck.p
    c = P.classes.get("reactpy.testing.backend.BackendFixture")
    f = P.method(c, "__aexit__") if c else None
    cases = [("nothing", [], False), ("no error", ["plain", "none", "empty"], False), ("warning", ["mild"], False), ("an error", ["value"], True), ("an error among others", ["plain", "mild", "key", "none"], True), ("several", ["value", "type"], True)]
    ck.rule("fixture", "a fixture of a server ends with an error if an exception was logged meanwhile, and only then", len(cases) if f else 0)
    lost = f is None
    for name, records, want in cases if f else []:
        try:
            w = Served(ck, c)
            st = w.start()
            st.heap[w.records] = ("list", tuple(("S", "record", r) for r in records))
            st.heap["@", w.me, "log_records"] = w.records
            outs = [o for o in w.interpret(f, w.me, (NONE, NONE, NONE), (), st) or [] if o.kind in ("exit", "exc_exit")]
            got = {w.said(o) for o in outs}
            if len(got) != 1:
                raise NoAnswer(f"ends {sorted(got)}")
        except (NoAnswer, StateCap, RecursionError) as e:
            lost = True
            ck.open.append(f"fixture {name}: not followed ({e})")
            continue
        ck.ob(got == {"LogAssertionError" if want else "passes"}, name, f.loc(), f"with {records} logged, the end of the fixture {sorted(got)}", rule="fixture")
    if lost:
        ck.rules["fixture"]["floor"] = 0


CM = "reactpy.testing.common"


class Tools(Hooks):
    """things which wait for results, and which catch hooks and event handlers"""

    hierarchy = True
    most = 20000

    def __init__(self, ck, script=()):
        World.__init__(self, ck, (CM,), {})
        self.opq = set(self.P.funcs)
        self.running, self.comps, self.ids, self.lambdas, self.pending, self.failing, self.stackq = [], {}, set(), {}, [], (), None
        self.script = script
        self.gone = False

    def begin(self):
        st = State({}, {("@", ("S", "none"), "x"): NONE})
        st.heap["@", ("S", "clock"), "t"] = ("k", 100)
        st.heap["@", ("S", "script"), "n"] = ("k", 0)
        return st

    def interpret(self, f, selfv, args, kw, st):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        given = {*pos[:len(args) + (selfv is not None)], *[k for k, _ in kw]}
        for n, x in [*zip(pos[len(pos) - len(a.defaults):], a.defaults), *zip([x.arg for x in a.kwonlyargs], a.kw_defaults)]:
            vs = f.module.assigns.get(x.id) if isinstance(x, ast.Name) and n not in given else None
            if vs and len(vs) == 1 and isinstance(vs[0], ast.Constant):
                kw = (*kw, (n, ("k", vs[0].value)))
        return super().interpret(f, selfv, args, kw, st)

    def attr(self, st, v, name):
        if v[0] in ("g", "S") and str(v[1]).endswith("REACTPY_TESTS_DEFAULT_TIMEOUT") and name == "current":
            return ("k", 5)
        return super().attr(st, v, name)

    def truth(self, st, v):
        if v[:2] in (("S", "hook"), ("S", "obj")):
            return True
        if v[0] == "op" and v[1] == "Is" and v[3] == NONE and v[2][:2] in (("S", "hook"), ("S", "obj")):
            return False
        return super().truth(st, v)

    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        if recv is not None and recv[:2] == ("S", "fn"):
            st = st.copy()
            if recv[2] == "render":
                st.ev += (("render", args, kw),)
                return [("v", ("S", "obj", "rendered", 0), st)]
            if recv[2] == "condition":
                st.ev += (("condition", args),)
                return [("v", ("k", args[0] == ("k", "good")), st)]
            n = st.heap["@", ("S", "script"), "n"][1]
            st.heap["@", ("S", "script"), "n"] = ("k", n + 1)
            st.ev += (("polled", args, kw),)
            v = self.script[min(n, len(self.script) - 1)]
            if v[0] == "slow":
                st.heap["@", ("S", "clock"), "t"] = ("k", st.heap["@", ("S", "clock"), "t"][1] + v[1])
                v = v[2]
            if v == "raises":
                return [("raise", "ZeroDivisionError", NONE, st)]
            return [("v", ("awaitable", v) if recv[2].startswith("async ") else v, st)]
        if last in ("time", "monotonic", "perf_counter") and not args:
            return [("v", st.heap["@", ("S", "clock"), "t"])]
        if last == "sleep" and args:
            if args[0][0] != "k":
                raise NoAnswer("delay")
            st = st.copy()
            st.heap["@", ("S", "clock"), "t"] = ("k", st.heap["@", ("S", "clock"), "t"][1] + args[0][1])
            return [("v", ("awaitable", NONE), st)]
        if last == "cast" and len(args) == 2:
            return [("v", args[1])]
        if last in ("ref", "WeakMethod") and "weakref" in key and len(args) == 1:
            return [("v", ("S", "weak", args[0]))]
        if recv is not None and recv[:2] == ("S", "weak") and not args:
            return [("v", NONE if self.gone else recv[2])]
        if last == "current_hook":
            return [("v", st.heap["@", ("S", "stack"), "hook"])]
        if last == "isawaitable" and len(args) == 1:
            return [("v", ("k", args[0][0] == "awaitable"))]
        if last == "wraps" or last == "uuid4" or last == "ref":
            return super().ext(ai, st, i, key, recv, args, kw)
        if last in ("wait_for", "timeout", "timeout_at", "get_running_loop", "get_event_loop"):
            raise NoAnswer(last)
        return super().ext(ai, st, i, key, recv, args, kw)


GOOD, BAD = ("k", "good"), ("k", "bad")
POLLS = [
    ("at once", [GOOD], 1), ("after one", [BAD, GOOD, BAD], 2), ("after three", [BAD, BAD, BAD, GOOD], 4),
    ("of no truth", [("k", 0), ("k", ""), NONE, GOOD, BAD], 4), ("an error", [BAD, "raises", GOOD], "ZeroDivisionError"),
    ("never", [BAD], "TimeoutError"), ("never, slow", [("slow", 30, BAD)], "TimeoutError"), ("good, but not asked for again", [GOOD, BAD], 1),
]


def polls(ck):
    P = ck.p
    c = P.classes.get(f"{CM}.poll")
    cases = []
    for kind in ("", "async "):
        for name, script, want in POLLS:
            for how, kw in (("until", {}), ("until", {"timeout": 3, "delay": 1}), ("until_is", {"delay": 1}), ("until_equals", {"timeout": 2, "delay": 0.5})):
                cases.append((kind, name, script, want, how, kw))
        eq = ("S", "value", "b", "t", "same", "eq")
        cases.append((kind, "equal, not the same", [eq], "TimeoutError", "until_is", {"delay": 1}))
        cases.append((kind, "equal", [BAD, eq], 2, "until_equals", {"delay": 1}))
    ck.rule("polled", "waiting ends when, and only when, the condition holds for a new result; after the timeout it fails, not before", len(cases) if c else 0)
    lost = c is None
    for kind, name, script, want, how, kw in cases if c else []:
        f = P.method(c, how)
        what = f"{kind}{how} {name} {sorted(kw)}"
        try:
            if f is None:
                raise NoAnswer(how)
            w = Tools(ck, script)
            me = ("S", "obj", c.qual, 1)
            w.classes[me] = c
            st = w.begin()
            init = P.method(c, "__init__")
            outs = w.interpret(init, me, (("S", "fn", f"{kind}polled", (), None, "polled", False, True), ("k", "x")), (("y", ("k", 1)),), st)
            if not outs or len(outs) != 1 or outs[0].kind != "exit":
                raise NoAnswer("constructor")
            st = State({}, dict(outs[0].st.heap), dict(outs[0].st.facts), ())
            arg = ("S", "fn", "condition", (), None, "condition", False, True) if how == "until" else ("S", "value", "a", "t", "same", "eq") if "equal" in name else GOOD
            outs = w.interpret(f, me, (arg,), tuple((k, ("k", v)) for k, v in kw.items()), st)
            outs = [o for o in outs or [] if o.kind in ("exit", "exc_exit")]
            if len(outs) != 1 and (not outs or len({(o.kind, o.value) for o in outs}) > 1):
                raise NoAnswer(f"{len(outs)} results")
        except (NoAnswer, StateCap, RecursionError) as e:
            lost = True
            ck.open.append(f"polled {what}: not followed ({e})")
            continue
        o = outs[0]
        n = len([e for e in o.st.ev if e[0] == "polled"])
        took = o.st.heap["@", ("S", "clock"), "t"][1] - 100
        msg = None
        error = str(o.value[1]).removeprefix("class:").rsplit(".", 1)[-1] if o.kind != "exit" else None
        if any(e[0] == "polled" and (e[1] != (("k", "x"),) or dict(e[2]) != {"y": ("k", 1)}) for e in o.st.ev):
            msg = "the function does not get its arguments"
        elif isinstance(want, str):
            if error != want:
                msg = f"gives {error or 'no error'}, not {want}"
            elif want == "TimeoutError" and took < kw.get("timeout", 5):
                msg = f"fails after {took} seconds, before the timeout of {kw.get('timeout', 5)}"
            elif want == "TimeoutError" and "slow" not in name and took > kw.get("timeout", 5) + 3 * kw.get("delay", 0.1):
                msg = f"fails after {took} seconds, though the timeout is {kw.get('timeout', 5)}"
        elif o.kind != "exit":
            msg = f"fails with {error} though the condition holds for result {want}"
        elif n != want:
            msg = f"ends after {n} results, though the condition holds for result {want}"
        elif took > (want + 1) * kw.get("delay", 0.1):
            msg = f"ends after {took} seconds, though the condition holds for result {want}"
        ck.ob(msg is None, what, f.loc(), msg or "", rule="polled")
    if lost:
        ck.rules["polled"]["floor"] = 0


def catchers(ck):
    P = ck.p
    c = P.classes.get(f"{CM}.HookCatcher")
    ck.rule("caught", "a catcher has the hook of the last render, by the keyword argument it is told, and renders as the function it wraps", 0)
    f = P.method(c, "capture") if c else None
    for by in (NONE, ("k", "thing")) if f else ():
        try:
            w = Tools(ck)
            me = ("S", "obj", c.qual, 1)
            w.classes[me] = c
            st = w.begin()
            outs = w.interpret(P.method(c, "__init__"), me, (), () if by == NONE else (("index_by_kwarg", by),), st)
            if len(outs or []) != 1:
                raise NoAnswer("constructor")
            outs = w.interpret(f, me, (("S", "fn", "render", (), None, "render", False, True),), (), outs[0].st)
            if len(outs or []) != 1 or outs[0].kind != "exit":
                raise NoAnswer("capture")
            st, fn = outs[0].st, outs[0].value
            want = {}
            for n, thing in enumerate(("a", "b", "a")):
                st = st.copy()
                hook = ("S", "hook", n)
                st.heap["@", ("S", "stack"), "hook"] = hook
                before = len(st.ev)
                outs = w.apply(st, fn, ("k", n), kw=(("thing", ("k", thing)),))
                outs = [o for o in outs or [] if o.kind in ("exit", "exc_exit")]
                if len(outs) != 1:
                    raise NoAnswer("render")
                o = outs[0]
                want["k", thing] = hook
                msg = None
                ix = o.st.heap.get(("@", me, "index"))
                ix = dict(o.st.heap[ix][1]) if ix in o.st.heap else None
                ev = [e for e in o.st.ev[before:] if e[0] == "render"]
                if o.kind != "exit" or o.value != ("S", "obj", "rendered", 0):
                    msg = "what is rendered is not what the function gives"
                elif ev != [("render", (("k", n),), (("thing", ("k", thing)),))]:
                    msg = f"the function is called as {ev}"
                elif o.st.heap.get(("@", me, "latest")) != hook:
                    msg = f"after render {n}, the latest hook is {o.st.heap.get(('@', me, 'latest'))}"
                elif by != NONE and ix != want:
                    msg = f"after render {n}, hooks by {by[1]} are {ix}"
                ck.ob(msg is None, f"{by[1]}, render {n}", f.loc(), msg or "", rule="caught")
                st = o.st
        except (NoAnswer, StateCap, RecursionError) as e:
            ck.open.append(f"caught: not followed ({e})")
    c = P.classes.get(f"{CM}.StaticEventHandler")
    f = P.method(c, "use") if c else None
    if f is None:
        return
    for stop in (False, True):
        for prevent in (False, True):
            try:
                w = Tools(ck)
                me = ("S", "obj", c.qual, 1)
                w.classes[me] = c
                outs = w.interpret(P.method(c, "__init__"), me, (), (), w.begin())
                if len(outs or []) != 1 or ("@", me, "target") not in outs[0].st.heap:
                    raise NoAnswer("constructor")
                fn = ("S", "fn", "handle", (), None, "handle", False, True)
                outs = w.interpret(f, me, (fn,), (("stop_propagation", ("k", stop)), ("prevent_default", ("k", prevent))), outs[0].st)
                outs = [o for o in outs or [] if o.kind in ("exit", "exc_exit")]
                v = outs[0].value if len(outs) == 1 else ("?",)
                k = P.classes.get(v[1][6:]) if v[0] == "C" and str(v[1]).startswith("class:") else None
                if k is None or P.method(k, "__init__") is None:
                    raise NoAnswer("handler")
                from ..objs import bind_call
                d = bind_call(P.method(k, "__init__"), v[2], v[3])
            except (NoAnswer, StateCap, RecursionError) as e:
                ck.open.append(f"static handler: not followed ({e})")
                continue
            msg = None
            if d.get("target") != outs[0].st.heap["@", me, "target"]:
                msg = "the handler's target is not that of the static handler"
            elif (d.get("stop_propagation"), d.get("prevent_default")) != (("k", stop), ("k", prevent)):
                msg = "the handler's propagation and default are not as asked for"
            ck.ob(msg is None, f"static handler, {stop}, {prevent}", f.loc(), msg or "", rule="caught")


class Swaps(Tools):
    """a component which shows another one, in several views"""

    def __init__(self, ck):
        super().__init__(ck)
        self.modules = ("reactpy.testing.backend", "reactpy.utils")
        self.view, self.effects = 0, []

    def name(self, st, op):
        if op[0] == "b" and not hasattr(builtins, op[1]):
            # a parameter of a lambda around this one
            v = super().name(st, ("free", None, op[1]))
            if v is not None:
                return v
        return super().name(st, op)

    def one(self, st, fn, *args, kw=()):
        """(state, value) of calling a function"""
        if fn[:2] == ("S", "fn"):
            return st, ("S", "obj", "shown", fn[2])
        outs = [o for o in self.apply(st, fn, *args, kw=kw) or [] if o.kind in ("exit", "exc_exit")]
        if len(outs) != 1:
            raise NoAnswer("call")
        return self.after(st, outs[0]), outs[0].value if outs[0].kind == "exit" else ("S", "fails")

    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        if key == "value" and (recv == NONE or recv[:2] == ("S", "obj")):
            return [("raise", "TypeError")]
        if recv is not None and recv[:2] == ("S", "fn"):
            return [("v", ("S", "obj", "shown", recv[2]))]
        if recv is not None and recv[:2] == ("S", "setter"):
            v = args[0]
            if v[0] in ("closure", "F") or v[:2] == ("S", "fn"):
                st, v = self.one(st, v, st.heap["@", ("S", "view", recv[2]), "state"])
            st = st.copy()
            st.heap["@", ("S", "view", recv[2]), "state"] = v
            return [("v", NONE, st)]
        if last == "use_state" and args:
            k = ("@", ("S", "view", self.view), "state")
            if k not in st.heap:
                st, v = self.one(st, args[0]) if args[0][0] in ("closure", "F") else (st, args[0])
                st = st.copy()
                st.heap[k] = v
            return [("v", ("T", st.heap[k], ("S", "setter", self.view)), st)]
        if last == "use_callback" and args:
            # the function of the first render, for which its view is remembered
            k = ("@", ("S", "view", self.view), "callback")
            st = st.copy()
            v = st.heap.setdefault(k, args[0])
            return [("v", v, st)]
        if last == "use_ref" or last == "use_memo":
            raise NoAnswer(last)
        if last == "use_effect" and args:
            self.effects.append(args[0])
            return [("v", NONE)]
        return super().ext(ai, st, i, key, recv, args, kw)

    def render(self, st, component, view):
        self.view, self.effects = view, []
        st, v = self.one(st, component)
        for e in self.effects:
            k = ("@", ("S", "view", view), "cleanup")
            if k in st.heap:
                st = self.unmount(st, view)
            st, c = self.one(st, e)
            st = st.copy()
            st.heap[k] = c
        return st, v

    def unmount(self, st, view):
        c = st.heap.get(("@", ("S", "view", view), "cleanup"), NONE)
        if c != NONE:
            st, _ = self.one(st, c)
        return st


SWAPS = [
    ("as it is swapped", [("show", 0), ("swap", "a"), ("show", 0), ("swap", "b"), ("show", 0), ("show", 0)]),
    ("swapped before", [("swap", "a"), ("show", 0), ("swap", "b"), ("swap", "c"), ("show", 0)]),
    ("to nothing", [("swap", "a"), ("show", 0), ("swap", None), ("show", 0), ("swap", "b"), ("show", 0)]),
    ("two views", [("swap", "a"), ("show", 0), ("swap", "b"), ("show", 1), ("show", 0), ("swap", "c"), ("show", 0), ("show", 1)]),
    ("one of two views ends", [("swap", "a"), ("show", 0), ("show", 1), ("end", 0), ("swap", "b"), ("show", 1), ("show", 2), ("swap", "c"), ("show", 2), ("show", 1)]),
]


def swaps(ck):
    f = ck.p.funcs.get("reactpy.testing.backend._hotswap")
    ck.rule("swapped", "a component which is mounted is what each view shows at its next render", 0)
    # what decorators make of functions is not followed
    if f is not None and any(ast.unparse(d).rsplit(".", 1)[-1] != "component" for x in ast.walk(f.node) if x is not f.node and isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) for d in x.decorator_list):
        ck.open.append("swapped: decorators which are not followed")
        return
    for update in (False, True) if f else ():
        for name, acts in SWAPS:
            what = f"{name}{', with updates' if update else ''}"
            try:
                w = Swaps(ck)
                outs = [o for o in w.interpret(f, None, (("k", update),), (), w.begin()) or [] if o.kind == "exit"]
                if len(outs) != 1 or outs[0].value[0] != "T" or len(outs[0].value) != 3:
                    raise NoAnswer("no functions")
                st, (_, swap, comp) = outs[0].st, outs[0].value
                now, msg = None, None
                for n, (act, x) in enumerate(acts):
                    if act == "swap":
                        st, _ = w.one(st, swap, ("S", "fn", x, (), None, x, False, True) if x else NONE)
                        now = x
                    elif act == "end":
                        st = w.unmount(st, x)
                    else:
                        st, v = w.render(st, comp, x)
                        want = ("S", "obj", "shown", now) if now else NONE
                        if v != want and v[:1] not in (("S",), ("k",)):
                            raise NoAnswer(f"what is shown: {v}")
                        if v != want and msg is None:
                            msg = f"after {acts[:n + 1]}, the view shows {v[-1]}, not {now}"
            except (NoAnswer, StateCap, RecursionError) as e:
                ck.open.append(f"swapped {what}: not followed ({e})")
                continue
            ck.ob(msg is None, what, f.loc(), msg or "", rule="swapped")


RULES = [assertions, captures, lists, fixtures, polls, catchers, swaps]
