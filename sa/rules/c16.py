"""C16  Event handler options reach the client; merged handlers all run."""
import itertools

from ..absint import Abs, Closure, Model
from ..lib import *

EXPLANATION = """
Each function on the way of a handler is interpreted for every combination of option values: the
decorator hands every option to the handler, the handler keeps each one (an option seen in the
function's body adds to it), merging refuses handlers which differ in any option and keeps common
ones, the serialised entry has the options (numbers only when given, zero included).  The functions made around the
user's function are interpreted as closures: it is called once, with the event data as it expects
them, and awaited when it is asynchronous; a merged function runs each of its handlers once.
Detection of options in the body is interpreted on every short sequence of classes of instructions.
"""
ASSUMPTIONS = ["the bytecode of the interpreter version in use; handlers are functions, methods or partials of them"]
EV = "reactpy.core.events"
EH = EV + ".EventHandler"
TO = EV + ".to_event_handler_function"
INSPECT = "reactpy.core._event_inspect.inspect_event_handler"
LAYOUT = "reactpy.core.layout.Layout"
OPTS = ("prevent_default", "stop_propagation", "debounce", "throttle", "target")
COROTEST = ("inspect.iscoroutinefunction", "asyncio.iscoroutinefunction")
SELF = ("S", "self")


def bound(f, args, kw):
    """{parameter: value} of a call of f"""
    names = [p for p in f.params() if p not in ("self", "cls")]
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    ds = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults)) | {x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    d = {n: ("k", x.value) for n, x in ds.items() if isinstance(x, ast.Constant)}
    d.update(zip(names, args))
    d.update(kw)
    return d


def opaque(P, *keep):
    """everything is opaque but what is defined in the given modules"""
    return {q for q, x in P.funcs.items() if x.module.name not in keep}


class M(Model):
    """symbols with attributes; calls of functions are recorded"""

    exact = True

    def __init__(self, attrs=None, coro=None, results=None, chain=None, data=()):
        self.attrs, self.coro, self.results, self.data = attrs or {}, coro, results or {}, data
        self.chain = {} if chain is None else chain

    def attr(self, st, v, name):
        r = self.attrs.get((v, name))
        if r is None and v in self.chain and name == "__wrapped__":
            return self.chain[v]
        return r

    def elements(self, st, v):
        return tuple(self.data) if v == ("S", "data") else None

    def truth(self, st, v):
        if v[0] == "C" and v[2]:
            if v[1] in COROTEST:
                return self.coro if v[2][0][0] == "S" else None
            if v[1] == "inspect.isawaitable" or v[1] == "inspect.iscoroutine":
                return v[2][0][0] == "awaitable"
            if v[1] == "hasattr" and v[2][1] == ("k", "__wrapped__"):
                return v[2][0] in self.chain
            if v[1] == "isinstance" and v[2][0] in self.chain.get("partials", ()):
                return v[2][1] == ("g", "functools.partial")
            if v[1] == "isinstance" and v[2][0][0] == "S":
                return False
            if v[1] == "callable" and v[2][0][0] == "S":
                return True
        if v[0] in ("S", "F"):
            return True
        if v[0] == "op" and v[1] == "Is" and v[3] == ("k", None) and v[2][0] in ("S", "F"):
            return False
        if v[0] == "op" and v[1] in ("Eq", "Is") and v[2][0] == "S" and v[3][0] == "S" and v[2] != v[3]:
            return False
        return None

    def run(self, st, f, args, how):
        ns = st.copy()
        ns.ev = ns.ev + ((how, f, tuple(args)),)
        return ns

    def awaited(self, st, v, i):
        if v[0] == "awaitable":
            for x in v[2] if len(v) > 2 else ():
                st.ev = st.ev + (("ran", *x),)

    def call(self, ai, st, i, key, recv, args, kw):
        if key in self.results:
            return [("v", self.results[key])]
        last = key.rsplit(".", 1)[-1]
        if key == "value" and recv and recv[0] == "S":
            if self.coro:
                return [("v", ("awaitable", ("S", "done"), ((recv, args),)), self.run(st, recv, args, "called"))]
            return [("v", ("S", "done"), self.run(st, recv, args, "ran"))]
        if last == "start_soon" and args:
            f, rest = args[0], args[1:]
            while f[0] == "C" and f[1] == "functools.partial":
                f, rest = f[2][0], f[2][1:] + rest
            return [("v", ("k", None), self.run(st, f, rest, "ran"))]
        if last in ("gather", "wait", "create_task", "ensure_future"):
            xs = []
            for x in args:
                xs += ai.spread(st, x) if x[0] != "awaitable" else [x]
            parts = tuple(y for x in xs if x[0] == "awaitable" and len(x) > 2 for y in x[2])
            return [("v", ("awaitable", ("S", "done"), parts))]
        if key in COROTEST and args and args[0][0] == "F":
            f = ai.P.funcs.get(args[0][1])
            return [("v", ("k", bool(f and isinstance(f.node, ast.AsyncFunctionDef))))]
        if key == "getattr" and len(args) >= 2 and args[1][0] == "k":
            v = self.attr(st, args[0], args[1][1])
            if v is not None:
                return [("v", v)]
            if len(args) > 2 and args[1][1] == "__wrapped__":
                return [("v", args[2])]
        return None


def invoke(ck, o, v, args, model, params, opq):
    """interpret the function which an interpretation returned"""
    P = ck.p
    if v is not None and v[0] == "C" and v[1] == "functools.partial":
        args = v[2][1:] + tuple(args)
        v = v[2][0]
    if v is None or v[0] != "F" or v[1] not in P.funcs:
        return None
    f = P.funcs[v[1]]
    names = [p for p in f.params() if p not in ("self", "cls")]
    if len(names) < len(args):
        return None
    cl = Closure(model, o, params)
    ai = Abs(flow(ck, f, opq), dict(zip(names, args)), cl, heap=dict(o.st.heap))
    ck.states += ai.states
    return ai.ended


def run(ck):
    P = ck.p
    to, init, ins = P.func(TO), role(P, EH, "__init__"), P.func(INSPECT)
    own = opaque(P, EV)
    loc = init.loc()

    # --- the handler keeps its options
    ck.rule("kept", "a handler has the options it is given; those found in the function's body add to them", 40)
    fl = flow(ck, init, own | {TO, INSPECT})
    pnames = set(init.all_params())
    ck.need(pnames >= {"function", *OPTS}, "the options of an event handler")
    bools, nums = (False, True), (None, 0, 250)
    for n, (pd, sp, db, th, fpd, fsp, fdb) in enumerate(itertools.product(bools, bools, nums, nums, bools, bools, (None, 0, 400))):
        if ck.tier == "quick" and (th, fsp) != (None, False) and (pd, fpd, db) != (False, True, None):
            continue
        m = M(results={INSPECT: ("T", ("k", fpd), ("k", fsp), ("k", fdb))})
        ai = Abs(fl, {"self": SELF, "function": ("S", "fn"), "prevent_default": ("k", pd), "stop_propagation": ("k", sp), "debounce": ("k", db), "throttle": ("k", th), "target": ("S", "target")}, m)
        ck.states += ai.states
        want = {"prevent_default": ("k", pd or fpd), "stop_propagation": ("k", sp or fsp), "debounce": ("k", db if fdb is None else fdb), "throttle": ("k", th), "target": ("S", "target")}
        bad = None if any(o.kind == "exit" for o in ai.ended) else "no handler is made"
        for o in ai.ended:
            if o.kind != "exit":
                continue
            for k, w in want.items():
                if o.st.heap.get(("@", SELF, k)) != w:
                    bad = bad or f"{k} is {o.st.heap.get(('@', SELF, k), ('k', 'not set'))[1]!r}"
        given = f"prevent_default={pd}, stop_propagation={sp}, debounce={db}, throttle={th}; found {fpd}, {fsp}, {fdb}"
        ck.ob(not bad, f"{name_of(init)}: {given}", loc, f"with {given}: {bad}")

    # --- what is inspected is the user's function, and it is the one that is called
    ck.rule("function", "the function called is the user's, and its body is what is inspected", 4)
    F = [("S", "fn", n) for n in range(4)]
    for depth in (0, 1, 3):
        for part in (False, True):
            if depth == 3 and part:
                continue
            seen = []

            class MI(M):
                def call(self, ai, st, i, key, recv, args, kw):
                    if key == INSPECT:
                        seen.append(args[0] if args else None)
                        return [("v", ("T", ("k", False), ("k", False), ("k", None)))]
                    return super().call(ai, st, i, key, recv, args, kw)

            chain = {F[n]: F[n + 1] for n in range(depth)}
            m = MI(chain=chain)
            inner = F[depth]
            if part:
                chain["partials"] = (inner,)
                m.attrs[(inner, "func")] = ("S", "inner function")
            ai = Abs(fl, {"self": SELF, "function": F[0]}, m)
            ck.states += ai.states
            want = ("S", "inner function") if part else inner
            ck.ob(bool(seen) and all(x == want for x in seen), f"{name_of(init)}: inspected function, wrapped {depth} times{', partial' * part}", loc, "the body inspected is not that of the user's function")
            fns = [o.st.heap.get(("@", SELF, "function")) for o in ai.ended if o.kind == "exit"]
            ok = bool(fns)
            for x in fns:
                b = bound(to, x[2], x[3]) if x and x[0] == "C" and x[1] == TO else {}
                ok &= b.get("function") == F[0] and b.get("positional_args") == ("k", False)
            ck.ob(ok, f"{name_of(init)}: function called, wrapped {depth} times{', partial' * part}", loc, "the handler does not call the function it was given with the event data")

    # --- the decorator
    ck.rule("decorator", "the decorator gives every option to the handler, in both forms", 2)
    ev = P.func(EV + ".event")
    fle = flow(ck, ev, own | {TO})
    params = {k: ("S", k) for k in OPTS if k in ev.all_params()}
    ck.need(set(params) == set(OPTS) - {"target"}, "the options of the event decorator")
    for direct in (True, False):
        m = M()
        ps = params | {"function": ("S", "fn") if direct else ("k", None)}
        ai = Abs(fle, ps, m)
        ck.states += ai.states
        bad = None if ai.ended else "nothing is returned"
        for o in ai.ended:
            outs = [o]
            if not direct:
                outs = invoke(ck, o, o.deep(), (("S", "fn"),), m, ps, own | {TO}) or []
            if not outs or any(x.kind != "exit" for x in outs):
                bad = bad or "the function returned does not make a handler"
            for x in outs:
                v = x.deep()
                if not (v[0] == "C" and v[1] == "class:" + EH):
                    bad = bad or "the result is not a handler"
                    continue
                b = bound(init, v[2], v[3])
                for k in params:
                    if b.get(k) != params[k]:
                        bad = bad or f"{k} is not that given"
                fn = b.get("function", ("?",))
                t = bound(to, fn[2], fn[3]) if fn[0] == "C" and fn[1] == TO else {}
                if t.get("function") != ("S", "fn") or t.get("positional_args") != ("k", True):
                    bad = bad or "the handler does not call the function with positional arguments"
        ck.ob(not bad, f"{name_of(ev)}: {'@event' if direct else '@event(...)'}", ev.loc(), f"event decorator: {bad}")

    # --- calling the user's function
    ck.rule("called", "the user's function is called once with the event data and awaited if it is asynchronous", 4)
    flt = flow(ck, to, own)
    data = (("S", "d", 1), ("S", "d", 2))
    fn = ("S", "fn")
    for pos in (True, False):
        for coro in (True, False):
            m = M(coro=coro, data=data)
            ps = {"function": fn, "positional_args": ("k", pos)}
            ai = Abs(flt, ps, m)
            bad = None if ai.ended else "nothing is returned"
            for o in ai.ended:
                v = o.value
                if v == fn:
                    if not coro or pos:
                        bad = bad or "the function itself is used"
                    continue
                outs = invoke(ck, o, o.deep(), (("S", "data"),), m, ps, own)
                if not outs:
                    bad = bad or "the result is not a function"
                    continue
                target = o.deep()
                f = P.funcs.get(target[1]) if target[0] == "F" else None
                if f is not None and not isinstance(f.node, ast.AsyncFunctionDef):
                    bad = bad or "the result is not asynchronous"
                wraps = f is not None and any(isinstance(d, ast.Call) and ast.unparse(d.func).endswith("wraps") for d in f.node.decorator_list)
                if o.st.heap.get(("@", v, "__wrapped__")) != fn and not wraps:
                    bad = bad or "the function returned does not tell which function it wraps"
                for x in outs:
                    if x.kind != "exit":
                        continue
                    ran = [e for e in x.st.ev if e[0] == "ran"]
                    if len(ran) != 1 or ran[0][1] != fn:
                        bad = bad or ("the function is not " + ("awaited" if coro else "called") if not ran else "the function is called more than once")
                    elif ran[0][2] != (data if pos else (("S", "data"),)):
                        bad = bad or "the function is not called with the event data"
            what = f"{'positional' if pos else 'list'}, {'async' if coro else 'sync'}"
            ck.ob(not bad, f"{name_of(to)}: {what}", to.loc(), f"{what}: {bad}")

    merging(ck, own, init)
    wire(ck)
    detection(ck, ins)


def merging(ck, own, init):
    P = ck.p
    mh, mf = P.func(EV + ".merge_event_handlers"), P.func(EV + ".merge_event_handler_funcs")
    ck.rule("merge", "handlers which differ in an option are refused, others merged into one which runs each", 8)
    hs = [("S", "h", n) for n in range(3)]
    base = {"prevent_default": ("k", True), "stop_propagation": ("k", False), "debounce": ("k", 100), "throttle": ("k", 0), "target": ("k", "x")}
    other = {"prevent_default": ("k", False), "stop_propagation": ("k", True), "debounce": ("k", None), "throttle": ("k", None), "target": ("k", "y")}
    fl = flow(ck, mh, own)
    mp, fp = mh.params()[0], mf.params()[0]
    fls = flow(ck, mf, own)

    def attrs(diff=None, who=None):
        d = {}
        for n, h in enumerate(hs):
            for k, v in base.items():
                d[(h, k)] = other[k] if k == diff and n == who else v
            d[(h, "function")] = ("S", "f", n)
        return d

    for diff in OPTS:
        for who in (0, 1, 2):
            ai = Abs(fl, {mp: ("T", *hs)}, M(attrs(diff, who), coro=True))
            ck.states += ai.states
            ck.ob(bool(ai.ended) and all(o.kind == "exc_exit" for o in ai.ended), f"{name_of(mh)}: {diff} of handler {who + 1} of 3", mh.loc(), f"handlers which differ in {diff} are merged")
    for n in (0, 1, 2, 3):
        ai = Abs(fl, {mp: ("T", *hs[:n])}, M(attrs(), coro=True))
        ck.states += ai.states
        bad = None if ai.ended else "nothing is returned"
        if n == 0:
            if any(o.kind == "exit" for o in ai.ended):
                bad = "merging no handlers gives a handler"
        elif not any(o.kind == "exit" for o in ai.ended):
            bad = "handlers with equal options are refused"
        for o in ai.ended:
            v = o.deep()
            if o.kind != "exit":
                bad = bad or (None if n == 0 else "handlers with equal options are refused")
                continue
            if n == 1 and v == hs[0]:
                continue
            if not (v[0] == "C" and v[1] == "class:" + EH):
                bad = bad or "the result is not a handler"
                continue
            b = bound(init, v[2], v[3])
            for k in OPTS:
                if b.get(k) != base[k]:
                    bad = bad or f"the merged handler has not the {k} of those merged"
            bad = bad or _runs(ck, o, b.get("function"), [("S", "f", k) for k in range(n)], {mp: ("T", *hs[:n])}, own)
        ck.ob(not bad, f"{name_of(mh)}: {n} handlers", mh.loc(), f"{n} handlers: {bad}")
    ck.rule("merge-funcs", "a merged function runs each of its functions once with the event data", 5)
    for n, ks in ((1, (0,)), (2, (0, 1)), (3, (0, 1, 2)), ("2 equal", (0, 0)), ("3, two of them equal", (0, 1, 0))):
        fs = [("S", "f", k) for k in ks]
        m = M(coro=True)
        ai = Abs(fls, {fp: ("T", *fs)}, m)
        bad = None if ai.ended else "nothing is returned"
        for o in ai.ended:
            if o.kind != "exit":
                bad = bad or "functions are refused"
            elif not (n == 1 and o.value == fs[0]):
                bad = bad or _runs(ck, o, o.deep(), fs, {fp: ("T", *fs)}, own)
        ck.ob(not bad, f"{name_of(mf)}: {n} functions", mf.loc(), f"{n} functions: {bad}")


def _runs(ck, o, v, fs, params, own):
    """calling v runs each of the functions once with the data given"""
    if v in fs and len(fs) == 1:
        return None
    if v and v[0] == "F":
        # parameters of an inlined function are among the variables of the state
        outs = invoke(ck, o, v, (("S", "data"),), M(coro=True), params, own)
    else:
        outs = None
    if not outs:
        return "the merged function is not recognised"
    for x in outs:
        if x.kind != "exit":
            continue
        ran = [e for e in x.st.ev if e[0] == "ran"]
        if sorted((e[1] for e in ran), key=repr) != sorted(fs, key=repr):
            return "not every function is run once"
        if any(e[2] != (("S", "data"),) for e in ran):
            return "a function does not get the event data"
    return None


def wire(ck):
    """the entry sent to the client"""
    P = ck.p
    ck.rule("wire", "the entry sent to the client has the handler's options", 20)
    fs = [f for f in P.funcs.values() if f.module.name == "reactpy.core.layout" and any(isinstance(n, ast.Constant) and n.value == "preventDefault" for n in ast.walk(f.node))]
    ck.need(fs, "where event handlers are serialised")
    names = {"preventDefault": "prevent_default", "stopPropagation": "stop_propagation", "debounce": "debounce", "throttle": "throttle"}
    for f in fs:
        fl = flow(ck, f, opaque(P, "reactpy.core.layout"))
        for pd, sp, db, th in itertools.product((True, False), (True, False), (None, 0, 250), (None, 0, 500)):
            vals = {"prevent_default": pd, "stop_propagation": sp, "debounce": db, "throttle": th}

            class MW(Model):
                def attr(self, st, v, name):
                    return ("k", vals[name]) if name in vals else None

            ai = Abs(fl, {p: ("S", p) for p in f.params()}, MW())
            ck.states += ai.states
            bad, found = None, False
            for o in ai.ended:
                if o.kind != "exit":
                    continue
                for e in _entries_in(o):
                    found = True
                    got = dict(e)
                    if got.get(("k", "target"), ("k", None)) == ("k", None):
                        bad = bad or "the target is missing"
                    for w, a in names.items():
                        x = got.get(("k", w))
                        want = None if vals[a] is None else ("k", vals[a])
                        if x != want:
                            bad = bad or (f"{w} is missing" if x is None else f"{w} is sent as {x[1]!r}")
                    extra = {k[1] for k in got if k[0] == "k"} - {"target", *names}
                    if extra:
                        bad = bad or f"it has {sorted(map(str, extra))[0]}"
            if not found:
                bad = "no entry is made"
            given = ", ".join(f"{k}={v}" for k, v in vals.items())
            ck.ob(not bad, f"{name_of(f)}: {given}", f.loc(), f"the entry of a handler with {given}: {bad}")


def _entries_in(o):
    out, seen = [], set()

    def walk(v):
        if not isinstance(v, tuple) or v in seen:
            return
        seen.add(v)
        if v and v[0] == "dict" and len(v) == 2 and any(x[0] == ("k", "preventDefault") for x in v[1]):
            out.append(v[1])
        for x in v:
            walk(x)

    walk(o.deep())
    for v in o.st.heap.values():
        walk(v)
    return out


# classes of instructions: operation, argument
INS = {
    "event": ("LOAD_FAST", "a0"), "other": ("LOAD_FAST", "x"), "prevent": ("LOAD_ATTR", "preventDefault"), "stop": ("LOAD_ATTR", "stopPropagation"),
    "value": ("LOAD_CONST", 250), "debounce": ("STORE_ATTR", "debounce"), "attribute": ("LOAD_ATTR", "key"),
}


def detection(ck, ins):
    P = ck.p
    ck.rule("detect", "an option counts as used exactly where it is accessed on the event", 60)
    fl = flow(ck, ins, opaque(P, ins.module.name))
    code, fn = ("S", "code"), ("S", "fn")
    seqs = [q for n in (1, 2, 3) for q in itertools.product(("event", "other", "prevent", "stop"), repeat=n) if n > 1 or q[0] != "event"]
    seqs += [("value", "event", "debounce"), ("value", "other", "debounce"), ("value", "event", "attribute", "debounce"), ("event", "prevent", "value", "event", "debounce"), ("value", "event", "debounce", "event", "stop")]
    for method in (False, True):
        for q in seqs:
            if method and len(q) > 2:
                continue
            event = "a1" if method else "a0"
            syms = {("S", "ins", n): INS[c] for n, c in enumerate(q)}

            class MD(Model):
                def attr(self, st, v, name):
                    if v == fn and name == "__code__":
                        return code
                    if v == code:
                        return {"co_argcount": ("k", 2), "co_names": ("k", ("preventDefault", "stopPropagation", "debounce", "key")), "co_varnames": ("k", ("a0", "a1", "x"))}.get(name)
                    if v in syms and name in ("opname", "argval"):
                        o, a = syms[v]
                        return ("k", o if name == "opname" else event if a == "a0" else a)
                    return None

                def truth(self, st, v):
                    if v[0] == "C" and v[1] == "inspect.ismethod":
                        return method
                    if v[0] == "C" and v[1] == "hasattr":
                        return v[2][1] == ("k", "__code__")
                    if v[0] == "op" and v[1] == "Is" and v[3] == ("k", None) and v[2][0] == "S":
                        return False
                    return None

                def call(self, ai, st, i, key, recv, args, kw):
                    if key == "inspect.ismethod":
                        return [("v", ("k", method))]
                    if key == "getattr" and args[0] == fn and args[1][0] == "k":
                        v = self.attr(st, fn, args[1][1])
                        return [("v", v if v is not None else args[2] if len(args) > 2 else ("k", None))]
                    if key in ("dis.get_instructions", "dis.Bytecode"):
                        return [("v", ("T", *syms))]
                    return None

            ai = Abs(fl, {ins.params()[0]: fn}, MD())
            ck.states += ai.states
            pairs = set(zip(q, q[1:]))
            want = (("event", "prevent") in pairs, ("event", "stop") in pairs, 250 if ("event", "debounce") in pairs else None)
            bad = None if ai.ended else "nothing is returned"
            for o in ai.ended:
                v = o.deep()
                if o.kind != "exit" or v[0] != "T" or len(v) != 4:
                    bad = bad or "no result is given"
                elif tuple(x[1] if x[0] == "k" else "?" for x in v[1:]) != want:
                    bad = bad or f"found {tuple(x[1] if x[0] == 'k' else '?' for x in v[1:])}, not {want}"
            ck.ob(not bad, f"{name_of(ins)}: {' '.join(q)}{', method' * method}", ins.loc(), f"instructions {' '.join(q)}: {bad}")


RULES = [run]
