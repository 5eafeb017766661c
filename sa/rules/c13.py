"""C13  A context's value is that of the nearest provider above."""
from .. import histories, hooked
from ..lib import *
from .c01 import DID, OPAQUE, WILL
from .c04 import decode
from .c05 import _none
from .c10 import HOOKS_MOD
from .c12 import _origin

EXPLANATION = """
The providers which a component sees are those of the component on top of the hook stack when its
render begins (the parent), taken over on every path before the component itself is pushed, and
overriding what it had; the mapping is its own. A provider registers itself, under its context,
with the component it is rendered as; children are rendered while their parent is on the stack.
use_context reads the value of the provider found under that context at the time of the call and
the context's default otherwise, and every context is an object of its own.
"""
ASSUMPTIONS = []
PROVIDER = "reactpy.types.ContextProvider"


def attr(ck):
    P = ck.p
    f = role(P, HOOK, "get_context_provider")
    fl = flow(ck, f)
    A = {i.a["attr"] for i in fl.g.live() if i.op == "getattr" and ("p", f.qual, "self") in fl.terms(i.a["obj"], i)}
    A = {a for a in A if a not in P.cls(HOOK).methods}
    ck.need(len(A) == 1, "where a component keeps its context providers was not recognised")
    return A.pop()


def lookup(ck):
    ck.rule("registry", "a provider is registered under its context, and found under it", 2)
    P = ck.p
    A = attr(ck)
    f = role(P, HOOK, "get_context_provider")
    fl = flow(ck, f)
    g = fl.g
    me, cx = ("p", f.qual, "self"), ("p", f.qual, [x for x in f.params() if x != "self"][0])
    hits = {i.id for i in g.live() if (i.op == "getitem" and ("attr", me, A) in fl.terms(i.a["obj"], i) and fl.terms(i.a["key"], i) == {cx}
            or i.op == "call" and i.a["callee"][0] == "method" and i.a["callee"][2] == "get" and ("attr", me, A) in fl.recv_terms(i) and i.a["args"] and fl.terms(i.a["args"][0], i) == {cx}
            and all(fl.terms(x, i) == {("k", None)} for x in i.a["args"][1:]))}
    rets = [i for i in g.live() if i.op == "return"]
    for r in rets:
        o = fl.origins(r.a["val"], r)
        ok = r.a["val"] == ("k", None) or bool(o) and o <= hits or all(t == ("k", None) or t[0] == "item" and t[2] == cx for t in fl.terms(r.a["val"], r))
        ck.ob(ok and bool(hits), f"{name_of(f)}: provider of the context", r.loc, "the provider found is not the one registered for the context")
    f = role(P, HOOK, "set_context_provider")
    fl = flow(ck, f)
    g = fl.g
    me, pv = ("p", f.qual, "self"), ("p", f.qual, [x for x in f.params() if x != "self"][0])
    sets = set()
    for i in g.live():
        if i.op == "setitem" and ("attr", me, A) in fl.terms(i.a["obj"], i) and fl.terms(i.a["key"], i) == {("attr", pv, "type")} and fl.terms(i.a["val"], i) == {pv}:
            sets.add(i.id)
        if i.op == "call" and i.a["callee"][0] == "method" and i.a["callee"][2] == "update" and ("attr", me, A) in fl.recv_terms(i) and i.a["args"]:
            b = _origin(fl, i.a["args"][0], i)
            if b is not None and b.op == "build" and b.a["kind"] == "dict" and any(isinstance(x, tuple) and len(x) == 2 and fl.terms(x[1], b) == {pv} and fl.terms(x[0], b) == {("attr", pv, "type")} for x in b.a["items"] if x and isinstance(x[0], tuple)):
                sets.add(i.id)
    bad = fl.reach_avoiding([0], lambda x: x.op == "exit", lambda x: x.id in sets)
    ck.ob(bool(sets) and bad is None, f"{name_of(f)}: registration", f.loc(), "a provider is not registered under its own context")


def inherit(ck):
    ck.rule("inherited", "a component takes over its parent's providers, overriding older ones, in a mapping of its own, whenever its render begins", 1)
    P = ck.p
    A = attr(ck)
    f = role(P, HOOK, "affect_component_will_render")
    fl = flow(ck, f, OPAQUE - {HOOK + ".set_current"})
    g = fl.g
    me = ("p", f.qual, "self")

    def is_me(ts):
        return ts == {me}

    push = {i.id: i for i in method_calls(fl, "append") if i.a["args"] and is_me(fl.terms(i.a["args"][0], i))}
    ck.need(push, "the hook is not pushed on the stack of current hooks")
    stack = set().union(*[fl.recv_terms(i) for i in push.values()])

    keys = {t[1] for t in stack if t[0] == "call"}

    def is_stack(op, at):
        ts = fl.terms(op, at)
        return bool(ts) and (bool(ts & stack) or all(t[0] == "call" and t[1] in keys for t in ts))

    def depth(op, at):
        d = _origin(fl, op, at)
        if op[0] == "k" and isinstance(op[1], int):
            return op[1]
        if d is not None and d.op == "op" and d.a["fn"] == "USub" and d.a["args"][0][0] == "k":
            return -d.a["args"][0][1]
        return None

    pars = {i.id: depth(i.a["key"], i) for i in g.live() if i.op == "getitem" and is_stack(i.a["obj"], i)}

    def mine(op, at):
        return ("attr", me, A) in fl.terms(op, at)

    def theirs(op, at):
        """getitem ids of the hook whose providers the operand denotes (items() and copies included)"""
        out = set()
        todo = [(op, at)]
        seen = set()
        while todo:
            o, i = todo.pop()
            for x in fl.origins(o, i):
                if x in seen:
                    continue
                seen.add(x)
                d = g.instrs[x]
                if d.op == "getattr" and d.a["attr"] == A:
                    out |= {y for y in fl.origins(d.a["obj"], d) if y in pars}
                elif d.op == "call" and d.a["callee"][0] == "method" and d.a["callee"][2] in ("items", "copy"):
                    todo.append((d.a["callee"][1], d))
                elif d.op == "call" and fl.callee_key(d) in ("dict", "list", "copy.copy") and d.a["args"]:
                    todo.append((d.a["args"][0], d))
        return out

    inh, wrong = {}, {}
    for i in g.live():
        if i.op == "call" and i.a["callee"][0] == "method" and mine(i.a["callee"][1], i):
            if i.a["callee"][2] == "update" and i.a["args"]:
                t = theirs(i.a["args"][0], i)
                if t:
                    inh[i.id] = t
            elif i.a["callee"][2] == "setdefault":
                wrong[i.id] = "the provider a component saw before is not replaced by the one its parent sees now"
            elif i.a["callee"][2] == "__ior__" and i.a["args"] and theirs(i.a["args"][0], i):
                inh[i.id] = theirs(i.a["args"][0], i)
        if i.op == "setattr" and i.a["attr"] == A and is_me(fl.terms(i.a["obj"], i)):
            d = _origin(fl, i.a["val"], i)
            direct = fl.terms(i.a["val"], i)
            if any(t[0] == "attr" and t[2] == A and t[1] != me for t in direct):
                wrong[i.id] = "a component shares the mapping of providers with its parent and its siblings"
            elif d is not None and d.op == "op" and d.a["fn"] == "BitOr":
                if theirs(d.a["args"][1], d):
                    inh[i.id] = theirs(d.a["args"][1], d)
                elif theirs(d.a["args"][0], d):
                    wrong[i.id] = "the provider a component saw before is not replaced by the one its parent sees now"
            elif d is not None and d.op == "build" and d.a["kind"] == "dict":
                srcs = [x[1] if isinstance(x[1], tuple) else x for x in d.a["items"] if isinstance(x, tuple)]
                last = srcs[-1] if srcs else None
                if last is not None and (theirs(last, d) or last[0] == "t" and g.deftmp[last[1]].op == "star" and theirs(g.deftmp[last[1]].a["src"], d)):
                    inh[i.id] = set(pars)
                else:
                    wrong[i.id] = "the provider a component saw before is not replaced by the one its parent sees now"
            elif d is not None and theirs(i.a["val"], i):
                inh[i.id] = theirs(i.a["val"], i)
            else:
                wrong[i.id] = "the providers which a component sees are replaced"
    # loops over the parent's providers
    sets = {i.id for i in g.live() if i.op == "setitem" and mine(i.a["obj"], i)}
    for h, bad in skipped_items(fl, sets, lambda a, l: False):
        t = theirs(g.instrs[next(iter(fl.origins(h.a["it"], h)))].a["src"], h) if fl.origins(h.a["it"], h) and g.instrs[next(iter(fl.origins(h.a["it"], h)))].op == "iter" else set()
        if bad is not None:
            wrong[h.id] = "some of the parent's providers are not taken over"
        elif t:
            inh[h.id] = t

    def empty(i, lab):
        kind, terms, pol, op, at = decode(fl, i, {})
        d = g.deftmp.get(op[1]) if op is not None and op[0] == "t" else None
        if kind == "truthy" and terms and op is not None and is_stack(op, at):
            return (lab == "t") != pol
        if d is not None and d.op == "call" and fl.callee_key(d) == "len" and is_stack(d.a["args"][0], d):
            return (lab == "t") != pol
        if d is not None and d.op == "op" and len(d.a["args"]) == 2:
            a = _origin(fl, d.a["args"][0], d)
            if a is not None and a.op == "call" and fl.callee_key(a) == "len" and is_stack(a.a["args"][0], a):
                k = (d.a["fn"], const(d.a["args"][1]))
                pos = {("Gt", 0): False, ("GtE", 1): False, ("NotEq", 0): False, ("Eq", 0): True, ("Lt", 1): True, ("LtE", 0): True, ("Gt", 1): False, ("GtE", 2): False, ("Lt", 2): True}.get(k)
                if pos is not None:
                    return pos == ((lab == "t") == pol)
        return None

    def step(i, lab, st, env):
        pushed, got, ok = st
        if i.op == "branch" and lab in ("t", "f"):
            e = empty(i, lab)
            if e is not None:
                if ok == "empty" and not e or ok is False and e:
                    return []
                if e:
                    ok = "empty"
        if i.id in pars and lab == "n":
            good = pars[i.id] == (-2 if pushed else -1)
            got = frozenset([x for x in got if x[0] != i.id] + [(i.id, good)])
        if i.id in wrong and (lab == "n" or i.op == "next"):
            ok = wrong[i.id]
        if i.id in inh and (lab == "n" and i.op != "next" or i.op == "next" and lab == "f"):
            src = {dict(got).get(x) for x in inh[i.id]}
            ok = "done" if src == {True} and ok in (None, "done") else ok if isinstance(ok, str) and ok != "empty" else "the providers taken over are not those of the parent"
        if i.id in push and lab == "n":
            pushed = True
        return [(pushed, got, ok)]

    def final(kind, st):
        pushed, got, ok = st
        if kind != "exit" or not pushed or ok in ("done", "empty"):
            return True
        return ok or "a component does not see the providers which its parent sees"

    typestate(ck, fl, (False, frozenset(), None), step, final, f"{name_of(f)}: providers of the parent")
    # nothing else changes the mapping
    allowed = {q for q, _ in g.inlined} | {f.qual, HOOK + ".set_context_provider", HOOK + ".__init__", HOOK + ".affect_component_will_unmount"}
    for m in P.cls(HOOK).methods.values():
        if m.qual in allowed:
            continue
        fm = flow(ck, m, inline=_none)
        for i in fm.g.live():
            hit = i.op == "setattr" and i.a["attr"] == A
            if i.op in ("setitem", "delitem"):
                hit = any(t[0] == "attr" and t[2] == A for t in fm.terms(i.a["obj"], i))
            if i.op == "call" and i.a["callee"][0] == "method" and i.a["callee"][2] in ("clear", "pop", "update", "setdefault", "popitem"):
                hit = any(t[0] == "attr" and t[2] == A for t in fm.recv_terms(i))
            if hit:
                ck.ob(False, f"{name_of(m)}: mapping of providers", i.loc, "the providers which a component sees change apart from its renders")
    init = role(P, HOOK, "__init__")
    fi = flow(ck, init)
    s = [i for i in fi.g.live() if i.op == "setattr" and i.a["attr"] == A]
    fresh = bool(s) and all((d := _origin(fi, i.a["val"], i)) is not None and (d.op == "build" or d.op == "call" and fi.callee_key(d) == "dict") for i in s)
    ck.ob(fresh, f"{name_of(init)}: own mapping", init.loc(), "components share their mapping of providers")


def provider(ck):
    ck.rule("provider", "a provider registers itself with the component it is rendered as and renders its children unchanged", 3)
    P = ck.p
    f = role(P, PROVIDER, "render")
    fl = flow(ck, f, {STACK + ".current_hook", HOOK + ".set_context_provider"})
    g = fl.g
    me = ("p", f.qual, "self")
    reg = {i.id for i in g.calls() if fl.callee_key(i).endswith("set_context_provider") and any(me in fl.terms(x, i) for x in i.a["args"]) and any_term(fl.recv_terms(i), lambda t: t[0] == "call" and t[1].endswith("current_hook") or t[0] == "item")}
    bad = fl.reach_avoiding([0], lambda x: x.op == "exit", lambda x: x.id in reg)
    ck.ob(bool(reg) and bad is None, f"{name_of(f)}: registration", f.loc(), "a provider is not registered with the component being rendered", lines(fl, bad) if bad else "")
    for r in g.live():
        if r.op == "return" and r.func is f and not r.a.get("implicit"):
            d = _origin(fl, r.a["val"], r)
            kw = dict(d.a["kw"]) if d is not None and d.op == "call" else {}
            if d is not None and d.op == "build" and d.a["kind"] == "dict":
                kw = {x[0][1]: x[1] for x in d.a["items"] if isinstance(x[0], tuple) and x[0][0] == "k"}
            ch = kw.get("children")
            ok = ch is not None and bool(fl.terms(ch, d)) and any(t == ("attr", me, "children") or t[0] == "call" and any(("attr", me, "children") in fl.terms(x, g.instrs[t[2]]) for x in g.instrs[t[2]].a["args"]) for t in fl.terms(ch, d))
            ck.ob(ok, f"{name_of(f)}: children", r.loc, "a provider does not render its children")
            ck.ob("tagName" in kw and is_const(kw["tagName"], ""), f"{name_of(f)}: no element of its own", r.loc, "a provider adds an element to the tree")
    init = role(P, PROVIDER, "__init__")
    fi = flow(ck, init)
    for n in ("children", "value", "type", "key"):
        s = [i for i in fi.g.live() if i.op == "setattr" and i.a["attr"] == n]
        ok = bool(s) and all(fi.terms(i.a["val"], i) == {("p", init.qual, n)} for i in s)
        ck.ob(ok, f"{name_of(init)}: {n}", init.loc(), f"the {n} of a provider is not the one given")


def nested(ck):
    ck.rule("children-inside", "children are rendered while their parent is the current component", 1)
    f, fl = activation(ck, ren_opaque(ck, OPAQUE))
    g = fl.g
    P = ck.p
    cg = call_graph(P, "reactpy.core.layout")
    R = {q: reach_set(cg, q) | {q} for q in cg}
    will, did = completion(fl, {WILL}), completion(fl, {DID})
    begins = {q for q in cg if any(isinstance(n, ast.Attribute) and n.attr == "affect_component_will_render" for n in ast.walk(P.funcs[q].node))}
    rec = {i.id: i for i in g.calls() if i.a["callee"][0] == "repo" and i.a["callee"][1].qual in cg and R[i.a["callee"][1].qual] & begins}
    ck.need(rec and will and did, "children of components are not rendered")

    def step(i, lab, st, env):
        if i.id in will and lab == "n":
            return ["in"]
        if i.id in did:
            return ["out" if st != "bad" else st]
        if i.id in rec and st != "in":
            return ["bad"]
        return [st]

    typestate(ck, fl, "out", step, lambda kind, st: st != "bad", f"{name_of(f)}: rendering of children", "children are rendered while their parent is not the current component, so they do not see its providers")


def reading(ck):
    ck.rule("value", "use_context gives the value of the provider found for the context, or the context's default", 2)
    P = ck.p
    f = P.func(f"{HOOKS_MOD}.use_context")
    fl = flow(ck, f, {STACK + ".current_hook", HOOK + ".get_context_provider"})
    g = fl.g
    cx = ("p", f.qual, f.params()[0])
    found = {i.id for i in g.calls() if fl.callee_key(i).endswith("get_context_provider") and i.a["args"] and fl.terms(i.a["args"][0], i) == {cx}}
    ck.ob(bool(found), f"{name_of(f)}: provider", f.loc(), "the provider of the context is not looked up")
    if not found:
        return
    pv = lambda t: t[0] == "call" and t[2] in found

    def leaf(op, at):
        ts = fl.terms(op, at)
        if ts and all(t[0] == "attr" and t[2] == "value" and pv(t[1]) for t in ts):
            return "provided"
        if ts and all(_default_of(t, cx) for t in ts):
            return "default"
        return "?"

    def step(i, lab, st, env):
        none, m, out = st
        if i.op == "branch" and lab in ("t", "f"):
            kind, terms, pol, op, at = decode(fl, i, env)
            if terms and all(pv(t) for t in terms):
                v = (lab == "t") == pol
                v = v if kind == "none" else not v if kind == "truthy" else None
                if v is not None:
                    if none is not None and none != v:
                        return []
                    none = v
        m = bind(m, i, leaf, lab)
        if i.op == "return" and i.func is f:
            out = pathval(m, i.a["val"], i, leaf) or "?"
        return [(none, m, out)]

    def final(kind, st):
        none, _, out = st
        if kind != "exit":
            return True
        if none is None:
            return "whether there is a provider is not tested"
        if none:
            return out == "default" or "without a provider the value is not the context's default"
        return out == "provided" or "the value is not that of the provider"

    typestate(ck, fl, (None, frozenset(), None), step, final, f"{name_of(f)}: value")
    # a new context
    f = P.func(f"{HOOKS_MOD}.create_context")
    fl = flow(ck, f)
    g = fl.g
    dv = f.params()[0]
    for r in g.live():
        if r.op == "return" and r.func is f and not r.a.get("implicit"):
            ts = fl.terms(r.a["val"], r)
            fn = [P.funcs[t[1]] for t in ts if t[0] == "fn" and t[1] in P.funcs and P.funcs[t[1]].parent is f]
            ok = len(fn) == 1 and len(ts) == 1
            ck.ob(ok, f"{name_of(f)}: own context", r.loc, "contexts are not distinct objects")
            if not ok:
                continue
            c = fn[0]
            from .c11 import _default
            d = _default(c, "value")
            ck.ob(isinstance(d, ast.Name) and d.id == dv and "value" in c.kwonly(), f"{name_of(f)}: default", c.loc(), "the default of a context is not the one given")
            fc = flow(ck, c)
            mk = [i for i in fc.g.calls() if i.a["callee"][0] == "class" and i.a["callee"][1].qual == PROVIDER]
            for i in mk:
                kw = dict(i.a["kw"])
                for n in ("value", "key"):
                    ck.ob(n in kw and fc.terms(kw[n], i) == {("p", c.qual, n)}, f"{name_of(f)}: {n} of the provider", i.loc, f"the {n} given to a provider is lost")
                ck.ob("type" in kw and fc.terms(kw["type"], i) <= {("fn", c.qual), ("free", f.qual, c.name)} and bool(fc.terms(kw["type"], i)), f"{name_of(f)}: context of the provider", i.loc, "a provider does not provide its own context")
                ck.ob(any(t[0] == "star" and t[1] == ("p", c.qual, c.node.args.vararg.arg if c.node.args.vararg else "") for x in i.a["args"] for t in fc.terms(x, i)), f"{name_of(f)}: children of the provider", i.loc, "the children given to a provider are lost")
            ck.ob(bool(mk), f"{name_of(f)}: provider", c.loc(), "a context makes no provider")


def _default_of(t, cx):
    return t[0] == "item" and t[2] == ("k", "value") and t[1] == ("attr", cx, "__kwdefaults__")


def trees_of_providers(ck):
    hooked.decide(ck, "trees of providers", "in trees of providers a component reads the value of the nearest provider above it, or the default", histories.CONTEXTS, "reactpy.core.hooks.use_context")


# decided by interpretation of whole histories as well
SPARE = {"lookup": "trees of providers", "provider": "trees of providers", "reading": "trees of providers"}
RULES = [lookup, inherit, provider, nested, reading, trees_of_providers]
