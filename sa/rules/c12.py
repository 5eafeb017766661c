"""C12  State belongs to the order of hook calls; setters and reducers see the newest value."""
from .. import histories, hooked
from ..lib import *
from .c04 import decode
from .c10 import HOOKS_MOD
from .c05 import _none

EXPLANATION = """
LifeCycleHook.use_state is run through an automaton over its index and its list: on every path
either the item at the index is returned, or the initializer is called and its result appended
and returned, and the index grows by one. The index restarts with every render; items are never
removed. Each hook of the hooks module creates what it keeps only where nothing is kept yet.
A setter called with a function passes it the value stored at the time of the call, and stores
what it returns; a reducer is given its state that way too.
"""
ASSUMPTIONS = ["components call the same hooks in the same order (the documented rule of hooks)"]
US = HOOK + ".use_state"


def attrs(ck):
    """(flow, list attribute, index attribute) of LifeCycleHook.use_state"""
    P = ck.p
    f = role(P, HOOK, "use_state")
    fl = flow(ck, f)
    g = fl.g
    S = {t[2] for i in method_calls(fl, "append", "insert") for t in fl.recv_terms(i) if t[0] == "attr"}
    S = S or {t[2] for i in g.live() if i.op == "getitem" for t in fl.terms(i.a["obj"], i) if t[0] == "attr"}
    I = set()
    for i in g.live():
        if i.op == "setattr":
            d = _origin(fl, i.a["val"], i)
            if d is not None and d.op == "op" and d.a["fn"] == "Add" and any(x[0] == "k" and type(x[1]) is int for x in d.a["args"]):
                I.add(i.a["attr"])
    ck.need(len(S) == 1, "the list which keeps the state of hooks was not recognised")
    ck.need(len(I) == 1, "the position of a hook's state was not recognised")
    return f, fl, S.pop(), I.pop()


def _origin(fl, op, at):
    o = fl.origins(op, at)
    return fl.g.instrs[next(iter(o))] if len(o) == 1 else None


def automaton(ck):
    ck.rule("slot", "each call uses the next item of the state, which is created when it does not exist and kept afterwards", 1)
    P = ck.p
    f, fl, S, I = attrs(ck)
    g = fl.g
    self_ = ("p", f.qual, "self")
    fn = ("p", f.qual, [x for x in f.params() if x != "self"][0])
    is_S = lambda op, at: ("attr", self_, S) in fl.terms(op, at)
    creates = {i.id for i in g.calls() if i.a["callee"][0] == "value" and fn in fl.terms(i.a["fn"], i)}
    ck.need(creates, "use_state does not call the initializer")
    adds = {i.id: i for i in method_calls(fl, "append", "insert") if ("attr", self_, S) in fl.recv_terms(i)}
    gets = {i.id: i for i in g.live() if i.op == "getitem" and is_S(i.a["obj"], i)}
    reads = {i.id for i in g.live() if i.op == "getattr" and i.a["attr"] == I}

    def is_idx(op, at):
        o = fl.origins(op, at)
        return bool(o) and o <= reads

    def is_len(op, at):
        d = _origin(fl, op, at)
        return d is not None and d.op == "call" and d.a["callee"] == ("builtin", "len") and is_S(d.a["args"][0], d)

    ABS = {("GtE", 0), ("Eq", 0), ("LtE", 1), ("Eq", 1)}
    PRE = {("Lt", 0), ("NotEq", 0), ("Gt", 1), ("NotEq", 1)}

    def fact(i, lab, env):
        """(instruction of the index read, absent?)"""
        kind, terms, pol, op, at = decode(fl, i, env)
        d = g.deftmp.get(op[1]) if op is not None and op[0] == "t" else None
        if d is None or d.op != "op" or len(d.a["args"]) != 2:
            return None
        a, b = d.a["args"]
        side = 0 if is_idx(a, d) and is_len(b, d) else 1 if is_idx(b, d) and is_len(a, d) else None
        if side is None:
            return None
        k = (d.a["fn"], side)
        rd = fl.origins(a if side == 0 else b, d)
        truth = (lab == "t") == pol
        if k in ABS:
            return rd, truth
        if k in PRE:
            return rd, not truth
        return rd, "?"

    def key_kind(i):
        op = i.a["key"]
        if is_idx(op, i):
            return fl.origins(op, i)
        d = _origin(fl, op, i)
        if op == ("k", -1) or d is not None and d.op == "op" and d.a["fn"] == "USub" and d.a["args"] == [("k", 1)]:
            return "last"
        if d is not None and d.op == "op" and d.a["fn"] == "Sub" and d.a["args"][1] == ("k", 1):
            if is_idx(d.a["args"][0], d):
                return ("minus", fl.origins(d.a["args"][0], d))
            if is_len(d.a["args"][0], d):
                return "last"
        return "?"

    # state: (increments, reads {instr: increments then}, absent?, created, added, what is at hand)
    def step(i, lab, st, env):
        inc, rd, absent, made, added, got = st
        if i.id in reads and lab == "n":
            rd = frozenset([x for x in rd if x[0] != i.id] + [(i.id, inc)])
        if i.op == "setattr" and i.a["attr"] == I and lab == "n":
            d = _origin(fl, i.a["val"], i)
            ok = d is not None and d.op == "op" and d.a["fn"] == "Add" and ("k", 1) in d.a["args"] and any(is_idx(x, d) for x in d.a["args"])
            if ok:
                src = [x for x in d.a["args"] if x != ("k", 1)]
                at = {dict(rd).get(o) for x in src for o in fl.origins(x, d)}
                inc = inc + 1 if at == {inc} else inc
                inc = min(inc, 3)
            else:
                inc = 9
        if i.op == "branch" and lab in ("t", "f"):
            r = fact(i, lab, env)
            if r:
                ids, v = r
                if {dict(rd).get(o) for o in ids} != {0}:
                    v = "?"
                absent = v
        if i.id in creates and lab == "n":
            made += 1
        if i.id in adds and lab == "n":
            v = adds[i.id].a["args"][-1]
            o = fl.origins(v, i)
            added += 1 if o & creates and fl.callee_key(adds[i.id]).endswith("append") else 9
        if i.id in gets:
            k = key_kind(gets[i.id])
            base = None
            if isinstance(k, (set, frozenset)):
                base = {dict(rd).get(o) for o in k}
            elif isinstance(k, tuple) and k[0] == "minus":
                base = {(dict(rd).get(o) or 0) - 1 for o in k[1]}
            if k == "last":
                here = "last" if added else "?"
            else:
                here = "slot" if base == {0} else "?"
            if lab == "e":
                absent = True if here == "slot" else "?"
            else:
                if absent is None and here == "slot" and any(l == "e" for _, l in i.succ):
                    absent = False
                got = here
        return [(inc, rd, absent, min(made, 2), min(added, 9), got)]

    def final(kind, st):
        inc, rd, absent, made, added, got = st
        if kind != "exit":
            return "state is added although the initializer failed" if added and not made else True
        if inc != 1:
            return "a call of a hook does not move on to the next state" if inc == 0 else "the position of the hook's state is not advanced by one"
        if absent == "?":
            return "which state a hook gets does not depend on its position"
        if absent:
            if made != 1 or added != 1:
                return "a hook called for the first time does not add the state it creates"
            return True if got in (None, "last", "slot") else "a hook gets the state of another one"
        if absent is False:
            if made or added:
                return "state is created again although it exists"
            return True if got == "slot" else "a hook gets the state of another one"
        return "whether there is state for a hook is not tested"

    typestate(ck, fl, (0, frozenset(), None, 0, 0, None), step, final, f"{name_of(f)}: item at the position")
    for i in g.live():
        if i.op == "return" and i.func is f and not i.a.get("implicit"):
            o = fl.origins(i.a["val"], i)
            ck.ob(bool(o) and o <= creates | set(gets), f"{name_of(f)}: what is returned", i.loc, "what is returned is not the state at the hook's position")


def position(ck):
    ck.rule("restart", "the position restarts with each render, and no state is taken away", 3)
    P = ck.p
    f, fl, S, I = attrs(ck)
    ends = [role(P, HOOK, "affect_component_did_render"), role(P, HOOK, "affect_component_will_render")]
    good = []
    for m in ends:
        fm = flow(ck, m)
        z = {i.id for i in fm.g.live() if i.op == "setattr" and i.a["attr"] == I and is_const(i.a["val"], 0) and not isinstance(i.a["val"][1], bool)}
        bad = fm.reach_avoiding([0], lambda x: x.op == "exit", lambda x: x.id in z)
        good.append(bool(z) and bad is None)
    ck.ob(any(good), f"{name_of(ends[0])}: position restarts", ends[0].loc(), "the next render does not begin with the first state")
    inl = set()
    for m in ends + [f]:
        inl |= {m.qual} | {q for q, _ in flow(ck, m).g.inlined}
    hookmod = P.cls(HOOK).module
    for m in sorted(P.funcs.values(), key=lambda x: x.qual):
        if not any(isinstance(n, ast.Attribute) and n.attr in (S, I) for n in walk_own(m.node)):
            continue
        if m.module is not hookmod and m.module.name != HOOKS_MOD and m.module.name != "reactpy.core.layout":
            continue
        fm = flow(ck, m, inline=_none)
        on_hook = lambda ts: any(t[0] == "p" and t[2] == "self" and m.cls is not None and m.cls.qual == HOOK or "hook" in repr(t) and t[0] != "p" for t in ts)
        for i in fm.g.live():
            if i.op == "setattr" and i.a["attr"] == I and on_hook(fm.terms(i.a["obj"], i)) and m.name != "__init__":
                ck.ob(m.qual in inl, f"{name_of(m)}: position of the hook's state", i.loc, "the position changes apart from renders and hook calls")
            if i.op == "setattr" and i.a["attr"] == S and on_hook(fm.terms(i.a["obj"], i)):
                d = _origin(fm, i.a["val"], i)
                if m.name == "__init__":
                    ck.ob(True, f"{name_of(m)}: list of state", i.loc)
                else:
                    ck.ob(d is not None and d.op == "op" and d.a["fn"] == "Add" and m is f, f"{name_of(m)}: list of state", i.loc, "the state of a component is thrown away while it is mounted")
            if i.op == "call" and i.a["callee"][0] == "method" and i.a["callee"][2] in ("clear", "pop", "remove", "insert", "sort", "reverse", "__delitem__", "__setitem__") or i.op in ("delitem", "setitem"):
                ts = fm.recv_terms(i) if i.op == "call" else fm.terms(i.a["obj"], i)
                if any(t[0] == "attr" and t[2] == S and on_hook({t[1]}) for t in ts):
                    ck.ob(m.name == "affect_component_will_unmount", f"{name_of(m)}: list of state", i.loc, "the state of a component is thrown away or replaced while it is mounted")
    init = role(P, HOOK, "__init__")
    fi = flow(ck, init)
    z = [i for i in fi.g.live() if i.op == "setattr" and i.a["attr"] == I]
    ck.ob(bool(z) and all(is_const(i.a["val"], 0) for i in z), f"{name_of(init)}: first position", init.loc(), "the first render does not begin with the first state")
    s = [i for i in fi.g.live() if i.op == "setattr" and i.a["attr"] == S]
    fresh = bool(s) and all((d := _origin(fi, i.a["val"], i)) is not None and (d.op == "build" or d.op == "call" and fi.callee_key(d) == "list") for i in s)
    ck.ob(fresh, f"{name_of(init)}: own state", init.loc(), "components share the list which keeps their state")


def lazily(ck):
    ck.rule("created-once", "what a hook keeps is created only where nothing is kept yet, and is what later calls return", 3)
    P = ck.p
    _, _, S, I = attrs(ck)
    for n in ("use_state", "use_reducer", "use_ref", "use_memo"):
        f = P.func(f"{HOOKS_MOD}.{n}")
        fl = flow(ck, f)
        g = fl.g
        gets = {i.id for i in g.live() if i.op == "getitem" and any(t[0] == "attr" and t[2] == S for t in fl.terms(i.a["obj"], i))}
        adds = {i.id: i for i in method_calls(fl, "append") if any(t[0] == "attr" and t[2] == S for t in fl.recv_terms(i))}
        if not gets or not adds:
            ck.ob(False, f"{name_of(f)}: state of the component", f.loc(), "the hook keeps nothing between renders")
            continue
        made = set()
        for a in adds.values():
            for o in fl.origins(a.a["args"][-1], a):
                if g.instrs[o].op == "call" or g.instrs[o].op == "build":
                    made.add(o)
        fresh = bool(made)
        bad = None
        for m in made:
            # an object created before it is known whether one exists is created on each render
            bad = bad or fl.reach_avoiding([s for s, l in g.instrs[m].succ if l == "n"], lambda x: x.op == "exit", lambda x: x.id in adds)
        ck.ob(fresh and bad is None, f"{name_of(f)}: created when it is needed", f.loc(), "what the hook keeps is created anew on each render", lines(fl, bad) if bad else "")
        init = {("p", f.qual, x) for x in f.params() if x.startswith("initial")}
        for i in g.calls():
            if i.a["callee"][0] == "value" and fl.terms(i.a["fn"], i) & init:
                bad = fl.reach_avoiding([s for s, l in i.succ if l == "n"], lambda x: x.op == "exit", lambda x: x.id in adds)
                ck.ob(bad is None, f"{name_of(f)}: initializer", i.loc, "the initial value is computed on each render", lines(fl, bad) if bad else "")


def values(ck):
    ck.rule("setter-value", "use_state returns the value and its setter; a setter called with a function applies it to the value stored then", 4)
    P = ck.p
    f = P.func(f"{HOOKS_MOD}.use_state")
    fl = flow(ck, f)
    g = fl.g
    cls = {i.a["callee"][1] for i in g.calls() if i.a["callee"][0] == "class" and i.a["callee"][1].module.name == HOOKS_MOD}
    ck.need(len(cls) == 1, "the object which keeps a state value was not recognised")
    c = cls.pop()
    init = P.method(c, "__init__")
    ck.need(init, "the object which keeps a state value has no initializer")
    fi = flow(ck, init, {STACK + ".current_hook", SEQ, SCHED})
    gi = fi.g
    par = [("p", init.qual, x) for x in init.params() if x.startswith("initial")] or [("p", init.qual, x) for x in init.params() if x != "self"]
    sets = {i.id: i for i in gi.live() if i.op == "setattr" and i.a["obj"] is not None and any(t == ("p", init.qual, "self") for t in fi.terms(i.a["obj"], i))}
    vattr = set()
    for i in sets.values():
        o = fi.terms(i.a["val"], i)
        if any(t in par or t[0] == "call" and _calls_param(fi, t, par) for t in o):
            vattr.add(i.a["attr"])
    if len(vattr) != 1:
        ck.ob(False, f"{name_of(init)}: initial value", init.loc(), "the initial value is not kept")
        return
    V = vattr.pop()

    def cal(fx, i, lab, env, who):
        kind, terms, pol, op, at = decode(fx, i, env)
        d = fx.g.deftmp.get(op[1]) if op is not None and op[0] == "t" else None
        if d is not None and d.op == "call" and d.a["callee"] == ("builtin", "callable") and fx.terms(d.a["args"][0], d) & set(who):
            return (lab == "t") == pol
        return None

    def applied(fx, who, attr, construct, arity, arg_ok, fnode):
        """attr is set to who() if who is callable and to who otherwise"""
        gx = fx.g
        calls = {i.id: i for i in gx.calls() if i.a["callee"][0] == "value" and fx.terms(i.a["fn"], i) & set(who)}
        st_ = {i.id: i for i in gx.live() if i.op == "setattr" and i.a["attr"] == attr}

        def leaf(op, at):
            if op[0] == "p":
                return "plain" if op in who else "?"
            if op[0] == "t":
                return "result" if gx.deftmp[op[1]].id in calls else "?"
            return "?"

        def step(i, lab, st, env):
            c, called, stored, m = st
            if i.op == "branch" and lab in ("t", "f"):
                v = cal(fx, i, lab, env, who)
                if v is not None:
                    if c is not None and c != v:
                        return []
                    c = v
            m = bind(m, i, leaf, lab)
            if i.id in calls:
                called = True if lab == "n" else called
            if i.id in st_ and lab == "n":
                stored = pathval(m, i.a["val"], i, leaf) or "?"
            return [(c, called, stored, m)]

        def final(kind, st):
            c, called, stored, _ = st
            if kind != "exit" or stored is None:
                return True
            if stored == "?":
                return "the value which is stored is neither the one given nor the result of the function given"
            if c is None:
                return "whether a value or a function is given is not tested"
            if c and stored != "result":
                return "a function is stored instead of its result"
            if not c and stored != "plain":
                return "a value which is no function is called"
            return True

        typestate(ck, fx, (None, False, None, frozenset()), step, final, construct)
        ck.ob(bool(st_), construct + ", stored", fnode.loc(), "the value is not stored")
        for i in calls.values():
            ck.ob(len(i.a["args"]) == arity and not i.a["kw"] and arg_ok(fx, i), construct + ", argument", i.loc, "the function is not given the value stored at the time of the call")

    applied(fi, par, V, f"{name_of(init)}: initial value", 0, lambda fx, i: True, init)
    # the setter
    cand = [m for m in P.funcs.values() if (m.parent is init or m.cls is c and m is not init) and any(isinstance(n, ast.Attribute) and n.attr == "schedule_render" for n in walk_own(m.node))]
    if not cand:
        ck.need(False, "the setter of a state was not recognised")
    for m in cand:
        fm = flow(ck, m, {SEQ, SCHED, STACK + ".current_hook"})
        gm = fm.g
        who = [("p", m.qual, x) for x in m.params() if x != "self"][:1]

        def now(fx, i):
            o = fx.origins(i.a["args"][0], i)
            return bool(o) and all(gm.instrs[x].op == "getattr" and gm.instrs[x].a["attr"] == V for x in o)

        applied(fm, who, V, f"{name_of(m)}: new value", 1, now, m)
    # what use_state returns
    for r in g.live():
        if r.op != "return" or r.func is not f or r.a.get("implicit"):
            continue
        d = _origin(fl, r.a["val"], r)
        items = None
        if d is not None and d.op == "call" and d.a["callee"][0] == "class":
            flds = list(d.a["callee"][1].fields)
            items = list(d.a["args"]) + [dict(d.a["kw"]).get(x) for x in flds[len(d.a["args"]):]]
        elif d is not None and d.op == "build" and d.a["kind"] == "tuple":
            items = d.a["items"]
        ok = items is not None and len(items) == 2
        if ok:
            v = fl.terms(items[0], d)
            ok = bool(v) and all(t[0] == "attr" and t[2] == V for t in v)
            s = fl.terms(items[1], d)
            ok = ok and bool(s) and all(t[0] == "attr" and t[2] != V or t[0] == "fn" for t in s)
            src = fl.terms(items[0], d) | s
            ok = ok and all(_kept(fl, t, c, S_of(ck)) for t in src if t[0] == "attr")
        ck.ob(ok, f"{name_of(f)}: value and setter", r.loc, "use_state does not return the current value and its setter")


SEQ = HOOKS_MOD + ".strictly_equal"
SCHED = HOOK + ".schedule_render"


def S_of(ck):
    return attrs(ck)[2]


def _kept(fl, t, c, S):
    b = t[1]
    if b[0] == "call":
        d = fl.g.instrs[b[2]]
        return d.a["callee"] == ("class", c)
    return b[0] == "item" and b[1][0] == "attr" and b[1][2] == S


def _calls_param(fl, t, par):
    d = fl.g.instrs[t[2]]
    return d.op == "call" and d.a["callee"][0] == "value" and bool(fl.terms(d.a["fn"], d) & set(par))


def reducer(ck):
    ck.rule("reducer", "a reducer is applied to the action and to the state as it is when the action is dispatched", 1)
    P = ck.p
    f = P.func(f"{HOOKS_MOD}.use_reducer")
    # functions in which the reducer is called
    fns = [f] + [g for g in P.funcs.values() if g.module.name == HOOKS_MOD and any(isinstance(n, ast.Name) and n.id == "reducer" for n in ast.walk(g.node)) and g is not f]
    n = 0
    for o in fns:
        if o.parent is not None:
            continue
        for lam in ast.walk(o.node):
            if not isinstance(lam, (ast.Lambda, ast.FunctionDef)) or lam is o.node:
                continue
            body = [lam.body] if isinstance(lam, ast.Lambda) else lam.body
            direct = [c for b in body for c in _own_calls(b) if isinstance(c.func, ast.Name) and c.func.id == "reducer"]
            ps = [a.arg for a in lam.args.args]
            for c in direct:
                n += 1
                # the enclosing functional update takes the newest state
                ok = len(c.args) == 2 and isinstance(c.args[0], ast.Name) and isinstance(c.args[1], ast.Name) and ps and c.args[0].id == ps[0] and c.args[1].id not in ps[:1]
                kept = False
                if isinstance(lam, ast.Lambda):
                    kept = lam.body is c
                else:
                    rets = [x for x in ast.walk(lam) if isinstance(x, ast.Return)]
                    names = {t.id for x in lam.body if isinstance(x, ast.Assign) and x.value is c for t in x.targets if isinstance(t, ast.Name)}
                    kept = bool(rets) and all(x.value is c or isinstance(x.value, ast.Name) and x.value.id in names for x in rets)
                ck.ob(ok, f"{name_of(o)}: arguments of the reducer", f"{o.module.rel}:{c.lineno}", "the reducer is not applied to the newest state")
                ck.ob(kept, f"{name_of(o)}: result of the reducer", f"{o.module.rel}:{c.lineno}", "the result of the reducer does not become the state")
    if not n:
        ck.ob(False, f"{name_of(f)}: arguments of the reducer", f.loc(), "the reducer is not applied to the newest state by a functional update")


def _own_calls(node):
    todo = [node]
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Call):
            yield x
        if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))


def reference(ck):
    ck.rule("ref", "a ref is created with its initial value, and is the same object on later renders", 1)
    P = ck.p
    f = P.func(f"{HOOKS_MOD}.use_ref")
    fl = flow(ck, f)
    g = fl.g
    mk = [i for i in g.calls() if i.a["callee"][0] == "class" and i.a["callee"][1].name == "Ref"]
    ck.ob(bool(mk) and all(i.a["args"] and ("p", f.qual, f.params()[0]) in fl.terms(i.a["args"][0], i) for i in mk), f"{name_of(f)}: initial value", f.loc(), "a ref does not begin with its initial value")
    S = S_of(ck)
    for r in g.live():
        if r.op == "return" and r.func is f and not r.a.get("implicit"):
            ok = all(g.instrs[o].op == "getitem" or g.instrs[o] in mk for o in fl.origins(r.a["val"], r))
            ck.ob(ok and bool(fl.origins(r.a["val"], r)), f"{name_of(f)}: same object", r.loc, "a ref is another object on each render")


def histories_of_states(ck):
    hooked.decide(ck, "histories", "over histories of renders and updates every state, reducer and ref keeps its place, value and setter, and a change requests a render", histories.STATES, "reactpy.core.hooks.use_state")


# decided by interpretation of whole histories as well
SPARE = {"position": "histories", "lazily": "histories", "values": "histories", "reducer": "histories", "reference": "histories"}
RULES = [automaton, position, lazily, values, reducer, reference, histories_of_states]
