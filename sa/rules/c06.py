"""C06  No state change of a mounted component is lost."""
from .. import tree
from ..lib import *
from .c01 import DID, OPAQUE, WILL
from .c04 import decode
from .c05 import _none

EXPLANATION = """
The way of a state change to a render is followed link by link: the state setter stores the
value before it schedules; scheduling is suppressed only while a render that has not begun is
pending (the flag is set before the layout is told, reset if that fails, and cleared whenever a
render begins); the layout turns each request into a render task or a queue entry on every
path unless the component is not registered anymore; from another thread only thread-safe calls
are made; the queue forgets a value when it hands it out; the state a scheduled render will
look up is registered before the render begins; and a pending render is given up only before
another one of that component begins.
"""
ASSUMPTIONS = ["the event loop runs callbacks and tasks handed to it"]

SCHED = HOOK + ".schedule_render"


def setter(ck):
    ck.rule("setter", "a state setter stores the new value, then schedules a render of the component which created the state, unless the value is unchanged", 1)
    P = ck.p
    n = 0
    for f in [x for x in P.funcs.values() if x.module.name == "reactpy.core.hooks"]:
        if not any(isinstance(m, ast.Attribute) and m.attr == "schedule_render" for m in walk_own(f.node)):
            continue
        fl = flow(ck, f, OPAQUE | {"reactpy.core.hooks.strictly_equal", STACK + ".current_hook"})
        g = fl.g
        sch = {i.id: i for i in g.calls() if fl.callee_key(i).endswith("schedule_render")}
        if not sch:
            continue
        n += 1
        store = {}
        for i in g.live():
            if i.op == "setattr" and i.a["attr"] not in ("dispatch",):
                store[i.id] = i
        par = [p for p in f.params() if p != "self"]
        vattrs = {i.a["attr"] for i in store.values()}

        def unchanged_edge(i, lab):
            kind, terms, pol, op, at = decode(fl, i, {})
            dep = fl.depends(op, at)
            reads = {g.instrs[d].a["attr"] for d in dep if g.instrs[d].op == "getattr"}
            d = g.deftmp.get(op[1]) if op[0] == "t" else None
            if d is None or not reads & vattrs:
                return False
            ps = {o for x in dep for o in operands(g.instrs[x])}
            if not any(o[0] == "p" and o[2] in par or o[0] == "v" for o in ps):
                return False
            if d.op == "call":
                return (lab == "t") == pol  # equal(new, old)
            if d.op == "op" and d.a["fn"] in ("Is", "Eq", "IsNot", "NotEq"):
                return (lab == "t") == (pol == (d.a["fn"] in ("Is", "Eq")))
            return False

        def step(i, lab, st, env):
            if i.op == "branch" and lab in ("t", "f") and unchanged_edge(i, lab):
                return ["same"] if st == "0" else [st]
            if i.id in store and lab == "n":
                return ["S"] if st in ("0", "S") else ["late" if st == "done" else st]
            if i.id in sch:
                return ["done" if st in ("S", "done") else "early"]
            return [st]

        def final(kind, st):
            if kind != "exit":
                return True
            return {"same": True, "done": True, "S": "a new value is stored without scheduling a render", "0": "a change is neither stored nor rendered",
                    "early": "the render is scheduled before the value is stored", "late": "the value changes after the render was scheduled"}[st]

        typestate(ck, fl, "0", step, final, f"{name_of(f)}: store and schedule")
        for i in sch.values():
            r = fl.recv_terms(i)
            good = bool(r) and not any_term(r, lambda t: t[0] == "call" and t[1].endswith("current_hook") and g.instrs[t[2]].func is f)
            ck.ob(good, f"{name_of(f)}: which component is rendered", i.loc, "the setter schedules whichever component is current when it is called")
    ck.need(n, "state setters")


def flag(ck):
    ck.rule("flag", "scheduling is suppressed only while a scheduled render has not begun", 2)
    P = ck.p
    f = role(P, HOOK, "schedule_render")
    fl = flow(ck, f)
    g = fl.g
    F = {i.a["attr"] for i in g.live() if i.op == "setattr" and is_const(i.a["val"], True)}
    cb = {i.id for i in g.calls() if i.a["callee"][0] in ("value", "method") and any(t[0] == "attr" and t[1] == ("p", f.qual, "self") for t in fl.terms(i.a["fn"], i))}
    ck.need(cb, "schedule_render calls no callback")
    sets = {i.id: i for i in g.live() if i.op == "setattr" and i.a["attr"] in F}

    def step(i, lab, st, env):
        fset, ph = st
        if i.id in sets and lab == "n":
            v = const(sets[i.id].a["val"])
            return [(bool(v) if v in (True, False) else "?", ph if ph != "ok" or v is not True else "lateset")]
        if i.op == "branch" and lab in ("t", "f") and ph == "0":
            kind, terms, pol, *_ = decode(fl, i, env)
            if kind == "truthy" and any(t[0] == "attr" and t[2] in F for t in terms):
                if (lab == "t") == pol:
                    return [(fset, "pending")]
        if i.id in cb:
            if lab == "n":
                return [(fset, "ok" if fset is True or not F else "unset")]
            return [(fset, "failed")]
        return [(fset, ph)]

    def final(kind, st):
        fset, ph = st
        if ph == "0" and kind == "exit":
            return "a request to render is dropped although none is pending"
        if ph == "unset":
            return True if not F else "the flag is not set before the layout is told: a render which begins meanwhile clears it too early"
        if ph == "lateset":
            return "the flag is set after the layout was told: if the render began meanwhile, later requests are dropped forever"
        if ph == "failed" and fset is True:
            return "after scheduling failed all later requests are dropped"
        return True

    typestate(ck, fl, (False, "0"), step, final, f"{name_of(f)}: pending flag")
    w = role(P, HOOK, "affect_component_will_render")
    fw = flow(ck, w)
    clr = {i.id for i in fw.g.live() if i.op == "setattr" and i.a["attr"] in F and is_const(i.a["val"], False)}
    if F:
        typestate(ck, fw, "0", lambda i, lab, st, env: ["1"] if i.id in clr and lab == "n" else [st], lambda kind, st: not (kind == "exit" and st == "0"),
                  f"{name_of(w)}: pending flag", "a render begins without clearing the flag: changes made from now on are dropped")
        for m in P.cls(HOOK).methods.values():
            if m is f or m.qual in {q for q, _ in g.inlined}:
                continue
            fm = flow(ck, m, inline=_none)
            for i in fm.g.live():
                if i.op == "setattr" and i.a["attr"] in F:
                    ck.ob(is_const(i.a["val"], False), f"{name_of(m)}: pending flag", i.loc, "the flag which suppresses scheduling is set outside of scheduling")


def schedulers(ck):
    """Functions of the layout which turn a request into a render task or a queue entry."""
    P = ck.p
    g = call_graph(P, "reactpy.core.layout")
    R = {q: reach_set(g, q) | {q} for q in g}
    will = {q for q in g if any(isinstance(n, ast.Attribute) and n.attr == "affect_component_will_render" for n in ast.walk(P.funcs[q].node))}
    out = []
    for f in class_roots(P, LAYOUT):
        if f.is_async or f.cls is None or f.cls.qual != LAYOUT:
            continue
        fl = flow(ck, f, OPAQUE)
        made = {}
        for i in fl.g.calls():
            if fl.callee_key(i).rsplit(".", 1)[-1] in ("create_task", "ensure_future"):
                for a in i.a["args"]:
                    for t in fl.terms(a, i):
                        if t[0] == "call" and t[1] in R and R[t[1]] & will:
                            made[i.id] = (i, fl.g.instrs[t[2]])
        if made:
            out.append((f, fl, made))
    ck.need(out, "nothing turns requests into render tasks")
    return out


def only_loop_callback(P, f):
    """Is f used as a value only where it is handed to the event loop?"""
    uses = 0
    for h in [x for x in P.funcs.values() if x.module is f.module]:
        nodes = [n for n in ast.walk(h.node) if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load) and resolve_func(P, h, n) is f]
        handed = {id(a) for c in ast.walk(h.node) if isinstance(c, ast.Call) and (dotted(c.func) or "").rsplit(".", 1)[-1] in ("call_soon_threadsafe", "call_soon", "call_later", "add_done_callback") for a in c.args}
        called = {id(c.func) for c in ast.walk(h.node) if isinstance(c, ast.Call)}
        for n in nodes:
            if id(n) in called:
                continue
            uses += 1
            if id(n) not in handed:
                return False
    return uses > 0


def running_test(fl, b, lab):
    """Does this edge say that the current thread runs the layout's event loop?"""
    kind, terms, pol, op, at = decode(fl, b, {})
    d = fl.g.deftmp.get(op[1]) if op[0] == "t" else None
    if d is None:
        return False
    dep = fl.depends(op, at)
    calls = {fl.callee_key(fl.g.instrs[x]).rsplit(".", 1)[-1] for x in dep if fl.g.instrs[x].op == "call"}
    if not calls & {"get_running_loop", "_get_running_loop", "get_ident", "current_thread", "get_event_loop", "get_native_id"}:
        return False
    if d.op == "op" and d.a["fn"] in ("Is", "Eq", "IsNot", "NotEq"):
        return (lab == "t") == (pol == (d.a["fn"] in ("Is", "Eq")))
    if d.op == "call":
        return (lab == "t") == pol
    return False


def closing_flags(P):
    """{attribute: value it only gets when the layout is closed}"""
    out, stores = {}, {}
    for m in P.cls(LAYOUT).methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                for x in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                        v = n.value.value if isinstance(n.value, ast.Constant) else None
                        stores.setdefault(x.attr, set()).add((m.name, v if isinstance(v, bool) else "?"))
    for a, ss in stores.items():
        at = {v for n, v in ss if n == "__aexit__"}
        if len(at) == 1 and "?" not in {v for _, v in ss} and not {v for n, v in ss if n != "__aexit__"} & at:
            out[a] = at.pop()
    return out


def schedule(ck):
    ck.rule("schedule", "every request to render becomes a render task or a queue entry unless the component is unmounted or the layout closing; other threads only make thread-safe calls", 2)
    P = ck.p
    over = closing_flags(P)
    for f, fl, made in schedulers(ck):
        g = fl.g
        safe = {i.id for i in g.calls() if fl.callee_key(i).rsplit(".", 1)[-1] in ("call_soon_threadsafe", "run_coroutine_threadsafe")}
        regs = {}
        for i in g.live():
            if i.op == "getitem" and self_attr_names(fl, i.a["obj"], i):
                regs[i.id] = self_attr_names(fl, i.a["obj"], i)
            elif i.op == "call" and fl.callee_key(i) in (".get", ".pop") and i.a["args"] and self_attr_names(fl, fl.recv(i), i):
                regs[i.id] = self_attr_names(fl, fl.recv(i), i)
        stargs = set()
        for t, c in made.values():
            for a in c.a["args"]:
                stargs |= fl.depends(a, c)
        regs = {k: v for k, v in regs.items() if k in stargs}

        def step(i, lab, st, env):
            if i.id in regs and i.op == "getitem" and lab == "e":
                return ["absent?"]
            if st == "absent?" and i.op == "catch":
                return ["absent"]
            if i.op == "branch" and lab in ("t", "f"):
                kind, terms, pol, op, at = decode(fl, i, env)
                if kind in ("none", "truthy") and any(t[0] == "call" and t[2] in regs for t in terms):
                    if (lab == "t") == (pol if kind == "none" else not pol):
                        return ["absent"]
                names = self_attr_names(fl, op, at) if kind == "truthy" else set()
                if len(names) == 1 and over.get(min(names)) is ((lab == "t") == pol):
                    return ["absent"]  # the layout is being closed
                d = g.deftmp.get(op[1]) if op[0] == "t" else None
                if d is not None and d.op == "op" and d.a["fn"] in ("In", "NotIn"):
                    isin = ((lab == "t") == pol) == (d.a["fn"] == "In")
                    own = any(self_attr_names(fl, d.a["args"][1], d) & v for v in regs.values())
                    if own and not isin:
                        return ["absent"]
                    if not own and isin and i.func is not f:
                        return ["queued"]  # the queue holds the request already
            if i.id in safe and lab == "n":
                return ["sent"]
            if i.id in made and lab == "n":
                return ["made"]
            return [st]

        typestate(ck, fl, "0", step, lambda kind, st: not (kind == "exit" and st in ("0", "absent?")), f"{name_of(f)}: request to render", "a request to render is dropped on this path")
        # threads
        if only_loop_callback(P, f):
            continue
        unsafe = set(made) | {i.id for i in g.calls() if fl.callee_key(i) in (".put_nowait", ".call_soon")} | {i.id for i in g.calls() if fl.callee_key(i).rsplit(".", 1)[-1] in ("create_task", "ensure_future")}
        good = {(b.id, l) for b in g.live() if b.op == "branch" for l in ("t", "f") if running_test(fl, b, l)}
        bad = fl.reach_avoiding([0], lambda x: x.id in unsafe, lambda x: False, lambda a, l, b: (a.id, l) not in good)
        ck.ob(bad is None, f"{name_of(f)}: calls from other threads", f.loc(), "a state change in another thread creates a task outside of the event loop", lines(fl, bad) if bad else "")
        # the same request
        for t, c in made.values():
            ok = any(o[0] == "p" and o[2] != "self" or o[0] == "v" for x in stargs for o in operands(g.instrs[x]))
            ck.ob(ok, f"{name_of(f)}: which component is rendered", c.loc, "the render task is not for the component which was requested")
        for i in g.live():
            if i.id in safe and i.func is f:
                target = i.a["args"][0] if i.a["args"] else None
                ck.ob(len(i.a["args"]) >= 2 or target is not None and target[0] == "l", f"{name_of(f)}: request passed to the event loop", i.loc, "the request passed to the event loop lost its component")


def queue(ck):
    ck.rule("queue", "a queued request is handed out once, and can be queued again from then on", 1)
    P = ck.p
    n = 0
    for c in [x for x in P.classes.values() if x.module.name == "reactpy.core.layout" and "put" in x.methods and "get" in x.methods]:
        put, get = c.methods["put"], c.methods["get"]
        fp = flow(ck, put)
        pend = set()
        for b in fp.g.live():
            if b.op == "branch":
                kind, terms, pol, op, at = decode(fp, b, {})
                d = fp.g.deftmp.get(op[1]) if op[0] == "t" else None
                if d is not None and d.op == "op" and d.a["fn"] in ("In", "NotIn"):
                    pend |= self_attr_names(fp, d.a["args"][1], d)
        send = {i.id: i for i in fp.g.calls() if fp.callee_key(i).rsplit(".", 1)[-1] == "call_soon_threadsafe"}
        n += 1

        def step(i, lab, st, env):
            if i.id in send:
                return ["sent"] if lab == "n" else [st]
            if i.op == "branch" and lab in ("t", "f") and st == "0":
                kind, terms, pol, op, at = decode(fp, i, env)
                d = fp.g.deftmp.get(op[1]) if op[0] == "t" else None
                if d is not None and d.op == "op" and d.a["fn"] in ("In", "NotIn") and self_attr_names(fp, d.a["args"][1], d) & pend:
                    if ((lab == "t") == pol) == (d.a["fn"] == "In"):
                        return ["pending"]
            return [st]

        typestate(ck, fp, "0", step, lambda kind, st: not (kind == "exit" and st == "0"), f"{name_of(put)}: request", "a request is not put on the queue")
        # what was scheduled puts the value
        for i in send.values():
            tgt = i.a["args"][0] if i.a["args"] else None
            fn = _target(fp, tgt, i)
            ck.need(fn is not None, "callback which puts a request on the queue")
            ff = flow(ck, fn)
            coros = []
            puts = [x for x in ff.g.calls() if fn_name(ff, x) in ("put_nowait", "append")]
            for x in ff.g.calls():
                if fn_name(ff, x) in ("create_task", "ensure_future"):
                    for a in x.a["args"]:
                        for t in ff.terms(a, x):
                            if t[0] == "call" and t[1] in P.funcs:
                                coros.append((P.funcs[t[1]], ff.g.instrs[t[2]]))
            ck.ob(bool(puts or coros), f"{name_of(fn)}: request", fn.loc(), "a request is not put on the queue")
            for co, call in coros:
                fc = flow(ck, co)
                pw = set()
                for x in method_calls(fc, "put"):
                    for w in awaited_by(fc, x):
                        pw.add(w.id)
                pw |= {x.id for x in method_calls(fc, "put_nowait")}
                rel = {x.id for x in method_calls(fc, "discard", "remove") if self_attr_names(fc, fc.recv(x), x) & pend}

                def step2(i, lab, st, env):
                    if i.id in pw and lab == "n":
                        return ["put"]
                    if i.id in rel and lab == "n":
                        return ["released" if st == "0" else "lost" if st == "put" else st]
                    return [st]

                typestate(ck, fc, "0", step2, lambda kind, st: (kind != "exit" or st == "put" or st == "released") if st != "0" or kind == "exit" else not pend,
                          f"{name_of(co)}: request", "a request that could not be put on the queue still counts as pending")
        if pend:
            fg = flow(ck, get)
            got = set()
            for x in method_calls(fg, "get"):
                for w in awaited_by(fg, x):
                    got.add(w.id)
            got |= {x.id for x in method_calls(fg, "get_nowait")}
            ck.need(got, "queue.get")
            rem = {x.id: x for x in method_calls(fg, "discard", "remove", "clear", "difference_update") if self_attr_names(fg, fg.recv(x), x) & pend}

            def step3(i, lab, st, env):
                if i.id in got and lab == "n":
                    return ["G"]
                if i.id in rem and lab == "n" and st == "G":
                    return ["ok"]
                if st == "G" and i.op in ("await",):
                    return ["wait"]
                return [st]

            typestate(ck, fg, "0", step3, lambda kind, st: not (kind == "exit" and st in ("G", "wait")), f"{name_of(get)}: pending requests",
                      "a request which was handed out still counts as pending: later ones are dropped")
    ck.need(n, "queue of render requests")


def fn_name(fl, i):
    return fl.callee_key(i).rsplit(".", 1)[-1]


def _target(fl, op, at):
    for t in fl.terms(op, at):
        if t[0] == "fn":
            return fl.g.entry_func.module and None
        if t[0] == "attr" and t[1][0] == "p" and t[1][2] == "self":
            c = fl.g.entry_func.cls
            if c is not None and t[2] in c.methods:
                return c.methods[t[2]]
    if op[0] == "f":
        return op[1]
    return None


def registered(ck):
    ck.rule("registered", "the state which later requests look up is registered before its render begins; a pending render is given up only before that", 2)
    P = ck.p
    f, fl = activation(ck, ren_opaque(ck, OPAQUE))
    g = fl.g
    will = completion(fl, {WILL})
    looked = set()
    for s, fs, made in schedulers(ck):
        for i in fs.g.live():
            if i.op == "getitem":
                looked |= self_attr_names(fs, i.a["obj"], i)
            elif i.op == "call" and fs.callee_key(i) == ".get":
                looked |= self_attr_names(fs, fs.recv(i), i)
    roots = set()
    for c in will.values():
        for t in fl.recv_terms(c):
            roots.add(root(t))
    sets = {i.id for i in g.live() if i.op == "setitem" and self_attr_names(fl, i.a["obj"], i) & looked and fl.terms(i.a["val"], i) & roots}
    began = {c.id for c in will.values()}
    bad = fl.reach_avoiding([0], lambda x: x.id in began, lambda x: x.id in sets)
    ck.ob(bad is None, f"{name_of(f)}: registration", f.loc(), "a render begins before the state is registered under which later requests find it", lines(fl, bad) if bad else "")
    for n in sets:
        k = fl.terms(g.instrs[n].a["key"], g.instrs[n])
        ck.ob(any_term(k, lambda t: t[0] == "attr" and t[2] == "id") or any(t[0] == "call" for t in k), f"{name_of(f)}: key of the registration", g.instrs[n].loc, "the state is registered under another key than its identity")
    # superseding
    canc = {i.id: i for i in g.calls() if fl.callee_key(i) == ".cancel"}
    for i in canc.values():
        own = set()
        for b in g.live():
            if b.op == "branch":
                kind, terms, pol, op, at = decode(fl, b, {})
                d = g.deftmp.get(op[1]) if op[0] == "t" else None
                if d is not None and d.op == "op" and d.a["fn"] in ("Is", "IsNot", "Eq", "NotEq") and any_term(fl.terms(d.a["args"][0], d) | fl.terms(d.a["args"][1], d), lambda t: t[0] == "call" and t[1].endswith("current_task")):
                    own.add((b.id, "f" if pol == (d.a["fn"] in ("Is", "Eq")) else "t"))
        bad = fl.reach_avoiding([0], lambda x, i=i: x.id == i.id, lambda x: False, lambda a, l, b: (a.id, l) not in own)
        ck.ob(bad is None, f"{name_of(i.func)}: task which is cancelled", i.loc, "a render may cancel itself", lines(fl, bad) if bad else "")
        comp = set(will)
        bad = fl.reach_avoiding([s for w in comp for s, l in g.instrs[w].succ if l == "n"], lambda x, i=i: x.id == i.id, lambda x: False)
        ck.ob(bad is None, f"{name_of(i.func)}: when a pending render is given up", i.loc, "a render requested after the current one began may be cancelled", lines(fl, bad) if bad else "")


def requests(ck):
    tree.decide(ck, "requests", "however renders are requested and taken, each requested one is given once, in that order; requests merge only until it is taken", "request")


RULES = [setter, flag, schedule, queue, registered, requests]
