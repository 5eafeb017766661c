"""C08  Events reach the handler of their target, one after another, and failures stay contained."""
from .. import tree
from ..lib import *
from .c01 import OPAQUE
from .c03 import child_lookups, made_of, old_param, parts_of, rec_call
from .c04 import _body, cancelled_edge, decode
from .c05 import creators

EXPLANATION = """
deliver(): on every path the event is put, once and waited for, into the queue of its target;
a consumer task is started exactly for a queue which is newly stored under its target. The
consumer is followed per event with an automaton: looked up under its target after the event
was taken, called at most once and awaited in place, otherwise only given up if no handler was
found; no exception of handler or payload leaves the loop, and a failure is logged. Registration:
for each handler of an element the layout's table, the element's targets, and the model get the
same target, which is the user's or made of the element's key path and the event; handlers of
the element's earlier render are removed without touching those just registered.
"""
ASSUMPTIONS = ["asyncio.Queue is first-in first-out", "handler functions are awaitable wrappers made by EventHandler"]
H = "_event_handlers"


def last(fl, i):
    return fl.callee_key(i).rsplit(".", 1)[-1]


def consumer(ck):
    """(creating function, [task creation calls], consumer function)"""
    P = ck.p
    f = role(P, LAYOUT, "deliver")
    fl = flow(ck, f, OPAQUE, raise_items=False)
    out = {}
    cons = None
    for i in fl.g.calls():
        if last(fl, i) in ("create_task", "ensure_future") and i.a["args"]:
            for t in fl.terms(i.a["args"][0], i):
                if t[0] == "call" and t[1] in P.funcs:
                    out[i.id] = (i, fl.g.instrs[t[2]])
                    cons = P.funcs[t[1]]
    ck.need(cons, "deliver() starts no consumer")
    return f, fl, out, cons


def is_target(t, ev):
    """event['target'] (or .get('target'))"""
    return t == ("item", ev, ("k", "target"))


def deliver(ck):
    ck.rule("deliver", "an event is put into the queue of its target, which has exactly one consumer", 3)
    f, fl, tasks, cons = consumer(ck)
    g = fl.g
    ev = ("p", f.qual, [p for p in f.params() if p != "self"][0])

    def tgt(op, at):
        ts = fl.terms(op, at)
        return bool(ts) and all(is_target(t, ev) for t in ts)

    maps = set()
    newq = {}
    for i in g.live():
        if i.op == "setitem" and self_attr_names(fl, i.a["obj"], i) and any(t[0] == "call" and t[1].endswith("Queue") for t in fl.terms(i.a["val"], i)):
            ck.ob(tgt(i.a["key"], i), f"{name_of(f)}: key of a queue", i.loc, "the queue is not kept under the event's target")
            newq[i.id] = i
            maps |= self_attr_names(fl, i.a["obj"], i)
    ck.need(newq, "deliver() keeps no queue")

    def queue_of_target(op, at):
        ts = fl.terms(op, at)
        return bool(ts) and all(
            t[0] == "item" and attr_of(t[1]) in maps and is_target(t[2], ev)
            or t[0] == "call" and t[1] in (".get", ".setdefault") and fl.terms(g.instrs[t[2]].a["args"][0], g.instrs[t[2]]) and tgt(g.instrs[t[2]].a["args"][0], g.instrs[t[2]])
            or t[0] == "call" and t[1].endswith("Queue")
            or t == ("k", None)
            for t in ts
        )

    puts = {}
    for i in g.calls():
        if last(fl, i) == "put" and i.a["args"] and ev in fl.terms(i.a["args"][0], i):
            ck.ob(queue_of_target(fl.recv(i), i), f"{name_of(f)}: queue of the event", i.loc, "the event is put into a queue which is not that of its target")
            for w in awaited_by(fl, i):
                puts[w.id] = i
    if not puts:
        ck.ob(False, f"{name_of(f)}: event is queued", f.loc(), "the event is not put into a queue and waited for")
        return
    for i, c in tasks.values():
        qs = [a for a in list(c.a["args"]) + [v for _, v in c.a["kw"]] if queue_of_target(a, c)]
        tg = [a for a in list(c.a["args"]) + [v for _, v in c.a["kw"]] if tgt(a, c)]
        ck.ob(bool(tg) or bool(qs), f"{name_of(f)}: consumer of a queue", i.loc, "the consumer does not serve the queue of its target")

    def absent(i, lab, env):
        kind, terms, pol, op, at = decode(fl, i, env)
        d = g.deftmp.get(op[1]) if op[0] == "t" else None
        if d is not None and d.op == "op" and d.a["fn"] in ("In", "NotIn") and tgt(d.a["args"][0], d) and self_attr_names(fl, d.a["args"][1], d) & maps:
            return ((lab == "t") == pol) == (d.a["fn"] == "NotIn")
        if kind in ("none", "truthy") and terms and all(t[0] == "call" and t[1] == ".get" and self_attr_names(fl, fl.recv(g.instrs[t[2]]), g.instrs[t[2]]) & maps or t == ("k", None) for t in terms):
            return (lab == "t") == (pol if kind == "none" else not pol)
        return None

    def step(i, lab, st, env):
        ab, q, c, p = st
        if i.op == "branch" and lab in ("t", "f"):
            a = absent(i, lab, env)
            if a is not None:
                if ab is not None and ab != a and not q:
                    return []
                if not q:
                    ab = a
        if i.op == "catch" and any(t and t.rsplit(".", 1)[-1] in ("KeyError", "LookupError") for t in i.a["types"]):
            ab = True
        if i.id in newq:
            q = min(2, q + 1) if ab else 9
        if i.id in tasks and lab == "n":
            c = min(2, c + 1)
        if i.id in puts and lab == "n":
            p = min(2, p + 1)
        return [(ab, q, c, p)]

    def final(kind, st):
        ab, q, c, p = st
        if q == 9:
            return "the queue of a target may be replaced while it is in use"
        if q != c and kind == "exit":
            return "a queue does not have exactly one consumer"
        if kind == "exit" and p != 1:
            return "the event is dropped" if p == 0 else "the event is queued twice"
        return True

    typestate(ck, fl, (None, 0, 0, 0), step, final, f"{name_of(f)}: an event")


def process(ck):
    ck.rule("process", "each event is handed once to the handler of its target, in order; failures are logged and stay contained", 3)
    f, _, tasks, cons = consumer(ck)
    fl = flow(ck, cons, OPAQUE, raise_items=True)
    g = fl.g
    gets = {}
    for i in g.calls():
        if last(fl, i) in ("get", "get_nowait") and not i.a["args"]:
            for w in awaited_by(fl, i):
                gets[w.id] = i
    ck.need(gets, "the consumer takes no event")
    evt = {t for w in gets for t in fl.term_of_instr(g.instrs[w])}
    params = {("p", cons.qual, p) for p in cons.params() if p != "self"}

    def tgt(op, at):
        ts = fl.terms(op, at)
        return bool(ts) and all(t in params or t[0] == "item" and t[1] in evt and t[2] == ("k", "target") for t in ts)

    looks = {}
    for i in g.live():
        k = None
        if i.op == "call" and last(fl, i) in ("get", "pop") and i.a["args"] and H in self_attr_names(fl, fl.recv(i), i):
            k = i.a["args"][0]
        elif i.op == "getitem" and H in self_attr_names(fl, i.a["obj"], i):
            k = i.a["key"]
        if k is not None:
            ck.ob(tgt(k, i), f"{name_of(cons)}: handler lookup", i.loc, "the handler is looked up under something other than the event's target")
            looks[i.id] = i
    if not looks:
        ck.ob(False, f"{name_of(cons)}: handler lookup", cons.loc(), "the handler of an event is not looked up when the event is processed")
        return
    lterms = set()
    for i in looks.values():
        lterms |= fl.term_of_instr(i)
    calls = {}
    for i in g.calls():
        fo = i.a["fn"]
        d = g.deftmp.get(fo[1]) if fo[0] == "t" else None
        if d is not None and d.op == "getattr" and d.a["attr"] == "function" or fo[0] in ("v",) and any(t[0] == "attr" and t[2] == "function" for t in fl.terms(fo, i)):
            base = {t[1] for t in fl.terms(fo, i) if t[0] == "attr"}
            ck.ob(base <= lterms | {("k", None)} and bool(base & lterms), f"{name_of(cons)}: handler which is called", i.loc, "what is called is not the handler which was looked up")
            aw = awaited_by(fl, i)
            ck.ob(bool(aw), f"{name_of(cons)}: handler is waited for", i.loc, "the handler is not awaited before the next event is taken")
            dep = set()
            for a in i.a["args"]:
                dep |= fl.depends(a, i)
            ck.ob(any(g.instrs[x].op == "getitem" and is_const(g.instrs[x].a["key"], "data") and fl.terms(g.instrs[x].a["obj"], g.instrs[x]) & evt for x in dep)
                  or any(g.instrs[x].op == "call" and last(fl, g.instrs[x]) == "get" and g.instrs[x].a["args"] and is_const(g.instrs[x].a["args"][0], "data") for x in dep),
                  f"{name_of(cons)}: data of the event", i.loc, "the handler is not given the data of the event")
            for w in aw:
                calls[w.id] = i
    if not calls:
        ck.ob(False, f"{name_of(cons)}: handler call", cons.loc(), "the handler of an event is not called and awaited")
        return
    callids = {c.id for c in calls.values()}
    sink = {i.id for i in g.live() if i.op == "getitem" and is_const(i.a["key"], "target")}
    logs = {i.id for i in g.calls() if last(fl, i) in ("exception", "error", "warning", "critical", "log", "info", "debug", "print_exc")}
    strong = {i.id for i in g.calls() if last(fl, i) in ("exception", "error", "warning", "critical", "log")}

    def none_edge(i, lab, env):
        kind, terms, pol, op, at = decode(fl, i, env)
        if kind in ("none", "truthy") and terms and terms <= lterms | {("k", None)}:
            return (lab == "t") == (pol if kind == "none" else not pol)
        d = g.deftmp.get(op[1]) if op[0] == "t" else None
        if d is not None and d.op == "op" and d.a["fn"] in ("In", "NotIn") and H in self_attr_names(fl, d.a["args"][1], d):
            return ((lab == "t") == pol) == (d.a["fn"] == "NotIn")
        return None

    def step(i, lab, st, env):
        ph, looked, absent = st
        if ph.startswith("!"):
            return [st]
        if ph == "cancelled":  # C05 says that it stays so
            return [] if lab not in ("n", "t", "f", "c") or cancelled_edge(fl, i, lab, env) in (False, "never") else [st]
        if i.id in gets and lab == "n":
            if ph == "got" and not absent:
                return [("!drop", 0, 0)]
            if ph == "failed":
                return [("!silent", 0, 0)]
            return [("got", 0, 0)]
        if i.id in gets and lab == "c" and ph == "logged":
            return [("idle", 0, 0)]
        if ph == "idle":
            return [st]
        if i.op == "call" and last(fl, i) in ("current_task", "cancelling") and lab != "n":
            return []
        if i.id in sink and lab not in ("n", "t", "f"):
            return []
        if i.id in looks:
            if lab == "n":
                return [(ph, 1, 0)]
            if g.instrs[i.id].op == "getitem":
                return [(ph, 1, 1)]
        if i.op == "branch" and lab in ("t", "f"):
            a = none_edge(i, lab, env)
            if a is not None:
                return [(ph, looked, int(a))]
        if cancelled_edge(fl, i, lab, env) and ph in ("failed", "logged"):
            return []  # not the handler which failed
        if (i.id in callids or i.id in calls) and lab == "c":
            return [("failed", looked, absent), ("cancelled", 0, 0)]  # the handler may have awaited what was cancelled; or the task is cancelled
        if i.id in callids and lab == "n":
            if ph in ("called", "failed", "logged"):
                return [("!twice", 0, 0)]
            if not looked:
                return [("!stale", 0, 0)]
            return [(ph, looked, absent)]
        if i.id in calls and lab == "n":
            return [("called", looked, absent)]
        if lab not in ("n", "t", "f", "c"):
            return [("failed", looked, absent)]
        if ph == "failed" and i.id in strong:
            return [("logged", looked, absent)]
        return [st]

    why = {"!drop": "an event may be dropped although its handler exists", "!silent": "the failure of a handler is not logged",
           "!twice": "the handler may be called more than once for an event", "!stale": "the handler is looked up before the event is taken"}

    def final(kind, st):
        ph = st[0]
        if ph == "cancelled":
            return True
        if ph in why:
            return why[ph]
        if kind == "cancel_exit" and ph in ("failed", "logged"):
            return "a handler which raises CancelledError ends the processing of events for this target"
        if kind == "exc_exit" and ph != "idle":
            return "a failure ends the processing of events for this target"
        if kind == "exit" and ph != "idle":
            return "the consumer ends after an event: later events of this target are dropped"
        return True

    typestate(ck, fl, ("idle", 0, 0), step, final, f"{name_of(cons)}: one event")


def register(ck):
    ck.rule("register", "each handler of an element is registered under one target, in the layout's table, the element's targets and the model alike", 4)
    f, fl = activation(ck, ren_opaque(ck, OPAQUE))
    g = fl.g
    sets = [i for i in g.live() if i.op == "setitem" and H in self_attr_names(fl, i.a["obj"], i)]
    upd = [i for i in g.calls() if last(fl, i) in ("update", "setdefault") and H in self_attr_names(fl, fl.recv(i), i)]
    ck.need(sets or upd, "registration of event handlers")
    ck.need(not upd, "handlers registered in bulk")
    heads = [i for i in g.live() if i.op == "next"]
    bodies = {h.id: loop_nodes(fl, h) for h in heads}
    owners = _owner_attrs(fl)
    for s in sets:
        inner = [h for h in heads if s.id in bodies[h.id] and any(h.id in fl.depends(s.a["val"], s) for _ in (0,))]
        ck.need(inner, "loop over the handlers of an element")
        h = min(inner, key=lambda x: len(bodies[x.id]))
        b = bodies[h.id]
        it = fl.term_of_instr(h)
        who = f"{name_of(s.func)}"
        tg = fl.terms(s.a["key"], s)
        # the value is the handler the loop is at, the key its target
        ev = {("unpack", t, 0) for t in it} | it
        hd = {("unpack", t, 1) for t in it}
        vt = fl.terms(s.a["val"], s)
        ck.ob(bool(vt) and all(t in hd or t[0] == "item" and t[2] in ev for t in vt), f"{who}: registered handler", s.loc, "what is registered is not the element's own handler")
        def user_target(t):
            return t[0] == "attr" and t[2] == "target" and t[1] in vt

        dflt = []
        for t in tg:
            if user_target(t):
                continue
            if t[0] == "op" and t[1] in ("Or", "or"):
                dflt.append(t)
                continue
            dflt.append(t)
        good = bool(dflt)
        for t in dflt:
            dep = set()
            if t[0] in ("fstr", "call", "op", "build"):
                d = g.instrs[t[-1]]
                for o in operands(d):
                    dep |= fl.depends(o, d)
                dep.add(d.id)
            parts = set()
            if dep:
                todo = [d]
                for _ in range(12):
                    if not todo:
                        break
                    x = todo.pop()
                    for o in operands(x):
                        for u in fl.terms(o, x):
                            parts.add(u)
                            if u[0] in ("fstr", "op", "build") and isinstance(u[-1], int):
                                todo.append(g.instrs[u[-1]])
            kp = any(u[0] == "attr" and u[2] == "key_path" for u in parts)
            evd = bool(parts & ev)
            good = good and kp and evd
        ck.ob(good, f"{who}: default target", s.loc, "a target not chosen by the user is not made of the element's key path and the event")
        ck.ob(any(user_target(t) for t in tg), f"{who}: target chosen by the user", s.loc, "a target chosen by the user is ignored")
        for bb in b:
            i = g.instrs[bb]
            if i.op == "branch":
                kind, terms, pol, *_ = decode(fl, i, {})
                if kind in ("none", "truthy") and terms and all(user_target(t) for t in terms):
                    absent = "t" if (pol if kind == "none" else not pol) else "f"
                    side = _first_assign(fl, i, absent, s)
                    ck.ob(side is None or not any(user_target(x) for x in side), f"{who}: which target", i.loc, "the default target is used although the user chose one, or the other way round")
        # the same target goes to the element's targets and to the model
        own = [x for x in g.live() if x.id in b and x.op == "setitem" and any(t[0] == "attr" and t[2] == "targets_by_event" for t in fl.terms(x.a["obj"], x))]
        okown = [x for x in own if fl.terms(x.a["val"], x) == tg and fl.terms(x.a["key"], x) <= ev]
        ck.ob(bool(okown), f"{who}: targets of the element", s.loc, "the target under which a handler is registered is not noted with its element")
        model = []
        for x in g.live():
            if x.id in b and x.op == "setitem":
                for t in fl.terms(x.a["val"], x):
                    if t[0] == "build" and t[1] == "dict":
                        bd = g.instrs[t[2]]
                        for k, v in bd.a["items"]:
                            if k is not None and is_const(k, "target"):
                                model.append((x, bd, v))
        good = [x for x, bd, v in model if fl.terms(v, bd) == tg and fl.terms(x.a["key"], x) <= ev]
        ck.ob(bool(good), f"{who}: target in the model", s.loc, "the client is not told the target under which the handler is registered")
        # for every handler, all of it
        for what, ids in (("registered", {s.id}), ("noted with its element", {x.id for x in okown}), ("sent to the client", {x.id for x in good})):
            if ids:
                for hh, bad in skipped_items(fl, ids, lambda a, l: False):
                    if hh.id == h.id:
                        ck.ob(bad is None, f"{who}: every handler is {what}", h.loc, f"some handlers of an element are not {what}", lines(fl, bad) if bad else "")
        if owners:
            ow = {x.id for x in g.live() if x.id in b and x.op == "setitem" and self_attr_names(fl, x.a["obj"], x) & owners and fl.terms(x.a["key"], x) == tg and all(t[0] == "call" for t in fl.terms(x.a["val"], x))}
            bad = [p for hh, p in skipped_items(fl, ow, lambda a, l: False) if hh.id == h.id and p] if ow else [None]
            ck.ob(bool(ow) and not bad, f"{who}: owner of a handler", s.loc, "the element which registered a handler is not recorded as its owner: the handler would be removed with the element's earlier render")


def _first_assign(fl, br, lab, s):
    """Terms assigned on the side `lab` of a branch to the variable which is the key of `s`."""
    k = s.a["key"]
    if k[0] != "v":
        return None
    other = {x for x, l in br.succ if l != lab}
    side = _reach(fl, [x for x, l in br.succ if l == lab]) - _reach(fl, list(other))
    out = set()
    for d in fl.reaching(k, s):
        if d.id in side and d.op == "assign":
            out |= fl.terms(d.a["src"], d)
    return out or None


def _reach(fl, starts):
    seen, todo = set(), list(starts)
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += [s for s, l in fl.g.instrs[x].succ if l in ("n", "t", "f") and s > x]
    return seen


def _removals(fl):
    """{id: key} of removals from the table of handlers"""
    out = {}
    for i in fl.g.live():
        if i.op == "delitem" and H in self_attr_names(fl, i.a["obj"], i):
            out[i.id] = i.a["key"]
        elif i.op == "call" and last(fl, i) == "pop" and i.a["args"] and H in self_attr_names(fl, fl.recv(i), i):
            out[i.id] = i.a["args"][0]
    return out


def _owner_attrs(fl):
    """Tables consulted (with an element's state) before a handler is removed."""
    rem = _removals(fl)
    out = set()
    for b in fl.g.live():
        if b.op == "branch" and rem:
            kind, terms, pol, op, at = decode(fl, b, {})
            d = fl.g.deftmp.get(op[1]) if op[0] == "t" else None
            if d is not None and d.op == "op" and d.a["fn"] in ("Is", "IsNot", "Eq", "NotEq"):
                for a in d.a["args"]:
                    for t in fl.terms(a, d):
                        if t[0] == "call" and t[1] == ".get":
                            out |= self_attr_names(fl, fl.recv(fl.g.instrs[t[2]]), fl.g.instrs[t[2]])
                        elif t[0] == "item":
                            out |= {attr_of(t[1])} - {None}
    return out - {H}


def rerender(ck):
    ck.rule("rerender", "when an element is rendered again, its handlers are registered and those of its earlier render which are gone are removed", 1)
    f, fl = activation(ck, ren_opaque(ck, OPAQUE))
    g = fl.g
    elem = {}
    for i in g.calls():
        if i.a["callee"][0] != "class":
            continue
        init = ck.p.method(i.a["callee"][1], "__init__")
        if init is None or "targets_by_event" not in init.params():
            continue
        kw = dict(i.a["kw"])
        given = {p: a for p, a in zip(init.params()[1:], i.a["args"])}
        given.update({k: v for k, v in kw.items() if k})
        if "life_cycle_state" in given and given["life_cycle_state"] != ("k", None):
            continue
        ts = fl.terms(given["key"], i) if "key" in given else set()
        elem[i.id] = any(t[0] == "attr" and t[2] == "key" for t in ts)
        b = [t for t in fl.terms(given.get("targets_by_event"), i)]
        ck.ob(all(t[0] == "build" for t in b) and bool(b), f"{name_of(i.func)}: targets of a new state", i.loc, "a new state shares the targets of another one")
    ck.need(elem, "states of elements")
    sets = {i.id for i in g.live() if i.op == "setitem" and H in self_attr_names(fl, i.a["obj"], i)}
    rem = _removals(fl)
    regs, hsrc = inner_iters(fl, sets), set()
    rems = set()
    for i in g.live():
        if i.op == "iter":
            bd = _body(fl, i)
            for n, key in rem.items():
                if n in bd and i.id in fl.depends(key, g.instrs[n]):
                    if any(g.instrs[d].op == "getattr" and g.instrs[d].a["attr"] == "targets_by_event" and not all(t[0] == "call" and t[2] in elem for t in fl.terms(g.instrs[d].a["obj"], g.instrs[d])) for d in fl.depends(i.a["src"], i)):
                        rems.add(i.id)
    for i in regs:
        for d in fl.depends(g.instrs[i].a["src"], g.instrs[i]):
            x = g.instrs[d]
            if x.op == "call" and last(fl, x) == "get" and x.a["args"] and is_const(x.a["args"][0], "eventHandlers") or x.op == "getitem" and is_const(x.a["key"], "eventHandlers"):
                hsrc |= fl.term_of_instr(x)
    ck.ob(bool(hsrc), f"{name_of(f)}: handlers of an element", f.loc(), "the handlers which are registered are not those of the element")
    ck.ob(bool(rems), f"{name_of(f)}: removal of earlier handlers", f.loc(), "the handlers of an element's earlier render are not removed")
    rec = {i.id for i in g.live() if i.op == "await" and rec_call(ck, fl, i)}
    # a removal that does not look at who owns the handler would remove one registered just before
    owned = {}
    for r in rems:
        ok = True
        for n in rem:
            if n in _body(fl, g.instrs[r]):
                nx = [x for x in g.live() if x.op == "next" and r in fl.depends(x.a["it"], x)]
                for h in nx:
                    starts = [s for s, l in h.succ if l in ("n", "t")]
                    bad = fl.reach_avoiding(starts, lambda x: x.id == n, lambda x: x.op == "branch" and _owner_test(fl, x, elem), lambda a, l, t: l in ("n", "t", "f"))
                    ok = ok and bad is None
        owned[r] = ok

    def no_handlers(i, lab, env):
        kind, terms, pol, op, at = decode(fl, i, env)
        if kind in ("none", "truthy") and terms and terms & hsrc and terms <= hsrc | {("k", None)}:
            return (lab == "t") == (pol if kind == "none" else not pol)
        d = g.deftmp.get(op[1]) if op[0] == "t" else None
        if d is not None and d.op == "op" and d.a["fn"] in ("In", "NotIn") and is_const(d.a["args"][0], "eventHandlers"):
            return ((lab == "t") == pol) == (d.a["fn"] == "NotIn")
        return False

    old = old_param(ck, f, fl)
    lookt = set()
    for _, _, x in child_lookups(fl, old):
        lookt |= fl.term_of_instr(x)

    def step(i, lab, st, env):
        if st is None or st[0] == "!":
            if i.id in elem and lab == "n" and st is None:
                return [(False, not elem[i.id])]
            return [st]
        reg, rm = st
        if i.op == "branch" and lab in ("t", "f") and not rm:
            # the earlier render of this element is known to exist
            kind, terms, pol, op, at = decode(fl, i, env)
            if kind in ("none", "truthy") and terms and terms & lookt and terms <= lookt | {("k", None)}:
                if (lab == "t") == (pol if kind == "none" else not pol):
                    return []
        if i.id in elem and lab == "n":
            return [(False, not elem[i.id])]
        if lab in ("e", "c") or lab not in ("n", "t", "f"):
            return [None]
        if i.op == "branch" and no_handlers(i, lab, env):
            reg = True
        if i.id in regs:
            reg = True
        if i.id in rems:
            if reg and not owned[i.id] and any(x in sets for x in sets):
                return [("!", "handlers which were just registered may be removed")] if not _nothing(st) else [st]
            rm = True
        if i.id in rec and lab == "n":
            if not (reg and rm):
                return [("!", "handlers of an element are not registered" if not reg else "handlers of an element's earlier render stay registered")]
            return [None]
        return [(reg, rm)]

    def final(kind, st):
        if st is None or kind != "exit" and st[0] != "!":
            return True
        if st[0] == "!":
            return st[1]
        reg, rm = st
        return True if reg and rm else "handlers of an element are not registered" if not reg else "handlers of an element's earlier render stay registered"

    typestate(ck, fl, None, step, final, f"{name_of(f)}: handlers of an element")


def _nothing(st):
    return False


def _owner_test(fl, b, elem):
    kind, terms, pol, op, at = decode(fl, b, {})
    d = fl.g.deftmp.get(op[1]) if op[0] == "t" else None
    if d is None or d.op != "op":
        return False
    if d.a["fn"] in ("Is", "IsNot", "Eq", "NotEq"):
        return True
    if d.a["fn"] in ("In", "NotIn"):
        return H not in self_attr_names(fl, d.a["args"][1], d)
    return False


KEYS = ["a", "b", "a/b", "b/a", 0, "0", 7, "7", "'a'", 'a\'/\'b', 'a"/"b', "b:onX", "", "a\\", "A", "a_b", "a-b", "a.b", "a%2Fb", "a~1b", "a b", "ab", "a,b", "a|b"]


def distinct(ck):
    """targets of different elements, made of their keys, are evaluated for keys which could be mixed up"""
    ck.rule("distinct", "targets of elements with different keys, or at different depths, never coincide", 2)
    f, fl = activation(ck, ren_opaque(ck, OPAQUE))
    g = fl.g
    sets = [i for i in g.live() if i.op == "setitem" and H in self_attr_names(fl, i.a["obj"], i)]
    sites = []
    for i in g.calls():
        if i.a["callee"][0] == "class":
            init = ck.p.method(i.a["callee"][1], "__init__")
            if init is not None:
                given = dict(zip(init.params()[1:], i.a["args"]))
                given.update({k: v for k, v in i.a["kw"] if k})
                if "key" in given:
                    sites.append((i, given))
    for s in sets:
        vt = fl.terms(s.a["val"], s)
        for t in fl.terms(s.a["key"], s):
            if t[0] == "attr" and t[2] == "target" and t[1] in vt:
                continue
            ev = {x for x in parts_of(fl, t) if x[0] == "unpack" and x[2] == 0}
            at = sorted({x[2] for x in parts_of(fl, t) if x[0] == "attr" and any(x[2] in gv for _, gv in sites)})
            who = f"{name_of(s.func)}: default target"
            if len(at) != 1:
                continue
            A = at[0]
            target = made_of(fl, t, lambda x: x[0] == "attr" and x[2] == A, lambda x: x in ev)
            steps = {}
            for i, gv in sites:
                if A not in gv:
                    continue
                own = fl.terms(gv["key"], i)
                for u in fl.terms(gv[A], i):
                    if u[0] in ("k", "p", "attr"):
                        continue
                    m = made_of(fl, u, lambda x: x[0] == "attr" and x[2] == A, lambda x, own=own: x in own)
                    ck.ob(True, f"{name_of(i.func)}: {A}", i.loc, "")
                    if m is not None:
                        steps[tuple(repr(m("p", k)) for k in KEYS)] = (m, i)
            if target is None or not steps:
                continue
            for m, i in steps.values():
                seen, bad = {}, None
                level = [((), "")]
                for _ in range(3):
                    level = [((*ks, k), m(P, k)) for ks, P in level for k in KEYS]
                    for ks, P in level:
                        for e in ("onX", "onY"):
                            x = target(P, e)
                            o = seen.setdefault(x, (ks, e))
                            if o != (ks, e) and (bad is None or len(bad[0]) + len(bad[1][0]) > len(ks) + len(o[0])):
                                bad = (ks, o, x)
                ck.ob(bad is None, who, i.loc, "" if bad is None else f"the elements with the keys {list(bad[1][0])} and {list(bad[0])} (outermost first) get the same target {bad[2]!r}")


def current(ck):
    tree.decide(ck, "current", "in trees of every shape the handlers are those of the elements displayed, each under the target of its own element", "handler", "target", "kept")


def events(ck):
    tree.decide(ck, "events", "each event reaches the handler displayed under its target, with all of its data, in the order of arrival, whatever earlier handlers did", "event")


# decided by interpretation of whole renders as well
SPARE = {"process": "events", "register": "current", "rerender": "current"}
RULES = [deliver, process, register, rerender, distinct, current, events]
