"""C07  Finished renders are delivered once each, in the order they finished."""
from .. import tree
from ..lib import *
from .c01 import OPAQUE
from .c04 import decode
from .c05 import _none, creators
from .c06 import schedulers

EXPLANATION = """
Each render task gets a completion callback which, on every path, puts the task at the end of a
first-in-first-out container and then releases the waiter. The consumer waits, takes from the
other end of the same container, and returns the task's result; it goes on waiting without
returning it only if the task was cancelled. Bookkeeping by component id is undone only for the
task that was taken. In serial mode each queue entry is rendered and returned unless its
component is gone. The update's path and model belong to the state which the render produced.
"""
ASSUMPTIONS = ["completion callbacks run in the order tasks complete (asyncio)"]


def last(fl, i):
    return fl.callee_key(i).rsplit(".", 1)[-1]


def completion_cb(ck):
    ck.rule("completed", "every render task has a callback which appends it to the finished ones and then wakes the consumer", 2)
    P = ck.p
    fifo, sem = {}, set()
    for f, fl, made in schedulers(ck):
        g = fl.g
        cbs = {}
        for i in g.calls():
            if last(fl, i) == "add_done_callback" and i.a["args"]:
                for t in fl.recv_terms(i):
                    if t[0] == "call" and t[2] in made:
                        cbs[i.id] = i
        tasks = set(made)

        def step(i, lab, st, env):
            if i.id in tasks and lab == "n":
                return ["T"]
            if i.id in cbs and lab == "n":
                return ["ok"]
            if i.op in ("await", "yield") and st == "T":
                return ["late"]
            return [st]

        typestate(ck, fl, "0", step, lambda kind, st: st not in ("T", "late") or kind != "exit" and st != "late", f"{name_of(f)}: completion callback", "the completion of a render task may go unnoticed")
        for i in cbs.values():
            fn = None
            a = i.a["args"][0]
            for t in fl.terms(a, i):
                if t[0] == "attr" and t[1][0] == "p" and f.cls is not None:
                    fn = P.method(f.cls, t[2])
                elif t[0] == "fn":
                    fn = P.funcs.get(t[1])
            if a[0] == "f":
                fn = a[1]
            if a[0] == "l":
                ck.need(False, "completion callback is a lambda")
            ck.need(fn is not None, "completion callback")
            fc = flow(ck, fn)
            par = [p for p in fn.params() if p != "self"][:1]
            app, rel = {}, {}
            for x in fc.g.calls():
                if last(fc, x) in ("append", "put_nowait", "appendleft") and x.a["args"] and fc.terms(x.a["args"][0], x) & {("p", fn.qual, p) for p in par}:
                    for nm in self_names(fc, fc.recv(x), x):
                        app[x.id] = (nm, last(fc, x))
                if last(fc, x) in ("release", "set", "notify", "notify_all"):
                    for nm in self_names(fc, fc.recv(x), x):
                        rel[x.id] = nm
            ck.ob(bool(app), f"{name_of(fn)}: finished task", fn.loc(), "a finished render is not kept for delivery")
            queue_like = {k for k, (n, m) in app.items() if m == "put_nowait"}

            def step2(i, lab, st, env):
                a, r = st
                if i.id in app:
                    a = min(a + 1, 2)
                    if i.id in queue_like:
                        r = min(r + 1, 2)
                if i.id in rel:
                    if not a:
                        r = 9
                    else:
                        r = min(r + 1, 2)
                return [(a, r)]

            def final2(kind, st):
                if kind != "exit":
                    return True
                a, r = st
                if r == 9:
                    return "the consumer is woken before the finished render is there"
                return a == 1 and r == 1 or "a finished render is not announced exactly once"

            typestate(ck, fc, (0, 0), step2, final2, f"{name_of(fn)}: announcement")
            for k, (n, m) in app.items():
                fifo.setdefault(n, set()).add(m)
            sem |= set(rel.values())
    return fifo, sem


def self_names(fl, op, at):
    out = set()
    for t in fl.terms(op, at) if op is not None else ():
        if t[0] == "attr":
            out.add(t[2])
    return out


def consumers(ck, f):
    return f.name == "render"


def deliver(ck):
    fifo, sem = completion_cb(ck)
    ck.rule("delivery", "the consumer returns the result of the render that finished first, and passes over cancelled ones only", 3)
    P = ck.p
    f = role(P, LAYOUT, "render")
    fl = flow(ck, f, OPAQUE | {s.qual for s, _, _ in schedulers(ck)} | {q for q in coroutine_of_schedulers(ck)})
    g = fl.g
    take, bad_take = {}, {}
    for i in g.live():
        if i.op == "call" and last(fl, i) in ("popleft", "pop", "get", "get_nowait", "remove", "discard") or i.op in ("getitem", "delitem"):
            r = fl.recv(i) if i.op == "call" else i.a["obj"]
            for nm in self_names(fl, r, i):
                if nm in fifo:
                    m = next(iter(fifo[nm]))
                    how = last(fl, i) if i.op == "call" else i.op
                    fine = (m == "append" and (how == "popleft" or how == "pop" and i.a["args"] and is_const(i.a["args"][0], 0))) or (m == "put_nowait" and how in ("get", "get_nowait")) or (m == "appendleft" and how == "pop" and not i.a["args"])
                    if how == "getitem":
                        continue
                    (take if fine else bad_take)[i.id] = i
    for i in bad_take.values():
        ck.ob(False, f"{name_of(i.func)}: order of delivery", i.loc, "finished renders are not delivered in the order they finished")
    ck.need(take or bad_take or not fifo, "the consumer takes no finished render")
    if not take:
        if not bad_take:
            ck.ob(False, f"{name_of(f)}: order of delivery", f.loc(), "updates are not taken from the finished renders in order")
        return
    for i in take.values():
        ck.ob(True, f"{name_of(i.func)}: order of delivery", i.loc)
    tk = {}
    for n, i in take.items():
        t = ("call", fl.callee_key(i), i.id)
        tk[n] = {t, ("await", t)}
    tkall = set().union(*tk.values())
    takeev = {}
    for n, i in take.items():
        aw = awaited_by(fl, i)
        for w in aw:
            takeev[w.id] = n
        if not aw:
            takeev[n] = n
    res = {}
    for i in g.live():
        if i.op == "call" and last(fl, i) == "result" and fl.recv_terms(i) & tkall:
            res[i.id] = i
        if i.op == "await" and fl.terms(i.a["src"], i) & tkall and i.id not in takeev:
            res[i.id] = i
    ck.ob(bool(res), f"{name_of(f)}: result of a finished render", f.loc(), "the result of the finished render is not what is delivered")
    waits = {}
    for i in g.calls():
        if last(fl, i) in ("acquire", "wait") and self_names(fl, fl.recv(i), i) & sem:
            for w in awaited_by(fl, i):
                waits[w.id] = i

    def cancelled(i, lab):
        kind, terms, pol, *_ = decode(fl, i, {})
        return kind == "truthy" and any(t[0] == "call" and t[1].rsplit(".", 1)[-1] == "cancelled" for t in terms) and (lab == "t") == pol

    def step(i, lab, st, env):
        w, ph = st
        if i.id in waits and lab == "n":
            if ph == "T":
                return [(1, "drop")]
            return [(1, ph)]
        if i.id in takeev and lab == "n":
            if ph == "T":
                return [(w, "drop")]
            return [(0, "T" if w or not sem or not waits else "nowait")]
        if ph == "T":
            if i.op == "branch" and lab in ("t", "f") and cancelled(i, lab):
                return [(w, "0")]
            if i.id in res:
                if lab == "c":
                    return [(w, "0")]
                if lab == "e":
                    return [(w, "raise")]
                return [(w, "R")]
        if ph == "raise" and i.op == "catch" and not _only_cancel(i):
            return [(w, "drop")]
        if i.op == "return" and i.frame == 1 and not i.a.get("implicit"):
            ts = fl.terms(i.a["val"], i)
        return [(w, ph)]

    def final(kind, st):
        w, ph = st
        if ph == "drop":
            return "a finished render may be dropped without being delivered"
        if ph == "nowait":
            return "a finished render is taken without waiting for one"
        if ph == "T" and kind == "exit":
            return "a finished render is taken but not delivered"
        if ph == "raise" and kind == "exit":
            return "the failure of a render is hidden"
        return True

    typestate(ck, fl, (0, "0"), step, final, f"{name_of(f)}: finished renders")
    # what is returned
    ids = {("call", fl.callee_key(i), i.id) if i.op == "call" else None for i in res.values()} | {t for i in res.values() if i.op == "await" for t in fl.term_of_instr(i)}
    coros = coroutine_of_schedulers(ck)
    for i in g.live():
        if i.op == "return" and i.frame in (0, 1) and i.func is f:
            for t in fl.terms(i.a["val"], i):
                good = t in ids or t[0] == "await" and t[1][0] == "call" and t[1][1] in coros
                ck.ob(good, f"{name_of(f)}: what is delivered", i.loc, "something other than the result of a render is delivered")
    # bookkeeping by id
    for i in g.live():
        if i.op == "delitem" or i.op == "call" and last(fl, i) == "pop" and i.id not in take:
            r = i.a["obj"] if i.op == "delitem" else fl.recv(i)
            key = i.a["key"] if i.op == "delitem" else (i.a["args"][0] if i.a["args"] else None)
            if key is None or not self_attr_names(fl, r, i):
                continue
            if fl.terms(key, i) & tkall:
                continue  # keyed by the task itself
            owns = set()
            for b in g.live():
                if b.op == "branch":
                    kind, terms, pol, op, at = decode(fl, b, {})
                    d = g.deftmp.get(op[1]) if op[0] == "t" else None
                    if d is not None and d.op == "op" and d.a["fn"] in ("Is", "IsNot", "Eq", "NotEq") and any(fl.terms(x, d) & tkall for x in d.a["args"]):
                        owns.add((b.id, "t" if pol == (d.a["fn"] in ("Is", "Eq")) else "f"))
            if not any(x for x in take):
                continue
            names = self_attr_names(fl, r, i)
            if not names & _task_maps(ck):
                continue
            bad = fl.reach_avoiding([0], lambda x, i=i: x.id == i.id, lambda x: False, lambda a, l, b: (a.id, l) not in owns)
            ck.ob(bad is None, f"{name_of(i.func)}: bookkeeping of {'/'.join(sorted(names))}", i.loc, "the bookkeeping of a newer render of that component may be removed", lines(fl, bad) if bad else "")


def _only_cancel(c):
    return all(t and t.rsplit(".", 1)[-1] == "CancelledError" for t in c.a["types"])


def _task_maps(ck):
    """self attributes which map component ids to their render task"""
    out = set()
    for f, fl, made in schedulers(ck):
        for i in fl.g.live():
            if i.op == "setitem" and any(t[0] == "call" and t[2] in made for t in fl.terms(i.a["val"], i)):
                out |= self_attr_names(fl, i.a["obj"], i)
    return out


def coroutine_of_schedulers(ck):
    out = set()
    for f, fl, made in schedulers(ck):
        for t, c in made.values():
            out.add(c.a["callee"][1].qual)
    return out


def serial(ck):
    ck.rule("serial", "in serial mode every queue entry is rendered and returned unless its component is gone", 1)
    P = ck.p
    f = role(P, LAYOUT, "render")
    coros = coroutine_of_schedulers(ck)
    fl = flow(ck, f, OPAQUE | {s.qual for s, _, _ in schedulers(ck)} | set(coros))
    g = fl.g
    comp = completion(fl, set(coros))
    ck.need(comp, "serial rendering")
    got = {}
    for i in g.calls():
        if last(fl, i) in ("get", "get_nowait") and any(t[0] == "attr" and "queue" in t[2] for t in fl.recv_terms(i)):
            for w in awaited_by(fl, i):
                got[w.id] = i
    ck.need(got, "queue of render requests")
    gt = {t for w in got for t in fl.term_of_instr(g.instrs[w])}
    regs = {i.id for i in g.live() if i.op == "getitem" and fl.terms(i.a["key"], i) & gt or i.op == "call" and last(fl, i) in ("get", "pop") and i.a["args"] and fl.terms(i.a["args"][0], i) & gt}

    def step(i, lab, st, env):
        if i.id in got and lab == "n":
            return ["drop" if st == "G" else "G"]
        if st == "G":
            if i.id in regs and i.op == "getitem" and lab == "e":
                return ["gone"]
            if i.op == "branch" and lab in ("t", "f"):
                kind, terms, pol, op, at = decode(fl, i, env)
                if kind in ("none", "truthy") and any(t[0] == "call" and t[2] in regs for t in terms):
                    if (lab == "t") == (pol if kind == "none" else not pol):
                        return ["gone"]
                d = g.deftmp.get(op[1]) if op[0] == "t" else None
                if d is not None and d.op == "op" and d.a["fn"] in ("In", "NotIn") and fl.terms(d.a["args"][0], d) & gt:
                    if ((lab == "t") == pol) == (d.a["fn"] == "NotIn"):
                        return ["gone"]
            if i.id in comp and lab == "n":
                return ["done"]
        if st == "done" and (i.id in comp or i.id in got):
            return ["drop"]
        return [st]

    typestate(ck, fl, "0", step, lambda kind, st: not (st == "drop" or kind == "exit" and st == "G"), f"{name_of(f)}: serial rendering", "a requested render is dropped although its component is still there")
    for c in comp.values():
        dep = set()
        for a in c.a["args"]:
            dep |= fl.depends(a, c)
        ck.ob(bool(dep & set(got)), f"{name_of(f)}: what is rendered", c.loc, "the render is not that of the component which was requested")


def payload(ck):
    ck.rule("payload", "an update carries the path and the model of the state which its render produced", 1)
    P = ck.p
    f, _ = activation(ck, ren_opaque(ck, OPAQUE))
    n = 0
    for q in coroutine_of_schedulers(ck):
        r = P.funcs[q]
        fl = flow(ck, r, OPAQUE | {f.qual})
        done = completion(fl, {f.qual})
        want = {("await", ("call", f.qual, c.id)) for c in done.values()}
        for i in fl.g.live():
            if i.op != "return" or i.func is not r:
                continue
            for t in fl.terms(i.a["val"], i):
                if t[0] == "build" and t[1] == "dict":
                    b = fl.g.instrs[t[2]]
                    for k, v in b.a["items"]:
                        if k is not None and k[0] == "k" and k[1] in ("path", "model"):
                            n += 1
                            ts = fl.terms(v, b)
                            ck.ob(bool(ts) and all(_base(x) in want for x in ts), f"{name_of(r)}: {k[1]} of the update", b.loc, f"the {k[1]} of an update is not that of the state which was rendered")
                            if k[1] == "path":
                                ck.ob(any_term(ts, lambda x: x[0] == "attr" and "path" in x[2] and "key" not in x[2]), f"{name_of(r)}: path of the update", b.loc, "the path of an update is not the position of what was rendered")
    ck.need(n >= 2, "path and model of the update")


def _base(t):
    while isinstance(t, tuple) and t[0] in ("attr", "item"):
        t = t[1]
    return t


def updates(ck):
    tree.decide(ck, "updates", "in trees of every shape an update has the path of the rendered component and the model of all below it", "model", "path")


def order(ck):
    tree.decide(ck, "order", "however renders begin and finish, are cancelled or fail, render() gives what finished, in that order, raises the failures, and waits only if nothing is left", "delivery")


# decided by interpretation of whole renders as well
SPARE = {"deliver": "order", "payload": "updates"}
RULES = [deliver, serial, payload, updates, order]
