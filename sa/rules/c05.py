"""C05  Closing a layout ends all of its work and unmounts its tree."""
from .. import tree
from ..lib import *
from .c01 import OPAQUE
from .c04 import _body, cancelled_edge, decode

EXPLANATION = """
Every task the layout (or its queue) creates is traced to the collection which keeps it; the
exit of the layout must cancel and await each element of each such collection, on every path,
before the tree is unmounted from its root, whatever the awaited tasks raise. Elements are
removed from those collections elsewhere only after they finished. No coroutine which runs as
such a task may swallow the cancellation: a cancellation edge is followed to its handler,
which has to leave the task. Closing is also interpreted from many states of the renders: every
component ever rendered is unmounted once, also those of a render which is cut off at a place
where it waits, and a render which is requested while tasks end and components are unmounted
does not begin, or ends before closing does.
"""
ASSUMPTIONS = ["user coroutines which swallow cancellation themselves are outside of the property"]

TASKERS = ("create_task", "ensure_future")
MODS = ["reactpy.core.layout"]


def creators(ck):
    """(flow, call, attr names which keep the task) of every task creation of the module."""
    P = ck.p
    out = []
    seen = set()
    for f in [x for x in P.funcs.values() if x.module.name in MODS and x.parent is None]:
        direct = any(isinstance(n, ast.Call) and (dotted(n.func) or "").rsplit(".", 1)[-1] in TASKERS for n in ast.walk(f.node))
        if not direct:
            continue
        fl = flow(ck, f, OPAQUE, inline=_none)
        for i in fl.g.calls():
            if fl.callee_key(i).rsplit(".", 1)[-1] in TASKERS:
                out.append((f, fl, i, keepers(fl, i)))
    # helpers which create a task for their caller: look at the callers too
    res = []
    for f, fl, i, keep in out:
        if not keep:
            for g in [x for x in P.funcs.values() if x.module.name in MODS and x.parent is None and x is not f]:
                if any(resolve_func(P, g, n.func) is f for n in ast.walk(g.node) if isinstance(n, ast.Call)):
                    fg = flow(ck, g, OPAQUE)
                    for j in fg.g.calls():
                        if fg.callee_key(j).rsplit(".", 1)[-1] in TASKERS and j.func is f:
                            keep = keep | keepers(fg, j)
        res.append((f, fl, i, keep))
    return res


def _none(f):
    return False


def keepers(fl, call):
    out = set()
    me = ("call", fl.callee_key(call), call.id)
    for i in fl.g.live():
        if i.op == "setitem" and me in fl.terms(i.a["val"], i):
            out |= self_attr_names(fl, i.a["obj"], i)
        elif i.op == "setattr" and me in fl.terms(i.a["val"], i):
            out.add(i.a["attr"])
        elif i.op == "call" and fl.callee_key(i) in (".add", ".append", ".put_nowait", ".appendleft") and any(me in fl.terms(a, i) for a in i.a["args"]):
            out |= self_attr_names(fl, fl.recv(i), i)
    return out


def _attrs_of(fl, op, at):
    return {fl.g.instrs[d].a["attr"] for d in fl.depends(op, at) if fl.g.instrs[d].op == "getattr"}


def closing(ck):
    ck.rule("close", "leaving the layout cancels and awaits every task before the tree is unmounted, whatever the tasks raise", 4)
    P = ck.p
    U = {u.qual for u in unmounters(ck)}
    f = role(P, LAYOUT, "__aexit__")
    fl = flow(ck, f, OPAQUE | U)
    g = fl.g
    made = creators(ck)
    ck.need(made, "the layout creates no tasks")
    un = completion(fl, U)
    ck.ob(bool(un), f"{name_of(f)}: unmount", f.loc(), "leaving a layout does not unmount its tree")
    if not un:
        return
    # loops which cancel / await
    cancels, awaits = {}, {}
    for i in g.live():
        if i.op == "iter":
            bd = _body(fl, i)
            attrs = _attrs_of(fl, i.a["src"], i)
            for n in bd:
                x = g.instrs[n]
                if x.op == "call" and fl.callee_key(x) == ".cancel" and i.id in fl.depends(fl.recv(x), x):
                    cancels.setdefault(i.id, []).append((x, attrs))
                if x.op == "await" and i.id in fl.depends(x.a["src"], x) and not _in_call(fl, x):
                    awaits.setdefault(i.id, []).append((x, attrs))
    bulk = {}
    for i in g.live():
        if i.op == "await":
            for t in fl.terms(i.a["src"], i):
                if t[0] == "call" and t[1].rsplit(".", 1)[-1] in ("gather", "wait"):
                    c = g.instrs[t[2]]
                    rex = fl.arg(c, None, "return_exceptions")
                    if t[1].endswith("gather") and not is_const(rex, True):
                        continue
                    bulk[i.id] = set().union(*[_attrs_of(fl, a, c) for a in c.a["args"]] or [set()])

    def covered(table, attr):
        return [(it, x) for it, l in table.items() for x, attrs in l if attr in attrs]

    for cf, cfl, call, keep in made:
        nm = f"{name_of(cf)}: task of {_coro(cfl, call)}"
        if not keep:
            ck.ob(False, nm, call.loc, "a task is created which nothing keeps: leaving the layout cannot end it")
            continue
        good = [a for a in keep if covered(cancels, a) and (covered(awaits, a) or any(a in s for s in bulk.values()))]
        ck.ob(bool(good), nm, call.loc, "leaving the layout does not cancel and await this task")
        if not good:
            continue
        # the loops are passed before the tree is unmounted and skip nothing
        if cf.cls is not None and cf.cls.qual == LAYOUT:
            for what, table in (("cancelled", cancels), ("awaited", awaits)):
                its = {it for a in good for it, _ in covered(table, a)}
                if what == "awaited":
                    its |= {n for n, s in bulk.items() if s & set(good)}
                bad = fl.reach_avoiding([0], lambda x: x.id in un, lambda x: x.id in its, lambda a, l, b: l in ("n", "t", "f"))
                ck.ob(bad is None, f"{nm}: {what} before unmount", f.loc(), f"the tree may be unmounted before this task is {what}", lines(fl, bad) if bad else "")
        for what, table in (("cancelled", cancels), ("awaited", awaits)):
            for a in good:
                for it, x in covered(table, a):
                    sites = {y.id for l in table.values() for y, _ in l}
                    for nx in [y for y in g.live() if y.op == "next" and it in fl.depends(y.a["it"], y)]:
                        starts = [s for s, l in nx.succ if l in ("n", "t")]
                        done = {(b.id, l) for b in g.live() if b.op == "branch" for l in ("t", "f") if _done_edge(fl, b, l)}
                        bad = fl.reach_avoiding(starts, lambda y: y.id == nx.id, lambda y: y.id in sites, lambda p, l, q: l in ("n", "t", "f") and (p.id, l) not in done)
                        ck.ob(bad is None, f"{nm}: every one is {what}", x.loc, f"some of these tasks are not {what}", lines(fl, bad) if bad else "")
                        out = fl.reach_avoiding(starts, lambda y: y.id in un or y.id == g.exit, lambda y: y.id == nx.id, lambda p, l, q: l in ("n", "t", "f") or p.id in sites and p.op == "await")
                        ck.ob(out is None, f"{nm}: all are {what}", x.loc, f"the loop may end before all tasks are {what}", lines(fl, out) if out else "")
    # whatever an awaited task raises, the tree is unmounted
    aw = {x.id for l in awaits.values() for x, _ in l if x.func.cls is not None and x.func.cls.qual == LAYOUT or x.func is f}

    def step(i, lab, st, env):
        if i.id in aw and lab in ("e", "c"):
            return ["raised"]
        if i.id in un:
            return ["done"]
        if st == "raised" and lab == "e" and i.op != "raise" and i.id not in aw:
            return [] if not any(j.op == "catch" for j in [g.instrs[s] for s, l in i.succ if l == "e"]) else [st]
        return [st]

    typestate(ck, fl, "0", step, lambda kind, st: not (st == "raised"), f"{name_of(f)}: tasks which fail or were cancelled",
              "an exception of a task which is awaited keeps the tree from being unmounted")

    def step2(i, lab, st, env):
        if i.id in un and lab == "n":
            return ["U"]
        return [st]

    typestate(ck, fl, "0", step2, lambda kind, st: not (kind == "exit" and st == "0"), f"{name_of(f)}: tree", "the tree is not unmounted on this exit")
    # the root
    en = role(P, LAYOUT, "__aenter__")
    fe = flow(ck, en, OPAQUE)
    stored = {i.a["attr"] for i in fe.g.live() if i.op == "setattr"}
    for n, c in un.items():
        at = set()
        for a in c.a["args"]:
            at |= _attrs_of(fl, a, c)
        ck.ob(any(s in at and "root" in s for s in stored) or bool(at & stored), f"{name_of(f)}: what is unmounted", c.loc, "what is unmounted on exit is not the root of the tree")


def _in_call(fl, x):
    return any(t[0] == "call" for t in fl.terms(x.a["src"], x))


def _coro(fl, call):
    for a in call.a["args"]:
        for t in fl.terms(a, call):
            if t[0] == "call":
                return t[1].rsplit(".", 1)[-1]
    return "?"


def _done_edge(fl, b, lab):
    kind, terms, pol, *_ = decode(fl, b, {})
    return kind == "truthy" and any(t[0] == "call" and t[1] in (".done", ".cancelled") for t in terms) and (lab == "t") == pol


def removal(ck):
    ck.rule("kept", "a task leaves the collection which keeps it only after it finished", 1)
    P = ck.p
    keep = set()
    for _, _, _, k in creators(ck):
        keep |= k
    U = {u.qual for u in unmounters(ck)}
    ex = role(P, LAYOUT, "__aexit__")
    fx = flow(ck, ex, OPAQUE | U)
    used = set()
    for i in fx.g.live():
        if i.op == "iter":
            used |= _attrs_of(fx, i.a["src"], i)
    for i in fx.g.calls():
        if fx.callee_key(i).rsplit(".", 1)[-1] in ("gather", "wait"):
            for a in i.a["args"]:
                used |= _attrs_of(fx, a, i)
    keep &= used
    n = 0
    # containers which receive tasks only in completion callbacks
    done_containers, callbacks = set(), set()
    for f in [x for x in P.funcs.values() if x.module.name in MODS and x.parent is None]:
        for m in ast.walk(f.node):
            if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr == "add_done_callback" and m.args:
                t = resolve_func(P, f, m.args[0])
                if t is not None:
                    callbacks.add(t.qual)
    for q in callbacks:
        fq = flow(ck, P.funcs[q], OPAQUE, inline=_none)
        for i in fq.g.calls():
            if fq.callee_key(i) in (".append", ".add", ".put_nowait", ".appendleft"):
                done_containers |= self_attr_names(fq, fq.recv(i), i)
    for f in [x for x in P.funcs.values() if x.module.name in MODS and x.parent is None and x.name != "__aexit__"]:
        if not any(isinstance(m, ast.Attribute) and m.attr in keep for m in ast.walk(f.node)):
            continue
        fl = flow(ck, f, OPAQUE, inline=_none)
        for i in fl.g.live():
            attrs, key, how = set(), None, None
            if i.op == "call" and fl.callee_key(i) in (".discard", ".remove", ".pop", ".clear", ".popitem"):
                attrs = self_attr_names(fl, fl.recv(i), i)
                key = i.a["args"][0] if i.a["args"] else None
            elif i.op == "delitem":
                attrs, key = self_attr_names(fl, i.a["obj"], i), i.a["key"]
            elif i.op == "setattr" and f.name not in ("__init__", "__aenter__"):
                attrs = {i.a["attr"]}
            if not attrs & keep:
                continue
            n += 1
            good = f.qual in callbacks
            if key is not None and not good:
                dep = {fl.g.instrs[d].a["attr"] for d in fl.depends(key, i) if fl.g.instrs[d].op == "getattr"}
                good = bool(dep & done_containers)
                if not good:
                    # the task's own coroutine, in a finally or at its end
                    good = f.qual in _task_coros(ck) and fl.reach_avoiding([s for s, _ in i.succ], lambda x: x.op == "await", lambda x: False) is None
                if not good:
                    dones = {b.id: l for b in fl.g.live() if b.op == "branch" for l in ("t", "f") if _done_edge(fl, b, l)}
                    good = bool(dones) and fl.reach_avoiding([0], lambda x: x.id == i.id, lambda x: False, lambda a, l, b: not (a.id in dones and l == dones[a.id])) is None
            elif i.op == "call" and fl.callee_key(i) == ".clear":
                good = good or any(c.id for c in fl.g.calls() if fl.callee_key(c) == ".cancel")
            ck.ob(good, f"{name_of(f)}: removal from {'/'.join(sorted(attrs & keep))}", i.loc, "a task may be forgotten while it still runs")
    ck.need(n, "finished tasks are removed")


def _task_coros(ck):
    out = set()
    for f, fl, call, _ in creators(ck):
        for a in call.a["args"]:
            for t in fl.terms(a, call):
                if t[0] == "call" and t[1] in ck.p.funcs:
                    out.add(t[1])
    return out


def swallow(ck):
    ck.rule("cancellable", "a task of the layout does not go on after it was cancelled", 2)
    P = ck.p
    n = 0
    for q in sorted(_task_coros(ck)):
        f = P.funcs[q]
        fl = flow(ck, f, OPAQUE)
        n += 1

        def step(i, lab, st, env):
            if st == "on":
                return [st]
            if lab == "c":
                return ["C"]
            if st == "C" and i.op == "catch":
                return ["H"]
            if st in ("C", "H") and cancelled_edge(fl, i, lab, env) in (False, "never"):
                return []
            if st == "H":
                if i.op == "raise":
                    return ["C"]
                if i.op in ("await", "yield") and lab == "n":
                    return ["on"]
            return [st]

        typestate(ck, fl, "0", step, lambda kind, st: not (st == "on" or st == "H" and kind == "exit"), f"{name_of(f)}: cancellation",
                  "a cancelled task swallows its cancellation and goes on")
    ck.need(n, "coroutines which run as tasks")


def closed(ck):
    tree.decide(ck, "closed", "whatever was rendered, and whatever tasks are under way, failed or were cancelled, closing the layout unmounts each component once", "close")


RULES = [closing, removal, swallow, closed]
