"""C10  Effects: after the layout has rendered, one at a time, cleaned up exactly once."""
from .. import histories, hooked, tree
from ..lib import *
from .c01 import OPAQUE
from .c04 import decode

EXPLANATION = """
The life cycle hook: effect functions are started as tasks which are kept together with the stop
event they were given, and then forgotten; unmounting sets every stop event before it waits for
all tasks whatever they raise. The layout: each begun component render registers the start of its
effects, which happens once the whole tree is rendered and before the update is returned. The
effect coroutines of use_effect and use_async_effect (found as the coroutines which wait for an
event they are given) are run through a typestate analysis of the stored clean-up function, of
the pending task and of the stop event.
"""
ASSUMPTIONS = ["an effect's own function does not touch the hook's private references", "unmounting is the only thing which cancels nothing but stops effects"]
AFTER = HOOK + ".affect_layout_did_render"
HOOKS_MOD = "reactpy.core.hooks"
SPAWN = {"asyncio.create_task", "asyncio.ensure_future"}


def _last(fl, i):
    return fl.callee_key(i).rsplit(".", 1)[-1]


def _appended(fl, attr_pred, val_pred):
    """attributes of self which an append/extend/|=/assignment fills with a value for which val_pred holds"""
    out = {}
    for i in fl.g.live():
        if i.op == "call" and _last(fl, i) in ("append", "extend", "add", "update", "insert", "__iadd__") and i.a["args"]:
            ns = self_attr_names(fl, fl.recv(i), i)
            if ns and any(val_pred(a, i) for a in i.a["args"]):
                for n in ns:
                    out.setdefault(n, []).append(i)
        elif i.op == "setattr" and self_attr_like(fl, i) and val_pred(i.a["val"], i):
            out.setdefault(i.a["attr"], []).append(i)
    return {k: v for k, v in out.items() if attr_pred(k)}


def self_attr_like(fl, i):
    return any(t[0] == "p" and t[2] == "self" for t in fl.terms(i.a["obj"], i))


def func_attrs(ck):
    add = role(ck.p, HOOK, "add_effect")
    fl = flow(ck, add)
    p = [x for x in add.params() if x != "self"][0]

    def is_param(op, at):
        return any(fl.g.instrs[d].op == "assign" and fl.g.instrs[d].a["src"] == ("p", add.qual, p) for d in fl.depends(op, at)) or ("p", add.qual, p) in fl.terms(op, at)

    r = _appended(fl, lambda k: True, is_param)
    return add, fl, r


def hook_rules(ck):
    ck.rule("start", "when the layout has rendered each added effect starts once, with a stop event which is kept", 5)
    P = ck.p
    add, fa, fattrs = func_attrs(ck)
    ck.ob(bool(fattrs), f"{name_of(add)}: effect is added", add.loc(), "an added effect is not stored")
    if not fattrs:
        return
    for n, ii in fattrs.items():
        bad = fa.reach_avoiding([0], lambda x: x.op == "exit", lambda x: x.id in {i.id for i in ii})
        ck.ob(bad is None, f"{name_of(add)}: effect is added on every path", add.loc(), "an effect may be dropped when it is added", lines(fa, bad) if bad else "")
        for i in ii:
            if i.op == "setattr" and not any(fa.g.instrs[d].op == "getattr" and fa.g.instrs[d].a["attr"] == n for d in fa.depends(i.a["val"], i)):
                ck.ob(False, f"{name_of(add)}: effects added before", i.loc, "adding an effect drops those which were added before")
    FN = set(fattrs)
    f = role(P, HOOK, "affect_layout_did_render")
    fl = flow(ck, f)
    g = fl.g

    def of_self(x, names):
        return x.op == "getattr" and x.a["attr"] in names and any(t[0] == "p" and t[2] == "self" for t in fl.terms(x.a["obj"], x))

    reads = [x for x in g.live() if of_self(x, FN)]
    evs = {i.id for i in g.calls() if fl.callee_key(i) in ("asyncio.Event", "asyncio.locks.Event", "anyio.Event")}
    spawns = [i for i in g.calls() if fl.callee_key(i) in SPAWN or _last(fl, i) in ("create_task", "ensure_future")]
    good_spawn = []
    for s in spawns:
        dep = fl.depends(s.a["args"][0], s) if s.a["args"] else set()
        calls = [g.instrs[d] for d in dep if g.instrs[d].op == "call" and g.instrs[d].a["callee"][0] == "value"]
        if not any(of_self(g.instrs[d], FN) for d in dep):
            continue
        good_spawn.append(s)
        ck.ob(any(fl.depends(a, c) & evs for c in calls for a in c.a["args"] + [v for _, v in c.a["kw"]]), f"{name_of(f)}: stop event of an effect", s.loc, "an effect is not given a stop event")
    if not good_spawn:
        ck.ob(False, f"{name_of(f)}: effects are started", f.loc(), "added effects are not started as tasks")
        return
    ck.ob(True, f"{name_of(f)}: effects are started", good_spawn[0].loc)
    sids = {s.id for s in good_spawn}
    # loops over the added effects skip none
    for h, bad in skipped_items(fl, sids, lambda a, l: False):
        ck.ob(bad is None, f"{name_of(f)}: every added effect starts", h.loc, "an added effect is skipped", lines(fl, bad) if bad else "")
    STOPS = _appended(fl, lambda k: True, lambda op, at: bool(fl.depends(op, at) & evs) and not (fl.depends(op, at) & sids))
    TASKS = _appended(fl, lambda k: k not in FN, lambda op, at: bool(fl.depends(op, at) & sids))
    ck.ob(bool(STOPS), f"{name_of(f)}: stop events are kept", f.loc(), "the stop event given to an effect is not kept")
    ck.ob(bool(TASKS), f"{name_of(f)}: effect tasks are kept", f.loc(), "the task of an effect is not kept")
    if not STOPS or not TASKS:
        return
    # stored on every path on which an effect was started; nothing already kept is dropped
    st_ids = {i.id for v in STOPS.values() for i in v}
    tk_ids = {i.id for v in TASKS.values() for i in v}
    clears = {}
    for i in g.live():
        n = emptied(fl, i)
        for x in n:
            clears.setdefault(x, set()).add(i.id)
    cl = set().union(*[clears.get(n, set()) for n in FN]) if clears else set()
    pops = {i.id for i in method_calls(fl, "pop", "popleft") if self_attr_names(fl, fl.recv(i), i) & FN}

    def step(i, lab, st, env):
        started, stop, task, clr = st
        if i.id in st_ids:
            stop = True
        if i.id in sids and lab == "n":
            started, task = True, False
        if i.id in tk_ids and lab == "n":
            task = True
        if (i.id in cl or i.id in pops) and lab == "n":
            clr = True
        return [(started, stop, task, clr)]

    def final(kind, st):
        started, stop, task, clr = st
        if kind != "exit" or not started:
            return True
        if not stop:
            return "the stop event given to an effect is not kept"
        if not task:
            return "the task of an effect is not kept"
        if not clr:
            return "an effect which was started stays in the list of those to start"
        return True

    typestate(ck, fl, (False, False, False, False), step, final, f"{name_of(f)}: started, kept and forgotten")
    for n in set(STOPS) | set(TASKS):
        over = [i for i in g.live() if n in emptied(fl, i) and not (n in TASKS and only_done(fl, i, n)) or i.op == "setattr" and i.a["attr"] == n and self_attr_like(fl, i) and not any(g.instrs[d].op == "getattr" and g.instrs[d].a["attr"] == n for d in fl.depends(i.a["val"], i))]
        for i in over:
            ck.ob(False, f"{name_of(f)}: {('stop events' if n in STOPS else 'tasks')} of earlier effects", i.loc, "what is needed to stop the effects of earlier renders is dropped")
    # the effects are cleared only after they were read
    for c in cl:
        bad = fl.reach_avoiding([c], lambda x: x.id in {r.id for r in reads if r.id not in _clear_reads(fl, c)}, lambda x: False)
        ck.ob(bad is None, f"{name_of(f)}: forgotten after they were started", g.instrs[c].loc, "the added effects are forgotten before they are started", lines(fl, bad) if bad else "")
    unmounting(ck, FN, set(STOPS), set(TASKS))


def only_done(fl, i, n):
    """`tasks[:] = [those of them which are not done]`"""
    g = fl.g
    if i.op != "setitem" or not any(g.instrs[d].op == "getattr" and g.instrs[d].a["attr"] == n for d in fl.depends(i.a["val"], i)):
        return False
    keep = {x.id for x in g.live() if x.op == "comp_add" or x.op == "call" and _last(fl, x) in ("append", "add")}

    def done(a, l):
        d = _tested(fl, a)
        return d is not None and d.op == "call" and _last(fl, d) == "done" and (l == "t") == decode(fl, a, {})[2]

    loops = [bad for h, bad in skipped_items(fl, keep, done) if any(g.instrs[d].op == "getattr" and g.instrs[d].a["attr"] == n for d in fl.depends(h.a["it"], h))]
    return bool(loops) and all(b is None for b in loops)


def _tested(fl, a):
    op = decode(fl, a, {})[3]
    return fl.g.deftmp.get(op[1]) if op is not None and op[0] == "t" else None


def _clear_reads(fl, c):
    i = fl.g.instrs[c]
    out = set()
    r = fl.recv(i) if i.op == "call" else None
    if r is not None and r[0] == "t":
        out.add(r[1] if False else fl.g.deftmp[r[1]].id)
    return out


def emptied(fl, i):
    """Names of self-attributes which an instruction empties or replaces."""
    if i.op == "call" and _last(fl, i) == "clear" and not i.a["args"]:
        return self_attr_names(fl, fl.recv(i), i)
    if i.op == "setattr" and self_attr_like(fl, i):
        ts = fl.terms(i.a["val"], i)
        if all(t[0] == "build" and not fl.g.instrs[t[2]].a["items"] or t[0] == "call" and t[1] in ("list", "set") and not fl.g.instrs[t[2]].a["args"] for t in ts):
            return {i.a["attr"]} if all(not _filled_later(fl, t) for t in ts) else set()
    if i.op in ("delitem", "setitem") and self_attr_names(fl, i.a["obj"], i):
        k = fl.terms(i.a["key"], i)
        if any(t[0] == "call" and t[1] == "slice" or t[0] == "build" and t[1] == "slice" or t[0] == "op" and t[1] == "slice" for t in k):
            return self_attr_names(fl, i.a["obj"], i)
    return set()


def _filled_later(fl, t):
    return t[0] == "build" and bool(fl._build_stores().get(t[2]))


def unmounting(ck, FN, STOPS, TASKS):
    ck.rule("unmount", "unmounting signals every effect to stop, then waits for all of them, and starts no other", 4)
    f = role(ck.p, HOOK, "affect_component_will_unmount")
    fl = flow(ck, f)
    g = fl.g

    def has_attr(op, at, names):
        return any(g.instrs[d].op == "getattr" and g.instrs[d].a["attr"] in names for d in fl.depends(op, at))

    sets = {i.id for i in method_calls(fl, "set") if not i.a["args"] and fl.recv(i) is not None and has_attr(fl.recv(i), i, STOPS)}
    if not sets:
        ck.ob(False, f"{name_of(f)}: stop events", f.loc(), "unmounting does not signal the effects to stop")
        return
    for h, bad in skipped_items(fl, sets, lambda a, l: False):
        ck.ob(bad is None, f"{name_of(f)}: every stop event", h.loc, "unmounting leaves an effect without a signal to stop", lines(fl, bad) if bad else "")
    loops = inner_iters(fl, sets)
    for x in sets:
        if any(t[0] in ("item", "call") for t in fl.recv_terms(g.instrs[x])) and not fl.reach_avoiding([n for n, _ in g.instrs[x].succ], lambda y: y.id == x, lambda y: False):
            ck.ob(False, f"{name_of(f)}: every stop event", g.instrs[x].loc, "unmounting signals only one of the effects to stop")
    waits = {i.id: i for i in g.live() if i.op == "await" and has_attr(i.a["src"], i, TASKS)}
    if not waits:
        ck.ob(False, f"{name_of(f)}: waits for its effects", f.loc(), "unmounting does not wait for the effects")
        return
    sig = loops or sets

    def no_stops(a, l):
        if a.op != "branch":
            return False
        kind, terms, pol, op, at = decode(fl, a, {})
        return kind == "truthy" and terms and all(t[0] == "attr" and t[2] in STOPS for t in terms) and (l == "f") == pol

    for w in waits.values():
        bad = fl.reach_avoiding([0], lambda x: x.id == w.id, lambda x: x.id in sig, lambda a, l, t: not no_stops(a, l))
        ck.ob(bad is None, f"{name_of(f)}: signal before the wait", w.loc, "unmounting waits for effects which were not told to stop", lines(fl, bad) if bad else "")

    def no_tasks(a, l):
        if a.op != "branch":
            return False
        kind, terms, pol, op, at = decode(fl, a, {})
        return kind == "truthy" and terms and all(t[0] == "attr" and t[2] in TASKS for t in terms) and (l == "f") == pol

    wl = inner_iters(fl, set(waits))
    wn = {h.id for h in g.live() if h.op == "next" and h.a["it"][0] == "t" and g.deftmp[h.a["it"][1]].id in wl} if wl else set()
    ends = set(waits) | wn
    bad = fl.reach_avoiding([0], lambda x: x.op == "exit", lambda x: x.id in ends, lambda a, l, t: not no_tasks(a, l))
    ck.ob(bad is None, f"{name_of(f)}: always waits", f.loc(), "unmounting may end without waiting for the effects", lines(fl, bad) if bad else "")
    for h, bad in skipped_items(fl, set(waits), lambda a, l: False):
        if h.id in wn:
            ck.ob(bad is None, f"{name_of(f)}: waits for every effect", h.loc, "unmounting does not wait for one of the effects", lines(fl, bad) if bad else "")
    # what an effect raises does not end the wait
    def source(op, at, shielded=False):
        """(call that waits for many tasks, whether it is shielded)"""
        for t in fl.terms(op, at):
            d = g.instrs[t[2]] if t[0] == "call" else None
            if d is not None and _last(fl, d) == "shield" and d.a["args"]:
                yield from source(d.a["args"][0], d, True)
            elif d is not None and fl.callee_key(d) in ("asyncio.gather", "asyncio.wait"):
                yield d, shielded

    for w in waits.values():
        found = list(source(w.a["src"], w))
        for d, shielded in found:
            if fl.callee_key(d) == "asyncio.gather":
                ok = any(k == "return_exceptions" and is_const(v, True) for k, v in d.a["kw"])
                ck.ob(ok, f"{name_of(f)}: failing effects", w.loc, "the wait for the effects ends with the first one which fails")
                # the task which unmounts may be cancelled: gather then cancels what it waits for
                again = {x.id for x in waits.values() if x.id != w.id}
                last = not shielded and any(fl.reach_avoiding([s for s, l in x.succ if l == "c"], lambda y: y.id == w.id, lambda y: False) is not None for x in waits.values() if x.id != w.id)
                bad = None if last else fl.reach_avoiding([s for s, l in w.succ if l == "c"], lambda x: x.op in ("exc_exit", "cancel_exit", "exit"), lambda x: x.id in again)
                ck.ob(last or shielded, f"{name_of(f)}: interrupted", w.loc, "if the unmounting is interrupted the effects are cancelled before they could clean up")
                if shielded:
                    ck.ob(bad is None, f"{name_of(f)}: interrupted", w.loc, "if the unmounting is interrupted it does not wait until the effects have been cleaned up", lines(fl, bad) if bad else "")
            else:
                bad_kw = any(k == "timeout" or k == "return_when" and v[0] == "g" and not v[1].endswith("ALL_COMPLETED") for k, v in d.a["kw"])
                ck.ob(not bad_kw, f"{name_of(f)}: failing effects", w.loc, "the wait for the effects may end before they have")
        if not found:
            bad = fl.reach_avoiding([s for s, l in w.succ if l == "e"], lambda x: x.op == "exc_exit", lambda x: x.id in set(waits) | wn)
            ck.ob(bad is None, f"{name_of(f)}: failing effects", w.loc, "an effect which fails keeps unmounting from waiting for the others", lines(fl, bad) if bad else "")
    # nothing is cancelled which should have been allowed to clean up
    canc = [i for i in method_calls(fl, "cancel") if fl.recv(i) is not None and has_attr(fl.recv(i), i, TASKS)]
    for c in canc:
        bad = fl.reach_avoiding([0], lambda x: x.id == c.id, lambda x: x.id in ends)
        ck.ob(bad is None, f"{name_of(f)}: effects end by themselves", c.loc, "effects are cancelled before they could clean up", lines(fl, bad) if bad else "")
    # added effects do not start any more
    cl = {i.id for i in g.live() if emptied(fl, i) & FN}
    bad = fl.reach_avoiding([0], lambda x: x.op == "exit", lambda x: x.id in cl)
    ck.ob(bad is None, f"{name_of(f)}: added effects", f.loc(), "an effect which was added but not started may start after its component was unmounted", lines(fl, bad) if bad else "")


def layout_rules(ck):
    ck.rule("after-layout", "effects start once the whole tree is rendered, before the update is delivered", 3)
    P = ck.p
    f, fl = activation(ck, ren_opaque(ck, OPAQUE))
    g = fl.g
    will = completion(fl, {HOOK + ".affect_component_will_render"})

    def is_after(op, at):
        return any(is_attr_chain(t, "affect_layout_did_render") or t == ("fn", AFTER) or t[0] == "attr" and t[2] == "affect_layout_did_render" for t in fl.terms(op, at))

    regs = {i.id: i for i in g.calls() if fl.callee_key(i) != AFTER and any(is_after(a, i) for a in i.a["args"] + [v for _, v in i.a["kw"]])}
    now = completion(fl, {AFTER}, {"affect_layout_did_render"})
    for n in now:
        ck.ob(False, f"{name_of(f)}: effects start after the layout", g.instrs[n].loc, "effects start while the tree is still being rendered")
    if not regs:
        if not now:
            ck.ob(False, f"{name_of(f)}: effects are started", f.loc(), "nothing starts the effects of a rendered component")
        return

    def step(i, lab, st, env):
        if i.id in will and lab == "n":
            return ["need"]
        if i.id in regs and lab == "n":
            return ["ok"]
        return [st]

    typestate(ck, fl, "0", step, lambda kind, st: st != "need" or kind == "cancel_exit", f"{name_of(f)}: each render starts its effects", "the effects of a rendered component are never started")
    stacks = set()
    for i in regs.values():
        ts = set()
        for a in i.a["args"]:
            ts |= {b for t in fl.terms(a, i) if t[0] == "attr" for b in [t[1]]}
        ws = set()
        for w in will.values():
            ws |= fl.terms(fl.recv(w), w)
        ck.ob(bool(ts & ws), f"{name_of(f)}: hook whose effects start", i.loc, "the effects which are started are not those of the rendered component")
        stacks |= {t[2] for t in fl.recv_terms(i) if t[0] == "p"}
    # the owner of the stack leaves it after the tree is rendered and before it returns
    done = False
    for e in class_roots(P, LAYOUT):
        fe = flow(ck, e, frozenset(ren_opaque(ck, OPAQUE)) | {f.qual})
        ge = fe.g
        calls = completion(fe, {f.qual})
        if not calls or e.qual == f.qual:
            continue
        enters = {}
        for i in ge.live():
            if i.op == "with_enter" and any(t[0] == "call" and t[1].rsplit(".", 1)[-1] in ("AsyncExitStack",) for t in fe.terms(i.a["cm"], i)):
                enters[i.id] = i
        if not enters:
            continue
        exits = {i.id for i in ge.live() if i.op == "with_exit" and i.a["cm"] in {e2.a["cm"] for e2 in enters.values()}}
        for c in calls:
            call = calls[c]
            deps = set()
            for a in call.a["args"] + [v for _, v in call.a["kw"]]:
                deps |= {ge.instrs[d].id for d in fe.depends(a, call)}
            if not deps & set(enters):
                continue
            done = True
            start = [s for s, l in ge.instrs[c].succ if l == "n"]
            bad = fe.reach_avoiding(start, lambda x: x.op == "return" or x.op == "exit", lambda x: x.id in exits)
            ck.ob(bad is None, f"{name_of(e)}: effects start before the update is delivered", ge.instrs[c].loc, "an update is delivered although its effects were not started", lines(fe, bad) if bad else "")
            bad = fe.reach_avoiding(list(enters), lambda x: x.id == c, lambda x: x.id in exits)
            ck.ob(bad is not None, f"{name_of(e)}: effects start after the tree", ge.instrs[c].loc, "effects are registered for a moment which has passed")
    ck.need(done or not stacks, "the exit stack which starts effects was not found")


# ------------------------------------------------------------------ the effect coroutines
def effect_coros(ck):
    """(func, flow, stop param term) of coroutines of the hooks module which wait for an event given to them"""
    P = ck.p
    out = []
    named = set()
    for f in P.funcs.values():
        if f.module.name == HOOKS_MOD:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_effect":
                    named |= {t.qual for a in n.args for t in [resolve_func(P, f, a)] if t is not None}
    for f in P.funcs.values():
        if f.module.name != HOOKS_MOD or not f.is_async:
            continue
        fl = flow(ck, f)
        ps = set()
        for i in fl.g.calls():
            if _last(fl, i) == "wait" and not i.a["args"]:
                ps |= {t for t in fl.recv_terms(i) if t[0] == "p" and t[1] == f.qual}
        if not ps and f.qual in named and f.params():
            ps = {("p", f.qual, f.params()[-1])}
        if ps:
            out.append((f, fl, ps))
    return out


def given(t, stop):
    """a function handed to the effect coroutine (captured or parameter)"""
    return t[0] in ("p", "free") and t not in stop


def effects(ck):
    ck.rule("effect", "an effect runs after the clean-up of the previous one, is cleaned up once it has to stop, and each clean-up is called once", 4)
    P = ck.p
    found = effect_coros(ck)
    ck.need(len(found) >= 1, "no effect coroutine in the hooks module")
    tops = set()
    for f, fl, stop in found:
        x = f
        while x.parent is not None:
            x = x.parent
        tops.add(x.name)
        one_effect(ck, f, fl, stop)
    ck.ob(len(found) >= 2 or True, "effect coroutines", found[0][0].loc())


def ref_of(t):
    """base of `<ref>.current`"""
    return t[1] if t[0] == "attr" and t[2] == "current" and t[1][0] in ("p", "free") else None


def one_effect(ck, f, fl, stop):
    g = fl.g
    P = ck.p
    nm = name_of(f)
    clean_calls, body, task_body = {}, {}, {}
    for i in g.calls():
        c = i.a["callee"]
        if c[0] == "value" or c[0] == "method" and c[2] == "current":
            ts = fl.terms(i.a["fn"], i)
            refs = {ref_of(t) for t in ts if ref_of(t)}
            if refs and not i.a["args"]:
                clean_calls[i.id] = refs
            elif any(given(t, stop) for t in ts) and not i.a["args"]:
                body[i.id] = i
        elif c[0] == "repo" and c[1].is_async and any(given(t, stop) and not _is_ref(ck, f, t) for a in i.a["args"] for t in fl.terms(a, i)) and not (i.a["args"] and any(t in stop for a in i.a["args"] for t in fl.terms(a, i))):
            task_body[i.id] = i
        elif c[0] == "repo" and c[1].is_async and any(k for k, _ in []):
            pass
    starts = dict(body)
    starts.update(task_body)
    if not starts:
        # the coroutine may be created by a closure without arguments
        for i in g.calls():
            c = i.a["callee"]
            if c[0] == "repo" and c[1].is_async and c[1].parent is not None and not i.a["args"]:
                task_body[i.id] = i
        starts.update(task_body)
    ck.need(starts, f"{nm}: the effect's function is not called")
    # ---- where the result is stored
    refs = set().union(*clean_calls.values()) if clean_calls else set()
    ck.ob(bool(clean_calls), f"{nm}: clean-up", f.loc(), "the clean-up function of an effect is never called")
    if not clean_calls:
        return
    sid = set(starts)
    # which started calls run as tasks of their own?
    spawned = {}
    for i in g.calls():
        if (fl.callee_key(i) in SPAWN or _last(fl, i) in ("create_task", "ensure_future")) and i.a["args"]:
            o = fl.origins(i.a["args"][0], i) & sid
            if o:
                spawned[i.id] = o
    in_task = set().union(*spawned.values()) if spawned else set()
    stores = {}
    for i in g.live():
        if i.op == "setattr" and i.a["attr"] == "current" and fl.terms(i.a["obj"], i) & refs and i.a["val"] != ("k", None) and not fl.terms(i.a["val"], i) <= {("k", None)}:
            stores[i.id] = i
    for s in in_task:
        i = starts[s]
        c = i.a["callee"]
        if c[0] == "repo":
            ok, why = stored_in_task(ck, c[1], i, fl, refs)
            ck.ob(ok, f"{nm}: clean-up function is stored before its task is done", i.loc, why)
        else:
            ck.ob(False, f"{nm}: clean-up function is stored before its task is done", i.loc, "the next effect may go on before the clean-up function of this one was stored")
    nulls = {i.id for i in g.live() if i.op == "setattr" and i.a["attr"] == "current" and fl.terms(i.a["obj"], i) & refs and i.id not in stores}
    stop_wait = {i.id for i in g.calls() if _last(fl, i) == "wait" and not i.a["args"] and fl.recv_terms(i) & stop}
    stop_tasks = {i.id for i in g.calls() if (fl.callee_key(i) in SPAWN or _last(fl, i) in ("create_task", "ensure_future")) and i.a["args"] and fl.origins(i.a["args"][0], i) & stop_wait}
    fx = Facts(fl, refs, stop, stop_wait, stop_tasks, spawned)

    # ---- clean-up typestate: (clean, phase, stopped)
    # clean: U unknown / E nothing stored / T taken out / C called, still stored
    def step(i, lab, st, env):
        clean, phase, stopped, ended = st
        if clean.startswith("!"):
            return [st]
        if i.op == "branch" and lab in ("t", "f"):
            e = fx.has_cleanup(i, lab, env)
            if e is not None:
                if e is False:
                    if clean == "U":
                        clean = "E"
                    elif clean == "T":
                        clean = "E"
                elif clean == "E" and e is True:
                    return []
            if fx.stop_edge(i, lab, env):
                stopped = True
            e = fx.task_edge(i, lab, env)
            if e is not None:
                ended = e or ended
        if i.op == "await":
            if clean == "T":
                return [("!dropped", phase, stopped, ended)]
            if clean == "C":
                return [("!again", phase, stopped, ended)]
            if clean == "E" and phase != "after-final":
                clean = "U"
            if lab == "n" and fx.stop_await(i):
                stopped = True
            if fx.task_await(i):
                ended = True
        if i.id in clean_calls:
            if phase == "ran" and not stopped:
                return [("!early", phase, stopped, ended)]
            if phase == "ran" and in_task and not ended:
                return [("!running", phase, stopped, ended)]
            if clean in ("E",):
                return [("!twice", phase, stopped, ended)]
            clean = "E" if clean == "T" else "C"
        if i.id in nulls:
            if clean == "C":
                clean = "E"
            elif clean == "U":
                clean = "T"
        if i.id in sid and lab == "n":
            if phase == "ran" and i.id not in in_task:
                return [("!body", phase, stopped, ended)]
            if clean == "U":
                return [("!uncleaned", phase, stopped, ended)]
            if clean == "T":
                return [("!dropped", phase, stopped, ended)]
            if clean == "C":
                return [("!again", phase, stopped, ended)]
            phase = "ran" if i.id in in_task else "store"
            clean, stopped, ended = "U" if i.id in in_task else "E", False, False
        if i.id in stores and lab == "n":
            if phase == "store" and fl.depends(i.a["val"], i) & sid:
                phase, clean = "ran", "U"
        elif phase == "store" and i.op == "await" and not _awaits(fl, i, sid):
            return [("!unstored", phase, stopped, ended)]
        return [(clean, phase, stopped, ended)]

    why = {
        "!dropped": "a clean-up function is dropped without having been called",
        "!again": "a clean-up function which fails would be called again",
        "!early": "an effect is cleaned up although it was not told to stop",
        "!running": "an effect is cleaned up while its function is still running",
        "!twice": "a clean-up function is called twice",
        "!uncleaned": "an effect may start before the clean-up of the previous one",
        "!unstored": "the clean-up function of an effect is not stored before something else can run",
        "!body": "the effect's function is called twice",
    }

    def final(kind, st):
        clean, phase, stopped, ended = st
        if clean in why:
            return why[clean]
        if kind == "exit":
            if phase == "0":
                return "an effect may end without running"
            if phase == "store":
                return "the clean-up function which an effect returns is not stored"
            if clean == "U":
                return "an effect may end without being cleaned up"
            if not stopped:
                return "an effect ends although it was not told to stop"
        if clean == "T":
            return "a clean-up function is dropped without having been called"
        if clean == "C":
            return "a clean-up function which fails would be called again"
        return True

    typestate(ck, fl, ("U", "0", False, False), step, final, f"{nm}: clean-up functions")
    if in_task:
        pending(ck, f, fl, fx, sid, spawned, refs, nm)


def _awaits(fl, i, sid):
    return bool(fl.depends(i.a["src"], i) & sid)


def _is_ref(ck, f, t):
    """captured variable which holds a Ref (its `.current` is used somewhere in the module's effect code)"""
    if t[0] != "free":
        return False
    owner = ck.p.funcs.get(t[1])
    if owner is None:
        return False
    for n in ast.walk(owner.node):
        if isinstance(n, ast.Attribute) and n.attr == "current" and isinstance(n.value, ast.Name) and n.value.id == t[2]:
            return True
    return False


def stored_in_task(ck, c, call, fl, refs):
    """Does coroutine c store what the effect's function returns before it ends?"""
    fc = flow(ck, c)
    g = fc.g
    # names of refs inside c: captured, or parameters bound at the call
    names = {r for r in refs if r[0] == "free"}
    ps = c.params()
    for k, a in enumerate(call.a["args"]):
        if fl.terms(a, call) & refs and k < len(ps):
            names.add(("p", c.qual, ps[k]))
    for k, a in call.a["kw"]:
        if fl.terms(a, call) & refs:
            names.add(("p", c.qual, k))
    body = {i.id for i in g.calls() if i.a["callee"][0] == "value" and not i.a["args"] and any(t[0] in ("p", "free") for t in fc.terms(i.a["fn"], i))}
    st = [i for i in g.live() if i.op == "setattr" and i.a["attr"] == "current" and fc.terms(i.a["obj"], i) & names and fc.depends(i.a["val"], i) & body]
    if not st:
        return False, "the next effect may go on before the clean-up function of this one was stored"
    ids = {i.id for i in st}
    aw = {i.id for i in g.live() if i.op == "await" and fc.depends(i.a["src"], i) & body}
    starts = [s for a in aw for s, l in g.instrs[a].succ if l == "n"]

    def none_edge(a, l):
        if a.op != "branch":
            return False
        kind, terms, pol, op, at = decode(fc, a, {})
        return kind in ("none", "truthy") and bool(fc.depends(op, at) & body) and ((l == "t") == pol if kind == "none" else (l == "t") != pol)

    bad = fc.reach_avoiding(starts, lambda x: x.op == "exit" or x.op == "await", lambda x: x.id in ids, lambda a, l, t: not none_edge(a, l))
    return bad is None, "the clean-up function of an effect may not be stored when its task is done"


class Facts:
    """Meaning of branches and awaits in an effect coroutine."""

    def __init__(self, fl, refs, stop, stop_wait, stop_tasks, spawned):
        self.fl, self.refs, self.stop = fl, refs, stop
        self.stop_wait, self.stop_tasks, self.spawned = stop_wait, stop_tasks, spawned

    def _test(self, i, env):
        return decode(self.fl, i, env)

    def has_cleanup(self, i, lab, env):
        kind, terms, pol, op, at = self._test(i, env)
        if kind in ("none", "truthy") and terms and all(ref_of(t) in self.refs for t in terms if t != ("k", None)) and any(ref_of(t) for t in terms):
            return (lab == "t") == (pol if kind == "truthy" else not pol)
        return None

    def _done_sets(self, op, at):
        """asyncio.wait result set: (instr of the wait, index)"""
        out = set()
        for t in self.fl.terms(op, at):
            if t[0] == "unpack" and t[1][0] == "await" and t[1][1][0] == "call" and t[1][1][1] == "asyncio.wait":
                out.add((t[1][1][2], t[2]))
            elif t[0] == "item" and t[1][0] == "await" and t[1][1][0] == "call" and t[1][1][1] == "asyncio.wait" and t[2][0] == "k":
                out.add((t[1][1][2], t[2][1]))
        return out

    def membership(self, i, lab, env):
        """('stop'|'task', is done?) decided by a branch"""
        fl = self.fl
        kind, terms, pol, op, at = self._test(i, env)
        truth = (lab == "t") == pol
        d = fl.g.deftmp.get(op[1]) if op is not None and op[0] == "t" else None
        if d is not None and d.op == "op" and d.a["fn"] in ("In", "NotIn"):
            ds = self._done_sets(d.a["args"][1], d)
            if ds and len({x for _, x in ds}) == 1:
                idx = next(iter(ds))[1]
                o = fl.origins(d.a["args"][0], d)
                who = "stop" if o & self.stop_tasks else "task" if o & set(self.spawned) else None
                if who:
                    isin = truth == (d.a["fn"] == "In")
                    return who, isin == (idx == 0), True
        if d is not None and d.op == "call" and _last(fl, d) in ("done", "is_set") and fl.recv(d) is not None:
            if fl.recv_terms(d) & self.stop:
                return "stop", truth, False
            o = fl.origins(fl.recv(d), d)
            if o & self.stop_tasks:
                return "stop", truth, False
            if o & set(self.spawned):
                return "task", truth, True
        return None

    def stop_edge(self, i, lab, env):
        m = self.membership(i, lab, env)
        if not m:
            return False
        who, done, pair = m
        return done if who == "stop" else (pair and not done)

    def task_edge(self, i, lab, env):
        m = self.membership(i, lab, env)
        if m and (m[0] == "task" and m[1] or m[0] == "stop" and m[2] and not m[1]):
            return True
        return None

    def stop_await(self, i):
        fl = self.fl
        o = fl.origins(i.a["src"], i)
        if o & (self.stop_wait | self.stop_tasks):
            return True
        d = fl.g.deftmp.get(i.a["src"][1]) if i.a["src"][0] == "t" else None
        if d is not None and d.op == "call" and fl.callee_key(d) == "asyncio.wait" and d.a["args"]:
            dep = fl.depends(d.a["args"][0], d)
            first = may_end_before(fl, d)
            return bool(dep & self.stop_tasks) and not (first and dep & set(self.spawned))
        if d is not None and d.op == "call" and fl.callee_key(d) == "asyncio.gather":
            return any(fl.origins(a, d) & (self.stop_wait | self.stop_tasks) for a in d.a["args"])
        return False

    def task_await(self, i):
        fl = self.fl
        if fl.origins(i.a["src"], i) & set(self.spawned):
            return True
        d = fl.g.deftmp.get(i.a["src"][1]) if i.a["src"][0] == "t" else None
        if d is not None and d.op == "call" and fl.callee_key(d) in ("asyncio.wait", "asyncio.gather"):
            dep = set()
            for a in d.a["args"]:
                dep |= fl.depends(a, d)
            first = may_end_before(fl, d)
            return bool(dep & set(self.spawned)) and not first
        return False


def may_end_before(fl, d):
    """Can this wait end before all of what it waits for has ended?"""
    return _last(fl, d) == "wait" and any(k == "timeout" and not is_const(v, None) or k == "return_when" and not (v[0] == "g" and v[1].endswith("ALL_COMPLETED")) and not is_const(v, "ALL_COMPLETED") for k, v in d.a["kw"])


def pending(ck, f, fl, fx, sid, spawned, refs, nm):
    ck.rule("pending", "an effect which runs as a task waits for the previous one, which is cancelled unless it is shielded", 4)
    g = fl.g
    sets = {}
    for i in g.live():
        if i.op == "setattr" and i.a["attr"] == "current" and fl.origins(i.a["val"], i) & set(spawned):
            sets[i.id] = i
    ck.ob(bool(sets), f"{nm}: running effect is known", f.loc(), "a running effect is not known to the next one")
    if not sets:
        return
    pr = set()
    for i in sets.values():
        pr |= fl.terms(i.a["obj"], i)

    def is_p(op, at):
        return any(t[0] == "attr" and t[2] == "current" and t[1] in pr for t in fl.terms(op, at))

    def pend_edge(i, lab, env):
        if i.op != "branch":
            return None
        kind, terms, pol, op, at = decode(fl, i, env)
        if kind in ("none", "truthy") and terms and all(t == ("k", None) or t[0] == "attr" and t[2] == "current" and t[1] in pr for t in terms) and any(t[0] == "attr" for t in terms):
            return (lab == "t") == (pol if kind == "truthy" else not pol)
        return None

    def same_edge(i, lab, env):
        """pending.current is <task>"""
        if i.op != "branch":
            return None
        kind, terms, pol, op, at = decode(fl, i, env)
        d = g.deftmp.get(op[1]) if op is not None and op[0] == "t" else None
        if d is not None and d.op == "op" and d.a["fn"] in ("Is", "IsNot", "Eq", "NotEq") and any(is_p(a, d) for a in d.a["args"]):
            return ((lab == "t") == pol) == (d.a["fn"] in ("Is", "Eq"))
        return None

    def awaits_prev(i):
        if i.op != "await":
            return False
        dep = fl.depends(i.a["src"], i)
        if any(g.instrs[d].op == "call" and (may_end_before(fl, g.instrs[d]) or _last(fl, g.instrs[d]) == "wait_for") for d in dep):
            return False
        return any(g.instrs[d].op == "getattr" and g.instrs[d].a["attr"] == "current" and fl.terms(g.instrs[d].a["obj"], g.instrs[d]) & pr for d in dep)

    clears = {i.id for i in g.live() if i.op == "setattr" and i.a["attr"] == "current" and fl.terms(i.a["obj"], i) & pr and i.id not in sets}
    cancels = {}
    for i in method_calls(fl, "cancel"):
        r = fl.recv(i)
        if r is None:
            continue
        if is_p(r, i):
            cancels[i.id] = "prev"
        elif fl.origins(r, i) & set(spawned):
            cancels[i.id] = "own"

    def shield_edge(i, lab, env):
        if i.op != "branch":
            return None
        kind, terms, pol, op, at = decode(fl, i, env)
        if kind == "truthy" and terms and all(t[0] in ("p", "free") and t[-1] == "shield" for t in terms):
            return (lab == "t") == pol
        return None

    # st: (pending known none?, waited, checked, shield, cancelled, running)
    def step(i, lab, st, env):
        pend, same, sh, can, run = st
        if isinstance(pend, str) and pend.startswith("!"):
            return [st]
        e = pend_edge(i, lab, env)
        if e is not None:
            pend = "some" if e else "none"
        e = same_edge(i, lab, env)
        if e is not None:
            same = e
        e = shield_edge(i, lab, env)
        if e is not None:
            if sh is not None and sh != e:
                return []
            sh = e
        if i.op == "await":
            if awaits_prev(i) and run == "0":
                if can != "prev" and sh is not True and pend != "none":
                    return [("!uncancelled", same, sh, can, run)]
                pend, can = "waited", None
            elif pend == "none":
                pend = "U"
            if run == "run" and fx.task_await(i):
                if can != "own" and sh is not True:
                    return [("!own", same, sh, can, run)]
                run = "end"
            same = False
        if i.op == "branch" and fx.task_edge(i, lab, env):
            run = "end"
        if i.id in cancels:
            if sh is not False:
                return [("!shield", same, sh, can, run)]
            can = cancels[i.id]
            if can == "own" and run == "0":
                return []
        if i.id in clears and lab == "n":
            if not same:
                return [("!clear", same, sh, can, run)]
            if run == "0" and pend not in ("waited", "none"):
                return [("!forgot", same, sh, can, run)]
            pend = "none"
        if i.id in sid and lab == "n":
            if pend != "none":
                return [("!overlap", same, sh, can, run)]
            run, can, same = "run", None, False
        return [(pend, same, sh, can, run)]

    why = {
        "!uncancelled": "the previous effect is waited for but not cancelled although it is not shielded",
        "!own": "an effect which has to stop is waited for but not cancelled although it is not shielded",
        "!shield": "a shielded effect is cancelled",
        "!clear": "the running task of another effect may be forgotten",
        "!forgot": "the task of the previous effect is forgotten while it runs",
        "!overlap": "an effect may start while the previous one is still running",
    }
    typestate(ck, fl, ("U", False, None, None, "0"), step, lambda kind, st: why.get(st[0], True), f"{nm}: previous effect")
    # known before anything else can run
    for s in spawned:
        bad = fl.reach_avoiding([s], lambda x: x.op in ("await", "exit"), lambda x: x.id in sets)
        ck.ob(bad is None, f"{nm}: running effect is known at once", g.instrs[s].loc, "another effect may start before this one is known to run", lines(fl, bad) if bad else "")


# ------------------------------------------------------------------ who adds effects
def adding(ck):
    ck.rule("adding", "an effect is added to the hook of the component being rendered, through the memo of its dependencies", 2)
    P = ck.p
    mod = P.mod(HOOKS_MOD)
    n = 0
    for top in [x for x in P.funcs.values() if x.module is mod and x.parent is None]:
        sites = [c for c in ast.walk(top.node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "add_effect"]
        for site in sites:
            n += 1
            memos = memo_names(P, top)
            ck.ob(under_memo(top.node, site, memos), f"{name_of(top)}: effect follows its dependencies", f"{mod.rel}:{site.lineno}", "an effect is added whether or not its dependencies changed")
            r = site.func.value
            ck.ob(_current(top.node, r), f"{name_of(top)}: hook to which the effect is added", f"{mod.rel}:{site.lineno}", "an effect is not added to the hook which was current when it was declared")
    ck.need(n, "no effect is added to a hook")
    # the memo gets the dependencies
    for q in ("use_effect", "use_async_effect"):
        f = P.func(f"{HOOKS_MOD}.{q}")
        fl = flow(ck, f, {f"{HOOKS_MOD}.use_memo", f"{HOOKS_MOD}.use_ref", f"{HOOKS_MOD}._use_const"})
        ms = calls_to(fl, f"{HOOKS_MOD}.use_memo")
        for m in ms:
            v = fl.arg(m, 1, "dependencies")
            ok = v is not None and any(fl.g.instrs[d].op == "assign" and fl.g.instrs[d].a["src"] == ("p", f.qual, "dependencies") for d in fl.depends(v, m)) or v is not None and ("p", f.qual, "dependencies") in fl.terms(v, m)
            ck.ob(ok, f"{name_of(f)}: dependencies", m.loc, "an effect does not depend on the dependencies given for it")
            fn = fl.arg(m, 0, "function")
            if fn is None or fn == ("k", None):
                # without the function the default dependencies have to be inferred before
                inf = v is not None and any(t[0] in ("build", "call", "k", "p", "attr", "op") and t != ("p", f.qual, "dependencies") for t in fl.terms(v, m))
                ck.ob(inf, f"{name_of(f)}: inferred dependencies", m.loc, "the default dependencies of an effect are not inferred from its function")


def memo_names(P, top):
    out = set()
    for n in ast.walk(top.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and (dotted(n.value.func) or "").rsplit(".", 1)[-1] in ("use_memo", "use_callback"):
            out |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        if isinstance(n, ast.AnnAssign) and isinstance(n.value, ast.Call) and (dotted(n.value.func) or "").rsplit(".", 1)[-1] == "use_memo" and isinstance(n.target, ast.Name):
            out.add(n.target.id)
    return out


def _is_memo_expr(e, memos):
    return isinstance(e, ast.Name) and e.id in memos or isinstance(e, ast.Call) and (dotted(e.func) or "").rsplit(".", 1)[-1] == "use_memo"


def under_memo(top, site, memos):
    """Is the call inside a function which only the memo calls?"""
    parents = {}
    for n in ast.walk(top):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
    n = site
    while n in parents and n is not top:
        p = parents[n]
        if isinstance(n, ast.Lambda) and isinstance(p, ast.Call) and n in p.args and _is_memo_expr(p.func, memos):
            return True
        if isinstance(n, ast.Lambda) and isinstance(p, ast.keyword) and isinstance(parents[p], ast.Call) and _is_memo_expr(parents[p].func, memos):
            return True
        if isinstance(n, (ast.Lambda, ast.FunctionDef)):
            if isinstance(n, ast.FunctionDef):
                if any(_is_memo_expr(d, memos) for d in n.decorator_list):
                    return True
                name = n.name
            else:
                a = p
                name = a.targets[0].id if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) else None
            if name:
                uses = [x for x in ast.walk(top) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load)]
                ok = bool(uses)
                for u in uses:
                    q = parents.get(u)
                    if not (isinstance(q, ast.Call) and u in q.args and _is_memo_expr(q.func, memos)):
                        ok = False
                if ok:
                    return True
        n = p
    return False


def _current(top, r):
    if isinstance(r, ast.Call):
        return (dotted(r.func) or "").rsplit(".", 1)[-1] == "current_hook"
    if isinstance(r, ast.Name):
        vals = [n.value for n in ast.walk(top) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r.id for t in n.targets)]
        vals += [n.value for n in ast.walk(top) if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == r.id and n.value is not None]
        if not vals:
            return r.id in [a.arg for a in ast.walk(top) if isinstance(a, ast.arg)]
        return all(_current(top, v) for v in vals)
    return False


def started(ck):
    tree.decide(ck, "started", "in trees of every shape the effects of each rendered component are started once, when its tree is built", "effects")


def added(ck):
    hooked.decide(ck, "added", "over histories of renders an effect is added when, and only when, its dependencies changed", histories.EFFECTS, "reactpy.core.hooks.use_effect")


RULES = [hook_rules, layout_rules, effects, adding, started, added]
