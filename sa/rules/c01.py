"""C01  Hooks act on the component being rendered; a render never leaves a stale component
current or a component locked."""
from ..lib import *

EXPLANATION = """
Typestate analysis on inlined flow graphs (exception and cancellation edges explicit). Entry
points are every public method of the layout and every function of its module used as a task
or callback. Checked: the render context token is released on every exit; will-render and
did-render are paired on every exit for the same hook; did-render never runs for a render
which did not begin; the render permit is neither leaked nor released twice; every context
starts with an empty hook stack of its own.
"""
ASSUMPTIONS = [
    "the interpreter's semantics of finally/with; Semaphore.release and list.append do not raise",
    "a recursive render call is balanced (induction: the same obligation is discharged for its body)",
]

WILL = HOOK + ".affect_component_will_render"
DID = HOOK + ".affect_component_did_render"
INIT = STACK + ".initialize"
RESET = STACK + ".reset"
GET = STACK + ".get"
OPAQUE = {WILL, DID, INIT, RESET, HOOK + ".affect_layout_did_render", HOOK + ".affect_component_will_unmount", HOOK + ".schedule_render", "reactpy.types.Component.render"}


def pairing(ck):
    ck.rule("render-pairing", "on every path out of a layout entry point each begun render has ended exactly once", 1)
    P = ck.p
    found = 0
    for f in class_roots(P, LAYOUT):
        fl = flow(ck, f, OPAQUE)
        will = completion(fl, {WILL})
        did = {i.id: i for i in calls_to(fl, DID)}
        init = {i.id: i for i in calls_to(fl, INIT)}
        reset = {i.id: i for i in calls_to(fl, RESET)}
        didaw = completion(fl, {DID})
        if not (will or did or init or reset):
            continue
        found += 1

        def step(i, lab, st, env):
            tok, n = st
            if i.id in init and lab == "n":
                if tok == "I":
                    return [("dup", n)]
                return [("I", n)]
            if i.id in reset:
                # raising inside reset counts as done
                return [("R" if tok == "I" else "bad", n)]
            if i.id in will and lab == "n":
                return [(tok if tok == "I" else "noctx", n + 1)] if n < 4 else [st]
            if i.id in didaw:
                return [(tok, n - 1)] if n > -2 else [st]
            return [st]

        def final(kind, st):
            tok, n = st
            if tok == "noctx":
                return "a component is rendered outside of an initialised hook stack"
            if tok == "dup":
                return "the hook stack is initialised twice"
            if tok == "bad":
                return "the hook stack is reset without having been initialised"
            if tok == "I":
                return "the hook stack of this render is not reset on this exit"
            if n > 0:
                return "a begun component render does not end on this exit: the component stays current and locked"
            if n < 0:
                return "a component render ends which did not begin"
            return True

        typestate(ck, fl, ("0", 0), step, final, f"{name_of(f)}: begin/end of renders and of the hook stack")
        # the reset uses the token of the initialisation
        for i in reset.values():
            a = fl.arg(i, 0, "token")
            good = a is not None and any_term(fl.terms(a, i), lambda t: t[0] == "call" and t[1] == INIT)
            ck.ob(good, f"{name_of(f)}: token given to reset", i.loc, "the hook stack is reset with something other than the token of its initialisation")
        # same hook
        wt = [fl.canon(fl.recv(c), c) for c in will.values()]
        for c in did.values():
            r = fl.recv(c)
            if r is None:
                continue
            dt = fl.terms(r, c)
            ws = set()
            for w in will.values():
                ws |= fl.terms(fl.recv(w), w)
            ck.ob(bool(dt & ws), f"{name_of(f)}: hook whose render ends", c.loc, "the render which ends is not that of the hook which began")
        # rendering happens between begin and end
        rend = [i for i in fl.g.calls() if fl.callee_key(i).endswith(".render") and not i.a["args"] and i.id not in will and "layout" not in fl.callee_key(i).lower()]
        for r in rend:
            ok_paths = fl.reach_avoiding([0], lambda x, r=r: x.id == r.id, lambda x: x.id in will)
            # every path to the render function passes a completed will-render
            bad = fl.reach_avoiding([0], lambda x, r=r: x.id == r.id, lambda x: x.id in will, None)
            ck.ob(bad is None, f"{name_of(f)}: render function runs while its hook is current", r.loc,
                  "the component's render function may run without its hook being current", lines(fl, bad) if bad else "")
    ck.need(found, "no layout entry point renders components")


def begin(ck):
    ck.rule("begin-render", "beginning a render takes the permit, makes the hook current, and leaks neither when it fails", 3)
    P = ck.p
    f = role(P, HOOK, "affect_component_will_render")
    fl = flow(ck, f, {GET})
    acq = {}
    for i in method_calls(fl, "acquire", "__aenter__"):
        for w in awaited_by(fl, i):
            acq[w.id] = i
    ck.need(acq, "begin of a render acquires no permit")
    permit = set()
    for i in acq.values():
        permit |= self_attr_names(fl, fl.recv(i), i)
    push = {i.id: i for i in method_calls(fl, "append") if any_term(fl.recv_terms(i), lambda t: t[0] == "call" and t[1] == GET)}
    rel = {i.id for i in method_calls(fl, "release") if self_attr_names(fl, fl.recv(i), i) & permit}
    clear = {i.id for i in fl.g.live() if i.op == "setattr" and i.a["attr"] == "component"}

    def step(i, lab, st, env):
        a, p, c = st
        if i.id in acq and lab == "n":
            a = min(a + 1, 2)
        elif i.id in rel:
            a = max(a - 1, -1)
        elif i.id in push:
            p = min(p + 1, 2) if a else 9
        elif i.id in clear and lab == "n":
            c = 1
        return [(a, p, c)]

    def final(kind, st):
        a, p, c = st
        if p == 9:
            return "the hook becomes current before it has the permit to render"
        if kind == "exit":
            if a != 1:
                return "a render begins without exactly one permit"
            if p != 1:
                return "a render begins without its hook being pushed exactly once"
            if not c:
                return "a render begins without recording its component"
            return True
        if a > 0:
            return "the permit is kept although beginning the render failed"
        return True if p == 0 else "the hook stays current although beginning the render failed"

    typestate(ck, fl, (0, 0, 0), step, final, f"{name_of(f)}: permit and current hook")
    for i in push.values():
        a = fl.arg(i, 0)
        ck.ob(a is not None and ("p", f.qual, "self") in fl.terms(a, i), f"{name_of(f)}: what becomes current", i.loc, "something other than this hook becomes current")
    # ------- end
    g = role(P, HOOK, "affect_component_did_render")
    fl = flow(ck, g, {GET})
    rel = {i.id: i for i in method_calls(fl, "release")}
    relp = set()
    for i in rel.values():
        relp |= self_attr_names(fl, fl.recv(i), i)
    ck.ob(bool(relp & permit), f"{name_of(g)}: which permit is released", g.loc(), "the permit released at the end is not the one taken at the beginning")
    pop = {i.id for i in method_calls(fl, "pop") if any_term(fl.recv_terms(i), lambda t: t[0] == "call" and t[1] == GET)}
    pop |= {i.id for i in fl.g.live() if i.op == "delitem" and any_term(fl.terms(i.a["obj"], i), lambda t: t[0] == "call" and t[1] == GET)}

    def step2(i, lab, st, env):
        r, p = st
        if i.id in rel and lab == "n":
            r = min(r + 1, 2)
        elif i.id in pop and lab == "n":
            p = min(p + 1, 2)
        return [(r, p)]

    def final2(kind, st):
        r, p = st
        if kind == "exit":
            if p != 1:
                return "a render ends without its hook being popped exactly once"
            if r != 1:
                return "a render ends without releasing its permit exactly once"
        elif r > 1:
            return "the permit is released twice"
        return True

    typestate(ck, fl, (0, 0), step2, final2, f"{name_of(g)}: permit and current hook")
    # popping takes the last element
    for i in method_calls(fl, "pop"):
        if i.id in pop and i.a["args"]:
            ck.ob(is_const(i.a["args"][0], -1), f"{name_of(g)}: which hook is popped", i.loc, "not the innermost hook is popped")
    # ------- the permit admits one render at a time
    init = role(P, HOOK, "__init__")
    fi = flow(ck, init)
    n = 0
    for s in fi.g.live():
        if s.op == "setattr" and s.a["attr"] in permit:
            for t in fi.terms(s.a["val"], s):
                if t[0] == "call":
                    c = fi.g.instrs[t[2]]
                    n += 1
                    arg = fi.arg(c, 0, "initial_value") or fi.arg(c, 0, "value")
                    name = t[1].rsplit(".", 1)[-1]
                    good = name == "Lock" or (name in ("Semaphore", "BoundedSemaphore") and (is_const(arg, 1) or arg is None and t[1].startswith("asyncio")))
                    ck.ob(good, f"{name_of(init)}: number of permits", s.loc, "two renders of one component may run at the same time")
    ck.need(n, "render permit is not created in the constructor")


def context(ck):
    ck.rule("fresh-stack", "every render context starts with an empty hook stack of its own, kept per task or thread", 2)
    P = ck.p
    c = P.cls(STACK)
    f = P.method(c, "initialize")
    ck.need(f is not None, "hook stack initialize")
    fl = flow(ck, f)
    sets = [i for i in fl.g.calls() if fl.callee_key(i).rsplit(".", 1)[-1] == "set" and i.a["args"]]
    ck.need(sets, "hook stack initialize sets nothing")
    for i in sets:
        ts = fl.terms(i.a["args"][0], i)
        good = all((t[0] == "build" and t[1] == "list" and not fl.g.instrs[t[2]].a["items"]) or (t[0] == "call" and t[1] == "list" and not fl.g.instrs[t[2]].a["args"]) for t in ts)
        ck.ob(good, f"{name_of(f)}: initial stack", i.loc, "a render context starts with a stack which is not fresh and empty")
    # storage is a context variable or a thread local
    cls_fields = c.fields
    n = 0
    for nm, node in cls_fields.items():
        v = getattr(node, "value", None)
        if v is None:
            continue
        import ast as _a
        if isinstance(v, _a.Call):
            d = P.resolve_in(c.module, dotted(v.func) or "")
            n += 1
            ck.ob(d.rsplit(".", 1)[-1] in ("ContextVar", "ThreadLocal"), f"{c.name}.{nm}: storage", f"{c.module.rel}:{node.lineno}",
                  "the hook stack is shared between concurrent renders")
    ck.need(n, "hook stack storage not found")
    # the current hook is the innermost one
    f = P.method(c, "current_hook")
    ck.need(f is not None, "current_hook")
    fl = flow(ck, f, {GET})
    for i in fl.g.live():
        if i.op == "return" and not i.a.get("implicit"):
            ts = fl.terms(i.a["val"], i)
            good = all(t[0] == "item" and t[2] == ("k", -1) for t in ts) or all(_neg1(fl, t) for t in ts)
            ck.ob(good, f"{name_of(f)}: returned hook", i.loc, "the current hook is not the innermost one")


def _neg1(fl, t):
    if t[0] != "item":
        return False
    k = t[2]
    return k == ("k", -1) or (k[0] == "op" and k[1] in ("USub", "-") and k[2] == (("k", 1),)) or (
        k[0] == "op" and k[1] in ("Sub",) and k[2][1] == ("k", 1))


RULES = [pairing, begin, context]
