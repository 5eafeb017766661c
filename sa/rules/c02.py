"""C02  A failing component is contained: placeholder, log, no exception text outside debug mode."""
from .. import tree
from ..lib import *
from .c01 import DID, OPAQUE, WILL

EXPLANATION = """
Exception-flow analysis of every layout entry point which runs a component's render function:
each exceptional edge which leaves the render function or the rendering of what it returned is
followed to the handler which receives it; the handler must catch every Exception, log it,
install a fresh placeholder model and complete normally. A backward slice of the placeholder's
error text must be cut by the debug-mode condition before it reaches the exception.
"""
ASSUMPTIONS = ["logging calls do not raise", "rendering of nested components satisfies the same obligation (induction)"]


def render_calls(fl):
    """Calls of a component's render function: `<component>.render()`."""
    will = completion(fl, {WILL})
    comps = set()
    for c in will.values():
        a = fl.arg(c, 0, "component")
        if a is not None:
            comps |= fl.terms(a, c)
    out = []
    for i in fl.g.calls():
        if fl.callee_key(i).rsplit(".", 1)[-1] == "render" and (fl.recv_terms(i) & comps):
            out.append(i)
    return out


def regions(ck):
    found = False
    for f in class_roots(ck.p, LAYOUT):
        fl = flow(ck, f, OPAQUE)
        rc = render_calls(fl)
        if rc:
            found = True
            yield f, fl, rc
    ck.need(found, "no layout entry point calls a component's render function")


def reaches(P, f, quals):
    """whether calling a function of the layout may call one of those"""
    cg = call_graph(P, "reactpy.core.layout")
    seen, todo = {f.qual}, [f.qual]
    while todo:
        for q in cg.get(todo.pop(), ()):
            q = getattr(q, "qual", q)
            if q not in seen:
                seen.add(q)
                todo.append(q)
    return bool(seen & quals)


def containment(ck):
    ck.rule("containment", "an exception raised while rendering a component ends in a handler which logs it and installs a placeholder", 2)
    for f, fl, rc in regions(ck):
        rids = {i.id for i in rc}
        did = {i.id for i in calls_to(fl, DID)}
        will = set(completion(fl, {WILL}))
        # the recursive rendering of children of this component is also a source
        renders = {i.func.qual for i in rc}
        rec = {i.id for i in fl.g.live() if i.op == "await" and any(t[0] == "call" and fl.g.instrs[t[2]].a["callee"][0] == "repo" and reaches(ck.p, fl.g.instrs[t[2]].a["callee"][1], renders) for t in fl.terms(i.a["src"], i))}
        logs = {i.id for i in fl.g.calls() if fl.callee_key(i).rsplit(".", 1)[-1] in ("exception", "error", "critical", "warning", "log") and any_term(fl.recv_terms(i) or set(), lambda t: True)}
        model = {}
        for i in fl.g.live():
            if i.op == "setattr" and i.a["attr"] == "current":
                for t in fl.terms(i.a["val"], i):
                    if t[0] == "build" and t[1] == "dict":
                        model[i.id] = fl.g.instrs[t[2]]
        errset = {i.id for i in fl.g.live() if i.op == "setitem" and is_const(i.a["key"], "error")}
        catchframes = {}

        def step(i, lab, st, env):
            ph, log, mod, err, fr = st
            if i.id in rids and lab == "n" and ph in ("0", "done"):
                return [("in", 0, 0, 0, None)]
            if i.id in did:
                if ph == "caught":
                    return [("end" if log and mod and err else "nolog" if not log else "nomodel", 0, 0, 0, None)]
                if ph == "in":
                    return [("done", 0, 0, 0, None)]
            if i.id in rids and lab == "e":
                return [("E", 0, 0, 0, None)]
            if ph in ("in", "done") and i.id in rec and lab == "e":
                return [("E", 0, 0, 0, None)]
            if ph == "in" and lab == "e" and i.op == "raise":
                return [("E", 0, 0, 0, None)]
            if ph == "E" and i.op == "catch":
                return [("caught", 0, 0, 0, i.frame)]
            if ph == "caught":
                if i.id in logs and lab == "n":
                    log = 1
                if i.id in model and lab == "n":
                    keys = _keys(model[i.id])
                    if "children" not in keys and None not in keys:
                        mod, err = 1, 1 if "error" in keys else 0
                    else:
                        mod, err = 0, 0
                if i.id in errset:
                    err = 1
                if i.op == "raise" and i.frame == fr:
                    return [("re", 0, 0, 0, None)]
                elif lab in ("e", "c"):
                    return [("second", 0, 0, 0, None)]
                return [(ph, log, mod, err, fr)]
            return [st]

        def final(kind, st):
            ph = st[0]
            if ph == "E":
                return "an exception of a component's render leaves the layout instead of being contained"
            if ph == "re":
                return "the handler of a failed render raises again"
            if ph == "nolog":
                return "a failed render is not logged"
            if ph == "nomodel":
                return "a failed render does not install a fresh placeholder carrying an error"
            if ph == "caught" and kind == "exit":
                return "a failed render completes without ending its render"
            return True

        typestate(ck, fl, ("0", 0, 0, 0, None), step, final, f"{name_of(f)}: exceptions of render functions")
        # something of the render is protected at all
        ck.ob(any(lab == "e" for i in rc for _, lab in i.succ), f"{name_of(f)}: render function may raise", rc[0].loc)


def _keys(b):
    out = set()
    for it in b.a["items"]:
        if isinstance(it, tuple) and len(it) == 2 and isinstance(it[0], tuple):
            out.add(it[0][1] if it[0][0] == "k" else None)
        else:
            out.add(None)
    return out


def debug_fact(fl, i):
    for k, v in fl.facts_at(i):
        if v and k[0] == "truthy" and k[1][0] == "attr" and k[1][2] == "current" and k[1][1][0] == "g" and k[1][1][1].endswith("REACTPY_DEBUG"):
            return True
    return False


def disclosure(ck):
    ck.rule("disclosure", "text of an exception reaches the placeholder only in debug mode", 1)
    n = 0
    for f, fl, rc in regions(ck):
        sinks = []
        for i in fl.g.live():
            if i.op == "build" and i.a["kind"] == "dict":
                for it in i.a["items"]:
                    if isinstance(it, tuple) and len(it) == 2 and it[0] is not None and is_const(it[0], "error"):
                        sinks.append((it[1], i))
            if i.op == "setitem" and is_const(i.a["key"], "error"):
                sinks.append((i.a["val"], i))
        for op, at in sinks:
            n += 1
            bad = leak(fl, op, at)
            ck.ob(not bad, f"{name_of(f)}: error text", at.loc, "the text of an exception is sent to the client although debug mode is off",
                  f"exception value used at {bad.loc}" if bad else "")
    ck.need(n, "no placeholder with an error text")
    # every other outgoing model field: exceptions never flow into it
    for f, fl, rc in regions(ck):
        for i in fl.g.live():
            if i.op == "setattr" and i.a["attr"] == "current":
                for t in fl.terms(i.a["val"], i):
                    if t[0] == "build" and t[1] == "dict":
                        b = fl.g.instrs[t[2]]
                        for it in b.a["items"]:
                            if isinstance(it, tuple) and len(it) == 2 and it[0] is not None and not is_const(it[0], "error"):
                                bad = leak(fl, it[1], b)
                                ck.ob(not bad, f"{name_of(f)}: model field", b.loc, "the text of an exception is sent to the client although debug mode is off")


def leak(fl, op, at):
    """An instruction through which an exception value flows into `op` without a debug guard."""
    todo, seen = [(op, at)], set()
    while todo:
        o, i = todo.pop()
        if o is None or (o, i.id) in seen:
            continue
        seen.add((o, i.id))
        if debug_fact(fl, i):
            continue
        if o[0] == "t":
            d = fl.g.deftmp.get(o[1])
            if d is None or debug_fact(fl, d):
                continue
            if d.op == "call" and d.a["callee"][0] == "ext" and "format_exc" in d.a["callee"][1]:
                return d
            todo += [(x, d) for x in operands(d)]
        elif o[0] in ("v", "gv", "free"):
            for d in fl.reaching(o, i):
                if d.op == "catch":
                    return i
                if debug_fact(fl, d):
                    continue
                todo.append((d.a["src"], d))
    return None


def failures(ck):
    tree.decide(ck, "failures", "in trees of every shape a component which fails is displayed as an error, the others as they are, and every begun render ends once", "error", "refused", "ended", "raised", "did")


# decided by interpretation of whole renders as well
SPARE = {}
RULES = [containment, disclosure, failures]
