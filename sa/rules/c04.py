"""C04  Whatever leaves the tree is unmounted, completely and once."""
from .. import tree
from ..lib import *
from .c01 import DID, OPAQUE, WILL
from .c02 import render_calls
from ..flow import FILLERS
from .c03 import child_lookups, is_comp_key, old_param, rec_call

EXPLANATION = """
Obligations on the recursive renderer: every old child that is looked up is, on every path,
absent, handed to a recursive render call, or handed to the function which unmounts; old
children whose keys vanished are handed to it; after a failed render the children of the old
and of the new state are; each rendered child is attached where it will be found later.
Obligations on the function which unmounts: for each state taken from its work list, on every
path, the handlers it owns are removed, its children are added to the work, and, if it is a
component's, it is removed from the registry and then its hook is unmounted, once.
"""
ASSUMPTIONS = ["a recursive call meets the same obligations (induction on the tree)", "unmounting that is itself cancelled is outside of this property"]

UNMOUNT = HOOK + ".affect_component_will_unmount"


def decode(fl, i, env):
    """A branch as (kind, terms of the tested object, value of the fact if true)."""
    op, at, pol = i.a["cond"], i, True
    for _ in range(16):
        if op[0] in ("v", "gv"):
            ds = fl.versions(op, at, env)
            if len(ds) == 1 and ds[0].op == "assign":
                s = ds[0].a["src"]
                d = fl.g.deftmp.get(s[1]) if s[0] == "t" else None
                if s[0] in ("v", "gv") or d is not None and (d.op == "op" or d.op == "call" and d.a["callee"] in (("builtin", "all"), ("builtin", "any"), ("builtin", "isinstance"), ("builtin", "hasattr"), ("builtin", "callable"))):
                    op, at = s, ds[0]
                    continue
            return "truthy", fl.terms_path(op, at, env), pol, op, at
        if op[0] == "t":
            d = fl.g.deftmp.get(op[1])
            if d is not None and d.op == "op":
                fn, args = d.a["fn"], d.a["args"]
                if fn == "Not":
                    op, at, pol = args[0], d, not pol
                    continue
                if fn in ("Is", "IsNot", "Eq", "NotEq") and any(x == ("k", None) for x in args):
                    x = args[0] if args[1] == ("k", None) else args[1]
                    return "none", fl.terms_path(x, d, env), pol == (fn in ("Is", "Eq")), x, d
                return "op", fl.terms(op, at), pol, op, d
            return "truthy", fl.terms_path(op, at, env), pol, op, at
        return "truthy", fl.terms_path(op, at, env), pol, op, at
    return "?", set(), pol, op, at


def cancelled_edge(fl, i, lab, env):
    """Whether this edge says that the current task is being cancelled (None if it says nothing about it,
    "never" if it says that there is no current task)."""
    if i.op != "branch" or lab not in ("t", "f"):
        return None
    kind, terms, pol, op, at = decode(fl, i, env)

    def asks(op, at, name="cancelling"):
        ts = fl.terms_path(op, at, env)
        return bool(ts) and all(t[0] == "call" and t[1].rsplit(".", 1)[-1] == name for t in ts)

    if kind in ("truthy", "none") and asks(op, at, "current_task"):
        return "never" if ((lab == "t") == pol) == (kind == "none") else None
    if kind == "truthy" and asks(op, at):
        return (lab == "t") == pol
    d = fl.g.deftmp.get(op[1]) if kind == "op" and op[0] == "t" else None
    if d is not None and len(d.a["args"]) == 2:
        x, y = d.a["args"]
        fn = d.a["fn"]
        if x[0] == "k":
            x, y, fn = y, x, {"Gt": "Lt", "Lt": "Gt", "GtE": "LtE", "LtE": "GtE"}.get(fn, fn)
        if y[0] == "k" and asks(x, d):
            v = {("Gt", 0): True, ("GtE", 1): True, ("NotEq", 0): True, ("Eq", 0): False, ("Lt", 1): False, ("LtE", 0): False}.get((fn, y[1]))
            if v is not None:
                return ((lab == "t") == pol) == v
    return None


def listed(fl, call, env):
    """Term sets of what is handed to a call: arguments, and items of lists built in place."""
    out = []

    def add(op, at, depth=0):
        if op is None or depth > 6:
            return
        if op[0] == "t":
            d = fl.g.deftmp.get(op[1])
            if d is not None and d.op == "build" and d.a["kind"] in ("list", "tuple", "set"):
                for it in d.a["items"]:
                    if isinstance(it, tuple) and len(it) == 2 and isinstance(it[1], tuple):
                        it = it[1]
                    add(it, d, depth + 1)
                return
            if d is not None and d.op == "star":
                add(d.a["src"], d, depth + 1)
                return
        if op[0] in ("v", "gv"):
            ds = fl.versions(op, at, env)
            if len(ds) == 1 and ds[0].op == "assign" and ds[0].a["src"][0] == "t":
                dd = fl.g.deftmp.get(ds[0].a["src"][1])
                if dd is not None and dd.op == "build":
                    add(ds[0].a["src"], ds[0], depth + 1)
                    return
        out.append((fl.terms_path(op, at, env), op, at))

    for a in call.a["args"]:
        add(a, call)
    for _, v in call.a["kw"]:
        add(v, call)
    return out


def children_attr(ck, fl, old):
    lk = child_lookups(fl, old)
    ck.need(lk, "old children are not looked up")
    return {a for a, _, _ in lk}, lk


def looked_up(ck):
    ck.rule("old-child", "an old child that is looked up is absent, rendered again, or unmounted, on every path", 1)
    U = unmounters(ck)
    f, fl = activation(ck, ren_opaque(ck, OPAQUE))
    old = old_param(ck, f, fl)
    X, lk = children_attr(ck, fl, old)
    work = completion(fl, {u.qual for u in U})
    rec = {i.id: rec_call(ck, fl, i) for i in fl.g.live() if i.op == "await" and rec_call(ck, fl, i)}
    look = {}
    for _, _, i in lk:
        t = ("call", fl.callee_key(i), i.id) if i.op == "call" else None
        look[i.id] = t or i
    ck.need(work, "the renderer unmounts nothing")

    def is_L(terms, L):
        want = {look[L]} if isinstance(look[L], tuple) else fl.term_of_instr(look[L])
        return bool(terms) and terms <= want

    def step(i, lab, st, env):
        if st[0] == "bad":
            return [st]
        if i.id in look and lab == "n":
            if st[0] == "L":
                return [("bad", st[1])]
            return [("L", i.id)]
        if i.op == "catch":
            return [("0", 0)]
        if st[0] == "L":
            if i.op == "branch" and lab in ("t", "f"):
                kind, terms, pol, *_ = decode(fl, i, env)
                if kind in ("none", "truthy") and is_L(terms, st[1]):
                    absent = (lab == "t") == (pol if kind == "none" else not pol)
                    if absent:
                        return [("0", 0)]
            if lab == "n":
                if i.id in work and any(is_L(ts, st[1]) for ts, _, _ in listed(fl, work[i.id], env)):
                    return [("0", 0)]
                if i.id in rec and any(is_L(ts, st[1]) for ts, _, _ in listed(fl, rec[i.id], env)):
                    return [("0", 0)]
        return [st]

    def final(kind, st):
        if st[0] == "bad" or st[0] == "L" and kind == "exit":
            return "an old child that was found under a key may be neither rendered again nor unmounted"
        return True

    typestate(ck, fl, ("0", 0), step, final, f"{name_of(f)}: old children found by key")


def replaced(ck):
    ck.rule("replaced", "an old state that is not continued is unmounted before its replacement begins to render", 1)
    U = unmounters(ck)
    f, fl = activation(ck, ren_opaque(ck, OPAQUE))
    old = old_param(ck, f, fl)
    work = completion(fl, {u.qual for u in U})
    will = set(completion(fl, {WILL}))
    reuse = set()
    for i in fl.g.calls():
        if i.a["callee"][0] == "class" and any(t[0] == "attr" and t[2] in ("hook", "life_cycle_state") and root(t) == old for t in arg_terms(fl, i)):
            reuse.add(i.id)

    def step(i, lab, st, env):
        none, un, re_ = st
        if none == "bad":
            return []
        if i.id in will:
            if none is not True and not un and not re_:
                return [("bad", 0, 0)]
            return []
        if i.op == "branch" and lab in ("t", "f"):
            kind, terms, pol, *_ = decode(fl, i, env)
            if kind in ("none", "truthy") and old in terms and len(terms) == 1:
                absent = (lab == "t") == (pol if kind == "none" else not pol)
                if none is not None and none != absent:
                    return []
                none = absent
        if lab == "n" and i.id in work and any(old in ts and len(ts) == 1 for ts, _, _ in listed(fl, work[i.id], env)):
            un = 1
        if lab == "n" and i.id in reuse:
            re_ = 1
        return [(none, un, re_)]

    errs = []
    for mode in ("coarse", "merged", "full"):
        try:
            res = fl.esp_merged((None, 0, 0), step) if mode == "merged" else fl.esp((None, 0, 0), step, 60000, mode == "full")
        except StateCap:
            break
        ck.states += len(fl.last_seen)
        errs = [(n, lines(fl, fl.witness(c))) for n in res for s, c in res[n].items() if s[0] == "bad"]
        if not errs:
            break
    ck.ob(not errs, f"{name_of(f)}: old state which is not continued", f.loc(), "the state of a replaced component or element may never be unmounted", errs[0][1] if errs else "")


def vanished(ck):
    ck.rule("vanished", "old children whose keys do not occur anymore are unmounted", 1)
    U = unmounters(ck)
    f, fl = activation(ck, ren_opaque(ck, OPAQUE))
    old = old_param(ck, f, fl)
    X, lk = children_attr(ck, fl, old)
    g = fl.g
    # differences between the keys of the old children and the new keys
    diff = set()
    for i in g.live():
        if i.op == "call" and fl.callee_key(i).rsplit(".", 1)[-1] in ("difference", "symmetric_difference", "difference_update") or i.op == "op" and i.a["fn"] in ("Sub", "In", "NotIn", "ISub"):
            oo = list(operands(i))
            if i.op == "call":
                r = fl.recv(i)
                oo = ([r] if r else []) + list(i.a["args"])
            first = oo[0] if oo else None
            if first is None:
                continue
            if from_old(fl, first, i, old, X) and len(oo) > 1:
                diff.add(i.id)
    work = completion(fl, {u.qual for u in U})
    uses = {}
    for n, c in work.items():
        dep = set()
        for a in c.a["args"]:
            dep |= fl.depends(a, c)
        # control dependence on a membership test inside of a loop or comprehension
        ctl = {d for d in diff if any(_guards(fl, d, x) for x in list(dep) + [c.id])}
        if (dep & diff or ctl) and any(from_old(fl, a, c, old, X) for a in c.a["args"]):
            uses[n] = dep & diff or ctl
    ck.ob(bool(uses), f"{name_of(f)}: vanished children are unmounted", f.loc(), "old children whose keys vanished are not unmounted")
    if not uses:
        return
    looks = {i.id for _, _, i in lk}
    rec = {i.id for i in g.live() if i.op == "await" and rec_call(ck, fl, i)}
    # before the children are rendered, and before the function ends, the difference was dealt with
    guards = set()
    dall = set().union(*uses.values())
    for i in g.live():
        if i.op == "branch" and fl.depends(i.a["cond"], i) & dall and any(n2 in uses for n2 in _region(fl, i, "t") | _region(fl, i, "f")):
            guards.add(i.id)
        if i.op == "iter" and fl.depends(i.a["src"], i) & (dall | {x.id for x in g.live() if x.op == "getattr" and x.a["attr"] in X and old in fl.terms(x.a["obj"], x)}) and any(n2 in uses for n2 in _body(fl, i)):
            guards.add(i.id)
    rids = {i.id for i in render_calls(fl)}

    def step(i, lab, st, env):
        ph, none = st
        if i.op == "branch" and lab in ("t", "f"):
            kind, terms, pol, *_ = decode(fl, i, env)
            if kind in ("none", "truthy") and terms <= {old, ("k", None)}:
                absent = (lab == "t") == (pol if kind == "none" else not pol)
                if none is not None and none != absent:
                    return []
                none = absent
        if i.op == "assign" and i.a["src"] == ("k", None) and any(old in fl.terms(i.dst, p) for p in (fl.g.instrs[x] for x, _ in i.pred)):
            none = True  # the old state is not continued: see rule 'replaced'
        if i.id in rids and lab == "n":
            return [("R", none)]
        if i.op == "catch":
            return [("0", none)]
        if ph == "R":
            if i.id in guards or i.id in uses and lab == "n":
                return [("U", none)]
        if ph == "R" and i.id in looks and none is not True:
            return [("late", none)]
        return [(ph, none)]

    def final(kind, st):
        if st[0] == "late":
            return "children are rendered before the old children whose keys vanished are unmounted"
        if kind == "exit" and st[0] == "R" and st[1] is not True:
            return "old children whose keys vanished are not unmounted on this path"
        return True

    typestate(ck, fl, ("0", None), step, final, f"{name_of(f)}: children whose keys vanished")

    # and nothing but the key decides which of them
    adds = set(uses)
    for n in uses:
        for a in work[n].a["args"]:
            adds |= {d for d in fl.depends(a, work[n]) if g.instrs[d].op == "comp_add" or g.instrs[d].op == "call" and fl.callee_key(g.instrs[d]).rsplit(".", 1)[-1] in FILLERS}

    def by_key(b, lab):
        kind, terms, pol, op, at = decode(fl, b, {})
        if kind in ("none", "truthy") and terms and all(t[0] == "item" and attr_of(t[1]) in X or t[0] == "call" and t[2] in looks for t in terms):
            return True
        d = g.deftmp.get(op[1]) if op[0] == "t" else None
        if d is None or d.op != "op" or d.a["fn"] not in ("In", "NotIn") or not dall & ({d.id} | fl.depends(d.a["args"][1], d)):
            return False
        gone = d.a["fn"] == ("NotIn" if d.id in dall else "In")
        return ((lab == "t") == pol) != gone

    for h, bad in skipped_items(fl, adds, by_key):
        b = loop_nodes(fl, h)
        if not any(from_old(fl, x, h, old, X) for x in (h.a["it"],)) and not fl.depends(h.a["it"], h) & dall:
            continue
        ck.ob(bad is None, f"{name_of(f)}: every vanished child", h.loc, "some old children whose keys vanished are left out", lines(fl, bad) if bad else "")


def from_old(fl, op, at, old, X):
    """May the operand derive from the children of the old state?"""
    for d in fl.depends(op, at):
        i = fl.g.instrs[d]
        if i.op == "getattr" and i.a["attr"] in X and any(t == old for t in fl.terms(i.a["obj"], i)):
            return True
    return False


def _guards(fl, cond_src, target):
    """Is `target` executed only under a branch on the value of instr `cond_src`?"""
    t = fl.g.instrs[target]
    for i in fl.g.live():
        if i.op == "branch" and cond_src in fl.depends(i.a["cond"], i):
            for lab in ("t", "f"):
                if target in _region(fl, i, lab) and target not in _region(fl, i, "f" if lab == "t" else "t", stop=i.id):
                    return True
    return False


def _region(fl, br, lab, stop=None):
    """Instructions reachable from one side of a branch without passing the branch again."""
    out, todo = set(), [s for s, l in br.succ if l == lab]
    while todo:
        n = todo.pop()
        if n in out or n == br.id:
            continue
        out.add(n)
        todo.extend(s for s, l in fl.g.instrs[n].succ if l in ("n", "t", "f"))
    return out


def _body(fl, it):
    """Instructions of the loop driven by an iterator."""
    out = set()
    for i in fl.g.live():
        if i.op == "next" and any(d == it.id for d in fl.depends(i.a["it"], i)):
            for s, l in i.succ:
                if l in ("n", "t"):
                    todo = [s]
                    while todo:
                        n = todo.pop()
                        if n in out or n == i.id:
                            continue
                        out.add(n)
                        todo.extend(s2 for s2, l2 in fl.g.instrs[n].succ if l2 in ("n", "t", "f"))
    return out


def failed(ck):
    ck.rule("failed-render", "when a render fails, the children of the old and of the new state are unmounted", 1)
    U = unmounters(ck)
    f, fl = activation(ck, ren_opaque(ck, OPAQUE))
    old = old_param(ck, f, fl)
    X, lk = children_attr(ck, fl, old)
    work = completion(fl, {u.qual for u in U})
    rids = {i.id for i in render_calls(fl)}
    did = {i.id for i in calls_to(fl, DID)}
    will = set(completion(fl, {WILL}))
    cover = {}
    for n, c in work.items():
        b = set()
        for a in c.a["args"]:
            for d in fl.depends(a, c):
                i = fl.g.instrs[d]
                if i.op == "getattr" and i.a["attr"] in X:
                    ts = fl.terms(i.a["obj"], i)
                    if old in ts:
                        b.add("old")
                    if any(t[0] == "call" for t in ts):
                        b.add("new")
        cover[n] = frozenset(b)

    after = set()

    def step(i, lab, st, env):
        ph, got = st
        if ph == "caught":
            after.add(i.id)
        if i.id in rids and ph == "0":
            ph = "in"
        if ph == "in" and lab == "e":
            return [("E", frozenset())]
        if ph == "E" and i.op == "catch":
            return [("caught", frozenset())]
        if ph == "caught":
            if i.op == "branch" and lab in ("t", "f"):
                kind, terms, pol, *_ = decode(fl, i, env)
                if kind in ("none", "truthy") and (terms == {old} or terms == {("k", None)} or terms <= {old, ("k", None)}):
                    if (lab == "t") == (pol if kind == "none" else not pol):
                        got = got | {"old"}
            if i.id in cover and lab == "n":
                got = got | cover[i.id]
            if i.id in did:
                return [("end" if {"old", "new"} <= got else "miss " + " ".join(sorted({"old", "new"} - got)), frozenset())]
            if lab in ("e", "c"):
                return [("second", frozenset())]
            return [(ph, got)]
        return [(ph, got)]

    def final(kind, st):
        if st[0].startswith("miss"):
            return f"the children of the {' and '.join(st[0].split()[1:])} state are not unmounted when the render fails"
        return True

    typestate(ck, fl, ("0", frozenset()), step, final, f"{name_of(f)}: children of a failed render")
    adds = {n for n in cover if cover[n]}
    for n in list(adds):
        for a in work[n].a["args"]:
            dep = fl.depends(a, work[n])
            adds |= {d for d in dep if fl.g.instrs[d].op == "comp_add" or fl.g.instrs[d].op == "call" and fl.callee_key(fl.g.instrs[d]).rsplit(".", 1)[-1] in FILLERS}
    for h, bad in skipped_items(fl, adds & after, lambda b, lab: False):
        if h.id in after and any(fl.g.instrs[d].op == "getattr" and fl.g.instrs[d].a["attr"] in X for d in fl.depends(h.a["it"], h)):
            ck.ob(bad is None, f"{name_of(f)}: every child of a failed render", h.loc, "some children of a failed render are left out", lines(fl, bad) if bad else "")


def attached(ck):
    ck.rule("attached", "each rendered child is attached to its parent's state, where it is found when it has to be unmounted", 2)
    f, fl = activation(ck, ren_opaque(ck, OPAQUE))
    old = old_param(ck, f, fl)
    X, lk = children_attr(ck, fl, old)
    g = fl.g
    looks = {i.id for _, _, i in lk}
    will = set(completion(fl, {WILL}))
    rec = {}
    for i in g.live():
        if i.op == "await":
            c = rec_call(ck, fl, i)
            if c is not None and c.a["callee"][1] is f:
                rec[i.id] = ("await", ("call", f.qual, c.id))
    made = {}
    for i in g.calls():
        if i.a["callee"][0] == "class":
            init = ck.p.method(i.a["callee"][1], "__init__")
            if init is not None and any(p in X for p in init.params()):
                made[i.id] = ("call", fl.callee_key(i), i.id)
    sets = {i.id: i for i in g.live() if i.op == "setitem" and any(t[0] == "attr" and t[2] in X for t in fl.terms(i.a["obj"], i))}
    ck.need(sets, "children are attached")
    began = {i.id for i in will_render_sites(fl, will)}

    def step(i, lab, st, env):
        ph, what = st
        if ph == "bad":
            return [st]
        if i.id in began and lab == "n" and ph == "own":
            return [("run", None)]
        if ph == "run":
            if (i.id in rec or i.id in made) and lab == "n":
                if what is not None:
                    return [("bad", what)]
                return [("run", i.id)]
            if i.op == "catch":
                return [("run", None)]
            if what is not None:
                if i.op == "branch" and lab == "f":
                    d = g.deftmp.get(i.a["cond"][1]) if i.a["cond"][0] == "t" else None
                    if d is not None and d.op == "call" and fl.callee_key(d) == "isinstance" and (rec.get(what) or made.get(what)) in fl.terms_path(d.a["args"][0], d, env):
                        return []
                if i.id in sets:
                    ts = fl.terms_path(i.a["val"], i, env)
                    want = rec.get(what) or made.get(what)
                    if want in ts:
                        return [("run", None)]
                if i.id in looks:
                    return [("bad", what)]
        return [st]

    def final(kind, st):
        if st[0] == "bad" or kind == "exit" and st[0] == "run" and st[1] is not None:
            return "a rendered child may not be attached to its parent's state: it would never be unmounted"
        return True

    typestate(ck, fl, ("own", None), step, final, f"{name_of(f)}: rendered children")
    # the entry point which re-renders one component in place
    n = 0
    for r in class_roots(ck.p, LAYOUT):
        fr = flow(ck, r, OPAQUE | {f.qual})
        done = completion(fr, {f.qual})
        if not done or r is f:
            continue
        n += 1
        wants = {("await", ("call", f.qual, c.id)) for c in done.values()}
        sets2 = {i.id for i in fr.g.live() if i.op == "setitem" and any(t[0] == "attr" and t[2] in X for t in fr.terms(i.a["obj"], i)) and fr.terms(i.a["val"], i) & wants}

        def step2(i, lab, st, env):
            if i.id in done and lab == "n":
                return ["R"]
            if st == "R":
                if i.id in sets2:
                    return ["ok"]
                if i.op == "branch" and lab in ("t", "f"):
                    kind, terms, pol, *_ = decode(fr, i, env)
                    if kind in ("none", "truthy") and all(t == ("k", None) or is_attr_chain(t, "parent") for t in terms):
                        if (lab == "t") == (pol if kind == "none" else not pol):
                            return ["ok"]
            return [st]

        typestate(ck, fr, "0", step2, lambda kind, st: not (kind == "exit" and st == "R"), f"{name_of(r)}: re-rendered component",
                  "a component which was rendered again may not be attached to its parent's state")
    ck.need(n, "entry point which renders a component again")


def will_render_sites(fl, will):
    return [fl.g.instrs[n] for n in will]


# ------------------------------------------------------------------ the unmounting function
def strip_attr(t):
    while isinstance(t, tuple) and t[0] == "attr":
        t = t[1]
    return t


def worker(ck):
    ck.rule("unmount", "each state taken from the work is stripped of its handlers, its children are added to the work, and its hook is unmounted once", 3)
    P = ck.p
    for u in unmounters(ck):
        fl = flow(ck, u, {UNMOUNT})
        g = fl.g
        W = completion(fl, {UNMOUNT})
        ck.need(W, f"{u.name} unmounts no hook")
        Ms = set()
        for c in W.values():
            for t in fl.recv_terms(c):
                Ms.add(strip_attr(t))
        X = set()
        # the attribute with the children: what is handed on
        prod = {}
        for i in g.live():
            if i.op in ("call", "getitem", "next", "unpack"):
                for t in fl.term_of_instr(i):
                    if t in Ms:
                        prod[i.id] = t
        entry_M = any(t[0] == "p" for t in Ms)
        ck.need(prod or entry_M, f"{u.name}: where states come from")

        def of_M(op, at, attr=None):
            for d in fl.depends(op, at):
                i = g.instrs[d]
                if i.op == "getattr" and (attr is None or i.a["attr"] in attr) and fl.terms(i.a["obj"], i) & Ms:
                    yield i

        # --- children
        src_orig = set()
        for pid in prod:
            i = g.instrs[pid]
            r = fl.recv(i) if i.op == "call" else i.a.get("obj")
            if r is not None:
                src_orig |= fl.origins(r, i)
        more = set()
        for i in g.live():
            ok = False
            if i.op == "call":
                nm = fl.callee_key(i).rsplit(".", 1)[-1]
                if nm in ("extend", "append", "extendleft", "appendleft", "insert"):
                    ok = not src_orig or bool(fl.origins(fl.recv(i), i) & src_orig)
                elif i.a["callee"][0] == "repo" and i.a["callee"][1].qual in {x.qual for x in unmounters(ck)} | {u.qual}:
                    ok = True
                ok = ok and any(x.a["attr"] for a in i.a["args"] for x in of_M(a, i) if x.a["attr"] not in ("life_cycle_state", "hook", "id"))
            elif i.op == "op" and i.a["fn"] in ("Add", "IAdd", "AddAssign"):
                ok = any(x.a["attr"] not in ("life_cycle_state", "hook", "id") for a in i.a["args"] for x in of_M(a, i))
            elif i.op == "build":
                # work = [*work, *M.children]
                ok = any(x.a["attr"] not in ("life_cycle_state", "hook", "id") for a in operands(i) for x in of_M(a, i)) and any(fl.origins(a, i) for a in operands(i))
                ok = ok and any(g.deftmp.get(a[1]) is not None and g.deftmp[a[1]].op == "star" for a in operands(i) if a[0] == "t")
            if ok:
                more.add(i.id)
        mchild = set()
        for n in more:
            for a in operands(g.instrs[n]):
                for x in of_M(a, g.instrs[n]):
                    mchild.add(x.a["attr"])
        for i in g.live():
            if i.op == "iter" and list(of_M(i.a["src"], i)) and any(n in _body(fl, i) for n in more):
                more.add(i.id)
        # --- handlers
        dele = {}
        for i in g.live():
            if i.op == "delitem" and "_event_handlers" in self_attr_names(fl, i.a["obj"], i):
                dele[i.id] = i.a["key"]
            elif i.op == "call" and fl.callee_key(i) == ".pop" and i.a["args"] and "_event_handlers" in self_attr_names(fl, fl.recv(i), i):
                dele[i.id] = i.a["args"][0]
        hand = set()
        nexts = {}
        for i in g.live():
            if i.op == "iter" and list(of_M(i.a["src"], i)):
                bd = _body(fl, i)
                for n, key in dele.items():
                    if n in bd and i.id in fl.depends(key, g.instrs[n]):
                        hand.add(i.id)
                        nexts[i.id] = n
        ck.ob(bool(hand), f"{name_of(u)}: handlers of an unmounted state", u.loc(), "the event handlers of an unmounted state are not removed")
        # inside of the loop only ownership or presence may prevent the removal
        for it in hand:
            for nx in [x for x in g.live() if x.op == "next" and it in fl.depends(x.a["it"], x)]:
                allowed = set()
                for b in g.live():
                    if b.op != "branch":
                        continue
                    kind, terms, pol, op, at = decode(fl, b, {})
                    d = g.deftmp.get(op[1]) if op[0] == "t" else None
                    if d is not None and d.op == "op" and d.a["fn"] in ("Is", "IsNot", "Eq", "NotEq", "In", "NotIn"):
                        pos = d.a["fn"] in ("Is", "Eq", "In")
                        if d.a["fn"] in ("In", "NotIn"):
                            good = bool(self_attr_names(fl, d.a["args"][1], d))
                        else:
                            good = any(fl.terms(a, d) & Ms for a in d.a["args"])
                        if good:
                            allowed.add((b.id, "f" if pos == pol else "t"))
                starts = [s for s, l in nx.succ if l in ("n", "t")]
                bad = fl.reach_avoiding(starts, lambda x: x.id == nx.id, lambda x: x.id in dele, lambda a, l, b: l in ("n", "t", "f") and (a.id, l) not in allowed)
                ck.ob(bad is None, f"{name_of(u)}: which handlers are removed", nx.loc, "handlers of an unmounted state may stay registered", lines(fl, bad) if bad else "")
        # --- registry
        unreg = {}
        for i in g.live():
            if i.op == "call" and fl.callee_key(i) == ".pop" and i.a["args"] and self_attr_names(fl, fl.recv(i), i) and any(x.a["attr"] in ("life_cycle_state", "id") for x in of_M(i.a["args"][0], i)):
                unreg[i.id] = i
            elif i.op == "delitem" and self_attr_names(fl, i.a["obj"], i) and any(True for x in of_M(i.a["key"], i) if x.a["attr"] in ("life_cycle_state", "id")):
                unreg[i.id] = i
        ck.ob(bool(unreg), f"{name_of(u)}: registry", u.loc(), "an unmounted component stays registered")
        regattrs = set()
        for i in unreg.values():
            regattrs |= self_attr_names(fl, fl.recv(i) if i.op == "call" else i.a["obj"], i)

        def comp_fact(i, env):
            """(what, fact if true): 'comp' state of a component, 'reg' registered"""
            k, pol, _ = fl.pred(i.a["cond"], i, env)
            if k is not None and k[0] != "const" and is_comp_key(ck, k) is not None:
                return "comp", pol
            kind, terms, p2, op, at = decode(fl, i, env)
            if any(t[0] == "call" and t[2] in unreg for t in terms):
                return "reg", (p2 if kind == "truthy" else not p2)
            d = g.deftmp.get(op[1]) if op[0] == "t" else None
            if d is not None and d.op == "op" and d.a["fn"] in ("In", "NotIn") and self_attr_names(fl, d.a["args"][1], d) & regattrs:
                return "reg", p2 == (d.a["fn"] == "In")
            if kind in ("truthy", "none") and any_term(terms, lambda t: t[0] == "attr" and t[2] == "life_cycle_state" or t[0] == "call" and t[1] in ("getattr", "hasattr")):
                return "comp", (p2 if kind == "truthy" else not p2)
            return None

        def step(i, lab, st, env):
            if st is not None and st[0] in ("badend", "twice"):
                return [st]
            if i.id in prod and lab in ("n", "t"):
                if st is not None and not done(st):
                    return [("badend",) + st]
                return [(0, 0, None, None, 0, 0)]
            if st is None:
                return [st]
            h, c, comp, reg, un, wi = st
            if i.id in hand:
                h = 1
            if i.id in more and lab == "n":
                c = 1
            if i.op == "branch" and lab in ("t", "f"):
                r = comp_fact(i, env)
                if r:
                    val = r[1] == (lab == "t")
                    if r[0] == "comp":
                        comp = val
                    else:
                        reg = val
            if i.id in unreg and lab == "n":
                un = 1
            if i.id in W and lab == "n":
                if wi or not un or reg is not True and not _raises_if_absent(unreg):
                    return [("twice",) + st]
                wi = 1
            return [(h, c, comp, reg, un, wi)]

        def done(st):
            if st is None:
                return True
            h, c, comp, reg, un, wi = st
            return bool(h and c and (comp is False or wi or reg is False))

        def final(kind, st):
            if st is None:
                return True
            if st[0] == "twice":
                return "a hook may be unmounted although its component was already removed from the registry"
            if st[0] == "badend":
                st = st[1:]
            elif kind != "exit":
                return True
            if done(st):
                return True
            h, c, comp, reg, un, wi = st
            return ("its event handlers stay registered" if not h else "its children are not unmounted" if not c else "its hook is not unmounted") + " on some path of unmounting a state"

        init = (0, 0, None, None, 0, 0) if not prod else None
        typestate(ck, fl, init, step, final, f"{name_of(u)}: one unmounted state")
        ck.need(mchild, f"{u.name}: children of an unmounted state") if more else None
        if not more:
            ck.ob(False, f"{name_of(u)}: children of an unmounted state", u.loc(), "the children of an unmounted state are not unmounted")
        # the work list starts with everything that was handed in
        if prod:
            good = False
            for o in src_orig:
                i = g.instrs[o]
                dep = set()
                for x in operands(i):
                    dep |= fl.depends(x, i)
                ps = {x for y in [i] + [g.instrs[d] for d in dep] for x in operands(y) if x[0] == "p" and x[2] != "self"} | {x for x in operands(i) if x[0] == "p"}
                good = good or bool(ps)
            ck.ob(good or any(x[0] == "p" for t in Ms for x in sub_terms(t)), f"{name_of(u)}: work list", u.loc(), "the states to unmount are not those handed in")
            # only an empty list ends the work
            for b in g.live():
                pass


def _raises_if_absent(unreg):
    return all(i.op == "delitem" or len(i.a["args"]) == 1 for i in unreg.values())


def leaving(ck):
    tree.decide(ck, "leaving", "in trees of every shape each component which is displayed no longer is unmounted once when the render is over, no other one is, and its handlers are gone", "unmount", "close", "ended", "kept", "task")


# decided by interpretation of whole renders as well
SPARE = {"looked_up": "leaving", "replaced": "leaving", "vanished": "leaving", "failed": "leaving", "attached": "leaving", "worker": "leaving"}
RULES = [looked_up, replaced, vanished, failed, attached, worker, leaving]
