"""C03  State belongs to (parent, key or position, component function)."""
import html
import json
import urllib.parse

from .. import tree
from ..lib import *
from .c01 import OPAQUE, WILL

EXPLANATION = """
The recursive renderer's flow graph is explored with an automaton which records, along each
path, whether an old state exists, whether it is a component's, and whether the component
functions compare equal. Wherever a hook of an old state is carried over, all three must be
known true; wherever a fresh hook is created instead, one of them must be known false. The
key given to a child, the test for duplicate keys, and the lookup/attachment of child states
are checked by provenance.
"""
ASSUMPTIONS = ["equality of component functions is what identifies a component type"]


def is_comp_key(ck, k):
    """branch key 'E is the state of a component' -> E"""
    if k[0] != "truthy":
        return None
    x = k[1]
    if x[0] == "attr":
        for m in ck.p.methods_named(x[2]):
            if "property" in m.decorators and any(isinstance(n, ast.Call) and dotted(n.func) == "hasattr" for n in ast.walk(m.node)):
                return x[1]
    if x[0] == "callb" and x[1] == "hasattr":
        return x[2][0]
    return None


def classify(ck, fl, old, i, env=None):
    """('none'|'comp'|'same', value of fact when the condition is true) of a branch about `old`."""
    k, pol, _ = fl.pred(i.a["cond"], i, env)
    if k is None or k[0] == "const":
        return None
    if k[0] == "none" and k[1] == old:
        return "none", pol
    if k[0] == "truthy" and k[1] == old:
        return "none", not pol
    e = is_comp_key(ck, k)
    if e == old:
        return "comp", pol
    if k[0] in ("Eq", "Is") and isinstance(k[1], frozenset) and len(k[1]) == 2:
        a, b = tuple(k[1])
        if a[0] == "attr" and b[0] == "attr" and a[2] == "type" and b[2] == "type":
            ra, rb = root(a), root(b)
            if (ra == old) != (rb == old):
                return "same", pol
        # type read through a helper variable
    return None


def old_param(ck, f, fl):
    """The parameter which carries the state of the previous render."""
    cands = {}
    for i in fl.g.calls():
        if i.a["callee"][0] == "class":
            for t in arg_terms(fl, i):
                if t[0] == "attr" and t[2] in ("hook", "life_cycle_state") and root(t)[0] == "p":
                    cands[root(t)] = cands.get(root(t), 0) + 1
    if not cands:
        for i in fl.g.live():
            if i.op == "getattr":
                for t in fl.terms(i.a["obj"], i):
                    if t[0] == "p" and t[2] not in ("self", "parent", "component") and i.a["attr"] == "life_cycle_state":
                        cands[t] = 1
    ck.need(cands, "the renderer carries no state over from an earlier render")
    return max(sorted(cands), key=lambda c: cands[c])


def reuse(ck):
    ck.rule("reuse", "a hook is carried over exactly if the old state is that of a component with the same function", 2)
    f, fl = activation(ck, ren_opaque(ck, OPAQUE))
    old = old_param(ck, f, fl)
    will = completion(fl, {WILL})
    reuse_ev, fresh_ev = {}, {}
    for i in fl.g.calls():
        c = i.a["callee"]
        if c[0] == "class":
            if c[1].qual == HOOK:
                fresh_ev[i.id] = i
            elif any(t[0] == "attr" and t[2] in ("hook", "life_cycle_state") and root(t) == old for t in arg_terms(fl, i)):
                reuse_ev[i.id] = i
    ck.need(reuse_ev and fresh_ev, "carrying over and creating hooks")
    errs = set()

    def step(i, lab, st, env):
        none, comp, same, ev = st
        if i.op == "branch" and lab in ("t", "f"):
            c = classify(ck, fl, old, i, env)
            if c is not None:
                what, pol = c
                val = pol if lab == "t" else not pol
                cur = {"none": none, "comp": comp, "same": same}[what]
                if cur is not None and cur != val:
                    return []
                if what == "none":
                    none = val
                elif what == "comp":
                    comp = val
                else:
                    same = val
        if i.id in reuse_ev and lab == "n":
            if not (comp is True and same is True):
                ev = "badreuse"
        if i.id in fresh_ev and lab == "n" and ev is None:
            if not (none is True or comp is False or same is False):
                ev = "badfresh"
        return [(none, comp, same, ev)]

    # stop exploring at the begin of the render: only the choice of the hook matters
    def step2(i, lab, st, env):
        if i.id in will:
            return []
        return step(i, lab, st, env)

    for mode in ("coarse", "full"):
        try:
            res = fl.esp((None, None, None, None) if True else None, step2, 60000, mode == "full")
        except StateCap:
            ck.need(False, "too many paths select a hook")
        ck.states += len(fl.last_seen)
        bad = []
        for n in will:
            for st, cfgn in res.get(n, {}).items():
                if st[3]:
                    bad.append((st[3], lines(fl, fl.witness(cfgn))))
        if not bad:
            break
    for ev, path in bad:
        ck.ob(False, f"{name_of(f)}: {'carried over hook' if ev == 'badreuse' else 'fresh hook'}", f.loc(),
              "the state of another component may be carried over" if ev == "badreuse" else "the state of the same component may be dropped", path)
    if not bad:
        for i in reuse_ev.values():
            ck.ob(True, f"{name_of(f)}: carried over hook", i.loc)
        for i in fresh_ev.values():
            ck.ob(True, f"{name_of(f)}: fresh hook", i.loc)
    # the hook and the id which identify the state are carried over together
    P = ck.p
    for i in reuse_ev.values():
        ts = arg_terms(fl, i)
        hooks = {t for t in ts if t[0] == "attr" and t[2] == "hook" and root(t) == old}
        if hooks:
            ids = {t for t in ts if t[0] == "attr" and t[2] == "id" and t[1] == next(iter(hooks))[1]}
            ck.ob(bool(ids), f"{name_of(f)}: identity of a carried over hook", i.loc, "a hook is carried over without the identity under which it schedules renders")
    # a fresh state's hook schedules the id it is registered under
    for i in fl.g.calls():
        if i.a["callee"][0] == "class" and i.id not in reuse_ev and i.a["callee"][1].qual != HOOK:
            ts = [fl.terms(a, i) for a in i.a["args"]] + [fl.terms(v, i) for _, v in i.a["kw"]]
            hs = [t for s in ts for t in s if t[0] == "call" and t[1] == HOOK]
            if hs:
                h = fl.g.instrs[hs[0][2]]
                fresh = set()
                for a in list(h.a["args"]) + [v for _, v in h.a["kw"]]:
                    fresh |= {d for d in lam_free_origins(fl, a, h)}
                idorig = set()
                for a in list(i.a["args"]) + [v for _, v in i.a["kw"]]:
                    idorig |= fl.origins(a, i)
                ck.ob(bool(fresh & idorig), f"{name_of(f)}: identity of a fresh hook", i.loc, "a fresh hook schedules renders of another identity than its own")


def lam_free_origins(fl, op, at):
    """Origins of the variables a lambda/partial argument captures."""
    out = set()
    if op[0] == "l":
        lam, frame = op[1], op[2]
        for n in ast.walk(lam.body):
            if isinstance(n, ast.Name):
                out |= fl.origins(("v", frame, n.id), at)
    elif op[0] == "f":
        fn, frame = op[1], op[2]
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Name):
                out |= fl.origins(("v", frame, n.id), at)
    else:
        for d in fl.origins(op, at):
            i = fl.g.instrs[d]
            if i.op == "assign" and i.a["src"][0] in ("l", "f"):
                out |= lam_free_origins(fl, i.a["src"], i)
            elif i.op == "call":
                for a in i.a["args"]:
                    out |= fl.origins(a, i)
            elif i.op == "decorated":
                out.add(d)
    return out


def keys(ck):
    ck.rule("keys", "the position is used as key only of children without a key; duplicate keys are refused; children are looked up and attached by their own key", 3)
    f, fl = activation(ck, ren_opaque(ck, OPAQUE))
    old = old_param(ck, f, fl)
    g = fl.g
    # --- the key of a child: joins of an explicit key with the position
    n = 0
    poss = set()
    for i in g.live():
        if i.op == "assign" and i.dst[0] == "v" and i.a["src"][0] == "t":
            for t in fl.terms(i.a["src"], i):
                if t[0] == "unpack" and t[2] == 0 and any_term({t}, lambda x: x[0] == "call" and x[1] == "enumerate"):
                    poss.add(i.id)
    post = {t for d in poss for t in fl.terms(g.instrs[d].a["src"], g.instrs[d])}
    for i in g.live():
        if i.op == "assign" and i.dst[0] == "v" and i.id not in poss:
            is_pos = i.a["src"][0] == "v" and any(t in post for t in fl.terms(i.a["src"], i)) and len(fl.terms(i.a["src"], i)) == 1
            if not is_pos:
                continue
            # does another definition of the same variable carry an explicit key?
            others = [d for d in fl.defs if d.dst == i.dst and d.id != i.id and d.op == "assign"]
            expl = [d for d in others if any_term(fl.terms(d.a["src"], d), lambda x: x[0] == "attr" and x[2] == "key" or x[0] == "call" and x[1] == ".get" and is_const(fl.arg(g.instrs[x[2]], 0), "key") or x[0] == "item" and x[2] == ("k", "key"))]
            if not expl:
                continue
            n += 1
            facts = fl.facts_at(i)
            good = any(k[0] == "none" and v for k, v in facts if _about_key(fl, k[1], expl))
            ck.ob(good, f"{name_of(i.func)}: position used as key", i.loc, "the position may be used as key although an explicit key was given")
    ck.need(n, "default key of a child")
    # both kinds of children may carry an explicit key
    kinds = {"component": lambda x: x[0] == "attr" and x[2] == "key", "element": lambda x: x[0] == "call" and x[1] == ".get" and is_const(fl.arg(g.instrs[x[2]], 0), "key") or x[0] == "item" and x[2] == ("k", "key")}
    looked = {i.id for _, _, i in child_lookups(fl, old)}
    older = lambda t: root(t)[0] in ("p", "k") or root(t)[0] == "call" and root(t)[-1] in looked
    src = {t for d in g.live() if d.op == "assign" and d.dst[0] == "v" for t in fl.terms(d.a["src"], d) if not (t[0] == "attr" and older(t))}
    for what, p in kinds.items():
        ck.ob(any_term(src, p), f"{name_of(f)}: explicit key of a child {what}", f.loc(), f"the explicit key of a {what} is not used")
    # --- duplicates
    dup = []
    adds = {}
    for i in g.live():
        if i.op == "call" and fl.callee_key(i) == ".add" and i.a["args"]:
            for o in fl.origins(fl.recv(i), i):
                adds.setdefault(o, []).append(i)
    for i in g.live():
        if i.op == "branch":
            k, pol, _ = fl.pred(i.a["cond"], i)
            if k and k[0] == "In":
                d = g.deftmp.get(i.a["cond"][1]) if i.a["cond"][0] == "t" else None
                if d is not None and d.op == "op":
                    oo = fl.origins(d.a["args"][1], d)
                    if any(o in adds for o in oo):
                        dup.append((i, pol))
    if dup:
        ids = {i.id: pol for i, pol in dup}
        rends = {i.id for i in g.live() if i.op == "await" and rec_call(ck, fl, i)}
        # membership of a key which was seen before must end in an exception
        def step(i, lab, st, env):
            if i.id in ids and lab in ("t", "f"):
                if (lab == "t") == ids[i.id]:
                    return ["D"]
            if st == "D" and i.id in rends:
                return ["bad"]
            if st == "D" and lab == "e" and i.op != "raise":
                return []
            return [st]
        typestate(ck, fl, "0", step, lambda kind, st: st != "bad", f"{name_of(f)}: duplicate keys", "children with equal keys are rendered instead of refused")
    else:
        # another way to find duplicates: something counts keys and raises before children are rendered
        cnt = [i for i in g.calls() if fl.callee_key(i).rsplit(".", 1)[-1] in ("Counter", "set", "len", "count")]
        rs = [i for i in g.live() if i.op == "raise" and any(x.id in fl.depends(a, c) for c in g.live() if c.op == "branch" for a in [c.a["cond"]] for x in cnt)]
        ck.ob(bool(rs), f"{name_of(f)}: duplicate keys", f.loc(), "children with equal keys are not refused")
    # --- lookup and attachment
    looks = child_lookups(fl, old)
    ck.ob(bool(looks), f"{name_of(f)}: old child looked up", f.loc(), "old children are not looked up")
    sets = [i for i in g.live() if i.op == "setitem" and any(t[0] == "attr" and t[2] in {a for a, _, _ in looks} for t in fl.terms(i.a["obj"], i))]
    ck.ob(bool(sets), f"{name_of(f)}: new child attached", f.loc(), "rendered children are not attached to their parent")
    lk = set()
    for attr, key, i in looks:
        lk |= fl.terms(key, i)
    for s in sets:
        kt = fl.terms(s.a["key"], s)
        good = kt <= lk or any(t[0] == "p" and t[2] == "key" or t[0] == "attr" and t[2] == "key" for t in kt)
        ck.ob(good, f"{name_of(s.func)}: key under which a child is attached", s.loc, "a child is attached under another key than the one it is looked up by")
    # the keys come from the children, not from their position alone
    for attr, key, i in looks:
        for t in fl.terms(key, i):
            if t[0] == "unpack" and t[2] == 0 and t[1][0] == "next" and any_term({t}, lambda x: x[0] == "call" and x[1] == "enumerate"):
                ck.ob(False, f"{name_of(i.func)}: key by which an old child is looked up", i.loc, "an old child is looked up by position instead of by key")


def _about_key(fl, expr, expl):
    """Is a tested expression the explicit key (or the variable which holds it)?"""
    if expr[0] == "var":
        return any(d.id in expr[2] for d in expl) or any(d.dst == expr[1] or d.a["src"] == expr[1] for d in expl)
    if expr[0] == "attr" and expr[2] == "key":
        return True
    if expr[0] == "t":
        return any(any(fl.g.deftmp.get(expr[1]) is not None and o == fl.g.deftmp[expr[1]].id for o in fl.origins(d.a["src"], d)) for d in expl)
    return False


def rec_call(ck, fl, aw):
    """The recursive render call an await waits for, if any."""
    for t in fl.terms(aw.a["src"], aw):
        if t[0] == "call":
            c = fl.g.instrs[t[2]].a["callee"]
            if c[0] == "repo" and c[1].module.name == "reactpy.core.layout" and c[1].is_async and c[1] not in unmounters(ck):
                return fl.g.instrs[t[2]]
    return None


def child_lookups(fl, old):
    """(attr, key operand, instr) of lookups of old children by key."""
    out = []
    for i in fl.g.live():
        if i.op == "call" and fl.callee_key(i) in (".get", ".pop") and i.a["args"]:
            for t in fl.recv_terms(i):
                if t[0] == "attr" and root(t) == old and t[1] == old:
                    out.append((t[2], i.a["args"][0], i))
                    break
        elif i.op == "getitem":
            for t in fl.terms(i.a["obj"], i):
                if t[0] == "attr" and t[1] == old:
                    # lookups feeding only the unmounting of vanished children are keyed by old keys
                    kt = fl.terms(i.a["key"], i)
                    if any_term(kt, lambda x: x[0] == "call" and x[1] == "enumerate"):
                        out.append((t[2], i.a["key"], i))
                    break
    return out


def paths(ck):
    ck.rule("path", "a child's path is its parent's path plus its own index or key", 2)
    f, fl = activation(ck, ren_opaque(ck, OPAQUE))
    g = fl.g
    n = 0
    for i in g.calls():
        if i.a["callee"][0] != "class":
            continue
        init = ck.p.method(i.a["callee"][1], "__init__")
        if init is None or "patch_path" not in init.params():
            continue
        kw = dict(i.a["kw"])
        par = init.params()[1:]
        given = {p: a for p, a in zip(par, i.a["args"])}
        given.update({k: v for k, v in kw.items() if k})
        for pth, own in (("patch_path", "index"), ("key_path", "key")):
            if pth not in given or own not in given:
                continue
            for t in fl.terms(given[pth], i):
                if t[0] in ("k", "attr", "p"):
                    continue
                d = g.instrs[t[-1]] if isinstance(t[-1], int) else i
                ownt = fl.terms(given[own], i)
                made = made_of(fl, t, lambda x: x[0] == "attr" and x[2] == pth, lambda x: x in ownt)
                if made is None:
                    leaves = parts_of(fl, t)
                    good = any(x[0] == "attr" and x[2] == pth for x in leaves) and bool(ownt & leaves)
                elif own == "index":
                    good = all(made(P, k) == f"{P}/children/{k}" for P in ("", "/children/3") for k in (0, 1, 12))
                else:
                    good = all(made(P, "b") != made(Q, "b") for P, Q in (("", "/a"), ("/a", "/c"))) and made("/a", "b") != made("/a", "c")
                n += 1
                ck.ob(good, f"{name_of(d.func)}: {pth}", d.loc, f"{pth} of a child is not its parent's {pth} extended by its own {own}")
    ck.need(n, "paths of child states")


def parts_of(fl, t, depth=12):
    """all terms of which a term is made"""
    out, todo = {t}, [(t, depth)]
    while todo:
        x, n = todo.pop()
        if n and x[0] in ("fstr", "op", "build", "call") and isinstance(x[-1], int):
            d = fl.g.instrs[x[-1]]
            for o in operands(d):
                for u in fl.terms(o, d):
                    if u not in out:
                        out.add(u)
                        todo.append((u, n - 1))
    return out


PURE = {"repr": repr, "str": str, "ascii": ascii, "format": format, "json.dumps": json.dumps, "urllib.parse.quote": urllib.parse.quote, "html.escape": html.escape, "hash": None}


class Unknown(Exception):
    pass


def made_of(fl, term, *leaves):
    """function which computes a term from the values of its leaves, or None if it cannot be told"""
    def ev(t, vals):
        for p, v in zip(leaves, vals):
            if p(t):
                return v
        if t[0] == "k":
            return t[1]
        d = fl.g.instrs[t[-1]] if isinstance(t[-1], int) and t[0] in ("fstr", "op", "call", "build") else None
        if d is None:
            raise Unknown(t)
        def arg(o):
            ts = fl.terms(o, d)
            xs = {repr(x): x for x in (ev(u, vals) for u in ts)}
            if len(xs) != 1:
                raise Unknown(o)
            return next(iter(xs.values()))
        if t[0] == "fstr":
            return "".join(str(arg(o)) for o in d.a["parts"])
        if t[0] == "build":
            xs = [arg(o) for o in d.a["items"]]
            return tuple(xs) if d.a["kind"] == "tuple" else xs
        if t[0] == "op":
            xs = [arg(o) for o in d.a["args"]]
            try:
                r = fold(d.a["fn"], xs)
            except Exception:
                raise Unknown(t) from None
            if r is None:
                raise Unknown(t)
            return r
        key = fl.callee_key(d)
        xs = [arg(o) for o in d.a["args"]]
        try:
            if PURE.get(key):
                return PURE[key](*xs, **{k: arg(v) for k, v in d.a["kw"]})
            if key in (".replace", ".join", ".format", ".encode", ".removeprefix", ".strip", ".lstrip", ".rstrip", ".lower", ".upper", ".casefold", ".split", ".hex", ".title", ".removesuffix"):
                return getattr(arg(fl.recv(d)), key[1:])(*xs)
        except (TypeError, AttributeError, KeyError):
            pass
        raise Unknown(t)
    def f(*vals):
        return ev(term, vals)
    try:
        f(*["x"] * len(leaves))
    except Unknown:
        return None
    return f


def fold(fn, xs):
    from ..absint import _fold

    return _fold(fn, xs)


def places(ck):
    tree.decide(ck, "places", "in trees of every shape a component has the state of the one with its function and key (or position) in the render before, or a new one", "lost", "mixed", "ended", "refused", "rendered", "duplicate", "path")


# decided by interpretation of whole renders as well
SPARE = {"reuse": "places", "keys": "places", "paths": "places"}
RULES = [reuse, keys, paths, places]
