"""Helpers shared by the rules."""
from __future__ import annotations

import ast
import functools

from .flow import Flow, StateCap, operands, show
from .ir import build
from .project import AnalysisBroken, Cls, Func, Project, dotted, walk_own

HOOK = "reactpy.core._life_cycle_hook.LifeCycleHook"
STACK = "reactpy.core._life_cycle_hook._HookStack"
LAYOUT = "reactpy.core.layout.Layout"


def flow(ck, func, opaque=(), inline=None, **kw) -> Flow:
    """Flow of `func` with every repository helper inlined, except `opaque` ones."""
    P = ck.p
    if isinstance(func, str):
        func = P.func(func)
    opq = frozenset(opaque)
    cache = P.__dict__.setdefault("_flows", {})
    key = (func.qual, opq, id(inline) if inline else 0, tuple(sorted(kw.items())))
    if key not in cache:
        pol = inline or (lambda f: f.qual not in opq)
        g = build(P, func, pol, **kw)
        cache[key] = Flow(g)
    fl = cache[key]
    ck.saw(fl.g)
    return fl


def hook_methods(P: Project):
    return P.cls(HOOK).methods


def role(P, cls_qual, name) -> Func:
    m = P.method(P.cls(cls_qual), name)
    if m is None:
        raise AnalysisBroken(f"anchor method {cls_qual}.{name} not found")
    return m


# ------------------------------------------------------------------ roots
def value_uses(P: Project, mods):
    """Functions of `mods` used as values: coroutines not awaited in place, callbacks, tasks."""
    out: dict[str, list[str]] = {}
    for mn in mods:
        mod = P.mod(mn)
        owners = [f for f in P.funcs.values() if f.module is mod]
        for f in owners:
            awaited, callee_nodes = set(), set()
            nodes = list(walk_own(f.node))
            # lambda bodies belong to the enclosing function here
            ext = []
            for n in nodes:
                if isinstance(n, ast.Lambda):
                    ext += list(ast.walk(n.body))
            nodes += ext
            for n in nodes:
                if isinstance(n, ast.Await):
                    awaited.add(id(n.value))
                if isinstance(n, ast.Call):
                    callee_nodes.add(id(n.func))
            for n in nodes:
                tgt = None
                if isinstance(n, ast.Call) and id(n) not in awaited:
                    t = resolve_func(P, f, n.func)
                    if t is not None and t.is_async and not is_agen(t):
                        tgt = t
                elif isinstance(n, (ast.Attribute, ast.Name)) and id(n) not in callee_nodes and isinstance(n.ctx, ast.Load):
                    tgt = resolve_func(P, f, n)
                if tgt is not None:
                    out.setdefault(tgt.qual, []).append(f.qual)
    return out


@functools.cache
def is_agen(f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node))


def resolve_func(P: Project, f: Func, node) -> Func | None:
    if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id in ("self", "cls") and f.cls:
        return P.method(f.cls, node.attr)
    d = dotted(node)
    if d is None:
        return None
    if "." not in d:
        g = f
        while g is not None:
            if d in g.nested:
                return g.nested[d]
            if d in g.all_params():
                return None
            g = g.parent
    r = P.resolve_in(f.module, d)
    return P.funcs.get(r)


def class_roots(P: Project, cls_qual: str) -> list[Func]:
    """Entry points through which code of a class runs: public methods, and every method or
    helper of its module which is used as a value (task coroutine, callback)."""
    c = P.cls(cls_qual)
    mod = c.module.name
    used = value_uses(P, [mod])
    out = []
    for name, m in c.methods.items():
        if not name.startswith("_") or (name.startswith("__") and name not in ("__init__", "__repr__")):
            out.append(m)
    for q in used:
        f = P.funcs[q]
        if f.module.name == mod and f not in out and f.parent is None and (f.cls is c or f.cls is None):
            out.append(f)
    return out


# ------------------------------------------------------------------ matching
def calls_to(fl: Flow, *quals):
    return [i for i in fl.g.calls() if fl.callee_key(i) in quals]


def method_calls(fl: Flow, *names):
    """Calls `x.name(...)`, resolved or not."""
    out = []
    for i in fl.g.calls():
        k = fl.callee_key(i)
        if k.rsplit(".", 1)[-1] in names:
            out.append(i)
    return out


def attr_of(term):
    return term[2] if term and term[0] == "attr" else None


def base_attr(terms):
    """Names of self-attributes among terms."""
    return {t[2] for t in terms if t[0] == "attr"}


def awaited_by(fl: Flow, call):
    """await instructions consuming the value of a call."""
    out = []
    for i in fl.g.live():
        if i.op == "await":
            if any(_term_has(t, call.id) for t in fl.terms(i.a["src"], i)):
                out.append(i)
    return out


def _term_has(t, cid):
    return isinstance(t, tuple) and t[0] == "call" and t[2] == cid


def sub_terms(t):
    """All nested terms of a term."""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, frozenset)):
            if x in seen:
                continue
            seen.add(x)
            if isinstance(x, tuple):
                yield x
            todo.extend(y for y in x if isinstance(y, (tuple, frozenset)))


def name_of(f: Func):
    return f.qual.split("reactpy.", 1)[-1]


def lines(fl: Flow, ids):
    return show(fl.g, ids)


def const(op):
    return op[1] if op is not None and op[0] == "k" else None


def is_const(op, v):
    return op is not None and op[0] == "k" and op[1] is v or (op is not None and op[0] == "k" and type(op[1]) is type(v) and op[1] == v)


# ------------------------------------------------------------------ typestate driver
def typestate(ck, fl: Flow, init, step, final, construct, msg=""):
    """Run an automaton; `final(kind, state)` says whether ending there is fine.

    kind is 'exit', 'exc_exit' or 'cancel_exit'.  Precision is raised on demand: first without
    path facts, then with facts joined per automaton state, then fully path-sensitive."""
    ends = (("exit", fl.g.exit), ("exc_exit", fl.g.exc_exit), ("cancel_exit", fl.g.cancel_exit))

    def bad(res):
        out = []
        for kind, nid in ends:
            for st, cfgn in res.get(nid, {}).items():
                good = final(kind, st)
                if good is not True:
                    out.append((kind, good, lines(fl, fl.witness(cfgn))))
        return out

    res = fl.esp(init, step, 400000, False)
    ck.states += len(fl.last_seen)
    errs = bad(res)
    if errs:
        try:
            res = fl.esp_merged(init, step, 400000)
            ck.states += len(fl.last_seen)
            errs = bad(res)
            if errs:
                res = fl.esp(init, step, 60000, True)
                ck.states += len(fl.last_seen)
                errs = bad(res)
        except StateCap:
            pass
    for kind, good, path in errs:
        ck.ob(False, f"{construct} [{kind}]", fl.g.entry_func.loc(), (good if isinstance(good, str) else msg) or msg, path)
    if not errs:
        ck.ob(True, construct, fl.g.entry_func.loc())
    return not errs


def completion(fl: Flow, quals, methods=()):
    """{instr id: call instr} where an opaque call completes: its `await` if the callee is a
    coroutine function, else the call itself."""
    out = {}
    for i in fl.g.calls():
        k = fl.callee_key(i)
        if k in quals or (k.startswith(".") and k[1:] in methods):
            aw = awaited_by(fl, i)
            c = i.a["callee"]
            if aw:
                for w in aw:
                    out[w.id] = i
            elif not (c[0] == "repo" and c[1].is_async):
                out[i.id] = i
    return out


def any_term(terms, pred):
    return any(pred(x) for t in terms for x in sub_terms(t))


def self_attr_names(fl, op, at):
    """Names n such that operand may be self.n (or through one alias)."""
    return {t[2] for t in fl.terms(op, at) if t[0] == "attr" and t[1][0] == "p" and t[1][2] == "self"}


def stores_to(fl: Flow, attr=None):
    return [i for i in fl.g.live() if i.op == "setattr" and (attr is None or i.a["attr"] == attr)]


# ------------------------------------------------------------------ the recursive renderer
def call_graph(P: Project, mod_name: str):
    """Direct calls between functions of one module (by name resolution)."""
    mod = P.mod(mod_name)
    out = {}
    for f in P.funcs.values():
        if f.module is not mod:
            continue
        tg = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                t = resolve_func(P, f, n.func)
                if t is not None and t.module is mod:
                    tg.add(t.qual)
        out[f.qual] = tg
    return out


def reach_set(g, start):
    seen, todo = set(), [start]
    while todo:
        x = todo.pop()
        for y in g.get(x, ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def activation(ck, opaque):
    """The function of the layout module through which the recursive rendering of a component
    is entered, and its flow graph (recursive calls stay opaque)."""
    P = ck.p
    will = HOOK + ".affect_component_will_render"
    g = call_graph(P, "reactpy.core.layout")
    R = {q: reach_set(g, q) for q in g}
    has_will = set()
    for q in g:
        for n in ast.walk(P.funcs[q].node):
            if isinstance(n, ast.Attribute) and n.attr == "affect_component_will_render":
                has_will.add(q)
    if not has_will:
        raise AnalysisBroken("no function of the layout module begins a component render")
    cand = []
    for q in g:
        if q in R[q] and (q in has_will or R[q] & has_will):
            scc = {x for x in R[q] if q in R[x]}
            callers = {c for c in g if q in g[c] and c not in scc}
            if callers and (scc & has_will or any(R[x] & has_will for x in scc)):
                cand.append(q)
    if not cand:
        raise AnalysisBroken("the recursive component renderer was not recognised")
    cand.sort()
    f = P.funcs[cand[0]]
    if len(cand) > 1:
        for c in cand:
            if "component" in P.funcs[c].params():
                f = P.funcs[c]
                break
    fl = flow(ck, f, opaque)
    if not completion(fl, {will}):
        raise AnalysisBroken("the recursive component renderer begins no render")
    return f, fl


def root(term):
    """Root of an attribute/item/call-free access path."""
    while isinstance(term, tuple) and term[0] in ("attr", "item"):
        term = term[1]
    return term


def is_attr_chain(term, *names):
    """term == ... .names[0] . ... .names[-1]"""
    for n in reversed(names):
        if not (isinstance(term, tuple) and term[0] == "attr" and term[2] == n):
            return False
        term = term[1]
    return True


def arg_terms(fl, i):
    out = set()
    for a in i.a["args"]:
        out |= fl.terms(a, i)
    for _, v in i.a["kw"]:
        out |= fl.terms(v, i)
    return out


def unmounters(ck):
    """Core functions which unmount model states (called from rendering and from exit)."""
    P = ck.p
    g = call_graph(P, "reactpy.core.layout")
    R = {q: reach_set(g, q) | {q} for q in g}

    def direct(q, attr):
        return any(isinstance(n, ast.Attribute) and n.attr == attr for n in ast.walk(P.funcs[q].node))

    un = {q for q in g if direct(q, "affect_component_will_unmount")}
    wi = {q for q in g if direct(q, "affect_component_will_render")}
    if not un:
        raise AnalysisBroken("no function of the layout module unmounts components")
    roots = {f.qual for f in class_roots(P, LAYOUT)}
    U = {q for q in g if R[q] & un and not R[q] & wi and q not in roots}
    if not U:
        raise AnalysisBroken("no separate function unmounts components")
    outer = {q for q in U if any(q in g[c] and c not in U for c in g)}
    core = {q for q in outer if not (R[q] - {q}) & outer} or outer
    return {P.funcs[q] for q in core}


def ren_opaque(ck, base):
    return frozenset(base) | {f.qual for f in unmounters(ck)}


# ------------------------------------------------------------------ loops that handle every item
def loop_nodes(fl, n):
    """Instructions of the body of the loop headed by `next` instruction n."""
    g = fl.g
    fwd, todo = set(), [s for s, l in n.succ if l in ("n", "t")]
    while todo:
        x = todo.pop()
        if x in fwd or x == n.id:
            continue
        fwd.add(x)
        todo.extend(s for s, _ in g.instrs[x].succ)
    back, todo = set(), [p for p, _ in n.pred]
    while todo:
        x = todo.pop()
        if x in back or x == n.id or x not in fwd:
            continue
        back.add(x)
        todo.extend(p for p, _ in g.instrs[x].pred)
    return back


def skipped_items(fl, adds, allowed):
    """Loops whose body contains one of `adds`, with a way round it: from taking an item to taking
    the next one without passing an add (or an inner loop around it) nor an edge for which
    allowed(instr, label) holds.  Yields (next instr, path or None)."""
    g = fl.g
    heads = [i for i in g.live() if i.op == "next"]
    bodies = {h.id: loop_nodes(fl, h) for h in heads}
    for h in heads:
        b = bodies[h.id]
        own = b & set(adds)
        inner = {k for k in bodies if k in b and bodies[k] & set(adds)}
        if not own and not inner:
            continue
        stop = own | inner
        starts = [s for s, l in h.succ if l in ("n", "t")]
        bad = fl.reach_avoiding(starts, lambda x: x.id == h.id, lambda x: x.id in stop or x.id not in b and x.id != h.id, lambda a, l, t: not (a.op == "branch" and allowed(a, l)) and l in ("n", "t", "f"))
        yield h, bad


def global_consts(P, qual):
    """Constant elements of a module-level set/tuple/list/dict/frozenset(...), or None."""
    mod, _, nm = P.resolve_dotted(qual).rpartition(".")
    m = P.modules.get(mod)
    vs = m.assigns.get(nm) if m else None
    if not vs or len(vs) != 1:
        return None
    v = vs[0]
    if isinstance(v, ast.Call) and dotted(v.func) in ("frozenset", "set", "tuple", "list") and len(v.args) == 1:
        v = v.args[0]
    try:
        r = ast.literal_eval(v)
    except ValueError:
        return None
    return set(r) if isinstance(r, (set, tuple, list, dict, frozenset)) else {r}


def inner_iters(fl, ids):
    """`iter` instructions of the innermost loops which contain one of the instructions."""
    g = fl.g
    heads = [i for i in g.live() if i.op == "next"]
    bodies = {h.id: loop_nodes(fl, h) for h in heads}
    out = set()
    for n in ids:
        c = [h for h in heads if n in bodies[h.id]]
        if c:
            h = min(c, key=lambda x: len(bodies[x.id]))
            out |= {g.deftmp[h.a["it"][1]].id} if h.a["it"][0] == "t" and h.a["it"][1] in g.deftmp else set()
    return out


# ------------------------------------------------------------------ values along a path
def bind(m, i, leaf, lab="n"):
    """Update a path map {variable: kind} (a frozenset of pairs) at an assignment.

    leaf(op, instr) gives the kind of a parameter, constant, temporary ... or None."""
    if i.op == "assign" and i.dst and i.dst[0] in ("v", "gv", "free") and lab == "n":
        k = pathval(m, i.a["src"], i, leaf)
        m = frozenset([x for x in m if x[0] != i.dst] + ([(i.dst, k)] if k is not None else []))
    return m


def pathval(m, op, at, leaf):
    if op is None:
        return None
    if op[0] in ("v", "gv", "free"):
        for v, k in m:
            if v == op:
                return k
        return leaf(op, at) if op[0] == "free" else None
    return leaf(op, at)
