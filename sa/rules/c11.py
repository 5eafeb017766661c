"""C11  Memoized values change exactly when their dependencies do."""
from .. import histories, hooked
from ..lib import *
from .c04 import decode
from .c10 import HOOKS_MOD

EXPLANATION = """
use_memo is run through an automaton over what is known on each path: nothing stored yet, no
dependencies, a different number of them, an unequal pair. A path on which one of these holds
recomputes; a path on which none does returns the stored value without calling the function.
The recomputing function stores value and dependencies, the dependencies only after the function
returned. Default dependencies are every value the function closes over, and are inferred by each
hook which takes a function. The comparison requires equal types, gives a truth value, and
compares functions by all attributes of their code but its location.
"""
ASSUMPTIONS = ["== of the values compared has no side effects"]
CONST = HOOKS_MOD + "._use_const"
SEQ = HOOKS_MOD + ".strictly_equal"
HOOKS_WITH_DEPS = ("use_effect", "use_async_effect", "use_callback", "use_memo", "use_debug_value")
LOCATION = {"co_positions", "co_linetable", "co_lines", "co_lnotab", "co_branches", "co_firstlineno", "co_end_lineno", "co_col_offset", "co_end_col_offset", "co_filename", "co_exceptiontable"}


def state_calls(ck, fl):
    """calls which give the memo object: state of the current hook"""
    out = set()
    for i in fl.g.calls():
        k = fl.callee_key(i)
        if k == HOOK + ".use_state" or k == ".use_state" or k.startswith(HOOKS_MOD + ".") and k.rsplit(".", 1)[-1] in ("_use_const", "use_ref", "use_state"):
            out.add(i.id)
        elif i.a["callee"][0] == "repo" and i.a["callee"][1].module.name == HOOKS_MOD and _calls_use_state(ck, i.a["callee"][1]):
            out.add(i.id)
    return out


def _calls_use_state(ck, f, depth=3):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr == "use_state":
                return True
            g = resolve_func(ck.p, f, n.func)
            if depth and g is not None and g is not f and g.module is f.module and _calls_use_state(ck, g, depth - 1):
                return True
    return False


def kind_of(ck, f):
    """What a function returned by use_memo does: recompute / reuse / decided by a captured variable."""
    fl = flow(ck, f)
    g = fl.g
    calls = {i.id for i in g.calls() if i.a["callee"][0] == "value" and not i.a["args"] and any(t[0] == "p" and t[1] == f.qual for t in fl.terms(i.a["fn"], i))}
    if not calls:
        return "reuse", fl, calls
    avoid = fl.reach_avoiding([0], lambda x: x.op == "exit", lambda x: x.id in calls)
    if avoid is None:
        return "recompute", fl, calls
    for b in g.live():
        if b.op == "branch":
            kind, terms, pol, op, at = decode(fl, b, {})
            fr = {t for t in terms if t[0] == "free"}
            if kind == "truthy" and fr and fr == terms:
                for want in (True, False):
                    lab = "t" if want == pol else "f"
                    other = "f" if lab == "t" else "t"
                    if fl.reach_avoiding([0], lambda x: x.id in calls, lambda x: False, lambda a, l, t: not (a.id == b.id and l == other)) and fl.reach_avoiding([0], lambda x: x.op == "exit", lambda x: x.id in calls, lambda a, l, t: not (a.id == b.id and l == other)) is None:
                        return ("var", next(iter(fr))[2], want), fl, calls
    return "?", fl, calls


def decision(ck):
    ck.rule("recompute", "a memoized value is recomputed if and only if there is none, or its dependencies are absent or differ", 1)
    P = ck.p
    f = P.func(f"{HOOKS_MOD}.use_memo")
    fl = flow(ck, f, {SEQ, CONST})
    g = fl.g
    sc = state_calls(ck, fl)
    if not sc:
        ck.ob(False, f"{name_of(f)}: where the value is kept", f.loc(), "the memoized value is not kept as state of the component")
        return

    def memo_term(t):
        return any(x[0] == "call" and x[2] in sc for x in sub_terms(t))

    inner = {}
    for n in f.nested.values():
        inner[n.qual] = (n, *kind_of(ck, n))
    # also look at functions of the same name ('setup#2')
    for q, n in P.funcs.items():
        if n.parent is f and q not in inner:
            inner[q] = (n, *kind_of(ck, n))
    var_out = {k[1]: k[2] for _, k, _, _ in inner.values() if isinstance(k, tuple)}
    direct = {i.id for i in g.calls() if i.a["callee"][0] == "value" and not i.a["args"] and ("p", f.qual, "function") in fl.terms(i.a["fn"], i)}
    re_calls = {i.id for i in g.calls() if i.a["callee"][0] == "repo" and i.a["callee"][1].qual in inner}
    n_dec = [0]

    def dep_term(t):
        return not memo_term(t) and t[0] in ("p", "call", "build", "k", "attr")

    def is_deps(op, at):
        ts = fl.terms(op, at)
        return bool(ts) and not any(memo_term(t) for t in ts) and (any(t[:2] == ("p", f.qual) and t[2] == "dependencies" for t in ts) or any(t[0] == "call" and "infer" in t[1] for t in ts))

    def is_stored(op, at):
        ts = fl.terms(op, at)
        return bool(ts) and any(memo_term(t) and t[0] == "attr" for t in ts)

    def zips(ids):
        for d in ids:
            x = g.instrs[d]
            if x.op == "call" and x.a["callee"] == ("builtin", "zip") and len(x.a["args"]) == 2:
                a, b = x.a["args"]
                if is_stored(a, x) and is_deps(b, x) or is_stored(b, x) and is_deps(a, x):
                    return True
        return False

    def fact(i, lab, env):
        kind, terms, pol, op, at = decode(fl, i, env)
        truth = (lab == "t") == pol
        if kind == "none" and op is not None:
            if is_deps(op, at):
                return "dep", not truth
            if terms and all(memo_term(t) for t in terms):
                return "empty", None
        d = g.deftmp.get(op[1]) if op is not None and op[0] == "t" else None
        if d is None:
            return None
        if d.op == "op" and d.a["fn"] in ("Eq", "NotEq") and len(d.a["args"]) == 2:
            ls = [g.deftmp.get(a[1]) if a[0] == "t" else None for a in d.a["args"]]
            ls = [x if x is not None else _single(fl, a, d) for x, a in zip(ls, d.a["args"])]
            if all(x is not None and x.op == "call" and x.a["callee"] == ("builtin", "len") for x in ls):
                a, b = (x.a["args"][0] for x in ls)
                if is_stored(a, ls[0]) and is_deps(b, ls[1]) or is_stored(b, ls[1]) and is_deps(a, ls[0]):
                    return "len", truth == (d.a["fn"] == "Eq")
        if d.op == "call":
            k = fl.callee_key(d)
            if k == SEQ:
                return None if i.id in comp else ("item", truth)
            if k in ("all", "any") and d.a["args"]:
                dep = fl.depends(d.a["args"][0], d)
                for h, b in bodies.items():
                    if any(g.instrs[x].op == "comp_add" and x in b for x in dep):
                        dep |= fl.depends(g.instrs[h].a["it"], g.instrs[h])
                eqs = [g.instrs[x] for x in dep if g.instrs[x].op == "call" and fl.callee_key(g.instrs[x]) == SEQ]
                neg = any(g.instrs[x].op == "op" and g.instrs[x].a["fn"] == "Not" for x in dep)
                if not eqs:
                    # `not same(a, b)` evaluated with a branch
                    for x in dep:
                        x = g.instrs[x]
                        if x.op == "assign" and x.a["src"][0] == "k" and isinstance(x.a["src"][1], bool):
                            for p, l in x.pred:
                                b = g.instrs[p]
                                t = g.deftmp.get(b.a["cond"][1]) if b.op == "branch" and b.a["cond"][0] == "t" else None
                                if t is not None and t.op == "call" and fl.callee_key(t) == SEQ:
                                    eqs.append(t)
                                    neg = x.a["src"][1] != (l == "t")
                if eqs:
                    whole = zips(dep) and _unfiltered(fl, dep)
                    if k == "all" and not neg:
                        return ("items", truth) if whole else ("item", None)
                    if k == "any" and neg:
                        return ("items", not truth) if whole else ("item", None)
                    return "wrong", None
            if k in ("hasattr", "isinstance") and d.a["args"] and any(memo_term(t) for t in fl.terms(d.a["args"][0], d)):
                return "empty", not truth if k == "hasattr" else None
        if any(memo_term(t) for t in terms) and not is_stored(op, at) and kind == "truthy":
            return "empty", None
        return None

    bodies = {h.id: loop_nodes(fl, h) for h in g.live() if h.op == "next"}
    loops, comp = {}, set()
    for h in g.live():
        if h.op == "next":
            b = loop_nodes(fl, h)
            if any(g.instrs[x].op == "comp_add" for x in b):
                comp |= b
                continue
            if any(g.instrs[x].op == "call" and fl.callee_key(g.instrs[x]) == SEQ for x in b) and zips(fl.depends(h.a["it"], h)):
                loops[h.id] = b

    def step(i, lab, st, env):
        dep, empty, ln, items, out = st
        if i.op == "branch" and lab in ("t", "f"):
            r = fact(i, lab, env)
            if r:
                k, v = r
                if k == "dep":
                    if dep is not None and dep != v:
                        return []
                    dep = v
                elif k == "empty":
                    empty = v if v is not None else (empty if empty is not None else "known")
                elif k == "len":
                    ln = v
                elif k == "items":
                    items = v
                elif k == "item" and v is False:
                    items = False
                elif k == "wrong":
                    items = "wrong"
        if i.op == "getattr" and lab == "e" and any(memo_term(t) for t in fl.terms(i.a["obj"], i)):
            empty = True
        elif i.op == "getattr" and lab == "n" and any(s for s in i.succ if s[1] == "e") and any(memo_term(t) for t in fl.terms(i.a["obj"], i)) and empty is None:
            empty = False
        if i.id in loops and lab == "f" and items is not False:
            items = True
        if i.op == "assign":
            s = i.a["src"]
            if s[0] == "f" and s[1].qual in inner:
                k = inner[s[1].qual][1]
                if k in ("recompute", "reuse"):
                    out = k
            nm = i.dst[-1] if i.dst and i.dst[0] == "v" else None
            if nm in var_out and s[0] == "k" and isinstance(s[1], bool):
                out = "recompute" if s[1] == var_out[nm] else "reuse"
            if i.dst and i.dst[0] == "v" and i.dst[-1] in ("$ret",):
                pass
        if i.op == "leave" and False:
            pass
        if i.id in direct:
            out = "recompute"
        if i.id in re_calls and lab == "n":
            k = inner[i.a["callee"][1].qual][1]
            if k in ("recompute", "reuse"):
                out = k
        return [(dep, empty, ln, items, out)]

    def final(kind, st):
        dep, empty, ln, items, out = st
        if kind != "exit":
            return True
        if items == "wrong":
            return "a memoized value is kept although some of its dependencies changed"
        if out == "reuse" or out is None and False:
            if empty is None or empty is True:
                return "a value is returned although none was computed"
            if dep is not True:
                return "a memoized value is kept although it has no dependencies"
            if ln is not True:
                return "a memoized value is kept although the number of its dependencies changed"
            if items is not True:
                return "a memoized value is kept although some of its dependencies changed"
        if out == "recompute":
            n_dec[0] += 1
            if empty is False and dep is True and ln is True and items is True:
                return "a memoized value is computed again although its dependencies are the same"
            if empty == "known" and dep is True and ln is True and items is True:
                return "a memoized value is computed again although its dependencies are the same"
        return True

    typestate(ck, fl, (None, None, None, None, None), step, final, f"{name_of(f)}: recompute or reuse")
    used = [v for v in inner.values() if v[1] in ("recompute",) or isinstance(v[1], tuple)]
    ck.need(used or direct, "nothing computes a memoized value")
    ck.rule("store", "value and dependencies are stored together, the dependencies only after the value was computed", 1)
    for n, kind, fn, calls in used:
        storing(ck, n, fn, calls)
    if direct:
        storing(ck, f, fl, direct)


def _single(fl, a, at):
    o = fl.origins(a, at)
    if len(o) == 1:
        return fl.g.instrs[next(iter(o))]
    return None


def _unfiltered(fl, dep):
    """comprehension over the pairs has no condition which skips some"""
    adds = {d for d in dep if fl.g.instrs[d].op == "comp_add"}
    if not adds:
        return True
    return all(bad is None for h, bad in skipped_items(fl, adds, lambda a, l: False))


def storing(ck, f, fl, calls):
    g = fl.g
    vals, deps = {}, {}
    for i in g.live():
        if i.op == "setattr":
            if fl.depends(i.a["val"], i) & calls:
                vals[i.id] = i
    objs = set().union(*[fl.terms(i.a["obj"], i) for i in vals.values()]) if vals else set()
    for i in g.live():
        if i.op == "setattr" and i.id not in vals and (fl.terms(i.a["obj"], i) & objs or not objs):
            deps[i.id] = i
    starts = [s for c in calls for s, l in g.instrs[c].succ if l == "n"]
    bad = fl.reach_avoiding(starts, lambda x: x.op == "exit", lambda x: x.id in vals)
    ck.ob(bool(vals) and bad is None, f"{name_of(f)}: value is stored", f.loc(), "a computed value is not stored")
    if not deps:
        ck.ob(False, f"{name_of(f)}: dependencies are stored", f.loc(), "the dependencies of a computed value are not stored")
        return
    bad = fl.reach_avoiding(starts, lambda x: x.op == "exit", lambda x: x.id in deps)
    ck.ob(bad is None, f"{name_of(f)}: dependencies are stored", f.loc(), "the dependencies of a computed value are not stored", lines(fl, bad) if bad else "")
    bad = fl.reach_avoiding([0], lambda x: x.id in deps, lambda x: x.id in calls)
    ck.ob(bad is None, f"{name_of(f)}: dependencies are stored last", f.loc(), "the new dependencies are remembered although the value was not computed from them", lines(fl, bad) if bad else "")
    # what is returned is the new value
    for i in g.live():
        if i.op == "return" and not i.a.get("implicit") and i.func is f:
            after = fl.reach_avoiding(list(calls), lambda x: x.id == i.id, lambda x: False)
            if after:
                ts = fl.terms(i.a["val"], i)
                ok = bool(fl.depends(i.a["val"], i) & calls) or all(t[0] == "fn" or t[0] == "attr" and t[2] in {v.a["attr"] for v in vals.values()} for t in ts)
                if i.a["val"] != ("k", None):
                    ck.ob(ok, f"{name_of(f)}: value is returned", i.loc, "what is returned is not the value which was computed")


def inference(ck):
    ck.rule("default-dependencies", "by default every value a function closes over is a dependency of it", 7)
    P = ck.p
    mod = P.mod(HOOKS_MOD)
    for n in HOOKS_WITH_DEPS:
        f = P.func(f"{HOOKS_MOD}.{n}")
        d = _default(f, "dependencies")
        ck.ob(isinstance(d, ast.Constant) and d.value is Ellipsis, f"{name_of(f)}: default of the dependencies", f.loc(), "dependencies which are not given are not inferred")
    users = 0
    for n in ("use_effect", "use_async_effect", "use_callback", "use_memo"):
        f = P.func(f"{HOOKS_MOD}.{n}")
        opq = {f"{HOOKS_MOD}.use_ref", CONST, SEQ}
        if n != "use_memo":
            opq.add(f"{HOOKS_MOD}.use_memo")
        fl = flow(ck, f, opq)
        g = fl.g
        par = ("p", f.qual, "dependencies")
        cells = [i for i in g.live() if i.op == "getattr" and i.a["attr"] == "cell_contents"]
        cells_call = [i for i in g.calls() if fl.callee_key(i) in ("inspect.getclosurevars",)]
        if not cells and not cells_call:
            ck.ob(False, f"{name_of(f)}: inferred dependencies", f.loc(), "dependencies which are not given are not inferred from the function")
            continue
        users += 1
        given = {("p", f.qual, "function")}
        for c in cells:
            dep = fl.depends(c.a["obj"], c)
            ok = any(g.instrs[x].op == "getattr" and g.instrs[x].a["attr"] == "__closure__" and fl.terms(g.instrs[x].a["obj"], g.instrs[x]) & given for x in dep)
            ck.ob(ok, f"{name_of(f)}: inferred dependencies", c.loc, "the inferred dependencies are not those of the function")
        adds = {i.id for i in g.live() if i.op == "comp_add" and any(fl.depends(i.a["val"], i) & {c.id} for c in cells)} | {i.id for i in method_calls(fl, "append", "add") if i.a["args"] and any(fl.depends(i.a["args"][0], i) & {c.id} for c in cells)}
        for h, bad in skipped_items(fl, adds, lambda a, l: False):
            ck.ob(bad is None, f"{name_of(f)}: every closed-over value", h.loc, "a value which the function closes over is no dependency of it", lines(fl, bad) if bad else "")
        for i in g.live():
            if i.op == "getitem" and i.a["key"][0] == "t" and fl.terms(i.a["obj"], i) and any(t[0] == "attr" and t[2] == "__closure__" for t in fl.terms(i.a["obj"], i)):
                ck.ob(False, f"{name_of(f)}: every closed-over value", i.loc, "a value which the function closes over is no dependency of it")
        # given dependencies are used as they are, and only the ellipsis is replaced
        def ell(i, lab, env):
            if i.op != "branch":
                return None
            kind, terms, pol, op, at = decode(fl, i, env)
            d = g.deftmp.get(op[1]) if op is not None and op[0] == "t" else None
            if d is not None and d.op == "op" and d.a["fn"] in ("Is", "IsNot", "Eq", "NotEq"):
                a, b = d.a["args"]
                if any(x == ("k", Ellipsis) or x == ("b", "Ellipsis") for x in (a, b)) and any(par in fl.terms(x, d) for x in (a, b)):
                    return ((lab == "t") == pol) == (d.a["fn"] in ("Is", "Eq"))
            return None

        cid = {c.id for c in cells} | {c.id for c in cells_call}
        edges_no = lambda a, l, t: ell(a, l, {}) is not True
        bad = fl.reach_avoiding([0], lambda x: x.id in cid, lambda x: False, edges_no)
        ck.ob(bad is None, f"{name_of(f)}: only if none are given", f.loc(), "dependencies which are given are replaced by inferred ones", lines(fl, bad) if bad else "")
        # what reaches the memo on the path where they were given is the parameter
        rel = {}
        for i in g.live():
            if i.op == "assign" and par in fl.terms(i.a["src"], i) and fl.terms(i.a["src"], i) == {par} and i.dst and i.dst[-1] == "$ret":
                rel[i.id] = i
        for i in rel.values():
            bad = fl.reach_avoiding([0], lambda x: x.id == i.id, lambda x: False, lambda a, l, t: ell(a, l, {}) is not False)
            ck.ob(bad is None, f"{name_of(f)}: ellipsis is not a dependency list", i.loc, "dependencies which are not given are not inferred", lines(fl, bad) if bad else "")
    # the memo of a hook gets what was inferred
    for n in ("use_effect", "use_async_effect", "use_callback"):
        f = P.func(f"{HOOKS_MOD}.{n}")
        fl = flow(ck, f, {f"{HOOKS_MOD}.use_ref", CONST, SEQ, f"{HOOKS_MOD}.use_memo"})
        for m in calls_to(fl, f"{HOOKS_MOD}.use_memo"):
            v = fl.arg(m, 1, "dependencies")
            fn = fl.arg(m, 0, "function")
            ok = v is not None and ("p", f.qual, "dependencies") in fl.terms(v, m)
            ck.ob(ok, f"{name_of(f)}: dependencies of the memo", m.loc, "the dependencies given are not those of the memo")
            if fn is None:
                dep = {x.id for x in fl.g.live() if x.op == "getattr" and x.a["attr"] == "cell_contents"}
                ok = v is not None and bool(fl.depends(v, m) & dep)
                ck.ob(ok, f"{name_of(f)}: inferred dependencies of the memo", m.loc, "the dependencies inferred are not those of the memo")
    # use_callback memoizes the function itself
    f = P.func(f"{HOOKS_MOD}.use_callback")
    lam = [n for n in ast.walk(f.node) if isinstance(n, ast.Lambda)]
    for n in lam:
        ps = {a.arg for x in ast.walk(f.node) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) for a in x.args.args}
        ck.ob(isinstance(n.body, ast.Name) and n.body.id in ps and not n.args.args, f"{name_of(f)}: memoized function", f"{mod.rel}:{n.lineno}", "the callback which is memoized is not the function given")


def _default(f, name):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in zip(reversed(pos), reversed(a.defaults)):
        if x.arg == name:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            return d
    return None


def equality(ck):
    ck.rule("equality", "values are the same if they have the same type and are equal, functions if their code is", 4)
    P = ck.p
    f = P.func(SEQ)
    fl = flow(ck, f)
    g = fl.g
    x, y = (("p", f.qual, n) for n in f.params()[:2])

    def types_edge(i, lab):
        if i.op != "branch":
            return None
        kind, terms, pol, op, at = decode(fl, i, {})
        d = g.deftmp.get(op[1]) if op is not None and op[0] == "t" else None
        if d is not None and d.op == "op" and d.a["fn"] in ("Is", "IsNot", "Eq", "NotEq"):
            def ty(o):
                s = _single(fl, o, d)
                if s is not None and s.op == "call" and s.a["callee"] == ("builtin", "type"):
                    return fl.terms(s.a["args"][0], s)
                if s is not None and s.op == "getattr" and s.a["attr"] == "__class__":
                    return fl.terms(s.a["obj"], s)
                return set()
            ts = [ty(o) for o in d.a["args"]]
            if ts[0] | ts[1] == {x, y} and ts[0] and ts[1]:
                return ((lab == "t") == pol) == (d.a["fn"] in ("Is", "Eq"))
        return None

    rets = [i for i in g.live() if i.op == "return"]
    ck.need(rets, "the comparison of values returns nothing")
    for r in rets:
        if is_const(r.a["val"], False):
            continue
        bad = fl.reach_avoiding([0], lambda z: z.id == r.id, lambda z: False, lambda a, l, t: types_edge(a, l) is not True and not _same_obj(fl, a, l, x, y))
        ck.ob(bad is None, f"{name_of(f)}: same type", r.loc, "values of different types may count as the same", lines(fl, bad) if bad else "")
        # a truth value
        def raw(op, at, depth=6):
            for o in fl.origins(op, at):
                d = g.instrs[o]
                if d.op == "op" and d.a["fn"] in ("Eq", "NotEq", "Lt", "Gt", "LtE", "GtE") and all(fl.terms(a, d) & {x, y} for a in d.a["args"]):
                    return True
                if d.op == "call" and _lastname(fl, d) in ("__eq__", "__ne__"):
                    return True
            return False
        ck.ob(not raw(r.a["val"], r), f"{name_of(f)}: truth value", r.loc, "what is returned may have no truth value")
    # plain values are compared with ==
    eqs = {i.id for i in g.live() if i.op == "op" and i.a["fn"] in ("Eq", "NotEq") and {t for a in i.a["args"] for t in fl.terms(a, i)} == {x, y}} | {i.id for i in g.calls() if _lastname(fl, i) in ("__eq__",)}
    ck.ob(bool(eqs), f"{name_of(f)}: equality", f.loc(), "equal values do not count as the same")
    # which attributes of code are compared
    sets = []
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Set, ast.Tuple, ast.List)) and n.elts and all(isinstance(e, ast.Constant) and isinstance(e.value, str) and e.value.startswith("co_") for e in n.elts):
            sets.append({e.value for e in n.elts})
    names = {dotted(n) for n in ast.walk(f.node) if isinstance(n, ast.Name)}
    for nm in names:
        if nm and nm in f.module.assigns:
            v = global_consts(P, f"{f.module.name}.{nm}")
            if v and all(isinstance(s, str) and s.startswith("co_") for s in v):
                sets.append(v)
    codes = [i for i in g.live() if i.op == "getattr" and i.a["attr"] == "__code__"]
    if codes:
        whole = [i for i in g.calls() if fl.callee_key(i) == "dir"]
        if whole:
            ex = set().union(*sets) if sets else set()
            ck.ob(ex <= LOCATION, f"{name_of(f)}: code of functions", f.loc(), f"functions count as the same although they differ in {sorted(ex - LOCATION)}")
        else:
            inc = set().union(*sets) if sets else {i.a["attr"] for i in g.live() if i.op == "getattr" and i.a["attr"].startswith("co_")}
            need = {"co_code", "co_consts", "co_names"}
            eq_code = any(i.op == "op" and i.a["fn"] in ("Eq", "NotEq") and all(any(t[0] == "attr" and t[2] == "__code__" for t in fl.terms(a, i)) for a in i.a["args"]) for i in g.live())
            ck.ob(eq_code or need <= inc, f"{name_of(f)}: code of functions", f.loc(), f"functions count as the same although they differ in {sorted(need - inc)}")
        quants = [i for i in g.calls() if fl.callee_key(i) in ("any", "all") and i.a["args"] and any(g.instrs[d].op == "call" and fl.callee_key(g.instrs[d]) == "getattr" for d in fl.depends(i.a["args"][0], i))]
        for q in quants:
            dep = fl.depends(q.a["args"][0], q)
            fns = {g.instrs[d].a["fn"] for d in dep if g.instrs[d].op == "op" and g.instrs[d].a["fn"] in ("Eq", "NotEq", "Is", "IsNot", "Not")}
            ok = fl.callee_key(q) == "all" and "NotEq" not in fns and "Not" not in fns or fl.callee_key(q) == "any" and ("NotEq" in fns)
            ck.ob(ok, f"{name_of(f)}: all attributes of the code", q.loc, "functions count as the same although their code differs")


def _same_obj(fl, a, lab, x, y):
    if a.op != "branch":
        return False
    kind, terms, pol, op, at = decode(fl, a, {})
    d = fl.g.deftmp.get(op[1]) if op is not None and op[0] == "t" else None
    return d is not None and d.op == "op" and d.a["fn"] in ("Is", "IsNot") and {t for o in d.a["args"] for t in fl.terms(o, d)} == {x, y} and ((lab == "t") == pol) == (d.a["fn"] == "Is")


def _lastname(fl, i):
    return fl.callee_key(i).rsplit(".", 1)[-1]


def recomputed(ck):
    hooked.decide(ck, "recomputed", "over histories of renders a memoized value is computed when, and only when, its dependencies changed", histories.MEMOS, "reactpy.core.hooks.use_memo")


# decided by interpretation of whole histories as well
SPARE = {"decision": "recomputed", "inference": "recomputed", "equality": "recomputed"}
RULES = [decision, inference, equality, recomputed]
