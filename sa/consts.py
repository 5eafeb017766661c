"""Values of module level constants, computed from their expressions: literals, set and dict
operations, comprehensions over other constants, and pure string methods."""
from __future__ import annotations

import ast

PURE = {"lower", "upper", "capitalize", "replace", "split", "strip", "items", "keys", "values", "union", "format", "join", "removeprefix", "removesuffix", "title", "copy", "startswith", "endswith", "get"}
CALLS = {"set": set, "frozenset": frozenset, "dict": dict, "list": list, "tuple": tuple, "sorted": sorted, "str": str, "zip": lambda *a: list(zip(*a)), "len": len, "reversed": lambda x: list(reversed(x)), "MappingProxyType": dict}


class Unknown(Exception):
    pass


def value(P, qual, seen=()):
    """Python value of a module level name"""
    mod, _, nm = (P.resolve_dotted(qual) or qual).rpartition(".")
    m = P.modules.get(mod)
    vs = m.assigns.get(nm) if m else None
    if not vs or len(vs) != 1 or qual in seen:
        raise Unknown(qual)
    return ev(P, m, vs[0], {}, (*seen, qual))


def ev(P, m, n, env, seen):
    E = lambda x: ev(P, m, x, env, seen)
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.Name):
        if n.id in env:
            return env[n.id]
        return value(P, f"{m.name}.{n.id}", seen)
    if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
        xs = []
        for x in n.elts:
            xs += list(E(x.value)) if isinstance(x, ast.Starred) else [E(x)]
        return {ast.Tuple: tuple, ast.List: list, ast.Set: set}[type(n)](xs)
    if isinstance(n, ast.Dict):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(E(v))
            else:
                d[E(k)] = E(v)
        return d
    if isinstance(n, ast.BinOp):
        a, b = E(n.left), E(n.right)
        t = type(n.op)
        if t is ast.BitOr:
            return a | b
        if t is ast.Add:
            return a + b
        if t is ast.Sub:
            return a - b
        if t is ast.BitAnd:
            return a & b
        if t is ast.Mult and not isinstance(a, (str, list)):
            return a * b
    if isinstance(n, ast.JoinedStr):
        return "".join(str(E(x.value)) if isinstance(x, ast.FormattedValue) and x.format_spec is None and x.conversion == -1 else E(x) for x in n.values)
    if isinstance(n, (ast.SetComp, ast.DictComp, ast.ListComp, ast.GeneratorExp)):
        out = []

        def loop(gs, env):
            if not gs:
                out.append((ev(P, m, n.key, env, seen), ev(P, m, n.value, env, seen)) if isinstance(n, ast.DictComp) else ev(P, m, n.elt, env, seen))
                return
            xs = ev(P, m, gs[0].iter, env, seen)
            for x in sorted(xs, key=repr) if isinstance(xs, (set, frozenset)) else xs:
                e2 = dict(env)
                bind(gs[0].target, x, e2)
                if all(ev(P, m, c, e2, seen) for c in gs[0].ifs):
                    loop(gs[1:], e2)

        loop(n.generators, env)
        return dict(out) if isinstance(n, ast.DictComp) else set(out) if isinstance(n, ast.SetComp) else out
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        a, b, t = E(n.left), E(n.comparators[0]), type(n.ops[0])
        f = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b, ast.Lt: lambda: a < b, ast.Gt: lambda: a > b}.get(t)
        if f:
            return f()
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return not E(n.operand)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        return -E(n.operand)
    if isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Slice):
        return E(n.value)[E(n.slice)]
    if isinstance(n, ast.Subscript):
        s = n.slice
        return E(n.value)[slice(*[E(x) if x is not None else None for x in (s.lower, s.upper, s.step)])]
    if isinstance(n, ast.Call) and all(k.arg for k in n.keywords):
        f = n.func
        args = [E(x) for x in n.args]
        kw = {k.arg: E(k.value) for k in n.keywords}
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        if isinstance(f, ast.Attribute) and name in PURE:
            return getattr(E(f.value), name)(*args, **kw)
        if name in CALLS:
            return CALLS[name](*args, **kw)
    raise Unknown(ast.dump(n)[:60])


def bind(t, x, env):
    if isinstance(t, ast.Name):
        env[t.id] = x
    elif isinstance(t, (ast.Tuple, ast.List)):
        for a, b in zip(t.elts, x, strict=True):
            bind(a, b, env)
    else:
        raise Unknown("target")
