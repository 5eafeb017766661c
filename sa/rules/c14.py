"""C14  What the application hands over is not modified."""
from ..lib import *
from ..own import Own

EXPLANATION = """
Ownership analysis over the modules which handle what the application hands over: results of
components, arguments of element constructors, of conversion functions, and of the executors. A
value is the application's if it is one of these, is contained in one, or was stored without being
copied; every place where a container or object is changed (items, mutating methods, attributes,
in-place operators) is one obligation: what is changed there must not be the application's.
"""
ASSUMPTIONS = ["copy.deepcopy, json and str methods give new objects; callables of the application may modify what they like"]
MODS = ("reactpy.core.layout", "reactpy.core.vdom", "reactpy._html", "reactpy.utils", "reactpy.transforms", "reactpy.executors", "reactpy.reactjs", "reactpy.web", "reactpy.types", "reactpy.core.component", "reactpy.core.serve", "reactpy.widgets", "reactpy.core.events", "reactpy.templatetags")
SKIP_PARAMS = {"self", "cls", "key", "strict", "scope", "receive", "send", "vdom", "element", "update", "updates", "event_handler_func", "namespace"}
DATA = ("dict", "Dict", "Mapping", "list", "List", "Sequence", "VdomAttributes", "VdomChildren", "VdomDict", "PyScriptOptions", "Iterable", "Any", "ImportSourceDict", "set[", "Set")


def sources(P):
    """parameters of the public interface which take containers"""
    out = {}
    for f in P.funcs.values():
        m = f.module.name
        if not any(m == x or m.startswith(x + ".") for x in MODS) or f.parent is not None:
            continue
        pub = not f.name.startswith("_") or f.name in ("__call__", "__init__")
        if f.cls is not None and f.cls.name.startswith("_") and f.cls.name != "_SvgConstructor":
            pub = False
        if m.endswith(("_html", "core.layout", "core.serve", "transforms", "core.events")) and f.name != "__call__":
            pub = False
        if f.cls is not None and f.cls.name in ("RequiredTransforms", "Ref", "Layout", "EventHandler", "VdomDict"):
            pub = False
        if not pub:
            continue
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg in SKIP_PARAMS or x.annotation is None:
                continue
            s = ast.unparse(x.annotation)
            if any(d in s for d in DATA) and "Callable" not in s:
                out[(f.qual, x.arg)] = 2
        if a.vararg is not None and f.name == "__call__":
            out[(f.qual, a.vararg.arg)] = 1
    return out


def rendered(fl, i):
    k = fl.callee_key(i)
    if k.endswith(".render") and not i.a["args"] and (k == ".render" or k.startswith("reactpy.types.Component")):
        return 2
    return None


def mutation(ck):
    ck.rule("no-mutation", "nothing which the application handed over is changed in place", 60)
    P = ck.p
    funcs = [f for f in P.funcs.values() if any(f.module.name == x or f.module.name.startswith(x + ".") for x in MODS) and not f.module.name.startswith("reactpy.testing")]
    ps = sources(P)
    ck.need(len(ps) >= 8, "the public functions which take attributes, children and options")
    o = Own(P, funcs, rendered, ps)
    n = 0
    for f in funcs:
        fl = o.flows[f.qual]
        ck.saw(fl.g)
        for i, what in o.hits[f.qual]:
            ck.ob(False, f"{name_of(f)}: {what}", i.loc, f"an object which the application handed over is modified: {what}")
    seen = set()
    for f in funcs:
        bad = {i.id for i, _ in o.hits[f.qual]}
        for i in o.flows[f.qual].g.live():
            if i.id in bad:
                continue
            if i.op in ("setitem", "delitem", "setattr") and not i.a.get("comp") or i.op == "call" and i.a["callee"][0] == "method" and i.a["callee"][2] in ("append", "extend", "insert", "pop", "update", "setdefault", "clear", "remove"):
                ck.ob(True, f"{name_of(f)}: {i.op}", i.loc)
    # anchors: the sources are really there
    ck.rule("sources", "results of components and arguments of constructors are followed", 2)
    lay = [f for f in funcs if f.module.name == "reactpy.core.layout"]
    src = [i for f in lay for i in o.flows[f.qual].g.calls() if rendered(o.flows[f.qual], i)]
    ck.ob(bool(src), "results of components", src[0].loc if src else "?", "no component is rendered")
    ck.ob(any(q.endswith("Vdom.__call__") for q, _ in ps), "arguments of element constructors", P.func("reactpy.core.vdom.Vdom.__call__").loc(), "")


RULES = [mutation]
