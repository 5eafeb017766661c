"""Histories of renders for the properties of hooks."""
from __future__ import annotations

from .hooked import NONE, NoAnswer, fn, show, val

ELL = ("k", Ellipsis)


def k(x):
    return ("k", x)


def render(h, hook, *uses):
    """one render: each use is a function of the history, its results are returned"""
    h.begin(hook)
    try:
        return [u(h) for u in uses]
    finally:
        h.end(hook)


def shown(v):
    return show(v)


# ------------------------------------------------------------------ state (C12)
def state(v):
    def use(h):
        s = h.get("use_state", v)
        return h.part(s, 0), h.part(s, 1)

    return use


def expect(h, got, want, what):
    if got != want:
        h.say(f"{what} is {shown(got)} where it has to be {shown(want)}")


def kept(h):
    hk = h.hook()
    a, b, init = val("a"), val("b"), fn("initial")
    first = None
    for n in range(4):
        (x, sx), (y, sy), (z, sz) = render(h, hk, state(a), state(init), state(b))
        expect(h, x, a, "the first of three states")
        expect(h, z, b, "the last of three states")
        if n == 0:
            first, made = (sx, sy, sz), y
        elif y != made:
            h.say("a state which was initialized by a function changes")
        if (sx, sy, sz) != first:
            h.say("a setter is another one in a later render")
        if len({sx, sy, sz}) < 3:
            h.say("two states have the same setter")
    n = len(h.since(0, "called"))
    if n != 1:
        h.say(f"the function which gives the initial state is called {n} times")


def later_state(h):
    hk = h.hook()
    a, b = val("a"), val("b")
    render(h, hk, state(a))
    (x, _), (y, s) = render(h, hk, state(a), state(b))
    expect(h, (x), a, "a state, when a later render adds another,")
    expect(h, y, b, "a state which a later render adds")
    h.get(s, val("b2"))
    (x, _), (y, _) = render(h, hk, state(a), state(b))
    expect(h, x, a, "a state")
    expect(h, y, val("b2"), "a state which was added by a later render and set")
    (x, _), = render(h, hk, state(a))
    (x, _), (y, _) = render(h, hk, state(a), state(b))
    expect(h, y, val("b2"), "a state which was not asked for in one render")


def failed_render(h):
    hk = h.hook()
    a, b = val("a"), val("b")
    (x, s), = render(h, hk, state(a))  # and then it raises
    h.get(s, val("a2"))
    (x, s2), (y, t) = render(h, hk, state(a), state(b))
    expect(h, x, val("a2"), "a state set after a render which failed")
    expect(h, y, b, "a state which the failed render did not reach")
    (x, _), (y, t2) = render(h, hk, state(a), state(b))
    expect(h, y, b, "a state which the failed render did not reach")
    if (s, t) != (s2, t2):
        h.say("a setter is another one after a render which failed")


def two_components(h):
    p, q = h.hook(), h.hook()
    sets = {}
    for n in range(3):
        for hk, name in ((p, "p"), (q, "q")):
            (x, s), (y, t) = render(h, hk, state(val(name)), state(val(name + "'")))
            if n == 0:
                expect(h, x, val(name), "the state of one of two components")
                sets[name] = s
            else:
                expect(h, x, val(f"{name}{n}"), "the state of one of two components")
            expect(h, y, val(name + "'"), "the second state of one of two components")
        for name in "qp":
            m = len(h.st.ev)
            h.get(sets[name], val(f"{name}{n + 1}"))
            ev = h.since(m, "scheduled")
            want = [("scheduled", ("S", "scheduler", 1 if name == "p" else 2))]
            if ev != want:
                h.say("setting a state does not request a render of its component, once")


def nested_components(h):
    p, q = h.hook(), h.hook()
    for n in range(3):
        h.begin(p, "parent")
        x, s = state(val("p"))(h)
        h.begin(q, "child")
        y, t = state(val("q"))(h)
        h.end(q)
        z, u = state(val("r"))(h)
        h.end(p)
        expect(h, x, val("p") if n == 0 else val(f"p{n}"), "the state of a parent")
        expect(h, y, val("q"), "the state of a child")
        expect(h, z, val("r"), "the state which a parent uses after its child was rendered")
        h.get(s, val(f"p{n + 1}"))


def setting(first, *values):
    """set one value after the other, with renders in between"""

    def run(h):
        hk = h.hook()
        (x, s), = render(h, hk, state(first))
        expect(h, x, first, "the initial state")
        for v in values:
            n = len(h.st.ev)
            kind, r = h.call(s, v)
            if kind != "v":
                h.say(f"setting {shown(v)} where the state is {shown(x)} raises {r}")
                return
            if v != x and not h.since(n, "scheduled"):
                h.say(f"setting {shown(v)} ({h.w.kind(v)}) where the state is {shown(x)} ({h.w.kind(x)}) requests no render")
            (y, s2), = render(h, hk, state(first))
            if y != v:
                h.say(f"the state is {shown(y)} ({h.w.kind(y)}) after {shown(v)} ({h.w.kind(v)}) was set")
            if s2 != s:
                h.say("a setter is another one in a later render")
            x = v

    return run


def updaters(h):
    hk = h.hook()
    (x, s), = render(h, hk, state(val("v")))
    for f in "fgh":
        h.get(s, fn(f))
    want = val("h(g(f(v)))")
    (x, _), = render(h, hk, state(val("v")))
    expect(h, x, want, "a state after three updates in a row")
    h.get(s, val("w"))
    h.get(s, fn("f"))
    h.get(s, fn("none", gives=NONE))
    h.get(s, fn("g"))
    (x, _), = render(h, hk, state(val("v")))
    expect(h, x, val("g(None)"), "a state after an update which gave None and another one")
    if [e[2:] for e in h.since(0, "called")][3:4] != [(val("w"),)]:
        h.say("an updater is not called with the value which was set before")
    h.get(s, fn("zero", gives=k(0)))
    h.get(s, fn("i"))
    (x, _), = render(h, hk, state(val("v")))
    expect(h, x, val("i(0)"), "a state after an update which gave 0 and another one")


def updater_fails(h):
    hk = h.hook()
    (x, s), = render(h, hk, state(val("v")))
    h.get(s, val("w"))
    kind, r = h.call(s, fn("fails", gives=("raise", "ValueError")))
    if kind != "raise":
        h.say("the error of an updater is not raised")
    h.get(s, fn("f"))
    (x, _), = render(h, hk, state(val("v")))
    expect(h, x, val("f(w)"), "a state after an updater failed and another did not")


def while_rendering(h):
    hk = h.hook()
    (x, s), = render(h, hk, state(val("v")))
    h.begin(hk)
    n = len(h.st.ev)
    x, _ = state(val("v"))(h)
    h.get(s, fn("f"))
    h.get(s, fn("g"))
    if not h.since(n, "scheduled"):
        h.say("setting a state while its component is rendered requests no render")
    h.end(hk)
    (x, _), = render(h, hk, state(val("v")))
    expect(h, x, val("g(f(v))"), "a state which was set while its component was rendered")


def one_request(h):
    hk = h.hook()
    (x, s), = render(h, hk, state(val("v")))
    n = len(h.st.ev)
    for f in "fgh":
        h.get(s, fn(f))
    if not h.since(n, "scheduled"):
        h.say("setting a state requests no render")
    render(h, hk, state(val("v")))
    n = len(h.st.ev)
    h.get(s, fn("f"))
    if not h.since(n, "scheduled"):
        h.say("setting a state in a later render requests no render")


def reducer(v):
    def use(h):
        s = h.get("use_reducer", fn("reduce"), v)
        return h.part(s, 0), h.part(s, 1)

    return use


def reducing(h):
    hk = h.hook()
    (a, d), (b, e) = render(h, hk, reducer(val("v")), state(val("w")))
    expect(h, a, val("v"), "the initial state of a reducer")
    for n in "xyz":
        h.get(d, val(n))
    for m in range(2):
        (a, d2), (b, e2) = render(h, hk, reducer(val("v")), state(val("w")))
        expect(h, a, val("reduce(reduce(reduce(v, x), y), z)"), "the state of a reducer after three actions in a row")
        expect(h, b, val("w"), "the state after a reducer")
        if d2 != d:
            h.say("the dispatch function of a reducer is another one in a later render")
    h.get(d, NONE)
    (a, _), _ = render(h, hk, reducer(val("v")), state(val("w")))
    expect(h, a, val("reduce(reduce(reduce(reduce(v, x), y), z), None)"), "the state of a reducer after the action None")


def refs(h):
    hk = h.hook()

    def ref(h):
        return h.get("use_ref", val("r"))

    got = []
    for n in range(3):
        r, (x, s), q = render(h, hk, ref, state(val("v")), ref)
        got.append((r, q))
        expect(h, x, val("v" if n == 0 else f"v{n}"), "a state between two refs")
        if h.st.heap.get(("@", r, "current")) != (val("r") if n == 0 else val(f"r{n}")):
            h.say("a ref does not hold what was stored in it")
        h.st.heap[("@", r, "current")] = val(f"r{n + 1}")
        h.get(s, val(f"v{n + 1}"))
    if len(set(got)) != 1:
        h.say("a ref is another one in a later render")
    if got[0][0] == got[0][1]:
        h.say("two refs are the same")


def mixture(h):
    """a hook of every kind, each of which keeps its place"""
    hk = h.hook()
    uses = (
        state(val("a")),
        lambda h: h.get("use_memo", fn("m"), h.list()),
        lambda h: h.get("use_effect", fn("e"), h.list()),
        lambda h: h.get("use_callback", fn("c"), h.list()),
        lambda h: h.get("use_async_effect", fn("async e"), h.list()),
        reducer(val("r")),
        lambda h: h.get("use_ref", val("f")),
        lambda h: h.get("use_debug_value", val("d")),
        state(val("z")),
    )
    first = render(h, hk, *uses)
    expect(h, first[1], val("m()"), "a memoized value")
    for n in range(2):
        again = render(h, hk, *uses)
        for i, (x, y) in enumerate(zip(first, again)):
            if x != y:
                h.say(f"what hook {i + 1} of {len(uses)} gives changes from one render to the next")
    if len(h.since(0, "effect")) != 2:
        h.say("an effect without dependencies that change is added again")


V = [k(1), k(True), k(1.0), k(0), k(False), k(None), k(""), k("1"), k(b"1"), k(()), k((1,)), k((True,))]

STATES = [
    ("three states", kept),
    ("more states in a later render", later_state),
    ("a render which fails between two states", failed_render),
    ("two components", two_components),
    ("a child within its parent", nested_components),
    ("updaters", updaters),
    ("an updater which fails", updater_fails),
    ("set while rendering", while_rendering),
    ("several updates, one render", one_request),
    ("reducer", reducing),
    ("refs", refs),
    ("hooks of every kind", mixture),
    ("set truthy and falsy values", setting(*[k(x) for x in (1, None, 2, 0, "a", "", 3, False, ())])),
    ("set equal values of other types", setting(*[k(x) for x in (1, True, 1.0, 0, False, 0.0, "a", b"a")])),
    ("set other values", setting(*[val(x) for x in "abca"], val("d", type="list"), val("e", type="list"))),
    ("set values which do not compare", setting(val("a", "array", how="vague"), val("b", "array", how="vague"), val("c", "array", how="vague"))),
    ("set a value of another type which is equal", setting(val("a", "set", "x"), val("b", "frozenset", "x"), val("c", "set", "x"))),
]


# ------------------------------------------------------------------ memoized values (C11)
def memo(f, deps, how=0, kept=None):
    """use_memo in its forms; kept: the list which the application uses again, with other items"""

    def use(h):
        d = NONE if deps is None else deps if deps == ELL else kept if kept is not None else h.list(*deps)
        if kept is not None and deps is not None:
            h.st.heap[kept] = ("list", tuple(deps))
        if how == 0:
            return h.get("use_memo", f, d)
        if how == 1:
            return h.get("use_memo", f, dependencies=d)
        if how == 2:
            return h.get(h.get("use_memo", dependencies=d), f)
        if how == 3:
            return h.get("use_callback", f, d)
        return h.get(h.get("use_callback", dependencies=d), f)

    return use


def same_items(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def same(x, y):
    if x[0] == y[0] == "k":
        return type(x[1]) is type(y[1]) and x[1] == y[1]
    if x[:2] == y[:2] == ("S", "value"):
        return x == y or x[5] == "eq" and x[3:5] == y[3:5]
    return x == y


def memos(*seq, hows=(0, 2, 3, 4), say=None, reuse=False):
    """values of dependencies in one render after the other"""

    def run(h):
        for how in hows:
            hk = h.hook()
            kept = h.list() if reuse else None
            last = None
            for n, deps in enumerate(seq):
                f = fn(f"f{n}")
                m = len(h.st.ev)
                got, = render(h, hk, memo(f, deps, how, kept))
                new = n == 0 or deps is None or not same_items(deps, seq[last] or ())
                if new:
                    last = n
                want = fn(f"f{last}") if how > 2 else val(f"f{last}()")
                called = [e[1] for e in h.since(m, "called")]
                if got != want or how < 3 and called != ([f"f{n}"] if new else []):
                    d = "no dependencies" if deps is None else f"dependencies ({', '.join(map(describe, deps))})"
                    before = "" if n == 0 else " after no dependencies" if seq[n - 1] is None else f" after ({', '.join(map(describe, seq[n - 1]))})"
                    hook = "use_memo" if how < 3 else "use_callback"
                    h.say(f"{hook} with {d}{before} " + ("does not compute the value anew" if new else "does not give the value it had" if got != want else "computes the value although nothing changed"))
                    break

    return run


def describe(v):
    if v[0] == "S" and v[1] == "value":
        return v[2] + {"raises": " which raises when it is compared", "vague": " which compares to no truth value"}.get(v[5], "")
    return show(v)


def inferred(*cells, hook="use_memo"):
    """cells: what the function closes over in one render after the other"""

    def run(h):
        for how in (0, 1, 3):
            hk = h.hook()
            last = None
            for n, c in enumerate(cells):
                f = fn(f"f{n}", *c)

                def use(h, f=f, how=how):
                    return h.get("use_memo" if how < 3 else "use_callback", f, **({"dependencies": ELL} if how == 1 else {}))

                got, = render(h, hk, use)
                new = n == 0 or not same_items(c, cells[last])
                if new:
                    last = n
                want = fn(f"f{last}", *cells[last]) if how == 3 else val(f"f{last}()")
                if got != want:
                    h.say(f"a value of which no dependencies are given, whose function closes over ({', '.join(map(describe, c))})" + (f" and did over ({', '.join(map(describe, cells[n - 1]))})" if n else "") + (" is not computed anew" if new else " is computed although nothing changed"))
                    break

    return run


def no_function(h):
    """a callable which closes over nothing that can be known"""
    hk = h.hook()
    for n in range(3):
        f = fn(f"f{n}", plain=False)
        got, = render(h, hk, lambda h, f=f: h.get("use_memo", f))
        if got != val(f"f{n}()"):
            h.say("a value computed by something that is no function, without dependencies, is not computed anew")


def given_none(h):
    """None is not `not given`"""
    hk = h.hook()
    for n in range(3):
        f = fn(f"f{n}", val("cell"))
        got, = render(h, hk, lambda h, f=f: h.get("use_memo", f, NONE))
        if got != val(f"f{n}()"):
            h.say("a value with None as dependencies is not computed in every render")
        f = fn(f"g{n}", val(f"cell{n}"))
    hk = h.hook()
    for n in range(3):
        f = fn(f"g{n}", val(f"cell{n}"))
        got, = render(h, hk, lambda h, f=f: h.get("use_memo", f, h.list()))
        if got != val("g0()"):
            h.say("a value with empty dependencies is computed again because of what its function closes over")


def results(*values):
    """what the function gives is kept whatever it is"""

    def run(h):
        for v in values:
            hk = h.hook()
            name = f"f{show(v)}{len(h.st.ev)}"
            for n in range(3):
                m = len(h.st.ev)
                got, = render(h, hk, memo(fn(name, gives=v), (val("a"),)))
                expect(h, got, v, "a memoized value")
                if n and h.since(m, "called"):
                    h.say(f"a memoized {show(v)} is computed again although nothing changed")

    return run


def computation_fails(h):
    hk = h.hook()
    a, b = (val("a"),), (val("b"),)

    def failing(name, deps):
        def use(h):
            return h.call("use_memo", fn(name, gives=("raise", "ValueError")), h.list(*deps))

        (kind, _), = render(h, hk, use)
        if kind != "raise":
            h.say("the error of a computation is not raised")

    failing("x", a)
    got, = render(h, hk, memo(fn("f"), a))
    expect(h, got, val("f()"), "a value whose first computation failed")
    failing("y", b)
    got, = render(h, hk, memo(fn("g"), b))
    expect(h, got, val("g()"), "a value whose computation for these dependencies failed before")
    got, = render(h, hk, memo(fn("i"), b))
    expect(h, got, val("g()"), "a value whose dependencies did not change")


def two_memos(h):
    hk = h.hook()
    for n in range(3):
        x, y, z = render(h, hk, memo(fn(f"f{n}"), (val("a"),)), memo(fn(f"g{n}"), (val(f"b{n}"),)), memo(fn(f"h{n}"), (val("a"),)))
        expect(h, x, val("f0()"), "the first of three memoized values")
        expect(h, y, val(f"g{n}()"), "the second of three memoized values")
        expect(h, z, val("h0()"), "the third of three memoized values")


a, b, c = val("a"), val("b"), val("c")
CODES = [tuple(dict(co_code="x", co_consts="y", co_names="z").items())]


def functions(h):
    """dependencies which are functions"""
    f, g = fn("f"), fn("g")
    memos((f,), (f,), (g,), (g,), (f,))(h)
    l1 = fn("l@1", code=(("co_code", "1"),), local=True)
    hk = h.hook()
    render(h, hk, memo(fn("x"), (l1,)))
    for n, attr in enumerate(("co_code", "co_consts", "co_names", "co_varnames", "co_argcount", "co_flags", "co_freevars")):
        hk = h.hook()
        u, v = (fn(f"l@{n}{x}", code=((attr, x),), local=True) for x in "uv")
        render(h, hk, memo(fn(f"x{n}"), (u,)))
        got, = render(h, hk, memo(fn(f"y{n}"), (v,)))
        if got != val(f"y{n}()"):
            h.say(f"two functions whose code differs, in {attr}, count as the same dependency")


MEMOS = [
    ("same dependencies", memos((a, b), (a, b), (val("a2", eq="a"), b), (a, b))),
    ("another value", memos((a, b), (a, c), (a, c), (b, c), (b, a), (b, a))),
    ("other order", memos((a, b), (b, a), (a, b))),
    ("fewer and more", memos((a,), (a, b), (a, b), (a,), (), (), (a,), (a, a), (a, a, a), (a, a))),
    ("nothing to depend on", memos((), (), ())),
    ("in one list which the component keeps", memos((a,), (a, b), (a, b), (c, b), (), (), (a,), reuse=True)),
    ("always", memos(None, None, None)),
    ("back and forth", memos((a,), (b,), (a,), (b,), (b,))),
    ("equal values of other types", memos(*[(x,) for x in (k(1), k(True), k(1.0), k(1), k(0), k(False), k(0.0), k(None), k(""), k("a"), k(b"a"), k("a"), k("a"))])),
    ("equal objects of other types", memos((val("s", "set", "x"),), (val("f", "frozenset", "x"),), (val("g", "frozenset", "x"),), (val("s", "set", "x"),))),
    ("values which do not compare", memos((val("p", "array", how="vague"),), (val("q", "array", how="vague"),), (val("q", "array", how="vague"),), (a,))),
    ("functions", functions),
    ("two equal, one not", memos((a, b, c), (a, b, c), (a, b, a), (b, b, a), (b, c, a), (b, c, a))),
    ("inferred", inferred((a,), (a,), (b,), (b,), (val("b2", eq="b"),), (a,))),
    ("inferred, several", inferred((a, b), (a, b), (a, c), (b, c), (b, c))),
    ("inferred, none", inferred((), (), ())),
    ("inferred, falsy", inferred((k(0),), (k(0),), (k(None),), (k(False),), (k(False),))),
    ("no function", no_function),
    ("given, not inferred", given_none),
    ("whatever the value is", results(NONE, k(0), k(False), k(""), k(()), val("v"), val("w", how="vague", type="array"))),
    ("a computation which fails", computation_fails),
    ("three values", two_memos),
]


# ------------------------------------------------------------------ effects which are added (C10)
def effects(*seq, reuse=False, hows=((0, "use_effect"), (1, "use_effect"), (0, "use_async_effect"), (1, "use_async_effect"))):
    def run(h):
        for how, hook in hows:
            hk = h.hook()
            other = h.hook()
            last = None
            kept = h.list() if reuse else None
            for n, deps in enumerate(seq):
                f = fn(("async " if "async" in hook else "") + f"e{n}", *(deps if how == 1 and deps else ()))
                m = len(h.st.ev)

                def use(h, f=f, deps=deps):
                    d = NONE if deps is None else kept if reuse else h.list(*deps)
                    if reuse and deps is not None:
                        h.st.heap[kept] = ("list", tuple(deps))
                    if how == 1 and deps is not None:
                        return h.get(hook, f)  # it closes over them
                    if how == 0 and n % 2:
                        return h.get(h.get(hook, dependencies=d), f)
                    return h.get(hook, f, d)

                render(h, hk, use)
                new = n == 0 or deps is None or not same_items(deps, seq[last] or ())
                if new:
                    last = n
                added = h.since(m, "effect")
                if len(added) != new:
                    d = "no dependencies" if deps is None else f"dependencies ({', '.join(map(describe, deps))})"
                    h.say(f"an effect ({hook}) with {d} " + ("is not run again although they changed" if new else "runs again although nothing changed") if len(added) < 2 else "an effect is added twice")
                    break
                if added and added[0][1] != hk:
                    h.say("an effect is added to the hook of another component")
                if h.since(m, "called"):
                    h.say(f"the function of an effect ({hook}) is called while its component is rendered")
                render(h, other, state(val("x")))

    return run


EFFECTS = [
    ("same dependencies", effects((a, b), (a, b), (a, b))),
    ("another value", effects((a, b), (a, c), (a, c), (b, c))),
    ("fewer and more", effects((a,), (a, b), (a,), (), (), (a,))),
    ("never again", effects((), (), ())),
    ("in one list which the component keeps", effects((a,), (a, b), (a, b), (c, b), (), (a,), reuse=True)),
    ("always", effects(None, None, None, hows=((0, "use_effect"), (0, "use_async_effect")))),
    ("equal values of other types", effects(*[(x,) for x in (k(1), k(True), k(1.0), k(0), k(False), k(None), k(""), k("a"), k("a"))])),
    ("values which do not compare", effects((val("p", "array", how="vague"),), (val("q", "array", how="vague"),), (val("q", "array", how="vague"),), (a,))),
]


# ------------------------------------------------------------------ contexts (C13)
class Place:
    """a component in a tree: a provider (context, value) or one which asks for contexts"""

    def __init__(self, h, kids=(), ctx=None, value=None):
        self.hook, self.kids, self.ctx, self.value = h.hook(), list(kids), ctx, value


def rendered(h, place, contexts, above, out):
    """render a place and all below; out: (place, context name, value got, value expected)"""
    if place.ctx is not None:
        p = h.get(contexts[place.ctx][0], val("child"), value=place.value)
        h.begin(place.hook, "provider")
        h.method(p, "render")
        above = {**above, place.ctx: place.value}
    else:
        h.begin(place.hook, "component")
        for n, (cx, default) in contexts.items():
            out.append((n, h.get("use_context", cx), above.get(n, default)))
    for x in place.kids:
        rendered(h, x, contexts, above, out)
    if place.ctx is None:
        for n, (cx, default) in contexts.items():
            out.append((n, h.get("use_context", cx), above.get(n, default)))
    h.end(place.hook)


def contexts(defaults, tree, *steps):
    """tree(P, C): provider and component; steps: functions of the places which change values, and where to render"""

    def run(h):
        cs = {n: (h.get("create_context", d), d) for n, d in defaults.items()}
        places = {}

        def P(name, ctx, value, *kids):
            places[name] = Place(h, kids, ctx, value)
            return places[name]

        def C(name, *kids):
            places[name] = Place(h, kids)
            return places[name]

        root = tree(P, C)

        def path(x, to, above):
            if x is to:
                return above
            here = {**above, x.ctx: x.value} if x.ctx is not None else above
            for y in x.kids:
                r = path(y, to, here)
                if r is not None:
                    return r
            return None

        for n, (what, where) in enumerate((("", ""), *steps)):
            if what:
                name, value = what
                places[name].value = value
            at = places[where] if where else root
            out = []
            rendered(h, at, cs, path(root, at, {}), out)
            for cn, got, want in out:
                if got != want:
                    when = "when the tree is rendered" if not where else f"when {'the component' if at.ctx is None else 'the provider'} {where} is rendered again"
                    h.say(f"the value of a context is {shown(got)} where it has to be {shown(want)}, {when}")
                    return

    return run


v1, v2, v3 = val("v1"), val("v2"), val("v3")
D = {"x": val("dx"), "y": val("dy")}
CONTEXTS = [
    ("defaults", contexts({"x": val("d"), "y": NONE, "z": k(0)}, lambda P, C: C("r", C("c")), ("", "c"), ("", ""))),
    ("one provider", contexts(D, lambda P, C: C("r", P("p", "x", v1, C("c", C("d")))), ("", "c"), ("", "d"), ("", "p"), ("", ""))),
    ("nested providers", contexts(D, lambda P, C: P("p", "x", v1, C("b"), P("q", "x", v2, C("c")), C("d")), ("", "c"), ("", "b"), ("", "d"), ("", "q"), ("", ""))),
    ("siblings", contexts(D, lambda P, C: C("r", C("a"), P("p", "x", v1, C("b")), C("c"), P("q", "x", v2, C("d")), C("e")), ("", "c"), ("", "a"), ("", "e"), ("", "d"), ("", "b"), ("", "e"))),
    ("two contexts", contexts(D, lambda P, C: P("p", "x", v1, C("a"), P("q", "y", v2, C("b", P("r", "x", v3, C("c"))))), ("", "a"), ("", "b"), ("", "c"), ("", ""))),
    ("same default", contexts({"x": NONE, "y": NONE}, lambda P, C: P("p", "x", v1, C("a")), ("", "a"))),
    ("falsy values", contexts({"x": val("dx"), "y": val("dy"), "z": k(1)}, lambda P, C: P("p", "x", NONE, P("q", "y", k(0), P("r", "z", k(False), C("a", C("b"))))), ("", "a"), ("", "b"), ("", ""))),
    ("another value", contexts(D, lambda P, C: P("p", "x", v1, C("a", C("b"))), (("p", v2), ""), ("", "b"), (("p", NONE), "p"), ("", "a"), (("p", v3), "p"), ("", "b"))),
    ("another value above", contexts(D, lambda P, C: P("p", "x", v1, C("a"), P("q", "x", v2, C("b"))), (("p", v3), ""), ("", "b"), ("", "a"), (("q", v1), "q"), ("", "b"), ("", "a"))),
    ("None hides what is above", contexts(D, lambda P, C: P("p", "x", v1, P("q", "x", NONE, C("a")), C("b")), ("", "a"), ("", "b"))),
    ("a component between providers", contexts(D, lambda P, C: P("p", "x", v1, C("a", P("q", "y", v2, C("b")), C("c"))), ("", "a"), ("", "q"), ("", "b"), ("", "c"), (("p", v3), ""), ("", "b"))),
]
