"""C09  Acknowledged sequence numbers: received ones, the highest, of this very element."""
from .. import tree
from ..lib import *
from .c01 import OPAQUE
from .c03 import rec_call
from .c04 import decode
from .c08 import H, consumer, last

EXPLANATION = """
Every write to the table of received sequence numbers is traced: the number comes from the event
which was taken from the queue, is stored under that event's target, is an integer, and is above
what was stored before; on every path an event's number is recorded before its handler is
called. The number added to an element's attributes is the highest of those recorded for the
element's own targets, on input elements only, after its handlers are registered; the numbers
of a target are forgotten when an element is new.
"""
ASSUMPTIONS = []
KEY = "_reactpy_ack_seq"
TAGS = {"input", "select", "textarea"}


def seq_table(ck, fl, evt):
    """attributes which hold received sequence numbers, and the writes to them"""
    out, names = [], set()
    for i in fl.g.live():
        if i.op == "setitem" and self_attr_names(fl, i.a["obj"], i):
            dep = fl.depends(i.a["val"], i)
            if any(_is_seq(fl, fl.g.instrs[d], evt) for d in dep):
                out.append(i)
                names |= self_attr_names(fl, i.a["obj"], i)
    return out, names


def _is_seq(fl, x, evt):
    if x.op == "call" and last(fl, x) == "get" and x.a["args"] and is_const(x.a["args"][0], "seq"):
        return bool(fl.recv_terms(x) & evt)
    return x.op == "getitem" and is_const(x.a["key"], "seq") and bool(fl.terms(x.a["obj"], x) & evt)


def received(ck):
    ck.rule("received", "a received sequence number is recorded under its target if it is higher, before the handler is called", 3)
    f, _, tasks, cons = consumer(ck)
    fl = flow(ck, cons, OPAQUE, raise_items=True)
    g = fl.g
    gets = {}
    for i in g.calls():
        if last(fl, i) in ("get", "get_nowait") and not i.a["args"]:
            for w in awaited_by(fl, i):
                gets[w.id] = i
    ck.need(gets, "the consumer takes no event")
    evt = {t for w in gets for t in fl.term_of_instr(g.instrs[w])}
    writes, names = seq_table(ck, fl, evt)
    if not writes:
        ck.ob(False, f"{name_of(cons)}: received numbers", cons.loc(), "the sequence number of an event is not recorded")
        return names
    params = {("p", cons.qual, p) for p in cons.params() if p != "self"}
    seqt = set()
    for i in g.live():
        if _is_seq(fl, i, evt):
            seqt |= fl.term_of_instr(i)

    def is_prev(t):
        if t[0] == "call":
            x = g.instrs[t[2]]
            return last(fl, x) == "get" and bool(self_attr_names(fl, fl.recv(x), x) & names)
        return t[0] == "item" and attr_of(t[1]) in names

    def parts(op, at):
        """terms of an operand, through max()"""
        return fl.terms(op, at)

    for w in writes:
        kt = fl.terms(w.a["key"], w)
        ck.ob(bool(kt) and all(t in params or t[0] == "item" and t[1] in evt and t[2] == ("k", "target") for t in kt), f"{name_of(w.func)}: key of a received number", w.loc, "a received number is not recorded under the event's target")
        vt = parts(w.a["val"], w)
        by_max = all(t[0] == "call" and t[1] == "max" and arg_terms(fl, g.instrs[t[2]]) & seqt and any(is_prev(x) for x in arg_terms(fl, g.instrs[t[2]])) for t in vt) and bool(vt)
        ck.ob(by_max or bool(vt) and vt <= seqt, f"{name_of(w.func)}: received number", w.loc, "what is recorded is not the sequence number of the event")
        higher, isint = set(), set()
        for b in g.live():
            if b.op != "branch":
                continue
            kind, terms, pol, op, at = decode(fl, b, {})
            d = g.deftmp.get(op[1]) if op[0] == "t" else None
            if d is not None and d.op == "op" and d.a["fn"] in ("Gt", "Lt", "GtE", "LtE") and len(d.a["args"]) == 2:
                x, y = (fl.terms(a, d) for a in d.a["args"])
                if x & seqt and any(is_prev(t) for t in y):
                    up = {"Gt": "t", "GtE": "t", "Lt": "f", "LtE": "f"}[d.a["fn"]]
                elif y & seqt and any(is_prev(t) for t in x):
                    up = {"Lt": "t", "LtE": "t", "Gt": "f", "GtE": "f"}[d.a["fn"]]
                else:
                    up = None
                if up:
                    higher.add((b.id, up if pol else ("f" if up == "t" else "t")))
            if kind in ("none", "truthy") and terms and all(is_prev(t) for t in terms):
                # nothing was recorded before
                higher.add((b.id, "t" if (pol if kind == "none" else not pol) else "f"))
            if d is not None and d.op == "op" and d.a["fn"] in ("In", "NotIn") and self_attr_names(fl, d.a["args"][1], d) & names:
                higher.add((b.id, "t" if (d.a["fn"] == "NotIn") == pol else "f"))
            if d is not None and d.op == "call" and d.a["callee"] == ("builtin", "isinstance") and fl.terms(d.a["args"][0], d) & seqt:
                isint.add((b.id, "t" if pol else "f"))
        if not by_max:
            bad = fl.reach_avoiding(list(gets), lambda x: x.id == w.id, lambda x: False, lambda a, l, b: (a.id, l) not in higher)
            ck.ob(bad is None, f"{name_of(w.func)}: recorded number only grows", w.loc, "a lower sequence number may replace a higher one", lines(fl, bad) if bad else "")
        bad = fl.reach_avoiding(list(gets), lambda x: x.id == w.id, lambda x: False, lambda a, l, b: (a.id, l) not in isint)
        ck.ob(bad is None, f"{name_of(w.func)}: recorded number is a number", w.loc, "what a client sends as sequence number is recorded unchecked", lines(fl, bad) if bad else "")
    # recorded before the handler is called
    wid = {w.id for w in writes}
    calls = set()
    for i in g.calls():
        d = g.deftmp.get(i.a["fn"][1]) if i.a["fn"][0] == "t" else None
        if d is not None and d.op == "getattr" and d.a["attr"] == "function":
            calls.add(i.id)
    ck.need(calls, "the consumer calls no handler")

    def seq_branch(a):
        if a.op != "branch":
            return False
        dep = fl.depends(a.a["cond"], a)
        return any(fl.g.instrs[d].id and _is_seq(fl, fl.g.instrs[d], evt) for d in dep) or any(is_prev(t) for d in dep for t in fl.term_of_instr(fl.g.instrs[d]) if fl.g.instrs[d].op in ("call", "getitem"))

    starts = [s for w in gets for s, l in g.instrs[w].succ if l == "n"]
    bad = fl.reach_avoiding(starts, lambda x: x.id in calls, lambda x: x.id in wid or x.id in gets, lambda a, l, b: not seq_branch(a))
    if bad is None:
        good = fl.reach_avoiding(starts, lambda x: x.id in wid, lambda x: x.id in calls or x.id in gets)
        ck.ob(good is not None, f"{name_of(cons)}: recorded before the handler", cons.loc(), "the number of an event is recorded only after its handler was called")
    else:
        ck.ob(False, f"{name_of(cons)}: recorded before the handler", cons.loc(), "the number of an event is not recorded before its handler is called", lines(fl, bad))
    return names


def acked(ck):
    ck.rule("acked", "an input element carries the highest number recorded for its own targets, and no other element carries one", 3)
    f, fl = activation(ck, ren_opaque(ck, OPAQUE))
    g = fl.g
    _, _, _, cons = consumer(ck)
    fc = flow(ck, cons, OPAQUE, raise_items=True)
    evt = set()
    for i in fc.g.calls():
        if last(fc, i) in ("get", "get_nowait") and not i.a["args"]:
            for w in awaited_by(fc, i):
                evt |= fc.term_of_instr(w)
    _, names = seq_table(ck, fc, evt)
    ck.need(names, "table of received numbers")
    puts = []
    for i in g.live():
        if i.op == "setitem" and is_const(i.a["key"], KEY):
            puts.append((i, i.a["val"]))
        elif i.op == "call" and last(fl, i) == "setdefault" and i.a["args"] and is_const(i.a["args"][0], KEY):
            puts.append((i, i.a["args"][1] if len(i.a["args"]) > 1 else None))
        elif i.op == "build" and i.a["kind"] == "dict":
            for k, v in i.a["items"]:
                if k is not None and is_const(k, KEY):
                    puts.append((i, v))
    if not puts:
        ck.ob(False, f"{name_of(f)}: acknowledgement", f.loc(), "no element is told which of its events were received")
        return
    tag_edges, look = set(), {}
    for b in g.live():
        if b.op == "branch":
            kind, terms, pol, op, at = decode(fl, b, {})
            d = g.deftmp.get(op[1]) if op[0] == "t" else None
            if d is not None and d.op == "op" and d.a["fn"] in ("In", "NotIn"):
                vals = _consts(ck, fl, d.a["args"][1], d)
                if vals and vals <= TAGS and any(_tag(fl, t) for t in fl.terms(d.a["args"][0], d)):
                    tag_edges.add((b.id, "t" if (d.a["fn"] == "In") == pol else "f"))
                    ck.ob(vals == TAGS, f"{name_of(b.func)}: which elements", b.loc, f"elements {sorted(TAGS - vals)} are not told which of their events were received")
    for i in g.live():
        r = fl.recv(i) if i.op == "call" and last(fl, i) in ("get",) and i.a["args"] else i.a["obj"] if i.op == "getitem" else None
        if r is not None and self_attr_names(fl, r, i) & names:
            look[i.id] = i
    for i, v in puts:
        bad = fl.reach_avoiding([0], lambda x: x.id == i.id, lambda x: False, lambda a, l, b: (a.id, l) not in tag_edges)
        ck.ob(bad is None, f"{name_of(i.func)}: only input elements", i.loc, "elements other than user inputs carry an acknowledgement", lines(fl, bad) if bad else "")
        dep = fl.depends(v, i) if v is not None else set()
        used = dep & set(look)
        ck.ob(bool(used), f"{name_of(i.func)}: acknowledged number", i.loc, "the acknowledged number is not one which was received")
        for u in used:
            x = look[u]
            key = x.a["args"][0] if x.op == "call" else x.a["key"]
            kd = fl.depends(key, x)
            ck.ob(any(g.instrs[y].op == "getattr" and g.instrs[y].a["attr"] == "targets_by_event" for y in kd), f"{name_of(i.func)}: targets of the element", x.loc, "the acknowledged number is not that of the element's own targets")
        # the highest
        ops = {g.instrs[d].id for d in dep if g.instrs[d].op == "call" and g.instrs[d].a["callee"] == ("builtin", "max")}
        mins = {d for d in dep if g.instrs[d].op == "call" and g.instrs[d].a["callee"] == ("builtin", "min")}
        ok = bool(ops) and not mins
        if not ok and not mins:
            ok = _grows(fl, look, v, i)
        ck.ob(ok, f"{name_of(i.func)}: highest number", i.loc, "the acknowledged number is not the highest one of the element's targets")
        # into the copy which belongs to the new state
        obj = i.a["obj"] if i.op == "setitem" else fl.recv(i) if i.op == "call" else None
        if obj is not None:
            bad = any(t[0] == "item" and t[2] == ("k", "attributes") and not any(x[0] == "attr" and x[2] == "model" for x in sub_terms(t)) for t in fl.terms(obj, i))
            ck.ob(not bad, f"{name_of(i.func)}: where it is stored", i.loc, "the acknowledgement is written into the user's own attributes")
    # after the handlers are registered, whenever there are any
    sets = {i.id for i in g.live() if i.op == "setitem" and H in self_attr_names(fl, i.a["obj"], i)}
    regs = inner_iters(fl, sets)
    pids = {i.id for i, _ in puts}
    rec = {i.id for i in g.live() if i.op == "await" and rec_call(ck, fl, i)}

    def ack_branch(a):
        return a.op == "branch" and (any(b == a.id for b, _ in tag_edges) or _about_ack(fl, a, look))

    lk = {i.id for i in g.live() if i.op in ("iter", "next") and any(g.instrs[d].op == "getattr" and g.instrs[d].a["attr"] == "targets_by_event" for d in fl.depends(i.a.get("src") or i.a.get("it"), i))}

    def step(i, lab, st, env):
        if i.id in regs:
            return ["R"]
        if lab not in ("n", "t", "f"):
            return ["0"]
        if st == "R" and (i.id in pids or ack_branch(i)):
            return ["0"]
        if st == "R" and i.id in rec:
            return ["late"]
        return [st]

    typestate(ck, fl, "0", step, lambda kind, st: not (st == "late" or kind == "exit" and st == "R"), f"{name_of(f)}: acknowledgement after registration", "an element is not told which of its events were received")
    # forgotten for new elements
    ck.rule("new-element", "the numbers recorded for a target are forgotten when a new element takes it", 1)
    pops = {i.id: i for i in g.live() if i.op == "call" and last(fl, i) == "pop" and i.a["args"] and self_attr_names(fl, fl.recv(i), i) & names or i.op == "delitem" and self_attr_names(fl, i.a["obj"], i) & names}
    if not pops:
        ck.ob(False, f"{name_of(f)}: numbers of a new element", f.loc(), "a new element is told about events which an earlier one sent")
        return
    fresh = {}
    for i in g.calls():
        if i.a["callee"][0] != "class":
            continue
        init = ck.p.method(i.a["callee"][1], "__init__")
        if init is None or "targets_by_event" not in init.params():
            continue
        kw = {k: v for k, v in i.a["kw"] if k}
        if "life_cycle_state" in kw and kw["life_cycle_state"] != ("k", None):
            continue
        ts = fl.terms(kw["key"], i) if "key" in kw else set()
        fresh[i.id] = not any(t[0] == "attr" and t[2] == "key" for t in ts)
    from .c03 import child_lookups, old_param

    old = old_param(ck, f, fl)
    lookt = set()
    for _, _, x in child_lookups(fl, old):
        lookt |= fl.term_of_instr(x)

    def step2(i, lab, st, env):
        if i.id in fresh and lab == "n":
            return [("new", False) if fresh[i.id] else ("old", False)]
        if st[0] not in ("new", "old"):
            return [st]
        if lab not in ("n", "t", "f"):
            return [("0", False)]
        if i.op == "branch":
            kind, terms, pol, op, at = decode(fl, i, env)
            if kind in ("none", "truthy") and terms and terms & lookt and terms <= lookt | {("k", None)}:
                absent = (lab == "t") == (pol if kind == "none" else not pol)
                if st[0] == "new" and not absent or st[0] == "old" and absent:
                    return []
        if i.id in sets and lab == "n":
            return [(st[0], "need")]
        if i.id in pops and lab == "n":
            if st[0] == "old":
                return [("!early", False)]
            return [(st[0], "ok")]
        if st[0] == "new" and st[1] == "need":
            if i.op == "next" or i.id in look:
                return [("!kept", False)]
        return [st]

    why = {"!kept": "a new element is told about events which an earlier one sent", "!early": "the numbers of an element are forgotten although it is still the same element"}

    def one(i, lab, st, env):
        # removal before the registration of the same handler counts as well
        return step2(i, lab, st, env)

    before = all(fl.reach_avoiding([p], lambda x: x.id in sets, lambda x: x.op == "next") for p in pops)
    if before:
        def one(i, lab, st, env):
            if st[0] == "new" and i.id in pops and lab == "n":
                return [("new", "ok")]
            if st[0] == "new" and i.id in sets and lab == "n":
                return [("new", False) if st[1] == "ok" else ("new", "need")]
            return step2(i, lab, st, env)

    typestate(ck, fl, ("0", False), one, lambda kind, st: why.get(st[0], True), f"{name_of(f)}: numbers of a new element")


def _consts(ck, fl, op, at):
    """constant strings of a set/list/tuple/dict or module constant"""
    out = set()
    for t in fl.terms(op, at):
        if t[0] == "build":
            b = fl.g.instrs[t[2]]
            for x in b.a["items"]:
                x = x[0] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) else x
                if x is None or x[0] != "k":
                    return None
                out.add(x[1])
        elif t[0] == "k" and isinstance(t[1], (tuple, frozenset, set)):
            out |= set(t[1])
        elif t[0] in ("g", "gv"):
            v = global_consts(ck.p, t[1])
            if v is None:
                return None
            out |= v
        elif t[0] == "call" and t[1] in ("frozenset", "set", "tuple"):
            c = fl.g.instrs[t[2]]
            v = _consts(ck, fl, c.a["args"][0], c) if c.a["args"] else set()
            if v is None:
                return None
            out |= v
        else:
            return None
    return out


def _tag(fl, t):
    return any(x[0] == "item" and x[2] == ("k", "tagName") or x[0] == "call" and x[1] == ".get" and is_const(fl.g.instrs[x[2]].a["args"][0], "tagName") for x in sub_terms(t))


def _about_ack(fl, a, look):
    dep = fl.depends(a.a["cond"], a)
    if dep & set(look):
        return True
    kind, terms, pol, op, at = decode(fl, a, {})
    return any(g.op == "getattr" and g.a["attr"] == "targets_by_event" for g in (fl.g.instrs[d] for d in dep)) and not any(fl.g.instrs[d].op == "next" for d in dep)


def _grows(fl, look, v, at):
    """value assigned in a loop only if it is above the one so far (or there is none)"""
    g = fl.g
    lt = set()
    for i in look.values():
        lt |= fl.term_of_instr(i)
    ok = True
    seen = False
    todo, done = [(v, at)], set()
    while todo:
        o, w = todo.pop()
        if o is None or o[0] not in ("v", "gv") or (o, w.id) in done:
            continue
        done.add((o, w.id))
        for d in fl.reaching(o, w):
            if d.op != "assign":
                continue
            if d.a["src"] == ("k", None):
                continue
            if fl.terms(d.a["src"], d) & lt or fl.terms(d.a["src"], d) <= lt:
                # this assignment must be guarded
                heads = [h for h in g.live() if h.op == "next" and d.id in loop_nodes(fl, h)]
                if not heads:
                    continue
                seen = True
                edges, compared = set(), False
                for b in g.live():
                    if b.op != "branch":
                        continue
                    kind, terms, pol, op, at2 = decode(fl, b, {})
                    dd = g.deftmp.get(op[1]) if op[0] == "t" else None
                    if dd is not None and dd.op == "op" and dd.a["fn"] in ("Gt", "Lt", "GtE", "LtE"):
                        x, y = dd.a["args"]
                        cur = d.dst
                        if y == cur:
                            up = {"Gt": "t", "GtE": "t", "Lt": "f", "LtE": "f"}[dd.a["fn"]]
                        elif x == cur:
                            up = {"Lt": "t", "LtE": "t", "Gt": "f", "GtE": "f"}[dd.a["fn"]]
                        else:
                            continue
                        edges.add((b.id, up if pol else ("f" if up == "t" else "t")))
                        compared = True
                    if kind == "none" and op == d.dst:
                        edges.add((b.id, "t" if pol else "f"))
                starts = [s for h in heads for s, l in h.succ if l in ("n", "t")]
                bad = fl.reach_avoiding(starts, lambda x: x.id == d.id, lambda x: x.op == "next", lambda a, l, b: (a.id, l) not in edges)
                ok = ok and bad is None and compared
            elif d.a["src"][0] in ("v", "gv"):
                todo.append((d.a["src"], d))
    return ok and seen


def numbers(ck):
    tree.decide(ck, "numbers", "after events of every history of numbers, inputs which are displayed carry the highest one received under their targets, new ones and others none", "recorded", "ack")


# decided by interpretation of whole renders as well
SPARE = {}
RULES = [received, acked, numbers]
