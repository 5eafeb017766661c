"""Dataflow over the IR: reaching definitions, provenance terms, typestate automata.

The typestate engine is ESP-style property simulation: the automaton state is tracked
together with the branch outcomes already taken on the path for conditions that recur
(so `if x is None: ...` twice is one decision), joined when both agree.  No constraint
is solved and no value is computed.
"""
from __future__ import annotations

import ast
from collections import deque

from .ir import CFG, Instr, NORAISE_METHODS
from .project import AnalysisBroken, Func

PURE_BUILTINS = {"isinstance", "len", "type", "hasattr", "callable", "bool", "getattr", "issubclass"}


FILLERS = {"append", "add", "extend", "insert", "update", "appendleft", "setdefault", "put_nowait"}


class Flow:
    def __init__(self, g: CFG):
        self.g = g
        self._rd()
        self._termcache: dict = {}
        self._depcache: dict = {}

    # ------------------------------------------------------- reaching definitions
    def _rd(self):
        g = self.g
        self.defs: list[Instr] = []
        self.defs_of: dict[tuple, int] = {}
        self.defid: dict[int, int] = {}
        for i in g.live():
            if i.dst is not None and i.dst[0] != "t":
                d = len(self.defs)
                self.defs.append(i)
                self.defid[i.id] = d
                self.defs_of[i.dst] = self.defs_of.get(i.dst, 0) | (1 << d)
        n = len(g.instrs)
        self.rin = [0] * n
        out = [0] * n
        work = deque(sorted(g.reachable))
        inq = set(work)
        while work:
            i = work.popleft()
            inq.discard(i)
            ins = g.instrs[i]
            m = 0
            for p, _ in ins.pred:
                if p in g.reachable:
                    m |= out[p]
            self.rin[i] = m
            if i in self.defid:
                o = (m & ~self.defs_of[ins.dst]) | (1 << self.defid[i])
            else:
                o = m
            if o != out[i]:
                out[i] = o
                for s, _ in ins.succ:
                    if s not in inq:
                        inq.add(s)
                        work.append(s)
        self.rout = out

    def reaching(self, var, at: Instr) -> list[Instr]:
        m = self.rin[at.id] & self.defs_of.get(var, 0)
        out = []
        while m:
            low = m & -m
            out.append(self.defs[low.bit_length() - 1])
            m ^= low
        return out

    def versions(self, op, at, env):
        """Definitions of a variable which hold at an instruction on the current path."""
        ds = self.reaching(op, at)
        d = env.get(op) if env else None
        if d is not None:
            mine = [x for x in ds if x.id == d]
            # the path may have redefined the variable since the instruction was executed
            if mine:
                return mine
        return ds

    # ------------------------------------------------------------------- terms
    def terms(self, op, at: Instr, depth=14, _seen=()):
        """Provenance terms an operand may denote at an instruction."""
        if depth == 14 and not _seen:
            key = (op, at.id)
            r = self._termcache.get(key)
            if r is None:
                r = self._termcache[key] = frozenset(self._terms(op, at, depth, _seen))
            return set(r)
        return self._terms(op, at, depth, _seen)

    def _terms(self, op, at, depth, _seen):
        if op is None:
            return {("none",)}
        k = op[0]
        if k == "t":
            d = self.g.deftmp.get(op[1])
            if d is None:
                return {("?",)}
            return self.term_of_instr(d, depth, _seen)
        if k in ("v", "gv", "free"):
            ds = self.reaching(op, at)
            if not ds:
                if k == "free":
                    return {op}
                return {("undef",) + op} if k == "v" else {("g", f"{op[1]}.{op[2]}")}
            out = set()
            for d in ds:
                if d.id in _seen or depth <= 0:
                    out.add(("loop", d.id))
                    continue
                if d.op == "catch":
                    out.add(("exc", d.id))
                else:
                    out |= self.terms(d.a["src"], d, depth - 1, _seen + (d.id,))
            return out
        if k == "f":
            return {("fn", op[1].qual)}
        if k == "l":
            return {("lambda", id(op[1]))}
        return {op}

    def terms_path(self, op, at: Instr, env, depth=14):
        """Like terms(), using the variable versions known on the current path."""
        for _ in range(20):
            if op is None or op[0] not in ("v", "gv"):
                break
            ds = self.versions(op, at, env)
            if len(ds) != 1:
                break
            if ds[0].op == "catch":
                if op in env:
                    return {("exc", ds[0].id)}
                break
            at, op = ds[0], ds[0].a["src"]
        if op is not None and op[0] == "t":
            d = self.g.deftmp.get(op[1])
            if d is not None and d.op == "getattr":
                return {("attr", b, d.a["attr"]) for b in self.terms_path(d.a["obj"], d, env, depth - 1)}
        return self.terms(op, at, depth)

    def origins(self, op, at: Instr):
        """Instructions which produce the object an operand denotes, through copies only."""
        out, todo, seen = set(), [(op, at)], set()
        while todo:
            o, i = todo.pop()
            if o is None or (o, i.id) in seen:
                continue
            seen.add((o, i.id))
            if o[0] == "t":
                d = self.g.deftmp.get(o[1])
                if d is not None:
                    if d.op == "call" and d.a["callee"] == ("ext", "typing.cast") and len(d.a["args"]) == 2:
                        todo.append((d.a["args"][1], d))
                    else:
                        out.add(d.id)
            elif o[0] in ("v", "gv", "free"):
                for d in self.reaching(o, i):
                    if d.op == "catch":
                        out.add(d.id)
                    elif d.a["src"][0] in ("t", "v", "gv", "free"):
                        todo.append((d.a["src"], d))
                    else:
                        out.add(d.id)
        return out

    def term_of_instr(self, d: Instr, depth=14, _seen=()):
        if depth <= 0:
            return {("?",)}
        a = d.a
        T = lambda o: self.terms(o, d, depth - 1, _seen)
        if d.op == "getattr":
            return {("attr", b, a["attr"]) for b in T(a["obj"])}
        if d.op == "getitem":
            return {("item", b, k) for b in T(a["obj"]) for k in list(T(a["key"]))[:6]}
        if d.op == "call":
            c = a["callee"]
            if c == ("ext", "typing.cast") and len(a["args"]) == 2:
                return T(a["args"][1])
            return {("call", self.callee_key(d), d.id)}
        if d.op == "await":
            return {("await", t) for t in T(a["src"])}
        if d.op == "op":
            args = tuple(min(T(x), key=repr) if len(T(x)) == 1 else ("alt", frozenset(T(x))) for x in a["args"])
            return {("op", a["fn"], args, d.id)}
        if d.op == "build":
            return {("build", a["kind"], d.id)}
        if d.op == "fstr":
            return {("fstr", d.id)}
        if d.op == "next":
            return {("next", t) for t in T(a["it"])}
        if d.op == "iter":
            return {("iter", t) for t in T(a["src"])}
        if d.op == "unpack":
            out = set()
            for t in T(a["obj"]):
                it = self._tuple_item(t, a["idx"])
                if it is not None:
                    out |= self.terms(it[0], it[1], depth - 1, _seen)
                else:
                    out.add(("unpack", t, a["idx"]))
            return out
        if d.op == "star":
            return {("star", t) for t in T(a["src"])}
        if d.op == "with_enter":
            return {("entered", t) for t in T(a["cm"])}
        if d.op == "decorated":
            return {("decorated", t) for t in T(a["fn"])}
        if d.op == "yield":
            return {("yielded", d.id)}
        return {("?",)}

    def _tuple_item(self, t, idx):
        """Item `idx` of a locally built tuple: (operand, instr) or None."""
        if t[0] == "build" and t[1] == "tuple" and isinstance(idx, int):
            b = self.g.instrs[t[2]]
            items = b.a["items"]
            if any(x[0] == "t" and self.g.deftmp.get(x[1]) is not None and self.g.deftmp[x[1]].op == "star" for x in items):
                return None
            if -len(items) <= idx < len(items):
                return items[idx], b
        return None

    def _resolve(self, op, at, env):
        """Follow copies and tuple packing/unpacking to the operand that made the value."""
        for _ in range(30):
            if op is None:
                return op, at
            if op[0] in ("v", "gv"):
                ds = self.versions(op, at, env)
                if len(ds) != 1 or ds[0].op != "assign":
                    return op, at
                s = ds[0].a["src"]
                if s[0] == "t":
                    dd = self.g.deftmp.get(s[1])
                    if dd is None or dd.op not in ("unpack", "build"):
                        return op, at
                elif s[0] not in ("v", "gv"):
                    return op, at
                op, at = s, ds[0]
            elif op[0] == "t":
                d = self.g.deftmp.get(op[1])
                if d is None or d.op != "unpack":
                    return op, at
                o2, a2 = self._resolve(d.a["obj"], d, env)
                if o2 is None or o2[0] != "t":
                    return op, at
                b = self.g.deftmp.get(o2[1])
                it = self._tuple_item(("build", "tuple", b.id), d.a["idx"]) if b is not None and b.op == "build" and b.a["kind"] == "tuple" else None
                if it is None:
                    return op, at
                op, at = it
            else:
                return op, at
        return op, at

    def callee_key(self, i: Instr) -> str:
        c = i.a["callee"]
        if c[0] == "repo":
            return c[1].qual
        if c[0] == "class":
            return c[1].qual
        if c[0] in ("ext", "builtin"):
            return c[1]
        if c[0] == "method":
            return "." + c[2]
        if c[0] == "super":
            return "super." + c[1]
        return "<value>"

    def recv(self, i: Instr):
        """Receiver operand of a method-style call."""
        fo = i.a["fn"]
        if fo[0] == "t":
            d = self.g.deftmp.get(fo[1])
            if d is not None and d.op == "getattr":
                return d.a["obj"]
        return None

    def recv_terms(self, i: Instr):
        r = self.recv(i)
        return self.terms(r, i) if r is not None else set()

    def arg(self, i: Instr, pos=None, name=None):
        if pos is not None and pos < len(i.a["args"]):
            return i.a["args"][pos]
        if name is not None:
            for k, v in i.a["kw"]:
                if k == name:
                    return v
        return None

    # ---------------------------------------------- backward dependence (taint)
    def depends(self, op, at: Instr, through_calls=True, _seen=None):
        """All instructions whose value may flow into `op` (data dependence)."""
        key = (op, at.id, through_calls)
        if key not in self._depcache:
            self._depcache[key] = frozenset(self._depends(op, at, through_calls))
        return set(self._depcache[key])

    def _build_stores(self):
        if not hasattr(self, "_bst"):
            self._bst = {}
            for s in self.g.live():
                if s.op in ("setitem", "comp_add"):
                    for t in self.terms(s.a["obj"], s):
                        if t[0] == "build":
                            self._bst.setdefault(t[2], []).append(s)
                elif s.op == "call" and s.a["args"] and self.callee_key(s).rsplit(".", 1)[-1] in FILLERS:
                    for t in self.recv_terms(s):
                        if t[0] == "build":
                            self._bst.setdefault(t[2], []).append(s)
        return self._bst

    def _depends(self, op, at, through_calls):
        out, todo, seen = set(), [(op, at)], set()
        while todo:
            o, i = todo.pop()
            if o is None or (o, i.id) in seen:
                continue
            seen.add((o, i.id))
            if o[0] == "t":
                d = self.g.deftmp.get(o[1])
                if d is None:
                    continue
                out.add(d.id)
                for x in operands(d):
                    if d.op == "call" and not through_calls:
                        continue
                    todo.append((x, d))
                # container contents stored into a locally built container
                if d.op == "build":
                    for s in self._build_stores().get(d.id, ()):
                        out.add(s.id)
                        if s.op == "call":
                            todo += [(x, s) for x in s.a["args"]]
                            continue
                        todo.append((s.a["val"], s))
                        if s.op == "setitem":
                            todo.append((s.a["key"], s))
            elif o[0] in ("v", "gv", "free"):
                for d in self.reaching(o, i):
                    out.add(d.id)
                    if d.op != "catch":
                        todo.append((d.a["src"], d))
        return out

    def _may_be(self, op, at, build_instr):
        for t in self.terms(op, at):
            if t[0] == "build" and t[2] == build_instr.id:
                return True
        return False

    # --------------------------------------------------------------- predicates
    def canon(self, op, at: Instr, env=None, depth=40):
        """Canonical, versioned expression of an operand: (key, deps) or None if not trackable."""
        if depth <= 0:
            return None
        if op[0] in ("v", "gv", "t"):
            o2, a2 = self._resolve(op, at, env)
            if o2 != op and o2 is not None and (o2[0] != "t" or op[0] == "t" or self.g.deftmp[o2[1]].op not in ("build",)):
                if o2[0] in ("v", "gv", "t"):
                    ds = self.reaching(op, at) if op[0] in ("v", "gv") else []
                    c = self.canon(o2, a2, env, depth - 1)
                    if c is None:
                        return None
                    return c[0], c[1] | frozenset(d.id for d in ds if len(ds) == 1)
                op, at = o2, a2
        k = op[0]
        if k in ("k", "g", "b"):
            try:
                hash(op)
            except TypeError:
                return None
            return op, frozenset()
        if k in ("f",):
            return ("f", op[1].qual), frozenset()
        if k in ("p", "free"):
            if k == "free" and self.defs_of.get(op):
                return None
            return op, frozenset()
        if k in ("v", "gv"):
            ds = self.versions(op, at, env)
            if len(ds) == 1 and ds[0].op == "assign":
                src = ds[0].a["src"]
                if src[0] in ("v", "k", "g", "p", "free", "t", "b"):
                    if src[0] == "t":
                        dd = self.g.deftmp.get(src[1])
                        if dd is not None and dd.op in ("getattr", "op"):
                            c = self.canon(src, ds[0], env, depth - 1)
                            if c is not None:
                                return c[0], c[1] | {ds[0].id}
                        return ("t", src[1]), frozenset({ds[0].id, dd.id if dd is not None else -1})
                    c = self.canon(src, ds[0], env, depth - 1)
                    if c is not None:
                        return c[0], c[1] | ({ds[0].id} if src[0] in ("v",) else frozenset())
            ids = frozenset(d.id for d in ds)
            return ("var", op, tuple(sorted(ids))), ids
        if k == "t":
            d = self.g.deftmp.get(op[1])
            if d is None:
                return None
            if d.op == "getattr":
                c = self.canon(d.a["obj"], d, env, depth - 1)
                if c is None:
                    return None
                return ("attr", c[0], d.a["attr"]), c[1]
            if d.op == "op" and d.a["fn"] not in ("match",):
                cs = [self.canon(x, d, env, depth - 1) for x in d.a["args"]]
                if any(c is None for c in cs):
                    return None
                deps = frozenset().union(*[c[1] for c in cs]) if cs else frozenset()
                return ("op", d.a["fn"], tuple(c[0] for c in cs)), deps
            if d.op == "call" and d.a["callee"][0] == "builtin" and d.a["callee"][1] in PURE_BUILTINS and not d.a["kw"]:
                cs = [self.canon(x, d, env, depth - 1) for x in d.a["args"]]
                if any(c is None for c in cs):
                    return None
                deps = frozenset().union(*[c[1] for c in cs]) if cs else frozenset()
                return ("callb", d.a["callee"][1], tuple(c[0] for c in cs)), deps
            return ("t", op[1]), frozenset({d.id})
        return None

    def pred(self, cond, at: Instr, env=None):
        """(key, polarity_if_true, deps) of a branch condition; key None if untrackable.

        If the condition is decided by a constant, key is ('const', bool)."""
        c = self.canon(cond, at, env)
        if c is None:
            return None, True, frozenset()
        key, deps = c
        pol = True
        if key[0] == "k":
            return ("const", bool(key[1])), True, deps
        if key[0] == "op":
            fn, args = key[1], key[2]
            if fn in ("IsNot", "NotEq", "NotIn"):
                fn = {"IsNot": "Is", "NotEq": "Eq", "NotIn": "In"}[fn]
                pol = False
            if fn == "Is":
                a, b = args
                if a == ("k", None):
                    a, b = b, a
                if b == ("k", None):
                    if a[0] == "k":
                        return ("const", (a[1] is None) == pol), True, deps
                    if a[0] == "t":
                        d = self.g.deftmp.get(a[1])
                        if d is not None and (d.op in ("build", "fstr") or d.op == "call" and d.a["callee"][0] == "class"):
                            return ("const", not pol), True, deps
                    return ("none", a), pol, deps
                return ("Is", frozenset([a, b])), pol, deps
            if fn == "Eq":
                return ("Eq", frozenset(args) if args[0] != args[1] else (args[0],)), pol, deps
            if fn in ("Gt", "GtE"):
                fn = {"Gt": "Lt", "GtE": "LtE"}[fn]
                args = (args[1], args[0])
            if fn == "LtE":
                return ("Lt", (args[1], args[0])), not pol, deps
            return (fn, args), pol, deps
        return ("truthy", key), pol, deps

    # ----------------------------------------------------------------- must facts
    def facts_at(self, target: Instr):
        """Branch outcomes that hold on every path from entry to `target` (must analysis)."""
        if not hasattr(self, "_mf"):
            g = self.g
            TOP = None
            fin = {0: frozenset()}
            work = deque([0])
            gen = {}
            for i in g.live():
                if i.op == "branch":
                    k, p, deps = self.pred(i.a["cond"], i)
                    gen[i.id] = (k, p, deps)
            while work:
                n = work.popleft()
                ins = g.instrs[n]
                cur = fin[n]
                if n in self.defid or (ins.dst and ins.dst[0] == "t"):
                    cur = frozenset(f for f in cur if n not in f[2])
                for s, lab in ins.succ:
                    nxt = cur
                    if n in gen and lab in ("t", "f"):
                        k, p, deps = gen[n]
                        if k is not None:
                            nxt = cur | {(k, p if lab == "t" else not p, deps)}
                    if s not in fin:
                        fin[s] = nxt
                        work.append(s)
                    else:
                        m = fin[s] & nxt
                        if m != fin[s]:
                            fin[s] = m
                            work.append(s)
            self._mf = fin
        return {(k, v) for k, v, _ in self._mf.get(target.id, frozenset())}

    # ---------------------------------------------------------------- path queries
    def reach_avoiding(self, starts, is_goal, avoid, edges=None):
        """BFS from `starts` [(id)] to a goal without executing an `avoid` instr.
        Returns the path (list of ids) or None."""
        g = self.g
        prev = {}
        todo = deque()
        for s in starts:
            if s not in prev:
                prev[s] = None
                todo.append(s)
        while todo:
            n = todo.popleft()
            ins = g.instrs[n]
            if is_goal(ins):
                path = []
                while n is not None:
                    path.append(n)
                    n = prev[n]
                return path[::-1]
            if avoid(ins):
                continue
            for s, lab in ins.succ:
                if edges is not None and not edges(ins, lab, g.instrs[s]):
                    continue
                if s not in prev:
                    prev[s] = n
                    todo.append(s)
        return None

    def _advance(self, ins, lab, facts, env, envd, rel, recur):
        """Facts and variable versions after taking an edge, or None if the edge is infeasible."""
        nf, ne = facts, env
        n = ins.id
        if ins.op == "branch" and lab in ("t", "f"):
            k, p, deps = self.pred(ins.a["cond"], ins, envd)
            if k is not None:
                want = p if lab == "t" else not p
                if k[0] == "const":
                    if k[1] != want:
                        return None
                else:
                    old = next((v for kk, v, _ in facts if kk == k), None)
                    if old is None:
                        old = self._implied(k, facts)
                    if old is not None and old != want:
                        return None
                    if old is None and (ins.id in recur or self._force(k)):
                        nf = facts | {(k, want, deps)}
        if n in self.defid or (ins.dst and ins.dst[0] == "t"):
            nf = frozenset(f for f in nf if n not in f[2])
        if ins.op == "setattr":
            a = ins.a["attr"]
            nf = frozenset(f for f in nf if not _mentions(f[0], a))
        elif ins.op in ("await", "yield") or ins.op == "call" and ins.a["callee"][0] in ("repo", "value", "method"):
            nf = frozenset(f for f in nf if not _mentions_self(f[0]))
        if n in self.defid and ins.dst in rel:
            d = dict(env)
            d[ins.dst] = n
            ne = tuple(sorted(d.items()))
        return nf, ne

    def esp_merged(self, init, step, cap=60000):
        """Property simulation proper: at every node the facts of equal automaton states are joined."""
        g = self.g
        rel, recur = self._relevant(), self._recurring()
        cur = {(0, init): (frozenset(), ())}
        pred = {(0, init): None}
        todo = deque([(0, init)])
        inq = {(0, init)}
        steps = 0
        while todo:
            n, st = key = todo.popleft()
            inq.discard(key)
            steps += 1
            if steps > cap:
                raise StateCap()
            facts, env = cur[key]
            envd = dict(env)
            ins = g.instrs[n]
            for s, lab in ins.succ:
                r = self._advance(ins, lab, facts, env, envd, rel, recur)
                if r is None:
                    continue
                for nst in step(ins, lab, st, envd):
                    k2 = (s, nst)
                    if k2 not in cur:
                        cur[k2] = r
                        pred[k2] = key
                    else:
                        of, oe = cur[k2]
                        m = (of & r[0], tuple(sorted(set(oe) & set(r[1]))))
                        if m == (of, oe):
                            continue
                        cur[k2] = m
                    if k2 not in inq:
                        inq.add(k2)
                        todo.append(k2)
        self.last_seen = pred
        res: dict[int, dict] = {}
        for n, st in cur:
            res.setdefault(n, {})[st] = (n, st)
        return res

    def esp(self, init, step, cap=60000, track=True):
        """Property simulation.

        step(instr, label, state, q) -> iterable of next states (empty = kill path);
        q(operand) gives the canonical key of an operand on this path, q.facts the facts.
        Returns {node id: {state: witness (pred config)}} ; explores every (node,state,facts,env).
        """
        g = self.g
        rel = self._relevant() if track else {}
        recur = self._recurring() if track else set()
        start = (0, init, frozenset(), ())
        seen = {start: None}
        todo = deque([start])
        res: dict[int, dict] = {}
        while todo:
            cfgn = todo.popleft()
            n, st, facts, env = cfgn
            res.setdefault(n, {}).setdefault(st, cfgn)
            ins = g.instrs[n]
            envd = dict(env)
            for s, lab in ins.succ:
                nf, ne = facts, env
                if track:
                    r = self._advance(ins, lab, facts, env, envd, rel, recur)
                    if r is None:
                        continue
                    nf, ne = r
                for nst in step(ins, lab, st, envd):
                    c = (s, nst, nf, ne)
                    if c not in seen:
                        if len(seen) > cap:
                            raise StateCap()
                        seen[c] = cfgn
                        todo.append(c)
        self.last_seen = seen
        return res

    def witness(self, cfgn):
        out = []
        while cfgn is not None:
            out.append(cfgn[0])
            cfgn = self.last_seen.get(cfgn)
        return out[::-1]

    def _force(self, k):
        return False

    def _implied(self, k, facts):
        # truthy(x) implies x is not None;  x is None implies not truthy(x)
        if k[0] == "truthy":
            for kk, v, _ in facts:
                if kk == ("none", k[1]) and v:
                    return False
        if k[0] == "none":
            for kk, v, _ in facts:
                if kk == ("truthy", k[1]) and v:
                    return False
        return None

    def _recurring(self):
        if hasattr(self, "_rec"):
            return self._rec
        loose = {}
        for i in self.g.live():
            if i.op == "branch":
                for op, at in self._copies(i.a["cond"], i):
                    k = self._loose(op, at)
                    if k is not None and i.id not in loose.setdefault(k, []):
                        loose[k].append(i.id)
        self._rec = {x for v in loose.values() if len(v) > 1 for x in v}
        # conditions evaluated in a loop recur too
        return self._rec

    def _copies(self, op, at):
        """The operand and everything it may be a copy of, with the place of the copy."""
        out, todo = [], [(op, at)]
        while todo and len(out) < 40:
            o, a = todo.pop()
            if (o, a) in out:
                continue
            out.append((o, a))
            if o is not None and o[0] in ("v", "gv"):
                todo += [(d.a["src"], d) for d in self.reaching(o, a) if d.op == "assign" and d.a["src"][0] in ("v", "gv", "t")]
        return out

    def _loose(self, op, at):
        """Version-free key, to find conditions that may recur."""
        ks = set()
        c = self.canon(op, at)
        if c is None:
            return None
        return repr(_strip(c[0], self))

    def _relevant(self):
        """Variables with several definitions that (transitively, through copies) feed a branch."""
        if hasattr(self, "_rel"):
            return self._rel
        multi = {v for v, m in self.defs_of.items() if bin(m).count("1") > 1}
        rel = set()
        seen = set()
        todo = []
        for i in self.g.live():
            if i.op == "branch":
                todo.append((i.a["cond"], i))
        while todo:
            o, i = todo.pop()
            if o is None or (o, i.id) in seen:
                continue
            seen.add((o, i.id))
            if o[0] == "t":
                d = self.g.deftmp.get(o[1])
                if d is not None and (d.op in ("getattr", "op", "unpack") or d.op == "build" and d.a["kind"] == "tuple" or d.op == "call" and d.a["callee"][0] == "builtin"):
                    for x in operands(d):
                        todo.append((x, d))
            elif o[0] in ("v", "gv"):
                if o in multi:
                    rel.add(o)
                for d in self.reaching(o, i):
                    if d.op == "assign":
                        todo.append((d.a["src"], d))
        # loop targets are not path facts
        self._rel = {v for v in rel if not all(d.a.get("src", ("?",))[0] == "t" and self._is_next(d) for d in self._all_defs(v))}
        return self._rel

    def _all_defs(self, v):
        return [d for d in self.defs if d.dst == v]

    def _is_next(self, d):
        s = d.a.get("src")
        x = self.g.deftmp.get(s[1]) if s and s[0] == "t" else None
        return x is not None and x.op in ("next", "unpack")


class StateCap(Exception):
    pass


def _strip(key, fl):
    if isinstance(key, tuple):
        if len(key) == 3 and key[0] == "var":
            return ("var", key[1][2] if len(key[1]) > 2 else key[1])
        return tuple(_strip(x, fl) for x in key)
    if isinstance(key, frozenset):
        return tuple(sorted((repr(_strip(x, fl)) for x in key)))
    return key


def _mentions(key, attr):
    if isinstance(key, tuple):
        if len(key) == 3 and key[0] == "attr" and key[2] == attr:
            return True
        return any(_mentions(x, attr) for x in key)
    if isinstance(key, frozenset):
        return any(_mentions(x, attr) for x in key)
    return False


def _mentions_self(key):
    """An attribute of `self` (mutable shared state)."""
    if isinstance(key, tuple):
        if len(key) == 3 and key[0] == "attr":
            b = key[1]
            if isinstance(b, tuple) and b[0] == "p" and b[2] == "self":
                return True
        return any(_mentions_self(x) for x in key)
    if isinstance(key, frozenset):
        return any(_mentions_self(x) for x in key)
    return False


def operands(i: Instr):
    a = i.a
    out = []
    if i.op == "call":
        out.append(a["fn"])
        out += a["args"]
        out += [v for _, v in a["kw"]]
    elif i.op == "build":
        for it in a["items"]:
            if isinstance(it, tuple) and len(it) == 2 and (it[0] is None or isinstance(it[0], tuple)) and isinstance(it[1], tuple):
                if it[0] is not None:
                    out.append(it[0])
                out.append(it[1])
            else:
                out.append(it)
    elif i.op == "fstr":
        out += a["parts"]
    elif i.op == "op":
        out += a["args"]
    else:
        for k in ("obj", "key", "val", "src", "cond", "it", "cm", "fn", "exc"):
            if k in a and isinstance(a[k], tuple):
                out.append(a[k])
    return out


def show(g: CFG, ids, limit=14):
    """Human-readable path: distinct source lines."""
    out, last = [], None
    for n in ids:
        i = g.instrs[n]
        key = (i.func.module.rel, i.line)
        if key != last and i.line:
            out.append(f"{i.func.name}:{i.line}")
            last = key
    if len(out) > limit:
        out = out[: limit // 2] + ["..."] + out[-limit // 2:]
    return " > ".join(out)
