"""Lowering of Python functions to a small control-flow IR, with inlining.

One `CFG` is the flow graph of an entry function in which calls of repository
functions accepted by an inlining policy are replaced by the callee's flow graph
(`await f()` for coroutines, `with f():` for generator context managers).  Every
construct that can leave a region is explicit: exception edges, cancellation edges at
suspension points, `finally` bodies copied per continuation, `with suppress(...)`.
Because of that a rule written on the graph does not depend on whether a step is
written in line, in an extracted helper, in a ternary or in a comprehension.

Operands (tuples):
  ('t', n)            temporary, single definition per graph
  ('v', frame, name)  variable of one activation
  ('k', value)        constant
  ('g', dotted)       global / imported object
  ('b', name)         builtin or unresolved name
  ('f', Func, frame)  function object (nested def / method reference)
  ('l', Lambda, frame, Func)
  ('s',)              bottom (unreachable)
"""
from __future__ import annotations

import ast
import builtins
import sys
from dataclasses import dataclass, field

from .project import AnalysisBroken, Cls, Func, Module, Project, dotted

NORAISE_BUILTINS = {
    "isinstance", "issubclass", "len", "id", "type", "hasattr", "callable", "set", "list", "dict",
    "tuple", "frozenset", "bool", "repr", "enumerate", "zip", "range", "reversed", "sorted", "any",
    "all", "iter", "super", "object", "print", "map", "filter", "vars", "min", "max", "sum", "property",
}
NORAISE_METHODS = {
    "get", "append", "add", "discard", "extend", "clear", "copy", "items", "keys", "values",
    "setdefault", "update", "set", "cancel", "done", "cancelled", "startswith", "endswith", "join",
    "strip", "lstrip", "rstrip", "lower", "upper", "replace", "exception", "info", "debug", "warning",
    "error", "log", "critical", "release", "is_set", "difference", "union", "intersection", "insert",
    "split", "rsplit", "partition", "rpartition", "title", "format", "add_done_callback",
    "push_async_callback", "push_async_exit", "callback", "call_soon", "call_soon_threadsafe", "appendleft", "difference_update", "empty", "qsize", "count",
}
NORAISE_EXT = {
    "asyncio.create_task", "asyncio.Event", "asyncio.Queue", "asyncio.current_task", "uuid.uuid4",
    "functools.partial", "weakref.ref", "typing.cast", "logging.getLogger", "asyncio.Semaphore",
    "anyio.Semaphore", "contextlib.suppress", "contextlib.AsyncExitStack", "contextlib.ExitStack",
    "asyncio.sleep", "asyncio.wait", "asyncio.gather", "anyio.create_task_group", "time.time",
    "collections.Counter", "inspect.iscoroutinefunction", "asyncio.ensure_future", "asyncio.shield",
    "asyncio.Lock",
}
NORAISE_AWAIT_EXT = {"asyncio.sleep", "asyncio.wait", "anyio.sleep"}
NORAISE_AWAIT_METHODS = {"get", "put", "wait", "acquire"}
COMMON_METHODS = (
    set(dir(dict)) | set(dir(list)) | set(dir(set)) | set(dir(str)) | set(dir(bytes))
    | {"put", "get", "acquire", "release", "set", "wait", "close", "render", "send", "reset", "run",
       "receive", "result", "done", "cancel", "current", "exists", "resolve", "start", "stop", "open", "is_set", "handle", "name", "parent", "fire", "locked"}
)


@dataclass(eq=False)
class Instr:
    id: int
    op: str
    dst: tuple | None
    a: dict
    node: ast.AST | None
    func: Func
    frame: int
    succ: list = field(default_factory=list)  # (id, label)
    pred: list = field(default_factory=list)

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    @property
    def loc(self):
        return f"{self.func.module.rel}:{self.line}"

    def __repr__(self):
        return f"#{self.id} {self.op} {self.dst or ''} {self.a} -> {self.succ} @{self.line}"


@dataclass
class Env:
    func: Func
    frame: int
    renames: dict
    closure: "Env | None"  # defining environment (for nested functions)
    locals: set
    handler: list  # categories the innermost enclosing except-clause can hold
    cls: Cls | None
    yield_hook: object = None


class CFG:
    def __init__(self, project: Project, entry: Func):
        self.project = project
        self.entry_func = entry
        self.instrs: list[Instr] = []
        self.frames: dict[int, Func] = {}
        self.inlined: list[tuple[str, str]] = []
        self.deftmp: dict[int, Instr] = {}

    def new(self, op, dst=None, a=None, node=None, func=None, frame=0):
        i = Instr(len(self.instrs), op, dst, a or {}, node, func, frame)
        self.instrs.append(i)
        if dst and dst[0] == "t":
            self.deftmp[dst[1]] = i
        return i

    def finish(self):
        for i in self.instrs:
            seen = []
            for s in i.succ:
                if s not in seen:
                    seen.append(s)
            i.succ = seen
        for i in self.instrs:
            i.pred = []
        for i in self.instrs:
            for s, lab in i.succ:
                self.instrs[s].pred.append((i.id, lab))
        # reachability
        seen, todo = {0}, [0]
        while todo:
            n = todo.pop()
            for s, _ in self.instrs[n].succ:
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        self.reachable = seen

    def live(self):
        return [i for i in self.instrs if i.id in self.reachable]

    def calls(self):
        return [i for i in self.live() if i.op == "call"]


BUILTIN_EXC = {n: c for n, c in vars(builtins).items() if isinstance(c, type) and issubclass(c, BaseException)}


def exc_matches(cat, handler: str | None):
    """'yes' / 'maybe' / 'no': does an `except handler` clause catch category `cat`?"""
    h = handler.rsplit(".", 1)[-1] if handler else None
    if h is None or h == "BaseException":
        return "yes"
    if cat == "c":
        return "yes" if h == "CancelledError" else "no"
    if h == "CancelledError":
        return "no"
    if h == "Exception":
        if isinstance(cat, tuple) and cat[1] in ("CancelledError", "BaseException", "KeyboardInterrupt"):
            return "no"
        return "yes"
    if cat == "e":
        return "maybe"
    n = cat[1]
    if n == h:
        return "yes"
    if n in BUILTIN_EXC and h in BUILTIN_EXC:
        if issubclass(BUILTIN_EXC[n], BUILTIN_EXC[h]):
            return "yes"
        if issubclass(BUILTIN_EXC[h], BUILTIN_EXC[n]):
            return "maybe"
        return "no"
    return "maybe"


class Builder:
    def __init__(self, project: Project, entry: Func, inline=None, max_depth=8, raise_items=False):
        self.p = project
        self.g = CFG(project, entry)
        self.inline = inline or (lambda f: False)
        self.max_depth = max_depth
        self.raise_items = raise_items
        self.stack: list[dict] = []
        self.pend: list[tuple[int, str]] = []
        self.ntmp = 0
        self.nframe = 0
        self.callstack: list[Func] = []
        self.vartype: dict[tuple, Cls] = {}
        self.fnvars: dict[tuple, tuple] = {}

    # ---------------------------------------------------------------- basics
    def tmp(self):
        self.ntmp += 1
        return ("t", self.ntmp)

    def emit(self, op, dst=None, a=None, node=None):
        if not self.pend:
            return None
        i = self.g.new(op, dst, a, node, self.env.func, self.env.frame)
        for s, lab in self.pend:
            self.g.instrs[s].succ.append((i.id, lab))
        self.pend = [(i.id, "n")]
        return i

    def connect(self, target_id, pend=None):
        for s, lab in self.pend if pend is None else pend:
            self.g.instrs[s].succ.append((target_id, lab))
        if pend is None:
            self.pend = []

    # ---------------------------------------------------------------- exceptions
    def raise_from(self, instr, cats):
        """Add exceptional edges from `instr` for each category."""
        if instr is None:
            return
        for cat in cats:
            lab = "c" if cat == "c" else "e"
            for t in self.landing(len(self.stack) - 1, cat):
                instr.succ.append((t, lab))

    def landing(self, idx, cat):
        out = []
        while idx >= 0:
            fr = self.stack[idx]
            k = fr["k"]
            if k == "try":
                stop = False
                for types, node in fr["handlers"]:
                    res = "no"
                    for t in types:
                        r = exc_matches(cat, t)
                        if r == "yes":
                            res = "yes"
                            break
                        if r == "maybe":
                            res = "maybe"
                    if res != "no":
                        out.append(node)
                    if res == "yes":
                        stop = True
                        break
                if stop:
                    return out
            elif k in ("finally", "with"):
                key = cat
                if key not in fr["landing"]:
                    n = self.g.new("nop", None, {"why": k}, fr["node"], fr["env"].func, fr["env"].frame)
                    fr["landing"][key] = n.id
                    save = (self.stack, self.pend, self.env)
                    self.stack = self.stack[:idx]
                    self.pend = [(n.id, "n")]
                    self.env = fr["env"]
                    suppressed = None
                    if k == "finally":
                        self.body(fr["body"])
                    else:
                        suppressed = fr["exit"](cat)
                    if suppressed:
                        # control continues after the with statement
                        fr["after"].extend(self.pend)
                        if suppressed == "maybe":
                            pend = list(self.pend)
                            for t in self.landing(len(self.stack) - 1, cat):
                                self.connect(t, [(p, "e" if cat != "c" else "c") for p, _ in pend])
                        self.pend = []
                    else:
                        pend = list(self.pend)
                        for t in self.landing(len(self.stack) - 1, cat):
                            self.connect(t, [(p, lab) for p, lab in pend])
                    self.stack, self.pend, self.env = save
                out.append(fr["landing"][key])
                return out
            idx -= 1
        out.append(self.cancel_exit if cat == "c" else self.exc_exit)
        return out

    def enclosing_handler_names(self):
        out = set()
        for fr in self.stack:
            if fr["k"] == "try":
                for types, _ in fr["handlers"]:
                    out |= {(t or "").rsplit(".", 1)[-1] for t in types}
            elif fr["k"] == "with":
                out |= {t.rsplit(".", 1)[-1] for t in fr.get("suppress", [])}
        return out

    # ---------------------------------------------------------------- entry
    def build(self) -> CFG:
        f = self.g.entry_func
        e0 = self.g.new("entry", None, {}, f.node, f, 0)
        self.exit = self.g.new("exit", None, {}, f.node, f, 0).id
        self.exc_exit = self.g.new("exc_exit", None, {}, f.node, f, 0).id
        self.cancel_exit = self.g.new("cancel_exit", None, {}, f.node, f, 0).id
        self.g.exit, self.g.exc_exit, self.g.cancel_exit = self.exit, self.exc_exit, self.cancel_exit
        self.pend = [(e0.id, "n")]
        self.env = self.make_env(f, None)
        # enclosing functions' variables are free
        for nm in f.all_params():
            i = self.emit("assign", ("v", self.env.frame, nm), {"src": ("p", f.qual, nm)}, f.node)
            self.note_param_type(f, nm, self.env)
        self.callstack.append(f)
        self.stack.append({"k": "func", "ret": [], "retvar": ("v", self.env.frame, "$ret")})
        body = f.node.body
        if isinstance(f.node, ast.Lambda):
            v = self.expr(body)
            self.emit("return", None, {"val": v}, body)
            self.emit("assign", self.stack[-1]["retvar"], {"src": v}, body)
            self.stack[-1]["ret"].extend(self.pend)
            self.pend = []
        else:
            self.body(body)
        fr = self.stack.pop()
        if self.pend:
            self.emit("return", None, {"val": ("k", None), "implicit": True}, f.node)
        self.pend += fr["ret"]
        self.connect(self.exit)
        self.g.env0 = self.env
        self.g.finish()
        return self.g

    def make_env(self, f: Func, closure):
        self.nframe += 1
        fr = self.nframe
        self.g.frames[fr] = f
        loc = set(f.all_params()) if not isinstance(f.node, ast.Module) else set()
        nonl = set()
        for n in _own(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                loc.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    loc.discard(a.asname or a.name.split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                nonl |= set(n.names)
        loc -= nonl
        return Env(f, fr, {}, closure, loc, ["e"], f.cls)

    def note_param_type(self, f, nm, env):
        args = f.node.args
        allp = args.posonlyargs + args.args + args.kwonlyargs
        for i, a in enumerate(allp):
            if a.arg != nm:
                continue
            is_static = "staticmethod" in f.decorators if not isinstance(f.node, ast.Lambda) else True
            if i == 0 and f.cls and not is_static and f.parent is None:
                self.vartype[("v", env.frame, nm)] = f.cls
            elif a.annotation is not None:
                c = self.ann_class(f.module, a.annotation)
                if c:
                    self.vartype[("v", env.frame, nm)] = c

    def ann_class(self, mod, ann):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            ls = [self.ann_class(mod, ann.left), self.ann_class(mod, ann.right)]
            ls = [x for x in ls if x]
            return ls[0] if len(ls) == 1 else None
        if isinstance(ann, ast.Subscript):
            ann = ann.value
        d = dotted(ann)
        if d:
            return self.p.classes.get(self.p.resolve_in(mod, d))
        return None

    # ---------------------------------------------------------------- names
    def lookup(self, name):
        env = self.env
        while env is not None:
            if name in env.renames:
                return env.renames[name]
            if name in env.locals:
                return ("v", env.frame, name)
            if env.closure is None and env.func.parent is not None:
                # not-inlined enclosing function: free variable
                pf = env.func.parent
                while pf is not None:
                    if name in _locals_of(pf):
                        if name in pf.nested:
                            return ("f", pf.nested[name], None)
                        return ("free", pf.qual, name)
                    pf = pf.parent
            env = env.closure
        mod = self.env.func.module
        r = self.p.resolve_name(mod, name)
        if r is None:
            return ("b", name)
        if r in self.p.funcs:
            return ("f", self.p.funcs[r], None)
        return ("g", r)

    # ---------------------------------------------------------------- statements
    def body(self, stmts):
        for s in stmts:
            if not self.pend:
                return
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.emit("nop", None, {"why": type(s).__name__}, s)
            return
        m(s)

    def s_Pass(self, s):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s):
        self.emit("import", None, {"names": [a.name for a in s.names]}, s)

    def s_ImportFrom(self, s):
        self.emit("import", None, {"names": [f"{s.module}.{a.name}" for a in s.names]}, s)

    def s_Expr(self, s):
        self.expr(s.value)

    def s_Assign(self, s):
        v = self.expr(s.value)
        for t in s.targets:
            self.store(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.expr(s.value)
            self.store(s.target, v, s)

    def s_AugAssign(self, s):
        load = ast.copy_location(_as_load(s.target), s.target)
        a = self.expr(load)
        b = self.expr(s.value)
        t = self.tmp()
        self.emit("op", t, {"fn": type(s.op).__name__, "args": [a, b], "aug": True}, s)
        self.store(s.target, t, s)

    def store(self, t, v, s):
        if isinstance(t, ast.Name):
            var = self.lookup_store(t.id)
            if v and v[0] in ("f", "l"):
                self.fnvars.setdefault(var, v) if self.fnvars.get(var, v) == v else self.fnvars.__setitem__(var, ("multi",))
            ty = self.type_of(v)
            if ty and var not in self.vartype:
                self.vartype[var] = ty
            self.emit("assign", var, {"src": v}, s)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            self.emit("setattr", None, {"obj": o, "attr": t.attr, "val": v}, s)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            k = self.expr(t.slice)
            self.emit("setitem", None, {"obj": o, "key": k, "val": v}, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for n, el in enumerate(t.elts):
                if isinstance(el, ast.Starred):
                    x = self.tmp()
                    self.emit("unpack", x, {"obj": v, "idx": n, "star": True, "n": len(t.elts)}, s)
                    self.store(el.value, x, s)
                else:
                    x = self.tmp()
                    self.emit("unpack", x, {"obj": v, "idx": n, "n": len(t.elts)}, s)
                    self.store(el, x, s)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, s)

    def lookup_store(self, name):
        env = self.env
        if name in env.renames:
            return env.renames[name]
        if name in env.locals:
            return ("v", env.frame, name)
        r = self.lookup(name)
        if r[0] in ("v", "free"):
            return r
        return ("gv", self.env.func.module.name, name)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Attribute):
                o = self.expr(t.value)
                self.emit("delattr", None, {"obj": o, "attr": t.attr}, s)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value)
                k = self.expr(t.slice)
                i = self.emit("delitem", None, {"obj": o, "key": k}, s)
                if self.raise_items or self.enclosing_handler_names() & {"KeyError", "LookupError", "IndexError"}:
                    self.raise_from(i, [("x", "KeyError")])
            elif isinstance(t, ast.Name):
                self.emit("assign", self.lookup_store(t.id), {"src": ("k", "<deleted>")}, s)

    def s_Return(self, s):
        v = self.expr(s.value) if s.value else ("k", None)
        self.emit("return", None, {"val": v}, s)
        fr_idx = max(i for i, f in enumerate(self.stack) if f["k"] == "func")
        fr = self.stack[fr_idx]
        self.emit("assign", fr["retvar"], {"src": v}, s)
        self.unwind_to(fr_idx)
        fr["ret"].extend(self.pend)
        self.pend = []

    def unwind_to(self, idx):
        """Run finally/with-exit actions of frames above idx for a non-exceptional jump."""
        i = len(self.stack) - 1
        save = (self.stack, self.env)
        while i > idx:
            fr = self.stack[i]
            if fr["k"] in ("finally", "with"):
                full = self.stack
                self.stack = full[:i]
                senv = self.env
                self.env = fr["env"]
                if fr["k"] == "finally":
                    self.body(fr["body"])
                else:
                    fr["exit"](None)
                self.env = senv
                self.stack = full
            i -= 1
        self.stack, self.env = save

    def s_Raise(self, s):
        v = self.expr(s.exc) if s.exc else None
        if s.cause is not None:
            self.expr(s.cause)
        i = self.emit("raise", None, {"exc": v, "bare": s.exc is None}, s)
        if s.exc is None:
            cats = self.env.handler
        else:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            d = dotted(e)
            if d is None:
                cats = ["e"]
            else:
                last = d.rsplit(".", 1)[-1]
                r = self.lookup(d.split(".")[0])
                if r[0] in ("b", "g") and last[:1].isupper():
                    cats = ["c"] if last == "CancelledError" else [("x", last)]
                else:
                    cats = ["e"]
        self.raise_from(i, cats)
        self.pend = []

    def s_Assert(self, s):
        t, f = self.cond(s.test)
        self.pend = f
        i = self.emit("raise", None, {"exc": None, "assert": True}, s)
        self.raise_from(i, [("x", "AssertionError")])
        self.pend = t

    def s_If(self, s):
        t, f = self.cond(s.test)
        self.pend = t
        self.body(s.body)
        after = self.pend
        self.pend = f
        self.body(s.orelse)
        self.pend = after + self.pend

    def s_While(self, s):
        head = self.emit("nop", None, {"why": "loop"}, s)
        if head is None:
            return
        fr = {"k": "loop", "brk": [], "cont": []}
        t, f = self.cond(s.test)
        self.stack.append(fr)
        self.pend = t
        self.body(s.body)
        self.stack.pop()
        self.pend += fr["cont"]
        self.connect(head.id)
        self.pend = f
        self.body(s.orelse)
        self.pend += fr["brk"]

    def loop_over(self, target, it, body, s, is_async=False):
        itop = self.tmp()
        self.emit("iter", itop, {"src": it}, s)
        x = self.tmp()
        head = self.emit("next", x, {"it": itop}, s)
        if head is None:
            return []
        if is_async:
            self.raise_from(head, ["e", "c"])
        self.pend = [(head.id, "t")]
        fr = {"k": "loop", "brk": [], "cont": []}
        self.stack.append(fr)
        self.store(target, x, s)
        body()
        self.stack.pop()
        self.pend += fr["cont"]
        self.connect(head.id)
        self.pend = [(head.id, "f")]
        return fr["brk"]

    def s_For(self, s, is_async=False):
        it = self.expr(s.iter)
        brk = self.loop_over(s.target, it, lambda: self.body(s.body), s, is_async)
        self.body(s.orelse)
        self.pend += brk

    def s_AsyncFor(self, s):
        self.s_For(s, True)

    def s_Break(self, s):
        idx = max(i for i, f in enumerate(self.stack) if f["k"] == "loop")
        self.unwind_to(idx)
        self.stack[idx]["brk"].extend(self.pend)
        self.pend = []

    def s_Continue(self, s):
        idx = max(i for i, f in enumerate(self.stack) if f["k"] == "loop")
        self.unwind_to(idx)
        self.stack[idx]["cont"].extend(self.pend)
        self.pend = []

    def handler_types(self, h):
        if h.type is None:
            return [None]
        els = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [dotted(e) or "?" for e in els]

    def s_Try(self, s):
        if s.finalbody:
            fr = {"k": "finally", "body": s.finalbody, "landing": {}, "node": s, "env": self.env}
            self.stack.append(fr)
            self.try_inner(s)
            self.stack.pop()
            self.body(s.finalbody)
        else:
            self.try_inner(s)

    s_TryStar = s_Try

    def try_inner(self, s):
        if not s.handlers:
            self.body(s.body)
            self.body(s.orelse)
            return
        hs = []
        for h in s.handlers:
            n = self.g.new("catch", None, {"types": self.handler_types(h), "name": h.name}, h, self.env.func, self.env.frame)
            if h.name:
                n.dst = self.lookup_store(h.name)
                n.a["src"] = ("exc", n.id)
            hs.append((self.handler_types(h), n.id))
        self.stack.append({"k": "try", "handlers": hs, "node": s})
        self.body(s.body)
        self.stack.pop()
        self.body(s.orelse)
        after = self.pend
        for h, (types, nid) in zip(s.handlers, hs):
            self.pend = [(nid, "n")]
            save = self.env.handler
            cats = []
            for t in types:
                last = t.rsplit(".", 1)[-1] if t else None
                if last in (None, "BaseException"):
                    cats += ["e", "c"]
                elif last == "Exception":
                    cats.append("e")
                elif last == "CancelledError":
                    cats.append("c")
                else:
                    cats.append(("x", last))
            self.env.handler = cats
            self.body(h.body)
            self.env.handler = save
            after = after + self.pend
        self.pend = after

    # with ------------------------------------------------------------------
    def s_With(self, s, is_async=False):
        self.with_items(s, list(s.items), is_async)

    def s_AsyncWith(self, s):
        self.s_With(s, True)

    def manager(self, ce, depth=0):
        """the call of a generator-based context manager behind a helper or a local name"""
        if depth > 3:
            return ce
        if isinstance(ce, ast.Name) and ce.id not in self.env.func.all_params():
            asg = [n for n in _own(self.env.func.node) if isinstance(n, ast.Name) and n.id == ce.id and isinstance(n.ctx, ast.Store)]
            src = [n.value for n in _own(self.env.func.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == ce.id]
            if len(asg) == len(src) == 1 and isinstance(src[0], ast.Call):
                new = self.manager(src[0], depth + 1)
                if self.is_manager(new):
                    return new
            return ce
        if not isinstance(ce, ast.Call) or self.is_manager(ce):
            return ce
        callee = self.static_callee(ce)
        if not callee or callee[0] != "repo":
            return ce
        f = callee[1]
        body = [n for n in f.node.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
        if f.cls or f.is_async or f.module is not self.env.func.module or len(body) != 1 or not isinstance(body[0], ast.Return) or not isinstance(body[0].value, ast.Call):
            return ce
        sub = dict(zip(f.params(), ce.args)) | {k.arg: k.value for k in ce.keywords if k.arg}
        used = {n.id for n in ast.walk(body[0].value) if isinstance(n, ast.Name)}
        if any(isinstance(a, ast.Starred) for a in ce.args) or not (used & set(f.all_params())) <= set(sub):
            return ce

        class Put(ast.NodeTransformer):
            def visit_Name(self, n):
                return sub.get(n.id, n)

        import copy

        new = self.manager(Put().visit(copy.deepcopy(body[0].value)), depth + 1)
        return new if self.is_manager(new) else ce

    def is_manager(self, ce):
        callee = self.static_callee(ce) if isinstance(ce, ast.Call) else None
        if not callee or callee[0] != "repo":
            return False
        decos = [(d or "").rsplit(".", 1)[-1] for d in callee[1].decorators]
        return "contextmanager" in decos or "asynccontextmanager" in decos

    def with_items(self, s, items, is_async, final=None):
        if not items:
            self.body(s.body)
            return
        it, rest = items[0], items[1:]
        ce = self.manager(it.context_expr)
        # generator-based context manager defined in the repository
        if isinstance(ce, ast.Call):
            callee = self.static_callee(ce)
            if callee and callee[0] == "repo":
                f = callee[1]
                decos = [(d or "").rsplit(".", 1)[-1] for d in f.decorators]
                if ("contextmanager" in decos or "asynccontextmanager" in decos) and self.can_inline(f):
                    fo = self.expr(ce.func)
                    args, kwargs = self.call_args(ce)

                    def hook(value, yenv):
                        save = self.env
                        self.env = caller_env
                        if it.optional_vars is not None:
                            self.store(it.optional_vars, value, s)
                        self.with_items(s, rest, is_async)
                        self.env = save

                    caller_env = self.env
                    self.inline_call(f, fo, args, kwargs, ce, yield_hook=hook, closure=self.closure_for(fo))
                    return
        v = self.expr(ce)
        e = self.tmp()
        i = self.emit("with_enter", e, {"cm": v, "async": is_async}, it.context_expr)
        sup = None
        if isinstance(ce, ast.Call):
            d = self.static_callee(ce)
            if d and d[0] == "ext" and d[1] == "contextlib.suppress":
                sup = [dotted(x) or "?" for x in ce.args]
        if sup is None:
            self.raise_from(i, ["e", "c"] if is_async else ["e"])
        if it.optional_vars is not None:
            self.store(it.optional_vars, e, s)
            ty = self.type_of(v)
        after: list = []

        def do_exit(cat):
            j = self.emit("with_exit", None, {"cm": v, "enter": e, "cat": cat, "async": is_async, "sup": sup}, ce)
            if sup is None and is_async:
                self.raise_from(j, ["e", "c"])
            if cat is not None and sup is not None:
                res = "no"
                for t in sup:
                    r = exc_matches(cat, t)
                    if r == "yes":
                        return "yes"
                    if r == "maybe":
                        res = "maybe"
                return None if res == "no" else res
            return None

        fr = {"k": "with", "exit": do_exit, "landing": {}, "node": ce, "env": self.env, "after": after, "suppress": sup or []}
        self.stack.append(fr)
        self.with_items(s, rest, is_async)
        self.stack.pop()
        do_exit(None)
        self.pend += after

    def s_FunctionDef(self, s):
        f = self.env.func.nested.get(s.name) if self.env.func else None
        if f is None or f.node is not s:
            f = next((x for x in self.p.funcs.values() if x.node is s), None)
        var = self.lookup_store(s.name)
        v = ("f", f, self.env.frame)
        for d in s.decorator_list:
            self.expr(d)
        for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
            self.expr(d)
        if var in self.fnvars and self.fnvars[var] != v:
            self.fnvars[var] = ("multi",)
        else:
            self.fnvars[var] = v
        self.fnenv = getattr(self, "fnenv", {})
        self.fnenv[id(s), self.env.frame] = self.env
        if not hasattr(self, "frame_env"):
            self.frame_env = {}
        self.frame_env[self.env.frame] = self.env
        if s.decorator_list:
            self.fnvars[var] = ("multi",)
            t = self.tmp()
            self.emit("decorated", t, {"fn": v}, s)
            v = t
        self.emit("assign", var, {"src": v}, s)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        self.emit("nop", None, {"why": "class"}, s)

    def s_Match(self, s):
        v = self.expr(s.subject)
        outs = []
        for c in s.cases:
            t = self.tmp()
            self.emit("op", t, {"fn": "match", "args": [v], "pattern": ast.dump(c.pattern)}, c.pattern)
            b = self.emit("branch", None, {"cond": t}, c.pattern)
            if b is None:
                break
            wild = isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None
            self.pend = [(b.id, "t")]
            f = [] if wild else [(b.id, "f")]
            for n in ast.walk(c.pattern):
                if isinstance(n, ast.MatchAs) and n.name:
                    self.emit("assign", self.lookup_store(n.name), {"src": v}, c.pattern)
            if c.guard is not None:
                gt, gf = self.cond(c.guard)
                self.pend = gt
                f = f + gf
            self.body(c.body)
            outs += self.pend
            self.pend = f
        self.pend = outs + self.pend

    # ---------------------------------------------------------------- conditions
    def cond(self, e):
        """Lower a condition; returns (true_pending, false_pending)."""
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                fs = []
                for v in e.values[:-1]:
                    t, f = self.cond(v)
                    fs += f
                    self.pend = t
                t, f = self.cond(e.values[-1])
                return t, fs + f
            ts = []
            for v in e.values[:-1]:
                t, f = self.cond(v)
                ts += t
                self.pend = f
            t, f = self.cond(e.values[-1])
            return ts + t, f
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand)
            return f, t
        if isinstance(e, ast.Constant):
            p = self.pend
            return (p, []) if e.value else ([], p)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1 and not e.keywords:
            return self.cond(e.args[0])
        v = self.expr(e)
        b = self.emit("branch", None, {"cond": v}, e)
        if b is None:
            return [], []
        return [(b.id, "t")], [(b.id, "f")]

    # ---------------------------------------------------------------- expressions
    def expr(self, e):
        if e is None:
            return ("k", None)
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            t = self.tmp()
            self.emit("op", t, {"fn": type(e).__name__, "args": []}, e)
            return t
        return m(e)

    def e_Constant(self, e):
        return ("k", e.value)

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Attribute(self, e):
        d = dotted(e)
        if d:
            r = self.lookup(d.split(".")[0])
            if r[0] == "g":
                full = self.p.resolve_dotted(r[1] + d[len(d.split(".")[0]):])
                if full in self.p.funcs:
                    return ("f", self.p.funcs[full], None)
                head = full.rpartition(".")[0]
                if head in self.p.modules or head not in self.p.classes and r[1].split(".")[0] != "reactpy" and d.count(".") == 1 and self.is_module(r[1]):
                    return ("g", full)
        o = self.expr(e.value)
        t = self.tmp()
        i = self.emit("getattr", t, {"obj": o, "attr": e.attr}, e)
        if "AttributeError" in self.enclosing_handler_names():
            self.raise_from(i, [("x", "AttributeError")])
        return t

    def is_module(self, qual):
        if qual in self.p.modules:
            return True
        # an imported external module: `import asyncio` / `import os.path`
        last = qual.rsplit(".", 1)[-1]
        return last[:1].islower() and (qual in _EXT_MODULES or qual in sys.stdlib_module_names)

    def e_Subscript(self, e):
        o = self.expr(e.value)
        k = self.expr(e.slice)
        t = self.tmp()
        i = self.emit("getitem", t, {"obj": o, "key": k}, e)
        hn = self.enclosing_handler_names()
        if self.raise_items or hn & {"KeyError", "LookupError", "IndexError"}:
            self.raise_from(i, [("x", n) for n in ("KeyError", "IndexError") if n in hn] or [("x", "KeyError")])
        return t

    def e_Slice(self, e):
        parts = [self.expr(x) for x in (e.lower, e.upper, e.step)]
        t = self.tmp()
        self.emit("op", t, {"fn": "slice", "args": parts}, e)
        return t

    def e_BinOp(self, e):
        a, b = self.expr(e.left), self.expr(e.right)
        t = self.tmp()
        self.emit("op", t, {"fn": type(e.op).__name__, "args": [a, b]}, e)
        return t

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return self.cond_value(e)
        a = self.expr(e.operand)
        t = self.tmp()
        self.emit("op", t, {"fn": type(e.op).__name__, "args": [a]}, e)
        return t

    def cond_value(self, e):
        t, f = self.cond(e)
        self.ncv = getattr(self, "ncv", 0) + 1
        var = ("v", self.env.frame, f"$b{self.ncv}")
        self.pend = t
        self.emit("assign", var, {"src": ("k", True)}, e)
        a = self.pend
        self.pend = f
        self.emit("assign", var, {"src": ("k", False)}, e)
        self.pend = a + self.pend
        return var

    def e_BoolOp(self, e):
        """`a or b` as a value: branch on the truthiness of each operand."""
        self.ncv = getattr(self, "ncv", 0) + 1
        var = ("v", self.env.frame, f"$b{self.ncv}")
        outs = []
        for n, v in enumerate(e.values):
            o = self.expr(v)
            self.emit("assign", var, {"src": o}, v)
            if n == len(e.values) - 1:
                break
            b = self.emit("branch", None, {"cond": o}, v)
            if b is None:
                return ("s",)
            if isinstance(e.op, ast.And):
                outs.append((b.id, "f"))
                self.pend = [(b.id, "t")]
            else:
                outs.append((b.id, "t"))
                self.pend = [(b.id, "f")]
        self.pend += outs
        return var

    def e_IfExp(self, e):
        self.ncv = getattr(self, "ncv", 0) + 1
        var = ("v", self.env.frame, f"$b{self.ncv}")
        t, f = self.cond(e.test)
        self.pend = t
        v = self.expr(e.body)
        self.emit("assign", var, {"src": v}, e)
        a = self.pend
        self.pend = f
        v = self.expr(e.orelse)
        self.emit("assign", var, {"src": v}, e)
        self.pend = a + self.pend
        return var

    def e_Compare(self, e):
        left = self.expr(e.left)
        if len(e.ops) == 1:
            r = self.expr(e.comparators[0])
            t = self.tmp()
            self.emit("op", t, {"fn": type(e.ops[0]).__name__, "args": [left, r]}, e)
            return t
        ts = []
        for op, c in zip(e.ops, e.comparators):
            r = self.expr(c)
            t = self.tmp()
            self.emit("op", t, {"fn": type(op).__name__, "args": [left, r]}, e)
            ts.append(t)
            left = r
        t = self.tmp()
        self.emit("op", t, {"fn": "allof", "args": ts}, e)
        return t

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.store(e.target, v, e)
        return v

    def e_Await(self, e):
        return self.await_expr(e)

    def await_expr(self, e):
        v = e.value
        if isinstance(v, ast.Call):
            callee = self.static_callee(v)
            if callee and callee[0] == "repo" and callee[1].is_async and self.can_inline(callee[1]):
                fo = self.expr(v.func)
                args, kwargs = self.call_args(v)
                return self.inline_call(callee[1], fo, args, kwargs, v, closure=self.closure_for(fo))
        o = self.expr(v)
        t = self.tmp()
        i = self.emit("await", t, {"src": o}, e)
        cats = ["c"]
        if not self.await_noraise(o):
            cats.append("e")
        self.raise_from(i, cats)
        return t

    def await_noraise(self, o):
        d = self.g.deftmp.get(o[1]) if o[0] == "t" else None
        if d is not None and d.op == "call":
            c = d.a["callee"]
            if c[0] == "ext" and c[1] in NORAISE_AWAIT_EXT:
                return True
            if c[0] == "method" and c[2] in NORAISE_AWAIT_METHODS:
                return True
        return False

    def e_Yield(self, e):
        v = self.expr(e.value) if e.value else ("k", None)
        env = self.env
        if env.yield_hook is not None:
            hook = env.yield_hook
            hook(v, env)
            return ("k", None)
        t = self.tmp()
        i = self.emit("yield", t, {"val": v}, e)
        self.raise_from(i, ["e", "c"])
        return t

    def e_YieldFrom(self, e):
        v = self.expr(e.value)
        t = self.tmp()
        i = self.emit("yield", t, {"val": v, "from": True}, e)
        self.raise_from(i, ["e", "c"])
        return t

    def e_Lambda(self, e):
        if not hasattr(self, "frame_env"):
            self.frame_env = {}
        self.frame_env[self.env.frame] = self.env
        return ("l", e, self.env.frame, self.env.func)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.formatted(v))
            else:
                parts.append(("k", v.value))
        t = self.tmp()
        self.emit("fstr", t, {"parts": parts}, e)
        return t

    def formatted(self, v):
        x = self.expr(v.value)
        conv = {114: "repr", 97: "ascii"}.get(v.conversion)  # str changes nothing here
        if conv:
            t = self.tmp()
            self.emit("op", t, {"fn": conv, "args": [x]}, v)
            x = t
        if v.format_spec is not None:
            spec = self.expr(v.format_spec)
            t = self.tmp()
            self.emit("op", t, {"fn": "format", "args": [x, spec]}, v)
            x = t
        return x

    e_FormattedValue = formatted

    def e_Starred(self, e):
        v = self.expr(e.value)
        t = self.tmp()
        self.emit("star", t, {"src": v}, e)
        return t

    def seq(self, e, kind):
        items = [self.expr(x) for x in e.elts]
        t = self.tmp()
        self.emit("build", t, {"kind": kind, "items": items}, e)
        return t

    def e_List(self, e):
        return self.seq(e, "list")

    def e_Tuple(self, e):
        return self.seq(e, "tuple")

    def e_Set(self, e):
        return self.seq(e, "set")

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            ko = self.expr(k) if k is not None else None
            items.append((ko, self.expr(v)))
        t = self.tmp()
        self.emit("build", t, {"kind": "dict", "items": items}, e)
        return t

    def comp(self, e, kind):
        t = self.tmp()
        self.emit("build", t, {"kind": kind, "items": [], "comp": True}, e)
        save = dict(self.env.renames)

        def rec(gens):
            if not gens:
                if kind == "dict":
                    k, v = self.expr(e.key), self.expr(e.value)
                    self.emit("setitem", None, {"obj": t, "key": k, "val": v, "comp": True}, e)
                else:
                    v = self.expr(e.elt)
                    self.emit("comp_add", None, {"obj": t, "val": v}, e)
                return
            g = gens[0]
            it = self.expr(g.iter)
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    self.ncv = getattr(self, "ncv", 0) + 1
                    self.env.renames[n.id] = ("v", self.env.frame, f"{n.id}%{self.ncv}")

            def body():
                skip = []
                for c in g.ifs:
                    tt, ff = self.cond(c)
                    skip += ff
                    self.pend = tt
                rec(gens[1:])
                self.pend += skip

            brk = self.loop_over(g.target, it, body, e, g.is_async)
            self.pend += brk

        rec(e.generators)
        self.env.renames = save
        return t

    def e_ListComp(self, e):
        return self.comp(e, "list")

    def e_SetComp(self, e):
        return self.comp(e, "set")

    def e_GeneratorExp(self, e):
        return self.comp(e, "gen")

    def e_DictComp(self, e):
        return self.comp(e, "dict")

    # ---------------------------------------------------------------- calls
    def static_callee(self, call: ast.Call):
        """Resolve without emitting code; None if the expression has effects."""
        fn = call.func
        if isinstance(fn, ast.Name):
            o = self.lookup(fn.id)
            return self.callee_of(o)
        if isinstance(fn, ast.Attribute):
            d = dotted(fn)
            if d is not None:
                base = d.split(".")[0]
                r = self.lookup(base)
                if r[0] == "g":
                    full = self.p.resolve_dotted(r[1] + d[len(base):])
                    if full in self.p.funcs:
                        return ("repo", self.p.funcs[full])
                    head, _, meth = full.rpartition(".")
                    c = self.p.class_of_global(head)
                    if c:
                        m = self.p.method(c, meth)
                        if m:
                            return ("repo", m)
                    if full in self.p.classes:
                        return ("class", self.p.classes[full])
                    if not r[1].startswith("reactpy") and self.is_module(r[1]):
                        return ("ext", full)
                if r in self.vartype and d.count(".") == 1:
                    m = self.p.method(self.vartype[r], fn.attr)
                    if m:
                        return ("repo", m)
                if r in self.vartype and d.count(".") == 2:
                    ty = self.p.attr_type(self.vartype[r], d.split(".")[1])
                    m = self.p.method(ty, fn.attr) if ty else None
                    if m:
                        return ("repo", m)
            # super().m()
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                env = self.env
                cls = env.cls
                if cls:
                    for c in self.p.mro(cls)[1:]:
                        if fn.attr in c.methods:
                            return ("repo", c.methods[fn.attr])
                return ("super", fn.attr)
            ms = self.p.methods_named(fn.attr)
            if len(ms) == 1 and fn.attr not in COMMON_METHODS:
                return ("repo", ms[0])
        return None

    def type_of(self, o):
        if o is None:
            return None
        if o in self.vartype:
            return self.vartype[o]
        if o[0] == "g":
            return self.p.class_of_global(o[1])
        if o[0] == "t":
            d = self.g.deftmp.get(o[1])
            if d is not None and d.op == "getattr":
                base = self.type_of(d.a["obj"])
                return self.p.attr_type(base, d.a["attr"]) if base else None
            if d is not None and d.op == "call":
                if d.a["callee"][0] == "class":
                    return d.a["callee"][1]
                if d.a["callee"][0] == "repo":
                    f = d.a["callee"][1]
                    if getattr(f.node, "returns", None) is not None and not f.is_async:
                        return self.ann_class(f.module, f.node.returns)
            if d is not None and d.op == "await":
                o2 = d.a["src"]
                d2 = self.g.deftmp.get(o2[1]) if o2[0] == "t" else None
                if d2 is not None and d2.op == "call" and d2.a["callee"][0] == "repo":
                    f = d2.a["callee"][1]
                    if getattr(f.node, "returns", None) is not None:
                        return self.ann_class(f.module, f.node.returns)
        return None

    def callee_of(self, o):
        if o[0] == "f":
            return ("repo", o[1])
        if o[0] == "l":
            return ("lambda", o)
        if o[0] == "v":
            fv = self.fnvars.get(o)
            if fv and fv[0] == "f":
                return ("repo", fv[1])
            if fv and fv[0] == "l":
                return ("lambda", fv)
            return ("value", o)
        if o[0] == "g":
            if o[1] in self.p.classes:
                return ("class", self.p.classes[o[1]])
            if o[1].split(".")[0] == "reactpy":
                return ("value", o)
            return ("ext", o[1])
        if o[0] == "b":
            return ("builtin", o[1])
        if o[0] == "t":
            d = self.g.deftmp.get(o[1])
            if d is not None and d.op == "getattr":
                base, attr = d.a["obj"], d.a["attr"]
                ty = self.type_of(base)
                if ty:
                    m = self.p.method(ty, attr)
                    if m:
                        return ("repo", m)
                if base[0] == "g" and base[1] in self.p.classes:
                    m = self.p.method(self.p.classes[base[1]], attr)
                    if m:
                        return ("repo", m)
                if base[0] == "g" and base[1].split(".")[0] != "reactpy":
                    return ("ext", f"{base[1]}.{attr}") if self.is_module(base[1]) else ("method", base, attr)
                if base[0] == "t":
                    bd = self.g.deftmp.get(base[1])
                    if bd is not None and bd.op == "call" and bd.a["callee"] == ("builtin", "super"):
                        cls = self.env.cls
                        if cls:
                            for c in self.p.mro(cls)[1:]:
                                if attr in c.methods:
                                    return ("repo", c.methods[attr])
                        return ("method", base, attr)
                ms = self.p.methods_named(attr)
                if len(ms) == 1 and attr not in COMMON_METHODS:
                    return ("repo", ms[0])
                return ("method", base, attr)
        return ("value", o)

    def can_inline(self, f: Func):
        return f not in self.callstack and len(self.callstack) <= self.max_depth and bool(self.inline(f))

    def closure_for(self, fo):
        if fo[0] == "f" and fo[2] is not None:
            return self.frame_env.get(fo[2])
        if fo[0] == "v":
            fv = self.fnvars.get(fo)
            if fv and fv[0] == "f" and fv[2] is not None:
                return self.frame_env.get(fv[2])
        return None

    def call_args(self, e: ast.Call):
        args = [self.expr(a) for a in e.args]
        kwargs = [(k.arg, self.expr(k.value)) for k in e.keywords]
        return args, kwargs

    def e_Call(self, e):
        fo = self.expr(e.func)
        callee = self.callee_of(fo)
        args, kwargs = self.call_args(e)
        if callee[0] == "repo":
            f = callee[1]
            if not f.is_async and not _is_generator(f.node) and self.can_inline(f):
                return self.inline_call(f, fo, args, kwargs, e, closure=self.closure_for(fo))
        if callee[0] == "lambda" and len(self.callstack) <= self.max_depth and callee[1][2] in getattr(self, "frame_env", {}):
            lam = callee[1]
            if not any(getattr(x, "node", None) is lam[1] for x in self.callstack):
                return self.inline_lambda(lam, args, kwargs, e)
        t = self.tmp()
        i = self.emit("call", t, {"callee": callee, "fn": fo, "args": args, "kw": kwargs}, e)
        self.raise_from(i, self.call_cats(callee, i))
        return t

    def call_cats(self, callee, i):
        if i is None:
            return []
        k = callee[0]
        if k == "builtin":
            if callee[1] == "bool" and any(fr.get("suppress") or fr["k"] == "try" for fr in self.stack):
                return ["e"]  # of what a comparison gives
            if callee[1] in NORAISE_BUILTINS:
                return []
            if callee[1] == "getattr" and len(i.a["args"]) == 3:
                return []
        if k == "ext" and callee[1] in NORAISE_EXT:
            return []
        if k == "method":
            if callee[2] == "replace" and len(i.a["args"]) < 2:
                return ["e"]  # of a path
            if callee[2] in NORAISE_METHODS:
                return []
            if callee[2] == "pop" and len(i.a["args"]) == 2:
                return []
            if callee[2] in ("result", "exception") and not i.a["args"]:
                return ["e", "c"]  # of a task that was cancelled
        if k == "class" and _trivial_class(self.p, callee[1]):
            return []
        if k == "repo" and callee[1].is_async:
            return []  # creating a coroutine object runs nothing
        if k == "repo" and _never_raises(self.p, callee[1]):
            return []
        return ["e"]

    def inline_lambda(self, lam, args, kwargs, e):
        _, node, frame, func = lam
        denv = self.frame_env[frame]
        lf = Func(f"{func.qual}.<lambda>", func.module, node, func.cls, func)
        env = Env(lf, self._newframe(lf), {}, denv, set(lf.all_params()), ["e"], func.cls)
        for nm, a in zip(lf.params(), args):
            self.emit("assign", ("v", env.frame, nm), {"src": a}, e)
        save = self.env
        self.env = env
        self.callstack.append(lf)
        v = self.expr(node.body)
        self.callstack.pop()
        self.env = save
        return v

    def _newframe(self, f):
        self.nframe += 1
        self.g.frames[self.nframe] = f
        return self.nframe

    def inline_call(self, f: Func, fo, args, kwargs, e, yield_hook=None, closure=None):
        self.g.inlined.append((f.qual, self.env.func.qual))
        env = self.make_env(f, closure)
        env.yield_hook = yield_hook
        node = f.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        decos = [(d or "").rsplit(".", 1)[-1] for d in f.decorators]
        bound = list(args)
        if f.cls is not None and f.parent is None and "staticmethod" not in decos:
            recv = None
            if fo[0] == "t":
                d = self.g.deftmp.get(fo[1])
                if d is not None and d.op == "getattr":
                    recv = d.a["obj"]
                    if recv[0] == "g" and recv[1] in self.p.classes and "classmethod" not in decos:
                        recv = None  # Class.method(self, ...)
            elif fo[0] == "f" and fo[2] is None and f.cls is not None and e is not None:
                recv = None
                # `GLOBAL.method(...)` collapsed to the function: receiver is the global
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
                    r = self.expr(e.func.value)
                    recv = r if not (r[0] == "g" and r[1] in self.p.classes) else None
            if recv is not None:
                bound = [recv] + bound
        given = {}
        rest = []
        for n, x in enumerate(bound):
            isstar = x[0] == "t" and self.g.deftmp.get(x[1]) is not None and self.g.deftmp[x[1]].op == "star"
            if n < len(names) and not isstar:
                given[names[n]] = x
            else:
                rest.append(x)
        extra = []
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, x in kwargs:
            if k is None:
                extra.append((None, x))
            elif k in names or k in kwonly:
                given[k] = x
            else:
                extra.append((("k", k), x))
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({k: d for k, d in zip(kwonly, a.kw_defaults) if d is not None})
        save_env = self.env
        star_unknown = any(x[0] == "t" and self.g.deftmp.get(x[1]) is not None and self.g.deftmp[x[1]].op == "star" for x in rest)
        vals = []
        for nm in names + kwonly:
            if nm in given:
                vals.append((nm, given[nm]))
            elif star_unknown and nm in names:
                vals.append((nm, rest[0]))
            elif nm in defaults:
                de = Env(f, env.frame, {}, closure, set(), ["e"], f.cls)
                self.env = de
                v = self.expr(defaults[nm])
                self.env = save_env
                vals.append((nm, v))
            else:
                vals.append((nm, ("p", f.qual, nm)))
        if a.vararg:
            t = self.tmp()
            self.emit("build", t, {"kind": "tuple", "items": rest}, e)
            vals.append((a.vararg.arg, t))
        if a.kwarg:
            t = self.tmp()
            self.emit("build", t, {"kind": "dict", "items": extra}, e)
            vals.append((a.kwarg.arg, t))
        self.env = env
        for nm, v in vals:
            var = ("v", env.frame, nm)
            self.note_param_type(f, nm, env)
            ty = self.type_of(v)
            if ty:
                self.vartype[var] = ty
            if v[0] in ("f", "l"):
                self.fnvars[var] = v
            elif v in self.fnvars:
                self.fnvars[var] = self.fnvars[v]
            self.emit("assign", var, {"src": v, "param": True}, e)
        retvar = ("v", env.frame, "$ret")
        fr = {"k": "func", "ret": [], "retvar": retvar}
        self.stack.append(fr)
        self.callstack.append(f)
        self.emit("enter", None, {"func": f, "frame": env.frame, "args": vals}, e)
        self.body(node.body)
        self.callstack.pop()
        self.stack.pop()
        if self.pend:
            self.emit("assign", retvar, {"src": ("k", None)}, e)
        self.pend += fr["ret"]
        self.env = save_env
        self.emit("leave", None, {"func": f, "frame": env.frame, "ret": retvar}, e)
        ty = self.ann_class(f.module, node.returns) if getattr(node, "returns", None) is not None else None
        if ty:
            self.vartype[retvar] = ty
        return retvar


_EXT_MODULES = {
    "asyncio", "os", "re", "sys", "json", "time", "shutil", "inspect", "logging", "urllib", "urllib.parse",
    "urllib.request", "contextlib", "functools", "hashlib", "traceback", "orjson", "textwrap", "subprocess",
    "zipfile", "tempfile", "pathlib", "types", "typing", "anyio", "lxml", "lxml.etree", "lxml.html", "etree",
    "filecmp", "requests", "dis", "ast", "builtins", "importlib", "jsonpointer", "base64", "csv", "threading",
    "email", "configparser", "tomllib", "io", "secrets", "uuid", "warnings", "weakref", "html", "itertools",
    "collections", "lxml.html.fragments_fromstring", "urllib.error", "shlex", "importlib.util", "importlib.metadata", "os.path", "concurrent.futures",
}


def _own(fn):
    """All nodes of a function excluding bodies of nested functions/classes/lambdas/comprehension targets."""
    if isinstance(fn, ast.Lambda):
        todo = [fn.body]
    else:
        todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # comprehension targets are scoped; walrus inside leaks (rare)
            for s in ast.walk(n):
                if isinstance(s, ast.NamedExpr):
                    todo.append(s)
            continue
        todo.extend(ast.iter_child_nodes(n))


_LOC_CACHE: dict = {}


def _locals_of(f: Func):
    if f.qual in _LOC_CACHE and _LOC_CACHE[f.qual][0] is f:
        return _LOC_CACHE[f.qual][1]
    loc = set(f.all_params())
    for n in _own(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            loc.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
    _LOC_CACHE[f.qual] = (f, loc)
    return loc


def _is_generator(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own(fn))


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load(), lineno=t.lineno, col_offset=t.col_offset)
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load(), lineno=t.lineno, col_offset=t.col_offset)
    return ast.Subscript(t.value, t.slice, ast.Load(), lineno=t.lineno, col_offset=t.col_offset)


def _trivial_class(p: Project, c: Cls):
    init = p.method(c, "__init__")
    if init is None:
        return True
    for n in _own(init.node):
        if isinstance(n, (ast.Raise, ast.Call, ast.Subscript, ast.Assert)):
            if isinstance(n, ast.Call) and dotted(n.func) in ("weakref", "super", "super.__init__"):
                continue
            return False
    return True


_NR_CACHE: dict = {}


def _never_raises(p: Project, f: Func, depth=0):
    """Conservative: body has no raise, no subscript, and only calls known not to raise."""
    if f.qual in _NR_CACHE and _NR_CACHE[f.qual][0] is f:
        return _NR_CACHE[f.qual][1]
    _NR_CACHE[f.qual] = (f, False)
    ok = True
    for n in _own(f.node):
        if isinstance(n, (ast.Raise, ast.Assert, ast.Yield, ast.YieldFrom, ast.Await)):
            ok = False
        elif isinstance(n, ast.Call):
            d = dotted(n.func)
            if isinstance(n.func, ast.Attribute) and n.func.attr in NORAISE_METHODS:
                continue
            r = p.resolve_in(f.module, d) if d else None
            if d in NORAISE_BUILTINS or r in NORAISE_EXT:
                continue
            if r in p.funcs and depth < 4 and _never_raises(p, p.funcs[r], depth + 1):
                continue
            if r in p.classes and _trivial_class(p, p.classes[r]):
                continue
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and f.cls:
                m = p.method(f.cls, n.func.attr)
                if m and depth < 4 and (m.is_async or _never_raises(p, m, depth + 1)):
                    continue
            ok = False
        if not ok:
            break
    _NR_CACHE[f.qual] = (f, ok)
    return ok


def build(project: Project, entry: Func, inline=None, **kw) -> CFG:
    return Builder(project, entry, inline, **kw).build()
