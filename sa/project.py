"""Source model: every module under /repo/src/reactpy, parsed and name-resolved.

Nothing is imported or executed; the whole model comes from `ast`.
"""
from __future__ import annotations

import ast
import hashlib
import os
from dataclasses import dataclass, field
from pathlib import Path

REPO = Path(os.environ.get("SA_REPO", "/repo"))
PKG_ROOT = "src"
PKG = "reactpy"


class AnalysisBroken(Exception):
    """An anchor of a rule cannot be found: the check gives no verdict."""


@dataclass(eq=False)
class Func:
    qual: str
    module: "Module"
    node: ast.AST
    cls: "Cls | None" = None
    parent: "Func | None" = None
    nested: dict[str, "Func"] = field(default_factory=dict)

    @property
    def name(self):
        return self.qual.rsplit(".", 1)[-1]

    @property
    def is_async(self):
        return isinstance(self.node, ast.AsyncFunctionDef)

    @property
    def decorators(self):
        return [dotted(d.func if isinstance(d, ast.Call) else d) for d in getattr(self.node, "decorator_list", [])]

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def kwonly(self):
        return [x.arg for x in self.node.args.kwonlyargs]

    def all_params(self):
        a = self.node.args
        out = self.params() + self.kwonly()
        if a.vararg:
            out.append(a.vararg.arg)
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    def loc(self, node=None):
        return f"{self.module.rel}:{getattr(node or self.node, 'lineno', 0)}"

    def __repr__(self):
        return f"<Func {self.qual}>"


@dataclass(eq=False, repr=False)
class Cls:
    qual: str
    module: "Module"
    node: ast.ClassDef
    methods: dict[str, Func] = field(default_factory=dict)
    bases: list[str] = field(default_factory=list)
    fields: dict[str, ast.AST] = field(default_factory=dict)  # class-level annotations / assigns

    @property
    def name(self):
        return self.qual.rsplit(".", 1)[-1]

    def __repr__(self):
        return f"<Cls {self.qual}>"


@dataclass(eq=False, repr=False)
class Module:
    name: str
    path: Path
    rel: str
    tree: ast.Module
    source: str
    imports: dict[str, str] = field(default_factory=dict)  # local name -> dotted target
    functions: dict[str, Func] = field(default_factory=dict)
    classes: dict[str, Cls] = field(default_factory=dict)
    assigns: dict[str, list[ast.AST]] = field(default_factory=dict)  # module-level name -> values


def dotted(node) -> str | None:
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


class Project:
    def __init__(self, root: Path | None = None, overlay: dict | None = None):
        self.root = Path(root or REPO)
        self.overlay = overlay or {}
        self.modules: dict[str, Module] = {}
        self.funcs: dict[str, Func] = {}
        self.classes: dict[str, Cls] = {}
        self._load()
        self._methods_by_name: dict[str, list[Func]] = {}
        for c in self.classes.values():
            for m in c.methods.values():
                self._methods_by_name.setdefault(m.name, []).append(m)

    # ------------------------------------------------------------------ loading
    def read(self, rel: str) -> str:
        if rel in self.overlay:
            return self.overlay[rel]
        p = self.root / rel
        if not p.is_file():
            raise AnalysisBroken(f"source file {rel} not found")
        return p.read_text(encoding="utf-8")

    def _load(self):
        base = self.root / PKG_ROOT / PKG
        if not base.is_dir():
            raise AnalysisBroken(f"package source {base} not found")
        for path in sorted(base.rglob("*.py")):
            if "node_modules" in path.parts or "static" in path.relative_to(base).parts[:1]:
                continue
            rel = path.relative_to(self.root)
            parts = list(path.relative_to(self.root / PKG_ROOT).with_suffix("").parts)
            if parts[-1] == "__init__":
                parts.pop()
            name = ".".join(parts)
            src = self.read(str(rel))
            tree = ast.parse(src, str(path))
            mod = Module(name, path, str(rel), tree, src)
            self.modules[name] = mod
            self._index_module(mod, is_pkg=path.name == "__init__.py")

    def _index_module(self, mod: Module, is_pkg: bool):
        def walk_imports(node):
            for n in ast.walk(node):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname:
                            mod.imports[a.asname] = a.name
                        else:
                            mod.imports.setdefault(a.name.split(".")[0], a.name.split(".")[0])
                elif isinstance(n, ast.ImportFrom):
                    base = n.module or ""
                    if n.level:
                        pk = mod.name.split(".")
                        if not is_pkg:
                            pk = pk[:-1]
                        pk = pk[: len(pk) - (n.level - 1)]
                        base = ".".join(pk + ([n.module] if n.module else []))
                    for a in n.names:
                        mod.imports[a.asname or a.name] = f"{base}.{a.name}"

        walk_imports(mod.tree)

        def is_overload(fn):
            return any(dotted(d) in ("overload", "typing.overload") for d in fn.decorator_list)

        def add_func(node, qual, cls=None, parent=None):
            f = Func(qual, mod, node, cls, parent)
            self.funcs[qual] = f
            for sub in _direct_defs(node):
                if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    key = sub.name
                    q = f"{qual}.<locals>.{key}"
                    n = 2
                    while q in self.funcs:
                        q = f"{qual}.<locals>.{key}#{n}"
                        n += 1
                    f.nested.setdefault(key, None)
                    nf = add_func(sub, q, cls, f)
                    f.nested[key] = nf
                elif isinstance(sub, ast.ClassDef):
                    add_class(sub, f"{qual}.<locals>.{sub.name}")
            return f

        def add_class(node, qual):
            c = Cls(qual, mod, node)
            c.bases = [dotted(b.value if isinstance(b, ast.Subscript) else b) or "" for b in node.bases]
            self.classes[qual] = c
            for sub in node.body:
                if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if is_overload(sub):
                        continue
                    deco = [dotted(d) or "" for d in sub.decorator_list]
                    nm = sub.name
                    if any(d.endswith(".setter") for d in deco):
                        nm += "@setter"
                    elif any(d.endswith(".deleter") for d in deco):
                        nm += "@deleter"
                    c.methods[nm] = add_func(sub, f"{qual}.{nm}", c)
                elif isinstance(sub, ast.AnnAssign) and isinstance(sub.target, ast.Name):
                    c.fields[sub.target.id] = sub
                elif isinstance(sub, ast.Assign):
                    for t in sub.targets:
                        if isinstance(t, ast.Name):
                            c.fields[t.id] = sub
                elif isinstance(sub, ast.ClassDef):
                    add_class(sub, f"{qual}.{sub.name}")
            return c

        def top(body):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if is_overload(n):
                        continue
                    mod.functions[n.name] = add_func(n, f"{mod.name}.{n.name}")
                elif isinstance(n, ast.ClassDef):
                    mod.classes[n.name] = add_class(n, f"{mod.name}.{n.name}")
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        for nm in ast.walk(t):
                            if isinstance(nm, ast.Name):
                                mod.assigns.setdefault(nm.id, []).append(n.value)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value:
                    mod.assigns.setdefault(n.target.id, []).append(n.value)
                elif isinstance(n, (ast.If, ast.Try)):
                    top(n.body)
                    top(n.orelse)
                    for h in getattr(n, "handlers", []):
                        top(h.body)

        top(mod.tree.body)

    # --------------------------------------------------------------- resolution
    def resolve_dotted(self, name: str, depth=0) -> str:
        """Follow re-exports so the result names the defining module."""
        if depth > 12:
            return name
        if name in self.funcs or name in self.classes or name in self.modules:
            return name
        head, _, tail = name.rpartition(".")
        if not head:
            return name
        if head in self.modules:
            m = self.modules[head]
            if tail in m.functions or tail in m.classes or tail in m.assigns:
                return name
            if tail in m.imports:
                return self.resolve_dotted(m.imports[tail], depth + 1)
            return name
        rhead = self.resolve_dotted(head, depth + 1)
        if rhead != head:
            return self.resolve_dotted(f"{rhead}.{tail}", depth + 1)
        return name

    def resolve_name(self, mod: Module, name: str) -> str | None:
        """Resolve a module-level (global) name to a dotted path, None if builtin/unknown."""
        if name in mod.functions or name in mod.classes or name in mod.assigns:
            return f"{mod.name}.{name}"
        if name in mod.imports:
            return self.resolve_dotted(mod.imports[name])
        return None

    def class_of_global(self, qual: str) -> Cls | None:
        """Class of a module-level instance `X = Cls(...)`."""
        head, _, tail = qual.rpartition(".")
        m = self.modules.get(head)
        if not m:
            return None
        for v in m.assigns.get(tail, []):
            if isinstance(v, ast.Call):
                d = dotted(v.func)
                if d:
                    r = self.resolve_in(m, d)
                    if r in self.classes:
                        return self.classes[r]
        return None

    def resolve_in(self, mod: Module, dotted_name: str) -> str:
        head, _, rest = dotted_name.partition(".")
        r = self.resolve_name(mod, head)
        if r is None:
            return dotted_name
        return self.resolve_dotted(f"{r}.{rest}" if rest else r)

    def mro(self, cls: Cls) -> list[Cls]:
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            for b in c.bases:
                r = self.resolve_in(c.module, b)
                if r in self.classes:
                    todo.append(self.classes[r])
        return out

    def subclasses(self, cls: Cls) -> list[Cls]:
        return [c for c in self.classes.values() if cls in self.mro(c)]

    def method(self, cls: Cls, name: str) -> Func | None:
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def attr_type(self, cls, attr):
        """Class of self.<attr>, if every assignment in the class constructs the same one."""
        cache = self.__dict__.setdefault("_attr_types", {})
        key = (cls.qual, attr)
        if key in cache:
            return cache[key]
        found, ok = set(), True
        for c in self.mro(cls):
            for m in c.methods.values():
                for n in ast.walk(m.node):
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []
                    for t in tg:
                        if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == "self" and n.value is not None:
                            v = n.value
                            fn = v.func if isinstance(v, ast.Call) else None
                            if isinstance(fn, ast.Subscript):
                                fn = fn.value
                            q = self.resolve_in(m.module, dotted(fn)) if fn is not None and dotted(fn) else None
                            if q in self.classes:
                                found.add(q)
                            else:
                                ok = False
        cache[key] = self.classes[next(iter(found))] if ok and len(found) == 1 else None
        return cache[key]

    def methods_named(self, name: str) -> list[Func]:
        return self._methods_by_name.get(name, [])

    def func(self, qual: str) -> Func:
        q = self.resolve_dotted(qual)
        if q in self.funcs:
            return self.funcs[q]
        head, _, tail = q.rpartition(".")
        rh = self.resolve_dotted(head)
        if rh in self.classes:
            m = self.method(self.classes[rh], tail)
            if m:
                return m
        raise AnalysisBroken(f"anchor function {qual} not found")

    def cls(self, qual: str) -> Cls:
        q = self.resolve_dotted(qual)
        if q in self.classes:
            return self.classes[q]
        raise AnalysisBroken(f"anchor class {qual} not found")

    def mod(self, name: str) -> Module:
        if name not in self.modules:
            raise AnalysisBroken(f"anchor module {name} not found")
        return self.modules[name]

    def digest(self, rels=None) -> str:
        h = hashlib.sha256()
        for m in sorted(self.modules.values(), key=lambda m: m.rel):
            if rels is None or m.rel in rels:
                h.update(m.rel.encode())
                h.update(m.source.encode())
        return h.hexdigest()[:16]


def _direct_defs(fn):
    """Function/class definitions inside `fn`, not inside further nested functions."""
    out = []

    def visit(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.append(c)
            elif isinstance(c, ast.Lambda):
                continue
            else:
                visit(c)

    for stmt in fn.body if isinstance(fn.body, list) else []:
        if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.append(stmt)
        else:
            visit(stmt)
    return out


def walk_own(fn_node):
    """ast.walk over a function body without entering nested function/class/lambda bodies."""
    todo = list(fn_node.body) if isinstance(fn_node.body, list) else [fn_node.body]
    nested = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, nested):
            continue
        todo.extend(ast.iter_child_nodes(n))
