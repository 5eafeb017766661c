"""C29  The script of a PyScript component is the user's code, unchanged."""
import ast
import html as _html
import io
import json
import tokenize

from ..absint import State, deep
from ..lib import *
from ..project import Func
from .c24 import DEFAULTS, NONE, Text, plain

EXPLANATION = """
The functions which make scripts and configurations for PyScript are interpreted over constant
programs which have what makes rewriting of source text go wrong (strings over several lines, with
comments, indentation or placeholders in them; docstrings; tabs; several files). The tokenizer and
the parser of the standard library are models. The text which results is parsed and compared,
statement by statement, with the user's programs: same syntax trees but for docstrings. Configurations
are parsed again and compared with what the application asked for.
"""
ASSUMPTIONS = ["the tokenizer and the parser of the interpreter which runs the check agree with those of the application and of PyScript"]
PU = "reactpy.executors.pyscript.utils"
HEX = "0a1b2c3d4e5f60718293a4b5c6d7e8f9"
EMPTY = {("@", ("S", "none"), "x"): NONE}


def find(tree, path):
    n = tree
    for k in path:
        n = getattr(n, k) if isinstance(k, str) else n[k]
    return n


class W(Text):
    tables = True
    maxlist = 800
    distinct = True
    files = {}

    def __init__(self, ck, table=(), opaque=()):
        super().__init__(ck, dict(table))
        self.opaque |= set(opaque)
        self.opq |= set(opaque)
        self.trees = ck.p.__dict__.setdefault("_pytrees", {})

    # ---- syntax trees and tokens
    def tree(self, src):
        if src not in self.trees:
            self.trees[src] = ast.parse(src)
        return self.trees[src]

    def node(self, src, x, path):
        if isinstance(x, ast.AST):
            return ("S", "ast", src, path)
        if isinstance(x, list):
            return ("T", *[self.node(src, y, (*path, n)) for n, y in enumerate(x)])
        return ("k", x)

    def name(self, st, op):
        if op[0] in ("g", "b") and isinstance(op[1], str) and op[1].startswith("tokenize."):
            v = getattr(tokenize, op[1][9:], None)
            if isinstance(v, int):
                return ("k", v)
        if op[0] in ("g", "b") and str(op[1]).rsplit(".", 1)[-1] == "__file__":
            return ("S", "file of the module")
        if op[0] == "g":
            v = self.constant_expr(st, op[1])
            if v is not None:
                return v
        return super().name(st, op)

    def constant_expr(self, st, qual):
        """value of a constant of the module, by interpreting the expression which makes it"""
        P = self.P
        mod, _, n = (P.resolve_dotted(qual) or qual).rpartition(".")
        m = P.modules.get(mod)
        vs = m.assigns.get(n) if m and mod == PU else None
        if not vs or len(vs) != 1 or isinstance(vs[0], ast.Constant):
            return None
        cache = P.__dict__.setdefault("_pyconst", {})
        if qual not in cache:
            cache[qual] = None
            fn = ast.FunctionDef(name="constant", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[ast.copy_location(ast.Return(value=vs[0]), vs[0])], decorator_list=[])
            ast.copy_location(fn, vs[0])
            fn.end_lineno = vs[0].end_lineno
            f = Func(f"{mod}.{n}.constant", m, ast.fix_missing_locations(fn))
            outs = self.interpret(f, None, (), (), State({}, dict(EMPTY))) or []
            vals = {deep(o.st, o.value, 24) for o in outs if o.kind == "exit"}
            if len(vals) == 1:
                v = next(iter(vals))
                if v[0] in ("list", "set", "T") and all(x[0] in ("k", "g", "b") for x in (v[1] if v[0] != "T" else v[1:])):
                    xs = v[1] if v[0] != "T" else v[1:]
                    v = ("k", frozenset(x[1] for x in xs)) if v[0] == "set" and all(x[0] == "k" for x in xs) else ("T", *xs)
                if v[0] in ("k", "T", "re"):
                    cache[qual] = v
        return cache[qual]

    def attr(self, st, v, name):
        if v == ("g", "tokenize"):
            x = getattr(tokenize, name, None)
            return ("k", x) if isinstance(x, int) else ("missing",) if not hasattr(tokenize, name) else None
        if v[0] == "S" and v[1] == "token":
            k = {"type": 2, "string": 3, "start": 4, "end": 5, "line": 6, "exact_type": 2}.get(name)
            return v[k] if k else None
        if v[0] == "S" and v[1] == "ast":
            n = find(self.tree(v[2]), v[3])
            return self.node(v[2], getattr(n, name), (*v[3], name)) if hasattr(n, name) else ("missing",)
        if v[0] == "S" and v[1] == "io" and name == "readline":
            return ("S", "readline", v[2])
        if v[0] == "S" and v[1] == "path" and name in ("parent", "name"):
            return ("S", "path", v[2].rpartition("/")[0]) if name == "parent" else ("k", v[2].rpartition("/")[2])
        if v[:2] == ("S", "uuid") and name == "hex":
            return ("k", f"{HEX}{v[2] or ''}")
        return super().attr(st, v, name)

    def item(self, st, v, k):
        if v[0] == "S" and v[1] == "token" and k[0] == "k" and isinstance(k[1], int):
            return v[2:][k[1]]
        return super().item(st, v, k)

    def truth(self, st, v):
        if v[0] == "S" and v[1] in ("ast", "token", "path", "handler"):
            return True
        return super().truth(st, v)

    def types(self, st, t):
        ts = t[1:] if t[0] == "T" else (t,)
        if t[0] == "op" and t[1] == "BitOr":
            return (*self.types(st, t[2]), *self.types(st, t[3]))
        return tuple(x[1].rsplit(".", 1)[-1] for x in ts if x[0] in ("g", "b"))

    def operate(self, st, fn, args):
        if fn == "Div" and args[0][:2] == ("S", "path") and args[1][0] == "k":
            return ("S", "path", f"{args[0][2]}/{args[1][1]}")
        return super().operate(st, fn, args)

    def ext(self, ai, st, i, key, recv, args, kw):
        last = key.rsplit(".", 1)[-1]
        if last == "StringIO" and args and args[0][0] == "k":
            return [("v", ("S", "io", args[0][1]))]
        if key == "tokenize.generate_tokens" and args and args[0][0] == "S" and args[0][1] == "readline":
            try:
                ts = list(tokenize.generate_tokens(io.StringIO(args[0][2]).readline))
            except tokenize.TokenError:
                return [("raise", "tokenize.TokenError")]
            except SyntaxError as e:
                return [("raise", type(e).__name__)]
            return [("v", ("T", *[("S", "token", ("k", int(t.type)), ("k", t.string), ("T", ("k", t.start[0]), ("k", t.start[1])), ("T", ("k", t.end[0]), ("k", t.end[1])), ("k", t.line)) for t in ts]))]
        if key == "ast.parse" and args and args[0][0] == "k":
            try:
                self.tree(args[0][1])
            except SyntaxError as e:
                return [("raise", type(e).__name__)]
            return [("v", ("S", "ast", args[0][1], ()))]
        if key in ("ast.walk", "ast.iter_child_nodes") and args and args[0][0] == "S" and args[0][1] == "ast":
            src, p0 = args[0][2], args[0][3]
            out, todo = [], [p0]
            while todo:
                p = todo.pop(0)
                n = find(self.tree(src), p)
                if p != p0 or key == "ast.walk":
                    out.append(("S", "ast", src, p))
                if p != p0 and key != "ast.walk":
                    continue
                for f, x in ast.iter_fields(n):
                    if isinstance(x, ast.AST):
                        todo.append((*p, f))
                    elif isinstance(x, list):
                        todo += [(*p, f, k) for k, y in enumerate(x) if isinstance(y, ast.AST)]
            return [("v", ("T", *out))]
        if key == "ast.get_docstring" and args and args[0][0] == "S" and args[0][1] == "ast":
            try:
                return [("v", ("k", ast.get_docstring(find(self.tree(args[0][2]), args[0][3]))))]
            except TypeError:
                return [("raise", "TypeError")]
        if key == "isinstance" and len(args) == 2 and args[0][0] == "S" and args[0][1] == "ast":
            c = type(find(self.tree(args[0][2]), args[0][3]))
            return [("v", ("k", any(n in {x.__name__ for x in c.__mro__} for n in self.types(st, args[1]))))]
        if key == "uuid.uuid4":
            st = st.copy()
            st.ev = st.ev + (("uuid",),)
            return [("v", ("S", "uuid", st.ev.count(("uuid",)) - 1), st)]
        if key in ("html.escape",) and args and args[0][0] == "k":
            q = args[1] if len(args) > 1 else dict(kw).get("quote", ("k", True))
            return [("v", ("k", _html.escape(args[0][1], q[1])))]
        if key in ("json.loads", "orjson.loads") and args and args[0][0] == "k":
            return [("v", self.load(st, json.loads(args[0][1])), st)]
        if key in ("pathlib.Path", "class:pathlib.Path"):
            if args and args[0] == ("S", "file of the module"):
                return [("v", ("S", "path", "src/reactpy/executors/pyscript/utils.py"))]
            return [("v", ("S", "path", args[0][1]))] if args and args[0][0] == "k" else [("v", args[0])] if args else None
        if key == "str" and args and args[0][:2] == ("S", "uuid"):
            return [("v", ("k", f"{HEX}{args[0][2] or ''}-"))]
        if key in ("str", "os.fspath") and args and args[0][:2] == ("S", "path"):
            return [("v", ("k", args[0][2]))]
        if recv is not None and recv[:2] == ("S", "path"):
            if last in ("resolve", "absolute"):
                return [("v", recv)]
            if last in ("joinpath", "__truediv__", "with_name") and args and args[0][0] == "k":
                return [("v", ("S", "path", (recv[2] if last != "with_name" else recv[2].rpartition("/")[0]) + "/" + args[0][1]))]
            if last == "read_text":
                t = self.files.get(recv[2]) or self.text(recv[2])
                return [("v", ("k", t))] if t is not None else [("raise", "FileNotFoundError")]
        if key == "value" and recv == ("S", "handler"):
            v = args[0]
            t = self.files.get(v[1] if v[0] == "k" else v[2] if v[:2] == ("S", "path") else None)
            st = st.copy()
            st.ev = st.ev + (("asked", v),)
            return [("v", ("k", t), st)] if t is not None else [("raise", "FileNotFoundError")]
        return super().ext(ai, st, i, key, recv, args, kw)

    def load(self, st, d):
        if isinstance(d, dict):
            return ("new", "dict", tuple((("k", k), self.deep_new(st, v)) for k, v in d.items()))
        if isinstance(d, list):
            return ("new", "list", tuple(self.deep_new(st, v) for v in d))
        return ("k", d)

    def deep_new(self, st, d):
        v = self.load(st, d)
        if v[0] != "new":
            return v
        o = ("O", "loaded", len(st.heap) + 1000)
        st.heap[o] = (v[1], v[2])
        return o

    def text(self, rel):
        try:
            return self.P.read(rel)
        except Exception:
            return None


PROGRAMS = {
    "comments": "x = 1  # one\n# two\ny = '# not a comment'  # '''\n\n\nz = \"#\" + y\n",
    "string over several lines": 's = """\n  first # no comment\n\n    second   \n# third\n"""\nt = 2\n',
    "indented string over several lines": 'def f():\n    # x\n    s = """a\n   # b\n\n  c   \n    """\n    return s\n',
    "f-string over several lines": 'n = 1\ns = f"""\n# {n}\n\n  {n + 1}   \n"""\n',
    "joined lines": "s = 'a \\\n# b'\nt = (1 +  # one\n\n     2)\n",
    "docstrings": '"""The module.\n\n# text\n"""\nimport os\n\n\ndef f(a):\n    """Doc."""\n    return a\n\n\nclass A:\n    """Doc\n    # of A\n    """\n\n    def m(self):\n        """One."""\n        return """no\n        doc"""\n\n\nasync def g():\n    """Doc of g."""\n    return 1\n',
    "only docstrings": 'def f():\n    """Doc."""\n\n\nclass A:\n    """Doc\n    # of A"""\n',
    "docstring and code in one line": 'def f():\n    """Doc."""; x = 1\n    return x\n\n\ndef g(): "doc"; return 2\n',
    "function in a function": 'def root():\n    def inner():\n        """Doc"""\n        # c\n        return "\\n# x"\n    return inner()\n',
    "empty lines and spaces": "\n\nif True:\n\n    x = '  '   \n\n\n    y = 1 \n",
    "comment at the end": "x = 1\n# end",
    "tabs": "if True:\n\tx = '''\n\ta'''\n\tif x:\n\t\ty = 1\n",
    "no code": "# nothing\n",
    "strings which are statements": 'x = 1\n"""not a docstring"""\ny = """a"""\n"b"\n',
    "not ASCII": "s = 'é # ü'  # ö\nt = 'ä'; u = 1  # x\n",
}


def nodocs(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n.body:
            e = n.body[0]
            if isinstance(e, ast.Expr) and isinstance(e.value, ast.Constant) and isinstance(e.value.value, str):
                n.body.pop(0)
    return tree


def dump(nodes):
    return [ast.dump(n) for n in nodes]


def same(a, b):
    """why two sources do not mean the same"""
    try:
        ta = nodocs(ast.parse(a))
    except SyntaxError as e:
        return f"is no valid Python ({e.msg} in line {e.lineno})"
    tb = nodocs(ast.parse(b))
    for x, y in zip(ta.body, tb.body):
        if ast.dump(x) != ast.dump(y):
            return f"is changed in {ast.unparse(y)[:60]!r}"
    if len(ta.body) != len(tb.body):
        return "lost or got statements"
    return None


def result(w, f, args, kw=(), heap=()):
    outs = w.interpret(f, None, args, kw, State({}, {**EMPTY, **dict(heap)})) or []
    vals = {repr(o.value): o.value for o in outs if o.kind == "exit"}
    if len(vals) == 1 and all(o.kind == "exit" for o in outs):
        return next(iter(vals.values())), outs
    return None, outs


def const(v):
    return v[1] if v is not None and v[0] == "k" and isinstance(v[1], str) else None


def minify(ck):
    P = ck.p
    f = P.func(PU + ".minify_python")
    ck.rule("minify", "minified code does the same, and its strings are the same", 14)
    for n, src in PROGRAMS.items():
        v, _ = result(W(ck), f, (("k", src),))
        s = const(v)
        why = "is not determined" if s is None else same(s, src)
        ck.ob(not why, n, f.loc(), f"minify_python, {n}: the code {why}")
    for n, src in {"not closed": "s = '''\nabc", "not Python": "if :\n  # x\n"}.items():
        v, outs = result(W(ck), f, (("k", src),))
        s = const(v)
        ok = s is not None and s.strip() == src.strip()
        ck.ob(ok, n, f.loc(), f"minify_python, {n}: code which cannot be analysed is not left as it is")


ROOT = '''from reactpy import component, html

TEXT = """
   # UUID
return root()
\t"""


@component
def {root}():
    """Doc of UUID."""
    def show():
        return html.p("return root()", """
  def root(): ...
user_workspace_UUID""")

    return show()
'''
HELPER = 'import math  # numbers\n\n\ndef helper(x):\n    # no\n    s = f"""\n{x}\n  # y"""\n    return s + "é"\n'
TABBED = "def tab():\n\tif 1:\n\t\treturn '''\n\tx'''\n"


def workspaces(code, uuid):
    """(why not, body of the user's function, the module's other statements)"""
    try:
        t = ast.parse(code)
    except SyntaxError as e:
        return f"is no valid Python ({e.msg} in line {e.lineno})", None
    fs = [n for n in t.body if isinstance(n, ast.FunctionDef)]
    if len(fs) != 1 or fs[0].name != f"user_workspace_{uuid}":
        return f"does not define one function of its own ({[x.name for x in fs]})", None
    runs = [c for n in t.body for c in ast.walk(n) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "run" and n is not fs[0]]
    ok = len(runs) == 1 and len(runs[0].args) == 1 and isinstance(runs[0].args[0], ast.Name) and runs[0].args[0].id == fs[0].name
    h = runs[0].func.value if ok else None
    if not ok or not (isinstance(h, ast.Call) and [getattr(a, "value", None) for a in h.args] == [uuid]):
        return "does not run its function with the layout handler of its own element", None
    tasks = [n for n in t.body if isinstance(n, ast.Assign) and any(c is runs[0] for c in ast.walk(n))]
    if len(tasks) != 1 or [getattr(x, "id", None) for x in tasks[0].targets] != [f"task_{uuid}"]:
        return "does not keep its task under the name by which it is found to be deleted", None
    if t.body.index(tasks[0]) < t.body.index(fs[0]):
        return "runs its function before it is defined", None
    used = {n.id for s in t.body for n in ast.walk(s) if isinstance(n, ast.Name) and s is not fs[0]}
    have = {a.asname or a.name for s in t.body if isinstance(s, (ast.Import, ast.ImportFrom)) for a in s.names} | {fs[0].name}
    if {x for x in used if not x.startswith("task_")} - have:
        return f"uses {sorted({x for x in used if not x.startswith('task_')} - have)} which it does not import", None
    return None, fs[0]


def executors(ck):
    P = ck.p
    f = P.func(PU + ".pyscript_executor_html")
    ck.rule("script", "the script of a component is its user's code, in a function of its own which runs in its own element", 12)
    sets = {
        "one file": ({"/a.py": ROOT.format(root="root")}, "root"),
        "root of another name": ({"/a.py": ROOT.format(root="main")}, "main"),
        "two files": ({"/h.py": HELPER, "/a.py": ROOT.format(root="root")}, "root"),
        "root in the first file": ({"/a.py": ROOT.format(root="app"), "/h.py": HELPER}, "app"),
        "three files": ({"/t.py": TABBED, "/h.py": HELPER, "/a.py": ROOT.format(root="root")}, "root"),
        "files of the same name": ({"/h/a.py": HELPER, "/a.py": ROOT.format(root="root")}, "root"),
        "files out of order": ({"/z.py": HELPER, "/m.py": ROOT.format(root="root"), "/a.py": TABBED}, "root"),
        "file with a comment at its end": ({"/h.py": HELPER + "# end", "/a.py": ROOT.format(root="root") + "#"}, "root"),
    }
    for n, (files, root) in sets.items():
        for how in ("default", "handler"):
            w = W(ck)
            w.files = files
            kw = [("file_paths", ("T", *[("k", p) for p in files])), ("uuid", ("k", "77ff")), ("root", ("k", root))]
            if how == "handler":
                kw.append(("cache_handler", ("S", "handler")))
            v, outs = result(w, f, (), tuple(kw))
            code = const(v)
            bad = None
            if code is None:
                bad = "is not determined by the files: " + str([str(o.value)[:60] for o in outs if o.kind != "exit"])[:160]
            else:
                bad, ws = workspaces(code, "77ff")
            if not bad:
                body = nodocs(ast.Module(body=[ws], type_ignores=[])).body[0].body
                want = [s for t in files.values() for s in nodocs(ast.parse(t)).body]
                last = body[-1] if body else None
                if not (isinstance(last, ast.Return) and ast.unparse(last) == f"return {root}()"):
                    bad = f"does not return the component {root}()"
                elif dump(body[:-1]) != dump(want):
                    k = next((ast.unparse(y)[:50] for x, y in zip(dump(body[:-1]), want) if x != ast.dump(y)), "its end")
                    bad = f"is not the code of the files in their order: changed at {k!r}"
            if not bad and how == "handler":
                asked = [e[1] for o in outs for e in o.st.ev if e[0] == "asked"]
                if asked != [("k", p) for p in files]:
                    bad = "is made without asking the given cache for each file"
            ck.ob(not bad, f"{n}, {how}", f.loc(), f"pyscript_executor_html, {n}: the script {bad}")
    ck.rule("refused", "files without the root component are refused", 2)
    for n, (text, root) in {"no root": (HELPER, "root"), "only a longer name": (HELPER + "\n\ndef root2():\n    return 1\n\n\ndef aroot():\n    return 1\n", "root"), "missing file": (None, "root")}.items():
        w = W(ck)
        w.files = {"/a.py": text} if text else {}
        _, outs = result(w, f, (), (("file_paths", ("T", ("k", "/a.py"))), ("uuid", ("k", "1")), ("root", ("k", root))))
        ok = bool(outs) and all(o.kind == "exc_exit" for o in outs)
        ck.ob(ok, n, f.loc(), f"pyscript_executor_html, {n}: nothing is raised")


def component(ck):
    P = ck.p
    f = P.func(PU + ".pyscript_component_html")
    ck.rule("component", "a component's element, script and initial content belong together", 6)
    for n, initial, want in (("text", ("k", "<b>wait</b>"), "<b>wait</b>"), ("nothing", ("k", ""), ""), ("model", ("S", "model"), ("html of", ("S", "model")))):
        w = Component(ck)
        w.files = {"/a.py": ROOT.format(root="root"), "/h.py": HELPER}
        v, outs = result(w, f, (), (("file_paths", ("T", ("k", "/a.py"), ("k", "/h.py"))), ("initial", initial), ("root", ("k", "root"))))
        parts = v[1:] if v is not None and v[0] == "str" else (v,) if v is not None else ()
        s = "".join(x[1] if x[0] == "k" else "\0" for x in parts)
        syms = [x for x in parts if x[0] != "k"]
        ck.need(outs, "pyscript_component_html")
        ob = lambda what, ok, msg: ck.ob(ok, f"{n}: {what}", f.loc(), f"pyscript_component_html, {n}: {msg}")
        p = parse(s)
        divs = [(a, c) for t, a, c in p if t == "div"]
        ob("element", len(divs) == 1 and divs[0][0].get("id") == f"pyscript-{HEX}" and divs[0][0].get("data-uuid") == HEX and "pyscript" in (divs[0][0].get("class") or "").split(), "the element does not carry the id by which the script finds it")
        ob("initial", len(divs) == 1 and divs[0][1] == (want if isinstance(want, str) else "\0") and (not syms if isinstance(want, str) else syms == [want]), "the initial content is not that of the element")
        scripts = [(a, c) for t, a, c in p if t == "script"]
        ok = len(scripts) == 1 and scripts[0][0].get("type") == "py"
        why, _ = workspaces(scripts[0][1], HEX) if ok else ("is missing", None)
        ob("script", ok and not why, f"the script {why}")


class Component(W):
    def ext(self, ai, st, i, key, recv, args, kw):
        if key.endswith("reactpy_to_string"):
            return [("v", ("html of", *args))]
        if key == "isinstance" and args[0] == ("S", "model"):
            return [("v", ("k", "str" not in self.types(st, args[1])))]
        return super().ext(ai, st, i, key, recv, args, kw)


def parse(s):
    """(tag, attributes, inner text) of the outermost elements"""
    from html.parser import HTMLParser

    out = []

    class H(HTMLParser):
        depth = 0

        def handle_starttag(self, tag, attrs):
            if tag in ("link", "meta"):
                out.append((tag, dict(attrs), ""))
                return
            if self.depth == 0:
                self.open = (tag, dict(attrs), self.pos() + len(self.get_starttag_text()))
            self.depth += 1

        def handle_endtag(self, tag):
            if tag in ("link", "meta"):
                return
            self.depth -= 1
            if self.depth == 0:
                out.append((self.open[0], self.open[1], s[self.open[2]:self.pos()]))

        def pos(self):
            line, col = self.getpos()
            return sum(len(x) + 1 for x in s.split("\n")[:line - 1]) + col

    h = H(convert_charrefs=False)
    try:
        h.feed(s)
        h.close()
    except (AssertionError, AttributeError):
        return []
    return out


def obj(heap, v, tag):
    if isinstance(v, dict):
        o = ("O", tag, 0)
        heap[o] = ("dict", tuple((("k", k), obj(heap, x, f"{tag}.{k}")) for k, x in v.items()))
        return o
    if isinstance(v, list):
        o = ("O", tag, 0)
        heap[o] = ("list", tuple(obj(heap, x, f"{tag}.{n}") for n, x in enumerate(v)))
        return o
    return ("k", v)


class Wheel(W):
    """where the wheel of ReactPy is, is what C34 is about"""

    def __init__(self, ck, table=(), opaque=()):
        super().__init__(ck, table, opaque)
        P, reach = self.P, {}
        mine = {f.name: f for f in P.funcs.values() if f.module.name == PU and not f.cls}
        for n, f in mine.items():
            names = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name)}
            reach[n] = bool(names & {"subprocess", "shutil", "ZipFile", "zipfile", "metadata"}), names & set(mine)
        some = {n for n, (x, _) in reach.items() if x}
        while True:
            more = {n for n, (_, c) in reach.items() if c & some and mine[n].node.args.args == []}
            if more <= some:
                break
            some |= more
        self.wheels = {mine[n].qual for n in some}
        self.opaque |= self.wheels
        self.opq |= self.wheels

    def ext(self, ai, st, i, key, recv, args, kw):
        f = self.P.funcs.get(key)
        if f is not None and f.qual in self.wheels:
            path = f.node.returns is not None and "Path" in ast.unparse(f.node.returns)
            return [("v", ("S", "path", "/the/wheel.whl") if path else ("k", "/the/wheel.whl"))]
        return super().ext(ai, st, i, key, recv, args, kw)


def configs(ck):
    P = ck.p
    f = P.func(PU + ".extend_pyscript_config")
    ck.rule("config", "the configuration has what ReactPy needs, what the application adds, and the application's own values", 14)
    cases = {
        "nothing added": ({}, "", {}, {}),
        "packages": ({"extra_py": ["numpy", "a.whl"]}, None, None, {}),
        "modules": ({"extra_js": {"/x.js": "x", "/y.js": "y"}}, None, None, {}),
        "modules, as text": ({"extra_js": '{"/x.js": "x"}'}, None, None, {}),
        "values": ({"config": {"name": "n", "packages_cache": "always"}}, None, None, {}),
        "values, as text": ({"config": '{"name": "n\'<", "packages": ["q"], "packages_cache": "x"}'}, None, None, {}),
        "packages of the application only": ({"config": {"packages": ["p"]}, "extra_py": ["numpy"]}, None, None, {}),
        "own modules": ({"modules": {"/m.js": "m"}}, None, None, {}),
        "own modules and more": ({"modules": {"/m.js": "m"}, "extra_js": {"/x.js": "x"}}, None, None, {}),
        "own package": ({"reactpy_pkg_string": "reactpy==2"}, None, None, {}),
        "all": ({"extra_py": ["numpy"], "extra_js": {"/x.js": "x"}, "config": {"name": "n"}, "modules": {"/m.js": "m"}, "reactpy_pkg_string": "r"}, None, None, {}),
    }
    for pre in ("/reactpy/", "/p2/"):
        for n, (given, *_r) in cases.items():
            heap = {}
            g = {"extra_py": [], "extra_js": {}, "config": {}} | given
            kw = tuple((k, obj(heap, v, k)) for k, v in g.items())
            w = Wheel(ck, {"PATH_PREFIX": pre})
            v, outs = result(w, f, (), kw, heap)
            s = const(v)
            as_dict = lambda x: json.loads(x) if isinstance(x, str) and x else x or {}
            mods = g.get("modules") or {f"{pre}static/morphdom/morphdom-esm.js": "morphdom"}
            pk = [g.get("reactpy_pkg_string") or "*wheel", "jsonpointer", *g["extra_py"]]
            try:
                d = json.loads(s)
            except (TypeError, ValueError):
                d = None
            own = as_dict(g["config"])
            bad = None
            if not isinstance(d, dict):
                bad = "is not determined by what is given"
            else:
                for k, x in own.items():
                    if d.get(k) != x:
                        bad = f"has {d.get(k)!r} as {k}, not the application's {x!r}"
                got = d.get("packages") or []
                if "packages" not in own and not bad:
                    names = ["*wheel" if str(x).endswith("wheel.whl") else x.split("=")[0].split("<")[0].split(">")[0].split("~")[0] if k < 2 and x not in g["extra_py"] and x != g.get("reactpy_pkg_string") else x for k, x in enumerate(got)]
                    if sorted(names) != sorted(pk):
                        bad = f"has the packages {got}"
                if "js_modules" not in own and not bad and d.get("js_modules") != {"main": {**mods, **as_dict(g["extra_js"])}}:
                    bad = f"has the modules {d.get('js_modules')}"
                extra = set(d) - {"packages", "js_modules", "packages_cache"} - set(own)
                if extra and not bad:
                    bad = f"has {sorted(extra)} which nobody asked for"
                if not bad and "packages_cache" not in own and (any(str(x).endswith(".whl") for x in [*pk, "*wheel.whl"][:len(pk)] + (["x.whl"] if "*wheel" in pk else [])) and d.get("packages_cache") != "never"):
                    bad = "lets PyScript cache wheels, which it cannot"
            ck.ob(not bad, f"{n}, prefix {pre}", f.loc(), f"extend_pyscript_config, {n}: the configuration {bad}")


def setup(ck):
    P = ck.p
    f = P.func(PU + ".pyscript_setup_html")
    ck.rule("setup", "the page gets the layout handler and exactly the configuration", 6)
    lh = next((m for m in P.modules.values() if m.name.endswith("pyscript.layout_handler")), None)
    ck.need(lh, "module of the PyScript layout handler")
    for pre in ("/reactpy/", "/p2/"):
        for dbg in (True, False):
            for n, cfg in {"plain": {"name": "n"}, "quotes": {"name": "it's <b> & \"&#x27;\" \\' </script>"}}.items():
                heap = {}
                kw = (("extra_py", obj(heap, ["numpy"], "p")), ("extra_js", obj(heap, {"/x'&.js": "x"}, "j")), ("config", obj(heap, cfg, "c")))
                w = Wheel(ck, {"PATH_PREFIX": pre, "DEBUG": dbg})
                v, outs = result(w, f, (), kw, heap)
                s = const(v)
                c, _ = result(Wheel(ck, {"PATH_PREFIX": pre, "DEBUG": dbg}), P.func(PU + ".extend_pyscript_config"), (), kw, heap)
                what = f"prefix {pre}, debug {dbg}, {n}"
                els = parse(s) if s else []
                scripts = [(a, x) for t, a, x in els if t == "script"]
                py = [(a, x) for a, x in scripts if a.get("type") == "py"]
                core = [a for a, x in scripts if a.get("type") == "module"]
                bad = None
                if s is None:
                    bad = "is not determined by what is given"
                elif len(py) != 1:
                    bad = "does not have one script with the layout handler"
                elif same(py[0][1], lh.source):
                    bad = f"has a layout handler which {same(py[0][1], lh.source)}"
                elif py[0][0].get("config") != const(c):
                    bad = "has another configuration than the one which was made"
                elif [a.get("src") for a in core] != [pre + "static/pyscript/core.js"]:
                    bad = "does not load PyScript from the static files"
                else:
                    hidden = any("hide-debug" in (a.get("href") or "") for t, a, x in els if t == "link")
                    if hidden is dbg:
                        bad = "hides the debugger in debug mode, or shows it otherwise"
                    elif not all((a.get("href") or "").startswith(pre + "static/") for t, a, x in els if t == "link"):
                        bad = "refers to styles which are not below the prefix"
                ck.ob(not bad, what, f.loc(), f"pyscript_setup_html, {what}: the page {bad}")


class Giver(W):
    """what asks for the HTML of a component or of the setup"""
    shown = None

    def ext(self, ai, st, i, key, recv, args, kw):
        f = self.P.funcs.get(key)
        n = key.rsplit(".", 1)[-1]
        if n in ("pyscript_component_html", "pyscript_setup_html"):
            names = [a.arg for a in self.P.func(f"{PU}.{n}").node.args.args]
            d = dict(zip(names, args)) | {k: v for k, v in kw if k}
            d = {c: d[m] for c, m in zip(("file_paths", "initial", "root") if "comp" in n else ("extra_py", "extra_js", "config"), names) if m in d}
            st = st.copy()
            st.ev = st.ev + (("html", n, tuple((k, deep(st, v, 12)) for k, v in d.items())),)
            return [("v", ("html", n), st)]
        if n == "use_state":
            return [("v", ("T", args[0] if not self.shown else self.shown, ("S", "setter")))]
        if recv == ("S", "setter") or key == "value" and recv == ("S", "setter"):
            st = st.copy()
            st.ev = st.ev + (("set", args[0]),)
            return [("v", NONE, st)]
        if n == "string_to_reactpy":
            o = ("O", "converted", len(st.heap) + 500)
            st = st.copy()
            st.heap[o] = ("dict", ((("k", "tagName"), ("k", "div")), (("k", "of"), args[0])))
            return [("v", o, st)]
        if n == "isinstance" and args[0][:2] == ("S", "model"):
            return [("v", ("k", "str" not in self.types(st, args[1])))]
        return super().ext(ai, st, i, key, recv, args, kw)


def seq(v):
    xs = v[1:] if v[0] == "T" else v[1] if v[0] == "list" else v[2] if v[0] == "new" else None
    return None if xs is None else [x[1] if x[0] == "k" else x[2] if x[:2] == ("S", "path") else x for x in xs]


def givers(ck):
    P = ck.p
    ck.rule("askers", "whoever asks for the HTML of a component gives its files in their order, its initial content and its root", 6)
    opq = [f"{PU}.pyscript_component_html", f"{PU}.pyscript_setup_html", "reactpy.utils.string_to_reactpy", "reactpy.core.hooks.use_state"]
    paths = ("/z.py", "/m.py", "/a.py", "/m.py")
    args = tuple(("k", x) for x in paths)

    def given(name, f, fn, want, outs):
        bad = None if outs else "no result"
        for o in outs:
            ev = [dict(e[2]) for e in o.st.ev if e[0] == "html" and e[1] == fn]
            if o.kind != "exit":
                bad = bad or f"raises {str(o.value)[:60]}"
            elif len(ev) != 1:
                bad = bad or f"asks {len(ev)} times"
            else:
                for k, v in want.items():
                    got = ev[0].get(k, ("missing",))
                    if isinstance(v, list) and seq(got) != v or not isinstance(v, list) and got != v:
                        bad = bad or f"gives {str(got)[:80]} as {k}"
        ck.ob(not bad, name, f.loc(), f"{name}: {bad}")

    J = "reactpy.templatetags.jinja"
    ini, root = ("k", "<b>wait</b>"), ("k", "main")
    if J in P.modules:
        cls = next((c for q, c in P.classes.items() if q.startswith(J + ".") and "render" in c.methods), None)
        for tag, kw, fn, want in (
            ("pyscript_component", (("initial", ini), ("root", root)), "pyscript_component_html", {"file_paths": list(paths), "initial": ini, "root": root}),
            ("pyscript_component", (), "pyscript_component_html", {"file_paths": list(paths), "initial": ("k", ""), "root": ("k", "root")}),
            ("pyscript_setup", (("extra_js", ("k", "J")), ("config", ("k", "C"))), "pyscript_setup_html", {"extra_py": list(paths), "extra_js": ("k", "J"), "config": ("k", "C")}),
        ):
            f = P.funcs.get(f"{J}.{tag}")
            if f is None:
                continue
            w = Giver(ck, (), opq)
            given(f"template tag {tag}, {len(kw)} options", f, fn, want, w.interpret(f, None, args, kw, State({}, dict(EMPTY))) or [])
    for f in P.funcs.values():
        if f.module.name != "reactpy.executors.pyscript.components" or not any(ast.unparse(d).rsplit(".", 1)[-1] == "component" for d in f.node.decorator_list):
            continue
        for n, i in (("text", ("k", "<b>wait</b>")), ("model", ("S", "model"))):
            w = Giver(ck, (), opq)
            w.shown = ("k", True)
            kw = (("initial", i), ("root", root))
            outs = w.interpret(f, None, args, kw, State({}, dict(EMPTY))) or []
            given(f"component, {n}", f, "pyscript_component_html", {"file_paths": list(paths), "root": root}, outs)
            ok = outs and all(o.kind == "exit" and o.value[0] == "O" and dict(o.st.heap[o.value][1]).get(("k", "of")) == ("html", "pyscript_component_html") and dict(o.st.heap[o.value][1]).get(("k", "tagName")) == ("k", "") for o in outs)
            ck.ob(ok, f"component, {n}, model", f.loc(), f"{f.name} does not give the model of the HTML, as a fragment")
            w = Giver(ck, (), opq)
            outs = w.interpret(f, None, args, kw, State({}, dict(EMPTY))) or []
            ok = outs and all(o.kind == "exit" and o.value == NONE and [e[1] for e in o.st.ev if e[0] == "set"] == [("k", True)] for o in outs)
            ck.ob(ok, f"component, {n}, first render", f.loc(), f"{f.name}: the first render does not ask for another one, in which the component is shown")
        outs = Giver(ck, (), opq).interpret(f, None, (), (), State({}, dict(EMPTY))) or []
        ck.ob(outs and all(o.kind == "exc_exit" for o in outs), "component without files", f.loc(), f"{f.name} without files does not raise")


RULES = [minify, executors, component, givers, configs, setup]
