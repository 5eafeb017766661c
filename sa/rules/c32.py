"""C32  The rewriting commands change the elements of the old interface, and nothing else."""
import ast
import io
import textwrap
import tokenize
from keyword import iskeyword, kwlist

from ..absint import State
from ..flow import StateCap
from ..hooked import Hooks
from ..lib import *
from ..objs import World

EXPLANATION = """
Both commands are interpreted over kinds of programs: elements in every position (several on one line,
nested, in blocks on one line, in decorators, lambdas and comprehensions, after and before text which is
not ASCII, indented by tabs, with comments and strings of several lines) and things which only look like
elements. Syntax trees are objects of the analysis, their lists containers of its heap. What each
interpretation gives has to be a program whose syntax tree is that of the original with the keys or names
of props changed as documented, with the text around the rewritten statements and all comments kept.
"""
ASSUMPTIONS = ["ast.parse, ast.unparse and tokenize work as documented", "which element constructors are on a line is decided by their names: html.*, names of elements, vdom"]
PK = "reactpy._console"
NONE = ("k", None)

KEYS = [
    ("one", "html.div(key='a')", "html.div({'key': 'a'})"),
    ("text first", "html.div('x', key='a')", "html.div({'key': 'a'}, 'x')"),
    ("formatted text first", "html.div(f'{x}', key='a')", "html.div({'key': 'a'}, f'{x}')"),
    ("with props", "html.div({'b': 1}, c, key=k)", "html.div({'b': 1, 'key': k}, c)"),
    ("with props by dict", "html.div(dict(b=1), c, key=k)", "html.div(dict(b=1, key=k), c)"),
    ("other keywords stay", "html.div({}, key='a', b=1)", "html.div({'key': 'a'}, b=1)"),
    ("plain name", "div({'b': 1}, key='a')", "div({'b': 1, 'key': 'a'})"),
    ("module", "reactpy.html.p(key='a')", "reactpy.html.p({'key': 'a'})"),
    ("vdom", "vdom('p', key='a')", "vdom('p', {'key': 'a'})"),
    ("vdom with text", "vdom('p', 'x', key='a')", "vdom('p', {'key': 'a'}, 'x')"),
    ("vdom with props", "vdom('p', {'b': 1}, x, key='a')", "vdom('p', {'b': 1, 'key': 'a'}, x)"),
    ("two on a line", "html.a(key=1); html.b(key=2)", "html.a({'key': 1}); html.b({'key': 2})"),
    ("two in a list", "x = [\n    html.a(key=1), html.b(key=2),\n]", "x = [\n    html.a({'key': 1}), html.b({'key': 2}),\n]"),
    ("one in another", "html.a('x', html.b(key=2), key=1)", "html.a({'key': 1}, 'x', html.b({'key': 2}))"),
    ("one in another over lines", "html.a(\n  'x',\n  html.b(key=2),\n  key=1)", "html.a({'key': 1}, 'x', html.b({'key': 2}))"),
    ("one in another which stays", "html.a(\n  html.b(key=2))", "html.a(\n  html.b({'key': 2}))"),
    ("after one which ends there", "html.a(\n 'x',\n key=1); html.b(key=2)", "html.a({'key': 1}, 'x'); html.b({'key': 2})"),
    ("sibling without key", "html.a({}, html.b('x'), html.i(key=2))", "html.a({}, html.b('x'), html.i({'key': 2}))"),
    ("sibling which is no element", "html.a({}, get('x'), key=2)", "html.a({'key': 2}, get('x'))"),
    ("text which is not ASCII before", "y = 'é'; html.a(key=1)", "y = 'é'; html.a({'key': 1})"),
    ("text which is not ASCII within", "html.a('é€', key=1); y = 2", "html.a({'key': 1}, 'é€'); y = 2"),
    ("text which is not ASCII before and within", "f('é'); html.a('𝔘', key=1); y = 2", "f('é'); html.a({'key': 1}, '𝔘'); y = 2"),
    ("tabs", "if x:\n\ty = 1\n\thtml.a(key=1)", "if x:\n\ty = 1\n\thtml.a({'key': 1})"),
    ("indented", "if x:\n    y = 1\n    html.a(key=1)\nz = 2", "if x:\n    y = 1\n    html.a({'key': 1})\nz = 2"),
    ("function on a line", "def f(): return html.a(key=1)", "def f(): return html.a({'key': 1})"),
    ("coroutine on a line", "async def f(): return html.a(key=1)", "async def f(): return html.a({'key': 1})"),
    ("block on a line", "if x: html.a(key=1)\nelse: y = 2", "if x: html.a({'key': 1})\nelse: y = 2"),
    ("head of a block", "for y in html.a(key=1):\n    # c\n    z = '''\n  '''", "for y in html.a({'key': 1}):\n    # c\n    z = '''\n  '''"),
    ("context", "with html.a(key=1) as y: pass", "with html.a({'key': 1}) as y: pass"),
    ("decorator", "@d(html.a(key=1))\ndef f():\n    y = [\n    ]  # c", "@d(html.a({'key': 1}))\ndef f():\n    y = [\n    ]  # c"),
    ("default", "def f(x=html.a(key=1)):\n    # c\n    pass", "def f(x=html.a({'key': 1})):\n    # c\n    pass"),
    ("comprehension", "x = [\n  html.a(key=i)\n  for i in y]", "x = [\n  html.a({'key': i})\n  for i in y]"),
    ("lambda", "f(lambda: html.a(key=1), 2)", "f(lambda: html.a({'key': 1}), 2)"),
    ("after a string over lines", "x = '''\n a''', html.a(key=1)", "x = '''\n a''', html.a({'key': 1})"),
    ("comment within", "x = 1\nhtml.a(\n  # c1\n  key=1)\n# c2", "x = 1\n# c1\nhtml.a({'key': 1})\n# c2"),
    ("comment after", "html.a(key=1)  # c\ny = 2", "html.a({'key': 1})  # c\ny = 2"),
    ("comments of others", "# é\nx = '# no'  # c1\nhtml.a(key=1)\n# c2", "# é\nx = '# no'  # c1\nhtml.a({'key': 1})\n# c2"),
    ("last line without end", "\n\nhtml.a(key=1)\n\n", "\n\nhtml.a({'key': 1})\n\n"),
    ("other vdom without key", "html.a({}, vdom('p'), vdom('p', 'x'), html.b(), html.i(key=2))", "html.a({}, vdom('p'), vdom('p', 'x'), html.b(), html.i({'key': 2}))"),
    ("props spread", "html.a({**x}, y, key=1, **z); html.b(dict(**x), key=2)", "html.a({**x, 'key': 1}, y, **z); html.b(dict(**x, key=2))"),
    ("class body", "class A(B):\n    x = html.a(key=1)\n    # c\n    def f(self):\n        try:\n            return html.b(key=2)\n        except E: z = html.i(key=3)", "class A(B):\n    x = html.a({'key': 1})\n    # c\n    def f(self):\n        try:\n            return html.b({'key': 2})\n        except E: z = html.i({'key': 3})"),
    ("choice of a match", "match html.a(key=1):\n    # c\n    case _: y = html.b(key=2)", "match html.a({'key': 1}):\n    # c\n    case _: y = html.b({'key': 2})"),
    ("strings over lines", "x = '''\n  a\n'''\nif y:\n    html.a('''b\n      c''', key=1)\n    z = '''\n  a\n'''", "x = '''\n  a\n'''\nif y:\n    html.a({'key': 1}, 'b\\n      c')\n    z = '''\n  a\n'''"),
    ("not an element", "sorted({'b': 1}, key=f)", None),
    ("not an element either", "max('ab', key=f); foo(key=1); list({}, key=2)", None),
    ("of something else", "other.div(key='a')", None),
    ("props are not known", "html.div(x, key='a')", None),
    ("props of vdom are not known", "vdom('p', x, key='a')", None),
    ("no key", "html.div('x', b=1)", None),
    ("nothing", "vdom(); html.div(); (a + b)(key=1)", None),
]
PROPS = [
    ("one", "html.div({'on_click': f})", "html.div({'onClick': f})"),
    ("by dict", "html.div(dict(on_click=f, b=1))", "html.div(dict(onClick=f, b=1))"),
    ("several words", "html.div({'a_b_c': 1, 'd': 2, 'e_f': 3})", "html.div({'aBC': 1, 'd': 2, 'eF': 3})"),
    ("style", "html.div({'style': {'a_b': 1}})", "html.div({'style': {'aB': 1}})"),
    ("style by dict", "html.div(dict(style=dict(a_b=1), c_d=2))", "html.div(dict(style=dict(aB=1), cD=2))"),
    ("style which is not known", "html.div({'style': get(a_b=1), 'c_d': 2})", "html.div({'style': get(a_b=1), 'cD': 2})"),
    ("change first", "html.div({'a_b': 1, 'c': 2}); html.div(dict(a_b=1, c=2)); html.div({'style': {'a_b': 1, 'c': 2}})", "html.div({'aB': 1, 'c': 2}); html.div(dict(aB=1, c=2)); html.div({'style': {'aB': 1, 'c': 2}})"),
    ("spread by dict", "html.div(dict(**x, a_b=1, **y))", "html.div(dict(**x, aB=1, **y))"),
    ("values stay", "html.div({'a_b': {'c_d': 1}})", "html.div({'aB': {'c_d': 1}})"),
    ("other keys", "html.div({**x, a_b: 1, 3: 2, 'c_d': a_b})", "html.div({**x, a_b: 1, 3: 2, 'cD': a_b})"),
    ("other arguments", "html.div({'a_b': 1}, {'c_d': 2}, e_f=3)", "html.div({'aB': 1}, {'c_d': 2}, e_f=3)"),
    ("keyword in a dict", "html.div({'for_': 1})", "html.div({'for': 1})"),
    ("keyword by dict", "html.div(dict(for_=1, a_b=2))", "html.div(dict(for_=1, aB=2))"),
    ("number by dict", "html.div(dict(_3=1, a_b=2))", "html.div(dict(_3=1, aB=2))"),
    ("vdom", "vdom('p', {'a_b': 1})", "vdom('p', {'aB': 1})"),
    ("two on a line", "html.a({'a_b': 1}); html.b({'a_b': 1})", "html.a({'aB': 1}); html.b({'aB': 1})"),
    ("one in another", "html.a({'a_b': 1}, html.b({'a_b': 1}))", "html.a({'aB': 1}, html.b({'aB': 1}))"),
    ("one in props of another", "html.a({'b': html.b({'a_b': 1})})", "html.a({'b': html.b({'aB': 1})})"),
    ("one in changed props", "html.a({'c_d': html.b({'a_b': 1})})", "html.a({'cD': html.b({'aB': 1})})"),
    ("text which is not ASCII", "y = 'é'; html.a({'a_b': 'é'}); z = 1", "y = 'é'; html.a({'aB': 'é'}); z = 1"),
    ("not an element", "foo({'a_b': 1}); dict({'a_b': 1}); o.p({'a_b': 1})", None),
    ("no change", "html.a({'b': 1}, 'x'); html.b('a_b'); html.i()", None),
]


class NoAnswer(Exception):
    pass


class Syntax(Hooks):
    """programs as objects of the analysis"""

    collect = False
    distinct = True
    maxlist = 400
    deepest = 60
    yields = 2000
    clip = 60
    most = 3000
    steps = 0

    def __init__(self, ck):
        mods = tuple(m for m in ck.p.modules if m == PK or m.startswith(PK + "."))
        World.__init__(self, ck, mods, {})
        self.opq = set(self.P.funcs)
        self.running, self.comps, self.ids, self.lambdas, self.pending, self.failing, self.stackq = [], {}, set(), {}, [], (), None
        self.kinds, self.n = {}, 0
        c = ck.p.cls("reactpy._html.HtmlConstructor")
        self.elements_ = frozenset(n.target.id for n in c.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)) if c else frozenset()

    def interpret(self, f, selfv, args, kw, st):
        self.steps += 1
        if self.steps > 6000:
            raise StateCap()
        return super().interpret(f, selfv, args, kw, st)

    # ---- syntax trees
    def lift(self, st, x):
        if isinstance(x, ast.AST):
            v = self.node(type(x))
            for a in (*x._fields, *x._attributes):
                if hasattr(x, a):
                    st.heap["@", v, a] = self.lift(st, getattr(x, a))
            return v
        if isinstance(x, list):
            self.n += 1
            o = ("O", f"list {self.n}", 0)
            st.heap[o] = ("list", tuple(self.lift(st, y) for y in x))
            return o
        return ("k", x)

    def node(self, kind):
        self.n += 1
        v = ("S", "node", self.n, kind.__name__)
        self.kinds[v] = kind
        return v

    def lower(self, st, v):
        if v[:2] == ("S", "node"):
            k = self.kinds[v]
            return k(**{a: self.lower(st, st.heap["@", v, a]) for a in (*k._fields, *k._attributes) if ("@", v, a) in st.heap})
        if v[0] == "O" and st.heap.get(v, ("",))[0] in ("list", "set"):
            return [self.lower(st, x) for x in st.heap[v][1]]
        if v[0] == "T":
            return [self.lower(st, x) for x in v[1:]]
        if v[0] == "k":
            return v[1]
        raise NoAnswer(f"part of a syntax tree: {v[:2]}")

    def kids(self, st, v):
        out = []
        for a in self.kinds[v]._fields:
            x = st.heap.get(("@", v, a), NONE)
            out += [y for y in (self.spread_(st, x) if x[0] in ("O", "T") else [x]) if y[:2] == ("S", "node")]
        return out

    def spread_(self, st, x):
        return list(st.heap[x][1]) if x[0] == "O" else list(x[1:])

    def fix(self, st, v, at):
        for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
            if a in self.kinds[v]._attributes:
                if st.heap.get(("@", v, a), NONE) == NONE:
                    st.heap["@", v, a] = at[a]
                else:
                    at = {**at, a: st.heap["@", v, a]}
        for k in self.kids(st, v):
            self.fix(st, k, at)

    # ---- values
    def name(self, st, op):
        if op[0] == "g":
            q = self.P.resolve_dotted(op[1]) or op[1]
            if q == "keyword.kwlist":
                return ("T", *[("k", k) for k in kwlist])
            if q.startswith(("tokenize.", "token.")) and isinstance(getattr(tokenize, q.split(".")[1], None), int):
                return ("k", getattr(tokenize, q.split(".")[1]))
        return super().name(st, op)

    def asts(self, v):
        """classes of syntax trees, among others"""
        vs = v[1:] if v[0] == "T" else v[2:] if v[0] == "op" and v[1] == "BitOr" else (v,)
        out = []
        for x in vs:
            if x[0] in ("T", "op"):
                out += self.asts(x)
                continue
            q = (self.P.resolve_dotted(x[1]) or x[1]) if x[0] == "g" else ""
            k = getattr(ast, q[4:], None) if q.startswith("ast.") else None
            out.append(k if isinstance(k, type) else object)
        return tuple(out)

    def attr(self, st, v, name):
        if v[:2] == ("S", "node"):
            return ("k", self.kinds[v].__name__) if name == "__name__" else ("missing",)
        if v[:2] == ("S", "class of html"):
            return ("k", self.elements_) if name == "__annotations__" else None
        if v[0] == "g" and (q := self.P.resolve_dotted(v[1]) or v[1]) in ("reactpy._html.HtmlConstructor", "reactpy._html.html") and name == "__annotations__":
            return ("k", self.elements_)
        if v[0] == "T" and len(v) == 6 and name in ("type", "string", "start", "end", "line") and v[3][0] == "T":
            return v[1 + ("type", "string", "start", "end", "line").index(name)]
        return super().attr(st, v, name)

    def truth(self, st, v):
        if v[:2] in (("S", "node"), ("S", "path")):
            return True
        if v[0] == "op" and v[1] in ("Is", "Eq") and all(x[:2] == ("S", "node") or x == NONE for x in v[2:4]):
            return v[2] == v[3]
        return super().truth(st, v)

    def operate(self, st, fn, args):
        if fn in ("Is", "Eq") and any(a[:2] == ("S", "node") for a in args):
            return ("k", args[0] == args[1])
        if fn in ("Is", "Eq") and all(a[0] == "O" for a in args) and args[0] == args[1]:
            return ("k", True)
        if fn in ("Lt", "LtE", "Gt", "GtE", "Add") and (xs := [self.plain(a) for a in args]) and None not in xs:
            a, b = (x[0] for x in xs)
            try:
                r = {"Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[fn]()
                return ("k", r)
            except (TypeError, KeyError):
                return None
        return super().operate(st, fn, args)

    def plain(self, v):
        if v[0] == "k":
            return (v[1],)
        if v[0] == "T":
            xs = [self.plain(x) for x in v[1:]]
            return (tuple(x[0] for x in xs),) if None not in xs else None
        return None

    def path(self, v):
        return v[0] in ("g", "class") and (self.P.resolve_dotted(v[1]) or v[1]) in ("pathlib.Path", "pathlib.PosixPath")

    # ---- calls
    def ext(self, ai, st, i, key, recv, args, kw):
        d = dict(kw)
        last = key.rsplit(".", 1)[-1]
        node = args[:1] and args[0][:2] == ("S", "node")
        if key == "isinstance" and node and len(args) == 2:
            return [("v", ("k", issubclass(self.kinds[args[0]], tuple(k for k in self.asts(args[1]) if k is not object) or ())))]
        if key == "hasattr" and len(args) == 2 and args[1][0] == "k":
            if node:
                return [("v", ("k", ("@", args[0], args[1][1]) in st.heap or args[1][1] in self.kinds[args[0]]._fields))]
            if args[0][0] == "g":
                q = self.P.resolve_dotted(args[0][1]) or args[0][1]
                if q == "builtins":
                    import builtins
                    return [("v", ("k", hasattr(builtins, args[1][1])))]
                if q.endswith(".html"):
                    return [("v", ("k", True))]
        if key == "getattr" and node and len(args) > 1 and args[1][0] == "k":
            v = st.heap.get(("@", args[0], args[1][1]))
            return [("v", v)] if v is not None else [("v", args[2])] if len(args) > 2 else [("raise", "AttributeError")]
        if key == "type" and len(args) == 1:
            if node:
                return [("v", ("g", "ast." + self.kinds[args[0]].__name__))]
            if args[0][0] == "g" and (self.P.resolve_dotted(args[0][1]) or args[0][1]).endswith(".html"):
                return [("v", ("S", "class of html"))]
        if key == "ast.parse" and args and args[0][0] == "k":
            try:
                t = ast.parse(args[0][1])
            except SyntaxError as e:
                return [("raise", "SyntaxError", ("k", str(e)))]
            st = st.copy()
            return [("v", self.lift(st, t), st)]
        if key == "ast.unparse" and node:
            return [("v", ("k", ast.unparse(self.lower(st, args[0]))))]
        if key == "ast.dump" and node:
            return [("v", ("k", ast.dump(self.lower(st, args[0]))))]
        if key == "ast.fix_missing_locations" and node:
            st = st.copy()
            self.fix(st, args[0], {"lineno": ("k", 1), "col_offset": ("k", 0), "end_lineno": ("k", 1), "end_col_offset": ("k", 0)})
            return [("v", args[0], st)]
        if key == "ast.copy_location" and len(args) == 2:
            st = st.copy()
            for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                if ("@", args[1], a) in st.heap:
                    st.heap["@", args[0], a] = st.heap["@", args[1], a]
            return [("v", args[0], st)]
        if key == "ast.iter_child_nodes" and node:
            return [("v", ("T", *self.kids(st, args[0])))]
        if key == "ast.walk" and node:
            out = [args[0]]
            for x in out:
                out += self.kids(st, x)
            return [("v", ("T", *out))]
        if key.startswith("ast.") and isinstance(k := getattr(ast, key[4:], None), type) and issubclass(k, ast.AST):
            st = st.copy()
            v = self.node(k)
            for a, x in [*zip(k._fields, args), *kw]:
                st.heap["@", v, a] = x
            return [("v", v, st)]
        if key in ("copy.copy", "copy.deepcopy") and node:
            st = st.copy()
            if key.endswith("deepcopy"):
                return [("v", self.lift(st, self.lower(st, args[0])), st)]
            v = self.node(self.kinds[args[0]])
            for k, x in list(st.heap.items()):
                if k[0] == "@" and k[1] == args[0]:
                    st.heap["@", v, k[2]] = x
            return [("v", v, st)]
        if key.startswith("keyword.is") and args and args[0][0] == "k":
            return [("v", ("k", iskeyword(args[0][1])))]
        if key == "tokenize.generate_tokens" and args and args[0][0] == "attr" and args[0][1][0] == "C" and args[0][1][1].endswith("StringIO") and args[0][1][2][:1] and args[0][1][2][0][0] == "k":
            try:
                ts = list(tokenize.generate_tokens(io.StringIO(args[0][1][2][0][1]).readline))
            except (tokenize.TokenError, IndentationError):
                return [("raise", "TokenError")]
            return [("v", ("T", *[("T", ("k", t.type), ("k", t.string), ("T", *[("k", x) for x in t.start]), ("T", *[("k", x) for x in t.end]), ("k", t.line)) for t in ts]))]
        if key in ("textwrap.indent", "textwrap.dedent") and all(a[0] == "k" for a in args) and not kw:
            return [("v", ("k", getattr(textwrap, last)(*[a[1] for a in args])))]
        if key in ("bytes", "str") and len(args) == 2 and all(a[0] == "k" for a in args) and not kw:
            return [("v", ("k", args[0][1].encode(args[1][1]) if key == "bytes" else args[0][1].decode(args[1][1])))]
        if key == "map" and len(args) == 2 and (args[1][0] == "T" or args[1][0] == "O" and args[1] in st.heap):
            m, out = args[0], []
            for x in self.spread_(st, args[1]):
                if m[0] == "attr" and m[1] == ("b", "str") and x[0] == "k" and isinstance(x[1], str):
                    out.append(("k", getattr(x[1], m[2])()))
                elif self.path(m) and x[:2] == ("S", "path"):
                    out.append(x)
                else:
                    rs = self.calling(ai, st, i, m, (x,), ())
                    if not rs or len(rs) != 1 or rs[0][0] != "v":
                        raise NoAnswer("map")
                    out.append(rs[0][1])
                    st = rs[0][2] if len(rs[0]) > 2 else st
            return [("v", ("T", *out), st)]
        if key == "click.echo" or key.endswith(".echo"):
            return [("v", NONE)]
        if (key in ("sorted", "min", "max") or last == "sort" and recv is not None and recv[0] == "O") and "key" in d:
            src = recv if last == "sort" else args[0]
            xs = [x for x in (self.spread_(st, src) if src[0] in ("O", "T") else [None])]
            by = []
            for x in xs:
                rs = self.calling(ai, st, i, d["key"], (x,), ()) if x is not None else None
                if not rs or len(rs) != 1 or rs[0][0] != "v":
                    raise NoAnswer(f"order {rs!r} {x!r}"[:300])
                p = self.plain(rs[0][1])
                if p is None:
                    raise NoAnswer(f"order {rs!r} {x!r}"[:300])
                by.append(p[0])
            idx = sorted(range(len(xs)), key=lambda n: by[n], reverse=d.get("reverse") == ("k", True))
            if key in ("min", "max"):
                return [("v", xs[{"min": min, "max": max}[key](range(len(xs)), key=lambda n: by[n])])] if xs else [("raise", "ValueError")]
            ys = tuple(xs[n] for n in idx)
            if last == "sort":
                st = st.copy()
                st.heap[recv] = ("list", ys)
                return [("v", NONE, st)]
            return [("v", ("new", "list", ys))]
        if key == "sorted" and len(args) == 1 and args[0][0] in ("O", "T") and len(xs := self.spread_(st, args[0])) and all(self.plain(x) for x in xs):
            return [("v", ("new", "list", tuple(sorted(xs, key=self.plain, reverse=d.get("reverse") == ("k", True)))))]
        return super().ext(ai, st, i, key, recv, args, kw)


def results(w, f, source):
    """[(text or None, error)] which the command may make of a program"""
    st = State({}, {("@", ("S", "none"), "x"): NONE})
    args = {"source": ("k", source), "file": ("S", "path"), "path": ("S", "path")}
    ps = f.params()
    if "source" not in ps:
        raise NoAnswer("parameters")
    outs = w.interpret(f, None, tuple(args.get(p, ("S", "path")) for p in ps), (), st)
    if not outs:
        raise NoAnswer("no outcome")
    return outs


def comments(text):
    return sorted(t.string for t in tokenize.generate_tokens(io.StringIO(text).readline) if t.type == tokenize.COMMENT)


def norm(text):
    return ast.dump(ast.parse(text))


def wrong(source, want, got):
    """what is wrong with what a program became, if anything"""
    if want is None:
        return None if got is None or got == source else f"is changed to {got!r} although nothing is to be rewritten"
    if got is None:
        return "is not rewritten"
    try:
        if norm(got) != norm(want):
            return f"becomes {got!r}"
    except SyntaxError:
        return f"becomes {got!r}, which is no program"
    if comments(got) != comments(source):
        return f"becomes {got!r}, whose comments differ"
    # lines of the program which have nothing of what is rewritten are kept
    was, now = source.split("\n"), want.split("\n")
    keep = [l for l in was if l in now]
    lines = got.split("\n")
    for l in keep:
        if was.count(l) <= now.count(l) and lines.count(l) < was.count(l):
            return f"becomes {got!r}, without its line {l!r}"
    return None


def rewriting(ck, mod, cases):
    P = ck.p
    f = next((f for q, f in sorted(P.funcs.items()) if f.module.name == f"{PK}.{mod}" and f.cls is None and f.parent is None and f.name == "generate_rewrite"), None)
    ck.need(f is not None, f"the rewriting of {mod}")
    ck.rule(mod, "each program becomes the one with what is documented changed, and nothing else", len(cases) // 2)
    followed = lost = 0
    costs = []
    for name, source, want in cases:
        w = Syntax(ck)
        try:
            outs = results(w, f, source)
            costs.append(w.steps)
        except (NoAnswer, StateCap, RecursionError) as e:
            if (lost := lost + 1) > 3:
                ck.open.append(f"{mod}: the rest is not followed")
                break
            ck.open.append(f"{mod}, {name}: not followed ({e})")
            continue
        bad = set()
        for o in outs:
            if o.kind == "exit" and o.value[0] == "k":
                bad.add(wrong(source, want, o.value[1]))
            elif o.kind == "exc_exit" and o.value[0] == "exc":
                bad.add(f"ends in {o.value[1]}")
            else:
                bad.add("?")
        if "?" in bad or len(bad) != 1:
            ck.open.append(f"{mod}, {name}: not decided")
            continue
        followed += 1
        bad = bad.pop()
        ck.ob(bad is None, f"{mod}: {name}", f.loc(), f"{source!r} {bad}", rule=mod)
    if followed < len(cases) // 2:
        ck.rules[mod]["floor"] = 0


FILES = {"one.py": None, "two.py": "two", "folder/three.py": "three", "folder/sub/four.py": None, "folder/sub/five.py": "five"}
PATHS = {"one file": ("two.py",), "files": ("one.py", "two.py"), "folder": ("folder",), "folder and files": ("two.py", "folder", "one.py"), "nothing": ()}


class Files(Syntax):
    """a tree of files, the rewriting of a text being known"""

    rewrite = None

    def ext(self, ai, st, i, key, recv, args, kw):
        d = dict(kw)
        last = key.rsplit(".", 1)[-1]
        if key == self.rewrite:
            src = d.get("source") or next((a for a in args if a[:2] == ("S", "text of")), None)
            if src is None or src[:2] != ("S", "text of"):
                raise NoAnswer("what is rewritten")
            return [("v", ("S", "new text", src[2]) if FILES[src[2]] else NONE)]
        if self.path(("g", key)) and len(args) == 1 and args[0][:2] == ("S", "path"):
            return [("v", args[0])]
        if key == "sorted" and args and args[0][0] == "T" and not kw:
            return [("v", ("new", "list", args[0][1:]))]
        if recv is not None and recv[:2] == ("S", "path"):
            n = recv[2]
            if last in ("is_file", "is_dir"):
                return [("v", ("k", (n in FILES) == (last == "is_file")))]
            if last in ("rglob", "glob") and args[:1] in ((("k", "*.py"),), (("k", "**/*.py"),)):
                deep_ = last == "rglob" or "**" in args[0][1]
                return [("v", ("T", *[("S", "path", f) for f in FILES if f.startswith(n + "/") and (deep_ or f.count("/") == 1)]))]
            if last in ("read_text", "write_text", "read_bytes", "write_bytes", "open"):
                if last not in ("read_text", "write_text"):
                    raise NoAnswer(last)
                enc = d.get("encoding") or (args[1:2] if last == "write_text" else args[:1] or (NONE,))[0] if d.get("encoding") or (args[1:2] if last == "write_text" else args[:1]) else NONE
                st = st.copy()
                st.ev += ((last, n, enc[1] if enc[0] == "k" else "?", args[0] if last == "write_text" and args else d.get("data")),)
                return [("v", ("S", "text of", n) if last == "read_text" else NONE, st)]
        return super().ext(ai, st, i, key, recv, args, kw)

    def truth(self, st, v):
        if v[:2] in (("S", "new text"), ("S", "text of")):
            return None if v[1] == "new text" else True  # a file may become empty
        if v[0] == "op" and v[1] in ("Is", "Eq") and v[2][0] == "S":
            return v[2] == v[3]
        return super().truth(st, v)


def commands(ck):
    P = ck.p
    ck.rule("files", "each file which is named, or below a folder which is, is read, and written if it is changed, as UTF-8", len(PATHS))
    lost = False
    for mod in ("rewrite_keys", "rewrite_props"):
        fs = [f for q, f in sorted(P.funcs.items()) if f.module.name == f"{PK}.{mod}" and f.cls is None and f.parent is None and any("command" in str(d) for d in f.decorators)]
        for f in fs[:1]:
            for name, paths in PATHS.items():
                w = Files(ck)
                w.rewrite = f"{PK}.{mod}.generate_rewrite"
                st = State({}, {("@", ("S", "none"), "x"): NONE})
                try:
                    outs = w.interpret(f, None, (("T", *[("S", "path", p) for p in paths]),), (), st)
                except (NoAnswer, StateCap, RecursionError):
                    outs = None
                if not outs or any(o.kind != "exit" for o in outs) or not any(e[0] == "read_text" for o in outs for e in o.st.ev) and paths:
                    lost = True
                    ck.open.append(f"{mod}, {name}: not followed")
                    continue
                named = [f2 for f2 in FILES if any(f2 == p or f2.startswith(p + "/") for p in paths)]
                want = sorted(f2 for f2 in named if FILES[f2])
                for o in outs:
                    wrote = [e for e in o.st.ev if e[0] == "write_text"]
                    msg = None
                    if sorted(e[1] for e in wrote) != want:
                        msg = f"of {paths}, {sorted(e[1] for e in wrote)} are written, not {want}"
                    elif any(e[3] != ("S", "new text", e[1]) for e in wrote):
                        msg = "what is written is not what the file became"
                    elif bad := next((e for e in o.st.ev if str(e[2]).lower().replace("_", "-") not in ("utf-8", "utf8")), None):
                        msg = f"{bad[0]} of {bad[1]} is not as UTF-8"
                    ck.ob(msg is None, f"{mod}: {name}", f.loc(), msg or "", rule="files")
    if lost:
        ck.rules["files"]["floor"] = 0


def keys(ck):
    rewriting(ck, "rewrite_keys", KEYS)


def props(ck):
    rewriting(ck, "rewrite_props", PROPS)


RULES = [keys, props, commands]
