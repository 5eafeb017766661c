H = "src/reactpy/core/hooks.py"
DEC = """    if memo.empty():
        # we need to initialize on the first run
        changed = True
    elif dependencies is None:
        changed = True
    elif (
        len(memo.deps) != len(dependencies)
        # if deps are same length check identity for each item
        or not all(
            strictly_equal(current, new)
            for current, new in zip(memo.deps, dependencies, strict=False)
        )
    ):
        changed = True
    else:
        changed = False

"""
TWO = """    if changed:

        def setup(function: Callable[[], _Type]) -> _Type:
            current_value = memo.value = function()
            # only remember the dependencies once the value was computed from them
            memo.deps = () if dependencies is None else dependencies
            return current_value

    else:

        def setup(function: Callable[[], _Type]) -> _Type:
            return memo.value

"""
INF = """    if values is not ...:
        return values
    if isinstance(func, FunctionType):
        return (
            [cell.cell_contents for cell in func.__closure__]
            if func.__closure__
            else []
        )
    else:
        return None
"""
CASES = [
    ("any", "bug", [(H, "or not all(\n            strictly", "or not any(\n            strictly")]),
    ("no length", "bug", [(H, "        len(memo.deps) != len(dependencies)\n        # if deps are same length check identity for each item\n        or not all(", "        not all(")]),
    ("no none", "bug", [(H, "    elif dependencies is None:\n        changed = True\n    elif (\n", "    elif dependencies is not None and (\n")]),
    ("deps before", "bug", [(H, """            current_value = memo.value = function()
            # only remember the dependencies once the value was computed from them
            memo.deps = () if dependencies is None else dependencies
""", """            memo.deps = () if dependencies is None else dependencies
            current_value = memo.value = function()
""")]),
    ("deps not stored", "bug", [(H, "            memo.deps = () if dependencies is None else dependencies\n", "            pass\n")]),
    ("deps stored once", "bug", [(H, "            memo.deps = () if dependencies is None else dependencies\n", "            if first:\n                memo.deps = () if dependencies is None else dependencies\n"), (H, "    if memo.empty():\n", "    first = memo.empty()\n    if first:\n")]),
    ("value not stored", "bug", [(H, "            current_value = memo.value = function()\n", "            current_value = function()\n")]),
    ("inverted", "bug", [(H, "        changed = True\n    else:\n        changed = False", "        changed = False\n    else:\n        changed = True")]),
    ("closure filter", "bug", [(H, "for cell in func.__closure__]", "for cell in func.__closure__ if cell.cell_contents is not None]")]),
    ("closure first", "bug", [(H, "for cell in func.__closure__]", "for cell in func.__closure__[1:]]")]),
    ("no inference in callback", "bug", [(H, "    dependencies = _try_to_infer_closure_values(function, dependencies)\n    memoize = use_memo(dependencies=dependencies)\n\n    def setup(function: _Callb", "    memoize = use_memo(dependencies=dependencies)\n\n    def setup(function: _Callb")]),
    ("callback default", "bug", [(H, "    function: _CallbackFunc | None = None,\n    dependencies: Sequence[Any] | ellipsis | None = ...,", "    function: _CallbackFunc | None = None,\n    dependencies: Sequence[Any] | ellipsis | None = None,")]),
    ("callback calls", "bug", [(H, "return memoize(lambda: function)", "return memoize(function)")] ) if False else ("type check", "bug", [(H, "    if type(x) is not type(y):\n        return False\n", "    if type(x) is not type(y) and not isinstance(x, type(y)):\n        return False\n")]),
    ("consts ignored", "bug", [(H, '                "co_end_col_offset",\n', '                "co_end_col_offset",\n                "co_consts",\n')]),
    ("any code", "bug", [(H, "        return all(\n            getattr(x.__code__", "        return any(\n            getattr(x.__code__")]),
    ("raw eq", "bug", [(H, "return bool(x == y)", "return x == y")]),
    ("identity only", "bug", [(H, "            return bool(x == y)", "            return x is y")]),
    ("global memo", "bug", [(H, "    memo: _Memo[_Type] = _use_const(_Memo)", "    memo: _Memo[_Type] = _MEMO"), (H, "class _Memo(", "_MEMO = None\n\n\nclass _Memo(")]),
    ("memo value of reuse", "bug", [(H, "    if changed:\n\n        def setup", "    if changed or len(memo.deps) > 8:\n\n        def setup")]),
    # same
    ("one setup", "same", [(H, TWO, """    def setup(function: Callable[[], _Type]) -> _Type:
        if changed:
            memo.value = function()
            memo.deps = () if dependencies is None else dependencies
        return memo.value

""")]),
    ("helper", "same", [(H, DEC, "    changed = memo.empty() or _deps_changed(memo.deps, dependencies)\n\n"), (H, "class _Memo(", """def _deps_changed(old, new):
    if new is None:
        return True
    if len(old) != len(new):
        return True
    for a, b in zip(old, new):
        if not strictly_equal(a, b):
            return True
    return False


class _Memo(""")]),
    ("expression", "same", [(H, DEC, """    changed = (
        memo.empty()
        or dependencies is None
        or len(memo.deps) != len(dependencies)
        or not all(map_equal(memo.deps, dependencies))
    )

""".replace("not all(map_equal(memo.deps, dependencies))", "any(not strictly_equal(a, b) for a, b in zip(memo.deps, dependencies, strict=False))"))]),
    ("hasattr", "same", [(H, """        try:
            self.value  # noqa: B018
        except AttributeError:
            return True
        else:
            return False
""", "        return not hasattr(self, \"value\")\n")]),
    ("inference", "same", [(H, INF, """    if values is ...:
        if not isinstance(func, FunctionType):
            return None
        return [cell.cell_contents for cell in (func.__closure__ or ())]
    return values
""")]),
    ("loop inference", "same", [(H, INF, """    if values is not ...:
        return values
    if not isinstance(func, FunctionType):
        return None
    result = []
    for cell in func.__closure__ or []:
        result.append(cell.cell_contents)
    return result
""")]),
    ("ignored const", "same", [(H, """            not in {
                "co_positions",
                "co_linetable",
                "co_lines",
                "co_lnotab",
                "co_branches",
                "co_firstlineno",
                "co_end_lineno",
                "co_col_offset",
                "co_end_col_offset",
            }
""", "            not in _LOC\n"), (H, "def strictly_equal(", """_LOC = {
                "co_positions",
                "co_linetable",
                "co_lines",
                "co_lnotab",
                "co_branches",
                "co_firstlineno",
                "co_end_lineno",
                "co_col_offset",
                "co_end_col_offset",
            }


def strictly_equal(""")]),
    ("types eq", "same", [(H, "    if type(x) is not type(y):\n        return False\n", "    same_type = type(x) is type(y)\n    if not same_type:\n        return False\n")]),
    ("rename", "same", [(H, "            memo.deps = () if dependencies is None else dependencies\n", "            memo.deps = dependencies if dependencies is not None else ()\n")]),
    ("early return", "same", [(H, "    return setup(function) if function is not None else setup\n\n\nclass _Memo", "    if function is None:\n        return setup\n    return setup(function)\n\n\nclass _Memo")]),
    ('zip shorter', 'bug', [('src/reactpy/core/hooks.py', '        len(memo.deps) != len(dependencies)\n', '        len(memo.deps) > len(dependencies)\n')]),
    ('any instead', 'bug', [('src/reactpy/core/hooks.py', '        or not all(\n            strictly_equal(current, new)', '        or not any(\n            strictly_equal(current, new)')]),
    ('deps before value', 'bug', [('src/reactpy/core/hooks.py', '            current_value = memo.value = function()\n            # only remember the dependencies once the value was computed from them\n            memo.deps = () if dependencies is None else dependencies', '            memo.deps = () if dependencies is None else dependencies\n            current_value = memo.value = function()')]),
    ('set of deps', 'bug', [('src/reactpy/core/hooks.py', 'zip(memo.deps, dependencies, strict=False)', 'zip(sorted(memo.deps, key=id), sorted(dependencies, key=id), strict=False)')]),
    ('type by isinstance', 'bug', [('src/reactpy/core/hooks.py', '    if type(x) is not type(y):', '    if not isinstance(x, type(y)):')]),
    ('value truth', 'bug', [('src/reactpy/core/hooks.py', '        try:\n            self.value  # noqa: B018\n        except AttributeError:\n            return True\n        else:\n            return False', "        return not getattr(self, 'value', None)")]),
    ('infer only when closure', 'bug', [('src/reactpy/core/hooks.py', '            if func.__closure__\n            else []', '            if func.__closure__\n            else None')]),
    ('infer None', 'bug', [('src/reactpy/core/hooks.py', '    if values is not ...:\n        return values', '    if values is not ... and values is not None:\n        return values')]),
    ('code names', 'bug', [('src/reactpy/core/hooks.py', 'getattr(x.__code__, attr) == getattr(y.__code__, attr)\n            for attr in dir(x.__code__)', 'getattr(x.__code__, attr) == getattr(y.__code__, attr)\n            for attr in ("co_code", "co_names")')]),
    ('callback ignores', 'same?', [('src/reactpy/core/hooks.py', '        return memoize(lambda: function)\n', '        return memoize(lambda: function) or function\n')]),
    ('callback no deps', 'bug', [('src/reactpy/core/hooks.py', '    memoize = use_memo(dependencies=dependencies)\n\n    def setup(function: _CallbackFunc)', '    memoize = use_memo(dependencies=dependencies or [])\n\n    def setup(function: _CallbackFunc)')]),
    ('eq failing true', 'bug', [('src/reactpy/core/hooks.py', '        with contextlib.suppress(Exception):\n            # the', '        with contextlib.suppress(TypeError):\n            # the')]),
    ('unfixed: list of dependencies is kept', 'bug', [('src/reactpy/core/hooks.py', 'else tuple(dependencies)', 'else dependencies')]),
    ('dependencies copied to a list', 'same', [('src/reactpy/core/hooks.py', 'else tuple(dependencies)', 'else [*dependencies]')]),
    ('dependencies copied at once', 'same', [('src/reactpy/core/hooks.py', '    dependencies = _try_to_infer_closure_values(function, dependencies)\n\n    memo: _Memo', '    dependencies = _try_to_infer_closure_values(function, dependencies)\n    if dependencies is not None:\n        dependencies = tuple(dependencies)\n\n    memo: _Memo'), ('src/reactpy/core/hooks.py', 'else tuple(dependencies)', 'else dependencies')]),
]
