U = "src/reactpy/executors/pyscript/utils.py"
T = "src/reactpy/executors/pyscript/component_template.py"
L = "src/reactpy/executors/pyscript/layout_handler.py"
COMMENT = """            if token.type == tokenize.COMMENT:
                row, column = token.start
                lines[row - 1] = lines[row - 1][:column]
"""
DOC = "                if rest and rest[0].lineno > (docstring.end_lineno or 0):\n"
MIN = """    minified = [
        line if row + 1 in within_string else line.rstrip()
        for row, line in enumerate(lines, start=1)
        if row in within_string or line.strip()
    ]
    return "\\n".join(minified).strip()
"""
WITHIN = """    return {
        row
        for token in tokenize.generate_tokens(StringIO(source).readline)
        if token.type in _STRING_TOKENS
        for row in range(token.start[0] + 1, token.end[0] + 1)
    }
"""
INDENT = """    lines = []
    for row, line in enumerate(source.split("\\n"), start=1):
        if row not in within_string and line.strip():
            code = line.lstrip()
            indent = line[: len(line) - len(code)].replace("\\t", "    ")
            line = f"    {indent}{code}"
        lines.append(line)
    return "\\n".join(lines)
"""
ALL = """    all_file_contents: list[str] = []
    all_file_contents.extend(cache_handler(file_path) for file_path in file_paths)
"""
ROOTCHECK = """    if f"def {root}():" not in user_code:
        raise ValueError(
            f"Could not find the root component function '{root}' in your PyScript file(s)."
        )
"""
REQ = """    pyscript_config["packages"].extend(extra_py)

    # FIXME: https://github.com/pyscript/pyscript/issues/2282
    if any(pkg.endswith(".whl") for pkg in pyscript_config["packages"]):  # nocov
        pyscript_config["packages_cache"] = "never"
"""
OWN = """    if config and isinstance(config, str):
        pyscript_config.update(json.loads(config))
    elif config and isinstance(config, dict):
        pyscript_config.update(config)
    return json.dumps(pyscript_config)
"""
CASES = [
    # --- minified code
    ("comments by splitting", "bug", [(U, "lines[row - 1] = lines[row - 1][:column]", 'lines[row - 1] = lines[row - 1].split("#")[0]')]),
    ("empty lines within strings dropped", "bug", [(U, "        if row in within_string or line.strip()\n", "        if line.strip()\n")]),
    ("spaces within strings dropped", "bug", [(U, "        line if row + 1 in within_string else line.rstrip()", "        line.rstrip()")]),
    ("f-strings forgotten", "bug", [(U, '_STRING_TOKENS = {tokenize.STRING, getattr(tokenize, "FSTRING_MIDDLE", None)}', "_STRING_TOKENS = {tokenize.STRING}")]),
    ("last line of a string forgotten", "bug", [(U, "range(token.start[0] + 1, token.end[0] + 1)", "range(token.start[0] + 1, token.end[0])")]),
    ("body without its only statement", "bug", [(U, DOC, "                if (rest or docstring) and (not rest or rest[0].lineno > (docstring.end_lineno or 0)):\n")]),
    ("code in the line of the docstring", "bug", [(U, DOC, "                if rest:\n")]),
    ("all leading strings", "bug", [(U, "for row in range(docstring.lineno, docstring.end_lineno + 1):", "for row in range(docstring.lineno, rest[0].lineno + (rest[0].col_offset == 0)):")]),
    ("first and last line of a docstring", "bug", [(U, "for row in range(docstring.lineno, docstring.end_lineno + 1):", "for row in range(docstring.lineno, docstring.end_lineno):")]),
    ("what is not Python is an error", "bug", [(U, "    except (SyntaxError, tokenize.TokenError):\n        return source.strip()", "    except tokenize.TokenError:\n        return source.strip()")]),
    ("what does not end is an error", "bug", [(U, "    except (SyntaxError, tokenize.TokenError):\n        return source.strip()", "    except SyntaxError:\n        return source.strip()")]),
    ("comments, other form", "same", [(U, COMMENT, "            if token.type != tokenize.COMMENT:\n                continue\n            number = token.start[0] - 1\n            lines[number] = lines[number][: token.start[1]]\n")]),
    ("lines in strings, by loop", "same", [(U, WITHIN, "    found = set()\n    for token in tokenize.generate_tokens(StringIO(source).readline):\n        if token.type in _STRING_TOKENS:\n            found.update(range(token.start[0] + 1, token.end[0] + 1))\n    return found\n")]),
    ("minified, by loop", "same", [(U, MIN, '    minified = []\n    for index, line in enumerate(lines):\n        row = index + 1\n        if not line.strip() and row not in within_string:\n            continue\n        minified.append(line if row + 1 in within_string else line.rstrip())\n    return "\\n".join(minified).strip()\n')]),
    # --- the script of a component
    ("strings are indented", "bug", [(U, "        if row not in within_string and line.strip():\n", "        if line.strip():\n")]),
    ("tabs of strings replaced", "bug", [(U, "    user_code = _indent_python(user_code)", '    user_code = _indent_python(user_code.replace("\\t", "    "))')]),
    ("files reversed", "bug", [(U, "for file_path in file_paths)\n", "for file_path in reversed(file_paths))\n")]),
    ("files without line end", "bug", [(U, '    user_code = "\\n".join(all_file_contents)', '    user_code = "".join(all_file_contents)')]),
    ("first file only", "bug", [(U, '    user_code = "\\n".join(all_file_contents)', '    user_code = "\\n".join(all_file_contents[:2])')]),
    ("placeholder within user code", "bug", [(U, '    return executor.replace("    def root(): ...", user_code)', '    return PYSCRIPT_COMPONENT_TEMPLATE.replace("    def root(): ...", user_code).replace("UUID", uuid).replace(\n        "return root()", f"return {root}()"\n    )')]),
    ("root replaced everywhere", "bug", [(U, '    return executor.replace("    def root(): ...", user_code)', '    return executor.replace("    def root(): ...", user_code).replace("return root()", f"return {root}()")')]),
    ("cache not asked", "bug", [(U, "cache_handler = cache_handler or fetch_cached_python_file", "cache_handler = fetch_cached_python_file")]),
    ("no check of the root", "bug", [(U, ROOTCHECK, "")]),
    ("root checked by prefix", "bug", [(U, 'if f"def {root}():" not in user_code', 'if f"{root}()" not in user_code')]),
    ("task under another name", "bug", [(T, "task_UUID = asyncio", "workspace_task_UUID = asyncio")]),
    ("handler of another element", "bug", [(T, 'ReactPyLayoutHandler("UUID")', 'ReactPyLayoutHandler("pyscript-UUID")')]),
    ("task not kept", "bug", [(T, "task_UUID = asyncio.create_task(", "asyncio.create_task(")]),
    ("root kept", "bug", [(T, "    return root()\n", "    return root\n")]),
    ("import lost", "bug", [(T, "import asyncio\n\n", "\n")]),
    ("files by loop", "same", [(U, ALL, "    all_file_contents = []\n    for path in file_paths:\n        all_file_contents.append(cache_handler(path))\n")]),
    ("indent by comprehension", "same", [(U, INDENT, """    def indented(row: int, line: str) -> str:
        if row in within_string or not line.strip():
            return line
        code = line.lstrip()
        spaces = line[: len(line) - len(code)].replace("\\t", " " * 4)
        return " " * 4 + spaces + code

    return "\\n".join(
        indented(row, line) for row, line in enumerate(source.split("\\n"), start=1)
    )
""")]),
    ("one step after another", "same", [(U, '    executor = executor.replace("return root()", f"return {root}()")\n', '    call = f"{root}()"\n    executor = executor.replace("return root()", "return " + call)\n')]),
    ("template with another comment", "same", [(T, "# User component is inserted below by regex replacement", "# The component of the user comes here")]),
    # --- element, script and initial content
    ("element of another id", "bug", [(U, "f'<div id=\"pyscript-{uuid}\"", "f'<div id=\"pyscript-{uuid4().hex[:8]}\"")]),
    ("no id of data", "bug", [(U, ' data-uuid="{uuid}">', ' data-uid="{uuid}">')]),
    ("initial content outside", "bug", [(U, """        f"{_initial}"
        "</div>\"""", """        "</div>"
        f"{_initial}\"""")]),
    ("model as text", "bug", [(U, "_initial = initial if isinstance(initial, str) else reactpy_to_string(initial)", "_initial = str(initial)")]),
    ("text converted", "bug", [(U, "_initial = initial if isinstance(initial, str) else reactpy_to_string(initial)", "_initial = reactpy_to_string(initial)")]),
    ("script not for PyScript", "bug", [(U, """        f"<script type='py'>{executor_code}</script>\"""", """        f"<script type='module'>{executor_code}</script>\"""")]),
    ("parts joined", "same", [(U, """    return (
        f'<div id="pyscript-{uuid}" class="pyscript" data-uuid="{uuid}">'
        f"{_initial}"
        "</div>"
        f"<script type='py'>{executor_code}</script>"
    )
""", """    element = f'<div id="pyscript-{uuid}" class="pyscript" data-uuid="{uuid}">'
    return "".join(
        (element, _initial, "</div>", "<script type='py'>", executor_code, "</script>")
    )
""")]),
    # --- configuration
    ("caller's modules changed", "same", [(U, "        modules = modules.copy()\n", "        modules = dict(modules)\n")]),
    ("packages replaced", "bug", [(U, '    pyscript_config["packages"].extend(extra_py)\n', '    if extra_py:\n        pyscript_config["packages"] = [*extra_py]\n')]),
    ("the application cannot override", "bug", [(U, "        pyscript_config.update(config)\n", "        pyscript_config = {**config, **pyscript_config}\n")]),
    ("text overridden", "bug", [(U, "        pyscript_config.update(json.loads(config))\n", "        pyscript_config = {**json.loads(config), **pyscript_config}\n")]),
    ("wheels cached", "bug", [(U, 'if any(pkg.endswith(".whl")', 'if all(pkg.endswith(".whl")')]),
    ("only extra wheels are not cached", "bug", [(U, 'for pkg in pyscript_config["packages"])', "for pkg in extra_py)")]),
    ("modules replaced", "bug", [(U, '        pyscript_config["js_modules"]["main"].update(extra_js)\n', '        pyscript_config["js_modules"]["main"] = extra_js\n')]),
    ("modules of a text ignored", "bug", [(U, '        pyscript_config["js_modules"]["main"].update(json.loads(extra_js))\n', '        pyscript_config["js_modules"].update(json.loads(extra_js))\n')]),
    ("own package as well", "bug", [(U, '"packages": [reactpy_pkg_string or _reactpy_pkg_string(), ', '"packages": [reactpy_pkg_string or "reactpy", ')]),
    ("prefix of import time", "bug", [(U, 'f"{REACTPY_PATH_PREFIX.current}static/morphdom/morphdom-esm.js": "morphdom"', '"/reactpy/static/morphdom/morphdom-esm.js": "morphdom"')]),
    ("repr instead of JSON", "bug", [(U, "    return json.dumps(pyscript_config)\n", "    return str(pyscript_config)\n")]),
    ("config in one place", "same", [(U, OWN, """    own = json.loads(config) if config and isinstance(config, str) else config
    if own:
        pyscript_config.update(own)
    return json.dumps(pyscript_config)
""")]),
    ("packages in one list", "same", [(U, REQ, """    packages = [*pyscript_config["packages"], *extra_py]
    pyscript_config["packages"] = packages
    for package in packages:
        if package.endswith(".whl"):
            pyscript_config["packages_cache"] = "never"
            break
""")]),
    # --- page
    ("config not escaped", "bug", [(U, """    pyscript_config = html.escape(pyscript_config, quote=False).replace("'", "&#x27;")\n""", "")]),
    ("only quotes escaped", "bug", [(U, """    pyscript_config = html.escape(pyscript_config, quote=False).replace("'", "&#x27;")\n""", """    pyscript_config = pyscript_config.replace("'", "&#x27;")\n""")]),
    ("escaped in the wrong order", "bug", [(U, """    pyscript_config = html.escape(pyscript_config, quote=False).replace("'", "&#x27;")\n""", """    pyscript_config = html.escape(pyscript_config.replace("'", "&#x27;"), quote=False)\n""")]),
    ("debugger inverted", "bug", [(U, "{'' if REACTPY_DEBUG.current else hide_pyscript_debugger}", "{hide_pyscript_debugger if REACTPY_DEBUG.current else ''}")]),
    ("PyScript of a fixed place", "bug", [(U, 'crossorigin="anonymous" src="{REACTPY_PATH_PREFIX.current}static/pyscript/core.js">', 'crossorigin="anonymous" src="/reactpy/static/pyscript/core.js">')]),
    ("component template instead of the handler", "bug", [(U, "config='{pyscript_config}'>{PYSCRIPT_LAYOUT_HANDLER}<", "config='{pyscript_config}'>{PYSCRIPT_COMPONENT_TEMPLATE}<")]),
    ("escaped with the quotes", "same", [(U, """html.escape(pyscript_config, quote=False).replace("'", "&#x27;")""", "html.escape(pyscript_config)")]),
    ("debugger by a condition", "same", [(U, """        f"{'' if REACTPY_DEBUG.current else hide_pyscript_debugger}"\n""", """        f"{hide_pyscript_debugger if not REACTPY_DEBUG.current else ''}"\n""")]),
    ('files sorted', 'bug', [('src/reactpy/executors/pyscript/utils.py', 'cache_handler(file_path) for file_path in file_paths', 'cache_handler(file_path) for file_path in sorted(file_paths)')]),
    ('uuid shared', 'bug', [('src/reactpy/executors/pyscript/utils.py', '    executor_code = pyscript_executor_html(file_paths=file_paths, uuid=uuid, root=root)', '    executor_code = pyscript_executor_html(file_paths=file_paths, uuid=uuid[:8], root=root)')]),
    ('root check skipped', 'bug', [('src/reactpy/executors/pyscript/utils.py', '    if f"def {root}():" not in user_code:', '    if f"def {root}" not in user_code:')]),
    ('indent all', 'bug', [('src/reactpy/executors/pyscript/utils.py', '        if row not in within_string and line.strip():', '        if line.strip():')]),
    ('tabs 8', 'bug', [('src/reactpy/executors/pyscript/utils.py', '.replace("\\t", "    ")', '.expandtabs(8)')]),
    ('config escape', 'bug', [('src/reactpy/executors/pyscript/utils.py', '.replace("\'", "&#x27;")', '')]),
    ('config first', 'bug', [('src/reactpy/executors/pyscript/utils.py', '    pyscript_config["packages"].extend(extra_py)\n', '    pyscript_config["packages"] = list(extra_py) or pyscript_config["packages"]\n')]),
    ('never cache', 'bug', [('src/reactpy/executors/pyscript/utils.py', 'any(pkg.endswith(".whl") for pkg', 'all(pkg.endswith(".whl") for pkg')]),
    ('prefix default', 'bug', [('src/reactpy/executors/pyscript/utils.py', 'src="{REACTPY_PATH_PREFIX.current}static/pyscript/core.js"', 'src="/reactpy/static/pyscript/core.js"')]),
    ('cache by name', 'bug', [('src/reactpy/executors/pyscript/utils.py', '@functools.cache\ndef fetch_cached_python_file(file_path: str, minifiy: bool = True) -> str:\n    content = Path(file_path)', '_files = {}\n\n\ndef fetch_cached_python_file(file_path: str, minifiy: bool = True) -> str:\n    name = Path(file_path).name\n    if name not in _files:\n        _files[name] = _fetch(file_path, minifiy)\n    return _files[name]\n\n\ndef _fetch(file_path: str, minifiy: bool = True) -> str:\n    content = Path(file_path)')]),
    ('template order', 'bug', [('src/reactpy/executors/pyscript/utils.py', '    executor = executor.replace("return root()", f"return {root}()")\n', ''), ('src/reactpy/executors/pyscript/utils.py', '    return executor.replace("    def root(): ...", user_code)', '    executor = executor.replace("    def root(): ...", user_code)\n    return executor.replace("return root()", f"return {root}()")')]),
    ('uuid after', 'bug', [('src/reactpy/executors/pyscript/utils.py', '    executor = PYSCRIPT_COMPONENT_TEMPLATE.replace("UUID", uuid)\n', '    executor = PYSCRIPT_COMPONENT_TEMPLATE\n'), ('src/reactpy/executors/pyscript/utils.py', '    return executor.replace("    def root(): ...", user_code)', '    return executor.replace("    def root(): ...", user_code).replace("UUID", uuid)')]),
    ('initial raw', 'bug', [('src/reactpy/executors/pyscript/components.py', '        pyscript_component_html(tuple(str(fp) for fp in file_paths), initial, root)', '        pyscript_component_html(tuple(str(fp) for fp in file_paths), initial, "root")')]),
    ('file order reversed comp', 'bug', [('src/reactpy/executors/pyscript/components.py', 'tuple(str(fp) for fp in file_paths)', 'tuple({str(fp) for fp in file_paths})')]),
    ('cache dict by path', 'same', [('src/reactpy/executors/pyscript/utils.py', '@functools.cache\ndef fetch_cached_python_file(file_path: str, minifiy: bool = True) -> str:\n    content = Path(file_path)', '_files = {}\n\n\ndef fetch_cached_python_file(file_path: str, minifiy: bool = True) -> str:\n    key = (file_path, minifiy)\n    if key not in _files:\n        _files[key] = _fetch(file_path, minifiy)\n    return _files[key]\n\n\ndef _fetch(file_path: str, minifiy: bool = True) -> str:\n    content = Path(file_path)')]),
    ('cache dict by path get', 'same', [('src/reactpy/executors/pyscript/utils.py', '@functools.cache\ndef fetch_cached_python_file(file_path: str, minifiy: bool = True) -> str:\n    content = Path(file_path)', '_files: dict = {}\n\n\ndef fetch_cached_python_file(file_path: str, minifiy: bool = True) -> str:\n    key = (file_path, minifiy)\n    content = _files.get(key)\n    if content is None:\n        content = _files[key] = _fetch(file_path, minifiy)\n    return content\n\n\ndef _fetch(file_path: str, minifiy: bool = True) -> str:\n    content = Path(file_path)')]),
    ('tag sorts', 'bug', [('src/reactpy/templatetags/jinja.py', 'file_paths=file_paths, initial', 'file_paths=sorted(set(file_paths)), initial')]),
    ('tag root', 'same', [('src/reactpy/templatetags/jinja.py', 'initial=initial, root=root', 'initial=initial, root=root or "root"')]),
    ('tag setup swap', 'bug', [('src/reactpy/templatetags/jinja.py', 'extra_js=extra_js, config=config', 'extra_js=config, config=extra_js')]),
    ('never shown', 'bug', [('src/reactpy/executors/pyscript/components.py', '        set_rendered(True)\n', '        set_rendered(bool(initial))\n')]),
    ('positional', 'same', [('src/reactpy/templatetags/jinja.py', 'pyscript_component_html(file_paths=file_paths, initial=initial, root=root)', 'pyscript_component_html(list(file_paths), initial, root)')]),
    ('component helper', 'same', [('src/reactpy/executors/pyscript/components.py', '    component_vdom = string_to_reactpy(\n        pyscript_component_html(tuple(str(fp) for fp in file_paths), initial, root)\n    )\n    component_vdom["tagName"] = ""\n    return component_vdom', '    paths = [str(path) for path in file_paths]\n    source = pyscript_component_html(paths, initial, root)\n    model = string_to_reactpy(source)\n    model.update(tagName="")\n    return model')]),
]
