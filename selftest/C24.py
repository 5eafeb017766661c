U = "src/reactpy/executors/utils.py"
M = "src/reactpy/executors/asgi/middleware.py"
S = "src/reactpy/executors/asgi/standalone.py"
PY = "src/reactpy/executors/asgi/pyscript.py"
J = "src/reactpy/reactjs/module.py"
T = "src/reactpy/types.py"
CFG = "src/reactpy/config.py"
LOOP = """    for setting in settings:
        config_name = f"REACTPY_{setting.upper()}"
        config_object: Option[Any] | None = getattr(config, config_name, None)
        if config_object:
            config_object.set_current(settings[setting])  # type: ignore
        else:
            raise ValueError(f'Unknown ReactPy setting "{setting}".')
"""
VALID = """        if "path_prefix" in settings:
            reason = check_path(settings["path_prefix"])
            if reason:
                raise ValueError(
                    f'Invalid `path_prefix` of "{settings["path_prefix"]}". {reason}'
                )
"""
DIRV = """        if "web_modules_dir" in settings and not settings["web_modules_dir"].exists():
            raise ValueError(
                f'Web modules directory "{settings["web_modules_dir"]}" does not exist.'
            )
"""
PROC = """
        # Process global settings
        process_settings(settings)
"""
PRE = '        self.path_prefix = config.REACTPY_PATH_PREFIX.current\n'
BOOL = """    if isinstance(value, bool):
        return value
    elif isinstance(value, int):
        return bool(value)
    elif not isinstance(value, str):
        raise TypeError(f"Expected str or bool, got {type(value).__name__}")

    if value.lower() in TRUE_VALUES:
        return True
    elif value.lower() in FALSE_VALUES:
        return False
"""
CASES = [
    ("falsy settings ignored", "bug", [(U, "        if config_object:\n", "        if config_object and settings[setting]:\n")]),
    ("falsy settings skipped", "bug", [(U, LOOP, LOOP.replace("        config_name", "        if not settings[setting]:\n            continue\n        config_name"))]),
    ("unknown settings ignored", "bug", [(U, "        else:\n            raise ValueError(f'Unknown ReactPy setting \"{setting}\".')\n", "")]),
    ("set_default", "bug", [(U, "config_object.set_current(settings", "config_object.set_default(settings")]),
    ("only first", "bug", [(U, LOOP, LOOP + "        break\n")]),
    ("prefix not validated", "bug", [(M, VALID, "")]),
    ("trailing slash not required", "bug", [(U, '    if not url_path.endswith("/"):\n        return "URL path must end with a forward slash."\n', "")]),
    ("empty prefix accepted", "bug", [(M, 'if "path_prefix" in settings:', 'if settings.get("path_prefix"):')]),
    ("validated after processing", "bug", [(M, VALID, ""), (M, PROC, PROC + VALID)]),
    ("directory after processing", "bug", [(M, DIRV, ""), (M, PROC, PROC + DIRV)]),
    ("prefix read before processing", "bug", [(M, PRE, ""), (M, PROC, PRE + PROC)]),
    ("standalone drops settings", "bug", [(S, "super().__init__(app=ReactPyApp(self), root_components=[], **settings)", "super().__init__(app=ReactPyApp(self), root_components=[])")]),
    ("csr drops settings", "bug", [(PY, "root_components=[], **settings", "root_components=[]")]),
    ("setting without option", "bug", [(T, "    reconnect_interval: int\n", "    reconnect_delay: int\n")]),
    ("retries from interval", "bug", [(U, 'reconnectMaxRetries: {REACTPY_RECONNECT_MAX_RETRIES.current}', 'reconnectMaxRetries: {REACTPY_RECONNECT_MAX_INTERVAL.current}')]),
    ("prop renamed", "bug", [(U, "reconnectBackoffMultiplier: {", "reconnectBackoff: {")]),
    ("zero replaced", "bug", [(U, "{REACTPY_RECONNECT_INTERVAL.current}", "{REACTPY_RECONNECT_INTERVAL.current or 750}")]),
    ("prefix at import", "bug", [(U, "\nlogger = logging", "\n_PREFIX = REACTPY_PATH_PREFIX.current\nlogger = logging"), (U, "  pathPrefix: \"{REACTPY_PATH_PREFIX.current}\"", "  pathPrefix: \"{_PREFIX}\"")]),
    ("default argument", "bug", [(J, "    allow_children: bool = True,\n) -> VdomConstructor |", "    allow_children: bool = not REACTPY_DEBUG.current,\n) -> VdomConstructor |")]),
    ("fixed client path", "bug", [(U, 'from "{REACTPY_PATH_PREFIX.current}static/index.js"', 'from "/reactpy/static/index.js"')]),
    ("map id", "bug", [(U, "   im.id = \"reactpy-importmap\";", "   im.id = \"reactpy-import-map\";")]),
    ("esm map id", "bug", [(J, '{"type": "importmap", "id": "reactpy-importmap"},\n            f"""{{\n                "imports": {{\n                    "react": "https://esm.sh/v135/preact', '{"type": "importmap"},\n            f"""{{\n                "imports": {{\n                    "react": "https://esm.sh/v135/preact')]),
    ("version ignored", "bug", [(J, 'version = version or "19"', 'version = "19"')]),
    ("jsx runtime of esm missing", "bug", [(J, ',\n                    "react/jsx-runtime": "https://esm.sh/v135/react@{version}/jsx-runtime{postfix}"', '')]),
    ("boolean of 1", "bug", [(CFG, 'TRUE_VALUES = {"true", "1"}', 'TRUE_VALUES = {"true"}')]),
    ("boolean case", "bug", [(CFG, "if value.lower() in FALSE_VALUES", "if value in FALSE_VALUES")]),
    ("boolean of unknown", "bug", [(CFG, BOOL, BOOL.replace("    elif value.lower() in FALSE_VALUES:", "    elif value.lower() in FALSE_VALUES or not value.strip():"))]),
    ("items", "same", [(U, "    for setting in settings:\n", "    for setting, value in settings.items():\n"), (U, "set_current(settings[setting])", "set_current(value)")]),
    ("early raise", "same", [(U, LOOP, """    for setting in settings:
        option = getattr(config, "REACTPY_" + setting.upper(), None)
        if option is None:
            raise ValueError(f'Unknown ReactPy setting "{setting}".')
        option.current = settings[setting]
""")]),
    ("two passes", "same", [(U, LOOP, """    found = {}
    for setting in settings:
        if not hasattr(config, f"REACTPY_{setting.upper()}"):
            raise ValueError(f'Unknown ReactPy setting "{setting}".')
        found[setting] = getattr(config, f"REACTPY_{setting.upper()}")
    for setting, option in found.items():
        option.set_current(settings[setting])
""")]),
    ("helper for validation", "same", [(M, VALID + DIRV, "        _validate(settings)\n"), (M, "\nclass ReactPyMiddleware:", "\ndef _validate(settings):\n" + "\n".join(x[4:] for x in (VALID + DIRV).splitlines()) + "\n\n\nclass ReactPyMiddleware:")]),
    ("prefix local", "same", [(U, "    return (\n        f'<div id=", "    prefix = REACTPY_PATH_PREFIX.current\n    return (\n        f'<div id="), (U, '  pathPrefix: "{REACTPY_PATH_PREFIX.current}"', '  pathPrefix: "{prefix}"')]),
    ("boolean with table", "same", [(CFG, BOOL, """    if isinstance(value, (bool, int)):
        return bool(value)
    if not isinstance(value, str):
        raise TypeError(f"Expected str or bool, got {type(value).__name__}")

    spelled = value.lower()
    if spelled in TRUE_VALUES:
        return True
    elif spelled in FALSE_VALUES:
        return False
""")]),
    ("config object read by name", "same", [(M, PRE, "        prefix = config.REACTPY_PATH_PREFIX\n        self.path_prefix = prefix.current\n")]),
    ("mount args joined", "same", [(U, """        f"  reconnectMaxInterval: {REACTPY_RECONNECT_MAX_INTERVAL.current},"
        f"  reconnectMaxRetries: {REACTPY_RECONNECT_MAX_RETRIES.current},"
""", """        f"  reconnectMaxRetries: {REACTPY_RECONNECT_MAX_RETRIES.current},reconnectMaxInterval: {REACTPY_RECONNECT_MAX_INTERVAL.current},"
""")]),
    ('retries interval swapped', 'bug', [('src/reactpy/executors/utils.py', 'reconnectMaxInterval: {REACTPY_RECONNECT_MAX_INTERVAL.current}', 'reconnectMaxInterval: {REACTPY_RECONNECT_INTERVAL.current}')]),
    ('prefix const at import', 'bug', [('src/reactpy/executors/utils.py', 'def default_import_map() -> str:\n    path_prefix = REACTPY_PATH_PREFIX.current.strip("/")', 'def default_import_map(_prefix=REACTPY_PATH_PREFIX.current) -> str:\n    path_prefix = _prefix.strip("/")')]),
    ('prefix order', 'bug', [('src/reactpy/executors/utils.py', '    if not url_path.endswith("/"):\n        return "URL path must end with a forward slash."\n', '')]),
    ('default used', 'bug', [('src/reactpy/executors/utils.py', 'f\'  pathPrefix: "{REACTPY_PATH_PREFIX.current}",\'', 'f\'  pathPrefix: "{REACTPY_PATH_PREFIX.default}",\'')]),
    ('lstrip', 'bug', [('src/reactpy/executors/utils.py', 'REACTPY_PATH_PREFIX.current.strip("/")', 'REACTPY_PATH_PREFIX.current.lstrip("/").split("/")[0]')]),
    ('unknown warn', 'bug', [('src/reactpy/executors/utils.py', '            raise ValueError(f\'Unknown ReactPy setting "{setting}".\')', '            logger.warning(f\'Unknown ReactPy setting "{setting}".\')')]),
    ('case', 'bug', [('src/reactpy/executors/utils.py', 'f"REACTPY_{setting.upper()}"', 'f"REACTPY_{setting.strip(\'_\').upper()}"')]),
]
