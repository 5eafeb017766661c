I = "src/reactpy/reactjs/__init__.py"
M = "src/reactpy/reactjs/module.py"
U = "src/reactpy/reactjs/utils.py"
WM = "src/reactpy/web/module.py"
KURL = "    key = (url, resolve_imports, resolve_imports_depth, unmount_before_update)\n"
KFILE = """    key = (
        name,
        str(file),
        symlink,
        resolve_imports,
        resolve_imports_depth,
        unmount_before_update,
    )
"""
KSTR = """    key = (
        name,
        content,
        resolve_imports,
        resolve_imports_depth,
        unmount_before_update,
    )
"""
GETURL = """    if key in _URL_JS_MODULE_CACHE:
        module = _URL_JS_MODULE_CACHE[key]
    else:
        module = url_to_module(
            url,
            resolve_imports=resolve_imports,
            resolve_imports_depth=resolve_imports_depth,
            unmount_before_update=unmount_before_update,
        )
        _URL_JS_MODULE_CACHE[key] = module
"""
CHK = """        if web_module.import_names is not None:
            missing = sorted(
                {e.split(".")[0] for e in import_names}.difference(
                    web_module.import_names
                )
            )
            if missing:
                msg = f"{web_module.source!r} does not contain {missing!r}"
                raise ValueError(msg)
"""
REF = """    for ref in references:
        ref_url = normalize_url_path(url, ref)
        names.update(
            resolve_names_from_url(ref_url, max_depth - 1, is_regex_import=True)
        )
"""
CASES = [
    ("url key without unmount", "bug", [(I, KURL, KURL.replace(", unmount_before_update", ""))]),
    ("url key without depth", "bug", [(I, KURL, KURL.replace("resolve_imports_depth, ", ""))]),
    ("file key without file", "bug", [(I, KFILE, KFILE.replace("        str(file),\n", ""))]),
    ("file key without symlink", "bug", [(I, KFILE, KFILE.replace("        symlink,\n", ""))]),
    ("file key without name", "bug", [(I, KFILE, KFILE.replace("        name,\n", ""))]),
    ("string key without content", "bug", [(I, KSTR, KSTR.replace("        content,\n", ""))]),
    ("string key without name", "bug", [(I, KSTR, KSTR.replace("        name,\n", ""))]),
    ("fallback in the cached module", "bug", [(I, GETURL, GETURL.replace("            url,\n", "            url,\n            fallback=fallback,\n")), (I, "        _URL_JS_MODULE_CACHE[key] = module\n    return module_to_vdom(module, import_names, fallback, allow_children)", "        _URL_JS_MODULE_CACHE[key] = module\n    return module_to_vdom(module, import_names, allow_children=allow_children)")]),
    ("fallback not passed", "bug", [(I, "        _FILE_JS_MODULE_CACHE[key] = module\n    return module_to_vdom(module, import_names, fallback, allow_children)", "        _FILE_JS_MODULE_CACHE[key] = module\n    return module_to_vdom(module, import_names, None, allow_children)")]),
    ("children not passed", "bug", [(I, "        _STRING_JS_MODULE_CACHE[key] = module\n    return module_to_vdom(module, import_names, fallback, allow_children)", "        _STRING_JS_MODULE_CACHE[key] = module\n    return module_to_vdom(module, import_names, fallback)")]),
    ("shared cache with short key", "bug", [(I, KURL, "    key = (url,)\n")]),
    ("npm drops depth", "bug", [(I, "        fallback=fallback,\n        resolve_imports=resolve_imports,\n        resolve_imports_depth=resolve_imports_depth,\n        unmount", "        fallback=fallback,\n        resolve_imports=resolve_imports,\n        unmount")]),
    ("npm drops unmount", "bug", [(I, "        resolve_imports_depth=resolve_imports_depth,\n        unmount_before_update=unmount_before_update,\n        allow_children=allow_children,", "        resolve_imports_depth=resolve_imports_depth,\n        allow_children=allow_children,")]),
    ("npm version", "bug", [(I, 'url = f"{cdn}/{package}@{version}"', 'url = f"{cdn}/{package}"')]),
    ("npm bundle", "bug", [(I, "        if bundle:\n            url", "        if not bundle:\n            url")]),
    ("name from file name only", "bug", [(I, "hashlib.sha256(str(file).encode())", "hashlib.sha256(Path(file).name.encode())")]),
    ("wrong name in list", "bug", [(M, "            make_module(web_module, name, fallback, allow_children)\n", "            make_module(web_module, import_names[0], fallback, allow_children)\n")]),
    ("module fallback wins", "bug", [(M, "(fallback or web_module.default_fallback)", "(web_module.default_fallback or fallback)")]),
    ("unmount flag lost", "bug", [(M, "unmountBeforeUpdate=web_module.unmount_before_update", "unmountBeforeUpdate=False")]),
    ("children flag lost", "bug", [(M, "        name,\n        allow_children=allow_children,\n", "        name,\n")]),
    ("list not checked", "bug", [(M, CHK, "")]),
    ("list checked by whole name", "bug", [(M, "{e.split(\".\")[0] for e in import_names}", "set(import_names)")]),
    ("empty names are no names", "bug", [(M, "            web_module.import_names is not None\n            and import_names.split", "            web_module.import_names\n            and import_names.split")]) ,
    ("string module: names not resolved", "bug", [(M, "            resolve_names_from_file(target_file, resolve_imports_depth)\n", "            resolve_names_from_file(target_file, 5)\n")]),
    ("file: symlink ignored", "bug", [(M, "            copy_file(target_file, source_file, symlink)\n        elif", "            copy_file(target_file, source_file, False)\n        elif")]),
    ("url module typed by name", "bug", [(M, "source_type=URL_SOURCE", "source_type=NAME_SOURCE")]),
    ("deprecated: symlink dropped", "bug", [(WM, "        symlink=symlink,\n", "")]),
    ("deprecated: depth dropped", "bug", [(WM, "        content,\n        fallback=fallback,\n        resolve_imports=resolve_exports,\n        resolve_imports_depth=resolve_exports_depth,\n", "        content,\n        fallback=fallback,\n        resolve_imports=resolve_exports,\n")]),
    ("export drops fallback", "bug", [(WM, "module_to_vdom(web_module, export_names, fallback, allow_children)", "module_to_vdom(web_module, export_names, None, allow_children)")]),
    ("references relative to the last one", "bug", [(U, REF, REF.replace("ref_url", "url"))]),
    ("default of references", "bug", [(U, "resolve_names_from_url(ref_url, max_depth - 1, is_regex_import=True)", "resolve_names_from_url(ref_url, max_depth - 1)")]),
    ("file references relative to the working directory", "bug", [(U, 'path = file.parent.joinpath(*ref.split("/"))', 'path = Path(ref)')]),
    ("names replaced", "bug", [(U, "            names.update(\n                resolve_names_from_file(path, max_depth - 1, is_regex_import=True)\n            )\n", "            names = resolve_names_from_file(path, max_depth - 1, is_regex_import=True)\n")]),
    ("depth of url references", "bug", [(U, "resolve_names_from_url(ref, max_depth - 1, is_regex_import=True)", "resolve_names_from_url(ref, max_depth - 2, is_regex_import=True)")]),
    ("root relative", "bug", [(U, "            return urlunparse(urlparse(base_url)[:2] + urlparse(rel_url)[2:])\n", "            return base_url + rel_url\n")]),
    ("key as helper", "same", [(I, KURL, "    key = _key(url, resolve_imports, resolve_imports_depth, unmount_before_update)\n"), (I, "_URL_JS_MODULE_CACHE: dict", "def _key(*parts: Any) -> tuple[Any, ...]:\n    return parts\n\n\n_URL_JS_MODULE_CACHE: dict")]),
    ("get", "same", [(I, GETURL, """    module = _URL_JS_MODULE_CACHE.get(key)
    if module is None:
        module = url_to_module(
            url,
            resolve_imports=resolve_imports,
            resolve_imports_depth=resolve_imports_depth,
            unmount_before_update=unmount_before_update,
        )
        _URL_JS_MODULE_CACHE[key] = module
""")]),
    ("try", "same", [(I, GETURL, """    try:
        module = _URL_JS_MODULE_CACHE[key]
    except KeyError:
        module = _URL_JS_MODULE_CACHE[key] = url_to_module(
            url,
            resolve_imports=resolve_imports,
            resolve_imports_depth=resolve_imports_depth,
            unmount_before_update=unmount_before_update,
        )
""")]),
    ("no cache", "same", [(I, GETURL, """    module = url_to_module(
        url,
        resolve_imports=resolve_imports,
        resolve_imports_depth=resolve_imports_depth,
        unmount_before_update=unmount_before_update,
    )
""")]),
    ("list loop", "same", [(M, "        return [\n            make_module(web_module, name, fallback, allow_children)\n            for name in import_names\n        ]\n", "        result = []\n        for name in import_names:\n            result.append(make_module(web_module, name, fallback, allow_children))\n        return result\n")]),
    ("missing loop", "same", [(M, CHK, """        if web_module.import_names is not None:
            missing = [e.split(".")[0] for e in import_names if e.split(".")[0] not in web_module.import_names]
            if missing:
                msg = f"{web_module.source!r} does not contain {sorted(set(missing))!r}"
                raise ValueError(msg)
""")]),
    ("references inline", "same", [(U, REF, """    for ref in references:
        found = resolve_names_from_url(normalize_url_path(url, ref), max_depth - 1, is_regex_import=True)
        names |= found
""")]),
    ("fallback by condition", "same", [(M, "fallback=(fallback or web_module.default_fallback)", "fallback=fallback if fallback else web_module.default_fallback")]),
    ('cache key no unmount', 'bug', [('src/reactpy/reactjs/__init__.py', '    key = (url, resolve_imports, resolve_imports_depth, unmount_before_update)', '    key = (url, resolve_imports, resolve_imports_depth)')]),
    ('file by name', 'bug', [('src/reactpy/reactjs/__init__.py', '    name = name or hashlib.sha256(str(file).encode()).hexdigest()[:10]', '    name = name or Path(file).stem')]),
    ('hash short', 'bug', [('src/reactpy/reactjs/__init__.py', 'hashlib.sha256(str(file).encode()).hexdigest()[:10]', 'hashlib.sha256(Path(file).name.encode()).hexdigest()[:10]')]),
    ('npm order', 'bug', [('src/reactpy/reactjs/__init__.py', '    url = f"{cdn}/{package}@{version}"', '    url = f"{cdn}/{package}@latest"')]),
    ('npm depth', 'bug', [('src/reactpy/reactjs/__init__.py', '        fallback=fallback,\n        resolve_imports=resolve_imports,\n        resolve_imports_depth=resolve_imports_depth,\n        unmount_before_update=unmount_before_update,\n        allow_children=allow_children,\n    )\n\n\n@overload\ndef component_from_file', '        fallback=fallback,\n        resolve_imports=resolve_imports,\n        unmount_before_update=unmount_before_update,\n        allow_children=allow_children,\n    )\n\n\n@overload\ndef component_from_file')]),
    ('list unchecked', 'bug', [('src/reactpy/reactjs/module.py', '            if missing:\n', '            if len(missing) == len(import_names):\n')]),
    ('set of names', 'bug', [('src/reactpy/reactjs/module.py', '            for name in import_names\n        ]', '            for name in dict.fromkeys(import_names)\n        ]')]),
    ('relative to cwd', 'bug', [('src/reactpy/reactjs/utils.py', '            path = file.parent.joinpath(*ref.split("/"))', '            path = Path(*ref.split("/"))')]),
    ('dotdot', 'bug', [('src/reactpy/reactjs/utils.py', '    while rel_url.startswith("../"):', '    if rel_url.startswith("../"):')]),
    ('depth not decreasing', 'bug', [('src/reactpy/reactjs/utils.py', '                resolve_names_from_file(path, max_depth - 1, is_regex_import=True)', '                resolve_names_from_file(path, max_depth, is_regex_import=True)')]),
    ('default reexported', 'bug', [('src/reactpy/reactjs/utils.py', '                resolve_names_from_url(ref, max_depth - 1, is_regex_import=True)', '                resolve_names_from_url(ref, max_depth - 1)')]),
    ('scheme relative', 'bug', [('src/reactpy/reactjs/utils.py', '            return urlunparse(urlparse(base_url)[:2] + urlparse(rel_url)[2:])', '            return urlunparse(urlparse(base_url)[:1] + urlparse(rel_url)[1:])')]),
]
