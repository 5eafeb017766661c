M = "src/reactpy/reactjs/module.py"
U = "src/reactpy/reactjs/utils.py"
STR = """    with file_lock(target_file.with_name(f"{target_file.name}.lock")):
        if target_file.exists() and target_file.read_text(encoding="utf-8") != content:
            logger.info(
                f"Existing web module {name!r} will "
                f"be replaced with {target_file.resolve()}"
            )

        temp_file = target_file.with_name(f"{target_file.name}.tmp")
        temp_file.write_text(content, encoding="utf-8")
        temp_file.replace(target_file)
"""
FILE = """        if not target_file.exists():
            copy_file(target_file, source_file, symlink)
        elif not are_files_identical(source_file, target_file):
            logger.info(
                f"Existing web module {name!r} will "
                f"be replaced with {target_file.resolve()}"
            )
            copy_file(target_file, source_file, symlink)
"""
LOCK = """    with file_lock(target_file.with_name(f"{target_file.name}.lock")):
        if not source"""
UNLOCK = """    try:
        yield
    finally:
        with suppress(OSError):
            os.unlink(lock_file)"""
TAKE = """        try:
            fd = os.open(lock_file, os.O_CREAT | os.O_EXCL | os.O_RDWR)
            os.close(fd)
            break
        except OSError as e:
            if time.time() - start_time > timeout:
                raise TimeoutError(f"Could not acquire lock {lock_file}") from e
            time.sleep(0.1)
"""
COPY = """        temp_target = target.with_suffix(f"{target.suffix}.tmp")
        shutil.copy(source, temp_target)
        try:
            temp_target.replace(target)
"""
CASES = [
    ("written in place", "bug", [(M, STR, STR.replace("        temp_file = target_file.with_name(f\"{target_file.name}.tmp\")\n        temp_file.write_text(content, encoding=\"utf-8\")\n        temp_file.replace(target_file)\n", "        target_file.write_text(content, encoding=\"utf-8\")\n"))]),
    ("written outside of the lock", "bug", [(M, STR, STR.replace("        temp_file.write_text(content, encoding=\"utf-8\")\n        temp_file.replace(target_file)", "    temp_file.write_text(content, encoding=\"utf-8\")\n    temp_file.replace(target_file)"))]),
    ("temp written before the lock", "bug", [(M, STR, '    temp_file = target_file.with_name(f"{target_file.name}.tmp")\n    temp_file.write_text(content, encoding="utf-8")\n' + STR.replace('        temp_file = target_file.with_name(f"{target_file.name}.tmp")\n        temp_file.write_text(content, encoding="utf-8")\n', ""))]),
    ("existing kept", "bug", [(M, STR, STR.replace("        temp_file", "            temp_file"))]),
    ("string without lock", "bug", [(M, STR, STR.replace('with file_lock(target_file.with_name(f"{target_file.name}.lock")):', "if True:"))]),
    ("different locks", "bug", [(M, LOCK, LOCK.replace('target_file.with_name(f"{target_file.name}.lock")', 'target_file.with_suffix(".lock")'))]),
    ("temp in one place", "bug", [(M, 'temp_file = target_file.with_name(f"{target_file.name}.tmp")', 'temp_file = REACTPY_WEB_MODULES_DIR.current.joinpath(f"{target_file.name}.tmp")')]),
    ("lock by name without folder", "bug", [(M, STR, STR.replace('target_file.with_name(f"{target_file.name}.lock")', 'target_file.with_name(f"{name}.lock")'))]),
    ("copied in place", "bug", [(U, COPY, COPY.replace("shutil.copy(source, temp_target)\n        try:\n            temp_target.replace(target)\n", "try:\n            shutil.copy(source, target)\n"))]),
    ("changed file not replaced", "bug", [(M, FILE, FILE[:FILE.index("        elif")])]),
    ("shallow comparison", "bug", [(U, "filecmp.cmp(str(f1), str(f2), shallow=False)", "filecmp.cmp(str(f1), str(f2))")]),
    ("lock kept on error", "bug", [(U, UNLOCK, "    yield\n    with suppress(OSError):\n        os.unlink(lock_file)")]),
    ("lock not exclusive", "bug", [(U, "os.O_CREAT | os.O_EXCL | os.O_RDWR", "os.O_CREAT | os.O_RDWR")]),
    ("unlock if not acquired", "bug", [(U, "    start_time = time.time()\n    while True:\n" + TAKE + UNLOCK, "    start_time = time.time()\n    try:\n        while True:\n" + "".join("    " + l + "\n" for l in TAKE.splitlines()) + "        yield\n    finally:\n        with suppress(OSError):\n            os.unlink(lock_file)")]),
    ("stolen after timeout", "bug", [(U, '                raise TimeoutError(f"Could not acquire lock {lock_file}") from e\n', "                break\n")]),
    ("no timeout", "bug", [(U, "            if time.time() - start_time > timeout:\n                raise TimeoutError(f\"Could not acquire lock {lock_file}\") from e\n", "")]),
    ("file published without lock", "bug", [(M, LOCK, LOCK.replace('with file_lock(target_file.with_name(f"{target_file.name}.lock")):', "if True:"))]),
    ("name and place differ", "bug", [(M, '    path = directory.joinpath(*name.split("/"))\n', '    path = directory.joinpath(name.split("/")[-1])\n')]),
    ("retry in place", "bug", [(U, "            time.sleep(0.1)\n            try:\n                temp_target.replace(target)\n", "            time.sleep(0.1)\n            try:\n                shutil.copy(temp_target, target)\n")]),
    ("always copied", "same", [(M, FILE, "        copy_file(target_file, source_file, symlink)\n")]),
    ("helper for the lock", "same", [(M, STR, STR.replace('file_lock(target_file.with_name(f"{target_file.name}.lock"))', "_locked(target_file)")), (M, "def module_name_suffix", "def _locked(path):\n    return file_lock(path.with_name(f\"{path.name}.lock\"))\n\n\ndef module_name_suffix")]),
    ("early return of lock path", "same", [(M, STR, STR.replace("    with file_lock", "    lock = target_file.parent / f\"{target_file.name}.lock\"\n    with file_lock").replace('target_file.with_name(f"{target_file.name}.lock")', "lock", 1) if False else STR.replace("    with file_lock(target_file.with_name(f\"{target_file.name}.lock\")):", "    lock = target_file.with_name(target_file.name + \".lock\")\n    with file_lock(lock):"))]),
    ("unchanged not rewritten", "same", [(M, STR, STR.replace("""
        temp_file = target_file.with_name(f"{target_file.name}.tmp")
        temp_file.write_text(content, encoding="utf-8")
        temp_file.replace(target_file)
""", """
        if not target_file.exists() or target_file.read_text(encoding="utf-8") != content:
            temp_file = target_file.with_name(f"{target_file.name}.tmp")
            temp_file.write_text(content, encoding="utf-8")
            os.replace(temp_file, target_file)
""")), (M, "import logging\n", "import logging\nimport os\n")]),
    ("lock as loop with flag", "same", [(U, "    while True:\n" + TAKE, """    acquired = False
    while not acquired:
        try:
            os.close(os.open(lock_file, os.O_RDWR | os.O_CREAT | os.O_EXCL))
            acquired = True
        except OSError as e:
            if time.time() - start_time > timeout:
                raise TimeoutError(f"Could not acquire lock {lock_file}") from e
            time.sleep(0.1)
""")]),
    ("condition merged", "same", [(M, FILE, """        if target_file.exists() and are_files_identical(source_file, target_file):
            logger.debug("unchanged")
        else:
            copy_file(target_file, source_file, symlink)
""")]),
    ("manager in a variable", "same", [(M, STR, STR.replace("    with file_lock(target_file.with_name(f\"{target_file.name}.lock\")):", "    lock = file_lock(target_file.with_name(target_file.name + \".lock\"))\n    with lock:"))]),
    ("pathlib unlink", "same", [(U, "            os.unlink(lock_file)", "            lock_file.unlink()")]),
    ('no replace', 'bug', [('src/reactpy/reactjs/module.py', '        temp_file.write_text(content, encoding="utf-8")\n        temp_file.replace(target_file)', '        target_file.write_text(content, encoding="utf-8")')]),
    ('skip when exists', 'bug', [('src/reactpy/reactjs/module.py', '        temp_file = target_file.with_name(f"{target_file.name}.tmp")', '        if target_file.exists() and target_file.stat().st_size == len(content):\n            return JavaScriptModule(source=name, source_type=NAME_SOURCE, default_fallback=fallback, file=target_file, import_names=None, unmount_before_update=unmount_before_update)\n        temp_file = target_file.with_name(f"{target_file.name}.tmp")')]),
    ('lock per source', 'bug', [('src/reactpy/reactjs/module.py', '    with file_lock(target_file.with_name(f"{target_file.name}.lock")):\n        if not source', '    with file_lock(target_file.with_name(f"{source_file.name}.lock")):\n        if not source')]),
    ('unlink on timeout', 'bug', [('src/reactpy/reactjs/utils.py', '                raise TimeoutError(', '                os.unlink(lock_file)\n                raise TimeoutError(')]),
    ('no excl', 'bug', [('src/reactpy/reactjs/utils.py', 'os.O_CREAT | os.O_EXCL | os.O_RDWR', 'os.O_CREAT | os.O_RDWR')]),
    ('shallow', 'bug', [('src/reactpy/reactjs/utils.py', 'shallow=False', 'shallow=True')]),
    ('timeout reset', 'bug', [('src/reactpy/reactjs/utils.py', '            time.sleep(0.1)\n    try:', '            time.sleep(0.1)\n            start_time = max(start_time, time.time() - timeout / 2)\n    try:')]),
]
