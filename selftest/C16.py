E = "src/reactpy/core/events.py"
I = "src/reactpy/core/_event_inspect.py"
L = "src/reactpy/core/layout.py"
CHK = """        if found_prevent_default:
            self.prevent_default = True
        if found_stop_propagation:
            self.stop_propagation = True
        if found_debounce is not None:
            self.debounce = found_debounce
"""
MERGE = """    for handler in event_handlers:
        if (
            handler.stop_propagation != stop_propagation
            or handler.prevent_default != prevent_default
            or handler.debounce != debounce
            or handler.throttle != throttle
            or handler.target != target
        ):
"""
RUN = """        async with create_task_group() as group:
            for func in functions:
                group.start_soon(func, data)
"""
SER = """        entry: dict[str, Any] = {
            "target": target,
            "preventDefault": handler.prevent_default,
            "stopPropagation": handler.stop_propagation,
        }
        if handler.debounce is not None:
            entry["debounce"] = handler.debounce
        if handler.throttle is not None:
            entry["throttle"] = handler.throttle
        return entry
"""
CASES = [
    ("detected option overrides", "bug", [(E, CHK, CHK.replace("if found_prevent_default:\n            self.prevent_default = True", "self.prevent_default = found_prevent_default"))]),
    ("zero debounce lost", "bug", [(E, "if found_debounce is not None:", "if found_debounce:")]),
    ("given debounce wins", "bug", [(E, "if found_debounce is not None:", "if found_debounce is not None and self.debounce is None:")]),
    ("throttle kept wrong", "bug", [(E, "self.throttle = throttle", "self.throttle = throttle or debounce")]),
    ("throttle zero", "bug", [(E, "self.throttle = throttle", "self.throttle = throttle or None")]),
    ("options swapped in event()", "bug", [(E, "            stop_propagation,\n            prevent_default,\n            debounce=debounce,\n            throttle=throttle,\n        )\n\n    return setup", "            prevent_default,\n            stop_propagation,\n            debounce=debounce,\n            throttle=throttle,\n        )\n\n    return setup")]),
    ("throttle not handed on", "bug", [(E, "            debounce=debounce,\n            throttle=throttle,\n        )\n\n    return setup", "            debounce=debounce,\n        )\n\n    return setup")]),
    ("only decorated form", "bug", [(E, "return setup(function) if function is not None else setup", "return setup(function) if function is not None else EventHandler")]),
    ("unwraps once", "bug", [(E, 'while hasattr(func_to_inspect, "__wrapped__"):', 'if hasattr(func_to_inspect, "__wrapped__"):')]),
    ("partial not seen through", "bug", [(E, "            func_to_inspect = func_to_inspect.func\n", "            pass\n")]),
    ("not awaited", "bug", [(E, "                await function(*data)\n\n            cast", "                function(*data)\n\n            cast")]),
    ("not spread", "bug", [(E, "                function(*data)\n\n        cast", "                function(data)\n\n        cast")]),
    ("first element only", "bug", [(E, "            function(data)\n", "            function(*data)\n")]),
    ("coroutine wrapped as sync", "bug", [(E, "    elif not inspect.iscoroutinefunction(function):\n", "    elif True:\n")]),
    ("wrapped lost", "bug", [(E, "            function(data)\n\n        cast(Any, wrapper).__wrapped__ = function\n", "            function(data)\n\n")]),
    ("merge forgets throttle", "bug", [(E, "            or handler.throttle != throttle\n", "")]),
    ("merge compares two only", "bug", [(E, "    for handler in event_handlers:\n        if (", "    for handler in event_handlers[:2]:\n        if (")]),
    ("merge compares with and", "bug", [(E, "            or handler.target != target\n", "            and handler.target != target\n")]),
    ("merged target lost", "bug", [(E, "        prevent_default,\n        target,\n        debounce,\n        throttle,\n    )\n\n\ndef merge_event_handler_funcs", "        prevent_default,\n        None,\n        debounce,\n        throttle,\n    )\n\n\ndef merge_event_handler_funcs")]),
    ("merged positional order", "bug", [(E, "        target,\n        debounce,\n        throttle,\n    )\n\n\ndef merge_event_handler_funcs", "        target,\n        throttle,\n        debounce,\n    )\n\n\ndef merge_event_handler_funcs")]),
    ("first function dropped", "bug", [(E, "for func in functions:", "for func in functions[1:]:")]),
    ("last function late bound", "bug", [(E, RUN, RUN.replace("group.start_soon(func, data)", "group.start_soon(functions[-1], data)"))]),
    ("coroutines never awaited", "bug", [(E, RUN, "        for func in functions:\n            func(data)\n")]),
    ("data not passed on", "bug", [(E, "group.start_soon(func, data)", "group.start_soon(func, *data)")]),
    ("wire debounce falsy", "bug", [(L, "if handler.debounce is not None:", "if handler.debounce:")]),
    ("wire throttle missing", "bug", [(L, SER, SER.replace("        if handler.throttle is not None:\n            entry[\"throttle\"] = handler.throttle\n", ""))]),
    ("wire swapped", "bug", [(L, SER, SER.replace("handler.prevent_default", "handler.x").replace("handler.stop_propagation", "handler.prevent_default").replace("handler.x", "handler.stop_propagation"))]),
    ("wire null debounce", "bug", [(L, SER, SER.replace('        if handler.debounce is not None:\n            entry["debounce"] = handler.debounce\n', '        entry["debounce"] = handler.debounce\n'))]),
    ("event flag kept", "bug", [(I, "            break\n\n        last_was_event = False\n", "            break\n")]),
    ("method argument", "bug", [(I, "event_arg_index = 1 if inspect.ismethod(func) else 0", "event_arg_index = 0")]),
    ("stops after the first", "bug", [(I, "                check_prevent_default = False\n            elif", "                break\n            elif")]),
    ("any access counts", "bug", [(I, "        if not last_was_event:\n            continue\n", "")]),
    # ---------------------------------------------------------------- same
    ("options by or", "same", [(E, CHK, "        self.prevent_default = self.prevent_default or found_prevent_default\n        self.stop_propagation |= found_stop_propagation\n        self.debounce = self.debounce if found_debounce is None else found_debounce\n")]),
    ("keywords to the handler", "same", [(E, "            stop_propagation,\n            prevent_default,\n            debounce=debounce,", "            prevent_default=prevent_default,\n            stop_propagation=stop_propagation,\n            debounce=debounce,")]),
    ("decorator written out", "same", [(E, "    return setup(function) if function is not None else setup\n", "    if function is None:\n        return setup\n    handler = setup(function)\n    return handler\n")]),
    ("merge by tuples", "same", [(E, MERGE, """    for handler in event_handlers[1:]:
        if (
            handler.stop_propagation,
            handler.prevent_default,
            handler.debounce,
            handler.throttle,
            handler.target,
        ) != (stop_propagation, prevent_default, debounce, throttle, target):
""")]),
    ("merge by any", "same", [(E, MERGE, """    for handler in event_handlers:
        if any(
            getattr(handler, name) != getattr(first_handler, name)
            for name in ("stop_propagation", "prevent_default", "debounce", "throttle", "target")
        ):
""")]),
    ("gather", "same", [(E, RUN, "        await asyncio.gather(*[func(data) for func in functions])\n"), (E, "import inspect\n", "import asyncio\nimport inspect\n")]),
    ("tasks by partial", "same", [(E, "group.start_soon(func, data)", "group.start_soon(partial(func, data))")]),
    ("call, then await", "same", [(E, "                await function(*data)\n", "                result = function(*data)\n                await result\n")]),
    ("wraps", "same", [(E, "        async def wrapper(data: Sequence[Any]) -> None:\n            function(data)\n\n        cast(Any, wrapper).__wrapped__ = function\n        return wrapper\n", "        @wraps(function)\n        async def wrapper(data: Sequence[Any]) -> None:\n            function(data)\n\n        return wrapper\n"), (E, "from functools import partial\n", "from functools import partial, wraps\n")]),
    ("entry built at once", "same", [(L, SER, """        options = {"debounce": handler.debounce, "throttle": handler.throttle}
        return {
            "target": target,
            "preventDefault": handler.prevent_default,
            "stopPropagation": handler.stop_propagation,
            **{k: v for k, v in options.items() if v is not None},
        }
""")]),
    ("entry by loop", "same", [(L, SER, """        entry: dict[str, Any] = {"target": target}
        entry["preventDefault"] = handler.prevent_default
        entry["stopPropagation"] = handler.stop_propagation
        for name in ("debounce", "throttle"):
            value = getattr(handler, name)
            if value is not None:
                entry[name] = value
        return entry
""")]),
    ("unwrap helper", "same", [(E, """        func_to_inspect = cast(Any, function)
        while hasattr(func_to_inspect, "__wrapped__"):
            func_to_inspect = func_to_inspect.__wrapped__

        if isinstance(func_to_inspect, partial):
            func_to_inspect = func_to_inspect.func
""", "        func_to_inspect = _unwrap(function)\n"), (E, "class EventHandler(", """def _unwrap(function: Any) -> Any:
    \"\"\"The function below all decorators\"\"\"
    while True:
        if not hasattr(function, "__wrapped__"):
            break
        function = function.__wrapped__
    return function.func if isinstance(function, partial) else function


class EventHandler(""")]),
    ("inspect loop flattened", "same", [(I, "        if not last_was_event:\n            continue\n\n        if instr.opname in (\"LOAD_METHOD\", \"LOAD_ATTR\"):", "        if last_was_event is False:\n            continue\n\n        if instr.opname == \"LOAD_METHOD\" or instr.opname == \"LOAD_ATTR\":")]),
    ('merge swaps', 'bug', [('src/reactpy/core/events.py', '        target,\n        debounce,\n        throttle,\n    )', '        target,\n        throttle,\n        debounce,\n    )')]),
    ('skip target cmp', 'bug', [('src/reactpy/core/events.py', '            or handler.throttle != throttle\n            or handler.target != target\n', '            or handler.throttle != throttle\n')]),
    ('first and last', 'bug', [('src/reactpy/core/events.py', '    for handler in event_handlers:\n        if (\n', '    for handler in event_handlers[-1:]:\n        if (\n')]),
    ('inspect unwrap one', 'bug', [('src/reactpy/core/events.py', '        while hasattr(func_to_inspect, "__wrapped__"):', '        if hasattr(func_to_inspect, "__wrapped__"):')]),
    ('swap decorators', 'bug', [('src/reactpy/core/events.py', '            to_event_handler_function(function, positional_args=True),\n            stop_propagation,\n            prevent_default,', '            to_event_handler_function(function, positional_args=True),\n            prevent_default,\n            stop_propagation,')]),
    ('set false', 'bug', [('src/reactpy/core/events.py', '        if found_prevent_default:\n            self.prevent_default = True', '        self.prevent_default = found_prevent_default')]),
    ('one arg', 'bug', [('src/reactpy/core/events.py', '        async def wrapper(data: Sequence[Any]) -> None:\n            function(data)', '        async def wrapper(data: Sequence[Any]) -> None:\n            function(*data)')]),
    ('only first awaited', 'bug', [('src/reactpy/core/events.py', '            for func in functions:\n                group', '            for func in functions[:-1]:\n                group')]),
    ('dedupe funcs', 'bug', [('src/reactpy/core/events.py', '            for func in functions:\n                group', '            for func in set(functions):\n                group')]),
]
