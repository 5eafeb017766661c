H = "src/reactpy/core/hooks.py"
Y = "src/reactpy/core/_life_cycle_hook.py"
L = "src/reactpy/core/layout.py"
DID = """        stop = Event()
        self._effect_stops.append(stop)
        self._effect_tasks.extend(create_task(e(stop)) for e in self._effect_funcs)
        self._effect_funcs.clear()
"""
UNM = """        self._effect_funcs.clear()
        for stop in self._effect_stops:
            stop.set()
        self._effect_stops.clear()
        try:
            results = await gather(*self._effect_tasks, return_exceptions=True)
            for error in results:
                if isinstance(error, Exception):
                    logger.error("Error in effect", exc_info=error)
        finally:
            self._effect_tasks.clear()
"""
CLN = """    if cleanup_func.current:
        function, cleanup_func.current = cleanup_func.current, None
        function()
"""
SYNC = """            run_effect_cleanup(cleanup_func)

            # Execute the effect and store the clean-up function
            cleanup_func.current = func()

            # Wait until we get the signal to stop this effect
            await stop.wait()
"""
PREV = """            while pending_task.current:
                previous_task = pending_task.current
                if not shield:
                    previous_task.cancel()
                # the effect which the task belongs to deals with its outcome
                await asyncio.wait([previous_task])
                if pending_task.current is previous_task:
                    pending_task.current = None

            run_effect_cleanup(cleanup_func)
"""
DONE = """                if pending_task.current is task:
                    pending_task.current = None
                with contextlib.suppress(asyncio.CancelledError):
                    task.result()
"""
TAIL = """                # Now wait for the stop signal to run cleanup
                await stop.wait()
"""
ELSE = """                if not shield:
                    task.cancel()
                with contextlib.suppress(asyncio.CancelledError):
                    await task
"""
CASES = [
    ("not cleared", "bug", [(Y, "        self._effect_funcs.clear()\n\n    async def affect_component_will_unmount", "\n    async def affect_component_will_unmount")]),
    ("stop not kept", "bug", [(Y, "        self._effect_stops.append(stop)\n", "")]),
    ("stops replaced", "bug", [(Y, "        self._effect_stops.append(stop)\n", "        self._effect_stops = [stop]\n")]),
    ("tasks replaced", "bug", [(Y, "        self._effect_tasks.extend(create_task(e(stop)) for e in self._effect_funcs)", "        self._effect_tasks = [create_task(e(stop)) for e in self._effect_funcs]")]),
    ("tasks not kept", "bug", [(Y, "        self._effect_tasks.extend(create_task(e(stop)) for e in self._effect_funcs)", "        for e in self._effect_funcs:\n            create_task(e(stop))")]),
    ("own event", "bug", [(Y, "create_task(e(stop)) for e", "create_task(e(None)) for e")]),
    ("cleared first", "bug", [(Y, DID, DID.replace("        self._effect_funcs.clear()\n", "").replace("        stop =", "        self._effect_funcs.clear()\n        stop ="))]),
    ("filtered", "bug", [(Y, "for e in self._effect_funcs)", "for e in self._effect_funcs if e not in self._state)")]),
    ("wait first", "bug", [(Y, UNM, """        self._effect_funcs.clear()
        try:
            await gather(*self._effect_tasks, return_exceptions=True)
        finally:
            self._effect_tasks.clear()
        for stop in self._effect_stops:
            stop.set()
        self._effect_stops.clear()
""")]),
    ("last stop only", "bug", [(Y, "        for stop in self._effect_stops:\n            stop.set()\n", "        if self._effect_stops:\n            self._effect_stops[-1].set()\n            self._effect_stops.pop()\n")] ) if False else ("break", "bug", [(Y, "            stop.set()\n", "            if stop.is_set():\n                continue\n            if len(self._effect_stops) > 3:\n                continue\n            stop.set()\n")]),
    ("no return_exceptions", "bug", [(Y, "gather(*self._effect_tasks, return_exceptions=True)", "gather(*self._effect_tasks)")]),
    ("cancelled", "bug", [(Y, "        try:\n            results", "        for t in self._effect_tasks:\n            t.cancel()\n        try:\n            results")]),
    ("funcs stay", "bug", [(Y, "        self._effect_funcs.clear()\n        for stop", "        for stop")]),
    ("no wait if stopped", "bug", [(Y, "        self._effect_funcs.clear()\n        for stop", "        self._effect_funcs.clear()\n        if not self._rendered_atleast_once:\n            return\n        for stop")]),
    ("register late", "bug", [(L, "        exit_stack.push_async_callback(life_cycle_hook.affect_layout_did_render)\n        try:\n            raw_model = component.render()\n", "        try:\n            raw_model = component.render()\n            exit_stack.push_async_callback(life_cycle_hook.affect_layout_did_render)\n")]),
    ("now", "bug", [(L, "        exit_stack.push_async_callback(life_cycle_hook.affect_layout_did_render)\n", ""), (L, "        finally:\n            await life_cycle_hook.affect_component_did_render()\n", "            await life_cycle_hook.affect_layout_did_render()\n        finally:\n            await life_cycle_hook.affect_component_did_render()\n")]),
    ("no cleanup before", "bug", [(H, SYNC, SYNC.replace("            run_effect_cleanup(cleanup_func)\n\n", ""))]),
    ("no store", "bug", [(H, "            cleanup_func.current = func()\n", "            func()\n")]),
    ("no stop wait", "bug", [(H, "            cleanup_func.current = func()\n\n            # Wait until we get the signal to stop this effect\n            await stop.wait()\n", "            cleanup_func.current = func()\n")]),
    ("no final cleanup", "bug", [(H, "            await stop.wait()\n\n            # Run the clean-up function when the effect is stopped,\n            # if it hasn't been run already by a new effect\n            run_effect_cleanup(cleanup_func)\n", "            await stop.wait()\n")]),
    ("call twice", "bug", [(H, CLN, "    if cleanup_func.current:\n        cleanup_func.current()\n")]),
    ("call then clear", "bug", [(H, CLN, "    if cleanup_func.current:\n        cleanup_func.current()\n        cleanup_func.current = None\n")]),
    ("drop", "bug", [(H, CLN, "    function, cleanup_func.current = cleanup_func.current, None\n    if function and callable(function) and function.__name__:\n        function()\n")]),
    ("if instead of while", "bug", [(H, "            while pending_task.current:", "            if pending_task.current:")]),
    ("always cancelled", "bug", [(H, "                if not shield:\n                    previous_task.cancel()", "                previous_task.cancel()")]),
    ("never cancelled", "bug", [(H, "                if not shield:\n                    previous_task.cancel()\n", "")]),
    ("own always cancelled", "bug", [(H, ELSE, ELSE.replace("                if not shield:\n                    task.cancel()", "                task.cancel()"))]),
    ("own not awaited", "bug", [(H, ELSE, "                if not shield:\n                    task.cancel()\n")]),
    ("clear any", "bug", [(H, DONE, DONE.replace("                if pending_task.current is task:\n                    pending_task", "                pending_task"))]),
    ("not waiting for stop", "bug", [(H, TAIL, "")]),
    ("store after", "bug", [(H, "            task = asyncio.create_task(apply_effect(func))", "            task = asyncio.create_task(func())"), (H, "                    task.result()\n", "                    cleanup_func.current = task.result()\n"), (H, "                    await task\n", "                    cleanup_func.current = await task\n")]),
    ("await between", "bug", [(H, "            task = asyncio.create_task(apply_effect(func))", "            await asyncio.sleep(0)\n            task = asyncio.create_task(apply_effect(func))")]),
    ("cleanup first", "bug", [(H, PREV, "            run_effect_cleanup(cleanup_func)\n\n" + PREV.replace("            run_effect_cleanup(cleanup_func)\n", ""))]),
    ("not pending", "bug", [(H, "            pending_task.current = task\n", "")]),
    ("added always", "bug", [(H, "        return memoize(lambda: hook.add_effect(effect))", "        return hook.add_effect(effect)")]),
    ("deps dropped", "bug", [(H, "    memoize = use_memo(dependencies=dependencies)\n    cleanup_func: Ref[_EffectCleanFunc | None] = use_ref(None)\n\n    def", "    memoize = use_memo(dependencies=[])\n    cleanup_func: Ref[_EffectCleanFunc | None] = use_ref(None)\n\n    def")]),
    # same behaviour
    ("loop of tasks", "same", [(Y, DID, """        stop = Event()
        self._effect_stops.append(stop)
        funcs, self._effect_funcs = self._effect_funcs, []
        for func in funcs:
            task = create_task(func(stop))
            self._effect_tasks.append(task)
""")]),
    ("helper", "same", [(Y, DID, """        stop = Event()
        self._effect_tasks += [create_task(e(stop)) for e in self._effect_funcs]
        self._effect_funcs = []
        self._effect_stops.append(stop)
""")]),
    ("early return", "same", [(Y, DID, "        if not self._effect_funcs:\n            return\n" + DID)]),
    ("stop helper", "same", [(Y, UNM, """        self._effect_funcs.clear()
        self._stop_effects()
        try:
            if self._effect_tasks:
                await gather(*self._effect_tasks, return_exceptions=True)
        finally:
            self._effect_tasks.clear()

    def _stop_effects(self):
        while self._effect_stops:
            self._effect_stops.pop().set()
""")]),
    ("one by one", "same", [(Y, UNM, """        self._effect_funcs = []
        for stop in list(self._effect_stops):
            stop.set()
        self._effect_stops = []
        tasks = list(self._effect_tasks)
        for task in tasks:
            try:
                await task
            except Exception:
                logger.exception("Error in effect")
        self._effect_tasks.clear()
""")]),
    ("early return cleanup", "same", [(H, CLN, """    function = cleanup_func.current
    if function is None:
        return
    cleanup_func.current = None
    function()
""")]),
    ("try finally cleanup", "same", [(H, CLN, """    if cleanup_func.current is not None:
        try:
            cleanup_func.current()
        finally:
            cleanup_func.current = None
""")]),
    ("local result", "same", [(H, "            cleanup_func.current = func()\n", "            result = func()\n            cleanup_func.current = result\n")]),
    ("inlined cleanup", "same", [(H, SYNC, SYNC.replace("            run_effect_cleanup(cleanup_func)\n", "            if cleanup_func.current:\n                fn = cleanup_func.current\n                cleanup_func.current = None\n                fn()\n"))]),
    ("while true", "same", [(H, PREV, """            while True:
                previous_task = pending_task.current
                if previous_task is None:
                    break
                if not shield:
                    previous_task.cancel()
                await asyncio.wait([previous_task])
                if pending_task.current is previous_task:
                    pending_task.current = None

            run_effect_cleanup(cleanup_func)
""")]),
    ("helper for previous", "same", [(H, PREV, "            await end_previous()\n            run_effect_cleanup(cleanup_func)\n"), (H, "    def decorator(func: _AsyncEffectFunc) -> None:\n", """    async def end_previous() -> None:
        while pending_task.current:
            previous_task = pending_task.current
            if not shield:
                previous_task.cancel()
            await asyncio.wait([previous_task])
            if pending_task.current is previous_task:
                pending_task.current = None

    def decorator(func: _AsyncEffectFunc) -> None:
""")]),
    ("inverted branches", "same", [(H, "            if task in done:", "            if stop_task not in done:")]),
    ("memo def", "same", [(H, "        return memoize(lambda: hook.add_effect(effect))", "        def add() -> None:\n            hook.add_effect(effect)\n\n        return memoize(add)")]),
    ("not-shield variable", "same", [(H, ELSE, """                cancel = not shield
                if cancel:
                    task.cancel()
                with contextlib.suppress(asyncio.CancelledError):
                    await task
""")]),
    ("register helper", "same", [(L, "        exit_stack.push_async_callback(life_cycle_hook.affect_layout_did_render)\n", "        after = life_cycle_hook.affect_layout_did_render\n        exit_stack.push_async_callback(after)\n")]),
    ('cleanup before wait', 'bug', [('src/reactpy/core/hooks.py', '            while pending_task.current:\n                previous_task', '            run_effect_cleanup(cleanup_func)\n            while pending_task.current:\n                previous_task'), ('src/reactpy/core/hooks.py', '                if pending_task.current is previous_task:\n                    pending_task.current = None\n\n            run_effect_cleanup(cleanup_func)\n', '                if pending_task.current is previous_task:\n                    pending_task.current = None\n')]),
    ('timeout wait', 'bug', [('src/reactpy/core/hooks.py', 'await asyncio.wait([previous_task])', 'await asyncio.wait([previous_task], timeout=1)')]),
    ('shield not cancelled prev', 'bug', [('src/reactpy/core/hooks.py', '                if not shield:\n                    previous_task.cancel()', '                if shield:\n                    previous_task.cancel()')]),
    ('cleanup not cleared', 'bug', [('src/reactpy/core/hooks.py', '        function, cleanup_func.current = cleanup_func.current, None\n        function()', '        cleanup_func.current()\n        cleanup_func.current = None')]),
    ('never cleared', 'bug', [('src/reactpy/core/hooks.py', '        function, cleanup_func.current = cleanup_func.current, None\n        function()', '        cleanup_func.current()')]),
    ('stops not set all', 'bug', [('src/reactpy/core/_life_cycle_hook.py', '        for stop in self._effect_stops:\n            stop.set()\n', '        if self._effect_stops:\n            self._effect_stops[-1].set()\n')]),
    ('funcs not cleared', 'bug', [('src/reactpy/core/_life_cycle_hook.py', '        self._effect_funcs.clear()\n        for stop', '        for stop')]),
    ('funcs not cleared after start', 'bug', [('src/reactpy/core/_life_cycle_hook.py', '        self._effect_tasks.extend(create_task(e(stop)) for e in self._effect_funcs)\n        self._effect_funcs.clear()', '        self._effect_tasks.extend(create_task(e(stop)) for e in self._effect_funcs)')]),
    ('first failure only', 'bug', [('src/reactpy/core/_life_cycle_hook.py', 'gather(*self._effect_tasks, return_exceptions=True)', 'gather(*self._effect_tasks)')]),
    ('cleanup stored by effect', 'bug', [('src/reactpy/core/hooks.py', '        cleanup_func.current = await func()\n', '        return await func()\n'), ('src/reactpy/core/hooks.py', '                with contextlib.suppress(asyncio.CancelledError):\n                    task.result()\n', '                with contextlib.suppress(asyncio.CancelledError):\n                    cleanup_func.current = task.result()\n')]),
    ('only last effect', 'bug', [('src/reactpy/core/_life_cycle_hook.py', '        self._effect_funcs.append(effect_func)', '        self._effect_funcs = [effect_func]')]),
    ('effect in every render', 'bug', [('src/reactpy/core/hooks.py', '        return memoize(lambda: hook.add_effect(effect))\n\n    # Handle decorator usage\n    if function:\n        decorator(function)\n        return None\n    return decorator\n\n\ndef use_debug', '        memoize(lambda: None)\n        return hook.add_effect(effect)\n\n    # Handle decorator usage\n    if function:\n        decorator(function)\n        return None\n    return decorator\n\n\ndef use_debug')]),
    ('stop on done race', 'same?', [('src/reactpy/core/hooks.py', '            if task in done:\n', '            if task in done and not stop.is_set():\n')]),
    ('wait all', 'bug', [('src/reactpy/core/hooks.py', 'return_when=asyncio.FIRST_COMPLETED', 'return_when=asyncio.ALL_COMPLETED')]),
    ('unshielded cancel', 'bug', [('src/reactpy/core/hooks.py', '                if not shield:\n                    task.cancel()\n                with', '                task.cancel()\n                with')]),
    ('no await task', 'bug', [('src/reactpy/core/hooks.py', '                with contextlib.suppress(asyncio.CancelledError):\n                    await task\n                if pending_task', '                if pending_task')]),
    ('stops kept per render', 'bug', [('src/reactpy/core/_life_cycle_hook.py', '        stop = Event()\n        self._effect_stops.append(stop)', '        stop = Event()\n        self._effect_stops[:] = [stop]')]),
    ('done tasks pruned', 'same?', [('src/reactpy/core/_life_cycle_hook.py', '        self._effect_tasks.extend(', '        self._effect_tasks[:] = [t for t in self._effect_tasks if not t.done()]\n        self._effect_tasks.extend(')]),
    ('pruned wrong', 'bug', [('src/reactpy/core/_life_cycle_hook.py', '        self._effect_tasks.extend(', '        self._effect_tasks[:] = [t for t in self._effect_tasks if t.done()]\n        self._effect_tasks.extend(')]),
    ('pruned cancelled only', 'bug', [('src/reactpy/core/_life_cycle_hook.py', '        self._effect_tasks.extend(', '        self._effect_tasks[:] = [t for t in self._effect_tasks if not t.done() and not self._rendered_atleast_once]\n        self._effect_tasks.extend(')]),
    ('unmount: wait instead of gather', 'same', [('src/reactpy/core/_life_cycle_hook.py', '            effects = gather(*self._effect_tasks, return_exceptions=True)\n            try:\n                results = await shield(effects)\n            except CancelledError:\n                # the effects have to be cleaned up nonetheless\n                await effects\n                raise\n            for error in results:\n                if isinstance(error, Exception):\n                    logger.error("Error in effect", exc_info=error)\n', '            if self._effect_tasks:\n                await asyncio.wait(self._effect_tasks)\n            for task in self._effect_tasks:\n                if not task.cancelled() and task.exception():\n                    logger.error("Error in effect", exc_info=task.exception())\n'), ('src/reactpy/core/_life_cycle_hook.py', 'import logging\n', 'import asyncio\nimport logging\n')]),
    ('unmount: shielded wait as a name', 'same', [('src/reactpy/core/_life_cycle_hook.py', '                results = await shield(effects)\n', '                shielded = shield(effects)\n                results = await shielded\n')]),
    ('unmount: gather awaited in helper', 'same', [('src/reactpy/core/_life_cycle_hook.py', '            effects = gather(*self._effect_tasks, return_exceptions=True)\n            try:\n                results = await shield(effects)\n            except CancelledError:\n                # the effects have to be cleaned up nonetheless\n                await effects\n                raise\n', '            results = await self._effects_end()\n'), ('src/reactpy/core/_life_cycle_hook.py', '    def set_current(self) -> None:', '    async def _effects_end(self) -> list:\n        effects = gather(*self._effect_tasks, return_exceptions=True)\n        try:\n            return await shield(effects)\n        except CancelledError:\n            await effects\n            raise\n\n    def set_current(self) -> None:')]),
    ('unmount: interrupted gather', 'bug', [('src/reactpy/core/_life_cycle_hook.py', 'await shield(effects)', 'await effects')]),
    ('unmount: interrupted and not awaited', 'bug', [('src/reactpy/core/_life_cycle_hook.py', '                await effects\n                raise\n', '                raise\n')]),
    ('unmount: one failing effect ends the wait', 'bug', [('src/reactpy/core/_life_cycle_hook.py', ', return_exceptions=True)', ')')]),
    ('unfixed: list of dependencies is kept', 'bug', [('src/reactpy/core/hooks.py', 'else tuple(dependencies)', 'else dependencies')]),
]
