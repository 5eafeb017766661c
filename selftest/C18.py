S = "src/reactpy/core/serve.py"
OUT = """    while True:
        update = await layout.render()
        try:
            await send(update)
        except Exception:  # nocov
            if not REACTPY_DEBUG.current:
                msg = (
                    "Failed to send update. More info may be available "
                    "if you enabling debug mode by setting "
                    "`reactpy.config.REACTPY_DEBUG.current = True`."
                )
                logger.error(msg)
            raise
"""
IN = """    while True:
        # We need to fire and forget here so that we avoid waiting on the completion
        # of this event handler before receiving and running the next one.
        task_group.start_soon(layout.deliver, await recv())
"""
MAIN = """    async with layout:
        async with create_task_group() as task_group:
            task_group.start_soon(_single_outgoing_loop, layout, send)
            task_group.start_soon(_single_incoming_loop, task_group, layout, recv)
"""
CASES = [
    ("raise only in debug", "bug", [(S, "                logger.error(msg)\n            raise\n", "                logger.error(msg)\n            else:\n                raise\n")]),
    ("failure logged and gone on", "bug", [(S, "                logger.error(msg)\n            raise\n", "                logger.error(msg)\n")]),
    ("retry", "bug", [(S, "                logger.error(msg)\n            raise\n", "                logger.error(msg)\n            await send(update)\n")]),
    ("loop returns", "bug", [(S, "                logger.error(msg)\n            raise\n", "                logger.error(msg)\n            return\n")]),
    ("prefetch", "bug", [(S, "        update = await layout.render()\n        try:", "        update = await layout.render()\n        update = await layout.render()\n        try:")]),
    ("send in background", "bug", [(S, "            await send(update)\n", "            send(update)\n")]),
    ("empty updates skipped", "bug", [(S, "        try:\n            await send(update)", "        if not update.get('model'):\n            continue\n        try:\n            await send(update)")]),
    ("handler awaited", "bug", [(S, "        task_group.start_soon(layout.deliver, await recv())\n", "        await layout.deliver(await recv())\n")]),
    ("event dropped by type", "bug", [(S, "        task_group.start_soon(layout.deliver, await recv())\n", "        event = await recv()\n        if event.get('data'):\n            task_group.start_soon(layout.deliver, event)\n")]),
    ("recv failure ignored", "bug", [(S, "        task_group.start_soon(layout.deliver, await recv())\n", "        try:\n            event = await recv()\n        except ValueError:\n            continue\n        except Exception:\n            continue\n        task_group.start_soon(layout.deliver, event)\n")]),
    ("task outside group", "bug", [(S, "        task_group.start_soon(layout.deliver, await recv())\n", "        asyncio.create_task(layout.deliver(await recv()))\n"), (S, "from logging", "import asyncio\nfrom logging")]),
    ("layout inside group", "bug", [(S, MAIN, """    async with create_task_group() as task_group:
        async with layout:
            task_group.start_soon(_single_outgoing_loop, layout, send)
            task_group.start_soon(_single_incoming_loop, task_group, layout, recv)
""")]),
    ("incoming in group of its own", "bug", [(S, MAIN, """    async with layout:
        async with create_task_group() as task_group:
            task_group.start_soon(_single_incoming_loop, task_group, layout, recv)
""")]),
    ("delivered twice", "bug", [(S, "        task_group.start_soon(layout.deliver, await recv())\n", "        event = await recv()\n        task_group.start_soon(layout.deliver, event)\n        if REACTPY_DEBUG.current:\n            task_group.start_soon(layout.deliver, event)\n")]),
    ("two senders", "bug", [(S, "            task_group.start_soon(_single_outgoing_loop, layout, send)\n", "            task_group.start_soon(_single_outgoing_loop, layout, send)\n            task_group.start_soon(_single_outgoing_loop, layout, lambda m: send(m))\n")]),
    # same
    ("combined with", "same", [(S, MAIN, """    async with layout, create_task_group() as task_group:
        task_group.start_soon(_single_incoming_loop, task_group, layout, recv)
        task_group.start_soon(_single_outgoing_loop, layout, send)
""")]),
    ("incoming loop inline", "same", [(S, "            task_group.start_soon(_single_incoming_loop, task_group, layout, recv)\n", "            while True:\n                event = await recv()\n                task_group.start_soon(layout.deliver, event)\n")]),
    ("nested loops", "same", [(S, MAIN, """    async with layout:
        async with create_task_group() as group:

            async def incoming() -> None:
                while True:
                    group.start_soon(layout.deliver, await recv())

            group.start_soon(incoming)
            group.start_soon(_single_outgoing_loop, layout, send)
""")]),
    ("send helper", "same", [(S, OUT, """    while True:
        await _send_update(send, await layout.render())


async def _send_update(send: SendCoroutine, update: Any) -> None:
    try:
        await send(update)
    except Exception:  # nocov
        if not REACTPY_DEBUG.current:
            logger.error("Failed to send update.")
        raise
""")]),
    ("asyncio task group", "same", [(S, MAIN, """    async with layout:
        async with asyncio.TaskGroup() as task_group:
            task_group.create_task(_single_outgoing_loop(layout, send))
            task_group.create_task(_single_incoming_loop(task_group, layout, recv))
"""), (S, "        task_group.start_soon(layout.deliver, await recv())\n", "        event = await recv()\n        task_group.create_task(layout.deliver(event))\n"), (S, "from logging", "import asyncio\nfrom logging")]),
    ("deliver helper", "same", [(S, "        task_group.start_soon(layout.deliver, await recv())\n", "        task_group.start_soon(_deliver, layout, await recv())\n\n\nasync def _deliver(layout: Any, event: Any) -> None:\n    await layout.deliver(event)\n")]),
    ("bound once", "same", [(S, "    while True:\n        # We", "    deliver = layout.deliver\n    while True:\n        # We"), (S, "start_soon(layout.deliver, await", "start_soon(deliver, await")]),
    ('deliver awaited', 'bug', [('src/reactpy/core/serve.py', '        task_group.start_soon(layout.deliver, await recv())', '        await layout.deliver(await recv())')]),
    ('send suppressed', 'bug', [('src/reactpy/core/serve.py', '                logger.error(msg)\n            raise', '                logger.error(msg)\n                continue\n            raise')]),
    ('send in task', 'bug', [('src/reactpy/core/serve.py', '            task_group.start_soon(_single_outgoing_loop, layout, send)', '            task_group.start_soon(_single_outgoing_loop, layout, send, task_group)'), ('src/reactpy/core/serve.py', '    send: SendCoroutine,\n) -> None:\n    while True:\n        update = await layout.render()\n        try:\n            await send(update)', '    send: SendCoroutine,\n    task_group: TaskGroup,\n) -> None:\n    while True:\n        update = await layout.render()\n        try:\n            task_group.start_soon(send, update)')]),
    ('render dup skip', 'bug', [('src/reactpy/core/serve.py', '        update = await layout.render()\n        try:', '        update = await layout.render()\n        if update.get("model") is None:\n            continue\n        try:')]),
]
