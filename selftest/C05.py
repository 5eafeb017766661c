L = "src/reactpy/core/layout.py"
LOOP = """        for t in [*self._render_tasks, *self._event_processing_tasks.values()]:
            t.cancel()
            try:
                await t
            except CancelledError:
                pass
            except Exception:
                # a failed task must not keep the components from being unmounted
                logger.exception(f"Task {t} of {self} failed")
"""
CASES = [
    ("close: only pending of events", "bug", [(L, "        for t in [*self._render_tasks, *self._event_processing_tasks.values()]:\n", "        for t in [*self._render_tasks, *(t for k, t in self._event_processing_tasks.items() if k in self._event_handlers)]:\n")]),
    ("close: skip done", "same", [(L, "        for t in [*self._render_tasks, *self._event_processing_tasks.values()]:\n            t.cancel()", "        for t in [*self._render_tasks, *self._event_processing_tasks.values()]:\n            if t.done():\n                continue\n            t.cancel()")]),
    ("close: some skipped", "bug", [(L, "        for t in [*self._render_tasks, *self._event_processing_tasks.values()]:\n            t.cancel()", "        for t in [*self._render_tasks, *self._event_processing_tasks.values()]:\n            if t not in self._completed_render_tasks and self._event_handlers and t not in self._render_task_to_lcs_id:\n                continue\n            t.cancel()")]),

    ("events not cancelled", "bug", [(L, "[*self._render_tasks, *self._event_processing_tasks.values()]", "[*self._render_tasks]")]),
    ("renders not cancelled", "bug", [(L, "[*self._render_tasks, *self._event_processing_tasks.values()]", "[*self._event_processing_tasks.values()]")]),
    ("not awaited", "bug", [(L, LOOP, "        for t in [*self._render_tasks, *self._event_processing_tasks.values()]:\n            t.cancel()\n")]),
    ("not cancelled", "bug", [(L, "            t.cancel()\n            try:\n                await t", "            try:\n                await t")]),
    ("exceptions escape", "bug", [(L, """            except Exception:
                # a failed task must not keep the components from being unmounted
                logger.exception(f"Task {t} of {self} failed")
""", "")]),
    ("unmount first", "bug", [(L, LOOP, ""), (L, "        await self._rendering_queue.close()\n", "        await self._rendering_queue.close()\n" + LOOP)]),
    ("break after first failure", "bug", [(L, LOOP, LOOP + "                break\n")]),
    ("no unmount on error", "bug", [(L, "        await self._unmount_model_states([root_model_state])\n        # a render which was cancelled leaves components which are not in the tree\n        await self._unmount_model_states(\n", "        if exc_type is not None:\n            await self._rendering_queue.close()\n            return\n        await self._unmount_model_states([root_model_state])\n        await self._unmount_model_states(\n")]),
    ("queue not closed", "bug", [(L, "        await self._rendering_queue.close()\n", "")]),
    ("queue puts not cancelled", "bug", [(L, "        for task in list(self._put_tasks.values()):\n            task.cancel()\n", "")]),
    ("swallow", "bug", [(L, "                    if task is not None and task.cancelling():\n                        raise\n", "")]),
    ("swallow put", "bug", [(L, "            self._pending.discard(value)\n            raise\n", "            self._pending.discard(value)\n")]),
    ("forget task", "bug", [(L, "            self._render_tasks.add(task)\n", "")]),
    ("forget on supersede", "bug", [(L, "                self._render_task_to_lcs_id.pop(task, None)\n                task.cancel()", "                self._render_task_to_lcs_id.pop(task, None)\n                self._render_tasks.discard(task)\n                task.cancel()")]),
    ("gather", "same", [(L, LOOP, """        tasks = [*self._render_tasks, *self._event_processing_tasks.values()]
        for t in tasks:
            t.cancel()
        for result in await gather(*tasks, return_exceptions=True):
            if isinstance(result, Exception):
                logger.error("failed", exc_info=result)
"""), (L, "    current_task,\n", "    current_task,\n    gather,\n")]),
    ("suppress", "same", [(L, LOOP, """        for t in [*self._render_tasks, *self._event_processing_tasks.values()]:
            t.cancel()
        for t in [*self._render_tasks, *self._event_processing_tasks.values()]:
            try:
                with suppress(CancelledError):
                    await t
            except Exception as error:
                logger.exception(error)
""")]),
    ("helper", "same", [(L, LOOP, "        await self._stop_tasks()\n"), (L, "    async def deliver(", "    async def _stop_tasks(self):\n" + LOOP + "\n    async def deliver(")]),
    ("done skip", "same", [(L, "            t.cancel()\n            try:\n                await t", "            if not t.done():\n                t.cancel()\n            try:\n                await t")]),
    ("two loops", "same", [(L, LOOP, LOOP.replace("[*self._render_tasks, *self._event_processing_tasks.values()]", "list(self._render_tasks)") + LOOP.replace("[*self._render_tasks, *self._event_processing_tasks.values()]", "list(self._event_processing_tasks.values())"))]),
    ('queue closed only when pending', 'bug', [('src/reactpy/core/layout.py', '        for task in list(self._put_tasks.values()):\n            with suppress(CancelledError):\n                await task\n', '        for task in list(self._put_tasks.values())[:1]:\n            with suppress(CancelledError):\n                await task\n')]),
    ('close: no flag', 'bug', [('src/reactpy/core/layout.py', '        if self._closing:\n            return None\n', '')]),
    ('close: flag set after unmounting', 'bug', [('src/reactpy/core/layout.py', '        self._closing = True\n\n', ''), ('src/reactpy/core/layout.py', '        await self._rendering_queue.close()', '        self._closing = True\n        await self._rendering_queue.close()')]),
    ('close: leftovers', 'bug', [('src/reactpy/core/layout.py', '        await self._unmount_model_states(\n            list(self._model_states_by_life_cycle_state_id.values())\n        )\n', '')]),
    ('flag turned around', 'same', [('src/reactpy/core/layout.py', 'self._closing = False', 'self._open = True'), ('src/reactpy/core/layout.py', 'self._closing = True', 'self._open = False'), ('src/reactpy/core/layout.py', 'if self._closing:', 'if not self._open:')]),
    ('cancelled handler: separate clause', 'same', [('src/reactpy/core/layout.py', '                except (Exception, CancelledError):\n                    task = current_task()\n                    if task is not None and task.cancelling():\n                        raise\n                    # the handler failed, maybe by awaiting what had been cancelled\n                    logger.exception(f"Failed to execute event handler {handler}")\n', '                except CancelledError:\n                    if current_task().cancelling() > 0:\n                        raise\n                    logger.exception(f"Failed to execute event handler {handler}")\n                except Exception:\n                    logger.exception(f"Failed to execute event handler {handler}")\n')]),
    ('cancelled handler: helper', 'same', [('src/reactpy/core/layout.py', 'if task is not None and task.cancelling():', 'if _is_cancelled(task):'), ('src/reactpy/core/layout.py', 'def _get_running_loop()', 'def _is_cancelled(task: Task[Any] | None) -> bool:\n    return task is not None and task.cancelling() > 0\n\n\ndef _get_running_loop()')]),
    ('cancelled handler: flag local', 'same', [('src/reactpy/core/layout.py', '                except (Exception, CancelledError):\n                    task = current_task()\n                    if task is not None and task.cancelling():\n                        raise\n                    # the handler failed, maybe by awaiting what had been cancelled\n                    logger.exception(f"Failed to execute event handler {handler}")\n', '                except (Exception, CancelledError):\n                    task = current_task()\n                    ending = task is not None and task.cancelling() != 0\n                    if not ending:\n                        logger.exception(f"Failed to execute event handler {handler}")\n                    else:\n                        raise\n')]),
    ('cancelled handler: never leaves', 'bug', [('src/reactpy/core/layout.py', '                    if task is not None and task.cancelling():\n                        raise\n', '')]),
    ('cancelled handler: turned around', 'bug', [('src/reactpy/core/layout.py', 'task is not None and task.cancelling()', 'task is not None and not task.cancelling()')]),
]
