L = "src/reactpy/core/layout.py"
TAKE = "            update_task = self._completed_render_tasks.popleft()\n"
BOOK = """            lcs_id = self._render_task_to_lcs_id.pop(update_task, None)
            if self._render_tasks_by_id.get(lcs_id) is update_task:
                del self._render_tasks_by_id[lcs_id]
"""
RES = """            try:
                return update_task.result()
            except CancelledError:  # nocov
                continue
"""
CASES = [
    ("lifo", "bug", [(L, "_completed_render_tasks.popleft()", "_completed_render_tasks.pop()")]),
    ("release first", "bug", [(L, "        self._completed_render_tasks.append(task)\n        self._render_tasks_ready.release()", "        self._render_tasks_ready.release()\n        self._completed_render_tasks.append(task)")]),
    ("release twice", "bug", [(L, "        self._completed_render_tasks.append(task)\n        self._render_tasks_ready.release()", "        self._completed_render_tasks.append(task)\n        self._render_tasks_ready.release()\n        if task.cancelled():\n            self._render_tasks_ready.release()")]),
    ("not kept when cancelled, released", "bug", [(L, "        self._completed_render_tasks.append(task)\n", "        if not task.cancelled():\n            self._completed_render_tasks.append(task)\n")]),
    ("no callback", "bug", [(L, "            task.add_done_callback(self._render_task_completed)\n", "")]),
    ("drop superseded", "bug", [(L, BOOK, BOOK + "            else:\n                continue\n")]),
    ("release task of newer", "bug", [(L, BOOK, "            lcs_id = self._render_task_to_lcs_id.pop(update_task, None)\n            if lcs_id in self._render_tasks_by_id:\n                del self._render_tasks_by_id[lcs_id]\n")]),
    ("newer popped", "bug", [(L, BOOK, "            lcs_id = self._render_task_to_lcs_id.pop(update_task, None)\n            self._render_tasks_by_id.pop(lcs_id, None)\n")]),
    ("swallow", "bug", [(L, "            except CancelledError:  # nocov\n                continue", "            except (CancelledError, Exception):\n                continue")]),
    ("old path", "bug", [(L, '"path": new_state.patch_path', '"path": old_state.patch_path')]),
    ("key path", "bug", [(L, '"path": new_state.patch_path', '"path": new_state.key_path')]),
    ("old model", "bug", [(L, '                "model": new_state.model.current,\n            }', '                "model": old_state.model.current,\n            }')]),
    ("serial drops", "bug", [(L, "                return await self._create_layout_update(model_state)", "                update = await self._create_layout_update(model_state)\n                if self._rendering_queue._pending:\n                    continue\n                return update")]),
    ("serial skip", "bug", [(L, "            model_state_id = await self._rendering_queue.get()\n", "            model_state_id = await self._rendering_queue.get()\n            if model_state_id != self._root_life_cycle_state_id and model_state_id in self._rendering_queue._pending:\n                continue\n")]),
    ("any done task", "bug", [(L, TAKE, "            update_task = next(t for t in self._render_tasks if t.done())\n            self._completed_render_tasks.popleft()\n")]),
    ("checked cancel", "same", [(L, RES, "            if update_task.cancelled():\n                continue\n            return update_task.result()\n")]),
    ("list pop 0", "same", [(L, "_completed_render_tasks.popleft()", "_completed_render_tasks.pop(0)"), (L, "self._completed_render_tasks: deque[Task[LayoutUpdateMessage]] = deque()", "self._completed_render_tasks: list[Task[LayoutUpdateMessage]] = []")]),
    ("helper", "same", [(L, TAKE + "            self._render_tasks.discard(update_task)\n" + BOOK, "            update_task = self._next_completed()\n"), (L, "    async def _parallel_render(self)", """    def _next_completed(self):
        update_task = self._completed_render_tasks.popleft()
        self._render_tasks.discard(update_task)
        lcs_id = self._render_task_to_lcs_id.pop(update_task, None)
        if self._render_tasks_by_id.get(lcs_id) is update_task:
            del self._render_tasks_by_id[lcs_id]
        return update_task

    async def _parallel_render(self)""")]),
    ("async queue", "same", [(L, "            await self._render_tasks_ready.acquire()\n\n            update_task = self._completed_render_tasks.popleft()\n", "            update_task = await self._completed_render_tasks.get()\n"), (L, "        self._completed_render_tasks.append(task)\n        self._render_tasks_ready.release()", "        self._completed_render_tasks.put_nowait(task)"), (L, "self._completed_render_tasks: deque[Task[LayoutUpdateMessage]] = deque()", "self._completed_render_tasks: Queue[Task[LayoutUpdateMessage]] = Queue()")]),
    ("update var", "same", [(L, """            return {
                "type": "layout-update",
                "path": new_state.patch_path,
                "model": new_state.model.current,
            }""", """            model = new_state.model.current
            update = {"type": "layout-update", "path": new_state.patch_path, "model": model}
            return update""")]),
    ("result var", "same", [(L, RES, """            try:
                update = update_task.result()
            except CancelledError:
                continue
            else:
                return update
""")]),
    ("serial get", "same", [(L, """            try:
                model_state = self._model_states_by_life_cycle_state_id[model_state_id]
            except KeyError:
                logger.debug(
                    "Did not render component with model state ID "
                    f"{model_state_id!r} - component already unmounted"
                )
            else:
                return await self._create_layout_update(model_state)
""", """            model_state = self._model_states_by_life_cycle_state_id.get(model_state_id)
            if model_state is None:
                logger.debug("component already unmounted")
                continue
            return await self._create_layout_update(model_state)
""")]),
    ('release at creation', 'bug', [('src/reactpy/core/layout.py', '            task.add_done_callback(self._render_task_completed)', '            task.add_done_callback(self._completed_render_tasks.append)\n            self._render_tasks_ready.release()')]),
]
