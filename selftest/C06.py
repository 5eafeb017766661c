L = "src/reactpy/core/layout.py"
H = "src/reactpy/core/_life_cycle_hook.py"
K = "src/reactpy/core/hooks.py"
CASES = [
    ("schedule before store", "bug", [(K, "                self.value = next_value\n                hook.schedule_render()\n", "                hook.schedule_render()\n                self.value = next_value\n")]),
    ("no schedule for falsy", "bug", [(K, "            if not strictly_equal(next_value, self.value):", "            if next_value and not strictly_equal(next_value, self.value):")]),
    ("current hook in setter", "bug", [(K, "                hook.schedule_render()\n", "                HOOK_STACK.current_hook().schedule_render()\n")]),
    ("flag after", "bug", [(H, """        self._scheduled_render = True
        try:
            self._schedule_render_callback()
        except Exception:
            self._scheduled_render = False
""", """        try:
            self._schedule_render_callback()
            self._scheduled_render = True
        except Exception:
""")]),
    ("flag stuck", "bug", [(H, "        except Exception:\n            self._scheduled_render = False\n            msg", "        except Exception:\n            msg")]),
    ("flag cleared in did render", "bug", [(H, "        self._scheduled_render = False\n        self.component = component", "        self.component = component"), (H, "        self._current_state_index = 0\n        self._render_access.release()", "        self._current_state_index = 0\n        self._scheduled_render = False\n        self._render_access.release()")]),
    ("rendered once guard", "bug", [(H, "        if self._scheduled_render:\n            return None", "        if self._scheduled_render or not self._rendered_atleast_once:\n            return None")]),
    ("drop if task exists", "bug", [(L, "            task = create_task(self._create_layout_update(model_state))\n", "            if lcs_id in self._render_tasks_by_id:\n                return None\n            task = create_task(self._create_layout_update(model_state))\n")]),
    ("no thread check", "bug", [(L, """        if _get_running_loop() is not self._loop:
            # state was changed in another thread
            self._loop.call_soon_threadsafe(self._schedule_render_task, lcs_id)
            return None
""", "")]),
    ("inverted thread check", "bug", [(L, "if _get_running_loop() is not self._loop:", "if _get_running_loop() is self._loop:")]),
    ("queue put direct", "bug", [(L, "            self._loop.call_soon_threadsafe(self._schedule_put, value)", "            self._schedule_put(value)")]),
    ("pending not removed", "bug", [(L, "        self._pending.remove(value)\n        return value", "        return value")]),
    ("pending removed unless empty", "bug", [(L, "        self._pending.remove(value)\n        return value", "        if not self._queue.empty():\n            self._pending.remove(value)\n        return value")]),
    ("pending after failure", "bug", [(L, "            self._pending.discard(value)\n            raise", "            raise")]),
    ("register late", "bug", [(L, "        self._model_states_by_life_cycle_state_id[life_cycle_state.id] = new_state\n\n", ""), (L, "        exit_stack.push_async_callback(life_cycle_hook.affect_layout_did_render)\n", "        self._model_states_by_life_cycle_state_id[life_cycle_state.id] = new_state\n        exit_stack.push_async_callback(life_cycle_hook.affect_layout_did_render)\n")]),
    ("register only new", "bug", [(L, "        self._model_states_by_life_cycle_state_id[life_cycle_state.id] = new_state\n\n", "        self._model_states_by_life_cycle_state_id.setdefault(life_cycle_state.id, new_state)\n\n")]),
    ("cancel self", "bug", [(L, "            if task is not current_task():\n", "            if not task.done():\n")]),
    ("cancel late", "bug", [(L, """        await life_cycle_hook.affect_component_will_render(component)
        exit_stack""", "        exit_stack"), (L, "        # If this component is scheduled to render, we can", "        await life_cycle_hook.affect_component_will_render(component)\n        # If this component is scheduled to render, we can")]),
    ("setter early return", "same", [(K, """            if not strictly_equal(next_value, self.value):
                self.value = next_value
                hook.schedule_render()
""", """            if strictly_equal(next_value, self.value):
                return
            self.value = next_value
            hook.schedule_render()
""")]),
    ("flag else", "same", [(H, "        if self._scheduled_render:\n            return None\n        # set", "        if not self._scheduled_render:\n            self._do_schedule()\n\n    def _do_schedule(self):\n        # set")]),
    ("flag try finally", "same", [(H, """        self._scheduled_render = True
        try:
            self._schedule_render_callback()
        except Exception:
            self._scheduled_render = False
            msg""", """        self._scheduled_render = True
        try:
            self._schedule_render_callback()
        except Exception:
            msg = ""
            logger.debug(msg)
            self._scheduled_render = False
            msg""")]),
    ("schedule get", "same", [(L, """        try:
            model_state = self._model_states_by_life_cycle_state_id[lcs_id]
        except KeyError:
            logger.debug(
                "Did not render component with model state ID "
                f"{lcs_id!r} - component already unmounted"
            )
        else:
            task""", """        model_state = self._model_states_by_life_cycle_state_id.get(lcs_id)
        if model_state is None:
            logger.debug("unmounted")
        else:
            task""")]),
    ("schedule in", "same", [(L, """        try:
            model_state = self._model_states_by_life_cycle_state_id[lcs_id]
        except KeyError:
            logger.debug(
                "Did not render component with model state ID "
                f"{lcs_id!r} - component already unmounted"
            )
        else:
            task""", """        if lcs_id not in self._model_states_by_life_cycle_state_id:
            return None
        else:
            model_state = self._model_states_by_life_cycle_state_id[lcs_id]
            task""")]),
    ("always through the loop", "same", [(L, """        if _get_running_loop() is not self._loop:
            # state was changed in another thread
            self._loop.call_soon_threadsafe(self._schedule_render_task, lcs_id)
            return None
        try:""", """        if _get_running_loop() is self._loop:
            self._start_render(lcs_id)
        else:
            self._loop.call_soon_threadsafe(self._start_render, lcs_id)

    def _start_render(self, lcs_id):
        try:""")]),
    ("schedule helper", "same", [(L, """            task = create_task(self._create_layout_update(model_state))
            self._render_task_to_lcs_id[task] = lcs_id
            self._render_tasks.add(task)
            self._render_tasks_by_id[lcs_id] = task
            task.add_done_callback(self._render_task_completed)
""", """            self._track(lcs_id, create_task(self._create_layout_update(model_state)))

    def _track(self, lcs_id, task):
        self._render_task_to_lcs_id[task] = lcs_id
        self._render_tasks_by_id[lcs_id] = task
        self._render_tasks.add(task)
        task.add_done_callback(self._render_task_completed)
""")]),
    ('flag turned around', 'same', [('src/reactpy/core/layout.py', 'self._closing = False', 'self._open = True'), ('src/reactpy/core/layout.py', 'self._closing = True', 'self._open = False'), ('src/reactpy/core/layout.py', 'if self._closing:', 'if not self._open:')]),
    ('flag set by deliver', 'bug', [('src/reactpy/core/layout.py', '        target = event["target"]\n        if target not in', '        self._closing = True\n        target = event["target"]\n        if target not in')]),
]
