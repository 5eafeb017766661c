L = "src/reactpy/core/layout.py"
H = "src/reactpy/core/_life_cycle_hook.py"
CASES = [
    ("reset not in finally", "bug", [(L, "        finally:\n            HOOK_STACK.reset(token)", "        except ValueError:\n            HOOK_STACK.reset(token)\n            raise")]),
    ("did_render only on Exception", "bug", [(L, "        finally:\n            await life_cycle_hook.affect_component_did_render()\n", "        await life_cycle_hook.affect_component_did_render()\n")]),
    ("will_render inside try", "bug", [(L, "        await life_cycle_hook.affect_component_will_render(component)\n        exit_stack.push_async_callback(life_cycle_hook.affect_layout_did_render)\n        try:\n", "        exit_stack.push_async_callback(life_cycle_hook.affect_layout_did_render)\n        try:\n            await life_cycle_hook.affect_component_will_render(component)\n")]),
    ("permit leaked", "bug", [(H, "        await self._render_access.acquire()\n        self._scheduled_render = False\n        self.component = component\n        self.set_current()", "        await self._render_access.acquire()\n        self._scheduled_render = False\n        await gather()\n        self.component = component\n        self.set_current()")]),
    ("push before acquire", "bug", [(H, "        await self._render_access.acquire()\n        self._scheduled_render = False\n        self.component = component\n        self.set_current()", "        self.set_current()\n        await self._render_access.acquire()\n        self._scheduled_render = False\n        self.component = component\n")]),
    ("no release", "bug", [(H, "        self._render_access.release()\n", "")]),
    ("conditional release", "bug", [(H, "        self._render_access.release()\n", "        if not self._scheduled_render:\n            self._render_access.release()\n")]),
    ("pop first", "bug", [(H, "hook_stack.pop() is not self", "hook_stack.pop(0) is not self")]),
    ("two permits", "bug", [(H, "Semaphore(1)", "Semaphore(2)")]),
    ("shared list", "bug", [(H, "self._state.set([])", "self._state.set(self.get())")]),
    ("first hook", "bug", [(H, "return hook_stack[-1]\n\n\nHOOK", "return hook_stack[0]\n\n\nHOOK")]),
    ("helper for end", "same", [(L, "        finally:\n            await life_cycle_hook.affect_component_did_render()\n", "        finally:\n            await self._end(life_cycle_hook)\n"), (L, "    async def _unmount_model_states(", "    async def _end(self, h):\n        await h.affect_component_did_render()\n\n    async def _unmount_model_states(")]),
    ("stack helper", "same", [(L, "        token = HOOK_STACK.initialize()\n", "        token = self._begin()\n"), (L, "    async def _unmount_model_states(", "    def _begin(self):\n        return HOOK_STACK.initialize()\n\n    async def _unmount_model_states(")]),
    ("order in did_render", "same", [(H, "        self._rendered_atleast_once = True\n        self._current_state_index = 0\n        self._render_access.release()\n", "        self._render_access.release()\n        self._rendered_atleast_once = True\n        self._current_state_index = 0\n")]),
    ("pop via local", "same", [(H, "        if hook_stack and hook_stack.pop() is not self:", "        popped = hook_stack.pop()\n        if popped is not self:")]),
    ("slot renamed", "same", [(H, "        self._render_access = Semaphore(1)", "        self._lock = Semaphore(1)"), (H, "await self._render_access.acquire()", "await self._lock.acquire()"), (H, "self._render_access.release()", "self._lock.release()")]),
]
