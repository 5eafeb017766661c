H = "src/reactpy/core/hooks.py"
L = "src/reactpy/core/_life_cycle_hook.py"
BODY = """        if self._current_state_index >= len(self._state):
            # this state was not reached by any render yet so we append it
            result = function()
            self._state.append(result)
        else:
            # once finalized we iterate over each succesively used piece of state
            result = self._state[self._current_state_index]
        self._current_state_index += 1
        return result
"""
DISP = """            next_value = new(self.value) if callable(new) else new  # type: ignore
            if not strictly_equal(next_value, self.value):
"""
INIT = "        self.value = initial_value() if callable(initial_value) else initial_value\n"
RED = """    def dispatch(action: _ActionType) -> None:
        set_state(lambda last_state: reducer(last_state, action))
"""
CONST = "    current_state = _use_const(lambda: _CurrentState(initial_value))\n"
RET = "    return State(current_state.value, current_state.dispatch)  # type: ignore\n"
DID = "        self._current_state_index = 0\n        self._render_access.release()"
CASES = [
    ("gt", "bug", [(L, "if self._current_state_index >= len(self._state):", "if self._current_state_index > len(self._state):")]),
    ("rendered", "bug", [(L, "if self._current_state_index >= len(self._state):", "if not self._rendered_atleast_once:")]),
    ("no-append", "bug", [(L, "            self._state.append(result)\n", "")]),
    ("inc-only-new", "bug", [(L, BODY, BODY.replace("        self._current_state_index += 1\n", "").replace("self._state.append(result)\n", "self._state.append(result)\n            self._current_state_index += 1\n"))]),
    ("inc-before-get", "bug", [(L, BODY, BODY.replace("            result = self._state[", "            self._current_state_index += 1\n            result = self._state[").replace("        self._current_state_index += 1\n        return", "        return").replace("self._state.append(result)\n", "self._state.append(result)\n            self._current_state_index += 1\n"))]),
    ("last", "bug", [(L, "result = self._state[self._current_state_index]", "result = self._state[-1]")]),
    ("inc2", "bug", [(L, "self._current_state_index += 1", "self._current_state_index += 2")]),
    ("insert", "bug", [(L, "self._state.append(result)", "self._state.insert(0, result)")]),
    ("no-reset", "bug", [(L, DID, "        self._render_access.release()")]),
    ("reset-1", "bug", [(L, DID, DID.replace("= 0", "= 1"))]),
    ("reset-once", "bug", [(L, DID, "        if not self._rendered_atleast_once:\n            self._current_state_index = 0\n        self._render_access.release()"), (L, "        self._rendered_atleast_once = True\n", "")]),
    ("clear", "bug", [(L, "        stop = Event()\n", "        stop = Event()\n        self._state.clear()\n")]),
    ("cut", "bug", [(L, DID, "        del self._state[self._current_state_index:]\n" + DID)]),
    ("cut2", "bug", [(L, DID, "        self._state = self._state[: self._current_state_index]\n" + DID)]),
    ("shared", "bug", [(L, "        self._state: list = []\n", "        self._state: list = _STATE\n"), (L, "class LifeCycleHook:", "_STATE = []\n\n\nclass LifeCycleHook:")]),
    ("eager", "bug", [(H, CONST, "    initial = _CurrentState(initial_value)\n    current_state = _use_const(lambda: initial)\n")]),
    ("eager-initial", "bug", [(H, CONST, "    first = initial_value() if callable(initial_value) else initial_value\n    current_state = _use_const(lambda: _CurrentState(first))\n")]),
    ("not-kept", "bug", [(H, CONST, "    current_state = _CurrentState(initial_value)\n")]),
    ("swapped", "bug", [(H, RET, "    return State(current_state.dispatch, current_state.value)  # type: ignore\n")]),
    ("stale-value", "bug", [(H, RET, "    return State(_use_const(lambda: current_state.value), current_state.dispatch)  # type: ignore\n")]),
    ("init-not-called", "bug", [(H, INIT, "        self.value = initial_value\n")]),
    ("init-swapped", "bug", [(H, INIT, "        self.value = initial_value if callable(initial_value) else initial_value()\n")]),
    ("disp-captured", "bug", [(H, "        hook = HOOK_STACK.current_hook()\n\n        def dispatch", "        hook = HOOK_STACK.current_hook()\n        first = self.value\n\n        def dispatch"), (H, "new(self.value) if", "new(first) if")]),
    ("disp-fn-stored", "bug", [(H, "                self.value = next_value\n", "                self.value = new\n")]),
    ("disp-no-call", "bug", [(H, DISP, DISP.replace("new(self.value) if callable(new) else new", "new"))]),
    ("reducer-stale", "bug", [(H, RED, "    def dispatch(action: _ActionType) -> None:\n        set_state(reducer(state, action))\n"), (H, "_create_dispatcher(reducer, set_state)", "_create_dispatcher(reducer, set_state, state)"), (H, "    set_state: Callable[[Callable[[_Type], _Type]], None],\n)", "    set_state: Callable[[Callable[[_Type], _Type]], None],\n    state,\n)")]),
    ("reducer-swapped", "bug", [(H, "reducer(last_state, action)", "reducer(action, last_state)")]),
    ("ref-fresh", "bug", [(H, "    return _use_const(lambda: Ref(initial_value))", "    return Ref(_use_const(lambda: initial_value))")]),
    ("ref-empty", "bug", [(H, "    return _use_const(lambda: Ref(initial_value))", "    return _use_const(lambda: Ref())")]),
    # same behaviour
    ("lt", "same", [(L, BODY, """        index = self._current_state_index
        if index < len(self._state):
            result = self._state[index]
        else:
            result = function()
            self._state.append(result)
        self._current_state_index = index + 1
        return result
""")]),
    ("early", "same", [(L, BODY, """        if self._current_state_index == len(self._state):
            self._state.append(function())
        index = self._current_state_index
        self._current_state_index += 1
        return self._state[index]
""")]),
    ("except", "same", [(L, BODY, """        try:
            result = self._state[self._current_state_index]
        except IndexError:
            result = function()
            self._state.append(result)
        self._current_state_index += 1
        return result
""")]),
    ("inc-then-minus", "same", [(L, BODY, BODY.replace("        return result\n", "        return self._state[self._current_state_index - 1]\n"))]),
    ("helper", "same", [(L, BODY, BODY.replace("            result = function()\n            self._state.append(result)\n", "            result = self._new_state(function)\n")), (L, "    def add_effect(", "    def _new_state(self, function):\n        result = function()\n        self._state.append(result)\n        return result\n\n    def add_effect(")]),
    ("reset-in-will", "same", [(L, DID, "        self._render_access.release()"), (L, "        self._scheduled_render = False\n        self.component = component\n", "        self._scheduled_render = False\n        self._current_state_index = 0\n        self.component = component\n")]),
    ("if-stmt", "same", [(H, DISP, """            if callable(new):
                next_value = new(self.value)
            else:
                next_value = new
            if not strictly_equal(next_value, self.value):
""")]),
    ("init-if", "same", [(H, INIT, """        if callable(initial_value):
            initial_value = initial_value()
        self.value = initial_value
""")]),
    ("not-callable", "same", [(H, DISP, DISP.replace("new(self.value) if callable(new) else new", "new if not callable(new) else new(self.value)"))]),
    ("method-dispatch", "same", [(H, RET, "    value, set_value = current_state.value, current_state.dispatch\n    return State(value=value, set_value=set_value)  # type: ignore\n")]),
    ("named-init", "same", [(H, CONST, "    def create():\n        return _CurrentState(initial_value)\n\n    current_state = _use_const(create)\n")]),
    ("reducer-def", "same", [(H, RED, """    def dispatch(action: _ActionType) -> None:
        def update(previous):
            result = reducer(previous, action)
            return result

        set_state(update)
""")]),
    ('setter identity', 'bug', [('src/reactpy/core/hooks.py', '            if not strictly_equal(next_value, self.value):\n', '            if next_value != self.value:\n')]),
    ('functional from render', 'bug', [('src/reactpy/core/hooks.py', '            next_value = new(self.value) if callable(new)', '            next_value = new(initial) if callable(new)'), ('src/reactpy/core/hooks.py', '        hook = HOOK_STACK.current_hook()\n\n        def dispatch', '        hook = HOOK_STACK.current_hook()\n        initial = self.value\n\n        def dispatch')]),
    ('reducer of closure', 'bug', [('src/reactpy/core/hooks.py', '        set_state(lambda last_state: reducer(last_state, action))', '        set_state(reducer(state, action))'), ('src/reactpy/core/hooks.py', '    return state, _use_const(lambda: _create_dispatcher(reducer, set_state))', '    return state, _use_const(lambda: _create_dispatcher(reducer, set_state, state))'), ('src/reactpy/core/hooks.py', '    set_state: Callable[[Callable[[_Type], _Type]], None],\n)', '    set_state: Callable[[Callable[[_Type], _Type]], None],\n    state: Any = None,\n)')]),
    ('dispatcher each render', 'bug', [('src/reactpy/core/hooks.py', '_use_const(lambda: _create_dispatcher(reducer, set_state))', '_create_dispatcher(reducer, set_state)')]),
    ('index reset at start', 'same', [('src/reactpy/core/_life_cycle_hook.py', '        self._current_state_index = 0\n        self._render_access.release()', '        self._render_access.release()'), ('src/reactpy/core/_life_cycle_hook.py', '        self._scheduled_render = False\n        self.component = component', '        self._scheduled_render = False\n        self._current_state_index = 0\n        self.component = component')]),
    ('state on first render only', 'bug', [('src/reactpy/core/_life_cycle_hook.py', '        if self._current_state_index >= len(self._state):', '        if not self._rendered_atleast_once:')]),
    ('dup init', 'same', [('src/reactpy/core/hooks.py', '        self.value = initial_value() if callable(initial_value) else initial_value\n', '        self.value = initial_value\n        if callable(initial_value):\n            self.value = initial_value()\n')]),
    ('init every render', 'bug', [('src/reactpy/core/hooks.py', '    current_state = _use_const(lambda: _CurrentState(initial_value))\n', '    value = initial_value() if callable(initial_value) else initial_value\n    current_state = _use_const(lambda: _CurrentState(value))\n')]),
    ('ref new', 'bug', [('src/reactpy/core/hooks.py', '    return _use_const(lambda: Ref(initial_value))', '    ref = _use_const(lambda: Ref(initial_value))\n    return Ref(ref.current) if REACTPY_DEBUG.current else ref')]),
    ('index before fn', 'same?', [('src/reactpy/core/_life_cycle_hook.py', '            result = function()\n            self._state.append(result)', '            self._current_state_index += 1\n            result = function()\n            self._state.append(result)\n            return result')]),
    ('none is falsy', 'bug', [('src/reactpy/core/hooks.py', '            next_value = new(self.value) if callable(new) else new  # type: ignore\n', '            next_value = new(self.value) if callable(new) else new  # type: ignore\n            if next_value is None:\n                return\n')]),
    ('two pass values', 'same', [('src/reactpy/core/hooks.py', '            next_value = new(self.value) if callable(new) else new  # type: ignore\n            if not', '            old = self.value\n            next_value = new(old) if callable(new) else new  # type: ignore\n            if not')]),
]
