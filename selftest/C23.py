O = "src/reactpy/_option.py"
F = "src/reactpy/config.py"
NOTIFY = """        if new != old:
            for sub_func in self._subscribers:
                sub_func(new)
"""
MUT = """        if not self._mutable:
            msg = f"{self} cannot be modified after initial load"
            raise TypeError(msg)
"""
ENV = """        # load the environment last, subscribing to a parent copies its current value
        if name in os.environ:
            self._current = validator(os.environ[name])

"""
UNSET = """        old = self.current
        if hasattr(self, "_current"):
            delattr(self, "_current")
        if self.current != old:
            for sub_func in self._subscribers:
                sub_func(self.current)
"""
VAL = """        try:
            new = self._current = self._validator(new)
        except ValueError as error:
            raise ValueError(f"Invalid value for {self._name}: {new!r}") from error
"""
CASES = [
    ("notify always", "bug", [(O, "        if new != old:\n            for", "        if True:\n            for")]),
    ("notify with raw", "bug", [(O, "            new = self._current = self._validator(new)", "            self._current = self._validator(new)")]),
    ("notify first only", "bug", [(O, "                sub_func(new)\n\n    def set_default", "                sub_func(new)\n                break\n\n    def set_default")]),
    ("not validated", "bug", [(O, "new = self._current = self._validator(new)", "self._validator(new)\n            self._current = new")]),
    ("stored before validation", "bug", [(O, "new = self._current = self._validator(new)", "self._current = new\n            new = self._current = self._validator(new)")]),
    ("immutable set", "bug", [(O, "            return None\n\n" + MUT, "            return None\n\n" + MUT.replace("if not self._mutable:", "if not self._mutable and self.is_set():"))]),
    ("immutable unset", "bug", [(O, '        """Remove the current value, the default will be used until it is set again."""\n' + MUT, '        """Remove the current value."""\n')]),
    ("unset quietly", "bug", [(O, UNSET, UNSET.split("        if self.current != old")[0])]),
    ("unset twice fails", "bug", [(O, '        if hasattr(self, "_current"):\n            delattr(self, "_current")\n', '        delattr(self, "_current")\n')]),
    ("unset to default value", "bug", [(O, '        if hasattr(self, "_current"):\n            delattr(self, "_current")\n', "        self._current = self._default\n")]),
    ("truthy current", "bug", [(O, """        try:
            return self._current
        except AttributeError:
            return self._default

    @current.setter""", """        return getattr(self, "_current", None) or self._default

    @current.setter""")]),
    ("default by truth", "bug", [(O, "elif default is not UNDEFINED:", "elif default:")]),
    ("set_default replaces default", "bug", [(O, "        if not self.is_set():\n            self.set_current(new)\n", "        if not self.is_set():\n            self._default = new\n")]),
    ("set_default always", "bug", [(O, "        if not self.is_set():\n            self.set_current(new)\n", "        self.set_current(new)\n")]),
    ("set_default by value", "bug", [(O, "        if not self.is_set():\n            self.set_current(new)\n", "        if self.current == self.default:\n            self.set_current(new)\n")]),
    ("environment first", "bug", [(O, ENV, ""), (O, "        if parent is not None:\n", ENV + "        if parent is not None:\n")]),
    ("environment not validated", "bug", [(O, "validator(os.environ[name])", "os.environ[name]")]),
    ("reload unsets", "bug", [(O, "self.set_current(os.environ.get(self._name, self._default))", "if self._name in os.environ:\n            self.set_current(os.environ[self._name])")]),
    ("subscribe silently", "bug", [(O, "        handler(self.current)\n", "")]),
    ("subscribe first", "bug", [(O, "self._subscribers.append(handler)", "self._subscribers.insert(0, handler)")]),
    ("subscribe immutable", "bug", [(O, """        if not self.mutable:
            msg = "Immutable options cannot be subscribed to."
            raise TypeError(msg)
""", "")]),
    ("parent default is current", "bug", [(O, "self._default = parent.default", "self._default = parent.current")]),
    ("parent not followed", "bug", [(O, "            parent.subscribe(self.set_current)\n", "            self._current = parent.current\n")]),
    ("immutable child", "bug", [(O, "if not (parent.mutable and self.mutable):", "if not parent.mutable:")]),
    ("shared subscribers", "bug", [(O, "        self._subscribers: list[Callable[[_O], None]] = []\n", ""), (O, "    def __init__(\n        self,\n        name: str,", "    _subscribers = []\n\n    def __init__(\n        self,\n        name: str,")]),
    ("warns when made", "bug", [(O, "        super().__init__(*args, **kwargs)\n        self._deprecation_message = message\n", "        self._deprecation_message = message\n        super().__init__(*args, **kwargs)\n")]),
    ("no warning", "bug", [(O, "            warn(msg, DeprecationWarning)\n", "            pass\n")]),
    ("wrong name", "bug", [(F, '    "REACTPY_RECONNECT_MAX_RETRIES",', '    "REACTPY_RECONNECT_RETRIES",')]),
    ("name twice", "bug", [(F, '    "REACTPY_RECONNECT_MAX_INTERVAL",', '    "REACTPY_RECONNECT_INTERVAL",')]),
    ("case matters", "bug", [(F, "if value.lower() in TRUE_VALUES:", "if value in TRUE_VALUES:")]),
    ("anything is false", "bug", [(F, "    elif value.lower() in FALSE_VALUES:\n        return False\n    else:\n", "    elif value:\n        return False\n    else:\n")]),
    ("same: notify helper", "same", [(O, NOTIFY, "        self._notify(old)\n"), (O, """        if self.current != old:
            for sub_func in self._subscribers:
                sub_func(self.current)
""", "        self._notify(old)\n"), (O, "    def __repr__", """    def _notify(self, old: _O) -> None:
        new = self.current
        if new == old:
            return
        for subscriber in self._subscribers:
            subscriber(new)

    def __repr__""")]),
    ("same: mutable helper", "same", [(O, "            return None\n\n" + MUT, "            return None\n\n        self._check_mutable()\n"), (O, '        """Remove the current value, the default will be used until it is set again."""\n' + MUT, "        self._check_mutable()\n"), (O, "    def __repr__", "    def _check_mutable(self):\n" + MUT + "\n    def __repr__")]),
    ("same: sentinel", "same", [(O, "        self._subscribers: list", "        self._current = UNDEFINED\n        self._subscribers: list"), (O, """        try:
            return self._current
        except AttributeError:
            return self._default

    @current.setter""", """        if self._current is UNDEFINED:
            return self._default
        return self._current

    @current.setter"""), (O, 'return hasattr(self, "_current")', "return self._current is not UNDEFINED"), (O, '        if hasattr(self, "_current"):\n            delattr(self, "_current")\n', "        self._current = UNDEFINED\n")]),
    ("same: get", "same", [(O, ENV, """        value = os.environ.get(name)
        if value is not None:
            self._current = validator(value)

""")]),
    ("same: getattr", "same", [(O, """        try:
            return self._current
        except AttributeError:
            return self._default

    @current.setter""", """        return getattr(self, "_current", self._default)

    @current.setter""")]),
    ("same: value first", "same", [(O, VAL, """        try:
            value = self._validator(new)
        except ValueError as error:
            raise ValueError(f"Invalid value for {self._name}: {new!r}") from error
        self._current = new = value
""")]),
    ("same: unset", "same", [(O, UNSET, """        if not self.is_set():
            return
        old = self._current
        del self._current
        new = self.current
        if new != old:
            for sub_func in self._subscribers:
                sub_func(new)
""")]),
    ("same: boolean", "same", [(F, "    if value.lower() in TRUE_VALUES:\n        return True\n    elif value.lower() in FALSE_VALUES:\n        return False\n    else:\n        raise", "    lowered = value.lower()\n    if lowered in TRUE_VALUES:\n        return True\n    if lowered in FALSE_VALUES:\n        return False\n    if True:\n        raise")]),
    ('old unset', 'bug', [('src/reactpy/_option.py', '        old = self.current\n        if new is old:', '        old = getattr(self, "_current", None)\n        if new is old:')]),
    ('equal not stored', 'bug', [('src/reactpy/_option.py', '        if new is old:', '        if new == old:')]),
    ('notify before store', 'bug', [('src/reactpy/_option.py', '            new = self._current = self._validator(new)', '            new = self._validator(new)'), ('src/reactpy/_option.py', '        logger.debug(f"{self._name}={self._current}")\n        if new != old:\n            for sub_func in self._subscribers:\n                sub_func(new)', '        if new != old:\n            for sub_func in self._subscribers:\n                sub_func(new)\n        self._current = new\n        logger.debug(f"{self._name}={self._current}")')]),
    ('raw env', 'bug', [('src/reactpy/_option.py', 'self._current = validator(os.environ[name])', 'self._current = os.environ[name]')]),
    ('default env truthy', 'bug', [('src/reactpy/_option.py', '        if name in os.environ:', '        if os.environ.get(name):')]),
    ('set_default raw', 'bug', [('src/reactpy/_option.py', '            self.set_current(new)\n        return self.current', '            self._current = new\n        return self.current')]),
    ('reload get', 'bug', [('src/reactpy/_option.py', 'os.environ.get(self._name, self._default)', 'os.environ.get(self._name) or self._default')]),
    ('unset keeps parent', 'bug', [('src/reactpy/_option.py', '        if self.current != old:\n            for sub_func in self._subscribers:\n                sub_func(self.current)\n\n    def __repr__', '        for sub_func in self._subscribers:\n            sub_func(self.current)\n\n    def __repr__')]),
    ('sub dedupe', 'bug', [('src/reactpy/_option.py', '        self._subscribers.append(handler)\n', '        if handler not in self._subscribers:\n            self._subscribers.append(handler)\n')]),
    ('validation error type', 'bug', [('src/reactpy/_option.py', '        except ValueError as error:\n            raise ValueError', '        except (ValueError, TypeError) as error:\n            self._current = new\n            raise ValueError')]),
    ('bool strings', 'bug', [('src/reactpy/config.py', 'def boolean(value: str | bool | int) -> bool:', "def boolean(value: str | bool | int) -> bool:\n    if value == '':\n        return False")]),
]
