H = "src/reactpy/core/hooks.py"
L = "src/reactpy/core/_life_cycle_hook.py"
T = "src/reactpy/types.py"
LAY = "src/reactpy/core/layout.py"
SET = """        hook_stack = HOOK_STACK.get()
        if hook_stack:
            parent = hook_stack[-1]
            self._context_providers.update(parent._context_providers)
        hook_stack.append(self)
"""
UPD = "            self._context_providers.update(parent._context_providers)\n"
DFLT = '        return cast(_Type, context.__kwdefaults__["value"])\n\n    return provider.value\n'
CASES = [
    ("root", "bug", [(L, "parent = hook_stack[-1]", "parent = hook_stack[0]")]),
    ("setdefault", "bug", [(L, UPD, "            for k, v in parent._context_providers.items():\n                self._context_providers.setdefault(k, v)\n")]),
    ("not-override", "bug", [(L, UPD, "            for k, v in parent._context_providers.items():\n                if k not in self._context_providers:\n                    self._context_providers[k] = v\n")]),
    ("alias", "bug", [(L, UPD, "            self._context_providers = parent._context_providers\n")]),
    ("once", "bug", [(L, "        if hook_stack:\n            parent", "        if hook_stack and not self._rendered_atleast_once:\n            parent")]),
    ("if-empty", "bug", [(L, UPD, "            if not self._context_providers:\n                self._context_providers.update(parent._context_providers)\n")]),
    ("merge-order", "bug", [(L, UPD, "            self._context_providers = {**parent._context_providers, **self._context_providers}\n")]),
    ("merge-order2", "bug", [(L, UPD, "            self._context_providers = parent._context_providers | self._context_providers\n")]),
    ("after-push", "bug", [(L, SET, """        hook_stack = HOOK_STACK.get()
        hook_stack.append(self)
        if hook_stack:
            parent = hook_stack[-1]
            self._context_providers.update(parent._context_providers)
""")]),
    ("cleared", "bug", [(L, "        del self.component\n", "        del self.component\n        self._context_providers.clear()\n")]),
    ("by-name", "bug", [(L, "self._context_providers[provider.type] = provider", "self._context_providers[provider.type.__qualname__] = provider")]),
    ("first-wins", "bug", [(L, "        self._context_providers[provider.type] = provider", "        self._context_providers.setdefault(provider.type, provider)")]),
    ("any", "bug", [(L, "return self._context_providers.get(context)", "return next(iter(self._context_providers.values()), None)")]),
    ("falsy-value", "bug", [(H, DFLT, '        return cast(_Type, context.__kwdefaults__["value"])\n\n    return provider.value or context.__kwdefaults__["value"]\n')]),
    ("default-none", "bug", [(H, DFLT, "        return None\n\n    return provider.value\n")]),
    ("test-value", "bug", [(H, "    if provider is None:\n        # same", "    if provider is None or provider.value is None:\n        # same")]),
    ("default-fixed", "bug", [(H, "        value: _Type = default_value,\n        key: Key", "        value: _Type = None,\n        key: Key")]),
    ("key-lost", "bug", [(H, "            key=key,\n            type=context,", "            key=None,\n            type=context,")]),
    ("provider-cond", "bug", [(T, "        HOOK_STACK.current_hook().set_context_provider(self)\n", "        if self.value is not None:\n            HOOK_STACK.current_hook().set_context_provider(self)\n")]),
    ("provider-first-child", "bug", [(T, 'VdomDict(tagName="", children=self.children)', 'VdomDict(tagName="", children=self.children[:1])')]),
    ("provider-div", "bug", [(T, 'VdomDict(tagName="", children=self.children)', 'VdomDict(tagName="div", children=self.children)')]),
    ("value-swapped", "bug", [(T, "        self.key = key\n        self.type = type\n        self.value = value", "        self.key = key\n        self.type = type\n        self.value = value or None")]),
    # same behaviour
    ("loop", "same", [(L, UPD, "            for k, v in parent._context_providers.items():\n                self._context_providers[k] = v\n")]),
    ("merge", "same", [(L, UPD, "            self._context_providers = {**self._context_providers, **parent._context_providers}\n")]),
    ("or", "same", [(L, UPD, "            self._context_providers |= parent._context_providers\n")]),
    ("len", "same", [(L, "        if hook_stack:\n            parent = hook_stack[-1]", "        if len(hook_stack) > 0:\n            parent = hook_stack[-1]")]),
    ("early", "same", [(L, SET, """        stack = HOOK_STACK.get()
        if not stack:
            stack.append(self)
            return
        self._inherit(stack[-1])
        stack.append(self)

    def _inherit(self, parent: LifeCycleHook) -> None:
        self._context_providers.update(parent._context_providers)
""")]),
    ("twice", "same", [(L, "        hook_stack.append(self)\n", "        HOOK_STACK.get().append(self)\n")]),
    ("get-in", "same", [(L, "        return self._context_providers.get(context)", "        if context in self._context_providers:\n            return self._context_providers[context]\n        return None")]),
    ("use-if", "same", [(H, "    if provider is None:\n        # same", "    if provider is not None:\n        return provider.value\n    else:\n        # same"), (H, DFLT, '        return cast(_Type, context.__kwdefaults__["value"])\n')]),
    ("hook-var", "same", [(T, "        HOOK_STACK.current_hook().set_context_provider(self)\n        return VdomDict(tagName=\"\", children=self.children)", "        hook = HOOK_STACK.current_hook()\n        hook.set_context_provider(self)\n        model = VdomDict(tagName=\"\", children=self.children)\n        return model")]),
    ('provider none', 'bug', [('src/reactpy/core/hooks.py', '    if provider is None:\n        # same', '    if provider is None or provider.value is None:\n        # same')]),
    ('by name', 'bug', [('src/reactpy/core/_life_cycle_hook.py', '        self._context_providers[provider.type] = provider', '        self._context_providers[provider.type.__qualname__] = provider'), ('src/reactpy/core/_life_cycle_hook.py', '        return self._context_providers.get(context)', '        return self._context_providers.get(context.__qualname__)')]),
    ('child first', 'bug', [('src/reactpy/core/_life_cycle_hook.py', '            self._context_providers.update(parent._context_providers)', '            self._context_providers = {**parent._context_providers, **self._context_providers}')]),
    ('share dict', 'bug', [('src/reactpy/core/_life_cycle_hook.py', '            self._context_providers.update(parent._context_providers)', '            self._context_providers = parent._context_providers')]),
    ('only first render', 'bug', [('src/reactpy/core/_life_cycle_hook.py', '            self._context_providers.update(parent._context_providers)', '            if not self._rendered_atleast_once:\n                self._context_providers.update(parent._context_providers)')]),
    ('default dropped', 'bug', [('src/reactpy/core/hooks.py', '        value: _Type = default_value,', '        value: _Type = None,')]),
    ('stack bottom', 'bug', [('src/reactpy/core/_life_cycle_hook.py', '            parent = hook_stack[-1]', '            parent = hook_stack[0]')]),
    ('value copied', 'bug', [('src/reactpy/core/hooks.py', '            value=value,\n            key=key,\n            type=context,', '            value=value or default_value,\n            key=key,\n            type=context,')]),
]
