L = "src/reactpy/core/layout.py"
CASES = [
    ("unmount only component children", "bug", [(L, "            to_unmount.extend(model_state.children_by_key.values())", "            to_unmount.extend(c for c in model_state.children_by_key.values() if c.is_component_state or c.children_by_key)")]),
    ("failed: only components", "bug", [(L, "                    *new_state.children_by_key.values(),\n", "                    *(c for c in new_state.children_by_key.values() if c.is_component_state),\n")]),
    ("vanished filter", "bug", [(L, "[old_state.children_by_key[key] for key in old_keys]", "[old_state.children_by_key[key] for key in old_keys if not key.startswith('_')]")]),

    ("string replaces component", "bug", [(L, """                    if old_child_state is not None:
                        await self._unmount_model_states([old_child_state])
                    new_child_state = child""", "                    new_child_state = child")]),
    ("string replaces component only if component", "bug", [(L, """                    if old_child_state is not None:
                        await self._unmount_model_states([old_child_state])""", """                    if old_child_state is not None and old_child_state.is_component_state:
                        await self._unmount_model_states([old_child_state])""")]),
    ("replaced type not unmounted", "bug", [(L, """            and old_state.life_cycle_state.component.type != component.type
        ):
            await self._unmount_model_states([old_state])""", """            and old_state.life_cycle_state.component.type != component.type
        ):""")]),
    ("element replaced by component", "bug", [(L, """        elif not old_state.is_component_state:
            await self._unmount_model_states([old_state])
            new_state = _make_component""", """        elif not old_state.is_component_state:
            new_state = _make_component""")]),
    ("element replacing component", "bug", [(L, """        elif old_state.is_component_state:
            await self._unmount_model_states([old_state])
            new_state = _make_element""", """        elif old_state.is_component_state:
            new_state = _make_element""")]),
    ("vanished dropped", "bug", [(L, """            if old_keys:
                await self._unmount_model_states(
                    [old_state.children_by_key[key] for key in old_keys]
                )
""", "")]),
    ("vanished only if children", "bug", [(L, "        if old_state is not None:\n            old_keys", "        if old_state is not None and raw_children:\n            old_keys")]),
    ("vanished reversed", "bug", [(L, "set(old_state.children_by_key).difference(new_keys)", "set(new_keys).difference(old_state.children_by_key)")]),
    ("children not extended", "bug", [(L, "            to_unmount.extend(model_state.children_by_key.values())\n", "")]),
    ("children of components only", "bug", [(L, "                    await life_cycle_state.hook.affect_component_will_unmount()\n\n            to_unmount.extend(model_state.children_by_key.values())\n", "                    await life_cycle_state.hook.affect_component_will_unmount()\n                to_unmount.extend(model_state.children_by_key.values())\n")]),
    ("children if registered", "bug", [(L, "                    await life_cycle_state.hook.affect_component_will_unmount()\n\n            to_unmount.extend(model_state.children_by_key.values())\n", "                    await life_cycle_state.hook.affect_component_will_unmount()\n                else:\n                    continue\n            to_unmount.extend(model_state.children_by_key.values())\n")]),
    ("handlers kept", "bug", [(L, "            self._remove_event_handlers(model_state)\n\n            if model_state.is_component_state", "            if model_state.is_component_state")]),
    ("twice", "bug", [(L, """                if self._model_states_by_life_cycle_state_id.pop(
                    life_cycle_state.id, None
                ):
                    await life_cycle""", """                self._model_states_by_life_cycle_state_id.pop(life_cycle_state.id, None)
                if True:
                    await life_cycle""")]),
    ("not unregistered", "bug", [(L, "self._model_states_by_life_cycle_state_id.pop(\n                    life_cycle_state.id, None\n", "self._model_states_by_life_cycle_state_id.get(\n                    life_cycle_state.id, None\n")]),
    ("hook not unmounted", "bug", [(L, "                    await life_cycle_state.hook.affect_component_will_unmount()\n", "                    pass\n"), (L, "    async def _unmount_model_states(", "    async def _other(self, life_cycle_state):\n        await life_cycle_state.hook.affect_component_will_unmount()\n\n    async def _unmount_model_states(")]),
    ("failed keeps new", "bug", [(L, "                    *new_state.children_by_key.values(),\n", "")]),
    ("failed keeps old", "bug", [(L, "                    *(old_state.children_by_key.values() if old_state else ()),\n", "")]),
    ("not attached", "bug", [(L, "                    new_state.children_by_key[key] = new_child_state", "                    if key != index:\n                        new_state.children_by_key[key] = new_child_state")]),
    ("element attached late only on success", "same", [(L, "        # do this now so that it can be unmounted if it fails to render\n        parent.children_by_key[key] = new_state\n", "        parent.children_by_key[key] = new_state\n")]),
    ("rerender not attached", "bug", [(L, "                parent.children_by_key[new_state.key] = new_state\n", "")]),
    ("recursion", "same", [(L, """        to_unmount = old_states[::-1]  # unmount in reversed order of rendering
        while to_unmount:
            model_state = to_unmount.pop()
""", """        for model_state in old_states[::-1]:
"""), (L, "            to_unmount.extend(model_state.children_by_key.values())\n", "            await self._unmount_model_states([*model_state.children_by_key.values()])\n")]),
    ("early continue", "same", [(L, """            if model_state.is_component_state:
                life_cycle_state = model_state.life_cycle_state
                if self._model_states_by_life_cycle_state_id.pop(
                    life_cycle_state.id, None
                ):
                    await life_cycle_state.hook.affect_component_will_unmount()

            to_unmount.extend(model_state.children_by_key.values())
""", """            to_unmount += list(model_state.children_by_key.values())
            if not model_state.is_component_state:
                continue
            lcs = model_state.life_cycle_state
            registered = self._model_states_by_life_cycle_state_id.pop(lcs.id, None)
            if registered is None:
                continue
            await lcs.hook.affect_component_will_unmount()
""")]),
    ("helper for one", "same", [(L, """            self._remove_event_handlers(model_state)

            if model_state.is_component_state:
                life_cycle_state = model_state.life_cycle_state
                if self._model_states_by_life_cycle_state_id.pop(
                    life_cycle_state.id, None
                ):
                    await life_cycle_state.hook.affect_component_will_unmount()

            to_unmount.extend(model_state.children_by_key.values())
""", """            await self._unmount_one(model_state)
            to_unmount.extend(model_state.children_by_key.values())

    async def _unmount_one(self, model_state):
        self._remove_event_handlers(model_state)
        if model_state.is_component_state:
            id_ = model_state.life_cycle_state.id
            if id_ in self._model_states_by_life_cycle_state_id:
                del self._model_states_by_life_cycle_state_id[id_]
                await model_state.life_cycle_state.hook.affect_component_will_unmount()
""")]),
    ("vanished loop", "same", [(L, """            old_keys = set(old_state.children_by_key).difference(new_keys)
            if old_keys:
                await self._unmount_model_states(
                    [old_state.children_by_key[key] for key in old_keys]
                )
""", """            gone = [s for k, s in old_state.children_by_key.items() if k not in new_keys]
            await self._unmount_model_states(gone)
""")]),
    ("vanished for", "same", [(L, """            old_keys = set(old_state.children_by_key).difference(new_keys)
            if old_keys:
                await self._unmount_model_states(
                    [old_state.children_by_key[key] for key in old_keys]
                )
""", """            for old_key, state in list(old_state.children_by_key.items()):
                if old_key not in new_keys:
                    await self._unmount_model_states([state])
""")]),
    ("vanished minus", "same", [(L, "set(old_state.children_by_key).difference(new_keys)", "old_state.children_by_key.keys() - new_keys")]),
    ("failed in two calls", "same", [(L, """            await self._unmount_model_states(
                [
                    *new_state.children_by_key.values(),
                    *(old_state.children_by_key.values() if old_state else ()),
                ]
            )
""", """            await self._unmount_model_states(list(new_state.children_by_key.values()))
            if old_state is not None:
                await self._unmount_model_states(list(old_state.children_by_key.values()))
""")]),
    ('failed children stay', 'bug', [('src/reactpy/core/layout.py', '            new_state.children_by_key.clear()\n', '')]),
    ('unmount hooks gathered', 'bug', [('src/reactpy/core/layout.py', '                    await life_cycle_state.hook.affect_component_will_unmount()', '                    create_task(life_cycle_state.hook.affect_component_will_unmount())')]),
]
