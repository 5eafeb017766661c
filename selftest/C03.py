L = "src/reactpy/core/layout.py"
CASES = [
    ("ignore type", "bug", [(L, "            and old_state.life_cycle_state.component.type != component.type\n", "            and False\n")]),
    ("wrong compare", "bug", [(L, "old_state.life_cycle_state.component.type != component.type", "old_state.life_cycle_state.component.key != component.key")]),
    ("inverted", "bug", [(L, "old_state.life_cycle_state.component.type != component.type", "old_state.life_cycle_state.component.type == component.type")]),
    ("by position", "bug", [(L, "old_state.children_by_key.get(key)\n", "old_state.children_by_key.get(index)\n")]),
    ("attach index", "bug", [(L, "                    new_state.children_by_key[key] = new_child_state", "                    new_state.children_by_key[index] = new_child_state")]),
    ("falsy key", "bug", [(L, "        if key is None:\n            key = index", "        if not key:\n            key = index")]),
    ("dups allowed", "bug", [(L, "        if new_keys is None:", "        if new_keys is None and REACTPY_DEBUG.current:")]),
    ("dups never", "bug", [(L, "            has_duplicates = True", "            has_duplicates = False")]),
    ("new id for old hook", "bug", [(L, "        old_life_cycle_state.id,\n        # the hook", "        _LifeCycleStateId(uuid4().hex),\n        # the hook")]),
    ("path key", "bug", [(L, 'key_path=_child_key_path(new_parent, old_model_state.key),', 'key_path=f"{old_model_state.key_path}",')]),
    ("path index", "bug", [(L, 'patch_path=f"{new_parent.patch_path}/children/{new_index}",', 'patch_path=f"{new_parent.patch_path}/children/{old_model_state.index}",')]),
    ("component key", "bug", [(L, "            key = child.key\n", "            key = None\n")]),
    ("always fresh", "bug", [(L, """            if old_model_state.is_component_state
            else _make_life_cycle_state(new_component, schedule_render)""", """            if old_model_state.index == new_index
            else _make_life_cycle_state(new_component, schedule_render)""")]),
    ("swap arms", "same", [(L, """        elif (
            old_state.is_component_state
            and old_state.life_cycle_state.component.type != component.type
        ):
            await self._unmount_model_states([old_state])
            new_state = _make_component_model_state(
                parent, index, key, component, self._schedule_render_task
            )
            old_state = None
        elif not old_state.is_component_state:
""", """        elif not (
            old_state.is_component_state
            and old_state.life_cycle_state.component.type == component.type
        ):
""")]),
    ("subscript lookup", "same", [(L, """                old_child_state = (
                    old_state.children_by_key.get(key)
                    if old_state is not None
                    else None
                )
""", """                if old_state is None:
                    old_child_state = None
                else:
                    old_child_state = old_state.children_by_key.get(key, None)
""")]),
    ("key expression", "same", [(L, "        if key is None:\n            key = index\n", "        key = index if key is None else key\n")]),
    ("dup set size", "same", [(L, "        if key in keys:\n            has_duplicates = True\n        keys.add(key)", "        has_duplicates = has_duplicates or key in keys\n        keys.add(key)")]),
    ("helper", "same", [(L, "            key = child.get(\"attributes\", {}).get(\"key\")", "            key = _key_of(child)"), (L, "def _get_children_info(", "def _key_of(child):\n    attributes = child.get('attributes', {})\n    return attributes.get('key')\n\n\ndef _get_children_info(")]),
    ("position instead of key", "bug", [(L, "        key_path=_child_key_path(new_parent, old_model_state.key),\n    )", "        key_path=_child_key_path(new_parent, new_index),\n    )")]),
    ('failed children stay', 'bug', [('src/reactpy/core/layout.py', '            new_state.children_by_key.clear()\n', '')]),
    ('key str', 'bug', [('src/reactpy/core/layout.py', '        if key in keys:\n            has_duplicates = True\n        keys.add(key)\n', '        key = f"{key}"\n        if key in keys:\n            has_duplicates = True\n        keys.add(key)\n')]),
    ('dups among explicit only', 'bug', [('src/reactpy/core/layout.py', '        if key is None:\n            key = index\n\n        if key in keys:\n            has_duplicates = True\n        keys.add(key)', '        if key is None:\n            key = index\n        elif key in keys:\n            has_duplicates = True\n        keys.add(key)')]),
    ('counter by hand', 'same', [('src/reactpy/core/layout.py', '    for index, child in enumerate(children):\n        if child is None:\n            continue', '    index = -1\n    for child in children:\n        index += 1\n        if child is None:\n            continue')]),
    ('range', 'same', [('src/reactpy/core/layout.py', '    for index, child in enumerate(children):\n        if child is None:\n            continue', '    for index in range(len(children)):\n        child = children[index]\n        if child is None:\n            continue')]),
    ('conditional key', 'same', [('src/reactpy/core/layout.py', '        if key is None:\n            key = index\n', '        key = index if key is None else key\n')]),
    ('none skipped shifts', 'bug', [('src/reactpy/core/layout.py', '    for index, child in enumerate(children):\n        if child is None:\n            continue', '    index = -1\n    for child in children:\n        if child is None:\n            continue\n        index += 1\n        if False:\n            pass')]),
]
