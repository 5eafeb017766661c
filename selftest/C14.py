V = "src/reactpy/core/vdom.py"
LAY = "src/reactpy/core/layout.py"
W = "src/reactpy/widgets.py"
S = "src/reactpy/executors/asgi/standalone.py"
PU = "src/reactpy/executors/pyscript/utils.py"
U = "src/reactpy/utils.py"
COPY = '            attrs = raw_model["attributes"].copy()\n            new_state.model.current["attributes"] = attrs\n'
SEP = """    for k, v in attributes.items():
        if callable(v):
"""
CASES = [
    ("attrs-alias", "bug", [(LAY, 'attrs = raw_model["attributes"].copy()', 'attrs = raw_model["attributes"]')]),
    ("model-alias", "bug", [(LAY, 'new_state.model.current = {"tagName": raw_model["tagName"]}', 'raw_model["tagName"]\n            new_state.model.current = raw_model')]),
    ("pop-key", "bug", [(LAY, 'key = raw_model.get("attributes", {}).get("key")\n        if key', 'key = raw_model.get("attributes", {}).pop("key", None)\n        if key')]),
    ("handlers-pop", "bug", [(LAY, 'handlers_by_event: EventHandlerDict = raw_model.get("eventHandlers", {})', 'handlers_by_event: EventHandlerDict = raw_model.pop("eventHandlers", {})')]),
    ("sep-pop", "bug", [(V, "        if callable(v):\n            _event_handlers[k] = ", "        if callable(v):\n            attributes = dict(attributes) if not attributes else attributes\n            attributes[k] = None\n            _event_handlers[k] = ")]),
    ("flatten-in-place", "bug", [(V, "            _children.extend(_flatten_children(child))", "            child[:] = _flatten_children(child)\n            _children.extend(child)")]),
    ("child-key", "bug", [(V, '                child_copy = {**child, "children": EllipsisRepr()}', '                child["children"] = EllipsisRepr()\n                child_copy = child')]),
    ("head-append", "bug", [(S, '            head_children = [*self.html_head.get("children", []), pyscript_head_vdom]\n            self.html_head = VdomDict(**{**self.html_head, "children": head_children})', '            self.html_head.setdefault("children", []).append(pyscript_head_vdom)')]),
    ("head-shallow", "bug", [(S, '            head_children = [*self.html_head.get("children", []), pyscript_head_vdom]\n            self.html_head = VdomDict(**{**self.html_head, "children": head_children})', '            self.html_head = VdomDict(**self.html_head)\n            self.html_head.setdefault("children", []).append(pyscript_head_vdom)')]),
    ("modules", "bug", [(PU, "        modules = modules.copy()", "        pass")]),
    ("image-src", "bug", [(W, 'return VdomDict(tagName="img", attributes={"src": src, **(attributes or {})})', 'attributes = attributes or {}\n    attributes["src"] = src\n    return VdomDict(tagName="img", attributes=attributes)')]),
    ("linked", "bug", [(W, 'inputs.append(html.input({**attrs, "onChange": sync_inputs, "value": value}))', 'attrs.update({"onChange": sync_inputs, "value": value})\n        inputs.append(html.input(attrs))')]),
    ("extra-py", "bug", [(PU, 'pyscript_config["packages"].extend(extra_py)', 'extra_py += pyscript_config["packages"]\n    pyscript_config["packages"] = extra_py')]),
    ("js-copy", "bug", [(LAY, 'inline_javascript = raw_model["inlineJavaScript"].copy()', 'inline_javascript = raw_model["inlineJavaScript"]\n            inline_javascript.pop("key", None)')]),
    ("spread-dict", "same", [(LAY, 'attrs = raw_model["attributes"].copy()', 'attrs = {**raw_model["attributes"]}')]),
    ("dict-call", "same", [(LAY, 'attrs = raw_model["attributes"].copy()', 'attrs = dict(raw_model["attributes"])')]),
    ("helper", "same", [(LAY, 'attrs = raw_model["attributes"].copy()', 'attrs = _copied(raw_model["attributes"])'), (LAY, "class _ModelState:", "def _copied(mapping):\n    return {k: v for k, v in mapping.items()}\n\n\nclass _ModelState:")]),
    ("modules-dict", "same", [(PU, "        modules = modules.copy()", "        modules = {**modules}")]),
    ("head-list", "same", [(S, '            head_children = [*self.html_head.get("children", []), pyscript_head_vdom]\n', '            head_children = list(self.html_head.get("children", []))\n            head_children.append(pyscript_head_vdom)\n')]),
    ("linked-copy", "same", [(W, 'inputs.append(html.input({**attrs, "onChange": sync_inputs, "value": value}))', 'own = dict(attrs)\n        own["onChange"] = sync_inputs\n        own["value"] = value\n        inputs.append(html.input(own))')]),
    ("image-own", "same", [(W, 'return VdomDict(tagName="img", attributes={"src": src, **(attributes or {})})', 'own = {"src": src}\n    own.update(attributes or {})\n    return VdomDict(tagName="img", attributes=own)')]),
    ("flatten-loop", "same", [(V, "            _children.extend(_flatten_children(child))", "            for x in _flatten_children(child):\n                _children.append(x)")]),
]
