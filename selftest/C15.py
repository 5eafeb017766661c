V = "src/reactpy/core/vdom.py"
LOOP = """    for k, v in attributes.items():
        if callable(v):
            _event_handlers[k] = EventHandler(to_event_handler_function(v))
        elif isinstance(v, BaseEventHandler):
            _event_handlers[k] = v
        elif EVENT_ATTRIBUTE_PATTERN.match(k) and isinstance(v, str):
            _inline_javascript[k] = InlineJavaScript(v)
        elif isinstance(v, InlineJavaScript):
            _inline_javascript[k] = v
        else:
            _attributes[k] = v

    return _attributes, _event_handlers, _inline_javascript
"""
FLAT = """    _children: list[VdomChildren] = []
    for child in children:
        if _is_single_child(child):
            _children.append(child)
        else:
            _children.extend(_flatten_children(child))
    return _children
"""
RES = """            result = {
                **({"children": children} if children else {}),
                **({"attributes": attributes} if attributes else {}),
                **({"eventHandlers": event_handlers} if event_handlers else {}),
                **(
                    {"inlineJavaScript": inline_javascript} if inline_javascript else {}
                ),
                **({"importSource": self.import_source} if self.import_source else {}),
            }
"""
CASES = [
    ("inline-lost", "bug", [(V, "            _inline_javascript[k] = v\n        else", "            _inline_javascript[k] = v\n            break\n        else")]),
    ("event-any", "bug", [(V, "elif EVENT_ATTRIBUTE_PATTERN.match(k) and isinstance(v, str):", "elif EVENT_ATTRIBUTE_PATTERN.match(k):")]),
    ("pattern-ci", "bug", [(V, 're.compile(r"^on[A-Z]\\w+")', 're.compile(r"^on\\w+")')]),
    ("pattern-search", "bug", [(V, 're.compile(r"^on[A-Z]\\w+")', 're.compile(r"on[A-Z]\\w+")'), (V, "EVENT_ATTRIBUTE_PATTERN.match(k)", "EVENT_ATTRIBUTE_PATTERN.search(k)")]),
    ("callable-in-both", "bug", [(V, "            _event_handlers[k] = EventHandler(to_event_handler_function(v))\n", "            _event_handlers[k] = EventHandler(to_event_handler_function(v))\n            _attributes[k] = v\n")]),
    ("handler-only-events", "bug", [(V, "        elif isinstance(v, BaseEventHandler):", "        elif isinstance(v, BaseEventHandler) and EVENT_ATTRIBUTE_PATTERN.match(k):")]),
    ("callable-only-events", "bug", [(V, "        if callable(v):", "        if callable(v) and EVENT_ATTRIBUTE_PATTERN.match(k):")]),
    ("drop-falsy", "bug", [(V, "        else:\n            _attributes[k] = v", "        elif v:\n            _attributes[k] = v")]),
    ("prevent", "bug", [(V, "EventHandler(to_event_handler_function(v))", "EventHandler(to_event_handler_function(v), True)")]),
    ("positional", "bug", [(V, "EventHandler(to_event_handler_function(v))", "EventHandler(to_event_handler_function(v, False))")]),
    ("swap", "bug", [(V, "return _attributes, _event_handlers, _inline_javascript", "return _attributes, _inline_javascript, _event_handlers")]),
    ("isinstance-first", "bug", [(V, "if type(values[0]) is dict:", "if isinstance(values[0], dict):")]),
    ("mapping-first", "bug", [(V, "if type(values[0]) is dict:", "if not isinstance(values[0], VdomDict) and hasattr(values[0], 'items') or values[0] is None:")]),
    ("append-nested", "bug", [(V, "_children.extend(_flatten_children(child))", "_children.append(_flatten_children(child))")]),
    ("one-level", "bug", [(V, "_children.extend(_flatten_children(child))", "_children.extend(child)")]),
    ("reverse", "bug", [(V, "_children.append(child)\n", "_children.insert(0, child)\n")]),
    ("drop-none", "bug", [(V, "            _children.append(child)\n", "            if child is not None:\n                _children.append(child)\n")]),
    ("tuple-single", "bug", [(V, "isinstance(value, (str, Mapping))", "isinstance(value, (str, tuple, Mapping))")]),
    ("dict-child", "bug", [(V, "isinstance(value, (str, Mapping))", "isinstance(value, (str, VdomDict))")]),
    ("consume", "bug", [(V, '    if hasattr(value, "__iter__") and not hasattr(value, "__len__"):', '    if not hasattr(value, "__iter__"):')]),
    ("import-lost", "bug", [(V, '{"importSource": self.import_source} if self.import_source else {}', '{"importSource": self.import_source} if self.import_source and not children else {}')]),
    ("inline-key", "bug", [(V, '{"inlineJavaScript": inline_javascript} if', '{"inlineJavascript": inline_javascript} if')]),
    ("children-cond", "bug", [(V, '**({"children": children} if children else {})', '**({"children": children} if children and attributes else {})')]),
    ("no-refuse", "bug", [(V, "if children and not self.allow_children:", "if attributes and children and not self.allow_children:"), (V, "        attributes, children = separate", "        attributes, children = separate")]),
    ("refuse-late", "bug", [(V, "if children and not self.allow_children:", "if len(children) > 1 and not self.allow_children:")]),
    ("custom-handlers", "bug", [(V, "                event_handlers=event_handlers,\n            )", "                event_handlers={},\n            )")]),
    ("tag-lost", "bug", [(V, 'result = result | {"tagName": self.__name__}', 'result = {"tagName": self.__name__} if self.custom_constructor and not result else result | {"tagName": self.__name__.lower()}')]),
    # same behaviour
    ("loops", "same", [(V, LOOP, """    for name, value in attributes.items():
        is_event = EVENT_ATTRIBUTE_PATTERN.match(name) is not None
        if callable(value) or isinstance(value, BaseEventHandler):
            _event_handlers[name] = (
                EventHandler(to_event_handler_function(value)) if callable(value) else value
            )
            continue
        if isinstance(value, InlineJavaScript):
            _inline_javascript[name] = value
            continue
        if isinstance(value, str) and is_event:
            _inline_javascript[name] = InlineJavaScript(value)
            continue
        _attributes[name] = value

    return _attributes, _event_handlers, _inline_javascript
""")]),
    ("helper", "same", [(V, LOOP, """    for k in attributes:
        v = attributes[k]
        _sort_in(k, v, _attributes, _event_handlers, _inline_javascript)

    return _attributes, _event_handlers, _inline_javascript


def _sort_in(k, v, attrs, handlers, scripts):
    if callable(v):
        handlers[k] = EventHandler(to_event_handler_function(v))
    elif isinstance(v, BaseEventHandler):
        handlers[k] = v
    elif (k.startswith("on") and k[2:3].isupper() and len(k) > 3) and isinstance(v, str):
        scripts[k] = InlineJavaScript(v)
    elif isinstance(v, InlineJavaScript):
        scripts[k] = v
    else:
        attrs[k] = v
""")]),
    ("comps", "same", [(V, LOOP, """    handlers = {
        k: v if not callable(v) else EventHandler(to_event_handler_function(v))
        for k, v in attributes.items()
        if callable(v) or isinstance(v, BaseEventHandler)
    }
    scripts = {
        k: InlineJavaScript(v)
        for k, v in attributes.items()
        if k not in handlers and isinstance(v, str) and (isinstance(v, InlineJavaScript) or EVENT_ATTRIBUTE_PATTERN.match(k))
    }
    rest = {k: v for k, v in attributes.items() if k not in handlers and k not in scripts}
    return rest, handlers, scripts
""")]),
    ("flat-comp", "same", [(V, FLAT, """    return [
        item
        for child in children
        for item in ([child] if _is_single_child(child) else _flatten_children(child))
    ]
""")]),
    ("flat-gen", "same", [(V, FLAT, """    _children: list[VdomChildren] = []
    for child in children:
        if not _is_single_child(child):
            _children += _flatten_children(child)
            continue
        _children.append(child)
    return _children
""")]),
    ("result-ifs", "same", [(V, RES, """            result = {}
            if children:
                result["children"] = children
            if attributes:
                result["attributes"] = attributes
            if event_handlers:
                result["eventHandlers"] = event_handlers
            if inline_javascript:
                result["inlineJavaScript"] = inline_javascript
            if self.import_source:
                result["importSource"] = self.import_source
""")]),
    ("result-comp", "same", [(V, RES, """            parts = {
                "children": children,
                "attributes": attributes,
                "eventHandlers": event_handlers,
                "inlineJavaScript": inline_javascript,
                "importSource": self.import_source,
            }
            result = {name: part for name, part in parts.items() if part}
""")]),
    ("check-first", "same", [(V, "        # Run custom constructor, if defined\n", "        if children and not self.allow_children:\n            raise TypeError(f'{self.__name__!r} nodes cannot have children.')\n\n        # Run custom constructor, if defined\n")]),
    ("first-var", "same", [(V, "    if type(values[0]) is dict:\n        _attributes, *children_or_iterables = values\n", "    first = values[0]\n    if type(first) is dict:\n        _attributes, children_or_iterables = first, values[1:]\n")]),
    ('first child dict only if more', 'bug', [('src/reactpy/core/vdom.py', '    if type(values[0]) is dict:', '    if type(values[0]) is dict and len(values) > 0 and values[0]:')]),
    ('callable after handler', 'same', [('src/reactpy/core/vdom.py', '        if callable(v):\n            _event_handlers[k] = EventHandler(to_event_handler_function(v))\n        elif isinstance(v, BaseEventHandler):\n            _event_handlers[k] = v\n        elif EVENT', '        if isinstance(v, BaseEventHandler):\n            _event_handlers[k] = v\n        elif callable(v):\n            _event_handlers[k] = EventHandler(to_event_handler_function(v))\n        elif EVENT')]),
    ('only on handlers', 'bug', [('src/reactpy/core/vdom.py', '        if callable(v):\n', '        if callable(v) and EVENT_ATTRIBUTE_PATTERN.match(k):\n')]),
    ('falsy dropped', 'bug', [('src/reactpy/core/vdom.py', '        else:\n            _attributes[k] = v\n', '        elif v is not None:\n            _attributes[k] = v\n')]),
    ('falsy child dropped', 'bug', [('src/reactpy/core/vdom.py', '        if _is_single_child(child):\n            _children.append(child)', '        if _is_single_child(child):\n            if child is not None:\n                _children.append(child)')]),
    ('tag overridden', 'bug', [('src/reactpy/core/vdom.py', '        result = result | {"tagName": self.__name__}', '        result = {"tagName": self.__name__} | result')]),
    ('no children first level', 'bug', [('src/reactpy/core/vdom.py', '            _children.extend(_flatten_children(child))', '            _children.extend(child)')]),
    ('reversed nested', 'bug', [('src/reactpy/core/vdom.py', '            _children.extend(_flatten_children(child))', '            _children[:0] = _flatten_children(child)')]),
    ('nested importsource lost', 'bug', [('src/reactpy/core/vdom.py', '            allow_children=self.allow_children,\n            import_source=self.import_source,\n        )\n\n    @overload', '            import_source=self.import_source,\n        )\n\n    @overload')]),
    ('custom w/o import check', 'bug', [('src/reactpy/core/vdom.py', '        if children and not self.allow_children:', '        if children and not self.allow_children and not self.custom_constructor:')]),
]
