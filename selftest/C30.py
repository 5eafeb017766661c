CASES = [
    ('name not stripped', 'bug', [('src/reactpy/_html.py', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_HTML_BODY\n        )\n\n        return self.__cache__[value]\n', '        value = value.replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_HTML_BODY\n        )\n\n        return self.__cache__[value]\n')]),
    ('strip both', 'bug', [('src/reactpy/_html.py', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_HTML_BODY\n        )\n\n        return self.__cache__[value]\n', '        value = value.replace("_", "-").rstrip("_")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_HTML_BODY\n        )\n\n        return self.__cache__[value]\n')]),
    ('only first dash', 'bug', [('src/reactpy/_html.py', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_HTML_BODY\n        )\n\n        return self.__cache__[value]\n', '        value = value.rstrip("_").replace("_", "-", 1)\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_HTML_BODY\n        )\n\n        return self.__cache__[value]\n')]),
    ('shared cache', 'bug', [('src/reactpy/_html.py', '    __cache__: ClassVar[dict[str, VdomConstructor]] = {}\n', '    __cache__: ClassVar[dict[str, VdomConstructor]] = _CACHE\n'), ('src/reactpy/_html.py', 'class SvgConstructor:', '_CACHE = {}\n\n\nclass SvgConstructor:'), ('src/reactpy/_html.py', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_HTML_BODY\n        )\n\n        return self.__cache__[value]\n', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        if value in _CACHE:\n            return _CACHE[value]\n\n        _CACHE[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_HTML_BODY\n        )\n\n        return _CACHE[value]\n')]),
    ('allow negated', 'bug', [('src/reactpy/_html.py', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_HTML_BODY\n        )\n\n        return self.__cache__[value]\n', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value in NO_CHILDREN_ALLOWED_HTML_BODY\n        )\n\n        return self.__cache__[value]\n')]),
    ('lower', 'bug', [('src/reactpy/_html.py', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_SVG\n        )\n\n        return self.__cache__[value]\n', '        value = value.rstrip("_").replace("_", "-").lower()\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_SVG\n        )\n\n        return self.__cache__[value]\n')]),
    ('allow forgotten', 'bug', [('src/reactpy/_html.py', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_HTML_BODY\n        )\n\n        return self.__cache__[value]\n', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(value)\n\n        return self.__cache__[value]\n')]),
    ('input allowed', 'bug', [('src/reactpy/_html.py', '    "input",\n', '')]),
    ('p refused', 'bug', [('src/reactpy/_html.py', '    "param",\n', '    "p",\n')]),
    ('key cached by first letter', 'bug', [('src/reactpy/_html.py', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_HTML_BODY\n        )\n\n        return self.__cache__[value]\n', '        value = value.rstrip("_").replace("_", "-")\n\n        if value[:5] in self.__cache__:\n            return self.__cache__[value[:5]]\n\n        self.__cache__[value[:5]] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_HTML_BODY\n        )\n\n        return self.__cache__[value[:5]]\n')]),
    ('fragment attrs', 'bug', [('src/reactpy/_html.py', 'any(k != "key" for k in attributes)', '"key" not in attributes and attributes')]),
    ('fragment handlers', 'bug', [('src/reactpy/_html.py', 'any(k != "key" for k in attributes) or event_handlers', 'any(k != "key" for k in attributes)')]),
    ('fragment all', 'bug', [('src/reactpy/_html.py', 'any(k != "key" for k in attributes)', 'attributes and all(k != "key" for k in attributes)')]),
    ('fragment key falsy', 'bug', [('src/reactpy/_html.py', '    if attributes:\n        model["attributes"] = attributes\n\n    return model\n\n\ndef _script', '    if attributes.get("key"):\n        model["attributes"] = attributes\n\n    return model\n\n\ndef _script')]),
    ('script key falsy', 'bug', [('src/reactpy/_html.py', '        if key is None:\n            key = children[0]', '        if not key:\n            key = children[0]')]),
    ('script src over text', 'bug', [('src/reactpy/_html.py', 'if key is None and not children and "src"', 'if "src"')]),
    ('script key src lost', 'bug', [('src/reactpy/_html.py', 'if key is None and not children and "src" in attributes', 'if key is None and children and "src" in attributes')]),
    ('script two', 'bug', [('src/reactpy/_html.py', 'if len(children) > 1:', 'if len(children) > 2:')]),
    ('script not str', 'bug', [('src/reactpy/_html.py', 'if not isinstance(children[0], str):', 'if children[0] is None:')]),
    ('script handlers', 'bug', [('src/reactpy/_html.py', '    if event_handlers:\n        msg = "\'script\'', '    if event_handlers and children:\n        msg = "\'script\'')]),
    ('script key overwritten', 'bug', [('src/reactpy/_html.py', '        if key is None:\n            key = children[0]', '        key = children[0]')]),
    ('reserved only keyword', 'bug', [('src/reactpy/core/component.py', '        inspect.Parameter.POSITIONAL_OR_KEYWORD,\n', '')]),
    ('reserved only first', 'bug', [('src/reactpy/core/component.py', 'if "key" in sig.parameters and', 'if "key" in list(sig.parameters)[:1] and')]),
    ('reserved prefix', 'bug', [('src/reactpy/core/component.py', 'if "key" in sig.parameters and sig.parameters["key"].kind in (', 'if any(p.startswith("key") for p in sig.parameters) and next(sig.parameters[p] for p in sig.parameters if p.startswith("key")).kind in (')]),
    ('key default', 'bug', [('src/reactpy/core/component.py', 'Component(function, key, args, kwargs, sig)', 'Component(function, key or None, args, kwargs, sig)')]),
    ('args swapped', 'bug', [('src/reactpy/core/component.py', 'return Component(function, key, args, kwargs, sig)', 'return Component(constructor, key, args, kwargs, sig)')]),
    ('kwargs with key', 'bug', [('src/reactpy/core/component.py', '        return Component(function, key,', "        if key is not None:\n            kwargs = {**kwargs, 'key': key}\n        return Component(function, key,")]),
    ('shared kwargs', 'bug', [('src/reactpy/core/component.py', '    @wraps(function)', '    shared: dict = {}\n\n    @wraps(function)'), ('src/reactpy/core/component.py', '        return Component(function, key, args, kwargs, sig)', '        shared.update(kwargs)\n        return Component(function, key, args, shared, sig)')]),
    ('render once', 'bug', [('src/reactpy/types.py', '        return self.type(*self._args, **self._kwargs)', '        return self.type(*self._args)')]),
    ('render pops', 'bug', [('src/reactpy/types.py', '        return self.type(*self._args, **self._kwargs)', '        args, self._args = self._args, ()\n        return self.type(*args, **self._kwargs)')]),
    ('li no merge order', 'bug', [('src/reactpy/widgets.py', '{**attrs, "onChange": sync_inputs, "value": value}', '{"onChange": sync_inputs, "value": value, **attrs}')]),
    ('li key lost', 'bug', [('src/reactpy/widgets.py', '{**attrs, "onChange": sync_inputs, "value": value}', '{**{k: v for k, v in attrs.items() if k != "key"}, "onChange": sync_inputs, "value": value}')]),
    ('li mutated', 'bug', [('src/reactpy/widgets.py', 'html.input({**attrs, "onChange": sync_inputs, "value": value})', 'html.input(attrs)'), ('src/reactpy/widgets.py', '    for attrs in attributes:\n', "    for attrs in attributes:\n        attrs.update({'onChange': sync_inputs, 'value': value})\n")]),
    ('li set after', 'bug', [('src/reactpy/widgets.py', '        set_value(new_value)\n        if not new_value and ignore_empty:\n            return None\n        on_change(cast(new_value))', '        if not new_value and ignore_empty:\n            return None\n        on_change(cast(new_value))\n        set_value(new_value)')]),
    ('li cast set', 'bug', [('src/reactpy/widgets.py', '        set_value(new_value)\n        if not new_value and ignore_empty:\n            return None\n        on_change(cast(new_value))', '        if not new_value and ignore_empty:\n            set_value(new_value)\n            return None\n        casted = cast(new_value)\n        set_value(new_value)\n        on_change(casted)')]),
    ('li strip', 'bug', [('src/reactpy/widgets.py', 'if not new_value and ignore_empty', 'if not new_value.strip() and ignore_empty')]),
    ('li ignore and', 'bug', [('src/reactpy/widgets.py', 'if not new_value and ignore_empty', 'if ignore_empty')]),
    ('li no cast', 'bug', [('src/reactpy/widgets.py', 'on_change(cast(new_value))', 'on_change(new_value)')]),
    ('li set cast', 'bug', [('src/reactpy/widgets.py', '        set_value(new_value)', '        set_value(cast(new_value))')]),
    ('image mime', 'bug', [('src/reactpy/widgets.py', '        format = "svg+xml"  # noqa: A001', '        format = "svg"  # noqa: A001')]),
    ('image over', 'bug', [('src/reactpy/widgets.py', 'attributes={"src": src, **(attributes or {})}', 'attributes={"src": src} if attributes is None else {"src": src, "alt": attributes.get("alt")}')]),
    ('image mutates', 'bug', [('src/reactpy/widgets.py', '    return VdomDict(tagName="img", attributes={"src": src, **(attributes or {})})', '    attributes = attributes if attributes is not None else {}\n    attributes["src"] = src\n    return VdomDict(tagName="img", attributes=attributes)')]),
    ('image latin', 'bug', [('src/reactpy/widgets.py', 'value.encode()', "value.encode('latin-1', 'replace')")]),
    ('cache get', 'same', [('src/reactpy/_html.py', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_HTML_BODY\n        )\n\n        return self.__cache__[value]\n', '        name = value.rstrip("_").replace("_", "-")\n        found = self.__cache__.get(name)\n        if found is None:\n            allow = name not in NO_CHILDREN_ALLOWED_HTML_BODY\n            found = self.__cache__[name] = Vdom(name, allow_children=allow)\n        return found\n')]),
    ('module helper', 'same', [('src/reactpy/_html.py', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_HTML_BODY\n        )\n\n        return self.__cache__[value]\n', '        return _constructor(self.__cache__, value, NO_CHILDREN_ALLOWED_HTML_BODY)\n'), ('src/reactpy/_html.py', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_SVG\n        )\n\n        return self.__cache__[value]\n', '        return _constructor(self.__cache__, value, NO_CHILDREN_ALLOWED_SVG)\n'), ('src/reactpy/_html.py', 'class SvgConstructor:', 'def _constructor(cache, value, childless):\n    value = value.rstrip("_").replace("_", "-")\n    if value not in cache:\n        cache[value] = Vdom(value, allow_children=value not in childless)\n    return cache[value]\n\n\nclass SvgConstructor:')]),
    ('no cache', 'same', [('src/reactpy/_html.py', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_SVG\n        )\n\n        return self.__cache__[value]\n', '        value = value.rstrip("_").replace("_", "-")\n        return Vdom(value, allow_children=value not in NO_CHILDREN_ALLOWED_SVG)\n')]),
    ('setdefault', 'same', [('src/reactpy/_html.py', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_SVG\n        )\n\n        return self.__cache__[value]\n', '        value = value.rstrip("_").replace("_", "-")\n        return self.__cache__.setdefault(\n            value, Vdom(value, allow_children=value not in NO_CHILDREN_ALLOWED_SVG)\n        )\n')]),
    ('try cache', 'same', [('src/reactpy/_html.py', '        value = value.rstrip("_").replace("_", "-")\n\n        if value in self.__cache__:\n            return self.__cache__[value]\n\n        self.__cache__[value] = Vdom(\n            value, allow_children=value not in NO_CHILDREN_ALLOWED_SVG\n        )\n\n        return self.__cache__[value]\n', '        value = value.rstrip("_").replace("_", "-")\n        try:\n            return self.__cache__[value]\n        except KeyError:\n            made = Vdom(value, allow_children=value not in NO_CHILDREN_ALLOWED_SVG)\n            self.__cache__[value] = made\n            return made\n')]),
    ('fragment set', 'same', [('src/reactpy/_html.py', 'any(k != "key" for k in attributes)', 'set(attributes) - {"key"}')]),
    ('fragment build', 'same', [('src/reactpy/_html.py', '    model = VdomDict(tagName="")\n\n    if children:\n        model["children"] = children\n\n    if attributes:\n        model["attributes"] = attributes\n\n    return model\n', '    parts = {}\n    if children:\n        parts["children"] = children\n    if attributes:\n        parts["attributes"] = attributes\n    return VdomDict(tagName="", **parts)\n')]),
    ('script setdefault', 'same', [('src/reactpy/_html.py', '        if "attributes" not in model:\n            model["attributes"] = {}\n        model["attributes"]["key"] = key', '        model.setdefault("attributes", {})["key"] = key')]),
    ('script first', 'same', [('src/reactpy/_html.py', '        if len(children) > 1:', '        first, *more = children\n        if more:'), ('src/reactpy/_html.py', 'if not isinstance(children[0], str):', 'if not isinstance(first, str):'), ('src/reactpy/_html.py', 'key = children[0]', 'key = first')]),
    ('component helper', 'same', [('src/reactpy/core/component.py', '    if "key" in sig.parameters and sig.parameters["key"].kind in (\n        inspect.Parameter.KEYWORD_ONLY,\n        inspect.Parameter.POSITIONAL_OR_KEYWORD,\n    ):', '    reserved = sig.parameters.get("key")\n    if reserved is not None and reserved.kind in {\n        inspect.Parameter.KEYWORD_ONLY,\n        inspect.Parameter.POSITIONAL_OR_KEYWORD,\n    }:')]),
    ('component any', 'same', [('src/reactpy/core/component.py', '    if "key" in sig.parameters and sig.parameters["key"].kind in (\n        inspect.Parameter.KEYWORD_ONLY,\n        inspect.Parameter.POSITIONAL_OR_KEYWORD,\n    ):', '    if any(name == "key" and p.kind in (inspect.Parameter.KEYWORD_ONLY, inspect.Parameter.POSITIONAL_OR_KEYWORD) for name, p in sig.parameters.items()):')]),
    ('component kwargs', 'same', [('src/reactpy/core/component.py', 'Component(function, key, args, kwargs, sig)', 'Component(function=function, key=key, args=args, kwargs=kwargs, sig=sig)')]),
    ('component pop', 'same', [('src/reactpy/core/component.py', 'def constructor(*args: Any, key: Any | None = None, **kwargs: Any)', 'def constructor(*args: Any, **kwargs: Any)'), ('src/reactpy/core/component.py', '        return Component(function, key,', "        key = kwargs.pop('key', None)\n        return Component(function, key,")]),
    ('render locals', 'same', [('src/reactpy/types.py', '        return self.type(*self._args, **self._kwargs)', '        function, args, kwargs = self.type, self._args, self._kwargs\n        return function(*args, **kwargs)')]),
    ('li comp', 'same', [('src/reactpy/widgets.py', '    inputs: list[VdomDict] = []\n    for attrs in attributes:\n        inputs.append(html.input({**attrs, "onChange": sync_inputs, "value": value}))\n\n    return inputs\n', '    shared = {"onChange": sync_inputs, "value": value}\n    return [html.input({**attrs, **shared}) for attrs in attributes]\n')]),
    ('li or', 'same', [('src/reactpy/widgets.py', '        if not new_value and ignore_empty:\n            return None\n        on_change(cast(new_value))', '        if new_value or not ignore_empty:\n            on_change(cast(new_value))')]),
    ('li dict copy', 'same', [('src/reactpy/widgets.py', '        inputs.append(html.input({**attrs, "onChange": sync_inputs, "value": value}))', '        own = dict(attrs)\n        own["onChange"] = sync_inputs\n        own["value"] = value\n        inputs.append(html.input(own))')]),
    ('li or dict', 'same', [('src/reactpy/widgets.py', '{**attrs, "onChange": sync_inputs, "value": value}', 'attrs | {"onChange": sync_inputs, "value": value}')]),
    ('image if', 'same', [('src/reactpy/widgets.py', '    bytes_value = value.encode() if isinstance(value, str) else value', '    if isinstance(value, str):\n        bytes_value = value.encode("utf-8")\n    else:\n        bytes_value = value')]),
    ('image mimes', 'same', [('src/reactpy/widgets.py', '    if format == "svg":\n        format = "svg+xml"  # noqa: A001\n', '    format = {"svg": "svg+xml"}.get(format, format)\n')]),
    ('image merged', 'same', [('src/reactpy/widgets.py', '    return VdomDict(tagName="img", attributes={"src": src, **(attributes or {})})', '    merged = {"src": src}\n    if attributes:\n        merged.update(attributes)\n    return VdomDict(tagName="img", attributes=merged)')]),
]
