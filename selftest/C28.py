U = "src/reactpy/utils.py"
T = "src/reactpy/transforms.py"
KIDS = """    return (  # Get the inner text of the current node
        [node.text] if node.text else []
    ) + list(
        chain(
            *(
                # Recursively convert each child node to VDOM
                [_etree_to_vdom(child, transforms, intercept_links)]
                # Insert the tail text between each child node
                + ([child.tail] if child.tail else [])
                for child in node.iterchildren(None)
            )
        )
    )
"""
TAIL = """        elif len(element):
            last_child = element[-1]
            last_child.tail = f"{last_child.tail or ''}{c}"
        else:
            element.text = f"{element.text or ''}{c}"
"""
LOOP = """    for c in vdom.get("children", []):
        if c is None:
            continue
        if hasattr(c, "render"):
            c = component_to_vdom(cast(Component, c))
        if isinstance(c, dict):
            _add_vdom_to_etree(element, c)
"""
ATTR = """        element = etree.SubElement(parent, tag)
        element.attrib.update(
            _react_attribute_to_html(k, v)
            for k, v in vdom.get("attributes", {}).items()
            if not _is_absent_attribute(k, v)
        )
"""
COMP = """    if result is None:
        return h.fragment()
    if isinstance(result, dict):
        return result
    if hasattr(result, "render"):
        return component_to_vdom(cast(Component, result))
"""
REQ = """        for name in dir(self):
            # Any method that doesn't start with an underscore is assumed to be a transform.
            if not name.startswith("_"):
                getattr(self, name)(vdom)
"""
OPT = """        if vdom["tagName"] == "option" and "attributes" in vdom:
            text = [c for c in vdom.get("children", []) if isinstance(c, str)]
            value = vdom["attributes"].setdefault("value", "".join(text))

            if "selected" in vdom["attributes"]:
                vdom["attributes"].pop("selected")
                selected_options.append(value)
"""
TEXTAREA = """            text_content = vdom.pop("children")
            text_content = "".join(
                [child for child in text_content if isinstance(child, str)]
            )

            vdom.setdefault("attributes", {})
            if "attributes" in vdom:
                default_value = vdom["attributes"].pop("defaultValue", "")
                vdom["attributes"]["defaultValue"] = text_content or default_value
"""
CASES = [
    # --- models to HTML
    ("tail overwritten", "bug", [(U, """            last_child.tail = f"{last_child.tail or ''}{c}\"""", "            last_child.tail = str(c)")]),
    ("text overwritten", "bug", [(U, """            element.text = f"{element.text or ''}{c}\"""", "            element.text = str(c)")]),
    ("tail of the first child", "bug", [(U, "last_child = element[-1]", "last_child = element[0]")]),
    ("text before all", "bug", [(U, "        elif len(element):\n", "        elif len(element) > 1:\n")]),
    ("falsy children dropped", "bug", [(U, "        if c is None:\n            continue", "        if not c:\n            continue")]),
    ("None written", "bug", [(U, "        if c is None:\n            continue\n", "")]),
    ("fragment becomes an element", "bug", [(U, "    else:\n        element = parent\n", "    else:\n        element = etree.SubElement(parent, 'div')\n")]),
    ("fragment of a fragment lost", "bug", [(U, "        if isinstance(c, dict):\n            _add", "        if isinstance(c, dict) and not (c['tagName'] or tag):\n            pass\n        elif isinstance(c, dict):\n            _add")]),
    ("children of void", "bug", [(U, '    for c in vdom.get("children", []):\n        if c is None', '    for c in vdom.get("children", [])[:8] if tag else ():\n        if c is None')]),
    ("component rendered twice", "bug", [(U, "            c = component_to_vdom(cast(Component, c))\n        if", "            c = component_to_vdom(cast(Component, c))\n            if c['tagName'] == '':\n                _add_vdom_to_etree(element, c)\n        if")]),
    ("only one level of components", "bug", [(U, "        return component_to_vdom(cast(Component, result))", "        return h.div()")]),
    ("component without result", "bug", [(U, "    if result is None:\n        return h.fragment()", "    if result is None:\n        return h.div()")]),
    ("text not escaped twice", "bug", [(U, """            element.text = f"{element.text or ''}{c}\"""", """            element.text = f"{element.text or ''}{c}".replace("<", "&lt;")""")]),
    ("temp element stripped wrongly", "bug", [(U, "    return html[10:-11]", "    return html.strip()[10:-11].strip()[:-1] if html.endswith(' </__temp__>') else html[10:-12]")]),
    ("xml serialisation", "bug", [(U, 'etree.tostring(temp_container, method="html")', 'etree.tostring(temp_container)')]),
    ("attributes of the parent", "bug", [(U, "        element.attrib.update(", "        parent.attrib.update(")]),
    ("empty attributes dropped", "bug", [(U, "    return value is None or (\n        value is False and", "    return not value or (\n        value is False and")]),
    ("data-x false dropped", "bug", [(U, 'value is False and not key.startswith(("data-", "aria-"))', "value is False")]),
    ("class", "bug", [(U, '    "className": "class",\n', "")]),
    ("for", "bug", [(U, '    "htmlFor": "for",\n', "")]),
    ("http-equiv", "bug", [(U, 'DASHED_HTML_ATTRS = {"acceptCharset", "httpEquiv"}', 'DASHED_HTML_ATTRS = {"acceptCharset"}')]),
    ("data attributes lowered", "bug", [(U, '    elif key.startswith("data-") or key.startswith("aria-"):\n        return key, str(value)\n', "")]),
    ("every data attribute", "bug", [(U, 'elif key.startswith("data-") or', 'elif key.startswith("data") or')]),
    ("values not text", "bug", [(U, "    return key.lower(), str(value)", "    return key.lower(), value")]),
    ("style separator", "bug", [(U, 'value = ";".join(', 'value = "; ".join(')]),
    ("style names", "bug", [(U, '    name = CAMEL_CASE_PATTERN.sub("-", key).lower()', '    name = CAMEL_CASE_PATTERN.sub("-", key, 1).lower()')]),
    ("custom property lowered", "bug", [(U, '    if key.startswith("--"):  # custom properties (ex. `--my-var`) are case sensitive\n        return key\n', "")]),
    ("no model accepted", "bug", [(U, '        tag = vdom["tagName"]\n', '        tag = vdom.get("tagName", "")\n')]),
    # --- HTML to models
    ("tail before child", "bug", [(U, KIDS, """    out = [node.text] if node.text else []
    for child in node.iterchildren(None):
        if child.tail:
            out.append(child.tail)
        out.append(_etree_to_vdom(child, transforms, intercept_links))
    return out
""")]),
    ("no tail", "bug", [(U, "                + ([child.tail] if child.tail else [])\n", "")]),
    ("tail only without text", "bug", [(U, "[child.tail] if child.tail else []", "[child.tail] if child.tail and not child.text else []")]),
    ("no text with children", "bug", [(U, "        [node.text] if node.text else []", "        [node.text] if node.text and not len(node) else []")]),
    ("transforms only at the root", "bug", [(U, "                [_etree_to_vdom(child, transforms, intercept_links)]", "                [_etree_to_vdom(child, (), intercept_links)]")]),
    ("result of transform ignored", "bug", [(U, "        el = transform(el)", "        transform(el)")]),
    ("only the last transform", "bug", [(U, "    for transform in transforms:\n        el = transform(el)\n\n    return el", "    result = el\n    for transform in transforms:\n        result = transform(el)\n\n    return result")]),
    ("transforms reversed", "bug", [(U, "    for transform in transforms:\n", "    for transform in reversed(tuple(transforms)):\n")]),
    ("transforms exhausted", "bug", [(U, "    return _etree_to_vdom(root_node, transforms, intercept_links)", "    return _etree_to_vdom(root_node, transforms[:1], intercept_links)")]),
    ("links of children", "bug", [(U, "[_etree_to_vdom(child, transforms, intercept_links)]", "[_etree_to_vdom(child, transforms, True)]")]),
    ("attributes lost without children", "bug", [(U, "    el = constructor(attributes, children)", "    el = constructor(attributes, children) if children or node.tail else constructor()")]),
    ("names of root only", "bug", [(U, "    attributes = attributes_to_reactjs(dict(node.items()))", "    attributes = dict(node.items())\n    if transforms or len(node):\n        attributes = attributes_to_reactjs(attributes)")]),
    ("strict", "bug", [(U, "recover=not strict", "recover=True")]),
    ("strict inverted", "bug", [(U, "recover=not strict", "recover=strict")]),
    ("other error", "bug", [(U, "        raise HTMLParseError(msg) from e", "        raise ValueError(msg) from e")]),
    ("stripped source", "bug", [(U, "    if not html.strip():\n", "    if not html:\n")]),
    ("no tags accepted", "bug", [(U, 'if "<" not in html or ">" not in html:', 'if "<" not in html and ">" not in html:')]),
    ("bytes accepted", "bug", [(U, "    if not isinstance(html, str):", "    if not isinstance(html, (str, bytes)):")]),
    # --- transforms
    ("style keeps one", "bug", [(T, 'part.split(":", 1)', 'part.split(":")')]),
    ("style values not stripped", "bug", [(T, "self._kebab_to_camel_case(key.strip()): value.strip()", "self._kebab_to_camel_case(key): value.strip()")]),
    ("style split at every semicolon", "bug", [(T, """STYLE_DECLARATION_PATTERN.findall(
                        vdom["attributes"]["style"]
                    )""", """vdom["attributes"]["style"].split(";")""")]),
    ("custom property camelized", "bug", [(T, '        if kebab_case.startswith("--"):  # custom properties keep their name\n            return kebab_case\n', "")]),
    ("camel case", "bug", [(T, "            part.capitalize() if i else part\n", "            part.capitalize()\n")]),
    ("textarea loses its text", "bug", [(T, "= text_content or default_value", "= default_value or text_content if default_value else ''")]),
    ("textarea keeps its text", "bug", [(T, 'text_content = vdom.pop("children")', 'text_content = vdom["children"]')]),
    ("textarea attributes", "bug", [(T, '            vdom.setdefault("attributes", {})\n            if "attributes" in vdom:\n                default_value', '            vdom["attributes"] = {}\n            if "attributes" in vdom:\n                default_value')]),
    ("empty input value dropped", "bug", [(T, "            if value is not None:\n                vdom", "            if value:\n                vdom")]),
    ("input value kept", "bug", [(T, 'value = vdom["attributes"].pop("value", None)', 'value = vdom["attributes"].get("value", None)')]),
    ("value of buttons", "bug", [(T, 'if vdom["tagName"] != "input":', 'if vdom["tagName"] not in ("input", "button"):')]),
    ("last selected", "bug", [(T, '= selected_options[0]', '= selected_options[-1] if len(selected_options) > 2 else selected_options')]),
    ("multiple without selection", "bug", [(T, 'multiple_choice = vdom["attributes"].get("multiple") is not None', 'multiple_choice = bool(vdom["attributes"].get("multiple"))')]),
    ("selected kept", "bug", [(T, '                vdom["attributes"].pop("selected")\n', "")]),
    ("groups not searched", "bug", [(T, '        for child in vdom.get("children", []):\n            selected', '        for child in vdom.get("children", []) if vdom["tagName"] == "select" else ():\n            selected')]),
    ("option value replaced", "bug", [(T, 'value = vdom["attributes"].setdefault("value", "".join(text))', 'value = vdom["attributes"]["value"] = "".join(text)')]),
    ("option needs text", "bug", [(T, '"".join(text))', 'text[0])')]),
    ("id wins over key", "bug", [(T, '        if key is None:\n            key = attributes.get("id")', '        key = attributes.get("id", key)'), (T, '        if key and "key" not in attributes:', "        if key:")]),
    ("name of anything", "bug", [(T, 'if key is None and vdom["tagName"] in {"input", "select", "textarea"}:', "if key is None:")]),
    ("name wins over id", "bug", [(T, 'if key is None and vdom["tagName"] in', 'if vdom["tagName"] in')]),
    ("repeated keys kept", "bug", [(T, '            if count[attributes["key"]] > 1:', '            if count[attributes["key"]] > 2:')]),
    ("all keys removed", "bug", [(T, '            if count[attributes["key"]] > 1:', '            if len(children) > 1:')]),
    ("links always", "bug", [(T, ' or not self._intercept_links:', ":")]),
    ("link default not prevented", "bug", [(T, "prevent_default=True,", "prevent_default=self._intercept_links and bool(vdom.get('children', None) is None),")]),
    ("table", "bug", [(T, '    "readOnly",\n', '    "readonly",\n')]),
    ("class in table", "bug", [(T, '    "class": "className",\n', "")]),
    ("checked", "bug", [(T, '    "checked": "defaultChecked",\n', "")]),
    ("for in table", "bug", [(T, '    "for": "htmlFor",', '    "for": "form",')]),
    ("one transform skipped", "bug", [(T, '            if not name.startswith("_"):', '            if not name.startswith(("_", "normalize")):')]),
    # --- the same
    ("loop", "same", [(U, KIDS, """    out = []
    if node.text:
        out.append(node.text)
    for child in node:
        out.append(_etree_to_vdom(child, transforms, intercept_links))
        tail = child.tail
        if tail:
            out += [tail]
    return out
""")]),
    ("generator", "same", [(U, KIDS, """    return list(_pieces(node, transforms, intercept_links))


def _pieces(node, transforms, intercept_links):
    if node.text:
        yield node.text
    for child in node.iterchildren():
        yield _etree_to_vdom(child, transforms, intercept_links)
        if child.tail:
            yield child.tail
""")]),
    ("helper for text", "same", [(U, TAIL, """        else:
            _append_text(element, str(c))
"""), (U, "def _generate_vdom_children(", """def _append_text(element, text):
    if len(element) == 0:
        element.text = (element.text or "") + text
        return
    last = list(element)[-1]
    last.tail = (last.tail or "") + text


def _generate_vdom_children(""")]),
    ("attributes one by one", "same", [(U, ATTR, """        attrs = {}
        for k, v in vdom.get("attributes", {}).items():
            if _is_absent_attribute(k, v):
                continue
            name, text = _react_attribute_to_html(k, v)
            attrs[name] = text
        element = etree.SubElement(parent, tag, attrs)
""")]),
    ("set", "same", [(U, ATTR, """        element = etree.SubElement(parent, tag)
        for k, v in (vdom.get("attributes") or {}).items():
            if not _is_absent_attribute(k, v):
                element.set(*_react_attribute_to_html(k, v))
""")]),
    ("unicode", "same", [(U, 'etree.tostring(temp_container, method="html").decode()', 'etree.tostring(temp_container, method="html", encoding="unicode")')]),
    ("strip the temporary element", "same", [(U, "    return html[10:-11]", '    return html.removeprefix("<__temp__>").removesuffix("</__temp__>")')]),
    ("component order", "same", [(U, COMP, """    if hasattr(result, "render"):
        return component_to_vdom(cast(Component, result))
    if isinstance(result, dict):
        return result
    if result is None:
        return h.fragment()
""")]),
    ("explicit transforms", "same", [(T, REQ, """        self.infer_key_from_attributes(vdom)
        self.input_element_value_prop_to_defaultValue(vdom)
        self.intercept_link_clicks(vdom)
        self.normalize_style_attributes(vdom)
        self.remove_repeated_keys(vdom)
        self.select_element_to_reactjs(vdom)
        self.textarea_children_to_prop(vdom)
""")]),
    ("attributes local", "same", [(T, OPT, """        attributes = vdom.get("attributes")
        if vdom["tagName"] == "option" and attributes is not None:
            if "value" not in attributes:
                attributes["value"] = "".join(
                    c for c in vdom.get("children", []) if isinstance(c, str)
                )
            if "selected" in attributes:
                del attributes["selected"]
                selected_options.append(attributes["value"])
""")]),
    ("textarea", "same", [(T, TEXTAREA, """            text = "".join(c for c in vdom["children"] if isinstance(c, str))
            del vdom["children"]
            attributes = vdom.setdefault("attributes", {})
            attributes["defaultValue"] = text or attributes.get("defaultValue", "")
""")]),
    ("camel case", "same", [(T, """        return "".join(
            part.capitalize() if i else part
            for i, part in enumerate(kebab_case.split("-"))
        )""", """        first, *rest = kebab_case.split("-")
        return first + "".join(part.capitalize() for part in rest)""")]),
    ("table written once", "same", [(T, "REACT_PROP_SUBSTITUTIONS = {prop.lower(): prop for prop in KNOWN_REACT_PROPS} | {", "REACT_PROP_SUBSTITUTIONS = {\n    **{prop.lower(): prop for prop in KNOWN_REACT_PROPS},")]),
    ("names", "same", [(T, """    attrs = cast(VdomAttributes, attributes.items())
    attrs = cast(
        VdomAttributes,
        {REACT_PROP_SUBSTITUTIONS.get(k, k): v for k, v in attrs},
    )
    return attrs""", """    renamed = {}
    for name, value in attributes.items():
        if name in REACT_PROP_SUBSTITUTIONS:
            name = REACT_PROP_SUBSTITUTIONS[name]
        renamed[name] = value
    return renamed""")]),
    ("early return", "same", [(U, """    if tag:
        element""", """    if not tag:
        element = parent
    else:
        element"""), (U, "    else:\n        element = parent\n\n    for", "\n    for")]),
    ("key", "same", [(T, """        key = attributes.get("key", None)

        # Infer 'key' from 'attributes.id'
        if key is None:
            key = attributes.get("id")
""", """        if "key" in attributes:
            return
        key = attributes.get("id")
""")]),
    ('tail lost', 'bug', [('src/reactpy/utils.py', '                + ([child.tail] if child.tail else [])', '                + ([child.tail] if child.tail and child.tail.strip() else [])')]),
    ('zero lost', 'bug', [('src/reactpy/utils.py', '        if c is None:\n            continue', '        if not c:\n            continue')]),
    ('transform reversed', 'bug', [('src/reactpy/utils.py', '    for transform in transforms:\n        el = transform(el)', '    for transform in reversed(tuple(transforms)):\n        el = transform(el)')]),
    ('style split', 'bug', [('src/reactpy/utils.py', 'value = ";".join(', 'value = ",".join(')]),
    ('counter ge', 'bug', [('src/reactpy/transforms.py', '            if count[attributes["key"]] > 1:', '            if count[attributes["key"]] > 2:')]),
    ('options nested', 'bug', [('src/reactpy/transforms.py', '        for child in vdom.get("children", []):\n            selected_options.extend(self._parse_options(child))', '        if vdom["tagName"] == "select":\n            for child in vdom.get("children", []):\n                selected_options.extend(self._parse_options(child))')]),
    ('textarea truthy', 'bug', [('src/reactpy/transforms.py', 'text_content or default_value', 'default_value or text_content')]),
    ('input checkbox', 'bug', [('src/reactpy/transforms.py', '            if value is not None:\n                vdom["attributes"]["defaultValue"]', '            if value:\n                vdom["attributes"]["defaultValue"]')]),
    ('key by name', 'bug', [('src/reactpy/transforms.py', 'vdom["tagName"] in {"input", "select", "textarea"}', 'vdom["tagName"] in {"input", "select"}')]),
    ('aria', 'bug', [('src/reactpy/utils.py', 'value is False and not key.startswith(("data-", "aria-"))', 'value is False and not key.startswith("data-")')]),
    ('nested component', 'bug', [('src/reactpy/utils.py', '    if hasattr(result, "render"):\n        return component_to_vdom(cast(Component, result))', '    if hasattr(result, "render"):\n        return h.div(component_to_vdom(cast(Component, result)))')]),
    ('capital vendor', 'bug', [('src/reactpy/utils.py', 'return f"-{name}" if key[:1].isupper() else name', 'return name')]),
    ('intercept nested off', 'bug', [('src/reactpy/utils.py', '                [_etree_to_vdom(child, transforms, intercept_links)]', '                [_etree_to_vdom(child, transforms, True)]')]),
    ('selected value', 'bug', [('src/reactpy/transforms.py', '                vdom["attributes"].pop("selected")\n                selected_options.append(value)', '                vdom["attributes"].pop("selected")\n                selected_options.append("".join(text))')]),
    ('multiple single', 'bug', [('src/reactpy/transforms.py', '            if selected_options and multiple_choice:\n', '            if len(selected_options) > 1 and multiple_choice:\n')]),
]
