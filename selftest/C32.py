CASES = [
    ('byte offsets start', 'bug', [('src/reactpy/_console/ast_utils.py', 'start = _column(first_line, node.col_offset)', 'start = node.col_offset')]),
    ('byte offsets end', 'bug', [('src/reactpy/_console/ast_utils.py', 'end = _column(last_line, node.end_col_offset)', 'end = node.end_col_offset')]),
    ('second on line dropped', 'bug', [('src/reactpy/_console/ast_utils.py', 'if (node.lineno, node.col_offset) >= current_end:', 'if node.lineno > current_end[0]:')]),
    ('forward order', 'bug', [('src/reactpy/_console/ast_utils.py', 'for node in reversed(outermost_nodes_to_unparse):', 'for node in outermost_nodes_to_unparse:')]),
    ('inner first', 'bug', [('src/reactpy/_console/ast_utils.py', 'key=lambda n: (n.lineno, n.col_offset, -n.end_lineno, -n.end_col_offset)', 'key=lambda n: (n.end_lineno, n.end_col_offset)')]),
    ('async as expression', 'bug', [('src/reactpy/_console/ast_utils.py', 'isinstance(node, (ast.stmt, ast.excepthandler)) and', 'isinstance(node, (ast.FunctionDef, ast.ClassDef)) and')]),
    ('comments dropped', 'bug', [('src/reactpy/_console/ast_utils.py', '*(indentation + comment for comment in comments),', '')]),
    ('comment after duplicated', 'bug', [('src/reactpy/_console/ast_utils.py', 'if (node.lineno, start) <= position < (node.end_lineno, end)', 'if node.lineno <= position[0] <= node.end_lineno')]),
    ('all names', 'bug', [('src/reactpy/_console/ast_utils.py', 'elif isinstance(func, ast.Name) and _is_element_name(func.id):', 'elif isinstance(func, ast.Name):')]),
    ('builtins too', 'bug', [('src/reactpy/_console/ast_utils.py', 'name in type(html).__annotations__ and not hasattr(builtins, name)', 'name in type(html).__annotations__ or hasattr(builtins, name)')]),
    ('any object', 'bug', [('src/reactpy/_console/ast_utils.py', 'if isinstance(func, ast.Attribute) and (\n            (isinstance(func.value, ast.Name) and func.value.id == "html")\n            or (isinstance(func.value, ast.Attribute) and func.value.attr == "html")\n        ):', 'if isinstance(func, ast.Attribute):')]),
    ('props appended after text', 'bug', [('src/reactpy/_console/ast_utils.py', 'node.args.insert(0, maybe_attr_dict_node)', 'node.args.append(maybe_attr_dict_node)')]),
    ('vdom index', 'bug', [('src/reactpy/_console/ast_utils.py', 'node.args.insert(1, maybe_attr_dict_node)', 'node.args.insert(0, maybe_attr_dict_node)')]),
    ('joinedstr forgotten', 'bug', [('src/reactpy/_console/ast_utils.py', 'elif isinstance(node.args[0], (ast.Constant, ast.JoinedStr)):', 'elif isinstance(node.args[0], ast.Constant):')]),
    ('no has_key', 'bug', [('src/reactpy/_console/ast_utils.py', 'maybe_attr_dict_node)\n                else:\n                    continue\n            elif isinstance(node.args[0]', 'maybe_attr_dict_node)\n                else:\n                    continue\n            elif isinstance(node.args[0]'), ('src/reactpy/_console/ast_utils.py', 'has_key = any(kw.arg == "key" for kw in node.keywords)', 'has_key = True')]),
    ('keyword removed by name', 'bug', [('src/reactpy/_console/rewrite_keys.py', 'el_info.call.keywords.remove(kw)', 'el_info.call.keywords.clear()')]),
    ('key kept', 'bug', [('src/reactpy/_console/rewrite_keys.py', '        el_info.call.keywords.remove(kw)\n', '')]),
    ('key first', 'bug', [('src/reactpy/_console/rewrite_keys.py', 'el_info.props.keys.append(ast.Constant("key"))\n            el_info.props.values.append(kw.value)', 'el_info.props.keys.insert(0, ast.Constant("key"))\n            el_info.props.values.append(kw.value)')]),
    ('key of dict call', 'bug', [('src/reactpy/_console/rewrite_keys.py', '        if isinstance(el_info.props, ast.Dict):\n', '        if isinstance(el_info.props, ast.Call):\n            continue\n        elif isinstance(el_info.props, ast.Dict):\n')]),
    ('first key only', 'bug', [('src/reactpy/_console/rewrite_keys.py', '        changed.append(ChangedNode(el_info.call, el_info.parents))\n', '        changed.append(ChangedNode(el_info.call, el_info.parents))\n        break\n')]),
    ('keyword arg', 'bug', [('src/reactpy/_console/rewrite_props.py', '                if iskeyword(kw_arg) or not kw_arg.isidentifier():', '                if not kw_arg.isidentifier():')]),
    ('style any call', 'bug', [('src/reactpy/_console/rewrite_props.py', 'key == "style" and is_dict(value)', 'key == "style" and isinstance(value, (ast.Dict, ast.Call))')]),
    ('style lost change', 'bug', [('src/reactpy/_console/rewrite_props.py', '            value = new_value\n', '            pass\n')]),
    ('spread dropped', 'bug', [('src/reactpy/_console/rewrite_props.py', '            keys.append(k)\n            values.append(v)\n        if', '            if k is not None:\n                keys.append(k)\n                values.append(v)\n        if')]),
    ('kwargs dropped', 'bug', [('src/reactpy/_console/rewrite_props.py', '                kw = ast.keyword(arg=kw_arg, value=kw_value)\n            keywords.append(kw)', '                kw = ast.keyword(arg=kw_arg, value=kw_value)\n                keywords.append(kw)')]),
    ('last decides', 'bug', [('src/reactpy/_console/rewrite_props.py', '                if k_value != k.value or new_v is not v:\n                    did_change = True', '                did_change = k_value != k.value or new_v is not v')]),
    ('first component title', 'bug', [('src/reactpy/_console/rewrite_props.py', 'components[0] + "".join(x.title() for x in components[1:])', 'components[0] + "".join(x.capitalize() for x in components[1:2])')]),
    ('values rewritten', 'bug', [('src/reactpy/_console/rewrite_props.py', '        key = conv_attr_name(key)\n', '        key = conv_attr_name(key)\n        if isinstance(value, ast.Dict):\n            _rewrite_props(value, _construct_prop_item)\n')]),
    ('name key rewritten', 'bug', [('src/reactpy/_console/rewrite_props.py', 'if isinstance(k, ast.Constant) and isinstance(k.value, str):\n                # Construct the new key and value\n                k_value, new_v = constructor(k.value, v)\n                if k_value != k.value or new_v is not v:', "if isinstance(k, (ast.Constant, ast.Name)):\n                k = ast.Constant(value=str(getattr(k, 'value', None) or k.id))\n                k_value, new_v = constructor(k.value, v)\n                if k_value != k.value or new_v is not v:")]),
    ('encoding of writing', 'bug', [('src/reactpy/_console/rewrite_keys.py', 'f.write_text(result, encoding="utf-8")', 'f.write_text(result)')]),
    ('encoding of reading', 'bug', [('src/reactpy/_console/rewrite_props.py', 'f.read_text(encoding="utf-8")', 'f.read_text()')]),
    ('glob', 'bug', [('src/reactpy/_console/rewrite_keys.py', 'p.rglob("*.py")', 'p.glob("*.py")')]),
    ('first path only', 'bug', [('src/reactpy/_console/rewrite_props.py', '                f.write_text(result, encoding="utf-8")\n', '                f.write_text(result, encoding="utf-8")\n        break\n')]),
    ('stop when unchanged', 'bug', [('src/reactpy/_console/rewrite_props.py', '            if result is not None:\n', '            if result is None:\n                return\n            else:\n')]),
    ('wrong file', 'bug', [('src/reactpy/_console/rewrite_keys.py', 'f.write_text(result', 'p.write_text(result')]),
    ('lines by splitlines', 'bug', [('src/reactpy/_console/ast_utils.py', 'lines = source.split("\\n")', 'lines = source.splitlines()')]),
    ('before stripped', 'bug', [('src/reactpy/_console/ast_utils.py', 'before_replacement = first_line[:start]', 'before_replacement = first_line[:start].lstrip()')]),
    ('files helper', 'same', [('src/reactpy/_console/rewrite_keys.py', '    for p in map(Path, paths):\n        for f in [p] if p.is_file() else p.rglob("*.py"):\n            result', '    for f in _files(paths):\n            result'), ('src/reactpy/_console/rewrite_keys.py', 'def generate_rewrite(', "def _files(paths):\n    for name in paths:\n        p = Path(name)\n        if p.is_file():\n            yield p\n        else:\n            yield from sorted(p.rglob('*.py'))\n\n\ndef generate_rewrite(")]),
    ('columns by helper', 'same', [('src/reactpy/_console/ast_utils.py', '        start = _column(first_line, node.col_offset)\n        end = _column(last_line, node.end_col_offset)\n', '        (start, end) = _columns(lines, node)\n'), ('src/reactpy/_console/ast_utils.py', 'def _is_block(', "def _columns(lines, node):\n    def upto(line, n):\n        return len(bytes(lines[line - 1], 'utf-8')[:n].decode())\n    return upto(node.lineno, node.col_offset), upto(node.end_lineno, node.end_col_offset)\n\n\ndef _is_block(")]),
    ('pop reversed', 'same', [('src/reactpy/_console/ast_utils.py', '    for node in reversed(outermost_nodes_to_unparse):\n', '    while outermost_nodes_to_unparse:\n        node = outermost_nodes_to_unparse.pop()\n')]),
    ('sort in place', 'same', [('src/reactpy/_console/ast_utils.py', '    for node in sorted(\n        nodes_to_unparse,\n        key=lambda n: (n.lineno, n.col_offset, -n.end_lineno, -n.end_col_offset),\n    ):', '    nodes_to_unparse.sort(key=lambda n: (n.lineno, n.col_offset, -n.end_lineno, -n.end_col_offset))\n    for node in nodes_to_unparse:')]),
    ('walk loop', 'same', [('src/reactpy/_console/ast_utils.py', '    parents = (node, *parents)\n    for child in ast.iter_child_nodes(node):\n        yield parents, child\n        yield from _walk_with_parent(child, parents)', '    stack = [(parents, node)]\n    while stack:\n        ps, n = stack.pop()\n        if n is not node:\n            yield ps, n\n        below = (n, *ps)\n        stack.extend((below, c) for c in reversed(list(ast.iter_child_nodes(n))))')]),
    ('key by next', 'same', [('src/reactpy/_console/rewrite_keys.py', '        for kw in list(el_info.call.keywords):\n            if kw.arg == "key":\n                break\n        else:\n            continue\n', '        kw = next((k for k in el_info.call.keywords if k.arg == "key"), None)\n        if kw is None:\n            continue\n')]),
    ('join parts', 'same', [('src/reactpy/_console/ast_utils.py', '        replacement = "\\n".join(\n            [\n                *(indentation + comment for comment in comments),\n                before_replacement\n                + ast.unparse(node).replace("\\n", "\\n" + indentation)\n                + after_replacement,\n            ]\n        )\n\n        lines[node.lineno - 1 : node.end_lineno] = [replacement]', '        code = ast.unparse(node).replace("\\n", f"\\n{indentation}")\n        new_lines = [f"{indentation}{comment}" for comment in comments]\n        new_lines.append(f"{before_replacement}{code}{after_replacement}")\n        lines = lines[: node.lineno - 1] + ["\\n".join(new_lines)] + lines[node.end_lineno :]')]),
    ('conv helper', 'same', [('src/reactpy/_console/rewrite_props.py', '    components = name.split("_")\n\n    # Capitalize the first letter of each component except the first one\n    # and join them together\n    return components[0] + "".join(x.title() for x in components[1:])', '    first, *rest = name.split("_")\n    return first + "".join(map(str.title, rest))')]),
    ('match kinds', 'same', [('src/reactpy/_console/ast_utils.py', '        if isinstance(func, ast.Attribute) and (\n            (isinstance(func.value, ast.Name) and func.value.id == "html")\n            or (isinstance(func.value, ast.Attribute) and func.value.attr == "html")\n        ):\n            name = func.attr\n        elif isinstance(func, ast.Name) and _is_element_name(func.id):\n            name = func.id\n        else:\n            continue\n', '        name = _constructor_name(func)\n        if name is None:\n            continue\n'), ('src/reactpy/_console/ast_utils.py', 'def _is_block(', 'def _constructor_name(func: ast.expr) -> str | None:\n    match func:\n        case ast.Attribute(value=ast.Name(id="html"), attr=name):\n            return name\n        case ast.Attribute(value=ast.Attribute(attr="html"), attr=name):\n            return name\n        case ast.Name(id=name) if _is_element_name(name):\n            return name\n    return None\n\n\ndef _is_block(')]),
]
