M = "src/reactpy/executors/asgi/middleware.py"
S = "src/reactpy/executors/asgi/standalone.py"
U = "src/reactpy/executors/utils.py"
CHECK = """                if dotted_path not in self.parent.root_components:
                    raise RuntimeError(
                        f"Attempting to use an unregistered root component {dotted_path}."
                    )
                component = self.parent.root_components[dotted_path]
"""
SELECT = """            if self.parent.multiple_root_components:
                url_match = re.match(self.parent.dispatcher_pattern, self.scope["path"])
                if not url_match:  # nocov
                    raise RuntimeError("Could not find component in URL path.")
                dotted_path = url_match["dotted_path"]
""" + CHECK + """            elif self.parent.root_component:
                component = self.parent.root_component
            else:  # nocov
                raise RuntimeError("No root component provided.")
"""
CONN = """            connection = Connection(
                scope=self.scope,  # type: ignore
                location=_location_from_websocket_query_string(
                    self.scope["query_string"].decode()
                ),
                carrier=self,
            )
"""
IMP = "from reactpy.executors.utils import check_path, import_components, process_settings\n"
LOCFN = "_location_from_websocket_query_string"
CASES = [
    ("import on demand", "bug", [(M, CHECK, """                if dotted_path not in self.parent.root_components:
                    self.parent.root_components |= import_components([dotted_path])
                component = self.parent.root_components[dotted_path]
""")]),
    ("import of unregistered", "bug", [(M, CHECK, """                from reactpy.utils import import_dotted_path
                component = self.parent.root_components.get(dotted_path) or import_dotted_path(dotted_path)
""")]),
    ("first component for unknown", "bug", [(M, CHECK, """                component = self.parent.root_components.get(
                    dotted_path, next(iter(self.parent.root_components.values()))
                )
""")]),
    ("prefix match of names", "bug", [(M, CHECK, """                component = next(
                    c for n, c in self.parent.root_components.items() if n.startswith(dotted_path)
                )
""")]),
    ("suffix match of names", "bug", [(M, CHECK, """                found = [c for n, c in self.parent.root_components.items() if dotted_path.startswith(n)]
                if not found:
                    raise RuntimeError("unregistered")
                component = found[0]
""")]),
    ("case insensitive", "bug", [(M, CHECK, """                known = {n.lower(): c for n, c in self.parent.root_components.items()}
                if dotted_path.lower() not in known:
                    raise RuntimeError("unregistered")
                component = known[dotted_path.lower()]
""")]),
    ("components made once", "bug", [(M, "        self.root_components = import_components(root_components)\n", "        self.root_components = {k: c() for k, c in import_components(root_components).items()}\n"), (M, "ConnectionContext(component(), value", "ConnectionContext(component, value")]),
    ("parent as carrier", "bug", [(M, "                carrier=self,\n", "                carrier=self.parent,\n")]),
    ("query string not decoded from url", "bug", [(M, "self.scope[\"query_string\"].decode()\n                ),", "self.scope[\"path\"]\n                ),")]),
    ("blank path", "bug", [(M, "self.scope[\"query_string\"].decode()\n                ),", "self.scope[\"query_string\"].decode()[5:]\n                ),")]),
    ("no value", "bug", [(M, "ConnectionContext(component(), value=connection)", "ConnectionContext(component(), value=None)")]),
    ("not in context", "bug", [(M, "ConnectionContext(component(), value=connection)", "component()")]),
    ("registered by last name", "bug", [(U, "        dotted_path: import_dotted_path(dotted_path) for", "        dotted_path.rsplit('.', 1)[-1]: import_dotted_path(dotted_path) for")]),
    ("same: get", "same", [(M, CHECK, """                component = self.parent.root_components.get(dotted_path)
                if component is None:
                    raise RuntimeError(
                        f"Attempting to use an unregistered root component {dotted_path}."
                    )
""")]),
    ("same: try", "same", [(M, CHECK, """                try:
                    component = self.parent.root_components[dotted_path]
                except KeyError as error:
                    raise RuntimeError(
                        f"Attempting to use an unregistered root component {dotted_path}."
                    ) from error
""")]),
    ("same: selection in a method", "same", [(M, SELECT, "            component = self._select_component()\n"), (M, "    async def send_json(", """    def _select_component(self):
        parent = self.parent
        if not parent.multiple_root_components:
            if parent.root_component:
                return parent.root_component
            raise RuntimeError("No root component provided.")
        match = re.match(parent.dispatcher_pattern, self.scope["path"])
        if match is None:
            raise RuntimeError("Could not find component in URL path.")
        name = match.group("dotted_path")
        if name in parent.root_components:
            return parent.root_components[name]
        raise RuntimeError(f"Attempting to use an unregistered root component {name}.")

    async def send_json(""")]),
    ("same: connection in a method", "same", [(M, CONN, "            connection = self._connection()\n"), (M, "    async def send_json(", """    def _connection(self):
        query = self.scope["query_string"].decode()
        return Connection(self.scope, _location_from_websocket_query_string(query), self)

    async def send_json(""")]),
    ("same: pattern.match", "same", [(M, 're.match(self.parent.dispatcher_pattern, self.scope["path"])', 'self.parent.dispatcher_pattern.match(self.scope["path"])')]),
    ("same: layout variable", "same", [(M, """            await serve_layout(
                Layout(ConnectionContext(component(), value=connection)),
                self.send_json,
                self.rendering_queue.get,
            )
""", """            root = ConnectionContext(component(), value=connection)
            layout = Layout(root)
            await serve_layout(layout, self.send_json, self.rendering_queue.get)
""")]),
    ("same: import_components loop", "same", [(U, """    return {
        dotted_path: import_dotted_path(dotted_path) for dotted_path in dotted_paths
    }
""", """    components = {}
    for dotted_path in dotted_paths:
        components[dotted_path] = import_dotted_path(dotted_path)
    return components
""")]),
    ('fallback to first', 'bug', [('src/reactpy/executors/asgi/middleware.py', '                component = self.parent.root_components[dotted_path]', '                component = self.parent.root_components.get(dotted_path) or next(iter(self.parent.root_components.values()))'), ('src/reactpy/executors/asgi/middleware.py', '                if dotted_path not in self.parent.root_components:', '                if dotted_path.split(".")[-1] not in {p.split(".")[-1] for p in self.parent.root_components}:')]),
    ('component cached', 'bug', [('src/reactpy/executors/asgi/middleware.py', 'Layout(ConnectionContext(component(), value=connection)),', 'Layout(ConnectionContext(self.parent.__dict__.setdefault("_made", component()), value=connection)),')]),
    ('scope copy parent', 'bug', [('src/reactpy/executors/asgi/middleware.py', '                scope=self.scope,  # type: ignore', '                scope=self.parent.__dict__.setdefault("scope", self.scope),  # type: ignore')]),
    ('registered under tail', 'bug', [('src/reactpy/executors/asgi/middleware.py', '        self.root_components = import_components(root_components)', '        self.root_components = import_components(root_components)\n        self.root_components.update({k.rsplit(".", 1)[-1]: v for k, v in self.root_components.items()})')]),
]
