M = "src/reactpy/executors/asgi/middleware.py"
S = "src/reactpy/executors/asgi/standalone.py"
Y = "src/reactpy/executors/asgi/pyscript.py"
EXTRA = """        # URL routing for user-defined routes
        matched_app = self.match_extra_paths(scope)
        if matched_app:
            return await matched_app(scope, receive, send)  # type: ignore

"""
STATIC = """        # URL routing for ReactPy static files
        if scope["type"] == "http" and self.match_static_path(scope):
            return await self.static_file_app(scope, receive, send)

"""
MODS = """        # URL routing for ReactPy web modules
        if scope["type"] == "http" and self.match_web_modules_path(scope):
            return await self.web_modules_app(scope, receive, send)

"""
WS = """        # URL routing for the ReactPy renderer
        if scope["type"] == "websocket" and self.match_dispatch_path(scope):
            return await self.component_dispatch_app(scope, receive, send)

"""
MATCH = """        return next(
            (
                app
                for route, app in routing_dictionary
                if re.match(route, scope["path"])
            ),
            None,
        )
"""
CASES = [
    ("extra routes first", "bug", [(M, EXTRA, ""), (M, STATIC, EXTRA + STATIC)]),
    ("prefix anywhere", "bug", [(M, 'return scope["path"].startswith(self.static_path)', 'return self.static_path in scope["path"]')]),
    ("modules without slash", "bug", [(M, 'f"{self.path_prefix}modules/"', 'f"{self.path_prefix}modules"')]),
    ("pattern not anchored", "bug", [(M, '[a-zA-Z0-9_.]+)/$"', '[a-zA-Z0-9_.]+)/"')]),
    ("pattern searched", "bug", [(M, 'f"^{re.escape(self.dispatcher_path)}(?P', 'f"{re.escape(self.dispatcher_path)}(?P'), (M, 'bool(re.match(self.dispatcher_pattern, scope["path"]))', 'bool(re.search(self.dispatcher_pattern, scope["path"]))')]),
    ("digits not in names", "bug", [(M, "[a-zA-Z0-9_.]+", "[a-zA-Z_.]+")]),
    ("prefix not escaped", "bug", [(M, "re.escape(self.dispatcher_path)", "self.dispatcher_path")]),
    ("http to dispatcher", "bug", [(M, 'scope["type"] == "websocket" and self.match_dispatch_path(scope)', 'self.match_dispatch_path(scope)')]),
    ("websocket to static", "bug", [(M, 'scope["type"] == "http" and self.match_static_path(scope)', 'scope["type"] != "lifespan" and self.match_static_path(scope)')]),
    ("falls through", "bug", [(M, "            return await self.web_modules_app(scope, receive, send)", "            await self.web_modules_app(scope, receive, send)")]),
    ("not awaited", "bug", [(M, "            return await self.web_modules_app(scope, receive, send)", "            return self.web_modules_app(scope, receive, send)")]),
    ("wrong folder", "bug", [(M, "root=self.parent.web_modules_dir", "root=self.parent.static_dir")]),
    ("wrong prefix", "bug", [(M, "prefix=self.parent.web_modules_path", "prefix=self.parent.static_path")]),
    ("extra routes unanchored", "bug", [(S, '            if not re_path.endswith("$"):\n                re_path = f"{re_path}$"\n', "")]),
    ("extra routes in one table", "bug", [(S, "                self.extra_ws_routes[re_path]", "                self.extra_http_routes[re_path]")]),
    ("extra routes last wins", "bug", [(S, MATCH, "        found = None\n        for route, app in routing_dictionary:\n            if re.match(route, scope[\"path\"]):\n                found = app\n        return found\n")]),
    ("route decorator returns nothing", "bug", [(S, "            return asgi_app\n\n        return decorator", "            return None\n\n        return decorator")]),
    ("standalone dispatch everywhere", "bug", [(S, 'return str(scope["path"]) == self.dispatcher_path', 'return bool(self.dispatcher_pattern.match(scope["path"]))')]),
    ("standalone dispatch by start", "bug", [(S, 'return str(scope["path"]) == self.dispatcher_path', 'return str(scope["path"]).startswith(self.dispatcher_path)')]),
    ("csr dispatches", "bug", [(Y, "        return False\n", "        return super().match_dispatch_path(scope)\n")]),
    ("args swapped", "bug", [(M, "await self.asgi_app(scope, receive, send)", "await self.asgi_app(scope, send, receive)")]),
    ("lifespan to routes", "bug", [(S, '        if scope["type"] == "lifespan":\n            return self.extra_lifespan_app\n', '        if scope["type"] == "lifespan":\n            return next(iter(self.extra_http_routes.values()), self.component_dispatch_app)\n')]),
    # same
    ("order of independent routes", "same", [(M, STATIC, ""), (M, WS, STATIC + WS)]),
    ("static and modules swapped", "same", [(M, STATIC, ""), (M, MODS, MODS + STATIC)]),
    ("by type", "same", [(M, STATIC + MODS, """        if scope["type"] == "http":
            for matches, target in (
                (self.match_static_path, self.static_file_app),
                (self.match_web_modules_path, self.web_modules_app),
            ):
                if matches(scope):
                    return await target(scope, receive, send)

""")]),
    ("app selected", "same", [(M, WS + STATIC + MODS + EXTRA + "        # Serve the user's application\n        await self.asgi_app(scope, receive, send)\n", """        await self._select_app(scope)(scope, receive, send)

    def _select_app(self, scope: AsgiScope) -> Any:
        if scope["type"] == "websocket":
            if self.match_dispatch_path(scope):
                return self.component_dispatch_app
        elif scope["type"] == "http":
            if self.match_static_path(scope):
                return self.static_file_app
            if self.match_web_modules_path(scope):
                return self.web_modules_app
        return self.match_extra_paths(scope) or self.asgi_app
""")]),
    ("fullmatch", "same", [(M, '            f"^{re.escape(self.dispatcher_path)}(?P<dotted_path>[a-zA-Z0-9_.]+)/$"', '            re.escape(self.dispatcher_path) + r"(?P<dotted_path>[\\w.]+)/", re.ASCII'), (M, 'bool(re.match(self.dispatcher_pattern, scope["path"]))', 'self.dispatcher_pattern.fullmatch(scope["path"]) is not None')]),
    ("routes by loop", "same", [(S, MATCH, "        for route, app in routing_dictionary:\n            if re.match(route, scope[\"path\"]):\n                return app\n        return None\n")]),
    ("table by type", "same", [(S, """        routing_dictionary = {}
        if scope["type"] == "http":
            routing_dictionary = self.extra_http_routes.items()

        if scope["type"] == "websocket":
            routing_dictionary = self.extra_ws_routes.items()
""", """        tables = {"http": self.extra_http_routes, "websocket": self.extra_ws_routes}
        routing_dictionary = tables.get(scope["type"], {}).items()
""")]),
    ("server made early", "same", [(M, """        if not self._static_file_server:
            self._static_file_server = ServeStaticASGI(
                Error404App(),
                root=self.parent.static_dir,
                prefix=self.parent.static_path,
                autorefresh=True,
            )

        await self._static_file_server(
""", """        if self._static_file_server is None:
            self._static_file_server = self._make_server()
        await self._static_file_server(
"""), (M, "@dataclass\nclass WebModuleApp", """    def _make_server(self) -> ServeStaticASGI:
        return ServeStaticASGI(
            Error404App(),
            root=self.parent.static_dir,
            prefix=self.parent.static_path,
            autorefresh=True,
        )


@dataclass
class WebModuleApp""")]),
    ("names of paths", "same", [(M, "self.static_path", "self.files_path"), (M, "self.static_path", "self.files_path"), (M, "self.parent.static_path", "self.parent.files_path")]),
    ('static any scope', 'bug', [('src/reactpy/executors/asgi/middleware.py', '        if scope["type"] == "http" and self.match_static_path(scope):', '        if scope["type"] != "lifespan" and self.match_static_path(scope):')]),
    ('double', 'bug', [('src/reactpy/executors/asgi/middleware.py', '        if matched_app:\n            return await matched_app(scope, receive, send)  # type: ignore', '        if matched_app:\n            await matched_app(scope, receive, send)  # type: ignore')]),
    ('ws extra dispatch', 'bug', [('src/reactpy/executors/asgi/middleware.py', '        if scope["type"] == "websocket" and self.match_dispatch_path(scope):', '        if scope["type"] == "websocket":')]),
    ('static contains', 'bug', [('src/reactpy/executors/asgi/middleware.py', '        return scope["path"].startswith(self.static_path)', '        return self.static_path in scope["path"]')]),
    ('static no slash', 'bug', [('src/reactpy/executors/asgi/middleware.py', '        self.static_path = f"{self.path_prefix}static/"', '        self.static_path = f"{self.path_prefix}static"')]),
    ('modules before escape', 'bug', [('src/reactpy/executors/asgi/middleware.py', 'f"^{re.escape(self.dispatcher_path)}(?P', 'f"^{self.dispatcher_path}(?P')]),
    ('no dollar', 'bug', [('src/reactpy/executors/asgi/middleware.py', '[a-zA-Z0-9_.]+)/$"', '[a-zA-Z0-9_.]+)/"')]),
    ('scope copied path', 'bug', [('src/reactpy/executors/asgi/middleware.py', '        await self.asgi_app(scope, receive, send)', '        await self.asgi_app({**scope, "path": scope["path"].removeprefix(self.path_prefix)}, receive, send)')]),
]
