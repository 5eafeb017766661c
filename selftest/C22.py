S = "src/reactpy/executors/asgi/standalone.py"
Y = "src/reactpy/executors/asgi/pyscript.py"
HASH = """        self._etag = f'"{hashlib.md5(self._index_html.encode(), usedforsecurity=False).hexdigest()}"'
"""
MOD = "        self._last_modified = formatdate(datetime.now(tz=UTC).timestamp(), usegmt=True)"
COND = """        if (
            request_headers.get(b"if-none-match") == self._etag.encode()
            or request_headers.get(b"if-modified-since") == self._last_modified.encode()
        ):
            response_headers.pop("content-length")
            response = ResponseHTML("", headers=response_headers, status_code=304)
            return await response(scope, receive, send)  # type: ignore
"""
HEAD = """        if scope["method"] == "HEAD":
            response = ResponseHTML("", headers=response_headers)
            return await response(scope, receive, send)  # type: ignore
"""
RH = """        response_headers: dict[str, str] = {
            "etag": self._etag,
            "last-modified": self._last_modified,
            "access-control-allow-origin": "*",
            "cache-control": "max-age=60, public",
            "content-length": str(len(self._index_html.encode())),
            "content-type": "text/html; charset=utf-8",
            **self.parent.extra_headers,
        }
"""
FINAL = """        response = ResponseHTML(self._index_html, headers=response_headers)
        await response(scope, receive, send)  # type: ignore
"""
CASES = [
    ("length in characters", "bug", [(S, "len(self._index_html.encode())", "len(self._index_html)")]),
    ("rendered each time", "bug", [(S, "        if not self._index_html:\n            self.render_index_html()\n", "        self.render_index_html()\n")]),
    ("no quotes", "bug", [(S, HASH, HASH.replace("f'\"{", "f'{").replace("}\"'", "}'"))]),
    ("etag of length", "bug", [(S, HASH, "        self._etag = f'\"{len(self._index_html):032}\"'\n")]),
    ("etag of head only", "bug", [(S, HASH, HASH.replace("self._index_html.encode()", "self._index_html[:100].encode()"))]),
    ("etag before page", "bug", [(S, HASH, ""), (S, "        self._index_html = (\n", HASH + "        self._index_html = (\n")]),
    ("304 with length", "bug", [(S, '            response_headers.pop("content-length")\n', '            response_headers["content-length"] = "12"\n')]),
    ("304 with body", "bug", [(S, 'ResponseHTML("", headers=response_headers, status_code=304)', "ResponseHTML(self._index_html, headers=response_headers, status_code=304)")]),
    ("200 without body", "bug", [(S, 'ResponseHTML("", headers=response_headers, status_code=304)', 'ResponseHTML("", headers=response_headers)')]),
    ("prefix of etag", "bug", [(S, 'request_headers.get(b"if-none-match") == self._etag.encode()', 'self._etag.encode().startswith(request_headers.get(b"if-none-match", b"-"))')]),
    ("any etag", "bug", [(S, 'request_headers.get(b"if-none-match") == self._etag.encode()', 'b"if-none-match" in request_headers')]),
    ("any date", "bug", [(S, 'request_headers.get(b"if-modified-since") == self._last_modified.encode()', 'request_headers.get(b"if-modified-since")')]),
    ("never 304", "bug", [(S, "== self._etag.encode()", "== self._etag"), (S, "== self._last_modified.encode()", "== self._last_modified")]),
    ("head with body", "bug", [(S, HEAD, "")]),
    ("head without length", "bug", [(S, HEAD, HEAD.replace("            response = ", "            response_headers.pop('content-length')\n            response = "))]),
    ("headers cached and changed", "bug", [(S, RH, "        response_headers = self._headers = getattr(self, '_headers', None) or {\n" + RH.split("{\n", 1)[1])]),
    ("own headers lost", "bug", [(S, "            **self.parent.extra_headers,\n", "")]),
    ("own headers overridden", "bug", [(S, RH, RH.replace("            **self.parent.extra_headers,\n", "").replace("= {\n", "= {\n            **self.parent.extra_headers,\n"))]),
    ("own headers changed", "bug", [(S, "            **self.parent.extra_headers,\n        }\n", "        }\n        self.parent.extra_headers.update({k: v for k, v in response_headers.items() if k not in self.parent.extra_headers})\n        response_headers = dict(self.parent.extra_headers)\n")]),
    ("latin charset", "bug", [(S, "text/html; charset=utf-8", "text/html; charset=latin-1")]),
    ("english", "bug", [(S, "f'<html lang=\"{self.parent.html_lang}\">'", "'<html lang=\"en\">'")]),
    ("prepended after", "bug", [(S, """            f"{prepend_body}"
            f"{server_side_component_html(element_id='app', class_='', component_path='')}"
""", """            f"{server_side_component_html(element_id='app', class_='', component_path='')}"
            f"{prepend_body}"
""")]),
    ("none is default", "bug", [(S, "        if prepend_body is not ...:\n", "        if prepend_body is not ... and prepend_body is not None:\n")]),
    ("csr: none is default", "bug", [(Y, "        if prepend_body is not ...:\n", "        if prepend_body is not ... and prepend_body is not None:\n")]),
    ("csr: no etag", "bug", [(Y, HASH, "")]),
    ("csr: etag early", "bug", [(Y, HASH, HASH.replace("self._index_html.encode()", "pyscript_component.encode()"))]),
    ("csr: first file", "bug", [(Y, "file_paths=self.parent.file_paths", "file_paths=self.parent.file_paths[:1]")]),
    ("csr: setup in body", "bug", [(Y, 'f"{pyscript_setup}</head>"', 'f"</head>{pyscript_setup}"')] ),
    ("csr: root", "bug", [(Y, "            root=self.parent.root_name,\n", "")]),
    ("same: helper for headers", "same", [(S, RH, "        response_headers = self._response_headers()\n"), (S, "    def render_index_html(self)", "    def _response_headers(self) -> dict[str, str]:\n        headers" + RH.replace("        response_headers: dict[str, str]", "") + "        return headers\n\n    def render_index_html(self)")]),
    ("same: one response", "same", [(S, HEAD + "\n        # Browser already has the content cached\n" + COND + "\n        # Send the index.html\n" + FINAL, """        body, status = self._index_html, 200
        if scope["method"] == "HEAD":
            body = ""
        elif b"if-none-match" in request_headers and request_headers[b"if-none-match"] == self._etag.encode() or request_headers.get(b"if-modified-since") == self._last_modified.encode():
            body, status = "", 304
            del response_headers["content-length"]
        response = ResponseHTML(body, headers=response_headers, status_code=status)
        await response(scope, receive, send)
""")]),
    ("same: encode once", "same", [(S, '            "content-length": str(len(self._index_html.encode())),\n', '            "content-length": f"{len(index)}",\n'), (S, "        # Response headers for", "        index = self._index_html.encode(\"utf-8\")\n        # Response headers for"), (S, FINAL, FINAL.replace("self._index_html", "index"))]),
    ("same: sha", "same", [(S, "hashlib.md5(self._index_html.encode(), usedforsecurity=False)", "hashlib.sha256(self._index_html.encode())")]),
    ("same: headers loop", "same", [(S, '        request_headers = dict(scope["headers"])\n', '        request_headers = {}\n        for key, value in scope["headers"]:\n            request_headers[key] = value\n')]),
    ("same: etag helper", "same", [(S, HASH, "        self._etag = _etag_of(self._index_html)\n"), (S, "@dataclass\nclass ReactPyApp:", "def _etag_of(page):\n    digest = hashlib.md5(page.encode(), usedforsecurity=False).hexdigest()\n    return '\"' + digest + '\"'\n\n\n@dataclass\nclass ReactPyApp:")]),
    ("same: join", "same", [(S, """        self._index_html = (
            "<!doctype html>"
            f'<html lang="{self.parent.html_lang}">'
            f"{vdom_head_to_html(self.parent.html_head)}"
            "<body>"
            f"{prepend_body}"
            f"{server_side_component_html(element_id='app', class_='', component_path='')}"
            "</body>"
            "</html>"
        )
""", """        parts = ["<!doctype html>", f'<html lang="{self.parent.html_lang}">']
        parts.append(vdom_head_to_html(self.parent.html_head))
        parts += ["<body>", prepend_body, server_side_component_html("app", "", ""), "</body></html>"]
        self._index_html = "".join(parts)
""")]),
    ("same: request headers once", "same", [(S, COND, """        etag_matches = request_headers.get(b"if-none-match") == self._etag.encode()
        since_matches = request_headers.get(b"if-modified-since") == self._last_modified.encode()
        if etag_matches or since_matches:
            not_modified = {k: v for k, v in response_headers.items() if k != "content-length"}
            response = ResponseHTML("", headers=not_modified, status_code=304)
            await response(scope, receive, send)
            return
""")]),
    ('304 keeps length', 'bug', [('src/reactpy/executors/asgi/standalone.py', '            response_headers.pop("content-length")\n', '')]),
    ('user headers first', 'bug', [('src/reactpy/executors/asgi/standalone.py', '            "etag": self._etag,\n            "last-modified"', '            **self.parent.extra_headers,\n            "etag": self._etag,\n            "last-modified"'), ('src/reactpy/executors/asgi/standalone.py', '            "content-type": "text/html; charset=utf-8",\n            **self.parent.extra_headers,\n', '            "content-type": "text/html; charset=utf-8",\n')]),
    ('etag of head', 'bug', [('src/reactpy/executors/asgi/standalone.py', 'hashlib.md5(self._index_html.encode(), usedforsecurity', 'hashlib.md5(self._index_html[:4096].encode(), usedforsecurity')]),
    ('etag before body', 'bug', [('src/reactpy/executors/asgi/pyscript.py', 'hashlib.md5(self._index_html.encode(), usedforsecurity', 'hashlib.md5(head_content.encode(), usedforsecurity')]),
    ('date each request', 'bug', [('src/reactpy/executors/asgi/standalone.py', '            "last-modified": self._last_modified,', '            "last-modified": formatdate(datetime.now(tz=UTC).timestamp(), usegmt=True),')]),
    ('class state', 'bug', [('src/reactpy/executors/asgi/standalone.py', '            self.render_index_html()\n', '            self.render_index_html()\n            ReactPyApp._index_html = self._index_html\n')]),
    ('length mutated extra', 'bug', [('src/reactpy/executors/asgi/standalone.py', '            **self.parent.extra_headers,\n        }', '        }\n        response_headers = self.parent.extra_headers | response_headers')]),
    ('etag substring', 'bug', [('src/reactpy/executors/asgi/standalone.py', 'request_headers.get(b"if-none-match") == self._etag.encode()', 'request_headers.get(b"if-none-match", b"") in self._etag.encode()')]),
    ('lang missing pyscript', 'bug', [('src/reactpy/executors/asgi/pyscript.py', 'f\'<html lang="{self.parent.html_lang}">\'', '\'<html lang="en">\'')]),
    ('prepend after', 'bug', [('src/reactpy/executors/asgi/pyscript.py', '            f"{prepend_body}"\n            f"{pyscript_component}"\n', '            f"{pyscript_component}"\n            f"{prepend_body}"\n')]),
    ('initial lost', 'bug', [('src/reactpy/executors/asgi/pyscript.py', '            initial=self.parent.initial,\n', '            initial="",\n')]),
    ('root lost', 'bug', [('src/reactpy/executors/asgi/pyscript.py', '            root=self.parent.root_name,\n', '            root="root",\n')]),
    ('pyscript config dropped', 'bug', [('src/reactpy/executors/asgi/pyscript.py', '            config=self.parent.pyscript_config,\n', '            config={},\n')]),
    ('chars', 'bug', [('src/reactpy/executors/asgi/standalone.py', 'str(len(self._index_html.encode()))', 'str(len(self._index_html))')]),
]
