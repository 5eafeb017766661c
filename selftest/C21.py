M = "src/reactpy/executors/asgi/middleware.py"
PUT = "                        await ws.rendering_queue.put(msg)\n"
ENTER = """        await super().__aenter__()  # type: ignore
        self.dispatcher = asyncio.create_task(self.run_dispatcher())
        return self
"""
EXIT = """        if self.dispatcher:
            self.dispatcher.cancel()
        await super().__aexit__()  # type: ignore
"""
SEND = """        return await self._send(
            {"type": "websocket.send", "text": orjson.dumps(data).decode()}
        )
"""
LOOP = """            while True:
                # Wait for the webserver to notify us of a new event
                event: dict[str, Any] = await ws.receive(raw=True)  # type: ignore

                # If the event is a `receive` event, parse the message and send it to the rendering queue
                if event["type"] == "websocket.receive":
                    msg: dict[str, str] = orjson.loads(event["text"])
                    if msg.get("type") == "layout-event":
                        await ws.rendering_queue.put(msg)
                    else:  # nocov
                        await asyncio.to_thread(
                            _logger.warning, f"Unknown message type: {msg.get('type')}"
                        )

                # If the event is a `disconnect` event, break the rendering loop and close the connection
                elif event["type"] == "websocket.disconnect":
                    break
"""
LOG = '            await asyncio.to_thread(_logger.error, f"{error}\\n{traceback.format_exc()}")\n'
CASES = [
    ("put twice", "bug", [(M, PUT, PUT + PUT)]),
    ("put_nowait", "bug", [(M, "await ws.rendering_queue.put(msg)", "ws.rendering_queue.put_nowait(msg)")]),
    ("put task", "bug", [(M, "await ws.rendering_queue.put(msg)", "asyncio.create_task(ws.rendering_queue.put(msg))")]),
    ("put not awaited", "bug", [(M, "await ws.rendering_queue.put(msg)", "ws.rendering_queue.put(msg)")]),
    ("drop while rendering", "bug", [(M, PUT, "                        if ws.rendering_queue.empty():\n                            await ws.rendering_queue.put(msg)\n")]),
    ("text put", "bug", [(M, "rendering_queue.put(msg)", "rendering_queue.put(event)")]),
    ("unknown put", "bug", [(M, 'if msg.get("type") == "layout-event":', 'if msg.get("type"):')]),
    ("unknown ends", "bug", [(M, """                        await asyncio.to_thread(
                            _logger.warning, f"Unknown message type: {msg.get('type')}"
                        )
""", "                        break\n")]),
    ("no end", "bug", [(M, 'elif event["type"] == "websocket.disconnect":\n                    break', 'elif event["type"] == "websocket.disconnect":\n                    continue')]),
    ("ends on other", "bug", [(M, 'elif event["type"] == "websocket.disconnect":', 'else:')]),
    ("shared queue", "bug", [(M, """        self.rendering_queue: asyncio.Queue[dict[str, str]] = asyncio.Queue(
            config.REACTPY_MAX_QUEUE_SIZE.current
        )
""", "        self.rendering_queue = parent.rendering_queue\n"), (M, "        # Directory attributes\n", "        self.rendering_queue = asyncio.Queue(config.REACTPY_MAX_QUEUE_SIZE.current)\n        # Directory attributes\n")]),
    ("unbounded queue", "bug", [(M, "asyncio.Queue(\n            config.REACTPY_MAX_QUEUE_SIZE.current\n        )", "asyncio.Queue()")]),
    ("task before accept", "bug", [(M, ENTER, "        self.dispatcher = asyncio.create_task(self.run_dispatcher())\n        return await super().__aenter__()\n")]),
    ("no task", "bug", [(M, ENTER, "        await super().__aenter__()\n        await self.run_dispatcher()\n        return self\n")]),
    ("not cancelled on failure", "bug", [(M, EXIT, "        await super().__aexit__()\n        if self.dispatcher:\n            self.dispatcher.cancel()\n")]),
    ("never cancelled", "bug", [(M, EXIT, "        await super().__aexit__()\n")]),
    ("cancelled on error only", "bug", [(M, "        if self.dispatcher:\n", "        if self.dispatcher and _[0]:\n")]),
    ("never closed", "bug", [(M, "        await super().__aexit__()  # type: ignore\n", "")]),
    ("bytes", "bug", [(M, "orjson.dumps(data).decode()", "orjson.dumps(data)")]),
    ("sent twice", "bug", [(M, SEND, SEND.replace("return ", "") + SEND)]),
    ("send some", "bug", [(M, SEND, "        if data.get(\"type\") == \"layout-update\" and data[\"model\"]:\n    " + SEND.replace("\n", "\n    ").rstrip(" "))]),
    ("send task", "bug", [(M, SEND, SEND.replace("return await self._send(", "asyncio.create_task(self._send(").rstrip()[:-1] + "))\n")]),
    ("swallow", "bug", [(M, "        except Exception as error:\n" + LOG, "        except Exception:\n            pass\n")]),
    ("swallow cancel", "bug", [(M, "        except Exception as error:\n", "        except BaseException as error:\n")]),
    ("error of some kind only", "bug", [(M, LOG, "            if not isinstance(error, RuntimeError):\n    " + LOG)]),
    ("same: match", "same", [(M, LOOP, """            connected = True
            while connected:
                event = await ws.receive(raw=True)
                kind = event["type"]
                if kind == "websocket.disconnect":
                    connected = False
                elif kind == "websocket.receive":
                    await self._handle(ws, orjson.loads(event["text"]))
"""), (M, "class ReactPyWebsocket(", """    @staticmethod
    async def _handle(ws, msg):
        if msg.get("type") == "layout-event":
            await ws.rendering_queue.put(msg)
            return
        await asyncio.to_thread(_logger.warning, f"Unknown message type: {msg.get('type')}")


class ReactPyWebsocket(""")]),
    ("same: early return", "same", [(M, LOOP, """            while True:
                event = await ws.receive(raw=True)
                if event["type"] == "websocket.disconnect":
                    return
                if event["type"] != "websocket.receive":
                    continue
                msg = orjson.loads(event["text"])
                if msg.get("type") != "layout-event":
                    _logger.warning("Unknown message type: %s", msg.get("type"))
                    continue
                await ws.rendering_queue.put(msg)
""")]),
    ("same: finally", "same", [(M, EXIT, """        try:
            await super().__aexit__()
        finally:
            if self.dispatcher is not None:
                self.dispatcher.cancel()
""")]),
    ("same: get in a method", "same", [(M, "                self.rendering_queue.get,\n", "                self.receive_json,\n"), (M, "    async def send_json(", "    async def receive_json(self):\n        return await self.rendering_queue.get()\n\n    async def send_json(")]),
    ("same: send text", "same", [(M, SEND, """        text = orjson.dumps(data).decode("utf-8")
        message = {"type": "websocket.send"}
        message["text"] = text
        await self._send(message)
""")]),
    ("same: log helper", "same", [(M, LOG, "            await self._log(error)\n"), (M, "    async def send_json(", "    async def _log(self, error):\n        message = f\"{error}\\n{traceback.format_exc()}\"\n        await asyncio.to_thread(_logger.error, message)\n\n    async def send_json(")]),
    ("same: exception", "same", [(M, LOG, "            _logger.exception(error)\n")]),
    ("same: start helper", "same", [(M, ENTER, "        await super().__aenter__()\n        self._start()\n        return self\n"), (M, "    async def send_json(", "    def _start(self):\n        self.dispatcher = asyncio.create_task(self.run_dispatcher(), name=\"dispatcher\")\n\n    async def send_json(")]),
    ('first bytes', 'bug', [('src/reactpy/executors/asgi/middleware.py', '                    if msg.get("type") == "layout-event":\n                        await ws.rendering_queue.put(msg)', '                    if msg.get("type") == "layout-event":\n                        ws.rendering_queue.put_nowait(msg)')]),
    ('task put', 'bug', [('src/reactpy/executors/asgi/middleware.py', '                        await ws.rendering_queue.put(msg)', '                        asyncio.create_task(ws.rendering_queue.put(msg))')]),
    ('type startswith', 'bug', [('src/reactpy/executors/asgi/middleware.py', '                    if msg.get("type") == "layout-event":', '                    if msg.get("type", "layout-event").startswith("layout-"):')]),
    ('queue shared', 'bug', [('src/reactpy/executors/asgi/middleware.py', '        self.rendering_queue: asyncio.Queue[dict[str, str]] = asyncio.Queue(\n            config.REACTPY_MAX_QUEUE_SIZE.current\n        )', '        self.rendering_queue: asyncio.Queue[dict[str, str]] = parent.__dict__.setdefault(\n            "_queue", asyncio.Queue(config.REACTPY_MAX_QUEUE_SIZE.current)\n        )')]),
    ('aexit order', 'bug', [('src/reactpy/executors/asgi/middleware.py', '        if self.dispatcher:\n            self.dispatcher.cancel()\n        await super().__aexit__()  # type: ignore', '        await super().__aexit__()  # type: ignore\n        if self.dispatcher:\n            self.dispatcher.cancel()')]),
    ('dispatcher before accept', 'bug', [('src/reactpy/executors/asgi/middleware.py', '        await super().__aenter__()  # type: ignore\n        self.dispatcher = asyncio.create_task(self.run_dispatcher())', '        self.dispatcher = asyncio.create_task(self.run_dispatcher())\n        await super().__aenter__()  # type: ignore')]),
    ('base exception', 'bug', [('src/reactpy/executors/asgi/middleware.py', '        except Exception as error:\n            await asyncio', '        except BaseException as error:\n            await asyncio')]),
    ('loop ends on bad', 'bug', [('src/reactpy/executors/asgi/middleware.py', '                    else:  # nocov\n                        await asyncio.to_thread(', '                    else:  # nocov\n                        break\n                        await asyncio.to_thread(')]),
    ('ascii decode', 'bug', [('src/reactpy/executors/asgi/middleware.py', 'orjson.dumps(data).decode()', 'orjson.dumps(data).decode("latin-1")')]),
]
