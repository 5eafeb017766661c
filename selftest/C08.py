L = "src/reactpy/core/layout.py"
GET = "            event = await queue.get()\n"
CALL = "                    await handler.function(data)\n"
LOOK = """            handler = self._event_handlers.get(target)
            if handler is None:
                for _ in range(3):
                    await sleep(0.01)
                    handler = self._event_handlers.get(target)
                    if handler is not None:
                        break
"""
REG2 = """            self._event_handlers[target] = handler
            self._event_handler_owners[target] = new_state
            model_event_handlers[event]"""
UPD = """        model_event_handlers = new_state.model.current["eventHandlers"] = {}
        for event, handler in handlers_by_event.items():
            if handler.target is not None:
                target = handler.target
            else:
                target = f"{new_state.key_path}:{event}"

            new_state.targets_by_event[event] = target
            self._event_handlers[target] = handler
            self._event_handler_owners[target] = new_state
            model_event_handlers[event] = self._serialize_event_handler(handler, target)

        self._remove_event_handlers(old_state)
"""
NEW = """        model_event_handlers = new_state.model.current["eventHandlers"] = {}
        for event, handler in handlers_by_event.items():
            if handler.target is not None:
                target = handler.target
            else:
                target = f"{new_state.key_path}:{event}"

            new_state.targets_by_event[event] = target
            self._event_handlers[target] = handler
            self._event_handler_owners[target] = new_state
            # the client counts"""
CASES = [
    ("concurrent handlers", "bug", [(L, CALL, "                    create_task(handler.function(data))\n")]),
    ("lookup before", "bug", [(L, "        while True:\n" + GET, "        handler = self._event_handlers.get(target)\n        while True:\n" + GET), (L, LOOK, "")]),
    ("only Exception of some kind", "bug", [(L, "                except Exception:\n                    logger.exception(f\"Failed to execute event handler {handler}\")", "                except ValueError:\n                    logger.exception(f\"Failed to execute event handler {handler}\")")]),
    ("silent", "bug", [(L, "                    logger.exception(f\"Failed to execute event handler {handler}\")", "                    pass")]),
    ("payload outside", "bug", [(L, """                try:
                    data = [
                        Event(d) if isinstance(d, dict) else d for d in event["data"]
                    ]
""", """                data = [
                    Event(d) if isinstance(d, dict) else d for d in event["data"]
                ]
                try:
""")]),
    ("break after failure", "bug", [(L, "                    logger.exception(f\"Failed to execute event handler {handler}\")", "                    logger.exception(f\"Failed to execute event handler {handler}\")\n                    break")]),
    ("one queue", "bug", [(L, "        target = event[\"target\"]\n        if target not in", "        target = event[\"target\"].split(\":\")[0]\n        if target not in")]),
    ("wrong lookup", "bug", [(L, LOOK, LOOK.replace("self._event_handlers.get(target)", "self._event_handlers.get(event['type'])"))]),
    ("put nowait fire", "bug", [(L, "        await self._event_queues[target].put(event)\n", "        create_task(self._event_queues[target].put(event))\n")]),
    ("drop if full", "bug", [(L, "        await self._event_queues[target].put(event)\n", "        if not self._event_queues[target].full():\n            await self._event_queues[target].put(event)\n")]),
    ("new consumer each", "bug", [(L, """                Queue(REACTPY_MAX_QUEUE_SIZE.current),
            )
            self._event_processing_tasks""", """                Queue(REACTPY_MAX_QUEUE_SIZE.current),
            )
        if target not in self._event_processing_tasks or self._event_queues[target].full():
            self._event_processing_tasks""")]),
    ("index path target", "bug", [(L, NEW, NEW.replace("key_path", "patch_path"))]),
    ("no event in target", "bug", [(L, UPD, UPD.replace('f"{new_state.key_path}:{event}"', 'f"{new_state.key_path}"'))]),
    ("old handler kept if target same", "bug", [(L, UPD, UPD.replace("            self._event_handlers[target] = handler\n", "            self._event_handlers.setdefault(target, handler)\n"))]),
    ("register only new", "bug", [(L, UPD, UPD.replace("            self._event_handlers[target] = handler\n", "            if target not in self._event_handlers:\n                self._event_handlers[target] = handler\n"))]),
    ("no owner", "bug", [(L, UPD, UPD.replace("            self._event_handler_owners[target] = new_state\n", ""))]),
    ("no removal", "bug", [(L, UPD, UPD.replace("        self._remove_event_handlers(old_state)\n", ""))]),
    ("no removal empty", "bug", [(L, "            self._remove_event_handlers(old_state)\n            self._inject", "            self._inject")]),
    ("removal early return", "bug", [(L, "        if not handlers_by_event:\n            self._remove", "        if not raw_model.get('attributes'):\n            self._remove")]),
    ("other target in model", "bug", [(L, UPD, UPD.replace("handler, target)", "handler, f\"{new_state.key_path}:{event}\")"))]),
    ("target or", "bug", [(L, UPD, UPD.replace("if handler.target is not None", "if handler.target is None"))]),
    ("skip passive", "bug", [(L, NEW, NEW.replace("        for event, handler in handlers_by_event.items():\n", "        for event, handler in handlers_by_event.items():\n            if handler.debounce == 0:\n                continue\n"))]),
    ("retry call", "bug", [(L, CALL, CALL + "                    if handler is not self._event_handlers.get(target):\n                        await handler.function(data)\n")]),
    ("unguarded removal", "bug", [(L, """            if self._event_handler_owners.get(target) is model_state:
                del self._event_handler_owners[target]
                del self._event_handlers[target]
""", """            self._event_handler_owners.pop(target, None)
            self._event_handlers.pop(target, None)
""")]),
    ("event dropped when no handler after log", "same", [(L, LOOK, LOOK.replace("range(3)", "range(5)"))]),
    ("helper lookup", "same", [(L, LOOK, "            handler = await self._find_handler(target)\n"), (L, "    async def render(self)", """    async def _find_handler(self, target):
        for _ in range(4):
            handler = self._event_handlers.get(target)
            if handler is not None:
                return handler
            await sleep(0.01)
        return None

    async def render(self)""")]),
    ("early continue", "same", [(L, """            if handler is not None:
                try:
                    data = [
                        Event(d) if isinstance(d, dict) else d for d in event["data"]
                    ]
                    await handler.function(data)
                except Exception:
                    logger.exception(f"Failed to execute event handler {handler}")
            else:
                logger.info(
                    f"Ignored event - handler {event['target']!r} "
                    "does not exist or its component unmounted"
                )
""", """            if handler is None:
                logger.info("Ignored event")
                continue
            try:
                data = []
                for d in event["data"]:
                    data.append(Event(d) if isinstance(d, dict) else d)
                await handler.function(data)
            except Exception as error:
                logger.exception(f"Failed to execute event handler {handler}", exc_info=error)
""")]),
    ("ternary target", "same", [(L, UPD, UPD.replace("""            if handler.target is not None:
                target = handler.target
            else:
                target = f"{new_state.key_path}:{event}"
""", """            target = (
                handler.target
                if handler.target is not None
                else f"{new_state.key_path}:{event}"
            )
"""))]),
    ("target helper", "same", [(L, UPD, UPD.replace("""            if handler.target is not None:
                target = handler.target
            else:
                target = f"{new_state.key_path}:{event}"
""", """            target = self._target_of(new_state, event, handler)
""")), (L, "    def _remove_event_handlers(", """    @staticmethod
    def _target_of(state, event, handler):
        if handler.target is None:
            return f"{state.key_path}:{event}"
        return handler.target

    def _remove_event_handlers(""")]),
    ("removal first", "same", [(L, UPD, "        self._remove_event_handlers(old_state)\n" + UPD.replace("        self._remove_event_handlers(old_state)\n", ""))]),
    ("deliver get", "same", [(L, """        if target not in self._event_queues:
            self._event_queues[target] = cast(
                "Queue[LayoutEventMessage | dict[str, Any]]",
                Queue(REACTPY_MAX_QUEUE_SIZE.current),
            )
            self._event_processing_tasks[target] = create_task(
                self._process_event_queue(target, self._event_queues[target])
            )

        await self._event_queues[target].put(event)
""", """        queue = self._event_queues.get(target)
        if queue is None:
            queue = Queue(REACTPY_MAX_QUEUE_SIZE.current)
            self._event_queues[target] = queue
            self._event_processing_tasks[target] = create_task(
                self._process_event_queue(target, queue)
            )

        await queue.put(event)
""")]),
    ("merged registration", "same", [(L, """        if old_state is None:
            self._render_model_event_handlers_without_old_state(
                new_state, handlers_by_event
            )
            self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
            return None

        if not handlers_by_event:
            self._remove_event_handlers(old_state)
            self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
            return None

""" + UPD, """        if old_state is None:
            self._render_model_event_handlers_without_old_state(
                new_state, handlers_by_event
            )
        else:
            if handlers_by_event:
                model_event_handlers = new_state.model.current["eventHandlers"] = {}
                for event, handler in handlers_by_event.items():
                    target = handler.target
                    if target is None:
                        target = f"{new_state.key_path}:{event}"
                    new_state.targets_by_event[event] = target
                    self._event_handlers[target] = handler
                    self._event_handler_owners[target] = new_state
                    model_event_handlers[event] = self._serialize_event_handler(handler, target)
            self._remove_event_handlers(old_state)
""")]),
    # --- distinct targets
    ("keys as they are", "bug", [(L, '{parent.key_path}/{key!r}', '{parent.key_path}/{key}')]),
    ("keys as text", "bug", [(L, '{parent.key_path}/{key!r}', '{parent.key_path}/{str(key)!r}')]),
    ("keys without separator", "same", [(L, '{parent.key_path}/{key!r}', '{parent.key_path}.{key!r}')]),
    ("slashes replaced", "bug", [(L, 'return f"{parent.key_path}/{key!r}"', 'return f"{parent.key_path}/" + repr(key).replace("/", "_")')]),
    ("case folded", "bug", [(L, 'return f"{parent.key_path}/{key!r}"', 'return f"{parent.key_path}/{key!r}".lower()')]),
    ("keys as JSON", "same", [(L, 'return f"{parent.key_path}/{key!r}"', 'return parent.key_path + "/" + repr(key)')]),
    ("inlined", "same", [(L, "        key_path=_child_key_path(parent, key),", '        key_path=f"{parent.key_path}/{key!r}",')]),
    ('queue per handler', 'bug', [('src/reactpy/core/layout.py', '        await self._event_queues[target].put(event)', '        self._event_queues[target].put_nowait(event)')]),
    ('data filtered', 'bug', [('src/reactpy/core/layout.py', 'Event(d) if isinstance(d, dict) else d for d in event["data"]', 'Event(d) for d in event["data"] if isinstance(d, dict)')]),
    ('data reversed', 'bug', [('src/reactpy/core/layout.py', 'Event(d) if isinstance(d, dict) else d for d in event["data"]', 'Event(d) if isinstance(d, dict) else d for d in reversed(event["data"])')]),
    ('first datum', 'bug', [('src/reactpy/core/layout.py', 'Event(d) if isinstance(d, dict) else d for d in event["data"]', 'Event(d) if isinstance(d, dict) else d for d in event["data"][:1]')]),
    ('cancelled handler: separate clause', 'same', [('src/reactpy/core/layout.py', '                except (Exception, CancelledError):\n                    task = current_task()\n                    if task is not None and task.cancelling():\n                        raise\n                    # the handler failed, maybe by awaiting what had been cancelled\n                    logger.exception(f"Failed to execute event handler {handler}")\n', '                except CancelledError:\n                    if current_task().cancelling() > 0:\n                        raise\n                    logger.exception(f"Failed to execute event handler {handler}")\n                except Exception:\n                    logger.exception(f"Failed to execute event handler {handler}")\n')]),
    ('cancelled handler: helper', 'same', [('src/reactpy/core/layout.py', 'if task is not None and task.cancelling():', 'if _is_cancelled(task):'), ('src/reactpy/core/layout.py', 'def _get_running_loop()', 'def _is_cancelled(task: Task[Any] | None) -> bool:\n    return task is not None and task.cancelling() > 0\n\n\ndef _get_running_loop()')]),
    ('cancelled handler: flag local', 'same', [('src/reactpy/core/layout.py', '                except (Exception, CancelledError):\n                    task = current_task()\n                    if task is not None and task.cancelling():\n                        raise\n                    # the handler failed, maybe by awaiting what had been cancelled\n                    logger.exception(f"Failed to execute event handler {handler}")\n', '                except (Exception, CancelledError):\n                    task = current_task()\n                    ending = task is not None and task.cancelling() != 0\n                    if not ending:\n                        logger.exception(f"Failed to execute event handler {handler}")\n                    else:\n                        raise\n')]),
    ('unfixed: cancelled handler', 'bug', [('src/reactpy/core/layout.py', 'except (Exception, CancelledError):\n                    task = current_task()\n                    if task is not None and task.cancelling():\n                        raise\n', 'except Exception:\n')]),
    ('cancelled handler: turned around', 'bug', [('src/reactpy/core/layout.py', 'task is not None and task.cancelling()', 'task is not None and not task.cancelling()')]),
]
