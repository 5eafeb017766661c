L = "src/reactpy/executors/pyscript/layout_handler.py"
CASES = [
    ('root not cleared', 'bug', [(L, '            root_model.clear()\n', '')]),
    ('root replaced', 'bug', [(L, '            root_model.clear()\n            root_model.update(update["model"])', '            root_model = update["model"]')]),
    ('fragment skipped', 'bug', [(L, 'for child in model.get("children", []):\n                    self.build_element_tree(layout, parent, child)', 'for child in model.get("children", []):\n                    if isinstance(child, dict): self.build_element_tree(layout, parent, child)')]),
    ('fragment first child only', 'bug', [(L, '                for child in model.get("children", []):\n                    self.build_element_tree(layout, parent, child)\n                return', '                for child in model.get("children", []):\n                    self.build_element_tree(layout, parent, child)\n                    return')]),
    ('appended before children, reversed', 'bug', [(L, 'for child in children:', 'for child in reversed(children):')]),
    ('text prepended', 'bug', [(L, 'parent.appendChild(js.document.createTextNode(model))', 'parent.prepend(js.document.createTextNode(model))')]),
    ('className as attribute', 'bug', [(L, '                elif key == "className":\n                    element.className = value\n', '')]),
    ('style last only', 'bug', [(L, 'setattr(element.style, style_key, style_value)', 'pass\n                    setattr(element.style, style_key, style_value)')]),
    ('event name kept', 'bug', [(L, 'event_name = event_name[2:]', 'event_name = event_name')]),
    ('event name not lower', 'bug', [(L, 'event_name = event_name.lower()', 'event_name = event_name')]),
    ('on stripped everywhere', 'bug', [(L, 'if event_name.startswith("on"):\n            event_name = event_name[2:]', 'event_name = event_name.replace("on", "")')]),
    ('lstrip on', 'bug', [(L, 'if event_name.startswith("on"):\n            event_name = event_name[2:]', 'event_name = event_name.lstrip("on")')]),
    ('task not kept', 'bug', [(L, '            self.running_tasks.add(task)\n            task.add_done_callback(self.running_tasks.remove)\n', '')]),
    ('task not dropped', 'bug', [(L, '            task.add_done_callback(self.running_tasks.remove)\n', '')]),
    ('only first arg', 'bug', [(L, '"data": args', '"data": args[:1]')]),
    ('clone deep', 'bug', [(L, 'cloneNode(False)', 'cloneNode(True)')]),
    ('morphdom swapped', 'bug', [(L, 'morphdom.default(container, temp_root_container)', 'morphdom.default(temp_root_container, container)')]),
    ('render html before update', 'bug', [(L, '                self.update_model(update, root_model)\n                self.render_html(root_layout, root_model)', '                self.render_html(root_layout, root_model)\n                self.update_model(update, root_model)')]),
    ('render only update', 'bug', [(L, 'self.render_html(root_layout, root_model)', 'self.render_html(root_layout, update["model"])')]),
    ('no delete', 'bug', [(L, '        self.delete_old_workspaces()\n        root_model', '        root_model')]),
    ('delete without cancel', 'bug', [(L, '                task.cancel()\n', '')]),
    ('live minus dead', 'bug', [(L, 'python_uuids - dom_uuids', 'dom_uuids - python_uuids')]),
    ('symmetric', 'bug', [(L, 'python_uuids - dom_uuids', 'python_uuids')]),
    ('continue when task missing', 'bug', [(L, '                logging.error("Could not auto delete PyScript task %s", task_name)', '                continue')]),
    ('prefix loose', 'bug', [(L, 'if value.startswith("user_workspace_")', 'if value.startswith("user_workspace")')]),
    ('globals', 'bug', [(L, 'namespace = vars(__main__)', 'namespace = globals()')]),
    ('target late', 'bug', [(L, '        target = event_handler_model["target"]\n', '        self.target = event_handler_model["target"]\n'), (L, '"target": target', '"target": self.target')]),
    ('falsy attributes', 'bug', [(L, '                elif value is not None and (\n                    value is not False or key.startswith(("data-", "aria-"))\n                ):', '                elif value:')]),
    ('handlers lost on nested', 'bug', [(L, 'model.get(\n                "eventHandlers", {}\n            ).items()', '(model.get(\n                "eventHandlers", {}\n            ) if children else {}).items()')]),
    ('update in place', 'bug', [(L, '            set_pointer(root_model, update["path"], update["model"])', '            set_pointer(root_model, update["path"], {**update["model"], "attributes": {}})')]),
    ('second render skipped if same path', 'bug', [(L, '                self.update_model(update, root_model)\n', "                if update['path'] != root_model.get('last'):\n                    self.update_model(update, root_model)\n                root_model['last'] = update['path']\n")]),
    ('coalesce', 'bug', [(L, '                self.render_html(root_layout, root_model)', "                if update['model'].get('children') or not update['path']:\n                    self.render_html(root_layout, root_model)")]),
    ('swallow', 'bug', [(L, '            while True:\n                update = await root_layout.render()', '            while True:\n                try:\n                    update = await root_layout.render()\n                except BaseException:\n                    return')]),
    ('no async with', 'bug', [(L, '        async with Layout(workspace_function()) as root_layout:\n            while True:', '        root_layout = Layout(workspace_function())\n        if True:\n            while True:')]),
    ('class var tasks by name', 'bug', [(L, 'self.running_tasks.add(task)', 'self.running_tasks = {task}')]),
    ('set_pointer helper', 'same', [(L, '            set_pointer(root_model, update["path"], update["model"])', '            path = update["path"]\n            set_pointer(root_model, path, update["model"])')]),
    ('early return', 'same', [(L, '        if update["path"]:\n            set_pointer(root_model, update["path"], update["model"])\n        else:', '        path = update["path"]\n        if path:\n            set_pointer(root_model, path, update["model"])\n            return\n        if True:')]),
    ('append early', 'same', [(L, '            element = js.document.createElement(tag)\n', '            element = js.document.createElement(tag)\n            parent.appendChild(element)\n'), (L, '            # Append the element to the parent\n            parent.appendChild(element)\n', '')]),
    ('removeprefix', 'same', [(L, 'if event_name.startswith("on"):\n            event_name = event_name[2:]', 'event_name = event_name.removeprefix("on")')]),
    ('discard', 'same', [(L, 'task.add_done_callback(self.running_tasks.remove)', 'task.add_done_callback(self.running_tasks.discard)')]),
    ('lambda done', 'same', [(L, 'task.add_done_callback(self.running_tasks.remove)', 'task.add_done_callback(lambda t: self.running_tasks.discard(t))')]),
    ('pop', 'same', [(L, '                task: asyncio.Task = namespace[task_name]\n                task.cancel()\n                del namespace[task_name]', '                namespace.pop(task_name).cancel()')]),
    ('setAttribute class', 'same', [(L, 'element.className = value', 'element.setAttribute("class", value)')]),
    ('style setProperty no', 'same', [(L, 'for style_key, style_value in value.items():\n                        setattr(element.style, style_key, style_value)', 'style = element.style\n                    for style_key in value:\n                        setattr(style, style_key, value[style_key])')]),
    ('extract attributes', 'same', [(L, '            for key, value in attributes.items():\n                if key == "style":', '            self.note = None\n            for key, value in attributes.items():\n                if key == "style":')]),
    ('loop over list', 'same', [(L, '        dom_uuids = {element.dataset.uuid for element in dom_workspaces}', '        dom_uuids = set()\n        for element in dom_workspaces:\n            dom_uuids.add(element.dataset.uuid)')]),
    ('iterate names', 'same', [(L, '        python_uuids = {\n            value.split("_")[-1]\n            for value in namespace\n            if value.startswith("user_workspace_")\n        }', '        prefix = "user_workspace_"\n        python_uuids = {n[len(prefix):] for n in list(namespace) if n.startswith(prefix)}')]),
    ('main dict', 'same', [(L, 'namespace = vars(__main__)', 'namespace = __main__.__dict__')]),
    ('method handler', 'same', [(L, '        def event_handler(*args):\n            # When the event is triggered, deliver the event to the `Layout` within a background task\n            task = asyncio.create_task(\n                layout.deliver({"type": "layout-event", "target": target, "data": args})\n            )\n', '        def event_handler(*args):\n            message = dict(type="layout-event", target=target, data=list(args))\n            task = asyncio.ensure_future(layout.deliver(message))\n')]),
    ('task fn', 'same', [(L, '            # When the event is triggered, deliver the event to the `Layout` within a background task\n            task = asyncio.create_task(\n                layout.deliver({"type": "layout-event", "target": target, "data": args})\n            )', '            async def deliver():\n                await layout.deliver({"type": "layout-event", "target": target, "data": args})\n            task = asyncio.create_task(deliver())')]),
    ('generic async for', 'same', [(L, '            while True:\n                update = await root_layout.render()\n                self.update_model(update, root_model)\n                self.render_html(root_layout, root_model)', '            while True:\n                await self.step(root_layout, root_model)\n\n    async def step(self, layout, model):\n        update = await layout.render()\n        self.update_model(update, model)\n        self.render_html(layout, model)')]),
    ('partial handler', 'same', [(L, '        add_event_listener(element, event_name, event_handler)', '        listener = event_handler\n        add_event_listener(element, event_name, listener)')]),
]
