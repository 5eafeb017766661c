L = "src/reactpy/core/layout.py"
REC = """            seq = event.get("seq")
            if isinstance(seq, int) and seq >= 0:
                prev = self._last_event_seq_by_target.get(target, -1)
                if seq > prev:
                    self._last_event_seq_by_target[target] = seq
"""
MAX = """            if max_ack is None or ack > max_ack:
                max_ack = ack
"""
INJ = """        max_ack: int | None = None
        for target in targets:
            ack = self._last_event_seq_by_target.get(target)
            if ack is None:
                continue
            if max_ack is None or ack > max_ack:
                max_ack = ack
        if max_ack is None:
            return
"""
CASES = [
    ("no monotone", "bug", [(L, "                if seq > prev:\n                    self._last_event_seq_by_target[target] = seq", "                self._last_event_seq_by_target[target] = seq")]),
    ("less", "bug", [(L, "if seq > prev", "if seq < prev or prev == -1")]),
    ("other key", "bug", [(L, "                    self._last_event_seq_by_target[target] = seq", "                    self._last_event_seq_by_target[event['type']] = seq")]),
    ("prev plus one", "bug", [(L, "                    self._last_event_seq_by_target[target] = seq", "                    self._last_event_seq_by_target[target] = prev + 1")]),
    ("after handler", "bug", [(L, REC, ""), (L, """                    logger.exception(f"Failed to execute event handler {handler}")
""", """                    logger.exception(f"Failed to execute event handler {handler}")
""" + REC.replace("            ", "                ", 1).replace("\n            ", "\n                "))]),
    ("unchecked", "bug", [(L, "            if isinstance(seq, int) and seq >= 0:", "            if seq is not None:")]),
    ("last instead of max", "bug", [(L, MAX, "            max_ack = ack\n")]),
    ("min", "bug", [(L, MAX, MAX.replace("ack > max_ack", "ack < max_ack"))]),
    ("first", "bug", [(L, MAX, MAX.replace("max_ack is None or ack > max_ack", "max_ack is None"))]),
    ("all tags", "bug", [(L, """        if tag_name not in {"input", "select", "textarea"}:
            return
""", "")]),
    ("no select", "bug", [(L, """{"input", "select", "textarea"}""", """{"input", "textarea"}""")]),
    ("all targets", "bug", [(L, "targets = list(new_state.targets_by_event.values())", "targets = list(self._last_event_seq_by_target)")]),
    ("kept for new", "bug", [(L, "            self._last_event_seq_by_target.pop(target, None)\n", "")]),
    ("not injected on update", "bug", [(L, """        self._remove_event_handlers(old_state)
        self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
        return None

    def""", """        self._remove_event_handlers(old_state)
        return None

    def""")]),
    ("injected before", "bug", [(L, """        self._remove_event_handlers(old_state)
        self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
        return None

    def""", """        self._remove_event_handlers(old_state)
        return None

    def"""), (L, "        model_event_handlers = new_state.model.current[\"eventHandlers\"] = {}\n", "        self._inject_event_ack_seq(new_state, raw_model.get(\"tagName\"))\n        model_event_handlers = new_state.model.current[\"eventHandlers\"] = {}\n")]),
    ("pop on update", "bug", [(L, "            self._event_handler_owners[target] = new_state\n            model_event", "            self._event_handler_owners[target] = new_state\n            self._last_event_seq_by_target.pop(target, None)\n            model_event")]),
    ("max()", "same", [(L, INJ, """        acks = [
            self._last_event_seq_by_target[t]
            for t in targets
            if t in self._last_event_seq_by_target
        ]
        if not acks:
            return
        max_ack = max(acks)
""")]),
    ("max with default", "same", [(L, INJ, """        received = [self._last_event_seq_by_target.get(t, -1) for t in targets]
        max_ack = max(received, default=-1)
        if max_ack < 0:
            return
""")]),
    ("record max", "same", [(L, REC, """            seq = event.get("seq")
            if isinstance(seq, int) and seq >= 0:
                self._last_event_seq_by_target[target] = max(
                    seq, self._last_event_seq_by_target.get(target, -1)
                )
""")]),
    ("record helper", "same", [(L, REC, "            self._record_seq(target, event)\n"), (L, "    async def render(self)", """    def _record_seq(self, target, event):
        seq = event.get("seq")
        if not isinstance(seq, int) or seq < 0:
            return
        prev = self._last_event_seq_by_target.get(target)
        if prev is None or prev < seq:
            self._last_event_seq_by_target[target] = seq

    async def render(self)""")]),
    ("tags constant", "same", [(L, """{"input", "select", "textarea"}""", "_INPUT_TAGS"), (L, "logger = getLogger(__name__)\n", "logger = getLogger(__name__)\n\n_INPUT_TAGS = frozenset({\"input\", \"select\", \"textarea\"})\n")]),
    ("inject nested", "same", [(L, INJ + """        attrs = new_state.model.current.get("attributes")
        if not isinstance(attrs, dict):
            return
""", INJ.replace("        if max_ack is None:\n            return\n", "") + """        attrs = new_state.model.current.get("attributes")
        if max_ack is None or not isinstance(attrs, dict):
            return
""")]),
    ("inject at caller", "same", [(L, """        self._remove_event_handlers(old_state)
        self._inject_event_ack_seq(new_state, raw_model.get("tagName"))
        return None

    def""", """        self._remove_event_handlers(old_state)
        tag = new_state.model.current["tagName"]
        if tag in ("input", "select", "textarea"):
            self._inject_event_ack_seq(new_state, tag)
        return None

    def""")]),
    ('seq after handler', 'bug', [('src/reactpy/core/layout.py', '                if seq > prev:', '                if seq >= prev and target in self._event_handlers:')]),
    ('seq only for known', 'bug', [('src/reactpy/core/layout.py', '                if seq > prev:', '                if seq > prev and (prev >= 0 or target in self._event_handlers):')]),
]
