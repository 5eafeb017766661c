CASES = [
    ('findall-match', 'bug', [('src/reactpy/testing/logs.py', 'message_pattern.findall(record.getMessage())', 'message_pattern.match(record.getMessage())')]),
    ('exact-type', 'bug', [('src/reactpy/testing/logs.py', 'and issubclass(record.exc_info[0], error_type)', 'and record.exc_info[0] is error_type')]),
    ('search-str-exc', 'bug', [('src/reactpy/testing/logs.py', '"".join(format_exception(*record.exc_info))', 'str(record.exc_info[1])')]),
    ('and-or', 'bug', [('src/reactpy/testing/logs.py', '                    # error message pattern matches\n                    and (', '                    # error message pattern matches\n                    or (')]),
    ('level-not-restored-on-error', 'bug', [('src/reactpy/testing/logs.py', '    finally:\n        ROOT_LOGGER.setLevel(original_level)', '    except Exception:\n        raise\n    else:\n        ROOT_LOGGER.setLevel(original_level)')]),
    ('level-info', 'bug', [('src/reactpy/testing/logs.py', 'ROOT_LOGGER.setLevel(logging.DEBUG)', 'ROOT_LOGGER.setLevel(min(original_level, logging.INFO))')]),
    ('inner-clears-all', 'bug', [('src/reactpy/testing/logs.py', '_LOG_RECORD_CAPTOR.records[start_index:end_index] = []', '_LOG_RECORD_CAPTOR.records.clear()')]),
    ('inner-clears-none', 'bug', [('src/reactpy/testing/logs.py', '_LOG_RECORD_CAPTOR.records[start_index:end_index] = []', 'pass')]),
    ('start0', 'bug', [('src/reactpy/testing/logs.py', '_LOG_RECORD_CAPTOR.records[start_index:end_index] = []', 'del _LOG_RECORD_CAPTOR.records[start_index + 1:]')]),
    ('no-clear', 'bug', [('src/reactpy/testing/logs.py', '            ROOT_LOGGER.removeHandler(_LOG_RECORD_CAPTOR)\n            _LOG_RECORD_CAPTOR.records.clear()', '            ROOT_LOGGER.removeHandler(_LOG_RECORD_CAPTOR)')]),
    ('not-removed-on-error', 'bug', [('src/reactpy/testing/logs.py', '        try:\n            yield _LOG_RECORD_CAPTOR.records\n        finally:\n            ROOT_LOGGER.removeHandler(_LOG_RECORD_CAPTOR)\n            _LOG_RECORD_CAPTOR.records.clear()', '        yield _LOG_RECORD_CAPTOR.records\n        ROOT_LOGGER.removeHandler(_LOG_RECORD_CAPTOR)\n        _LOG_RECORD_CAPTOR.records.clear()')]),
    ('did-suppress', 'bug', [('src/reactpy/testing/logs.py', '        except Exception:\n            raise\n        else:\n            for record', '        except AssertionError:\n            pass\n        else:\n            for record')]),
    ('listed-level', 'bug', [('src/reactpy/testing/logs.py', 'record.levelno >= log_level', 'record.levelno > log_level - 5 and record.levelno <= logging.ERROR')]),
    ('listed-match', 'bug', [('src/reactpy/testing/logs.py', 'compiled_pattern.search(str(error))', 'compiled_pattern.match(str(error))')]),
    ('listed-del', 'bug', [('src/reactpy/testing/logs.py', 'del log_records[index - len(found)]', 'log_records.remove(log_records[0])')]),
    ('captor-skip-dup', 'bug', [('src/reactpy/testing/logs.py', '        self.records.append(record)\n        return True', '        if record.levelno > logging.DEBUG:\n            self.records.append(record)\n        return True')]),
    ('poll-time-first', 'bug', [('src/reactpy/testing/common.py', '            if condition(result):\n                break\n            elif (time.time() - started_at) > timeout:  # nocov', '            if condition(result) or (time.time() - started_at) > timeout * 2:\n                break\n            elif (time.time() - started_at) > timeout:  # nocov')]),
    ('poll-is-eq', 'bug', [('src/reactpy/testing/common.py', 'lambda left: left is right', 'lambda left: left == right')]),
    ('poll-eq-is', 'bug', [('src/reactpy/testing/common.py', 'lambda left: left == right', 'lambda left: left is right')]),
    ('poll-once', 'bug', [('src/reactpy/testing/common.py', '        started_at = time.time()\n        while True:\n            await asyncio.sleep(delay)\n            result =', '        started_at = time.time()\n        result = await self._func(*self._args, **self._kwargs)\n        while True:\n            await asyncio.sleep(delay)\n            if (time.time() - started_at) > timeout / 2: result =')]),
    ('poll-kwargs', 'bug', [('src/reactpy/testing/common.py', 'return cast(_R, function(*args, **kwargs))', 'return cast(_R, function(*args))')]),
    ('poll-truth', 'bug', [('src/reactpy/testing/common.py', '            if condition(result):', '            if result and condition(result) or result == 0:')]),
    ('hook-first', 'bug', [('src/reactpy/testing/common.py', '                self.index[kwargs[self.index_by_kwarg]] = hook', '                self.index.setdefault(kwargs[self.index_by_kwarg], hook)')]),
    ('hook-latest', 'bug', [('src/reactpy/testing/common.py', '            self.latest = hook\n', '            else:\n                self.latest = hook\n')]),
    ('handler-flags', 'bug', [('src/reactpy/testing/common.py', '            stop_propagation,\n            prevent_default,\n            self.target,', '            prevent_default,\n            stop_propagation,\n            self.target,')]),
    ('handler-target', 'bug', [('src/reactpy/testing/common.py', '            prevent_default,\n            self.target,', '            prevent_default,\n            uuid4().hex,')]),
    ('s-capture', 'same', [('src/reactpy/testing/logs.py', '        if _LOG_RECORD_CAPTOR in ROOT_LOGGER.handlers:\n            start_index = len(_LOG_RECORD_CAPTOR.records)\n            try:\n                yield _LOG_RECORD_CAPTOR.records\n            finally:\n                end_index = len(_LOG_RECORD_CAPTOR.records)\n                _LOG_RECORD_CAPTOR.records[start_index:end_index] = []\n            return None\n\n        ROOT_LOGGER.addHandler(_LOG_RECORD_CAPTOR)\n        try:\n            yield _LOG_RECORD_CAPTOR.records\n        finally:\n            ROOT_LOGGER.removeHandler(_LOG_RECORD_CAPTOR)\n            _LOG_RECORD_CAPTOR.records.clear()', '        records = _LOG_RECORD_CAPTOR.records\n        nested = _LOG_RECORD_CAPTOR in ROOT_LOGGER.handlers\n        start_index = len(records) if nested else 0\n        if not nested:\n            ROOT_LOGGER.addHandler(_LOG_RECORD_CAPTOR)\n        try:\n            yield records\n        finally:\n            if not nested:\n                ROOT_LOGGER.removeHandler(_LOG_RECORD_CAPTOR)\n            del records[start_index:]')]),
    ('s-emit', 'same', [('src/reactpy/testing/logs.py', 'class _LogRecordCaptor(logging.NullHandler)', 'class _LogRecordCaptor(logging.Handler)'), ('src/reactpy/testing/logs.py', '    def handle(self, record: logging.LogRecord) -> bool:\n        self.records.append(record)\n        return True', '    def emit(self, record: logging.LogRecord) -> None:\n        self.records.append(record)')]),
    ('s-poll', 'same', [('src/reactpy/testing/common.py', '        while True:\n            await asyncio.sleep(delay)\n            result = await self._func(*self._args, **self._kwargs)\n            if condition(result):\n                break\n            elif (time.time() - started_at) > timeout:  # nocov\n                msg', '        deadline = started_at + timeout\n        while True:\n            await asyncio.sleep(delay)\n            result = await self._call()\n            if condition(result):\n                return\n            if time.time() > deadline:  # nocov\n                msg'), ('src/reactpy/testing/common.py', '    async def until_is(', '    async def _call(self):\n        return await self._func(*self._args, **self._kwargs)\n\n    async def until_is(')]),
    ('s-poll-aw', 'same', [('src/reactpy/testing/common.py', '        if not inspect.iscoroutinefunction(function):\n\n            async def async_func(*args: _P.args, **kwargs: _P.kwargs) -> _R:\n                return cast(_R, function(*args, **kwargs))\n\n            coro = async_func\n        else:\n            coro = cast(Callable[_P, Coroutine[Any, Any, _R]], function)\n        self._func = coro\n', '        self._func = function\n'), ('src/reactpy/testing/common.py', '            result = await self._func(*self._args, **self._kwargs)\n', '            result = self._func(*self._args, **self._kwargs)\n            if inspect.isawaitable(result):\n                result = await result\n')]),
    ('s-hook', 'same', [('src/reactpy/testing/common.py', '            if self.index_by_kwarg is not None:\n                self.index[kwargs[self.index_by_kwarg]] = hook\n            self.latest = hook\n            return render_function(*args, **kwargs)', '            catcher = self\n            catcher.latest = hook\n            by = catcher.index_by_kwarg\n            if by is not None:\n                catcher.index.update({kwargs[by]: hook})\n            return render_function(*args, **kwargs)')]),
    ('s-handler', 'same', [('src/reactpy/testing/common.py', '            to_event_handler_function(function),\n            stop_propagation,\n            prevent_default,\n            self.target,', '            function=to_event_handler_function(function),\n            target=self.target,\n            prevent_default=prevent_default,\n            stop_propagation=stop_propagation,')]),
    ('hs-initial', 'bug', [('src/reactpy/testing/backend.py', 'use_state(lambda: constructor_ref.current)', 'use_state(lambda: lambda: None)')]),
    ('hs-direct', 'bug', [('src/reactpy/testing/backend.py', 'lambda new: _set_constructor(lambda _: new)', 'lambda new: _set_constructor(new)')]),
    ('hs-no-ref', 'bug', [('src/reactpy/testing/backend.py', 'constructor = constructor_ref.current = constructor or (lambda: None)', 'constructor = constructor or (lambda: None)')]),
    ('hs-one-view', 'bug', [('src/reactpy/testing/backend.py', '            for set_constructor in set_constructor_callbacks:\n                set_constructor(constructor)', '            for set_constructor in set_constructor_callbacks:\n                set_constructor(constructor)\n                break')]),
    ('hs-clear', 'bug', [('src/reactpy/testing/backend.py', 'return lambda: set_constructor_callbacks.remove(set_constructor)', 'return lambda: set_constructor_callbacks.clear()')]),
    ('hs-keep', 'bug', [('src/reactpy/testing/backend.py', '        def swap(constructor: Callable[[], Any] | None) -> None:\n            constructor_ref.current = constructor or (lambda: None)', '        def swap(constructor: Callable[[], Any] | None) -> None:\n            constructor_ref.current = constructor or constructor_ref.current')]),
    ('hs-s-list', 'same', [('src/reactpy/testing/backend.py', '            for set_constructor in set_constructor_callbacks:\n                set_constructor(constructor)', '            new = constructor\n            for callback in list(set_constructor_callbacks):\n                callback(new)')]),
    ('hs-s-def', 'same', [('src/reactpy/testing/backend.py', '            set_constructor = use_callback(lambda new: _set_constructor(lambda _: new))\n', '            @use_callback\n            def set_constructor(new):\n                _set_constructor(lambda _: new)\n')]),
    ('hs-s-remove', 'same', [('src/reactpy/testing/backend.py', '            def add_callback() -> Callable[[], None]:\n                set_constructor_callbacks.add(set_constructor)\n                return lambda: set_constructor_callbacks.remove(set_constructor)\n\n            use_effect(add_callback)\n', '            @use_effect\n            def add_callback() -> Callable[[], None]:\n                set_constructor_callbacks.add(set_constructor)\n\n                def remove_callback() -> None:\n                    set_constructor_callbacks.discard(set_constructor)\n\n                return remove_callback\n')]),
    ('hs-s-nothing', 'same', [('src/reactpy/testing/backend.py', '    constructor_ref: Ref[Callable[[], Any]] = Ref(lambda: None)', '    def nothing() -> Any:\n        return None\n\n    constructor_ref: Ref[Callable[[], Any]] = Ref(nothing)'), ('src/reactpy/testing/backend.py', 'constructor = constructor_ref.current = constructor or (lambda: None)', 'if constructor is None:\n                constructor = nothing\n            constructor_ref.current = constructor')]),
    ('s-cap-stack', 'same', [('src/reactpy/testing/logs.py', '        ROOT_LOGGER.addHandler(_LOG_RECORD_CAPTOR)\n        try:\n            yield _LOG_RECORD_CAPTOR.records\n        finally:\n            ROOT_LOGGER.removeHandler(_LOG_RECORD_CAPTOR)\n            _LOG_RECORD_CAPTOR.records.clear()', '        with _installed(_LOG_RECORD_CAPTOR) as captor:\n            yield captor.records'), ('src/reactpy/testing/logs.py', 'class _LogRecordCaptor(', '@contextmanager\ndef _installed(captor):\n    from reactpy.logging import ROOT_LOGGER\n\n    ROOT_LOGGER.addHandler(captor)\n    try:\n        yield captor\n    finally:\n        ROOT_LOGGER.removeHandler(captor)\n        captor.records.clear()\n\n\nclass _LogRecordCaptor(')]),
    ('s-poll-mono', 'same', [('src/reactpy/testing/common.py', 'started_at = time.time()', 'started_at = time.monotonic()'), ('src/reactpy/testing/common.py', 'elif (time.time() - started_at) > timeout', 'elif time.monotonic() - started_at > timeout')]),
    ('s-poll-for', 'same', [('src/reactpy/testing/common.py', '        while True:\n            await asyncio.sleep(delay)\n            result = await self._func(*self._args, **self._kwargs)\n            if condition(result):\n                break\n            elif (time.time() - started_at) > timeout:  # nocov\n                msg = f"Expected {description} after {timeout} seconds - last value was {result!r}"\n                raise TimeoutError(msg)', '        met = False\n        while not met:\n            await asyncio.sleep(delay)\n            result = await self._func(*self._args, **self._kwargs)\n            met = bool(condition(result))\n            if not met:\n                elapsed = time.time() - started_at\n                if elapsed > timeout:  # nocov\n                    raise TimeoutError(\n                        f"Expected {description} after {timeout} seconds - last value was {result!r}"\n                    )')]),
    ('s-poll-op', 'same', [('src/reactpy/testing/common.py', '            lambda left: left is right,', '            partial(operator.is_, right),'), ('src/reactpy/testing/common.py', 'import inspect\n', 'import inspect\nimport operator\n'), ('src/reactpy/testing/common.py', 'from functools import wraps', 'from functools import partial, wraps')]),
    ('s-poll-def', 'same', [('src/reactpy/testing/common.py', '        return await self.until(\n            lambda left: left == right,\n            timeout,\n            delay,\n            f"value to equal {right!r}",\n        )', '        def is_equal(left: _R) -> bool:\n            return left == right\n\n        await self.until(is_equal, timeout=timeout, delay=delay, description=f"value to equal {right!r}")')]),
    ('b-poll-default', 'bug', [('src/reactpy/testing/common.py', '        if timeout is None:\n            from', '        if not timeout or timeout < 3:\n            from')]),
    ('b-hook-wrong', 'bug', [('src/reactpy/testing/common.py', '            hook = HOOK_STACK.current_hook()\n', "            hook = getattr(self, 'latest', None) or HOOK_STACK.current_hook()\n")]),
    ('s-any-helper', 'same', [('src/reactpy/testing/logs.py', '            for record in list(log_records):\n                if (\n                    # record message matches\n                    message_pattern.findall(record.getMessage())\n                    # error type matches\n                    and (\n                        error_type is None\n                        or (\n                            record.exc_info is not None\n                            and record.exc_info[0] is not None\n                            and issubclass(record.exc_info[0], error_type)\n                        )\n                    )\n                    # error message pattern matches\n                    and (\n                        not match_error\n                        or (\n                            record.exc_info is not None\n                            and error_pattern.findall(\n                                "".join(format_exception(*record.exc_info))\n                            )\n                        )\n                    )\n                ):\n                    break\n            else:  # nocov\n', '            if not any(\n                _record_matches(record, message_pattern, error_type, match_error, error_pattern)\n                for record in log_records\n            ):\n'), ('src/reactpy/testing/logs.py', '\ndef _raise_log_message_error(', '\ndef _record_matches(record, message_pattern, error_type, match_error, error_pattern):\n    if not message_pattern.search(record.getMessage()):\n        return False\n    exc_info = record.exc_info\n    if error_type is not None:\n        if exc_info is None or exc_info[0] is None or not issubclass(exc_info[0], error_type):\n            return False\n    if match_error:\n        if exc_info is None:\n            return False\n        return error_pattern.search("".join(format_exception(*exc_info))) is not None\n    return True\n\n\ndef _raise_log_message_error(')]),
    ('s-next', 'same', [('src/reactpy/testing/logs.py', '            for record in list(log_records):\n                if (\n                    # record message matches\n                    message_pattern.findall(record.getMessage())\n                    # error type matches\n                    and (\n                        error_type is None\n                        or (\n                            record.exc_info is not None\n                            and record.exc_info[0] is not None\n                            and issubclass(record.exc_info[0], error_type)\n                        )\n                    )\n                    # error message pattern matches\n                    and (\n                        not match_error\n                        or (\n                            record.exc_info is not None\n                            and error_pattern.findall(\n                                "".join(format_exception(*record.exc_info))\n                            )\n                        )\n                    )\n                ):\n                    break\n            else:  # nocov\n', '            match = next((r for r in log_records if _record_matches(r, message_pattern, error_type, match_error, error_pattern)), None)\n            if match is None:\n'), ('src/reactpy/testing/logs.py', '\ndef _raise_log_message_error(', '\ndef _record_matches(record, message_pattern, error_type, match_error, error_pattern):\n    if not message_pattern.search(record.getMessage()):\n        return False\n    exc_info = record.exc_info\n    if error_type is not None:\n        if exc_info is None or exc_info[0] is None or not issubclass(exc_info[0], error_type):\n            return False\n    if match_error:\n        if exc_info is None:\n            return False\n        return error_pattern.search("".join(format_exception(*exc_info))) is not None\n    return True\n\n\ndef _raise_log_message_error(')]),
    ('s-list-fixed', 'same', [('src/reactpy/testing/logs.py', 'enumerate(log_records)', 'enumerate(list(log_records))')]),
    ('s-list-pop', 'same', [('src/reactpy/testing/logs.py', 'del log_records[index - len(found)]', 'log_records.pop(index - len(found))')]),
]
