CASES = [
    ('stack queue', 'bug', [('src/js/packages/@reactpy/client/src/client.ts', 'this.messageQueue.shift()', 'this.messageQueue.pop()')]),
    ('only first flushed', 'bug', [('src/js/packages/@reactpy/client/src/client.ts', 'while (this.messageQueue.length > 0) {', 'if (this.messageQueue.length > 0) {')]),
    ('queue kept', 'same', [('src/js/packages/@reactpy/client/src/client.ts', 'this.sendMessage(this.messageQueue.shift());\n        }', 'this.socket.current?.send(JSON.stringify(this.messageQueue.shift()));\n        }')]),
    ('resend all', 'bug', [('src/js/packages/@reactpy/client/src/client.ts', 'while (this.messageQueue.length > 0) {\n          this.sendMessage(this.messageQueue.shift());\n        }', 'for (const q of this.messageQueue) {\n          this.sendMessage(q);\n        }')]),
    ('readyState not checked', 'bug', [('src/js/packages/@reactpy/client/src/client.ts', 'this.socket.current &&\n      this.socket.current.readyState === WebSocket.OPEN', 'this.socket.current')]),
    ('dropped when not open', 'bug', [('src/js/packages/@reactpy/client/src/client.ts', 'this.messageQueue.push(message);', 'if (!this.socket.current) this.messageQueue.push(message);')]),
    ('unregister all of type', 'bug', [('src/js/packages/@reactpy/client/src/client.ts', 'this.handlers[type] = this.handlers[type].filter((h) => h !== handler);', 'delete this.handlers[type];')]),
    ('splice minus one', 'bug', [('src/js/packages/@reactpy/client/src/client.ts', 'this.handlers[type] = this.handlers[type].filter((h) => h !== handler);', 'this.handlers[type].splice(this.handlers[type].indexOf(handler), 1);')]),
    ('splice guarded on copy', 'same', [('src/js/packages/@reactpy/client/src/client.ts', 'this.handlers[type] = this.handlers[type].filter((h) => h !== handler);', 'const rest = this.handlers[type].slice();\n      const i = rest.indexOf(handler);\n      if (i >= 0) rest.splice(i, 1);\n      this.handlers[type] = rest;')]),
    ('first handler only', 'bug', [('src/js/packages/@reactpy/client/src/client.ts', 'messageHandlers.forEach((h) => h(message));', 'messageHandlers[0]?.(message);')]),
    ('for of', 'same', [('src/js/packages/@reactpy/client/src/client.ts', 'messageHandlers.forEach((h) => h(message));', 'for (const h of messageHandlers) {\n      h(message);\n    }')]),
    ('last handler wins', 'bug', [('src/js/packages/@reactpy/client/src/client.ts', '(this.handlers[type] || (this.handlers[type] = [])).push(handler);', 'this.handlers[type] = [handler];')]),
    ('interval not reset', 'bug', [('src/js/packages/@reactpy/client/src/websocket.ts', '      currentInterval = interval;\n      retries = 0;', '      retries = 0;')]),
    ('retries not reset', 'bug', [('src/js/packages/@reactpy/client/src/websocket.ts', '      currentInterval = interval;\n      retries = 0;', '      currentInterval = interval;')]),
    ('retries off by one', 'bug', [('src/js/packages/@reactpy/client/src/websocket.ts', 'retries >= maxRetries', 'retries > maxRetries')]),
    ('max as min', 'bug', [('src/js/packages/@reactpy/client/src/websocket.ts', 'Math.min(', 'Math.max(')]),
    ('next before wait', 'bug', [('src/js/packages/@reactpy/client/src/websocket.ts', '      setTimeout(connect, currentInterval);\n      currentInterval = nextInterval(\n        currentInterval,\n        backoffMultiplier,\n        maxInterval,\n      );', '      currentInterval = nextInterval(\n        currentInterval,\n        backoffMultiplier,\n        maxInterval,\n      );\n      setTimeout(connect, currentInterval);')]),
    ('stale qs', 'bug', [('src/js/packages/@reactpy/client/src/websocket.ts', '    url.searchParams.delete("qs");', '')]),
    ('append path', 'bug', [('src/js/packages/@reactpy/client/src/websocket.ts', 'url.searchParams.set("path"', 'url.searchParams.append("path"')]),
    ('sync once', 'bug', [('src/js/packages/@reactpy/client/src/websocket.ts', '  const connect = () => {\n    if (closed) {\n      return;\n    }\n    syncBrowserLocation(props.url);', '  syncBrowserLocation(props.url);\n  const connect = () => {\n    if (closed) {\n      return;\n    }')]),
    ('no wait for ready', 'bug', [('src/js/packages/@reactpy/client/src/websocket.ts', 'props.readyPromise.then(() => log.info("Starting client...")).then(connect);', 'log.info("Starting client...");\n  connect();')]),
    ('everConnected reset', 'bug', [('src/js/packages/@reactpy/client/src/websocket.ts', '      log.info("Disconnected!");', '      everConnected = false;\n      log.info("Disconnected!");')]),
    ("old socket's close", 'bug', [('src/js/packages/@reactpy/client/src/websocket.ts', '      everConnected = true;', '')]),
    ('class socket', 'same', [('src/js/packages/@reactpy/client/src/websocket.ts', '    socket.current = new WebSocket(props.url);\n    socket.current.onopen = () => {', '    const ws = new WebSocket(props.url);\n    socket.current = ws;\n    ws.onopen = () => {')]),
    ('default retries', 'bug', [('src/js/packages/@reactpy/client/src/mount.tsx', 'props.reconnectMaxRetries ?? 150', 'props.reconnectMaxRetries || 150')]),
    ('wss', 'bug', [('src/js/packages/@reactpy/client/src/mount.tsx', '=== "https:" ? "s" : ""', '=== "http:" ? "s" : ""')]),
    ('listeners', 'same', [('src/js/packages/@reactpy/client/src/websocket.ts', '    socket.current.onmessage = (event) => {\n      if (props.onMessage) {\n        props.onMessage(event);\n      }\n    };', '    socket.current.addEventListener("message", (event) => props.onMessage?.(event));')]),
    ('exponent', 'same', [('src/js/packages/@reactpy/client/src/websocket.ts', '  let currentInterval = interval;\n', '  const wait = (n: number) => Math.min(interval * backoffMultiplier ** n, maxInterval);\n  let currentInterval = interval;\n'), ('src/js/packages/@reactpy/client/src/websocket.ts', 'setTimeout(connect, currentInterval);', 'setTimeout(connect, wait(retries));')]),
]
