CASES = [
    ('prevent and stop swapped', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', '      if (preventDefault) {\n        event.preventDefault();', '      if (stopPropagation) {\n        event.preventDefault();'), ('src/js/packages/@reactpy/client/src/vdom.tsx', '      if (stopPropagation) {\n        event.stopPropagation();', '      if (preventDefault) {\n        event.stopPropagation();')]),
    ('target of the first', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', 'createEventHandler(client, name, handler),', 'createEventHandler(client, name, Object.values(model.eventHandlers || {})[0] ?? handler),')]),
    ('name lower case', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', '  return [name, eventHandler];', '  return [name.toLowerCase(), eventHandler];')]),
    ('no seq increment', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', 'const seq = outgoingSeq++;', 'const seq = outgoingSeq;')]),
    ('fragment tag', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', 'model.tagName === "" ? Fragment : model.tagName', 'model.tagName || "div"')]),
    ('key not passed', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', 'return <Element model={child} key={child.attributes?.key} />;', 'return <Element model={child} />;')]),
    ('error shown as text', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', 'return <pre>{model.error}</pre>;', 'return <>{model.error}</>;')]),
    ('error needs text', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '  if (model.error !== undefined) {\n    if (model.error) {\n      return <pre>{model.error}</pre>;\n    } else {\n      return null;\n    }\n  }', '  if (model.error) {\n    return <pre>{model.error}</pre>;\n  }')]),
    ('assign only', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '          for (const key of Object.keys(currentModel)) {\n            delete (currentModel as Record<string, unknown>)[key];\n          }\n', '')]),
    ('root by falsy path only slash', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', 'if (path === "") {', 'if (path === "/") {')]),
    ('no force update', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '        forceUpdate();\n', '        if (path === "") forceUpdate();\n')]),
    ('force update set true', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', 'setState((old) => !old)', 'setState(true)')]),
    ('ack or equal', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', 'if (serverAckSeq < lastSentSeq.current) {', 'if (serverAckSeq <= lastSentSeq.current) {')]),
    ('ack reversed', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', 'if (serverAckSeq < lastSentSeq.current) {', 'if (serverAckSeq < 0) {')]),
    ('effect deps value only', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '}, [props.value, serverAckSeq]);', '}, [props.value]);')]),
    ('own counters', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '        taggedHandler._reactpy_set_seq(seq);', '        taggedHandler._reactpy_set_seq(lastSentSeq.current - 1);')]),
    ('value kept controlled', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '    if (key !== "value") {\n      controlledProps[key] = (props as Record<string, any>)[key];\n    }', '    controlledProps[key] = (props as Record<string, any>)[key];')]),
    ('empty value skipped', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '      typeof props.value === "string" &&\n      inputRef', '      props.value &&\n      inputRef')]),
    ('undefined written', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '      typeof props.value === "string" &&\n      inputRef', '      inputRef')]),
    ('ack in the page', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '  delete (props as Record<string, unknown>)["_reactpy_ack_seq"];\n', '')]),
    ('counter in state of render', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', 'const sharedOutgoingSeq = useRef(0);', 'const sharedOutgoingSeq = { current: 0 };')]),
    ('textarea standard', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '  textarea: UserInputElement,\n', '')]),
    ('throttle drops trailing', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '    pendingArgs = args;\n    if (timer === null) {\n      timer = window.setTimeout(\n        () => {', '    if (timer === null) {\n      pendingArgs = args;\n      timer = window.setTimeout(\n        () => {')]),
    ('throttle no cooldown after trailing', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '            lastFireTime = Date.now();\n            (handler', '            (handler')]),
    ('throttle full wait', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', 'Math.max(0, intervalMs - elapsed),', 'intervalMs,')]),
    ('debounce not reset', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '    if (timer !== null) {\n      window.clearTimeout(timer);\n    }\n    timer = window', '    if (timer !== null) {\n      return;\n    }\n    timer = window')]),
    ('debounce first args', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '    pendingArgs = args;\n    if (timer !== null) {', '    pendingArgs = pendingArgs ?? args;\n    if (timer !== null) {')]),
    ('throttle shared timer', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '  let lastFireTime = 0;\n\n', '\n'), ('src/js/packages/@reactpy/client/src/components.tsx', 'function throttleHandler(', 'let lastFireTime = 0;\nfunction throttleHandler(')]),
    ('script all children', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '    if (scriptContent) {\n      scriptElement.appendChild(', '    if (scriptContent && !model.attributes?.src) {\n      scriptElement.appendChild(')]),
    ('child of the same kind of source', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', '    source1.source === source2.source &&\n    source1.sourceType === source2.sourceType', '    source1.source.length === source2.source.length')]),
    ('script never removed', 'same', [('src/js/packages/@reactpy/client/src/components.tsx', '      ref.current?.removeChild(scriptElement);', '')]),
    ('script once', 'same', [('src/js/packages/@reactpy/client/src/components.tsx', '  }, [model.attributes?.key]);', '  }, []);')]),
    ('import by url only', 'same', [('src/js/packages/@reactpy/client/src/vdom.tsx', 'vdomImportSource.sourceType === "URL"', 'vdomImportSource.sourceType !== "NAME"')]),
    ('import source swapped', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', 'vdomImportSource.sourceType === "URL"', 'vdomImportSource.sourceType === "NAME"')]),
    ('dotted last part', 'same', [('src/js/packages/@reactpy/client/src/vdom.tsx', 'Component = i == 0 ? module[iterAttr] : Component[iterAttr];', 'Component = i == 0 ? module[iterAttr] : module[iterAttr] ?? Component[iterAttr];')]),
    ('dotted only first', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', 'componentName.split(".")', 'componentName.split(".").slice(0, 2)')]),
    ('equal source ignores type', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', '    source1.source === source2.source &&\n    source1.sourceType === source2.sourceType', '    source1.sourceType === source2.sourceType')]),
    ('no unmount', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '        currentBinding.unmount();', '        void currentBinding;')]),
    ('unmounted flag ignored', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', 'if (!unmounted && mountPoint.current) {', 'if (mountPoint.current) {')]),
    ('render once', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '    binding.render(model);\n    if (vdomImportSource.unmountBeforeUpdate) {\n      return binding.unmount;\n    }\n  });', '    binding.render(model);\n    if (vdomImportSource.unmountBeforeUpdate) {\n      return binding.unmount;\n    }\n  }, [binding]);')]),
    ('always unmount before update', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', '    if (vdomImportSource.unmountBeforeUpdate) {\n      return binding.unmount;\n    }\n  });', '    return binding.unmount;\n  });')]),
    ('children of module children lost', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', '        ...props,\n        model: child,', '        ...props,\n        model: { ...child, children: [] },')]),
    ('text children dropped', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', '        case "string":\n          return child;', '        case "string":\n          return child.trim();')]),
    ('child stays mounted', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', '      this.binding.unmount();\n      this.binding = null;\n      this.currentImportSource = null;', '      this.binding = null;\n      this.currentImportSource = null;')]),
    ('child not updated', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', '    } else {\n      if (this.binding) {\n        this.binding.render(this._model);\n      }\n    }', '    }')]),
    
    ('inline this', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', 'return handleExecution.call(args[0].currentTarget, ...args);', 'return handleExecution(...args);')]),
    ('createChildren by map', 'same', [('src/js/packages/@reactpy/client/src/vdom.tsx', '    return model.children.map((child) => {\n      switch (typeof child) {\n        case "object":\n          return createChild(child);\n        case "string":\n          return child;\n      }\n    });', '    const out: (Child | string)[] = [];\n    for (const child of model.children) {\n      out.push(typeof child === "string" ? child : createChild(child));\n    }\n    return out;')]),
    ('throttle helper', 'same', [('src/js/packages/@reactpy/client/src/components.tsx', '  for (const [name, prop] of Object.entries(attrs)) {\n    if (typeof prop !== "function") {\n      continue;\n    }\n    const handler = prop as TaggedEventHandler;\n    if (!handler[HANDLER_MARKER]) {\n      continue;\n    }\n    const throttle = handler[HANDLER_THROTTLE];\n    if (isValidDebounce(throttle)) {\n      attrs[name] = throttleHandler(handler, throttle as number);\n    }\n  }', '  Object.keys(attrs).forEach((name) => {\n    const handler = attrs[name] as TaggedEventHandler;\n    if (typeof handler !== "function" || !handler[HANDLER_MARKER]) return;\n    const ms = handler[HANDLER_THROTTLE];\n    attrs[name] = isValidDebounce(ms) ? throttleHandler(handler, ms) : handler;\n  });')]),
    ('rest props', 'same', [('src/js/packages/@reactpy/client/src/components.tsx', '  const controlledProps: Record<string, any> = {};\n  for (const key of Object.keys(props as Record<string, any>)) {\n    if (key !== "value") {\n      controlledProps[key] = (props as Record<string, any>)[key];\n    }\n  }', '  const { value: _value, ...controlledProps } = props as Record<string, any>;')]),
    ('memo handlers', 'same', [('src/js/packages/@reactpy/client/src/components.tsx', '  const [, setValue] = useState(props.value);\n', ''), ('src/js/packages/@reactpy/client/src/components.tsx', '    setValue(props.value);\n  }, [props.value', '  }, [props.value')]),
    ('valid accepts strings', 'same', [('src/js/packages/@reactpy/client/src/handler.ts', 'typeof value === "number" &&', 'value !== null &&')]),
    ('zero throttle invalid', 'same', [('src/js/packages/@reactpy/client/src/handler.ts', 'value >= 0', 'value > 0')]),
    ('binding twice', 'bug', [('src/js/packages/@reactpy/client/src/components.tsx', 'vdomImportSourceJsonString, setBinding]', 'vdomImportSourceJsonString, setBinding, mountPoint.current]')]),
    ('special by importSource first', 'same', [('src/js/packages/@reactpy/client/src/components.tsx', '  if (model.tagName in SPECIAL_ELEMENTS) {\n    SpecializedElement =\n      SPECIAL_ELEMENTS[model.tagName as keyof typeof SPECIAL_ELEMENTS];\n  } else if (model.importSource) {\n    SpecializedElement = ImportedElement;\n  } else {', '  if (model.importSource) {\n    SpecializedElement = ImportedElement;\n  } else if (model.tagName in SPECIAL_ELEMENTS) {\n    SpecializedElement =\n      SPECIAL_ELEMENTS[model.tagName as keyof typeof SPECIAL_ELEMENTS];\n  } else {')]),
    ('child gone while loading', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', '          this.isConnected &&\n', '')]),
    ('child of former source', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', '          this.isConnected &&\n          this.currentImportSource &&\n          isImportSourceEqual(this.currentImportSource, newImportSource)\n', '          this.isConnected\n')]),
    ('child rendered with the model of the request', 'same', [('src/js/packages/@reactpy/client/src/vdom.tsx', '    const newImportSource = this._model.importSource;\n', '    const newImportSource = this._model.importSource;\n    const model = this._model;\n'), ('src/js/packages/@reactpy/client/src/vdom.tsx', '            this.binding.render(this._model);\n          }\n        }\n', '            this.binding.render(model);\n          }\n        }\n')]),
    ('source only', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', '    source1.source === source2.source &&\n    source1.sourceType === source2.sourceType\n', '    source1.source === source2.source\n')]),
    ('preact unmount', 'bug', [('src/js/packages/@reactpy/client/src/bind.tsx', '    unmount: () => preact.render(null, node),', '    unmount: () => {},')]),
    ('preact without children', 'bug', [('src/js/packages/@reactpy/client/src/bind.tsx', '      preact.createElement(type, props, ...(children || [])),', '      preact.createElement(type, props),')]),
    ('react root kept', 'bug', [('src/js/packages/@reactpy/client/src/bind.tsx', '        if (roots.get(node) === root) {\n          roots.delete(node);\n        }\n', '')]),
    ('react root variable kept', 'bug', [('src/js/packages/@reactpy/client/src/bind.tsx', '        root = null;\n', '')]),
    ('react new root each', 'bug', [('src/js/packages/@reactpy/client/src/bind.tsx', '      if (!root) {\n        if (!roots.get(node)) {', '      {\n        if (true) {')]),
    ('child not unmounted', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', '  disconnectedCallback() {\n    if (this.binding) {\n      this.binding.unmount();', '  disconnectedCallback() {\n    if (this.binding) {')]),
    ('child update lost', 'bug', [('src/js/packages/@reactpy/client/src/vdom.tsx', '    } else {\n      if (this.binding) {\n        this.binding.render(this._model);\n      }\n    }', '    }')]),
    ('react binding by if', 'same', [('src/js/packages/@reactpy/client/src/bind.tsx', '      if (!root) {\n        if (!roots.get(node)) {\n          root = ReactDOM.createRoot(node);\n          roots.set(node, root);\n        } else {\n          root = roots.get(node);\n        }\n      }\n\n      root.render(element);', '      root = root ?? roots.get(node);\n      if (!root) {\n        root = ReactDOM.createRoot(node);\n        roots.set(node, root);\n      }\n      root.render(element);')]),
    ('same source as one text', 'same', [('src/js/packages/@reactpy/client/src/vdom.tsx', '  return (\n    source1.source === source2.source &&\n    source1.sourceType === source2.sourceType\n  );', '  return stringifyImportSource(source1) === stringifyImportSource(source2);')]),
    ('child early return', 'same', [('src/js/packages/@reactpy/client/src/vdom.tsx', '    if (this.binding) {\n      this.binding.unmount();\n      this.binding = null;\n      this.currentImportSource = null;\n    }\n  }', '    const { binding } = this;\n    if (!binding) {\n      return;\n    }\n    this.binding = null;\n    this.currentImportSource = null;\n    binding.unmount();\n  }')]),
]
