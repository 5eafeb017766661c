CASES = [
    ('visited never left', 'bug', [('src/js/packages/event-to-object/src/index.ts', '  } finally {\n    visited.delete(x);\n  }', '  } finally {\n    // keep\n  }')]),
    ('visited not checked', 'bug', [('src/js/packages/event-to-object/src/index.ts', '  if (visited.has(x)) {\n    return maxDepthSignal;\n  }\n', '')]),
    ('no depth', 'bug', [('src/js/packages/event-to-object/src/index.ts', 'const maxDepth = _maxDepth - 1;', 'const maxDepth = _maxDepth;')]),
    ('no depth no visited', 'bug', [('src/js/packages/event-to-object/src/index.ts', 'const maxDepth = _maxDepth - 1;', 'const maxDepth = _maxDepth;'), ('src/js/packages/event-to-object/src/index.ts', '  if (visited.has(x)) {\n    return maxDepthSignal;\n  }\n', '')]),
    ('falsy skipped', 'bug', [('src/js/packages/event-to-object/src/index.ts', '    value === null ||\n    value === undefined ||', '    !value ||')]),
    ('zero skipped', 'bug', [('src/js/packages/event-to-object/src/index.ts', '    value === null ||\n    value === undefined ||', '    value === null ||\n    value === 0 ||\n    value === undefined ||')]),
    ('own keys only', 'bug', [('src/js/packages/event-to-object/src/index.ts', '  for (const key in classObject) {', '  for (const key of Object.keys(classObject)) {')]),
    ('own keys only nested', 'bug', [('src/js/packages/event-to-object/src/index.ts', '  for (const key in x) {', '  for (const key of Object.keys(x)) {')]),
    ('try around loop', 'bug', [('src/js/packages/event-to-object/src/index.ts', '    // Skip keys that cannot be converted\n    try {', '    try {'), ('src/js/packages/event-to-object/src/index.ts', '    } catch {\n      continue;\n    }\n  }\n\n  // Special case', '    } catch {\n      break;\n    }\n  }\n\n  // Special case')]),
    ('extra truthy', 'bug', [('src/js/packages/event-to-object/src/index.ts', '      if (!shouldIgnoreValue(val, prop, x)) {', '      if (val && !shouldIgnoreValue(val, prop, x)) {')]),
    ('no checked', 'bug', [('src/js/packages/event-to-object/src/index.ts', '["value", "checked", "files", "type", "name"]', '["value", "files", "type", "name"]')]),
    ('array skips falsy', 'bug', [('src/js/packages/event-to-object/src/index.ts', '    if (shouldIgnoreValue(x[i])) {', '    if (!x[i]) {')]),
    ('array of signal', 'bug', [('src/js/packages/event-to-object/src/index.ts', '      if (converted !== maxDepthSignal) {\n        result.push(converted);\n      }', '      result.push(converted);')]),
    ('signal in result', 'bug', [('src/js/packages/event-to-object/src/index.ts', '        if (result !== maxDepthSignal) {\n          convertedObj[key] = result;\n        }', '        convertedObj[key] = result;')]),
    ('selection objects raw', 'bug', [('src/js/packages/event-to-object/src/index.ts', '    anchorNode: selection.anchorNode\n      ? deepCloneClass(selection.anchorNode, maxDepth, visited)\n      : null,', '    anchorNode: selection.anchorNode,')]),
    ('form all names', 'same', [('src/js/packages/event-to-object/src/index.ts', '        element.name &&\n', '')]),
    ('form values lost', 'bug', [('src/js/packages/event-to-object/src/index.ts', 'if (FormClass && x instanceof FormClass && x.elements) {', 'if (FormClass && x instanceof FormClass && x.elements && !x.id) {')]),
    ('dataset not explicit', 'bug', [('src/js/packages/event-to-object/src/index.ts', '    "dataset" in x &&', '    "dataset" in result &&')]),
    ('functions kept', 'same', [('src/js/packages/event-to-object/src/index.ts', '    typeof value === "function" ||\n', '')]),
    ('view kept', 'bug', [('src/js/packages/event-to-object/src/index.ts', '    keyName === "view" ||\n', ''), ('src/js/packages/event-to-object/src/index.ts', '    value instanceof Window ||\n', '')]),
    ('uppercase', 'bug', [('src/js/packages/event-to-object/src/index.ts', '/^[A-Z_]+$/', '/^[A-Za-z_]+$/')]),
    ('depth default 2', 'bug', [('src/js/packages/event-to-object/src/index.ts', 'maxDepth: number = 10,', 'maxDepth: number = 3,')]),
    ('files shallow', 'bug', [('src/js/packages/event-to-object/src/index.ts', 'prop === "files" ? Math.max(maxDepth, 3) : maxDepth', 'prop === "files" ? 2 : maxDepth')]),
    ('set for visited', 'same', [('src/js/packages/event-to-object/src/index.ts', 'const visited = new WeakSet<any>();', 'const visited: any = new Set<any>();')]),
    ('entries helper', 'same', [('src/js/packages/event-to-object/src/index.ts', '        const result = deepCloneClass(classObject[key], maxDepth, visited);\n        if (result !== maxDepthSignal) {\n          convertedObj[key] = result;\n        }', '        const value = deepCloneClass(classObject[key], maxDepth, visited);\n        if (value === maxDepthSignal) continue;\n        convertedObj[key] = value;')]),
    ('switch of types', 'same', [('src/js/packages/event-to-object/src/index.ts', '  for (let i = 0; i < x.length; i++) {\n    // Skip anything that should not be converted\n    if (shouldIgnoreValue(x[i])) {\n      continue;\n    }\n    // Only push objects as if we haven\'t reached max depth\n    else if (typeof x[i] === "object") {\n      const converted = deepCloneClass(x[i], maxDepth, visited);\n      if (converted !== maxDepthSignal) {\n        result.push(converted);\n      }\n    }\n    // Add plain values if not skippable\n    else {\n      result.push(x[i]);\n    }\n  }\n  return result;', '  Array.from(x as ArrayLike<any>).forEach((item: any) => {\n    if (shouldIgnoreValue(item)) return;\n    const converted = typeof item === "object" ? deepCloneClass(item, maxDepth, visited) : item;\n    if (converted !== maxDepthSignal) result.push(converted);\n  });\n  return result;')]),
    ('list of names as a set', 'same', [('src/js/packages/event-to-object/src/index.ts', '      // Recursive properties\n      (keyName === "parentNode" ||', '      // Recursive properties\n      (new Set(["parentNode"]).has(keyName) ||')]),
    ('mutates event', 'same', [('src/js/packages/event-to-object/src/index.ts', '  visited.add(classObject);\n', '  visited.add(classObject);\n  delete classObject["view"];\n')]),
    ('stringify target', 'bug', [('src/js/packages/event-to-object/src/index.ts', '  if (!x || typeof x !== "object") {\n    return x;\n  }\n\n  if (visited', '  if (!x || typeof x !== "object" || x instanceof Node) {\n    return x;\n  }\n\n  if (visited')]),
    ('bad property ends object', 'bug', [('src/js/packages/event-to-object/src/index.ts', '        result[key] = x[key];\n      }\n    } catch {\n      continue;\n    }\n  }\n', '        result[key] = x[key];\n      }\n    } catch {\n      break;\n    }\n  }\n')]),
]
