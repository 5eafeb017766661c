// Syntax trees of TypeScript sources, types left out: {file: text} on stdin -> {file: tree} on stdout.
const { createRequire } = require("module");
let ts;
for (const base of ["/opt/veriftools/node/node_modules/", "/usr/lib/node_modules/", "/usr/local/lib/node_modules/"]) {
  try { ts = createRequire(base)("typescript"); break; } catch {}
}
if (!ts) ts = require("typescript");
const SKIP = new Set(["parent", "flags", "pos", "end", "kind", "id", "jsDoc", "typeParameters", "typeArguments", "modifierFlagsCache", "transformFlags", "flowNode", "endFlowNode", "symbol", "localSymbol", "locals", "nextContainer", "emitNode", "original", "illegalDecorators", "exclamationToken", "assertClause", "attributes_", "facadeImmutable", "questionToken", "multiLine", "hasExtendedUnicodeEscape", "singleQuote", "resolvedSymbol", "returnFlowNode", "isReferenced", "hasTrailingComma", "typeExpression"]);
const K = ts.SyntaxKind;
const names = {};
for (const k of Object.keys(K)) if (isNaN(+k) && !(K[k] in names)) names[K[k]] = k;
names[K.NumericLiteral] = "NumericLiteral"; names[K.StringLiteral] = "StringLiteral"; names[K.VariableStatement] = "VariableStatement";
names[K.Identifier] = "Identifier"; names[K.RegularExpressionLiteral] = "RegularExpressionLiteral"; names[K.NoSubstitutionTemplateLiteral] = "NoSubstitutionTemplateLiteral"; names[K.TemplateHead] = "TemplateHead"; names[K.TemplateMiddle] = "TemplateMiddle"; names[K.TemplateTail] = "TemplateTail"; names[K.BigIntLiteral] = "BigIntLiteral"; names[K.JsxText] = "JsxText";
function dump(n, sf) {
  switch (n.kind) {
    case K.AsExpression: case K.SatisfiesExpression: case K.NonNullExpression: case K.TypeAssertionExpression: case K.ParenthesizedExpression: case K.ExpressionWithTypeArguments:
      return dump(n.expression, sf);
    case K.InterfaceDeclaration: case K.TypeAliasDeclaration: return { k: "EmptyStatement" };
  }
  const o = { k: names[n.kind], l: sf.getLineAndCharacterOfPosition(n.getStart(sf, false)).line + 1 };
  if (n.kind === K.Identifier || n.kind === K.PrivateIdentifier) { o.text = n.text; return o; }
  if (typeof n.text === "string" && n.kind !== K.SourceFile) o.text = n.text;
  if (n.kind === K.NumericLiteral) { o.num = +n.text; return o; }
  for (const key of Object.keys(n)) {
    if (SKIP.has(key) || key === "text") continue;
    const v = n[key];
    if (key === "type" && n.kind !== K.ImportType) continue;
    if (v && typeof v === "object" && typeof v.kind === "number" && typeof v.getStart === "function") o[key] = dump(v, sf);
    else if (Array.isArray(v) && v.every((x) => x && typeof x.kind === "number")) o[key] = key === "modifiers" ? v.map((x) => names[x.kind]) : v.map((x) => dump(x, sf));
    else if (key === "operator" && typeof v === "number") o.op = ts.tokenToString(v);
    else if (["isTypeOf", "isExportEquals", "isTypeOnly"].includes(key)) o[key] = v;
  }
  if (n.kind === K.VariableDeclarationList) o.decl = n.flags & ts.NodeFlags.Const ? "const" : n.flags & ts.NodeFlags.Let ? "let" : "var";
  if (n.kind === K.HeritageClause) o.token = n.token === K.ExtendsKeyword ? "extends" : "implements";
  if (n.kind === K.BinaryExpression) { o.op = ts.tokenToString(n.operatorToken.kind); delete o.operatorToken; }
  if (n.kind === K.PrefixUnaryExpression || n.kind === K.PostfixUnaryExpression) o.op = ts.tokenToString(n.operator);
  return o;
}
let s = "";
process.stdin.setEncoding("utf8");
process.stdin.on("data", (d) => (s += d)).on("end", () => {
  const out = {};
  for (const [f, text] of Object.entries(JSON.parse(s))) {
    const sf = ts.createSourceFile(f, text, ts.ScriptTarget.ES2022, true, f.endsWith("x") ? ts.ScriptKind.TSX : ts.ScriptKind.TS);
    out[f] = sf.parseDiagnostics.length ? { k: "Broken", text: ts.flattenDiagnosticMessageText(sf.parseDiagnostics[0].messageText, " ") } : dump(sf, sf);
  }
  process.stdout.write(JSON.stringify(out));
});
