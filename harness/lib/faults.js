'use strict';
// Damages projects: each fault returns {kind, files?, entry?, args?, loud?, same?, ...}
//   loud  the command has to fail
//   same  either it fails or the document is the one of the undamaged project
module.exports = (ts) => {
  const parse = (path, text) => ts.createSourceFile(path, text, ts.ScriptTarget.Latest, true);
  const star = (text) => /^export \*/m.test(text);
  const UNSUPPORTED = [
    'class {}', 'function () {}', 'await 0', '(1 + 2)', '!0', 'new Date()', '`x${1}`', '/x/', 'Math.PI', 'null', 'undefined', 'this', '(() => 1)()', '[1, 2]', '{}', 'Symbol()', '1n', 'a ? b : c', 'x++', 'void 0', '{ get x() { return 1; } }', '{ m() {} }', 'import.meta', '(0, 1)', 'globalThis.x', '"text"', '7', 'x?.y', 'x[0]', 'x["y"]', 'x.y.z.w', '{ ["a" + "b"]: 1 }', 'require("io-ts").string', '<any>x', 'x as any', 'x!', 'delete x.y',
  ];
  const TOKENS = ['{', '}', '(', ')', '[', ']', ',', ';', '=>', '...', "'", '`', '/*', '*/', '@', '#', '\\', 'const', 'export', 'import', '=', '?', '<', 'enum', '\u0000', '\uFFFD', '🙂', 'é', '0x', '1_'];

  /** identifiers that are read: [start, end, text] */
  function reads(path, text) {
    const out = [];
    const visit = (n) => {
      if (ts.isTypeNode(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) return;
      if (ts.isIdentifier(n)) {
        const p = n.parent;
        const isName =
          (ts.isVariableDeclaration(p) && p.name === n) || (ts.isPropertyAssignment(p) && p.name === n) || (ts.isPropertyAccessExpression(p) && p.name === n) || (ts.isParameter(p) && p.name === n) || ts.isEnumDeclaration(p) || (ts.isEnumMember(p) && p.name === n) || ts.isFunctionDeclaration(p) || ts.isClassDeclaration(p) || (ts.isMethodDeclaration(p) && p.name === n) || ts.isShorthandPropertyAssignment(p);
        if (!isName && n.text !== 'undefined') out.push({ start: n.getStart(), end: n.end, text: n.text });
        return;
      }
      ts.forEachChild(n, visit);
    };
    visit(parse(path, text));
    return out;
  }
  /** expressions within declarations */
  function expressions(path, text) {
    const out = [];
    const visit = (n) => {
      if (ts.isTypeNode(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n) || ts.isEnumDeclaration(n)) return;
      if (ts.isExpression(n)) {
        const p = n.parent;
        const value = (ts.isPropertyAssignment(p) && p.initializer === n) || (ts.isCallExpression(p) && p.arguments.includes(n)) || ts.isArrayLiteralExpression(p) || (ts.isVariableDeclaration(p) && p.initializer === n) || (ts.isSpreadAssignment(p)) || (ts.isArrowFunction(p) && p.body === n) || ts.isReturnStatement(p) || (ts.isCallExpression(p) && p.expression === n);
        if (value) out.push({ start: n.getStart(), end: n.end, text: n.getText(), callee: ts.isCallExpression(p) && p.expression === n });
      }
      ts.forEachChild(n, visit);
    };
    visit(parse(path, text));
    return out;
  }
  function statements(path, text) {
    return parse(path, text).statements.map((s) => ({ start: s.getFullStart(), end: s.end, node: s, kind: ts.SyntaxKind[s.kind] }));
  }
  /** what routes and specifications are made of: {start, end, text, kind, node} */
  function parts(path, text) {
    const out = [];
    const calls = (n, name) => ts.isCallExpression(n) && new RegExp(`(^|[._])${name}(_\\d+)?$`).test(n.expression.getText()) && n.arguments.length === 1;
    const add = (kind, p) => out.push({ start: p.getStart(), end: p.end, text: p.getText(), kind, key: p.name.getText(), value: { start: p.initializer.getStart(), end: p.initializer.end, text: p.initializer.getText() } });
    const props = (o) => (o && ts.isObjectLiteralExpression(o) ? o.properties.filter((p) => ts.isPropertyAssignment(p)) : []);
    const visit = (n) => {
      if (calls(n, 'apiSpec')) {
        for (const p of props(n.arguments[0])) {
          add('action', p);
          for (const q of props(p.initializer)) add('route', q);
        }
      } else if (calls(n, 'httpRoute')) {
        for (const p of props(n.arguments[0])) {
          add(p.name.getText(), p);
          if (p.name.getText() === 'response') for (const q of props(p.initializer)) add('status', q);
        }
      } else if (calls(n, 'httpRequest')) {
        for (const p of props(n.arguments[0])) {
          add('section', p);
          for (const q of props(p.initializer)) add('parameter', q);
        }
      } else if (ts.isObjectLiteralExpression(n) && ts.isCallExpression(n.parent)) for (const p of props(n)) add('property', p);
      ts.forEachChild(n, visit);
    };
    visit(parse(path, text));
    return out;
  }
  const pickPart = (rng, P, kinds) => {
    const all = P.ts.flatMap((f) => parts(f, P.files[f]).map((x) => ({ ...x, file: f })));
    const found = kinds.filter((k) => all.some((x) => x.kind === k));
    if (!found.length) return undefined;
    const kind = rng.pick(found);
    return rng.pick(all.filter((x) => x.kind === kind));
  };
  const splice = (text, s, by) => text.slice(0, s.start) + by + text.slice(s.end);

  const KINDS = {
    // ------------------------------------------------------------ names
    'undeclared name': (rng, P) => {
      const f = rng.pick(P.ts);
      const l = reads(f, P.files[f]);
      if (!l.length) return;
      const s = rng.pick(l);
      return { ...P.with(f, splice(P.files[f], s, 'nowhere_declared')), same: true, note: s.text };
    },
    'import removed': (rng, P) => {
      const f = rng.pick(P.ts);
      const l = statements(f, P.files[f]).filter((s) => s.kind === 'ImportDeclaration');
      if (!l.length) return;
      const s = rng.pick(l);
      return { ...P.with(f, splice(P.files[f], s, '')), same: true, note: s.node.getText() };
    },
    'declaration removed': (rng, P) => {
      const f = rng.pick(P.ts);
      const l = statements(f, P.files[f]).filter((s) => /^(VariableStatement|EnumDeclaration|FirstStatement)$/.test(s.kind) && !/__spec|apiSpec/.test(s.node.getText()));
      if (!l.length) return;
      const s = rng.pick(l);
      return { ...P.with(f, splice(P.files[f], s, '')), same: !star(P.files[f]), note: s.node.getText().slice(0, 60) };
    },
    'export removed': (rng, P) => {
      const f = rng.pick(P.ts.filter((x) => x !== 'index.ts'));
      if (!f) return;
      const text = P.files[f];
      const at = [...text.matchAll(/^export (?=const|enum|function)/gm)];
      const re = [...text.matchAll(/^export [{*][^;]*;/gm)];
      const s = rng.pick([...at, ...re]);
      if (!s) return;
      return { ...P.with(f, splice(text, { start: s.index, end: s.index + s[0].length }, '')), same: !star(text), note: s[0] };
    },
    'imported name changed': (rng, P) => {
      const f = rng.pick(P.ts);
      const text = P.files[f];
      const s = rng.pick([...text.matchAll(/(?<=^(?:import|export) \{ )\w+/gm)]);
      if (!s || s[0] === 'default') return;
      if (/^export/.test(text.slice(text.lastIndexOf('\n', s.index) + 1)) && star(text)) return;
      const by = /^export/.test(text.slice(text.lastIndexOf('\n', s.index) + 1)) || / as /.test(text.slice(s.index, text.indexOf('}', s.index))) ? 'nowhere_exported' : `nowhere_exported as ${s[0]}`;
      return { ...P.with(f, splice(text, { start: s.index, end: s.index + s[0].length }, by)), same: true, note: s[0] };
    },
    'imported from nowhere': (rng, P) => {
      const f = rng.pick(P.ts);
      const text = P.files[f];
      const s = rng.pick([...text.matchAll(/(?<= from ')[^']+/g)]);
      if (!s) return;
      return { ...P.with(f, splice(text, { start: s.index, end: s.index + s[0].length }, rng.pick(['./nowhere', '../nowhere/x', 'no-such-package', '@no/such', '.', './', '/nowhere', 'fs', '']))), same: true, note: s[0] };
    },
    'member name changed': (rng, P) => {
      const f = rng.pick(P.ts);
      const text = P.files[f];
      const s = rng.pick([...text.matchAll(/(?<=\b(?:ns|m|Shared|other|Foo\w*|Bar\w*|Item\w*|User\w*)\.)\w+/g)]);
      if (!s) return;
      return { ...P.with(f, splice(text, { start: s.index, end: s.index + s[0].length }, 'nowhere_exported')), same: true, note: s[0] };
    },
    // ------------------------------------------------------------ files
    'file missing': (rng, P) => {
      const f = rng.pick(P.ts.filter((x) => x !== 'index.ts'));
      if (!f) return;
      const files = { ...P.files };
      delete files[f];
      return { files, same: true, note: f };
    },
    'file replaced': (rng, P) => {
      const f = rng.pick(P.ts);
      return { ...P.with(f, rng.pick(['', '\n\n', '// nothing\n', '\u0000\u0001\u0002', '{"json": true}', 'PK\u0003\u0004', '<html></html>', '#!/bin/sh\nexit 0\n', 'export default 1;\n', 'export {};\n', '\uFEFF', 'module.exports = {};\n'])), same: f !== 'index.ts', loud: f === 'index.ts', note: f };
    },
    'file not utf-8': (rng, P) => {
      const f = rng.pick(P.ts);
      const b = Buffer.from(P.files[f]);
      for (let i = rng.int(1, 4); i > 0; i--) b[rng.int(0, b.length - 1)] = rng.int(128, 255);
      return { ...P.with(f, b), note: f };
    },
    'file is a directory': (rng, P) => {
      const f = rng.pick(P.ts);
      const files = { ...P.files };
      delete files[f];
      files[f + '/x.txt'] = '';
      return { files, same: f !== 'index.ts', loud: f === 'index.ts', note: f };
    },
    'file cut short': (rng, P) => {
      const f = rng.pick(P.ts);
      return { ...P.with(f, P.files[f].slice(0, rng.int(0, P.files[f].length - 1))), note: f };
    },
    'package damaged': (rng, P) => {
      const f = rng.pick(Object.keys(P.files).filter((x) => x.endsWith('package.json')));
      if (!f) return;
      const by = rng.pick(['', '{', '[]', 'null', '"x"', '{}', '{"name": "x"}', '{"types": 5}', '{"types": "nowhere.ts"}', '{"source": "."}', '{"customCodecFile": "nowhere.js"}', '{"types": null, "typings": ""}']);
      return { ...P.with(f, by), note: f + ' ' + by };
    },
    'project package damaged': (rng, P) => {
      const by = rng.pick(['', '{', '[]', 'null', '"x"', '5', '{"version": {}}', '{"name": 5}', '{"openapi-generator": {"codec-file": "nowhere.js"}}', '{"openapi-generator": {"codec-file": 5}}', '{"openapi-generator": null}', '{"openapi-generator": {"codec-file": "codecs.js"}}', '{"openapi-generator": []}', '{"description": null}']);
      const codecs = rng.pick(['', 'module.exports = 5;', 'exports.default = 5;', 'exports.default = () => { throw new Error("no"); };', 'exports.default = () => 5;', 'exports.default = () => undefined;', 'exports.default = () => ({ "io-ts": 5 });', 'exports.default = (', 'throw new Error("no");', 'exports.default = () => ({ "io-ts": { string: () => { throw new Error("no"); } } });', 'exports.default = (E) => ({ "io-ts": { string: () => E.left("no") } });', 'process.exitCode = 0; exports.default = () => new Promise(() => {});']);
      return { files: { ...P.files, 'package.json': by, 'codecs.js': codecs }, note: by + ' ' + codecs };
    },
    // ------------------------------------------------------------ text
    'token inserted': (rng, P) => {
      const f = rng.pick(P.ts);
      const at = rng.int(0, P.files[f].length);
      const by = rng.pick(TOKENS);
      return { ...P.with(f, splice(P.files[f], { start: at, end: at }, by)), note: by };
    },
    'text removed': (rng, P) => {
      const f = rng.pick(P.ts);
      const at = rng.int(0, P.files[f].length - 1);
      const end = at + rng.weighted([[3, 1], [2, rng.int(1, 10)], [1, rng.int(1, 200)]]);
      return { ...P.with(f, splice(P.files[f], { start: at, end }, '')), note: P.files[f].slice(at, end) };
    },
    // ------------------------------------------------------------ constructs
    'unsupported construct': (rng, P) => {
      const f = rng.pick(P.ts);
      const l = expressions(f, P.files[f]);
      if (!l.length) return;
      const s = rng.pick(l);
      const by = rng.pick(UNSUPPORTED);
      return { ...P.with(f, splice(P.files[f], s, s.callee ? `(${by})` : by)), operations: by !== '{}', note: `${s.text.slice(0, 60)} => ${by}` };
    },
    'property of an unsupported kind': (rng, P) => {
      const f = rng.pick(P.ts);
      const text = P.files[f];
      const s = rng.pick([...text.matchAll(/\{\n/g)]);
      if (!s || /(?:enum \w+|import|export) $/.test(text.slice(0, s.index))) return;
      const by = rng.pick(['get own() { return 1; },', 'own() {},', '[`a${1}`]: 1,', '...nowhere,', '...{},', '[Symbol.iterator]: 1,', 'nowhere,', '...[1],', '1n: 2,', 'async own() {},', '...(() => ({}))(),', "['own' + 1]: 2,", '...null,']);
      return { ...P.with(f, splice(text, { start: s.index, end: s.index + 2 }, '{\n' + by + '\n')), same: true, note: by };
    },
    // ------------------------------------------------------------ the same, said in a way that may not be understood
    'property in another form': (rng, P) => {
      const s = pickPart(rng, P, ['action', 'route', 'path', 'method', 'request', 'response', 'status', 'section', 'parameter', 'property']);
      if (!s) return;
      const { key: k, value: { text: V } } = s;
      const name = /^['"\d]/.test(k) ? k : `'${k}'`;
      const by = rng.pick([`get ${k}() { return ${V}; }`, `[${name}]: ${V}`, `['' + ${name}]: ${V}`, `...{ ${k}: ${V} }`, `...(true ? { ${k}: ${V} } : {})`, `...Object.assign({}, { ${k}: ${V} })`, `...{ get ${k}() { return ${V}; } }`, `...[{ ${k}: ${V} }][0]`, `...(() => ({ ${k}: ${V} }))()`, `...{ ...{ ${k}: ${V} } }`, `${k}: ${V}, get [Symbol.toStringTag]() { return 'x'; }`]);
      return { ...P.with(s.file, splice(P.files[s.file], s, by)), same: true, note: `${s.kind}: ${by}` };
    },
    'entry in another form': (rng, P) => {
      const s = pickPart(rng, P, ['action', 'route']);
      if (!s) return;
      const { key: k, value: { text: V } } = s;
      const text = P.files[s.file];
      if (/^\w+$/.test(k) && !/^\d/.test(k) && !new RegExp(`\\b${k}\\b`).test(text.slice(0, s.start) + text.slice(s.end)) && rng.chance(0.5)) {
        // declared outside, and named
        const at = statements(s.file, text).find((x) => x.start <= s.start && s.end <= x.end).node.getStart();
        const [how, note] = rng.pick([[`const ${k} = ${V};\n`, 'shorthand'], [`let ${k} = ${V};\n`, 'shorthand'], [`const { ${k} } = { ${k}: ${V} };\n`, 'shorthand of a pattern']]);
        const named = rng.chance(0.7) ? k : rng.pick([`'${k}': ${k}`, `...{ ${k} }`]);
        return { ...P.with(s.file, text.slice(0, at) + how + text.slice(at, s.start) + named + text.slice(s.end)), same: true, note: `${s.kind}: ${note} ${named}` };
      }
      const [by, same] = rng.pick([[`get ${k}() { return ${V}; }`, true], [`get ${k}() { return ${V}; }`, true], [`${k}() { return ${V}; }`, false], [`get ${k}() { return ${V}; }, set ${k}(v) {}`, true], [`${k}: undefined, get ${k}() { return ${V}; }`, false]]);
      return { ...P.with(s.file, splice(text, s, by)), same, note: `${s.kind}: ${by.slice(0, 200)}` };
    },
    'value in another form': (rng, P) => {
      const s = pickPart(rng, P, ['action', 'route', 'path', 'method', 'request', 'response', 'section']);
      if (!s) return;
      const V = s.value.text;
      const by = rng.pick([`(() => ${V.startsWith('{') ? `(${V})` : V})()`, `Object.freeze(${V})`, `true ? ${V} : ${V}`, `[${V}][0]`, `(${V})`, `(0, ${V})`, `{ v: ${V} }.v`, `${V} || ${V}`, `${V} && ${V}`, `${V} ?? ${V}`, `(function () { return ${V}; })()`, `${V} as any`, `<any>${V}`, `(${V})!`]);
      return { ...P.with(s.file, splice(P.files[s.file], s.value, by)), same: true, note: `${s.kind}: ${by}` };
    },
    'no route': (rng, P) => {
      const s = pickPart(rng, P, ['action', 'route', 'path', 'method', 'response']);
      if (!s) return;
      const by = rng.pick(['7', 'null', 'undefined', 'class {}', 'function () {}', '[1, 2]', 'new Date()', '(() => 1)()', 'Math.PI', '!0', 'void 0', 'nowhere', '1n', '() => ({})', ...(['path', 'method'].includes(s.kind) ? ['{}'] : ['"text"', '`text`'])]);
      return { ...P.with(s.file, splice(P.files[s.file], s.value, by)), loud: true, note: `${s.kind}: ${by}` };
    },
    'route without': (rng, P) => {
      const s = pickPart(rng, P, ['path', 'method', 'request', 'response']);
      if (!s) return;
      const text = P.files[s.file];
      const end = text[s.end] === ',' ? s.end + 1 : s.end;
      return { ...P.with(s.file, splice(text, { start: s.start, end }, '')), loud: true, note: s.kind };
    },
    // ------------------------------------------------------------ cycles
    'declaration referring to itself': (rng, P) => {
      const f = rng.pick(P.ts);
      const text = P.files[f];
      const l = statements(f, text).filter((s) => ts.isVariableStatement(s.node));
      const d = rng.pick(l);
      if (!d) return;
      const name = d.node.declarationList.declarations[0].name.text;
      const inside = expressions(f, text).filter((e) => e.start >= d.start && e.end <= d.end && !e.callee);
      const e = rng.pick(inside);
      if (!e) return;
      return { ...P.with(f, splice(text, e, name)), note: `${name} within itself` };
    },
    'declarations referring to each other': (rng, P) => {
      const f = rng.pick(P.ts);
      const text = P.files[f];
      const l = statements(f, text).filter((s) => ts.isVariableStatement(s.node));
      if (l.length < 2) return;
      const [i, j] = rng.sample(l.map((_, k) => k), 2).sort((a, b) => a - b);
      const inside = expressions(f, text).filter((e) => e.start >= l[i].start && e.end <= l[i].end && !e.callee);
      const e = rng.pick(inside);
      if (!e) return;
      const name = l[j].node.declarationList.declarations[0].name.text;
      return { ...P.with(f, splice(text, e, name)), note: `earlier declaration refers to ${name}` };
    },
    'files exporting each other': (rng, P) => {
      const [a, b] = P.ts.length > 1 ? rng.sample(P.ts, 2) : [P.ts[0], P.ts[0]];
      const rel = (x, y) => {
        const r = require('path').posix.relative(require('path').posix.dirname(x), y).replace(/\.ts$/, '');
        return r.startsWith('.') ? r : './' + r;
      };
      const how = () => rng.pick(["export * from '", "import '", "import * as cyc_ from '", "export * as cyc_ from '", "export { nowhere_ } from '", "import { nowhere_ as again_ } from '"]);
      return { files: { ...P.files, [a]: P.files[a] + `\n${how()}${rel(a, b)}';\n`, [b]: (a === b ? '' : P.files[b]) + (a === b ? P.files[a] + `\nexport * from '${rel(a, a)}';\n` : `\n${how()}${rel(b, a)}';\n`) }, same: true, note: `${a} and ${b}` };
    },
    'deep nesting': (rng, P) => {
      const f = 'index.ts';
      const l = expressions(f, P.files[f]).filter((e) => !e.callee && /^\w+\.(string|number|boolean|type|array)\b|^(string|number|array|type)\b/.test(e.text));
      const e = rng.pick(l);
      if (!e) return;
      const k = rng.pick([20, 50, 150, 300]);
      const how = rng.pick([['deep_.array(', ')'], ['deep_.type({ x: ', ' })'], ['(', ')'], ['deep_.union([', '])']]);
      return { ...P.with(f, `import * as deep_ from 'io-ts';\n` + splice(P.files[f], e, how[0].repeat(k) + e.text + how[1].repeat(k))), operations: true, note: `${how[0]} ${k} times` };
    },
    // ------------------------------------------------------------ the command line
    'arguments': (rng, P) => {
      const one = rng.pick([
        { argv: [], loud: true }, { argv: ['nowhere.ts'], loud: true }, { argv: ['.'], loud: true }, { argv: ['index'], loud: true }, { argv: ['package.json'], loud: true }, { argv: ['index.ts', 'index.ts'], loud: true }, { argv: ['index.ts', '--nowhere'], loud: true }, { argv: ['index.ts', '-c', 'nowhere.js'], loud: true }, { argv: ['index.ts', '-c'] }, { argv: ['index.ts', '--codec-file', 'bad.js'], loud: true }, { argv: ['/dev/null'], loud: true }, { argv: [''], loud: true }, { argv: ['index.ts', '--name'] },
        { argv: ['index.ts', '-n', ''] }, { argv: ['index.ts', '-v', 'x\ny"'] }, { argv: ['index.ts', '--description', '\u{1F642} \\ "quoted"'] }, { argv: ['./index.ts', '-n', '--', ] }, { argv: ['--', 'index.ts'] }, { argv: ['index.ts', '-n', 'a', '-n', 'b'] }, { argv: ['index.ts', '-c', 'good.js'] },
      ]);
      return { files: { ...P.files, 'bad.js': rng.pick(['', 'exports.default = 5', 'throw 1', 'exports.default = () => { throw 1; }', 'exports.x = 1', 'syntax error']), 'good.js': 'exports.default = () => ({});' }, argv: one.argv, loud: one.loud, same: !one.loud && /good/.test(one.argv), note: one.argv.join(' ') };
    },
    'output refused': (rng, P) => ({ files: P.files, stdout: rng.pick(['full', 'broken']), loud: true }),
  };
  /** how many calls there are of what is imported as io-ts-http's apiSpec: what is not is no specification, whatever its name */
  const specCalls = (files) => {
    let count = 0;
    for (const [path, content] of Object.entries(files)) {
      if (!path.endsWith('.ts') || typeof content !== 'string') continue;
      const file = parse(path, content);
      const names = new Set();
      const spaces = new Set();
      for (const s of file.statements) {
        if (!ts.isImportDeclaration(s) || s.moduleSpecifier.text !== '@api-ts/io-ts-http' || !s.importClause) continue;
        const b = s.importClause.namedBindings;
        if (s.importClause.name) spaces.add(s.importClause.name.text);
        if (b && ts.isNamespaceImport(b)) spaces.add(b.name.text);
        if (b && ts.isNamedImports(b)) for (const e of b.elements) if ((e.propertyName || e.name).text === 'apiSpec') names.add(e.name.text);
      }
      const visit = (n) => {
        if (ts.isCallExpression(n)) {
          const c = n.expression;
          if (ts.isIdentifier(c) ? names.has(c.text) : ts.isPropertyAccessExpression(c) && c.name.text === 'apiSpec' && spaces.has(c.expression.getText())) count++;
        }
        ts.forEachChild(n, visit);
      };
      visit(file);
    }
    return count;
  };
  return { KINDS, specCalls, parts, reads, expressions, statements };
};
