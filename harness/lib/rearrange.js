'use strict';
// Rearrangements of TypeScript sources that leave what they say alone.
// Every operation takes {files, entry} and changes it in place; it returns undefined if
// there was nothing to do, otherwise {op, detail, renames}, where `renames` tells that the
// names of components may differ.
const path = require('path').posix;

module.exports = (ts) => {
  const parse = (p, text) => ts.createSourceFile(p, text, ts.ScriptTarget.Latest, true, ts.ScriptKind.TS);
  const isTs = (p) => p.endsWith('.ts');
  const own = (p) => isTs(p) && !p.startsWith('node_modules/');
  const tsFiles = (s) => Object.keys(s.files).filter(isTs);
  const ownFiles = (s) => Object.keys(s.files).filter(own);

  function apply(text, edits) {
    edits.sort((a, b) => b[0] - a[0] || b[1] - a[1]);
    for (const [from, to, x] of edits) text = text.slice(0, from) + x + text.slice(to);
    return text;
  }
  function chunks(p, text) {
    const sf = parse(p, text);
    const list = sf.statements.map((node) => {
      const declares = [];
      if (ts.isVariableStatement(node)) for (const d of node.declarationList.declarations) if (ts.isIdentifier(d.name)) declares.push(d.name.text);
      if ((ts.isEnumDeclaration(node) || ts.isFunctionDeclaration(node)) && node.name) declares.push(node.name.text);
      return {
        node,
        text: text.slice(node.getFullStart(), node.end),
        isImport: ts.isImportDeclaration(node),
        isExport: ts.isExportDeclaration(node),
        isType: ts.isTypeAliasDeclaration(node) || ts.isInterfaceDeclaration(node),
        declares,
        uses: identifiers(node),
      };
    });
    return { sf, list, tail: text.slice(sf.statements.length ? sf.statements[sf.statements.length - 1].end : 0) };
  }
  /** names used as values of the file's scope */
  function identifiers(node) {
    const out = new Set();
    const walk = (n) => {
      if (ts.isIdentifier(n) && !isKey(n)) out.add(n.text);
      ts.forEachChild(n, walk);
    };
    walk(node);
    return out;
  }
  function isKey(n) {
    const p = n.parent;
    if (!p) return false;
    if (ts.isPropertyAccessExpression(p)) return p.name === n;
    if (ts.isQualifiedName(p)) return p.right === n;
    if (ts.isPropertyAssignment(p) || ts.isEnumMember(p) || ts.isPropertySignature(p)) return p.name === n;
    if (ts.isImportSpecifier(p) || ts.isExportSpecifier(p)) return !!p.propertyName && (ts.isImportSpecifier(p) ? p.propertyName === n : p.name === n);
    return false;
  }
  const hasShorthand = (n, name) => (ts.isShorthandPropertyAssignment(n) && n.name.text === name) || !!ts.forEachChild(n, (c) => hasShorthand(c, name) || undefined);
  const join = (list, tail) => {
    const body = list.map((c) => (typeof c === 'string' ? c : c.text)).join('\n');
    return body.replace(/^\n+/, '') + (tail.trim() ? tail : '\n');
  };
  const specOf = (fromFile, toFile) => {
    let r = path.relative(path.dirname(fromFile), toFile).replace(/\.ts$/, '');
    if (!r.startsWith('.')) r = './' + r;
    return r;
  };
  function target(s, from, spec) {
    if (!spec.startsWith('.')) return undefined;
    const at = path.normalize(path.join(path.dirname(from), spec));
    return [at + '.ts', at + '/index.ts'].find((x) => s.files[x] !== undefined);
  }
  const moduleSpecs = (sf) => sf.statements.filter((n) => (ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) && n.moduleSpecifier).map((n) => n.moduleSpecifier);
  const usesApiSpec = (c) => /apiSpec\b/.test(c.text) || /^\s*(export )?const (spec|extraSpec)\d*/.test(c.text.replace(/\/\*[\s\S]*?\*\//g, ''));
  function freshPath(s, rng) {
    for (;;) {
      const p = rng.pick(['', 'lib/', 'deep er/', 'src/v1/', 'ünï/', 'zz/yy/xx/']) + rng.pick(['part', 'moved', 'hub', 'file', 'x.types', 'index2']) + rng.int(0, 99) + '.ts';
      if (!s.files[p]) return p;
    }
  }
  function freshName(sf, rng, like) {
    const all = new Set();
    const walk = (n) => {
      if (ts.isIdentifier(n)) all.add(n.text);
      ts.forEachChild(n, walk);
    };
    walk(sf);
    for (;;) {
      const n = rng.pick(['Zed', 'aux', 'Local', like + '_', 'Ünï', '$v', 'helper', 'Foo', 'Item', 'types', 'constructor']) + rng.int(0, 99);
      if (!all.has(n)) return n;
    }
  }

  const ops = {
    /** another order of statements, imports and declarations alike */
    reorder(s, rng) {
      const p = rng.pick(tsFiles(s));
      const { list, tail } = chunks(p, s.files[p]);
      if (list.length < 2) return undefined;
      const done = new Set();
      const order = [];
      const rest = list.slice();
      const names = new Set(list.flatMap((c) => c.declares));
      while (rest.length) {
        // the specifications keep their order, which is that of the document
        const spec = rest.find(usesApiSpec);
        const ok = rest.filter((c) => c === spec || !usesApiSpec(c)).filter((c) => c.isImport || c.isExport || [...c.uses].every((u) => !names.has(u) || done.has(u) || c.declares.includes(u)));
        const c = ok.length ? rng.pick(ok) : rest[0];
        rest.splice(rest.indexOf(c), 1);
        order.push(c);
        for (const d of c.declares) done.add(d);
      }
      if (order.every((c, i) => c === list[i])) return undefined;
      s.files[p] = join(order, tail);
      return { op: 'reorder', detail: p };
    },
    /** blank lines, plain comments, line endings, a byte order mark, indentation */
    layout(s, rng) {
      const done = [];
      for (const p of tsFiles(s)) {
        if (rng.chance(0.5)) continue;
        const { list, tail } = chunks(p, s.files[p]);
        const out = [];
        for (const c of list) {
          if (rng.chance(0.3)) out.push(rng.pick(['\n', '\n\n', '\n// a note: Ünï 日本語 😀', '\n// const Foo = t.string;\n', '\n/* block */\n', '\n/* eslint-disable */', '\n// \u{1F600}\u{1F600}']));
          out.push(c);
        }
        let text = join(out, tail);
        const how = rng.int(0, 5);
        if (how === 0) text = text.replace(/\n/g, '\r\n');
        if (how === 1) text = '\uFEFF' + text;
        if (how === 2 && list.length && list[0].isImport) text = '/**\n * Header of ' + p + ' © 2024 ünï 😀\n * @title Nothing\n */\n\n' + text;
        if (how === 3) text = text.replace(/\n$/, '');
        if (how === 4) text = text.replace(/^ +(?=[\w'"\[.])/gm, (x) => x.replace(/ {2}/g, '\t'));
        s.files[p] = text;
        done.push(p + ':' + how);
      }
      return done.length ? { op: 'layout', detail: done.join() } : undefined;
    },
    /** declarations nobody uses, types named like codecs */
    unused(s, rng) {
      const p = rng.pick(tsFiles(s));
      const { list, tail, sf } = chunks(p, s.files[p]);
      const at = rng.int(list.filter((c) => c.isImport).length ? 1 : 0, list.length);
      const name = freshName(sf, rng, 'unused');
      const decls = list.flatMap((c) => c.declares);
      const codec = rng.pick(decls.length ? decls : ['X']);
      const iots = /import \* as (\w+) from 'io-ts';/.exec(s.files[p]);
      const T = iots ? iots[1] : undefined;
      const what = rng.pick([
        () => `type ${name} = string;`,
        () => `interface ${name} { readonly a: string }`,
        () => `/** unused */\nfunction ${name}(x: number): number {\n  return x;\n}`,
        () => `class ${name} { constructor(public x: string) {} }`,
        () => `/** unused\n * @title Unused\n */\nconst ${name} = { a: [1, 2], b: \`x\` };`,
        () => (T ? `export const ${name} = ${T}.type({ unused: ${T}.string });` : `export const ${name} = () => 5;`),
        () => (T ? `export type ${codec} = ${T}.TypeOf<typeof ${codec}>;` : `let ${name}: string | undefined;`),
        () => `namespace ${name} { export const a = 1; }`,
        () => `import type { ${name} } from 'express';`,
        () => `declare const ${name}: unique symbol;`,
        () => `if (process.env.NEVER) { console.log('${name}'); }`,
        () => `import * as ${name} from 'fp-ts/Either';`,
      ])();
      // in front of a statement without a comment of its own, or after all
      const text = '\n' + what;
      list.splice(at, 0, text);
      s.files[p] = join(list, tail);
      return { op: 'unused', detail: p + ': ' + what.slice(0, 60) };
    },
    /** names nobody else sees */
    rename(s, rng) {
      const p = rng.pick(tsFiles(s));
      const { sf, list } = chunks(p, s.files[p]);
      const cands = [];
      for (const c of list) {
        if (c.isImport && c.node.importClause) {
          const ic = c.node.importClause;
          if (ic.name) cands.push([ic.name.text, 'import']);
          const nb = ic.namedBindings;
          if (nb && ts.isNamespaceImport(nb)) cands.push([nb.name.text, 'import']);
          if (nb && ts.isNamedImports(nb)) for (const e of nb.elements) cands.push([e.name.text, 'import']);
        } else if (ts.isVariableStatement(c.node) && !c.node.modifiers) for (const d of c.declares) cands.push([d, 'const']);
        else if (ts.isEnumDeclaration(c.node) && !c.node.modifiers) for (const d of c.declares) cands.push([d, 'const']);
      }
      // `export type X` beside a constant X keeps it from being renamed alone
      const typeNames = new Set(sf.statements.filter((n) => ts.isTypeAliasDeclaration(n) || ts.isInterfaceDeclaration(n)).map((n) => n.name.text));
      const ok = cands.filter(([n]) => !typeNames.has(n));
      if (!ok.length) return undefined;
      const [name, kind] = rng.pick(ok);
      const to = freshName(sf, rng, name);
      const edits = [];
      // a shorthand property is written out in place, an ordinary one may be a reference
      if (sf.statements.some((n) => hasShorthand(n, name))) return undefined;
      const walk = (n) => {
        if (ts.isIdentifier(n) && n.text === name && !isKey(n)) {
          const q = n.parent;
          if (ts.isShorthandPropertyAssignment(q)) edits.push([n.getStart(), n.end, `${name}: ${to}`]);
          else if (ts.isImportSpecifier(q) && !q.propertyName) edits.push([n.getStart(), n.end, `${name} as ${to}`]);
          else if (ts.isExportSpecifier(q)) {
            if (q.parent.parent.moduleSpecifier) return;
            edits.push([n.getStart(), n.end, q.propertyName ? to : `${to} as ${name}`]);
          } else edits.push([n.getStart(), n.end, to]);
        }
        ts.forEachChild(n, walk);
      };
      walk(sf);
      s.files[p] = apply(s.files[p], edits);
      return { op: 'rename ' + kind, detail: `${p}: ${name} -> ${to}`, renames: kind === 'const' };
    },
    /** some declarations of a file in a file of their own */
    split(s, rng) {
      const p = rng.pick(ownFiles(s));
      const { list, tail } = chunks(p, s.files[p]);
      const movable = list.filter((c) => c.declares.length && (ts.isVariableStatement(c.node) || ts.isEnumDeclaration(c.node)));
      const seeds = movable.filter((c) => !usesApiSpec(c) && rng.chance(0.4));
      if (!seeds.length) return undefined;
      const by = new Map();
      for (const c of movable) for (const d of c.declares) by.set(d, c);
      const set = new Set();
      const add = (c) => {
        if (set.has(c)) return;
        set.add(c);
        for (const u of c.uses) if (by.has(u)) add(by.get(u));
      };
      seeds.forEach(add);
      if ([...set].some(usesApiSpec)) return undefined;
      // a type of the same name stays where it is: leave such constants alone
      const typeNames = new Set(list.filter((c) => c.isType).map((c) => c.node.name.text));
      if ([...set].some((c) => c.declares.some((d) => typeNames.has(d)))) return undefined;
      const q = freshPath(s, rng);
      const imports = list.filter((c) => c.isImport).map((c) => {
        const m = c.node.moduleSpecifier;
        const t = target(s, p, m.text);
        return t ? c.text.slice(0, m.getStart() - c.node.getFullStart()) + `'${specOf(q, t)}'` + c.text.slice(m.end - c.node.getFullStart()) : c.text;
      });
      const moved = list.filter((c) => set.has(c)).map((c) => {
        if (c.node.modifiers && c.node.modifiers.some((m) => m.kind === ts.SyntaxKind.ExportKeyword)) return c.text;
        const at = c.node.getStart() - c.node.getFullStart();
        return c.text.slice(0, at) + 'export ' + c.text.slice(at);
      });
      s.files[q] = join([...imports, ...moved], '\n');
      const rest = list.filter((c) => !set.has(c));
      const used = new Set(rest.flatMap((c) => [...c.uses]));
      const names = [...set].flatMap((c) => c.declares.map((d) => [d, !!(c.node.modifiers && c.node.modifiers.length)]));
      const lines = [];
      const spec = specOf(p, q);
      for (const [n, exported] of names) {
        if (exported && !used.has(n) && rng.chance(0.5)) lines.push(`export { ${n} } from '${spec}';`);
        else {
          if (exported || used.has(n)) lines.push(`import { ${n} } from '${spec}';`);
          if (exported) lines.push(`export { ${n} };`);
        }
      }
      // `import` and `export` statements may stand anywhere
      for (const l of lines) rest.splice(rng.int(0, rest.length), 0, '\n' + l);
      s.files[p] = join(rest, tail);
      return { op: 'split', detail: `${names.map((x) => x[0]).join()} of ${p} -> ${q}` };
    },
    /** an import by way of another file */
    hub(s, rng) {
      const p = rng.pick(ownFiles(s));
      const { list } = chunks(p, s.files[p]);
      const cands = [];
      for (const c of list) {
        if (!c.isImport || !c.node.importClause) continue;
        const t = target(s, p, c.node.moduleSpecifier.text);
        const nb = c.node.importClause.namedBindings;
        if (t && !c.node.importClause.name && nb && ts.isNamedImports(nb)) cands.push([c, t, nb.elements]);
      }
      if (!cands.length) return undefined;
      const [c, t, els] = rng.pick(cands);
      const q = freshPath(s, rng);
      const spec = specOf(q, t);
      const way = rng.pick(['star', 'named', 'renamed', 'import', 'importrenamed']);
      const lines = [];
      const names = els.map((e) => {
        const imported = (e.propertyName || e.name).text;
        let pub = imported;
        if (imported === 'default' && way !== 'import' && way !== 'importrenamed') return null;
        if (way === 'renamed') lines.push(`export { ${imported} as ${(pub = 'Via' + rng.int(0, 99) + '_' + imported)} } from '${spec}';`);
        if (way === 'named') lines.push(`export { ${imported} } from '${spec}';`);
        if (way === 'import' || way === 'importrenamed') {
          const loc = imported === 'default' ? 'Dflt' : rng.chance(0.3) ? 'L' + imported : imported;
          if (way === 'importrenamed' || imported === 'default') pub = 'Via' + rng.int(0, 99) + '_' + imported;
          lines.push(loc === imported ? `import { ${imported} } from '${spec}';` : `import { ${imported} as ${loc} } from '${spec}';`);
          lines.push(loc === pub ? `export { ${loc} };` : `export { ${loc} as ${pub} };`);
        }
        return pub === e.name.text ? pub : `${pub} as ${e.name.text}`;
      });
      if (names.includes(null)) return undefined;
      if (way === 'star') lines.push(`export * from '${spec}';`);
      s.files[q] = lines.join('\n') + '\n';
      const n = c.node;
      s.files[p] = apply(s.files[p], [[n.getStart(), n.end, `import { ${names.join(', ')} } from '${specOf(p, q)}';`]]);
      return { op: 'hub ' + way, detail: `${p} -> ${q} -> ${t}` };
    },
    /** a file under another name */
    move(s, rng) {
      const p = rng.pick(ownFiles(s));
      const q = freshPath(s, rng);
      const all = {};
      for (const f of tsFiles(s)) all[f] = s.files[f];
      const out = {};
      for (const f of Object.keys(s.files)) {
        if (!own(f)) {
          out[f] = s.files[f];
          continue;
        }
        const edits = [];
        for (const m of moduleSpecs(parse(f, s.files[f]))) {
          const t = target(s, f, m.text);
          if (t && (t === p || f === p)) edits.push([m.getStart(), m.end, `'${specOf(f === p ? q : f, t === p ? q : t)}'`]);
        }
        out[f === p ? q : f] = apply(s.files[f], edits);
      }
      s.files = out;
      if (s.entry === p) s.entry = q;
      return { op: 'move', detail: `${p} -> ${q}` };
    },
    /** quotes, parentheses, numeric and constant assertions */
    style(s, rng) {
      const p = rng.pick(tsFiles(s));
      const sf = parse(p, s.files[p]);
      const edits = [];
      const walk = (n) => {
        if (ts.isStringLiteral(n) && rng.chance(0.3) && !ts.isImportDeclaration(n.parent) && !ts.isExportDeclaration(n.parent)) {
          const raw = n.getText();
          if (!/[\\]/.test(raw)) {
            const x = n.text;
            if (!/["'`$\n]/.test(x)) {
              const q = rng.pick(["'", '"']);
              edits.push([n.getStart(), n.end, q + x + q]);
              return;
            }
          }
        }
        if (ts.isVariableDeclaration(n) && n.initializer && ts.isCallExpression(n.initializer) && !/apiSpec/.test(n.initializer.expression.getText()) && rng.chance(0.2)) {
          edits.push([n.initializer.getStart(), n.initializer.getStart(), '(']);
          edits.push([n.initializer.end, n.initializer.end, ')']);
          return;
        }
        ts.forEachChild(n, walk);
      };
      walk(sf);
      if (!edits.length) return undefined;
      s.files[p] = apply(s.files[p], edits);
      return { op: 'style', detail: p };
    },
  };
  return { ops, names: Object.keys(ops), parse, chunks, tsFiles, ownFiles };
};
