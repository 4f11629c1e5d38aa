'use strict';
// Random multi-file TypeScript projects built from io-ts codecs, for the OpenAPI
// generator.  A project is rendered to source text; the very same text is run to get
// the real codecs, so the oracle is what the codecs do, not what this file believes.
const path = require('path').posix;

const LIBS = {
  t: { from: 'io-ts', local: ['t', 'io', 'iots'] },
  tt: { from: 'io-ts-types', local: ['tt', 'types', 'T'] },
  h: { from: '@api-ts/io-ts-http', local: ['h', 'http', 'api'] },
  // codecs with keywords of their own, which are not run
  nums: { from: 'io-ts-numbers', local: ['nums', 'n', 'N'] },
  big: { from: 'io-ts-bigint', local: ['big', 'bi'] },
  own: { from: 'custom-codecs', local: ['own', 'cc'] },
};

class File {
  constructor(proj, p, order) {
    this.proj = proj;
    this.path = p;
    this.order = order;
    this.names = new Set();
    this.reexported = new Set();
    this.items = []; // declarations and raw export statements in order
    this.libStyle = {};
    this.libNames = new Map();
    this.importText = [];
    this.refNames = new Map();
    this.points = []; // {decl, name, isDefault}
    this.pkg = null;
  }
  alloc(want) {
    let n = want;
    for (let i = 2; this.names.has(n); i++) n = `${want}_${i}`;
    this.names.add(n);
    return n;
  }
  spec(to) {
    if (to.pkg && to.pkg !== this.pkg) return to.pkg.name;
    let r = path.relative(path.dirname(this.path), to.path).replace(/\.ts$/, '');
    if (!r.startsWith('.')) r = './' + r;
    return r;
  }
  lib(mod, name) {
    const L = LIBS[mod];
    const style = (this.libStyle[mod] = this.libStyle[mod] || this.proj.rng.pick(['star', 'star', 'named']));
    if (style === 'star') {
      let local = this.libNames.get(mod);
      if (!local) {
        local = this.alloc(this.proj.rng.pick(L.local));
        this.libNames.set(mod, local);
        this.importText.push(`import * as ${local} from '${L.from}';`);
      }
      return `${local}.${name}`;
    }
    const key = mod + ':' + name;
    let local = this.libNames.get(key);
    if (!local) {
      // `undefined`, `null`, `void` cannot be local names
      const reserved = ['undefined', 'null', 'void', 'object', 'function', 'any', 'unknown', 'never', 'symbol', 'type', 'string', 'number', 'boolean', 'bigint'];
      const want = reserved.includes(name) || this.proj.rng.chance(0.3) ? `${mod}_${name}` : name;
      local = this.alloc(want);
      this.libNames.set(key, local);
      this.importText.push(local === name ? `import { ${name} } from '${L.from}';` : `import { ${name} as ${local} } from '${L.from}';`);
    }
    return local;
  }
  /** an expression naming a declaration of this or an earlier file */
  ref(decl) {
    if (decl.file === this) return decl.local;
    const cached = this.refNames.get(decl);
    if (cached && this.proj.rng.chance(0.8)) return this.proj.rng.pick(cached);
    const rng = this.proj.rng;
    const pts = decl.points.filter((p) => p.file.order < this.order && (!p.file.pkg || p.file.pkg === this.pkg || p.file.pkg.entry === p.file));
    if (!pts.length) throw new Error(`no way to import ${decl.name} into ${this.path}`);
    const pt = rng.pick(pts);
    const from = this.spec(pt.file);
    let expr;
    if (pt.isDefault) {
      expr = this.alloc(rng.chance(0.5) ? decl.name : 'Dflt');
      this.importText.push(rng.chance(0.3) ? `import { default as ${expr} } from '${from}';` : `import ${expr} from '${from}';`);
    } else if (decl.form !== 'member' && rng.chance(0.25)) {
      const key = 'ns:' + from;
      let ns = this.libNames.get(key);
      if (!ns) {
        ns = this.alloc(rng.pick(['ns', 'm', 'Shared', 'other']));
        this.libNames.set(key, ns);
        this.importText.push(`import * as ${ns} from '${from}';`);
      }
      expr = `${ns}.${pt.name}`;
    } else {
      const want = rng.chance(0.25) ? rng.pick(this.proj.namePool) : pt.name;
      const local = this.alloc(want);
      expr = local;
      this.importText.push(local === pt.name ? `import { ${local} } from '${from}';` : `import { ${pt.name} as ${local} } from '${from}';`);
    }
    this.refNames.set(decl, [...(cached || []), expr]);
    return expr;
  }
}

const Q = (s, rng) => {
  const j = JSON.stringify(s);
  if (rng && rng.chance(0.7) && !/['\\\n]/.test(s)) return `'${s}'`;
  return j;
};
// the text between the expressions of a template, with escapes where needed
const templateText = (s, rng) =>
  s.replace(/[`\\]|\$\{/g, '\\$&').replace(/\t/g, '\\t').replace(/\n/g, () => (rng.chance(0.5) ? '\\n' : '\n')).replace(/é/g, () => (rng.chance(0.5) ? '\\u00e9' : 'é'));
const IDENT = /^[A-Za-z_$][\w$]*$/;

class Project {
  /**
   * opts: files, packages, decls, depth, open (allow codecs the schema language cannot
   * express exactly), comment(kind) -> string|undefined, names
   */
  constructor(rng, opts = {}) {
    this.rng = rng;
    this.opts = { files: rng.int(0, 3), packages: rng.chance(0.3) ? 1 : 0, decls: rng.int(2, 8), depth: 3, open: false, ...opts };
    this.namePool = this.opts.names || ['Foo', 'Bar', 'Baz', 'Item', 'Item1', 'Item2', 'User', 'Foo1', 'Address'];
    this.files = [];
    this.decls = [];
    this.stats = new Set();
    this.lits = new Set();
    this.isOpen = false;
  }
  build() {
    const { rng, opts } = this;
    let order = 0;
    for (let p = 0; p < opts.packages; p++) {
      const pkg = { name: rng.pick(['shared-types', '@scope/types', 'codecs.pkg']) + (p ? p : ''), field: rng.pick(['source', 'types', 'typings']) };
      const dir = `node_modules/${pkg.name}/`;
      const inner = new File(this, dir + 'src/inner.ts', order++);
      inner.pkg = pkg;
      this.files.push(inner);
      this.fill(inner, rng.int(1, 3));
      const entry = new File(this, dir + 'src/index.ts', order++);
      entry.pkg = pkg;
      pkg.entry = entry;
      this.files.push(entry);
      this.barrel(entry, [inner], true);
      this.fill(entry, rng.int(1, 3));
      this.pkgs = [...(this.pkgs || []), pkg];
    }
    const dirs = ['', 'lib/', 'lib/deep/', 'common types/'];
    const used = new Set();
    for (let f = 0; f < opts.files; f++) {
      let p;
      do p = rng.pick(dirs) + rng.pick(['a', 'b', 'types', 'codecs', 'models', 'x-y']) + '.ts';
      while (used.has(p));
      used.add(p);
      const file = new File(this, p, order++);
      this.files.push(file);
      this.fill(file, Math.max(1, Math.round(opts.decls / (opts.files + 1))));
      if (rng.chance(0.35)) {
        let b;
        do b = rng.pick(dirs) + rng.pick(['barrel', 'all', 'reexports', 'exports']) + '.ts';
        while (used.has(b));
        used.add(b);
        const barrel = new File(this, b, order++);
        const from = this.files.filter((x) => !x.pkg && x !== barrel && rng.chance(0.7));
        this.files.push(barrel);
        this.barrel(barrel, from, false);
        if (rng.chance(0.4)) this.fill(barrel, 1);
        this.stats.add('barrel');
      }
    }
    this.entry = new File(this, 'index.ts', order++);
    this.files.push(this.entry);
    this.fill(this.entry, Math.max(1, opts.decls - this.decls.length), true);
    return this;
  }
  /** re-exports of what other files export */
  barrel(file, from, all) {
    const { rng } = this;
    const taken = new Set(file.points.map((p) => p.name));
    const hidden = [];
    for (const f of from) {
      const names = f.points.filter((p) => !p.isDefault).map((p) => p.name);
      const clash = names.some((n) => taken.has(n) || hidden.includes(n));
      if (!clash && (all || rng.chance(0.4))) {
        file.items.push({ raw: `export * from '${file.spec(f)}';` });
        for (const p of f.points) {
          if (p.isDefault) continue;
          // an export of the file's own takes precedence over what `*` brings along
          if (p.decl.kind === 'codec' && !file.names.has(p.name) && rng.chance(0.2)) {
            hidden.push(p.name);
            continue;
          }
          taken.add(p.name);
          file.names.add(p.name); // a declaration of this name would take precedence
          this.point(p.decl, file, p.name);
        }
        this.stats.add('star re-export');
        continue;
      }
      for (const p of f.points) {
        if (!all && rng.chance(0.4)) continue;
        let name = rng.chance(0.35) || p.isDefault ? rng.pick(this.namePool) + 'R' : p.name;
        for (let i = 2; taken.has(name) || file.names.has(name); i++) name = name + i;
        taken.add(name);
        if (p.isDefault || rng.chance(0.7)) {
          // `export { X as X }` of two modules with the same local name is legal only
          // once per exported name, which `taken` guarantees; the file may well have
          // something of its own of the name it re-exports under another name
          const src = p.isDefault ? 'default' : p.name;
          if (src !== name && file.names.has(src)) this.stats.add('re-export of a name of the file');
          if (file.reexported.has(src)) this.stats.add('one name re-exported from two files');
          if (src === 'default') this.stats.add('default re-export');
          file.reexported.add(src);
          file.names.add(name);
          file.items.push({ raw: src === name ? `export { ${src} } from '${file.spec(f)}';` : `export { ${src} as ${name} } from '${file.spec(f)}';` });
          this.stats.add('named re-export');
        } else {
          const local = file.alloc(p.name);
          file.importText.push(local === p.name ? `import { ${local} } from '${file.spec(f)}';` : `import { ${p.name} as ${local} } from '${file.spec(f)}';`);
          file.items.push({ raw: local === name ? `export { ${local} };` : `export { ${local} as ${name} };` });
          this.stats.add('import then export');
        }
        this.point(p.decl, file, name);
      }
    }
    for (const name of hidden) {
      if (file.points.some((p) => p.name === name) || file.names.has(name)) continue;
      taken.add(name);
      this.wanted = name;
      this.declare(file, false);
      this.stats.add('export before star');
    }
  }
  point(decl, file, name, isDefault = false) {
    const pt = { decl, file, name, isDefault };
    decl.points.push(pt);
    file.points.push(pt);
  }
  fill(file, n, isEntry) {
    for (let i = 0; i < n; i++) this.declare(file, isEntry);
  }
  visible(file, kind) {
    return this.decls.filter(
      (d) => d.kind === kind && (d.file === file || d.points.some((p) => p.file.order < file.order && (!p.file.pkg || p.file.pkg === file.pkg || p.file.pkg.entry === p.file))),
    );
  }
  declare(file, isEntry, force) {
    const { rng, opts } = this;
    const kind = (force && force.kind) || rng.weighted([[10, 'codec'], [2, 'props'], [2, 'lit'], [1, 'enum'], [1, 'alts']]);
    const want = (force && force.name) || this.wanted || rng.pick(this.namePool);
    this.wanted = undefined;
    const d = { id: this.decls.length, kind, file, points: [], form: 'const' };
    // what the declaration refers to is made first, so that it precedes it
    if (kind === 'codec') {
      d.node = (force && force.node) || this.node(file, opts.depth, {});
      d.form = (force && force.form) || rng.weighted([[10, 'const'], [1, 'fn'], [1, 'fnblock'], [1, 'member']]);
      if (d.form !== 'const' && d.node.k === 'ref') d.form = 'const';
      if (d.form === 'const' && d.node.k === 'lib') d.form = 'const';
    } else if (kind === 'props') {
      d.node = { k: 'props', entries: this.entries(file, opts.depth - 1, { plain: true }) };
    } else if (kind === 'lit') {
      d.value = rng.pick(['alpha', 'beta gamma', 'x', 'quo"te', '0', 7, 0]);
    } else if (kind === 'enum') {
      // [name, value, as written: undefined if implicit]
      let next = 0;
      d.members = rng.sample(['A', 'B', 'Cc', 'Dd'], rng.int(1, 4)).map((m) => {
        const how = d.mixed === undefined ? (d.mixed = rng.chance(0.35)) : d.mixed;
        const kind = how ? rng.weighted([[next === undefined ? 0 : 3, 'implicit'], [2, 'number'], [1, 'negative'], [2, 'string']]) : 'string';
        const value = kind === 'implicit' ? next : kind === 'number' ? rng.pick([0, 3, 7, 40]) : kind === 'negative' ? rng.pick([-1, -3, -40]) : rng.pick(['a', 'b', 'c-c', 'd d', 'e\tf']) + m;
        if (how) this.stats.add('enum member ' + kind);
        next = typeof value === 'number' ? value + 1 : undefined;
        return [m, value, kind !== 'implicit'];
      });
      // negative literals are refused where they are used, but not where others follow from them
      d.usable = d.members.filter(([, v, written]) => !(written && v < 0));
      if (!d.usable.length) {
        d.members.push(['Zz', 'z', true]);
        d.usable.push(d.members[d.members.length - 1]);
      }
      for (const [, v] of d.members) this.lits.add(v);
    } else if (kind === 'alts') {
      d.alts = this.alts(file, opts.depth - 1);
    }
    d.name = file.alloc(want);
    d.local = d.name;
    if (d.form === 'member') {
      d.objName = d.name;
      d.memberName = rng.pick(['Inner', 'One', 'first']);
      d.local = `${d.objName}.${d.memberName}`;
    }
    if (opts.comment && kind === 'codec' && (d.form === 'const')) d.comment = opts.comment('decl', d);
    this.exportAs(d, file, isEntry, want);
    this.decls.push(d);
    file.items.push({ decl: d });
    this.stats.add('decl ' + kind + ' ' + d.form);
    return d;
  }
  /** choose how a declaration is exported */
  exportAs(d, file, isEntry, want) {
    const { rng } = this;
    if (!isEntry || rng.chance(0.3)) {
      const how = rng.weighted([[6, 'inline'], [1, 'list'], [1, 'renamed'], [isEntry || file.points.some((p) => p.isDefault) ? 0 : 1, 'default'], [1, 'both']]);
      d.exported = how;
      // `export { a as b }` must not clash with another export of the file
      const exportNames = new Set(file.points.map((p) => p.name));
      let other = want + 'X';
      while (exportNames.has(other) || file.names.has(other)) other += 'X';
      if (how === 'inline' || how === 'both') this.point(d, file, d.name);
      if (how === 'list') this.point(d, file, d.name);
      if (how === 'renamed' || how === 'both') this.point(d, file, other);
      if (how === 'default') this.point(d, file, 'default', true);
      d.otherName = other;
      this.stats.add('export ' + how);
    }
  }
  /** a declaration whose initializer is given as a function rendering it */
  raw(file, want, init, opts = {}) {
    const d = { id: this.decls.length, kind: opts.kind || 'raw', file, points: [], form: 'const', init, name: file.alloc(want), comment: opts.comment, data: opts.data };
    d.local = d.name;
    this.exportAs(d, file, file === this.entry && !opts.export, want);
    this.decls.push(d);
    file.items.push({ decl: d });
    return d;
  }
  // ------------------------------------------------------------------ codec trees
  leaf(ctx) {
    const { rng } = this;
    const L = [
      [6, ['t', 'string']], [5, ['t', 'number']], [4, ['t', 'boolean']], [2, ['tt', 'NonEmptyString']],
      [1, ['t', 'null']], [1, ['t', 'nullType']],
      [1, ['t', 'UnknownRecord']],
    ];
    if (!ctx.union && !ctx.prop) L.push([1, ['t', 'unknown']], [1, ['t', 'any']]);
    if (!ctx.union && !ctx.prop && !ctx.nojson) L.push([1, ['tt', 'JsonRecord']]);
    if (this.opts.open) {
      for (const n of ['UUID', 'DateFromISOString']) L.push([1, ['tt', n]]);
      if (!ctx.union) {
        for (const n of ['NumberFromString', 'BigIntFromString', 'IntFromString', 'DateFromNumber', 'DateFromUnixTime']) L.push([1, ['tt', n]]);
      }
    }
    const [mod, name] = rng.weighted(L);
    if (['UUID', 'DateFromISOString', 'JsonFromString', 'NumberFromString', 'BigIntFromString', 'IntFromString', 'BooleanFromNumber', 'DateFromNumber', 'DateFromUnixTime'].includes(name)) this.isOpen = true;
    return { k: 'lib', mod, name };
  }
  litValue() {
    const { rng } = this;
    const v = rng.pick(['a', 'b', 'c', 'd d', "it's", 'é', '', 'true', '1', 0, 1, 2, 2.5, true, false]);
    this.lits.add(v);
    return v;
  }
  keys(n) {
    return this.rng.sample(['a', 'b', 'c', 'kebab-key', 'with space', 'x1', '0'], n);
  }
  node(file, depth, ctx) {
    const { rng } = this;
    if (depth <= 0) {
      return rng.weighted([
        [6, () => this.leaf(ctx)],
        [3, () => this.literal(file)],
        [1, () => ({ k: 'keyof', keys: this.keys(rng.int(1, 3)) })],
        [3, () => this.refTo(file, ctx) || this.leaf(ctx)],
      ])();
    }
    return rng.weighted([
      [4, () => this.leaf(ctx)],
      [2, () => this.literal(file)],
      [1, () => ({ k: 'keyof', keys: this.keys(rng.int(1, 3)) })],
      [4, () => this.refTo(file, ctx) || this.leaf(ctx)],
      [3, () => ({ k: 'array', fn: rng.weighted([[4, ['t', 'array']], [1, ['t', 'readonlyArray']], [1, ['tt', 'nonEmptyArray']], [1, ['tt', 'readonlyNonEmptyArray']]]), item: this.node(file, depth - 1, {}) })],
      [6, () => this.object(file, depth - 1, ctx)],
      [2, () => this.record(file, depth - 1)],
      [4, () => this.union(file, depth - 1)],
      [3, () => this.intersection(file, depth - 1)],
      [1, () => ({ k: 'brand', item: this.node(file, depth - 1, ctx), name: rng.pick(['Branded', 'B2']) })],
    ])();
  }
  literal(file) {
    const { rng } = this;
    const lits = this.visible(file, 'lit');
    const enums = this.visible(file, 'enum').filter((d) => d.file === file || this.enumPoints(file, d).length);
    if (lits.length && rng.chance(0.3)) return { k: 'lit', decl: rng.pick(lits) };
    if (enums.length && rng.chance(0.3)) {
      const d = rng.pick(enums);
      return { k: 'enumlit', decl: d, member: rng.pick(d.usable) };
    }
    if (lits.filter((d) => typeof d.value === 'string').length && rng.chance(0.2)) {
      this.stats.add('template');
      const strings = lits.filter((d) => typeof d.value === 'string');
      const text = () => rng.pick(['', '', 'v-', '/x', 'a\tb', 'l\nm', '`', '${', '\\', 'é']);
      const parts = [text()];
      for (let i = rng.int(1, 2); i > 0; i--) parts.push(rng.pick(strings), text());
      return { k: 'template', parts };
    }
    if (rng.chance(0.05)) return { k: 'template', parts: [rng.pick(['plain', 'a\tb', 'l\nm', '\\d', 'dollar $', '`'])] };
    return { k: 'lit', value: this.litValue() };
  }
  refTo(file, ctx) {
    const { rng } = this;
    let ds = this.visible(file, 'codec').filter((d) => d.form !== 'member' || d.file === file || d.points.some((p) => !p.isDefault));
    if (ctx.union) ds = ds.filter((d) => !this.isAnyish(d.node) && !this.isStringish(d.node));
    if (ctx.prop) ds = ds.filter((d) => !this.isAnyish(d.node) && !this.isEmptyObject(d.node));
    if (ctx.object) ds = ds.filter((d) => this.isObject(d.node));
    if (!ds.length) return undefined;
    return { k: 'ref', decl: rng.pick(ds) };
  }
  isAnyish(n) {
    n = this.under(n);
    return (n.k === 'lib' && ['unknown', 'any', 'Json'].includes(n.name)) || (n.k === 'brand' && this.isAnyish(n.item)) || (n.k === 'opt' && this.isAnyish(n.item));
  }
  /** dropped from an intersection (a property of the same name may not be an object) */
  isEmptyObject(n) {
    n = this.under(n);
    if (n.k === 'brand' || n.k === 'opt') return this.isEmptyObject(n.item);
    if (n.k === 'inter') return n.parts.some((p) => this.isEmptyObject(p));
    return n.k === 'obj' && this.flat(n).size === 0;
  }
  /** codecs decoding a string or number to something else are shown decoded in unions */
  isStringish(n) {
    n = this.under(n);
    if (n.k === 'brand' || n.k === 'opt') return this.isStringish(n.item);
    if (n.k === 'union') return this.altsOf(n).some((a) => this.isStringish(a));
    return n.k === 'lib' && /From(String|Number|UnixTime|ISOString)$/.test(n.name);
  }
  under(n) {
    while (n.k === 'ref') n = n.decl.node;
    return n;
  }
  isObject(n) {
    n = this.under(n);
    if (n.k === 'brand') return this.isObject(n.item);
    return n.k === 'obj' || (n.k === 'inter' && n.parts.every((p) => this.isObject(p)));
  }
  object(file, depth, ctx = { prop: true }) {
    const { rng } = this;
    const form = rng.weighted([[6, 'type'], [3, 'partial'], [1, 'strict'], [1, 'exact'], [2, 'optionalized']]);
    const props = this.visible(file, 'props').filter((d) => !ctx.prop || this.flat({ entries: d.node.entries }).size);
    if (props.length && rng.chance(0.15)) return { k: 'obj', form, propsDecl: rng.pick(props) };
    return { k: 'obj', form, entries: this.entries(file, depth, { some: ctx.prop }) };
  }
  entries(file, depth, ctx) {
    const { rng } = this;
    const n = rng.weighted([[ctx.some ? 0 : 1, 0], [3, 1], [4, 2], [3, 3], [1, 5]]);
    const out = [];
    const propDecls = this.visible(file, 'props');
    for (const name of rng.sample(['a', 'b', 'c', 'id', 'type', 'name', 'kebab-key', 'with space', '0', 'ünï', '$x', 'required', 'default', 'chat', 'hotel', 'zeta', 'š'], n)) {
      if (propDecls.length && rng.chance(0.08)) {
        out.push({ t: 'spread', decl: rng.pick(propDecls) });
        this.stats.add('spread');
      }
      const shorts = this.visible(file, 'codec').filter((d) => d.form === 'const' && !this.isAnyish(d.node) && !this.isEmptyObject(d.node) && !d.name.includes('.'));
      if (shorts.length && rng.chance(0.1)) {
        const d = rng.pick(shorts);
        if (!out.some((e) => e.name === d.name)) {
          out.push(this.commented({ t: 'short', name: d.name, node: { k: 'ref', decl: d } }));
          this.stats.add('shorthand');
          continue;
        }
      }
      const strs = this.visible(file, 'lit').filter((d) => typeof d.value === 'string');
      if (strs.length && rng.chance(0.08)) {
        const d = rng.pick(strs);
        if (!out.some((e) => e.name === d.value)) {
          out.push(this.commented({ t: 'computed', name: d.value, decl: d, node: this.propNode(file, depth) }));
          this.stats.add('computed');
          continue;
        }
      }
      out.push(this.commented({ t: 'prop', name, node: this.propNode(file, depth) }));
    }
    // a later entry of the same name overrides an earlier one, as in JavaScript
    return out;
  }
  commented(e) {
    if (this.opts.comment) e.comment = this.opts.comment('prop', e);
    return e;
  }
  propNode(file, depth) {
    const { rng } = this;
    if (rng.chance(0.25)) {
      this.stats.add('optional');
      return { k: 'opt', item: this.node(file, depth, { prop: true, union: true }), how: rng.pick(['optional', 'optional', 'union', 'unionFirst', 'void']) };
    }
    return this.node(file, depth, { prop: true });
  }
  record(file, depth) {
    const { rng } = this;
    const domain = rng.weighted([[3, 'string'], [2, 'keyof'], [1, 'literals']]);
    const codomain = rng.chance(0.15) ? { k: 'opt', item: this.node(file, depth, { union: true, prop: true }), how: 'optional' } : this.node(file, depth, { prop: true });
    return { k: 'record', domain, keys: this.keys(rng.int(1, 3)), codomain };
  }
  alts(file, depth) {
    const { rng } = this;
    const n = rng.weighted([[5, 2], [3, 3], [1, 4]]);
    const alts = [];
    if (rng.chance(0.2)) {
      // a discriminated union
      for (let i = 0; i < n; i++) {
        const es = this.entries(file, depth - 1, {}).filter((e) => e.t !== 'spread' && e.name !== 'kind');
        alts.push({ k: 'obj', form: 'type', entries: [{ t: 'prop', name: 'kind', node: { k: 'lit', value: 'k' + i } }, ...es] });
        this.lits.add('k' + i);
      }
      this.stats.add('tagged union');
      return alts;
    }
    if (rng.chance(0.25)) {
      for (let i = 0; i < n; i++) alts.push(this.literal(file));
      return alts;
    }
    if (this.opts.open && rng.chance(0.3)) {
      if (rng.chance(0.4)) {
        // different codecs of strings that decode to the same type, and to nothing else
        const names = rng.shuffle(['NumberFromString', 'IntFromString']);
        for (const name of names) alts.push({ k: 'lib', mod: 'tt', name });
        this.isOpen = true;
        this.stats.add('union of strings decoding to numbers');
        return alts;
      }
      // codecs decoding strings and numbers to something else, of the same kind or not
      for (let i = 0; i < n; i++) {
        alts.push(rng.weighted([
          [5, () => ({ k: 'lib', mod: 'tt', name: rng.pick(['NumberFromString', 'BigIntFromString', 'IntFromString', 'DateFromISOString', 'UUID', 'DateFromNumber', 'DateFromUnixTime']) })],
          [1, () => this.literal(file)],
          [1, () => ({ k: 'keyof', keys: this.keys(rng.int(1, 3)) })],
          [1, () => this.object(file, depth - 1, {})],
        ])());
      }
      this.isOpen = true;
      this.stats.add('union of decoding codecs');
      return alts;
    }
    for (let i = 0; i < n; i++) alts.push(this.node(file, depth, { union: true }));
    return alts;
  }
  union(file, depth) {
    const { rng } = this;
    const ds = this.visible(file, 'alts');
    if (ds.length && rng.chance(0.25)) return { k: 'union', decl: rng.pick(ds) };
    return { k: 'union', alts: this.alts(file, depth) };
  }
  altsOf(n) {
    return n.decl ? n.decl.alts : n.alts;
  }
  intersection(file, depth) {
    const { rng } = this;
    const n = rng.int(2, 3);
    const parts = [];
    for (let i = 0; i < n; i++) {
      parts.push(
        rng.weighted([
          [5, () => this.object(file, depth - 1)],
          [2, () => this.refTo(file, { object: true }) || this.object(file, depth - 1)],
          [1, () => ({ k: 'union', alts: [this.object(file, depth - 1), this.object(file, depth - 1)] })],
          [1, () => this.record(file, depth - 1)],
        ])(),
      );
    }
    return { k: 'inter', parts };
  }
  // ------------------------------------------------------------------ rendering
  expr(file, n, ind = '') {
    const { rng } = this;
    const L = (m, x) => file.lib(m, x);
    switch (n.k) {
      case 'lib':
        return L(n.mod, n.name);
      case 'lit': {
        if (n.decl) return `${L('t', 'literal')}(${file.ref(n.decl)})`;
        return `${L('t', 'literal')}(${typeof n.value === 'string' ? Q(n.value, rng) : String(n.value)})`;
      }
      case 'enumlit':
        return `${L('t', 'literal')}(${this.enumRef(file, n.decl)}.${n.member[0]})`;
      case 'template':
        return `${L('t', 'literal')}(\`${n.parts.map((p) => (typeof p === 'string' ? templateText(p, rng) : `\${${file.ref(p)}}`)).join('')}\`${rng.chance(0.7) ? ' as const' : ''})`;
      case 'keyof':
        return `${L('t', 'keyof')}({ ${n.keys.map((k) => `${Q(k, rng)}: ${rng.pick(['1', 'null', '""'])}`).join(', ')} })`;
      case 'array':
        return `${L(...n.fn)}(${this.expr(file, n.item, ind)})`;
      case 'brand':
        return `${L('t', 'brand')}(${this.expr(file, n.item, ind)}, (x): x is any => true, '${n.name}')`;
      case 'opt': {
        const x = this.expr(file, n.item, ind);
        if (n.how === 'optional') return `${L('h', 'optional')}(${x})`;
        if (n.how === 'void') return `${L('t', 'union')}([${x}, ${L('t', 'void')}])`;
        return n.how === 'union' ? `${L('t', 'union')}([${x}, ${L('t', 'undefined')}])` : `${L('t', 'union')}([${L('t', 'undefined')}, ${x}])`;
      }
      case 'obj': {
        const p = n.propsDecl ? file.ref(n.propsDecl) : this.props(file, n.entries, ind);
        if (n.form === 'exact') return `${L('t', 'exact')}(${L('t', 'type')}(${p}))`;
        if (n.form === 'optionalized') return `${L('h', 'optionalized')}(${p})`;
        return `${L('t', n.form)}(${p})`;
      }
      case 'record': {
        const dom =
          n.domain === 'string'
            ? L('t', 'string')
            : n.domain === 'keyof'
              ? this.expr(file, { k: 'keyof', keys: n.keys }, ind)
              : n.keys.length === 1
                ? this.expr(file, { k: 'lit', value: n.keys[0] }, ind)
                : `${L('t', 'union')}([${n.keys.map((k) => this.expr(file, { k: 'lit', value: k }, ind)).join(', ')}])`;
        return `${L('t', 'record')}(${dom}, ${this.expr(file, n.codomain, ind)})`;
      }
      case 'union':
        if (n.decl) return `${L('t', 'union')}(${file.ref(n.decl)})`;
        return `${L('t', 'union')}([${n.alts.map((a) => this.expr(file, a, ind)).join(', ')}])`;
      case 'inter':
        return `${L('t', 'intersection')}([${n.parts.map((a) => this.expr(file, a, ind)).join(', ')}])`;
      case 'ref':
        return n.decl.form.startsWith('fn') ? `${file.ref(n.decl)}()` : this.codecRef(file, n.decl);
      case 'raw':
        return typeof n.text === 'function' ? n.text(file, ind) : n.text;
      default:
        throw new Error('cannot render ' + n.k);
    }
  }
  codecRef(file, d) {
    if (d.form !== 'member') return file.ref(d);
    if (d.file === file) return d.local;
    return `${file.ref(d)}.${d.memberName}`;
  }
  enumPoints(file, d) {
    return d.points.filter((p) => !p.isDefault && p.file.order < file.order && (!p.file.pkg || p.file.pkg === file.pkg || p.file.pkg.entry === p.file));
  }
  enumRef(file, d) {
    if (d.file === file) return d.local;
    // `ns.Enum.Member` is not supported by the generator: import the enum itself
    let local = file.libNames.get(d);
    if (!local) {
      const pt = this.rng.pick(this.enumPoints(file, d));
      local = file.alloc(pt.name);
      file.importText.push(local === pt.name ? `import { ${local} } from '${file.spec(pt.file)}';` : `import { ${pt.name} as ${local} } from '${file.spec(pt.file)}';`);
      file.libNames.set(d, local);
    }
    return local;
  }
  props(file, entries, ind) {
    const { rng } = this;
    if (!entries.length) return '{}';
    const deeper = ind + '  ';
    const lines = entries.map((e) => {
      const c = e.comment ? e.comment.map((l) => deeper + l + '\n').join('') : '';
      let text;
      if (e.t === 'spread') text = `...${file.ref(e.decl)}`;
      else if (e.t === 'computed') text = `[${file.ref(e.decl)}]: ${this.expr(file, e.node, deeper)}`;
      else if (e.t === 'short') {
        const r = this.expr(file, e.node, deeper);
        text = r === e.name ? e.name : `${e.name}: ${r}`;
      } else {
        const key = IDENT.test(e.name) && (!e.quoted) && rng.chance(0.85) ? e.name : /^(0|[1-9]\d*)$/.test(e.name) && rng.chance(0.5) ? e.name : Q(e.name, rng);
        text = `${key}: ${this.expr(file, e.node, deeper)}`;
      }
      return c + deeper + text + ',';
    });
    return `{\n${lines.join('\n')}\n${ind}}`;
  }
  declText(d) {
    const { rng } = this;
    const f = d.file;
    let init;
    if (d.kind === 'codec') {
      const e = this.expr(f, d.node);
      if (d.form === 'fn') init = `() => ${e}`;
      else if (d.form === 'fnblock') init = `() => {\n  return ${e};\n}`;
      else if (d.form === 'member') init = `{\n  ${d.memberName}: ${e},\n}`;
      else init = e;
    } else if (d.kind === 'props') init = this.props(f, d.node.entries, '') + (rng.chance(0.3) ? ' as const' : '');
    else if (d.kind === 'lit') init = (typeof d.value === 'string' ? Q(d.value, rng) : String(d.value)) + (rng.chance(0.5) ? ' as const' : '');
    else if (d.init) init = d.init(f);
    else if (d.kind === 'alts') init = `[${d.alts.map((a) => this.expr(f, a)).join(', ')}]` + (rng.chance(0.4) ? ' as const' : '');
    const c = d.comment ? d.comment.join('\n') + '\n' : '';
    const inline = d.exported === 'inline' || d.exported === 'both';
    let text;
    if (d.kind === 'enum') text = `${c}${inline ? 'export ' : ''}enum ${d.name} {\n${d.members.map(([k, v, written]) => `  ${k}${written ? ` = ${typeof v === 'string' ? Q(v, rng) : v}` : ''},`).join('\n')}\n}`;
    else text = `${c}${inline ? 'export ' : ''}const ${d.name} = ${init};`;
    if (this.opts.types && d.kind !== 'enum' && rng.chance(0.15)) {
      // a type of the same name, as is usual
      this.stats.add('type of the same name');
      const ty = `${inline ? 'export ' : ''}type ${d.name} = typeof ${d.name};`;
      text = rng.chance(0.5) || c ? `${text}\n${ty}` : `${ty}\n${text}`;
    }
    if (d.exported === 'list') text += `\nexport { ${d.name} };`;
    if (d.exported === 'renamed' || d.exported === 'both') text += `\nexport { ${d.name} as ${d.otherName} };`;
    if (d.exported === 'default') text += `\nexport default ${d.name};`;
    return text;
  }
  render() {
    const out = {};
    for (const f of this.files) {
      const body = f.items.map((it) => (it.raw !== undefined ? (typeof it.raw === 'function' ? it.raw() : it.raw) : this.declText(it.decl)));
      out[f.path] = [...f.importText, '', ...body].join('\n') + '\n';
    }
    for (const pkg of this.pkgs || []) {
      out[`node_modules/${pkg.name}/package.json`] = JSON.stringify({ name: pkg.name, version: '1.0.0', main: 'src/index.js', [pkg.field]: 'src/index.ts' });
    }
    return out;
  }
  // ------------------------------------------------------------------ values
  flat(n) {
    const entries = n.propsDecl ? n.propsDecl.node.entries : n.entries;
    const m = new Map();
    for (const e of entries) {
      if (e.t === 'spread') for (const [k, v] of this.flat({ entries: e.decl.node.entries })) m.set(k, v);
      else m.set(e.name, e.node);
    }
    return m;
  }
  value(n, rng, depth = 0) {
    const str = () => rng.pick(['', 'a', 'b', 'hello', 'é', '0', '12', 'true', 'null']);
    const num = () => rng.pick([0, 1, -1, 2, 2.5, 1e6]);
    switch (n.k) {
      case 'lib':
        switch (n.name) {
          case 'string': return str();
          case 'number': return num();
          case 'boolean': return rng.chance(0.5);
          case 'null': case 'nullType': return null;
          case 'NonEmptyString': return str() || 'x';
          case 'UnknownRecord': case 'JsonRecord': return rng.pick([{}, { a: 1 }, { x: [null] }]);
          case 'unknown': case 'any': return this.json(rng, 1);
          case 'UUID': return '00000000-0000-4000-8000-0000000000' + rng.int(10, 99);
          case 'DateFromISOString': return '2020-01-02T03:04:05.000Z';
          case 'JsonFromString': return rng.pick(['{}', '[1]', 'null', '"x"']);
          case 'NumberFromString': return rng.pick(['1', '-2.5', '0']);
          case 'BigIntFromString': case 'IntFromString': return rng.pick(['1', '-2', '0']);
          case 'BooleanFromNumber': return rng.pick([0, 1]);
          case 'DateFromNumber': case 'DateFromUnixTime': return rng.pick([0, 1000, 123456]);
          default: throw new Error('no value for ' + n.name);
        }
      case 'lit': return n.decl ? n.decl.value : n.value;
      case 'enumlit': return n.member[1];
      case 'template': return n.parts.map((p) => (typeof p === 'string' ? p : p.value)).join('');
      case 'keyof': return rng.pick(n.keys);
      case 'array': {
        const min = /NonEmpty|nonEmpty/.test(n.fn[1]) ? 1 : 0;
        const out = [];
        for (let i = rng.int(min, depth > 3 ? min : 2); i > 0; i--) out.push(this.value(n.item, rng, depth + 1));
        return out;
      }
      case 'brand': return this.value(n.item, rng, depth);
      case 'opt': return rng.chance(0.4) ? undefined : this.value(n.item, rng, depth);
      case 'obj': {
        const o = {};
        for (const [k, v] of this.flat(n)) {
          if (n.form === 'partial' && rng.chance(0.4)) continue;
          const x = this.value(v, rng, depth + 1);
          if (x !== undefined) o[k] = x;
        }
        if (rng.chance(0.15)) o['extra' + rng.int(0, 3)] = this.json(rng, 1);
        return o;
      }
      case 'record': {
        const o = {};
        const keys = n.domain === 'string' ? rng.sample(['a', 'b', 'zz', '9'], rng.int(0, 3)) : n.keys;
        for (const k of keys) {
          const x = this.value(n.codomain, rng, depth + 1);
          if (x !== undefined) o[k] = x;
        }
        return o;
      }
      case 'union': return this.value(rng.pick(this.altsOf(n)), rng, depth);
      case 'inter': {
        let o = {};
        for (const p of n.parts) {
          const x = this.value(p, rng, depth);
          if (x !== null && typeof x === 'object' && !Array.isArray(x)) o = { ...o, ...x };
        }
        return o;
      }
      case 'ref': return this.value(n.decl.node, rng, depth);
      default: throw new Error('no value for ' + n.k);
    }
  }
  json(rng, depth) {
    const leaf = () => rng.pick([null, true, false, 0, 1, -1, 2.5, '', 'a', 'b', '0', '1', 'true', ...this.lits]);
    if (depth <= 0 || rng.chance(0.5)) return leaf();
    if (rng.chance(0.4)) return Array.from({ length: rng.int(0, 2) }, () => this.json(rng, depth - 1));
    const o = {};
    for (const k of rng.sample(['a', 'b', 'c', 'id', 'type', 'kind', 'name', '0'], rng.int(0, 3))) o[k] = this.json(rng, depth - 1);
    return o;
  }
  /** a small change somewhere in a JSON value */
  mutate(rng, v) {
    if (v !== null && typeof v === 'object' && rng.chance(0.8)) {
      const keys = Object.keys(v);
      if (Array.isArray(v)) {
        const a = v.slice();
        if (!a.length || rng.chance(0.2)) a.push(this.json(rng, 1));
        else if (rng.chance(0.25)) a.splice(rng.int(0, a.length - 1), 1);
        else {
          const i = rng.int(0, a.length - 1);
          a[i] = this.mutate(rng, a[i]);
        }
        return a;
      }
      const o = { ...v };
      const what = rng.f();
      if (keys.length && what < 0.35) delete o[rng.pick(keys)];
      else if (keys.length && what < 0.85) {
        const k = rng.pick(keys);
        o[k] = this.mutate(rng, o[k]);
      } else o[rng.pick(['a', 'b', 'c', 'id', 'type', 'name', 'kind'])] = this.json(rng, 1);
      return o;
    }
    return rng.pick([() => this.json(rng, 1), () => [v], () => ({ a: v }), () => null, () => String(v), () => (typeof v === 'string' ? v + 'x' : 0)])();
  }
}

module.exports = { Project, File, Q, IDENT, LIBS };
