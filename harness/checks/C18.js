'use strict';
const { assertThat } = require('../lib/mon');
const { Project } = require('../lib/oagen');
const { Spec } = require('../lib/oaroutes');
const { wellFormed } = require('../lib/oaschema');

// Projects whose every codec carries a property of its own, so that a schema found in
// the document can be told from every other, whatever it is called.
class Marked extends Project {
  qs = 0;
  marked(file) {
    const { rng } = this;
    const id = this.decls.length;
    const entries = [{ t: 'prop', name: 'mark' + id, node: { k: 'lit', value: 'm' + id } }];
    const n = rng.int(0, 4);
    for (let i = 0; i < n; i++) entries.push({ t: 'prop', name: 'p' + i, node: this.outline(file, 2) });
    return { k: 'obj', form: rng.pick(['type', 'type', 'partial', 'strict']), entries };
  }
  underDecl(d) {
    while (d.node.k === 'ref') d = d.node.decl;
    return d;
  }
  someRef(file) {
    return this.refTo(file, {});
  }
  outline(file, depth) {
    const { rng } = this;
    const leaf = () => this.someRef(file) || { k: 'lib', mod: 't', name: rng.pick(['string', 'number']) };
    if (depth <= 0) return leaf();
    // far inside containers of containers, and from nowhere else
    if (depth === 2 && rng.chance(0.3)) {
      let n = leaf();
      for (let k = rng.int(2, 4); k > 0; k--)
        n = rng.weighted([
          [2, () => ({ k: 'array', fn: ['t', rng.pick(['array', 'readonlyArray'])], item: n })],
          [2, () => ({ k: 'record', domain: 'string', codomain: n })],
          [1, () => ({ k: 'obj', form: rng.pick(['type', 'partial']), entries: [{ t: 'prop', name: 'n' + rng.int(0, 9), node: n }] })],
        ])();
      return n;
    }
    return rng.weighted([
      [8, leaf],
      [2, () => ({ k: 'array', fn: ['t', rng.pick(['array', 'readonlyArray'])], item: this.outline(file, depth - 1) })],
      [1, () => ({ k: 'record', domain: 'string', codomain: this.outline(file, depth - 1) })],
      [2, () => ({ k: 'opt', item: this.someRef(file) || { k: 'lib', mod: 't', name: 'string' }, how: rng.pick(['optional', 'union']) })],
      [2, () => ({ k: 'union', alts: [leaf(), leaf()] })],
      [1, () => ({ k: 'inter', parts: [leaf(), leaf()].map((p) => (p.k === 'ref' && p.decl.form === 'const' ? p : { k: 'obj', form: 'type', entries: [{ t: 'prop', name: 'q' + this.qs++, node: p }] })) })],
      [2, () => ({ k: 'obj', form: 'type', entries: [{ t: 'prop', name: 'n' + rng.int(0, 9), node: this.outline(file, depth - 1) }] })],
    ])();
  }
  declare(file, isEntry) {
    const alias = this.rng.chance(0.12) && this.refTo(file, {});
    const node = alias || this.marked(file);
    const form = alias ? 'const' : this.rng.weighted([[12, 'const'], [1, 'fn'], [1, 'member']]);
    return super.declare(file, isEntry, { kind: 'codec', node, form });
  }
}

/** follow references to what they stand for; returns [schema, component names passed] */
function deref(doc, s) {
  const via = [];
  for (let i = 0; i < 100; i++) {
    if (s && s.$ref) {
      const name = s.$ref.replace('#/components/schemas/', '');
      via.push(name);
      s = (doc.components.schemas || {})[name];
    } else if (s && s.allOf && !s.type && s.allOf.filter((x) => x.$ref).length === 1 && s.allOf.every((x) => x.$ref || (Object.keys(x).length === 1 && x.title))) {
      s = s.allOf.find((x) => x.$ref);
    } else return [s, via];
  }
  return [undefined, via];
}

module.exports = {
  packages: ['openapi-generator', 'io-ts-http'],
  cases: { quick: 320, thorough: 5000 },
  rule:
    'Two kinds of random projects are given to the command-line tool. (1) Up to 8 files and 2 packages with 6-30 codecs that share 2-4 names, each marked by a property of its own and referring to others through renamed, default, star and re-exported imports, aliases, functions and members: every reference in the document is followed and compared with the mark of the declaration it was written for, and components must correspond one to one to declarations. (2) The specifications of C17. In both the document is checked against the structural rules of OpenAPI 3.0. Non-trivial: two declarations of one name both in the document, or a reference through an import; fingerprint = component names and marks.',
  mustObserve: ['marked', 'specification', 'reference followed', 'component', 'same name twice', 'alias', 'inline codec', 'default export', 'package component', 'star re-export', 'export before star', 'named re-export', 'export renamed', 'collision suffix', 're-export of a name of the file', 'one name re-exported from two files', 'default re-export'],
  minimum: { quick: 4000, thorough: 60000 },
  assumptions: ['recursive codecs are refused by the generator and not generated'],
  init(env) {
    env.lab = require('../lib/oalab')(env.B);
  },
  async run(env, rng, i) {
    const { lab, obs } = env;
    const marked = i % 3 !== 2;
    let proj;
    const roots = [];
    if (marked) {
      const names = rng.sample(['Foo', 'Foo1', 'Item', 'User', 'Foo2', 'constructor', 'toString', 'codec'], rng.int(2, 4));
      proj = new Marked(rng, { types: true, files: rng.int(1, 6), packages: rng.weighted([[3, 0], [2, 1], [1, 2]]), decls: rng.int(6, 24), names }).build();
      const entry = proj.entry;
      const K = rng.int(2, 5);
      for (let k = 0; k < K; k++) roots.push({ node: proj.outline(entry, 2), where: rng.pick(['response', 'response', 'body', 'query']) });
      entry.items.push({
        raw: () => {
          const h = (x) => entry.lib('h', x);
          const t = (x) => entry.lib('t', x);
          const name = entry.alloc('api_spec');
          return `export const ${name} = ${h('apiSpec')}({\n${roots
            .map((r, k) => {
              const e = proj.expr(entry, r.node, '      ');
              const req = r.where === 'response' ? '{}' : `{ ${r.where}: { v: ${e} } }`;
              return `  r${k}: { post: ${h('httpRoute')}({ path: '/r${k}', method: 'POST', request: ${h('httpRequest')}(${req}), response: { 200: ${r.where === 'response' ? e : t('string')} } }) },`;
            })
            .join('\n')}\n});`;
        },
      });
    } else {
      proj = new Project(rng, { types: true, open: rng.chance(0.3), decls: rng.int(2, 8), packages: rng.chance(0.3) ? 1 : 0 }).build();
      new Spec(proj, rng).build();
    }
    const files = proj.render();
    const p = lab.project(files);
    const r = await lab.generate(p.dir);
    p.dispose();
    const doc = r.doc;
    const say = (extra) => ({ ...extra, source: lab.show(files), document: JSON.stringify(doc) });
    assertThat(r.code === 0 && doc, 'a specification of supported constructs is refused', say({ exit: r.code, stderr: r.err.slice(-1500) }), 'refused');
    obs.count(marked ? 'marked' : 'specification');
    for (const s of proj.stats) obs.count(s);
    const { bad } = wellFormed(doc);
    obs.judged();
    assertThat(bad.length === 0, 'the document is not well formed: ' + bad[0], say({ problems: bad }), 'well formed');
    const comps = doc.components.schemas;
    obs.count('component', Object.keys(comps).length);
    for (const [name, s] of Object.entries(comps)) {
      const title = s.title !== undefined ? s.title : s.allOf && s.allOf[0] && s.allOf[0].title;
      obs.judged();
      if (marked) assertThat(title === name, 'a component is not titled by its name', say({ component: name, schema: s }), 'title');
    }
    if (!marked) return;

    // who is who
    const compOf = new Map();
    const seen = new Set();
    const reached = new Set();
    const problems = [];
    const own = (o, k) => o && Object.prototype.hasOwnProperty.call(o, k);
    const fit = (s, n, guess) => {
      // does schema s say what node n says?  returns undefined or a complaint
      obs.judged();
      if (n.k === 'ref') {
        const d = n.decl;
        const m = proj.underDecl(d);
        if (d !== m) obs.count('alias');
        const [x, via] = deref(doc, s);
        if (!x) return `${JSON.stringify(s)} leads nowhere`;
        if (!own(x.properties, 'mark' + m.id)) return `${JSON.stringify(s)}, where ${d.name} of ${d.file.path} is referred to, is not its schema (mark${m.id}): ${JSON.stringify(x)}`;
        if (!via.length) {
          // functions, members and codecs reached through a namespace are written out
          obs.count('inline codec');
          return fit(x, m.node);
        }
        obs.count('reference followed');
        reached.add(d);
        if (!guess && d === m && d.form === 'const') {
          const name = via[0];
          if (compOf.has(d) && compOf.get(d) !== name) return `${d.name} of ${d.file.path} is documented as both ${compOf.get(d)} and ${name}`;
          compOf.set(d, name);
        }
        for (const name of via) {
          if (seen.has(name)) continue;
          seen.add(name);
          const c = comps[name];
          if (own(c.properties, 'mark' + m.id)) {
            const y = fit(c, m.node);
            if (y) return `${name}: ${y}`;
          }
        }
        return undefined;
      }
      const [x] = deref(doc, s);
      if (!x) return 'missing schema';
      switch (n.k) {
        case 'lib':
          return x.type === n.name ? undefined : `${JSON.stringify(x)} is no ${n.name}`;
        case 'lit':
          return x.enum && x.enum.length === 1 && x.enum[0] === n.value ? undefined : `${JSON.stringify(x)} is not ${n.value}`;
        case 'obj':
          if (x.type !== 'object') return `no object: ${JSON.stringify(x)}`;
          for (const e of n.entries) {
            if (!own(x.properties, e.name)) return `property ${e.name} is missing`;
            const y = fit(x.properties[e.name], e.node);
            if (y) return `${e.name}: ${y}`;
          }
          return undefined;
        case 'array':
          return x.type === 'array' ? fit(x.items, n.item) : 'no array';
        case 'record':
          return x.type === 'object' ? fit(x.additionalProperties, n.codomain) : 'no record';
        case 'opt':
          return fit(s, n.item);
        case 'union': {
          const alts = x.oneOf || [s];
          for (const a of n.alts) {
            const all = alts.map((o) => fit(o, a, true));
            if (all.every((y) => y !== undefined)) return `an alternative is missing: ${all[0]}`;
          }
          return undefined;
        }
        case 'inter': {
          const parts = x.allOf || [s];
          for (const a of n.parts) {
            const all = parts.map((o) => fit(o, a, true));
            if (all.every((y) => y !== undefined)) return `a part is missing: ${all[0]}`;
          }
          return undefined;
        }
        default:
          throw new Error('cannot compare ' + n.k);
      }
    };
    roots.forEach((root, k) => {
      const op = doc.paths['/r' + k].post;
      let s;
      if (root.where === 'response') s = op.responses['200'].content['application/json'].schema;
      else if (root.where === 'body') s = op.requestBody.content['application/json'].schema.properties.v;
      else s = op.parameters.find((q) => q.name === 'v').schema;
      const x = fit(s, root.node);
      if (x) problems.push(`r${k}: ${x}`);
    });
    assertThat(!problems.length, 'a reference leads to the schema of something else', say({ problems }), 'identity');
    // every component is one declaration's, and each declaration has one at most
    const taken = new Map();
    const could = new Map();
    for (const name of Object.keys(comps)) {
      const [x, via] = deref(doc, { $ref: '#/components/schemas/' + name });
      const mark = Object.keys((x && x.properties) || {}).find((k) => k.startsWith('mark'));
      const m = mark && proj.decls[Number(mark.slice(4))];
      assertThat(m, 'a component stands for no declaration', say({ component: name, schema: x }), 'extra component');
      obs.judged();
      const direct = via.length === 1 && via[0] === name;
      // the declaration itself, or an alias of it
      could.set(name, proj.decls.filter((q) => q.kind === 'codec' && proj.underDecl(q) === m && (direct || q !== m) && (name === q.name || (name.startsWith(q.name) && /^\d+$/.test(name.slice(q.name.length))))));
    }
    const place = (name, tried) => {
      for (const d of could.get(name)) {
        if (tried.has(d)) continue;
        tried.add(d);
        if (!taken.has(d) || place(taken.get(d), tried)) {
          taken.set(d, name);
          return true;
        }
      }
      return false;
    };
    for (const name of could.keys()) assertThat(place(name, new Set()), 'a component is named after no declaration of its own', say({ component: name, schema: comps[name] }), 'component name');
    const by = {};
    for (const d of taken.keys()) {
      by['$' + d.name] = (by['$' + d.name] || 0) + 1;
      if (d.points.some((q) => q.isDefault)) obs.count('default export');
      if (d.file.pkg) obs.count('package component');
      if (taken.get(d) !== d.name) obs.count('collision suffix');
    }
    const twice = Object.values(by).some((n) => n > 1);
    if (twice) obs.count('same name twice');
    if (twice || [...taken.keys()].some((d) => d.file !== proj.entry)) obs.nontrivial([...taken].map(([d, n]) => n + ':' + d.id).join());
    obs.sample({ components: [...taken].map(([d, n]) => `${n} = ${d.name} of ${d.file.path}`) });
  },
};
