'use strict';
const { assertThat, Violation, show } = require('../lib/mon');
const { Project } = require('../lib/oagen');
const { Evaluator } = require('../lib/oaschema');

const isLeft = (e) => e._tag === 'Left';

module.exports = {
  packages: ['openapi-generator', 'io-ts-http'],
  cases: { quick: 320, thorough: 4000 },
  rule:
    'Random projects (1-6 files: barrels, renamed/default/star imports, packages, spread and shorthand properties, computed keys, enums, arrow functions, member codecs) are given to the command-line tool; the same sources are executed, and for 6 codecs per project the generated schema and the real decode are asked about ~36 JSON values each (values generated from the codec, single mutations of those, values of other codecs, random JSON). Non-trivial: both verdicts seen for the codec; fingerprint = codec text.',
  mustObserve: ['accepted by both', 'rejected by both', 'exact codecs', 'codecs with approximations', 'multi-file', 'reference', 'shorthand', 'spread', 'decl codec fn', 'decl codec member', 'named re-export', 'star re-export', 'import then export', 'export default', 'package', 'template', 'enum member implicit', 'enum member negative', 'type of the same name', 'union of decoding codecs', 'union of strings decoding to numbers'],
  minimum: { quick: 20000, thorough: 400000 },
  assumptions: [
    'codecs the schema language or the documented approximation leaves open (formats, FromString, BooleanFromNumber) are only checked not to be narrowed',
    'not generated: codecs the generator refuses (tuples, recursion, refinement codecs it does not know), t.unknown as a property (documented as required) or union member (documented as stripped), unions of a primitive and a codec decoding a string to it (documented by the decoded type)',
  ],
  init(env) {
    env.lab = require('../lib/oalab')(env.B);
  },
  async run(env, rng, i) {
    const { lab, obs } = env;
    const open = rng.chance(0.25);
    const proj = new Project(rng, { types: true, open }).build();
    const roots = [];
    const K = 6;
    for (let k = 0; k < K; k++) {
      const where = rng.pick(['response', 'response', 'body', 'array', 'record']);
      // a property of type unknown is documented as required (outside the rule)
      const ctx = where === 'body' || where === 'record' ? { prop: true } : {};
      const node = rng.chance(0.15) ? proj.refTo(proj.entry, ctx) || proj.node(proj.entry, 3, ctx) : proj.node(proj.entry, 3, ctx);
      roots.push({ node, where });
    }
    const last = proj.entry;
    last.items.push({
      raw: () => {
        const h = (x) => last.lib('h', x);
        const t = (x) => last.lib('t', x);
        const name = last.alloc('api_spec');
        const rs = roots.map((r, k) => {
          const e = proj.expr(last, r.node, '      ');
          const body = r.where === 'body' ? `{ body: { v: ${e} } }` : '{}';
          const resp = r.where === 'body' ? t('string') : r.where === 'array' ? `${t('array')}(${e})` : r.where === 'record' ? `${t('record')}(${t('string')}, ${e})` : e;
          return `  'r${k}': {\n    post: ${h('httpRoute')}({\n      path: '/r${k}',\n      method: 'POST',\n      request: ${h('httpRequest')}(${body}),\n      response: { 200: ${resp} },\n    }),\n  },`;
        });
        return `export const ${name} = ${h('apiSpec')}({\n${rs.join('\n')}\n});\nexport { ${name} as __api };`;
      },
    });
    const files = proj.render();
    const p = lab.project(files);
    const r = await lab.generate(p.dir);
    p.dispose();
    const src = () => lab.show(files);
    let mod;
    try {
      mod = lab.load(files);
    } catch (e) {
      throw new Error('cannot run the generated project: ' + e.stack + '\n' + src());
    }
    assertThat(r.code === 0 && r.doc, 'a specification of supported codecs is refused', { exit: r.code, stderr: r.err.slice(-1500), source: src() }, 'refused');
    const ev = new Evaluator(r.doc);
    for (const s of proj.stats) obs.count(s);
    if (proj.files.length > 1) obs.count('multi-file');
    if (proj.pkgs) obs.count('package');
    const h = env.B.dep('io-ts');
    void h;
    roots.forEach((root, k) => {
      const real = mod.__api['r' + k].post;
      let codec, schema, wrap;
      const op = r.doc.paths['/r' + k].post;
      if (root.where === 'body') {
        codec = { decode: (v) => real.request.decode({ params: {}, query: {}, headers: {}, body: v }) };
        schema = op.requestBody.content['application/json'].schema;
        wrap = (v) => ({ v });
      } else {
        codec = real.response[200];
        schema = op.responses['200'].content['application/json'].schema;
        wrap = root.where === 'array' ? (v) => [v] : root.where === 'record' ? (v) => ({ k: v }) : (v) => v;
      }
      if (root.node.k === 'ref') obs.count('reference');
      obs.count(open && proj.isOpen ? 'codecs with approximations' : 'exact codecs');
      const values = [];
      for (let j = 0; j < 12; j++) {
        const v = proj.value(root.node, rng);
        if (v !== undefined) values.push(wrap(v));
        values.push(rng.chance(0.8) ? wrap(proj.mutate(rng, v === undefined ? null : v)) : proj.mutate(rng, wrap(v)));
      }
      for (let j = 0; j < 6; j++) {
        values.push(wrap(proj.json(rng, 2)));
        const o = proj.value(rng.pick(roots).node, rng);
        if (o !== undefined) values.push(wrap(o));
      }
      let yes = 0;
      let no = 0;
      for (const raw of values) {
        if (raw === undefined) continue;
        const v = JSON.parse(JSON.stringify(raw));
        const decoded = !isLeft(codec.decode(JSON.parse(JSON.stringify(raw))));
        let ok;
        try {
          ok = ev.accepts(schema, v);
        } catch (e) {
          throw new Violation('the generated schema cannot be evaluated: ' + e.message, { schema, document: r.doc, source: src() }, 'evaluation');
        }
        obs.judged();
        if (decoded) yes++;
        else no++;
        if (decoded && !ok) {
          throw new Violation('the schema rejects a value the codec accepts', { route: 'r' + k, value: JSON.stringify(v), schema: JSON.stringify(schema), components: JSON.stringify(r.doc.components), source: src() }, 'rejects');
        }
        if (!decoded && ok && !proj.isOpen) {
          throw new Violation('the schema accepts a value the codec rejects', { route: 'r' + k, value: JSON.stringify(v), schema: JSON.stringify(schema), components: JSON.stringify(r.doc.components), source: src() }, 'accepts');
        }
        if (decoded) obs.count('accepted by both');
        else if (!ok) obs.count('rejected by both');
      }
      if (yes && no) obs.nontrivial(JSON.stringify(schema) + k % 1);
      if (yes && no) obs.sample({ where: root.where, schema: JSON.stringify(schema).slice(0, 600), decoded: yes, rejected: no });
    });
    void show;
    void i;
  },
};
