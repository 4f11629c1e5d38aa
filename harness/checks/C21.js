'use strict';
const { isDeepStrictEqual } = require('util');
const { assertThat, Violation } = require('../lib/mon');
const { deepFreeze } = require('../lib/freeze');
const { Evaluator } = require('../lib/oaschema');
const { IR } = require('../lib/ir');

/** schemas are data; what is not comes from the code under test, the generated ones are */
function clone(s) {
  try {
    return structuredClone(s);
  } catch (e) {
    throw new Violation('a schema is no longer plain data', { why: String(e) }, 'no data');
  }
}
const own = (o, k) => Object.prototype.hasOwnProperty.call(o, k);

module.exports = {
  packages: ['openapi-generator'],
  cases: { quick: 12000, thorough: 250000 },
  rule:
    'Random intermediate schemas (unions, intersections, objects, arrays, records, tuples, constants with and without documented values, references to a set of components; comments with tags anywhere; the same subtree sometimes in several places) go through optimize and, as routes, through convertRoutesToOpenAPI. An evaluator of intermediate schemas written for the check decides which of about 40 values (generated from the schema, mutations of those, unrelated ones) are accepted before and after, and by the document. The arguments are frozen and compared with a copy afterwards; what simplifying once more accepts, simplifying a copy, repeating the conversion and listing the routes in another order are compared too. Non-trivial: a schema that changed in simplification and of which values were accepted and refused; fingerprint = simplified schema.',
  mustObserve: ['union', 'intersection', 'object', 'array', 'record', 'tuple', 'ref', 'undefined', 'null', 'comment', 'own keywords', 'documented keyword', 'documented constants', 'changed', 'accepted', 'refused', 'optional property', 'intersected property', 'merged constants', 'document accepted', 'document refused', 'optional parameter', 'required parameter', 'shared subtree', 'optional component', 'renamed component'],
  minimum: { quick: 400000, thorough: 8000000 },
  assumptions: ['not generated: codecs standing for another runtime type (consolidated by design), unknown within unions (stripped by design), members of an intersection without properties, properties that can only be undefined', 'tuples and integers have no counterpart in the document and are compared at the level of schemas only'],
  init(env) {
    const pk = env.B.load('openapi-generator');
    env.optimize = pk.optimize;
    env.convert = pk.convertRoutesToOpenAPI;
    env.parse = pk.parseCommentBlock;
  },
  async run(env, rng) {
    const { obs, optimize, convert, parse } = env;
    const ir = new IR(rng, { tuples: rng.chance(0.3) });
    const show = (x) => JSON.stringify(x, (k, v) => (k === 'source' || k === 'problems' ? undefined : v));
    const J = (v) => (v === undefined ? 'undefined' : JSON.stringify(v));
    const notes = (c) => c && { description: c.description, tags: parse(c).tags };
    const plain = (s) => {
      // the schema with its comments read
      if (Array.isArray(s)) return s.map(plain);
      if (s === null || typeof s !== 'object') return s;
      const o = {};
      for (const k of Object.keys(s)) o[k] = k === 'comment' ? notes(s[k]) : plain(s[k]);
      return o;
    };
    const guarded = (f, arg, what) => {
      const before = clone(arg);
      deepFreeze(arg);
      let r;
      try {
        r = f();
      } catch (e) {
        throw new Violation(`${what} fails: ${e.message}`, { argument: show(arg), stack: e.stack }, 'throws');
      }
      obs.judged();
      assertThat(isDeepStrictEqual(arg, before), `${what} changes its argument`, { before: show(before), after: show(arg) }, 'mutation');
      return r;
    };
    // ------------------------------------------------------------ simplification
    const s = ir.node(rng.int(1, 4));
    for (const k of ir.seen) obs.count(k);
    const copy = clone(s);
    const t = guarded(() => optimize(s), s, 'simplifying');
    const values = ir.values(s, 16);
    let yes = 0;
    let no = 0;
    const u = guarded(() => optimize(t), t, 'simplifying the result');
    for (const v of values) {
      const a = ir.accepts(s, v);
      const b = ir.accepts(t, v);
      assertThat(b === ir.accepts(u, v), `simplifying again changes what is accepted`, { value: J(v), schema: show(s), once: show(t), twice: show(u) }, 'meaning again');
      obs.judged();
      if (a) yes++;
      else no++;
      obs.count(a ? 'accepted' : 'refused');
      assertThat(a === b, `a schema that ${a ? 'accepts' : 'refuses'} a value ${b ? 'accepts' : 'refuses'} it once simplified`, { value: J(v), schema: show(s), simplified: show(t), components: show(ir.components) }, 'meaning ' + a);
    }
    const changed = !isDeepStrictEqual(plain(s), plain(t));
    if (changed) obs.count('changed');
    if (changed && yes && no) obs.nontrivial(show(t));
    obs.judged();
    assertThat(isDeepStrictEqual(plain(t), plain(optimize(copy))), 'an equal schema is simplified otherwise', { schema: show(s) }, 'deterministic');
    // comments stay
    const walk = (a, b, where) => {
      if (a.comment) {
        obs.judged();
        const x = notes(a.comment);
        const y = b.comment && notes(b.comment);
        assertThat(y && y.description === x.description && Object.keys(x.tags || {}).every((k) => isDeepStrictEqual(y.tags[k], x.tags[k])), 'a comment is lost or altered', { where, comment: x, found: y, schema: show(s), simplified: show(t) }, 'comment');
      }
      for (const k of ['title', 'description', 'format', 'example', 'deprecated', 'readOnly']) {
        if (a[k] === undefined) continue;
        obs.judged();
        assertThat(b[k] === a[k], 'a keyword of the schema itself is lost or altered', { where, keyword: k, found: b[k], schema: show(s), simplified: show(t) }, 'own keyword of ' + a.type);
      }
      if (a.type === 'object' && b.type === 'object') for (const k of Object.keys(a.properties)) if (own(b.properties, k)) walk(a.properties[k], b.properties[k], `${where}.${k}`);
      if (a.type === 'array' && b.type === 'array') walk(a.items, b.items, where + '[]');
      if (a.type === 'record' && b.type === 'record') walk(a.codomain, b.codomain, where + '{}');
    };
    walk(s, t, '');
    // what is noted about single constants stays, in one place or another
    const notesOf = (x, out = new Set()) => {
      if (Array.isArray(x)) x.forEach((y) => notesOf(y, out));
      else if (x !== null && typeof x === 'object') {
        if (Array.isArray(x.enum)) {
          for (const [v, d] of Object.entries(x.enumDescriptions || {})) if (x.enum.includes(v)) out.add(`${v}: ${d}`);
          for (const v of x.enumsDeprecated || []) if (x.enum.includes(v)) out.add(`${v} deprecated`);
        }
        for (const k of ['schemas', 'items', 'codomain', 'domain', 'properties']) if (x[k]) notesOf(k === 'properties' ? Object.values(x[k]) : x[k], out);
      }
      return out;
    };
    const left = notesOf(t);
    for (const x of notesOf(s)) {
      obs.judged();
      assertThat(left.has(x), 'a note about a constant is lost', { note: x, schema: show(s), simplified: show(t) }, 'constant note');
    }
    if (yes && no && changed) obs.sample({ schema: show(s).slice(0, 500), simplified: show(t).slice(0, 500), accepted: yes, refused: no });
    // ------------------------------------------------------------ documents
    if (!rng.chance(0.4)) return;
    const ir2 = new IR(rng, { tuples: false, document: true });
    const routes = [];
    const mapping = ir2.mapping;
    const shared = ir2.node(3);
    const pick = (d) => {
      if (rng.chance(0.25)) {
        obs.count('shared subtree');
        return shared;
      }
      return ir2.node(d);
    };
    for (let i = rng.int(1, 3); i > 0; i--) {
      const r = { path: `/${rng.pick(['a', 'b', 'Z', 'ü', '{id}'])}${i}`, method: rng.pick(['GET', 'POST', 'put', 'delete']), parameters: [], response: {} };
      if (rng.chance(0.3)) r.comment = ir2.comment();
      for (let k = rng.int(0, 3); k > 0; k--) {
        const type = rng.pick(['query', 'header', 'path']);
        r.parameters.push({ type, name: 'p' + k, schema: rng.chance(0.5) ? ir2.optional(ir2.leaf()) : pick(1), required: type === 'path' || rng.chance(0.7), ...(rng.chance(0.2) ? { explode: true } : {}) });
      }
      if (rng.chance(0.5)) r.body = pick(3);
      for (const c of rng.sample(['200', '404', '500'], rng.int(1, 3))) r.response[c] = pick(3);
      routes.push(r);
    }
    const call = (rs) => convert({ title: 'x', version: '1' }, [], rs, ir2.components, mapping);
    const args = { routes, components: ir2.components, mapping };
    const doc = guarded(() => call(routes), args, 'the conversion');
    const again = call(rng.shuffle(routes.slice()));
    obs.judged();
    assertThat(JSON.stringify(again) === JSON.stringify(doc), 'the document depends on the order of the routes, or on an earlier conversion', { first: JSON.stringify(doc), second: JSON.stringify(again), routes: show(routes) }, 'order');
    const ev = new Evaluator(doc);
    const check = (schema, node, where, optional) => {
      if (schema && schema.type !== 'array' && ['object', 'record', 'union', 'intersection'].includes(node.type) && !where.startsWith('parameter')) {
        // (the keywords of an array describe its items)
        // comments come first, and those of combined schemas are combined
        const tagsIn = (x) => Object.assign({}, x.comment && parse(x.comment).tags, ...(x.schemas || []).map(tagsIn));
        const said = tagsIn(node);
        const [want, found] = node.type === 'union' && node.schemas.filter((x) => x.type !== 'undefined').length < 2 ? [] : [node, schema];
        for (const k of want ? ['title', 'format', 'example', 'deprecated', 'readOnly'] : []) {
          if (want[k] === undefined || own(said, k)) continue;
          obs.judged();
          obs.count('documented keyword');
          assertThat(found[k] === want[k], 'a keyword of the schema itself is missing in the document', { where, keyword: k, schema: show(node), documented: JSON.stringify(schema) }, 'documented keyword of ' + node.type);
        }
      }
      for (const v of ir2.values(node, 8)) {
        // an optional parameter has no way to be null
        if (v === undefined || (optional && v === null)) continue;
        const a = ir2.accepts(node, v);
        let b;
        try {
          b = schema === undefined ? false : ev.accepts(schema, v);
        } catch (e) {
          throw new Violation('the document cannot be evaluated: ' + e.message, { where, document: JSON.stringify(doc), schema: show(node) }, 'evaluation');
        }
        obs.judged();
        obs.count(a ? 'document accepted' : 'document refused');
        assertThat(a === b, `the document ${b ? 'accepts' : 'refuses'} what the schema ${a ? 'accepts' : 'refuses'}`, { where, value: J(v), schema: show(node), documented: JSON.stringify(schema), components: show(ir2.components), document: JSON.stringify(doc) }, 'document ' + a);
      }
    };
    for (const r of routes) {
      const op = doc.paths[r.path] && doc.paths[r.path][r.method.toLowerCase()];
      const last = routes.filter((x) => x.path === r.path && x.method.toLowerCase() === r.method.toLowerCase());
      if (last.length > 1) continue;
      assertThat(op, 'a route is missing', { route: show(r), document: JSON.stringify(doc) }, 'route');
      assertThat(op.parameters.length === r.parameters.length, 'parameters are missing', { route: show(r), operation: op }, 'parameters');
      r.parameters.forEach((p, k) => {
        const q = op.parameters[k];
        const want = p.type === 'path' || (p.required && !ir2.accepts(p.schema, undefined));
        obs.judged();
        obs.count(want ? 'required parameter' : 'optional parameter');
        assertThat(q.name === p.name && q.in === p.type && (q.required === true) === want && q.explode === p.explode, 'a parameter is documented wrongly', { parameter: show(p), documented: q, components: show(ir2.components) }, 'parameter');
        check(q.schema, p.schema, 'parameter ' + p.name, ir2.accepts(p.schema, undefined));
      });
      if (r.body) check(op.requestBody.content['application/json'].schema, r.body, 'body');
      for (const c of Object.keys(r.response)) check(op.responses[c].content['application/json'].schema, r.response[c], 'response ' + c);
    }
    for (const [name, c] of Object.entries(ir2.components)) {
      if (c.type === 'undefined') continue;
      check(doc.components.schemas[name], c, 'component ' + name);
      if (ir2.accepts(c, undefined)) obs.count('optional component');
    }
    if (ir2.renamed) obs.count('renamed component');
  },
};
