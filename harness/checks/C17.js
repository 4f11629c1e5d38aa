'use strict';
const { assertThat, Violation } = require('../lib/mon');
const { Project } = require('../lib/oagen');
const { Spec } = require('../lib/oaroutes');
const { Evaluator } = require('../lib/oaschema');

const isLeft = (e) => e._tag === 'Left';
const clone = (v) => (v === undefined ? undefined : JSON.parse(JSON.stringify(v)));
const IN = { params: 'path', query: 'query', headers: 'header' };

module.exports = {
  packages: ['openapi-generator', 'io-ts-http'],
  cases: { quick: 240, thorough: 3000 },
  rule:
    'Random specifications (2-6 routes; parameters, bodies and responses from shared, spread, named and imported declarations; intersected and alternative requests; nested and several specifications; routes, actions and paths in declarations of any file) are given to the command-line tool; the same sources are executed. The operations of the document are compared with the routes found at run time, and for every declared parameter, body and response status the document is compared with what the real codecs decode: the parameter is deleted, replaced and mutated in valid requests. Non-trivial: a parameter both required and accepted/rejected; fingerprint = operation.',
  mustObserve: ['operation', 'required parameter', 'optional parameter', 'path parameter', 'query parameter', 'header parameter', 'body compared', 'response compared', 'no body', 'intersected requests', 'request union', 'named request', 'named request part', 'shared section', 'spread section', 'shared responses', 'declared route', 'declared action', 'action of another file', 'two specifications', 'spread plain actions', 'spread specification', 'named path', 'body beside httpRequest', 'value accepted', 'value rejected'],
  minimum: { quick: 12000, thorough: 150000 },
  assumptions: [
    'a parameter of alternative requests is documented by the first alternative that has it, and the query parameters of alternatives together (pinned by the existing tests): alternatives share header and path codecs here, and whether they are required is not judged',
    'not generated: two routes of the same path and method, paths with `:id` placeholders',
  ],
  init(env) {
    env.lab = require('../lib/oalab')(env.B);
  },
  async run(env, rng) {
    const { lab, obs } = env;
    const proj = new Project(rng, { types: true, open: rng.chance(0.1), decls: rng.int(2, 6) }).build();
    const spec = new Spec(proj, rng).build();
    const files = proj.render();
    const p = lab.project(files);
    const r = await lab.generate(p.dir);
    p.dispose();
    let mod;
    try {
      mod = lab.load(files);
    } catch (e) {
      throw new Error('cannot run the generated project: ' + e.stack + '\n' + lab.show(files));
    }
    const doc = r.doc;
    const say = (extra) => ({ ...extra, source: lab.show(files), document: JSON.stringify(doc) });
    assertThat(r.code === 0 && doc, 'a specification of supported constructs is refused', say({ exit: r.code, stderr: r.err.slice(-1500) }), 'refused');
    for (const s of spec.stats) obs.count(s);
    for (const s of proj.stats) obs.count(s);

    // the operations
    const real = new Map();
    spec.specs.forEach((s, i) => {
      for (const action of Object.values(mod['__spec' + i])) for (const [m, route] of Object.entries(action)) real.set(`${m} ${route.path}`, route);
    });
    const want = [...real.keys()].sort();
    const got = Object.entries(doc.paths).flatMap(([path, item]) => Object.keys(item).map((m) => `${m} ${path}`)).sort();
    assertThat(JSON.stringify(want) === JSON.stringify(got), 'the document does not have exactly the declared operations', say({ declared: want, documented: got }), 'operations');
    assertThat(spec.routes.length === real.size, 'harness: routes lost', say({}));

    const ev = new Evaluator(doc);
    const accepts = (schema, v, where) => {
      try {
        return ev.accepts(schema, v);
      } catch (e) {
        throw new Violation('the generated schema cannot be evaluated: ' + e.message, say({ where, schema }), 'evaluation');
      }
    };
    for (const plan of spec.routes) {
      const key = `${plan.method} ${plan.path}`;
      const route = real.get(key);
      const op = doc.paths[plan.path][plan.method];
      obs.count('operation');
      const decodes = (req) => !isLeft(route.request.decode(clone(req)));
      // parameters: exactly the declared ones, each once
      const declared = new Map();
      let bodyNames = false;
      for (const part of plan.req.parts) {
        for (const w of ['params', 'query', 'headers']) for (const e of (part[w] && part[w].all) || []) declared.set(IN[w] + ' ' + e.name, { w, name: e.name, node: e.node });
        if (part.body || part.rawBody) bodyNames = true;
      }
      const isUnion = plan.req.kind === 'union';
      const names = [...declared.keys()].filter((k) => !(isUnion && k.startsWith('query ')));
      if (isUnion && [...declared.keys()].some((k) => k.startsWith('query '))) names.push('query union');
      const docNames = op.parameters.map((x) => `${x.in} ${x.name}`);
      assertThat(JSON.stringify(names.slice().sort()) === JSON.stringify(docNames.slice().sort()), 'the documented parameters are not the declared ones', say({ operation: key, declared: names, documented: docNames }), 'parameters');
      assertThat(JSON.stringify(Object.keys(route.response).sort()) === JSON.stringify(Object.keys(op.responses).sort()), 'the documented statuses are not the declared ones', say({ operation: key, declared: Object.keys(route.response), documented: Object.keys(op.responses) }), 'statuses');
      assertThat(!!op.requestBody === bodyNames, 'a body is documented exactly if one is declared', say({ operation: key, requestBody: op.requestBody }), 'body presence');
      if (!bodyNames) obs.count('no body');

      // valid requests to start from
      const bases = [];
      for (let i = 0; i < 60 && bases.length < 4; i++) {
        const v = clone(spec.requestValue(plan.req, rng));
        if (v.body === undefined) delete v.body;
        if (decodes(v)) bases.push(v);
      }
      if (!bases.length) obs.count('no valid request found');
      for (const dp of op.parameters) {
        const id = `${dp.in} ${dp.name}`;
        obs.count(dp.in + ' parameter');
        if (dp.in === 'path') assertThat(dp.required === true, 'a path parameter is not required', say({ operation: key, parameter: id }), 'path required');
        const what = declared.get(id);
        if (id === 'query union' && !what) {
          for (const b of bases) assertThat(accepts(dp.schema, b.query, id), 'the query of an accepted request is rejected by its schema', say({ operation: key, query: JSON.stringify(b.query), schema: JSON.stringify(dp.schema) }), 'query union');
          // whatever no alternative accepts must be rejected
          for (const b of bases) {
            const v = clone(b);
            v.query = proj.mutate(rng, v.query);
            const alts = route.request.types;
            const ok = alts.some((alt, i) => {
              for (let j = 0; j < 10; j++) {
                const w = clone(spec.partValue(plan.req.parts[i], rng, { params: {}, query: {}, headers: {} }));
                if (!isLeft(alt.decode(clone(w)))) return !isLeft(alt.decode({ ...w, query: clone(v.query) }));
              }
              return true;
            });
            obs.judged();
            if (!ok && !proj.isOpen && v.query && typeof v.query === 'object' && !Array.isArray(v.query)) assertThat(!accepts(dp.schema, v.query, id), 'a query no alternative accepts is accepted by the schema', say({ operation: key, query: JSON.stringify(v.query), schema: JSON.stringify(dp.schema) }), 'query union accepts');
          }
          continue;
        }
        for (const b of bases) {
          const has = b[what.w] && what.name in b[what.w];
          if (!isUnion && dp.in !== 'path') {
            const v = clone(b);
            delete v[what.w][what.name];
            const required = !decodes(v);
            obs.judged();
            obs.count(required ? 'required parameter' : 'optional parameter');
            assertThat(required === (dp.required === true), required ? 'a parameter the server insists on is documented as optional' : 'a parameter the server can do without is documented as required', say({ operation: key, parameter: id, without: v, documented: dp }), required ? 'required' : 'optional');
          }
          if (has) {
            obs.judged();
            assertThat(accepts(dp.schema, b[what.w][what.name], id), 'the value of an accepted request is rejected by the schema of the parameter', say({ operation: key, parameter: id, value: JSON.stringify(b[what.w][what.name]), documented: dp }), 'parameter rejects');
          }
          if (isUnion) continue;
          let yes = 0;
          let no = 0;
          for (let i = 0; i < 4; i++) {
            const v = clone(b);
            v[what.w] = v[what.w] || {};
            const x = clone(rng.chance(0.6) ? proj.mutate(rng, has ? b[what.w][what.name] : 'x') : proj.json(rng, 1));
            if (x === undefined) continue;
            v[what.w][what.name] = x;
            const ok = decodes(v);
            const doc2 = accepts(dp.schema, x, id);
            obs.judged();
            ok ? yes++ : no++;
            obs.count(ok ? 'value accepted' : 'value rejected');
            if (ok || !proj.isOpen) assertThat(ok === doc2, ok ? 'the schema of a parameter rejects a value the server accepts' : 'the schema of a parameter accepts a value the server rejects', say({ operation: key, parameter: id, value: JSON.stringify(x), documented: dp }), ok ? 'parameter rejects' : 'parameter accepts');
          }
          if (yes && no) obs.nontrivial(`${key} ${id} ${JSON.stringify(dp.schema)}`);
        }
      }
      if (op.requestBody) {
        const schema = op.requestBody.content['application/json'].schema;
        for (const b of bases) {
          for (let i = 0; i < 6; i++) {
            const v = clone(b);
            if (i) v.body = clone(proj.mutate(rng, b.body === undefined ? {} : b.body));
            if (v.body === undefined) continue;
            let ok;
            if (isUnion) {
              const alts = route.request.types;
              ok = i ? alts.some((alt, j) => {
                for (let k = 0; k < 10; k++) {
                  const w = clone(spec.partValue(plan.req.parts[j], rng, { params: {}, query: {}, headers: {} }));
                  if (!isLeft(alt.decode(clone(w)))) return !isLeft(alt.decode({ ...w, body: clone(v.body) }));
                }
                return false;
              }) : true;
              if (i && ok === false) {
                // an alternative without a sample cannot be asked
                continue;
              }
            } else ok = decodes(v);
            const d = accepts(schema, v.body, 'body');
            obs.judged();
            obs.count('body compared');
            obs.count(ok ? 'value accepted' : 'value rejected');
            if (ok || !proj.isOpen) assertThat(ok === d, ok ? 'the schema of the body rejects a body the server accepts' : 'the schema of the body accepts a body the server rejects', say({ operation: key, body: JSON.stringify(v.body), schema: JSON.stringify(schema) }), ok ? 'body rejects' : 'body accepts');
          }
        }
      }
      for (const [status, x] of plan.res.all) {
        const schema = op.responses[status].content['application/json'].schema;
        for (let i = 0; i < 8; i++) {
          let v = clone(proj.value(x.node, rng));
          if (i > 3) v = clone(proj.mutate(rng, v === undefined ? null : v));
          if (v === undefined) continue;
          const ok = !isLeft(route.response[status].decode(clone(v)));
          const d = accepts(schema, v, 'response');
          obs.judged();
          obs.count('response compared');
          if (ok || !proj.isOpen) assertThat(ok === d, ok ? 'the schema of a response rejects a value its codec accepts' : 'the schema of a response accepts a value its codec rejects', say({ operation: key, status, value: JSON.stringify(v), schema: JSON.stringify(schema) }), ok ? 'response rejects' : 'response accepts');
        }
      }
      obs.sample({ operation: key, kind: plan.req.kind, parameters: docNames, statuses: Object.keys(op.responses), bases: bases.length });
    }
  },
};
