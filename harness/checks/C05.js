'use strict';
const { assertThat, assertEqual, Violation, show } = require('../lib/mon');
const { deepClone, deepFreeze } = require('../lib/freeze');
const { Lab } = require('../lib/http');
const util = require('util');

const decimal = (_, x) => (typeof x === 'bigint' ? String(x) : x);

module.exports = {
  packages: ['io-ts-http', 'superagent-wrapper', 'typed-express-router'],
  cases: { quick: 2500, thorough: 40000 },
  rule:
    'Random specifications (1-4 operations, all five methods, templates with 0-3 parameters, every section, object and raw bodies including falsy ones) called through generated superagent and supertest clients with random valid values (reserved, template-like, Unicode, falsy) against a loopback server mounted at a random base path; the raw request and the server-side decode are compared with the model. Fingerprint = method, template, factory, base, codecs used.',
  mustObserve: ['superagent call', 'supertest call', 'path param', 'query list', 'header', 'json body', 'body with bigints', 'falsy raw body', 'client shape', 'undefined route rejected', 'concurrent batch'],
  assumptions: [
    'path parameter values are non-empty well-formed strings other than . and ..',
    'header values are visible ASCII (inner spaces allowed); query lists have 2..20 elements (a list of one is sent as a plain value by the HTTP libraries; 20 is the server parser limit)',
  ],
  async init(env) {
    const C = (env.C = require('../lib/codecs')(env.B));
    const M = (env.M = require('../lib/model')(C));
    const R = (env.R = require('../lib/requests')(C, M));
    env.S = require('../lib/specs')(C, M, R);
    env.sw = env.B.load('superagent-wrapper');
    env.ter = env.B.load('typed-express-router');
    env.superagent = env.B.dep('superagent');
    env.supertest = env.B.dep('supertest');
    env.express = env.B.dep('express');
    // codecs whose encoding holds bigints, which JSON has no form for: they travel as decimal strings
    const { t } = C;
    const big = new t.Type('bigint', (u) => typeof u === 'bigint', (u, c) => (typeof u === 'bigint' ? t.success(u) : typeof u === 'string' && /^-?[0-9]+$/.test(u) ? t.success(BigInt(u)) : t.failure(u, c)), t.identity);
    const gen = (rng) => BigInt(rng.int(-1000000, 1000000)) * (rng.chance(0.5) ? 1n : 9007199254740993n);
    env.bigs = {
      label: 'bigints',
      codec: t.type({ n: big, list: t.array(big), deep: t.type({ r: t.record(t.string, big), s: t.string }) }),
      gen: (rng) => ({ n: gen(rng), list: [gen(rng), gen(rng)].slice(rng.int(0, 2)), deep: { r: { [C.word(rng)]: gen(rng) }, s: '12' } }),
    };
    env.lab = new Lab();
    await env.lab.start();
  },
  finish(env) {
    env.lab.stop();
  },
  async run(env, rng) {
    const { C, M, R, S, sw, obs, lab, express } = env;
    const { h, t, T } = C;
    const nOps = rng.int(1, 4);
    const ops = [];
    const opts = { allowDefault: false };
    for (let i = 0; i < nOps; i++) ops.push(S.operation(rng, i, { opts }));
    // several methods under one name
    if (nOps > 1 && rng.chance(0.4)) {
      const m = rng.pick(S.METHODS.filter((x) => x !== ops[0].method));
      const o = ops[1];
      ops[1] = { ...o, apiName: ops[0].apiName, method: m, route: { ...o.route, method: m.toUpperCase() } };
    }
    // a raw (non-object-shorthand) request codec
    if (rng.chance(0.5)) {
      const i = ops.length;
      const f = rng.chance(0.25) ? env.bigs : C.leaf(rng.pick(C.jsonLeaves.filter((l) => !/null/.test(l.label))));
      const method = rng.pick(['post', 'put', 'patch']);
      const request = t.type({ params: t.type({}), query: t.type({}), body: f.codec });
      ops.push({
        raw: f, apiName: 'raw' + i, method, path: `/op${i}/raw`, segs: [`op${i}`, 'raw'], secs: {}, request,
        route: h.httpRoute({ path: `/op${i}/raw`, method: method.toUpperCase(), request, response: { 200: t.string } }),
        describe: () => ({ apiName: 'raw' + i, method, path: `/op${i}/raw`, rawBody: f.label }),
      });
    }
    const spec = S.specOf(ops);
    const specKeys = Object.fromEntries(Object.keys(spec).map((k) => [k, Object.keys(spec[k]).sort()]));

    // server: independent raw recorder + decode by the real router
    const mount = rng.pick(['', '', '/base', '/base/v2', '/b%20c', '/a.b/~c']);
    const log = [];
    const app = express();
    app.use((req, res, next) => {
      lab.touch();
      req.rec = { method: req.method, url: req.originalUrl, headers: req.headers };
      log.push(req.rec);
      next();
    });
    app.use(express.json({ strict: false }));
    const router = env.ter.createRouter(spec);
    for (const o of ops) {
      router[o.method](o.apiName, [(req, res) => {
        req.rec.decoded = o.raw ? { params: req.decoded.params, query: req.decoded.query, body: req.decoded.body } : req.decoded;
        req.rec.hit = o;
        req.rec.params = req.params;
        req.rec.query = req.query;
        req.rec.body = req.body;
        res.status(200).json('ok');
      }]);
    }
    app.use(mount || '/', router);
    lab.app = app;

    const factoryKind = rng.pick(['superagent', 'supertest']);
    const slash = rng.chance(0.3) ? '/' : '';
    const factory = factoryKind === 'superagent'
      ? sw.superagentRequestFactory(env.superagent, lab.base + mount + slash)
      : sw.supertestRequestFactory(mount ? env.supertest(lab.base + mount) : env.supertest(lab.base));
    const client = sw.buildApiClient(factory, spec);
    obs.judged();
    obs.count('client shape');
    const shape = Object.fromEntries(Object.keys(client).map((k) => [k, Object.keys(client[k]).sort()]));
    assertEqual(shape, specKeys, 'the client does not expose exactly the operations and methods of the specification', { spec: specKeys }, 'client-shape');
    for (const k of Object.keys(client)) for (const m of Object.keys(client[k])) assertThat(typeof client[k][m] === 'function', 'a client operation is not callable', { k, m }, 'client-callable');

    if (rng.chance(0.2)) {
      let threw = false;
      try {
        sw.buildApiClient(factory, { ...spec, broken: { [rng.pick(S.METHODS)]: undefined } });
      } catch (e) {
        threw = true;
      }
      obs.count('undefined route rejected');
      assertThat(threw, 'a client was built from a specification with an undefined route', {}, 'undefined-route');
    }

    const calls = [];
    for (let i = rng.int(2, 5); i > 0; i--) {
      const op = rng.pick(ops);
      let v;
      if (op.raw) {
        const b = op.raw.label === 'string' ? rng.pick(['', C.word(rng)]) : op.raw.label === 'boolean' ? rng.chance(0.5) : op.raw.label === 'number' ? rng.pick([0, 5, -2.5]) : op.raw.gen(rng);
        v = { params: {}, query: {}, body: b };
      } else v = R.value(rng, op.secs);
      calls.push({ op, v });
    }
    const perform = async ({ op, v }) => {
      const where = { op: op.describe(), value: v, factory: factoryKind, mount: mount + slash };
      const input = deepFreeze(deepClone(v));
      let req;
      try {
        req = client[op.apiName][op.method](input);
      } catch (e) {
        throw new Violation('a client call with a valid value threw', { ...where, error: String(e && e.stack) }, 'call-throws');
      }
      let res;
      try {
        res = await lab.settle(req.decode(), 'a client call never completed', where);
      } catch (e) {
        if (e instanceof Violation) throw e;
        throw new Violation('a client call with a valid value failed', { ...where, error: String(e && e.stack), seen: log.map((l) => l.method + ' ' + l.url) }, 'call-fails');
      }
      assertThat(util.isDeepStrictEqual(input, v), 'a client call modified its argument', where, 'call-mutates');
      return res;
    };
    const judge = ({ op, v }, rec, res) => {
      const where = { op: op.describe(), value: v, factory: factoryKind, mount: mount + slash, received: rec && { method: rec.method, url: rec.url, body: rec.body } };
      obs.judged();
      obs.count(factoryKind + ' call');
      assertThat(rec.method === op.method.toUpperCase(), 'the request was sent with the wrong method', where, 'method');
      const want = op.raw ? { params: {}, query: {}, body: op.raw.codec.encode(v.body) } : op.model.encode(v);
      const wantPath = mount + S.pathFor(op, want.params);
      const gotPath = rec.url.split('?')[0];
      const norm = (p) => p.split('/').map((s) => { try { return decodeURIComponent(s); } catch (e) { return 'MALFORMED:' + s; } });
      assertEqual(norm(gotPath), norm(wantPath), 'the request was sent to the wrong path', where, 'path');
      assertThat(rec.hit === op, 'the request did not reach the operation it was made for', { ...where, reached: rec.hit && rec.hit.describe(), answer: show(res && { status: res.status, body: res.body, error: res.error }) }, 'wrong-op');
      for (const s of rec.hit.segs) if (s.param) {
        obs.count('path param');
        assertThat(rec.params[s.param] === want.params[s.param], 'a path parameter arrived changed', { ...where, name: s.param, got: rec.params[s.param] }, 'path-param');
      }
      assertEqual({ ...rec.query }, want.query, 'the query arrived changed', where, 'query');
      if (Object.values(want.query).some(Array.isArray)) obs.count('query list');
      for (const k of Object.keys(op.secs.headers || {})) {
        obs.count('header');
        assertThat(rec.headers[k] === want.headers[k], 'a header arrived changed', { ...where, name: k, got: rec.headers[k], want: want.headers[k] }, 'header');
      }
      if (op.raw || op.secs.body) {
        obs.count(op.raw && !want.body ? 'falsy raw body' : 'json body');
        if (op.raw === env.bigs) obs.count('body with bigints');
        assertEqual(rec.body, JSON.parse(JSON.stringify(want.body, decimal)), 'the body arrived changed', { ...where, got: rec.body }, 'body');
        assertThat(/^application\/json\b/.test(rec.headers['content-type'] || ''), 'the body was not sent as JSON', { ...where, got: rec.headers['content-type'] }, 'content-type');
      } else {
        assertThat(!rec.headers['content-length'] || rec.headers['content-length'] === '0', 'a body was sent though none is declared', { ...where, headers: rec.headers }, 'unexpected-body');
      }
      assertEqual(rec.decoded, op.raw ? v : R.dropUndefined(v), 'the server decoded another value than the client was given', where, 'decoded');
      assertThat(res.status === 200 && res.body === 'ok', 'the answer did not come back', { ...where, res: show(res && { status: res.status, body: res.body }) }, 'answer');
      obs.nontrivial([op.method, op.path, factoryKind, mount, JSON.stringify(R.describe(op.secs)), op.raw ? op.raw.label : ''].join(' '));
      if (rng.chance(0.005)) obs.sample(where);
    };

    if (rng.chance(0.25)) {
      // all at once: nothing may be lost, duplicated or confused
      obs.count('concurrent batch');
      const results = await Promise.all(calls.map(perform));
      assertThat(log.length === calls.length, 'the number of requests differs from the number of calls', { calls: calls.length, requests: log.length }, 'count');
      const left = log.slice();
      calls.forEach((c, i) => {
        const enc = c.op.raw ? { params: {} } : c.op.model.encode(c.v);
        const at = left.findIndex((r) => r.hit === c.op && util.isDeepStrictEqual(r.decoded, c.op.raw ? c.v : R.dropUndefined(c.v)));
        assertThat(at >= 0, 'no received request carries the value of this call', { op: c.op.describe(), value: c.v, received: left.map((r) => [r.method, r.url, r.decoded]), enc }, 'lost');
        judge(c, left.splice(at, 1)[0], results[i]);
      });
    } else {
      for (const c of calls) {
        const n = log.length;
        const res = await perform(c);
        assertThat(log.length === n + 1, 'a call did not send exactly one request', { op: c.op.describe(), value: c.v, sent: log.slice(n).map((l) => l.method + ' ' + l.url) }, 'count');
        judge(c, log[n], res);
      }
    }
  },
};
