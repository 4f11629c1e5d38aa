'use strict';
// Routing: which operation's handler runs for which request path, with which parameters.
const { Lab } = require('../lib/http');
const { Violation, assertThat, assertEqual } = require('../lib/mon');

const METHODS = ['get', 'post', 'put', 'delete', 'patch'];
const LITS = ['a', 'b', 'items', 'v1', 'users', 'a.b', 'x-y', 'list_all', '~me', 'deep', '2024', 'id', 'name'];
const NAMES = ['id', 'id2', 'userId', 'user', 'name', 'x', 'key', 'item_id', 'n1', 'ID', '_x', 'a'];
const HOSTILE = ['a/b', 'a b', '%', '%41', '{id}', ':id', '+', 'é', '😀', '?x=1', '#h', '&', '..a', 'a;b', '\\', 'null', '0', '*', '(x)', 'A', '\u2028', "'", '"', '<>', 'a,b', '=', '@', '!$'];

module.exports = {
  packages: ['io-ts-http', 'typed-express-router'],
  uncaughtIsViolation: true,
  cases: { quick: 1500, thorough: 30000 },
  rule:
    'Random sets of 1-7 operations with overlapping templates of 0-5 segments (several parameters, prefix/suffix-decorated parameters), route aliases, shared paths with several methods, plain Express routes on a wrapped router, one or two routers mounted directly, below a prefix, or below a parameterised prefix; requests derived from the templates and mutated (hostile characters, trailing slash, extra or missing segments, other methods). A matcher written independently of Express predicts which handlers run, with which parameters. Fingerprint = templates entered, values class, fall-through.',
  mustObserve: ['matched', 'fell through', 'by alias', 'second match after next', 'mounted', 'mounted below a parameter', 'two routers', 'wrapRouter', 'createRouter', 'several parameters', 'decorated parameter', 'hostile value', 'unchecked', 'method mismatch', 'trailing slash', 'undeclared method refused', 'case-sensitive', 'strict', 'plain route on the wrapped router'],
  assumptions: ['templates use simple parameters with word-character names, at most one per segment; literal segments contain no Express pattern characters'],
  async init(env) {
    env.h = env.B.load('io-ts-http');
    env.ter = env.B.load('typed-express-router');
    env.express = env.B.dep('express');
    env.t = env.B.dep('io-ts');
    env.lab = new Lab();
    await env.lab.start();
  },
  finish(env) {
    env.lab.stop();
  },
  async run(env, rng) {
    const { h, ter, express, t, lab, obs } = env;
    // ---- templates: lists of segments {lit} | {param, pre, suf}
    const pool = rng.sample(LITS, rng.int(2, 5));
    const template = (names) => {
      const segs = [];
      const left = names.slice();
      let n = rng.int(left.length ? left.length : 1, 4);
      while (left.length || n > 0) {
        if (left.length && (n <= left.length || rng.chance(0.5))) {
          const s = { param: left.shift(), pre: '', suf: '' };
          if (rng.chance(0.12)) s.pre = rng.pick(['v', 'p-']);
          if (rng.chance(0.12)) s.suf = rng.pick(['-x', '.json', '~']);
          segs.push(s);
        } else segs.push({ lit: rng.pick(pool) });
        n--;
      }
      return segs;
    };
    const show = (segs, p) => '/' + segs.map((s) => s.lit ?? s.pre + p(s.param) + s.suf).join('/');
    const spec = (segs) => show(segs, (n) => `{${n}}`);
    const colon = (segs) => show(segs, (n) => `:${n}`);

    const log = new Map();
    const ev = (req, e) => {
      lab.touch();
      const id = req.headers['x-req'];
      if (!log.has(id)) log.set(id, []);
      log.get(id).push(e);
    };
    const scripts = new Map();

    const makeRouter = (r) => {
      const opts = {};
      if (rng.chance(0.2)) opts.caseSensitive = true;
      if (rng.chance(0.2)) opts.strict = true;
      const ops = [];
      const used = new Set();
      const n = rng.int(1, r === 0 ? 6 : 3);
      for (let i = 0; i < n; i++) {
        const base = ops.length && rng.chance(0.25) ? rng.pick(ops) : null;
        const names = base ? base.names : rng.sample(NAMES, rng.weighted([[2, 0], [4, 1], [3, 2], [1, 3]]));
        const segs = base ? base.segs : template(names);
        let apiName = `r${r}.op${i}`;
        let method = rng.pick(METHODS);
        if (base && rng.chance(0.5)) apiName = base.apiName;
        if (used.has(apiName + method)) continue;
        used.add(apiName + method);
        const aliases = [];
        if (rng.chance(0.35)) for (let k = rng.int(1, 2); k > 0; k--) aliases.push(template(rng.shuffle(names)));
        const props = {};
        for (const nm of names) props[nm] = t.string;
        const route = h.httpRoute({
          path: spec(segs),
          method: method.toUpperCase(),
          request: h.httpRequest(names.length || rng.chance(0.5) ? { params: props } : {}),
          response: { 200: t.unknown },
        });
        ops.push({ r, apiName, method, segs, names, aliases, route, checked: rng.chance(0.7), via: rng.chance(0.4) ? 'sendEncoded' : 'json' });
      }
      const apiSpec = {};
      for (const o of ops) (apiSpec[o.apiName] = apiSpec[o.apiName] || {})[o.method] = o.route;
      // a declared-but-undefined method must be refused at registration, not at runtime
      let undefinedProbe;
      if (rng.chance(0.2)) {
        const o = rng.pick(ops);
        const m = METHODS.find((x) => !apiSpec[o.apiName][x]);
        if (m) {
          if (rng.chance(0.5)) apiSpec[o.apiName][m] = undefined;
          undefinedProbe = [o.apiName, m];
        }
      }
      const S = h.apiSpec(apiSpec);
      const entries = [];
      const factory = rng.pick(['createRouter', 'wrapRouter']);
      let router;
      if (factory === 'createRouter') router = ter.createRouter(S, opts);
      else {
        const inner = express.Router(opts);
        if (rng.chance(0.4)) {
          const segs = template([]);
          const m = rng.pick(METHODS);
          inner[m](colon(segs), (req, res, next) => {
            ev(req, { plain: spec(segs), m });
            if (scripts.get(req.headers['x-req']).passes > 0) {
              scripts.get(req.headers['x-req']).passes--;
              next();
            } else res.status(211).json({ plain: spec(segs) });
          });
          entries.push({ kind: 'plain', method: m, segs });
        }
        router = ter.wrapRouter(inner, S, {});
        if (rng.chance(0.4)) {
          // the wrapped router still is an Express router
          const segs = template([]);
          const m = rng.pick(METHODS);
          router.route(colon(segs))[m]((req, res, next) => {
            ev(req, { plain: spec(segs), m });
            if (scripts.get(req.headers['x-req']).passes > 0) {
              scripts.get(req.headers['x-req']).passes--;
              next();
            } else res.status(211).json({ plain: spec(segs) });
          });
          obs.count('plain route on the wrapped router');
          entries.push({ kind: 'plain', method: m, segs });
        }
      }
      if (undefinedProbe) {
        let threw = false;
        try {
          router[undefinedProbe[1] + (rng.chance(0.5) ? 'Unchecked' : '')](undefinedProbe[0], [(q, s) => s.end()]);
        } catch (e) {
          threw = true;
        }
        assertThat(threw, 'a route was registered for a method the operation does not have', { undefinedProbe }, 'undeclared-method');
        obs.count('undeclared method refused');
      }
      const order = rng.shuffle(ops);
      const omit = rng.chance(0.2) && order.length > 1 ? order.pop() : null; // not every operation needs a handler
      void omit;
      for (const o of order) {
        const handler = (req, res, next) => {
          ev(req, { op: o, decoded: req.decoded, apiName: req.apiName, route: req.httpRoute, params: { ...req.params } });
          const s = scripts.get(req.headers['x-req']);
          const go = () => {
            if (s.passes > 0) {
              s.passes--;
              next();
            } else if (o.via === 'json') res.status(200).json({ op: o.apiName, m: o.method });
            else res.sendEncoded(200, { op: o.apiName, m: o.method });
          };
          if (s.delay) lab.delay(s.delay).then(go);
          else go();
        };
        const aliases = o.aliases.map(colon);
        router[o.method + (o.checked ? '' : 'Unchecked')](o.apiName, [handler], ...(aliases.length || rng.chance(0.3) ? [{ routeAliases: aliases.length ? aliases : undefined }] : []));
        entries.push({ kind: 'path', method: o.method, segs: o.segs, op: o });
        for (const a of o.aliases) entries.push({ kind: 'alias', method: o.method, segs: a, op: o });
      }
      obs.count(factory);
      if (opts.caseSensitive) obs.count('case-sensitive');
      if (opts.strict) obs.count('strict');
      return { router, entries, opts, ops, factory };
    };

    const nRouters = rng.chance(0.3) ? 2 : 1;
    const routers = Array.from({ length: nRouters }, (_, r) => makeRouter(r));
    const app = express();
    for (const r of routers) {
      r.mount = rng.weighted([[4, []], [2, [{ lit: 'api' }]], [1, [{ lit: 'api' }, { lit: 'v2' }]], [1, [{ lit: 't' }, { param: 'tenant', pre: '', suf: '' }]]]);
      if (r.mount.length === 0) app.use(r.router);
      else if (rng.chance(0.3)) {
        const outer = express.Router();
        outer.use(r.router);
        app.use(colon(r.mount), outer);
      } else app.use(colon(r.mount), r.router);
    }
    app.use((req, res) => {
      ev(req, { fall: true, url: req.url, decoded: req.decoded, apiName: req.apiName, se: res.sendEncoded });
      res.status(404).json({ fall: true });
    });
    // eslint-disable-next-line no-unused-vars
    app.use((err, req, res, next) => {
      ev(req, { error: String(err && err.message) });
      res.status(err.status || 500).json({ error: true });
    });
    lab.app = app;

    // ---- independent matcher
    const dec = (x) => decodeURIComponent(x);
    const matchSeg = (s, raw, cs) => {
      const eq = (a, b) => (cs ? a === b : a.toLowerCase() === b.toLowerCase());
      if (s.lit !== undefined) return eq(raw, s.lit) ? {} : null;
      if (raw.length <= s.pre.length + s.suf.length) return null;
      if (!eq(raw.slice(0, s.pre.length), s.pre)) return null;
      if (!eq(raw.slice(raw.length - s.suf.length), s.suf) && s.suf) return null;
      return { [s.param]: dec(raw.slice(s.pre.length, raw.length - s.suf.length)) };
    };
    const match = (mount, segs, rawSegs, trailing, opts) => {
      if (rawSegs.length !== mount.length + segs.length) return null;
      if (trailing && opts.strict) return null;
      const out = {};
      for (let i = 0; i < rawSegs.length; i++) {
        const inMount = i < mount.length;
        const m = matchSeg(inMount ? mount[i] : segs[i - mount.length], rawSegs[i], inMount ? false : opts.caseSensitive);
        if (!m) return null;
        if (!inMount) Object.assign(out, m);
      }
      return out;
    };

    const nReq = rng.int(4, 10);
    const reqs = [];
    for (let q = 0; q < nReq; q++) {
      const R = rng.pick(routers);
      const e = rng.pick(R.entries);
      const all = [...R.mount, ...e.segs];
      let hostile = false;
      const raws = all.map((s) => {
        if (s.lit !== undefined) return rng.chance(0.06) ? s.lit.toUpperCase() : s.lit;
        let v;
        if (rng.chance(0.3)) {
          v = rng.pick(HOSTILE);
          hostile = true;
        } else v = rng.chance(0.3) ? rng.pick(pool) : rng.pick(['1', 'abc', '42x', 'x_y', 'Zed', 'undefined']);
        return s.pre + encodeURIComponent(v) + s.suf;
      });
      if (rng.chance(0.08)) raws.splice(rng.int(0, raws.length), 1);
      if (rng.chance(0.08)) raws.splice(rng.int(0, raws.length), 0, rng.pick(pool));
      const trailing = raws.length > 0 && rng.chance(0.1);
      const method = rng.chance(0.12) ? rng.pick(METHODS) : e.method;
      const path = '/' + raws.join('/') + (trailing ? '/' : '') + (rng.chance(0.2) ? '?' + rng.pick(['id=zzz&x=y', 'a', '', 'name=/a/b']) : '');
      reqs.push({ id: String(q), raws, trailing, method, path, hostile, passes: rng.chance(0.3) ? rng.int(1, 3) : 0, delay: rng.chance(0.3) ? rng.int(1, 8) : 0 });
    }
    const desc = (r) => ({
      routers: routers.map((x) => ({ mount: colon(x.mount), opts: x.opts, factory: x.factory, entries: x.entries.map((e) => `${e.kind} ${e.method} ${spec(e.segs)} ${e.op ? e.op.apiName + (e.op.checked ? '' : ' unchecked') : ''}`) })),
      request: `${r.method} ${r.path}`, passes: r.passes0, observed: (log.get(r.id) || []).map((e) => (e.op ? { op: e.op.apiName, m: e.op.method, decoded: e.decoded, apiName: e.apiName } : e)),
    });
    for (const r of reqs) {
      r.passes0 = r.passes;
      scripts.set(r.id, r);
    }
    const one = async (r) => {
      let res;
      try {
        res = await lab.settle(lab.request({ method: r.method.toUpperCase(), path: r.path, headers: { 'x-req': r.id } }), 'a request was never answered', desc(r));
      } catch (e) {
        if (e instanceof Violation) throw e;
        throw new Violation('the connection broke', { ...desc(r), error: String(e) }, 'broken');
      }
      r.res = res;
    };
    if (rng.chance(0.5)) {
      const all = await Promise.allSettled(reqs.map(one));
      const bad = all.find((x) => x.status === 'rejected');
      if (bad) throw bad.reason;
    } else for (const r of reqs) await one(r);

    for (const r of reqs) {
      // ---- prediction
      const visits = [];
      let passes = r.passes0;
      let end = null;
      let anyPath = false;
      outer: for (const R of routers) {
        for (const e of R.entries) {
          const params = match(R.mount, e.segs, r.raws, r.trailing, R.opts);
          if (!params) continue;
          anyPath = true;
          if (e.method !== r.method) continue;
          visits.push({ e, params, R });
          if (passes > 0) {
            passes--;
            continue;
          }
          end = e;
          break outer;
        }
      }
      const got = log.get(r.id) || [];
      const where = { ...desc(r), expected: visits.map((v) => [v.e.kind, v.e.op && v.e.op.apiName, v.params]), status: r.res.status, body: r.res.text };
      obs.judged();
      const label = (g) => (g.op ? `op ${g.op.apiName} ${g.op.method}` : g.plain !== undefined ? 'plain ' + g.plain : g.error ? 'error' : 'fall');
      const want = visits.map((v) => (v.e.op ? `op ${v.e.op.apiName} ${v.e.method}` : 'plain ' + spec(v.e.segs)));
      if (!end) want.push('fall');
      assertEqual(got.map(label), want, 'the wrong handlers ran for a request path', where, 'routing');
      visits.forEach((v, i) => {
        const g = got[i];
        if (!v.e.op) return;
        const value = g.op.checked ? g.decoded : g.decoded && g.decoded.right;
        const expected = {};
        for (const n of v.e.op.names) expected[n] = v.params[n];
        assertEqual(value, expected, 'path parameters did not arrive under their template names, decoded', where, 'params');
        assertThat(g.apiName === v.e.op.apiName && g.route === v.e.op.route, "the handler did not see its own operation's name and route", where, 'identity');
      });
      if (end) {
        assertThat(r.res.status === (end.op ? 200 : 211), 'wrong status', where, 'status');
        if (end.op) assertEqual(r.res.json, { op: end.op.apiName, m: end.method }, 'answered by another operation', where, 'body');
        obs.count('matched');
        if (end.kind === 'alias') obs.count('by alias');
      } else {
        assertThat(r.res.status === 404, 'an unmatched request was not left to the application', where, 'fall-status');
        obs.count('fell through');
        if (visits.length === 0) {
          const f = got[got.length - 1];
          assertThat(f.decoded === undefined && f.apiName === undefined && f.se === undefined, 'a request matching no operation did not reach the application untouched', where, 'fall-touched');
          assertThat(f.url === r.path, 'the URL of an unmatched request was changed', where, 'fall-url');
          if (anyPath) obs.count('method mismatch');
        }
      }
      if (visits.length > 1) obs.count('second match after next');
      for (const v of visits) {
        if (v.R.mount.length) obs.count(v.R.mount.some((s) => s.param) ? 'mounted below a parameter' : 'mounted');
        if (v.e.op && !v.e.op.checked) obs.count('unchecked');
        if (v.e.op && v.e.op.names.length > 1) obs.count('several parameters');
        if (v.e.segs.some((s) => s.pre || s.suf)) obs.count('decorated parameter');
        if (r.hostile && v.e.op && v.e.op.names.length) obs.count('hostile value');
        if (r.trailing) obs.count('trailing slash');
      }
      if (nRouters > 1) obs.count('two routers');
      obs.nontrivial([visits.map((v) => v.e.kind + spec(v.e.segs) + (v.R.mount.length ? '@' : '')).join('>'), !!end, r.hostile, r.trailing].join('|'));
    }
    if (rng.chance(0.005)) obs.sample(desc(reqs[0]));
  },
};
