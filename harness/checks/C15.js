'use strict';
// End-to-end isolation: many clients, both server packages, unique tokens everywhere.
const { AsyncLocalStorage } = require('async_hooks');
const { Lab } = require('../lib/http');
const { Violation, assertThat, assertEqual } = require('../lib/mon');

const SECTIONS = ['params', 'query', 'headers', 'body'];

module.exports = {
  packages: ['io-ts-http', 'response', 'typed-express-router', 'express-wrapper', 'superagent-wrapper'],
  uncaughtIsViolation: true,
  cases: { quick: 250, thorough: 5000 },
  rule:
    'One server process serves 2-5 operations through typed-express-router (checked, unchecked, typed or plain sends, router middleware) and express-wrapper (value-producing middleware, keyed and numeric results); 20-60 calls by superagent and supertest clients are in flight at once (some started in waves), each carrying tokens unique to the call in every declared section; middleware, handlers and responses are delayed by random numbers of event-loop turns so that they overtake each other; a share of calls is meant to fail (handler failure, unencodable result, invalid request sent raw). The recorded history is checked offline: one run of the right handler with its own input per call, and the response computed from it. Fingerprint = interleaving (completion order relative to start order), operations.',
  mustObserve: ['calls', 'router calls', 'server calls', 'failed calls isolated', 'invalid raw calls', 'overtakings', 'met others at the same point', 'middleware values'],
  assumptions: [],
  async init(env) {
    env.h = env.B.load('io-ts-http');
    env.ter = env.B.load('typed-express-router');
    env.ew = env.B.load('express-wrapper');
    env.sw = env.B.load('superagent-wrapper');
    env.superagent = env.B.dep('superagent');
    env.supertest = env.B.dep('supertest');
    env.express = env.B.dep('express');
    env.t = env.B.dep('io-ts');
    env.als = new AsyncLocalStorage();
    env.lab = new Lab();
    await env.lab.start();
  },
  finish(env) {
    env.lab.stop();
  },
  async run(env, rng) {
    const { h, ter, ew, sw, t, express, lab, obs, als } = env;
    const ops = [];
    const n = rng.int(2, 5);
    const reply = t.type({ op: t.string, tokens: t.array(t.string), mw: t.unknown });
    for (let i = 0; i < n; i++) {
      const secs = SECTIONS.filter((s) => rng.chance(s === 'params' ? 0.6 : 0.55));
      if (!secs.length) secs.push('query');
      const method = secs.includes('body') ? rng.pick(['post', 'put', 'patch']) : rng.pick(['get', 'delete', 'post']);
      const req = {};
      // several operations use the same property names and the same codec objects
      for (const s of secs) req[s] = { [s === 'headers' ? 'x-tok' : s + 'Tok']: t.string };
      const kind = rng.pick(['router', 'server']);
      ops.push({
        i, name: 'op' + i, method, secs, kind,
        keys: secs.map((s) => (s === 'headers' ? 'x-tok' : s + 'Tok')),
        route: h.httpRoute({
          path: `/${kind}/o${i}` + (secs.includes('params') ? '/{paramsTok}' : ''),
          method: method.toUpperCase(),
          request: h.httpRequest(req),
          response: { 200: reply, 202: reply, 500: t.unknown },
        }),
        unchecked: kind === 'router' && rng.chance(0.25),
        send: rng.pick(['encoded', 'json']),
        form: rng.pick(['branded', 'plain', 'function']),
        nMw: rng.int(0, 3),
      });
    }
    const specOf = (list) => h.apiSpec(Object.fromEntries(list.map((o) => [o.name, { [o.method]: o.route }])));
    const all = specOf(ops);

    const history = [];
    const script = new Map(); // primary token -> call
    const at = (e) => {
      lab.touch();
      history.push(e);
    };
    const callOf = (tokens) => tokens.map((x) => String(x).split('~')[0])[0];
    const tokensOf = (op, decoded) => op.keys.map((k) => decoded[k]);
    const turns = (id, what) => (script.has(id) ? script.get(id).turns[what] : 0);

    // a delay of its own, or until others of the same operation are at the same point
    const pause = (id, what, where, times = 1) => {
      const c = script.get(id);
      if (c && c.meet[what]) {
        obs.count('met others at the same point');
        return lab.together(where, c.meet[what]);
      }
      return lab.delay((turns(id, what) * times) % 41);
    };
    const app = express();
    app.use(express.json());
    app.use((req, res, next) => als.run({ call: req.headers['x-call'] }, next));
    const rOps = ops.filter((o) => o.kind === 'router');
    const sOps = ops.filter((o) => o.kind === 'server');
    if (rOps.length) {
      const router = rng.chance(0.5) ? ter.createRouter(specOf(rOps), {
        afterEncodedResponseSent: (status, payload, req) => at({ e: 'after', call: als.getStore().call, apiName: req.apiName, tokens: payload.tokens }),
      }) : ter.wrapRouter(express.Router(), specOf(rOps), {});
      if (rng.chance(0.7)) router.use((req, res, next) => {
        const d = req.decoded;
        const id = d._tag === 'Right' ? callOf(Object.values(d.right)) : undefined;
        at({ e: 'rmw', id, apiName: req.apiName });
        (id ? pause(id, 'mw', 'rmw' + req.apiName) : lab.delay(1)).then(() => {
          assertSame(d, req.decoded, id);
          next();
        });
      });
      for (const o of rOps) {
        router[o.method + (o.unchecked ? 'Unchecked' : '')](o.name, [(req, res) => {
          const value = o.unchecked ? req.decoded.right : req.decoded;
          if (value === undefined) return void res.status(400).json({ invalid: true });
          const tokens = tokensOf(o, value);
          const id = callOf(tokens);
          at({ e: 'handler', id, op: o.name, apiName: req.apiName, tokens });
          pause(id, 'handler', 'h' + o.name).then(() => {
            const later = tokensOf(o, o.unchecked ? req.decoded.right : req.decoded);
            at({ e: 'resume', id, same: JSON.stringify(later) === JSON.stringify(tokens), apiName: req.apiName, op: o.name });
            const c = script.get(id);
            if (c && c.fail) return void res.sendEncoded(200, { not: 'it' });
            if (o.send === 'json') res.status(200).json({ op: o.name, tokens: later, mw: null });
            else res.sendEncoded(c && c.alt ? 202 : 200, { op: o.name, tokens: later, mw: null });
          });
        }]);
      }
      app.use(router);
    }
    function assertSame(a, b, id) {
      if (a !== b) at({ e: 'changed', id });
    }
    if (sOps.length) {
      const handlers = {};
      for (const o of sOps) {
        const chain = Array.from({ length: o.form === 'function' ? 0 : o.nMw }, (_, j) =>
          rng.chance(0.7)
            ? ew.middlewareFn(async (req) => {
              const id = callOf(tokensOf(o, req.decoded));
              await pause(id, 'mw', 'm' + j + o.name, j + 1);
              return { ['m' + j]: callOf(tokensOf(o, req.decoded)) };
            })
            : (req, res, next) => {
              const id = callOf(tokensOf(o, req.decoded));
              pause(id, 'mw', 'm' + j + o.name, j + 2).then(() => next());
            });
        o.chainValues = chain.length;
        const handler = async (input) => {
          const tokens = tokensOf(o, input);
          const id = callOf(tokens);
          const mw = Object.fromEntries(Object.entries(input).filter(([k]) => /^m\d$/.test(k)));
          at({ e: 'handler', id, op: o.name, apiName: o.name, tokens, mw });
          await pause(id, 'handler', 'h' + o.name);
          const later = tokensOf(o, input);
          at({ e: 'resume', id, same: JSON.stringify(later) === JSON.stringify(tokens), apiName: o.name, op: o.name });
          const c = script.get(id);
          if (c && c.fail) throw new Error('fail ' + id);
          const payload = { op: o.name, tokens: later, mw };
          return c && c.alt ? { type: 'accepted', payload } : { type: 200, payload };
        };
        handlers[o.name] = { [o.method]: o.form === 'function' ? handler : o.form === 'plain' ? { middleware: chain, handler } : ew.routeHandler({ middleware: chain, handler }) };
      }
      const spec = specOf(sOps);
      app.use(rng.chance(0.5) ? ew.routerForApiSpec({ spec, routeHandlers: handlers }) : ew.createServer(spec, () => handlers));
    }
    lab.app = app;
    lab.seen.length = 0;

    const clients = [
      sw.buildApiClient(sw.superagentRequestFactory(env.superagent, lab.base), all),
      sw.buildApiClient(sw.supertestRequestFactory(env.supertest(lab.base)), all),
    ];
    const calls = [];
    const total = rng.int(20, 60);
    for (let k = 0; k < total; k++) {
      const o = rng.pick(ops);
      const id = `c${k}.${rng.int(0, 1e6)}`;
      const value = {};
      for (const key of o.keys) value[key] = `${id}~${key}`;
      const mode = rng.weighted([[8, 'decode'], [4, 'expect'], [1.2, 'invalid']]);
      const c = { id, k, o, value, mode, fail: mode !== 'invalid' && rng.chance(0.08), alt: rng.chance(0.3) && !(o.kind === 'router' && o.send === 'json'),
        turns: { mw: rng.int(0, 8), handler: rng.chance(0.3) ? rng.int(10, 40) : rng.int(0, 8), start: rng.chance(0.5) ? 0 : rng.int(1, 30) }, client: rng.pick(clients),
        meet: { mw: rng.chance(0.3) ? rng.int(2, 4) : 0, handler: rng.chance(0.3) ? rng.int(2, 4) : 0 } };
      calls.push(c);
      script.set(id, c);
    }
    let finished = 0;
    const perform = async (c) => {
      await lab.delay(c.turns.start);
      c.started = finished;
      if (c.mode === 'invalid') {
        // the last declared property is missing or malformed
        const drop = c.o.keys.find((x) => x !== 'paramsTok');
        if (!drop) c.mode = 'decode';
        else {
          const v = { ...c.value };
          delete v[drop];
          const q = v.queryTok ? '?queryTok=' + encodeURIComponent(v.queryTok) : '';
          const headers = { 'x-call': c.id };
          if (v['x-tok']) headers['x-tok'] = v['x-tok'];
          c.res = await lab.request({
            method: c.o.method.toUpperCase(),
            path: `/${c.o.kind}/o${c.o.i}` + (v.paramsTok ? '/' + encodeURIComponent(v.paramsTok) : '') + q,
            headers, body: v.bodyTok ? JSON.stringify({ bodyTok: v.bodyTok }) : c.o.secs.includes('body') ? '{}' : undefined,
          });
          c.finished = finished++;
          return;
        }
      }
      const r = c.client[c.o.name][c.o.method](c.value).set('x-call', c.id);
      try {
        c.out = c.mode === 'decode' ? await r.decode() : await r.decodeExpecting(c.alt ? 202 : 200);
      } catch (e) {
        c.err = e;
      }
      c.finished = finished++;
    };
    const details = (c) => ({ call: { id: c.id, op: c.o.name, kind: c.o.kind, form: c.o.form, unchecked: c.o.unchecked, send: c.o.send, mode: c.mode, fail: c.fail, alt: c.alt, turns: c.turns, value: c.value }, history: history.filter((e) => e.id === c.id || e.call === c.id), result: c.out && { status: c.out.status, body: c.out.body }, raw: c.res && [c.res.status, c.res.text], error: c.err && String(c.err.message || c.err).slice(0, 300), inFlight: total });
    const running = calls.map((c) => lab.settle(perform(c), 'a call never settled', { id: c.id, op: c.o.name }));
    const settled = await Promise.allSettled(running);
    const stuck = settled.find((x) => x.status === 'rejected');
    if (stuck) throw stuck.reason instanceof Violation ? stuck.reason : new Violation('a call broke', String(stuck.reason), 'broken');
    await lab.idle();

    assertThat(lab.seen.length === calls.length, 'the server saw another number of requests than calls were made', { seen: lab.seen.length, calls: calls.length }, 'count');
    assertThat(lab.seen.every((s) => s.finished), 'a request was left without a complete response', {}, 'unfinished');
    assertThat(!history.some((e) => e.e === 'changed'), "a request's decode result was replaced while its middleware waited", history.filter((e) => e.e === 'changed'), 'changed');
    for (const c of calls) {
      const w = details(c);
      obs.judged();
      obs.count('calls');
      obs.count(c.o.kind + ' calls');
      const runs = history.filter((e) => e.e === 'handler' && e.id === c.id);
      const resumes = history.filter((e) => e.e === 'resume' && e.id === c.id);
      const afters = history.filter((e) => e.e === 'after' && e.call === c.id);
      for (const a of afters) assertThat(a.apiName === c.o.name && callOf(a.tokens) === c.id, "an after-response hook got another call's data", w, 'after');
      if (c.mode === 'invalid') {
        assertThat(runs.length === 0, 'a handler ran for an invalid call', w, 'invalid-ran');
        assertThat(c.res.status === 400, 'an invalid call was not answered as such', w, 'invalid-status');
        assertThat(!calls.some((d) => d !== c && c.res.text.includes(d.id)), "an error response carries another call's data", w, 'leak');
        obs.count('invalid raw calls');
        continue;
      }
      assertThat(runs.length === 1, runs.length ? 'a handler ran more than once for a call' : 'no handler ran for a call', w, 'runs');
      const run = runs[0];
      assertThat(run.op === c.o.name && run.apiName === c.o.name, "another operation's handler ran for a call", w, 'wrong-op');
      const mine = c.o.keys.map((k) => c.value[k]);
      assertEqual(run.tokens, mine, "a handler saw another call's data", w, 'input');
      assertThat(resumes.length === 1 && resumes[0].same && resumes[0].apiName === c.o.name, "a handler's request changed while it waited", w, 'resume');
      if (run.mw) {
        assertThat(Object.values(run.mw).every((v) => v === c.id), "a handler got another call's middleware values", w, 'mw-values');
        if (Object.keys(run.mw).length) obs.count('middleware values');
      }
      if (c.fail) {
        const status = c.mode === 'decode' ? c.out && c.out.original.status : c.err && c.err.decodedResponse && c.err.decodedResponse.original.status;
        assertThat(status === 500, 'a failing call was not answered with 500', { ...w, status }, 'fail-status');
        obs.count('failed calls isolated');
      } else {
        assertThat(!c.err, 'a call was rejected', w, 'rejected');
        assertThat(c.out.status === (c.alt ? 202 : 200), 'a call resolved with another status', w, 'status');
        const body = c.out.body;
        assertThat(body && body.op === c.o.name, "a call resolved with another operation's response", w, 'resp-op');
        assertEqual(body.tokens, mine, "a call resolved with another call's response", w, 'resp-tokens');
        if (c.o.kind === 'server') assertEqual(body.mw, run.mw, "a call resolved with another call's response", w, 'resp-mw');
      }
    }
    const overt = calls.filter((c) => calls.some((d) => d.k > c.k && d.finished < c.finished)).length;
    obs.count('overtakings', overt);
    obs.count('events', history.length);
    obs.nontrivial(calls.map((c) => c.finished).join(',') + '|' + ops.map((o) => o.kind + o.method + o.secs.join('')).join('/'));
    if (rng.chance(0.02)) obs.sample({ ops: ops.map((o) => [o.name, o.kind, o.method, o.secs]), calls: total, overtakings: overt });
  },
};
