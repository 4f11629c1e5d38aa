'use strict';
// Tracing: every span's start, mutation and end is observed by a span processor of the real
// OpenTelemetry SDK; an async-local request identity tells whose span it is.
const { AsyncLocalStorage } = require('async_hooks');
const Module = require('module');
const path = require('path');
const { Lab } = require('../lib/http');
const { Rng } = require('../lib/rng');
const { assertThat, assertEqual } = require('../lib/mon');

const OPTIONS = {
  nOps: 3, checked: (r) => r.chance(0.65), hookChance: 0.3, mwMax: 2, invalid: 0.45, shortCircuit: 0.06, badPayload: 0.35,
  nReq: (r) => r.int(2, 8), finals: [[5, 'sendEncoded'], [1, 'json'], [0.5, 'next'], [0.5, 'nextErr']],
};

module.exports = {
  packages: ['io-ts-http', 'typed-express-router'],
  uncaughtIsViolation: true,
  cases: { quick: 1200, thorough: 25000 },
  rule:
    'Random router scenarios (checked and unchecked routes, hooks at both levels, delayed middleware and handlers, failing decodes and encodes), 2-8 requests mostly concurrent, with the real OpenTelemetry SDK recording; a span processor and an async-local request identity attribute every span start, end and re-end to a request. A quarter of the scenarios are repeated with the tracing package unavailable, and judged by the same model. Fingerprint = route kind, decode verdict, encode verdict, hook levels, trace shape, concurrency.',
  mustObserve: ['decode spans', 'decode spans with error', 'encode spans', 'encode spans with error', 'concurrent', 'spans of overlapping requests of one operation', 'unchecked invalid', 'unmatched request', 'requests without tracing'],
  assumptions: ['hooks do not throw'],
  async init(env) {
    const api = env.B.dep('@opentelemetry/api');
    const sdk = env.B.dep('@opentelemetry/sdk-trace-base');
    const als = (env.als = new AsyncLocalStorage());
    env.spans = [];
    const self = env;
    const processor = {
      onStart(span) {
        const rec = { span, req: als.getStore(), ends: [], exceptions: [] };
        const end = span.end;
        span.end = function (...a) {
          rec.ends.push(als.getStore());
          return end.apply(this, a);
        };
        const ex = span.recordException;
        span.recordException = function (e, ...a) {
          rec.exceptions.push({ e, in: als.getStore(), late: rec.ends.length > 0 });
          return ex.call(this, e, ...a);
        };
        self.spans.push(rec);
      },
      onEnd() {},
      shutdown: async () => {},
      forceFlush: async () => {},
    };
    let provider;
    try {
      provider = new sdk.BasicTracerProvider({ spanProcessors: [processor] });
      if (provider.addSpanProcessor && !(provider._registeredSpanProcessors || provider._activeSpanProcessor?._spanProcessors || []).includes(processor)) provider.addSpanProcessor(processor);
    } catch (e) {
      provider = new sdk.BasicTracerProvider();
      provider.addSpanProcessor(processor);
    }
    api.trace.setGlobalTracerProvider(provider);
    env.api = api;
    const C = (env.C = require('../lib/codecs')(env.B));
    const M = require('../lib/model')(C);
    const R = require('../lib/requests')(C, M);
    env.S = require('../lib/specs')(C, M, R);
    env.lab = new Lab();
    await env.lab.start();
    env.L = require('../lib/routerlab')(env);

    // a second instance of the router that cannot load the tracing package
    const dir = path.join(env.B.pkg('typed-express-router'), 'dist') + path.sep;
    const real = path.join(require('fs').realpathSync(env.B.pkg('typed-express-router')), 'dist') + path.sep;
    const saved = {};
    for (const k of Object.keys(require.cache)) {
      if (k.startsWith(dir) || k.startsWith(real)) {
        saved[k] = require.cache[k];
        delete require.cache[k];
      }
    }
    assertThat(Object.keys(saved).length > 0, 'harness: router modules not found in the module cache');
    const load = Module._load;
    let refused = 0;
    Module._load = function (request, ...a) {
      if (/^@opentelemetry\//.test(request)) {
        refused++;
        const e = new Error(`Cannot find module '${request}'`);
        e.code = 'MODULE_NOT_FOUND';
        throw e;
      }
      return load.call(this, request, ...a);
    };
    try {
      env.bare = env.B.load('typed-express-router');
    } finally {
      Module._load = load;
    }
    assertThat(refused > 0 && env.bare !== env.L.ter, 'harness: the bare router instance was not made');
    env.L2 = require('../lib/routerlab')(env, env.bare);
  },
  finish(env) {
    env.lab.stop();
  },
  async run(env, rng, i) {
    const { L, obs, als, api } = env;
    const concurrent = rng.chance(0.75);
    env.spans.length = 0;
    const sub = rng.int(1, 1e9);
    const sc = L.scenario(new Rng('s' + sub), OPTIONS);
    const wrap = (app) => (req, res) => als.run(req.headers['x-req'], () => app(req, res));
    const results = await L.execute(sc, { concurrent, wrap });
    // requests that match no operation leave no span
    const stray = await env.lab.request({ method: rng.pick(['GET', 'POST']), path: '/nothing/here', headers: { 'x-req': 'stray' } });
    void stray;
    obs.count('unmatched request');
    await env.lab.delay(2);

    const byReq = new Map();
    for (const s of env.spans) {
      if (!byReq.has(s.req)) byReq.set(s.req, []);
      byReq.get(s.req).push(s);
    }
    const brief = (s) => ({ name: s.span.name, attributes: s.span.attributes, status: s.span.status, events: s.span.events, req: s.req, ends: s.ends });
    assertEqual(byReq.get('stray') || [], [], 'a request matching no operation left a span', {}, 'stray');
    assertThat(!byReq.has(undefined), 'a span was started outside of any request', { spans: (byReq.get(undefined) || []).map(brief) }, 'outside');

    sc.requests.forEach((r, k) => {
      const p = L.judge(sc, r, results[k], obs);
      const mine = byReq.get(r.id) || [];
      const where = { ...L.describe(sc, r), spans: mine.map(brief), response: { status: results[k].status, body: results[k].text }, concurrent };
      const { op } = r;
      // the typed sends of this request, and how each ended
      const dec = mine.filter((s) => s.span.name === 'typed-express-router.decode');
      const enc = mine.filter((s) => s.span.name === 'typed-express-router.encode');
      assertEqual(mine.length, dec.length + enc.length, 'unexpected spans', where, 'other-spans');
      assertThat(dec.length === 1, 'not exactly one decode span for a request', where, 'decode-count');
      assertThat(enc.length === p.sends, 'not exactly one encode span per typed response', where, 'encode-count');
      for (const s of mine) {
        assertThat(s.ends.length === 1, s.ends.length ? 'a span was ended more than once' : 'a span was never ended', { ...where, span: brief(s) }, 'ends');
        assertThat(s.ends[0] === s.req, 'a span was ended by another request', { ...where, span: brief(s) }, 'ended-by');
        assertThat(s.exceptions.every((x) => x.in === s.req && !x.late), "an error was recorded on another request's span, or after its end", { ...where, span: brief(s) }, 'exception-by');
        const at = s.span.attributes;
        assertThat(at['api_ts.operation_id'] === op.apiName && at['api_ts.method'] === op.route.method && at['api_ts.path'] === op.route.path, 'a span carries the wrong operation, method or path', { ...where, span: brief(s) }, 'attributes');
      }
      const verdict = (s, failed, status, message) => {
        const at = s.span.attributes;
        assertThat(at['api_ts.status_code'] === status, 'a span carries the wrong status', { ...where, expected: status, span: brief(s) }, 'span-status');
        assertThat((s.span.status.code === api.SpanStatusCode.ERROR) === failed, failed ? 'a failure is not recorded as an error' : 'an error is recorded though nothing failed', { ...where, span: brief(s) }, 'span-error');
        const ex = s.span.events.filter((e) => e.name === 'exception');
        assertThat(ex.length === (failed ? 1 : 0), 'wrong number of recorded exceptions', { ...where, span: brief(s) }, 'span-exceptions');
        if (failed && message !== undefined) assertEqual(ex[0].attributes['exception.message'], message, "a span carries another request's error", { ...where, span: brief(s) }, 'span-message');
      };
      const idn = Number(r.id);
      const base = (level) => (level === 'router' ? 470 : 410 + Number(level.slice(5)) * 10);
      if (p.want.ok) verdict(dec[0], false, undefined);
      else {
        const fl = L.levelOf(sc, op, 'decodeErrorFormatter');
        const sl = L.levelOf(sc, op, 'getDecodeErrorStatusCode');
        const body = fl === 'default' ? p.failure : { by: fl, id: r.id, op: op.apiName, errs: p.failure };
        verdict(dec[0], true, sl === 'default' ? 400 : base(sl) + (idn % 3), JSON.stringify(body, null, 2));
        obs.count('decode spans with error');
        if (!op.checked) obs.count('unchecked invalid');
      }
      obs.count('decode spans');
      if (enc.length) {
        obs.count('encode spans');
        verdict(enc[0], p.encodeOk === 0, p.sentStatus);
        if (!p.encodeOk) obs.count('encode spans with error');
      }
      obs.count(concurrent ? 'concurrent' : 'sequential');
      if (concurrent && sc.requests.some((o) => o !== r && o.op === op)) obs.count('spans of overlapping requests of one operation');
      obs.nontrivial([op.checked, p.want.ok, p.sends, p.encodeOk, concurrent, L.levelOf(sc, op, 'decodeErrorFormatter'), L.levelOf(sc, op, 'getDecodeErrorStatusCode'), L.levelOf(sc, op, 'getEncodeErrorStatusCode'), p.events.map((e) => e.t).join('>'), p.response.status].join('|'));
    });

    if (i % 4 === 0) {
      const n = env.spans.length;
      const sc2 = env.L2.scenario(new Rng('s' + sub), OPTIONS);
      const res2 = await env.L2.execute(sc2, { concurrent, wrap });
      sc2.requests.forEach((r, k) => {
        env.L2.judge(sc2, r, res2[k], obs);
        obs.count('requests without tracing');
        assertThat(res2[k].status === results[k].status && res2[k].text === results[k].text, 'the response depends on whether tracing is available', { ...L.describe(sc, r), traced: results[k], bare: res2[k] }, 'traced-vs-bare');
      });
      assertThat(env.spans.length === n, 'harness: the bare router traced', {}, 'bare-spans');
    }
    if (rng.chance(0.005)) obs.sample({ spans: env.spans.slice(0, 3).map(brief) });
  },
};
