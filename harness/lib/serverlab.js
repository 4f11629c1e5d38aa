'use strict';
// Random express-wrapper servers: scripted middleware chains and handlers whose every start,
// continuation, input and result is logged; an independent model predicts the log and the
// response of each request.
const { Violation, assertThat, assertEqual } = require('./mon');
const { deepClone } = require('./freeze');
const { queryString } = require('./http');
const REF = require('./statuses');

module.exports = function makeServerLab(env) {
  const { C, S, lab } = env;
  const { t } = C;
  const PathReporter = env.B.dep('io-ts/lib/PathReporter');
  const ew = env.B.load('express-wrapper');
  const express = env.B.dep('express');
  const NUMS = Object.values(REF).filter((n) => n >= 200 && ![204, 205, 304].includes(n));
  const NAME_OF = Object.fromEntries(Object.entries(REF).map(([k, v]) => [v, k]));

  const ThrowingEncode = new t.Type('ThrowingEncode', (u) => typeof u === 'string', t.string.validate, () => {
    throw new Error('cannot encode');
  });
  const Bad = new t.Type('BigIntEncode', (u) => typeof u === 'string', t.string.validate, () => ({ n: BigInt(1) }));

  const VALUE_KEYS = ['token', 'user', 'a', 'b', 'x', 'y', 'id'];

  function scenario(rng, o) {
    const log = new Map();
    const ev = (id, e) => {
      lab.touch();
      if (!log.has(id)) log.set(id, []);
      log.get(id).push(e);
    };
    const scripts = new Map();
    const ops = [];
    const nOps = rng.int(1, o.nOps || 3);
    for (let i = 0; i < nOps; i++) {
      const fields = Object.create(null);
      const response = {};
      for (let k = rng.int(1, 4); k > 0; k--) {
        const n = rng.chance(0.5) ? rng.pick([200, 201, 400, 404, 500]) : rng.pick(NUMS);
        fields[n] = rng.chance(o.badCodec ?? 0.08)
          ? { label: 'ThrowingEncode', codec: rng.pick([ThrowingEncode, Bad]), gen: C.word }
          : C.leaf(rng.pick(C.jsonLeaves));
        response[n] = fields[n].codec;
      }
      const op = S.operation(rng, i, { response, opts: {}, bodyChance: 0.55 });
      op.responses = fields;
      op.chain = Array.from({ length: o.chain(rng) }, (_, j) => ({ type: rng.pick(['express', 'value']), j }));
      op.form = rng.weighted([[3, 'branded'], [1.5, 'plain'], [1, 'function']]);
      if (op.form === 'function') op.chain = [];
      op.omitMiddleware = op.form === 'branded' && op.chain.length === 0 && rng.chance(0.5);
      ops.push(op);
    }
    // an operation that would also match requests of op 0, served by another route
    let shadow = null;
    if (o.shadow && rng.chance(0.4)) {
      const base = ops[0];
      const n = (base.path.match(/\{/g) || []).length;
      if (n === 0 || true) {
        const segs = base.path.slice(1).split('/').map((x, k) => (x.startsWith('{') ? `{p${k}}` : k === 0 ? `{p${k}}` : x));
        shadow = { apiName: 'shadow', method: base.method, path: '/' + segs.join('/') };
      }
    }
    const h = C.h;
    const spec = S.specOf(ops);
    if (shadow) spec.shadow = { [shadow.method]: h.httpRoute({ path: shadow.path, method: shadow.method.toUpperCase(), request: h.httpRequest({}), response: { 200: t.unknown } }) };
    const apiSpec = h.apiSpec(spec);

    const idOf = (req) => req.headers['x-req'];
    const mw = (op, c) => {
      const act = (req) => scripts.get(idOf(req)).mw[c.j];
      if (c.type === 'value') {
        return ew.middlewareFn((req, res) => {
          const id = idOf(req);
          const a = act(req);
          ev(id, { t: 'mw', op: op.apiName, j: c.j, req: req.apiName, decoded: deepCloneSafe(req.decoded) });
          if (a.setStatus) res.status(a.setStatus);
          if (a.kind === 'throw') throw a.error;
          const finish = () => {
            ev(id, { t: 'mwend', j: c.j });
            if (a.kind === 'fail') throw a.error;
            if (!res.headersSent && (a.kind === 'respond' || a.kind === 'respondAndContinue')) res.status(a.status).json({ mw: c.j, id });
            if (a.kind === 'respond') return new Promise(() => {});
            return a.value;
          };
          return a.delay ? lab.delay(a.delay).then(finish) : (async () => finish())();
        });
      }
      return (req, res, next) => {
        const id = idOf(req);
        const a = act(req);
        ev(id, { t: 'mw', op: op.apiName, j: c.j, req: req.apiName, decoded: deepCloneSafe(req.decoded) });
        if (a.setStatus) res.status(a.setStatus);
        if (a.kind === 'throw') throw a.error;
        const finish = () => {
          ev(id, { t: 'mwend', j: c.j });
          if (!res.headersSent && (a.kind === 'respond' || a.kind === 'respondAndContinue')) res.status(a.status).json({ mw: c.j, id });
          if (a.kind === 'fail') next(a.error);
          else if (a.kind !== 'respond') next();
        };
        if (a.delay) lab.delay(a.delay).then(finish);
        else finish();
      };
    };
    // handlers learn their request through a header-independent channel: the scripted
    // middleware cannot be relied upon, so the identity travels in AsyncLocalStorage
    const routeHandlers = {};
    for (const op of ops) {
      const handler = (input) => {
        const r = env.als.getStore();
        const id = r ? r.id : 'unknown';
        ev(id, { t: 'handler', op: op.apiName, input: deepCloneSafe(input) });
        const a = r.result;
        if (a.kind === 'throw') throw a.error;
        const finish = () => {
          ev(id, { t: 'handlerend' });
          if (a.kind === 'reject') throw a.error;
          return a.response;
        };
        if (a.delay) return lab.delay(a.delay).then(finish);
        return a.async || a.kind === 'reject' ? (async () => finish())() : finish();
      };
      const chain = op.chain.map((c) => mw(op, c));
      const rh =
        op.form === 'function' ? handler
        : op.form === 'plain' ? { middleware: chain, handler }
        : op.omitMiddleware ? ew.routeHandler({ handler }) : ew.routeHandler({ middleware: chain, handler });
      (routeHandlers[op.apiName] = routeHandlers[op.apiName] || {})[op.method] = rh;
    }
    if (shadow) routeHandlers.shadow = { [shadow.method]: () => {
      const r = env.als.getStore();
      ev(r ? r.id : 'unknown', { t: 'shadow' });
      return { type: 200, payload: 'shadow' };
    } };

    const via = rng.pick(['createServer', 'routerForApiSpec']);
    const custom = {};
    let app;
    if (via === 'createServer') {
      app = ew.createServer(apiSpec, (a) => {
        a.use(express.json({ strict: false }));
        return routeHandlers;
      });
    } else {
      if (rng.chance(0.4)) custom.decodeErrorFormatter = (errs, req) => ({ custom: idOf(req), errs: PathReporter.failure(errs) });
      if (rng.chance(0.4)) custom.getDecodeErrorStatusCode = (errs, req) => 420 + (Number(idOf(req)) % 3);
      if (rng.chance(0.3)) {
        custom.encoder = (route, response) => (req, res) => {
          const id = idOf(req);
          ev(id, { t: 'encoder', right: route === req.httpRoute, response });
          if (response && response.type === 'boom') throw new Error('encoder');
          res.status(233).json({ by: 'encoder', id });
        };
      } else if (rng.chance(0.25)) {
        // the typed sending of the router below, which has error hooks of its own
        custom.encoder = (route, response) => (req, res) => {
          ev(idOf(req), { t: 'encoder', right: route === req.httpRoute, response });
          res.sendEncoded(response.type, response.payload);
        };
        custom.typedSend = true;
      }
      if (rng.chance(0.3)) custom.encodeErrorFormatter = (err, req) => ({ encode: idOf(req) });
      if (rng.chance(0.3)) custom.getEncodeErrorStatusCode = (err, req) => 430 + (Number(idOf(req)) % 3);
      app = express();
      app.use(express.json({ strict: false }));
      app.use(ew.routerForApiSpec({ spec: apiSpec, routeHandlers, ...custom }));
    }
    const wrapped = (req, res) => env.als.run(scripts.get(req.headers['x-req']), () => app(req, res));

    const ERRORS = () => rng.pick([new Error('boom'), 'boom', new TypeError('t'), { code: 3 }, Object.assign(new Error('s'), { status: 404, statusCode: 404 }), 42, true]);
    const requests = [];
    const nReq = o.nReq ? o.nReq(rng) : rng.int(2, 6);
    for (let i = 0; i < nReq; i++) {
      const op = rng.pick(ops);
      const id = String(i + 1);
      const input = S.wireRequest(rng, op, { invalid: o.invalid ?? 0.25 });
      const delay = () => (rng.chance(0.4) ? rng.int(1, 10) : 0);
      const acts = op.chain.map((c) => {
        const kind = rng.chance(o.mwFail ?? 0.1) ? rng.weighted([[2, 'throw'], [3, 'fail'], [1, 'respond'], [0.7, 'respondAndContinue']]) : 'pass';
        const a = { kind, delay: kind === 'throw' ? 0 : delay() };
        if (rng.chance(0.12)) a.setStatus = rng.pick([200, 201, 302, 399, 400, 401, 403, 499, 500, 503]);
        if (kind === 'throw' || kind === 'fail') a.error = c.type === 'value' && kind === 'fail' && rng.chance(0.15) ? rng.pick([undefined, null, 0, '', false]) : ERRORS();
        if (kind === 'respond' || kind === 'respondAndContinue') a.status = 250 + c.j;
        if (c.type === 'value') {
          a.value = {};
          const keys = rng.sample(VALUE_KEYS, rng.int(0, 3));
          // also overwrite properties of the decoded request
          const own = Object.values(op.secs).flatMap((s) => Object.keys(s));
          if (own.length && rng.chance(0.3)) keys.push(rng.pick(own));
          for (const k of keys) a.value[k] = rng.pick([`v${id}.${c.j}.${k}`, 0, null, false, '', undefined, { deep: id }, [id]]);
          if (rng.chance(0.06)) a.value = undefined;
        }
        return a;
      });
      const nums = Object.keys(op.responses).map(Number);
      const kind = rng.weighted(o.results || [[8, 'ok'], [1, 'throw'], [1, 'reject'], [0.7, 'undefined'], [1, 'unknownType'], [1, 'noCodec']]);
      const result = { kind, delay: kind === 'throw' ? 0 : delay(), async: rng.chance(0.5) };
      if (kind === 'ok') {
        const n = rng.pick(nums);
        const f = op.responses[n];
        const keyed = NAME_OF[n] && rng.chance(0.45);
        const payload = f.gen(rng);
        result.status = n;
        result.keyed = !!keyed;
        result.payload = payload;
        result.response = { type: keyed ? NAME_OF[n] : n, payload };
      } else if (kind === 'throw' || kind === 'reject') result.error = ERRORS();
      else if (kind === 'undefined') result.response = rng.pick([undefined, null, {}, 'text', 0]);
      else if (kind === 'unknownType') result.response = { type: rng.pick(['nope', 'OK', 'boom', 'toString', 'constructor', '__proto__', null, {}]), payload: 'x' };
      else if (kind === 'noCodec') {
        const n = rng.pick([299, 418, 511, 0, -1, 99, NaN, ...NUMS].filter((x) => !op.responses[x]));
        result.response = { type: NAME_OF[n] && rng.chance(0.5) ? NAME_OF[n] : n, payload: 'x' };
      }
      const r = { id, op, input, mw: acts, result };
      scripts.set(id, r);
      requests.push(r);
    }
    return { ops, spec: apiSpec, via, custom, app: wrapped, requests, log, shadow, rng };
  }

  function deepCloneSafe(v) {
    try {
      return deepClone(v);
    } catch (e) {
      return v;
    }
  }

  function predict(sc, r) {
    const { op } = r;
    const want = op.model.decode(r.input);
    const either = op.request.decode(r.input);
    const failure = want.ok ? undefined : PathReporter.failure(either.left || []);
    const events = [];
    const out = { want, failure, events, outcome: undefined };
    if (!want.ok) {
      out.outcome = 'decode failure';
      out.status = sc.custom.getDecodeErrorStatusCode ? 420 + (Number(r.id) % 3) : 400;
      out.json = sc.custom.decodeErrorFormatter ? { custom: r.id, errs: failure } : { error: failure.join('\n') };
      return out;
    }
    let chosen = 200;
    let input = { ...want.v };
    let responded = null;
    for (const c of op.chain) {
      const a = r.mw[c.j];
      events.push({ t: 'mw', j: c.j });
      if (a.setStatus && !responded) chosen = a.setStatus;
      if (a.kind !== 'throw') events.push({ t: 'mwend', j: c.j });
      if (a.kind === 'respond' || a.kind === 'respondAndContinue') {
        if (!responded) responded = { status: a.status, json: { mw: c.j, id: r.id } };
        if (a.kind === 'respond') {
          Object.assign(out, responded, { outcome: 'middleware responded' });
          return out;
        }
      }
      if (a.kind === 'throw' || a.kind === 'fail') {
        out.outcome = 'middleware failure';
        if (responded) Object.assign(out, responded);
        else out.status = chosen >= 400 ? chosen : 500;
        return out;
      }
      if (op.form === 'branded' && c.type === 'value' && a.value) input = { ...input, ...a.value };
    }
    events.push({ t: 'handler', input });
    const a = r.result;
    if (a.kind !== 'throw') events.push({ t: 'handlerend' });
    if (a.kind === 'throw' || a.kind === 'reject') {
      out.outcome = 'handler failure';
      if (responded) Object.assign(out, responded);
      else out.status = chosen >= 400 ? chosen : 500;
      return out;
    }
    if (sc.custom.encoder) {
      events.push({ t: 'encoder', response: a.response });
      if (sc.custom.typedSend) {
        if (a.response === undefined || a.response === null) {
          out.outcome = 'encoder failure';
          if (responded) Object.assign(out, responded);
          else out.status = chosen >= 400 ? chosen : 500;
          return out;
        }
        const { type, payload } = a.response;
        const f = typeof type === 'number' && Object.prototype.hasOwnProperty.call(op.responses, type) ? op.responses[type] : undefined;
        out.outcome = 'typed send';
        try {
          if (!f || !f.codec.is(payload)) throw new Error('no');
          out.json = JSON.parse(JSON.stringify(f.codec.encode(payload)));
          out.status = type;
        } catch (e) {
          out.outcome = 'typed send failure';
          out.status = sc.custom.getEncodeErrorStatusCode ? 430 + (Number(r.id) % 3) : 500;
          out.json = sc.custom.encodeErrorFormatter ? { encode: r.id } : {};
        }
        if (responded) Object.assign(out, responded);
        return out;
      }
      const boom = a.response && a.response.type === 'boom';
      out.outcome = boom ? 'encoder failure' : 'custom encoder';
      if (responded) Object.assign(out, responded);
      else if (boom) out.status = chosen >= 400 ? chosen : 500;
      else Object.assign(out, { status: 233, json: { by: 'encoder', id: r.id } });
      return out;
    }
    if (a.kind === 'ok') {
      const f = op.responses[a.status];
      try {
        out.json = JSON.parse(JSON.stringify(f.codec.encode(a.payload)));
        out.status = a.status;
        out.outcome = a.keyed ? 'ok keyed' : 'ok number';
        out.checkJson = true;
      } catch (e) {
        out.outcome = 'unencodable';
        out.anyError = [500, chosen];
      }
    } else {
      out.outcome = 'unusable result';
      out.anyError = [500, chosen];
    }
    if (responded) Object.assign(out, responded, { anyError: undefined });
    return out;
  }

  const describe = (sc, r) => ({
    op: r.op.describe(), form: r.op.form, chain: r.op.chain.map((c) => c.type), via: sc.via, custom: Object.keys(sc.custom), shadow: sc.shadow && sc.shadow.path,
    responses: Object.fromEntries(Object.entries(r.op.responses).map(([k, f]) => [k, f.label])),
    middleware: r.mw, result: r.result, input: r.input, id: r.id,
  });

  function judge(sc, r, res, obs) {
    const p = predict(sc, r);
    const got = sc.log.get(r.id) || [];
    const where = { ...describe(sc, r), predicted: { outcome: p.outcome, status: p.status, json: p.json }, observed: got, response: { status: res.status, body: res.text } };
    obs.judged();
    const brief = (e) => e.t + (e.j ?? '');
    assertEqual(got.map(brief), p.events.map(brief), 'middleware and handler did not run as they should have', where, 'sequence');
    got.forEach((e, i) => {
      const w = p.events[i];
      if (e.t === 'mw' || e.t === 'handler') assertThat(e.op === r.op.apiName, "another operation's code ran", where, 'wrong-op');
      if (e.t === 'mw') assertEqual(e.decoded, p.want.v, 'a middleware saw something other than the decoded request', where, 'mw-decoded');
      if (e.t === 'handler') assertEqual(e.input, w.input, "the handler's input is not the decoded request overlaid by the middleware values", where, 'input');
      if (e.t === 'encoder') assertThat(e.right === true && Object.is(e.response, w.response), 'the response encoder received another route or result', where, 'encoder-args');
    });
    if (p.anyError) {
      assertThat(res.status >= 400 && p.anyError.includes(res.status), 'a result that cannot be sent did not become an error response', where, 'status-error');
      assertThat(!res.text, 'something of a result that cannot be sent was sent', where, 'leak');
    }
    if (!p.anyError) assertThat(res.status === p.status, 'the response has the wrong status', where, p.status >= 400 && res.status < 400 ? 'status-success' : 'status');
    if (p.json !== undefined) assertEqual(res.json, p.json, 'the response has the wrong body', where, 'body');
    return p;
  }

  async function execute(sc, { concurrent }) {
    lab.app = sc.app;
    lab.seen.length = 0;
    const results = [];
    const doOne = async (r, i) => {
      const needsBody = Object.keys(r.op.secs.body || {}).length > 0 || Array.isArray(r.input.body) || Object.keys(r.input.body).length > 0;
      const bad = () => ({ ...describe(sc, r), observed: sc.log.get(r.id) });
      try {
        results[i] = await lab.settle(
          lab.request({
            method: r.op.method.toUpperCase(),
            path: S.pathFor(r.op, r.input.params) + queryString(r.input.query, sc.rng),
            headers: { ...r.input.headers, 'x-req': r.id },
            body: needsBody ? JSON.stringify(r.input.body) : undefined,
          }),
          'a request was never answered',
          bad(),
        );
      } catch (e) {
        if (e instanceof Violation) {
          e.details = bad();
          throw e;
        }
        throw new Violation('the connection broke instead of carrying a response', { ...bad(), error: String(e) }, 'broken');
      }
    };
    if (concurrent) {
      const all = await Promise.allSettled(sc.requests.map(doOne));
      const f = all.find((x) => x.status === 'rejected');
      if (f) throw f.reason;
    } else for (let i = 0; i < sc.requests.length; i++) await doOne(sc.requests[i], i);
    await lab.idle();
    assertThat(!sc.log.has('unknown'), 'a handler ran outside of any request', { log: sc.log.get('unknown') }, 'unknown');
    return results;
  }

  return { scenario, predict, judge, execute, describe, ew };
};
