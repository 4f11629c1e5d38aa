'use strict';
// Random typed-express-router scenarios, executed over a real socket while monitors at the
// boundary (middleware, handlers, hooks, wire) log events; an independent model predicts the
// exact event sequence and response of every request.
const { Violation, assertThat, assertEqual, show, isEqual } = require('./mon');
const { deepClone } = require('./freeze');
const { queryString } = require('./http');
const REF = require('./statuses');

module.exports = function makeRouterLab(env, useRouter) {
  const { C, S, lab } = env;
  const { h, t, T, E } = C;
  const PathReporter = env.B.dep('io-ts/lib/PathReporter');
  const ter = useRouter || env.B.load('typed-express-router');
  const express = env.B.dep('express');

  const ThrowingEncode = new t.Type('ThrowingEncode', (u) => typeof u === 'string', t.string.validate, () => {
    throw new Error('cannot encode');
  });
  const KEYS = Object.keys(REF).filter((k) => REF[k] >= 200 && ![204, 205, 304].includes(REF[k]));

  const responseSpec = (rng) => {
    const fields = Object.create(null); // statuses may be named like object prototype members
    const response = {};
    for (let i = rng.int(1, 4); i > 0; i--) {
      const key = rng.weighted([
        [3, () => rng.pick([200, 201, 202, 400, 401, 403, 404, 409, 422, 500, 503])],
        [3, () => rng.pick(KEYS)],
        [0.4, () => rng.pick(['nope', 'OK', 'successful'])],
      ])();
      const f = rng.chance(0.08)
        ? { label: 'ThrowingEncode', codec: ThrowingEncode, gen: C.word, wire: (r) => C.junk(r) }
        : rng.chance(0.15)
          ? optzField(rng)
          : C.leaf(rng.pick(C.jsonLeaves));
      fields[key] = f;
      response[key] = f.codec;
    }
    return { fields, response };
  };
  const optzField = (rng) => {
    const a = C.leaf(rng.pick(C.jsonLeaves));
    const b = C.leaf(rng.pick(C.jsonLeaves));
    return {
      label: `optionalized{a:${a.label},b?:${b.label}}`,
      codec: h.optionalized({ a: a.codec, b: h.optional(b.codec) }),
      gen: (r) => (r.chance(0.5) ? { a: a.gen(r) } : { a: a.gen(r), b: r.chance(0.3) ? undefined : b.gen(r) }),
      wire: (r) => C.junk(r),
    };
  };

  const HOOKS = ['decodeErrorFormatter', 'getDecodeErrorStatusCode', 'encodeErrorFormatter', 'getEncodeErrorStatusCode', 'afterEncodedResponseSent'];

  /**
   * opts: nOps, checked(rng)->bool, hookChance, mwMax, invalid, badPayload, shortCircuit, finals, concurrency
   */
  function scenario(rng, o) {
    const trace = new Map(); // id -> events
    const ev = (req, e) => {
      lab.touch();
      const id = req.headers['x-req'];
      if (!trace.has(id)) trace.set(id, []);
      trace.get(id).push(e);
    };
    const reqs = new Map();
    const scriptOf = (req) => reqs.get(req.headers['x-req']);

    const makeHooks = (level, statusBase, chance) => {
      const hooks = {};
      HOOKS.forEach((name, n) => {
        if (!rng.chance(chance)) return;
        hooks[name] = {
          decodeErrorFormatter: (errs, req) => {
            ev(req, { t: 'hook', name, level, errs: PathReporter.failure(errs) });
            return { by: level, id: req.headers['x-req'], op: req.apiName, errs: PathReporter.failure(errs) };
          },
          getDecodeErrorStatusCode: (errs, req) => {
            ev(req, { t: 'hook', name, level, errs: PathReporter.failure(errs) });
            return statusBase + (Number(req.headers['x-req']) % 3);
          },
          encodeErrorFormatter: (err, req) => {
            ev(req, { t: 'hook', name, level, err });
            return { by: level, id: req.headers['x-req'], op: req.apiName, isError: err instanceof Error };
          },
          getEncodeErrorStatusCode: (err, req) => {
            ev(req, { t: 'hook', name, level, err });
            return statusBase + 100 + (Number(req.headers['x-req']) % 3);
          },
          afterEncodedResponseSent: (status, payload, req, res) => {
            ev(req, { t: 'after', level, status, payload, ended: res.writableEnded, sameReq: res.req === req });
          },
        }[name];
        void n;
      });
      return hooks;
    };

    // ---------------------------------------------------------- specification & router
    const ops = [];
    const nOps = rng.int(1, o.nOps || 3);
    for (let i = 0; i < nOps; i++) {
      const rs = responseSpec(rng);
      const op = S.operation(rng, i, { response: rs.response, opts: {}, bodyChance: 0.55 });
      op.responses = rs.fields;
      op.checked = o.checked(rng);
      op.level = 'route' + i;
      op.hooks = makeHooks(op.level, 410 + i * 10, o.hookChance ?? 0.3);
      op.passOptions = Object.keys(op.hooks).length > 0 || rng.chance(0.3);
      // an explicitly undefined entry means "not given"; (the after hook is left out: its
      // documentation claims that undefined disables it)
      if (op.passOptions && rng.chance(0.2)) for (const n of HOOKS.slice(0, 4)) if (!op.hooks[n] && rng.chance(0.3)) op.hooks[n] = undefined;
      op.nHandlers = rng.int(1, 3);
      ops.push(op);
    }
    if (nOps > 1 && rng.chance(0.3)) {
      const m = rng.pick(S.METHODS.filter((x) => x !== ops[0].method));
      ops[1].apiName = ops[0].apiName;
      ops[1].method = m;
      ops[1].route = { ...ops[1].route, method: m.toUpperCase() };
    }
    const spec = S.specOf(ops);
    const routerHooks = makeHooks('router', 470, o.hookChance ?? 0.3);
    if (rng.chance(0.15)) for (const n of HOOKS) if (!routerHooks[n] && rng.chance(0.3)) routerHooks[n] = undefined;
    const factory = rng.pick(['createRouter', 'wrapRouter']);
    const noRouterHooks = Object.keys(routerHooks).length === 0;
    const router =
      factory === 'createRouter'
        ? noRouterHooks && rng.chance(0.5) ? ter.createRouter(spec) : ter.createRouter(spec, rng.chance(0.3) ? { ...routerHooks, strict: false } : routerHooks)
        : ter.wrapRouter(express.Router(), spec, routerHooks);

    // the same function in the shapes in which people write them
    const shaped = (f) => rng.pick([
      () => f,
      () => f,
      () => (...a) => f(...a),
      () => function named(req, ...rest) { return f(req, ...rest); },
      () => (req, res, next = undefined) => f(req, res, next),
    ])();

    const nMw = rng.int(0, o.mwMax ?? 2);
    for (let j = 0; j < nMw; j++) {
      const mwFn = (req, res, next) => {
        const r = scriptOf(req);
        ev(req, { t: 'mw', j, decoded: req.decoded, apiName: req.apiName, route: req.httpRoute, can: typeof res.sendEncoded });
        const act = r.mw[j];
        const go = () => {
          if (act.kind === 'pass') next();
          else if (act.kind === 'respondAndContinue') {
            if (!res.headersSent) res.status(act.status).json({ mw: j, id: r.id });
            next();
          } else if (act.kind === 'respond') res.status(act.status).json({ mw: j, id: r.id });
          else if (act.kind === 'error') next(new Error('mw-error-' + r.id));
        };
        if (act.kind === 'throw') throw new Error('mw-error-' + r.id);
        if (act.delay) lab.delay(act.delay).then(go);
        else go();
      };
      router.use(shaped(mwFn));
    }
    const register = (op) => {
      const handlers = [];
      for (let i = 0; i < op.nHandlers; i++) {
        const handlerFn = (req, res, next) => {
          const r = scriptOf(req);
          ev(req, { t: 'handler', op: op.level, i, decoded: req.decoded, apiName: req.apiName, route: req.httpRoute, can: typeof res.sendEncoded });
          const act = r.handlers[i];
          const go = () => {
            switch (act.kind) {
              case 'next': return next();
              case 'json': return res.status(act.status).json({ h: i, id: r.id });
              case 'nextErr': return next(new Error('handler-error-' + r.id));
              case 'sendEncoded':
                ev(req, { t: 'send' });
                res.sendEncoded(act.status, act.payload);
                ev(req, { t: 'sent', ended: res.writableEnded });
            }
          };
          if (act.delay) lab.delay(act.delay).then(go);
          else go();
        };
        handlers.push(shaped(handlerFn));
      }
      router[op.method + (op.checked ? '' : 'Unchecked')](op.apiName, handlers, ...(op.passOptions ? [op.hooks] : []));
    };
    rng.shuffle(ops).forEach(register);

    const app = express();
    app.use(express.json({ strict: false }));
    app.use(router);
    app.use((req, res) => {
      ev(req, { t: 'fall' });
      res.status(404).json({ fall: req.headers['x-req'] });
    });
    // eslint-disable-next-line no-unused-vars
    app.use((err, req, res, next) => {
      ev(req, { t: 'apperror', message: String(err && err.message) });
      if (res.headersSent) return;
      res.status(555).json({ apperror: String(err && err.message) });
    });

    // ---------------------------------------------------------- requests
    const requests = [];
    const nReq = o.nReq ? o.nReq(rng) : rng.int(2, 6);
    for (let i = 0; i < nReq; i++) {
      const op = rng.pick(ops);
      const id = String(i + 1);
      const input = S.wireRequest(rng, op, { invalid: o.invalid ?? 0.4 });
      const delay = () => (rng.chance(0.35) ? rng.int(1, 12) : 0);
      const mw = Array.from({ length: nMw }, () => {
        const kind = rng.chance(o.shortCircuit ?? 0.05) ? rng.pick(['respond', 'error', 'throw']) : 'pass';
        return { kind, delay: delay(), status: 250 + rng.int(0, 5) };
      });
      // (only where nothing that runs afterwards would try to answer once more)
      if (op.checked && mw.length && mw.every((a) => a.kind === 'pass') && rng.chance(0.06) && !op.model.decode(input).ok) rng.pick(mw).kind = 'respondAndContinue';
      const handlers = [];
      for (let k = 0; k < op.nHandlers; k++) {
        const last = k === op.nHandlers - 1;
        let act;
        if (!last && rng.chance(0.8)) act = { kind: 'next' };
        else {
          const kind = rng.weighted(o.finals || [[5, 'sendEncoded'], [1.5, 'json'], [0.5, 'next'], [0.5, 'nextErr']]);
          act = { kind };
          if (kind === 'json') act.status = 260 + rng.int(0, 5);
          if (kind === 'sendEncoded') {
            const keys = Object.keys(op.responses).map((x) => (/^\d+$/.test(x) ? Number(x) : x));
            act.status = rng.chance(0.88) ? rng.pick(keys) : rng.pick([418, 299, 'ok', 'gone', 'nope', 'toString', 'constructor', '200', -1]);
            const f = op.responses[act.status];
            act.payload = f && !rng.chance(o.badPayload ?? 0.25) ? f.gen(rng) : C.junk(rng);
          }
        }
        act.delay = delay();
        handlers.push(act);
      }
      const r = { id, op, input, mw, handlers };
      reqs.set(id, r);
      requests.push(r);
    }
    return { ops, spec, factory, routerHooks, nMw, app, requests, trace, rng };
  }

  // ------------------------------------------------------------ model
  const levelOf = (sc, op, hook) => (op.passOptions && op.hooks[hook] ? op.level : sc.routerHooks[hook] ? 'router' : 'default');
  const statusBase = (sc, level) => (level === 'router' ? 470 : 410 + Number(level.slice(5)) * 10);

  function predict(sc, r) {
    const { op } = r;
    const want = op.model.decode(r.input);
    const either = op.request.decode(r.input); // used for messages only
    const failure = want.ok ? undefined : PathReporter.failure(either.left || []);
    const events = [];
    const out = { want, failure, events, sends: 0, encodeOk: 0, response: undefined, decodeFailedAnswer: false };
    const idn = Number(r.id);
    for (let j = 0; j < sc.nMw; j++) {
      events.push({ t: 'mw', j });
      const a = r.mw[j];
      if (a.kind === 'respondAndContinue' && !out.early) out.early = { status: a.status, json: { mw: j, id: r.id } };
      if (a.kind === 'respond') {
        out.response = { status: a.status, json: { mw: j, id: r.id } };
        return out;
      }
      if (a.kind === 'error' || a.kind === 'throw') {
        events.push({ t: 'apperror' });
        out.response = { status: 555, json: { apperror: 'mw-error-' + r.id } };
        return out;
      }
    }
    if (op.checked && !want.ok && out.early) {
      out.response = out.early;
      return out;
    }
    if (op.checked && !want.ok) {
      const fl = levelOf(sc, op, 'decodeErrorFormatter');
      const sl = levelOf(sc, op, 'getDecodeErrorStatusCode');
      out.decodeFailedAnswer = true;
      out.response = {
        status: sl === 'default' ? 400 : statusBase(sc, sl) + (idn % 3),
        json: fl === 'default' ? failure : { by: fl, id: r.id, op: op.apiName, errs: failure },
      };
      return out;
    }
    for (let i = 0; i < op.nHandlers; i++) {
      const a = r.handlers[i];
      events.push({ t: 'handler', i });
      if (a.kind === 'next') continue;
      if (a.kind === 'json') {
        out.response = { status: a.status, json: { h: i, id: r.id } };
        return out;
      }
      if (a.kind === 'nextErr') {
        events.push({ t: 'apperror' });
        out.response = { status: 555, json: { apperror: 'handler-error-' + r.id } };
        return out;
      }
      // sendEncoded
      out.sends++;
      const f = op.responses[a.status];
      const num = typeof a.status === 'number' ? a.status : Object.prototype.hasOwnProperty.call(REF, a.status) ? REF[a.status] : undefined;
      let ok = false;
      let json;
      if (f && num !== undefined && f.codec.is(a.payload)) {
        try {
          json = JSON.parse(JSON.stringify(f.codec.encode(a.payload)));
          ok = true;
        } catch (e) {
          ok = false;
        }
      }
      events.push({ t: 'send' });
      if (ok) {
        out.encodeOk++;
        out.sentStatus = num;
        const al = levelOf(sc, op, 'afterEncodedResponseSent');
        if (al !== 'default') events.push({ t: 'after', level: al, status: num, payload: a.payload });
        out.response = { status: num, json };
      } else {
        const fl = levelOf(sc, op, 'encodeErrorFormatter');
        const sl = levelOf(sc, op, 'getEncodeErrorStatusCode');
        out.sentStatus = sl === 'default' ? 500 : statusBase(sc, sl) + 100 + (idn % 3);
        out.response = {
          status: out.sentStatus,
          json: fl === 'default' ? {} : { by: fl, id: r.id, op: op.apiName, isError: true },
        };
      }
      events.push({ t: 'sent' });
      return out;
    }
    events.push({ t: 'fall' });
    out.response = { status: 404, json: { fall: r.id } };
    return out;
  }

  async function send(sc, r) {
    const p = S.pathFor(r.op, r.input.params) + queryString(r.input.query, sc.rng);
    const needsBody = Object.keys(r.op.secs.body || {}).length > 0 || Array.isArray(r.input.body) || Object.keys(r.input.body).length > 0;
    return lab.request({
      method: r.op.method.toUpperCase(),
      path: p,
      headers: { ...r.input.headers, 'x-req': r.id },
      body: needsBody ? JSON.stringify(r.input.body) : undefined,
    });
  }

  const describe = (sc, r) => ({
    op: r.op.describe(), checked: r.op.checked, factory: sc.factory,
    responses: Object.fromEntries(Object.entries(r.op.responses).map(([k, f]) => [k, f.label])),
    routeHooks: r.op.passOptions ? Object.keys(r.op.hooks).map((k) => k + (r.op.hooks[k] ? '' : '=undefined')) : 'no options',
    routerHooks: Object.keys(sc.routerHooks), middleware: r.mw, handlers: r.handlers, input: r.input, id: r.id,
  });

  /** compares the observed trace and response of one request with the prediction */
  function judge(sc, r, res, obs) {
    const p = predict(sc, r);
    const got = (sc.trace.get(r.id) || []).slice();
    const where = { ...describe(sc, r), valid: p.want.ok, observed: got.map((e) => ({ ...e, route: undefined })), response: { status: res.status, body: res.text } };
    obs.judged();

    // which hooks ran (the number of formatter calls is unspecified, the after hook's is not)
    for (const e of got.filter((x) => x.t === 'hook')) {
      assertThat(e.level === levelOf(sc, r.op, e.name), 'a hook of the wrong level ran', { ...where, hook: e.name, expected: levelOf(sc, r.op, e.name), ran: e.level }, 'hook-level');
      if (e.errs) {
        assertThat(!p.want.ok, 'a decode-error hook ran for a valid request', { ...where, hook: e.name }, 'hook-valid');
        assertEqual(e.errs, p.failure, "a decode-error hook received another request's errors", where, 'hook-errs');
      } else assertThat(p.sends > p.encodeOk, 'an encode-error hook ran though nothing failed to encode', { ...where, hook: e.name }, 'hook-noencode');
    }
    // (after an early answer, whether the second one is attempted and fails is unspecified)
    const seq = got.filter((e) => e.t !== 'hook' && !(p.early && e.t === 'apperror'));
    const brief = (e) => (e.t === 'mw' ? 'mw' + e.j : e.t === 'handler' ? 'handler' + e.i : e.t);
    assertEqual(seq.map(brief), p.events.map(brief), 'middleware, handlers and hooks did not run as they should have', where, 'sequence');
    seq.forEach((e, i) => {
      const w = p.events[i];
      if (e.t === 'mw' || (e.t === 'handler' && !r.op.checked)) {
        const d = e.decoded;
        assertThat(d && (d._tag === 'Right' || d._tag === 'Left'), 'the decode result is not a success-or-errors value', { ...where, at: brief(e) }, 'either');
        assertThat((d._tag === 'Right') === p.want.ok, 'the decode result seen is not that of this request', { ...where, at: brief(e) }, 'either-tag');
        if (p.want.ok) assertEqual(d.right, p.want.v, 'the decoded value seen is not that of this request', { ...where, at: brief(e) }, 'either-value');
        else assertEqual(PathReporter.failure(d.left), p.failure, 'the decode errors seen are not those of this request', { ...where, at: brief(e) }, 'either-errors');
      } else if (e.t === 'handler') {
        assertEqual(e.decoded, p.want.v, 'the handler of a checked route saw something other than the decoded value', { ...where, at: brief(e) }, 'decoded-value');
      }
      if (e.t === 'mw' || e.t === 'handler') {
        assertThat(e.apiName === r.op.apiName && e.route === r.op.route, 'the request carries another operation name or route', { ...where, at: brief(e), got: e.apiName }, 'apiname');
        assertThat(e.can === 'function', 'the response has no typed-send method', { ...where, at: brief(e) }, 'sendEncoded-missing');
      }
      if (e.t === 'handler') assertThat(e.op === r.op.level, "another operation's handler ran", { ...where, ran: e.op }, 'wrong-op');
      if (e.t === 'after') {
        assertThat(e.level === w.level, 'the after-response hook of the wrong level ran', { ...where, ran: e.level, expected: w.level }, 'after-level');
        assertThat(e.status === w.status && isEqual(e.payload, w.payload), 'the after-response hook received another status or payload', { ...where, got: { status: e.status, payload: e.payload } }, 'after-args');
        assertThat(e.ended === true, 'the after-response hook ran before the response was complete', where, 'after-early');
        assertThat(e.sameReq === true, 'the after-response hook received the wrong request/response', where, 'after-req');
      }
      if (e.t === 'sent') assertThat(e.ended === true, 'a typed response was not completed', where, 'sent-open');
    });
    assertThat(res.status === p.response.status, 'the response has the wrong status', { ...where, expected: p.response }, 'status');
    assertEqual(res.json, p.response.json, 'the response has the wrong body', { ...where }, 'body');
    if (p.sends) assertThat(/^application\/json\b/.test(res.headers['content-type'] || ''), 'a typed response is not JSON', { ...where, headers: res.headers }, 'content-type');
    return p;
  }

  async function execute(sc, { concurrent, wrap }) {
    lab.app = wrap ? wrap(sc.app) : sc.app;
    lab.seen.length = 0;
    const results = [];
    const bad = (r) => ({ ...describe(sc, r), observed: (sc.trace.get(r.id) || []).map((e) => ({ ...e, route: undefined })) });
    const doOne = async (r, i) => {
      try {
        results[i] = await lab.settle(send(sc, r), 'a request was never answered', bad(r));
      } catch (e) {
        if (e instanceof Violation) {
          e.details = bad(r);
          throw e;
        }
        throw new Violation('the connection broke instead of carrying a response', { ...bad(r), error: String(e) }, 'broken');
      }
    };
    if (concurrent) {
      const all = await Promise.allSettled(sc.requests.map(doOne));
      const f = all.find((x) => x.status === 'rejected');
      if (f) throw f.reason;
    } else for (let i = 0; i < sc.requests.length; i++) await doOne(sc.requests[i], i);
    // let anything that still (wrongly) runs after the response show up
    await lab.idle();
    assertThat(lab.seen.length === sc.requests.length, 'the server saw another number of requests', { seen: lab.seen.length }, 'seen');
    return results;
  }

  void deepClone;
  void show;
  void T;
  void E;
  return { scenario, predict, judge, execute, describe, HOOKS, levelOf, responseSpec, ter, express, PathReporter, KEYS };
};
