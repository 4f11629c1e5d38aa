'use strict';
const { assertThat, assertEqual, Violation, isEqual } = require('../lib/mon');
const { Lab } = require('../lib/http');

const STATUSES = [200, 201, 202, 203, 206, 207, 208, 226, 400, 401, 402, 403, 404, 405, 409, 410, 412, 415, 418, 422, 423, 425, 428, 429, 431, 451, 500, 501, 502, 503, 504, 511];

module.exports = {
  packages: ['io-ts-http', 'superagent-wrapper'],
  cases: { quick: 2500, thorough: 50000 },
  rule:
    'Random response specifications (0-5 statuses with codecs) and, per call, a random status and JSON body (matching, near miss, junk, falsy, prototype-named keys) or a transport fault (reset, truncated, malformed JSON) served by a loopback server; decode/decodeExpecting called in random patterns, repeatedly and concurrently. Fingerprint = (status declared?, codec, body verdict, factory, call pattern).',
  mustObserve: ['decoded', 'no codec', 'codec rejects', 'expecting ok', 'expecting wrong status', 'expecting undecodable', 'fault', 'repeated await', 'falsy body', 'superagent', 'supertest', 'client error status', 'server error status'],
  assumptions: ['statuses with a body that superagent does not itself follow (2xx except 204/205, 4xx, 5xx)'],
  async init(env) {
    env.C = require('../lib/codecs')(env.B);
    env.sw = env.B.load('superagent-wrapper');
    env.superagent = env.B.dep('superagent');
    env.supertest = env.B.dep('supertest');
    env.lab = new Lab();
    await env.lab.start();
  },
  finish(env) {
    env.lab.stop();
  },
  async run(env, rng) {
    const { C, sw, obs, lab } = env;
    const { h, t } = C;
    const response = {};
    const fields = {};
    for (const s of rng.sample(STATUSES, rng.int(0, 5))) {
      const f = C.leaf(rng.pick(C.jsonLeaves));
      fields[s] = f;
      response[s] = f.codec;
    }
    if (rng.chance(0.1)) response[rng.pick(STATUSES.filter((s) => !fields[s]))] = undefined;
    const method = rng.pick(['get', 'post', 'put', 'delete', 'patch']);
    const route = h.httpRoute({ path: '/r', method: method.toUpperCase(), request: h.httpRequest({ query: { tok: t.string } }), response });
    const kind = rng.pick(['superagent', 'supertest']);
    obs.count(kind);
    const factory = kind === 'superagent' ? sw.superagentRequestFactory(env.superagent, lab.base) : sw.supertestRequestFactory(env.supertest(lab.base));
    const client = sw.buildApiClient(factory, h.apiSpec({ op: { [method]: route } }));

    const plans = {};
    const hits = {};
    lab.app = (req, res) => {
      const tok = new URL(req.url, 'http://x').searchParams.get('tok');
      hits[tok] = (hits[tok] || 0) + 1;
      const p = plans[tok];
      req.resume();
      req.on('end', async () => {
        if (p.delay) await lab.delay(p.delay);
        if (p.fault === 'reset') return void req.socket.destroy();
        const body = p.text;
        if (p.fault === 'truncated') {
          res.writeHead(p.status, { 'content-type': 'application/json', 'content-length': Buffer.byteLength(body) + 10 });
          res.write(body);
          return void setImmediate(() => req.socket.destroy());
        }
        res.writeHead(p.status, { 'content-type': rng.chance(0.5) ? 'application/json' : 'application/json; charset=utf-8' });
        res.end(body);
      });
    };

    const one = async (tok) => {
      const declared = Object.keys(fields).map(Number);
      const status = declared.length && rng.chance(0.7) ? rng.pick(declared) : rng.pick(STATUSES);
      const f = fields[status];
      let body;
      if (f && rng.chance(0.55)) body = f.codec.encode(f.gen(rng));
      else body = rng.weighted([
        [2, () => f ? f.wire(rng) : C.junk(rng)],
        [1, () => rng.pick([0, false, '', 'x', 5, true, [], {}])],
        [1, () => ({ error: C.word(rng) })],
        [0.3, () => null],
      ])();
      if (body === undefined) body = {};
      let json = JSON.parse(JSON.stringify(body));
      const fault = rng.chance(0.08) ? rng.pick(['reset', 'truncated', 'malformed']) : undefined;
      const text = fault === 'malformed' ? rng.pick(['{"a":', '{', '[1,', 'nope', '{"a":1}}']) : JSON.stringify(json);
      const plan = (plans[tok] = { status, text, fault, delay: rng.chance(0.3) ? rng.int(1, 10) : 0 });
      const expecting = rng.chance(0.6) ? (rng.chance(0.6) ? status : rng.pick(declared.length ? declared : STATUSES)) : undefined;
      const pattern = rng.pick(['decode', 'decode', 'expect', 'expect', 'both', 'twice', 'late']);
      const where = { spec: Object.fromEntries(declared.map((s) => [s, fields[s].label])), plan, kind, method, pattern, expecting };
      const key = json === null ? 'null-json-response' : undefined;

      const req = client.op[method]({ tok });
      const jobs = [];
      const d = () => jobs.push(['decode', req.decode()]);
      const x = () => jobs.push(['expect', req.decodeExpecting(expecting ?? status)]);
      if (pattern === 'decode') d();
      else if (pattern === 'expect') x();
      else if (pattern === 'both') (d(), x());
      else if (pattern === 'twice') (d(), d());
      else {
        d();
        await jobs[0][1].catch(() => {});
        x();
      }
      if (jobs.length > 1) obs.count('repeated await');
      const settled = await lab.settle(Promise.allSettled(jobs.map((j) => j[1])), 'a client call never settled', where);
      obs.judged();
      assertThat(hits[tok] === 1, 'one client call did not send exactly one request', { ...where, requests: hits[tok] }, 'requests');

      if (fault) {
        obs.count('fault');
        settled.forEach((r, i) => assertThat(r.status === 'rejected', 'a broken response was turned into a result', { ...where, api: jobs[i][0], result: r.value && { status: r.value.status, body: r.value.body } }, 'fault-resolved:' + fault));
        obs.nontrivial(['fault', fault, status, pattern, kind].join());
        return;
      }
      // oracle
      let want;
      if (!f) {
        want = { status: 'decodeError', body: json };
        obs.count('no codec');
      } else {
        const r = f.codec.decode(json);
        want = r._tag === 'Right' ? { status, body: r.right } : { status: 'decodeError', body: json };
        obs.count(r._tag === 'Right' ? 'decoded' : 'codec rejects');
      }
      if (!json) obs.count('falsy body');
      if (status >= 500) obs.count('server error status');
      else if (status >= 400) obs.count('client error status');
      const judgeResult = (res, what) => {
        assertThat(res && res.status === want.status, 'the response was decoded with the wrong outcome', { ...where, api: what, want, got: res && { status: res.status, body: res.body, error: res.error } }, key || 'outcome');
        assertEqual(res.body, want.body, 'the decoded body is wrong', { ...where, api: what }, key || 'body');
        assertThat(res.original && res.original.status === status, 'the original response is missing or has another status', { ...where, api: what, original: res.original && res.original.status }, key || 'original');
        if (want.status === 'decodeError') assertThat(typeof res.error === 'string' && res.error.length > 0, 'a decode error carries no message', { ...where, api: what }, 'no-message');
        else assertThat(res.error === undefined, 'a decoded response carries an error', { ...where, api: what, error: res.error }, 'error-set');
      };
      settled.forEach((r, i) => {
        const api = jobs[i][0];
        obs.judged();
        if (api === 'decode') {
          assertThat(r.status === 'fulfilled', 'decode() rejected a well-formed response', { ...where, error: String(r.reason && r.reason.stack) }, key || 'decode-rejects');
          judgeResult(r.value, 'decode');
          return;
        }
        const exp = expecting ?? status;
        if (exp === status && want.status === status) {
          obs.count('expecting ok');
          assertThat(r.status === 'fulfilled', 'decodeExpecting() rejected the expected, decodable response', { ...where, error: String(r.reason && r.reason.stack) }, key || 'expect-rejects');
          judgeResult(r.value, 'decodeExpecting');
        } else {
          obs.count(exp !== status ? 'expecting wrong status' : 'expecting undecodable');
          assertThat(r.status === 'rejected', 'decodeExpecting() resolved though the status or body was not as expected', { ...where, result: r.value && { status: r.value.status, body: r.value.body } }, key || 'expect-resolves');
          assertThat(r.reason instanceof sw.DecodeError, 'decodeExpecting() rejected with something that is not the decode error', { ...where, error: String(r.reason && r.reason.stack) }, key || 'expect-error-type');
          assertThat(r.reason instanceof Error && typeof r.reason.message === 'string' && r.reason.message.includes(String(status)), 'the rejection does not mention the actual status', { ...where, message: r.reason.message }, 'expect-message');
          judgeResult(r.reason.decodedResponse, 'decodeExpecting error');
        }
      });
      obs.nontrivial([status, f ? f.label : '-', want.status === 'decodeError' ? 'E' : 'D', json === null ? 'null' : typeof json, pattern, exp(expecting, status), kind].join());
      if (rng.chance(0.005)) obs.sample({ ...where, want });
    };
    const n = rng.int(1, 4);
    const toks = Array.from({ length: n }, (_, i) => 't' + i);
    if (rng.chance(0.3)) {
      const all = await Promise.allSettled(toks.map(one));
      const bad = all.filter((r) => r.status === 'rejected').map((r) => r.reason);
      if (bad.length) throw bad.find((e) => e.key !== 'null-json-response') || bad[0];
    } else for (const tok of toks) await one(tok);
    void isEqual;
    void Violation;
  },
};
const exp = (e, s) => (e === undefined ? '-' : e === s ? '=' : '!');
