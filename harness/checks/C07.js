'use strict';
module.exports = require('../lib/routercheck')({
  cases: { quick: 1500, thorough: 30000 },
  rule:
    'Random specifications of 1-3 checked routes on created or wrapped routers, with router middleware, handler chains and hooks, sent 2-8 requests (half of them invalid in some section) sequentially or concurrently with random delays; monitors log every middleware, handler and hook run and the wire; the model predicts each trace. Fingerprint = request shape, verdict, trace shape, response status.',
  mustObserve: ['valid request', 'invalid request', 'invalid after an early answer', 'rejected by the gate', 'concurrent', 'sequential', 'handler runs', 'invalid in params', 'invalid in query', 'invalid in headers', 'invalid in body'],
  assumptions: ['hooks and handlers do not throw; JSON bodies parsed by express.json'],
  options: { nOps: 3, checked: () => true, hookChance: 0.25, mwMax: 1, invalid: 0.55, shortCircuit: 0.02, nReq: (r) => r.int(2, 8), finals: [[4, 'sendEncoded'], [4, 'json'], [0.7, 'next'], [0.5, 'nextErr']] },
  observe(obs, sc, r, p) {
    obs.count(p.want.ok ? 'valid request' : 'invalid request');
    if (p.decodeFailedAnswer) obs.count('rejected by the gate');
    for (const b of p.want.bad || []) obs.count('invalid in ' + b[0]);
    if (p.early) obs.count('invalid after an early answer');
    obs.count('handler runs', p.events.filter((e) => e.t === 'handler').length);
  },
  fingerprint: (sc, r, p) => [r.op.path, JSON.stringify(r.op.describe().request), (p.want.bad || ['ok']).join('/'), p.events.map((e) => e.t).join('>'), p.response.status].join('|'),
});
