'use strict';
module.exports = require('../lib/routercheck')({
  cases: { quick: 1500, thorough: 30000 },
  rule:
    'Random specifications mixing unchecked (70%) and checked routes under 0-4 router middleware (synchronous, delayed, responding, failing, throwing) and chains of 1-3 handlers, sent valid and invalid requests sequentially or concurrently; the model predicts each trace and response. Fingerprint = route kind, verdict, middleware actions, trace shape.',
  mustObserve: ['unchecked valid', 'unchecked invalid', 'middleware runs', 'middleware responded', 'middleware failed', 'three or more middleware', 'concurrent'],
  assumptions: ['middleware is registered before the routes'],
  options: { nOps: 3, checked: (r) => r.chance(0.3), hookChance: 0.15, mwMax: 4, invalid: 0.5, shortCircuit: 0.12, nReq: (r) => r.int(2, 6), finals: [[3, 'sendEncoded'], [4, 'json'], [1, 'next'], [1, 'nextErr']] },
  observe(obs, sc, r, p) {
    if (!r.op.checked && p.events.some((e) => e.t === 'handler')) obs.count(p.want.ok ? 'unchecked valid' : 'unchecked invalid');
    const n = p.events.filter((e) => e.t === 'mw').length;
    obs.count('middleware runs', n);
    if (n >= 3) obs.count('three or more middleware');
    const last = n && r.mw[n - 1].kind;
    if (last === 'respond') obs.count('middleware responded');
    if (last === 'error' || last === 'throw') obs.count('middleware failed');
  },
  fingerprint: (sc, r, p) => [r.op.checked, p.want.ok, r.mw.map((m) => m.kind + (m.delay ? 'd' : '')).join(), p.events.map((e) => e.t + (e.j ?? e.i ?? '')).join('>'), p.response.status].join('|'),
});
