'use strict';
module.exports = require('../lib/routercheck')({
  cases: { quick: 1500, thorough: 30000 },
  rule:
    'Random subsets of the five hooks at route level and at router level (given, absent, explicitly undefined), on created and wrapped routers with 1-4 checked and unchecked routes, under requests that fail to decode, fail to encode or succeed; every hook logs its level and arguments. Fingerprint = per-hook (route?, router?), route kind, outcome.',
  mustObserve: ['decode failure', 'encode failure', 'success', 'level route', 'level router', 'level default', 'explicit undefined', 'createRouter', 'wrapRouter', 'unchecked'],
  assumptions: ['an explicitly undefined after-response hook at route level is not exercised (documentation and code disagree on it)'],
  options: { nOps: 4, checked: (r) => r.chance(0.75), hookChance: 0.5, mwMax: 1, invalid: 0.5, shortCircuit: 0, badPayload: 0.5, nReq: (r) => r.int(3, 8), finals: [[1, 'sendEncoded']] },
  observe(obs, sc, r, p, L) {
    const relevant = p.decodeFailedAnswer ? L.HOOKS.slice(0, 2) : p.sends > p.encodeOk ? L.HOOKS.slice(2, 4) : p.encodeOk ? L.HOOKS.slice(4) : [];
    obs.count(p.decodeFailedAnswer ? 'decode failure' : p.sends > p.encodeOk ? 'encode failure' : 'success');
    for (const h of relevant) obs.count('level ' + L.levelOf(sc, r.op, h).replace(/\d+/, ''));
    if (Object.keys(r.op.hooks).some((k) => r.op.hooks[k] === undefined)) obs.count('explicit undefined');
    obs.count(sc.factory);
    if (!r.op.checked) obs.count('unchecked');
  },
  fingerprint: (sc, r, p, L) => [L.HOOKS.map((h) => (r.op.hooks[h] ? 'R' : 'r') + (sc.routerHooks[h] ? 'G' : 'g')).join(''), r.op.checked, sc.factory, p.decodeFailedAnswer, p.sends, p.encodeOk].join('|'),
});
