'use strict';
module.exports = require('../lib/routercheck')({
  cases: { quick: 1500, thorough: 30000 },
  rule:
    'Random response specifications (numeric and named statuses, unknown names, transforming / optionalized / throwing codecs) with handlers sending matching, near-miss and junk payloads by number and by name (also undeclared and prototype-named statuses); the wire and the after-response hook are compared with the model. Fingerprint = status key, codec, verdict, hook levels, response status.',
  mustObserve: ['sent', 'refused', 'by name', 'by number', 'undeclared status', 'unknown name', 'payload not recognised', 'encode throws', 'after hook ran'],
  assumptions: ['the after-response hook does not throw', 'statuses that carry a body'],
  options: { nOps: 2, checked: (r) => r.chance(0.7), hookChance: 0.35, mwMax: 0, invalid: 0.05, shortCircuit: 0, badPayload: 0.3, nReq: (r) => r.int(3, 8), finals: [[1, 'sendEncoded']] },
  observe(obs, sc, r, p) {
    if (!p.sends) return;
    const a = r.handlers.find((x) => x.kind === 'sendEncoded');
    const f = r.op.responses[a.status];
    obs.count(p.encodeOk ? 'sent' : 'refused');
    obs.count(typeof a.status === 'number' ? 'by number' : 'by name');
    if (!f || typeof f === 'function') obs.count('undeclared status');
    else if (['nope', 'OK', 'successful'].includes(a.status)) obs.count('unknown name');
    else if (!f.codec.is(a.payload)) obs.count('payload not recognised');
    else if (f.label === 'ThrowingEncode') obs.count('encode throws');
    if (p.events.some((e) => e.t === 'after')) obs.count('after hook ran');
  },
  fingerprint: (sc, r, p, L) => {
    const a = r.handlers.find((x) => x.kind === 'sendEncoded') || {};
    return [a.status, (r.op.responses[a.status] || {}).label, p.encodeOk, L.levelOf(sc, r.op, 'afterEncodedResponseSent'), p.response.status, typeof a.payload].join('|');
  },
});
