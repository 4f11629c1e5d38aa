'use strict';
module.exports = require('../lib/servercheck')({
  cases: { quick: 1500, thorough: 30000 },
  rule:
    'Random servers whose operations have chains of 0-7 middleware (Express-style or value-producing; immediate or delayed; passing, throwing, rejecting, passing on errors, responding) in front of a handler declared in each of the three supported forms; 2-8 requests, mostly concurrent, each with its own script and its own middleware values. Monitors log start and continuation of each middleware and the input of each handler. Fingerprint = form, chain kinds, actions, value keys, outcome.',
  mustObserve: ['outcome: middleware failure', 'outcome: middleware responded', 'branded', 'plain', 'function', 'chain of 7', 'values overlaid', 'value overwrites decoded property', 'rejection with a falsy value', 'concurrent', 'handler runs'],
  assumptions: ['errors passed to next are truthy; each middleware continues at most once'],
  options: { nOps: 2, chain: (r) => r.weighted([[1, 0], [2, 1], [3, 2], [3, 3], [2, r.int(4, 6)], [2, 7]]), invalid: 0.08, mwFail: 0.1, badCodec: 0, nReq: (r) => r.int(2, 8), results: [[1, 'ok']] },
  observe(obs, sc, r, p) {
    obs.count(r.op.form);
    if (r.op.chain.length === 7) obs.count('chain of 7');
    const hd = p.events.find((e) => e.t === 'handler');
    if (hd) {
      obs.count('handler runs');
      if (Object.keys(hd.input).length > Object.keys(p.want.v).length) obs.count('values overlaid');
      if (r.op.form === 'branded' && r.mw.some((a) => a.value && Object.keys(a.value).some((k) => k in p.want.v))) obs.count('value overwrites decoded property');
    }
    if (p.outcome === 'middleware failure') {
      const a = r.mw[p.events.filter((e) => e.t === 'mw').length - 1];
      if (!a.error) obs.count('rejection with a falsy value');
    }
  },
  fingerprint: (sc, r, p) => [r.op.form, r.op.chain.map((c) => c.type[0]).join(''), r.mw.map((a) => a.kind[0] + (a.delay ? 'd' : '') + (a.value ? Object.keys(a.value).join('/') : '')).join(','), p.outcome].join('|'),
});
