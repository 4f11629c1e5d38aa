'use strict';
module.exports = require('../lib/servercheck')({
  cases: { quick: 1500, thorough: 30000 },
  rule:
    'Random servers (createServer and routerForApiSpec, with default and custom error hooks and encoder, also one using the typed sending of the router) with 1-3 operations, sometimes shadowed by another operation that matches the same paths, chains of 0-2 middleware and handlers that succeed by number or name, throw, reject, return nothing, unknown types, statuses without codec or values whose codec throws; requests valid and invalid, mostly concurrent. The wire, handler log and process-level error events are compared with the model. Fingerprint = outcome, status, result kind, form, configuration.',
  mustObserve: ['outcome: ok number', 'outcome: ok keyed', 'outcome: decode failure', 'outcome: middleware failure', 'outcome: handler failure', 'outcome: unencodable', 'outcome: unusable result', 'outcome: custom encoder', 'outcome: encoder failure', 'outcome: typed send', 'outcome: typed send failure', 'failure with a shadowing route', 'status chosen before failing', 'createServer', 'routerForApiSpec', 'concurrent'],
  assumptions: ['statuses that carry a body', 'custom hooks do not throw'],
  options: { nOps: 3, chain: (r) => r.weighted([[3, 0], [2, 1], [1, 2]]), invalid: 0.3, mwFail: 0.2, shadow: true, nReq: (r) => r.int(2, 7) },
  observe(obs, sc, r, p) {
    obs.count(sc.via);
    if (/failure|unusable|unenc/.test(p.outcome) && sc.shadow && r.op === sc.ops[0]) obs.count('failure with a shadowing route');
    if (/failure/.test(p.outcome) && r.mw.some((a) => a.setStatus >= 400)) obs.count('status chosen before failing');
  },
  fingerprint: (sc, r, p) => [p.outcome, p.status, r.result.kind, r.op.form, sc.via, Object.keys(sc.custom).join(), r.mw.map((a) => a.kind + (a.setStatus || '')).join()].join('|'),
});
