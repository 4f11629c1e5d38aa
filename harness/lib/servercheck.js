'use strict';
// Common shape of the checks that run express-wrapper scenarios.
const { AsyncLocalStorage } = require('async_hooks');
const { Lab } = require('./http');

module.exports = function serverCheck({ rule, cases, options, mustObserve, concurrentChance = 0.6, fingerprint, observe, assumptions }) {
  return {
    packages: ['io-ts-http', 'response', 'typed-express-router', 'express-wrapper'],
    uncaughtIsViolation: true,
    cases, rule, assumptions, mustObserve,
    async init(env) {
      env.als = new AsyncLocalStorage();
      const C = (env.C = require('./codecs')(env.B));
      const M = require('./model')(C);
      const R = require('./requests')(C, M);
      env.S = require('./specs')(C, M, R);
      env.lab = new Lab();
      await env.lab.start();
      env.W = require('./serverlab')(env);
    },
    finish(env) {
      env.lab.stop();
    },
    async run(env, rng) {
      const { W, obs } = env;
      const sc = W.scenario(rng, options);
      const concurrent = rng.chance(concurrentChance);
      const results = await W.execute(sc, { concurrent });
      sc.requests.forEach((r, i) => {
        const p = W.judge(sc, r, results[i], obs);
        obs.count('requests');
        obs.count(concurrent ? 'concurrent' : 'sequential');
        obs.count('outcome: ' + p.outcome);
        obs.count('events', (sc.log.get(r.id) || []).length);
        observe(obs, sc, r, p);
        obs.nontrivial(fingerprint(sc, r, p));
      });
      if (rng.chance(0.01)) obs.sample(W.describe(sc, sc.requests[0]));
    },
  };
};
