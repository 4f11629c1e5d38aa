'use strict';
// Common shape of the checks that run typed-router scenarios.
const { Lab } = require('./http');

module.exports = function routerCheck({ rule, cases, options, mustObserve, concurrentChance = 0.5, fingerprint, observe, assumptions }) {
  return {
    packages: ['io-ts-http', 'typed-express-router'],
    uncaughtIsViolation: true,
    cases,
    rule,
    assumptions,
    mustObserve,
    async init(env) {
      const C = (env.C = require('./codecs')(env.B));
      const M = (env.M = require('./model')(C));
      const R = (env.R = require('./requests')(C, M));
      env.S = require('./specs')(C, M, R);
      env.lab = new Lab();
      await env.lab.start();
      env.L = require('./routerlab')(env);
    },
    finish(env) {
      env.lab.stop();
    },
    async run(env, rng) {
      const { L, obs } = env;
      const sc = L.scenario(rng, options);
      const concurrent = rng.chance(concurrentChance);
      const results = await L.execute(sc, { concurrent });
      sc.requests.forEach((r, i) => {
        const p = L.judge(sc, r, results[i], obs);
        obs.count('requests');
        obs.count(concurrent ? 'concurrent' : 'sequential');
        if (sc.trace.get(r.id)) obs.count('events', sc.trace.get(r.id).length);
        observe(obs, sc, r, p, L);
        obs.nontrivial(fingerprint(sc, r, p, L));
      });
      if (rng.chance(0.01)) obs.sample(L.describe(sc, sc.requests[0]));
    },
  };
};
