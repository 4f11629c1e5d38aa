#!/usr/bin/env node
'use strict';
// Entry point of every check:   node harness/run.js C01 [--tier quick|thorough]
//                               node harness/run.js --replay replays/C01-....json
// Exit 0: held on everything explored.  1: VIOLATION line printed.  2: inconclusive/error.
const fs = require('fs');
const path = require('path');
const { fork } = require('child_process');
const { build, PACKAGES } = require('./lib/build');
const { Rng, hash } = require('./lib/rng');
const { Violation, Observations, show } = require('./lib/mon');

const VERIF = path.resolve(__dirname, '..');
const args = process.argv.slice(2);
const opt = (name, dflt) => {
  const i = args.indexOf('--' + name);
  return i >= 0 ? args[i + 1] : dflt;
};

const check = (id) => require('./checks/' + id + '.js');

function loadKnown() {
  const file = path.join(VERIF, 'known-findings.json');
  if (!fs.existsSync(file)) return [];
  return JSON.parse(fs.readFileSync(file, 'utf8')).findings;
}

// ---------------------------------------------------------------- worker side
let current = null; // the case being run, for errors that escape every promise
async function runShard(msg) {
  const { id, seed, tier, from, to, step, root, only } = msg;
  const c = check(id);
  const B = attach(root);
  const obs = new Observations();
  const violations = [];
  const known = new Set(msg.known);
  const knownSeen = {};
  const env = { B, tier, seed, obs, shard: msg.shard };
  if (c.init) await c.init(env);
  if (c.uncaughtIsViolation) current = { case: -1, obs, violations, knownSeen };
  const runOne = async (i) => {
    const rng = new Rng(`${seed}/${id}/${i}`);
    try {
      await c.run(env, rng, i);
    } catch (e) {
      if (!(e instanceof Violation)) {
        // what comes out of the code under test itself, where the check expects no such thing
        const stack = String((e && e.stack) || e);
        const top = stack.split('\n').find((l) => /^\s+at /.test(l)) || '';
        if (!(e instanceof Error) || !new RegExp('packages/[a-z-]+/dist/').test(top)) throw new Error(`case ${i}: ${stack}`, { cause: e });
        violations.push({ case: i, message: `the code under test throws: ${e.message}`.slice(0, 500), key: 'unexpected exception', details: stack.slice(0, 3000) });
        return;
      }
      if (known.has(e.key)) {
        knownSeen[e.key] = (knownSeen[e.key] || 0) + 1;
        return;
      }
      violations.push({ case: i, message: e.message, key: e.key, details: show(e.details) });
    }
  };
  const list = only !== undefined ? [only] : [];
  if (only === undefined) for (let i = from; i < to; i += step) list.push(i);
  for (const i of list) {
    if (current) current.case = i;
    await runOne(i);
    obs.count('cases');
    if (violations.length >= 3) break;
  }
  if (c.finish) {
    try {
      await c.finish(env);
    } catch (e) {
      if (!(e instanceof Violation)) throw e;
      if (known.has(e.key)) knownSeen[e.key] = (knownSeen[e.key] || 0) + 1;
      else violations.push({ case: -1, message: e.message, key: e.key, details: show(e.details) });
    }
  }
  return { obs: obs.toJSON(), violations, knownSeen };
}

function attach(root) {
  const nm = path.join(root, 'node_modules');
  return {
    root,
    nm,
    load: (p) => require(path.join(nm, '@api-ts', p)),
    mod: (p, m) => require(path.join(root, 'packages', p, 'dist', 'src', m)),
    dep: (d) => require(path.join(nm, d)),
    pkg: (p) => path.join(root, 'packages', p),
  };
}

if (process.env.VERIF_WORKER) {
  // console noise of the code under test (e.g. deliberate console.warn) is not output
  // of the check
  console.warn = console.error = console.log = console.info = () => {};
  const fatal = (e) => {
    if (current && current.case >= 0) {
      const { obs, violations, knownSeen } = current;
      violations.push({
        case: current.case,
        message: 'an error escaped (uncaught exception or unhandled rejection): ' + String((e && e.message) || e),
        key: 'escaped',
        details: String((e && e.stack) || e),
      });
      process.send({ obs: obs.toJSON(), violations, knownSeen }, () => process.exit(0));
      return;
    }
    process.send({ error: String((e && e.stack) || e) }, () => process.exit(3));
  };
  process.on('uncaughtException', fatal);
  process.on('unhandledRejection', fatal);
  process.on('message', (msg) => {
    runShard(msg).then(
      (r) => process.send(r, () => process.exit(0)),
      fatal,
    );
  });
} else {
  main().then(
    (code) => process.exit(code),
    (e) => {
      console.log('INCONCLUSIVE: ' + ((e && e.stack) || e));
      process.exit(2);
    },
  );
}

// ---------------------------------------------------------------- parent side
async function main() {
  const t0 = Date.now();
  let id = args.find((a) => /^[A-Z]\d+$/.test(a));
  let seed = Number(process.env.VERIF_SEED || opt('seed', 1));
  let tier = opt('tier', process.env.VERIF_TIER || 'quick');
  let only;
  const replay = opt('replay');
  if (replay) {
    const r = JSON.parse(fs.readFileSync(replay, 'utf8'));
    ({ property: id, seed, tier } = r);
    only = r.case >= 0 ? r.case : undefined;
  }
  if (opt('case') !== undefined) only = Number(opt('case'));
  if (!['quick', 'thorough'].includes(tier)) tier = 'quick';
  const c = check(id);
  const B = build(c.packages);
  const total = c.cases[tier];
  const shards = only !== undefined ? 1 : Math.min(c.shards || 8, 8);
  const limit = Number(opt('timeout', tier === 'quick' ? 600 : 3000)) * 1000;
  const known = loadKnown().filter((k) => k.property === id && k.status === 'known');
  const procs = [];
  const results = await new Promise((resolve, reject) => {
    const out = [];
    let done = 0;
    const timer = setTimeout(() => {
      procs.forEach((p) => p.kill('SIGKILL'));
      reject(new Error(`watchdog: check did not finish within ${limit / 1000}s`));
    }, limit);
    for (let k = 0; k < shards; k++) {
      const p = fork(__filename, [], {
        env: { ...process.env, VERIF_WORKER: '1' },
        execArgv: c.execArgv || [],
        stdio: ['ignore', 'ignore', 'pipe', 'ipc'],
      });
      let stderr = '';
      p.stderr.on('data', (d) => (stderr = (stderr + d).slice(-4000)));
      let got = false;
      p.on('message', (m) => {
        got = true;
        if (m.error) {
          clearTimeout(timer);
          procs.forEach((q) => q.kill('SIGKILL'));
          reject(new Error('worker failed: ' + m.error));
          return;
        }
        out.push(m);
      });
      p.on('exit', (code, sig) => {
        if (!got) {
          clearTimeout(timer);
          procs.forEach((q) => q !== p && q.kill('SIGKILL'));
          reject(new Error(`worker ${k} died (code ${code}, signal ${sig}) without a verdict: ${stderr}`));
          return;
        }
        if (++done === shards) {
          clearTimeout(timer);
          resolve(out);
        }
      });
      procs.push(p);
      p.send({
        id, seed, tier, root: B.root, shard: k, only,
        from: k, to: total, step: shards,
        known: known.map((x) => x.key),
      });
    }
  });
  B.dispose();
  const obs = Observations.merge(results.map((r) => r.obs));
  const violations = results.flatMap((r) => r.violations);
  violations.sort((a, b) => a.case - b.case);
  const knownSeen = {};
  for (const r of results) for (const k in r.knownSeen) knownSeen[k] = (knownSeen[k] || 0) + r.knownSeen[k];

  const wall = (Date.now() - t0) / 1000;
  const minEv = (c.minimum && c.minimum[tier]) || 1;
  const enough = only !== undefined || (obs.evaluations >= minEv && obs.distinct.size > 0);
  const missing = only !== undefined ? [] : (c.mustObserve || []).filter((k) => !obs.counts[k]);

  if (only === undefined) {
    const evidence = {
      property: id,
      tier,
      seed,
      level: c.level || 'exploration',
      coverage: {
        evaluations: obs.evaluations,
        distinct_nontrivial: obs.distinct.size,
        rule: c.rule,
        samples: obs.samples,
        observed: obs.counts,
      },
      assumptions: c.assumptions || [],
      wall_s: wall,
      violations: violations.length,
    };
    fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
    fs.writeFileSync(path.join(VERIF, 'evidence', id + '.json'), JSON.stringify(evidence, null, 2) + '\n');
  }

  for (const k of known) {
    if (knownSeen[k.key] || only === undefined) {
      if (knownSeen[k.key]) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
    }
  }
  if (violations.length) {
    const dir = path.join(VERIF, 'replays');
    fs.mkdirSync(dir, { recursive: true });
    for (const v of violations.slice(0, 5)) {
      const file = path.join(dir, `${id}-${tier}-s${seed}-c${v.case}.json`);
      fs.writeFileSync(file, JSON.stringify({ property: id, seed, tier, ...v }, null, 2) + '\n');
      console.log(`# ${v.message}`);
      if (v === violations[0]) console.log(v.details.slice(0, 12000));
      console.log(`VIOLATION property=${id} replay=${file}`);
    }
    return 1;
  }
  if (!enough || missing.length) {
    console.log(
      `INCONCLUSIVE: property=${id} observed too little (evaluations=${obs.evaluations}, ` +
        `distinct=${obs.distinct.size}, never observed: ${missing.join(', ') || '-'})`,
    );
    return 2;
  }
  console.log(
    `OK property=${id} tier=${tier} seed=${seed} evaluations=${obs.evaluations} ` +
      `distinct=${obs.distinct.size} wall=${wall.toFixed(1)}s ${JSON.stringify(obs.counts)}`,
  );
  return 0;
}
void PACKAGES;
void hash;
