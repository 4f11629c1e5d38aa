'use strict';
const { assertThat } = require('../lib/mon');
const { Project } = require('../lib/oagen');
const { Spec } = require('../lib/oaroutes');
const { wellFormed } = require('../lib/oaschema');

const LIMIT = 60000;

module.exports = {
  packages: ['openapi-generator', 'io-ts-http'],
  cases: { quick: 120, thorough: 4000 },
  rule:
    'Random specifications (C17) are damaged, each in several ways one at a time: names, imports, exports, declarations or files taken away or changed; files replaced, cut short, with bytes, tokens or text inserted or removed; constructs the generator does not know; parts of routes and specifications missing, replaced by what is none, or written in another form that means the same; references in circles between declarations and files; deep nesting; damaged packages and codec files; strange arguments; an output that takes no data. The command is run as a process, and so are the damaged sources. Monitored: it ends in time by itself; with success only if the output was one complete document that is well formed and has every route the running sources declare, with its statuses; otherwise with a message on the error stream and nothing on the output. A fault that makes a name unresolvable must make it fail or leave the document as it was. Non-trivial: a fault that makes the command fail, or changes the document; fingerprint = fault and outcome.',
  mustObserve: ['failed', 'succeeded', 'document unchanged', 'document changed', 'runs', 'does not run', 'property in another form', 'entry in another form', 'value in another form', 'no route', 'route without', 'undeclared name', 'import removed', 'file missing', 'output refused', 'arguments'],
  minimum: { quick: 500, thorough: 15000 },
  assumptions: ['an output that is closed from the start is opened as /dev/null by node and cannot be told from one that works', 'a crash of the native parser (third party) counts as a failure'],
  init(env) {
    env.lab = require('../lib/oalab')(env.B);
    env.faults = require('../lib/faults')(env.B.dep('typescript'));
  },
  async run(env, rng) {
    const { lab, obs } = env;
    const proj = new Project(rng, { open: rng.chance(0.2), decls: rng.int(2, 6) }).build();
    const spec = new Spec(proj, rng).build();
    const files = proj.render();
    const p0 = lab.project(files);
    const base = await lab.generate(p0.dir, 'index.ts', [], { timeout: LIMIT });
    p0.dispose();
    assertThat(base.code === 0 && base.doc, 'a specification of supported constructs is refused', { exit: base.code, stderr: base.err.slice(-1500), source: lab.show(files) }, 'refused');
    const P = {
      files,
      spec,
      ts: Object.keys(files).filter((f) => f.endsWith('.ts')),
      with: (f, text) => ({ files: { ...files, [f]: text } }),
    };
    for (let i = 0; i < 8; i++) {
      let fault;
      let kind;
      for (let k = 0; k < 20 && !fault; k++) {
        kind = rng.chance(0.3) ? rng.pick(['property in another form', 'property in another form', 'entry in another form', 'value in another form', 'no route', 'route without']) : rng.pick(Object.keys(env.faults.KINDS));
        fault = env.faults.KINDS[kind](rng, P);
      }
      // a call of a name that is not io-ts-http's apiSpec makes no specification: what it was given is not documented
      if (fault && fault.same && env.faults.specCalls(fault.files) < env.faults.specCalls(files)) fault.same = obs.count('no longer a specification') && false;
      if (fault) await this.one(env, { ...fault, kind }, base, spec);
    }
  },
  async one(env, fault, base, spec) {
    const { lab, obs } = env;
    const { kind } = fault;
    obs.count(kind);
    const p = lab.project(fault.files);
    const r = await lab.generate(p.dir, undefined, undefined, { argv: fault.argv, stdout: fault.stdout, timeout: LIMIT });
    p.dispose();
    const say = (extra) => ({ fault: kind, note: fault.note, exit: r.code, signal: r.signal, stderr: r.err.slice(0, 1500), ...extra, stdout: r.out.slice(0, 300), source: lab.show(fault.files) });
    obs.judged();
    assertThat(!r.timedOut, 'the command does not end', say({ limit: LIMIT }), 'does not end: ' + kind);
    if (r.signal) obs.count('crash of the parser');
    if (r.code !== 0) {
      obs.count('failed');
      obs.nontrivial(`${kind} ${r.err.split('\n').find((l) => /ERROR|Error/.test(l)) || ''}`.slice(0, 120));
      assertThat(r.out === '' || fault.stdout, 'a failing command prints something', say({}), 'partial output: ' + kind);
      assertThat(r.err.split('\n').some((l) => l.trim() !== '' && !l.startsWith('[INFO]')), 'the command fails without saying why', say({}), 'silent failure: ' + kind);
      return;
    }
    assertThat(!fault.loud, 'the command succeeds without a document of what it was given', say({}), 'loud: ' + kind);
    obs.count('succeeded');
    assertThat(r.doc && typeof r.doc === 'object' && r.out === JSON.stringify(r.doc, null, 2) + '\n', 'the command succeeds without printing one complete document', say({}), 'no document: ' + kind);
    // what the damaged sources and settings themselves say wrongly is taken as it is
    const bad = wellFormed(r.doc).bad.filter((x) => /unresolved reference|unexpected key|siblings|without items/.test(x));
    assertThat(!bad.length, 'the command succeeds with a document that is not well formed', say({ problems: bad.slice(0, 5) }), 'well formed: ' + kind);
    const same = r.out === base.out;
    obs.count(same ? 'document unchanged' : 'document changed');
    obs.sample({ kind, note: fault.note, same });
    if (fault.same) assertThat(same, 'a name that cannot be resolved goes unnoticed', say({ before: base.out, after: r.out }), 'unnoticed: ' + kind);
    if (!same) obs.nontrivial(`${kind} changed ${String(fault.note).slice(0, 60)}`);
    if (fault.argv) return;
    const operations = (doc) => Object.values(doc.paths).reduce((n, item) => n + Object.keys(item).length, 0);
    if (fault.operations) assertThat(operations(r.doc) >= operations(base.doc), 'operations are left out of the document', say({ before: operations(base.doc), after: operations(r.doc) }), 'operations: ' + kind);
    // every route of what runs
    let mod;
    try {
      mod = lab.load(Object.fromEntries(Object.entries(fault.files).map(([f, t]) => [f, String(t)])));
      obs.count('runs');
    } catch (e) {
      obs.count('does not run');
      return;
    }
    const routes = [];
    for (const name of Object.keys(mod).filter((x) => /^__spec/.test(x))) {
      const s = mod[name];
      if (!s || typeof s !== 'object') continue;
      for (const action of Object.values(s)) for (const route of Object.values(action || {})) if (route && typeof route === 'object' && typeof route.path === 'string' && typeof route.method === 'string' && route.response) routes.push({ key: `${route.method.toLowerCase()} ${route.path}`, route });
    }
    for (const { key, route } of routes) {
      const op = r.doc.paths[route.path] && r.doc.paths[route.path][route.method.toLowerCase()];
      obs.judged();
      obs.count('route found');
      assertThat(op, 'a route is left out of the document', say({ route: key, paths: Object.keys(r.doc.paths) }), 'route dropped: ' + kind);
      // of several routes of one path and method only one is documented
      if (routes.filter((x) => x.key === key).length > 1) continue;
      assertThat(Object.keys(route.response).every((c) => op.responses[c]), 'a response is left out of the document', say({ route: key, responses: Object.keys(route.response), documented: Object.keys(op.responses) }), 'response dropped: ' + kind);
    }
  },
};
