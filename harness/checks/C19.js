'use strict';
const fs = require('fs');
const path = require('path');
const { spawn } = require('child_process');
const { assertThat } = require('../lib/mon');
const { Project } = require('../lib/oagen');
const { Spec } = require('../lib/oaroutes');
const { canonical } = require('../lib/oacanon');

const DIRS = ['plain', 'with space', 'ünï-日本', 'a/b/c/d', 'dots.and-dashes', '%20', "quo'te", 'CON', '[x]', 'src', 'UPPER', 'node_modules_not', '#frag', 'a+b'];
const ENVS = [{}, { LC_ALL: 'C' }, { LC_ALL: 'et_EE.UTF-8', LANG: 'et_EE.UTF-8' }, { LC_ALL: 'cs_CZ.UTF-8' }, { LANG: 'tr_TR.UTF-8', LC_ALL: 'tr_TR.UTF-8' }, { LC_ALL: 'da_DK.UTF-8' }, { TZ: 'Asia/Kolkata' }, { HOME: '/nonexistent', USER: '' }, { FORCE_COLOR: '1', NODE_ENV: 'production' }, { NO_COLOR: '1', COLUMNS: '20' }];

const LOCALES = ['et_EE', 'cs_CZ', 'da_DK', 'tr_TR', 'sv_SE', 'lt_LT', 'sk_SK', 'lv_LV', 'haw_US', 'az_AZ'];

const TEXTS = ['Describes it', 'Ünïcode — 日本語', 'emoji 😀 text', 'two words', 'ends with dot.', 'a | b', '{braces} [brackets]'];
function comments(rng) {
  return (kind) => {
    if (!rng.chance(kind === 'route' ? 0.6 : 0.3)) return undefined;
    const lines = [rng.pick(TEXTS)];
    if (rng.chance(0.3)) lines.push(rng.pick(TEXTS));
    const tags = {
      route: ['@operationId op.x', '@tag Things', '@summary Does it', '@private', '@unstable', '@note other'],
      decl: ['@title Some title', '@deprecated', '@example "x"'],
      prop: ['@deprecated', '@private', '@example a', '@default b', '@minLength 1', '@format date'],
      param: ['@example x', '@deprecated', '@private', '@pattern ^[a-z]+$'],
      response: ['@example {"a": 1}'],
      spec: ['@version 1', '@url https://example.org'],
    }[kind];
    for (const t of rng.sample(tags || [], rng.int(0, 2))) lines.push(t);
    return lines.length === 1 && rng.chance(0.5) ? [`/** ${lines[0]} */`] : ['/**', ...lines.map((l) => ' * ' + l), ' */'];
  };
}

module.exports = {
  packages: ['openapi-generator', 'io-ts-http'],
  cases: { quick: 110, thorough: 2200 },
  rule:
    'The command-line tool is given random commented multi-file specifications (as in C17, C18 and C20), and then the same specification again: unchanged; in another directory, from another working directory, through a symbolic link, under other locales and environments; with its sources rearranged by sequences of up to five operations (statements reordered, layout, comments, line endings and byte order marks, unused declarations and types, local names, files split, moved and imported by way of others, quotes and parentheses); and in one process together with other projects in any order, some of them with custom codecs for the same names. Documents have to be byte-identical, and where helpers of other names or collisions of names can change names of components, identical up to those. Non-trivial: a rearranged, relocated or repeated project that has at least one component or comment; fingerprint = operations and the document.',
  mustObserve: ['repeated', 'relocated', 'working directory', 'symbolic link', 'locale', 'rearranged', 'reorder', 'layout', 'unused', 'rename import', 'rename const', 'split', 'hub', 'move', 'style', 'one process', 'history runs', 'custom codecs', 'absolute path'],
  minimum: { quick: 500, thorough: 9000 },
  assumptions: ['constants of a file are only moved before what uses them', 'the specification itself stays in the entry file', 'the names of imported and exported codecs are kept; codecs reached through a namespace import, function or member, or used as shorthand properties, are written out in place and stay so'],
  init(env) {
    const { B } = env;
    env.lab = require('../lib/oalab')(B);
    env.re = require('../lib/rearrange')(B.dep('typescript'));
    env.past = [];
  },
  async run(env, rng, i) {
    const { lab, obs, re } = env;
    const comment = comments(rng);
    const proj = new Project(rng, { open: rng.chance(0.3), decls: rng.int(2, 9), files: rng.int(0, 4), packages: rng.chance(0.3) ? 1 : 0, comment }).build();
    new Spec(proj, rng, { routes: rng.int(1, 6), comment }).build();
    // a codec from outside that only the configuration explains
    let codecFile;
    if (rng.chance(0.35)) {
      const shape = rng.pick(["{ type: 'string', format: 'x-" + i + "' }", "{ type: 'number', minimum: " + i + " }", "{ type: 'boolean' }", "{ type: 'object', properties: {}, required: [] }"]);
      const from = rng.pick(['external-codecs', '@outside/codecs', 'io-ts-extra']);
      const name = rng.pick(['Outside', 'Money', 'string', 'Foo']);
      const entry = proj.entry;
      const local = entry.alloc('Ext');
      entry.importText.push(`import { ${name} as ${local} } from '${from}';`);
      entry.items.push({
        raw: () => {
          const h = (x) => entry.lib('h', x);
          return `export const ${entry.alloc('extraSpec')} = ${h('apiSpec')}({ extra: { get: ${h('httpRoute')}({ path: '/extra', method: 'GET', request: ${h('httpRequest')}({}), response: { 200: ${local} } }) } });`;
        },
      });
      codecFile = `module.exports = (E) => ({ '${from}': { ${name}: () => E.right(${shape}) } });\n`;
      obs.count('custom codecs');
    }
    const files = proj.render();
    if (codecFile) files['codecs.js'] = codecFile;
    const args = codecFile ? ['--codec-file', './codecs.js'] : [];
    const show = (x) => ({ ...x, source: lab.show(files) });
    const gen = async (f, entry, opts = {}) => {
      const p = lab.project(f, opts.name);
      let dir = p.dir;
      const extra = {};
      let a = args;
      let e = entry;
      if (opts.link) {
        const l = dir + '.link';
        fs.symlinkSync(dir, l);
        dir = l;
      }
      if (opts.absolute) e = path.join(dir, entry);
      if (opts.cwd === 'parent') {
        extra.cwd = path.dirname(dir);
        e = path.join(path.basename(dir), entry);
        if (codecFile) a = ['--codec-file', path.join(path.basename(dir), 'codecs.js')];
      }
      if (opts.cwd === 'elsewhere') {
        extra.cwd = '/';
        e = path.relative('/', path.join(dir, entry));
        if (codecFile) a = ['--codec-file', path.join(dir, 'codecs.js')];
      }
      const r = await lab.generate(dir, e, a, { cwd: extra.cwd || dir, env: opts.env });
      p.dispose();
      return r;
    };
    const base = await gen(files, 'index.ts');
    assertThat(base.code === 0 && base.doc, 'a specification of supported constructs is refused', show({ exit: base.code, stderr: base.err.slice(-1500) }), 'refused');
    const diff = (a, b) => {
      const x = a.split('\n');
      const y = b.split('\n');
      const k = x.findIndex((l, n) => l !== y[n]);
      return { line: k + 1, was: x.slice(Math.max(0, k - 3), k + 6).join('\n'), is: y.slice(Math.max(0, k - 3), k + 6).join('\n') };
    };
    const rich = Object.keys((base.doc.components || {}).schemas || {}).length > 0 || /description|title|x-internal/.test(base.out);
    const same = (r, what, details) => {
      obs.judged();
      assertThat(r.code === 0 && r.doc, what + ' is refused', show({ ...details, exit: r.code, stderr: r.err.slice(-1500) }), 'variant refused');
      assertThat(r.out === base.out, what + ' has another document', show({ ...details, difference: diff(base.out, r.out) }), 'differs');
    };
    // ---- again, and elsewhere
    const place = {
      name: rng.chance(0.7) ? rng.pick(DIRS) : undefined,
      link: rng.chance(0.25),
      absolute: rng.chance(0.3),
      env: rng.chance(0.6) ? rng.pick(ENVS) : undefined,
    };
    if (!place.absolute && rng.chance(0.5)) place.cwd = rng.pick(['parent', 'elsewhere']);
    same(await gen(files, 'index.ts'), 'the same specification, generated again,', {});
    obs.count('repeated');
    const locale = rng.pick(LOCALES) + '.UTF-8';
    same(await gen(files, 'index.ts', { env: { LC_ALL: locale, LANG: locale } }), 'the same specification under another locale', { locale });
    obs.count('locale');
    same(await gen(files, 'index.ts', place), 'the same specification in another place', { place });
    if (place.name) obs.count('relocated');
    if (place.link) obs.count('symbolic link');
    if (place.absolute) obs.count('absolute path');
    if (place.cwd) obs.count('working directory');
    if (rich) obs.nontrivial(JSON.stringify(place) + base.out.length);
    // ---- rearranged
    const canon = canonical(base.doc);
    for (let v = 0; v < 3; v++) {
      const s = { files: { ...files }, entry: 'index.ts' };
      const log = [];
      let renames = false;
      for (let n = rng.weighted([[3, 1], [3, 2], [2, 3], [1, 5]]); n > 0; n--) {
        const r = re.ops[rng.pick(re.names)](s, rng);
        if (!r) continue;
        log.push(r);
        renames = renames || r.renames;
        obs.count(r.op.split(' ')[0] === 'hub' ? 'hub' : r.op);
      }
      if (!log.length) continue;
      const r = await gen(s.files, s.entry);
      const details = { operations: log, rearranged: lab.show(s.files) };
      obs.count('rearranged');
      if (!renames) same(r, 'a rearranged specification', details);
      else {
        obs.judged();
        assertThat(r.code === 0 && r.doc, 'a rearranged specification is refused', show({ ...details, exit: r.code, stderr: r.err.slice(-1500) }), 'variant refused');
        const c = canonical(r.doc);
        assertThat(c === canon, 'a rearranged specification has another document, even up to the names of components', show({ ...details, difference: diff(canon, c) }), 'differs');
      }
      if (rich) obs.nontrivial(log.map((x) => x.op).join() + base.out.length);
    }
    obs.sample({ components: Object.keys((base.doc.components || {}).schemas || {}), place });
    // ---- together with others in one process
    env.past.push({ files, args, out: base.out });
    if (env.past.length === 5) {
      const past = env.past;
      env.past = [];
      const ps = past.map((x) => lab.project(x.files));
      const order = [];
      for (let n = 9; n > 0; n--) order.push(rng.int(0, past.length - 1));
      const runs = order.map((k) => ({ dir: ps[k].dir, args: ['index.ts', ...past[k].args] }));
      const res = await history(lab, runs);
      ps.forEach((p) => p.dispose());
      obs.count('one process');
      order.forEach((k, n) => {
        obs.judged();
        obs.count('history runs');
        const details = { run: n, order, stderr: res.err.slice(-800), result: { ...res.list[n], text: undefined }, sources: past.map((x, m) => `==== ${m}\n` + lab.show(x.files)).join('\n') };
        assertThat(res.list[n] && res.list[n].text !== undefined, 'a specification is refused after others in the same process', details, 'history refused');
        assertThat(res.list[n].text === past[k].out, 'a specification has another document after others in the same process', { ...details, difference: diff(past[k].out, res.list[n].text) }, 'history differs');
        obs.nontrivial('h' + order.slice(0, n + 1).join() + past[k].out.length);
      });
    }
  },
};

function history(lab, runs) {
  return new Promise((resolve, reject) => {
    const p = spawn(process.execPath, [path.join(__dirname, '..', 'lib', 'oahistory.js'), lab.cli, JSON.stringify(runs)], {
      cwd: lab.base,
      env: { ...process.env, NODE_OPTIONS: '', VERIF_WORKER: '' },
      stdio: ['ignore', 'pipe', 'pipe'],
    });
    const out = [];
    const err = [];
    p.stdout.on('data', (d) => out.push(d));
    p.stderr.on('data', (d) => err.push(d));
    p.on('error', reject);
    p.on('close', (code) => {
      const text = Buffer.concat(out).toString();
      try {
        resolve({ list: JSON.parse(text), err: Buffer.concat(err).toString(), code });
      } catch (e) {
        reject(new Error('no result from the history run: ' + code + ' ' + text.slice(0, 300) + Buffer.concat(err).toString().slice(-800)));
      }
    });
  });
}
