'use strict';
// What the command is told by its options and by package.json files, and what it makes of it.
const fs = require('fs');
const path = require('path');
const { assertThat, assertEqual } = require('../lib/mon');

const TEXT = ['My API', 'api', '@scope/service-api', 'Überblick ✓ 日本語', '  spaced  ', 'a "quoted" name', "it's", '0', '007', '1e3', 'true', 'null', 'name', '😀', 'x'.repeat(300), 'a\\b', 'a=b', '--name', '-v', '$HOME', '{}', '[1]', '<b>', 'constructor', '__proto__', 'a\tb'];
const NAMES = ['Money', 'Amount', 'Id', 'Timestamp', 'Shape', 'Kind'];
const PKGS = ['money-codecs', '@acme/types', 'types', 'acme.codecs', '@a/b-c', '@acme/money'];

/** a schema in the generator's own terms, and what the document is to say; told apart by n */
function shape(rng, n) {
  if (rng.chance(0.4)) {
    // any keyword a schema may have, of any value
    const flag = () => true;
    const num = () => rng.pick([0, 1, n, 0.5, -n]);
    const nat = () => rng.pick([0, 1, n]);
    const text = () => rng.pick(['x' + n, '^[a-z]{' + n + '}$', '0', 'Über']);
    const [type, own] = rng.pick([
      ['string', { minLength: nat, maxLength: nat, pattern: text, format: text, default: text, example: text }],
      ['number', { minimum: num, maximum: num, multipleOf: () => n, exclusiveMinimum: flag, exclusiveMaximum: flag, default: num, example: num }],
      ['boolean', { default: () => rng.chance(0.5), example: () => rng.chance(0.5) }],
      ['array', { minItems: nat, maxItems: nat, uniqueItems: flag }],
      ['object', { minProperties: nat, maxProperties: nat }],
    ]);
    const all = { ...own, description: text, readOnly: flag, writeOnly: flag, deprecated: flag };
    const words = {};
    // which of the keywords of an array concern its items is another matter
    for (const k of rng.sample(Object.keys(type === 'array' ? own : all), rng.int(1, 4))) words[k] = all[k]();
    const more = type === 'array' ? { items: { type: 'string', format: 'f' + n } } : type === 'object' ? { properties: { ['p' + n]: { type: 'string' } } } : {};
    const given = { type, ...more, ...(type === 'object' ? { required: [] } : {}), ...words };
    return [JSON.stringify(given), { type, ...more, ...words }];
  }
  return rng.pick([
    () => [`{ type: 'string', format: 'f${n}' }`, { type: 'string', format: 'f' + n }],
    () => [`{ type: 'string', default: 'd${n}', minLength: 1 }`, { type: 'string', default: 'd' + n, minLength: 1 }],
    () => [`{ type: 'number', minimum: ${n} }`, { type: 'number', minimum: n }],
    () => [`{ type: 'number', maximum: 0, multipleOf: ${n + 1} }`, { type: 'number', maximum: 0, multipleOf: n + 1 }],
    () => [`{ type: 'string', enum: ['a${n}', 'b'] }`, { type: 'string', enum: ['a' + n, 'b'] }],
    () => [`{ type: 'array', items: { type: 'string', pattern: '^${n}$' } }`, { type: 'array', items: { type: 'string', pattern: `^${n}$` } }],
    () => [`{ type: 'object', properties: { p${n}: { type: 'boolean' } }, required: ['p${n}'] }`, { type: 'object', properties: { ['p' + n]: { type: 'boolean' } }, required: ['p' + n] }],
    () => [`{ type: 'record', codomain: { type: 'string', maxLength: ${n} } }`, { type: 'object', additionalProperties: { type: 'string', maxLength: n } }],
  ])();
}

/** the command says something other than what it is doing */
const says = (err) => err.split('\n').some((l) => l.trim() !== '' && !l.startsWith('[INFO]'));

module.exports = {
  packages: ['openapi-generator', 'io-ts-http'],
  cases: { quick: 900, thorough: 12000 },
  rule:
    'Random projects: package.json files (with any of name, version, description, codec file, or none) at any of the levels above the entry file, several specifications with and without comments naming a URL, calls of other functions that look like specifications (decoys), and codecs from installed packages (plain, scoped, with or without sources) and from relative files, used in every way, whose schemas are given by the codec file of the command line, by the one the package.json names, by the package itself, by several of these or by none. The command is run as a process with random options (long, short, with = or not, before or behind the file) from several directories. An independent model says the operations, the title, version, description, servers and the schema of each of the codecs; the rest of the document must be what it is without the options. Non-trivial: something differs from the defaults; fingerprint = sources of each value and of each codec.',
  mustObserve: ['option name', 'option version', 'option description', 'short option', 'option with =', 'option behind', 'package.json name', 'package.json version', 'package.json description', 'default name', 'default version', 'default description', 'package.json above', 'nearer package.json', 'server', 'several servers', 'no server', 'codec by option', 'codec by package.json', 'codec by its package', 'codec by both', 'codec by its source', 'codec unknown', 'decoy', 'codec function', 'codec of a relative file', 'other directory', 'absolute', 'options change nothing else', 'bad codec file', 'source in JavaScript'],
  minimum: { quick: 5000, thorough: 60000 },
  assumptions: ['no package.json lies above the scratch directory (otherwise the cases without one are left out)'],
  init(env) {
    env.lab = require('../lib/oalab')(env.B);
    let d = env.lab.base;
    env.bare = true;
    while (d !== path.dirname(d)) {
      if (fs.existsSync(path.join(d, 'package.json'))) env.bare = false;
      d = path.dirname(d);
    }
  },
  async run(env, rng, i) {
    const { lab, obs } = env;
    const files = {};
    // ---- where the entry lies, and the package.json files above it
    const depth = rng.int(0, 3);
    const levels = ['', 'src', 'src/api', 'src/api/v 1'].slice(0, depth + 1);
    const home = levels[depth];
    const at = (dir, f) => (dir ? dir + '/' + f : f);
    const entry = at(home, rng.pick(['index.ts', 'api.ts', 'spec.v1.ts']));
    const packages = {};
    for (const l of levels) {
      if (!rng.chance(0.5)) continue;
      const json = {};
      for (const k of ['name', 'version', 'description']) if (rng.chance(0.6)) json[k] = k === 'version' ? rng.pick(['1.2.3', '0.0.0', '10.0.0-rc.1', 'v2', '']) : rng.chance(0.1) ? '' : rng.pick(TEXT);
      if (rng.chance(0.3)) json['openapi-generator'] = {};
      if (rng.chance(0.3)) json.private = true;
      packages[l] = json;
    }
    if (!env.bare && !packages['']) packages[''] = {};
    const nearest = levels.slice().reverse().find((l) => packages[l]);
    const pj = nearest === undefined ? undefined : packages[nearest];
    if (nearest !== undefined && nearest !== home) obs.count('package.json above');
    if (nearest !== undefined && levels.some((l) => l !== nearest && packages[l])) obs.count('nearer package.json');

    // ---- options
    const args = [];
    const given = {};
    for (const [k, s, values] of [['name', 'n', TEXT], ['version', 'v', ['1.2.3', '2', 'v3-beta', '0', '2024-01-01', 'x y']], ['description', 'd', TEXT]]) {
      if (!rng.chance(0.4)) continue;
      const v = rng.pick(values);
      const short = rng.chance(0.4);
      const eq = /^-/.test(v) || rng.chance(0.3);
      if (eq) args.push([(short ? '-' + s : '--' + k) + '=' + v]);
      else args.push([short ? '-' + s : '--' + k, v]);
      given[k] = v;
      obs.count('option ' + k);
      if (short) obs.count('short option');
      if (eq) obs.count('option with =');
    }
    const source = {};
    const decide = (k, dflt) => {
      const from = given[k] !== undefined ? 'option' : pj && pj[k] !== undefined ? 'package.json' : 'default';
      source[k] = from;
      if (from !== 'option') obs.count(`${from} ${k}`);
      return from === 'option' ? given[k] : from === 'package.json' ? pj[k] : dflt;
    };
    const title = decide('name', 'openapi-generator');
    const version = decide('version', '0.0.1');
    const description = decide('description', `API spec for ${title}`);

    // ---- codecs from elsewhere and who says what they are
    const cliDefs = {};
    const jsonDefs = {};
    const useCli = rng.chance(0.4);
    const useJson = pj && rng.chance(0.5);
    const pkgs = rng.sample(PKGS, rng.int(1, 3)).map((name) => ({ name, own: {}, src: {}, json: { name } }));
    const uses = [];
    let n = 1;
    const imports = [];
    const lines = [];
    const local = [];
    const routes = [];
    let unknown = false;
    for (const p of pkgs) {
      if (rng.chance(0.5)) p.hasOwn = true;
      if (rng.chance(0.4)) p.hasSrc = true;
      for (const name of rng.sample(NAMES, rng.int(1, 3))) {
        const defs = [];
        const give = (to, label) => {
          const [text, want] = shape(rng, n++);
          const fn = rng.chance(0.2);
          to[name] = fn ? `(deref, arg) => E.right({ type: 'object', properties: { inner: arg, mark: ${text} }, required: ['inner', 'mark'] })` : `() => E.right(${text})`;
          defs.push({ label, want: fn ? { type: 'object', properties: { inner: { type: 'string' }, mark: want }, required: ['inner', 'mark'] } : want, fn });
        };
        if (useCli && rng.chance(0.6)) give((cliDefs[p.name] ??= {}), 'option');
        if (useJson && rng.chance(0.6)) give((jsonDefs[p.name] ??= {}), 'package.json');
        if (p.hasOwn && rng.chance(0.7)) give(p.own, 'its package');
        let src;
        if (p.hasSrc && (defs.length === 0 || rng.chance(0.3))) {
          src = { label: 'its source', want: { type: 'object', properties: { ['s' + n]: { type: 'string' } }, required: ['s' + n] } };
          p.src[name] = `t.type({ s${n}: t.string })`;
          n++;
        }
        uses.push({ pkg: p, name, defs, src });
      }
    }
    // what the codec file of the command line says stands instead of the package.json's
    const effective = useCli ? 'option' : 'package.json';
    const rel = rng.chance(0.4) ? { name: rng.pick(['Money', 'Handmade']), file: at(home, rng.pick(['handmade.ts', 'handmade.ts', 'handmade.js', 'handmade/index.ts', 'handmade/index.js'])) } : undefined;
    if (rel) {
      const [text, want] = shape(rng, n++);
      const def = `() => E.right(${text})`;
      if (useCli) (cliDefs['.'] ??= {})[rel.name] = def;
      else if (useJson) (jsonDefs['.'] ??= {})[rel.name] = def;
      files[rel.file] = `import * as t from 'io-ts';\nexport const ${rel.name} = ${useCli || useJson ? `new t.Type${rel.file.endsWith('.js') ? '' : '<string>'}('x', t.string.is, t.string.validate, t.identity)` : `t.type({ handmade: t.string })`};\n`;
      rel.want = useCli || useJson ? want : { type: 'object', properties: { handmade: { type: 'string' } }, required: ['handmade'] };
      rel.by = useCli || useJson ? effective : 'its source';
    }
    const expected = [];
    const route = (expr, want, label, fp) => {
      const path = '/c' + expected.length;
      const where = rng.pick(['response', 'body', 'query']);
      if (where === 'response') routes.push(`c${expected.length}: { get: h.httpRoute({ path: '${path}', method: 'GET', request: h.httpRequest({}), response: { 200: ${expr} } }) }`);
      else if (where === 'body') routes.push(`c${expected.length}: { get: h.httpRoute({ path: '${path}', method: 'GET', request: h.httpRequest({ body: { p: ${expr} } }), response: { 200: t.string } }) }`);
      else routes.push(`c${expected.length}: { get: h.httpRoute({ path: '${path}', method: 'GET', request: h.httpRequest({ query: { p: ${expr} } }), response: { 200: t.string } }) }`);
      expected.push({ path, want, where, label, expr, fp });
    };
    const star = {};
    const locals = new Set(['t', 'h']);
    const fresh = (base) => {
      let x = base;
      for (let k = 2; locals.has(x); k++) x = base + k;
      locals.add(x);
      return x;
    };
    const use = (u, file) => {
      // how the entry refers to it
      const form = rng.pick(['named', 'alias', 'star']);
      if (form === 'star') {
        if (!star[file]) {
          star[file] = fresh('ns');
          imports.push(`import * as ${star[file]} from '${file}';`);
        }
        return `${star[file]}.${u.name}`;
      }
      const l = form === 'alias' ? fresh('x' + u.name) : fresh(u.name);
      imports.push(l === u.name ? `import { ${l} } from '${file}';` : `import { ${u.name} as ${l} } from '${file}';`);
      return l;
    };
    for (const u of uses) {
      const known = u.defs.find((d) => d.label === effective && (effective === 'option' ? useCli : useJson)) || u.defs.find((d) => d.label === 'its package');
      let winner = known || u.src;
      if (!winner) {
        if (rng.chance(0.9)) continue;
        unknown = true;
        winner = { label: 'unknown', want: {} };
      }
      obs.count(winner.label === 'unknown' ? 'codec unknown' : 'codec by ' + winner.label);
      if (u.defs.length > 1) obs.count('codec by both');
      const ref = use(u, u.pkg.name);
      const expr = winner.fn ? `${ref}(t.string)` : ref;
      if (winner.fn) obs.count('codec function');
      if (rng.chance(0.3)) {
        const l = fresh('Local' + u.name);
        (rng.chance(0.5) ? local : lines).push(`${rng.chance(0.5) ? 'export ' : ''}const ${l} = ${expr};`);
        route(l, winner.want, winner.label, 'by a declaration');
      } else route(expr, winner.want, winner.label, 'itself');
      if (rng.chance(0.3)) route(`t.array(${expr})`, { type: 'array', items: winner.want }, winner.label, 'in an array');
    }
    if (rel) {
      obs.count('codec by ' + rel.by);
      obs.count('codec of a relative file');
      route(use(rel, './handmade'), rel.want, rel.by, 'relative');
    }
    route('t.string', { type: 'string' }, 'control', 'control');
    // a package that nobody describes is not affected by descriptions of others
    // ---- servers
    const specs = [];
    const servers = [];
    // calls of what is no apiSpec of io-ts-http
    const decoys = [];
    const decoy = (callee, kind) => {
      obs.count('decoy');
      const k = decoys.push(kind);
      const text = `${rng.chance(0.3) ? `/**\n * Decoy\n * @url https://decoy.example.com\n */\n` : ''}export const decoy${k} = ${callee}({ z: { get: h.httpRoute({ path: '/decoy${k}', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } }) } });`;
      specs.push(text);
    };
    const origin = rng.pick(['h.apiSpec', 'h.apiSpec', 'named', 'alias', 'other star']);
    if (origin === 'named') imports.push(`import { apiSpec } from '@api-ts/io-ts-http';`);
    if (origin === 'alias') imports.push(`import { apiSpec as makeSpec } from '@api-ts/io-ts-http';`);
    if (origin === 'other star') imports.push(`import * as http from '@api-ts/io-ts-http';`);
    const callee = { named: 'apiSpec', alias: 'makeSpec', 'other star': 'http.apiSpec' }[origin] || 'h.apiSpec';
    if (rng.chance(0.35)) {
      files[at(home, 'decoys.ts')] = `export function apiSpec<T>(x: T) { return x; }\nexport const other = apiSpec;\n`;
      for (const kind of rng.sample(['relative', 'relative alias', 'relative star', 'member', 'local', 'default'], rng.int(1, 3))) {
        if (kind === 'relative' && origin !== 'named') {
          imports.push(`import { apiSpec } from './decoys';`);
          decoy('apiSpec', kind);
        } else if (kind === 'relative alias') {
          imports.push(`import { apiSpec as decoySpec } from './decoys';`);
          decoy('decoySpec', kind);
        } else if (kind === 'relative star') {
          imports.push(`import * as decoys from './decoys';`);
          decoy(rng.pick(['decoys.apiSpec', 'decoys.other']), kind);
        } else if (kind === 'member') {
          lines.push(`const tools = { apiSpec: <T>(x: T) => x };`);
          decoy('tools.apiSpec', kind);
        } else if (kind === 'local') {
          lines.push(`const localSpec = <T>(x: T) => x;`);
          decoy('localSpec', kind);
        }
      }
    }
    const parts = rng.int(1, Math.min(4, routes.length));
    for (let k = 0; k < parts; k++) {
      const mine = routes.filter((_, j) => j % parts === k);
      let comment = '';
      if (rng.chance(0.6)) {
        const d = rng.pick(['', 'The API', 'Über ✓', 'Line one\nLine two', 'http://not-a-server.example']);
        const url = rng.chance(0.7) ? rng.pick(['/api/v1', 'https://api.example.com/v' + k, '/', 'https://{host}:{port}/x', 'http://localhost:8080/a?b=c#d']) : undefined;
        const other = rng.chance(0.4) ? ['@version 3'] : [];
        const body = [...(d ? d.split('\n') : []), ...rng.shuffle([...(url ? ['@url ' + url] : []), ...other])];
        comment = body.length ? `/**\n${body.map((x) => ' * ' + x).join('\n')}\n */\n` : '';
        if (url) servers.push({ url, description: d });
      }
      specs.push(`${comment}export const spec${k} = ${callee}({\n  ${mine.join(',\n  ')},\n});`);
      if (rng.chance(0.15)) lines.push(`/**\n * Not a specification\n * @url https://wrong.example.com\n */\nexport const other${k} = t.string;`);
    }
    obs.count(servers.length ? (servers.length > 1 ? 'several servers' : 'server') : 'no server');
    files[entry] = [`import * as h from '@api-ts/io-ts-http';`, `import * as t from 'io-ts';`, ...imports, '', ...local, ...lines, ...specs].join('\n') + '\n';

    // ---- the packages
    const codecFile = (defs) => `module.exports = (E) => ({\n${defs}\n});\n`;
    const flat = (o) => Object.entries(o).map(([k, d]) => `  ${k}: ${d},`).join('\n');
    const nested = (o) => Object.entries(o).map(([p, d]) => `'${p}': {\n${flat(d)}\n},`).join('\n');
    for (const p of pkgs) {
      const dir = 'node_modules/' + p.name;
      if (p.hasOwn) {
        p.json.customCodecFile = rng.pick(['openapi-gen.config.js', './openapi-gen.config.js', 'config/codecs.js']);
        files[dir + '/' + p.json.customCodecFile.replace('./', '')] = codecFile(flat(p.own));
      }
      if (p.hasSrc) {
        const k = rng.pick(['source', 'typings', 'types']);
        const js = k === 'source' && rng.chance(0.3);
        if (js) obs.count('source in JavaScript');
        const index = js ? 'src/index.js' : 'src/index.ts';
        p.json[k] = index;
        if (k === 'source' && rng.chance(0.4)) p.json.types = 'dist/wrong.d.ts';
        files[dir + '/' + index] = `import * as t from 'io-ts';\n` + Object.entries(p.src).map(([k2, x]) => `export const ${k2} = ${x};\n`).join('');
      } else files[dir + '/index.js'] = `module.exports = {};\n`;
      files[dir + '/package.json'] = JSON.stringify(p.json, null, 2);
    }
    if (useJson) {
      const f = rng.pick(['codecs.js', './codecs.js', 'tools/codec file.js', 'codecs.config.cjs']);
      pj['openapi-generator'] = { ...pj['openapi-generator'], 'codec-file': f };
      files[at(nearest, f.replace('./', ''))] = codecFile(nested(jsonDefs));
    }
    for (const [l, json] of Object.entries(packages)) files[at(l, 'package.json')] = JSON.stringify(json, null, rng.chance(0.5) ? 2 : 0);

    // ---- from where
    const proj = lab.project(files);
    const cwdRel = rng.pick([...levels, '..', '/']);
    const cwd = cwdRel === '/' ? '/' : path.join(proj.dir, cwdRel);
    if (cwdRel !== home) obs.count('other directory');
    const say = (dir, f) => {
      if (rng.chance(0.2)) {
        obs.count('absolute');
        return path.join(proj.dir, f);
      }
      return path.relative(dir, path.join(proj.dir, f));
    };
    const bad = rng.chance(0.06) && rng.pick(['missing', 'throws', 'no function']);
    if (useCli || bad) {
      const f = rng.pick(['cli-codecs.js', 'conf/cli codecs.js']);
      if (bad !== 'missing') lab.write(proj.dir, { [f]: bad === 'throws' ? `throw new Error('broken');\n` : bad ? `module.exports = { x: 1 };\n` : codecFile(nested(cliDefs)) });
      const v = say(cwd, f);
      args.push(rng.pick([['--codec-file', v], ['-c', v], ['--codec-file=' + v]]));
    }
    const order = rng.shuffle(args).flat();
    const file = say(cwd, entry);
    const behind = rng.chance(0.5);
    if (behind && order.length) obs.count('option behind');
    const argv = behind ? [file, ...order] : [...order, file];
    const r = await lab.generate(proj.dir, undefined, [], { cwd, argv });
    const details = (x) => ({ ...x, argv, cwd: cwdRel, stderr: r.err.slice(-1500), source: lab.show(files) });
    try {
      obs.judged();
      if (bad) {
        obs.count('bad codec file');
        assertThat(r.code !== 0 && !r.timedOut && r.out === '' && says(r.err), 'a codec file that cannot be used is passed over', details({ bad, exit: r.code, out: r.out.slice(0, 500) }), 'bad codec file');
        return;
      }
      if (unknown) {
        assertThat(r.code !== 0 && r.out === '' && says(r.err), 'a codec that nothing describes is passed over', details({ exit: r.code, out: r.out.slice(0, 3000) }), 'unknown codec');
        return;
      }
      assertThat(r.code === 0 && r.doc, 'a project is refused', details({ exit: r.code }), 'refused');
      obs.judged();
      assertEqual({ ...r.doc.info }, { title, version, description }, 'the title, version or description is not the one given', details({ source, packages }), 'info');
      obs.judged();
      assertEqual(r.doc.servers, servers.length ? servers : undefined, 'the servers are not those the specifications name', details({}), 'servers');
      obs.judged();
      assertEqual(Object.keys(r.doc.paths).sort(), expected.map((e) => e.path).sort(), 'the paths are not those of the specifications', details({ decoys }), 'paths');
      // ---- the schemas
      const resolve = (s) => {
        if (!s || typeof s !== 'object') return s;
        if (Array.isArray(s)) return s.map(resolve);
        if (s.$ref) return resolve(r.doc.components.schemas[s.$ref.split('/').pop()]);
        if (s.allOf && Object.keys(s).length === 1) {
          // a reference together with its title
          const parts = s.allOf.map(resolve).filter((x) => Object.keys(x).length);
          return parts.length === 1 ? parts[0] : { allOf: parts };
        }
        const o = {};
        for (const [k, v] of Object.entries(s)) if (k !== 'title') o[k] = k === 'enum' || k === 'required' ? v : resolve(v);
        return o;
      };
      for (const e of expected) {
        obs.judged();
        const op = (r.doc.paths[e.path] || {}).get;
        assertThat(op, 'a route is missing', details({ path: e.path }), 'route missing');
        let s = e.where === 'response' ? op.responses[200].content['application/json'].schema : e.where === 'body' ? op.requestBody.content['application/json'].schema : op.parameters[0].schema;
        s = resolve(s);
        if (e.where === 'body') s = s.properties.p;
        // the description of a parameter's own schema is that of the parameter
        if (e.where === 'query' && e.want.description !== undefined && op.parameters[0].description !== undefined) s = { ...s, description: op.parameters[0].description };
        assertEqual(s, e.want, 'the schema of a codec is not the one given for it', details({ route: e, schema: s }), 'codec: ' + e.label);
      }
      // ---- the options change nothing else
      if (Object.keys(given).length && rng.chance(0.5)) {
        const plain = await lab.generate(proj.dir, undefined, [], { cwd, argv: [file, ...args.filter((a) => /codec|^-c/.test(a[0])).flat()] });
        obs.judged();
        obs.count('options change nothing else');
        assertThat(plain.doc, 'a project is refused without options', details({ exit: plain.code, err: plain.err.slice(-500) }), 'refused without options');
        assertEqual({ ...r.doc, info: 0 }, { ...plain.doc, info: 0 }, 'an option about the title, version or description changes something else', details({}), 'options');
      }
      const fp = [Object.values(source).join(), servers.length, expected.map((e) => e.label + ' ' + e.fp + ' ' + e.where).sort().join(), cwdRel === home ? '' : cwdRel === '/' ? '/' : 'cwd', nearest === undefined ? 'none' : nearest === home ? 'beside' : 'above'].join('|');
      obs.nontrivial(fp);
      if (rng.chance(0.02)) obs.sample({ argv: argv.map((a) => a.replace(proj.dir, '')), info: r.doc.info, servers: r.doc.servers, codecs: expected.map((e) => [e.expr, e.label]) });
    } finally {
      proj.dispose();
    }
    void i;
  },
};
