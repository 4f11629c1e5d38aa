'use strict';
const { isDeepStrictEqual } = require('util');
const { assertThat } = require('../lib/mon');
const { customCodecs, Docs, Documented, DocSpec } = require('../lib/oadocs');

const KEYS = ['description', 'title', 'default', 'example', 'minLength', 'maxLength', 'pattern', 'minimum', 'maximum', 'minItems', 'maxItems', 'minProperties', 'maxProperties', 'exclusiveMinimum', 'exclusiveMaximum', 'multipleOf', 'uniqueItems', 'readOnly', 'writeOnly', 'format', 'deprecated', 'x-internal'];
const esc = (k) => String(k).replace(/~/g, '~0').replace(/\//g, '~1');
const own = (o, k) => o !== null && typeof o === 'object' && Object.prototype.hasOwnProperty.call(o, k);

module.exports = {
  packages: ['openapi-generator', 'io-ts-http'],
  cases: { quick: 420, thorough: 7000 },
  rule:
    'Random multi-file specifications (C17) in which routes, specifications, parameters, body and nested properties, responses, named codecs and values of enumerations carry comments: one or several lines of text in many scripts, each with a token of its own, and up to four tags with values of every supported kind, written in several layouts, with other comments nearby. The plan says which item each comment belongs to. The document printed by the command is descended alongside the plan: every keyword a comment can set is compared with what the comment says (and its absence with its absence), and each token found anywhere else in the document is a comment in the wrong place. Non-trivial: a comment found in its place; fingerprint = kind of item, text and tags.',
  mustObserve: ['route', 'spec', 'param', 'body property', 'nested property', 'response', 'named codec', 'enumeration value', 'tag title', 'tag default', 'tag example', 'tag minLength', 'tag maxLength', 'tag pattern', 'tag minimum', 'tag maximum', 'tag minItems', 'tag maxItems', 'tag minProperties', 'tag maxProperties', 'tag exclusiveMinimum', 'tag exclusiveMaximum', 'tag multipleOf', 'tag uniqueItems', 'tag readOnly', 'tag writeOnly', 'tag format', 'tag deprecated', 'tag private', 'tag public', 'tag operationId', 'tag tag', 'tag unstable', 'tag url', 'tag version', 'zero value', 'shorthand', 'named reference', 'union of requests', 'both markings refused', 'own keywords', 'custom codec', 'own keyword overridden', 'contrary mark', 'union with unknown, commented'],
  minimum: { quick: 20000, thorough: 300000 },
  assumptions: ['a comment starts on a line of its own', 'routes are documented where they are declared (comments inside the specification object are not read)', "an array's comment describes its items, apart from example, minItems, maxItems and uniqueItems", 'of several intersected requests with the same parameter or body property only one is compared'],
  init(env) {
    env.lab = require('../lib/oalab')(env.B);
  },
  async run(env, rng, i) {
    const { lab, obs } = env;
    const docs = new Docs(rng);
    const custom = rng.chance(0.5) ? customCodecs(rng) : [];
    const proj = new Documented(rng, docs, { custom, decls: rng.int(3, 9), files: rng.int(0, 3), packages: rng.chance(0.2) ? 1 : 0, depth: 3, names: ['Foo', 'Bar', 'Item', 'User', 'Baz', 'Qux'] }).build();
    const spec = new DocSpec(proj, rng, { routes: rng.int(1, 4), comment: (k, x) => proj.docFor(k, x) }).build();
    // a documented union of requests
    const entry = proj.entry;
    let unionDoc;
    if (rng.chance(0.3)) {
      unionDoc = docs.make('union');
      for (const [n] of unionDoc.tags) if (!['deprecated', 'title', 'readOnly', 'writeOnly', 'private', 'public'].includes(n)) throw new Error(n);
      entry.items.push({
        raw: () => {
          const h = (x) => entry.lib('h', x);
          const req = entry.alloc('UnionRequest');
          return `${unionDoc.lines.join('\n')}\nconst ${req} = ${entry.lib('t', 'union')}([${h('httpRequest')}({ body: { first: ${entry.lib('t', 'string')} } }), ${h('httpRequest')}({ body: { second: ${entry.lib('t', 'number')} } })]);\nexport const ${entry.alloc('unionSpec')} = ${h('apiSpec')}({ u: { post: ${h('httpRoute')}({ path: '/union', method: 'POST', request: ${req}, response: { 200: ${entry.lib('t', 'string')} } }) } });`;
        },
      });
      obs.count('union of requests');
    }
    // both markings at once are refused
    const clash = rng.chance(0.08) && [...docs.all].find((d) => d.tags.some(([n]) => n === 'private' || n === 'public'));
    let files = proj.render();
    if (clash) {
      const has = clash.tags.find(([n]) => n === 'private' || n === 'public')[0];
      const other = has === 'private' ? 'public' : 'private';
      const marker = new RegExp(`(\\* |\\*\\* )@${has}(?=\\s)`);
      // the comment as it stands in a file
      for (const f of Object.keys(files)) {
        const main = clash.lines.find((l) => l.startsWith('/**') && l.includes('@' + has)) || undefined;
        void main;
        const at = files[f].indexOf(clash.token);
        if (at < 0) continue;
        const from = files[f].lastIndexOf('/**', at);
        const to = files[f].indexOf('*/', at);
        const text = files[f].slice(from, to);
        if (!marker.test(text) || from < 0) continue;
        files = { ...files, [f]: files[f].slice(0, from) + text.replace(marker, `$1@${other}\n * @${has}`) + files[f].slice(to) };
        break;
      }
    }
    const args = [];
    if (custom.length) {
      const table = custom.map(([, name, , , schema]) => `${JSON.stringify(name)}: () => E.right(${JSON.stringify(schema)})`);
      files['codecs.js'] = `module.exports = (E) => ({ 'custom-codecs': { ${table.join(', ')} } });\n`;
      args.push('--codec-file', 'codecs.js');
    }
    const p = lab.project(files);
    const r = await lab.generate(p.dir, 'index.ts', args);
    p.dispose();
    const doc = r.doc;
    const say = (extra) => ({ ...extra, source: lab.show(files), document: JSON.stringify(doc) });
    if (clash && Object.values(files).some((t) => /@(private)\n \* @public|@(public)\n \* @private/.test(t))) {
      // only if the marked item is part of the document
      obs.judged();
      if (r.code !== 0) {
        obs.count('both markings refused');
        assertThat(/Cannot use both @public and @private/.test(r.err), 'a comment with @public and @private is refused for another reason', say({ stderr: r.err.slice(-1000) }), 'clash');
        assertThat(r.out === '', 'a refused specification leaves output', say({}), 'clash');
      } else {
        assertThat(!JSON.stringify(doc).includes(clash.token), 'a comment with both @public and @private is accepted', say({ comment: clash.lines }), 'clash');
      }
      return;
    }
    assertThat(r.code === 0 && doc, 'a specification of supported constructs is refused', say({ exit: r.code, stderr: r.err.slice(-1500) }), 'refused');
    const problems = [];
    const sites = new Set(); // token@pointer
    const excused = []; // [token, pointer prefix]
    const bad = (ptr, text, d) => problems.push(`${ptr}: ${text}${d ? ' (comment: ' + d.lines.join(' ⏎ ') + ')' : ''}`);
    const seen = (what, d) => {
      obs.count(what);
      for (const [n, t] of d.tags) {
        obs.count('tag ' + n);
        if (/^0$/.test(t)) obs.count('zero value');
      }
      obs.nontrivial(what + JSON.stringify(d.kw));
    };
    const allowAll = (ptr, d) => KEYS.forEach((k) => allow(`${ptr}/${k}`, d));
    const allow = (ptr, d) => d && sites.add(d.token + '@' + ptr);
    /** the keywords on a schema are those the comment gives */
    const keywords = (ptr, s, d, kw, { base, over, also } = {}) => {
      if (also) for (const x of also) allowAll(ptr, x);
      const want = { ...base, ...kw, ...over };
      for (const k of KEYS) {
        obs.judged();
        if (d) allow(`${ptr}/${k}`, d);
        const a = own(s, k) ? JSON.stringify(s[k]) : undefined;
        const b = own(want, k) ? JSON.stringify(want[k]) : undefined;
        if (a !== b) bad(ptr, `${k} is ${a}, not ${b}`, d);
      }
    };
    const pick = (kw, keys) => Object.fromEntries(Object.entries(kw).filter(([k]) => keys.includes(k)));
    const omit = (kw, keys) => Object.fromEntries(Object.entries(kw).filter(([k]) => !keys.includes(k)));
    const own1 = (n) => (/NonEmpty|nonEmpty/.test(n.fn[1]) ? { minItems: 1 } : {});
    const visited = new Map();
    const flatEntries = (n) => {
      const entries = n.propsDecl ? n.propsDecl.node.entries : n.entries;
      const m = new Map();
      for (const e of entries) {
        if (e.t === 'spread') for (const [k, v] of flatEntries({ entries: (e.data || e.decl.node.entries) })) m.set(k, v);
        else m.set(e.name, e);
      }
      return m;
    };
    /** s (at ptr) documents node n with comment d; kw: what of the comment is due here */
    // cx: base, over = keywords due here in any case, weaker and stronger than the comment's;
    // also = comments that may add to it; arg = how a codec written out in place is treated
    const fit = (ptr, s, n, d, kw = d ? d.kw : {}, cx = {}) => {
      const { arg, ...c2 } = cx;
      if (!s || typeof s !== 'object') return bad(ptr, 'no schema', d);
      switch (n.k) {
        case 'opt':
          return fit(ptr, s, n.item, d, kw, { ...c2, arg: n.how === 'optional' && 'optional' });
        case 'null?': {
          if (s.nullable !== true) return bad(ptr, 'not nullable', d);
          return fit(ptr, s, n.item, d, kw, { ...c2, whole: true });
        }
        case 'lib':
        case 'lit':
        case 'keyof':
          if (n.own) {
            obs.count(n.mod === 'own' ? 'custom codec' : 'own keywords');
            for (const k of Object.keys(n.own)) if (own(kw, k) && kw[k] !== n.own[k]) obs.count('own keyword overridden');
            obs.judged();
            if (s.type !== n.type) bad(ptr, `no ${n.type}`, d);
          }
          return keywords(ptr, s, d, kw, { ...c2, base: { ...c2.base, ...(n.own || (n.name === 'NonEmptyString' ? { minLength: 1 } : {})) } });
        case 'raw': {
          keywords(ptr, s, d, kw, c2);
          const E = n.enumDoc;
          obs.judged(2);
          if (JSON.stringify(s.enum) !== JSON.stringify(E.keys)) bad(ptr, 'other values', d);
          const want = Object.keys(E.descriptions).length ? E.descriptions : undefined;
          if (!isDeepStrictEqual(s['x-enumDescriptions'], want)) bad(ptr, `x-enumDescriptions is ${JSON.stringify(s['x-enumDescriptions'])}, not ${JSON.stringify(want)}`);
          const dep = E.deprecated.length ? E.deprecated : undefined;
          if (JSON.stringify(s['x-enumsDeprecated']) !== JSON.stringify(dep)) bad(ptr, `x-enumsDeprecated is ${JSON.stringify(s['x-enumsDeprecated'])}, not ${JSON.stringify(dep)}`);
          for (const [k, t] of Object.entries(E.descriptions)) {
            sites.add(t.match(/tok\d+x/)[0] + '@' + `${ptr}/x-enumDescriptions/${esc(k)}`);
            obs.count('enumeration value');
          }
          return;
        }
        case 'ref': {
          const decl = n.decl;
          const $ref = own(s, '$ref') ? s.$ref : s.allOf && s.allOf.length === 1 && s.allOf[0].$ref;
          const name = $ref && $ref.replace('#/components/schemas/', '');
          if (decl.form === 'const' && arg && name !== decl.name) {
            // an argument of a codec function is written out in place, with its comment
            obs.count('written out');
            const mine = decl.doc ? decl.doc.kw : {};
            if (own(mine, 'x-internal') && own(kw, 'x-internal') && mine['x-internal'] !== kw['x-internal']) obs.count('contrary mark');
            const all = { ...(arg === 'optional' && d ? omit(mine, ['description']) : mine), ...kw };
            return fit(ptr, s, decl.node, d || decl.doc, all, { ...c2, also: [...(c2.also || []), ...(decl.doc ? [decl.doc] : [])] });
          }
          if (!$ref) {
            if (decl.form === 'const') return bad(ptr, `no reference to ${decl.name}: ${JSON.stringify(s)}`, d);
            return fit(ptr, s, decl.node, d, kw, c2);
          }
          obs.count('named reference');
          if (own(s, '$ref')) {
            obs.judged();
            if (Object.keys({ ...kw, ...c2.over, ...c2.base }).length) bad(ptr, 'the comment is missing', d);
          } else keywords(ptr, s, d, kw, c2);
          if (decl.form !== 'const') return fit(ptr, { $ref, nullable: s.nullable }, decl.node, d, {});
          if (name !== decl.name) return bad(ptr, `reference to ${name}, not ${decl.name}`);
          component(decl);
          return undefined;
        }
        case 'array': {
          if (c2.whole) {
            // of a nullable array, the comment stays on the whole
            keywords(ptr, s, d, kw, { ...c2, base: { ...c2.base, ...own1(n) } });
            return fit(ptr + '/items', s.items, n.item, undefined, {}, { also: c2.also, arg: 'merged' });
          }
          const mine = ['minItems', 'maxItems', 'uniqueItems', ...(Array.isArray(kw.example) ? ['example'] : [])];
          if (s.type !== 'array') return bad(ptr, 'no array', d);
          keywords(ptr, s, d, pick(kw, mine), { ...c2, base: { ...c2.base, ...own1(n) } });
          const rest = omit(kw, mine);
          return fit(ptr + '/items', s.items, n.item, d, {}, { over: rest, also: c2.also, arg: 'merged' });
        }
        case 'record':
          keywords(ptr, s, d, kw, c2);
          return fit(ptr + '/additionalProperties', s.additionalProperties, n.codomain, undefined, {}, { arg: 'merged' });
        case 'obj':
        case 'inter': {
          keywords(ptr, s, d, kw, c2);
          const m = new Map();
          if (n.k === 'obj') for (const [k, e] of flatEntries(n)) m.set(k, e);
          else for (const q of n.parts) for (const [k, e] of flatEntries(q)) m.set(k, e);
          if (!own(s, 'properties')) return m.size ? bad(ptr, `no object: ${JSON.stringify(s)}`) : undefined;
          for (const [k, e] of m) property(`${ptr}/properties/${esc(k)}`, s.properties[k], e, 'nested property');
          return;
        }
        case 'union': {
          if (n.unknown) obs.count(d ? 'union with unknown, commented' : 'union with unknown');
          keywords(ptr, s, d, kw, c2);
          (s.oneOf || []).forEach((o, k) => {
            const tag = o.properties && o.properties.kind && o.properties.kind.enum[0];
            const alt = n.alts.find((a) => a.entries[0].node.value === tag);
            if (!alt) return bad(ptr, 'strange alternative');
            fit(`${ptr}/oneOf/${k}`, o, alt);
          });
          if (!s.oneOf || s.oneOf.length !== n.alts.length) bad(ptr, 'alternatives are missing');
          return;
        }
        default:
          throw new Error('cannot compare ' + n.k);
      }
    };
    const property = (ptr, s, e, what) => {
      if (e.doc) seen(what, e.doc);
      if (e.t === 'short') {
        obs.count('shorthand');
        const decl = e.node.decl;
        const $ref = s && (s.$ref || (s.allOf && s.allOf.length === 1 && s.allOf[0].$ref));
        // `Foo: Other` where the codec goes by another name in this file
        if ($ref === '#/components/schemas/' + decl.name) return fit(ptr, s, e.node, e.doc);
        // written out in place
        return fit(ptr, s, decl.node, e.doc || decl.doc);
      }
      return fit(ptr, s, e.node, e.doc);
    };
    const component = (decl) => {
      if (visited.has(decl)) return;
      visited.set(decl, true);
      const ptr = '/components/schemas/' + esc(decl.name);
      const c = doc.components.schemas[decl.name];
      if (!c) return bad(ptr, 'component missing');
      const d = decl.doc;
      if (d) seen('named codec', d);
      if (decl.node.k === 'ref' && decl.node.decl.form === 'const') {
        // an alias
        const refs = (c.allOf || []).filter((x) => x.$ref);
        if (refs.length !== 1 || refs[0].$ref !== '#/components/schemas/' + decl.node.decl.name) return bad(ptr, `no alias of ${decl.node.decl.name}: ${JSON.stringify(c)}`);
        component(decl.node.decl);
        const flat = { ...c, ...(c.allOf.find((x) => x.title) || {}) };
        return keywords(ptr, flat, d, d ? d.kw : {}, { base: { title: decl.name } });
      }
      // an optional codec and so on keep the name as their title
      return fit(ptr, c, decl.node, d, d ? d.kw : {}, { base: { title: decl.name } });
    };
    // ------------------------------------------------------------------ operations
    for (const route of spec.routes) {
      const ptr = `/paths/${esc(route.path)}/${route.method}`;
      const op = (doc.paths[route.path] || {})[route.method];
      if (!op) {
        bad(ptr, 'operation missing');
        continue;
      }
      // ---- the route itself
      const d = route.doc;
      const want = { summary: undefined, description: undefined, operationId: undefined, tags: undefined, 'x-internal': undefined, 'x-unstable': undefined, 'x-unknown-tags': undefined };
      let example;
      if (d) {
        seen('route', d);
        const [first, ...more] = d.text;
        want.summary = first;
        const rest = more.join('\n').trim();
        if (rest) want.description = rest;
        for (const [n, t] of d.tags) {
          if (n === 'operationId') want.operationId = t;
          else if (n === 'tag') want.tags = [t];
          else if (n === 'private') want['x-internal'] = true;
          else if (n === 'public') want['x-internal'] = false;
          else if (n === 'unstable') want['x-unstable'] = true;
          else if (n === 'example') example = JSON.stringify(JSON.parse(t));
          else want['x-unknown-tags'] = { ...want['x-unknown-tags'], [n]: t || true };
        }
        for (const k of Object.keys(want)) allow(`${ptr}/${k}`, d);
        allow(`${ptr}/tags/0`, d);
        for (const k of ['version', 'note', 'since']) allow(`${ptr}/x-unknown-tags/${k}`, d);
      }
      for (const [k, v] of Object.entries(want)) {
        obs.judged();
        if (JSON.stringify(op[k]) !== JSON.stringify(v)) bad(ptr, `${k} is ${JSON.stringify(op[k])}, not ${JSON.stringify(v)}`, d);
      }
      // ---- responses
      for (const [status, x] of route.res.all) {
        const at = `${ptr}/responses/${status}/content/application~1json`;
        const content = op.responses[status] && op.responses[status].content['application/json'];
        if (!content) {
          bad(at, 'response missing');
          continue;
        }
        obs.judged();
        if (JSON.stringify(content.example) !== example) bad(at, `example is ${JSON.stringify(content.example)}, not ${example}`, d);
        allow(`${at}/example`, d);
        if (x.doc) seen('response', x.doc);
        fit(`${at}/schema`, content.schema, x.node, x.doc);
      }
      // ---- parameters and body
      const IN = { params: 'path', query: 'query', headers: 'header' };
      const count = {};
      for (const part of route.req.parts) for (const w of [...Object.keys(IN), 'body']) if (part[w]) for (const e of part[w].all) count[w + ' ' + e.name] = (count[w + ' ' + e.name] || 0) + 1;
      const docsOf = (e) => (e.doc ? [e.doc] : []);
      for (const part of route.req.parts) {
        for (const w of Object.keys(IN)) {
          if (!part[w]) continue;
          for (const e of part[w].all) {
            const k = op.parameters.findIndex((q) => q.in === IN[w] && q.name === e.name);
            const strict = route.req.kind !== 'union' && count[w + ' ' + e.name] === 1;
            if (!strict) {
              for (const x of docsOf(e)) excused.push([x, `${ptr}/parameters/`]);
              continue;
            }
            if (k < 0) {
              bad(ptr, `parameter ${e.name} missing`);
              continue;
            }
            const q = op.parameters[k];
            const at = `${ptr}/parameters/${k}`;
            if (e.doc) seen('param', e.doc);
            const kw = e.doc ? e.doc.kw : {};
            obs.judged(2);
            allow(`${at}/description`, e.doc);
            if ((q.description || undefined) !== kw.description) bad(at, `description is ${JSON.stringify(q.description)}, not ${JSON.stringify(kw.description)}`, e.doc);
            if (q['x-internal'] !== kw['x-internal']) bad(at, `x-internal is ${q['x-internal']}, not ${kw['x-internal']}`, e.doc);
            const rest = omit(kw, ['description', 'x-internal']);
            if (q.schema.type === 'array' && e.node.k !== 'opt' && kw.description !== undefined) fit(`${at}/schema`, { ...q.schema, items: omit(q.schema.items, ['description', 'x-internal']) }, e.node, e.doc, rest);
            else if (q.schema.type === 'array') fit(`${at}/schema`, { ...q.schema, items: omit(q.schema.items, ['description', 'x-internal']) }, e.node, e.doc, rest);
            else if (e.node.k === 'ref' && q.schema.allOf && q.schema.allOf.length === 1 && !Object.keys(rest).length) fit(`${at}/schema`, q.schema.allOf[0], e.node, e.doc, rest);
            else fit(`${at}/schema`, q.schema, e.node, e.doc, rest);
            for (const x of docsOf(e)) excused.push([x, `${at}/schema/items/`]);
          }
        }
        if (part.body) {
          const s = op.requestBody && op.requestBody.content['application/json'].schema;
          const at = `${ptr}/requestBody/content/application~1json/schema`;
          for (const e of part.body.all) {
            const prop = (o, a) => own(o && o.properties, e.name) && property(`${a}/properties/${esc(e.name)}`, o.properties[e.name], e, 'body property');
            if (route.req.kind === 'union') {
              // alternatives are told apart by a property of their own
              const mark = part.body.all.find((x) => /^b\d$/.test(x.name));
              if (e.name !== mark.name && count['body ' + e.name] > 1) {
                const k = (s.oneOf || []).findIndex((o) => own(o.properties, mark.name));
                if (k >= 0) prop(s.oneOf[k], `${at}/oneOf/${k}`);
                else excused.push(...docsOf(e).map((x) => [x, at]));
                continue;
              }
              const k = (s.oneOf || []).findIndex((o) => own(o.properties, mark.name));
              if (k >= 0) prop(s.oneOf[k], `${at}/oneOf/${k}`);
              else bad(at, `the alternative with ${mark.name} is missing`);
            } else if (count['body ' + e.name] > 1) excused.push(...nestedDocs(e).map((x) => [x, at]));
            else if (s && s.properties) {
              if (!own(s.properties, e.name)) bad(at, `property ${e.name} is missing`);
              else prop(s, at);
            } else bad(at, 'no object body');
          }
        }
        if (part.rawBody) {
          const s = op.requestBody && op.requestBody.content['application/json'].schema;
          const at = `${ptr}/requestBody/content/application~1json/schema`;
          if (!s) bad(at, 'body missing');
          else fit(at, s, part.rawBody);
        }
      }
    }
    function nestedDocs(e) {
      const out = [];
      const walk = (x) => {
        if (!x || typeof x !== 'object') return;
        if (x.doc) out.push(x.doc);
        if (Array.isArray(x)) return x.forEach(walk);
        if (x.k === 'ref') {
          if (x.decl.doc) out.push(x.decl.doc);
          if (x.decl.form === 'const' && own(doc.components.schemas, x.decl.name)) component(x.decl);
        }
        for (const k of ['node', 'item', 'entries', 'alts', 'parts', 'codomain']) if (x[k]) walk(x[k]);
        if (x.propsDecl) walk(x.propsDecl.node.entries);
        if (x.t === 'spread') walk(x.data || x.decl.node.entries);
        if (x.k === 'ref') walk(x.decl.node);
        if (x.enumDoc) for (const t of Object.values(x.enumDoc.descriptions)) out.push({ token: t.match(/tok\d+x/)[0] });
      };
      walk(e);
      return out;
    }
    for (const decl of proj.decls) if (decl.kind === 'codec' && decl.form === 'const' && own(doc.components.schemas, decl.name)) component(decl);
    if (unionDoc) {
      const at = '/paths/~1union/post/requestBody/content/application~1json/schema';
      const s = doc.paths['/union'].post.requestBody.content['application/json'].schema;
      seen('body property', unionDoc);
      keywords(at, s, unionDoc, unionDoc.kw);
    }
    // ---- servers
    const servers = spec.specs.filter((s) => s.doc).map((s) => [s.doc, s.doc.tags.find(([n]) => n === 'url')]).filter(([, u]) => u);
    obs.judged();
    for (const s of spec.specs) if (s.doc) seen('spec', s.doc);
    const wantServers = servers.map(([d, u]) => ({ url: u[1], description: d.text.join('\n') }));
    if (JSON.stringify(doc.servers) !== JSON.stringify(wantServers.length ? wantServers : undefined)) bad('/servers', `${JSON.stringify(doc.servers)}, not ${JSON.stringify(wantServers)}`);
    servers.forEach(([d], k) => {
      allow(`/servers/${k}/url`, d);
      allow(`/servers/${k}/description`, d);
    });
    // ---- every token only where it belongs
    const scan = (v, ptr) => {
      if (typeof v === 'string') {
        for (const [token] of v.matchAll(/tok\d+x/g)) {
          obs.judged();
          const up = [...sites].length && hasSite(token, ptr);
          if (!up && !excused.some(([d, pre]) => d.token === token && ptr.startsWith(pre))) problems.push(`${ptr}: a comment that belongs elsewhere: ${JSON.stringify(v.slice(0, 200))}`);
        }
      } else if (v && typeof v === 'object') for (const k of Object.keys(v)) scan(v[k], `${ptr}/${esc(k)}`);
    };
    const hasSite = (token, ptr) => {
      for (let q = ptr; q; q = q.slice(0, q.lastIndexOf('/'))) if (sites.has(token + '@' + q)) return true;
      return false;
    };
    scan(doc, '');
    assertThat(!problems.length, 'a comment is misplaced, altered or lost', say({ problems: problems.slice(0, 12) }), 'comment');
    obs.sample({ comments: docs.all.length, first: docs.all[0] && docs.all[0].lines });
  },
};
