'use strict';
// Random API specifications over a Project (oagen.js): routes, requests and responses
// spread over files and declarations in the ways the generator supports.
const { Q, IDENT } = require('./oagen');

const STATUSES = [200, 201, 202, 204, 299, 400, 401, 403, 404, 409, 418, 422, 499, 500, 503, 520];
const METHODS = ['get', 'post', 'put', 'delete', 'patch'];

class Spec {
  /** opts: routes, comment(kind, thing) -> lines, requests: allowed kinds */
  constructor(proj, rng, opts = {}) {
    this.proj = proj;
    this.rng = rng;
    this.opts = { routes: rng.int(2, 5), ...opts };
    this.n = 0;
    this.sameNames = rng.chance(0.4);
    this.routes = []; // {path, method, req, responses, name}
    this.stats = new Set();
  }
  file(before) {
    const { proj, rng } = this;
    if (rng.chance(0.5)) return before || proj.entry;
    const ok = proj.files.filter((f) => !f.pkg && (!before || f.order <= before.order));
    return rng.pick(ok);
  }
  uniq(p) {
    // declarations of different files may well have one name
    return this.sameNames ? p : p + ++this.n;
  }
  comment(kind, x) {
    return this.opts.comment ? this.opts.comment(kind, x) : undefined;
  }
  paramNode(file, where) {
    const { proj, rng } = this;
    const t = (name) => ({ k: 'lib', mod: 't', name });
    const simple = () =>
      rng.weighted([
        [6, () => t('string')],
        [2, () => ({ k: 'lib', mod: 'tt', name: 'NonEmptyString' })],
        [2, () => ({ k: 'keyof', keys: proj.keys(rng.int(1, 3)) })],
        [2, () => ({ k: 'lit', value: rng.pick(['a', 'v1', 'é']) })],
        [1, () => ({ k: 'union', alts: [{ k: 'lit', value: 'x' }, { k: 'lit', value: 'y' }] })],
        [1, () => ({ k: 'brand', item: t('string'), name: 'B' })],
        [2, () => (where === 'query' ? { k: 'array', fn: ['t', 'array'], item: t('string') } : t('string'))],
        [1, () => ({ k: 'union', alts: [t('string'), { k: 'array', fn: ['t', 'array'], item: t('string') }] })],
        [1, () => t('number')],
        [1, () => t('boolean')],
      ])();
    return rng.weighted([
      [6, simple],
      [2, () => proj.refTo(file, { prop: true }) || simple()],
      [where === 'params' ? 1 : 4, () => ({ k: 'opt', item: simple(), how: rng.pick(['optional', 'union', 'unionFirst']) })],
      [1, () => this.optionalRef(file) || simple()],
    ])();
  }
  /** a named codec that is itself optional */
  optionalRef(file) {
    const { proj, rng } = this;
    const d = proj.visible(file, 'optcodec');
    if (d.length) return { k: 'ref', decl: rng.pick(d) };
    return undefined;
  }
  section(file, where, names) {
    const { proj, rng } = this;
    const entries = names.map((name) => ({ t: 'prop', name, node: where === 'body' ? proj.propNode(file, rng.int(0, 2)) : this.paramNode(file, where) }));
    for (const e of entries) e.comment = this.comment('param', { e, where });
    if (rng.chance(0.2) && names.length) {
      const decl = proj.raw(file, this.uniq('shared'), (f) => proj.props(f, entries, ''), { kind: 'section', export: true, data: entries });
      this.stats.add('shared section');
      if (rng.chance(0.5)) {
        // spread, with something of its own before or after
        const own = { t: 'prop', name: this.uniq(where === 'headers' ? 'x-own-' : 'own'), node: this.paramNode(file, where) };
        if (where === 'params') return { entries: [{ t: 'spread', decl, data: entries }], all: entries };
        own.comment = this.comment('param', { e: own, where });
        this.stats.add('spread section');
        const list = rng.shuffle([{ t: 'spread', decl, data: entries }, own]);
        return { entries: list, all: [...entries, own] };
      }
      return { entries: [{ t: 'spread', decl, data: entries }], all: entries };
    }
    return { entries, all: entries };
  }
  sectionText(file, s, ind) {
    const { proj } = this;
    const plain = s.entries.map((e) => e);
    return proj.props(file, plain, ind);
  }
  /** one httpRequest */
  part(file, plan) {
    const { rng } = this;
    const p = {};
    for (const where of ['params', 'query', 'headers', 'body']) if (plan[where] && plan[where].length) p[where] = this.section(file, where, plan[where]);
    if (!p.body && plan.rawBody) p.rawBody = plan.rawBody;
    p.order = rng.shuffle(Object.keys(p).filter((k) => k !== 'rawBody'));
    return p;
  }
  partText(file, p, ind) {
    const h = file.lib('h', 'httpRequest');
    const deeper = ind + '  ';
    const body = p.order.map((w) => {
      const c = p[w].comment ? p[w].comment.map((l) => deeper + l + '\n').join('') : '';
      return `${c}${deeper}${w}: ${this.sectionText(file, p[w], deeper)},`;
    });
    return body.length ? `${h}({\n${body.join('\n')}\n${ind}})` : `${h}({})`;
  }
  request(file, params) {
    const { proj, rng } = this;
    const kind = rng.weighted([[8, 'one'], [3, 'inter'], [2, 'union']]);
    const names = (pool, max) => rng.sample(pool, rng.int(0, max));
    const QN = ['q', 'limit', 'kebab-q', 'id', 'a', 'ünï', 'page[size]'];
    const HN = ['x-api-key', 'x-trace', 'accept-x'];
    const BN = ['a', 'b', 'name', 'kind', 'with space', 'id'];
    const r = { kind, parts: [] };
    if (kind === 'one') {
      r.parts.push(this.part(file, { params, query: names(QN, 3), headers: names(HN, 2), body: rng.chance(0.5) ? names(BN, 3) : [] }));
    } else if (kind === 'inter') {
      const n = rng.int(2, 3);
      const rest = params.slice();
      for (let i = 0; i < n; i++) {
        const mine = i === n - 1 ? rest.splice(0) : rest.splice(0, rng.int(0, rest.length));
        if (rng.chance(0.15)) mine.push(...params.filter((x) => !mine.includes(x)));
        r.parts.push(this.part(file, { params: mine, query: names(QN, 2), headers: names(HN, 1), body: rng.chance(0.4) ? names(BN, 2) : [] }));
      }
      if (rng.chance(0.4)) {
        // a body that is not a plain object, as the documentation suggests
        for (const p of r.parts) if (p.body) {
          delete p.body;
          p.order = p.order.filter((x) => x !== 'body');
        }
        r.parts.push({ rawBody: proj.node(file, 2, { prop: true }), order: [] });
        this.stats.add('body beside httpRequest');
      }
      this.stats.add('intersected requests');
    } else {
      const n = rng.int(2, 3);
      // parameters all alternatives share are described by the first: same codecs
      const shared = { params: params.length ? this.section(file, 'params', params) : undefined, headers: rng.chance(0.5) ? this.section(file, 'headers', ['x-common']) : undefined };
      const withQuery = rng.chance(0.5);
      const withBody = rng.chance(0.7);
      for (let i = 0; i < n; i++) {
        const p = {};
        if (shared.params) p.params = shared.params;
        if (shared.headers) p.headers = shared.headers;
        if (withQuery) p.query = this.section(file, 'query', ['q' + i, ...names(QN, 1)]);
        if (withBody) p.body = this.section(file, 'body', ['b' + i, ...names(BN, 1)]);
        p.order = rng.shuffle(Object.keys(p));
        r.parts.push(p);
      }
      this.stats.add('request union');
    }
    // some parts are declarations of their own
    for (const p of r.parts) {
      if (p.order.length && rng.chance(0.3)) {
        const f = file;
        p.decl = proj.raw(f, this.uniq('Part'), (ff) => this.partText(ff, p, ''), { kind: 'part', export: true });
        this.stats.add('named request part');
      }
    }
    return r;
  }
  requestText(file, r, ind) {
    const t = (x) => file.lib('t', x);
    const one = (p) => {
      if (p.decl) return file.ref(p.decl);
      if (p.rawBody) return `${t('type')}({ body: ${this.proj.expr(file, p.rawBody, ind)} })`;
      return this.partText(file, p, ind);
    };
    if (r.kind === 'one') return one(r.parts[0]);
    return `${t(r.kind === 'inter' ? 'intersection' : 'union')}([${r.parts.map(one).join(', ')}])`;
  }
  responses(file) {
    const { proj, rng } = this;
    const own = rng.sample(STATUSES, rng.int(1, 3)).map((status) => ({ status, node: proj.node(file, 2, { prop: true }) }));
    const list = own.map((x) => Object.assign(x, { comment: this.comment('response', x) }));
    const out = { own: list, all: new Map() };
    const shared = proj.decls.filter((d) => d.kind === 'responses' && (d.file === file || (d.points.some((p) => p.file.order < file.order) && d.file.order < file.order)));
    if (rng.chance(0.3)) {
      if (shared.length && rng.chance(0.7)) out.spread = rng.pick(shared);
      else {
        const sh = rng.sample(STATUSES, rng.int(1, 2)).map((status) => {
          const x = { status, node: proj.node(file, 1, { prop: true }) };
          return Object.assign(x, { comment: this.comment('response', x) });
        });
        out.spread = proj.raw(file, this.uniq('errors'), (f) => this.responsesText(f, sh, ''), { kind: 'responses', export: true, data: sh });
      }
      out.first = rng.chance(0.5);
      this.stats.add('shared responses');
    }
    const put = (l) => {
      for (const x of l) out.all.set(x.status, x);
    };
    if (out.spread && out.first) put(out.spread.data);
    put(list);
    if (out.spread && !out.first) put(out.spread.data);
    return out;
  }
  responsesText(file, list, ind, spread, first) {
    const deeper = ind + '  ';
    const lines = list.map((x) => {
      const c = x.comment ? x.comment.map((l) => deeper + l + '\n').join('') : '';
      return `${c}${deeper}${x.status}: ${this.proj.expr(file, x.node, deeper)},`;
    });
    if (spread) lines[first ? 'unshift' : 'push'](`${deeper}...${file.ref(spread)},`);
    return `{\n${lines.join('\n')}\n${ind}}`;
  }
  route(i) {
    const { proj, rng } = this;
    const params = rng.sample(['id', 'walletId', 'coin', 'x-y'], rng.weighted([[3, 0], [3, 1], [2, 2]]));
    const word = rng.chance(0.5) ? 'r' : rng.pick(['chat', 'hat', 'citrus', 'dog', 'ö', 'zeta', 'aa', 'ä', 'Item', 'item', 'ı', 'tom', 'õun', 'č', 'ñ', 's', 'š', 'v', 'w', 'LL', 'l']);
    const segs = [`${word}${i}`, ...params.map((p) => `{${p}}`), ...rng.sample(['v2', 'sub', 'ünï', 'a.b', 'with-dash'], rng.int(0, 2))];
    const path = '/' + (rng.chance(0.5) ? segs : [segs[0], ...rng.shuffle(segs.slice(1))]).join('/');
    const file = this.file();
    const reqFile = rng.chance(0.3) ? this.file(file) : file;
    const route = { path, method: rng.pick(METHODS), file, params };
    const reqDeclared = reqFile !== file || rng.chance(0.25);
    route.req = this.request(reqFile, params);
    const req = route.req;
    if (reqDeclared) {
      route.reqDecl = proj.raw(reqFile, this.uniq('Req'), (f) => this.requestText(f, req, ''), { kind: 'request', export: reqFile !== file });
      this.stats.add('named request');
    }
    route.res = this.responses(file);
    if (rng.chance(0.2)) {
      route.pathDecl = proj.raw(file, this.uniq('PATH'), () => Q(path, rng) + (rng.chance(0.5) ? ' as const' : ''), { kind: 'path', export: true });
      this.stats.add('named path');
    }
    return route;
  }
  routeText(file, route, ind) {
    const { rng } = this;
    const h = file.lib('h', 'httpRoute');
    const deeper = ind + '  ';
    const fields = [
      `${deeper}path: ${route.pathDecl ? file.ref(route.pathDecl) : Q(route.path, rng)},`,
      `${deeper}method: '${route.method.toUpperCase()}',`,
      `${deeper}request: ${route.reqDecl ? file.ref(route.reqDecl) : this.requestText(file, route.req, deeper)},`,
      `${deeper}response: ${this.responsesText(file, route.res.own, deeper, route.res.spread, route.res.first)},`,
    ];
    return `${h}({\n${fields.join('\n')}\n${ind}})`;
  }
  build() {
    const { proj, rng } = this;
    // some named optional codecs
    for (const f of proj.files) {
      if (!f.pkg && rng.chance(0.2)) {
        const node = { k: 'opt', item: { k: 'lib', mod: 't', name: rng.pick(['string', 'number']) }, how: rng.pick(['optional', 'union', 'unionFirst']) };
        const d = proj.raw(f, this.uniq('Maybe'), (ff) => proj.expr(ff, node, ''), { kind: 'optcodec', export: true });
        d.node = node;
      }
    }
    for (let i = 0; i < this.opts.routes; i++) {
      const r = this.route(i);
      this.routes.push(r);
      // the same path under another method
      if (rng.chance(0.25)) {
        const o = this.route(i);
        o.path = r.path;
        o.params = r.params;
        o.pathDecl = undefined;
        const f = o.file;
        o.req = this.request(f, r.params);
        o.reqDecl = undefined;
        o.method = rng.pick(METHODS.filter((m) => m !== r.method));
        o.sibling = r;
        this.routes.push(o);
      }
    }
    for (const r of this.routes) {
      r.comment = this.comment('route', r);
      if (r.comment || r.file !== proj.entry || rng.chance(0.4)) {
        r.decl = proj.raw(r.file, this.uniq('Route'), (f) => this.routeText(f, r, ''), { kind: 'route', export: true, comment: r.comment });
        this.stats.add('declared route');
      }
    }
    // actions: key -> {method: route}; routes of one path share an action or not
    const actions = [];
    for (const r of this.routes) {
      const mate = r.sibling && actions.find((a) => a.routes.includes(r.sibling));
      if (mate && rng.chance(0.6)) mate.routes.push(r);
      else actions.push({ key: rng.pick(['api.v1.', 'wallet ', 'x', '']) + 'act' + actions.length, routes: [r] });
    }
    const entry = proj.entry;
    const inlineOk = (a, f) => a.routes.every((r) => r.decl || r.file === f);
    for (const a of actions) {
      if (!rng.chance(0.3)) continue;
      // in any file that can name all its routes
      const files = proj.files.filter((f) => !f.pkg && f !== entry && a.routes.every((r) => r.file === f || (r.decl && r.file.order < f.order)));
      const f = files.length && rng.chance(0.7) ? rng.pick(files) : entry;
      if (f === entry && !inlineOk(a, entry)) continue;
      a.decl = proj.raw(f, this.uniq('action'), (ff) => this.actionText(ff, a, ''), { kind: 'action', export: true });
      this.stats.add('declared action');
      if (f !== entry) this.stats.add('action of another file');
    }
    // the specifications: one or two of them, some of it in nested ones
    const groups = rng.chance(0.25) && actions.length > 1 ? [actions.slice(0, 1), actions.slice(1)] : [actions];
    if (groups.length > 1) this.stats.add('two specifications');
    this.specs = groups.map((g, gi) => {
      const spec = { actions: g.slice(), spreads: [] };
      if (g.length > 1 && rng.chance(0.35)) {
        const part = spec.actions.splice(0, rng.int(1, g.length - 1));
        const plain = rng.chance(0.5);
        // where every declaration can be imported: the entry or, if all its routes
        // lie in declarations elsewhere, still the entry (files are ordered)
        const files = proj.files.filter((f) => !f.pkg && part.every((a) => (a.decl ? a.decl.file.order <= f.order : a.routes.every((r) => (r.decl && r.file.order < f.order) || r.file === f))));
        const f = files.length ? rng.pick(files) : entry;
        const d = proj.raw(f, this.uniq('sub'), (ff) => {
          const body = this.actionsText(ff, part, []);
          return plain ? body : `${ff.lib('h', 'apiSpec')}(${body})`;
        }, { kind: 'subspec', export: true });
        // a sub-specification of the entry file would be one of its own: keep it plain
        d.plainOnly = f === entry;
        if (f === entry) d.init = (ff) => this.actionsText(ff, part, []);
        spec.spreads.push(d);
        this.stats.add(plain || f === entry ? 'spread plain actions' : 'spread specification');
      }
      spec.comment = this.comment('spec', spec);
      spec.decl = proj.raw(entry, this.uniq('spec'), (f) => `${f.lib('h', 'apiSpec')}(${this.actionsText(f, spec.actions, spec.spreads)})`, { kind: 'spec', comment: spec.comment });
      void gi;
      return spec;
    });
    // everything the oracle needs at run time
    entry.items.push({ raw: () => `export { ${this.specs.map((s, i) => `${s.decl.name} as __spec${i}`).join(', ')} };` });
    return this;
  }
  actionText(file, a, ind) {
    const deeper = ind + '  ';
    const seen = new Set();
    return `{\n${a.routes
      .map((r) => {
        if (seen.has(r.method)) throw new Error('two routes of one method in an action');
        seen.add(r.method);
        return `${deeper}${r.method}: ${r.decl ? file.ref(r.decl) : this.routeText(file, r, deeper)},`;
      })
      .join('\n')}\n${ind}}`;
  }
  actionsText(file, actions, spreads) {
    const { rng } = this;
    const lines = actions.map((a) => `  ${IDENT.test(a.key) && rng.chance(0.5) ? a.key : Q(a.key, rng)}: ${a.decl ? file.ref(a.decl) : this.actionText(file, a, '  ')},`);
    for (const s of spreads) lines.splice(rng.int(0, lines.length), 0, `  ...${file.ref(s)},`);
    return `{\n${lines.join('\n')}\n}`;
  }
  // ---------------------------------------------------------------- values
  partValue(p, rng, out) {
    const { proj } = this;
    for (const w of ['params', 'query', 'headers', 'body']) {
      if (!p[w]) continue;
      out[w] = out[w] || {};
      for (const e of p[w].all) {
        const v = proj.value(e.node, rng);
        if (v !== undefined) out[w][e.name] = v;
      }
    }
    if (p.rawBody) {
      const v = proj.value(p.rawBody, rng);
      out.body = out.body && v && typeof v === 'object' && !Array.isArray(v) ? { ...out.body, ...v } : v;
    }
    return out;
  }
  requestValue(r, rng) {
    const out = { params: {}, query: {}, headers: {} };
    if (r.kind === 'union') {
      const alt = rng.int(0, r.parts.length - 1);
      this.partValue(r.parts[alt], rng, out);
      return out;
    }
    for (const p of r.parts) this.partValue(p, rng, out);
    return out;
  }
}

module.exports = { Spec, STATUSES, METHODS };
