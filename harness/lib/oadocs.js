'use strict';
// Projects and specifications full of documentation comments, each with a token of its
// own, and the keywords each comment is to leave in the document.
const { Project } = require('./oagen');
const { Spec } = require('./oaroutes');

const WORDS = ['plain text', 'Ünïcode — “quotes”', '日本語のテキスト', 'emoji 😀👩‍👩‍👧', 'עברית و عربي', 'e\u0301 combining', 'back\\slash \\d \\n', '`code` and $& $1', 'a@b.example', 'see {@link Foo} here', 'https://example.org/x?y=1#z', '<b>html</b> & more', '"double" and \'single\'', '100% [brackets] {braces}', 'x // y', 'a | b || c', 'trailing dot.', '- dash', '# hash', '1. first', 'ends with colon:', '— 🂡 𝕌𝕟𝕚 —', 'tab\there', 'a * b ** c', 'null', '$ref: #/x', 'key: value', 'nb\u00a0sp', 'const a = 1;'];
const PATTERNS = ['^[0-9a-f]{32}$', '^\\d+(\\.\\d+)?$', '[a-z]|[A-Z]', '^(?:x|y){2,3}$', '\\w+@\\w+', '^"q"$', '{a}', '[0-9]', '^ü+$', '(?=.*😀)', 'a b  c'];
const NUMS = ['0', '1', '-1', '2.5', '-0.5', '100', '1e3', '007'];

// codecs whose schemas have keywords of their own: [package, name, type, keywords]
const OWN = [];
{
  const bound = { Negative: { maximum: 0, exclusiveMaximum: true }, NonNegative: { minimum: 0 }, NonPositive: { maximum: 0 }, Positive: { minimum: 0, exclusiveMinimum: true } };
  for (const [name, kw] of Object.entries(bound)) {
    OWN.push(['nums', name, 'number', kw], ['nums', name + 'FromString', 'string', { format: 'number', ...kw }]);
    if (name !== 'Positive') OWN.push(['nums', name + 'Int', 'number', kw]);
  }
  const big = { NegativeBigInt: { maximum: -1 }, NonNegativeBigInt: { minimum: 0 }, NonPositiveBigInt: { maximum: 0 }, PositiveBigInt: { minimum: 1 } };
  for (const [name, kw] of Object.entries(big)) OWN.push(['big', name, 'number', kw], ['big', name + 'FromString', 'string', { format: 'number', ...kw }]);
  OWN.push(['tt', 'UUID', 'string', { title: 'uuid' }], ['tt', 'DateFromISOString', 'string', { format: 'date-time', title: 'ISO Date String' }], ['tt', 'IntFromString', 'string', { format: 'integer' }], ['tt', 'NonEmptyString', 'string', { minLength: 1 }]);
}
/** random codecs for a custom codec file, as OWN */
function customCodecs(rng) {
  return ['Money', 'Ticker', 'Switch', 'Level', 'string'].slice(0, rng.int(1, 5)).map((name) => {
    const type = rng.pick(['string', 'number', 'number', 'boolean']);
    const flag = () => rng.chance(0.8);
    const num = () => rng.pick([0, 1, -1, 2.5, 100]);
    const C = { title: () => 'Own title', format: () => 'own-format', readOnly: flag, writeOnly: flag, deprecated: flag };
    if (type === 'string') Object.assign(C, { minLength: () => rng.pick([0, 2]), maxLength: () => rng.pick([0, 7]), pattern: () => '^own$', default: () => rng.pick(['own', '0']), example: () => 'own example' });
    if (type === 'number') Object.assign(C, { minimum: num, maximum: num, exclusiveMinimum: flag, exclusiveMaximum: flag, multipleOf: () => rng.pick([0.5, 7]), default: num, example: num });
    if (type === 'boolean') Object.assign(C, { default: () => rng.chance(0.5), example: () => rng.chance(0.5) });
    const schema = {};
    for (const k of rng.sample(Object.keys(C), rng.int(0, Math.min(5, Object.keys(C).length)))) schema[k] = C[k]();
    // a flag that is not set is as good as none
    const kw = Object.fromEntries(Object.entries(schema).filter(([k, v]) => v !== false || k === 'default' || k === 'example'));
    return ['own', name, type, kw, { type, ...schema }];
  });
}

class Docs {
  constructor(rng) {
    this.rng = rng;
    this.n = 0;
    this.all = [];
  }
  /** kind: 'string'|'number'|'boolean'|'object'|'array'|'ref'|'union'|'record'|'route'|'spec'|… */
  make(kind, opts = {}) {
    const { rng } = this;
    const token = `tok${++this.n}x`;
    const doc = { token, kind, kw: {}, tags: [], text: [] };
    const T = (s) => `${s} ${token}`;
    if (!opts.noText && rng.chance(0.8)) {
      doc.text.push(rng.chance(0.5) ? `${token} ${rng.pick(WORDS)}` : T(rng.pick(WORDS.filter((w) => !/^[-#1]/.test(w)))));
      while (rng.chance(0.3)) doc.text.push(...(rng.chance(0.3) ? ['', T(rng.pick(WORDS))] : [rng.pick(WORDS) + ' ' + token]));
    }
    const tag = (name, text, value) => {
      doc.tags.push([name, text]);
      if (value !== undefined) doc.kw[name] = value;
    };
    const num = (name, ...from) => {
      const x = rng.pick(from.length ? from : NUMS);
      tag(name, x, Number(x));
    };
    const flag = (name) => tag(name, rng.pick(['', '', 'true']), true);
    const C = [];
    const json = () => {
      const v = rng.pick([{ a: 1, t: token }, [token, { 'b c': null }], { nested: { x: [1, 2, { t: token }] }, ü: '😀' }, [], {}, { t: `${token} } ] "q" @x */`.replace('*/', '* /') }]);
      const text = rng.chance(0.5) ? JSON.stringify(v) : JSON.stringify(v, null, rng.pick([1, 2]));
      return [v, text];
    };
    if (kind !== 'route' && kind !== 'spec') {
      C.push(() => flag('deprecated'), () => flag('readOnly'), () => flag('writeOnly'), () => tag('title', T(rng.pick(['Title', 'A: b', '{T}', '[T]', 'Ünï 😀']))));
      C.push(() => tag('title', T(rng.pick(['Title', 'A: b', '{T}', '[T]', 'Ünï 😀'])), undefined));
      const mark = () => {
        const name = opts.mark || rng.pick(['private', 'public']);
        doc.tags.push([name, '']);
        doc.kw['x-internal'] = name === 'private';
      };
      mark.mark = true;
      C.push(mark);
    }
    const str = (x) => [x, x];
    if (kind === 'string') {
      C.push(() => num('minLength', '0', '1', '10'), () => num('maxLength', '0', '5', '300'));
      C.push(() => {
        const p = rng.pick(PATTERNS);
        tag('pattern', p, p);
      });
      C.push(() => {
        const f = rng.pick(['uuid', 'date-time', 'x-' + token]);
        tag('format', f, f);
      });
      for (const name of ['default', 'example']) {
        C.push(() => {
          const [text, v] = rng.pick([str(token), str(`two ${token} words`), [`"quoted ${token}"`, `quoted ${token}`], str('0'), str('false'), str('ünï 😀'), str(`it's "${token}" inside`), str(`a  b`), str(`x {y} [z]`)]);
          tag(name, text, v);
        });
      }
    } else if (kind === 'number') {
      C.push(() => num('minimum'), () => num('maximum'), () => num('multipleOf', '1', '0.5', '7'), () => flag('exclusiveMinimum'), () => flag('exclusiveMaximum'), () => num('default'), () => num('example'));
    } else if (kind === 'boolean') {
      for (const name of ['default', 'example']) {
        C.push(() => {
          const v = rng.chance(0.5);
          tag(name, String(v), v);
        });
      }
    } else if (kind === 'object' || kind === 'record') {
      C.push(() => num('minProperties', '0', '1', '3'), () => num('maxProperties', '0', '2', '9'));
      C.push(() => {
        const [v, text] = json();
        tag('example', text, v);
      });
    } else if (kind === 'array') {
      C.push(() => num('minItems', '0', '1', '3'), () => num('maxItems', '0', '2', '9'), () => flag('uniqueItems'));
      C.push(() => {
        const [v, text] = json();
        if (Array.isArray(v)) tag('example', text, v);
      });
    } else if (kind === 'route') {
      C.push(() => tag('operationId', `api.${token}.op`), () => tag('tag', T(rng.pick(['Wallet', 'Two Words', 'Ünï']))), () => tag('unstable', ''));
      C.push(() => tag(rng.pick(['private', 'public']), ''));
      C.push(() => tag(rng.pick(['version', 'note', 'since']), rng.pick([T('3'), T('some {text}'), '', '1.10', '007', '1e3', 'true', 'null', '0', '-1', '{"a": 1}', '[1]', '"quoted"', ' padded'.trim()])));
      C.push(() => {
        const [v, text] = json();
        tag('example', text, v);
      });
    } else if (kind === 'spec') {
      C.push(() => tag('url', `https://${token}.example.org/v1`));
    }
    // at most one of each tag
    const done = new Set();
    const mark = opts.mark && C.find((c) => c.mark);
    for (const c of [...(mark ? [mark] : []), ...rng.shuffle(C)].slice(0, rng.weighted([[doc.text.length && !mark ? 4 : 0, 0], [4, 1], [3, 2], [2, 4]]))) {
      const before = doc.tags.length;
      const kw = { ...doc.kw };
      c();
      const t = doc.tags[before];
      if (!t) continue;
      const key = t[0] === 'public' ? 'private' : t[0];
      if (done.has(key)) {
        doc.tags.pop();
        doc.kw = kw;
      } else {
        done.add(key);
        if (t[0] === 'title') doc.kw.title = t[1];
      }
    }
    if (!doc.text.length && !doc.tags.length) doc.text.push(token);
    const description = doc.text.join('\n');
    if (description) doc.kw.description = description;
    doc.lines = this.lines(doc);
    this.all.push(doc);
    return doc;
  }
  /** how it is written */
  lines(doc) {
    const { rng } = this;
    const body = [...doc.text];
    if (doc.text.length && doc.tags.length && rng.chance(0.5)) body.push('');
    for (const [name, text] of doc.tags) {
      const ls = text.split('\n');
      body.push(`@${name}${ls[0] === '' ? '' : ' '.repeat(rng.weighted([[8, 1], [1, 3]])) + ls[0]}`, ...ls.slice(1));
    }
    const noise = () => (rng.chance(0.1) ? [rng.pick(['// a plain comment', '/* a block */', '// eslint-disable-next-line', '/** an earlier comment, of nothing */', '// @title not this'])] : []);
    const out = noise().filter(() => true);
    const after = noise().filter((l) => !l.startsWith('/**'));
    let main;
    if (body.length === 1 && rng.chance(0.6)) main = [`/** ${body[0]} */`];
    else if (rng.chance(0.15) && body[0] !== '') main = [`/** ${body[0]}`, ...body.slice(1).map(star), ' */'];
    else if (rng.chance(0.15) && body[body.length - 1] !== '') main = ['/**', ...body.slice(0, -1).map(star), ` * ${body[body.length - 1]} */`];
    else main = ['/**', ...(rng.chance(0.1) ? [' *'] : []), ...body.map(star), ' */'];
    return [...out, ...main, ...after];
  }
}
const star = (l) => (l === '' ? ' *' : ` * ${l}`);

class Documented extends Project {
  constructor(rng, docs, opts) {
    super(rng, opts);
    this.docs = docs;
    this.opts.comment = (kind, x) => this.docFor(kind, x);
    this.q = 0;
  }
  /** what kind of schema a comment on this node lands on */
  kindOf(n) {
    if (n.k === 'opt') return this.kindOf(n.item);
    if (n.k === 'lib' && n.own) return n.type;
    if (n.k === 'lib') return { string: 'string', number: 'number', boolean: 'boolean', NonEmptyString: 'string' }[n.name];
    if (n.k === 'lit') return typeof n.value;
    if (n.k === 'keyof') return 'string';
    if (n.k === 'obj' || n.k === 'inter') return 'object';
    if (n.k === 'ref' && n.decl.form !== 'const') return this.kindOf(n.decl.node);
    if (n.k === 'null?') return this.kindOf(n.item);
    return n.k;
  }
  /** the mark contrary to that of a codec which is referred to */
  contrary(n) {
    if (!this.rng.chance(0.8)) return undefined;
    if (n.k === 'opt' || n.k === 'null?' || n.k === 'array') return this.contrary(n.item);
    const own = n.k === 'ref' && n.decl.doc && n.decl.doc.kw['x-internal'];
    return typeof own !== 'boolean' ? undefined : own ? 'public' : 'private';
  }
  docFor(kind, x) {
    const { rng, docs } = this;
    let doc;
    if (kind === 'decl') {
      if (!rng.chance(0.7)) return undefined;
      doc = docs.make(this.kindOf(x.node), { mark: this.rng.chance(0.2) ? this.rng.pick(['private', 'public']) : undefined });
      x.doc = doc;
    } else if (kind === 'prop') {
      if (!rng.chance(0.5)) return undefined;
      doc = docs.make(this.kindOf(x.node), { mark: this.contrary(x.node) });
      x.doc = doc;
    } else if (kind === 'param') {
      if (!rng.chance(0.6)) return undefined;
      doc = docs.make(this.kindOf(x.e.node), { mark: this.contrary(x.e.node) });
      x.e.doc = doc;
    } else if (kind === 'response') {
      if (!rng.chance(0.5)) return undefined;
      doc = docs.make(this.kindOf(x.node));
      x.doc = doc;
    } else if (kind === 'route') {
      if (!rng.chance(0.8)) return undefined;
      doc = docs.make('route');
      x.doc = doc;
    } else if (kind === 'spec') {
      if (!rng.chance(0.6)) return undefined;
      doc = docs.make('spec');
      x.doc = doc;
    } else return undefined;
    return doc.lines;
  }
  leaf() {
    const { rng } = this;
    return rng.weighted([
      [5, () => ({ k: 'lib', mod: 't', name: 'string' })],
      [4, () => ({ k: 'lib', mod: 't', name: 'number' })],
      [2, () => ({ k: 'lib', mod: 't', name: 'boolean' })],
      [3, () => this.ownCodec()],
      [2, () => ({ k: 'lit', value: rng.pick(['a', 'é', 5, 0]) })],
      [2, () => ({ k: 'keyof', keys: this.keys(rng.int(2, 3)) })],
    ])();
  }
  ownCodec() {
    const { rng } = this;
    const custom = this.opts.custom || [];
    const [mod, name, type, own] = rng.pick(custom.length && rng.chance(0.5) ? custom : OWN);
    return { k: 'lib', mod, name, type, own };
  }
  node(file, depth) {
    const { rng } = this;
    const ref = () => this.refTo(file, {}) || this.leaf();
    if (depth <= 0) return rng.chance(0.3) ? ref() : this.leaf();
    return rng.weighted([
      [5, () => this.leaf()],
      [5, ref],
      [2, () => ({ k: 'array', fn: rng.weighted([[4, ['t', 'array']], [2, ['t', 'readonlyArray']], [2, ['tt', 'nonEmptyArray']], [1, ['tt', 'readonlyNonEmptyArray']]]), item: rng.chance(0.4) ? ref() : rng.chance(0.3) ? this.obj(file, depth - 1) : this.leaf() })],
      [6, () => this.obj(file, depth - 1)],
      [1, () => ({ k: 'record', domain: 'string', codomain: rng.chance(0.5) ? this.leaf() : ref() })],
      [2, () => ({ k: 'null?', item: rng.chance(0.4) ? this.obj(file, depth - 1) : rng.chance(0.5) ? ref() : rng.chance(0.4) ? this.ownCodec() : { k: 'lib', mod: 't', name: rng.pick(['string', 'number']) } })],
      [1, () => ({ k: 'union', alts: [this.tagged(file, depth - 1, 'k1'), this.tagged(file, depth - 1, 'k2')], unknown: rng.chance(0.4) })],
      [1, () => ({ k: 'inter', parts: [this.obj(file, depth - 1, true), this.obj(file, depth - 1, true)] })],
      [1, () => this.enumDoc()],
    ])();
  }
  tagged(file, depth, k) {
    const o = this.obj(file, depth);
    delete o.propsDecl;
    o.entries = [{ t: 'prop', name: 'kind', node: { k: 'lit', value: k } }, ...(o.entries || []).filter((e) => e.t !== 'spread' && e.name !== 'kind')];
    o.form = 'type';
    return o;
  }
  obj(file, depth, distinct) {
    const { rng } = this;
    const form = rng.weighted([[6, 'type'], [3, 'partial'], [1, 'strict'], [1, 'exact'], [2, 'optionalized']]);
    if (distinct) {
      const entries = [];
      for (let i = rng.int(1, 3); i > 0; i--) entries.push(this.commented({ t: 'prop', name: 'q' + this.q++, node: this.propNode(file, depth) }));
      return { k: 'obj', form, entries };
    }
    const props = this.visible(file, 'props');
    if (props.length && rng.chance(0.15)) return { k: 'obj', form, propsDecl: rng.pick(props) };
    return { k: 'obj', form, entries: this.entries(file, depth, { some: true }) };
  }
  object(file, depth) {
    return this.obj(file, depth);
  }
  propNode(file, depth) {
    const { rng } = this;
    const n = this.node(file, depth);
    if (rng.chance(0.25) && n.k !== 'null?') return { k: 'opt', item: n, how: rng.pick(['optional', 'union', 'unionFirst']) };
    return n;
  }
  /** t.keyof with documented values */
  enumDoc() {
    const { rng, docs } = this;
    const keys = rng.sample(['pending', 'done', 'with space', 'ünï', 'kebab-k', 'x😀'], rng.int(2, 4));
    const descriptions = {};
    const deprecated = [];
    const members = keys.map((k) => {
      const lines = [];
      if (rng.chance(0.7)) {
        const token = `tok${++docs.n}x`;
        const text = `${rng.pick(WORDS.filter((w) => !/^[-#1\u00a0]/.test(w) && !/\t/.test(w)))} ${token}`;
        descriptions[k] = text;
        lines.push(`@description ${text}`);
      }
      if (rng.chance(0.4)) {
        deprecated.push(k);
        lines.push('@deprecated');
      }
      return [k, lines.length ? ['/**', ...lines.map((l) => ' * ' + l), ' */'] : []];
    });
    return {
      k: 'raw',
      enumDoc: { keys, descriptions, deprecated },
      text: (file, ind) => `${file.lib('t', 'keyof')}({\n${members.map(([k, ls]) => [...ls, `${/^[a-z]+$/.test(k) ? k : JSON.stringify(k)}: 1,`].map((l) => `${ind}  ${l}`).join('\n')).join('\n')}\n${ind}})`,
    };
  }
  isAnyish() {
    return false;
  }
  isEmptyObject() {
    return false;
  }
  isStringish() {
    return false;
  }
  isObject(n) {
    n = this.under(n);
    return n.k === 'obj' || n.k === 'inter';
  }
  expr(file, n, ind = '') {
    if (n.k === 'null?') {
      const a = [this.expr(file, n.item, ind), `${file.lib('t', this.rng.pick(['null', 'nullType']))}`];
      if (this.rng.chance(0.3)) a.reverse();
      return `${file.lib('t', 'union')}([${a.join(', ')}])`;
    }
    if (n.k === 'union' && n.unknown) {
      const a = n.alts.map((x) => this.expr(file, x, ind));
      a.splice(this.rng.int(0, a.length), 0, file.lib('t', 'unknown'));
      return `${file.lib('t', 'union')}([${a.join(', ')}])`;
    }
    return super.expr(file, n, ind);
  }
  declare(file, isEntry) {
    const { rng } = this;
    if (rng.chance(0.15)) return super.declare(file, isEntry, { kind: rng.pick(['props', 'lit']) });
    const node = this.node(file, 3);
    const form = rng.weighted([[12, 'const'], [1, 'fn'], [1, 'member']]);
    return super.declare(file, isEntry, { kind: 'codec', name: 'Decl' + this.decls.length, node, form: node.k === 'ref' || node.k === 'lib' ? 'const' : form });
  }
}

class DocSpec extends Spec {
  paramNode(file, where) {
    const { proj, rng } = this;
    const simple = () => (where === 'query' && rng.chance(0.15) ? { k: 'array', fn: ['t', 'array'], item: { k: 'lib', mod: 't', name: 'string' } } : proj.leaf());
    return rng.weighted([
      [6, simple],
      [2, () => this.simpleRef(file) || simple()],
      [where === 'params' ? 0 : 3, () => ({ k: 'opt', item: simple(), how: rng.pick(['optional', 'union', 'unionFirst']) })],
    ])();
  }
  simpleRef(file) {
    const ds = this.proj.visible(file, 'codec').filter((d) => d.form === 'const' && ['lib', 'lit', 'keyof'].includes(d.node.k));
    return ds.length ? { k: 'ref', decl: this.rng.pick(ds) } : undefined;
  }
  optionalRef() {
    return undefined;
  }
}

module.exports = { customCodecs, Docs, Documented, DocSpec, WORDS };
