'use strict';
// Intermediate schemas: random ones, which values they accept, and values for them.
const NAMES = ['a', 'b', 'kind', 'with space', 'ü', '0', 'required', 'type', 'constructor'];
const STRINGS = ['a', 'b', '', 'é', 'true', '1'];
const NUMBERS = [0, 1, 2.5, -1, 300];
const own = (o, k) => Object.prototype.hasOwnProperty.call(o, k);

class IR {
  /** opts: tuples, document (only what OpenAPI can express) */
  constructor(rng, opts = {}) {
    this.rng = rng;
    this.opts = opts;
    this.seen = new Set();
    this.components = {};
    this.mapping = undefined;
    this.subtrees = [];
    this.n = 0;
    const k = rng.int(0, 3);
    this.refs = [];
    for (let i = 0; i < k; i++) {
      let s = this.node(2);
      // simplification by itself sees no further than a reference, which is taken to be defined there
      while (!opts.document && this.accepts(s, undefined)) s = this.node(2);
      const name = rng.pick(['Foo', 'Bar', 'Item']) + i;
      const location = rng.pick(['/a.ts', '/b.ts']);
      let key = name;
      if (rng.chance(0.3)) {
        // two of a name: the document calls it otherwise
        key = name + '_2';
        this.mapping = this.mapping || {};
        (this.mapping[location] = this.mapping[location] || {})[name] = key;
        this.renamed = true;
      }
      this.components[key] = s;
      this.refs.push({ type: 'ref', name, location, key });
    }
  }
  comment() {
    const { rng } = this;
    this.seen.add('comment');
    const text = rng.chance(0.8) ? `text ${++this.n}` : '';
    const tags = rng.sample(['title', 'deprecated', 'minLength', 'maximum', 'since'], rng.int(text ? 0 : 1, 2)).filter((t) => this.opts.document !== true || !/min|max/.test(t));
    const value = { title: `Title ${this.n}`, minLength: '1', maximum: '5', deprecated: '', since: `v${this.n}` };
    const line = (description, tag = '', rest = '') => ({ number: 0, source: '', tokens: { start: '', delimiter: '*', postDelimiter: ' ', tag, postTag: tag ? ' ' : '', name: rest.split(' ')[0] || '', postName: rest.includes(' ') ? ' ' : '', type: '', postType: '', description: tag ? rest.split(' ').slice(1).join(' ') : description, end: '', lineEnd: '' } });
    return {
      description: text,
      tags: tags.map((tag) => ({ tag, name: value[tag].split(' ')[0], type: '', optional: false, description: value[tag].split(' ').slice(1).join(' '), problems: [], source: [] })),
      source: [...(text ? [line(text)] : []), ...tags.map((tag) => line('', '@' + tag, value[tag]))],
      problems: [],
    };
  }
  note(s) {
    this.seen.add(s.type);
    if (this.rng.chance(0.15) && s.type !== 'undefined') s = { ...s, comment: this.comment() };
    if (this.rng.chance(0.1) && s.type !== 'undefined' && s.type !== 'ref') {
      // keywords of the schema itself, as codecs defined in a codec file have
      this.seen.add('own keywords');
      this.n++;
      const K = { ...(s.type === 'string' ? { example: `example ${this.n}` } : {}), title: `Own ${++this.n}`, description: `own text ${this.n}`, format: `own-${this.n}`, deprecated: true, readOnly: true };
      for (const k of this.rng.sample(Object.keys(K), this.rng.int(1, 3))) s = { ...s, [k]: K[k] };
    }
    return s;
  }
  leaf() {
    const { rng } = this;
    const s = rng.weighted([
      [4, () => ({ type: rng.pick(['string', 'number', 'boolean']), primitive: true })],
      [2, () => ({ type: 'string', minLength: rng.int(1, 2) })],
      [1, () => ({ type: 'number', minimum: rng.int(0, 1) })],
      [1, () => ({ type: 'null', ...(rng.chance(0.5) ? { enum: [null] } : {}) })],
      [3, () => ({ type: 'string', enum: rng.sample(STRINGS, rng.int(1, 3)) })],
      [2, () => ({ type: 'number', enum: rng.sample(NUMBERS, rng.int(1, 2)) })],
      [2, () => ({ type: 'boolean', enum: [rng.chance(0.5)] })],
      [1, () => {
        const values = rng.sample(['a', 'b', 'c'], 2);
        const descriptions = rng.chance(0.7);
        this.seen.add('documented constants');
        return { type: 'string', enum: values, ...(descriptions ? { enumDescriptions: { [values[0]]: `value ${++this.n}` } } : {}), ...(!descriptions || rng.chance(0.5) ? { enumsDeprecated: [values[1]] } : {}) };
      }],
      [this.opts.document ? 0 : 1, () => ({ type: 'integer' })],
      [3, () => this.ref() || { type: 'string', primitive: true }],
    ])();
    return this.note(s);
  }
  ref() {
    if (!this.refs || !this.refs.length) return undefined;
    const { key, ...r } = this.rng.pick(this.refs);
    void key;
    return { ...r };
  }
  object(depth) {
    const { rng } = this;
    const properties = {};
    for (const k of rng.sample(NAMES, rng.int(1, 3))) properties[k] = this.prop(depth - 1);
    return { type: 'object', properties, required: Object.keys(properties).filter(() => rng.chance(0.6)) };
  }
  optional(s) {
    const { rng } = this;
    this.seen.add('undefined');
    return this.note({ type: 'union', schemas: rng.shuffle([s, { type: 'undefined' }]) });
  }
  prop(depth) {
    const s = this.node(depth);
    if (this.rng.chance(0.25)) {
      this.seen.add('optional property');
      return this.optional(s);
    }
    return s;
  }
  node(depth) {
    const { rng } = this;
    if (this.subtrees.length && rng.chance(0.08)) {
      this.seen.add('shared subtree');
      return rng.pick(this.subtrees);
    }
    if (depth <= 0) return this.leaf();
    const s = this.note(
      rng.weighted([
        [2, () => this.leaf()],
        [4, () => this.object(depth)],
        [2, () => ({ type: 'array', items: this.node(depth - 1), ...(rng.chance(0.2) ? { minItems: 1 } : {}) })],
        [2, () => {
          const domain = rng.weighted([[2, undefined], [2, { type: 'string', primitive: true }], [2, () => ({ type: 'string', enum: rng.sample(['a', 'b', 'c'], 2) })], [1, () => ({ type: 'union', schemas: [{ type: 'string', enum: ['a'] }, { type: 'string', enum: ['b'] }] })]]);
          const d = typeof domain === 'function' ? domain() : domain;
          return { type: 'record', ...(d ? { domain: d } : {}), codomain: rng.chance(0.2) ? this.optional(this.node(depth - 1)) : this.node(depth - 1) };
        }],
        [6, () => ({ type: 'union', schemas: this.members(depth) })],
        [4, () => this.intersection(depth)],
        [this.opts.tuples ? 2 : 0, () => ({ type: 'tuple', schemas: Array.from({ length: rng.int(0, 2) }, () => this.node(depth - 1)) })],
      ])(),
    );
    if (rng.chance(0.2)) this.subtrees.push(s);
    return s;
  }
  members(depth) {
    const { rng } = this;
    const out = [];
    const n = rng.int(1, 4);
    if (rng.chance(0.3)) {
      // constants of one kind
      this.seen.add('merged constants');
      for (let i = 0; i < n; i++) out.push(this.note({ type: 'string', enum: [rng.pick(STRINGS)] }));
    } else if (rng.chance(0.15)) for (let i = 0; i < n; i++) out.push({ type: 'boolean', ...(rng.chance(0.5) ? { enum: [rng.chance(0.5)] } : { primitive: true }) });
    else for (let i = 0; i < n; i++) out.push(this.node(depth - 1));
    if (rng.chance(0.15)) out.push({ type: 'undefined' });
    if (rng.chance(0.15)) out.push({ type: 'null' });
    return out;
  }
  intersection(depth) {
    const { rng } = this;
    const parts = [];
    const kinds = rng.chance(0.7) ? ['object'] : ['object', 'object', 'union', 'ref', 'nested'];
    for (let i = rng.int(1, 3); i > 0; i--) {
      const k = rng.pick(kinds);
      if (k === 'object') parts.push(this.note(this.object(depth)));
      else if (k === 'nested') parts.push(this.note(this.intersection(depth - 1)));
      else if (k === 'union') parts.push(this.note({ type: 'union', schemas: [this.object(depth - 1), this.object(depth - 1)] }));
      else parts.push(this.ref() || this.object(depth));
    }
    const names = parts.flatMap((p) => (p.type === 'object' ? Object.keys(p.properties) : []));
    if (new Set(names).size < names.length) this.seen.add('intersected property');
    this.seen.add('intersection');
    return { type: 'intersection', schemas: parts };
  }
  // ---------------------------------------------------------------- meaning
  target(s) {
    const key = this.mapping && this.mapping[s.location] && this.mapping[s.location][s.name];
    return this.components[key || s.name];
  }
  accepts(s, v) {
    switch (s.type) {
      case 'undefined':
        return v === undefined;
      case 'any':
        return v !== undefined;
      case 'null':
        return v === null;
      case 'string':
        return typeof v === 'string' && (!s.enum || s.enum.includes(v)) && (s.minLength === undefined || v.length >= s.minLength);
      case 'number':
        return typeof v === 'number' && (!s.enum || s.enum.includes(v)) && (s.minimum === undefined || v >= s.minimum);
      case 'integer':
        return Number.isInteger(v) && (!s.enum || s.enum.includes(v));
      case 'boolean':
        return typeof v === 'boolean' && (!s.enum || s.enum.includes(v));
      case 'array':
        return Array.isArray(v) && (s.minItems === undefined || v.length >= s.minItems) && v.every((x) => this.accepts(s.items, x));
      case 'tuple':
        return Array.isArray(v) && v.length === s.schemas.length && s.schemas.every((x, i) => this.accepts(x, v[i]));
      case 'object':
        if (v === null || typeof v !== 'object' || Array.isArray(v)) return false;
        return Object.keys(s.properties).every((k) => (own(v, k) && v[k] !== undefined ? this.accepts(s.properties[k], v[k]) : !s.required.includes(k) || this.accepts(s.properties[k], undefined)));
      case 'record': {
        if (v === null || typeof v !== 'object' || Array.isArray(v)) return false;
        const keys = s.domain && this.constants(s.domain);
        if (keys) return keys.every((k) => this.accepts(s.codomain, own(v, k) ? v[k] : undefined));
        return Object.keys(v).every((k) => this.accepts(s.codomain, v[k]));
      }
      case 'union':
        return s.schemas.some((x) => this.accepts(x, v));
      case 'intersection':
        return s.schemas.every((x) => this.accepts(x, v));
      case 'ref':
        return this.accepts(this.target(s), v);
      default:
        throw new Error('strange schema ' + s.type);
    }
  }
  constants(d) {
    if (d.type === 'union') {
      const l = d.schemas.map((x) => this.constants(x));
      return l.every(Boolean) ? l.flat() : undefined;
    }
    return d.enum;
  }
  // ---------------------------------------------------------------- values
  value(s) {
    const { rng } = this;
    switch (s.type) {
      case 'undefined':
        return undefined;
      case 'null':
        return null;
      case 'string':
        return s.enum ? rng.pick(s.enum) : rng.pick(['a', 'xyz', 'b', 'éé', 'true'].filter((x) => x.length >= (s.minLength || 0)));
      case 'number':
        return s.enum ? rng.pick(s.enum) : rng.pick(NUMBERS.filter((x) => s.minimum === undefined || x >= s.minimum));
      case 'integer':
        return rng.int(-2, 5);
      case 'boolean':
        return s.enum ? rng.pick(s.enum) : rng.chance(0.5);
      case 'array': {
        const l = [];
        for (let i = rng.int(s.minItems || 0, 2); i > 0; i--) l.push(this.defined(s.items));
        return l;
      }
      case 'tuple':
        return s.schemas.map((x) => this.defined(x));
      case 'object': {
        const o = {};
        for (const k of Object.keys(s.properties)) {
          if (!s.required.includes(k) && rng.chance(0.4)) continue;
          const v = this.value(s.properties[k]);
          if (v !== undefined) o[k] = v;
        }
        return o;
      }
      case 'record': {
        const o = {};
        const keys = (s.domain && this.constants(s.domain)) || rng.sample(NAMES, rng.int(0, 2));
        for (const k of keys) {
          const v = this.value(s.codomain);
          if (v !== undefined) o[k] = v;
        }
        return o;
      }
      case 'union':
        return this.value(rng.pick(s.schemas));
      case 'intersection': {
        let o;
        for (const x of s.schemas) {
          const v = this.value(x);
          o = o && v && typeof o === 'object' && typeof v === 'object' ? { ...o, ...v } : v;
        }
        return o;
      }
      case 'ref':
        return this.value(this.target(s));
      default:
        return null;
    }
  }
  defined(s) {
    const v = this.value(s);
    return v === undefined ? null : v;
  }
  mutate(v) {
    const { rng } = this;
    const junk = () => rng.pick([null, 'a', 'b', '', 0, 1, -1, true, false, [], {}, ['a'], { a: 'a' }]);
    if (v !== null && typeof v === 'object' && rng.chance(0.8)) {
      if (Array.isArray(v)) {
        const l = v.slice();
        if (l.length && rng.chance(0.6)) {
          const i = rng.int(0, l.length - 1);
          if (rng.chance(0.3)) l.splice(i, 1);
          else l[i] = this.mutate(l[i]);
        } else l.push(junk());
        return l;
      }
      const o = { ...v };
      const keys = Object.keys(o);
      if (keys.length && rng.chance(0.75)) {
        const k = rng.pick(keys);
        if (rng.chance(0.4)) delete o[k];
        else o[k] = this.mutate(o[k]);
      } else o[rng.pick(NAMES)] = junk();
      return o;
    }
    return junk();
  }
  values(s, n) {
    const { rng } = this;
    const out = [undefined];
    for (let i = 0; i < n; i++) {
      const v = this.value(s);
      out.push(v, this.mutate(v));
      if (rng.chance(0.3)) out.push(this.mutate(this.mutate(v)));
    }
    out.push(null, 'a', {}, [], 1, true);
    return out;
  }
}

module.exports = { IR };
