'use strict';
// Random codecs with value generators.  A "field" is
//   { label, codec, gen(rng) -> valid decoded value, wire(rng) -> some wire input
//     (valid or hostile), optional: bool, nested?: model }
// Leaf codecs come from io-ts / io-ts-types (trusted), so their own decode/encode/is
// serve as the oracle for a single property; everything about *composing* properties
// into requests is modelled independently in model.js.
module.exports = function makeCodecs(B) {
  const t = B.dep('io-ts');
  const T = B.dep('io-ts-types');
  const E = B.dep('fp-ts/Either');
  const h = B.load('io-ts-http');

  const WORDS = ['a', 'b0', 'foo', 'Bar', 'x-y', 'snow man', 'naïve', '日本', '😀', 'a/b', 'q?x=1', 'h#1', '100%',
    'a%2Fb', 'a+b', 'a&b=c', '$&', "$'", '{x}', '..', '.', ' ', 'true', '0', '-1', 'null', 'undefined', '[1]', 'a,b',
    ';', '"', "'", '\\', '<a>', 'a'.repeat(60), '\t', 'é', '%', '%zz', '[object Object]'];
  const word = (rng) =>
    rng.chance(0.7)
      ? rng.pick(WORDS)
      : Array.from({ length: rng.int(1, 8) }, () =>
          String.fromCodePoint(rng.weighted([[8, rng.int(0x21, 0x7e)], [1, rng.int(0xa1, 0x2ff)], [1, 0x1f600 + rng.int(0, 40)]])),
        ).join('');
  const finite = (rng) =>
    rng.weighted([
      [3, () => rng.int(-1000, 1000)],
      [1, () => rng.int(-1e9, 1e9) / 64],
      [1, () => rng.pick([1, 42, 0.5, 1e21, 1e-7, Number.MAX_SAFE_INTEGER, 2 ** 53, -3.25])],
      [2, () => 0],
    ])();
  const date = (rng) => new Date(rng.int(0, 2000000000) * 1000 + rng.int(0, 999));

  const junk = (rng, depth = 2) =>
    rng.weighted([
      [2, () => word(rng)],
      [1, () => ''],
      [1, () => rng.int(-5, 5)],
      [1, () => 0],
      [1, () => rng.chance(0.5)],
      [1, () => null],
      [1, () => undefined],
      [1, () => (depth ? Array.from({ length: rng.int(0, 3) }, () => junk(rng, depth - 1)) : 7)],
      [1, () => {
        if (!depth) return 'deep';
        const o = {};
        for (let i = rng.int(0, 3); i > 0; i--) o[rng.pick(['a', 'b', 'c', 'length', 'k v'])] = junk(rng, depth - 1);
        return o;
      }],
    ])();

  // a codec whose decoded form differs from the wire form and that is not a string
  const Csv = new t.Type(
    'Csv',
    (u) => Array.isArray(u) && u.every((s) => typeof s === 'string' && !/,/.test(s) && s !== ''),
    (u, c) =>
      typeof u === 'string' ? (u === '' ? t.success([]) : u.split(',').some((p) => p === '') ? t.failure(u, c) : t.success(u.split(','))) : t.failure(u, c),
    (a) => a.join(','),
  );
  const Prefixed = new t.Type(
    'Prefixed',
    (u) => typeof u === 'string',
    (u, c) => (typeof u === 'string' && u.startsWith('id:') ? t.success(u.slice(3)) : t.failure(u, c)),
    (a) => 'id:' + a,
  );
  const BoolStr = T.BooleanFromString;

  // ---- leaves whose wire form is a string (path params, headers, query)
  const stringLeaves = [
    { label: 'string', codec: t.string, gen: word },
    { label: 'NumberFromString', codec: T.NumberFromString, gen: finite },
    { label: 'IntFromString', codec: T.IntFromString, gen: (r) => r.int(-500, 500) },
    { label: 'BooleanFromString', codec: BoolStr, gen: (r) => r.chance(0.5) },
    { label: 'DateFromISOString', codec: T.DateFromISOString, gen: date },
    { label: 'BigIntFromString', codec: T.BigIntFromString, gen: (r) => BigInt(r.int(-1000000, 1000000)) * 9007199254740993n },
    { label: 'NonEmptyString', codec: T.NonEmptyString, gen: word },
    { label: 'UUID', codec: T.UUID, gen: (r) => `0000${r.int(1000, 9999)}-0000-4000-8000-${String(r.int(0, 999999999999)).padStart(12, '0')}` },
    { label: "literal('on')", codec: t.literal('on'), gen: () => 'on' },
    { label: "keyof(red,green)", codec: t.keyof({ red: 1, green: 1, 'deep blue': 1 }), gen: (r) => r.pick(['red', 'green', 'deep blue']) },
    { label: 'Prefixed', codec: Prefixed, gen: word },
    { label: 'number|string union', codec: t.union([T.NumberFromString, t.string]), gen: (r) => (r.chance(0.5) ? finite(r) : 'w' + r.int(0, 9)) },
  ];
  const queryOnly = [
    { label: 'array(string)', codec: t.array(t.string), gen: (r) => Array.from({ length: r.int(2, 20) }, () => word(r)), arrayish: true },
    { label: 'array(NumberFromString)', codec: t.array(T.NumberFromString), gen: (r) => Array.from({ length: r.int(2, 6) }, () => finite(r)), arrayish: true },
    { label: 'Csv', codec: Csv, gen: (r) => Array.from({ length: r.int(1, 4) }, () => 'c' + r.int(0, 99)) },
    { label: 'string|string[]', codec: t.union([t.string, t.array(t.string)]), gen: (r) => (r.chance(0.5) ? word(r) : [word(r), word(r)]) },
  ];
  const jsonLeaves = [
    { label: 'string', codec: t.string, gen: (r) => (r.chance(0.15) ? '' : word(r)) },
    { label: 'number', codec: t.number, gen: finite },
    { label: 'boolean', codec: t.boolean, gen: (r) => r.chance(0.5) },
    { label: 'null', codec: t.null, gen: () => null },
    { label: 'string|null', codec: t.union([t.string, t.null]), gen: (r) => (r.chance(0.4) ? null : word(r)) },
    { label: 'number|string', codec: t.union([t.number, t.string]), gen: (r) => (r.chance(0.5) ? finite(r) : word(r)) },
    { label: 'DateFromISOString', codec: T.DateFromISOString, gen: date },
    { label: 'NumberFromString', codec: T.NumberFromString, gen: finite },
    { label: 'BigIntFromString', codec: T.BigIntFromString, gen: (r) => BigInt(r.int(-99999, 99999)) },
    { label: 'array(number)', codec: t.array(t.number), gen: (r) => Array.from({ length: r.int(0, 5) }, () => finite(r)) },
    { label: 'array(DateFromISOString)', codec: t.array(T.DateFromISOString), gen: (r) => Array.from({ length: r.int(0, 3) }, () => date(r)) },
    { label: 'record(string,number)', codec: t.record(t.string, t.number), gen: (r) => ({ ['k' + r.int(0, 9)]: finite(r), z: 0 }) },
    { label: 'tuple', codec: t.tuple([t.string, t.boolean]), gen: (r) => [word(r), r.chance(0.5)] },
    { label: 'type{d:Date,n}', codec: t.type({ d: T.DateFromISOString, n: t.number }), gen: (r) => ({ d: date(r), n: finite(r) }) },
    { label: 'strict{s}', codec: t.strict({ s: t.string }), gen: (r) => ({ s: word(r) }) },
    { label: 'type∩partial', codec: t.intersection([t.type({ a: t.string }), t.partial({ b: T.NumberFromString })]), gen: (r) => (r.chance(0.5) ? { a: word(r) } : { a: word(r), b: finite(r) }) },
    { label: 'UnknownRecord', codec: t.UnknownRecord, gen: (r) => ({ u: word(r), v: [1, { w: null }] }) },
    { label: 'tagged union', codec: t.union([t.type({ k: t.literal('a'), d: T.DateFromISOString }), t.type({ k: t.literal('b'), n: t.number })]),
      gen: (r) => (r.chance(0.5) ? { k: 'a', d: date(r) } : { k: 'b', n: finite(r) }) },
  ];

  /** wire inputs for a leaf: its own encodings, other leaves' encodings, junk */
  const wireOf = (leaf) => (rng) =>
    rng.weighted([
      [5, () => leaf.codec.encode(leaf.gen(rng))],
      [2, () => word(rng)],
      [1, () => String(finite(rng))],
      [1, () => (rng.chance(0.5) ? 'true' : 'on')],
      [1, () => junk(rng)],
    ])();

  const leaf = (l) => ({ ...l, wire: wireOf(l), optional: false });

  const optionalOf = (f) => ({
    ...f,
    label: `optional(${f.label})`,
    codec: h.optional(f.codec),
    base: f.codec,
    optional: true,
    wire: (rng) => (rng.chance(0.2) ? undefined : f.wire(rng)),
  });
  // required on the wire is not needed: missing decodes to a default
  const defaulted = (f, rng) => {
    const d = f.gen(rng);
    return {
      ...f,
      label: `default(${f.label})`,
      codec: T.fromNullable(f.codec, d),
      optional: false,
      defaulted: true,
      wire: (r) => (r.chance(0.3) ? undefined : f.wire(r)),
    };
  };

  const pickField = (rng, section, { allowOptional = true, allowDefault = true } = {}) => {
    const pool = section === 'query' ? stringLeaves.concat(queryOnly) : section === 'body' ? jsonLeaves : stringLeaves;
    let f = leaf(rng.pick(pool));
    if (allowOptional && rng.chance(0.4)) f = optionalOf(f);
    else if (allowDefault && rng.chance(0.08) && !f.codec.is(null)) f = defaulted(f, rng);
    return f;
  };

  return { t, T, E, h, word, finite, date, junk, leaf, optionalOf, defaulted, pickField, stringLeaves, queryOnly, jsonLeaves, WORDS };
};
