'use strict';
const { assertThat, assertEqual, Violation } = require('../lib/mon');
const { deepFreeze, deepClone } = require('../lib/freeze');

module.exports = {
  packages: ['io-ts-http'],
  cases: { quick: 40000, thorough: 800000 },
  rule:
    'Random optionalized codecs (0-6 properties; leaves, optional, unknown/any/undefined/void, defaulting, Option, nested optionalized, arrays and unions of them, exact and intersections around them) applied to random objects: missing, explicit undefined, null, falsy, junk, frozen. Oracle: independent object model over leaf codecs. Fingerprint = property kinds with per-property verdicts.',
  mustObserve: ['decode accepted', 'decode rejected', 'encode', 'explicit undefined in', 'nested', 'falsy kept', 'frozen'],
  init(env) {
    const C = require('../lib/codecs')(env.B);
    const M = require('../lib/model')(C);
    Object.assign(env, { C, M });
  },
  run(env, rng) {
    const { C, M, obs } = env;
    const { h, t, T } = C;

    const special = [
      { label: 'undefined', codec: t.undefined, gen: () => undefined, wire: (r) => (r.chance(0.7) ? undefined : C.junk(r)) },
      { label: 'void', codec: t.void, gen: () => undefined, wire: (r) => (r.chance(0.7) ? undefined : C.junk(r)) },
      { label: 'unknown', codec: t.unknown, gen: (r) => C.junk(r), wire: (r) => C.junk(r) },
      { label: 'any', codec: t.any, gen: (r) => C.junk(r), wire: (r) => C.junk(r) },
      { label: 'string|null|undefined', codec: t.union([t.string, t.null, t.undefined]), gen: (r) => r.pick(['', 's', null, undefined]), wire: (r) => r.pick(['', 's', null, undefined, 4]) },
      { label: 'undefined|Date', codec: t.union([t.undefined, T.DateFromISOString]), gen: (r) => (r.chance(0.3) ? undefined : C.date(r)), wire: (r) => (r.chance(0.5) ? undefined : r.chance(0.7) ? C.date(r).toISOString() : C.junk(r)) },
      { label: 'Option', codec: T.optionFromNullable(t.string), gen: (r) => (r.chance(0.5) ? { _tag: 'None' } : { _tag: 'Some', value: C.word(r) }), wire: (r) => r.pick([undefined, null, 'x', 3]) },
    ];
    let depth = 0;
    const makeProps = (rng) => {
      const props = {};
      const names = rng.sample(['a', 'b', 'c', 'd', 'e', 'foo', 'length', 'name', '0', 'k-x', 'ü'], rng.int(0, 6));
      for (const n of names) props[n] = makeField(rng);
      return props;
    };
    const makeObject = (rng) => {
      depth++;
      const props = makeProps(rng);
      depth--;
      const codecs = {};
      for (const k of Object.keys(props)) codecs[k] = props[k].codec;
      const codec = h.optionalized(codecs, rng.chance(0.2) ? 'Name' : undefined);
      const model = M.object(props);
      const gen = (r) => {
        const v = {};
        for (const k of Object.keys(props)) {
          const f = props[k];
          if (M.isOptional(f) && r.chance(0.45)) {
            if (r.chance(0.5)) v[k] = undefined;
            continue;
          }
          v[k] = f.gen(r);
        }
        return v;
      };
      const wire = (r) => {
        if (r.chance(0.04)) return C.junk(r);
        const o = {};
        const nice = r.chance(0.6);
        for (const k of Object.keys(props)) {
          const f = props[k];
          const opt = M.isOptional(f);
          if (r.chance(opt ? 0.3 : nice ? 0.01 : 0.08)) continue;
          if (r.chance(opt ? 0.25 : 0.01)) {
            o[k] = undefined;
            continue;
          }
          o[k] = nice && r.chance(0.95) ? M.fieldEncode(f, f.gen(r)) : f.wire(r);
        }
        if (r.chance(0.2)) o['extra'] = r.pick([1, null, 'x', undefined]);
        return o;
      };
      return { label: '{' + Object.keys(props).map((k) => k + ':' + props[k].label).join(',') + '}', codec, model, gen, wire, props };
    };
    const makeField = (rng) => {
      if (depth < 3 && rng.chance(0.18)) {
        obs.count('nested');
        const o = makeObject(rng);
        return rng.weighted([
          [3, () => o],
          [2, () => ({ ...o, label: `optional(${o.label})`, codec: h.optional(o.codec), optional: true,
            model: {
              decode: (x) => { const r = o.model.decode(x); return r.ok ? r : x === undefined ? { ok: true, v: undefined } : r; },
              encode: (v) => (v === undefined ? undefined : o.model.encode(v)),
              is: (v) => v === undefined || o.model.is(v),
            },
            gen: (r) => o.gen(r), wire: (r) => (r.chance(0.2) ? undefined : o.wire(r)) })],
          [2, () => ({ label: `array(${o.label})`, codec: t.array(o.codec),
            model: {
              decode: (x) => {
                if (!Array.isArray(x)) return { ok: false };
                const rs = x.map((y) => o.model.decode(y));
                return rs.every((r) => r.ok) ? { ok: true, v: rs.map((r) => r.v) } : { ok: false };
              },
              encode: (v) => v.map((y) => o.model.encode(y)),
              is: (v) => Array.isArray(v) && v.every((y) => o.model.is(y)),
            },
            gen: (r) => Array.from({ length: r.int(0, 3) }, () => o.gen(r)),
            wire: (r) => (r.chance(0.05) ? C.junk(r) : Array.from({ length: r.int(0, 3) }, () => o.wire(r))) })],
          [1, () => ({ ...o, label: `type{in:${o.label}}`, codec: t.type({ in: o.codec }),
            model: {
              decode: (x) => {
                if (!M.isRecord(x)) return { ok: false };
                const r = o.model.decode(x.in);
                return r.ok ? { ok: true, v: { ...x, in: r.v } } : r;
              },
              encode: (v) => ({ ...v, in: o.model.encode(v.in) }),
              is: (v) => M.isRecord(v) && o.model.is(v.in),
            },
            gen: (r) => ({ in: o.gen(r) }), wire: (r) => ({ in: o.wire(r) }) })],
        ])();
      }
      if (rng.chance(0.2)) return { ...rng.pick(special) };
      return C.pickField(rng, 'body', { allowDefault: true });
    };

    const top = makeObject(rng);
    const { codec, model, props } = top;
    const where = { codec: top.label };
    const noUndefined = (v, path) => {
      for (const k of Object.keys(props)) {
        if (M.isOptional(props[k]) && Object.prototype.hasOwnProperty.call(v, k) && v[k] === undefined) {
          throw new Violation(`${path} carries an optional property that is undefined`, { ...where, property: k, got: v }, 'explicit-undefined');
        }
      }
    };
    const declaredOnly = (v) => {
      const o = {};
      for (const k of Object.keys(v)) if (Object.prototype.hasOwnProperty.call(props, k)) o[k] = v[k];
      return o;
    };
    let verdicts = '';
    const kept = [];

    for (let i = 0; i < 2; i++) {
      const x = deepFreeze(top.wire(rng));
      const before = deepClone(x);
      let got;
      try {
        got = codec.decode(x);
      } catch (e) {
        throw new Violation('decoding threw', { ...where, input: x, error: String(e && e.stack) }, 'decode-throws');
      }
      obs.judged();
      obs.count('frozen');
      assertEqual(x, before, 'decoding changed its input', { ...where }, 'decode-mutates');
      const want = model.decode(x);
      obs.count(want.ok ? 'decode accepted' : 'decode rejected');
      if (M.isRecord(x) && Object.values(x).includes(undefined)) obs.count('explicit undefined in');
      assertThat((got._tag === 'Right') === want.ok,
        want.ok ? 'an object with valid properties was rejected' : 'an object with an invalid property was accepted',
        { ...where, input: x, got, bad: want.bad }, want.ok ? 'rejects-valid' : 'accepts-invalid');
      if (want.ok) {
        noUndefined(got.right, 'the decoded object');
        assertEqual(declaredOnly(got.right), declaredOnly(want.v), 'decoded properties differ from decoding each property alone', { ...where, input: x }, 'decode-differs');
        if (Object.values(declaredOnly(want.v)).some((y) => y === null || y === '' || y === 0 || y === false)) obs.count('falsy kept');
        assertThat(codec.is(got.right), 'a decoded object is not recognised by its own codec', { ...where, input: x, got }, 'is-false');
      }
      if (want.ok) kept.push([got.right, deepClone(got.right)]);
      verdicts += want.ok ? '+' : '-' + (want.bad || []).length;
    }
    // recognition
    const cand = rng.chance(0.5) ? top.gen(rng) : top.wire(rng);
    const isGot = codec.is(cand);
    obs.judged();
    assertThat(isGot === model.is(cand), 'recognition (is) disagrees with the per-property codecs', { ...where, input: cand, got: isGot, want: model.is(cand) }, 'is-differs');
    // encoding
    const v = deepFreeze(top.gen(rng));
    const beforeV = deepClone(v);
    let e1;
    try {
      e1 = codec.encode(v);
    } catch (e) {
      throw new Violation('encoding threw', { ...where, input: v, error: String(e && e.stack) }, 'encode-throws');
    }
    obs.judged();
    obs.count('encode');
    assertEqual(v, beforeV, 'encoding changed its input', where, 'encode-mutates');
    noUndefined(e1, 'the encoded object');
    assertEqual(declaredOnly(e1), declaredOnly(model.encode(v)), 'encoded properties differ from encoding each property alone', { ...where, input: v }, 'encode-differs');
    kept.push([e1, deepClone(e1)]);
    codec.encode(deepFreeze(top.gen(rng)));
    codec.decode(deepFreeze(top.wire(rng)));
    for (const [r, snap] of kept) assertEqual(r, snap, 'an earlier result changed when the codec was used again', where, 'result-changed');
    if (Object.keys(props).length >= 2) {
      obs.nontrivial(top.label.slice(0, 300) + verdicts);
      if (rng.chance(0.002)) obs.sample({ codec: top.label, value: v, encoded: e1 });
    }
  },
};
