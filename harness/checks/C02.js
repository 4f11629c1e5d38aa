'use strict';
const { assertThat, assertEqual, Violation, show } = require('../lib/mon');
const { deepFreeze, deepClone } = require('../lib/freeze');

module.exports = {
  packages: ['io-ts-http'],
  cases: { quick: 50000, thorough: 500000 },
  rule:
    'Random request shapes decoded from random incoming requests: per property a valid wire form, a near miss or junk; undeclared keys (also ones whose name is declared in another section); missing, null, array or scalar sections. Oracle: independent per-property model. Non-trivial: at least one declared property; fingerprint = verdict + per-section (codec label, accepted?).',
  mustObserve: ['accepted', 'second request', 'rejected', 'foreign key in section', 'hostile section', 'undeclared section'],
  init(env) {
    const C = require('../lib/codecs')(env.B);
    const M = require('../lib/model')(C);
    const R = require('../lib/requests')(C, M);
    Object.assign(env, { C, M, R });
  },
  run(env, rng) {
    const { C, M, R, obs } = env;
    const secs = R.sections(rng, { odd: true });
    const declared = R.withImplicit(secs);
    const codec = C.h.httpRequest(R.props(secs));
    const allNames = Object.values(secs).flatMap((f) => Object.keys(f));
    const makeInput = () => {
      const good = rng.chance(0.5); // mostly-valid vs hostile
      const input = {};
      for (const s of ['query', 'params', 'headers', 'body']) {
        if (!declared[s]) {
          if (rng.chance(0.5)) {
            input[s] = rng.chance(0.5) ? C.junk(rng) : Object.fromEntries(allNames.map((n) => [n, C.word(rng)]));
            obs.count('undeclared section');
          }
          continue;
        }
        if (rng.chance(good ? 0.01 : 0.08)) {
          obs.count('hostile section');
          const j = rng.pick([undefined, null, [], ['x'], 'text', 0, 5, true, new Date(0), () => 1]);
          if (!rng.chance(0.2)) input[s] = j;
          continue;
        }
        const o = rng.chance(0.2) ? Object.create(null) : {};
        for (const k of Object.keys(declared[s])) {
          const f = declared[s][k];
          if (rng.chance(good ? 0.02 : 0.1)) continue; // missing
          const w = good && rng.chance(0.93)
            ? f.optional && rng.chance(0.3) ? undefined : f.codec.encode(f.gen(rng))
            : f.wire(rng);
          o[k] = w;
        }
        if (rng.chance(0.4)) o['zz_' + rng.int(0, 9)] = C.junk(rng);
        // keys that belong to another section must not leak in from here
        for (const n of allNames) {
          if (!Object.prototype.hasOwnProperty.call(declared[s], n) && rng.chance(0.15)) {
            o[n] = rng.chance(0.5) ? 'LEAK' : C.junk(rng);
            obs.count('foreign key in section');
          }
        }
        input[s] = o;
      }
      if (rng.chance(0.2)) input.cookies = { a: 1 };
      return input;
    };
    const input = makeInput();
    deepFreeze(input);
    const before = deepClone(input);
    const where = { shape: R.describe(secs), input };
    let got;
    try {
      got = codec.decode(input);
    } catch (e) {
      throw new Violation('decoding a request threw', { ...where, error: String(e && e.stack) }, 'decode-throws');
    }
    obs.judged();
    assertEqual(input, before, 'decoding changed its input', where, 'decode-mutates');
    const want = M.nested(declared).decode(input);
    obs.count(want.ok ? 'accepted' : 'rejected');
    if (want.ok) {
      assertThat(got._tag === 'Right', 'a request whose every declared property is valid was rejected', { ...where, got }, 'rejects-valid');
      assertEqual(got.right, want.v, 'the decoded request differs from its per-property decoding', where, 'decoded-differs');
      assertThat(codec.is(got.right), 'a decoded request is not recognised by its own codec', { ...where, got }, 'is-false');
    } else {
      assertThat(got._tag === 'Left', 'a request with an invalid declared property was accepted', { ...where, bad: want.bad, got }, 'accepts-invalid');
      assertThat(Array.isArray(got.left) && got.left.length > 0, 'rejection without any error', { ...where, got }, 'no-errors');
      for (const b of want.bad) {
        const named = got.left.some((err) => {
          const keys = err.context.map((c) => c.key);
          let at = 0;
          for (const k of keys) if (k === b[at]) at++;
          return at >= b.length;
        });
        assertThat(named, 'no reported error names an offending property', { ...where, offending: b, errors: got.left.map((e) => show(e.context.map((c) => c.key))) }, 'unnamed');
      }
    }
    obs.judged();
    // each request is judged on its own: others change neither its result nor its verdict
    if (rng.chance(0.5)) {
      obs.count('second request');
      const other = deepFreeze(makeInput());
      const otherWant = M.nested(declared).decode(other);
      const otherGot = codec.decode(other);
      const both = { ...where, second: other };
      assertThat((otherGot._tag === 'Right') === otherWant.ok, 'a later request is judged differently', both, otherWant.ok ? 'rejects-valid' : 'accepts-invalid');
      if (otherWant.ok) assertEqual(otherGot.right, otherWant.v, 'a later decoded request differs from its per-property decoding', both, 'decoded-differs');
      if (want.ok) assertEqual(got.right, want.v, 'an earlier decoded request changed when another one was decoded', both, 'result-changed');
      const again = codec.decode(input);
      assertThat(again._tag === got._tag, 'decoding the same request again gives another verdict', both, 'verdict-changed');
      if (want.ok) assertEqual(again.right, want.v, 'decoding the same request again gives another value', both, 'result-changed');
    }
    if (allNames.length) {
      obs.nontrivial(
        (want.ok ? 'R' : 'L') +
          Object.keys(declared).map((s) => s + ':' + Object.keys(declared[s]).map((k) => declared[s][k].label +
            (M.isRecord(input[s]) ? (M.fieldDecode(declared[s][k], input[s][k]).ok ? '+' : '-') : '?')).sort().join(',')).join(';'),
      );
      if (!want.ok && rng.chance(0.01)) obs.sample({ ...where, bad: want.bad });
    }
  },
};
