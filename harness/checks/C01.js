'use strict';
const { assertThat, assertEqual, Violation, show } = require('../lib/mon');
const { deepFreeze, deepClone } = require('../lib/freeze');

module.exports = {
  packages: ['io-ts-http'],
  cases: { quick: 40000, thorough: 400000 },
  rule:
    'Random request shapes (httpRequest and flattened; 0-4 properties in each of params/query/headers/body drawn from 40+ codecs, optional and defaulted ones included) with random valid flat values (absent, explicit-undefined, falsy, unicode, Date/bigint). Non-trivial: at least two sections with a defined property; fingerprint = section -> codec labels present.',
  mustObserve: ['encode', 'results kept', 'roundtrip', 'explicit-undefined value', 'undeclared extra', 'flattened', 'json roundtrip', 'recognised', 'not recognised'],
  init(env) {
    const C = require('../lib/codecs')(env.B);
    const M = require('../lib/model')(C);
    const R = require('../lib/requests')(C, M);
    Object.assign(env, { C, M, R });
  },
  run(env, rng) {
    const { C, M, R, obs } = env;
    const { h } = C;
    const useFlattened = rng.chance(0.2);
    const want = useFlattened ? rng.sample(['first', 'second', 'meta', 'body', 'third'], rng.int(1, 4)) : null;
    const secs = R.sections(rng, { odd: true, want });
    const declared = useFlattened ? secs : R.withImplicit(secs);
    const name = rng.chance(0.3) ? 'Req' : undefined;
    const codec = useFlattened ? h.flattened('F', R.props(secs)) : h.httpRequest(R.props(secs), name);
    const v = R.value(rng, secs);
    // another codec, often of the same name, used before or after: codecs share nothing
    const secs2 = R.sections(rng, { odd: true, want });
    const codec2 = useFlattened ? h.flattened('F', R.props(secs2)) : h.httpRequest(R.props(secs2), name);
    const useOther = () => {
      const w = R.value(rng, secs2);
      let e2;
      try {
        e2 = codec2.encode(deepFreeze(w));
      } catch (e) {
        throw new Violation('encoding a valid request value threw', { shape: R.describe(secs2), value: w, usedBeside: R.describe(secs), error: String(e) }, 'encode-throws');
      }
      const want2 = M.nested(useFlattened ? secs2 : R.withImplicit(secs2)).encode(w);
      assertEqual(e2, want2, 'encoded request puts properties in the wrong place or with the wrong value', { shape: R.describe(secs2), value: w, usedBeside: R.describe(secs) }, 'placement');
    };
    const first = rng.chance(0.5);
    if (first) useOther();
    const where = { shape: R.describe(secs), value: v, kind: useFlattened ? 'flattened' : 'httpRequest' };
    const input = deepClone(v);
    const extra = rng.chance(0.3);
    if (extra) {
      input['undeclared_' + rng.int(0, 9)] = C.junk(rng) ?? 'junk';
      obs.count('undeclared extra');
    }
    if (Object.values(v).includes(undefined)) obs.count('explicit-undefined value');
    if (useFlattened) obs.count('flattened');
    deepFreeze(input);
    const before = deepClone(input);

    let enc;
    try {
      enc = codec.encode(input);
    } catch (e) {
      throw new Violation('encoding a valid request value threw', { ...where, error: String(e) }, 'encode-throws');
    }
    obs.judged();
    obs.count('encode');
    assertEqual(input, before, 'encoding changed its input', where, 'encode-mutates');
    assertThat(codec.is(input), 'a valid flat value is not recognised by the request codec', where, 'is-false');
    // recognised exactly when every declared property is
    const fields = Object.assign({}, ...Object.values(secs));
    if (Object.keys(fields).length) {
      const cand = { ...input };
      const k = rng.pick(Object.keys(fields));
      if (rng.chance(0.2)) delete cand[k];
      else cand[k] = rng.chance(0.5) ? C.junk(rng) : rng.pick(Object.values(fields)).gen(rng);
      const isWant = Object.keys(fields).every((q) => fields[q].codec.is(cand[q]));
      obs.judged();
      obs.count(isWant ? 'recognised' : 'not recognised');
      assertThat(codec.is(deepFreeze(cand)) === isWant, 'a request value is not recognised exactly when all its properties are', { ...where, input: cand, want: isWant }, 'is-differs');
    }
    const expected = M.nested(declared).encode(v);
    assertEqual(
      Object.keys(enc).sort(),
      Object.keys(expected).sort(),
      'encoded request has the wrong set of sections',
      where,
      'sections',
    );
    assertEqual(enc, expected, 'encoded request puts properties in the wrong place or with the wrong value', where, 'placement');
    for (const s of ['params', 'query', 'headers']) {
      if (useFlattened || !enc[s]) continue;
      for (const k of Object.keys(enc[s])) {
        const w = enc[s][k];
        assertThat(
          typeof w === 'string' || (Array.isArray(w) && w.every((x) => typeof x === 'string')),
          'encoded params/query/headers value is not a string (list)',
          { ...where, section: s, key: k, got: w },
          'non-string',
        );
      }
    }
    const back = codec.decode(enc);
    const expectBack = R.dropUndefined(v);
    obs.judged();
    obs.count('roundtrip');
    assertThat(back._tag === 'Right', 'a request encoded by the codec is rejected by the same codec', { ...where, encoded: enc, got: show(back) }, 'rt-rejects');
    assertEqual(back.right, expectBack, 'decode(encode(v)) differs from v', { ...where, encoded: enc }, 'rt-differs');
    let json;
    try {
      json = JSON.parse(JSON.stringify(enc));
    } catch (e) {
      throw new Violation('encoded request is not JSON', { ...where, error: String(e) }, 'not-json');
    }
    const back2 = codec.decode(json);
    obs.judged();
    obs.count('json roundtrip');
    assertThat(back2._tag === 'Right', 'a JSON-transported request is rejected', { ...where, json }, 'rt-json-rejects');
    assertEqual(back2.right, expectBack, 'decode(JSON(encode(v))) differs from v', { ...where, json }, 'rt-json-differs');
    // results belong to the caller: later uses of any codec leave them alone
    if (!first) useOther();
    const v2 = R.value(rng, secs);
    const enc2 = codec.encode(deepFreeze(deepClone(v2)));
    codec.decode(deepFreeze(deepClone(enc2)));
    obs.count('results kept');
    obs.judged();
    assertEqual(enc2, M.nested(declared).encode(v2), 'a later encoding puts properties in the wrong place or with the wrong value', { ...where, second: v2 }, 'placement');
    assertEqual(enc, expected, 'an earlier encoding changed when something else was encoded or decoded', { ...where, second: v2 }, 'result-changed');
    assertEqual(back.right, expectBack, 'an earlier decoding changed when something else was encoded or decoded', { ...where, second: v2 }, 'result-changed');
    const used = Object.keys(secs).filter((s) => Object.keys(secs[s]).some((k) => v[k] !== undefined));
    if (used.length >= 2) {
      obs.nontrivial(used.map((s) => s + ':' + Object.keys(secs[s]).map((k) => secs[s][k].label).sort().join(',')).join(';'));
      obs.sample({ shape: where.shape, value: v, encoded: enc });
    }
  },
};
