'use strict';
// Random request shapes (sections of fields with pairwise distinct names).
module.exports = function makeRequests(C, M) {
  const { h } = C;
  const NAMES = ['id', 'name', 'a', 'b', 'page', 'limit', 'x1', 'userId', 'len', 'data', 'type', 'body', 'query', 'params',
    'headers', 'items', 'value', 'k_9', 'is', 'decode', 'length', 'size', 'key', 'q', 'filter', 'sort', 'from', 'to', 'tag', 'state'];
  const ODD = ['a b', 'ключ', '0', '17', 'x.y', 'x[0]', '$ref', '-', '😀', 'Content-Type', "it's", 'a/b'];

  /** returns {section: {name: field}} with names unique across sections */
  const sections = (rng, { odd = false, want = null, opts = {} } = {}) => {
    const names = rng.shuffle(odd ? NAMES.concat(ODD) : NAMES);
    const out = {};
    const secs = want || ['params', 'query', 'headers', 'body'].filter((s) => rng.chance(s === 'params' || s === 'query' ? 0.75 : 0.6));
    for (const s of secs) {
      out[s] = {};
      for (let n = rng.int(0, 4); n > 0; n--) out[s][names.pop()] = C.pickField(rng, s, opts);
    }
    return out;
  };
  const codecProps = (fields) => {
    const o = {};
    for (const k of Object.keys(fields)) o[k] = fields[k].codec;
    return o;
  };
  const props = (secs) => {
    const o = {};
    for (const s of Object.keys(secs)) o[s] = codecProps(secs[s]);
    return o;
  };
  const describe = (secs) => {
    const o = {};
    for (const s of Object.keys(secs)) {
      o[s] = {};
      for (const k of Object.keys(secs[s])) o[s][k] = secs[s][k].label;
    }
    return o;
  };
  /** a flat valid value; optional ones may be absent or explicitly undefined */
  const value = (rng, secs, { absent = 0.3, explicitUndefined = 0.15 } = {}) => {
    const v = {};
    for (const s of Object.keys(secs))
      for (const k of Object.keys(secs[s])) {
        const f = secs[s][k];
        if (f.optional) {
          const x = rng.f();
          if (x < absent) continue;
          if (x < absent + explicitUndefined) {
            v[k] = undefined;
            continue;
          }
        }
        v[k] = f.gen(rng);
      }
    return v;
  };
  const withImplicit = (secs) => ({ query: {}, params: {}, ...secs });
  const dropUndefined = (v) => {
    const o = {};
    for (const k of Object.keys(v)) if (v[k] !== undefined) o[k] = v[k];
    return o;
  };
  void h;
  void M;
  return { sections, props, codecProps, describe, value, withImplicit, dropUndefined, NAMES, ODD };
};
