'use strict';
// Independent reference model of request codecs and of "optionalized" objects.
// A field's own (leaf) codec is the oracle for one property; composition is ours.
module.exports = function makeModel(C) {
  const isRecord = (u) => Object.prototype.toString.call(u) === '[object Object]';
  const own = (o, k) => Object.prototype.hasOwnProperty.call(o, k);

  const fieldDecode = (f, x) => {
    if (f.model) return f.model.decode(x);
    const r = f.codec.decode(x);
    return r._tag === 'Right' ? { ok: true, v: r.right } : { ok: false };
  };
  const fieldEncode = (f, v) => (f.model ? f.model.encode(v) : f.codec.encode(v));
  const fieldIs = (f, v) => (f.model ? f.model.is(v) : f.codec.is(v));
  const isOptional = (f) => fieldIs(f, undefined);

  /** props: {key: field}. exact: undeclared keys dropped */
  const object = (props, { exact = false } = {}) => ({
    props,
    decode(x) {
      if (!isRecord(x)) return { ok: false, bad: [] };
      const bad = [];
      const v = {};
      if (!exact) for (const k of Object.keys(x)) if (!own(props, k) && x[k] !== undefined) v[k] = x[k];
      for (const k of Object.keys(props)) {
        const f = props[k];
        const opt = isOptional(f);
        const raw = x[k];
        const r = fieldDecode(f, raw);
        if (!r.ok) {
          if (!(opt && raw === undefined)) bad.push(k);
          continue;
        }
        if (r.v !== undefined || (!opt && own(x, k))) v[k] = r.v;
      }
      return bad.length ? { ok: false, bad } : { ok: true, v };
    },
    is(x) {
      if (!isRecord(x)) return false;
      return Object.keys(props).every((k) => {
        const f = props[k];
        if (isOptional(f) && x[k] === undefined) return true;
        return own(x, k) && fieldIs(f, x[k]);
      });
    },
    encode(v) {
      const o = {};
      if (!exact) for (const k of Object.keys(v)) if (!own(props, k) && v[k] !== undefined) o[k] = v[k];
      for (const k of Object.keys(props)) {
        if (!own(v, k)) continue;
        const e = fieldEncode(props[k], v[k]);
        if (e !== undefined) o[k] = e;
      }
      return o;
    },
  });

  /** sections: {name: {key: field}} */
  const nested = (sections) => {
    const objs = {};
    for (const s of Object.keys(sections)) objs[s] = object(sections[s], { exact: true });
    return {
      decode(x) {
        if (!isRecord(x)) return { ok: false, bad: [] };
        const bad = [];
        const v = {};
        for (const s of Object.keys(objs)) {
          const r = objs[s].decode(x[s]);
          if (!r.ok) {
            if (r.bad.length) r.bad.forEach((k) => bad.push([s, k]));
            else bad.push([s]);
          } else Object.assign(v, r.v);
        }
        return bad.length ? { ok: false, bad } : { ok: true, v };
      },
      encode(v) {
        const o = {};
        for (const s of Object.keys(objs)) o[s] = objs[s].encode(v);
        return o;
      },
    };
  };

  return { object, nested, isOptional, isRecord, fieldDecode, fieldEncode, fieldIs };
};
