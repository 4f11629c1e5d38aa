'use strict';
// Random API specifications with path templates, plus wire-level requests for them.
module.exports = function makeSpecs(C, M, R) {
  const { h, t } = C;
  const METHODS = ['get', 'post', 'put', 'delete', 'patch'];
  const LITS = ['items', 'v1', 'users', 'a.b', 'x-y', 'list_all', '~me', 'A', 'deep', '2024', 'favourites'];
  const PNAMES = ['id', 'id2', 'userId', 'name', 'x', 'key', 'item_id', 'n', 'slug', 'ID'];

  const printable = (rng) =>
    rng.chance(0.06) ? '' : Array.from({ length: rng.int(1, 10) }, () => String.fromCharCode(rng.int(0x21, 0x7e))).join('') +
    (rng.chance(0.2) ? ' x' : '');
  const headerText = (rng, f) => {
    for (;;) {
      const w = printable(rng);
      if (f.codec.is(w)) return w;
    }
  };
  const pathWord = (rng) => {
    for (;;) {
      const w = C.word(rng);
      if (w !== '.' && w !== '..' && w !== '') return w;
    }
  };
  /** string-valued fields of a section need a section-specific value domain */
  const asciiField = (f) => (f.label.includes('string') || f.label.includes('NonEmptyString') || f.label.includes('Prefixed')
    ? { ...f, gen: (r) => (f.label.includes('|') ? f.gen(r) : headerText(r, f)) }
    : f);
  const fixUnion = (f) => (f.label.includes('number|string union') ? { ...f, gen: (r) => (r.chance(0.5) ? C.finite(r) : 'w' + r.int(0, 99)) } : f);
  const pathField = (f) => (/(^|\()(string|NonEmptyString|Prefixed)/.test(f.label) ? { ...f, gen: pathWord } : f);

  /** one operation: {apiName, method, path, segs, secs, request, route} */
  const operation = (rng, i, { response = { 200: t.string }, uniquePrefix = true, bodyChance = 0.5, opts = {}, headersChance = 0.5 } = {}) => {
    const method = rng.pick(METHODS);
    const nParams = rng.weighted([[2, 0], [3, 1], [2, 2], [1, 3]]);
    const names = rng.sample(PNAMES, nParams);
    const segs = uniquePrefix ? [`op${i}`] : [];
    let lits = rng.int(0, 2);
    const ps = names.slice();
    while (ps.length || lits > 0) {
      if (ps.length && (lits === 0 || rng.chance(0.5))) segs.push({ param: ps.pop() });
      else {
        segs.push(rng.pick(LITS));
        lits--;
      }
    }
    if (!segs.length) segs.push('root');
    const slash = rng.chance(0.12) ? '/' : '';
    const path = '/' + segs.map((s) => (s.param ? `{${s.param}}` : s)).join('/') + slash;
    const secs = {};
    if (nParams || rng.chance(0.3)) {
      secs.params = {};
      for (const n of names) secs.params[n] = pathField(fixUnion(C.pickField(rng, 'params', { allowOptional: false, allowDefault: false })));
    }
    const others = rng.shuffle(R.NAMES.filter((n) => !PNAMES.includes(n)));
    if (rng.chance(0.7)) {
      secs.query = {};
      for (let n = rng.int(0, 3); n > 0; n--) secs.query[others.pop()] = C.pickField(rng, 'query', opts);
    }
    if (rng.chance(headersChance)) {
      secs.headers = {};
      for (let n = rng.int(0, 3); n > 0; n--) secs.headers['x-' + others.pop().toLowerCase().replace(/_/g, '-')] = asciiField(fixUnion(C.pickField(rng, 'headers', opts)));
    }
    if (rng.chance(bodyChance)) {
      secs.body = {};
      for (let n = rng.int(0, 4); n > 0; n--) secs.body[others.pop()] = C.pickField(rng, 'body', opts);
    }
    const request = h.httpRequest(R.props(secs));
    const apiName = rng.pick(['api.v1.op', 'op', 'do thing', 'get']) + i;
    const route = h.httpRoute({ path, method: method.toUpperCase(), request, response });
    const model = M.nested(R.withImplicit(secs));
    return { apiName, method, path, slash, segs, secs, request, route, model, describe: () => ({ apiName, method, path, request: R.describe(secs) }) };
  };

  const specOf = (ops) => {
    const s = {};
    for (const o of ops) (s[o.apiName] = s[o.apiName] || {})[o.method] = o.route;
    return h.apiSpec(s);
  };

  /**
   * A wire request for an operation: section objects as the server's parsers will present
   * them (strings, string lists, JSON), some of them deliberately invalid.
   */
  const wireRequest = (rng, op, { invalid = 0.4 } = {}) => {
    const bad = rng.chance(invalid);
    const input = { params: {}, query: {}, headers: {}, body: {} };
    let corrupted = 0;
    for (const s of ['params', 'query', 'headers', 'body']) {
      for (const k of Object.keys(op.secs[s] || {})) {
        const f = op.secs[s][k];
        let w;
        if (f.optional && rng.chance(0.35)) w = undefined;
        else w = f.codec.encode(f.gen(rng));
        if (bad && (corrupted === 0 || rng.chance(0.2)) && rng.chance(0.6)) {
          corrupted++;
          if (s === 'params') w = rng.pick(['zzz', '1', 'not-a-thing', 'true']);
          else if (s === 'headers') w = rng.pick([undefined, 'zzz', '12', 'true']);
          else if (s === 'query') w = rng.pick([undefined, 'zzz', '1.5', '', ['p', 'q']]);
          else w = rng.pick([undefined, null, 0, 'zzz', [], {}, true, [1, 'x'], { a: 1 }]);
        }
        if (w === undefined) continue;
        input[s][k] = w;
      }
    }
    let bodyOverride = false;
    if (op.secs.body && bad && rng.chance(0.1)) {
      input.body = rng.pick([[], [1]]);
      bodyOverride = true;
    }
    if (rng.chance(0.25)) input.query['extra' + rng.int(0, 3)] = 'e';
    if (rng.chance(0.25)) input.headers['x-extra'] = 'e';
    if (!bodyOverride && rng.chance(0.2)) input.body.extraBody = { z: [1] };
    return input;
  };

  const pathFor = (op, params) =>
    '/' + op.segs.map((s) => (s.param ? encodeURIComponent(params[s.param]) : s)).join('/') + (op.slash || '');

  return { METHODS, LITS, PNAMES, operation, specOf, wireRequest, pathFor, printable, pathWord };
};
