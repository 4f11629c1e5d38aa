'use strict';
// A document up to the names of its components: they are numbered in the order in which
// the operations, taken by path and method, lead to them.
function canonical(doc, opts = {}) {
  const comps = (doc.components && doc.components.schemas) || {};
  const num = new Map();
  const queue = [];
  const P = '#/components/schemas/';
  const walk = (v, sort) => {
    if (Array.isArray(v)) return v.map((x) => walk(x, sort));
    if (v && typeof v === 'object') {
      const out = {};
      const keys = Object.keys(v);
      if (opts.anyOrder) keys.sort();
      for (const k of keys) {
        if (k === '$ref' && typeof v[k] === 'string' && v[k].startsWith(P)) {
          const n = v[k].slice(P.length);
          if (!num.has(n)) {
            num.set(n, num.size);
            queue.push(n);
          }
          out[k] = P + num.get(n);
        } else out[k] = walk(v[k], sort);
      }
      return out;
    }
    return v;
  };
  const rest = { ...doc, components: undefined, paths: undefined };
  const paths = {};
  const ps = Object.keys(doc.paths);
  if (opts.anyOrder) ps.sort();
  for (const p of ps) paths[p] = walk(doc.paths[p]);
  const schemas = [];
  while (queue.length) {
    const n = queue.shift();
    const c = comps[n];
    const x = walk(c === undefined ? { missing: n } : c);
    if (x && x.title === n) x.title = '(its name)';
    if (x && x.allOf) x.allOf = x.allOf.map((y) => (y && y.title === n ? { ...y, title: '(its name)' } : y));
    schemas.push(x);
  }
  const unreached = Object.keys(comps).filter((n) => !num.has(n)).length;
  return JSON.stringify({ rest, paths, schemas, unreached }, null, 1);
}
module.exports = { canonical };
