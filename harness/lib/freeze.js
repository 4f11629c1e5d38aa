'use strict';
// Snapshot & freeze helpers: watch that code under test leaves its inputs alone.
function deepFreeze(v, seen = new Set()) {
  if (v === null || typeof v !== 'object' || seen.has(v) || v instanceof Date) return v;
  seen.add(v);
  for (const k of Object.keys(v)) deepFreeze(v[k], seen);
  return Object.freeze(v);
}
function deepClone(v) {
  if (v === null || typeof v !== 'object') return v;
  if (v instanceof Date) return new Date(v.getTime());
  if (Array.isArray(v)) return v.map(deepClone);
  const o = Object.create(Object.getPrototypeOf(v));
  for (const k of Object.keys(v)) Object.defineProperty(o, k, { value: deepClone(v[k]), enumerable: true, writable: true, configurable: true });
  return o;
}
module.exports = { deepFreeze, deepClone };
