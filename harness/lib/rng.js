'use strict';
// Small seeded PRNG (mulberry32 over a string hash): every random choice of every
// case derives from (VERIF_SEED, property, case index), so a case replays alone.
function hash(str) {
  let h = 2166136261 >>> 0;
  for (let i = 0; i < str.length; i++) {
    h ^= str.charCodeAt(i);
    h = Math.imul(h, 16777619);
  }
  return h >>> 0;
}

class Rng {
  constructor(seed) {
    this.s = hash(String(seed));
    for (let i = 0; i < 4; i++) this.u32();
  }
  u32() {
    this.s = (this.s + 0x6d2b79f5) >>> 0;
    let t = this.s;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return (t ^ (t >>> 14)) >>> 0;
  }
  /** float in [0,1) */
  f() {
    return this.u32() / 4294967296;
  }
  /** integer in [lo, hi] */
  int(lo, hi) {
    return lo + Math.floor(this.f() * (hi - lo + 1));
  }
  chance(p) {
    return this.f() < p;
  }
  pick(arr) {
    return arr[Math.floor(this.f() * arr.length)];
  }
  /** weighted pick: [[weight, value], ...] */
  weighted(pairs) {
    let total = 0;
    for (const [w] of pairs) total += w;
    let x = this.f() * total;
    for (const [w, v] of pairs) {
      x -= w;
      if (x < 0) return v;
    }
    return pairs[pairs.length - 1][1];
  }
  shuffle(arr) {
    const a = arr.slice();
    for (let i = a.length - 1; i > 0; i--) {
      const j = this.int(0, i);
      [a[i], a[j]] = [a[j], a[i]];
    }
    return a;
  }
  sample(arr, n) {
    return this.shuffle(arr).slice(0, n);
  }
  fork(label) {
    return new Rng(this.u32() + ':' + label);
  }
}

module.exports = { Rng, hash };
