'use strict';
const util = require('util');

/** Thrown by a monitor when an observed execution refutes the property. */
class Violation extends Error {
  constructor(message, details, key) {
    super(message);
    this.name = 'Violation';
    this.details = details;
    // identifies *what* fails, for the known-findings file
    this.key = key || message;
  }
}

/** Thrown when a run could not be judged (never a violation). */
class Inconclusive extends Error {}

const show = (v) =>
  util.inspect(v, { depth: 8, breakLength: 120, maxStringLength: 8000, maxArrayLength: 40 });

/** Per-run collection of what the monitors observed. */
class Observations {
  constructor() {
    this.evaluations = 0; // oracle judgements made
    this.counts = {}; // named event counters
    this.distinct = new Set(); // fingerprints of non-trivial observations
    this.samples = [];
  }
  count(name, n = 1) {
    this.counts[name] = (this.counts[name] || 0) + n;
  }
  judged(n = 1) {
    this.evaluations += n;
  }
  nontrivial(fingerprint) {
    if (this.distinct.size < 2000000) this.distinct.add(fingerprint);
  }
  sample(obj) {
    if (this.samples.length < 3) {
      this.samples.push(typeof obj === 'string' ? obj : show(obj).slice(0, 1500));
    }
  }
  toJSON() {
    return {
      evaluations: this.evaluations,
      counts: this.counts,
      distinct: [...this.distinct],
      samples: this.samples,
    };
  }
  static merge(list) {
    const o = new Observations();
    for (const x of list) {
      o.evaluations += x.evaluations;
      for (const k in x.counts) o.count(k, x.counts[k]);
      for (const d of x.distinct) o.distinct.add(d);
      for (const s of x.samples) if (o.samples.length < 4) o.samples.push(s);
    }
    return o;
  }
}

function assertThat(cond, message, details, key) {
  if (!cond) throw new Violation(message, details, key);
}

function assertEqual(actual, expected, message, details, key) {
  if (!util.isDeepStrictEqual(actual, expected)) {
    throw new Violation(
      message,
      { expected, actual, ...(details || {}) },
      key,
    );
  }
}

module.exports = {
  Violation,
  Inconclusive,
  Observations,
  assertThat,
  assertEqual,
  isEqual: util.isDeepStrictEqual,
  show,
};
