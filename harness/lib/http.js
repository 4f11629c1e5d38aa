'use strict';
// A loopback server whose application can be swapped per case, a raw HTTP client and
// logical-time hang detection.  Everything is observed at the wire and at the boundary
// of user-supplied callbacks, never inside the code under test.
const http = require('http');
const { Violation } = require('./mon');

class Lab {
  constructor() {
    this.app = null;
    this.activity = 0; // bumped by every monitored event
    this.busy = 0; // injected delays still pending
    this.seen = []; // raw requests seen by the server
    this.server = http.createServer((req, res) => {
      this.activity++;
      const rec = { method: req.method, url: req.url, headers: req.headers, ends: 0, finished: false };
      this.seen.push(rec);
      res.on('finish', () => {
        rec.finished = true;
        rec.status = res.statusCode;
        this.activity++;
      });
      res.on('close', () => {
        rec.closed = true;
        this.activity++;
      });
      this.app(req, res);
    });
    // wall-clock limits must not turn a slow machine into broken connections
    for (const k of ['keepAliveTimeout', 'headersTimeout', 'requestTimeout', 'timeout']) this.server[k] = 0;
    this.agent = new http.Agent({ keepAlive: true, maxSockets: 64 });
  }
  async start() {
    await new Promise((r) => this.server.listen(0, '127.0.0.1', r));
    this.port = this.server.address().port;
    this.base = `http://127.0.0.1:${this.port}`;
  }
  stop() {
    this.agent.destroy();
    this.server.close();
    this.server.closeAllConnections();
  }
  touch() {
    this.activity++;
  }
  /** an injected delay of a number of event-loop turns (logical time) */
  async delay(turns) {
    this.busy++;
    try {
      for (let i = 0; i < turns; i++) await new Promise((r) => setImmediate(r));
    } finally {
      this.busy--;
      this.activity++;
    }
  }
  /**
   * Waits until `size` callers wait for the same thing (or nobody came for some turns) and
   * then lets all of them continue in the same turn of the event loop.
   */
  async together(key, size) {
    this.gates = this.gates || new Map();
    let g = this.gates.get(key);
    if (!g) {
      g = { n: 0 };
      g.open = new Promise((r) => (g.release = r));
      this.gates.set(key, g);
      this.delay(6).then(() => {
        if (this.gates.get(key) === g) this.gates.delete(key);
        g.release();
      });
    }
    this.busy++;
    g.n++;
    if (g.n >= size) {
      this.gates.delete(key);
      g.release();
    }
    await g.open;
    this.busy--;
    this.activity++;
  }
  /** waits until no injected delay is pending and nothing monitored happened for some turns */
  async idle(turns = 6) {
    for (let quiet = 0, last = this.activity; quiet < turns; ) {
      await new Promise((r) => setImmediate(r));
      if (this.busy > 0 || this.activity !== last) quiet = 0;
      else quiet++;
      last = this.activity;
    }
  }
  /** raw request; resolves {status, headers, text, json} */
  request({ method = 'GET', path = '/', headers = {}, body } = {}) {
    return new Promise((resolve, reject) => {
      const h = { ...headers };
      let data;
      if (body !== undefined) {
        data = Buffer.from(body);
        if (!Object.keys(h).some((k) => k.toLowerCase() === 'content-type')) h['content-type'] = 'application/json';
        h['content-length'] = data.length;
      }
      const req = http.request(
        { host: '127.0.0.1', port: this.port, method, path, headers: h, agent: this.agent },
        (res) => {
          const chunks = [];
          res.on('data', (c) => chunks.push(c));
          res.on('end', () => {
            this.activity++;
            const text = Buffer.concat(chunks).toString('utf8');
            let json;
            try {
              json = JSON.parse(text);
            } catch (e) {
              json = undefined;
            }
            resolve({ status: res.statusCode, headers: res.headers, text, json, raw: res.rawHeaders });
          });
          res.on('error', reject);
        },
      );
      req.on('error', reject);
      if (data) req.write(data);
      req.end();
    });
  }
  /**
   * Waits for a promise.  If the whole process stays without any monitored activity and
   * without pending injected delays for thousands of event-loop turns (and, so that
   * kernel socket latency cannot matter, several seconds), the awaited thing cannot
   * happen any more: nothing is left that could make it happen.
   */
  async settle(promise, what, details) {
    let done = false;
    const p = Promise.resolve(promise).finally(() => {
      done = true;
    });
    p.catch(() => {});
    let last = this.activity;
    let turns = 0;
    let since = process.hrtime.bigint();
    for (;;) {
      if (done) return p;
      // first cheap turns, then short sleeps
      if (turns < 200) await new Promise((r) => setImmediate(r));
      else await Promise.race([p.catch(() => {}), new Promise((r) => setTimeout(r, 2))]);
      turns++;
      if (this.activity !== last || this.busy > 0) {
        last = this.activity;
        turns = 0;
        since = process.hrtime.bigint();
      } else if (turns > 1200 && Number(process.hrtime.bigint() - since) / 1e9 > 4) {
        throw new Violation(what || 'a request was never answered', details, 'never-settles');
      }
    }
  }
}

/** qs-style query string as the generated clients produce it */
const enc = encodeURIComponent;
function queryString(q, rng) {
  const parts = [];
  for (const k of Object.keys(q)) {
    const v = q[k];
    if (Array.isArray(v)) {
      const repeat = rng && v.length > 1 && rng.chance(0.3);
      v.forEach((x, i) => parts.push(repeat ? `${enc(k)}=${enc(x)}` : `${enc(k)}[${i}]=${enc(x)}`));
    } else parts.push(`${enc(k)}=${enc(v)}`);
  }
  return parts.length ? '?' + parts.join('&') : '';
}

module.exports = { Lab, queryString };
