'use strict';
const { assertThat, assertEqual, Violation } = require('../lib/mon');
const { Lab } = require('../lib/http');
const { deepFreeze } = require('../lib/freeze');
const REF = require('../lib/statuses');

const bodyless = (s) => s === 204 || s === 304;

module.exports = {
  packages: ['io-ts-http', 'response', 'typed-express-router', 'express-wrapper'],
  shards: 1,
  cases: { quick: 3, thorough: 60 },
  rule:
    'Exhaustive over every status known to the library (reference table written independently): both tables, every constructor of both packages with random payloads, and every non-1xx status sent by name and by number through both server packages over a real socket. Fingerprint = (surface, status).',
  mustObserve: ['table entries', 'constructors', 'wire by name', 'wire by number', 'wire express-wrapper'],
  async init(env) {
    env.C = require('../lib/codecs')(env.B);
    env.lab = new Lab();
    await env.lab.start();
  },
  finish(env) {
    env.lab.stop();
  },
  async run(env, rng) {
    const { C, obs, lab } = env;
    const { h, t } = C;
    const resp = env.B.load('response');
    const ter = env.B.load('typed-express-router');
    const xw = env.B.load('express-wrapper');
    const express = env.B.dep('express');
    const toKey = h.HttpToKeyStatus;
    const toHttp = h.KeyToHttpStatus;

    // --- tables
    for (const name of Object.keys(REF)) {
      obs.judged();
      obs.count('table entries');
      obs.nontrivial('table:' + name);
      assertThat(toHttp[name] === REF[name], 'a status name has the wrong number', { name, got: toHttp[name], want: REF[name] }, 'num:' + name);
      assertThat(toKey[REF[name]] === name, 'a status number has the wrong name', { status: REF[name], got: toKey[REF[name]], want: name }, 'name:' + name);
    }
    for (const name of Object.keys(toHttp)) {
      assertThat(toKey[toHttp[name]] === name, 'name -> number -> name is not the identity', { name, number: toHttp[name], back: toKey[toHttp[name]] }, 'inv:' + name);
    }
    for (const num of Object.keys(toKey)) {
      assertThat(String(toHttp[toKey[num]]) === num, 'number -> name -> number is not the identity', { num, name: toKey[num], back: toHttp[toKey[num]] }, 'inv:' + num);
    }

    // --- constructors
    const payloads = () => deepFreeze(rng.pick([undefined, null, 0, '', false, { a: [C.junk(rng)] }, [1], C.word(rng)]));
    const tables = [
      ['io-ts-http Response', h.Response, (n) => REF[n]],
      ['response Response', resp.Response, (n) => REF[n]],
      ['response KeyedResponse', resp.KeyedResponse, (n) => n],
    ];
    for (const [label, table, type] of tables) {
      for (const name of new Set([...Object.keys(REF), ...Object.keys(table)])) {
        const payload = payloads();
        obs.judged();
        obs.count('constructors');
        obs.nontrivial(label + ':' + name);
        assertThat(typeof table[name] === 'function', 'a status has no constructor', { label, name }, 'ctor:' + name);
        const want = { type: type(name) ?? toHttp[name], payload };
        const got = table[name](payload);
        assertEqual(got, want, 'a response constructor produced the wrong response', { label, name }, 'ctor:' + label + name);
        assertThat(got.payload === payload, 'a response constructor replaced the payload', { label, name }, 'ctor-id:' + label + name);
      }
    }

    // --- the wire
    const codes = Object.keys(REF).filter((n) => REF[n] >= 200);
    const responseNum = Object.fromEntries(codes.map((n) => [REF[n], t.type({ v: t.string })]));
    const responseKey = Object.fromEntries(codes.map((n) => [n, t.type({ v: t.string })]));
    const mk = (path, response) => ({ get: h.httpRoute({ path, method: 'GET', request: h.httpRequest({ query: { n: t.string } }), response }) });
    const spec = h.apiSpec({ num: mk('/num', responseNum), key: mk('/key', responseKey) });
    const router = ter.createRouter(spec);
    const v = 'p' + rng.int(0, 1e6);
    router.get('num', [(req, res) => res.sendEncoded(REF[req.decoded.n], { v })]);
    router.get('key', [(req, res) => res.sendEncoded(req.decoded.n, { v })]);
    const xspec = h.apiSpec({ xnum: mk('/xnum', responseNum), xkey: mk('/xkey', responseNum) });
    const xapp = xw.createServer(xspec, () => ({
      xnum: { get: ({ n }) => resp.Response[n]({ v }) },
      xkey: { get: ({ n }) => resp.KeyedResponse[n]({ v }) },
    }));
    const app = express();
    app.use(router);
    app.use(xapp);
    lab.app = app;
    for (const n of rng.shuffle(codes)) {
      for (const path of ['/num', '/key', '/xnum', '/xkey']) {
        const r = await lab.settle(lab.request({ path: `${path}?n=${n}` }), 'a typed response was never sent', { path, n });
        obs.judged();
        obs.count(path === '/num' ? 'wire by number' : path === '/key' ? 'wire by name' : 'wire express-wrapper');
        obs.nontrivial(path + ':' + n);
        assertThat(r.status === REF[n], 'a status was sent with the wrong code', { path, status: n, want: REF[n], got: r.status, body: r.text }, 'wire:' + path + n);
        if (!bodyless(REF[n]) && REF[n] !== 205) {
          assertEqual(r.json, { v }, 'a response carries the wrong payload', { path, status: n, body: r.text }, 'wire-body:' + path + n);
        }
      }
    }
    obs.sample({ statuses: codes.length, sent: codes.length * 4 });
  },
};
