'use strict';
// Runs the real command-line tool on generated projects, and the projects themselves.
const fs = require('fs');
const os = require('os');
const path = require('path');
const { spawn } = require('child_process');

module.exports = (B) => {
  const ts = B.dep('typescript');
  const base = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-oa-'));
  fs.symlinkSync(B.nm, path.join(base, 'node_modules'));
  process.on('exit', () => fs.rmSync(base, { recursive: true, force: true }));
  const cli = path.join(B.pkg('openapi-generator'), 'dist', 'src', 'cli.js');
  let n = 0;

  function write(dir, files) {
    for (const [p, text] of Object.entries(files)) {
      const at = path.join(dir, p);
      fs.mkdirSync(path.dirname(at), { recursive: true });
      fs.writeFileSync(at, text);
    }
  }

  /** a scratch directory holding the files; call dispose() when done */
  function project(files, name) {
    const dir = path.join(base, 'p' + n++, ...(name ? [name] : []));
    fs.mkdirSync(dir, { recursive: true });
    write(dir, files);
    return {
      dir,
      dispose: () => fs.rmSync(path.join(base, path.relative(base, dir).split(path.sep)[0]), { recursive: true, force: true }),
    };
  }

  /** run the generator; resolves to {code, signal, out, err, doc} */
  function generate(dir, entry = 'index.ts', args = [], opts = {}) {
    return new Promise((resolve, reject) => {
      // an output that is full, or that nobody reads
      const full = opts.stdout === 'full' ? fs.openSync('/dev/full', 'w') : undefined;
      const p = spawn(process.execPath, [cli, ...(opts.argv || [entry, ...args])], {
        cwd: opts.cwd || dir,
        env: { ...process.env, NODE_OPTIONS: '', VERIF_WORKER: '', ...(opts.env || {}) },
        stdio: ['ignore', full !== undefined ? full : 'pipe', 'pipe'],
      });
      if (full !== undefined) fs.closeSync(full);
      else if (opts.stdout === 'broken') p.stdout.destroy();
      const out = [];
      const err = [];
      let timedOut = false;
      const timer = setTimeout(() => {
        timedOut = true;
        p.kill('SIGKILL');
      }, opts.timeout || 120000);
      if (p.stdout) p.stdout.on('data', (d) => out.push(d));
      p.stderr.on('data', (d) => err.push(d));
      p.on('error', reject);
      p.on('close', (code, signal) => {
        clearTimeout(timer);
        const r = { code, signal, timedOut, out: Buffer.concat(out).toString('utf8'), err: Buffer.concat(err).toString('utf8') };
        try {
          r.doc = JSON.parse(r.out);
        } catch (e) {
          r.doc = undefined;
        }
        resolve(r);
      });
    });
  }

  /** transpile the same files and load the entry, to get at the real codecs */
  function load(files, entry = 'index.ts') {
    const p = project(transpiled(files));
    try {
      return require(path.join(p.dir, entry.replace(/\.ts$/, '.js')));
    } finally {
      for (const k of Object.keys(require.cache)) if (k.startsWith(p.dir + path.sep)) delete require.cache[k];
      p.dispose();
    }
  }
  function transpiled(files) {
    const out = {};
    for (const [f, text] of Object.entries(files)) {
      if (!f.endsWith('.ts')) {
        out[f] = text;
        continue;
      }
      out[f.replace(/\.ts$/, '.js')] = ts.transpileModule(text, {
        compilerOptions: { module: 'commonjs', target: 'es2020', esModuleInterop: true },
        fileName: f,
      }).outputText;
    }
    return out;
  }

  const show = (files) =>
    Object.entries(files)
      .map(([f, t]) => `// ---- ${f}\n${t}`)
      .join('\n');
  return { base, project, generate, load, transpiled, write, show, cli };
};
