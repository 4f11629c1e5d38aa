'use strict';
// Builds the packages of /repo from their *current sources* into a throw-away
// directory, so a check always observes the tree as it is now (and never the
// possibly stale packages/*/dist).  Only transpilation is done here: type errors
// are the business of the repository's own build.
const fs = require('fs');
const os = require('os');
const path = require('path');

const REPO = process.env.VERIF_REPO || '/repo';
const PACKAGES = {
  'io-ts-http': [],
  response: [],
  'superagent-wrapper': ['io-ts-http'],
  'typed-express-router': ['io-ts-http'],
  'express-wrapper': ['io-ts-http', 'typed-express-router'],
  'openapi-generator': [],
};

function walk(dir, out = []) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
    const p = path.join(dir, e.name);
    if (e.isDirectory()) walk(p, out);
    else out.push(p);
  }
  return out;
}

function link(target, at) {
  try {
    fs.symlinkSync(target, at);
  } catch (e) {
    if (e.code !== 'EEXIST') throw e;
  }
}

/** @returns {{root: string, pkg(name): string, load(name): any, dispose(): void}} */
function build(wanted) {
  const need = new Set();
  const add = (p) => {
    if (need.has(p)) return;
    PACKAGES[p].forEach(add);
    need.add(p);
  };
  wanted.forEach(add);

  const root = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-build-'));
  const nm = path.join(root, 'node_modules');
  fs.mkdirSync(path.join(nm, '@api-ts'), { recursive: true });
  const repoNm = path.join(REPO, 'node_modules');
  for (const e of fs.readdirSync(repoNm)) {
    if (e === '@api-ts') continue;
    link(path.join(repoNm, e), path.join(nm, e));
  }
  const ts = require(path.join(repoNm, 'typescript'));
  for (const p of need) {
    const from = path.join(REPO, 'packages', p);
    const to = path.join(root, 'packages', p);
    fs.mkdirSync(to, { recursive: true });
    fs.copyFileSync(path.join(from, 'package.json'), path.join(to, 'package.json'));
    for (const extra of ['node_modules', 'bin']) {
      if (fs.existsSync(path.join(from, extra))) {
        link(path.join(from, extra), path.join(to, extra));
      }
    }
    link(to, path.join(nm, '@api-ts', p));
    const cfgPath = path.join(from, 'tsconfig.json');
    const cfg = ts.parseJsonConfigFileContent(
      ts.readConfigFile(cfgPath, ts.sys.readFile).config,
      ts.sys,
      from,
    );
    const src = path.join(from, 'src');
    for (const f of walk(src)) {
      const rel = path.relative(src, f);
      // tsc's rootDir is the package directory when tests are included, or src;
      // the package's "main" tells where the entry point is expected.
      if (!f.endsWith('.ts')) continue;
      const outName = path.join(to, 'dist', 'src', rel.replace(/\.ts$/, '.js'));
      fs.mkdirSync(path.dirname(outName), { recursive: true });
      const r = ts.transpileModule(fs.readFileSync(f, 'utf8'), {
        fileName: f,
        reportDiagnostics: true,
        compilerOptions: {
          ...cfg.options,
          outDir: undefined,
          composite: false,
          incremental: false,
          declaration: false,
          declarationMap: false,
          sourceMap: false,
          tsBuildInfoFile: undefined,
        },
      });
      const bad = (r.diagnostics || []).filter((d) => d.category === 1);
      if (bad.length) {
        throw new Error(
          'cannot transpile ' + f + ': ' +
            bad.map((d) => ts.flattenDiagnosticMessageText(d.messageText, '\n')).join('; '),
        );
      }
      fs.writeFileSync(outName, r.outputText);
    }
  }
  let disposed = false;
  const dispose = () => {
    if (disposed) return;
    disposed = true;
    fs.rmSync(root, { recursive: true, force: true });
  };
  process.on('exit', dispose);
  return {
    root,
    nm,
    dispose,
    pkg: (p) => path.join(root, 'packages', p),
    /** require the package's entry point (as its package.json names it) */
    load: (p) => require(path.join(nm, '@api-ts', p)),
    /** require one of the package's modules */
    mod: (p, m) => require(path.join(root, 'packages', p, 'dist', 'src', m)),
    /** require a third-party dependency exactly as the packages see it */
    dep: (d) => require(path.join(nm, d)),
  };
}

module.exports = { build, REPO, PACKAGES };
