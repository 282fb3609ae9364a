'use strict';
// Bundles a harness entry together with the *current working tree* of /repo/packages/*/src.
const path = require('path');
const fs = require('fs');
const REPO = process.env.VERIF_REPO || '/repo';
const VERIF = path.dirname(__dirname);
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');

const pkgs = fs.readdirSync(path.join(REPO, 'packages'));
const alias = {};
for (const p of pkgs) {
  const src = path.join(REPO, 'packages', p, 'src', 'index.ts');
  if (fs.existsSync(src)) alias['@visactor/' + p] = src;
}
// Third-party libraries are resolved from the package that declares them.
const CORE_NM = path.join(REPO, 'packages', 'vgrammar-core', 'node_modules');

function bundle(entry, outfile) {
  const plugin = {
    name: 'repo',
    setup(b) {
      b.onResolve({ filter: /^@repo\// }, a => {
        let p = path.join(REPO, 'packages', a.path.slice('@repo/'.length));
        for (const c of [p, p + '.ts', path.join(p, 'index.ts')]) {
          if (fs.existsSync(c) && fs.statSync(c).isFile()) return { path: c };
        }
        return { errors: [{ text: 'cannot resolve ' + a.path }] };
      });
      b.onResolve({ filter: /^@visactor\/vgrammar(-[a-z-]+)?$/ }, a => (alias[a.path] ? { path: alias[a.path] } : undefined));
      b.onResolve({ filter: /^@visactor\/(vutils|vdataset|vscale|vrender-[a-z]+)$/ }, a => {
        if (a.pluginData && a.pluginData.skip) return undefined;
        if (a.resolveDir.startsWith(path.join(REPO, 'packages')) || a.resolveDir.startsWith(VERIF)) {
          // one instance only: the one vgrammar-core uses
          return b.resolve(a.path, { resolveDir: CORE_NM, kind: 'import-statement', pluginData: { skip: true } });
        }
        return undefined;
      });
    }
  };
  return esbuild.build({
    entryPoints: [entry],
    outfile,
    bundle: true,
    platform: 'node',
    target: 'node18',
    format: 'cjs',
    mainFields: ['module', 'main'],
    conditions: ['import'],
    external: ['canvas'],
    define: { __VERSION__: '"verif"', __DEV__: 'false' },
    tsconfigRaw: { compilerOptions: { experimentalDecorators: true, useDefineForClassFields: false, target: 'es2019' } },
    logLevel: 'error',
    sourcemap: 'inline',
    keepNames: true,
    plugins: [plugin]
  });
}
module.exports = { bundle, REPO };
if (require.main === module && process.argv[2] === '--selftest') {
  const out = path.join(require('os').tmpdir(), 'verif-selftest-' + process.pid + '.js');
  bundle(path.join(__dirname, 'vg.ts'), out).then(
    () => { fs.unlinkSync(out); console.log('bundle ok'); },
    e => { console.error(e); process.exit(1); }
  );
}
