'use strict'
// usage: node build.js REPO OUT_DIR [app]: bundles the page's scripts for the simulator.
const path = require('path')
const esbuild = require('/opt/veriftools/node/node_modules/esbuild')
const [repo, out, app] = process.argv.slice(2)
const src = path.join(repo, 'web/src')
const hook = ['hangulize/useHangulize.ts', 'hangulize/hangulize.worker.ts', 'hangulize/translit.worker.ts']
const provided = {
  name: 'provided',
  setup(b) {
    b.onResolve({ filter: /manifest\.json$/ }, () => ({ path: 'manifest.json', external: true }))
    b.onResolve({ filter: /wasm_exec(\.js)?$/ }, () => ({ path: 'wasm_exec', external: true }))
    b.onResolve({ filter: /\.(css|less|svg|png)$/ }, (a) => (/^[^./]/.test(a.path) ? null : { path: a.path, namespace: 'asset' }))
    b.onLoad({ filter: /.*/, namespace: 'asset' }, () => ({ contents: 'module.exports = ""' }))
    b.onResolve({ filter: /^[^./]/ }, (a) => (a.kind === 'entry-point' ? null : { path: a.path, external: true }))
  },
}
esbuild
  .build({
    entryPoints: (app ? ['index.tsx'] : hook).map((f) => path.join(src, f)),
    outdir: out,
    bundle: true,
    format: 'cjs',
    platform: 'neutral',
    target: 'es2022',
    plugins: [provided],
    define: { 'import.meta.url': '"https://hangulize.invalid/app/"', 'process.env.NODE_ENV': '"production"', 'process.env.PUBLIC_URL': '""' },
    logLevel: 'error',
    legalComments: 'none',
  })
  .catch((e) => {
    console.error(e.message)
    process.exit(1)
  })
