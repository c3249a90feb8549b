'use strict'
// Go programs in WebAssembly, each in a realm of its own whose clock, timers and
// randomness belong to the simulator.
const vm = require('vm')
const fs = require('fs')
const path = require('path')

const files = {}
function load(build, name) {
  const f = path.join(build, name)
  if (!files[f]) files[f] = new WebAssembly.Module(fs.readFileSync(f))
  return files[f]
}

const scripts = {}
function script(file) {
  if (!scripts[file]) scripts[file] = new vm.Script(fs.readFileSync(file, 'utf8'), { filename: path.basename(file) })
  return scripts[file]
}

// realm makes a global object like that of a browser's worker.
function realm(loop, rng, log, extra = {}) {
  const g = Object.assign(
    {
      TextEncoder,
      TextDecoder,
      crypto: {
        getRandomValues(b) {
          for (let i = 0; i < b.length; i++) b[i] = rng.u32()
          return b
        },
      },
      performance: { now: () => loop.now, timeOrigin: 1700000000000 },
      setTimeout: (f, d, ...a) => loop.setTimeout(f, d, ...a),
      clearTimeout: (n) => loop.clearTimeout(n),
      console: { log: log, warn: log, error: log, info: log, debug: log },
      WebAssembly,
      URL,
    },
    extra
  )
  const c = vm.createContext(g)
  c.__now = () => 1700000000000 + loop.now
  vm.runInContext(
    `(() => { const RealDate = Date, now = globalThis.__now; delete globalThis.__now
      globalThis.Date = class Date extends RealDate {
        constructor(...a) { if (a.length) super(...a); else super(now()) }
        static now() { return now() }
        getTimezoneOffset() { return 0 }
      }
      const u32 = globalThis.__u32
      Math.random = () => crypto.getRandomValues(new Uint32Array(1))[0] / 4294967296
      globalThis.self = globalThis
    })()`,
    c
  )
  return c
}

// startGo runs a Go program in a realm; it reports when the program ends.
function startGo(c, build, name, onExit) {
  script(path.join(build, 'wasm_exec.js')).runInContext(c)
  const Go = vm.runInContext('globalThis.Go', c)
  const go = new Go()
  go.exit = (code) => onExit(code)
  go.run(new WebAssembly.Instance(load(build, name), go.importObject))
  return go
}

// exportGlobals adds exports @0, @1, ... for the globals of a WebAssembly module.
function exportGlobals(bytes) {
  let p = 8
  const uint = () => {
    let v = 0
    for (let s = 0; ; s += 7) {
      const b = bytes[p++]
      v += (b & 127) * 2 ** s
      if (b < 128) return v
    }
  }
  const enc = (v) => {
    const out = []
    do {
      out.push((v & 127) | (v > 127 ? 128 : 0))
      v = Math.floor(v / 128)
    } while (v)
    return out
  }
  let globals = 0
  while (p < bytes.length) {
    const at = p
    const id = bytes[p++]
    const size = uint()
    const end = p + size
    if (id === 6) globals = uint()
    if (id === 7) {
      const n = uint()
      const more = []
      for (let i = 0; i < globals; i++) {
        const name = Buffer.from('@' + i)
        more.push(...enc(name.length), ...name, 3, ...enc(i))
      }
      const body = Buffer.concat([Buffer.from(enc(n + globals)), bytes.subarray(p, end), Buffer.from(more)])
      return { bytes: Buffer.concat([bytes.subarray(0, at), Buffer.from([7, ...enc(body.length)]), body, bytes.subarray(end)]), globals }
    }
    p = end
  }
  throw new Error('no exports')
}

// boot gives a realm in which a Go program has just started. Starting it takes
// long, so the state after the start with one seed (memory, globals, references
// and timers) is kept and put back for the next plan with that seed.
const modules = {}
let booted = null
function boot(build, name, seed, Rng, loop, rng, log, onExit) {
  const key = `${build} ${name} ${seed}`
  if (!modules[name + build]) {
    const x = exportGlobals(fs.readFileSync(path.join(build, name)))
    modules[name + build] = { module: new WebAssembly.Module(x.bytes), globals: x.globals }
  }
  if (!booted || booted.key !== key || booted.used) booted = null
  if (!booted) {
    const b = { key, used: false, logs: [], timers: [], code: null }
    b.cur = {
      loop: { now: 0, setTimeout: (f, d, ...a) => b.timers.push({ f, d, a }) - 1, clearTimeout: (n) => void (b.timers[n] = null) },
      rng: new Rng(seed),
      log: (...a) => b.logs.push(a),
      onExit: (code) => (b.code = code),
    }
    const lp = {
      get now() {
        return b.cur.loop.now
      },
      setTimeout: (f, d, ...a) => b.cur.loop.setTimeout(f, d, ...a),
      clearTimeout: (n) => b.cur.loop.clearTimeout(n),
    }
    b.realm = realm(lp, { u32: () => b.cur.rng.u32() }, (...a) => b.cur.log(...a))
    script(path.join(build, 'wasm_exec.js')).runInContext(b.realm)
    const go = (b.go = new (vm.runInContext('globalThis.Go', b.realm))())
    go.exit = (code) => b.cur.onExit(code)
    const m = modules[name + build]
    go.run(new WebAssembly.Instance(m.module, go.importObject))
    b.globals = []
    for (let i = 0; i < m.globals; i++) b.globals.push(go._inst.exports['@' + i])
    b.saved = {
      mem: new Uint8Array(go._inst.exports.mem.buffer).slice(),
      globals: b.globals.map((g) => g.value),
      values: go._values && go._values.slice(),
      counts: go._goRefCounts && go._goRefCounts.slice(),
      ids: go._ids && new Map(go._ids),
      pool: go._idPool && go._idPool.slice(),
      next: go._nextCallbackTimeoutID,
      timeouts: [...go._scheduledTimeouts],
    }
    booted = b
  } else {
    const { go, saved } = booted
    const mem = new Uint8Array(go._inst.exports.mem.buffer)
    mem.set(saved.mem)
    mem.fill(0, saved.mem.length)
    booted.globals.forEach((g, i) => {
      if (g.value !== saved.globals[i]) g.value = saved.globals[i]
    })
    go.mem = new DataView(go._inst.exports.mem.buffer)
    go._values = saved.values.slice()
    go._goRefCounts = saved.counts.slice()
    go._ids = new Map(saved.ids)
    go._idPool = saved.pool.slice()
    go._nextCallbackTimeoutID = saved.next
    go._pendingEvent = null
  }
  const b = booted
  b.used = true
  b.cur = { loop, rng, log, onExit }
  for (const a of b.logs) log(...a)
  if (b.code !== null) onExit(b.code)
  const { go } = b
  go._scheduledTimeouts = new Map()
  for (const [id, n] of b.saved.timeouts) {
    const t = b.timers[n]
    if (t) go._scheduledTimeouts.set(id, loop.setTimeout(t.f, t.d, ...t.a))
  }
  // done tells that the program is idle and may be put back.
  const done = () => {
    if (b.code === null && go._inst.exports.mem.buffer.byteLength < 5e8) b.used = false
  }
  return { realm: b.realm, done }
}

module.exports = { realm, startGo, boot, load, script }
