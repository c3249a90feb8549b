'use strict'
// C22 and C23: the page's scripts (the React hook and the workers) with a
// simulated browser: message channels, timers, renders, fetching and compiling.
const vm = require('vm')
const fs = require('fs')
const path = require('path')
const { Rng, Hash, Violation, Loop } = require('./core')
const { realm, load, script } = require('./wasm')

const sources = {}
function bundle(build, name) {
  const f = path.join(build, name)
  if (!sources[f]) sources[f] = new vm.Script('(function (exports, require, module) {' + fs.readFileSync(f, 'utf8') + '\n})', { filename: name })
  return sources[f]
}
const REACT = new vm.Script(fs.readFileSync(path.join(__dirname, 'react.js'), 'utf8'))
const COMLINK = new vm.Script(fs.readFileSync(path.join(__dirname, 'comlink.js'), 'utf8'))
const fam = (m) => m.replace(/\[.+\]$/, '')

// ---- plans

const GAPS = [0, 0, 0, 1, 5, 10, 30, 49, 50, 51, 99, 200, 449, 450, 499, 500, 501, 550, 1200, 3000]
const DELAYS = [0, 0, 1, 3, 10, 20, 49, 50, 51, 100, 400, 499, 500, 501, 600, 2000]
const LOADS = [...DELAYS, 7000, 20000, 65000, 400000]
const JOBS = [...DELAYS, ...DELAYS, 7000, 40000, 200000]

function gen(prop, seed, ctx) {
  const r = new Rng(seed)
  const plan = { prop, seed, net: r.pick([0, 0, 1, 5, 60]), boot: r.pick([0, 1, 10, 300, 2000]), lane: r.pick([0, 0.5, 1]), rmax: r.pick([0, 1, 4, 20]), pmax: r.pick([0, 1, 8]), sync: r.pick([0, 0.5, 1]) }
  if (prop === 'C22') {
    plan.mode = r.chance(0.8) ? 'stub' : 'full'
  } else {
    const k = r.int(100)
    plan.mode = k < 60 ? 'unit' : 'full'
    if (k >= 99 && seed % 4 === 0) plan.mode = 'e2e'
  }
  if (plan.mode === 'unit') return unitPlan(r, plan, ctx)

  const langs = ['aa', 'bb', 'cc', 'dd', 'ee'].slice(0, r.range(1, 5))
  const translits = []
  plan.specs = {}
  if (plan.mode === 'full') {
    const all = ['cyrillic[ru]', 'cyrillic[bg]', 'cyrillic[ua]', 'furigana', 'pinyin', 'pinyin[x]']
    for (const s of all) if (r.chance(0.5)) translits.splice(r.int(translits.length + 1), 0, s)
    for (const l of langs) plan.specs[l] = r.chance(0.7) && translits.length ? [r.pick(translits)] : []
    if (translits.length > 1 && r.chance(0.3)) plan.specs[langs[0]] = [...translits].slice(0, 2)
    plan.load = {}
    for (const f of ['hangulize', 'cyrillic', 'furigana', 'pinyin']) plan.load[f] = { d: r.pick(LOADS), c: r.pick(DELAYS), k: r.chance(prop === 'C23' ? 0.12 : 0.06) ? r.pick(['fetch', 'compile', 'start']) : 'ok' }
    plan.delays = Array.from({ length: r.range(1, 6) }, () => r.pick(JOBS))
    plan.fails = r.chance(0.3) ? r.pick([2, 3, 5]) : 0
  } else if (plan.mode === 'stub') {
    for (const l of langs) plan.specs[l] = []
    if (r.chance(0.5)) translits.push('pinyin')
    plan.reqs = Array.from({ length: r.range(1, 8) }, () => ({ d: r.pick(JOBS), k: r.chance(0.2) ? r.pick(['err', 'err', 'errval']) : r.chance(0.03) ? 'never' : 'ok' }))
    plan.info = { v: r.pick(['ok', 'ok', 'ok', 'err', 'never']), s: r.pick(['ok', 'ok', 'ok', 'err', 'never']), d: r.pick(DELAYS) }
    plan.workerSpecs = r.chance(0.7) ? null : langs.filter(() => r.chance(0.6)).concat(r.chance(0.5) ? ['ww'] : [])
    if (plan.workerSpecs && !plan.workerSpecs.length) plan.workerSpecs = ['ww']
  } else {
    plan.furigana = r.chance(0.25)
    plan.load = {}
    for (const f of ['hangulize', 'cyrillic', 'furigana', 'pinyin']) plan.load[f] = { d: r.pick(LOADS), c: r.pick(DELAYS), k: 'ok' }
    langs.splice(0, 9, 'ita', 'rus', 'chi', 'ukr', 'bul', plan.furigana ? 'jpn' : 'deu')
  }
  plan.translits = translits
  plan.app = r.chance(0.5)
  const words = ['a', 'b', 'c', 'ab', 'abc', '가', 'word', ' x ', '', ' ', '\t']
  if (plan.mode === 'e2e') words.splice(0, 99, ...ctx.langs.filter((l) => langs.includes(l.lang)).flatMap((l) => l.words.slice(0, 6)), 'privet', '')
  const L = [...langs, ...langs, r.pick(['zz', 'ww', ''])]
  const n = r.range(1, plan.mode === 'e2e' ? 8 : 20)
  const focus = r.chance(0.4) ? r.pick(GAPS) : -1
  const fl = r.pick(L)
  let at = r.pick([0, 0, 1, 100, 3000])
  plan.ops = []
  for (let i = 0; i < n; i++) {
    const op = { at, lang: r.chance(0.6) ? fl : r.pick(L), word: r.pick(words) }
    if (r.chance(0.1)) op.glue = true
    if (r.chance(0.3) && i) Object.assign(op, { lang: plan.ops[i - 1].lang, word: plan.ops[i - 1].word + r.pick(['', 'z', ' ']) })
    plan.ops.push(op)
    at += focus >= 0 && r.chance(0.7) ? focus : r.pick(GAPS)
  }
  return plan
}

function unitPlan(r, plan, ctx) {
  const families = ['cyrillic', 'furigana', 'pinyin']
  const f = r.pick(families)
  const real = f !== 'furigana' && r.chance(0.3)
  plan.real = real
  const good = { cyrillic: ['cyrillic[ru]', 'cyrillic[bg]', 'cyrillic[ua]', 'cyrillic[mk]'], furigana: ['furigana'], pinyin: ['pinyin'] }
  const badm = ['', 'hanja', 'cyrillic[xx]', 'cyrillic', 'pinyin[zz]', 'furi', '[ru]', 'Furigana', 'pinyin ']
  plan.load = {}
  for (const x of families) plan.load[x] = { d: r.pick(LOADS), c: r.pick(DELAYS), k: r.chance(0.15) ? r.pick(['fetch', 'compile', 'start']) : 'ok' }
  const n = r.range(1, 14)
  let at = 0
  plan.ops = []
  const pload = r.pick([0.1, 0.3, 0.5])
  for (let i = 0; i < n; i++) {
    const t = r.chance(pload) ? 'load' : 'tr'
    const method = r.chance(0.8) ? r.pick(good[f]) : r.chance(0.5) ? r.pick(badm) : r.pick(good[r.pick(families)])
    plan.ops.push({ at, t, method, word: r.pick(['privet', 'sofiya', '北京', '上海 你好', 'x', '', 'shchuka', 'жж', '日本']) + (r.chance(0.5) ? i : '') })
    at += r.pick(GAPS)
  }
  if (r.chance(0.8)) plan.ops.splice(r.int(Math.min(3, plan.ops.length)), 0, { at: 0, t: 'load', method: r.pick(good[f]) })
  let last = 0
  for (const op of plan.ops) op.at = last = Math.max(last, op.at)
  return plan
}

// ---- the simulated browser

class World {
  constructor(plan, ctx) {
    this.plan = plan
    this.ctx = ctx
    this.loop = new Loop()
    this.rng = new Rng(plan.seed + 1234567)
    this.obs = new Hash()
    this.faults = {}
    this.classes = new Set()
    this.workers = []
    this.calls = 0
    this.logs = []
    this.loop.hooks.error = (e, x) => {
      throw new Violation('threw', `event ${e.name} threw ${x && x.stack}`)
    }
  }
  note(s) {
    this.obs.add(s)
    if (this.ctx.verbose) console.log('obs:', this.loop.now, s)
  }
  count(k) {
    this.faults[k] = (this.faults[k] || 0) + 1
  }
  fail(sig, text) {
    if (!this.loop.fault) this.loop.fault = new Violation(sig, text)
    throw this.loop.fault
  }
  // channel makes a pair of message ports; each direction keeps its order.
  channel(name) {
    const make = () => ({ queue: [], last: 0, started: false, onmessage: null })
    const a = make()
    const b = make()
    const link = (from, to) => {
      const deliver = () => {
        while (to.started && to.ready && to.ready.length) to.onmessage(to.ready.shift())
      }
      to.ready = []
      to.deliver = deliver
      from.post = (m) => {
        const t = Math.max(this.loop.now + this.rng.int(this.plan.net + 1), from.last)
        from.last = t
        this.loop.at(t - this.loop.now, 'message ' + name, () => {
          to.ready.push(m)
          if (to.started) to.onmessage(to.ready.shift())
        })
      }
      to.start = () => {
        to.started = true
        // Messages which came earlier are delivered in tasks of their own.
        for (let i = 0; i < to.ready.length; i++) this.loop.at(0, 'message ' + name, () => to.ready.length && to.onmessage(to.ready.shift()))
      }
    }
    link(a, b)
    link(b, a)
    a.name = b.name = name
    return [a, b]
  }
  newRealm(name, selfPort, extra) {
    const w = this
    const log = (...a) => w.logs.push(name + ': ' + a.map(String).join(' '))
    const c = realm(this.loop, this.rng, log, extra)
    c.name = name
    const comlink = COMLINK.runInContext(c)({
      self: selfPort,
      connect: (worker) => w.connect(worker),
      newPort: () => w.channel('proxy'),
      asked: (...a) => w.asked(...a),
      answered: (...a) => w.answered(...a),
    })
    return { c, comlink, log }
  }
  require(c, build, name, provided) {
    const module = vm.runInContext('({ exports: {} })', c)
    const req = (n) => {
      if (!(n in provided)) throw new Error(`module ${n} is not provided by the simulator`)
      const v = provided[n]
      return typeof v === 'function' && n === 'wasm_exec' ? (v(), {}) : v
    }
    bundle(build, name).runInContext(c)(module.exports, req, module)
    return module.exports
  }
  asked() {}
  answered() {}
  connect(worker) {
    const x = this.workers.find((x) => x.object === worker)
    return x.page
  }
  // spawn starts a worker: its script runs after a while, in a realm of its own.
  spawn(object, url) {
    const kind = /translit\.worker/.test(url) ? 'translit' : /hangulize\.worker/.test(url) ? 'hangulize' : ''
    if (!kind) this.fail('worker', `a worker of an unknown script was started: ${url}`)
    const id = this.workers.length
    const [page, self] = this.channel(kind + id)
    const x = { id, kind, object, page, self, loads: [], requests: [] }
    page.worker = x
    this.workers.push(x)
    this.note(`spawn ${kind}`)
    this.startWorker(x)
    return x
  }
  startWorker(x) {
    this.loop.at(this.rng.int(this.plan.boot + 1), 'boot', () => this.workerScript(x))
  }
  workerScript(x) {
    const w = this
    const { c, comlink } = this.newRealm(x.kind + x.id, x.self, {})
    x.c = c
    c.__host = {
      fetch: (url, ok, bad) => {
        const name = path.posix.basename(new URL(String(url)).pathname)
        const f = name.split('.')[0]
        const p = (w.plan.load || {})[f]
        if (!p || !/^(hangulize|(cyrillic|furigana|pinyin)\.translit)\.wasm$/.test(name)) {
          w.loop.at(1, 'fetch', () => bad('404'))
          return
        }
        if (p.k !== 'ok') w.count('program fails to load: ' + p.k)
        if (p.k === 'sync') return true
        w.loop.at(p.d, 'fetch', () => (p.k === 'fetch' ? bad('Failed to fetch') : ok(name)))
      },
      compile: (name, ok, bad) => {
        const f = name.split('.')[0]
        const p = w.plan.load[f]
        w.loop.at(p.c, 'compile', () => (p.k === 'compile' ? bad('wasm validation error') : ok(f)))
      },
      instance: (f, imports) => {
        if (!w.real(f)) return { stub: f }
        return new WebAssembly.Instance(load(w.ctx.build, f + '.wasm'), imports)
      },
      exited: (code) => w.fail('program-ended', `${x.kind}${x.id}: the WebAssembly program ended (exit code ${code}) ${w.logs.slice(-20).join('\n')}`),
      run: (inst) => {
        w.note(`run ${x.kind}${x.id} ${inst.stub || ''}`)
        const p = inst.stub && w.plan.load[inst.stub]
        if (p && p.k === 'start') throw vm.runInContext('new Error("program failed to start")', c)
        x.running = inst.stub || 'real'
      },
      work: (f) => w.loop.at(w.workDelay(), 'work', f),
      workFails: (lang, word) => w.workFails(lang, word),
      specs: () => JSON.stringify(w.hangulizeSpecs()),
      schemes: () => JSON.stringify(Object.fromEntries(Object.entries(w.plan.specs || {}))),
      translitCalled: (m, word) => w.translitCalled(x, m, word),
    }
    const real = this.plan.mode === 'e2e' || this.plan.real
    vm.runInContext(BROWSER, c)
    this.require(c, this.ctx.build, x.kind + '.worker.js', {
      comlink,
      wasm_exec: () => {
        if (real) script(path.join(this.ctx.build, 'wasm_exec.js')).runInContext(c)
        vm.runInContext(GO, c)
      },
    })
  }
  real(f) {
    if (this.plan.mode === 'unit') return this.plan.real
    return this.plan.mode === 'e2e' && (f !== 'furigana' || this.plan.furigana)
  }
  workDelay() {
    const d = this.plan.delays || [0]
    return d[this.calls++ % d.length]
  }
  workFails(lang, word) {
    const bad = this.plan.fails && (lang + word).length % this.plan.fails === 0
    if (bad) this.count('transcription fails')
    return bad
  }
  hangulizeSpecs() {
    return Object.fromEntries(Object.entries(this.plan.specs).map(([l, t]) => [l, { lang: { id: l, translit: t }, test: [] }]))
  }
  translitCalled() {}
  result(sig) {
    return {
      hash: this.obs.hex(), sched: this.loop.order.hex(), sig: this.sig || '', viol: this.viol || '', classes: [...this.classes], faults: this.faults,
      calls: this.calls, steps: this.loop.steps, switches: this.loop.switches, ms: this.loop.now, policy: this.plan.mode,
    }
  }
}

// The browser's API in a worker.
const BROWSER = `(() => {
  const h = globalThis.__host
  globalThis.fetch = (url) => {
    let threw = false
    const p = new Promise((res, rej) => {
      threw = h.fetch(String(url), (name) => res({ ok: true, status: 200, name, arrayBuffer: async () => ({ name }) }), (m) => m === '404' ? res({ ok: false, status: 404, name: '' }) : rej(new TypeError(m))) === true
    })
    if (threw) throw new TypeError('fetch is not allowed')
    return p
  }
  const instantiate = async (src, imports) => {
    if (!src.name) throw new TypeError('incorrect response')
    const f = await new Promise((res, rej) => h.compile(src.name, res, (m) => rej(new Error(m))))
    const instance = h.instance(f, imports)
    return { module: {}, instance }
  }
  const { Instance, Module, Memory, Table, Global, CompileError, LinkError, RuntimeError } = globalThis.WebAssembly
  globalThis.WebAssembly = {
    Instance, Module, Memory, Table, Global, CompileError, LinkError, RuntimeError,
    instantiateStreaming: async (p, imports) => await instantiate(await p, imports),
    instantiate: async (b, imports) => await instantiate(b, imports),
  }
})()`
// Go programs: the real runtime, or stubs of the programs.
const GO = `(() => {
  const h = globalThis.__host
  const Real = globalThis.Go
  if (!h) { globalThis.Go = class {}; return }
  const stub = (f) => {
    if (f === 'hangulize') {
      const fns = {}
      const specs = JSON.parse(h.schemes())
      const fn = async (lang, word, trace) => {
        if (!(lang in specs)) throw new Error('spec not found: ' + lang)
        const need = specs[lang]
        await new Promise((res) => h.work(res))
        for (const s of need) {
          if (!fns[s]) throw new Error('translit not imported: ' + s)
          word = await fns[s](word)
        }
        if (h.workFails(lang, word)) throw new Error('failed')
        return lang + '<' + word + '>'
      }
      fn.version = 'v1'
      fn.specs = JSON.parse(h.specs())
      fn.useTranslit = (s, f) => { if (fns[s]) return false; fns[s] = f; return true }
      globalThis.hangulize = fn
    } else {
      globalThis.translit = (m, word) => {
        h.translitCalled(m, word)
        if (m.replace(/\\[.+\\]$/, '') !== f || !['cyrillic[ru]', 'cyrillic[bg]', 'cyrillic[ua]', 'cyrillic[mk]', 'furigana', 'pinyin', 'pinyin[x]'].includes(m)) return new Error('unknown translit scheme: ' + m)
        return m + '(' + word + ')'
      }
    }
  }
  globalThis.Go = class {
    constructor() {
      if (Real) { this.real = new Real(); this.real.exit = (c) => h.exited(c); this.importObject = this.real.importObject } else this.importObject = {}
    }
    async run(inst) {
      h.run(inst)
      if (inst.stub) { stub(inst.stub); await new Promise(() => {}) }
      await this.real.run(inst)
    }
  }
})()`

// ---- C23: a translit worker alone

async function execUnit(plan, ctx) {
  const w = new World(plan, ctx)
  const x = { id: 0, kind: 'translit' }
  const [page, self] = w.channel('translit')
  x.self = self
  const reqs = []
  page.onmessage = (m) => {
    const q = reqs[m.id]
    if (q.done) w.fail('answered-twice', `${show(q)} was answered twice`)
    q.done = true
    q.ok = !m.thrown
    q.v = m.thrown ? m.value && (m.value.$error ? m.value.$error.message : String(m.value)) : m.wire.value
    if (m.thrown && !m.value.$error) q.notError = true
    w.note(`answer ${m.id} ${q.ok} ${typeof q.v === 'string' ? q.v : typeof q.v}`)
    q.at = w.loop.now
  }
  page.start()
  const show = (q) => `request ${q.i}: ${q.op.t === 'load' ? `load(${JSON.stringify(q.op.method)})` : `transliterate(${JSON.stringify(q.op.method)}, ${JSON.stringify(q.op.word)})`}`
  const refs = await ctx.ref.ask(plan.ops.map((op) => ({ Cmd: 'translit', Lang: op.method, Word: op.word || '' })))
  const bad = ['hanja']
  plan.ops.forEach((op, i) => {
    const q = { i, op, ref: refs[i] }
    reqs.push(q)
    w.calls++
    w.loop.at(op.at, 'request', () => {
      q.sent = w.loop.now
      w.note(`send ${i}`)
      page.post({ id: i, type: 'APPLY', path: [op.t === 'load' ? 'load' : 'transliterate'], args: (op.t === 'load' ? [op.method] : [op.method, op.word]).map((value) => ({ value })) })
    })
  })
  w.startWorker(x)
  try {
    await w.loop.run()
    let loaded = null
    for (const q of reqs) {
      const { op } = q
      if (!q.done) w.fail('pending', `${show(q)} was never answered`)
      const got = q.ok ? `was answered with ${JSON.stringify(q.v)}` : `was refused (${q.v})`
      if (op.t === 'load') {
        const valid = ['cyrillic', 'furigana', 'pinyin'].includes(fam(op.method))
        if (loaded !== null) {
          w.classes.add('loaded twice')
          if (q.ok) w.fail('loaded-twice', `${show(q)} ${got}, although loading was started before by ${show(loaded)}`)
        } else if (!valid) {
          w.classes.add('unknown method')
          if (q.ok) w.fail('unknown-method', `${show(q)} ${got}, although there is no such translit`)
        } else {
          loaded = q
          if (!q.ok && plan.load[fam(op.method)].k === 'ok') w.fail('load', `${show(q)} ${got}`)
        }
        continue
      }
      if (loaded === null) {
        w.classes.add('asked before loading')
        if (q.ok) w.fail('before-load', `${show(q)} ${got}, although loading was not started`)
        continue
      }
      const f = fam(loaded.op.method)
      const p = plan.load[f]
      const fault = p.k !== 'ok' && !(p.k === 'start' && plan.real)
      if (fault) {
        w.classes.add('program failed to load')
        if (q.ok) w.fail('failed-load', `${show(q)} ${got}, although the program failed to load`)
        continue
      }
      const stubOK = ['cyrillic[ru]', 'cyrillic[bg]', 'cyrillic[ua]', 'cyrillic[mk]', 'furigana', 'pinyin', 'pinyin[x]'].includes(op.method)
      const known = fam(op.method) === f && (plan.real ? !q.ref.err : stubOK)
      if (!known) {
        w.classes.add('unknown method')
        if (q.ok) w.fail('unknown-method', `${show(q)} ${got} by the program of ${f}`)
        continue
      }
      const want = plan.real ? q.ref.result : `${op.method}(${op.word})`
      if (q.sent < loaded.sent + p.d + p.c) w.classes.add('asked while loading')
      else w.classes.add('asked when ready')
      if (!q.ok) w.fail('refused', `${show(q)} ${got}`)
      if (q.v !== want) w.fail('wrong-answer', `${show(q)} ${got}, expected ${JSON.stringify(want)}`)
    }
  } catch (e) {
    if (!(e instanceof Violation)) throw e
    w.sig = e.sig
    w.viol = e.message
  }
  w.obs.add(w.loop.order.hex() + (w.sig || ''))
  return w.result()
}

// ---- C22, C23: the page

async function execPage(plan, ctx) {
  const w = new World(plan, ctx)
  const IDLE = 1
  const e2e = plan.mode === 'e2e'
  const stub = plan.mode === 'stub'
  let manifest
  if (e2e) {
    const translits = [...new Set(ctx.langs.flatMap((l) => l.translits))].sort()
    manifest = { version: 'v0', translits, specs: Object.fromEntries(ctx.langs.map((l) => [l.lang, { lang: { id: l.lang, translit: l.translits }, test: [] }])) }
    plan.specs = Object.fromEntries(ctx.langs.map((l) => [l.lang, l.translits]))
  } else manifest = { version: 'v0', translits: plan.translits, specs: w.hangulizeSpecs() }
  let specsNow = Object.keys(manifest.specs)
  const c22 = plan.prop === 'C22'
  const failing = (f) => plan.load && plan.load[f].k !== 'ok' && !(plan.load[f].k === 'start' && w.real(f))
  const valid = (i) => i && i.word.trim() !== '' && specsNow.includes(i.lang)
  const show = (i) => (i ? `(${JSON.stringify(i.lang)}, ${JSON.stringify(i.word)})` : 'none')

  // Requests for transcriptions and transliterations.
  let outstanding = 0
  const requests = []
  const translits = []
  const answersTo = (i) => requests.filter((r) => r.lang === i.lang && r.word === i.word && r.done)
  w.asked = (port, type, p, args, id, wires) => {
    if (port.scheme !== undefined) {
      translits.push({ scheme: port.scheme, word: args[0], port, id })
      w.classes.add('transliterations through the page')
      w.note(`translit ${port.scheme} ${args[0]}`)
      return
    }
    const x = port.worker
    if (!x) return
    w.note(`ask ${x.kind}${x.id} ${p.join('.')}`)
    if (p[0] === 'load') x.loads.push(args[0])
    if (x.kind === 'translit' && p[0] === 'transliterate') x.requests.push(args[0])
    if (x.kind === 'hangulize' && p[0] === 'useTranslit') {
      ;(x.uses = x.uses || []).push(args[0])
      if (wires[1] && wires[1].proxy) wires[1].proxy.scheme = args[0]
    }
    if (x.kind === 'hangulize' && p[0] === 'hangulize') {
      requests.push({ lang: args[0], word: args[1], port, id })
      if (++outstanding > 1 && c22) w.fail('two-requests', `the worker is asked for ${show({ lang: args[0], word: args[1] })} while ${show(requests[requests.length - 2])} is not answered yet`)
    }
  }
  w.answered = (port, p, id, ok, value) => {
    const t = port.scheme !== undefined && translits.find((t) => t.port === port && t.id === id)
    if (t) {
      Object.assign(t, { done: true, ok, value })
      w.note(`translit answer ${ok} ${value}`)
    }
    const x = port.worker
    if (x && x.kind === 'hangulize' && p[0] === 'hangulize') {
      outstanding--
      Object.assign(requests.find((r) => r.port === port && r.id === id), { done: true, ok, value })
    }
  }
  if (stub) {
    w.startWorker = (x) => {
      const serve = (m) => {
        const k = m.path[0]
        const reply = (d, r) => w.loop.at(d, 'worker', () => x.self.post({ id: m.id, ...r }))
        const err = { thrown: true, value: { $error: { name: 'Error', message: 'failed' } } }
        if (x.kind === 'hangulize' && k === 'hangulize') {
          const q = plan.reqs[w.calls++ % plan.reqs.length]
          if (q.k === 'never') return w.count('worker never answers')
          if (q.k === 'ok') return reply(q.d, { wire: { value: `${m.args[0].value}<${m.args[1].value}>` } })
          w.count('worker fails')
          return reply(q.d, q.k === 'errval' ? { thrown: true, value: 'failed' } : err)
        }
        const i = plan.info
        if (k === 'getVersion') return i.v === 'ok' ? reply(i.d, { wire: { value: 'v1' } }) : (w.count('worker fails'), i.v === 'err' ? reply(i.d, err) : 0)
        if (k === 'getSpecs') {
          if (i.s !== 'ok') return w.count('worker fails'), i.s === 'err' ? reply(i.d, err) : 0
          const l = plan.workerSpecs || Object.keys(plan.specs)
          return reply(i.d, { wire: { value: Object.fromEntries(l.map((l) => [l, { lang: { id: l, translit: [] }, test: [] }])) } })
        }
        reply(0, { wire: { value: undefined } })
      }
      x.self.onmessage = serve
      w.loop.at(w.rng.int(plan.boot + 1), 'boot', () => x.self.start())
    }
  }

  // The page.
  const { c, comlink } = w.newRealm('page', null, {})
  c.__spawn = (o, url) => w.spawn(o, url)
  vm.runInContext(`globalThis.Worker = class Worker { constructor(url) { __spawn(this, String(url)) } terminate() {} addEventListener() {} removeEventListener() {} postMessage() {} }; globalThis.window = globalThis; globalThis.document = { hidden: false, addEventListener() {} }; globalThis.fetch = () => Promise.reject(new Error('no'))`, c)
  const inputs = [] // what was given to the hook
  let marks = []
  let rendered = []
  let taken = -1
  let updates = []
  let last = null
  let commits = 0
  const react = REACT.runInContext(c)({
    later: (kind, f) => {
      if (kind === 'render') {
        if (w.rng.chance(plan.lane)) return vm.runInContext('(f) => Promise.resolve().then(f)', c)(() => {
          try {
            f()
          } catch (e) {
            if (!w.loop.fault) w.loop.fault = e instanceof Violation ? e : new Violation('render', `rendering threw ${e && e.stack}`)
          }
        })
        return w.loop.at(w.rng.int(plan.rmax + 1), 'render', f)
      }
      w.loop.at(w.rng.int(plan.pmax + 1), 'effects', f)
    },
    syncEffects: () => w.rng.chance(plan.sync),
    dispatched: (a) => updates.push([a, taken]),
    rendered: () => {
      rendered.push(...marks)
      marks = []
      if (++commits > 3000) w.fail('livelock', 'the page renders without end')
    },
    effects: () => {
      if (rendered.length) taken = rendered[rendered.length - 1]
      rendered = []
    },
    commit: (h) => {
      w.note(`commit ${h.state} ${h.result}`)
      specsNow = Object.keys(h.specs)
      const R = h.result
      if (R !== '' && (!last || last.result !== R)) {
        // What counts is the input that the page had taken up when the result was set.
        const set = updates.filter(([a]) => a === R)
        const other = updates.filter(([a]) => typeof a !== 'string' && typeof a !== 'number')
        const before = set.length ? set[set.length - 1][1] : Math.min(taken, ...other.map(([, t]) => t))
        const may = inputs.slice(Math.max(0, before)).flatMap(answersTo).filter((r) => r.ok).map((r) => r.value)
        if (c22 && !may.includes(R)) w.fail('superseded', `the page puts up ${JSON.stringify(R)} although its input is ${show(inputs[before])}${inputs.length > before + 1 ? ' and later ' + inputs.slice(before + 1).map(show).join(', ') : ''}`)
        w.classes.add('result shown')
      }
      updates = []
      last = { state: h.state, result: R }
    },
  })
  const mod = w.require(c, ctx.build, 'useHangulize.js', { react: react.React, comlink, 'manifest.json': vm.runInContext('(s) => JSON.parse(s)', c)(JSON.stringify(manifest)), wasm_exec: () => vm.runInContext(GO, c) })
  const put = (lang, word) => {
    inputs.push({ lang, word })
    marks.push(inputs.length - 1)
    w.note(`input ${lang} ${word}`)
    if (outstanding) w.classes.add('input while a request is running')
  }
  const App = vm.runInContext(
    `(function (React, mod, host) {
      return function App() {
        const [h, set] = mod.useHangulize()
        const input = (lang, word) => { host.put(lang, word); set(lang, word) }
        if (host.app) {
          const [q, setQ] = React.useState(host.first)
          React.useEffect(() => { if (q) input(q.lang, q.word) }, [q && q.lang, q && q.word])
          host.input = (lang, word) => setQ({ lang, word })
        } else host.input = input
        return h
      }
    })`,
    c
  )
  const host = { app: plan.app, put, first: null }
  // Workers, routes and what the translit functions answered.
  const workers = async () => {
    const hw = w.workers.filter((x) => x.kind === 'hangulize')
    const tw = w.workers.filter((x) => x.kind === 'translit')
    const families = [...new Set(manifest.translits.map(fam))].sort()
    if (hw.length !== 1) w.fail('workers', `${hw.length} transcription workers were started`)
    const loads = tw.map((x) => x.loads.map(fam).join('+')).sort()
    if (JSON.stringify(loads) !== JSON.stringify(families)) w.fail('workers', `translit workers were started for ${JSON.stringify(loads)}, expected ${JSON.stringify(families)}`)
    const uses = [...new Set(hw[0].uses || [])].sort()
    if (JSON.stringify(uses) !== JSON.stringify([...manifest.translits].sort())) w.fail('routes', `the translits ${JSON.stringify(uses)} were given to the transcription worker, expected ${JSON.stringify(manifest.translits)}`)
    for (const x of tw) for (const m of x.requests) if (fam(m) !== fam(x.loads[0])) w.fail('routes', `${m} was asked from the worker of ${x.loads[0]}`)
    const refs = await ctx.ref.ask(translits.map((t) => ({ Cmd: 'translit', Lang: t.scheme, Word: t.word })))
    translits.forEach((t, i) => {
      const what = `the page's translit ${t.scheme} asked for ${JSON.stringify(t.word)}`
      if (!t.done) w.fail('pending', `${what} never answered`)
      const got = t.ok ? `answered ${JSON.stringify(t.value)}` : 'failed'
      if (failing(fam(t.scheme))) {
        if (t.ok) w.fail('failed-load', `${what} ${got} although its program failed to load`)
        return
      }
      const want = w.real(fam(t.scheme)) ? refs[i].result : `${t.scheme}(${t.word})`
      if (!t.ok || t.value !== want) w.fail('wrong-answer', `${what} ${got}, expected ${JSON.stringify(want)}`)
    })
    if (outstanding) w.fail('unanswered', `the transcription worker never answered ${show(requests.find((r) => !r.done))}`)
  }
  let ops = plan.ops
  if (plan.app && ops.length && ops[0].at === 0) {
    host.first = { lang: ops[0].lang, word: ops[0].word }
    ops = ops.slice(1)
  }
  try {
    w.loop.at(0, 'mount', () => react.mount(App(react.React, mod, host)))
    for (const op of ops) w.loop.at(op.at, 'input', () => host.input(op.lang, op.word), op.glue)
    await w.loop.run()
    // Rest: what does the page show?
    const L = inputs[inputs.length - 1]
    const lastOp = plan.ops[plan.ops.length - 1]
    if (lastOp && (!L || L.lang !== lastOp.lang || L.word !== lastOp.word)) throw new Error('the last input did not arrive')
    if (c22 && L && !outstanding) {
      let want = ['']
      if (valid(L)) {
        const l = answersTo(L)
        const newest = l[l.length - 1]
        if (!newest) w.fail('not-asked', `at rest the worker was never asked for ${show(L)}; the page shows ${JSON.stringify(last.result)}`)
        // The newest answer to this very input; an older one only if it was not asked again at the end.
        want = newest === requests[requests.length - 1] ? [newest.ok ? newest.value : ''] : l.map((r) => (r.ok ? r.value : ''))
        if (!newest.ok) w.classes.add('latest input failed')
      } else w.classes.add('latest input invalid')
      if (!want.includes(last.result)) w.fail('wrong-result', `at rest the page shows ${JSON.stringify(last.result)} for the input ${show(L)}, expected ${want.map((x) => JSON.stringify(x)).join(' or ')}`)
      const idle = mod.HangulizeState ? mod.HangulizeState.IDLE : IDLE
      if (last.state !== idle) w.fail('not-idle', `at rest the page's state is ${last.state} (idle is ${idle}) for the input ${show(L)}`)
    }
    if (!c22) await workers()
  } catch (e) {
    if (!(e instanceof Violation)) throw e
    w.sig = e.sig
    w.viol = e.message
  }
  w.obs.add(w.loop.order.hex() + (w.sig || ''))
  return w.result()
}

const exec = (plan, ctx) => (plan.mode === 'unit' ? execUnit(plan, ctx) : execPage(plan, ctx))

function* shrinks(plan) {
  const n = plan.ops.length
  const copy = () => JSON.parse(JSON.stringify(plan))
  for (let size = n >> 1; size >= 1; size >>= 1)
    for (let i = 0; i < n; i += size) {
      const q = copy()
      q.ops.splice(i, size)
      yield q
    }
  for (const k of ['net', 'boot', 'rmax', 'pmax', 'fails'])
    if (plan[k]) {
      const q = copy()
      q[k] = 0
      yield q
    }
  for (const k of ['lane', 'sync'])
    if (plan[k] !== 1) {
      const q = copy()
      q[k] = 1
      yield q
    }
  for (let i = 0; i < n; i++) {
    if (plan.ops[i].glue) {
      const q = copy()
      delete q.ops[i].glue
      yield q
    }
  }
  for (const k of Object.keys(plan.load || {}))
    for (const f of ['d', 'c'])
      if (plan.load[k][f]) {
        const q = copy()
        q.load[k][f] = 0
        yield q
      }
  for (const k of Object.keys(plan.load || {}))
    if (plan.load[k].k !== 'ok') {
      const q = copy()
      q.load[k].k = 'ok'
      yield q
    }
  for (const k of ['reqs', 'delays'])
    if (plan[k] && plan[k].length > 1) {
      const q = copy()
      q[k] = q[k].slice(0, q[k].length >> 1)
      yield q
    }
  const gap = n ? plan.ops[0].at : 0
  if (gap) {
    const q = copy()
    for (const op of q.ops) op.at -= gap
    yield q
  }
}

module.exports = { gen, exec, shrinks, World, recycle: 400 }
