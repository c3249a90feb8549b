'use strict'
// usage: node main.js BUILD_DIR batch|replay|hashes|gen ...
const fs = require('fs')
const path = require('path')
const { Worker, isMainThread, workerData } = require('worker_threads')

if (!isMainThread) {
  // The watchdog: ends the process when one plan makes no progress in real time.
  const { state, limit } = workerData
  const a = new Int32Array(state)
  let last = -1
  let stuck = 0
  setInterval(() => {
    const n = Atomics.load(a, 0)
    if (n !== last) {
      last = n
      stuck = 0
      return
    }
    if (++stuck >= limit) {
      fs.writeSync(1, '\n{"sig":"hang","violation":"the simulated programs neither answer nor rest","hash":"0"}\n')
      process.kill(process.pid, 'SIGKILL')
    }
  }, 1000)
} else {
  main()
}

async function main() {
  const [build, cmd, ...rest] = process.argv.slice(2)
  const opt = { seed: '1', step: '1', n: '1000000000', budget: '10', shrink: '60', out: '', known: '', prop: '' }
  const args = []
  for (let i = 0; i < rest.length; i++) {
    const m = /^-(\w+)$/.exec(rest[i])
    if (m && m[1] in opt) opt[m[1]] = rest[++i]
    else if (m && m[1] === 'v') opt.v = true
    else args.push(rest[i])
  }
  process.on('unhandledRejection', () => {})
  const started = Date.now()
  const shared = new SharedArrayBuffer(4)
  const progress = new Int32Array(shared)
  require('./core').Loop.tick = () => Atomics.add(progress, 0, 1)
  const dog = new Worker(__filename, { workerData: { state: shared, limit: 60 } })
  dog.unref()
  const ctx = { build, verbose: opt.v }
  const mods = { C19: './c19', C20: './c19', C22: './page', C23: './page', C26: './app' }
  let mod
  const setup = async (prop) => {
    if (!mods[prop]) {
      console.error('unknown property', prop)
      process.exit(2)
    }
    mod = require(mods[prop])
    const { Ref } = require('./ref')
    ctx.ref = new Ref(build)
    ctx.langs = (await ctx.ref.raw([{ Cmd: 'langs' }]))[0]
  }
  const run = async (plan) => {
    Atomics.add(progress, 0, 1)
    return await mod.exec(plan, ctx)
  }
  const make = (prop, seed) => JSON.parse(JSON.stringify(mod.gen(prop, seed, ctx)))
  const finish = (code) => {
    ctx.ref.close()
    process.exit(code)
  }
  if (cmd === 'gen') {
    await setup(opt.prop)
    console.log(JSON.stringify(make(opt.prop, Number(opt.seed)), null, 1))
    finish(0)
  }
  if (cmd === 'replay') {
    const f = JSON.parse(fs.readFileSync(args[0], 'utf8'))
    await setup(f.property)
    const r = await run(f.plan)
    fs.writeSync(1, JSON.stringify({ sig: r.sig, violation: r.viol, hash: r.hash }) + '\n')
    finish(r.sig ? 1 : 0)
  }
  if (cmd === 'hashes') {
    await setup(opt.prop)
    for (const s of fs.readFileSync(0, 'utf8').split(/\s+/).filter(Boolean)) fs.writeSync(1, `${s} ${(await run(make(opt.prop, Number(s)))).hash}\n`)
    finish(0)
  }
  if (cmd !== 'batch') process.exit(2)

  await setup(opt.prop)
  const prop = opt.prop
  const st = {
    prop, plans: 0, runs: 0, steps: 0, switches: 0, calls: 0, sim_ns: 0, nontrivial: 0, classes: {}, faults: {}, hashes: {}, samples: [],
    nondet: [], twins: 0, first_seed: Number(opt.seed), last_seed: Number(opt.seed), replays: [], policies: {}, stopped: '',
  }
  const scheds = new Set()
  const distinct = new Set()
  const sigs = new Set()
  const known = new Set(opt.known.split(',').filter(Boolean))
  const left = () => Number(opt.budget) - (Date.now() - started) / 1000
  let s = Number(opt.seed)
  for (let n = 0; n < Number(opt.n); n++, s += Number(opt.step)) {
    if (left() < 0) {
      st.stopped = 'budget'
      break
    }
    const plan = make(prop, s)
    fs.writeFileSync(path.join(opt.out, 'cur'), String(s))
    const r = await run(plan)
    st.plans++
    st.runs += r.runs || 1
    st.steps += r.steps
    st.switches += r.switches
    st.calls += r.calls
    st.sim_ns += Math.round(r.ms * 1e6)
    st.last_seed = s
    for (const [k, v] of Object.entries(r.faults)) st.faults[k] = (st.faults[k] || 0) + v
    for (const k of r.classes) st.classes[k] = (st.classes[k] || 0) + 1
    const pol = r.policy || 'random delays'
    st.policies[pol] = (st.policies[pol] || 0) + 1
    if (scheds.size < 300000) scheds.add(r.sched)
    if (r.classes.length) {
      st.nontrivial++
      if (distinct.size < 300000) distinct.add(r.hash)
      if (st.samples.length < 1) st.samples.push(JSON.stringify(plan).length < 20000 ? plan : { seed: plan.seed, ops: plan.ops && plan.ops.slice(0, 12), cut: true })
    }
    if ((n < 40 && n % 4 === 0) || (n % 97 === 0 && Object.keys(st.hashes).length < 60)) st.hashes[s] = r.hash
    if (!r.sig && (n === 1 || n % 61 === 7)) {
      st.twins++
      const again = await run(JSON.parse(JSON.stringify(plan)))
      if (again.hash !== r.hash) st.nondet.push(`seed ${s}: ${r.hash} then ${again.hash}`)
    }
    if (r.sig && !sigs.has(r.sig)) {
      sigs.add(r.sig)
      const until = Date.now() + (known.has(r.sig) ? 0 : Number(opt.shrink) * 1000)
      let min = plan
      let best = r
      let trials = 0
      let done = false
      outer: while (Date.now() < until) {
        done = true
        for (const q of mod.shrinks(min)) {
          if (Date.now() >= until) {
            done = false
            break outer
          }
          trials++
          const rq = await run(JSON.parse(JSON.stringify(q)))
          if (rq.sig === r.sig) {
            min = q
            best = rq
            done = false
            break
          }
        }
        if (done) break
      }
      const size = (p) => (p.ops ? p.ops.length : p.sessions ? p.sessions.reduce((n, s) => n + s.ops.length, 0) : 0)
      const file = (pre, sig, rr, p, note) => {
        const f = path.join(opt.out, `${pre}-${prop}-${s}-${sig}.json`)
        fs.writeFileSync(f, JSON.stringify({ property: prop, seed: s, sig: rr.sig, violation: rr.viol, hash: rr.hash, minimised: note, plan: p }, null, 1))
        return f
      }
      file('o', r.sig, r, plan, 'no')
      st.replays.push(file('v', best.sig, best, min, `${done ? 'yes' : 'partly'}: ${size(plan)} operations to ${size(min)} in ${trials} trials`))
      if (sigs.size >= 3 + known.size) {
        st.stopped = 'violations'
        break
      }
    }
    if (mod.recycle && n + 1 >= mod.recycle && left() > 3) {
      st.stopped = 'recycle'
      s += Number(opt.step)
      break
    }
  }
  st.next = s
  st.scheds = [...scheds].sort()
  st.distinct = [...distinct].sort()
  st.wall = (Date.now() - started) / 1000
  fs.writeFileSync(path.join(opt.out, `stats-${opt.seed}.json`), JSON.stringify(st))
  finish(0)
}
