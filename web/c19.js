'use strict'
// C19 and C20: the WebAssembly program under overlapping calls, with
// asynchronous translits that answer in any order, and with misbehaving ones.
const vm = require('vm')
const { Rng, Hash, Violation, Loop } = require('./core')
const { boot } = require('./wasm')

const ALPHA = {
  furigana: 'あいうえおかきくけこさしすせそたちつてとなにぬねのはひふへほまみむめもやゆよらりるれろわんーっゃゅょがぎぐげござじずぜぞだでどばびぶべぼぱぴぷぺぽ',
  pinyin: ['bei', 'jing', 'shang', 'hai', 'zhong', 'guo', 'nü', 'xi', 'an', 'chong', 'qing', 'lü', 'er', ' '],
  cyrillic: 'абвгдежзийклмнопрстуфхцчшщъыьэюя',
}
const RAW = {
  furigana: '東京大阪日本語自然処理山川田中村木林森一二三あいうアイウ',
  pinyin: '北京上海中国女西安重庆绿耳春夏秋冬',
  cyrillic: 'abvgdezhijklmnoprstufhcyu',
}
const fam = (s) => s.replace(/\[.*/, '')

function text(r, alpha, lo, hi) {
  let s = ''
  const n = r.range(lo, hi)
  for (let i = 0; i < n; i++) s += typeof alpha === 'string' ? [...alpha][r.int([...alpha].length)] : r.pick(alpha)
  return s
}

const GOOD = ['ok', 'ok', 'ok', 'now', 'err', 'errnow']
const WILD = [
  'throw', 'throw.str', 'throw.null', 'throw.undef', 'throw.sym', 'throw.obj', 'throw.hostile', 'throw.num',
  'err.str', 'err.null', 'err.undef', 'err.sym', 'err.obj', 'err.hostile', 'err.nomsg', 'err.num',
  'twice.res', 'twice.both', 'twice.rej', 'then.sync', 'then.twice', 'then.both', 'then.later2', 'then.get', 'then.throws', 'then.after', 'then.never',
  'val.str', 'val.num', 'val.undef', 'val.null', 'val.obj', 'val.fn', 'val.sym',
  'res.num', 'res.undef', 'res.obj', 'res.sym', 'res.null', 'never', 'reenter', 'reenter.reg', 'slow',
]
const TWILD = ['throw', 'throw.str', 'throw.null', 'throw.undef', 'throw.sym', 'throw.hostile', 'throw.always', 'reject', 'reenter', 'reenter.reg', 'ret.obj', 'notfn']

function gen(prop, seed, ctx) {
  const r = new Rng(seed)
  const wild = prop === 'C20'
  const plan = { prop, seed, boot: Math.floor(seed / 256), ops: [] }
  const langs = ctx.langs
  const tl = langs.filter((l) => l.translits.length)
  const schemes = [...new Set(tl.flatMap((l) => l.translits))]
  const n = r.range(10, r.pick([40, 120, 300]))
  const burst = r.pick([0, 1, 5, 40, 200])
  const maxDelay = r.pick([0, 1, 3, 20, 300, 300, 4000, 60000])
  const plong = r.pick([0, 0, 0.02, 0.2])
  const longest = r.pick([3000, 15000, 70000, 700000])
  const delay = () => (plong && r.chance(plong) ? r.int(longest + 1) : r.int(maxDelay + 1))
  const ptr = r.pick([0.2, 0.6, 0.9])
  const ptrace = r.pick([0, 0.3, 0.8])
  const pwild = wild ? r.pick([0.1, 0.3, 0.7]) : 0
  const perr = r.pick([0, 0.1, 0.4])
  const few = r.chance(0.4) ? [r.pick(langs), r.pick(tl)] : null
  const used = new Set()
  let at = 0
  const uniq = (f) => {
    for (let i = 0; i < 50; i++) {
      const s = f(i)
      if (s && !used.has(s)) {
        used.add(s)
        return s
      }
    }
    const s = f(50) + used.size
    used.add(s)
    return s
  }
  const pmut = r.pick([0, 0.1, 0.5])
  const ptwin = r.pick([0, 0, 0.1, 0.4])
  const plain = (op) => op.t === 'call' && op.at !== null && op.tr && (!op.trace || op.trace.k === 'ok' || op.trace.k === 'mutate') && Object.values(op.tr).every((b) => b.k === 'ok' || b.k === 'now')
  const mkcall = (at, depth) => {
    let lang
    let L
    if (r.chance(0.04)) {
      lang = r.pick(['', 'xxx', 'ITA', 'jpn ', 'ita.hsl', '../specs/ita'])
    } else {
      L = few && r.chance(0.8) ? r.pick(few) : r.chance(ptr) ? r.pick(tl) : r.pick(langs)
      lang = L.lang
    }
    const op = { at, t: 'call', lang, word: '', glue: r.chance(0.3) }
    if (L && L.translits.length) {
      op.tr = {}
      op.word = uniq((i) => text(r, RAW[fam(L.translits[0])] || 'abcdefgh', 1, 8 + i))
      for (const s of L.translits) {
        const alpha = ALPHA[fam(s)] || 'abcdefgh'
        const b = { k: r.chance(perr) ? r.pick(GOOD) : r.pick(['ok', 'ok', 'now']), d: delay(), ans: uniq((i) => text(r, alpha, 1, 9 + i)) }
        if (r.chance(0.3)) b.glue = true
        if (wild && r.chance(pwild)) {
          b.k = r.pick(WILD)
          if (b.k.startsWith('twice') || b.k.startsWith('then')) b.ans2 = uniq((i) => text(r, alpha, 1, 9 + i))
          if (b.k === 'reenter') {
            if (depth < 2) {
              b.sub = plan.ops.length
              plan.ops.push(mkcall(null, depth + 1))
            } else b.k = 'throw'
          }
          if (b.k === 'reenter.reg') b.scheme = r.pick(schemes)
        }
        op.tr[s] = b
      }
    } else {
      const w = L && L.words.length ? r.pick(L.words) : 'word'
      op.word = r.pick([w, w, w + ' ' + (L ? r.pick(L.words.length ? L.words : ['x']) : 'x'), text(r, 'abcdefghijklmnopqrstuvwxyz', 1, 14), '', ' ', w + '!', '한글', '🙂' + w])
    }
    if (r.chance(ptrace)) {
      op.trace = { k: r.chance(pmut) ? 'mutate' : 'ok' }
      if (wild && r.chance(pwild)) {
        op.trace = { k: r.pick(TWILD), n: r.int(r.pick([1, 3, 12])) }
        if (op.trace.k === 'reenter') {
          if (depth < 2) {
            op.trace.sub = plan.ops.length
            plan.ops.push(mkcall(null, depth + 1))
          } else op.trace.k = 'throw'
        }
        if (op.trace.k === 'reenter.reg') op.trace.scheme = r.pick(schemes)
      }
    }
    return op
  }
  // Registration: everything at first, or bit by bit, or something never.
  const mode = r.int(4)
  for (const s of schemes) {
    if (mode === 0 || r.chance(0.7)) plan.ops.push({ at: mode < 2 ? 0 : r.int(n * Math.max(1, burst)), t: 'reg', scheme: s })
    if (r.chance(0.15)) plan.ops.push({ at: r.int(n * Math.max(1, burst)), t: 'reg', scheme: s })
  }
  for (let i = 0; i < n; i++) {
    if (!r.chance(0.6)) at += r.int(burst + 1)
    const old = ptwin && r.chance(ptwin) ? r.pick(plan.ops) : null
    if (old && plain(old)) {
      // The same call once more, maybe while the first one is running.
      const op = JSON.parse(JSON.stringify(old))
      op.at = at
      for (const s in op.tr) op.tr[s].d = delay()
      if (r.chance(0.3)) op.trace = { k: 'ok' }
      plan.ops.push(op)
      continue
    }
    const op = mkcall(at, 0)
    plan.ops.push(op)
  }
  // When they have settled: the same words with other answers.
  for (let k = r.pick([0, 0, 1, 1, 2]); k > 0; k--) {
    const olds = plan.ops.filter((op) => op.t === 'call' && op.at !== null && op.tr)
    if (!olds.length) break
    at += 10 * Math.max(maxDelay, plong ? longest : 0) + 60000
    const start = at
    const again = new Set()
    for (let i = r.range(1, 12); i > 0; i--) {
      const old = r.pick(olds)
      const key = old.lang + ' ' + old.word
      if (again.has(key)) continue
      again.add(key)
      const op = { at: start + r.int(burst + 1), t: 'call', lang: old.lang, word: old.word, glue: r.chance(0.3), tr: {} }
      for (const s in old.tr) op.tr[s] = { k: r.chance(perr) ? r.pick(GOOD) : 'ok', d: delay(), ans: r.chance(0.5) ? old.tr[s].ans : uniq((i) => text(r, ALPHA[fam(s)] || 'abcdefgh', 1, 9 + i)) }
      if (r.chance(ptrace)) op.trace = { k: 'ok' }
      plan.ops.push(op)
      at = Math.max(at, op.at)
    }
    if (r.chance(0.3)) plan.ops.push({ at, t: 'reg', scheme: r.pick(schemes) })
  }
  at += plong ? longest : 0
  // At the end: ordinary calls have to give ordinary results.
  const end = at + 100000
  for (let i = 0; i < 3; i++) {
    const L = i === 0 ? r.pick(langs.filter((l) => !l.translits.length)) : r.pick(tl)
    const op = { at: end + i, t: 'call', lang: L.lang, word: L.words.length ? r.pick(L.words) : 'a', trace: { k: 'ok' } }
    if (L.translits.length) {
      op.tr = {}
      op.word = uniq((i) => text(r, RAW[fam(L.translits[0])] || 'abcdefgh', 2, 8 + i))
      for (const s of L.translits) op.tr[s] = { k: 'ok', d: 1, ans: uniq((i) => text(r, ALPHA[fam(s)] || 'abcdefgh', 1, 9 + i)) }
    }
    plan.ops.push(op)
  }
  return plan
}

// The part of the caller that lives in the page's realm.
const USER = `(function (host) {
  const bad = (w) => {
    switch (w) {
      case 'str': return 'bad'
      case 'null': return null
      case 'undef': return undefined
      case 'sym': return Symbol('bad')
      case 'num': return 7
      case 'obj': return { message: 'bad' }
      case 'nomsg': { const e = new Error(); e.message = undefined; return e }
      case 'hostile': return { toString() { throw new Error('hostile') }, get message() { throw new Error('hostile') }, [Symbol.toPrimitive]() { throw new TypeError('hostile') } }
      default: return new Error('bad')
    }
  }
  const kind = (k) => k.split('.')
  function answer(b, scheme) {
    const [k, w] = kind(b.k)
    const later = (f) => host.after(b.d, f, b.glue)
    switch (k) {
      case 'ok': return new Promise((res) => later(() => res(b.ans)))
      case 'slow': return new Promise((res) => host.after(b.d + 5000, () => res(b.ans)))
      case 'now': return Promise.resolve(b.ans)
      case 'errnow': return Promise.reject(new Error('no answer'))
      case 'err': return new Promise((res, rej) => later(() => rej(bad(w))))
      case 'throw': throw bad(w)
      case 'twice': return new Promise((res, rej) => later(() => {
        if (w === 'rej') { rej(new Error('no')); rej(new Error('no')); res(b.ans) }
        else { res(b.ans); if (w === 'res') res(b.ans2); else rej(new Error('late')) }
      }))
      case 'then': return { 
        get then() {
          if (w === 'get') throw new Error('no then')
          return (res, rej) => {
            switch (w) {
              case 'sync': res(b.ans); return
              case 'twice': res(b.ans); res(b.ans2); return
              case 'both': later(() => { res(b.ans); if (rej) rej(new Error('late')) }); return
              case 'later2': later(() => { res(b.ans); host.after(b.d + 3, () => { res(b.ans2); if (rej) rej('late') }) }); return
              case 'throws': throw new Error('then threw')
              case 'after': res(b.ans); throw new Error('then threw after')
              case 'never': return
            }
          }
        } }
      case 'val': switch (w) { case 'str': return b.ans; case 'num': return 5; case 'undef': return undefined; case 'null': return null; case 'obj': return { a: 1 }; case 'fn': return () => b.ans; case 'sym': return Symbol('x') }
      case 'res': return new Promise((res) => later(() => res({ num: 5, undef: undefined, null: null, obj: { a: 1 }, sym: Symbol('x') }[w])))
      case 'never': return new Promise(() => {})
      case 'reenter':
        if (w === 'reg') host.reg(b.scheme); else host.sub(b.sub)
        return new Promise((res) => later(() => res(b.ans)))
    }
    throw new Error('unknown kind ' + b.k)
  }
  const see = (t) => JSON.stringify({ step: t.step, word: t.word, why: t.why, rule: t.rule && { id: t.rule.id, from: t.rule.from, to: t.rule.to } })
  return {
    reg(scheme, gen) {
      return hangulize.useTranslit(scheme, (word) => answer(host.ask(scheme, gen, word), scheme))
    },
    call(i, lang, word, trace) {
      let fn
      const kept = []
      if (trace) {
        let n = 0
        fn = (t) => {
          const seen = see(t)
          host.trace(i, seen)
          if (trace.k === 'mutate') {
            // The callback may do what it likes with an event that is its own.
            for (const o of [t, t.rule]) if (o) for (const k of Object.keys(o)) if (k !== 'rule') o[k] = 'changed'
            if (t.rule) Object.freeze(t.rule)
          } else if (kept.length < 400) kept.push([t, seen])
          const [k, w] = kind(trace.k)
          const here = n++ === trace.n
          if (k === 'throw' && (here || (w === 'always' && n > trace.n))) { host.thrown(i); throw bad(w) }
          if (k === 'reject') return Promise.reject(new Error('trace'))
          if (k === 'ret') return { then() { throw new Error('trace') } }
          if (k === 'reenter' && here) { if (w === 'reg') host.reg(trace.scheme); else host.sub(trace.sub) }
        }
        if (trace.k === 'notfn') fn = { not: 'a function' }
      }
      const p = fn === undefined ? hangulize(lang, word) : hangulize(lang, word, fn)
      if (!(p instanceof Promise)) throw new Error('hangulize() returned ' + String(p) + ', not a promise')
      const still = () => {
        for (const [t, seen] of kept) if (see(t) !== seen) return host.altered(i, seen, see(t))
      }
      p.then(still, still)
      p.then((v) => host.settled(i, true, v), (e) => { let s; try { s = e instanceof Error ? String(e.message) : typeof e } catch { s = '?' } host.settled(i, false, s) })
    },
  }
})`

async function exec(plan, ctx) {
  const loop = new Loop()
  const rng = new Rng(plan.seed + 77)
  const obs = new Hash()
  const rep = { faults: {}, classes: new Set(), calls: 0 }
  const count = (k) => (rep.faults[k] = (rep.faults[k] || 0) + 1)
  const output = []
  const note = (s) => {
    obs.add(s)
    if (ctx.verbose) console.log('obs:', s)
  }
  const specs = new Map(ctx.langs.map((l) => [l.lang, l]))
  // The reference.
  const reqs = []
  const calls = plan.ops.map((op, i) => {
    if (op.t !== 'call') return null
    const L = specs.get(op.lang)
    const c = { i, op, L, need: L ? L.translits : [], trace: [], asked: {}, state: 'new' }
    c.full = reqs.length
    const ans = (key) => Object.fromEntries(c.need.map((s) => [s, (key && op.tr[s][key]) || op.tr[s].ans]))
    reqs.push({ Lang: op.lang, Word: op.word, Trace: true, Ans: ans() })
    reqs.push({ Lang: op.lang, Word: op.word, Trace: true, Ans: ans('ans2') })
    reqs.push({ Lang: op.lang, Word: op.word, Trace: true, Ans: {} })
    return c
  })
  const refs = await ctx.ref.ask(reqs)
  for (const c of calls) if (c) [c.ref, c.ref2, c.refNone] = [refs[c.full], refs[c.full + 1], refs[c.full + 2]]

  let exited = null
  const log = (...a) => output.push(a.map(String).join(' '))
  const died = () => {
    if (exited !== null) throw new Violation('program-ended', `the WebAssembly program ended (exit code ${exited}):\n${output.join('\n').slice(0, 1500)}`)
  }
  const { realm: c, done } = boot(ctx.build, 'hangulize.wasm', plan.boot || 0, Rng, loop, rng, log, (code) => (exited = code))
  died()
  const regs = {} // scheme -> {gen, at: call counter}
  let gens = 0
  let clock = 0
  const fail = (sig, text) => {
    if (!loop.fault) loop.fault = new Violation(sig, text)
    throw loop.fault
  }
  const show = (c) => `call ${c.i}: hangulize(${JSON.stringify(c.op.lang)}, ${JSON.stringify(c.op.word)})`
  const host = {
    after: (d, f, glue) => loop.at(d, 'answer', f, glue),
    ask(scheme, gen, word) {
      note(`ask ${scheme} ${gen} ${word}`)
      const r = regs[scheme]
      if (!r || r.gen !== gen) fail('wrong-translit', `the function of a refused registration of ${scheme} was called with ${JSON.stringify(word)}`)
      let twice = null
      for (const c of calls) {
        if (!c || c.state !== 'pending' || !c.need.includes(scheme)) continue
        const k = c.need.indexOf(scheme)
        const input = k === 0 ? c.op.word : c.op.tr[c.need[k - 1]].ans
        if (input !== word) continue
        if (c.asked[scheme]) {
          twice = c
          continue
        }
        c.asked[scheme] = true
        const b = c.op.tr[scheme]
        if (!['ok', 'now', 'err', 'errnow'].includes(b.k)) count('translit ' + b.k)
        else if (b.k.startsWith('err')) count('translit rejects')
        if (pending() > 1) rep.classes.add('answers of overlapping calls')
        return b
      }
      if (twice) fail('asked-twice', `${show(twice)}: ${scheme} was asked twice for ${JSON.stringify(word)}`)
      fail('foreign-word', `${scheme} was asked for ${JSON.stringify(word)}, which no call is waiting for`)
    },
    trace(i, t) {
      const c = calls[i]
      note(`trace ${i} ${t}`)
      if (c.state !== 'pending') fail('late-trace', `${show(c)}: a trace event came when the call was already ${c.state}: ${t}`)
      c.trace.push(t)
    },
    altered(i, before, after) {
      fail('event-altered', `${show(calls[i])}: a trace event that its callback keeps has changed from ${before} to ${after}`)
    },
    thrown(i) {
      calls[i].thrown = true
      count('trace function throws')
    },
    settled(i, ok, v) {
      const c = calls[i]
      note(`settled ${i} ${ok} ${typeof v === 'string' ? v : typeof v}`)
      c.state = ok ? 'fulfilled' : 'rejected'
      c.value = v
      c.settledAt = ++clock
      check(c)
    },
    sub(i) {
      rep.classes.add('re-entrant call')
      start(i)
    },
    reg(scheme) {
      rep.classes.add('re-entrant registration')
      register(scheme)
    },
  }
  const pending = () => calls.reduce((n, c) => n + (c && c.state === 'pending' ? 1 : 0), 0)
  const user = vm.runInContext(USER, c)(host)
  const died2 = (f, what) => {
    try {
      return f()
    } catch (e) {
      if (loop.fault) throw loop.fault
      died()
      throw new Violation('threw', `${what} threw ${e && e.message}`)
    }
  }
  const register = (scheme) => {
    const gen = ++gens
    const first = !regs[scheme]
    if (first) regs[scheme] = { gen, at: ++clock }
    const r = died2(() => user.reg(scheme, gen), `useTranslit(${scheme})`)
    note(`reg ${scheme} ${r}`)
    if (r !== first) fail('registration', `useTranslit(${JSON.stringify(scheme)}) returned ${r}, but it was ${first ? 'not ' : ''}registered before`)
  }
  const start = (i) => {
    const c = calls[i]
    if (!c || c.state !== 'new') return
    rep.calls++
    c.state = 'pending'
    c.startAt = ++clock
    if (pending() > 1) rep.classes.add('overlapping calls')
    died2(() => user.call(i, c.op.lang, c.op.word, c.op.trace), show(c))
  }
  const any = () => true
  const check = (c) => {
    const { op } = c
    const bad = (sig, text) => fail(sig, `${show(c)} ${c.state === 'fulfilled' ? 'was fulfilled with ' + JSON.stringify(String(c.value)) : 'was rejected: ' + c.value}; ${text}`)
    if (!c.L) {
      rep.classes.add('unknown language')
      if (c.state === 'fulfilled') bad('unknown-lang', 'its language is unknown')
      if (c.trace.length) bad('trace', 'trace events of an unknown language')
      return
    }
    // What the registry allows.
    let missing = false
    let unsure = false
    for (const s of c.need) {
      const r = regs[s]
      if (!r || r.at > c.settledAt) missing = true
      else if (r.at > c.startAt) unsure = true
    }
    // What the callbacks allow: a list of permitted endings.
    const allowed = []
    const REJ = { rej: true, why: 'a rejection', trace: c.refNone.trace }
    const OK = { val: c.ref.result, why: JSON.stringify(c.ref.result), trace: c.ref.trace }
    const OK2 = { val: c.ref2.result, why: JSON.stringify(c.ref2.result), trace: c.ref2.trace }
    const ANY = { any: true, why: 'anything' }
    if (missing) {
      rep.classes.add('missing translit')
      allowed.push(REJ)
    } else {
      if (unsure) allowed.push(REJ)
      const outs = [OK]
      for (const s of c.need) {
        const b = op.tr[s]
        const k = b.k
        if (['ok', 'now', 'slow', 'reenter', 'reenter.reg'].includes(k)) continue
        if (/^err/.test(k)) outs.splice(0, outs.length, REJ)
        else if (/^throw/.test(k)) outs.splice(0, outs.length, REJ)
        else if (/^(twice\.(res|both)|then\.(sync|twice|both|later2|after)|val\.str)$/.test(k)) outs.push(OK2, REJ)
        else if (/^(twice\.rej|then\.get|then\.throws)$/.test(k)) outs.splice(0, outs.length, REJ)
        else outs.push(ANY)
      }
      allowed.push(...outs)
    }
    const t = op.trace ? op.trace.k : ''
    if (c.ref.err) allowed.push(REJ)
    const full = (x, got) => x.trace && x.trace.length === got.length && x.trace.every((e, i) => JSON.stringify(e) === got[i])
    const prefix = (x, got) => x.trace && got.length <= x.trace.length && got.every((e, i) => JSON.stringify(x.trace[i]) === e)
    if (t === 'notfn') {
      if (c.state === 'rejected') return
      if (!allowed.some((x) => x.any || x.val === c.value)) bad('wrong-result', 'expected ' + allowed.map((x) => x.why).join(' or '))
      return
    }
    if (c.thrown && c.state === 'rejected') {
      if (![OK, OK2, ...allowed].some((x) => x.any || prefix(x, c.trace))) bad('trace', `trace events are not its own: ${c.trace.join(' ').slice(0, 600)}`)
      return
    }
    const fits = allowed.filter((x) => x.any || (c.state === 'rejected' ? x.rej : x.val === c.value && !x.rej))
    if (!fits.length) bad(c.state === 'rejected' ? 'wrong-rejection' : 'wrong-result', `expected ${allowed.map((x) => x.why).join(' or ')}`)
    if (!t) return
    rep.classes.add('traced')
    if (!fits.some((x) => x.any || (x.rej ? prefix(OK, c.trace) || prefix(x, c.trace) : full(x, c.trace) || (c.thrown && prefix(x, c.trace)))))
      bad('trace', `its trace events are\n${c.trace.join('\n').slice(0, 1200)}\nexpected\n${(fits[0].trace || []).map((e) => JSON.stringify(e)).join('\n').slice(0, 1200)}`)
  }
  plan.ops.forEach((op, i) => {
    if (op.at === null) return
    if (op.t === 'reg') loop.at(op.at, 'reg', () => register(op.scheme), op.glue)
    else loop.at(op.at, 'call', () => start(i), op.glue)
  })
  loop.hooks.error = (e, x) => {
    died()
    throw new Violation('threw', `event ${e.name} threw ${x && x.stack}`)
  }
  try {
    await loop.run()
    died()
    for (const c of calls) {
      if (!c || c.state !== 'pending') continue
      const never = Object.entries(c.op.tr || {}).some(([s, b]) => c.asked[s] && ['never', 'then.never'].includes(b.k))
      if (!never) throw new Violation('pending', `${show(c)} is still pending although every translit has answered (${JSON.stringify(c.op)})`)
    }
    done()
  } catch (x) {
    if (!(x instanceof Violation)) throw x
    rep.sig = x.sig
    rep.viol = x.message
  }
  obs.add(loop.order.hex())
  if (rep.sig) obs.add(rep.sig)
  if (plan.prop === 'C20' && !Object.keys(rep.faults).length) rep.classes.clear()
  return {
    hash: obs.hex(), sched: loop.order.hex(), sig: rep.sig || '', viol: rep.viol || '', classes: [...rep.classes], faults: rep.faults,
    calls: rep.calls, steps: loop.steps, switches: loop.switches, ms: loop.now,
  }
}

// shrinks proposes smaller plans.
function* shrinks(plan) {
  const n = plan.ops.length
  for (let size = n >> 1; size >= 1; size >>= 1) {
    for (let i = 0; i < n; i += size) {
      yield drop(plan, (k) => k >= i && k < i + size)
    }
  }
  for (let i = 0; i < n; i++) {
    const op = plan.ops[i]
    const edit = (f) => {
      const q = JSON.parse(JSON.stringify(plan))
      f(q.ops[i])
      return q
    }
    if (op.trace) yield edit((o) => delete o.trace)
    if (op.glue) yield edit((o) => delete o.glue)
    for (const s of Object.keys(op.tr || {})) {
      if (op.tr[s].k !== 'ok') yield edit((o) => (o.tr[s] = { k: 'ok', d: o.tr[s].d, ans: o.tr[s].ans }))
      if (op.tr[s].d) yield edit((o) => (o.tr[s].d = 0))
    }
  }
}

// drop removes operations; calls made by callbacks are removed with them.
function drop(plan, gone) {
  const keep = plan.ops.map((op, i) => !gone(i))
  const index = []
  let k = 0
  keep.forEach((x, i) => (index[i] = x ? k++ : -1))
  const ops = []
  plan.ops.forEach((op, i) => {
    if (!keep[i]) return
    op = JSON.parse(JSON.stringify(op))
    if (op.trace && op.trace.sub !== undefined) {
      if (index[op.trace.sub] < 0) op.trace = { k: 'ok' }
      else op.trace.sub = index[op.trace.sub]
    }
    for (const b of Object.values(op.tr || {})) {
      if (b.sub === undefined) continue
      if (index[b.sub] < 0) {
        b.k = 'ok'
        delete b.sub
      } else b.sub = index[b.sub]
    }
    ops.push(op)
  })
  return { ...plan, ops }
}

module.exports = { gen, exec, shrinks, recycle: 96 }
