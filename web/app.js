'use strict'
// C26: the whole page (web/src/index.tsx with all its components) with a
// simulated browser, user, address bar, layout and transcription worker.
const vm = require('vm')
const fs = require('fs')
const path = require('path')
const { Rng, Hash, Violation } = require('./core')
const { World } = require('./page')

const REACT = new vm.Script(fs.readFileSync(path.join(__dirname, 'rtree.js'), 'utf8'), { filename: 'rtree.js' })
const LIBS = new vm.Script(fs.readFileSync(path.join(__dirname, 'libs.js'), 'utf8'), { filename: 'libs.js' })

// ---- plans

const GAPS = [0, 0, 1, 5, 20, 49, 51, 100, 300, 499, 501, 700, 1500, 4000]
const DELAYS = [0, 0, 1, 5, 20, 50, 100, 400, 499, 501, 700, 3000]
const WORDS = ['roma', 'a', '가나', 'abc def', '', ' ', '  x', 'été', 'a&b=c', '100%', 'c++', '#1', '?', 'Ĉu vi pretas?', 'long word '.repeat(3), 'a'.repeat(40)]

function gen(prop, seed) {
  const r = new Rng(seed)
  const plan = { prop, seed, net: r.pick([0, 0, 1, 5, 60]), boot: r.pick([0, 1, 10, 300]), lane: r.pick([0, 0.5, 1]), rmax: r.pick([0, 1, 4, 20]), pmax: r.pick([0, 1, 8, 40]), sync: r.pick([0, 0.5, 1]) }
  // Sometimes names and words look alike, and languages have examples in common.
  const alike = r.chance(0.2)
  const pool = alike ? r.pick([['a', 'aa', 'aaa'], ['por', 'por-br'], ['kat-1', 'kat-2', 'kat']]) : ['aa', 'bb', 'cc', 'dd', 'ee', 'ff']
  const words = alike ? { a: ['b', 'ab', 'aab', 'a'], por: ['-bra', 'a', '-br', '-br-bra'], 'kat-1': ['-1a', 'a', '-2a', '-1'] }[pool[0]] : WORDS
  const langs = pool.slice(0, r.range(alike ? 2 : 1, pool.length))
  plan.specs = {}
  const common = r.chance(0.15)
  for (const l of langs) {
    const n = r.pick([0, 1, 2, 5, 5, 8])
    if (alike) plan.specs[l] = words.slice(0, Math.max(1, n))
    else plan.specs[l] = Array.from({ length: n }, (_, i) => (common ? 'ex' : l) + (r.chance(0.25) ? ' ' + r.pick(WORDS) : '') + i)
  }
  plan.translits = r.chance(0.3) ? ['pinyin'] : []
  plan.reqs = Array.from({ length: r.range(1, 6) }, () => ({ d: r.pick(DELAYS), k: r.chance(0.15) ? r.pick(['err', 'err', 'errval', 'empty', 'blank']) : r.chance(0.02) ? 'never' : 'ok', f: r.pick([0, 0, 1, 2]), n: r.pick([0, 0, 0, 3, 12, 40]) }))
  plan.info = { k: r.pick(['ok', 'ok', 'ok', 'ok', 'err', 'never']), d: r.pick(DELAYS) }
  plan.width = r.pick([300, 500, 700])
  const q = {}
  if (r.chance(0.7)) q.lang = r.pick(langs)
  if (r.chance(q.lang ? 0.7 : 0.2)) q.word = r.pick([...words, ...plan.specs[q.lang || langs[0]]])
  plan.start = q
  const focus = r.chance(0.4) ? r.pick(GAPS) : -1
  plan.sessions = []
  const ns = r.chance(0.2) ? r.range(2, 3) : 1
  const weights = [['type', r.range(1, 6)], ['add', r.range(0, 6)], ['select', r.range(0, 4)], ['example', r.range(0, 4)], ['back', r.range(0, 3)], ['forward', r.range(0, 2)], ['shuffle', r.range(0, 2)], ['resize', r.range(0, 2)], ['search', r.range(0, 2)]]
  if (r.chance(0.25)) weights.find((w) => w[0] === 'example')[1] += 4, weights.find((w) => w[0] === 'back')[1] += 4, weights.find((w) => w[0] === 'forward')[1] += 3
  for (let s = 0; s < ns; s++) {
    const ops = []
    let at = r.pick([0, 1, 30, 400, 2000])
    const n = r.range(0, 14)
    for (let i = 0; i < n; i++) {
      let k = r.int(weights.reduce((a, w) => a + w[1], 0))
      const t = weights.find((w) => (k -= w[1]) < 0)[0]
      const op = { at, t }
      if (t === 'type') op.w = r.chance(0.3) ? r.pick(Object.values(plan.specs).flat().concat(words)) : r.pick(words)
      if (t === 'add') op.w = r.pick(['z', 'y', ' ', '\b'])
      if (t === 'select' || t === 'example') op.n = r.int(12)
      if (t === 'search') op.w = r.pick(['a', 'ㅇ', 'bb', 'zz', '가'])
      if (t === 'resize') op.n = r.pick([200, 300, 500, 700, 1200])
      if (r.chance(0.08)) op.glue = true
      ops.push(op)
      at += focus >= 0 && r.chance(0.7) ? focus : r.pick(GAPS)
    }
    plan.sessions.push({ ops, end: s < ns - 1 ? at + r.pick(GAPS) : -1 })
  }
  return plan
}

const KO = { aa: '가가어', bb: '나나어', cc: '다라어', dd: '라어(제1안)', ee: '아이어', ff: '하어' }
const spec = (l, words) => ({ lang: { id: l, code2: l, code3: l + l[0], english: 'Lang ' + l, korean: KO[l] || l, script: 'Latn', translit: [] }, config: { authors: ['a'], stage: 'stable' }, test: words.map((word) => ({ word, result: word + '!' })), source: '' })
const specsOf = (plan) => Object.fromEntries(Object.entries(plan.specs).map(([l, ws]) => [l, spec(l, ws)]))

// ---- the address bar: what survives a reload of the page

class History {
  constructor(url) {
    this.entries = [{ url, state: null }]
    this.at = 0
  }
  url() {
    return new URL(this.entries[this.at].url, 'https://hangulize.invalid')
  }
  query(i = this.at) {
    const u = new URL(this.entries[i].url, 'https://hangulize.invalid').searchParams
    return { lang: u.get('lang'), word: u.get('word') }
  }
}

// The layout: the size classes of Result.css.
const FONT = { 1: [44, 1.4], 2: [52, 1.2], 3: [64, 1.2], 4: [80, 1], 5: [112, 1] }
const CAPACITY = 128
function lines(text, font, width) {
  let w = 0
  for (const ch of text) w += ch.codePointAt(0) > 0x1100 ? font : font / 2
  return Math.max(1, Math.ceil(w / width))
}
const sizeOf = (cls) => {
  const m = /(?:^|\s)size-([1-5])(?:\s|$)/.exec(String(cls || ''))
  return m ? Number(m[1]) : 0
}
const heightAt = (size, text, width) => lines(text, FONT[size][0], width) * FONT[size][0] * FONT[size][1]
const fits = (size, text, width) => size === 1 || heightAt(size, text, width) <= CAPACITY

const answer = (q, lang, word) => (q.f === 2 ? `${lang}:${word}`.replace(/./gu, '가') + '나'.repeat(q.n) : q.f === 1 ? `${lang}:${word}` + 'n'.repeat(q.n) : lang + '의 ' + word + '나'.repeat(q.n))

const show = (q) => `(${JSON.stringify(q.lang)}, ${JSON.stringify(q.word)})`
const same = (a, b) => a && b && a.lang === b.lang && a.word === b.word

class Missing extends Error {}

async function session(plan, ctx, si, shared) {
  const S = plan.sessions[si]
  const w = new World({ ...plan, seed: plan.seed + si * 7919, mode: 'app' }, ctx)
  w.shared = shared
  const H = shared.history
  const manifest = { version: 'v0', translits: plan.translits, specs: specsOf(plan) }
  const langs = Object.keys(manifest.specs)
  let missing = null
  let live = true
  // The worker.
  const requests = []
  let outstanding = 0
  w.asked = (port, type, p, args, id) => {
    const x = port.worker
    if (x && x.kind === 'hangulize' && p[0] === 'hangulize') {
      requests.push({ lang: args[0], word: args[1], port, id })
      outstanding++
    }
  }
  w.answered = (port, p, id, ok, value) => {
    const x = port.worker
    if (x && x.kind === 'hangulize' && p[0] === 'hangulize') {
      outstanding--
      Object.assign(requests.find((r) => r.port === port && r.id === id), { done: true, ok, value })
    }
  }
  w.startWorker = (x) => {
    x.self.onmessage = (m) => {
      const k = m.path[0]
      const reply = (d, r) => w.loop.at(d, 'worker', () => x.self.post({ id: m.id, ...r }))
      const err = { thrown: true, value: { $error: { name: 'Error', message: 'failed' } } }
      if (x.kind === 'hangulize' && k === 'hangulize') {
        const q = plan.reqs[w.calls++ % plan.reqs.length]
        const [lang, word] = [m.args[0].value, m.args[1].value]
        switch (q.k) {
          case 'never': return w.count('worker never answers')
          case 'ok': return reply(q.d, { wire: { value: answer(q, lang, word) } })
          case 'empty': return w.count('empty transcription'), reply(q.d, { wire: { value: '' } })
          case 'blank': return w.count('empty transcription'), reply(q.d, { wire: { value: ' ' } })
        }
        w.count('worker fails')
        return reply(q.d, q.k === 'errval' ? { thrown: true, value: 'failed' } : err)
      }
      if (k === 'getVersion' || k === 'getSpecs') {
        if (plan.info.k === 'never') return w.count('worker never answers')
        if (plan.info.k === 'err') return w.count('worker fails'), reply(plan.info.d, err)
        return reply(plan.info.d, { wire: { value: k === 'getVersion' ? 'v1' : specsOf(plan) } })
      }
      reply(0, { wire: { value: undefined } })
    }
    w.loop.at(w.rng.int(plan.boot + 1), 'boot', () => x.self.start())
  }

  // The page.
  const { c, comlink } = w.newRealm('page', null, { URLSearchParams })
  const run = (code) => vm.runInContext(code, c)
  let renders = 0
  const crash = (where, e) => {
    if (e instanceof Missing || missing) throw (missing = missing || e)
    if (!w.loop.fault) w.loop.fault = new Violation('crash', `${where} threw ${e && e.stack ? String(e.stack).split('\n').slice(0, 4).join('\n') : e}: the page goes blank`)
    throw w.loop.fault
  }
  c.__spawn = (o, url) => w.spawn(o, url)
  c.__env = {
    missing: (what) => {
      missing = missing || new Missing(`${what} is not provided by the simulator`)
      throw missing
    },
    later: (kind, f) => {
      const g = () => live && f()
      if (kind === 'render' && w.rng.chance(plan.lane))
        return run('(f) => Promise.resolve().then(f)')(() => {
          try {
            g()
          } catch (e) {
            if (!w.loop.fault) w.loop.fault = e
          }
        })
      w.loop.at(w.rng.int((kind === 'render' ? plan.rmax : kind === 'effects' ? plan.pmax : 0) + 1), kind, g)
    },
    syncEffects: () => w.rng.chance(plan.sync),
    rendered: () => {
      if (++renders > 20000) w.fail('livelock', 'the page renders without end')
    },
    committed: () => w.note('commit'),
    crash,
    measure: (node) => {
      const cls = node.ancestors()
      const size = cls.map(sizeOf).find((x) => x) || 5
      return heightAt(size, node.textContent, shared.width)
    },
    capacity: (node) => (sizeOf(node.className) === 1 ? 'none' : CAPACITY + 'px'),
    height: (node) => CAPACITY,
    width: () => shared.width,
    history: {
      location: () => {
        const u = H.url()
        return { pathname: u.pathname, search: u.search, hash: u.hash }
      },
      href: () => H.url().href,
      state: () => H.entries[H.at].state,
      change: (url, state, replace) => {
        const u = new URL(url, H.url())
        if (++shared.changes > 400) w.fail('livelock', 'the address is changed without end')
        w.note(`${replace ? 'replace' : 'push'} ${u.search}`)
        const e = { url: u.pathname + u.search + u.hash, state }
        if (replace) H.entries[H.at] = e
        else {
          H.entries.splice(H.at + 1, 1e9, e)
          H.at++
        }
      },
      go: (n) => travel(n),
    },
    timer: (f, d) => w.loop.at(d, 'timer', () => live && f(w.loop.now)),
  }
  run(PAGE)
  const travel = (n) => {
    const to = H.at + n
    if (to < 0 || to >= H.entries.length || n === 0) return
    shared.moving = true
    w.loop.at(0, 'popstate', () => {
      shared.moving = false
      H.at = Math.min(Math.max(0, to), H.entries.length - 1)
      // React flushes the updates of this event at its end.
      c.__event(() => c.__dispatch('popstate', { state: H.entries[H.at].state }))
    })
  }
  const nodeMaker = run('(inst, tag) => __makeNode(inst, tag)')
  c.__env.node = nodeMaker
  const R = REACT.runInContext(c)(c.__env)
  c.__event = R.event
  const libs = LIBS.runInContext(c)(c.__env, R.React, R.runtime)
  const plain = run('({})')
  const provided = {
    ...libs, comlink, react: R.React, 'react/jsx-runtime': R.runtime, 'react/jsx-dev-runtime': R.runtime, 'react-dom': R.ReactDOM, 'react-dom/client': R.ReactDOM,
    'manifest.json': run('(s) => JSON.parse(s)')(JSON.stringify(manifest)), wasm_exec: () => {}, 'semantic-ui-less/semantic.less': plain, 'web-vitals': plain,
  }

  // What the page shows.
  const nodes = () => {
    const l = []
    const walk = (inst) => {
      if (inst.kind === 'host' || inst.kind === 'text') l.push(inst.node)
      for (const k of inst.kids.values()) walk(k)
    }
    const root = R.root()
    if (root) walk(root)
    return l
  }
  const has = (n, cls) => String(n.className || '').split(/\s+/).includes(cls)
  const within = (n, cls) => n.ancestors().some((x) => String(x || '').split(/\s+/).includes(cls))
  const seen = () => {
    const l = nodes()
    const input = l.find((n) => /(^|[-.])(input|textarea)$/i.test(n.tag || ''))
    const select = l.find((n) => /(^|[-.])(dropdown|select)$/i.test(n.tag || ''))
    if (!input || !select) return null
    const p = select.props
    const options = p.options ? p.options.map((o) => o.value) : l.filter((n) => n.tag === 'option' || n.tag === 'sui-Dropdown.Item').map((n) => n.props.value)
    const result = l.find((n) => has(n, 'result'))
    return {
      input, select, lang: p.value, word: input.props.value, options, result,
      text: result ? result.textContent : '',
      loadingInput: !!input.props.loading, loadingResult: !!result && has(result, 'loading'), size: result ? sizeOf(result.className) : 0,
      examples: l.filter((n) => within(n, 'examples') && n.tag !== null && n.tag !== 'label' && n.textContent !== '' && typeof n.props.onClick === 'function'),
      shuffle: l.find((n) => within(n, 'examples') && n.tag !== null && typeof n.props.onClick === 'function' && n.textContent === ''),
    }
  }
  const M = shared.model // {entries, at}: what each entry of the history has to show; null: not known yet
  const expected = () => M.entries[M.at]
  const key = (q) => q.lang + '\u0000' + q.word
  // A click at the example of the place shown adds an entry for the same place,
  // or leaves the history as it is.
  const settleAgain = () => {
    if (!M.again) return
    if (H.at !== M.again.at) M.entries.splice(M.at + 1, 1e9, { ...M.entries[M.at] }), M.at++
    M.again = null
  }
  const mouse = () => run('__click')()
  const doOp = (op) => {
    if (op.t === 'resize') {
      shared.width = op.n
      w.classes.add('resized')
      R.settle(true) // resizing is slower than the effects of what was painted
      return R.event(() => c.__dispatch('resize', {}))
    }
    // A traversal of the history under way is waited for, and what was just
    // painted has had its first effects before somebody can click at it.
    if (shared.moving) return
    R.settle()
    settleAgain()
    if (H.query().lang !== null && H.query().word !== null) adopt()
    const s = seen()
    if (!s) return
    if (w.loop.now > 0) w.note('op ' + op.t)
    if (outstanding) w.classes.add('input while the worker is busy')
    const put = (q) => {
      M.entries[M.at] = q
      w.classes.add(op.t)
    }
    switch (op.t) {
      case 'type':
      case 'add': {
        if (typeof s.input.props.onChange !== 'function') w.fail('dead', 'the word cannot be edited')
        const word = op.t === 'type' ? op.w : op.w === '\b' ? s.word.slice(0, -1) : s.word + op.w
        if (word === s.word) return
        put({ lang: s.lang, word })
        const e = run('(value) => __change(value)')(word)
        return R.event(() => s.input.props.onChange(e, { ...s.input.props, value: word }))
      }
      case 'search':
      case 'select': {
        let values = s.options
        if (op.t === 'search') {
          if (typeof s.select.props.search !== 'function') return
          const r = s.select.props.search(s.select.props.options, op.w)
          values = r.map((x) => x.value)
          for (const v of values) if (!langs.includes(v)) w.fail('languages', `the search for ${JSON.stringify(op.w)} offers the unknown language ${JSON.stringify(v)}`)
        }
        if (!values.length) return
        const lang = values[(op.n || 0) % values.length]
        if (lang === s.lang) return
        put({ lang, word: s.word })
        return R.event(() => s.select.props.onChange(run('(v) => __change(v)')(lang), { ...s.select.props, value: lang }))
      }
      case 'example': {
        if (!s.examples.length) return
        const n = s.examples[op.n % s.examples.length]
        const q = { lang: s.lang, word: n.textContent }
        w.classes.add('example')
        if (!same(q, M.entries[M.at])) M.entries.splice(M.at + 1, 1e9, q), M.at++
        else M.again = { at: H.at }
        return R.event(() => n.props.onClick(mouse()))
      }
      case 'shuffle':
        if (!s.shuffle) return
        w.classes.add('shuffle')
        return R.event(() => s.shuffle.props.onClick(mouse()))
      case 'back':
      case 'forward': {
        const d = op.t === 'back' ? -1 : 1
        if (H.at + d < 0 || H.at + d >= H.entries.length) return
        if (M.at + d < 0 || M.at + d >= M.entries.length) w.fail('history', `the address bar has ${H.entries.length} entries: ${H.entries.map((_, i) => show(H.query(i))).join(' ')}, expected ${M.entries.map((q) => (q ? show(q) : 'any')).join(' ')}`)
        M.at += d
        w.classes.add(op.t)
        return travel(d)
      }
    }
  }
  const adopt = () => {
    // An address without a language or a word: the page chooses.
    const q = H.query()
    const e = expected()
    if (e && e.lang !== undefined && e.word !== undefined) return
    const given = e || {}
    if (given.lang !== undefined && q.lang !== given.lang) w.fail('wrong-address', `the page was opened for the language ${given.lang} and shows ${q.lang}`)
    if (given.word !== undefined && q.word !== given.word) w.fail('wrong-address', `the page was opened for the word ${JSON.stringify(given.word)} and shows ${JSON.stringify(q.word)}`)
    if (!langs.includes(q.lang)) w.fail('wrong-address', `the page chose the language ${JSON.stringify(q.lang)}`)
    const words = plan.specs[q.lang]
    if (given.word === undefined && !(words.length ? words.includes(q.word) : q.word === null || q.word === '')) w.fail('wrong-address', `the page chose the word ${JSON.stringify(q.word)} for the language ${q.lang}, whose examples are ${JSON.stringify(words)}`)
    w.classes.add('place chosen by the page')
    M.entries[M.at] = { lang: q.lang, word: q.word || '' }
  }
  const rest = (final) => {
    settleAgain()
    adopt()
    const e = expected()
    const q = H.query()
    if (q.word === null) q.word = ''
    if (!same(q, e)) w.fail('wrong-address', `the address shows ${show(q)}, the user asked for ${show(e)}`)
    const s = seen()
    if (!s) w.fail('nothing', 'the page shows no prompt')
    if (s.lang !== e.lang || s.word !== e.word) w.fail('wrong-prompt', `the prompt shows ${show(s)}, the user asked for ${show(e)}`)
    if (!final) return
    const title = c.document.title
    if (e.word && !title.includes(e.word)) w.fail('wrong-title', `the title is ${JSON.stringify(title)} for ${show(e)}`)
    const other = M.entries.concat(shared.typed).find((o) => o && o.word && o.word.length > 3 && !e.word.includes(o.word) && title.includes(o.word) && o.word !== e.word)
    if (other) w.fail('wrong-title', `the title is ${JSON.stringify(title)} for ${show(e)}`)
    if (JSON.stringify([...s.options].sort()) !== JSON.stringify([...langs].sort())) w.fail('languages', `the languages offered are ${JSON.stringify(s.options)}, expected ${JSON.stringify(langs)}`)
    const ex = s.examples.map((n) => n.textContent)
    const words = plan.specs[e.lang]
    if (ex.some((x) => !words.includes(x)) || new Set(ex).size !== ex.length || (words.length && !ex.length)) w.fail('examples', `the examples offered for ${e.lang} are ${JSON.stringify(ex)}, the language has ${JSON.stringify(words)}`)
    if (outstanding) {
      if (e.word.trim() && !s.loadingInput) w.fail('not-loading', `the page waits for the worker and does not say so at ${show(e)}`)
      return
    }
    let want = ['']
    if (e.word.trim()) {
      const l = requests.filter((r) => same(r, e) && r.done)
      if (!l.length) w.fail('not-asked', `at rest the worker was never asked for ${show(e)}; the page shows ${JSON.stringify(s.text)}`)
      const newest = l[l.length - 1]
      want = newest === requests[requests.length - 1] ? [newest] : l
      want = want.map((r) => (r.ok ? String(r.value).trim() : ''))
      w.classes.add(want[0] ? 'result shown' : 'failed or empty result')
    }
    if (!want.includes(s.text)) w.fail('wrong-result', `at rest the page shows ${JSON.stringify(s.text)} for ${show(e)}, expected ${want.map((x) => JSON.stringify(x)).join(' or ')}`)
    if (s.loadingInput || s.loadingResult) w.fail('loading', `at rest the page still shows that it is loading at ${show(e)}`)
    if (s.text && s.size) {
      const best = [5, 4, 3, 2, 1].find((z) => fits(z, s.text, shared.width))
      if (s.size !== best) w.fail('size', `the result ${JSON.stringify(s.text)} is shown in size ${s.size} in a width of ${shared.width}, the largest that fits is ${best}`)
      if (best < 5) w.classes.add('smaller result')
    }
  }
  let sig
  let viol
  try {
    w.loop.at(0, 'load', () => {
      try {
        w.require(c, ctx.build, 'index.js', provided)
      } catch (e) {
        if (e instanceof Violation) throw e
        crash('loading the page', e)
      }
    })
    for (const op of S.ops) w.loop.at(op.at, 'input', () => doOp(op), op.glue)
    let last = S.ops.length ? S.ops[S.ops.length - 1].at : 0
    if (S.end >= 0) w.loop.at(S.end, 'reload', () => {
      live = false
      w.loop.heap.length = 0
    })
    await w.loop.run()
    if (missing) throw missing
    if (S.end >= 0) {
      w.classes.add('reload')
      w.loop.heap.length = 0
      if (S.end - last > 300 && seen()) rest(false)
      // Only the address survives.
      M.again = null
      M.entries = H.entries.map((_, i) => ({ lang: H.query(i).lang === null ? undefined : H.query(i).lang, word: H.query(i).word === null ? undefined : H.query(i).word }))
      M.at = H.at
    } else rest(true)
  } catch (e) {
    if (missing) throw missing
    if (!(e instanceof Violation)) throw e
    w.sig = e.sig
    w.viol = e.message
  }
  w.obs.add(w.loop.order.hex() + (w.sig || '') + JSON.stringify(H.entries))
  return w.result()
}

// The browser's API in the page.
const PAGE = `(() => {
  const h = globalThis.__env
  globalThis.window = globalThis
  globalThis.Worker = class Worker { constructor(url) { __spawn(this, String(url)) } terminate() {} addEventListener() {} removeEventListener() {} postMessage() {} }
  globalThis.fetch = () => Promise.reject(new Error('no'))
  const listeners = {}
  const add = (k, f, o) => { (listeners[k] = listeners[k] || []).push({ f, once: o && o.once }); if (o && o.signal) o.signal.addEventListener('abort', () => remove(k, f)) }
  const remove = (k, f) => { listeners[k] = (listeners[k] || []).filter((x) => x.f !== f) }
  globalThis.addEventListener = add
  globalThis.removeEventListener = remove
  globalThis.__dispatch = (type, e) => { for (const x of [...(listeners[type] || [])]) { if (x.once) remove(type, x.f); typeof x.f === 'function' ? x.f({ type, preventDefault() {}, ...e }) : x.f.handleEvent({ type, ...e }) } }
  globalThis.__click = () => { const e = { type: 'click', button: 0, defaultPrevented: false, preventDefault() { e.defaultPrevented = true }, stopPropagation() {}, persist() {} }; return e }
  globalThis.__change = (value) => ({ type: 'change', target: { value }, currentTarget: { value }, nativeEvent: {}, preventDefault() {}, stopPropagation() {}, persist() {} })
  class Node {
    constructor(inst, tag) { this.inst = inst; this.tag = tag; this.nodeType = tag === null ? 3 : 1; this.props = {}; this.data = '' }
    kids() { const l = []; const walk = (i) => { for (const k of i.kids.values()) k.node ? l.push(k.node) : walk(k) }; if (this.inst) walk(this.inst); return l }
    get childNodes() { return this.kids() }
    get children() { return this.kids().filter((n) => n.tag !== null) }
    get firstChild() { return this.kids()[0] || null }
    get lastChild() { const l = this.kids(); return l[l.length - 1] || null }
    get firstElementChild() { return this.children[0] || null }
    get lastElementChild() { const l = this.children; return l[l.length - 1] || null }
    get parentNode() { for (let i = this.inst && this.inst.parent; i; i = i.parent) if (i.node) return i.node; return null }
    get parentElement() { return this.parentNode }
    get className() { return this.props.className || '' }
    get classList() { const l = String(this.className).split(/\\s+/).filter(Boolean); return { contains: (x) => l.includes(x), [Symbol.iterator]: () => l[Symbol.iterator](), length: l.length } }
    get textContent() { return this.tag === null ? this.data : this.kids().map((k) => k.textContent).join('') }
    get innerText() { return this.textContent }
    get tagName() { return String(this.tag).toUpperCase() }
    get style() { return this.props.style || {} }
    get value() { return this.props.value }
    ancestors() { const l = []; for (let n = this; n; n = n.parentNode) l.push(n.className); return l }
    get offsetHeight() { return h.measure(this) }
    get scrollHeight() { return h.measure(this) }
    get clientHeight() { return h.measure(this) }
    get offsetWidth() { return h.width() }
    get clientWidth() { return h.width() }
    get scrollWidth() { return h.width() }
    getBoundingClientRect() { const height = h.measure(this), width = h.width(); return { x: 0, y: 0, top: 0, left: 0, width, height, right: width, bottom: height } }
    addEventListener() {}
    removeEventListener() {}
    focus() {}
    blur() {}
    select() {}
    find(f) { for (const k of this.kids()) { if (k.tag !== null && f(k)) return k; const x = k.tag !== null && k.find(f); if (x) return x } return null }
    querySelector(q) { return this.find((n) => q === n.tag || (q[0] === '.' && n.classList.contains(q.slice(1)))) }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false }
  }
  globalThis.HTMLElement = globalThis.HTMLDivElement = globalThis.Node = globalThis.Element = Node
  globalThis.__makeNode = (inst, tag) => new Node(inst, tag)
  const rootNode = new Node(null, 'div')
  globalThis.document = { title: '', hidden: false, visibilityState: 'visible', documentElement: new Node(null, 'html'), body: new Node(null, 'body'), activeElement: null, getElementById: (id) => (id === 'root' ? rootNode : null), querySelector: (q) => (q === '#root' ? rootNode : null), addEventListener: add, removeEventListener: remove }
  globalThis.getComputedStyle = (n) => ({ maxHeight: h.capacity(n), height: h.capacity(n) === 'none' ? 'auto' : h.capacity(n), getPropertyValue(k) { return k === 'max-height' ? this.maxHeight : '' } })
  const loc = {}
  for (const k of ['href', 'search', 'pathname', 'hash']) Object.defineProperty(loc, k, { get: () => (k === 'href' ? h.history.href() : h.history.location()[k]) })
  Object.assign(loc, { origin: 'https://hangulize.invalid', protocol: 'https:', host: 'hangulize.invalid', hostname: 'hangulize.invalid', reload() { h.missing('location.reload') } })
  globalThis.location = loc
  document.location = loc
  globalThis.history = { get state() { return h.history.state() }, pushState: (s, t, u) => h.history.change(u, s, false), replaceState: (s, t, u) => h.history.change(u, s, true), back: () => h.history.go(-1), forward: () => h.history.go(1), go: (n) => h.history.go(n) }
  globalThis.requestAnimationFrame = (f) => h.timer(f, 16)
  globalThis.cancelAnimationFrame = (n) => clearTimeout(n)
  globalThis.queueMicrotask = (f) => { Promise.resolve().then(f) }
  globalThis.setInterval = () => h.missing('setInterval')
  const observers = new Set()
  globalThis.ResizeObserver = class { constructor(f) { this.f = f; this.l = new Set(); observers.add(this) } observe(n) { this.l.add(n); h.timer(() => this.l.has(n) && this.f([{ target: n }], this), 0) } unobserve(n) { this.l.delete(n) } disconnect() { this.l.clear(); observers.delete(this) } }
  add('resize', () => { for (const o of observers) if (o.l.size) h.timer(() => o.l.size && o.f([...o.l].map((target) => ({ target })), o), 0) })
  const store = () => { const m = {}; return { getItem: (k) => (k in m ? m[k] : null), setItem: (k, v) => { m[k] = String(v) }, removeItem: (k) => { delete m[k] } } }
  globalThis.localStorage = store()
  globalThis.sessionStorage = store()
  globalThis.navigator = { language: 'ko', languages: ['ko'], userAgent: 'simulator', onLine: true }
  globalThis.AbortController = class { constructor() { const l = []; this.signal = { aborted: false, addEventListener: (k, f) => l.push(f) }; this.abort = () => { if (!this.signal.aborted) { this.signal.aborted = true; l.forEach((f) => f()) } } } }
})()`

async function exec(plan, ctx) {
  const q = plan.start
  const u = new URLSearchParams()
  if (q.lang !== undefined) u.set('lang', q.lang)
  if (q.word !== undefined) u.set('word', q.word)
  const text = u.toString()
  const shared = { history: new History('/' + (text ? '?' + text : '')), width: plan.width, changes: 0, typed: plan.sessions.flatMap((s) => s.ops).filter((o) => o.t === 'type').map((o) => ({ lang: '', word: o.w })), model: { entries: [{ lang: q.lang, word: q.word }], at: 0 } }
  const all = { hash: '', sched: '', sig: '', viol: '', classes: [], faults: {}, calls: 0, steps: 0, switches: 0, ms: 0, policy: 'page' }
  const h = new Hash()
  const o = new Hash()
  const cl = new Set()
  for (let i = 0; i < plan.sessions.length; i++) {
    shared.changes = 0
    shared.moving = false
    const r = await session(plan, ctx, i, shared)
    h.add(r.hash)
    o.add(r.sched)
    for (const c of r.classes) cl.add(c)
    for (const [k, v] of Object.entries(r.faults)) all.faults[k] = (all.faults[k] || 0) + v
    for (const k of ['calls', 'steps', 'switches', 'ms']) all[k] += r[k]
    if (r.sig) {
      Object.assign(all, { sig: r.sig, viol: (plan.sessions.length > 1 ? `page load ${i + 1}: ` : '') + r.viol })
      break
    }
  }
  return Object.assign(all, { hash: h.hex(), sched: o.hex(), classes: [...cl] })
}

function* shrinks(plan) {
  const copy = () => JSON.parse(JSON.stringify(plan))
  if (plan.sessions.length > 1)
    for (let i = 0; i < plan.sessions.length; i++) {
      const q = copy()
      q.sessions.splice(i, 1)
      if (q.sessions[q.sessions.length - 1].end >= 0) q.sessions[q.sessions.length - 1].end = -1
      yield q
    }
  for (let s = 0; s < plan.sessions.length; s++) {
    const n = plan.sessions[s].ops.length
    for (let size = n >> 1 || (n ? 1 : 0); size >= 1; size >>= 1)
      for (let i = 0; i < n; i += size) {
        const q = copy()
        q.sessions[s].ops.splice(i, size)
        yield q
      }
  }
  for (const k of ['net', 'boot', 'rmax', 'pmax'])
    if (plan[k]) {
      const q = copy()
      q[k] = 0
      yield q
    }
  for (const k of ['lane', 'sync'])
    if (plan[k] !== 1) {
      const q = copy()
      q[k] = 1
      yield q
    }
  for (const l of Object.keys(plan.specs)) {
    if (Object.keys(plan.specs).length > 1 && plan.start.lang !== l) {
      const q = copy()
      delete q.specs[l]
      yield q
    }
    if (plan.specs[l].length) {
      const q = copy()
      q.specs[l] = []
      yield q
    }
  }
  if (plan.reqs.length > 1) {
    const q = copy()
    q.reqs = q.reqs.slice(0, q.reqs.length >> 1)
    yield q
  }
  for (let i = 0; i < plan.reqs.length; i++)
    for (const [k, v] of [['k', 'ok'], ['n', 0], ['d', 0]])
      if (plan.reqs[i][k] !== v) {
        const q = copy()
        q.reqs[i][k] = v
        yield q
      }
  for (let s = 0; s < plan.sessions.length; s++)
    for (let i = 0; i < plan.sessions[s].ops.length; i++) {
      if (plan.sessions[s].ops[i].glue) {
        const q = copy()
        delete q.sessions[s].ops[i].glue
        yield q
      }
      if (plan.sessions[s].ops[i].t === 'type' && plan.sessions[s].ops[i].w.length > 1) {
        const q = copy()
        q.sessions[s].ops[i].w = 'a'
        yield q
      }
    }
}

module.exports = { gen, exec, shrinks, recycle: 300 }
