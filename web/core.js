'use strict'
// The simulator's core: randomness, virtual time and the event loop.

class Rng {
  constructor(seed) {
    let h = 0x9e3779b9 ^ 0
    const mix = (x) => {
      h = Math.imul(h ^ x, 0x85ebca6b)
      h ^= h >>> 13
      h = Math.imul(h, 0xc2b2ae35)
      h ^= h >>> 16
      return h >>> 0
    }
    this.a = mix(seed >>> 0)
    this.b = mix(Math.floor(seed / 4294967296) >>> 0)
    this.c = mix(0x1234567)
    this.d = mix(0x89abcdef)
    for (let i = 0; i < 12; i++) this.u32()
  }
  u32() {
    const t = (((this.a + this.b) | 0) + this.d) | 0
    this.d = (this.d + 1) | 0
    this.a = this.b ^ (this.b >>> 9)
    this.b = (this.c + (this.c << 3)) | 0
    this.c = (this.c << 21) | (this.c >>> 11)
    this.c = (this.c + t) | 0
    return t >>> 0
  }
  int(n) {
    return Math.floor((this.u32() / 4294967296) * n)
  }
  chance(p) {
    return this.u32() / 4294967296 < p
  }
  pick(l) {
    return l[this.int(l.length)]
  }
  range(a, b) {
    return a + this.int(b - a + 1)
  }
}

class Hash {
  constructor() {
    this.x = 0xdeadbeef
    this.y = 0x41c6ce57
  }
  add(s) {
    for (let i = 0; i < s.length; i++) {
      const c = s.charCodeAt(i)
      this.x = Math.imul(this.x ^ c, 2654435761)
      this.y = Math.imul(this.y ^ c, 1597334677)
    }
    this.x = Math.imul(this.x ^ 0x1f, 2654435761)
    this.y = Math.imul(this.y ^ 0x1f, 1597334677)
  }
  hex() {
    return (this.x >>> 0).toString(16).padStart(8, '0') + (this.y >>> 0).toString(16).padStart(8, '0')
  }
}

class Violation extends Error {
  constructor(sig, text) {
    super(text)
    this.sig = sig
  }
}

const realImmediate = setImmediate
const settleMicrotasks = () => new Promise((r) => realImmediate(r))

// Loop is the virtual event loop: macrotasks at virtual times, in one order
// that the plan decides. Microtasks run between macrotasks, except before a
// task that is glued to the previous one.
class Loop {
  constructor(hooks = {}) {
    this.now = 0
    this.seq = 0
    this.heap = []
    this.live = new Map()
    this.steps = 0
    this.switches = 0
    this.order = new Hash()
    this.hooks = hooks
    this.limit = 200000
    this.errors = []
  }
  less(a, b) {
    return a.t !== b.t ? a.t < b.t : a.n < b.n
  }
  push(e) {
    const h = this.heap
    h.push(e)
    let i = h.length - 1
    while (i > 0) {
      const p = (i - 1) >> 1
      if (!this.less(h[i], h[p])) break
      ;[h[i], h[p]] = [h[p], h[i]]
      i = p
    }
  }
  pop() {
    const h = this.heap
    const top = h[0]
    const last = h.pop()
    if (h.length) {
      h[0] = last
      let i = 0
      for (;;) {
        let c = 2 * i + 1
        if (c >= h.length) break
        if (c + 1 < h.length && this.less(h[c + 1], h[c])) c++
        if (!this.less(h[c], h[i])) break
        ;[h[i], h[c]] = [h[c], h[i]]
        i = c
      }
    }
    return top
  }
  // at runs fn after d virtual milliseconds, as a macrotask.
  at(d, name, fn, glue = false) {
    const e = { t: this.now + Math.max(0, d), n: ++this.seq, name, fn, glue }
    this.push(e)
    this.live.set(e.n, e)
    return e.n
  }
  cancel(n) {
    const e = this.live.get(n)
    if (e) {
      e.dead = true
      this.live.delete(n)
    }
  }
  setTimeout(f, d, ...args) {
    d = Number(d)
    return this.at(d > 0 ? d : 0, 'timer', () => f(...args))
  }
  clearTimeout(n) {
    this.cancel(n)
  }
  // run executes events until none is left.
  async run() {
    let last = ''
    await settleMicrotasks()
    while (this.heap.length) {
      const e = this.pop()
      if (e.dead) continue
      this.live.delete(e.n)
      if (e.t > this.now) this.now = e.t
      if (Loop.tick) Loop.tick()
      if (++this.steps > this.limit) throw new Violation('livelock', `no rest after ${this.steps} events`)
      this.order.add(e.name)
      if (e.name !== last) this.switches++
      last = e.name
      try {
        e.fn()
      } catch (x) {
        if (x instanceof Violation) throw x
        if (this.hooks.error) this.hooks.error(e, x)
        else throw x
      }
      const next = this.heap[0]
      if (next && next.glue && next.t <= this.now) continue
      await settleMicrotasks()
      if (this.fault) throw this.fault
    }
  }
}

module.exports = { Rng, Hash, Violation, Loop, settleMicrotasks }
