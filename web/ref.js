'use strict'
// The native reference program.
const { spawn } = require('child_process')
const path = require('path')

class Ref {
  constructor(build) {
    this.p = spawn(path.join(build, 'ref'), [], { stdio: ['pipe', 'pipe', 'inherit'] })
    this.buf = []
    this.p.stdout.on('data', (d) => {
      this.buf.push(d)
      if (d[d.length - 1] === 10) {
        const s = Buffer.concat(this.buf).toString('utf8')
        this.buf = []
        const r = this.wait
        this.wait = null
        r(JSON.parse(s))
      }
    })
    this.p.on('exit', (c) => {
      if (!this.closing) {
        console.error('the reference program ended', c)
        process.exit(2)
      }
    })
    this.memo = new Map()
  }
  raw(rs) {
    return new Promise((r) => {
      this.wait = r
      this.p.stdin.write(JSON.stringify(rs) + '\n')
    })
  }
  async ask(rs) {
    const keys = rs.map((r) => JSON.stringify(r))
    const miss = []
    const seen = new Set()
    keys.forEach((k, i) => {
      if (!this.memo.has(k) && !seen.has(k)) {
        seen.add(k)
        miss.push(i)
      }
    })
    if (this.memo.size > 20000) this.memo.clear()
    if (miss.length) {
      const as = await this.raw(miss.map((i) => rs[i]))
      miss.forEach((i, j) => this.memo.set(keys[i], as[j]))
    }
    return keys.map((k) => this.memo.get(k))
  }
  close() {
    this.closing = true
    this.p.stdin.end()
  }
}
module.exports = { Ref }
