// Comlink over the simulator's message channels. It runs in each realm.
// host: {self: port, connect(worker): port, newPort(): [a, b], remote(...)}
// A port has post(message) and onmessage, and keeps the order of messages.
(function (host) {
  const proxies = new WeakSet()
  const clone = (v, depth) => {
    depth = depth || 0
    if (depth > 20) throw new Error('DataCloneError: too deep')
    if (v === null || ['undefined', 'string', 'number', 'boolean', 'bigint'].includes(typeof v)) return v
    if (typeof v === 'function' || typeof v === 'symbol') throw new Error('DataCloneError: ' + String(v) + ' could not be cloned')
    if (typeof v.then === 'function') throw new Error('DataCloneError: #<Promise> could not be cloned')
    if (v instanceof Error) return { $error: { name: v.name, message: v.message, stack: v.stack } }
    if (Array.isArray(v)) return v.map((x) => clone(x, depth + 1))
    const o = {}
    for (const k of Object.keys(v)) o[k] = clone(v[k], depth + 1)
    return o
  }
  const revive = (v) => {
    if (v === null || typeof v !== 'object') return v
    if (v.$error) {
      const e = new Error(v.$error.message)
      e.name = v.$error.name
      return e
    }
    if (Array.isArray(v)) return v.map(revive)
    const o = {}
    for (const k of Object.keys(v)) o[k] = revive(v[k])
    return o
  }
  const toWire = (v) => {
    if (v !== null && (typeof v === 'object' || typeof v === 'function') && proxies.has(v)) {
      const [mine, theirs] = host.newPort()
      expose(v, mine)
      return { proxy: theirs }
    }
    return { value: clone(v) }
  }
  const fromWire = (w) => ('proxy' in w ? wrapPort(w.proxy) : revive(w.value))

  function expose(obj, port) {
    port = port === undefined || port === globalThis || port === globalThis.self ? host.self : port
    if (!port) return
    port.onmessage = (m) => {
      let parent
      let target = obj
      for (const k of m.path) {
        parent = target
        target = target[k]
      }
      let r
      try {
        switch (m.type) {
          case 'APPLY': r = target.apply(parent, m.args.map(fromWire)); break
          case 'GET': r = target; break
          case 'SET': parent[m.path[m.path.length - 1]] = fromWire(m.args[0]); r = true; break
          default: throw new Error('unsupported')
        }
      } catch (e) {
        r = Promise.reject(e)
      }
      Promise.resolve(r).then(
        (v) => {
          let w
          try {
            w = toWire(v)
          } catch (e) {
            port.post({ id: m.id, thrown: true, value: clone(e) })
            return
          }
          port.post({ id: m.id, wire: w })
        },
        (e) => {
          let x
          try {
            x = clone(e)
          } catch {
            x = { $error: { name: 'Error', message: 'unknown', stack: '' } }
          }
          port.post({ id: m.id, thrown: true, value: x })
        }
      )
    }
    port.start()
  }
  let ids = 0
  function wrapPort(port) {
    const waiting = new Map()
    port.onmessage = (m) => {
      const w = waiting.get(m.id)
      if (!w) return
      waiting.delete(m.id)
      host.answered(port, w.path, w.id, !m.thrown, m.thrown ? undefined : m.wire.value)
      if (m.thrown) w.rej(revive(m.value))
      else w.res(fromWire(m.wire))
    }
    port.start()
    const request = (type, path, args) => {
      let wires
      try {
        wires = args.map(toWire)
      } catch (e) {
        return Promise.reject(e)
      }
      return new Promise((res, rej) => {
        const id = ++ids
        waiting.set(id, { res, rej, path, id })
        host.asked(port, type, path, args, id, wires)
        port.post({ id, type, path, args: wires })
      })
    }
    const proxy = (path) =>
      new Proxy(function () {}, {
        get(_, k) {
          if (k === 'then') {
            if (path.length === 0) return { then: () => proxy(path) }
            const r = request('GET', path, [])
            return r.then.bind(r)
          }
          if (typeof k === 'symbol') return proxy(path)
          return proxy([...path, k])
        },
        set(_, k, v) {
          request('SET', [...path, k], [v])
          return true
        },
        apply(_, _this, args) {
          return request('APPLY', path, args)
        },
      })
    return proxy([])
  }
  const Comlink = {
    wrap: (w) => wrapPort(host.connect(w)),
    expose,
    proxy: (o) => {
      proxies.add(o)
      return o
    },
    transfer: (o) => o,
    releaseProxy: Symbol('releaseProxy'),
    createEndpoint: Symbol('createEndpoint'),
  }
  Comlink.default = Comlink
  return Comlink
})
