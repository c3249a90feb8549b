// A small React 18 for whole pages: a tree of function components and host
// elements with hooks, contexts, refs, batched updates, layout and passive
// effects. Renders and passive effects happen at moments that the simulator
// chooses, except where React makes them synchronous (events, layout effects).
// It runs in the page's realm. host: {later(kind, fn), syncEffects(), rendered(),
// committed(), crash(where, error), missing(what), node(tag, props, text)}
(function (host) {
  const ELEMENT = Symbol.for('react.element')
  const FRAGMENT = Symbol.for('react.fragment')
  const MEMO = Symbol.for('react.memo')
  const FORWARD = Symbol.for('react.forward_ref')
  const PROVIDER = Symbol.for('react.provider')
  const CONSUMER = Symbol.for('react.context')

  let current = null // the component being rendered
  let cursor = 0
  let root = null
  let queueLayout = []
  let passive = []
  let passiveScheduled = false
  let scheduled = false
  let depth = 0 // events being handled
  let working = false
  let again = false
  let dead = false
  let ids = 0

  const changed = (a, b) => !a || !b || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]))
  const shallow = (a, b) => {
    const k = Object.keys(a)
    return k.length === Object.keys(b).length && k.every((x) => Object.prototype.hasOwnProperty.call(b, x) && Object.is(a[x], b[x]))
  }

  // ---- elements
  const element = (type, props, key, ref) => ({ $$typeof: ELEMENT, type, props, key: key === undefined ? null : String(key), ref: ref === undefined ? null : ref })
  const isElement = (x) => typeof x === 'object' && x !== null && x.$$typeof === ELEMENT
  function withDefaults(type, props) {
    const d = type && type.defaultProps
    if (d) for (const k of Object.keys(d)) if (props[k] === undefined) props[k] = d[k]
    return props
  }
  function jsx(type, config, key) {
    const { ref, key: k, ...props } = config
    return element(type, withDefaults(type, props), key !== undefined ? key : k, ref)
  }
  function createElement(type, config, ...children) {
    const { ref, key, ...props } = config || {}
    if (children.length) props.children = children.length === 1 ? children[0] : children
    return element(type, withDefaults(type, props), key, ref)
  }
  const cloneElement = (e, config, ...children) => {
    const { ref, key, ...props } = config || {}
    const p = { ...e.props, ...props }
    if (children.length) p.children = children.length === 1 ? children[0] : children
    return element(e.type, p, key !== undefined ? key : e.key === null ? undefined : e.key, ref !== undefined ? ref : e.ref)
  }
  const flat = (c, f, pre) => {
    if (Array.isArray(c)) c.forEach((x, i) => flat(x, f, isElement(x) && x.key !== null ? pre + '[' : pre + i + ':'))
    else f(c, pre + (isElement(c) && c.key !== null ? '$' + c.key : ''))
  }
  const childList = (c) => {
    const l = []
    flat(c === undefined ? null : c, (x) => l.push(x === undefined || typeof x === 'boolean' ? null : x), '')
    return l.filter((x) => x !== null)
  }
  const Children = {
    map: (c, f) => (c === null || c === undefined ? c : childList(c).map((x, i) => f(x, i))),
    forEach: (c, f) => childList(c).forEach((x, i) => f(x, i)),
    count: (c) => childList(c).length,
    toArray: childList,
    only: (c) => c,
  }

  // ---- instances
  const kindOf = (el) => {
    if (typeof el === 'string' || typeof el === 'number') return 'text'
    if (!isElement(el)) throw new Error(`Objects are not valid as a React child (${Object.prototype.toString.call(el)})`)
    const t = el.type
    if (typeof t === 'string') return 'host'
    if (typeof t === 'function') {
      if (t.prototype && t.prototype.isReactComponent) host.missing('class components')
      return 'fn'
    }
    if (t === FRAGMENT) return 'frag'
    if (t && t.$$typeof === MEMO) return 'fn'
    if (t && t.$$typeof === FORWARD) return 'fn'
    if (t && t.$$typeof === PROVIDER) return 'provider'
    if (t && t.$$typeof === CONSUMER) return 'fn'
    throw new Error(`Element type is invalid: ${t === undefined ? 'undefined' : String(t)}`)
  }
  const make = (el, parent) => {
    const kind = kindOf(el)
    const inst = { kind, type: kind === 'text' ? null : el.type, el: null, parent, kids: new Map(), hooks: [], mounted: false, dirty: false, forced: false, ctx: new Set(), gone: false, node: null }
    if (kind === 'host') inst.node = host.node(inst, el.type)
    if (kind === 'text') inst.node = host.node(inst, null)
    return inst
  }
  function unmount(inst) {
    inst.gone = true
    for (const h of inst.hooks)
      if (h.k === 'effect' || h.k === 'layout') {
        const f = h.cleanup
        h.cleanup = undefined
        h.gone = true
        if (typeof f === 'function') f()
      }
    if (inst.kind === 'host') setRef(inst.el.ref, null)
    for (const k of inst.kids.values()) unmount(k)
  }
  const setRef = (ref, v) => {
    if (typeof ref === 'function') ref(v)
    else if (ref) ref.current = v
  }
  function reconcile(inst, children) {
    const old = inst.kids
    const next = new Map()
    flat(children === undefined ? null : children, (c, key) => {
      if (c === null || c === undefined || typeof c === 'boolean') return
      if (typeof c === 'string' && c === '') return
      if (next.has(key)) key = key + '!' + next.size // duplicate key
      let k = old.get(key)
      if (k && (k.kind !== kindOf(c) || (k.kind !== 'text' && k.type !== c.type))) k = undefined
      if (!k) k = make(c, inst)
      next.set(key, k)
      render(k, c)
    }, '')
    for (const [key, k] of old) if (next.get(key) !== k) unmount(k)
    inst.kids = next
  }
  function visit(inst) {
    for (const k of inst.kids.values()) {
      if (k.kind === 'fn' && k.dirty) {
        if (!pending(k) && !k.forced) {
          k.dirty = false
          visit(k)
        } else run(k, k.el)
      } else visit(k)
    }
  }
  // pending applies queued updates and tells if the state changed.
  function pending(inst) {
    let any = false
    for (const h of inst.hooks) {
      if (h.k !== 'state' || !h.queue.length) continue
      let v = h.value
      const q = h.queue
      h.queue = []
      for (const a of q) v = h.reducer(v, a)
      if (!Object.is(v, h.value)) any = true
      h.value = v
    }
    return any
  }
  function render(inst, el) {
    const before = inst.el
    switch (inst.kind) {
      case 'text':
        inst.el = el
        inst.node.data = String(el)
        return
      case 'host':
        inst.el = el
        inst.node.props = el.props
        reconcile(inst, el.props.children)
        if (!before || before.ref !== el.ref) queueLayout.push({ ref: el.ref, old: before && before.ref, node: inst.node })
        return
      case 'frag':
        inst.el = el
        return before === el ? visit(inst) : reconcile(inst, el.props.children)
      case 'provider':
        inst.el = el
        if (before && !Object.is(before.props.value, el.props.value)) touch(inst, el.type.context)
        return before === el || (before && before.props.children === el.props.children) ? visit(inst) : reconcile(inst, el.props.children)
    }
    const t = inst.type
    const same = before && (before === el || before.props === el.props || (t.$$typeof === MEMO && before.ref === el.ref && (t.compare ? t.compare(before.props, el.props) : shallow(before.props, el.props))))
    const ch = pending(inst)
    if (same && !ch && !inst.forced) {
      inst.el = el
      inst.dirty = false
      return visit(inst)
    }
    run(inst, el)
  }
  function touch(inst, ctx) {
    for (const k of inst.kids.values()) {
      if (k.kind === 'fn' && k.ctx.has(ctx)) k.dirty = k.forced = true
      if (!(k.kind === 'provider' && k.type.context === ctx)) touch(k, ctx)
    }
  }
  function run(inst, el) {
    let out
    host.rendered()
    inst.el = el
    for (let n = 0; ; n++) {
      if (n > 25) throw new Error('Too many re-renders. React limits the number of renders to prevent an infinite loop.')
      inst.dirty = inst.forced = false
      const outer = [current, cursor]
      current = inst
      cursor = 0
      try {
        let t = inst.type
        let ref = el.ref
        while (t.$$typeof === MEMO) t = t.type
        if (t.$$typeof === FORWARD) out = t.render(el.props, ref)
        else if (t.$$typeof === CONSUMER) out = el.props.children(readContext(t))
        else out = t(el.props)
        if (inst.mounted && cursor !== inst.hooks.length) throw new Error('Rendered fewer hooks than expected.')
      } finally {
        ;[current, cursor] = outer
      }
      inst.mounted = true
      if (!inst.hooks.some((h) => h.k === 'state' && h.queue.length && h.inRender)) break
      for (const h of inst.hooks) h.inRender = false
      pending(inst)
    }
    if (out === undefined) out = null
    reconcile(inst, out)
    for (const h of inst.hooks) {
      if ((h.k === 'effect' || h.k === 'layout') && h.next) {
        if (changed(h.deps, h.next.deps)) {
          h.todo = h.next.f
          if (h.k === 'effect') passive.push(h)
          else queueLayout.push({ h })
        }
        h.deps = h.next.deps || null
        h.next = null
      }
    }
  }

  // ---- hooks
  const slot = (k, make) => {
    if (!current) throw new Error('Invalid hook call. Hooks can only be called inside of the body of a function component.')
    if (cursor === current.hooks.length) {
      if (current.mounted) throw new Error('Rendered more hooks than during the previous render.')
      current.hooks.push(make(current))
    }
    const h = current.hooks[cursor++]
    if (h.k !== k) throw new Error('The order of hooks changed.')
    return h
  }
  function useReducer(reducer, initial, init) {
    const h = slot('state', (inst) => {
      const h = { k: 'state', value: init ? init(initial) : initial, queue: [], reducer }
      h.dispatch = (a) => {
        if (inst.gone) return
        if (h.eager && h.queue.length === 0 && current !== inst) {
          if (Object.is(h.reducer(h.value, a), h.value)) return
        }
        h.queue.push(a)
        if (current === inst) {
          h.inRender = true
          return
        }
        inst.dirty = true
        schedule()
      }
      return h
    })
    h.reducer = reducer
    return [h.value, h.dispatch]
  }
  const basic = (s, a) => (typeof a === 'function' ? a(s) : a)
  function useState(initial) {
    const r = useReducer(basic, undefined, () => (typeof initial === 'function' ? initial() : initial))
    current.hooks[cursor - 1].eager = true
    return r
  }
  const useRef = (v) => slot('ref', () => ({ k: 'ref', ref: { current: v } })).ref
  function useMemo(f, deps) {
    const h = slot('memo', () => ({ k: 'memo' }))
    if (!h.set || changed(h.deps, deps)) {
      h.value = f()
      h.deps = deps
      h.set = true
    }
    return h.value
  }
  const useCallback = (f, deps) => useMemo(() => f, deps)
  const effect = (k) => (f, deps) => {
    slot(k, () => ({ k })).next = { f, deps }
  }
  const useEffect = effect('effect')
  const useLayoutEffect = effect('layout')
  const readContext = (ctx) => {
    current.ctx.add(ctx)
    for (let i = current.parent; i; i = i.parent) if (i.kind === 'provider' && i.type.context === ctx) return i.el.props.value
    return ctx.value
  }
  function createContext(value) {
    const ctx = { $$typeof: CONSUMER, value }
    ctx.Provider = { $$typeof: PROVIDER, context: ctx }
    ctx.Consumer = ctx
    return ctx
  }
  const useImperativeHandle = (ref, f, deps) =>
    useLayoutEffect(() => {
      setRef(ref, f())
      return () => setRef(ref, null)
    }, deps && [...deps, ref])
  const useSyncExternalStore = (sub, get) => {
    const value = get()
    const [, force] = useReducer((x) => x + 1, 0)
    const last = useRef(value)
    useLayoutEffect(() => {
      last.current = value
    })
    useEffect(() => {
      const check = () => {
        if (!Object.is(get(), last.current)) force()
      }
      check()
      return sub(check)
    }, [sub])
    return value
  }

  // ---- work
  function runEffect(h) {
    if (h.gone) return
    h.ran = true
    const f = h.cleanup
    h.cleanup = undefined
    if (typeof f === 'function') f()
    const todo = h.todo
    h.todo = null
    if (todo) h.cleanup = todo()
  }
  const guarded = (where, f) => {
    if (dead) return
    try {
      f()
    } catch (e) {
      dead = true
      host.crash(where, e)
    }
  }
  function flushPassive() {
    if (!passive.length) return false
    const l = [...new Set(passive)]
    passive = []
    guarded('an effect', () => {
      for (const h of l)
        if (!h.gone && typeof h.cleanup === 'function') {
          const f = h.cleanup
          h.cleanup = undefined
          f()
        }
      for (const h of l) runEffect(h)
    })
    return true
  }
  function schedule() {
    again = true
    if (depth || working || scheduled) return
    scheduled = true
    host.later('render', () => {
      scheduled = false
      flush(false)
    })
  }
  function flush(sync) {
    if (working || dead) return
    working = true
    try {
      flushPassive()
      for (let n = 0; again && !dead; n++) {
        if (n > 50) {
          guarded('rendering', () => {
            throw new Error('Maximum update depth exceeded')
          })
          return
        }
        // What is pending runs before the next rendering.
        if (n) flushPassive()
        again = false
        queueLayout = []
        guarded('rendering', () => visit(root))
        if (dead) return
        const l = queueLayout
        queueLayout = []
        guarded('a layout effect', () => {
          for (const x of l) {
            if (x.h) runEffect(x.h)
            else {
              if (x.old) setRef(x.old, null)
              setRef(x.ref, x.node)
            }
          }
        })
        // Updates made by layout effects are rendered before anything else.
      }
      if (dead) return
      host.committed()
    } finally {
      working = false
    }
    if (!passive.length) return
    if (sync || host.syncEffects()) afterPassive()
    else if (!passiveScheduled) {
      passiveScheduled = true
      host.later('effects', () => {
        passiveScheduled = false
        afterPassive()
      })
    }
  }
  function afterPassive() {
    if (working) return
    working = true
    try {
      flushPassive()
    } finally {
      working = false
    }
    if (again && !scheduled) {
      again = false
      schedule()
    }
  }
  // event handles one event of the user: its updates are rendered when it ends.
  function event(f) {
    depth++
    try {
      f()
    } finally {
      depth--
    }
    if (depth === 0 && again) flush(true)
  }
  const StrictMode = FRAGMENT
  const React = {
    Fragment: FRAGMENT, StrictMode, Suspense: FRAGMENT, Profiler: FRAGMENT, Children, createElement, cloneElement, isValidElement: isElement, createContext,
    useState, useReducer, useRef, useMemo, useCallback, useEffect, useLayoutEffect, useInsertionEffect: useLayoutEffect, useContext: (c) => {
      slot('ctx', () => ({ k: 'ctx' }))
      return readContext(c)
    },
    useImperativeHandle, useSyncExternalStore, useDebugValue: () => {}, useId: () => slot('id', () => ({ k: 'id', id: ':r' + ids++ + ':' })).id,
    useTransition: () => [false, (f) => f()], useDeferredValue: (v) => v, startTransition: (f) => f(),
    createRef: () => ({ current: null }),
    memo: (type, compare) => ({ $$typeof: MEMO, type, compare }),
    forwardRef: (render) => ({ $$typeof: FORWARD, render }),
    version: '18.2.0',
  }
  React.default = React
  const runtime = { jsx, jsxs: jsx, jsxDEV: jsx, Fragment: FRAGMENT }
  let whole = null
  const Whole = () => whole
  const mount = (el) => {
    whole = el
    if (!root) {
      root = { kind: 'root', kids: new Map(), parent: null, node: host.node(null, '#root') }
      const k = make(element(Whole, {}), root)
      k.el = element(Whole, {})
      root.kids.set('', k)
    }
    for (const k of root.kids.values()) k.dirty = k.forced = true
    again = true
    flush(false)
  }
  const ReactDOM = {
    createRoot: () => ({ render: (el) => host.later('mount', () => mount(el)), unmount() {} }),
    flushSync: (f) => {
      let v
      event(() => (v = f()))
      return v
    },
    unstable_batchedUpdates: (f) => f(),
    createPortal: (c) => c,
    render: (el) => mount(el),
  }
  ReactDOM.default = ReactDOM
  return { React, ReactDOM, runtime, event, settle: (all) => passive.some((h) => all || !h.ran) && afterPassive(), root: () => root, alive: () => !dead }
})
