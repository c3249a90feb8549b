// A small React 18: one root, function components with hooks, batched updates,
// renders and passive effects at moments that the simulator chooses. It runs in
// the page's realm. host: {later(kind, fn), micro(fn), commit(value), rendered(),
// effects(), limit()}
(function (host) {
  let hooks = []
  let cursor = 0
  let mounted = false
  let scheduled = false
  let inRender = false
  let dirty = false
  let passive = [] // hooks whose effect has to run
  let passiveScheduled = false
  let component

  const depsChanged = (a, b) => !a || !b || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]))
  const slot = (make) => {
    if (!inRender) throw new Error('hook used outside of a render')
    if (cursor === hooks.length) {
      if (mounted) throw new Error('hooks changed between renders')
      hooks.push(make())
    }
    return hooks[cursor++]
  }
  function schedule() {
    dirty = true
    if (scheduled) return
    scheduled = true
    host.later('render', () => {
      scheduled = false
      flush()
    })
  }
  function useReducer(reducer, initial, init) {
    const h = slot(() => {
      const h = { k: 'state', value: init ? init(initial) : initial, queue: [], reducer }
      h.dispatch = (a) => {
        if (h.queue.length === 0 && h.eager) {
          const next = h.reducer(h.value, a)
          if (Object.is(next, h.value)) return
        }
        h.queue.push(a)
        host.dispatched(a)
        schedule()
      }
      return h
    })
    h.reducer = reducer
    return [h.value, h.dispatch]
  }
  function useState(initial) {
    const r = useReducer((s, a) => (typeof a === 'function' ? a(s) : a), undefined, () => (typeof initial === 'function' ? initial() : initial))
    hooks[cursor - 1].eager = true
    return r
  }
  const useRef = (v) => slot(() => ({ k: 'ref', ref: { current: v } })).ref
  function useMemo(f, deps) {
    const h = slot(() => ({ k: 'memo' }))
    if (!h.set || depsChanged(h.deps, deps)) {
      h.value = f()
      h.deps = deps
      h.set = true
    }
    return h.value
  }
  const useCallback = (f, deps) => useMemo(() => f, deps)
  const effect = (k) => (f, deps) => {
    const h = slot(() => ({ k }))
    h.next = { f, deps }
  }
  const useEffect = effect('effect')
  const useLayoutEffect = effect('layout')
  const useInsertionEffect = useLayoutEffect

  function runEffect(h) {
    if (typeof h.cleanup === 'function') h.cleanup()
    h.cleanup = h.todo()
    h.todo = null
  }
  function flushPassive() {
    if (!passive.length) return
    const l = passive
    passive = []
    for (const h of l) if (typeof h.cleanup === 'function') { h.cleanup(); h.cleanup = undefined }
    for (const h of l) runEffect(h)
    host.effects()
  }
  function flush() {
    flushPassive()
    for (let n = 0; (dirty || !mounted) && n < 50; n++) {
      dirty = false
      let changed = !mounted
      for (const h of hooks) {
        if (h.k !== 'state' || !h.queue.length) continue
        let v = h.value
        const q = h.queue
        h.queue = []
        for (const a of q) v = h.reducer(v, a)
        if (!Object.is(v, h.value)) changed = true
        h.value = v
      }
      if (!changed) return
      host.rendered()
      cursor = 0
      inRender = true
      let value
      try {
        value = component()
      } finally {
        inRender = false
      }
      mounted = true
      const layout = []
      for (const h of hooks) {
        if ((h.k === 'effect' || h.k === 'layout') && h.next) {
          if (depsChanged(h.deps, h.next.deps)) {
            h.todo = h.next.f
            if (h.k === 'effect') passive.push(h)
            else layout.push(h)
          }
          h.deps = h.next.deps || null
          h.next = null
        }
      }
      for (const h of layout) runEffect(h)
      host.commit(value)
      if (passive.length) {
        if (host.syncEffects()) flushPassive()
        else if (!passiveScheduled) {
          passiveScheduled = true
          host.later('effects', () => {
            passiveScheduled = false
            flushPassive()
          })
        }
      } else host.effects()
      if (scheduled) return
    }
  }
  const React = {
    useState, useReducer, useRef, useMemo, useCallback, useEffect, useLayoutEffect, useInsertionEffect,
    useContext: () => undefined, useDebugValue: () => {}, useId: () => slot(() => ({ k: 'id', id: ':r' + cursor + ':' })).id,
    startTransition: (f) => f(), useTransition: () => [false, (f) => f()], useDeferredValue: (v) => v,
    useSyncExternalStore: (sub, get) => {
      const [, force] = useReducer((x) => x + 1, 0)
      useEffect(() => sub(force), [sub])
      return get()
    },
  }
  React.default = React
  return {
    React,
    mount(c) {
      component = c
      flush()
    },
  }
})
