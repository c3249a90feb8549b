// What the page's components import, in the page's realm: the router, the
// widgets, lodash, fuse.js and hangul-js. They keep to the documented behaviour
// that the components can see; what they do not provide is reported as missing.
// host: {missing(what), history}
(function (host, React, runtime) {
  const { jsx } = runtime
  const strict = (name, o) => {
    const p = new Proxy(
      {},
      {
        get(_, k) {
          if (k in o) return o[k]
          if (typeof k === 'symbol' || k === 'then' || k === '__esModule' || k === 'default') return undefined
          return (...a) => host.missing(`${name}.${String(k)}`)
        },
        has: (_, k) => k in o,
      }
    )
    return Object.assign(Object.create(p), {})
  }

  // ---- react-router-dom 6
  const H = host.history
  const Location = React.createContext(null)
  const parsePath = (path) => {
    const out = {}
    if (path) {
      const h = path.indexOf('#')
      if (h >= 0) {
        out.hash = path.slice(h)
        path = path.slice(0, h)
      }
      const s = path.indexOf('?')
      if (s >= 0) {
        out.search = path.slice(s)
        path = path.slice(0, s)
      }
      if (path) out.pathname = path
    }
    return out
  }
  const createPath = ({ pathname = '/', search = '', hash = '' }) => pathname + (search && search !== '?' ? (search[0] === '?' ? search : '?' + search) : '') + (hash && hash !== '#' ? (hash[0] === '#' ? hash : '#' + hash) : '')
  const resolve = (to, from) => {
    const t = typeof to === 'string' ? parsePath(to) : to
    const search = t.search ? (t.search[0] === '?' ? t.search : '?' + t.search) : ''
    const hash = t.hash ? (t.hash[0] === '#' ? t.hash : '#' + t.hash) : ''
    return { pathname: t.pathname ? new URL(t.pathname, 'https://h.invalid' + from).pathname : from, search: search === '?' ? '' : search, hash: hash === '#' ? '' : hash }
  }
  let key = 0
  const makeHistory = () => {
    const read = () => ({ ...H.location(), state: H.state(), key: 'k' + key++ })
    let location = read()
    let listener = null
    globalThis.addEventListener('popstate', () => {
      location = read()
      if (listener) listener({ action: 'POP', location })
    })
    const go = (replace) => (path, state) => {
      location = { pathname: '/', search: '', hash: '', state: state === undefined ? null : state, key: 'k' + key++, ...(typeof path === 'string' ? parsePath(path) : path) }
      H.change(createPath(location), location.state, replace)
      if (listener) listener({ action: replace ? 'REPLACE' : 'PUSH', location })
    }
    return {
      get location() {
        return location
      },
      listen: (f) => {
        listener = f
        return () => (listener = null)
      },
      push: go(false),
      replace: go(true),
      go: (n) => H.go(n),
    }
  }
  function BrowserRouter({ children }) {
    const ref = React.useRef(null)
    if (ref.current === null) ref.current = makeHistory()
    const history = ref.current
    const [state, setState] = React.useState({ action: 'POP', location: history.location })
    React.useLayoutEffect(() => history.listen(setState), [history])
    const value = React.useMemo(() => ({ history, location: state.location, action: state.action }), [history, state])
    return jsx(Location.Provider, { value, children })
  }
  const router = () => {
    const r = React.useContext(Location)
    if (!r) throw new Error('may be used only in the context of a <Router> component.')
    return r
  }
  const useLocation = () => router().location
  function useNavigate() {
    const { history, location } = router()
    const active = React.useRef(false)
    React.useEffect(() => {
      active.current = true
    })
    return React.useCallback(
      (to, options = {}) => {
        if (!active.current) return
        if (typeof to === 'number') return history.go(to)
        const path = resolve(to, location.pathname)
        ;(options.replace ? history.replace : history.push)(path, options.state)
      },
      [history, location.pathname]
    )
  }
  const createSearchParams = (init = '') =>
    new URLSearchParams(
      typeof init === 'string' || Array.isArray(init) || init instanceof URLSearchParams
        ? init
        : Object.keys(init).reduce((l, k) => l.concat(Array.isArray(init[k]) ? init[k].map((v) => [k, v]) : [[k, init[k]]]), [])
    )
  function useSearchParams(defaults) {
    const d = React.useRef(createSearchParams(defaults))
    const location = useLocation()
    const params = React.useMemo(() => {
      const p = createSearchParams(location.search)
      for (const k of d.current.keys()) if (!p.has(k)) d.current.getAll(k).forEach((v) => p.append(k, v))
      return p
    }, [location.search])
    const navigate = useNavigate()
    const set = React.useCallback(
      (next, options) => {
        navigate('?' + createSearchParams(typeof next === 'function' ? next(params) : next), options)
      },
      [navigate, params]
    )
    return [params, set]
  }
  const Link = React.forwardRef(function Link({ onClick, replace: replaceProp, state, target, to, children, ...rest }, ref) {
    const { location } = router()
    const navigate = useNavigate()
    const path = resolve(to, location.pathname)
    const click = (e) => {
      if (onClick) onClick(e)
      if (e.defaultPrevented || (e.button !== 0 && e.button !== undefined)) return
      e.preventDefault()
      const replace = replaceProp !== undefined ? replaceProp : createPath(location) === createPath(path)
      navigate(to, { replace, state })
    }
    return jsx('a', { ...rest, href: createPath(path), onClick: click, target, ref, children })
  })
  const routerLib = strict('react-router-dom', {
    BrowserRouter, useLocation, useNavigate, useSearchParams, createSearchParams, Link, NavLink: Link, createPath, parsePath,
    useHref: (to) => createPath(resolve(to, useLocation().pathname)),
    useInRouterContext: () => React.useContext(Location) !== null,
  })

  // ---- semantic-ui-react: elements named after the widgets that show what they are given
  const isEl = React.isValidElement
  const widgets = {}
  const widget = (name) => {
    if (widgets[name]) return widgets[name]
    const W = React.forwardRef(function (props, ref) {
      const { as, children, ...rest } = props
      const inner = []
      for (const k of Object.keys(rest)) if (isEl(rest[k])) inner.push(React.cloneElement(rest[k], { key: 'prop-' + k }))
      const kids = [...React.Children.toArray(children).map((c, i) => (isEl(c) && c.key === null ? React.cloneElement(c, { key: i }) : c)), ...(children === undefined && ['string', 'number'].includes(typeof rest.content) ? [rest.content] : []), ...inner]
      if (as && typeof as !== 'string') return jsx(as, { ...rest, ref, children: kids })
      return jsx('sui-' + name, { ...rest, ref, children: kids })
    })
    return (widgets[name] = new Proxy(W, {
      get: (t, k) => (k in t || typeof k === 'symbol' || ['defaultProps', 'prototype', 'compare', 'type'].includes(k) ? t[k] : widget(name + '.' + String(k))),
    }))
  }
  const semantic = Object.create(
    new Proxy({}, { get: (_, k) => (typeof k === 'symbol' || ['then', '__esModule', 'default'].includes(k) ? undefined : widget(k)), has: (_, k) => typeof k === 'string' && /^[A-Z]/.test(k) })
  )

  // ---- lodash
  const vals = (c) => (c === null || c === undefined ? [] : Array.isArray(c) ? c : typeof c === 'string' ? [...c] : Object.keys(c).map((k) => c[k]))
  const it = (f) => (typeof f === 'function' ? f : f === undefined ? (x) => x : typeof f === 'object' && f !== null ? (x) => Object.keys(f).every((k) => x[k] === f[k]) : (x) => String(f).split('.').reduce((o, k) => (o === undefined || o === null ? undefined : o[k]), x))
  const rnd = (n) => Math.floor(Math.random() * n)
  const sampleSize = (c, n = 1) => {
    const l = [...vals(c)]
    n = Math.max(0, Math.min(l.length, Math.floor(n)))
    for (let i = 0; i < n; i++) {
      const j = i + rnd(l.length - i)
      ;[l[i], l[j]] = [l[j], l[i]]
    }
    return l.slice(0, n)
  }
  const places = (f) => (x, p = 0) => f(x * 10 ** p) / 10 ** p
  const compare = (a, b) => (a === b ? 0 : a === undefined ? 1 : b === undefined ? -1 : a < b ? -1 : a > b ? 1 : 0)
  const orderBy = (c, fs, dirs) => {
    fs = (Array.isArray(fs) ? fs : [fs]).map(it)
    dirs = dirs === undefined ? [] : Array.isArray(dirs) ? dirs : [dirs]
    return vals(c)
      .map((x, i) => [x, i, fs.map((f) => f(x))])
      .sort((a, b) => {
        for (let i = 0; i < fs.length; i++) {
          const d = compare(a[2][i], b[2][i])
          if (d) return dirs[i] === 'desc' ? -d : d
        }
        return a[1] - b[1]
      })
      .map((x) => x[0])
  }
  const isEqual = (a, b) => Object.is(a, b) || (typeof a === 'object' && typeof b === 'object' && a && b && Object.keys(a).length === Object.keys(b).length && Object.keys(a).every((k) => isEqual(a[k], b[k])))
  const uniqBy = (l, f) => {
    const seen = new Set()
    f = it(f)
    return vals(l).filter((x) => !seen.has(f(x)) && seen.add(f(x)))
  }
  const debounce = (f, wait = 0, o = {}) => {
    let t = null
    let args
    const g = (...a) => {
      args = a
      if (o.leading && t === null) f(...args)
      if (t !== null) clearTimeout(t)
      t = setTimeout(() => {
        t = null
        if (o.trailing !== false) f(...args)
      }, wait)
    }
    g.cancel = () => {
      if (t !== null) clearTimeout(t)
      t = null
    }
    g.flush = () => {
      if (t !== null) {
        g.cancel()
        f(...args)
      }
    }
    return g
  }
  const throttle = (f, wait = 0, o = {}) => {
    let t = null
    let args = null
    const g = (...a) => {
      args = a
      if (t !== null) return
      if (o.leading !== false) {
        const x = args
        args = null
        f(...x)
      }
      const tick = () => {
        t = null
        if (args !== null && o.trailing !== false) {
          const x = args
          args = null
          f(...x)
          t = setTimeout(tick, wait)
        }
      }
      t = setTimeout(tick, wait)
    }
    g.cancel = () => {
      if (t !== null) clearTimeout(t)
      t = null
      args = null
    }
    return g
  }
  const get = (o, p, d) => {
    const v = (Array.isArray(p) ? p : String(p).split('.')).reduce((o, k) => (o === undefined || o === null ? undefined : o[k]), o)
    return v === undefined ? d : v
  }
  const map = (c, f) => {
    f = it(f)
    if (Array.isArray(c) || c === null || c === undefined || typeof c === 'string') return vals(c).map((x, i) => f(x, i, c))
    return Object.keys(c).map((k) => f(c[k], k, c))
  }
  const filter = (c, f) => vals(c).filter((x, i) => it(f)(x, i, c))
  const lodash = strict('lodash', {
    sample: (c) => {
      const l = vals(c)
      return l.length ? l[rnd(l.length)] : undefined
    },
    sampleSize, shuffle: (c) => sampleSize(c, Infinity), random: (a, b) => (b === undefined ? rnd(a + 1) : a + rnd(b - a + 1)),
    floor: places(Math.floor), ceil: places(Math.ceil), round: places(Math.round), clamp: (x, a, b) => Math.min(Math.max(x, a), b),
    orderBy, sortBy: (c, ...f) => orderBy(c, f.flat().length ? f.flat() : [(x) => x]), isEqual, uniqBy, uniq: (l) => uniqBy(l), debounce, throttle, get, map, filter,
    has: (o, k) => o !== null && o !== undefined && Object.prototype.hasOwnProperty.call(o, k), keys: (o) => (o ? Object.keys(o) : []), values: vals, entries: Object.entries, toPairs: Object.entries, fromPairs: Object.fromEntries,
    mapValues: (o, f) => Object.fromEntries(Object.entries(o).map(([k, v]) => [k, it(f)(v, k)])), keyBy: (c, f) => Object.fromEntries(vals(c).map((x) => [it(f)(x), x])),
    groupBy: (c, f) => vals(c).reduce((o, x) => ((o[it(f)(x)] = o[it(f)(x)] || []).push(x), o), {}), pickBy: (o, f) => Object.fromEntries(Object.entries(o).filter(([k, v]) => f(v, k))),
    pick: (o, ...k) => Object.fromEntries(k.flat().filter((k) => k in o).map((k) => [k, o[k]])), omit: (o, ...k) => Object.fromEntries(Object.entries(o).filter(([x]) => !k.flat().includes(x))),
    find: (c, f) => vals(c).find((x) => it(f)(x)), findIndex: (c, f) => vals(c).findIndex((x) => it(f)(x)), some: (c, f) => vals(c).some((x) => it(f)(x)), every: (c, f) => vals(c).every((x) => it(f)(x)), reject: (c, f) => vals(c).filter((x) => !it(f)(x)),
    forEach: (c, f) => (map(c, f), c), each: (c, f) => (map(c, f), c), reduce: (c, f, a) => vals(c).reduce(f, a), flatMap: (c, f) => map(c, f).flat(), flatten: (l) => l.flat(), compact: (l) => l.filter(Boolean), includes: (c, x) => vals(c).includes(x),
    first: (l) => vals(l)[0], head: (l) => vals(l)[0], last: (l) => vals(l)[vals(l).length - 1], take: (l, n = 1) => vals(l).slice(0, n), drop: (l, n = 1) => vals(l).slice(n), size: (c) => vals(c).length,
    range: (a, b) => (b === undefined ? Array.from({ length: a }, (_, i) => i) : Array.from({ length: Math.max(0, b - a) }, (_, i) => a + i)), times: (n, f) => Array.from({ length: n }, (_, i) => f(i)),
    sum: (l) => l.reduce((a, b) => a + b, 0), min: (l) => (l.length ? Math.min(...l) : undefined), max: (l) => (l.length ? Math.max(...l) : undefined), chunk: (l, n) => Array.from({ length: Math.ceil(l.length / n) }, (_, i) => l.slice(i * n, i * n + n)),
    isEmpty: (c) => vals(c).length === 0, isNil: (x) => x === null || x === undefined, isString: (x) => typeof x === 'string', isFunction: (x) => typeof x === 'function', isUndefined: (x) => x === undefined,
    trim: (s) => String(s === null || s === undefined ? '' : s).trim(), toString: (s) => (s === null || s === undefined ? '' : String(s)), identity: (x) => x, noop: () => {}, constant: (x) => () => x,
    once: (f) => {
      let done = false
      let v
      return (...a) => (done ? v : ((done = true), (v = f(...a))))
    },
    memoize: (f, key) => {
      const m = new Map()
      return (...a) => {
        const k = key ? key(...a) : a[0]
        if (!m.has(k)) m.set(k, f(...a))
        return m.get(k)
      }
    },
    cloneDeep: (x) => JSON.parse(JSON.stringify(x)), clone: (x) => (Array.isArray(x) ? [...x] : { ...x }), assign: Object.assign, merge: Object.assign, concat: (a, ...b) => vals(a).concat(...b), without: (l, ...x) => l.filter((y) => !x.includes(y)), difference: (a, b) => a.filter((x) => !b.includes(x)),
    sortedIndex: (l, x) => {
      let i = 0
      while (i < l.length && l[i] < x) i++
      return i
    },
  })

  // ---- fuse.js
  class Fuse {
    constructor(list, options = {}) {
      this.list = list
      this.keys = (options.keys || []).map((k) => (typeof k === 'string' ? k : k.name))
    }
    setCollection(list) {
      this.list = list
    }
    search(q, o = {}) {
      q = String(q).toLowerCase()
      const l = []
      this.list.forEach((item, refIndex) => {
        const vs = this.keys.length ? this.keys.map((k) => get(item, k)) : [item]
        if (q && vs.some((v) => v !== undefined && v !== null && String(v).toLowerCase().includes(q))) l.push({ item, refIndex, score: 0 })
      })
      return o.limit ? l.slice(0, o.limit) : l
    }
  }

  // ---- hangul-js
  const CHO = [...'ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ']
  const JUNG = [...'ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ']
  const JONG = ['', ...'ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ']
  const disassemble = (s, grouped) => {
    const l = [...(Array.isArray(s) ? s.join('') : String(s))].map((c) => {
      const n = c.codePointAt(0) - 0xac00
      return n < 0 || n > 11171 ? [c] : [CHO[Math.floor(n / 588)], JUNG[Math.floor((n % 588) / 28)], JONG[n % 28]].filter(Boolean)
    })
    return grouped ? l : l.flat()
  }
  const hangul = strict('hangul-js', { disassemble, d: disassemble, isHangul: (c) => /^[가-힣]/.test(c), isComplete: (c) => /^[가-힣]/.test(c), isConsonant: (c) => CHO.includes(c), isVowel: (c) => JUNG.includes(c) })
  return { 'react-router-dom': routerLib, 'semantic-ui-react': semantic, lodash, 'fuse.js': Fuse, 'hangul-js': hangul }
})
