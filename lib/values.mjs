// Abstract values, object records and states of the abstract interpreter.
import { createHash } from 'node:crypto'

const hash = s => createHash('sha1').update(s).digest('base64').slice(0, 16)
const short = k => (k.length > 220 ? `#${hash(k)}` : k)

const constKey = (v) => {
  if (typeof v === 'string')
    return `"${short(v)}"`
  if (typeof v === 'number' && Object.is(v, -0))
    return '-0'
  if (typeof v === 'bigint')
    return `${v}n`
  return String(v)
}
export const C = v => ({ t: 'const', v, k: `c:${constKey(v)}` })
export const UNDEF = C(undefined)
export const NULL = C(null)
export const TRUE = C(true)
export const FALSE = C(false)
export const bool = b => (b ? TRUE : FALSE)
/** unreachable value */
export const BOT = { t: 'bot', k: '⊥' }

/** opaque symbolic value; meta: { type, nonNull, json, opaque, prov } */
export const sym = (id, meta = {}) => ({ t: 'sym', id, meta, k: `s:${short(id)}` })
export const ref = id => ({ t: 'ref', id, k: `r:${id}` })
export const op = (name, args, meta = {}) => ({ t: 'op', op: name, args, meta, k: `o:${short(`${name}(${args.map(a => a.k).join(',')})`)}` })
export const native = (name, impl, extra = {}) => ({ t: 'native', name, impl, k: `n:${name}`, ...extra })

export const isConst = v => v.t === 'const'
export const isUndef = v => v.t === 'const' && v.v === undefined
export const isNullish = v => v.t === 'const' && v.v == null
export const alts = v => (v.t === 'union' ? v.alts : v.t === 'bot' ? [] : [{ v, g: null }])

const MAX_ALTS = 28

/** provenance: the ids of all symbolic values a value is built from */
export const prov = (v, out = new Set(), seen = new Set()) => {
  if (v == null || seen.has(v))
    return out
  seen.add(v)
  switch (v.t) {
    case 'sym':
      out.add(v.id)
      for (const p of v.meta?.prov ?? []) out.add(p)
      break
    case 'op':
      for (const a of v.args) prov(a, out, seen)
      if (v.tree)
        treeProv(v.tree, out)
      break
    case 'union':
      for (const a of v.alts) prov(a.v, out, seen)
      break
    default:
  }
  return out
}
export const treeProv = (t, out = new Set()) => {
  if (t == null)
    return out
  switch (t.kind) {
    case 'sym':
    case 'op':
      prov(t.v, out)
      break
    case 'union':
      t.alts.forEach(a => treeProv(a, out))
      break
    default:
      if (t.items)
        t.items.forEach(a => treeProv(a, out))
      if (t.star)
        treeProv(t.star, out)
      if (t.props) {
        for (const p of Object.values(t.props)) treeProv(p.v, out)
      }
      if (t.rest)
        t.rest.forEach(s => out.add(s.id))
  }
  return out
}

const guardOr = (a, b) => {
  if (a == null || b == null)
    return null
  const m = new Map()
  for (const [k, v] of a) {
    if (b.get(k) === v)
      m.set(k, v)
  }
  return m.size ? m : null
}
export const union = (list) => {
  const m = new Map()
  for (const x of list) {
    const as = x.alt ? [x.alt] : alts(x)
    for (const a of as) {
      if (a.v.t === 'bot')
        continue
      const p = m.get(a.v.k)
      if (p)
        m.set(a.v.k, { v: p.v, g: guardOr(p.g, a.g) })
      else m.set(a.v.k, a)
    }
  }
  if (m.size === 0)
    return BOT
  if (m.size === 1)
    return [...m.values()][0].v
  if (m.size > MAX_ALTS) {
    const pr = new Set()
    for (const a of m.values()) prov(a.v, pr)
    return sym(`wide(${hash([...m.keys()].sort().join('|'))})`, { prov: [...pr], wide: true })
  }
  const as = [...m.values()]
  return { t: 'union', alts: as, k: `u:${short(as.map(a => a.v.k).sort().join('|'))}` }
}
export const contradict = (a, b) => {
  for (const [k, v] of a) {
    if (b.has(k) && b.get(k) !== v)
      return true
  }
  return false
}
export const guarded = (v, g) => {
  if (g == null || g.size === 0)
    return v
  const as = alts(v)
  const live = as.filter(a => !a.g || !contradict(a.g, g))
  return { t: 'union', alts: (live.length ? live : as).map(a => ({ v: a.v, g: a.g ? new Map([...a.g, ...g]) : g })), k: v.k }
}

export const mapAlts = (v, f) => {
  if (v.t !== 'union')
    return v.t === 'bot' ? BOT : f(v)
  const out = []
  for (const a of v.alts) {
    const r = f(a.v)
    if (r.t === 'bot')
      continue
    if (a.g == null) {
      out.push(r)
    }
    else {
      for (const x of alts(r)) {
        if (x.g && contradict(x.g, a.g))
          continue
        out.push({ alt: { v: x.v, g: x.g ? new Map([...x.g, ...a.g]) : a.g } })
      }
    }
  }
  return union(out)
}

// ---------------------------------------------------------------- records
// rec: { kind, props: Map<string,{v,may}>, items: Value[]|null, star: Value|null, rest: sym[]|null, cls, caller, x: {...} }
export const rec = (kind, init = {}) => ({ kind, props: new Map(), items: null, star: null, rest: null, cls: null, caller: null, x: {}, ...init })
const recKeyCache = new WeakMap()
export const recKey = (r) => {
  let k = recKeyCache.get(r)
  if (k == null) {
    const p = []
    for (const [n, e] of r.props) p.push(`${n}${e.may ? '?' : ''}=${e.v.k}`)
    const x = []
    for (const [n, v] of Object.entries(r.x)) {
      if (n === 'link')
        x.push(`link:${v.ok?.v.k ?? '-'}/${v.err?.v.k ?? '-'}`)
      else x.push(`${n}:${v == null ? v : v.k ?? (Array.isArray(v) ? v.map(e => e?.k ?? String(e)).join(',') : typeof v === 'object' || typeof v === 'function' ? 'obj' : String(v))}`)
    }
    k = `${r.kind}{${p.join(';')}}[${r.items ? r.items.map(v => v.k).join(',') : '-'}|${r.star?.k ?? ''}]${r.rest?.map(s => s.id) ?? ''}<${x.join(';')}>`
    recKeyCache.set(r, k)
  }
  return k
}

// ---------------------------------------------------------------- persistent heap
// ids are numbered; a 4-level 32-way trie over the numbers shares unchanged parts between states,
// so copying is O(1) and comparing costs what differs
const idNum = new Map()
const idName = []
const numOf = (id) => {
  let n = idNum.get(id)
  if (n === undefined) {
    n = idName.length
    idName.push(id)
    idNum.set(id, n)
  }
  return n
}
const TOP = 15
export class PHeap {
  constructor(root = null) {
    this.root = root
    this.owner = {}
  }

  clone() {
    this.owner = {}
    return new PHeap(this.root)
  }

  get(id) {
    const n = idNum.get(id)
    if (n === undefined)
      return undefined
    let x = this.root
    for (let s = TOP; s >= 0; s -= 5) {
      if (!x)
        return undefined
      x = x.a[(n >> s) & 31]
    }
    return x
  }

  has(id) {
    return this.get(id) !== undefined
  }

  set(id, r) {
    const n = numOf(id)
    if (n >= 1 << 20)
      throw new Error('too many heap ids')
    this.root = this.put(this.root, TOP, n, r)
  }

  put(node, s, n, r) {
    let x = node
    if (!x)
      x = { o: this.owner, a: new Array(32).fill(undefined) }
    else if (x.o !== this.owner)
      x = { o: this.owner, a: x.a.slice() }
    const i = (n >> s) & 31
    x.a[i] = s === 0 ? r : this.put(x.a[i], s - 5, n, r)
    return x
  }

  /** f(id, mine, theirs) for every id whose record is not the same object; f returning true stops */
  diff(other, f) {
    const go = (x, y, s, base) => {
      if (x === y)
        return false
      for (let i = 0; i < 32; i++) {
        const p = x?.a[i]
        const q = y?.a[i]
        if (p === q)
          continue
        const n = base | (i << s)
        if (s === 0 ? f(idName[n], p, q) : go(p, q, s - 5, n))
          return true
      }
      return false
    }
    return go(this.root, other.root, TOP, 0)
  }
}

let VER = 1
export class State {
  constructor(heap = new PHeap()) {
    this.heap = heap
    this.facts = new Map()
    this.counts = new Map()
    this.ver = VER++
  }

  clone() {
    const s = new State(this.heap.clone())
    s.facts = new Map(this.facts)
    s.counts = new Map(this.counts)
    return s
  }

  get(id) {
    return this.heap.get(id)
  }

  set(id, r) {
    this.heap.set(id, r)
    this.ver = VER++
  }

  count(label) {
    return this.counts.get(label) ?? [0, 0]
  }

  bump(label) {
    const [a, b] = this.count(label)
    this.counts.set(label, [a + 1, b + 1])
  }
}

const diffFacts = (a, b) => {
  let m = null
  let n = 0
  for (const [k, v] of a) {
    if (b.get(k) !== v) {
      m ??= new Map()
      m.set(k, v)
      if (++n >= 12)
        break
    }
  }
  return m
}

export const joinValue = (a, b, ga, gb) => {
  if (a.k === b.k && a.t !== 'union')
    return a
  if (a.t === 'bot')
    return b
  if (b.t === 'bot')
    return a
  return union([ga ? guarded(a, ga) : a, gb ? guarded(b, gb) : b])
}
const joinEntry = (a, b, ga, gb) => {
  if (a && b)
    return a.v === b.v && a.may === b.may ? a : { ...a, v: joinValue(a.v, b.v, ga, gb), may: a.may || b.may }
  const e = a ?? b
  return { ...e, may: true }
}
const joinX = (kind, a, b, ga, gb) => {
  const out = {}
  for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
    const x = a[k]
    const y = b[k]
    if (x === y) {
      out[k] = x
    }
    else if (k === 'link') {
      if (x && y) {
        out[k] = joinLink(x, y)
      }
      else {
        out[k] = x ?? y
      }
    }
    else if (x && y && x.k && y.k) {
      out[k] = joinValue(x, y, ga, gb)
    }
    else if ((x == null || x.k) && (y == null || y.k) && (x || y)) {
      out[k] = x ?? y
      out.mixed = true
    }
    else if (Array.isArray(x) && Array.isArray(y)) {
      out[k] = x.length >= y.length ? x : y
    }
    else if (typeof x === 'boolean' && typeof y === 'boolean') {
      out[k] = x || y
    }
    else if (typeof x === 'number' && typeof y === 'number') {
      out[k] = Math.max(x, y)
    }
    else {
      out[k] = x ?? y
    }
  }
  return out
}
// promises hold the states they settle in, which hold further promises: each pair is joined once
let linkMemo = null
const joinLink = (x, y) => {
  const outer = linkMemo == null
  linkMemo ??= new Map()
  try {
    const m = linkMemo.get(x) ?? linkMemo.set(x, new Map()).get(x)
    if (!m.has(y)) {
      // a state that contains the promise itself
      m.set(y, x)
      m.set(y, { after: x.after && y.after ? joinStates(x.after, y.after) : x.after ?? y.after, ok: joinOutcome(x.ok, y.ok), err: joinOutcome(x.err, y.err) })
    }
    return m.get(y)
  }
  finally {
    if (outer)
      linkMemo = null
  }
}
const joinOutcome = (a, b) => (a && b ? { st: joinStates(a.st, b.st), v: joinValue(a.v, b.v) } : a ?? b)

/** entry of a log that may be missing */
export const NO_ENTRY = C('#none')
/** logs are aligned by their common entries; what only one path did is optional */
const joinLogs = (a, b) => {
  let p = 0
  while (p < a.length && p < b.length && a[p].k === b[p].k) p++
  let q = 0
  while (q < a.length - p && q < b.length - p && a[a.length - 1 - q].k === b[b.length - 1 - q].k) q++
  const x = a.slice(p, a.length - q)
  const y = b.slice(p, b.length - q)
  if (!x.length && !y.length)
    return a
  // longest common subsequence of what differs, by label
  const label = v => alts(v).map(e => e.v.args?.[0]?.v ?? '').sort().join('|')
  const lx = x.map(label)
  const ly = y.map(label)
  const n = x.length
  const m = y.length
  const L = Array.from({ length: n + 1 }, () => new Array(m + 1).fill(0))
  for (let i = n - 1; i >= 0; i--) {
    for (let j = m - 1; j >= 0; j--) L[i][j] = lx[i] === ly[j] ? L[i + 1][j + 1] + 1 : Math.max(L[i + 1][j], L[i][j + 1])
  }
  const mid = []
  const may = v => union([...alts(v).map(e => e.v), NO_ENTRY])
  let i = 0
  let j = 0
  while (i < n || j < m) {
    if (i < n && j < m && lx[i] === ly[j] && L[i][j] === L[i + 1][j + 1] + 1)
      mid.push(joinValue(x[i++], y[j++]))
    else if (i < n && (j >= m || L[i + 1][j] >= L[i][j + 1]))
      mid.push(may(x[i++]))
    else mid.push(may(y[j++]))
  }
  return [...a.slice(0, p), ...mid, ...a.slice(a.length - q)]
}

export const joinRec = (a, b, ga, gb) => {
  if (a === b || recKey(a) === recKey(b))
    return a
  if (a.kind !== b.kind)
    return { ...a, x: { ...a.x, mixedKind: true } }
  const props = new Map()
  for (const k of a.props.keys()) props.set(k, joinEntry(a.props.get(k), b.props.get(k), ga, gb))
  for (const k of b.props.keys()) {
    if (!a.props.has(k))
      props.set(k, a.kind === 'scope' ? b.props.get(k) : joinEntry(undefined, b.props.get(k), ga, gb))
  }
  if (a.kind === 'scope') {
    for (const k of a.props.keys()) {
      if (!b.props.has(k))
        props.set(k, a.props.get(k))
    }
  }
  let items = a.items
  let star = a.star
  if (a.x.log && !a.star && !b.star) {
    items = joinLogs(a.items, b.items)
  }
  else if (a.items || b.items) {
    const ai = a.items ?? []
    const bi = b.items ?? []
    const n = Math.min(ai.length, bi.length)
    items = []
    for (let i = 0; i < n; i++) items.push(joinValue(ai[i], bi[i], ga, gb))
    const tail = [...ai.slice(n), ...bi.slice(n)]
    if (a.star)
      tail.push(a.star)
    if (b.star)
      tail.push(b.star)
    star = tail.length ? union(tail) : null
  }
  const rest = a.rest || b.rest ? [...new Map([...(a.rest ?? []), ...(b.rest ?? [])].map(s => [s.id, s])).values()] : null
  return { kind: a.kind, props, items, star, rest, cls: a.cls ?? b.cls, caller: a.caller ?? b.caller, x: joinX(a.kind, a.x, b.x, ga, gb) }
}

export const joinStates = (a, b) => {
  if (a == null)
    return b
  if (b == null)
    return a
  if (a === b)
    return a
  if (linkMemo)
    return joinStates2(a, b)
  linkMemo = new Map()
  try {
    return joinStates2(a, b)
  }
  finally { linkMemo = null }
}
const joinStates2 = (a, b) => {
  const s = new State(a.heap.clone())
  const ga = diffFacts(a.facts, b.facts)
  const gb = diffFacts(b.facts, a.facts)
  a.heap.diff(b.heap, (id, r, q) => {
    if (q !== undefined)
      s.heap.set(id, r === undefined ? q : joinRec(r, q, ga, gb))
  })
  for (const [k, v] of a.facts) {
    if (b.facts.get(k) === v)
      s.facts.set(k, v)
  }
  for (const k of new Set([...a.counts.keys(), ...b.counts.keys()])) {
    const x = a.count(k)
    const y = b.count(k)
    s.counts.set(k, [Math.min(x[0], y[0]), Math.max(x[1], y[1])])
  }
  return s
}

export const statesEqual = (a, b) => {
  if (a.heap.diff(b.heap, (id, q, r) => q === undefined || r === undefined || recKey(q) !== recKey(r)))
    return false
  for (const [k, v] of b.counts) {
    const x = a.count(k)
    if (x[0] !== v[0] || x[1] !== v[1])
      return false
  }
  if (a.facts.size !== b.facts.size)
    return false
  return true
}

/** loop-head widening */
export const widenValue = (a, b, tag) => {
  if (a.k === b.k)
    return a
  // a number already widened here absorbs what is counted up from it
  const wide = alts(b).find(x => x.v.t === 'sym' && x.v.k === sym(`num@${tag}`).k)
  if (wide) {
    const step = v => (v.t === 'const' && typeof v.v === 'number') || v.k === wide.v.k || (v.t === 'op' && v.op === 'add' && v.args.every(step))
    const others = alts(b).filter(x => !step(x.v))
    return union([...others.map(x => x.v), wide.v])
  }
  const num = alts(b).filter(x => x.v.t === 'const' && typeof x.v.v === 'number')
  if (num.length >= 2) {
    const others = alts(b).filter(x => !(x.v.t === 'const' && typeof x.v.v === 'number'))
    return union([...others.map(x => x.v), sym(`num@${tag}`, { type: 'number' })])
  }
  const str = alts(b).filter(x => x.v.t === 'op' && x.v.op === 'concat')
  if (str.length >= 2) {
    const others = alts(b).filter(x => !str.includes(x))
    const pr = new Set()
    str.forEach(x => prov(x.v, pr))
    return union([...others.map(x => x.v), sym(`str@${tag}`, { type: 'string', prov: [...pr], accum: true })])
  }
  const addn = alts(b).filter(x => x.v.t === 'op' && x.v.op === 'add')
  if (addn.length >= 2) {
    const others = alts(b).filter(x => !addn.includes(x))
    const pr = new Set()
    addn.forEach(x => prov(x.v, pr))
    return union([...others.map(x => x.v), sym(`sum@${tag}`, { type: 'number', prov: [...pr], accum: true })])
  }
  return b
}
export const widenStates = (head, next, tag) => {
  const puts = []
  head.heap.diff(next.heap, (id, q, r) => {
    if (!q || !r)
      return
    if (r.x.log && (r.star || r.items.length > q.items.length)) {
      let n = 0
      while (n < q.items.length && n < r.items.length && q.items[n].k === r.items[n].k) n++
      puts.push([id, { ...r, items: r.items.slice(0, n), star: union([...q.items.slice(n), ...r.items.slice(n), ...(q.star ? [q.star] : []), ...(r.star ? [r.star] : [])]) }])
      return
    }
    let changed = false
    const props = new Map()
    for (const [k, e] of r.props) {
      const o = q.props.get(k)
      const v = o ? widenValue(o.v, e.v, `${tag}:${id}.${k}`) : e.v
      if (v !== e.v)
        changed = true
      props.set(k, v === e.v ? e : { v, may: e.may })
    }
    if (changed)
      puts.push([id, { ...r, props }])
  })
  for (const [id, r] of puts) next.heap.set(id, r)
  for (const [k, v] of next.counts) {
    const o = head.count(k)
    if (v[1] > o[1])
      next.counts.set(k, [v[0], Number.POSITIVE_INFINITY])
  }
  return next
}

/** await-time merge: bring the effects of an async completion into the current state */
export const threeWay = (cur, after, tgt) => {
  const s = cur.clone()
  cur.heap.diff(tgt.heap, (id, c, t) => {
    if (t !== undefined && (c === undefined || c === after.heap.get(id)))
      s.heap.set(id, t)
  })
  for (const [k, v] of tgt.facts) {
    if (!s.facts.has(k))
      s.facts.set(k, v)
  }
  for (const k of new Set([...cur.counts.keys(), ...tgt.counts.keys()])) {
    const c = cur.count(k)
    const a = after.count(k)
    const t = tgt.count(k)
    s.counts.set(k, [c[0] + t[0] - a[0], Math.max(0, c[1] + t[1] - a[1])])
    if (Number.isNaN(s.counts.get(k)[1]))
      s.counts.set(k, [s.counts.get(k)[0], Number.POSITIVE_INFINITY])
  }
  return s
}

/** analysis time limit, set per scenario by the report */
export const clock = { deadline: Number.POSITIVE_INFINITY, heap: 3.2e9 }
