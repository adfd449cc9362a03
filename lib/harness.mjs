// Scenario builders shared by the property checks: abstract option objects, abstract HTTP responses, event logs.
import path from 'node:path'
import { Interp } from './interp.mjs'
import { loc, nodeId, packages, parseFile, REPO, resolve } from './loader.mjs'
import { hid, installNatives, logEvent, materialise, N, newStream, setHidden, tree, treeKey } from './natives.mjs'
import { alts, BOT, bool, C, FALSE, isConst, isNullish, isUndef, joinStates, NULL, op, prov, rec, ref, sym, TRUE, treeProv, UNDEF, union } from './values.mjs'

export const entryFile = (spec) => {
  const r = resolve(spec, path.join(REPO, 'index.ts'))
  return r.file
}

export class Analysis {
  constructor(harness = {}) {
    this.h = harness
    this.I = installNatives(new Interp(harness))
    this.seq = 0
    this.fetches = 0
  }

  get st() { return this.I.st }

  // ---------------------------------------------------------------- values
  /** allocate a plain object / array tree from JS data holding abstract values at the leaves */
  val(v, opts = {}, tag = `h${this.seq++}`) {
    const I = this.I
    if (v === undefined)
      return UNDEF
    if (v && typeof v === 'object' && v.t && v.k)
      return v
    const caller = opts.caller ?? null
    if (Array.isArray(v)) {
      const items = v.map((x, i) => this.val(x, { ...opts, caller: caller ? `${caller}[${i}]` : null }, `${tag}[${i}]`))
      I.st.set(`@${tag}`, rec('array', { items, star: opts.star ?? null, caller }))
      return ref(`@${tag}`)
    }
    if (v && typeof v === 'object') {
      const props = new Map()
      let rest = null
      for (const [k, x] of Object.entries(v)) {
        if (k === '...') {
          rest = [x]
          continue
        }
        props.set(k, { v: this.val(x, { ...opts, caller: caller ? `${caller}.${k}` : null }, `${tag}.${k}`), may: false })
      }
      I.st.set(`@${tag}`, rec('object', { props, rest, caller }))
      return ref(`@${tag}`)
    }
    return C(v)
  }

  starArray(elem, opts = {}, tag = `h${this.seq++}`) {
    this.I.st.set(`@${tag}`, rec('array', { items: opts.items ?? [], star: elem, caller: opts.caller ?? null }))
    return ref(`@${tag}`)
  }

  error(name, tag = `e${this.seq++}`) {
    this.I.st.set(`@${tag}`, rec('error', { props: new Map([['message', { v: sym(`${tag}.message`, { type: 'string', nonNull: true, truthy: true }) }], ['name', { v: C(name) }]]), x: { errName: name, tag } }))
    return ref(`@${tag}`)
  }

  headers(map, opts = {}, tag = `h${this.seq++}`) {
    const props = new Map()
    for (const [k, v] of Object.entries(map)) props.set(k.toLowerCase(), { v, hidden: true, hdr: true, may: false })
    this.I.st.set(`@${tag}`, rec('headers', { props, caller: opts.caller ?? null, x: opts.dflt ? { dflt: opts.dflt } : {} }))
    return ref(`@${tag}`)
  }

  url(href, opts = {}, tag = `h${this.seq++}`) {
    this.I.st.set(`@${tag}`, rec('url', { x: { href: C(new URL(href).href) }, caller: opts.caller ?? null }))
    return ref(`@${tag}`)
  }

  /** abort signal whose flag is false (or given) */
  signal({ aborted = false, reason = sym('abortReason', { nonNull: true, truthy: true }) } = {}, tag = `sig${this.seq++}`) {
    const I = this.I
    const props = new Map([
      ['aborted', { v: bool(aborted) }],
      ['reason', { v: aborted ? reason : UNDEF }],
      ['addEventListener', { v: N('addEventListener', (I2, t, args, node) => {
        I2.emit('signal-listen', { args, key: '' }, node)
        return UNDEF
      }) }],
      ['removeEventListener', { v: N('removeEventListener', () => UNDEF) }],
      ['throwIfAborted', { v: N('throwIfAborted', (I2, t) => {
        const a = I2.getProp(ref(`@${tag}`), C('aborted'))
        void t
        const s = I2.splitTruth(a, null)
        if (s.T) {
          I2.st = s.T
          I2.throwValue(I2.getProp(ref(`@${tag}`), C('reason')))
        }
        I2.st = s.F
        return I2.st ? UNDEF : BOT
      }) }],
    ])
    I.st.set(`@${tag}`, rec('object', { props, x: { signal: true } }))
    const r = ref(`@${tag}`)
    this.abort = (I2 = I) => {
      const q = I2.st.get(r.id)
      const p = new Map(q.props)
      p.set('aborted', { v: TRUE, may: false })
      p.set('reason', { v: reason, may: false })
      I2.st.set(r.id, { ...q, props: p })
    }
    return r
  }

  /** a user callback: records its calls; `ret` gives its result */
  fn(name, ret = UNDEF, opts = {}) {
    return N(`cb:${name}`, (I, t, args, node) => {
      const ts = args.map(a => tree(I, a.spreadStar ?? a))
      I.emit(`cb:${name}`, { args, trees: ts, key: ts.map(treeKey).join('|').slice(0, 400) }, node)
      logEvent(I, `cb:${name}`, { kind: 'array', items: ts })
      if (opts.async)
        I.latency()
      opts.before?.(I, args, node)
      if (!I.st)
        return BOT
      if (opts.throws)
        return I.throwValue(typeof opts.throws === 'function' ? opts.throws(I) : opts.throws)
      const v = typeof ret === 'function' ? ret(I, args, node) : ret
      if (!I.st)
        return BOT
      if (opts.rejects)
        return I.rejectedPromise(opts.rejects, `cbrej${I.ctx}${name}${node ? nodeId(node) : ''}`)
      if (opts.mayThrow)
        I.mayThrow(opts.mayThrow)
      return opts.async ? I.resolvedPromise(v, `cbp${I.ctx}${name}${node ? nodeId(node) : ''}`) : v
    })
  }

  /** the HTTP layer: responder(I, n, req, node) gives the abstract response for the n-th request on this path */
  fetchFn(responder, opts = {}) {
    return N('fetch', (I, t, args, node) => {
      const [input, init] = args
      const url = input ? (I.kindOf(input) === 'url' ? I.st.get(input.id).x.href : input) : UNDEF
      const [lo, hi] = I.st.count('fetch')
      const n = Number.isFinite(hi) ? hi : lo
      const initTree = init ? tree(I, init) : { kind: 'const', v: undefined }
      const get = k => (init && !isNullish(init) ? I.getProp(init, C(k), node) : UNDEF)
      const hv = get('headers')
      const hdr = headerTree(I, hv)
      const body = get('body')
      const req = { input, url, init, initTree, method: get('method'), headersV: hv, headers: hdr, body, bodyTree: tree(I, body), signal: get('signal'), n }
      I.emit('fetch', { req, key: treeKey(tree(I, url)) + treeKey(initTree).slice(0, 800) }, node)
      logEvent(I, 'fetch', { kind: 'array', items: [tree(I, url), initTree] })
      I.latency()
      const r = responder(I, n, req, node)
      if (!I.st)
        return BOT
      if (r && r.t)
        return opts.raw ? r : alts(r).every(a => I.kindOf(a.v) === 'promise') ? r : I.resolvedPromise(r, `fetchp${I.ctx}${nodeId(node ?? {})}`)
      return UNDEF
    })
  }

  response(I, { name = 'res', ok = true, status, headers, body, json, text, bodyErr, bodyMay } = {}) {
    const tag = `${I.ctx}@resp:${name}`
    const st = status ?? (ok === true ? C(200) : ok === false ? sym(`${name}.status`, { type: 'number', nonNull: true, httpOk: false }) : sym(`${name}.status`, { type: 'number', nonNull: true }))
    const h = headers ?? (() => {
      I.st.set(`${tag}:h`, rec('headers', { x: { dflt: `${name}.headers` } }))
      return ref(`${tag}:h`)
    })()
    I.st.set(tag, rec('response', {
      props: new Map([
        ['ok', { v: typeof ok === 'boolean' ? bool(ok) : ok }],
        ['status', { v: st }],
        ['statusText', { v: sym(`${name}.statusText`, { type: 'string', nonNull: true }) }],
        ['headers', { v: h }],
        ['body', { v: body ?? NULL }],
        ['bodyUsed', { v: FALSE }],
        ['url', { v: sym(`${name}.url`, { type: 'string', nonNull: true }) }],
      ]),
      x: { name, json, text, bodyErr, bodyMay },
    }))
    return ref(tag)
  }

  /** body stream of server-sent messages; data: abstract strings */
  sse(I, datas, { star = null, end = 'closed', err, name = 'body' } = {}) {
    return newStream(I, `@sse:${name}`, {
      items: datas.map(d => op('bytes', [op('sse', [d], { type: 'string', nonNull: true })])),
      star: star ? op('bytes', [op('sse', [star], { type: 'string', nonNull: true })]) : null,
      ctrl: C(end),
      err: err ?? UNDEF,
    })
  }

  /** JSON text of an abstract value */
  json(I, v) {
    return I.call(I.globals.get('JSON').statics.stringify, UNDEF, [v])
  }

  // ---------------------------------------------------------------- running
  load(spec) {
    const file = spec.startsWith('/') ? spec : entryFile(spec)
    if (!file)
      throw new Error(`anchor missing: module ${spec}`)
    return this.I.loadModule(file)
  }

  export(spec, name) {
    const m = this.load(spec)
    const v = this.I.exportValue(m, name)
    if (!v)
      throw new Error(`anchor missing: export ${name} of ${spec}`)
    return v
  }

  /** call an exported function; captures throws. Returns { v, throws } and leaves the normal state */
  run(f, args) {
    const I = this.I
    // later calls of one scenario happen in contexts of their own
    const n = this.runs = (this.runs ?? -1) + 1
    const r = I.withCtx(n ? `#${n}` : '', () => I.capture(() => I.call(f, UNDEF, args)))
    return { v: r.v, throws: r.throws, st: I.st }
  }

  /** await a value: { ok: {st,v}|null, err: {st,v}|null } */
  outcome(v, st = this.I.st) {
    return st ? this.I.settle(st.clone(), v) : { ok: null, err: null }
  }

  /** call and await; merges sync throws with rejections */
  runAwait(f, args) {
    const r = this.run(f, args)
    const o = r.st ? this.outcome(r.v, r.st) : { ok: null, err: null }
    const errs = [...r.throws, ...(o.err ? [o.err] : [])]
    const err = this.I.joinList(errs)
    return { ok: o.ok, err, errs, sync: r.throws, value: r.v }
  }

  drain(st, s) {
    const I = this.I
    I.st = st
    // somebody else holds the reader: the caller cannot read it at all
    const locked = alts(hid(I, s, '#locked'))
    if (locked.some(a => isConst(a.v) && a.v.v === true))
      return { st: I.st, items: [], star: null, end: ['locked'], err: UNDEF }
    const m = materialise(I, s)
    if (!I.st)
      return { st: null, items: [], star: null, end: [] }
    const r = I.st.get(m.id)
    return { st: I.st, items: r.items, star: r.star, end: alts(hid(I, m, '#end')).map(a => a.v.v), err: hid(I, m, '#err') }
  }

  with(st, f) {
    const I = this.I
    const keep = I.st
    I.st = st
    try {
      return f(I)
    }
    finally { I.st = keep }
  }

  tree(st, v) {
    if (v == null)
      return { kind: 'const', v: '⟨no value⟩' }
    return this.with(st, I => tree(I, v))
  }

  get(st, v, ...path) {
    return this.with(st.clone(), (I) => {
      let x = v
      for (const k of path) {
        const c = I.capture(() => I.getProp(x, C(k)))
        x = c.v
        if (!I.st)
          return BOT
      }
      return x
    })
  }

  logOf(st) {
    const r = st.get(this.I.logId)
    const mk = v => alts(v).map(a => ({ label: a.v.args?.[0]?.v ?? '#none', tree: a.v.tree }))
    return { items: r.items.map(mk), star: r.star ? mk(r.star) : null }
  }

  events(label) {
    return this.I.events.filter(e => (typeof label === 'string' ? e.label === label : label.test(e.label)))
  }
}

export const headerTree = (I, v) => {
  const one = (a) => {
    if (isNullish(a))
      return { kind: 'object', props: {}, rest: [] }
    const r = I.rec(a)
    if (r?.kind === 'headers') {
      const props = {}
      for (const [k, e] of r.props) {
        if (e.hdr)
          props[k] = { v: tree(I, e.v), may: e.may }
      }
      return { kind: 'object', props, rest: r.rest ?? [] }
    }
    const t = tree(I, a)
    if (t.kind === 'object') {
      const props = {}
      for (const [k, e] of Object.entries(t.props)) props[k.toLowerCase()] = e
      return { ...t, props }
    }
    return t
  }
  const list = alts(v)
  return list.length === 1 ? one(list[0].v) : { kind: 'union', alts: list.map(a => one(a.v)) }
}

/** all alternatives of a snapshot */
export const treeAlts = t => (t == null ? [] : t.kind === 'union' ? t.alts.flatMap(treeAlts) : [t])
export const constOf = t => (t && t.kind === 'const' ? t.v : undefined)
export const show = (t) => {
  const k = t == null ? '-' : t.kind ? treeKey(t) : t.k
  return k.length > 160 ? `${k.slice(0, 157)}...` : k
}
export { alts, BOT, bool, C, FALSE, hid, isConst, isNullish, isUndef, joinStates, loc, logEvent, N, newStream, nodeId, NULL, op, packages, parseFile, path, prov, rec, ref, REPO, setHidden, sym, tree, treeKey, treeProv, TRUE, UNDEF, union }
