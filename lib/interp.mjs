// Interprocedural abstract interpreter over the TypeScript syntax tree.
// It never runs code of the repository: it propagates abstract values (constants, named opaque symbols, finite
// unions, heap records) through the statements, joining states at every merge and iterating loops to a fixpoint.
import { evalMixin } from './eval.mjs'
import { loc, nodeId, parseFile, resolve, ts } from './loader.mjs'
import { alts, BOT, bool, C, FALSE, guarded, isConst, isNullish, isUndef, joinStates, joinValue, mapAlts, native, NULL, op, prov, rec, ref, State, statesEqual, sym, threeWay, TRUE, UNDEF, union, widenStates } from './values.mjs'

const K = ts.SyntaxKind

const MAX_DEPTH = 90

/** does a function made in the body of this C-style loop read a variable the loop declares? */
const captures = new WeakMap()
const capturesLoopVars = (s) => {
  if (!captures.has(s)) {
    const names = new Set(s.initializer && ts.isVariableDeclarationList(s.initializer) && (s.initializer.flags & ts.NodeFlags.BlockScoped) ? s.initializer.declarations.map(d => (ts.isIdentifier(d.name) ? d.name.text : '')) : [])
    let found = false
    const walk = (n, inFn) => {
      if (inFn && ts.isIdentifier(n) && names.has(n.text))
        found = true
      ts.forEachChild(n, c => walk(c, inFn || ts.isFunctionLike(n)))
    }
    if (names.size)
      walk(s.statement, false)
    captures.set(s, found)
  }
  return captures.get(s)
}

export class AnalysisLimit extends Error {}

const isFnNode = n => ts.isFunctionLike(n)

export class Interp {
  constructor(harness = {}) {
    this.harness = harness
    this.st = new State()
    this.ctx = ''
    this.h = { onThrow: (st, v) => { this.topThrows.push({ st, v }) }, onReturn: () => {}, onBreak: () => {}, onContinue: () => {} }
    this.topThrows = []
    this.events = []
    this.eventIx = new Map()
    this.opaque = new Map()
    this.mods = new Map()
    this.depth = 0
    this.stack = []
    this.fnsSeen = new Set()
    this.callSites = new Set()
    this.unrollLimit = harness.unrollLimit ?? 64
    this.pendingPromises = []
    this.globals = null // set by installNatives
    this.condFork = 0
    this.steps = 0
    this.logId = '#LOG'
    this.st.set(this.logId, rec('array', { items: [], x: { log: true } }))
    this.allocSeq = new Map()
  }

  // ------------------------------------------------------------ bookkeeping
  noteOpaque(what, node) {
    const k = `${what} @ ${node ? loc(node) : '?'}`
    this.opaque.set(k, (this.opaque.get(k) ?? 0) + 1)
  }

  emit(label, data = {}, node) {
    if (!this.st)
      return
    const key = `${label}|${this.ctx}|${node ? nodeId(node) : ''}|${data.key ?? ''}`
    this.st.bump(label)
    this.st.ver = -Math.random()
    const ev = { label, ...data, node, at: node ? loc(node) : undefined, stack: this.stack.map(f => f), ctx: this.ctx, counts: new Map(this.st.counts), facts: new Map(this.st.facts) }
    const ix = this.eventIx.get(key)
    if (ix === undefined) {
      this.eventIx.set(key, this.events.length)
      this.events.push(ev)
    }
    else {
      this.events[ix] = ev
    }
    return ev
  }

  /** append to the state's ordered log */
  log(entry) {
    if (!this.st)
      return
    const r = this.st.get(this.logId)
    if (r.star)
      this.st.set(this.logId, { ...r, star: union([r.star, entry]) })
    else this.st.set(this.logId, { ...r, items: [...r.items, entry] })
  }

  withCtx(suffix, f) {
    const c = this.ctx
    this.ctx = c + suffix
    try {
      return f()
    }
    finally { this.ctx = c }
  }

  alloc(r, tag) {
    const base = `${this.ctx}@${tag}`
    this.st.set(base, r)
    return ref(base)
  }

  rec(v) {
    return v.t === 'ref' ? this.st.get(v.id) : undefined
  }

  kindOf(v) {
    return v.t === 'ref' ? this.st.get(v.id)?.kind : undefined
  }

  // ------------------------------------------------------------ control
  throwValue(v) {
    if (!this.st)
      return BOT
    const st = this.st
    this.st = null
    this.h.onThrow(st, v)
    return BOT
  }

  mayThrow(v) {
    if (this.st)
      this.h.onThrow(this.st.clone(), v)
  }

  throwError(name, message, node) {
    if (!this.st)
      return BOT
    return this.throwValue(this.makeError(name, C(message), node))
  }

  makeError(name, message, node, extra = {}) {
    const props = new Map([['message', { v: message }], ['name', { v: C(name) }], ['stack', { v: sym(`stack(${name})`, { type: 'string', nonNull: true }) }]])
    for (const [k, v] of Object.entries(extra)) props.set(k, { v })
    return this.alloc(rec('error', { props, x: { errName: name, at: node ? loc(node) : '' } }), `err:${name}:${node ? nodeId(node) : 0}`)
  }

  /** run f with throws captured; returns { throws: [{st,v}] } and leaves this.st as the normal exit */
  capture(f) {
    const outer = this.h
    const throws = []
    this.h = { ...outer, onThrow: (st, v) => throws.push({ st, v }) }
    let v
    try {
      v = f()
    }
    finally { this.h = outer }
    return { v, throws }
  }

  joinList(list) {
    let st = null
    let v = BOT
    for (const e of list) {
      if (st == null) {
        st = e.st
        v = e.v
      }
      else {
        const ga = this.diff(st.facts, e.st.facts)
        const gb = this.diff(e.st.facts, st.facts)
        v = joinValue(v, e.v, ga, gb)
        st = joinStates(st, e.st)
      }
    }
    return st ? { st, v } : null
  }

  diff(a, b) {
    let m = null
    let n = 0
    for (const [k, v] of a) {
      if (b.get(k) !== v) {
        m ??= new Map()
        m.set(k, v)
        if (++n >= 12)
          break
      }
    }
    return m
  }

  /** run alternatives from forked states and join */
  branches(list) {
    const outs = []
    for (const [st, f] of list) {
      if (!st)
        continue
      this.st = st
      const v = f()
      if (this.st)
        outs.push({ st: this.st, v })
    }
    const j = this.joinList(outs)
    this.st = j ? j.st : null
    return j ? j.v : BOT
  }

  forEachAlt(v, f) {
    if (v.t !== 'union')
      return f(v)
    const st0 = this.st
    const list = v.alts.map((a, i) => [null, i])
    const outs = []
    for (let i = 0; i < list.length; i++) {
      const a = v.alts[i]
      this.st = i === list.length - 1 ? st0 : st0.clone()
      if (i === list.length - 1 && i > 0)
        this.st = st0.clone()
      if (a.g && !this.assertGuards(this.st, [a]))
        continue
      const r = this.withCtx('', () => f(a.v))
      if (this.st)
        outs.push({ st: this.st, v: r })
    }
    const j = this.joinList(outs)
    this.st = j ? j.st : null
    return j ? j.v : BOT
  }

  assertGuards(st, as) {
    let common = null
    for (const a of as) {
      if (!a.g)
        return true
      if (common == null) {
        common = new Map(a.g)
      }
      else {
        for (const [k, v] of common) {
          if (a.g.get(k) !== v)
            common.delete(k)
        }
      }
    }
    for (const [k, v] of common ?? []) {
      if (st.facts.has(k) && st.facts.get(k) !== v)
        return false
      st.facts.set(k, v)
    }
    return true
  }

  // ------------------------------------------------------------ truth and facts
  typeOf(v, st = this.st) {
    switch (v.t) {
      case 'const': return v.v === null ? 'object' : typeof v.v
      case 'ref': {
        return 'object'
      }
      case 'fn':
      case 'native': return v.objectLike ? 'object' : 'function'
      case 'sym': {
        const f = st?.facts.get(`val:${op('typeof', [v]).k}`)
        if (f !== undefined)
          return f
        return v.meta?.type
      }
      case 'op': return v.meta?.type
      default: return undefined
    }
  }

  truthAlt(v, st = this.st) {
    switch (v.t) {
      case 'const': return v.v ? 'T' : 'F'
      case 'ref':
      case 'fn':
      case 'native': return 'T'
      case 'op': {
        if (v.op === 'not') {
          const t = this.truthAlt(v.args[0], st)
          return t === 'T' ? 'F' : t === 'F' ? 'T' : '?'
        }
        const f = st.facts.get(`t:${v.k}`)
        if (f !== undefined)
          return f ? 'T' : 'F'
        if (v.op === 'nullish') {
          const n = this.nullAlt(v.args[0], st)
          return n === 'N' ? 'T' : n === 'NN' ? 'F' : '?'
        }
        if (v.op === 'seq') {
          const known = st.facts.get(`val:${v.args[0].k}`)
          if (known !== undefined && isConst(v.args[1]))
            return known === v.args[1].v ? 'T' : 'F'
        }
        if (v.op === 'lt' || v.op === 'le') {
          const r = this.cmpLen(v)
          if (r)
            return r
        }
        if (v.op === 'json' || v.op === 'template')
          return 'T'
        if (v.op === 'concat') {
          // a text is empty exactly when each of its parts is
          const parts = v.args.map(a => this.truthAlt(a.t === 'op' && a.op === 'str' ? TRUE : a, st))
          return parts.includes('T') ? 'T' : parts.every(p => p === 'F') ? 'F' : '?'
        }
        if (v.meta?.nonNull && v.meta?.type === 'object')
          return 'T'
        return '?'
      }
      case 'sym': {
        const f = st.facts.get(`t:${v.k}`)
        if (f !== undefined)
          return f ? 'T' : 'F'
        if (v.meta?.truthy)
          return 'T'
        if (v.meta?.nonNull && (v.meta.type === 'object' || v.meta.type === 'function'))
          return 'T'
        if (v.meta?.minLen > 0)
          return 'T'
        const n = st.facts.get(`n:${v.k}`)
        if (n === true)
          return 'F'
        if (n === false && (v.meta?.type === 'object' || v.meta?.type === 'function'))
          return 'T'
        const known = st.facts.get(`val:${v.k}`)
        if (known !== undefined)
          return known ? 'T' : 'F'
        return '?'
      }
      default: return '?'
    }
  }

  cmpLen(v) {
    // const < length / const <= length with a known lower bound
    const [a, b] = v.args
    if (v.op === 'lt' && isConst(a) && a.v === 0 && b.t === 'op' && b.op === 'length') {
      const t = this.truthAlt(b.args[0], this.st)
      if (t !== '?')
        return t
    }
    if (isConst(a) && b.meta?.minLen !== undefined) {
      if (v.op === 'lt' && b.meta.minLen > a.v)
        return 'T'
      if (v.op === 'le' && b.meta.minLen >= a.v)
        return 'T'
    }
    if (isConst(b) && a.meta?.minLen !== undefined) {
      if (v.op === 'lt' && a.meta.minLen >= b.v)
        return 'F'
      if (v.op === 'le' && a.meta.minLen > b.v)
        return 'F'
    }
    return null
  }

  nullAlt(v, st = this.st) {
    switch (v.t) {
      case 'const': return v.v == null ? 'N' : 'NN'
      case 'ref':
      case 'fn':
      case 'native': return 'NN'
      case 'op': return 'NN'
      case 'sym': {
        if (v.meta?.nonNull || ['string', 'number', 'boolean'].includes(v.meta?.type))
          return 'NN'
        const f = st.facts.get(`n:${v.k}`)
        if (f !== undefined)
          return f ? 'N' : 'NN'
        if (st.facts.get(`t:${v.k}`) === true)
          return 'NN'
        return '?'
      }
      default: return '?'
    }
  }

  assumeTruth(st, v, b) {
    if (v.t === 'op' && v.op === 'not')
      return this.assumeTruth(st, v.args[0], !b)
    if (v.t !== 'sym' && v.t !== 'op')
      return
    st.facts.set(`t:${v.k}`, b)
    if (v.t === 'sym' && b)
      st.facts.set(`n:${v.k}`, false)
    if (v.t === 'op' && v.op === 'nullish')
      st.facts.set(`n:${v.args[0].k}`, b)
    if (v.t === 'op' && v.op === 'seq' && isConst(v.args[1])) {
      if (b) {
        st.facts.set(`val:${v.args[0].k}`, v.args[1].v)
        if (v.args[1].v === undefined || v.args[1].v === null)
          st.facts.set(`n:${v.args[0].k}`, true)
        else if (v.args[0].t === 'sym')
          st.facts.set(`n:${v.args[0].k}`, false)
      }
    }
    if (v.t === 'op' && v.op === 'typeofis' && b)
      st.facts.set(`val:${op('typeof', [v.args[0]]).k}`, v.args[1].v)
  }

  // ------------------------------------------------------------ locations
  stripExpr(n) {
    while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n) || ts.isSatisfiesExpression?.(n) || ts.isTypeAssertionExpression?.(n))
      n = n.expression
    return n
  }

  /** a location that can be narrowed: variable or property of an allocated object; no side effects */
  peek(n, env) {
    n = this.stripExpr(n)
    if (ts.isIdentifier(n)) {
      for (let e = env; e; e = e.parent) {
        const r = this.st.get(e.scope)
        if (r && r.props.has(n.text))
          return { id: e.scope, key: n.text, v: r.props.get(n.text).v }
        if (e.mod)
          return null
      }
      return null
    }
    if (ts.isPropertyAccessExpression(n)) {
      const b = this.peek(n.expression, env)
      if (!b || b.v.t !== 'ref')
        return null
      const r = this.st.get(b.v.id)
      const p = r?.props.get(n.name.text)
      if (!p || p.may)
        return null
      return { id: b.v.id, key: n.name.text, v: p.v }
    }
    return null
  }

  putLoc(st, l, v) {
    const r = st.get(l.id)
    const props = new Map(r.props)
    props.set(l.key, { v, may: false })
    st.heap.set(l.id, { ...r, props })
  }

  unionLocs(n, env, out = [], top = true) {
    if (out.length > 3 || isFnNode(n))
      return out
    const s = this.stripExpr(n)
    if (ts.isIdentifier(s) || ts.isPropertyAccessExpression(s)) {
      const l = this.peek(s, env)
      if (l && l.v.t === 'union' && l.v.alts.length <= 10 && !out.some(o => o.id === l.id && o.key === l.key))
        out.push(l)
      if (ts.isPropertyAccessExpression(s))
        this.unionLocs(s.expression, env, out, false)
      return out
    }
    ts.forEachChild(s, c => void this.unionLocs(c, env, out, false))
    return out
  }

  // ------------------------------------------------------------ conditions
  /** returns { T: state|null, F: state|null, vT, vF } and leaves this.st undefined */
  cond(n, env) {
    const s = this.stripExpr(n)
    if (!this.st)
      return { T: null, F: null, vT: BOT, vF: BOT }
    if (ts.isPrefixUnaryExpression(s) && s.operator === K.ExclamationToken) {
      const c = this.cond(s.operand, env)
      return { T: c.F, F: c.T, vT: c.F ? TRUE : BOT, vF: c.T ? FALSE : BOT }
    }
    if (ts.isBinaryExpression(s)) {
      const o = s.operatorToken.kind
      if (o === K.AmpersandAmpersandToken) {
        const a = this.cond(s.left, env)
        if (!a.T)
          return a
        this.st = a.T
        const b = this.cond(s.right, env)
        return { T: b.T, vT: b.vT, ...this.joinF(a.F, a.vF, b.F, b.vF) }
      }
      if (o === K.BarBarToken) {
        const a = this.cond(s.left, env)
        if (!a.F)
          return a
        this.st = a.F
        const b = this.cond(s.right, env)
        const j = this.joinF(a.T, a.vT, b.T, b.vT)
        return { T: j.F, vT: j.vF, F: b.F, vF: b.vF }
      }
      if (o === K.CommaToken) {
        this.eval(s.left, env)
        return this.cond(s.right, env)
      }
    }
    if (ts.isCallExpression(s) && ts.isIdentifier(s.expression) && s.expression.text === 'Boolean' && s.arguments.length === 1 && !this.peek(s.expression, env)) {
      const c = this.cond(s.arguments[0], env)
      return { T: c.T, F: c.F, vT: c.T ? TRUE : BOT, vF: c.F ? FALSE : BOT }
    }
    return this.condLeaf(s, env)
  }

  joinF(a, va, b, vb) {
    if (!a)
      return { F: b, vF: vb }
    if (!b)
      return { F: a, vF: va }
    const j = this.joinList([{ st: a, v: va }, { st: b, v: vb }])
    return { F: j.st, vF: j.v }
  }

  condLeaf(s, env) {
    const self = this.peek(s, env)
    if (!self && this.condFork < 3) {
      const l = this.unionLocs(s, env)[0]
      if (l) {
        this.condFork++
        try {
          const st0 = this.st
          let T = null
          let F = null
          let vT = BOT
          let vF = BOT
          for (const a of l.v.alts) {
            const st = st0.clone()
            if (a.g && !this.assertGuards(st, [a]))
              continue
            this.putLoc(st, l, a.v)
            this.st = st
            const c = this.condLeaf(s, env)
            ;({ F: T, vF: vT } = this.joinF(T, vT, c.T, c.vT))
            ;({ F, vF } = this.joinF(F, vF, c.F, c.vF))
          }
          this.st = null
          return { T, F, vT, vF }
        }
        finally { this.condFork-- }
      }
    }
    const v = this.eval(s, env)
    if (!this.st)
      return { T: null, F: null, vT: BOT, vF: BOT }
    return this.splitTruth(v, self && self.v.k === v.k ? self : null)
  }

  splitTruth(v, location) {
    const st = this.st
    const tA = []
    const fA = []
    for (const a of alts(v)) {
      const t = this.truthAlt(a.v, st)
      if (t !== 'F')
        tA.push(a)
      if (t !== 'T')
        fA.push(a)
    }
    const mk = (as, b, other) => {
      if (as.length === 0)
        return { st: null, v: BOT }
      const s = other.length ? st.clone() : st
      if (as.length < alts(v).length || as.length === 1) {
        if (!this.assertGuards(s, as))
          return { st: null, v: BOT }
      }
      if (as.length === 1)
        this.assumeTruth(s, as[0].v, b)
      let val = as.length === alts(v).length ? v : union(as.map(a => ({ alt: a })))
      const single = as.length === 1 ? as[0].v : null
      if (single && (single.meta?.type === 'boolean') && (single.t === 'op' || single.t === 'sym'))
        val = bool(b)
      if (location && val.k !== v.k)
        this.putLoc(s, location, val)
      return { st: s, v: val }
    }
    const t = mk(tA, true, fA)
    const f = mk(fA, false, tA)
    this.st = null
    return { T: t.st, F: f.st, vT: t.v, vF: f.v }
  }

  /** split on nullishness: { N, NN, vN, vNN } */
  splitNull(v, location) {
    const st = this.st
    const nA = []
    const nnA = []
    for (const a of alts(v)) {
      const t = this.nullAlt(a.v, st)
      if (t !== 'NN')
        nA.push(a)
      if (t !== 'N')
        nnA.push(a)
    }
    const mk = (as, isNull, other) => {
      if (as.length === 0)
        return { st: null, v: BOT }
      const s = other.length ? st.clone() : st
      if (as.length < alts(v).length || as.length === 1) {
        if (!this.assertGuards(s, as))
          return { st: null, v: BOT }
      }
      if (as.length === 1 && as[0].v.t === 'sym') {
        s.facts.set(`n:${as[0].v.k}`, isNull)
        if (isNull)
          s.facts.set(`t:${as[0].v.k}`, false)
      }
      const val = union(as.map(a => ({ alt: a })))
      if (location && val.k !== v.k)
        this.putLoc(s, location, val)
      return { st: s, v: val }
    }
    const n = mk(nA, true, nnA)
    const nn = mk(nnA, false, nA)
    this.st = null
    return { N: n.st, NN: nn.st, vN: n.v, vNN: nn.v }
  }

  // ------------------------------------------------------------ environment
  newScope(env, tag, extra = {}) {
    const id = `${this.ctx}$${tag}`
    this.st.set(id, rec('scope'))
    return { scope: id, parent: env, ...extra }
  }

  declare(env, name, v) {
    const r = this.st.get(env.scope)
    const props = new Map(r.props)
    props.set(name, { v, may: false })
    this.st.set(env.scope, { ...r, props })
  }

  lookup(name, env, node) {
    for (let e = env; e; e = e.parent) {
      const r = this.st.get(e.scope)
      const p = r?.props.get(name)
      if (p)
        return p.v
      if (e.mod) {
        const imp = e.mod.imports.get(name)
        if (imp)
          return this.importValue(imp, node)
      }
    }
    return this.globalValue(name, node)
  }

  globalValue(name, node) {
    if (name === 'undefined')
      return UNDEF
    if (name === 'NaN')
      return C(Number.NaN)
    if (name === 'Infinity')
      return C(Number.POSITIVE_INFINITY)
    const hv = this.harness.globals?.[name]
    if (hv)
      return typeof hv === 'function' ? hv(this) : hv
    if (name === 'globalThis' || name === 'window' || name === 'self')
      return native('globalThis', null, { objectLike: true, isGlobal: true })
    const g = this.globals.get(name)
    if (g)
      return g
    this.noteOpaque(`global ${name}`, node)
    return sym(`global.${name}`, { nonNull: true })
  }

  assignVar(name, env, v) {
    for (let e = env; e; e = e.parent) {
      const r = this.st.get(e.scope)
      if (r?.props.has(name)) {
        const props = new Map(r.props)
        props.set(name, { v, may: false })
        this.st.set(e.scope, { ...r, props })
        return
      }
    }
    this.noteOpaque(`assignment to unknown ${name}`)
  }

  // ------------------------------------------------------------ modules
  loadModule(file) {
    let m = this.mods.get(file)
    if (m)
      return m
    const sf = parseFile(file)
    m = { file, exports: new Map(), stars: [], imports: new Map(), env: null, sf }
    this.mods.set(file, m)
    if (sf.json) {
      const outer = this.ctx
      this.ctx = `mod:${file}`
      m.env = this.newScope(null, 'json', { mod: m })
      this.declare(m.env, '*default*', this.fromJS(sf.json, 'json'))
      m.exports.set('default', { local: '*default*' })
      this.ctx = outer
      return m
    }
    const outerCtx = this.ctx
    const outerStack = this.stack
    const outerH = this.h
    this.ctx = `mod:${file}`
    this.stack = []
    m.env = this.newScope(null, 'module', { mod: m })
    // imports first
    for (const s of sf.statements) {
      if (ts.isImportDeclaration(s)) {
        if (s.importClause?.isTypeOnly || s.importClause?.phaseModifier === K.TypeKeyword)
          continue
        const r = resolve(s.moduleSpecifier.text, file)
        const c = s.importClause
        if (c?.name)
          m.imports.set(c.name.text, { ...r, name: 'default', node: s })
        if (c?.namedBindings) {
          if (ts.isNamespaceImport(c.namedBindings)) {
            m.imports.set(c.namedBindings.name.text, { ...r, ns: true, node: s })
          }
          else {
            for (const el of c.namedBindings.elements) {
              if (!el.isTypeOnly)
                m.imports.set(el.name.text, { ...r, name: (el.propertyName ?? el.name).text, node: s })
            }
          }
        }
        if (r.file)
          this.loadModule(r.file)
      }
      else if (ts.isExportDeclaration(s) && !s.isTypeOnly) {
        if (s.moduleSpecifier) {
          const r = resolve(s.moduleSpecifier.text, file)
          if (r.file)
            this.loadModule(r.file)
          if (!s.exportClause) {
            m.stars.push(r)
          }
          else if (ts.isNamespaceExport(s.exportClause)) {
            m.exports.set(s.exportClause.name.text, { from: { ...r, ns: true } })
          }
          else {
            for (const el of s.exportClause.elements) {
              if (!el.isTypeOnly)
                m.exports.set(el.name.text, { from: { ...r, name: (el.propertyName ?? el.name).text } })
            }
          }
        }
        else if (s.exportClause && ts.isNamedExports(s.exportClause)) {
          for (const el of s.exportClause.elements) {
            if (!el.isTypeOnly)
              m.exports.set(el.name.text, { local: (el.propertyName ?? el.name).text })
          }
        }
      }
      else if (ts.isExportAssignment(s)) {
        m.exports.set('default', { local: '*default*' })
      }
      else if (s.modifiers?.some(x => x.kind === K.ExportKeyword)) {
        if (ts.isVariableStatement(s)) {
          for (const d of s.declarationList.declarations) {
            for (const nm of this.bindingNames(d.name)) m.exports.set(nm, { local: nm })
          }
        }
        else if (s.name && !ts.isInterfaceDeclaration(s) && !ts.isTypeAliasDeclaration(s)) {
          const def = s.modifiers.some(x => x.kind === K.DefaultKeyword)
          m.exports.set(def ? 'default' : s.name.text, { local: s.name.text })
        }
      }
    }
    this.h = { ...outerH, onThrow: (st, v) => { this.noteOpaque(`module ${file} throws at load ${v.k}`) } }
    this.st ??= new State()
    this.execBlock(sf.statements, m.env)
    this.h = outerH
    this.ctx = outerCtx
    this.stack = outerStack
    return m
  }

  bindingNames(n, out = []) {
    if (ts.isIdentifier(n))
      out.push(n.text)
    else n.elements.forEach(e => ts.isOmittedExpression(e) || this.bindingNames(e.name, out))
    return out
  }

  importValue(imp, node) {
    if (imp.file) {
      const m = this.loadModule(imp.file)
      if (imp.ns)
        return this.namespace(m)
      const v = this.exportValue(m, imp.name)
      if (v)
        return v
      this.noteOpaque(`missing export ${imp.name} of ${imp.file}`, node)
      return UNDEF
    }
    const ext = this.harness.externals?.[imp.external] ?? this.externals?.[imp.external]
    if (ext) {
      if (imp.ns)
        return this.externalNs(imp.external, ext)
      const v = ext[imp.name]
      if (v !== undefined)
        return typeof v === 'function' ? v(this) : v
    }
    this.noteOpaque(`external ${imp.external}.${imp.name ?? '*'}`, node)
    return sym(`ext:${imp.external}.${imp.name ?? '*'}`, { nonNull: true, opaque: true })
  }

  externalNs(name, ext) {
    const props = new Map()
    for (const [k, v] of Object.entries(ext)) props.set(k, { v: typeof v === 'function' ? v(this) : v })
    const id = `ns:ext:${name}`
    this.st.set(id, rec('object', { props }))
    return ref(id)
  }

  /** every exported value name of a module, with the defining module */
  exportNames(m, seen = new Set()) {
    const out = new Map()
    if (seen.has(m.file))
      return out
    seen.add(m.file)
    for (const r of m.stars) {
      if (!r.file)
        continue
      const sub = this.loadModule(r.file)
      for (const [n, o] of this.exportNames(sub, seen)) {
        if (n === 'default')
          continue
        const p = out.get(n)
        if (p && `${p.file}|${p.name}` !== `${o.file}|${o.name}`)
          out.set(n, { ...p, conflict: o })
        else out.set(n, o)
      }
    }
    for (const [n, e] of m.exports) {
      if (e.from) {
        if (e.from.ns) {
          out.set(n, { file: e.from.file ?? e.from.external, name: '*' })
        }
        else if (e.from.file) {
          const o = this.exportNames(this.loadModule(e.from.file)).get(e.from.name)
          if (o)
            out.set(n, o)
        }
        else {
          out.set(n, { file: `ext:${e.from.external}`, name: e.from.name })
        }
      }
      else {
        const imp = m.imports.get(e.local)
        if (imp?.file) {
          const o = this.exportNames(this.loadModule(imp.file)).get(imp.name)
          if (o)
            out.set(n, o)
        }
        else {
          out.set(n, { file: m.file, name: e.local })
        }
      }
    }
    seen.delete(m.file)
    return out
  }

  exportValue(m, name, seen = new Set()) {
    if (seen.has(m.file))
      return undefined
    seen.add(m.file)
    const e = m.exports.get(name)
    if (e) {
      if (e.from)
        return this.importValue(e.from)
      const r = this.st.get(m.env.scope)
      const p = r?.props.get(e.local)
      if (p)
        return p.v
      const imp = m.imports.get(e.local)
      if (imp)
        return this.importValue(imp)
      return undefined
    }
    for (const s of m.stars) {
      if (s.file) {
        const v = this.exportValue(this.loadModule(s.file), name, seen)
        if (v)
          return v
      }
      else {
        const ext = this.harness.externals?.[s.external] ?? this.externals?.[s.external]
        const v = ext?.[name]
        if (v !== undefined)
          return typeof v === 'function' ? v(this) : v
      }
    }
    return undefined
  }

  namespace(m) {
    const props = new Map()
    for (const [n] of this.exportNames(m)) {
      const v = this.exportValue(m, n)
      if (v)
        props.set(n, { v })
    }
    const id = `ns:${m.file}`
    this.st.set(id, rec('object', { props }))
    return ref(id)
  }

  // ------------------------------------------------------------ statements
  hoist(stmts, env) {
    for (const s of stmts) {
      if (ts.isFunctionDeclaration(s) && s.body && s.name)
        this.declare(env, s.name.text, this.closure(s, env))
      else if (ts.isFunctionDeclaration(s) && s.body && s.modifiers?.some(x => x.kind === K.DefaultKeyword))
        this.declare(env, '*default*', this.closure(s, env))
    }
  }

  execBlock(stmts, env) {
    this.hoist(stmts, env)
    for (const s of stmts) {
      if (!this.st)
        return
      this.exec(s, env)
    }
  }

  exec(s, env) {
    if (!this.st)
      return
    if (++this.steps > 4_000_000)
      throw new AnalysisLimit('step limit')
    switch (s.kind) {
      case K.VariableStatement:
        for (const d of s.declarationList.declarations) this.execDecl(d, env)
        return
      case K.ExpressionStatement:
        this.eval(s.expression, env)
        return
      case K.FunctionDeclaration:
      case K.InterfaceDeclaration:
      case K.TypeAliasDeclaration:
      case K.ImportDeclaration:
      case K.ExportDeclaration:
      case K.EmptyStatement:
      case K.ModuleDeclaration:
      case K.NamespaceExportDeclaration:
      case K.DebuggerStatement:
        return
      case K.ExportAssignment:
        this.declare(env, '*default*', this.eval(s.expression, env))
        return
      case K.EnumDeclaration: {
        const props = new Map()
        let nx = 0
        for (const mem of s.members) {
          let v = C(nx)
          if (mem.initializer)
            v = this.eval(mem.initializer, env)
          if (isConst(v) && typeof v.v === 'number')
            nx = v.v + 1
          props.set(mem.name.text, { v })
        }
        this.declare(env, s.name.text, this.alloc(rec('object', { props }), nodeId(s)))
        return
      }
      case K.ClassDeclaration:
        this.declare(env, s.name?.text ?? '*default*', this.makeClass(s, env))
        return
      case K.Block:
        this.execBlock(s.statements, this.newScope(env, nodeId(s)))
        return
      case K.IfStatement: {
        const c = this.cond(s.expression, env)
        this.branches([
          [c.T, () => this.exec(s.thenStatement, env) ?? UNDEF],
          [c.F, () => (s.elseStatement ? this.exec(s.elseStatement, env) : undefined) ?? UNDEF],
        ])
        return
      }
      case K.ReturnStatement: {
        const v = s.expression ? this.eval(s.expression, env) : UNDEF
        if (this.st) {
          const st = this.st
          this.st = null
          this.h.onReturn(st, v)
        }
        return
      }
      case K.ThrowStatement: {
        const v = this.eval(s.expression, env)
        this.throwValue(v)
        return
      }
      case K.BreakStatement: {
        const st = this.st
        this.st = null
        this.h.onBreak(st, s.label?.text)
        return
      }
      case K.ContinueStatement: {
        const st = this.st
        this.st = null
        this.h.onContinue(st, s.label?.text)
        return
      }
      case K.TryStatement:
        this.execTry(s, env)
        return
      case K.SwitchStatement:
        this.execSwitch(s, env)
        return
      case K.ForOfStatement:
        this.execForOf(s, env)
        return
      case K.ForInStatement:
        this.execForIn(s, env)
        return
      case K.ForStatement: {
        const e2 = this.newScope(env, nodeId(s))
        if (s.initializer) {
          if (ts.isVariableDeclarationList(s.initializer))
            s.initializer.declarations.forEach(d => this.execDecl(d, e2))
          else this.eval(s.initializer, e2)
        }
        this.whileLoop(s, e2, s.condition, s.incrementor, s.statement, false)
        return
      }
      case K.WhileStatement:
        this.whileLoop(s, env, s.expression, null, s.statement, false)
        return
      case K.DoStatement:
        this.whileLoop(s, env, s.expression, null, s.statement, true)
        return
      case K.LabeledStatement: {
        const label = s.label.text
        s.statement.__label = label
        const outer = this.h
        const brk = []
        this.h = { ...outer, onBreak: (st, l) => (l === label ? brk.push({ st, v: UNDEF }) : outer.onBreak(st, l)) }
        this.exec(s.statement, env)
        this.h = outer
        if (this.st)
          brk.push({ st: this.st, v: UNDEF })
        this.st = this.joinList(brk)?.st ?? null
        return
      }
      default:
        this.noteOpaque(`statement ${K[s.kind]}`, s)
    }
  }

  execDecl(d, env) {
    if (!this.st)
      return
    let v = UNDEF
    if (d.initializer)
      v = this.evalNamed(d.initializer, env, ts.isIdentifier(d.name) ? d.name.text : undefined)
    if (!this.st)
      return
    this.bind(d.name, v, env)
  }

  evalNamed(n, env, _name) {
    return this.eval(n, env)
  }

  bind(pat, v, env) {
    if (!this.st)
      return
    if (ts.isIdentifier(pat)) {
      this.declare(env, pat.text, v)
      return
    }
    if (ts.isObjectBindingPattern(pat)) {
      if (alts(v).every(a => isNullish(a.v))) {
        this.throwError('TypeError', 'Cannot destructure undefined', pat)
        return
      }
      const taken = new Set()
      for (const el of pat.elements) {
        if (!this.st)
          return
        if (el.dotDotDotToken) {
          this.bind(el.name, this.objectRest(v, taken, el), env)
          continue
        }
        const key = el.propertyName ? this.propName(el.propertyName, env) : C(el.name.text)
        if (isConst(key))
          taken.add(String(key.v))
        let x = this.getProp(v, key, el)
        x = this.applyDefault(x, el.initializer, env)
        this.bind(el.name, x, env)
      }
      return
    }
    // array pattern
    const it = this.iterate(v, pat)
    pat.elements.forEach((el, i) => {
      if (!this.st || ts.isOmittedExpression(el))
        return
      if (el.dotDotDotToken) {
        const r = rec('array', { items: it.items.slice(i), star: it.star })
        this.bind(el.name, this.alloc(r, `rest:${nodeId(el)}`), env)
        return
      }
      let x = i < it.items.length ? it.items[i] : it.star ? union([it.star, UNDEF]) : it.unknown ?? UNDEF
      x = this.applyDefault(x, el.initializer, env)
      this.bind(el.name, x, env)
    })
  }

  applyDefault(x, init, env) {
    if (!init || !this.st)
      return x
    const as = alts(x)
    const undef = as.filter(a => isUndef(a.v))
    const maybe = as.filter(a => a.v.t === 'sym' && this.nullAlt(a.v) === '?')
    if (undef.length === 0 && maybe.length === 0)
      return x
    if (undef.length === as.length)
      return this.eval(init, env)
    // both possible
    const st0 = this.st
    const stU = st0.clone()
    const stD = st0
    if (as.length === 1) {
      stU.facts.set(`n:${x.k}`, true)
      stD.facts.set(`n:${x.k}`, false)
    }
    const rest = union(as.filter(a => !isUndef(a.v)).map(a => ({ alt: a })))
    return this.branches([[stU, () => this.eval(init, env)], [stD, () => rest]])
  }

  objectRest(v, taken, node) {
    return mapAlts(v, (a) => {
      const r = rec('object')
      const src = this.rec(a)
      if (src) {
        for (const [k, e] of src.props) {
          if (!taken.has(k))
            r.props.set(k, e)
        }
        r.rest = src.rest
      }
      else if (a.t === 'sym') {
        r.rest = [sym(`${a.id}\\{${[...taken].sort().join(',')}}`, { restOf: a, taken: [...taken] })]
      }
      return this.alloc(r, `orest:${nodeId(node)}:${a.k}`)
    })
  }

  execTry(s, env) {
    const outer = this.h
    const fin = s.finallyBlock
    // completions leaving try/catch when there is a finally
    const leave = { throws: [], returns: [], breaks: [], conts: [] }
    const mid = fin
      ? {
          onThrow: (st, v) => leave.throws.push({ st, v }),
          onReturn: (st, v) => leave.returns.push({ st, v }),
          onBreak: (st, l) => leave.breaks.push({ st, l }),
          onContinue: (st, l) => leave.conts.push({ st, l }),
        }
      : outer
    const throws = []
    this.h = s.catchClause ? { ...mid, onThrow: (st, v) => throws.push({ st, v }) } : mid
    this.exec(s.tryBlock, env)
    let normal = this.st
    this.h = mid
    if (s.catchClause) {
      const j = this.joinList(throws)
      if (j) {
        this.st = j.st
        const e2 = this.newScope(env, nodeId(s.catchClause))
        if (s.catchClause.variableDeclaration)
          this.bind(s.catchClause.variableDeclaration.name, j.v, e2)
        this.exec(s.catchClause.block, e2)
        normal = joinStates(normal, this.st)
      }
    }
    this.h = outer
    this.st = normal
    if (!fin)
      return
    if (this.st)
      this.withCtx('fN', () => this.exec(fin, env))
    const after = this.st
    const group = (list, tag, k) => {
      const j = this.joinList(list.map(e => ({ st: e.st, v: e.v ?? UNDEF })))
      if (!j)
        return
      this.st = j.st
      this.withCtx(tag, () => this.exec(fin, env))
      if (this.st) {
        const st = this.st
        this.st = null
        k(st, j.v)
      }
    }
    group(leave.throws, 'fT', (st, v) => outer.onThrow(st, v))
    group(leave.returns, 'fR', (st, v) => outer.onReturn(st, v))
    for (const l of new Set(leave.breaks.map(b => b.l))) group(leave.breaks.filter(b => b.l === l), 'fB', st => outer.onBreak(st, l))
    for (const l of new Set(leave.conts.map(b => b.l))) group(leave.conts.filter(b => b.l === l), 'fC', st => outer.onContinue(st, l))
    this.st = after
  }

  execSwitch(s, env) {
    const l = this.unionLocs(s.expression, env)[0]
    if (l && this.condFork < 3) {
      this.condFork++
      const st0 = this.st
      this.branches(l.v.alts.map((a) => {
        const st = st0.clone()
        if (a.g && !this.assertGuards(st, [a]))
          return [null, null]
        this.putLoc(st, l, a.v)
        return [st, () => {
          this.execSwitch1(s, env)
          return UNDEF
        }]
      }))
      this.condFork--
      return
    }
    this.execSwitch1(s, env)
  }

  execSwitch1(s, env) {
    const disc = this.eval(s.expression, env)
    if (!this.st)
      return
    const e2 = this.newScope(env, nodeId(s))
    const clauses = s.caseBlock.clauses
    const entry = clauses.map(() => null)
    let cur = this.st
    clauses.forEach((c, i) => {
      if (!cur || c.kind === K.DefaultClause)
        return
      this.st = cur
      const cv = this.eval(c.expression, e2)
      if (!this.st) {
        cur = null
        return
      }
      const eq = this.binary('===', disc, cv, c)
      const sp = this.splitTruth(eq, null)
      entry[i] = sp.T
      cur = sp.F
    })
    const di = clauses.findIndex(c => c.kind === K.DefaultClause)
    const outs = []
    if (di >= 0)
      entry[di] = cur
    else if (cur)
      outs.push({ st: cur, v: UNDEF })
    const outer = this.h
    this.h = { ...outer, onBreak: (st, l) => (l ? outer.onBreak(st, l) : outs.push({ st, v: UNDEF })) }
    for (const c of clauses) this.hoist(c.statements, e2)
    this.st = null
    clauses.forEach((c, i) => {
      this.st = joinStates(this.st, entry[i])
      if (this.st)
        c.statements.forEach(x => this.exec(x, e2))
    })
    this.h = outer
    if (this.st)
      outs.push({ st: this.st, v: UNDEF })
    this.st = this.joinList(outs)?.st ?? null
  }

  /** run iter once with break/continue captured; returns states */
  loopBody(s, iter, brk) {
    const outer = this.h
    const label = s?.__label
    const conts = []
    this.h = {
      ...outer,
      onBreak: (st, l) => (l && l !== label ? outer.onBreak(st, l) : l ? outer.onBreak(st, l) : brk.push({ st, v: UNDEF })),
      onContinue: (st, l) => (l && l !== label ? outer.onContinue(st, l) : conts.push({ st, v: UNDEF })),
    }
    try {
      iter()
    }
    finally { this.h = outer }
    if (this.st)
      conts.push({ st: this.st, v: UNDEF })
    this.st = this.joinList(conts)?.st ?? null
  }

  /** zero or more iterations to a fixpoint. iter() runs one iteration from this.st; exits are pushed by the caller */
  fixLoop(tag, iter, node, from = 2) {
    if (!this.st)
      return
    let head = this.st
    const outer = this.h
    let cap
    for (let n = 0; n < 14; n++) {
      cap = { t: [], r: [], b: [], c: [] }
      const c = cap
      this.h = {
        onThrow: (st, v) => c.t.push([st, v]),
        onReturn: (st, v) => c.r.push([st, v]),
        onBreak: (st, l) => c.b.push([st, l]),
        onContinue: (st, l) => c.c.push([st, l]),
      }
      this.st = head.clone()
      try {
        this.withCtx(`~${tag}`, iter)
      }
      finally { this.h = outer }
      const next0 = this.st
      if (!next0)
        break
      let next = joinStates(head, next0)
      if (n >= from)
        next = widenStates(head, next, tag)
      if (statesEqual(head, next)) {
        break
      }
      head = next
      if (n === 13)
        this.noteOpaque('loop fixpoint not reached', node)
    }
    this.st = null
    for (const [st, v] of cap.t) outer.onThrow(st, v)
    for (const [st, v] of cap.r) outer.onReturn(st, v)
    for (const [st, l] of cap.b) outer.onBreak(st, l)
    for (const [st, l] of cap.c) outer.onContinue(st, l)
    this.st = head
  }

  whileLoop(s, env, cond, inc, body, isDo) {
    const brk = []
    let exits = []
    let i = 0
    let fix = false
    const fresh = inc && capturesLoopVars(s)
    const one = (tag) => {
      this.withCtx(tag, () => {
        this.loopBody(s, () => {
          const e2 = this.copyLoopScope(env, s)
          this.exec(body, e2)
        }, brk)
        if (this.st && inc) {
          // closures made in the body keep this round's bindings
          if (fresh && !fix) {
            const kept = this.st.get(env.scope)
            env = this.newScope(env.parent, `${nodeId(s)}i`)
            this.st.set(env.scope, kept)
          }
          else if (fresh) {
            this.noteOpaque('closures over the variables of a loop with unknown rounds', s)
          }
          this.eval(inc, env)
        }
      })
    }
    if (isDo)
      one(`#${i++}`)
    while (this.st) {
      const c = cond ? this.cond(cond, env) : { T: this.st, F: null }
      if (c.F)
        exits.push({ st: c.F, v: UNDEF })
      if (!c.T) {
        this.st = null
        break
      }
      if (c.F || i >= this.unrollLimit) {
        // unknown trip count: fixpoint from here
        this.st = c.T
        fix = true
        break
      }
      this.st = c.T
      one(`#${i++}`)
    }
    if (fix) {
      // body, then loop
      let last = []
      const base = exits
      one(`#${i}`)
      this.fixLoop(`w${nodeId(s)}`, () => {
        last = []
        const c = cond ? this.cond(cond, env) : { T: this.st, F: null }
        if (c.F)
          last.push({ st: c.F, v: UNDEF })
        this.st = c.T
        if (this.st)
          one('')
      }, s)
      // leaving from the head
      if (this.st && cond) {
        const c = this.cond(cond, env)
        if (c.F)
          last.push({ st: c.F, v: UNDEF })
      }
      exits = [...base, ...last]
    }
    exits.push(...brk)
    this.st = this.joinList(exits)?.st ?? null
  }

  copyLoopScope(env) {
    return env
  }

  execForOf(s, env) {
    const v = this.eval(s.expression, env)
    if (!this.st)
      return
    const brk = []
    const bindIt = (x) => {
      const e2 = this.newScope(env, nodeId(s))
      if (s.awaitModifier)
        x = this.awaitValue(x, s)
      if (!this.st)
        return
      if (ts.isVariableDeclarationList(s.initializer))
        this.bind(s.initializer.declarations[0].name, x, e2)
      else this.assign(s.initializer, x, env)
      this.exec(s.statement, e2)
    }
    // streams (for await)
    if (v.t === 'ref' && this.kindOf(v) === 'stream' && s.awaitModifier) {
      this.natives.consumeInLoop(this, v, x => this.loopBody(s, () => bindIt(x), brk), s)
      if (this.st)
        brk.push({ st: this.st, v: UNDEF })
      this.st = this.joinList(brk)?.st ?? null
      return
    }
    const run = (av0) => {
      const av = this.iterableOf(av0, s.awaitModifier, s)
      if (!this.st)
        return UNDEF
      if (this.kindOf(av) === 'generator') {
        this.runGenerator(av, x => this.loopBody(s, () => bindIt(x), brk), s)
        return UNDEF
      }
      const it = this.iterate(av, s)
      if (!this.st)
        return UNDEF
      it.items.forEach((x, i) => {
        if (this.st)
          this.withCtx(`#${i}`, () => this.loopBody(s, () => bindIt(x), brk))
      })
      const star = it.star ?? it.unknown
      if (star && this.st)
        this.fixLoop(`f${nodeId(s)}`, () => this.loopBody(s, () => bindIt(star), brk), s)
      return UNDEF
    }
    this.forEachAlt(v, run)
    if (this.st)
      brk.push({ st: this.st, v: UNDEF })
    this.st = this.joinList(brk)?.st ?? null
  }

  execForIn(s, env) {
    const v = this.eval(s.expression, env)
    if (!this.st)
      return
    const brk = []
    const keys = this.ownKeys(v, s)
    const bindIt = (x) => {
      const e2 = this.newScope(env, nodeId(s))
      if (ts.isVariableDeclarationList(s.initializer))
        this.bind(s.initializer.declarations[0].name, x, e2)
      else this.assign(s.initializer, x, env)
      this.exec(s.statement, e2)
    }
    keys.items.forEach((x, i) => {
      if (this.st)
        this.withCtx(`#${i}`, () => this.loopBody(s, () => bindIt(x), brk))
    })
    if (keys.star && this.st)
      this.fixLoop(`f${nodeId(s)}`, () => this.loopBody(s, () => bindIt(keys.star), brk), s)
    if (this.st)
      brk.push({ st: this.st, v: UNDEF })
    this.st = this.joinList(brk)?.st ?? null
  }

  ownKeys(v, node) {
    const r = this.rec(v)
    if (r && r.kind === 'array')
      return { items: (r.items ?? []).map((_, i) => C(String(i))), star: r.star ? sym('idx', { type: 'string' }) : null }
    if (r)
      return { items: [...r.props].filter(([, e]) => !e.hidden).map(([k]) => C(k)), star: r.rest?.length ? sym(`${r.rest[0].id}.key`, { type: 'string' }) : null }
    if (isConst(v))
      return { items: [], star: null }
    this.noteOpaque('keys of opaque value', node)
    return { items: [], star: sym(`${v.k}.key`, { type: 'string' }) }
  }

  /** elements of an iterable: { items, star } */
  /** what iterating over an object gives: its own iterator, when it has one */
  iterableOf(v, asynchronously, node) {
    if (v.t !== 'ref' || this.kindOf(v) !== 'object')
      return v
    for (const k of asynchronously ? ['@@asyncIterator', '@@iterator'] : ['@@iterator']) {
      const f = this.st && this.getProp(v, C(k), node)
      if (f && !isUndef(f)) {
        const it = this.call(f, v, [], node)
        if (this.st && alts(it).some(a => this.kindOf(a.v) === 'object')) {
          this.noteOpaque('a hand-written iterator', node)
          return sym(`iterator@${nodeId(node)}`, { opaque: true, nonNull: true })
        }
        return it
      }
    }
    return v
  }

  iterate(v0, node) {
    const v = this.iterableOf(v0, false, node)
    if (!this.st)
      return { items: [], star: null }
    if (v.t === 'union') {
      const its = v.alts.filter(a => !isNullish(a.v)).map(a => this.iterate(a.v, node))
      if (its.length === 1)
        return its[0]
      const n = its.length ? Math.min(...its.map(i => i.items.length)) : 0
      const items = []
      for (let i = 0; i < n; i++) items.push(union(its.map(x => x.items[i])))
      const tail = its.flatMap(x => [...x.items.slice(n), ...(x.star ? [x.star] : []), ...(x.unknown ? [x.unknown] : [])])
      return { items, star: tail.length ? union(tail) : null }
    }
    if (isConst(v)) {
      if (typeof v.v === 'string')
        return { items: [...v.v].map(C), star: null }
      this.throwError('TypeError', `${String(v.v)} is not iterable`, node)
      return { items: [], star: null }
    }
    const r = this.rec(v)
    if (r) {
      if (r.kind === 'array' || r.kind === 'set')
        return { items: r.items ?? [], star: r.star }
      if (r.kind === 'map' || r.kind === 'headers' || r.kind === 'formdata')
        return this.natives.mapEntries(this, v, node)
      if (r.kind === 'generator') {
        const list = this.alloc(rec('array', { items: [] }), `gen-items:${nodeId(node)}`)
        this.runGenerator(v, x => this.arrPush(list, x), node)
        const got = this.st && this.rec(list)
        return got ? { items: got.items ?? [], star: got.star } : { items: [], star: null }
      }
      if (r.kind === 'iterator')
        return { items: r.items ?? [], star: r.star }
      this.throwError('TypeError', `object (${r.kind}) is not iterable`, node)
      return { items: [], star: null }
    }
    if (v.t === 'sym' || v.t === 'op') {
      if (v.meta?.elem)
        return { items: [], star: v.meta.elem }
      return { items: [], star: null, unknown: sym(`${v.id ?? v.k}[*]`, v.meta?.elemMeta ?? {}) }
    }
    this.noteOpaque(`iterate ${v.t}`, node)
    return { items: [], star: null, unknown: sym('elem?', { opaque: true }) }
  }

  // ------------------------------------------------------------ functions and classes
  closure(node, env) {
    return { t: 'fn', node, env, k: `f:${nodeId(node)}@${env.scope}`, name: node.name?.text }
  }

  makeClass(node, env) {
    let superV = null
    const hc = node.heritageClauses?.find(x => x.token === K.ExtendsKeyword)
    if (hc)
      superV = this.eval(hc.types[0].expression, env)
    const cls = { t: 'fn', isClass: true, node, env, superV, k: `class:${nodeId(node)}@${env.scope}`, name: node.name?.text ?? 'anonymous', statics: new Map(), methods: new Map(), fields: [] }
    const cenv = this.newScope(env, `cls${nodeId(node)}`, {})
    if (node.name)
      this.declare(cenv, node.name.text, cls)
    cls.cenv = cenv
    for (const m of node.members) {
      const isStatic = m.modifiers?.some(x => x.kind === K.StaticKeyword)
      const isDeclare = m.modifiers?.some(x => x.kind === K.DeclareKeyword)
      if (ts.isConstructorDeclaration(m)) {
        if (m.body)
          cls.ctor = m
      }
      else if (ts.isMethodDeclaration(m) && m.body) {
        const key = this.propName(m.name, cenv)
        ;(isStatic ? cls.statics : cls.methods).set(String(key.v), { t: 'fn', node: m, env: { ...cenv, homeClass: cls }, k: `m:${nodeId(m)}@${cenv.scope}`, name: String(key.v) })
      }
      else if (ts.isGetAccessorDeclaration(m)) {
        const key = this.propName(m.name, cenv)
        ;(isStatic ? cls.statics : cls.methods).set(`get ${String(key.v)}`, { t: 'fn', node: m, env: { ...cenv, homeClass: cls }, k: `m:${nodeId(m)}@${cenv.scope}` })
      }
      else if (ts.isPropertyDeclaration(m) && !isDeclare) {
        if (isStatic)
          cls.statics.set(m.name.text, m.initializer ? this.eval(m.initializer, cenv) : UNDEF)
        else cls.fields.push(m)
      }
      else if (ts.isSetAccessorDeclaration(m) || ts.isClassStaticBlockDeclaration(m)) {
        this.noteOpaque(`class member ${K[m.kind]}`, m)
      }
    }
    if (superV?.t === 'native' && !/Error$|Stream$/.test(superV.name))
      this.noteOpaque(`class extends ${superV.name}`, node)
    return cls
  }

  classMethod(cls, name) {
    for (let c = cls; c; c = c.superV) {
      if (c.t !== 'fn' || !c.isClass)
        return undefined
      const m = c.methods.get(name)
      if (m)
        return m
    }
    return undefined
  }

  construct(f, args, node, newTarget = f) {
    return this.forEachAlt(f, (fv) => {
      if (fv.t === 'native') {
        if (fv.construct)
          return fv.construct(this, args, node, newTarget)
        this.noteOpaque(`new ${fv.name}`, node)
        return this.alloc(rec('object', { cls: fv }), `new:${nodeId(node)}`)
      }
      if (fv.t === 'fn' && fv.isClass)
        return this.constructClass(fv, args, node, newTarget === f ? fv : newTarget)
      if (fv.t === 'sym') {
        this.emit(`new:${fv.id}`, { args }, node)
        this.noteOpaque(`new ${fv.id}`, node)
        return sym(`new ${fv.id}@${nodeId(node)}`, { nonNull: true, type: 'object', opaque: true })
      }
      this.noteOpaque(`construct ${fv.t}`, node)
      return sym(`new?@${nodeId(node)}`, { opaque: true, nonNull: true })
    })
  }

  constructClass(cls, args, node, newTarget) {
    const tagThis = { ref: null }
    const initFields = (env) => {
      for (const m of cls.fields) {
        const v = m.initializer ? this.eval(m.initializer, env) : UNDEF
        if (this.st)
          this.putProp(tagThis.ref, this.propName(m.name, env), v, m)
      }
    }
    const base = cls.superV
    if (!base)
      tagThis.ref = this.alloc(rec('object', { cls: newTarget }), `new:${nodeId(node)}:${nodeId(cls.node)}`)
    const superCall = (sargs, snode) => {
      if (base.t === 'fn')
        tagThis.ref = this.constructClass(base, sargs, snode ?? node, newTarget)
      else tagThis.ref = this.construct(base, sargs, snode ?? node, newTarget)
      if (this.st && tagThis.ref.t === 'ref') {
        const r = this.st.get(tagThis.ref.id)
        this.st.set(tagThis.ref.id, { ...r, cls: newTarget })
      }
      if (this.st)
        initFields({ ...cls.cenv, thisBox: tagThis })
      return tagThis.ref
    }
    if (cls.ctor) {
      const fn = { t: 'fn', node: cls.ctor, env: { ...cls.cenv, homeClass: cls, thisBox: tagThis, superCall: base ? superCall : null, newTarget }, k: `ctor:${nodeId(cls.ctor)}` }
      if (!base)
        initFields({ ...cls.cenv, thisBox: tagThis })
      this.callClosure(fn, tagThis.ref ?? UNDEF, args, node)
    }
    else if (base) {
      superCall(args, node)
    }
    else {
      initFields({ ...cls.cenv, thisBox: tagThis })
    }
    return this.st ? tagThis.ref ?? UNDEF : BOT
  }

  isAsync(node) {
    return !!node.modifiers?.some(m => m.kind === K.AsyncKeyword)
  }

  call(f, thisV, args, node) {
    if (!this.st)
      return BOT
    if (node)
      this.callSites.add(node)
    if (f.t === 'union')
      return this.forEachAlt(f, x => this.call(x, thisV, args, node))
    if (f.t === 'native') {
      if (!f.impl) {
        this.noteOpaque(`call ${f.name}`, node)
        return sym(`call ${f.name}@${this.ctx}`, { opaque: true })
      }
      return f.impl(this, f.bound !== undefined ? f.bound : thisV, f.preArgs ? [...f.preArgs, ...args] : args, node) ?? UNDEF
    }
    if (f.t === 'fn') {
      if (f.isClass)
        return this.throwError('TypeError', 'Class constructor cannot be invoked without new', node)
      return this.callClosure(f, f.bound !== undefined ? f.bound : thisV, f.preArgs ? [...f.preArgs, ...args] : args, node)
    }
    if (f.t === 'sym') {
      const hv = this.harness.onCallSym?.(this, f, thisV, args, node)
      if (hv !== undefined)
        return hv
      if (['string', 'number', 'boolean', 'undefined', 'bigint', 'symbol'].includes(this.typeOf(f)))
        return this.throwError('TypeError', 'not a function', node)
      this.emit(`call:${f.id}`, { args, thisV }, node)
      this.noteOpaque(`call of opaque ${f.id.slice(0, 60)}`, node)
      if (!f.meta?.noThrow)
        this.mayThrow(sym(`thrown(${f.id})`, { opaque: true, nonNull: true }))
      return sym(`ret(${f.id})@${this.ctx}/${node ? nodeId(node) : ''}`, { opaque: true, prov: [...prov(f), ...args.flatMap(a => [...prov(a)])], ...(f.meta?.ret ?? {}) })
    }
    if (isNullish(f) || isConst(f) || f.t === 'ref')
      return this.throwError('TypeError', `not a function`, node)
    if (f.t === 'op') {
      if (['string', 'number', 'boolean'].includes(f.meta?.type))
        return this.throwError('TypeError', 'not a function', node)
      this.noteOpaque(`call of op ${f.op}`, node)
      return sym(`ret(${f.k})@${this.ctx}`, { opaque: true })
    }
    return BOT
  }

  /**
   * a generator's body runs where it is consumed: each yield hands its value to `sink`, which runs in the
   * consumer's surroundings, before the body goes on
   */
  runGenerator(g, sink, node) {
    const r = this.rec(g)
    const { h, ctx, stack, condFork, yieldTo, depth } = this
    const own = r.x.gen.node
    if (endsYield(own))
      this.noteOpaque('generator that cleans up after itself', own)
    const args = this.rec(r.props.get('#args').v)
    this.yieldTo = { sink, outer: { h, ctx, stack, condFork, yieldTo, depth } }
    try {
      this.callClosure(r.x.gen, r.props.get('#this').v, args.items, node, true)
    }
    finally { this.yieldTo = yieldTo }
  }

  evalYield(n, env) {
    const v = n.expression ? this.eval(n.expression, env) : UNDEF
    const y = this.yieldTo
    if (!this.st)
      return BOT
    const emit = (x0) => {
      let x = x0
      if (y.async)
        x = this.awaitValue(x, n)
      if (!this.st)
        return
      const { h, ctx, stack, condFork, yieldTo, depth } = this
      Object.assign(this, y.outer, { ctx: `${y.outer.ctx}~y${ctx.slice(y.outer.ctx.length)}` })
      try {
        y.sink(x)
      }
      finally { Object.assign(this, { h, ctx, stack, condFork, yieldTo, depth }) }
    }
    if (!n.asteriskToken) {
      emit(v)
      return this.st ? UNDEF : BOT
    }
    if (this.kindOf(v) === 'generator') {
      this.runGenerator(v, emit, n)
      return this.st ? UNDEF : BOT
    }
    const it = this.iterate(v, n)
    it.items.forEach((x, i) => {
      if (this.st)
        this.withCtx(`#${i}`, () => emit(x))
    })
    const star = it.star ?? it.unknown
    if (star && this.st)
      this.fixLoop(`y${nodeId(n)}`, () => emit(star), n)
    return this.st ? UNDEF : BOT
  }

  callClosure(fn, thisV, args, node, running = false) {
    if (fn.node.asteriskToken && !running) {
      const list = this.alloc(rec('array', { items: args.filter(a => !a.spreadStar) }), `genargs:${nodeId(fn.node)}`)
      if (args.some(a => a.spreadStar))
        this.noteOpaque('generator called with a list of unknown length', node)
      return this.alloc(rec('generator', { props: new Map([['#args', { v: list }], ['#this', { v: thisV }]]), x: { gen: fn } }), `gen:${nodeId(fn.node)}`)
    }
    const isAsync = this.isAsync(fn.node) && !running
    if (running)
      this.yieldTo.async = this.isAsync(fn.node)
    if (this.depth > MAX_DEPTH) {
      this.noteOpaque('call depth limit', node)
      return sym(`deep@${nodeId(fn.node)}`, { opaque: true })
    }
    if (this.stack.filter(f => f.id === nodeId(fn.node)).length > 8) {
      this.noteOpaque('recursion limit', node)
      return sym(`rec@${nodeId(fn.node)}`, { opaque: true })
    }
    this.fnsSeen.add(fn.node)
    const outer = { h: this.h, ctx: this.ctx, stack: this.stack, condFork: this.condFork }
    this.condFork = 0
    const rets = []
    const thrs = []
    const keepHung = this.hungSts
    const hung = isAsync ? this.hungSts = [] : null
    const bad = () => {}
    this.h = { onThrow: (st, v) => thrs.push({ st, v }), onReturn: (st, v) => rets.push({ st, v }), onBreak: bad, onContinue: bad }
    this.ctx = `${this.ctx}/${node ? nodeId(node) : 'x'}>${nodeId(fn.node)}`
    this.stack = [...this.stack, { id: nodeId(fn.node), name: fn.name ?? fnName(fn.node), at: loc(fn.node), call: node ? loc(node) : undefined }]
    this.depth++
    const before = this.st
    const beforeCounts = new Map(before.counts)
    const isArrow = ts.isArrowFunction(fn.node)
    const env = this.newScope(fn.env, `fn${nodeId(fn.node)}`, isArrow ? {} : { thisV, ...(fn.env.thisBox ? { thisBox: fn.env.thisBox } : {}), fnBoundary: true })
    if (!isArrow && fn.env.thisBox === undefined && fn.node.kind !== K.Constructor)
      env.thisV = thisV
    try {
      fn.node.parameters.forEach((p, i) => {
        if (!this.st)
          return
        if (p.name.kind === K.Identifier && p.name.text === 'this')
          return
        const hasThis = fn.node.parameters[0]?.name.kind === K.Identifier && fn.node.parameters[0].name.text === 'this'
        const ai = hasThis ? i - 1 : i
        if (p.dotDotDotToken) {
          const r = rec('array', { items: args.slice(ai).filter(a => !a.spreadStar), star: args.slice(ai).filter(a => a.spreadStar).map(a => a.spreadStar)[0] ?? null })
          this.bind(p.name, this.alloc(r, `rest:${nodeId(p)}`), env)
          return
        }
        let v = args[ai] ?? UNDEF
        if (v.spreadStar)
          v = union([v.spreadStar, UNDEF])
        v = this.applyDefault(v, p.initializer, env)
        if (this.st)
          this.bind(p.name, v, env)
      })
      if (!isArrow && this.st && fn.node.kind !== K.Constructor && usesArguments(fn.node))
        this.declare(env, 'arguments', this.alloc(rec('array', { items: args }), `args:${nodeId(fn.node)}`))
      if (this.st) {
        const body = fn.node.body
        if (ts.isBlock(body)) {
          this.execBlock(body.statements, env)
          if (this.st)
            rets.push({ st: this.st, v: UNDEF })
        }
        else {
          const v = this.eval(body, env)
          if (this.st)
            rets.push({ st: this.st, v })
        }
      }
    }
    finally {
      this.depth--
      this.h = outer.h
      this.ctx = outer.ctx
      this.stack = outer.stack
      this.condFork = outer.condFork
    }
    if (isAsync) {
      const oks = []
      for (const r of rets) {
        const s = this.settle(r.st, r.v)
        if (s.ok)
          oks.push(s.ok)
        if (s.err)
          thrs.push(s.err)
      }
      this.hungSts = keepHung
      const c = this.ctx
      this.ctx = `${this.ctx}/${node ? nodeId(node) : 'x'}>${nodeId(fn.node)}`
      const p = this.makePromise(this.joinList(oks), this.joinList(thrs), beforeCounts, before, `async${nodeId(fn.node)}`, hung)
      this.ctx = c
      return p
    }
    const t = this.joinList(thrs)
    if (t)
      outer.h.onThrow(t.st, t.v)
    const r = this.joinList(rets)
    this.st = r ? r.st : null
    return r ? r.v : BOT
  }

  // ------------------------------------------------------------ promises
  /** promise from computed outcomes; sets this.st to the state after the call */
  makePromise(ok, err, beforeCounts, before, tag, hung = []) {
    let after = joinStates(ok?.st ?? null, err?.st ?? null)
    const never = !after
    if (!after)
      after = this.joinList(hung)?.st ?? before
    after = after.clone()
    for (const [k, v] of after.counts) after.counts.set(k, [(beforeCounts.get(k) ?? [0, 0])[0], v[1]])
    const snapshot = after
    this.st = after.clone()
    const p = this.alloc(rec('promise', { x: { link: { after: snapshot, ok, err }, never } }), tag)
    if (this.harness.trackPromises)
      this.pendingPromises.push(p)
    return p
  }

  resolvedPromise(v, tag) {
    // flattening of a nested promise
    if (alts(v).some(a => this.kindOf(a.v) === 'promise')) {
      const before = this.st
      const bc = new Map(before.counts)
      const s = this.settle(before.clone(), v)
      return this.makePromise(s.ok, s.err, bc, before, tag)
    }
    return this.alloc(rec('promise', { x: { okV: v, errV: null, pend: false } }), tag)
  }

  rejectedPromise(v, tag) {
    return this.alloc(rec('promise', { x: { okV: null, errV: v, pend: false } }), tag)
  }

  /** outcomes of awaiting v in state st (consumes st) */
  settle(st, v) {
    const oks = []
    const errs = []
    const as = alts(v)
    as.forEach((a) => {
      let s = as.length > 1 ? st.clone() : st
      if (as.length > 1 && a.g && !this.assertGuards(s, [a]))
        return
      const r = a.v.t === 'ref' ? s.get(a.v.id) : undefined
      if (!r || r.kind !== 'promise') {
        oks.push({ st: s, v: a.v })
        return
      }
      const x = r.x
      if (x.link) {
        const { after, ok, err } = x.link
        if (ok)
          oks.push({ st: threeWay(s, after, ok.st), v: ok.v })
        if (err)
          errs.push({ st: threeWay(s, after, err.st), v: err.v })
        if (x.never)
          this.noteHang(a.v, s)
        return
      }
      if (x.okV) {
        const inner = this.settle(x.errV ? s.clone() : s, x.okV)
        if (inner.ok)
          oks.push(inner.ok)
        if (inner.err)
          errs.push(inner.err)
      }
      if (x.errV)
        errs.push({ st: s, v: x.errV })
      if (!x.okV && !x.errV)
        this.noteHang(a.v, s)
    })
    return { ok: this.joinList(oks), err: this.joinList(errs) }
  }

  /** something is awaited that never settles; st: what had happened by then */
  noteHang(v, st) {
    this.hangs ??= new Set()
    this.hangs.add(v.k)
    if (st)
      this.hungSts?.push({ st: st.clone(), v: UNDEF })
  }

  /** run the body of something asynchronous; tells in what state it may hang */
  hanging(f) {
    const keep = this.hungSts
    this.hungSts = []
    try {
      return [f(), this.hungSts]
    }
    finally { this.hungSts = keep }
  }

  /** run one of several concurrent activations; notes what it writes to shared state before it first waits */
  concurrently(f, node) {
    const keep = this.activation
    this.activation = { entry: this.st.clone(), waited: false, node }
    try {
      return f()
    }
    finally { this.activation = keep }
  }

  /** something outside the repository takes its time here */
  latency() {
    const a = this.activation
    if (!a || a.waited || !this.st)
      return
    a.waited = true
    this.st.heap.diff(a.entry.heap, (id, mine, theirs) => {
      if (mine && theirs && id !== this.logId && ['array', 'object', 'map', 'set', 'scope', 'stream'].includes(theirs.kind)) {
        this.noteOpaque(`shared ${theirs.kind} written before concurrent work waits`, a.node)
        return true
      }
      return false
    })
  }

  awaitValue(v, node) {
    if (!this.st)
      return BOT
    if (!alts(v).some(a => this.kindOf(a.v) === 'promise')) {
      if (alts(v).some(a => this.kindOf(a.v) === 'object' && this.st.get(a.v.id).props.get('then')))
        this.noteOpaque('await of an object with a then of its own', node)
      return v
    }
    const s = this.settle(this.st, v)
    if (s.err)
      this.h.onThrow(s.err.st, s.err.v)
    this.st = s.ok ? s.ok.st : null
    return s.ok ? s.ok.v : BOT
  }

  /** p.then(f, g) */
  promiseThen(p, f, g, node, isFinally = false) {
    const before = this.st
    const bc = new Map(before.counts)
    const keepHung = this.hungSts
    const hung = this.hungSts = []
    const s = this.settle(before.clone(), p)
    const oks = []
    const errs = []
    const run = (o, fn, tag, passArg = true) => {
      this.st = o.st
      const c = this.capture(() => this.withCtx(tag, () => {
        const r = this.call(fn, UNDEF, passArg ? [o.v] : [], node)
        return r
      }))
      errs.push(...c.throws)
      if (this.st) {
        const t = this.settle(this.st, c.v)
        if (t.err)
          errs.push(t.err)
        return t.ok
      }
      return null
    }
    if (s.ok) {
      if (isFinally && f) {
        const r = run(s.ok, f, '.fo', false)
        if (r)
          oks.push({ st: r.st, v: s.ok.v })
      }
      else if (f && !isNullish(f)) {
        const r = run(s.ok, f, '.t')
        if (r)
          oks.push(r)
      }
      else {
        oks.push(s.ok)
      }
    }
    if (s.err) {
      if (isFinally && f) {
        const r = run(s.err, f, '.fe', false)
        if (r)
          errs.push({ st: r.st, v: s.err.v })
      }
      else if (g && !isNullish(g)) {
        const r = run(s.err, g, '.c')
        if (r)
          oks.push(r)
      }
      else {
        errs.push(s.err)
      }
    }
    this.hungSts = keepHung
    return this.makePromise(this.joinList(oks), this.joinList(errs), bc, before, `then${nodeId(node)}`, hung)
  }

  /** run f as if it were an async body; returns the promise */
  asyncRun(f, node, tag) {
    const before = this.st
    const bc = new Map(before.counts)
    this.st = before.clone()
    const oks = []
    const errs = []
    const [, hung] = this.hanging(() => {
      const c = this.capture(f)
      errs.push(...c.throws)
      if (this.st) {
        const s = this.settle(this.st, c.v ?? UNDEF)
        if (s.ok)
          oks.push(s.ok)
        if (s.err)
          errs.push(s.err)
      }
    })
    return this.makePromise(this.joinList(oks), this.joinList(errs), bc, before, `${tag}${node ? nodeId(node) : ''}`, hung)
  }

  // ------------------------------------------------------------ properties
  propName(n, env) {
    if (ts.isIdentifier(n) || ts.isPrivateIdentifier(n))
      return C(n.text)
    if (ts.isStringLiteral(n) || ts.isNumericLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n))
      return C(n.text)
    if (ts.isComputedPropertyName(n))
      return this.eval(n.expression, env)
    return C(n.getText())
  }

  getProp(v, key, node) {
    if (!this.st)
      return BOT
    if (key.t === 'union')
      return mapAlts(key, k => this.getProp(v, k, node))
    if (v.t === 'union') {
      const bad = v.alts.filter(a => isNullish(a.v))
      if (bad.length) {
        const st = this.st.clone()
        const keep = this.st
        if (this.assertGuards(st, bad)) {
          this.st = st
          this.throwError('TypeError', `Cannot read properties of undefined (reading '${key.v}')`, node)
        }
        this.st = keep
        const good = v.alts.filter(a => !isNullish(a.v))
        if (good.length === 0) {
          this.st = null
          return BOT
        }
        if (!this.assertGuards(this.st, good)) {
          this.st = null
          return BOT
        }
        return mapAlts(union(good.map(a => ({ alt: a }))), a => this.getProp1(a, key, node))
      }
      return mapAlts(v, a => this.getProp1(a, key, node))
    }
    if (isNullish(v))
      return this.throwError('TypeError', `Cannot read properties of ${v.v} (reading '${isConst(key) ? String(key.v) : '?'}')`, node)
    return this.getProp1(v, key, node)
  }

  getProp1(v, key, node) {
    if (v.t === 'bot')
      return BOT
    if (this.kindOf(v) === 'generator') {
      if (isConst(key) && /iterator$/i.test(String(key.v)))
        return native('iterator', () => v)
      this.noteOpaque(`member ${isConst(key) ? String(key.v) : '?'} of a generator`, node)
      return sym(`generator.${key.k}`, { opaque: true })
    }
    if (key.t === 'native')
      key = C(key.name)
    if (v.t === 'native' && v.isGlobal && isConst(key))
      return this.globalValue(String(key.v), node)
    return this.natives.get(this, v, key, node)
  }

  /** read a plain record property (no methods): value or undefined-if-absent */
  readRec(r, key) {
    const e = r.props.get(key)
    if (e) {
      if (!e.may)
        return e.v
      const others = r.rest?.length ? r.rest.map(s => this.symProp(s, key)) : [UNDEF]
      return union([e.v, ...others])
    }
    if (r.rest?.length)
      return union(r.rest.map(s => this.symProp(s, key)))
    return null
  }

  symProp(s, key) {
    if (s.meta?.taken?.includes(key))
      return UNDEF
    const base = s.meta?.restOf ?? s
    const pm = base.meta?.props && Object.hasOwn(base.meta.props, key) ? base.meta.props[key] : undefined
    if (pm?.t)
      return pm
    if (!pm && (base.meta?.closed || base.meta?.absent?.includes(key)))
      return UNDEF
    return sym(`${base.id}.${key}`, pm ?? {})
  }

  putProp(o, key, v, node) {
    if (!this.st)
      return
    if (o.t === 'union') {
      const targets = o.alts.filter(a => !isNullish(a.v))
      if (targets.length < o.alts.length)
        this.mayThrow(sym('TypeError(set)', { nonNull: true }))
      if (targets.length === 1)
        return this.putProp(targets[0].v, key, v, node)
      for (const a of targets) this.putWeak(a.v, key, v, node)
      return
    }
    if (isNullish(o)) {
      this.throwError('TypeError', `Cannot set properties of ${o.v}`, node)
      return
    }
    if (o.t === 'ref')
      this.natives.set(this, o, key, v, node)
    else if (o.t === 'sym')
      this.emit('mutate-sym', { target: o, prop: key, key: `${o.k}.${key.k}`, value: v }, node)
    else if (o.t === 'native' && o.isGlobal)
      this.emit('mutate-global', { prop: key, key: key.k }, node)
    else if (o.t === 'fn' || o.t === 'native')
      this.noteOpaque('function property write', node)
  }

  putWeak(o, key, v, node) {
    if (o.t !== 'ref')
      return this.putProp(o, key, v, node)
    const before = this.st.get(o.id)
    const st = this.st
    this.natives.set(this, o, key, v, node)
    if (!this.st)
      return
    const after = this.st.get(o.id)
    const a = new State()
    a.heap.set(o.id, before)
    const b = new State()
    b.heap.set(o.id, after)
    st.set(o.id, joinStates(a, b).get(o.id))
  }

  assign(n, v, env) {
    n = this.stripExpr(n)
    if (!this.st)
      return
    if (ts.isIdentifier(n)) {
      this.assignVar(n.text, env, v)
    }
    else if (ts.isPropertyAccessExpression(n)) {
      const o = this.eval(n.expression, env)
      this.putProp(o, C(n.name.text), v, n)
    }
    else if (ts.isElementAccessExpression(n)) {
      const o = this.eval(n.expression, env)
      const k = this.eval(n.argumentExpression, env)
      if (this.st)
        this.putProp(o, k, v, n)
    }
    else if (ts.isArrayLiteralExpression(n)) {
      const it = this.iterate(v, n)
      n.elements.forEach((el, i) => {
        if (!this.st || ts.isOmittedExpression(el))
          return
        if (ts.isSpreadElement(el)) {
          this.assign(el.expression, this.alloc(rec('array', { items: it.items.slice(i), star: it.star }), `arest:${nodeId(el)}`), env)
          return
        }
        let x = i < it.items.length ? it.items[i] : it.star ? union([it.star, UNDEF]) : it.unknown ?? UNDEF
        if (ts.isBinaryExpression(el) && el.operatorToken.kind === K.EqualsToken) {
          x = this.applyDefault(x, el.right, env)
          this.assign(el.left, x, env)
        }
        else {
          this.assign(el, x, env)
        }
      })
    }
    else if (ts.isObjectLiteralExpression(n)) {
      const taken = new Set()
      for (const p of n.properties) {
        if (!this.st)
          return
        if (ts.isShorthandPropertyAssignment(p)) {
          taken.add(p.name.text)
          let x = this.getProp(v, C(p.name.text), p)
          x = this.applyDefault(x, p.objectAssignmentInitializer, env)
          this.assignVar(p.name.text, env, x)
        }
        else if (ts.isPropertyAssignment(p)) {
          const key = this.propName(p.name, env)
          taken.add(String(key.v))
          let x = this.getProp(v, key, p)
          let target = p.initializer
          if (ts.isBinaryExpression(target) && target.operatorToken.kind === K.EqualsToken) {
            x = this.applyDefault(x, target.right, env)
            target = target.left
          }
          this.assign(target, x, env)
        }
        else if (ts.isSpreadAssignment(p)) {
          this.assign(p.expression, this.objectRest(v, taken, p), env)
        }
      }
    }
    else {
      this.noteOpaque(`assign to ${K[n.kind]}`, n)
    }
  }

  thisValue(env) {
    for (let e = env; e; e = e.parent) {
      if (e.thisBox)
        return e.thisBox.ref ?? UNDEF
      if ('thisV' in e)
        return e.thisV
    }
    return UNDEF
  }

  envGet(env, key) {
    for (let e = env; e; e = e.parent) {
      if (e[key] !== undefined && e[key] !== null)
        return e[key]
    }
  }

  fromJS(v, tag) {
    if (Array.isArray(v))
      return this.alloc(rec('array', { items: v.map((x, i) => this.fromJS(x, `${tag}.${i}`)) }), tag)
    if (v && typeof v === 'object') {
      if (v.t && v.k)
        return v
      const props = new Map()
      for (const [k, x] of Object.entries(v)) props.set(k, { v: this.fromJS(x, `${tag}.${k}`) })
      return this.alloc(rec('object', { props }), tag)
    }
    return C(v)
  }
}

Object.assign(Interp.prototype, evalMixin)

const fnName = (n) => {
  const p = n.parent
  if (n.name)
    return n.name.getText()
  if (p && ts.isVariableDeclaration(p) && ts.isIdentifier(p.name))
    return p.name.text
  if (p && ts.isPropertyAssignment(p))
    return p.name.getText()
  return n.kind === K.Constructor ? 'constructor' : '(anonymous)'
}
const usesArgs = new WeakMap()
/** does a generator go on after its consumer stopped: yields within try … finally, or its own result is used */
const endsYield = (fn) => {
  let bad = false
  const walk = (n) => {
    if (ts.isFunctionLike(n) && n !== fn)
      return
    if (ts.isTryStatement(n) && n.finallyBlock && /\byield\b/.test(n.tryBlock.getText() + (n.catchClause?.getText() ?? '')))
      bad = true
    ts.forEachChild(n, walk)
  }
  walk(fn)
  return bad
}
const usesArguments = (n) => {
  if (!usesArgs.has(n))
    usesArgs.set(n, /\barguments\b/.test(n.body?.getText() ?? ''))
  return usesArgs.get(n)
}
export { alts, BOT, bool, C, FALSE, fnName, guarded, isConst, isNullish, isUndef, K, native, NULL, op, prov, rec, ref, State, sym, TRUE, UNDEF, union }
