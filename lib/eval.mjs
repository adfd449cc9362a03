// Expression semantics of the abstract interpreter (mixed into Interp.prototype).
import { loc, nodeId, resolve, ts } from './loader.mjs'
import { alts, BOT, bool, C, FALSE, isConst, isNullish, isUndef, joinStates, mapAlts, native, NULL, op, prov, rec, ref, sym, TRUE, UNDEF, union, clock } from './values.mjs'

const K = ts.SyntaxKind

const num = { type: 'number', nonNull: true }
const str = { type: 'string', nonNull: true }
const boolean = { type: 'boolean', nonNull: true }

const compoundOps = new Map([
  [K.PlusEqualsToken, '+'],
  [K.MinusEqualsToken, '-'],
  [K.AsteriskEqualsToken, '*'],
  [K.SlashEqualsToken, '/'],
  [K.PercentEqualsToken, '%'],
  [K.AmpersandEqualsToken, '&'],
  [K.BarEqualsToken, '|'],
  [K.CaretEqualsToken, '^'],
  [K.LessThanLessThanEqualsToken, '<<'],
  [K.GreaterThanGreaterThanEqualsToken, '>>'],
])
const binOps = new Map([
  [K.PlusToken, '+'],
  [K.MinusToken, '-'],
  [K.AsteriskToken, '*'],
  [K.AsteriskAsteriskToken, '**'],
  [K.SlashToken, '/'],
  [K.PercentToken, '%'],
  [K.AmpersandToken, '&'],
  [K.BarToken, '|'],
  [K.CaretToken, '^'],
  [K.LessThanLessThanToken, '<<'],
  [K.GreaterThanGreaterThanToken, '>>'],
  [K.GreaterThanGreaterThanGreaterThanToken, '>>>'],
  [K.EqualsEqualsEqualsToken, '==='],
  [K.ExclamationEqualsEqualsToken, '!=='],
  [K.EqualsEqualsToken, '=='],
  [K.ExclamationEqualsToken, '!='],
  [K.LessThanToken, '<'],
  [K.GreaterThanToken, '>'],
  [K.LessThanEqualsToken, '<='],
  [K.GreaterThanEqualsToken, '>='],
  [K.InstanceOfKeyword, 'instanceof'],
  [K.InKeyword, 'in'],
])

export const isOptChain = n => !!(n.flags & ts.NodeFlags.OptionalChain) && !ts.isNonNullExpression(n)

export const evalMixin = {
  eval(n, env) {
    if (!this.st)
      return BOT
    if (++this.steps > 4_000_000)
      throw new Error('step limit')
    if ((this.steps & 511) === 0 && Date.now() > clock.deadline)
      throw new Error('time limit')
    if ((this.steps & 8191) === 0 && process.memoryUsage().heapUsed > clock.heap)
      throw new Error('memory limit')
    switch (n.kind) {
      case K.ParenthesizedExpression:
      case K.AsExpression:
      case K.NonNullExpression:
      case K.SatisfiesExpression:
      case K.TypeAssertionExpression:
      case K.ExpressionWithTypeArguments:
        return this.eval(n.expression, env)
      case K.Identifier:
        return this.pruned(this.lookup(n.text, env, n))
      case K.ThisKeyword:
        return this.thisValue(env)
      case K.StringLiteral:
      case K.NoSubstitutionTemplateLiteral:
        return C(n.text)
      case K.NumericLiteral:
        return C(Number(n.text.replaceAll('_', '')))
      case K.BigIntLiteral:
        return C(BigInt(n.text.slice(0, -1)))
      case K.TrueKeyword:
        return TRUE
      case K.FalseKeyword:
        return FALSE
      case K.NullKeyword:
        return NULL
      case K.TemplateExpression: {
        let v = C(n.head.text)
        for (const sp of n.templateSpans) {
          const x = this.eval(sp.expression, env)
          if (!this.st)
            return BOT
          v = this.concat(v, this.toStr(x, sp))
          if (sp.literal.text)
            v = this.concat(v, C(sp.literal.text))
        }
        return v
      }
      case K.ObjectLiteralExpression:
        return this.evalObject(n, env)
      case K.ArrayLiteralExpression: {
        const r = this.alloc(rec('array', { items: [] }), `arr${nodeId(n)}`)
        for (const el of n.elements) {
          if (!this.st)
            return BOT
          if (ts.isSpreadElement(el)) {
            const v = this.eval(el.expression, env)
            if (!this.st)
              return BOT
            const it = this.iterate(v, el)
            if (!this.st)
              return BOT
            for (const x of it.items) this.arrPush(r, x)
            const s = it.star ?? it.unknown
            if (s)
              this.arrStar(r, s)
          }
          else if (ts.isOmittedExpression(el)) {
            this.arrPush(r, UNDEF)
          }
          else {
            const v = this.eval(el, env)
            if (!this.st)
              return BOT
            this.arrPush(r, v)
          }
        }
        return r
      }
      case K.PropertyAccessExpression:
      case K.ElementAccessExpression:
      case K.CallExpression:
        if (isOptChain(n))
          return this.evalChainRoot(n, env)
        return this.evalAccess(n, env, null)
      case K.NewExpression: {
        const f = this.eval(n.expression, env)
        const args = this.evalArgs(n.arguments ?? [], env)
        if (!this.st)
          return BOT
        return this.construct(f, args, n)
      }
      case K.ArrowFunction:
      case K.FunctionExpression:
        return this.closure(n, env)
      case K.ClassExpression:
        return this.makeClass(n, env)
      case K.ConditionalExpression: {
        const c = this.cond(n.condition, env)
        return this.branches([
          [c.T, () => this.eval(n.whenTrue, env)],
          [c.F, () => this.eval(n.whenFalse, env)],
        ])
      }
      case K.AwaitExpression: {
        const v = this.eval(n.expression, env)
        return this.awaitValue(v, n)
      }
      case K.VoidExpression: {
        this.eval(n.expression, env)
        return UNDEF
      }
      case K.TypeOfExpression: {
        const v = this.eval(n.expression, env)
        if (!this.st)
          return BOT
        return mapAlts(v, (a) => {
          const t = this.typeOf(a)
          return t ? C(t) : op('typeof', [a], str)
        })
      }
      case K.DeleteExpression: {
        const t = this.stripExpr(n.expression)
        const o = this.eval(t.expression, env)
        const k = ts.isPropertyAccessExpression(t) ? C(t.name.text) : this.eval(t.argumentExpression, env)
        if (!this.st)
          return BOT
        for (const a of alts(o)) this.natives.del(this, a.v, k, n)
        return TRUE
      }
      case K.PrefixUnaryExpression:
        return this.evalPrefix(n, env)
      case K.PostfixUnaryExpression: {
        const old = this.eval(n.operand, env)
        const v = this.binary(n.operator === K.PlusPlusToken ? '+' : '-', old, C(1), n)
        this.assign(n.operand, v, env)
        return this.st ? old : BOT
      }
      case K.BinaryExpression:
        return this.evalBinary(n, env)
      case K.RegularExpressionLiteral: {
        const m = /^\/(.*)\/([a-z]*)$/s.exec(n.text)
        return this.alloc(rec('regexp', { x: { source: C(m[1]), flags: C(m[2]) }, props: new Map([['lastIndex', { v: C(0) }]]) }), `re${nodeId(n)}`)
      }
      case K.MetaProperty:
        if (n.keywordToken === K.NewKeyword)
          return this.envGet(env, 'newTarget') ?? UNDEF
        return sym('import.meta', { nonNull: true, type: 'object' })
      case K.SpreadElement:
        return this.eval(n.expression, env)
      case K.SuperKeyword:
        return this.thisValue(env)
      case K.OmittedExpression:
        return UNDEF
      case K.YieldExpression:
        return this.evalYield(n, env)
      default:
        this.noteOpaque(`expression ${K[n.kind]}`, n)
        return sym(`expr@${nodeId(n)}`, { opaque: true })
    }
  },

  /** drop alternatives whose guards contradict what is known on this path */
  pruned(v) {
    if (v.t !== 'union' || !this.st)
      return v
    const keep = v.alts.filter((a) => {
      if (!a.g)
        return true
      for (const [k, x] of a.g) {
        if (this.st.facts.has(k) && this.st.facts.get(k) !== x)
          return false
      }
      return true
    })
    return keep.length === v.alts.length || keep.length === 0 ? v : union(keep.map(a => ({ alt: a })))
  },

  evalArgs(list, env) {
    const out = []
    for (const a of list) {
      if (!this.st)
        return out
      if (ts.isSpreadElement(a)) {
        const v = this.eval(a.expression, env)
        if (!this.st)
          return out
        const it = this.iterate(v, a)
        out.push(...it.items)
        const s = it.star ?? it.unknown
        if (s)
          out.push({ ...s, spreadStar: s })
      }
      else {
        out.push(this.eval(a, env))
      }
    }
    return out
  },

  // ---------------------------------------------------------- access chains
  evalChainRoot(n, env) {
    const shorts = []
    const v = this.evalAccess(n, env, shorts)
    const outs = shorts.map(st => ({ st, v: UNDEF }))
    if (this.st)
      outs.push({ st: this.st, v })
    const j = this.joinList(outs)
    this.st = j ? j.st : null
    return j ? j.v : BOT
  },

  /** evaluates a base expression, continuing the optional chain it belongs to */
  evalBase(n, env, shorts) {
    if (shorts && (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n) || ts.isCallExpression(n)) && isOptChain(n))
      return this.evalAccess(n, env, shorts)
    if (shorts && ts.isNonNullExpression(n))
      return this.evalBase(n.expression, env, shorts)
    return this.eval(n, env)
  },

  shortCircuit(v, baseNode, env, shorts) {
    if (!this.st)
      return BOT
    const l = this.peek(baseNode, env)
    const s = this.splitNull(v, l && l.v.k === v.k ? l : null)
    if (s.N)
      shorts.push(s.N)
    this.st = s.NN
    return this.st ? s.vNN : BOT
  },

  evalAccess(n, env, shorts) {
    if (ts.isPropertyAccessExpression(n)) {
      if (n.expression.kind === K.SuperKeyword)
        return this.superProp(env, n.name.text, n)
      let o = this.evalBase(n.expression, env, shorts)
      if (n.questionDotToken)
        o = this.shortCircuit(o, n.expression, env, shorts)
      if (!this.st)
        return BOT
      return this.pruned(this.getProp(o, C(n.name.text), n))
    }
    if (ts.isElementAccessExpression(n)) {
      let o = this.evalBase(n.expression, env, shorts)
      if (n.questionDotToken)
        o = this.shortCircuit(o, n.expression, env, shorts)
      if (!this.st)
        return BOT
      const k = this.eval(n.argumentExpression, env)
      if (!this.st)
        return BOT
      return this.pruned(this.getProp(o, k, n))
    }
    // call
    const ce = n.expression
    if (ce.kind === K.SuperKeyword) {
      const args = this.evalArgs(n.arguments, env)
      if (!this.st)
        return BOT
      const f = this.envGet(env, 'superCall')
      return f ? f(args, n) : UNDEF
    }
    if (ce.kind === K.ImportKeyword)
      return this.dynamicImport(n, env)
    const callee = ts.isParenthesizedExpression(ce) || ts.isNonNullExpression(ce) || ts.isAsExpression(ce) ? this.stripExpr(ce) : ce
    if (ts.isPropertyAccessExpression(callee) || ts.isElementAccessExpression(callee)) {
      if (callee.expression.kind === K.SuperKeyword) {
        const f = this.superProp(env, callee.name.text, callee)
        const args = this.evalArgs(n.arguments, env)
        return this.st ? this.call(f, this.thisValue(env), args, n) : BOT
      }
      const sub = shorts ?? (isOptChain(callee) && callee !== ce ? [] : shorts)
      let o = this.evalBase(callee.expression, env, sub)
      if (callee.questionDotToken)
        o = this.shortCircuit(o, callee.expression, env, sub ?? [])
      if (!this.st)
        return BOT
      const key = ts.isPropertyAccessExpression(callee) ? C(callee.name.text) : this.eval(callee.argumentExpression, env)
      if (!this.st)
        return BOT
      let f = this.pruned(this.getProp(o, key, callee))
      if (!this.st)
        return BOT
      if (n.questionDotToken)
        f = this.shortCircuit(f, callee, env, shorts)
      if (!this.st)
        return BOT
      const args = this.evalArgs(n.arguments, env)
      if (!this.st)
        return BOT
      if (o.t === 'union') {
        const good = union(o.alts.filter(a => !isNullish(a.v)).map(a => ({ alt: a })))
        if (good.t === 'union') {
          return this.forEachAlt(good, (ov) => {
            let fv = this.getProp(ov, key, callee)
            if (!this.st)
              return BOT
            if (n.questionDotToken) {
              const s = this.splitNull(fv, null)
              if (s.N && !s.NN) {
                this.st = s.N
                return UNDEF
              }
              this.st = s.NN
              fv = s.vNN
            }
            return this.call(fv, ov, args, n)
          })
        }
        o = good
      }
      return this.call(f, o, args, n)
    }
    let f = this.evalBase(ce, env, shorts)
    if (n.questionDotToken)
      f = this.shortCircuit(f, ce, env, shorts)
    if (!this.st)
      return BOT
    const args = this.evalArgs(n.arguments, env)
    if (!this.st)
      return BOT
    return this.call(f, UNDEF, args, n)
  },

  superProp(env, name, node) {
    const cls = this.envGet(env, 'homeClass')
    const m = cls?.superV && this.classMethod(cls.superV, name)
    if (m)
      return m
    if (!cls)
      this.noteOpaque('super outside a class', node)
    return this.getProp(this.thisValue(env), C(name), node)
  },

  dynamicImport(n, env) {
    const a = this.eval(n.arguments[0], env)
    if (!this.st)
      return BOT
    this.emit('dynamic-import', { spec: a, key: a.k }, n)
    return this.forEachAlt(a, (s) => {
      if (isConst(s)) {
        const r = resolve(String(s.v), n.getSourceFile().fileName)
        if (r.file)
          return this.resolvedPromise(this.namespace(this.loadModule(r.file)), `imp${nodeId(n)}`)
        const hv = this.harness.dynamicImport?.(this, String(s.v), n)
        if (hv !== undefined)
          return hv
        const ext = this.harness.externals?.[s.v] ?? this.externals?.[s.v]
        if (ext)
          return this.resolvedPromise(this.externalNs(s.v, ext), `imp${nodeId(n)}`)
        // a file that does not exist
        if (/^\.\.?\//.test(String(s.v)))
          return this.rejectedPromise(sym(`cannot import ${s.v}`, { nonNull: true, type: 'object' }), `imp${nodeId(n)}`)
      }
      this.noteOpaque('dynamic import', n)
      return sym(`import(${s.k})`, { opaque: true, nonNull: true })
    })
  },

  // ---------------------------------------------------------- literals
  evalObject(n, env) {
    const r = this.alloc(rec('object'), `obj${nodeId(n)}`)
    for (const p of n.properties) {
      if (!this.st)
        return BOT
      if (ts.isPropertyAssignment(p)) {
        const k = this.propName(p.name, env)
        const v = this.eval(p.initializer, env)
        if (!this.st)
          return BOT
        if (isConst(k) && k.v === '__proto__' && !ts.isComputedPropertyName(p.name))
          this.noteOpaque('an object with a prototype of its own', p)
        this.objPut(r, k, v, p)
      }
      else if (ts.isShorthandPropertyAssignment(p)) {
        const v = this.pruned(this.lookup(p.name.text, env, p.name))
        this.objPut(r, C(p.name.text), v, p)
      }
      else if (ts.isSpreadAssignment(p)) {
        const v = this.eval(p.expression, env)
        if (!this.st)
          return BOT
        this.spreadInto(r, v, p)
      }
      else if (ts.isMethodDeclaration(p)) {
        const k = this.propName(p.name, env)
        this.objPut(r, k, { t: 'fn', node: p, env, k: `m:${nodeId(p)}@${env.scope}`, name: isConst(k) ? String(k.v) : 'method' }, p)
      }
      else if (ts.isGetAccessorDeclaration(p)) {
        const k = this.propName(p.name, env)
        const g = { t: 'fn', node: p, env, k: `get:${nodeId(p)}@${env.scope}` }
        const rr = this.st.get(r.id)
        const props = new Map(rr.props)
        props.set(String(k.v), { v: UNDEF, may: false, getter: g })
        this.st.set(r.id, { ...rr, props })
      }
      else {
        this.noteOpaque('object member', p)
      }
    }
    return r
  },

  objPut(r, k, v) {
    for (const [i, a] of alts(k).entries()) {
      const rr = this.st.get(r.id)
      if (isConst(a.v) || a.v.t === 'native') {
        const name = a.v.t === 'native' ? a.v.name : String(a.v.v)
        const props = new Map(rr.props)
        const many = k.t === 'union'
        const old = props.get(name)
        props.delete(name)
        props.set(name, many ? { v: old ? union([old.v, v]) : v, may: !old || old.may } : { v, may: false })
        this.st.set(r.id, { ...rr, props })
      }
      else {
        this.st.set(r.id, { ...rr, star: rr.star ? union([rr.star, v]) : v, x: { ...rr.x, dynKey: a.v } })
      }
      void i
    }
  },

  /** { ...v } into record r */
  spreadInto(r, v, node) {
    if (v.t === 'union') {
      const st0 = this.st
      const outs = []
      for (const a of v.alts) {
        const st = st0.clone()
        if (a.g && !this.assertGuards(st, [a]))
          continue
        this.st = st
        this.spreadInto(r, a.v, node)
        if (this.st)
          outs.push({ st: this.st, v: UNDEF })
      }
      this.st = this.joinList(outs)?.st ?? null
      return
    }
    if (isNullish(v) || v.t === 'fn' || v.t === 'native' || v.t === 'bot')
      return
    if (isConst(v)) {
      if (typeof v.v === 'string')
        [...v.v].forEach((ch, i) => this.objPut(r, C(String(i)), C(ch)))
      return
    }
    const rr = this.st.get(r.id)
    if (v.t === 'sym') {
      if (v.meta?.nullish)
        return
      const props = new Map()
      for (const [k, e] of rr.props) {
        const p = this.symProp(v, k)
        props.set(k, isUndef(p) ? e : this.specKnown(v, k) ? { v: p, may: false } : { v: union([e.v, p]), may: e.may })
      }
      this.st.set(r.id, { ...rr, props, rest: [...(rr.rest ?? []).filter(s => s.id !== v.id), v] })
      return
    }
    if (v.t === 'op') {
      this.noteOpaque(`spread of op ${v.op}`, node)
      this.st.set(r.id, { ...rr, rest: [...(rr.rest ?? []), sym(`op:${v.k}`, { prov: [...prov(v)], opaque: true })] })
      return
    }
    const src = this.st.get(v.id)
    if (['headers', 'map', 'set', 'formdata', 'promise', 'stream', 'url', 'response', 'regexp', 'blob'].includes(src.kind))
      return
    const props = new Map(rr.props)
    const put = (k, e) => {
      const old = props.get(k)
      if (e.may) {
        const base = old ? old.v : rr.rest?.length ? union(rr.rest.map(s => this.symProp(s, k))) : null
        props.set(k, base ? { v: union([base, e.v]), may: !!(old?.may) } : { v: e.v, may: true })
      }
      else {
        props.set(k, { v: e.v, may: false })
      }
    }
    if (src.kind === 'array') {
      ;(src.items ?? []).forEach((x, i) => put(String(i), { v: x }))
      if (src.star)
        this.noteOpaque('object spread of unbounded array', node)
    }
    let rest = rr.rest
    if (src.rest?.length) {
      for (const s of src.rest) {
        for (const [k, e] of props) {
          if (src.props.has(k))
            continue
          const p = this.symProp(s, k)
          if (!isUndef(p))
            props.set(k, this.specKnown(s, k) ? { v: p, may: false } : { v: union([e.v, p]), may: e.may })
        }
      }
      rest = [...(rr.rest ?? []).filter(s => !src.rest.some(q => q.id === s.id)), ...src.rest]
    }
    for (const [k, e] of src.props) {
      if (e.hidden || (src.kind === 'error' && (k === 'message' || k === 'name' || k === 'stack') && !e.own))
        continue
      if (e.getter) {
        const g = this.call(e.getter, v, [], node)
        if (!this.st)
          return
        put(k, { v: g })
        continue
      }
      put(k, e)
    }
    const cur = this.st.get(r.id)
    this.st.set(r.id, { ...cur, props, rest, star: src.star && src.kind === 'object' ? (cur.star ? union([cur.star, src.star]) : src.star) : cur.star, x: src.x.dynKey && !cur.x.dynKey ? { ...cur.x, dynKey: src.x.dynKey } : cur.x })
  },

  specKnown(s, k) {
    return !!(s.meta?.props?.[k] !== undefined && s.meta?.props?.[k]?.present)
  },

  arrPush(r, v) {
    const rr = this.st.get(r.id)
    if (rr.star)
      this.st.set(r.id, { ...rr, star: union([rr.star, v]) })
    else this.st.set(r.id, { ...rr, items: [...(rr.items ?? []), v] })
  },

  arrStar(r, v) {
    const rr = this.st.get(r.id)
    this.st.set(r.id, { ...rr, star: rr.star ? union([rr.star, v]) : v })
  },

  // ---------------------------------------------------------- operators
  evalPrefix(n, env) {
    if (n.operator === K.ExclamationToken) {
      const c = this.cond(n.operand, env)
      return this.branches([[c.F, () => TRUE], [c.T, () => FALSE]])
    }
    if (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) {
      const old = this.eval(n.operand, env)
      const v = this.binary(n.operator === K.PlusPlusToken ? '+' : '-', old, C(1), n)
      this.assign(n.operand, v, env)
      return this.st ? v : BOT
    }
    const v = this.eval(n.operand, env)
    if (!this.st)
      return BOT
    return mapAlts(v, (a) => {
      if (isConst(a)) {
        if (n.operator === K.MinusToken)
          return C(-a.v)
        if (n.operator === K.PlusToken)
          return C(+a.v)
        if (n.operator === K.TildeToken)
          return C(~a.v)
      }
      return op(`unary${n.operator}`, [a], num)
    })
  },

  evalBinary(n, env) {
    const o = n.operatorToken.kind
    switch (o) {
      case K.EqualsToken: {
        const v = this.eval(n.right, env)
        if (!this.st)
          return BOT
        this.assign(n.left, v, env)
        return this.st ? v : BOT
      }
      case K.AmpersandAmpersandToken:
      case K.BarBarToken: {
        const c = this.cond(n, env)
        return this.branches([[c.T, () => c.vT], [c.F, () => c.vF]])
      }
      case K.QuestionQuestionToken: {
        const a = this.eval(n.left, env)
        if (!this.st)
          return BOT
        const l = this.peek(n.left, env)
        const s = this.splitNull(a, l && l.v.k === a.k ? l : null)
        return this.branches([[s.NN, () => s.vNN], [s.N, () => this.eval(n.right, env)]])
      }
      case K.CommaToken:
        this.eval(n.left, env)
        return this.eval(n.right, env)
      case K.QuestionQuestionEqualsToken:
      case K.BarBarEqualsToken:
      case K.AmpersandAmpersandEqualsToken: {
        const a = this.eval(n.left, env)
        if (!this.st)
          return BOT
        const l = this.peek(n.left, env)
        const lv = l && l.v.k === a.k ? l : null
        const put = () => {
          const v = this.eval(n.right, env)
          if (this.st)
            this.assign(n.left, v, env)
          return v
        }
        if (o === K.QuestionQuestionEqualsToken) {
          const s = this.splitNull(a, lv)
          return this.branches([[s.NN, () => s.vNN], [s.N, put]])
        }
        const s = this.splitTruth(a, lv)
        return o === K.BarBarEqualsToken
          ? this.branches([[s.T, () => s.vT], [s.F, put]])
          : this.branches([[s.F, () => s.vF], [s.T, put]])
      }
      default:
    }
    if (compoundOps.has(o)) {
      const a = this.eval(n.left, env)
      const b = this.eval(n.right, env)
      if (!this.st)
        return BOT
      const v = this.binary(compoundOps.get(o), a, b, n)
      if (!this.st)
        return BOT
      this.assign(n.left, v, env)
      return this.st ? v : BOT
    }
    const name = binOps.get(o)
    if (!name) {
      this.noteOpaque(`operator ${K[o]}`, n)
      return sym(`bin@${nodeId(n)}`, { opaque: true })
    }
    const a = this.eval(n.left, env)
    if (!this.st)
      return BOT
    const b = this.eval(n.right, env)
    if (!this.st)
      return BOT
    return this.binary(name, a, b, n)
  },

  binary(name, a, b, node) {
    if (!this.st)
      return BOT
    if (name === '!==' || name === '!=') {
      const v = this.binary(name === '!==' ? '===' : '==', a, b, node)
      return mapAlts(v, x => (isConst(x) ? bool(!x.v) : x.t === 'op' && x.op === 'not' ? x.args[0] : op('not', [x], boolean)))
    }
    if (a.t === 'union')
      return mapAlts(a, x => this.binary(name, x, b, node))
    if (b.t === 'union')
      return mapAlts(b, x => this.binary(name, a, x, node))
    if (a.t === 'bot' || b.t === 'bot')
      return BOT
    switch (name) {
      case '===':
      case '==':
        return this.equals(a, b, name === '==')
      case '+': {
        if (isConst(a) && isConst(b))
          return C(a.v + b.v)
        const ta = this.typeOf(a)
        const tb = this.typeOf(b)
        if (ta === 'string' || tb === 'string')
          return this.concat(this.toStr(a, node), this.toStr(b, node))
        if (ta === 'number' && tb === 'number')
          return this.add(a, b)
        if ((ta === 'number' && isUndef(b)) || (tb === 'number' && isUndef(a)))
          return C(Number.NaN)
        return op('plus', [a, b], {})
      }
      case '<':
      case '>':
      case '<=':
      case '>=': {
        if (isConst(a) && isConst(b))
          return bool(name === '<' ? a.v < b.v : name === '>' ? a.v > b.v : name === '<=' ? a.v <= b.v : a.v >= b.v)
        {
          const [lo, hi] = name[0] === '<' ? [a, b] : [b, a]
          const [lmin, lmax] = this.bounds(lo)
          const [hmin, hmax] = this.bounds(hi)
          const strict = name.length === 1
          if (strict ? lmax < hmin : lmax <= hmin)
            return TRUE
          if (strict ? lmin >= hmax : lmin > hmax)
            return FALSE
          // presence of a text
          const found = x => (x.t === 'op' && x.op === 'str.indexOf' && x.args.length === 2 && this.typeOf(x.args[0]) === 'string' ? x : null)
          if (found(hi) && isConst(lo) && lo.v === (strict ? -1 : 0))
            return this.binary('!==', hi, C(-1), node)
          if (found(lo) && isConst(hi) && hi.v === (strict ? 0 : -1))
            return this.binary('===', lo, C(-1), node)
          // emptiness of a text
          const str = x => (x.t === 'op' && x.op === 'length' && this.typeOf(x.args[0]) === 'string' ? x.args[0] : null)
          const no = x => op('not', [x], boolean)
          if (str(hi) && isConst(lo) && lo.v === (strict ? 0 : 1))
            return no(no(str(hi)))
          if (str(lo) && isConst(hi) && hi.v === (strict ? 1 : 0))
            return no(str(lo))
        }
        if (name === '<')
          return op('lt', [a, b], boolean)
        if (name === '>')
          return op('lt', [b, a], boolean)
        if (name === '<=')
          return op('le', [a, b], boolean)
        return op('le', [b, a], boolean)
      }
      case 'instanceof':
        return this.instanceOf(a, b, node)
      case 'in':
        return this.hasProp(b, a, node)
      default:
        if (isConst(a) && isConst(b)) {
          const f = { '-': (x, y) => x - y, '*': (x, y) => x * y, '/': (x, y) => x / y, '%': (x, y) => x % y, '**': (x, y) => x ** y, '&': (x, y) => x & y, '|': (x, y) => x | y, '^': (x, y) => x ^ y, '<<': (x, y) => x << y, '>>': (x, y) => x >> y, '>>>': (x, y) => x >>> y }[name]
          return C(f(a.v, b.v))
        }
        if (name === '-' && isConst(b) && b.v === 0)
          return a
        return op(`ar${name}`, [a, b], num)
    }
  },

  /** numeric interval of a term */
  bounds(v) {
    if (isConst(v))
      return typeof v.v === 'number' ? [v.v, v.v] : [-Infinity, Infinity]
    if (v.t === 'op' && v.op === 'length')
      return [v.meta?.minLen ?? this.minLen(v.args[0]), Infinity]
    if (v.t === 'op' && v.op === 'add')
      return v.args.map(x => this.bounds(x)).reduce(([a, b], [c, d]) => [a + c, b + d], [0, 0])
    return [-Infinity, Infinity]
  },
  minLen(s) {
    if (isConst(s))
      return String(s.v).length
    if (s.t === 'op' && s.op === 'concat')
      return s.args.reduce((n, a) => n + this.minLen(a), 0)
    return this.typeOf(s) === 'string' && this.truthAlt(s) === 'T' ? 1 : 0
  },

  /** commutative sum, flattened */
  add(a, b) {
    const flat = x => (x.t === 'op' && x.op === 'add' ? x.args : [x])
    const list = [...flat(a), ...flat(b)]
    let c = 0
    const rest = []
    for (const x of list) {
      if (isConst(x))
        c += x.v
      else rest.push(x)
    }
    rest.sort((x, y) => (x.k < y.k ? -1 : x.k > y.k ? 1 : 0))
    if (c !== 0)
      rest.push(C(c))
    return rest.length === 1 ? rest[0] : op('add', rest, num)
  },

  concat(a, b) {
    if (a.t === 'union')
      return mapAlts(a, x => this.concat(x, b))
    if (b.t === 'union')
      return mapAlts(b, x => this.concat(a, x))
    if (a.t === 'bot' || b.t === 'bot')
      return BOT
    const flat = x => (x.t === 'op' && x.op === 'concat' ? x.args : [x])
    const out = []
    for (const x of [...flat(a), ...flat(b)]) {
      const last = out.at(-1)
      if (isConst(x) && x.v === '')
        continue
      if (last && isConst(last) && isConst(x))
        out[out.length - 1] = C(String(last.v) + String(x.v))
      else out.push(x)
    }
    if (out.length === 0)
      return C('')
    if (out.length === 1)
      return out[0]
    return op('concat', out, str)
  },

  toStr(v, node) {
    return mapAlts(v, (a) => {
      if (isConst(a))
        return C(String(a.v))
      if (this.typeOf(a) === 'string')
        return a
      if (a.t === 'ref') {
        const r = this.st.get(a.id)
        if (r.kind === 'url')
          return r.x.href
        if (r.kind === 'error')
          return op('str', [r.props.get('message')?.v ?? C('')], str)
        if (r.kind === 'array') {
          const j = this.natives.arrayJoin(this, a, C(','), node)
          return j
        }
        return op('strobj', [a], str)
      }
      return op('str', [a], str)
    })
  },

  equals(a, b, loose) {
    if (a.text !== undefined)
      a = C(a.text)
    if (b.text !== undefined)
      b = C(b.text)
    if (isConst(b) && !isConst(a))
      [a, b] = [a, b]
    else if (isConst(a) && !isConst(b))
      [a, b] = [b, a]
    if (isConst(a) && isConst(b))
      // eslint-disable-next-line eqeqeq
      return bool(loose ? a.v == b.v : a.v === b.v)
    if (isConst(b) && b.v == null) {
      const n = this.nullAlt(a)
      if (n === 'NN')
        return FALSE
      if (loose)
        return n === 'N' ? TRUE : op('nullish', [a], boolean)
      if (a.t === 'sym') {
        if (b.v === null && a.meta?.neverNull)
          return FALSE
        return op('seq', [a, b], boolean)
      }
      return FALSE
    }
    if (isConst(b)) {
      if (loose && this.rec(a)) {
        this.noteOpaque('a loose comparison of an object')
        return op('seq', [a, b], boolean)
      }
      const ta = this.typeOf(a)
      if (ta && ta !== typeof b.v && !loose)
        return FALSE
      if (a.t === 'ref' || a.t === 'fn' || a.t === 'native')
        return FALSE
      if (typeof b.v === 'number' && a.t === 'op' && a.op === 'length') {
        if (b.v < this.bounds(a)[0])
          return FALSE
        if (b.v === 0 && this.typeOf(a.args[0]) === 'string')
          return op('not', [a.args[0]], boolean)
      }
      if (typeof b.v === 'number' && a.t === 'op' && a.op === 'add') {
        const [lo, hi] = this.bounds(a)
        if (b.v < lo || b.v > hi)
          return FALSE
      }
      const known = this.st.facts.get(`val:${a.k}`)
      if (known !== undefined)
        return bool(known === b.v)
      // a search for a text at the beginning, or for its absence
      if (a.t === 'op' && a.op === 'str.indexOf' && a.args.length === 2 && this.typeOf(a.args[0]) === 'string') {
        if (b.v === 0)
          return this.call(this.getProp(a.args[0], C('startsWith')), a.args[0], [a.args[1]])
        if (b.v === -1)
          return mapAlts(this.call(this.getProp(a.args[0], C('includes')), a.args[0], [a.args[1]]), x => (isConst(x) ? bool(!x.v) : op('not', [x], boolean)))
      }
      if (a.meta?.literals && !a.meta.literals.includes(b.v))
        return FALSE
      if (this.st.facts.get(`t:${op('seq', [a, b]).k}`) !== undefined)
        return bool(this.st.facts.get(`t:${op('seq', [a, b]).k}`))
      if (a.t === 'op' && a.op === 'json' && typeof b.v === 'string' && !this.jsonMayBe(a.tree, b.v))
        return FALSE
      // a boolean-valued term compared with true/false is the term itself
      if (a.t === 'op' && a.meta?.type === 'boolean' && typeof b.v === 'boolean')
        return b.v ? a : a.op === 'not' ? a.args[0] : op('not', [a], boolean)
      if (b.v === '' && ta === 'string') {
        const t = this.truthAlt(a)
        if (t !== '?')
          return bool(t === 'F')
        return op('not', [a], boolean)
      }
      return op('seq', [a, b], boolean)
    }
    if (a.t === 'ref' && b.t === 'ref')
      return bool(a.id === b.id)
    if (a.k === b.k)
      return TRUE
    const obj = v => v.t === 'ref' || v.t === 'fn' || v.t === 'native'
    if (obj(a) && obj(b))
      return FALSE
    if (obj(a) || obj(b)) {
      const o = obj(a) ? b : a
      const t = this.typeOf(o)
      if (t && t !== 'object' && t !== 'function')
        return FALSE
    }
    const ta = this.typeOf(a)
    const tb = this.typeOf(b)
    if (ta && tb && ta !== tb)
      return FALSE
    const [x, y] = a.k < b.k ? [a, b] : [b, a]
    return op('seq', [x, y], boolean)
  },

  /** may the JSON text of this tree be the given string? */
  jsonMayBe(t, s) {
    let js
    try {
      js = JSON.parse(s)
    }
    catch { return false }
    switch (t?.kind) {
      case 'object': return !!js && typeof js === 'object' && !Array.isArray(js)
      case 'array': return Array.isArray(js)
      case 'const': return JSON.stringify(t.v) === s
      case 'union': return t.alts.some(a => this.jsonMayBe(a, s))
      default: return true
    }
  },

  instanceOf(a, b, node) {
    if (isConst(a))
      return FALSE
    if (b.t === 'fn' && b.isClass) {
      if (a.t === 'ref') {
        for (let c = this.st.get(a.id)?.cls; c; c = c.superV) {
          if (c.k === b.k)
            return TRUE
        }
        return FALSE
      }
      if (a.t === 'sym') {
        const i = a.meta?.inst
        if (i)
          return bool(i.includes(b.name))
        if (a.meta?.type && a.meta.type !== 'object')
          return FALSE
        if (a.meta?.plain)
          return FALSE
      }
      return op('instanceof', [a, C(b.name)], boolean)
    }
    if (b.t === 'native') {
      if (a.t === 'ref')
        return bool(this.natives.isInstance(this, this.st.get(a.id), b.name))
      if (a.t === 'fn' || a.t === 'native')
        return bool(b.name === 'Function' || b.name === 'Object')
      if (a.t === 'sym') {
        if (a.meta?.inst)
          return bool(a.meta.inst.includes(b.name))
        if (a.meta?.plain)
          return FALSE
        if (a.meta?.type && a.meta.type !== 'object' && a.meta.type !== 'function')
          return FALSE
      }
      if (a.t === 'op' && a.meta?.type && a.meta.type !== 'object')
        return FALSE
      return op('instanceof', [a, C(b.name)], boolean)
    }
    return op('instanceof', [a, b], boolean)
  },

  hasProp(o, k, node) {
    if (isNullish(o) || isConst(o))
      return this.throwError('TypeError', 'Cannot use \'in\' operator', node)
    if (o.t === 'ref') {
      const r = this.st.get(o.id)
      if (isConst(k)) {
        const name = String(k.v)
        const e = r.props.get(name)
        if (e && !e.may)
          return TRUE
        if (r.kind === 'array' && /^\d+$/.test(name))
          return Number(name) < (r.items?.length ?? 0) ? TRUE : r.star ? op('has', [k, o], boolean) : FALSE
        if (e?.may || r.star)
          return op('has', [k, o], boolean)
        if (r.rest?.length) {
          const s = r.rest.find(s => this.symHas(s, name) !== false)
          if (!s)
            return FALSE
          return this.symHas(s, name) === true ? TRUE : op('has', [k, s], boolean)
        }
        if (r.cls?.t === 'fn' && this.classMethod(r.cls, name))
          return TRUE
        return bool(this.natives.hasBuiltin(r, name))
      }
      return op('has', [k, o], boolean)
    }
    if (o.t === 'sym' && isConst(k)) {
      const h = this.symHas(o, String(k.v))
      if (h !== undefined)
        return bool(h)
      return op('has', [k, o], boolean)
    }
    return op('has', [k, o], boolean)
  },

  symHas(s, name) {
    const base = s.meta?.restOf ?? s
    if (s.meta?.taken?.includes(name))
      return false
    if (base.meta?.has && name in base.meta.has)
      return base.meta.has[name]
    if (base.meta?.closed)
      return base.meta.props?.[name] !== undefined
    return undefined
  },
}
export { joinStates, loc, native, ref }
