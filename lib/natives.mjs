// Transfer functions of the JavaScript / web-platform primitives the analysed code uses.
import { loc, nodeId } from './loader.mjs'
import { alts, BOT, bool, C, FALSE, isConst, isNullish, isUndef, joinStates, mapAlts, native, NULL, op, prov, rec, ref, sym, TRUE, UNDEF, union } from './values.mjs'

const num = { type: 'number', nonNull: true }
const str = { type: 'string', nonNull: true }
const boolean = { type: 'boolean', nonNull: true }

// ------------------------------------------------------------------ snapshots
/** immutable picture of a value in the current state */
export const tree = (I, v, json = false, depth = 0, seen = []) => {
  if (v.t === 'union')
    return mergeTrees(v.alts.map(a => ({ t: tree(I, a.v, json, depth, seen), g: a.g })))
  switch (v.t) {
    case 'const': return { kind: 'const', v: v.v }
    case 'fn':
    case 'native': return { kind: 'fn', v }
    case 'sym': return { kind: 'sym', v }
    case 'op': return { kind: 'op', v, tree: v.tree }
    case 'ref': {
      const r = I.st.get(v.id)
      if (depth > 48 || seen.includes(v.id))
        return { kind: 'cycle' }
      if (json && (['date', 'set', 'url'].includes(r.kind) || r.props.get('toJSON')))
        I.noteOpaque('JSON of a value with its own form')
      const s2 = [...seen, v.id]
      const go = x => tree(I, x, json, depth + 1, s2)
      if (r.kind === 'array' || r.kind === 'set')
        return { kind: 'array', id: v.id, items: (r.items ?? []).map(go), star: r.star ? go(r.star) : null }
      const props = {}
      for (const [k, e] of r.props) {
        if (e.hidden && !(r.kind === 'headers' && e.hdr))
          continue
        const t = go(e.v)
        if (json && (t.kind === 'fn' || (t.kind === 'const' && t.v === undefined)))
          continue
        props[k] = { v: t, may: !!e.may || (json && mayUndef(e.v)) }
      }
      const out = { kind: r.kind === 'object' ? 'object' : r.kind, id: v.id, props, rest: r.rest ?? [], star: r.star ? go(r.star) : null }
      if (r.cls)
        out.cls = r.cls.name
      if (r.kind === 'error')
        out.cls = r.cls?.name ?? r.x.errName
      if (r.x.href)
        out.href = r.x.href
      if (r.kind === 'headers')
        out.items = undefined
      if (r.kind === 'formdata')
        out.items = r.items.map(go)
      if (r.kind === 'promise')
        return { kind: 'promise', id: v.id }
      return out
    }
    default: return { kind: 'bot' }
  }
}
const mayUndef = v => alts(v).some(a => isUndef(a.v) || a.v.t === 'fn')
const mergeTrees = list => ({ kind: 'union', alts: list.map(x => x.t), guards: list.map(x => x.g) })

const tkCache = new WeakMap()
export const treeKey = (t) => {
  if (t == null)
    return '-'
  let k = tkCache.get(t)
  if (k !== undefined)
    return k
  switch (t.kind) {
    case 'const': k = `c:${typeof t.v}:${String(t.v)}`
      break
    case 'fn': k = t.v.k
      break
    case 'sym':
    case 'op': k = t.v.k
      break
    case 'union': k = `(${[...new Set(t.alts.map(treeKey))].sort().join('|')})`
      break
    case 'array': k = `[${t.items.map(treeKey).join(',')}${t.star ? `,*${treeKey(t.star)}` : ''}]`
      break
    case 'cycle': k = '…'
      break
    case 'promise': k = `p:${t.id}`
      break
    default:
      k = `${t.kind === 'object' ? '' : t.kind}${t.cls ?? ''}{${Object.entries(t.props ?? {}).map(([n, e]) => `${n}${e.may ? '?' : ''}:${treeKey(e.v)}`).sort().join(',')}${(t.rest ?? []).map(s => `,...${s.id}`).join('')}${t.star ? `,*:${treeKey(t.star)}` : ''}}${t.href ? t.href.k : ''}`
  }
  tkCache.set(t, k)
  return k
}
/** rebuild a heap value from a snapshot */
export const fromTree = (I, t, tag) => {
  switch (t.kind) {
    case 'const': return C(t.v)
    case 'sym':
    case 'op':
    case 'fn': return t.v
    case 'union': return union(t.alts.map((a, i) => fromTree(I, a, `${tag}|${i}`)))
    case 'array': return I.alloc(rec('array', { items: t.items.map((x, i) => fromTree(I, x, `${tag}[${i}]`)), star: t.star ? fromTree(I, t.star, `${tag}[*]`) : null }), tag)
    case 'object': {
      const props = new Map()
      for (const [k, e] of Object.entries(t.props)) props.set(k, { v: fromTree(I, e.v, `${tag}.${k}`), may: e.may })
      return I.alloc(rec('object', { props, rest: t.rest?.length ? t.rest : null, star: t.star ? fromTree(I, t.star, `${tag}.*`) : null }), tag)
    }
    default: return sym(`tree(${t.kind})@${tag}`, { nonNull: true, type: 'object' })
  }
}

// ------------------------------------------------------------------ helpers
const N = (name, impl, extra) => native(name, impl, extra)
const tagOf = (p, node) => `${p}${node ? nodeId(node) : ''}`
const put = (I, id, f) => I.st.set(id, f(I.st.get(id)))
const setHidden = (I, r, key, v) => put(I, r.id, (x) => {
  const props = new Map(x.props)
  props.set(key, { v, may: false, hidden: true })
  return { ...x, props }
})
const hid = (I, r, key) => I.st.get(r.id)?.props.get(key)?.v ?? UNDEF
const newArray = (I, items, node, tag = 'nat', star = null) => I.alloc(rec('array', { items, star }), tagOf(tag, node))
const opaqueOp = (name, args, meta) => op(name, args.filter(a => a.t !== undefined), meta)
const jsVal = (I, v) => {
  if (isConst(v))
    return { ok: true, v: v.v }
  const r = I.rec(v)
  if (r?.kind === 'regexp' && isConst(r.x.source) && isConst(r.x.flags)) {
    try {
      return { ok: true, v: new RegExp(r.x.source.v, r.x.flags.v), re: true }
    }
    catch {}
  }
  return { ok: false }
}
/** the callback gives promises (decided on a copy of the state) */
const promisesOf = (I, f, x, t, node) => {
  const st = I.st
  I.st = st.clone()
  const lf = I.harness.lastFirst
  I.harness.lastFirst = false
  try {
    const c = I.capture(() => I.withCtx('#trial', () => callCb(I, f, [x, C(0), t], node)))
    return alts(c.v).some(a => I.st && I.kindOf(a.v) === 'promise')
  }
  finally {
    I.st = st
    I.harness.lastFirst = lf
  }
}
const plainArgs = args => args.map(a => (a.spreadStar ? a.spreadStar : a))
const callCb = (I, f, args, node) => I.call(f, UNDEF, args, node)
/** zero or more applications of fn to the summary element */
const starEach = (I, fn, node) => I.fixLoop(tagOf('cb', node), fn, node)

// ------------------------------------------------------------------ arrays
const arr = (I, t) => I.st.get(t.id)
const mutCheck = (I, t, prop, node, v) => {
  const r = I.st.get(t.id)
  if (r?.caller)
    I.emit('mutate', { target: r.caller, prop: C(prop), key: `${t.id}.${prop}`, value: v }, node)
  if (r?.x.frozen)
    I.noteOpaque('change of a frozen list', node)
  return r
}
const A = {
  push(I, t, args, node) {
    mutCheck(I, t, 'push', node, args[0])
    for (const a of args) {
      if (a.spreadStar)
        I.arrStar(t, a.spreadStar)
      else I.arrPush(t, a)
    }
    return lengthOf(I, t)
  },
  unshift(I, t, args, node) {
    const r = mutCheck(I, t, 'unshift', node)
    const pa = args.filter(a => !a.spreadStar)
    const sp = args.filter(a => a.spreadStar)
    if (sp.length)
      I.st.set(t.id, { ...r, items: [], star: union([...(r.items ?? []), ...pa, ...sp.map(s => s.spreadStar), ...(r.star ? [r.star] : [])]) })
    else I.st.set(t.id, { ...r, items: [...pa, ...r.items] })
    return lengthOf(I, t)
  },
  pop(I, t, args, node) {
    const r = mutCheck(I, t, 'pop', node)
    if (r.star) {
      return union([r.star, ...(r.items.length ? [r.items.at(-1)] : []), UNDEF])
    }
    if (!r.items.length)
      return UNDEF
    I.st.set(t.id, { ...r, items: r.items.slice(0, -1) })
    return r.items.at(-1)
  },
  shift(I, t, args, node) {
    const r = mutCheck(I, t, 'shift', node)
    if (r.items.length) {
      I.st.set(t.id, { ...r, items: r.items.slice(1) })
      return r.items[0]
    }
    return r.star ? union([r.star, UNDEF]) : UNDEF
  },
  splice(I, t, args, node) {
    const r = mutCheck(I, t, 'splice', node)
    if (!r.star && args.every(a => isConst(a) || args.indexOf(a) >= 2)) {
      const items = [...r.items]
      const del = items.splice(...args.map((a, i) => (i < 2 ? a.v : a)))
      I.st.set(t.id, { ...r, items })
      return newArray(I, del, node, 'splice')
    }
    I.st.set(t.id, { ...r, items: [], star: union([...r.items, ...(r.star ? [r.star] : []), ...args.slice(2)]) })
    return newArray(I, [], node, 'splice', union([...r.items, ...(r.star ? [r.star] : [])]))
  },
  slice(I, t, args, node) {
    const r = arr(I, t)
    const a = args[0] ?? C(0)
    const b = args[1]
    if (!r.star && isConst(a) && (!b || isConst(b)))
      return newArray(I, r.items.slice(a.v, b?.v), node, 'slice')
    if (isConst(a) && (a.v ?? 0) >= 0 && (!b || isUndef(b)))
      return newArray(I, r.items.slice(a.v ?? 0), node, 'slice', r.star)
    return newArray(I, [], node, 'slice', r.items.length || r.star ? union([...r.items, ...(r.star ? [r.star] : [])]) : null)
  },
  concat(I, t, args, node) {
    const out = newArray(I, [...arr(I, t).items], node, 'concat', arr(I, t).star)
    for (const a of plainArgs(args)) {
      for (const x of alts(a)) {
        if (I.kindOf(x.v) === 'array') {
          const q = arr(I, x.v)
          if (a.t === 'union') {
            const s = [...q.items, ...(q.star ? [q.star] : [])]
            if (s.length)
              I.arrStar(out, union(s))
          }
          else {
            q.items.forEach(y => I.arrPush(out, y))
            if (q.star)
              I.arrStar(out, q.star)
          }
        }
        else if (x.v.t === 'sym' && (x.v.meta?.isArray || !I.typeOf(x.v))) {
          I.arrStar(out, I.iterate(x.v, node).star ?? I.iterate(x.v, node).unknown)
        }
        else {
          I.arrPush(out, x.v)
        }
      }
    }
    return out
  },
  at(I, t, args, node) {
    return indexArr(I, t, args[0] ?? C(0), true, node)
  },
  includes(I, t, args) {
    const r = arr(I, t)
    const vs = r.items.map(x => I.binary('===', x, args[0]))
    if (vs.some(v => isConst(v) && v.v === true))
      return TRUE
    if (!r.star && vs.every(v => isConst(v) && v.v === false))
      return FALSE
    return op('includes', [t, args[0]], boolean)
  },
  indexOf(I, t, args) {
    const r = arr(I, t)
    const vs = r.items.map(x => I.binary('===', x, args[0]))
    const i = vs.findIndex(v => !(isConst(v) && v.v === false))
    if (i < 0)
      return r.star ? op('indexOf', [t, args[0]], num) : C(-1)
    return isConst(vs[i]) ? C(i) : op('indexOf', [t, args[0]], num)
  },
  join(I, t, args, node) {
    return arrayJoin(I, t, args[0] ?? C(','), node)
  },
  map(I, t, args, node) {
    const r = arr(I, t)
    const out = []
    if (I.harness.lastFirst && r.items.length > 1 && !r.star && promisesOf(I, args[0], r.items[0], t, node)) {
      // the asynchronous parts finish in reverse order, so they are interpreted in that order
      for (let i = r.items.length - 1; i >= 0 && I.st; i--) {
        out[i] = I.withCtx(`#${i}`, () => I.concurrently(() => callCb(I, args[0], [r.items[i], C(i), t], node), node))
      }
      return I.st ? newArray(I, out, node, 'map', null) : BOT
    }
    r.items.forEach((x, i) => {
      if (I.st)
        out.push(I.withCtx(`#${i}`, () => callCb(I, args[0], [x, C(i), t], node)))
    })
    let star = null
    if (r.star && I.st) {
      starEach(I, () => {
        star = callCb(I, args[0], [r.star, sym('idx', num), t], node)
      }, node)
    }
    return I.st ? newArray(I, out, node, 'map', star) : BOT
  },
  flatMap(I, t, args, node) {
    const m = A.map(I, t, args, node)
    return I.st ? A.flat(I, m, [], node) : BOT
  },
  flat(I, t, args, node) {
    const r = arr(I, t)
    const depth = args[0] === undefined || isUndef(args[0]) ? 1 : isConst(args[0]) ? Number(args[0].v) : NaN
    if (!(depth >= 1))
      I.noteOpaque('flattening to a depth', node)
    if (depth > 1 && r.items.some(x => alts(x).some(a => I.kindOf(a.v) === 'array'))) {
      const once = I.withCtx('#flat', () => A.flat(I, t, [], node))
      return I.withCtx('#flat+', () => A.flat(I, once, [C(depth - 1)], node))
    }
    const out = newArray(I, [], node, 'flat')
    for (const x of r.items) {
      I.forEachAlt(x, (a) => {
        if (I.kindOf(a) === 'array') {
          arr(I, a).items.forEach(y => I.arrPush(out, y))
          if (arr(I, a).star)
            I.arrStar(out, arr(I, a).star)
        }
        else { I.arrPush(out, a) }
        return UNDEF
      })
    }
    if (r.star) {
      for (const a of alts(r.star)) {
        if (I.kindOf(a.v) === 'array') {
          const q = arr(I, a.v)
          const s = [...q.items, ...(q.star ? [q.star] : [])]
          if (s.length)
            I.arrStar(out, union(s))
        }
        else { I.arrStar(out, a.v) }
      }
    }
    return out
  },
  filter(I, t, args, node) {
    const r = arr(I, t)
    const out = newArray(I, [], node, 'filter')
    const one = (x, i, star) => {
      const c = callCb(I, args[0], [x, i, t], node)
      if (!I.st)
        return
      const s = I.splitTruth(c, null)
      // narrowing of the element by its own nullness when the predicate decides per alternative
      I.branches([
        [s.T, () => {
          star ? I.arrStar(out, x) : I.arrPush(out, x)
          return UNDEF
        }],
        [s.F, () => UNDEF],
      ])
    }
    r.items.forEach((x, i) => {
      if (!I.st)
        return
      I.withCtx(`#${i}`, () => I.forEachAlt(x, (a) => {
        one(a, C(i), false)
        return UNDEF
      }))
    })
    if (r.star && I.st) {
      for (const a of alts(r.star))
        starEach(I, () => one(a.v, sym('idx', num), true), node)
    }
    return I.st ? out : BOT
  },
  find(I, t, args, node) {
    return findImpl(I, t, args, node, (x, i) => x, UNDEF)
  },
  findIndex(I, t, args, node) {
    return findImpl(I, t, args, node, (x, i) => i, C(-1))
  },
  findLast(I, t, args, node) {
    return findImpl(I, t, args, node, (x, i) => x, UNDEF, true)
  },
  some(I, t, args, node) {
    return findImpl(I, t, args, node, () => TRUE, FALSE)
  },
  every(I, t, args, node) {
    return findImpl(I, t, args, node, () => FALSE, TRUE, false, true)
  },
  forEach(I, t, args, node) {
    const r = arr(I, t)
    r.items.forEach((x, i) => {
      if (I.st)
        I.withCtx(`#${i}`, () => callCb(I, args[0], [x, C(i), t], node))
    })
    if (r.star && I.st)
      starEach(I, () => callCb(I, args[0], [r.star, sym('idx', num), t], node), node)
    return UNDEF
  },
  reduce(I, t, args, node) {
    const r = arr(I, t)
    let items = [...r.items]
    let acc = args[1]
    let off = 0
    if (acc === undefined) {
      if (!items.length) {
        if (!r.star)
          return I.throwError('TypeError', 'Reduce of empty array with no initial value', node)
        acc = r.star
      }
      else {
        acc = items[0]
        items = items.slice(1)
        off = 1
      }
    }
    items.forEach((x, i) => {
      if (I.st)
        acc = I.withCtx(`#${i}`, () => callCb(I, args[0], [acc, x, C(i + off), t], node))
    })
    if (r.star && I.st) {
      const cell = I.alloc(rec('object', { props: new Map([['acc', { v: acc }]]) }), tagOf('acc', node))
      starEach(I, () => {
        const v = callCb(I, args[0], [I.getProp(cell, C('acc'), node), r.star, sym('idx', num), t], node)
        if (I.st)
          put(I, cell.id, x => ({ ...x, props: new Map([['acc', { v }]]) }))
      }, node)
      acc = I.st ? I.getProp(cell, C('acc'), node) : BOT
    }
    return acc
  },
  reverse(I, t, args, node) {
    const r = mutCheck(I, t, 'reverse', node)
    I.st.set(t.id, r.star ? { ...r, items: [], star: union([...r.items, r.star]) } : { ...r, items: [...r.items].reverse() })
    return t
  },
  toReversed(I, t, args, node) {
    const r = arr(I, t)
    return r.star ? newArray(I, [], node, 'rev', union([...r.items, r.star])) : newArray(I, [...r.items].reverse(), node, 'rev')
  },
  sort(I, t, args, node) {
    const r = mutCheck(I, t, 'sort', node)
    const order = r.star || r.items.length > 12 ? null : sortedItems(I, r.items, args[0], node)
    if (!I.st)
      return BOT
    if (order) {
      I.st.set(t.id, { ...I.st.get(t.id), items: order })
      return t
    }
    if (r.items.length + (r.star ? 2 : 0) > 1)
      I.st.set(t.id, { ...r, items: [], star: union([...r.items, ...(r.star ? [r.star] : [])]) })
    return t
  },
  fill(I, t, args, node) {
    const r = mutCheck(I, t, 'fill', node)
    if (args.length > 1 && (r.star || !args.slice(1).every(isConst)))
      I.noteOpaque('fill of a part', node)
    const at = args.length > 1 ? Array.from(r.items, () => 0).fill(1, ...args.slice(1).map(a => a.v)) : null
    I.st.set(t.id, { ...r, items: r.items.map((x, i) => (at && !at[i] ? x : args[0] ?? UNDEF)), star: r.star ? args[0] ?? UNDEF : null })
    return t
  },
  with(I, t, args, node) {
    const r = arr(I, t)
    const out = newArray(I, [...r.items], node, 'with', r.star)
    nset(I, out, args[0], args[1], node)
    return out
  },
  keys(I, t, args, node) {
    const r = arr(I, t)
    return newArray(I, r.items.map((_, i) => C(i)), node, 'keys', r.star ? sym('idx', num) : null)
  },
  values(I, t) {
    return t
  },
  entries(I, t, args, node) {
    const r = arr(I, t)
    return newArray(I, r.items.map((x, i) => I.alloc(rec('array', { items: [C(i), x] }), `${tagOf('ent', node)}.${i}`)), node, 'ents', r.star ? I.alloc(rec('array', { items: [sym('idx', num), r.star] }), `${tagOf('ent', node)}.*`) : null)
  },
  toString(I, t, args, node) {
    return arrayJoin(I, t, C(','), node)
  },
}
A.toSorted = (I, t, args, node) => A.sort(I, A.slice(I, t, [], node), args, node)
A.findLastIndex = (I, t, args, node) => findImpl(I, t, args, node, (x, i) => i, C(-1), true)
A.lastIndexOf = A.indexOf

/** the sorted items when every comparison is definite */
const sortedItems = (I, items, cmp, node) => {
  if (!cmp || isUndef(cmp)) {
    return items.every(isConst) ? [...items].sort((a, b) => (a.v === undefined ? 1 : b.v === undefined ? -1 : String(a.v) < String(b.v) ? -1 : String(a.v) > String(b.v) ? 1 : 0)) : items.length < 2 ? items : null
  }
  const out = []
  for (const [n, x] of items.entries()) {
    let at = out.length
    while (at > 0) {
      const c = I.withCtx(`#s${n}.${at}`, () => callCb(I, cmp, [out[at - 1], x], node))
      if (!I.st || !isConst(c) || typeof c.v !== 'number')
        return null
      if (!(c.v > 0))
        break
      at--
    }
    out.splice(at, 0, x)
  }
  return out
}
const findImpl = (I, t, args, node, hit, miss, reverse = false, negate = false) => {
  const r = arr(I, t)
  const outs = []
  const test = (x, i) => {
    const c = callCb(I, args[0], [x, i, t], node)
    if (!I.st)
      return
    const s = I.splitTruth(c, null)
    const yes = negate ? s.F : s.T
    const no = negate ? s.T : s.F
    if (yes)
      outs.push({ st: yes, v: hit(x, i) })
    I.st = no
  }
  const list = r.items.map((x, i) => [x, i])
  if (reverse)
    list.reverse()
  for (const [x, i] of list) {
    if (!I.st)
      break
    I.withCtx(`#${i}`, () => {
      if (x.t === 'union' && x.alts.length <= 8) {
        const no = []
        const st0 = I.st
        for (const a of x.alts) {
          I.st = st0.clone()
          if (a.g && !I.assertGuards(I.st, [a]))
            continue
          test(a.v, C(i))
          if (I.st)
            no.push({ st: I.st, v: UNDEF })
        }
        I.st = I.joinList(no)?.st ?? null
      }
      else {
        test(x, C(i))
      }
    })
  }
  if (r.star && I.st) {
    let last = []
    const save = outs.length
    for (const a of alts(r.star)) {
      starEach(I, () => {
        outs.length = save + last.length
        test(a.v, sym('idx', num))
      }, node)
      last = outs.slice(save)
    }
  }
  if (I.st)
    outs.push({ st: I.st, v: miss })
  const j = I.joinList(outs)
  I.st = j ? j.st : null
  return j ? j.v : BOT
}

export const arrayJoin = (I, t, sep, node) => {
  const r = arr(I, t)
  let v = C('')
  r.items.forEach((x, i) => {
    if (i > 0)
      v = I.concat(v, sep)
    const s = mapAlts(x, a => (isNullish(a) ? C('') : I.toStr(a, node)))
    v = I.concat(v, s)
  })
  if (r.star) {
    const s = mapAlts(r.star, a => (isNullish(a) ? C('') : I.toStr(a, node)))
    const all = op('joinstar', [s, sep], { ...str })
    v = r.items.length ? I.concat(I.concat(v, sep), all) : all
  }
  return v
}
const lengthOf = (I, t) => {
  const r = I.st.get(t.id)
  if (!r.star)
    return C((r.items ?? []).length)
  return op('length', [t], { ...num, minLen: r.items.length })
}
/** does the path know that index i is inside the array? */
const inside = (I, t, i) => {
  const len = lengthOf(I, t)
  const fact = v => I.st.facts.get(`t:${v.k}`)
  return fact(op('lt', [i, len], { type: 'boolean' })) === true || fact(op('le', [len, i], { type: 'boolean' })) === false
}
const indexArr = (I, t, k, at, node) => {
  const r = arr(I, t)
  return mapAlts(k, (kk) => {
    if (isConst(kk)) {
      let i = Number(kk.v)
      if (at && i < 0)
        i += r.star ? Number.NaN : r.items.length
      if (Number.isNaN(i)) {
        // from the end of an unbounded array
        return union([r.star, ...(r.items.length ? [r.items.at(-1)] : [UNDEF])])
      }
      if (i < r.items.length && i >= 0)
        return r.items[i]
      return r.star ? i >= 0 && inside(I, t, kk) ? r.star : union([r.star, UNDEF]) : UNDEF
    }
    void node
    const all = [...r.items, ...(r.star ? [r.star] : [])]
    return all.length > 0 && r.star && inside(I, t, kk) ? union(all) : union([...all, UNDEF])
  })
}

// methods on opaque array-like symbols
const symArrayMethods = {
  map(I, t, args, node) {
    const it = I.iterate(t, node)
    const e = it.star ?? it.unknown
    let star = null
    starEach(I, () => {
      star = callCb(I, args[0], [e, sym('idx', num), t], node)
    }, node)
    return I.st ? newArray(I, [], node, 'smap', star) : BOT
  },
}
const symToArray = (I, t, node) => {
  const it = I.iterate(t, node)
  return newArray(I, [], node, `sarr:${t.k}`, it.star ?? it.unknown)
}
for (const m of ['filter', 'find', 'findIndex', 'findLast', 'some', 'every', 'forEach', 'reduce', 'flatMap', 'concat', 'slice', 'join', 'at', 'entries', 'keys', 'values', 'toReversed', 'toSorted', 'flat', 'pop', 'shift']) {
  symArrayMethods[m] = (I, t, args, node) => {
    const a = symToArray(I, t, node)
    return A[m](I, a, args, node)
  }
}
for (const m of ['push', 'unshift', 'splice', 'sort', 'reverse', 'fill']) {
  symArrayMethods[m] = (I, t, args, node) => {
    I.emit('mutate-sym', { target: t, prop: C(m), key: `${t.k}.${m}` }, node)
    return sym(`ret(${t.k}.${m})`, {})
  }
}

// ------------------------------------------------------------------ strings
const boolStr = new Set(['startsWith', 'endsWith', 'includes'])
const numStr = new Set(['indexOf', 'lastIndexOf', 'charCodeAt', 'codePointAt', 'search', 'localeCompare'])
const strStr = new Set(['trim', 'trimStart', 'trimEnd', 'toLowerCase', 'toUpperCase', 'slice', 'substring', 'substr', 'charAt', 'at', 'repeat', 'padStart', 'padEnd', 'normalize', 'replace', 'replaceAll', 'toString', 'valueOf', 'concat'])
const arrStr = new Set(['split', 'match', 'matchAll'])
const stringMethod = (m) => {
  if (!boolStr.has(m) && !numStr.has(m) && !strStr.has(m) && !arrStr.has(m))
    return null
  return N(`String.${m}`, (I, t, args, node) => mapAlts(t, (s) => {
    if (m === 'toString' || m === 'valueOf')
      return s
    if (m === 'concat')
      return args.reduce((acc, a) => I.concat(acc, I.toStr(a, node)), s)
    if (args.some(a => a.t === 'union') && args.every(a => a.t === 'union' || true)) {
      const i = args.findIndex(a => a.t === 'union')
      return mapAlts(args[i], a => I.call(stringMethod(m), s, args.map((x, j) => (j === i ? a : x)), node))
    }
    // callbacks of replace
    const fnArg = args[1] && (args[1].t === 'fn' || args[1].t === 'native')
    if (fnArg && isConst(s) && (m === 'replace' || m === 'replaceAll') && jsVal(I, args[0]).ok) {
      const found = []
      String(s.v)[m](jsVal(I, args[0]).v, (...xs) => {
        found.push(xs)
        return ''
      })
      let out = C('')
      let pos = 0
      for (const [i, xs] of found.entries()) {
        const at = xs.findLast(x => typeof x === 'number')
        const cbArgs = xs.filter(x => x === undefined || typeof x !== 'object').map(C)
        const r = I.withCtx(`#${i}`, () => callCb(I, args[1], cbArgs, node))
        if (!I.st)
          return BOT
        out = I.concat(I.concat(out, C(s.v.slice(pos, at))), I.toStr(r, node))
        pos = at + xs[0].length
      }
      return I.concat(out, C(s.v.slice(pos)))
    }
    const js = args.map(a => jsVal(I, a))
    const sv = isConst(s) ? { ok: true, v: s.v } : { ok: false }
    if (sv.ok && js.every(j => j.ok)) {
      let r
      try {
        r = String(sv.v)[m](...js.map(j => j.v))
      }
      catch (e) {
        return I.throwError(e.name, e.message, node)
      }
      if (m === 'matchAll')
        return newArray(I, [...r].map((x, i) => matchResult(I, x, node, i)), node, 'matchAll')
      if (m === 'match' && r && !js[0].v.global)
        return matchResult(I, r, node, 0)
      if (Array.isArray(r))
        return newArray(I, r.map(C), node, m)
      return C(r)
    }
    if (fnArg) {
      const piece = op('match', [s, ...args.slice(0, 1).map(a => reKey(I, a))], str)
      let out = UNDEF
      starEach(I, () => {
        out = callCb(I, args[1], [piece, piece, piece, piece], node)
      }, node)
      return op(`str.${m}`, [s, reKey(I, args[0]), out], str)
    }
    const kargs = args.map(a => reKey(I, a))
    if (s.t === 'op' && s.op === 'concat' && isConst(args[0] ?? UNDEF) && typeof args[0]?.v === 'string') {
      const first = s.args[0]
      const last = s.args.at(-1)
      if (m === 'startsWith' && isConst(first) && first.v.length >= args[0].v.length)
        return bool(first.v.startsWith(args[0].v))
      if (m === 'startsWith' && isConst(first) && typeof first.v === 'string' && !String(args[0].v).startsWith(first.v))
        return FALSE
      if (m === 'indexOf' && isConst(first) && args.length === 1 && first.v.includes(args[0].v))
        return C(first.v.indexOf(args[0].v))
      if (m === 'endsWith' && isConst(last) && last.v.length >= args[0].v.length)
        return bool(last.v.endsWith(args[0].v))
      if (m === 'includes' && s.args.some(a => isConst(a) && a.v.includes(args[0].v)))
        return TRUE
      if (m === 'lastIndexOf' && isConst(args[1] ?? UNDEF) && args[1]?.v === 0) {
        const r = I.call(stringMethod('startsWith'), s, [args[0]], node)
        if (isConst(r))
          return C(r.v ? 0 : -1)
      }
      // the text in front of the first separator
      if (m === 'split' && args[0].v !== '') {
        const to = op('str.indexOf', [s, args[0]], num)
        if (s.args.some(a => isConst(a) && a.v.includes(args[0].v))) {
          const before = I.call(stringMethod('slice'), s, [C(0), to], node)
          return newArray(I, [before], node, m, op(`str.${m}.piece`, [s, ...kargs], str))
        }
      }
    }
    // characters of a known beginning
    if (s.t === 'op' && s.op === 'concat' && isConst(s.args[0]) && args.length === 1 && isConst(args[0]) && Number.isInteger(args[0].v) && args[0].v >= 0) {
      const head = String(s.args[0].v)
      const i = args[0].v
      if (['charAt', 'at', 'charCodeAt', 'codePointAt'].includes(m) && i < head.length)
        return C(head[m](i))
      if ((m === 'slice' || m === 'substring') && i <= head.length)
        return s.args.slice(1).reduce((acc, x) => I.concat(acc, x), C(head.slice(i)))
    }
    // a piece cut out of a text of known beginning
    if ((m === 'slice' || m === 'substring') && s.t === 'op' && s.op === 'concat' && isConst(s.args[0]) && isConst(args[0] ?? UNDEF) && args[0].v >= 0 && args[1]) {
      const head = s.args[0].v
      const to = args[1]
      if (isConst(to) && to.v >= args[0].v && to.v <= head.length)
        return C(head.slice(args[0].v, to.v))
      if (to.t === 'op' && to.op === 'str.indexOf' && to.args[0].k === s.k && isConst(to.args[1]) && args[0].v <= head.length && to.args.length === 2 && s.args.slice(1).some(x => isConst(x) && x.v.includes(to.args[1].v))) {
        // up to the first separator, which is known to be there
        const parts = [C(head.slice(args[0].v))]
        for (const x of s.args.slice(1)) {
          if (isConst(x) && x.v.includes(to.args[1].v)) {
            parts.push(C(x.v.slice(0, x.v.indexOf(to.args[1].v))))
            break
          }
          parts.push(x)
        }
        const w = parts.filter(x => !(isConst(x) && x.v === ''))
        return op('before', [w.length === 1 ? w[0] : op('concat', w, str), to.args[1]], str)
      }
    }
    if (boolStr.has(m))
      return op(`str.${m}`, [s, ...kargs], boolean)
    if (numStr.has(m))
      return op(`str.${m}`, [s, ...kargs], num)
    if (m === 'trim' && s.t === 'op' && (s.op === 'str.trim' || s.op === 'json'))
      return s
    if (strStr.has(m))
      return op(`str.${m}`, [s, ...kargs], m === 'at' ? { type: undefined } : str)
    const piece = op(`str.${m}.piece`, [s, ...kargs], str)
    if (m === 'match') {
      const res = I.alloc(rec('array', { items: [piece], star: union([piece, UNDEF]), props: new Map([['index', { v: op('str.match.index', [s, ...kargs], num) }], ['groups', { v: sym(`groups(${s.k})`, {}) }], ['input', { v: s }]]) }), tagOf('match', node))
      const key = `t:${op('hasmatch', [s, ...kargs], boolean).k}`
      return union([{ alt: { v: res, g: new Map([[key, true]]) } }, { alt: { v: NULL, g: new Map([[key, false]]) } }])
    }
    return newArray(I, [], node, m, piece)
  }))
}
const reKey = (I, a) => {
  const r = I.rec(a)
  if (r?.kind === 'regexp')
    return op('re', [r.x.source, r.x.flags])
  return a.t === 'fn' ? C('fn') : a
}
/** one step of a constant pattern on a constant text, keeping lastIndex; undefined if not constant */
const reStep = (I, t, a) => {
  const j = jsVal(I, t)
  const last = hid(I, t, 'lastIndex')
  if (!j.ok || !isConst(a) || !isConst(last))
    return undefined
  j.v.lastIndex = last.v ?? 0
  const m = j.v.exec(String(a.v))
  if (j.v.global || j.v.sticky)
    setHidden(I, t, 'lastIndex', C(j.v.lastIndex))
  return m
}
const matchResult = (I, x, node, i) => {
  const props = new Map([['index', { v: C(x.index) }], ['input', { v: C(x.input) }], ['groups', { v: x.groups ? I.fromJS({ ...x.groups }, `${tagOf('mrg', node)}.${i}`) : UNDEF }]])
  return I.alloc(rec('array', { items: [...x].map(C), props }), `${tagOf('mr', node)}.${i}`)
}

// ------------------------------------------------------------------ property access
/** members the platform has and the model has not: nothing is known about them */
const HOST = { array: Array, map: Map, set: Set, promise: Promise, headers: Headers, formdata: FormData, stream: ReadableStream, wstream: WritableStream, error: Error, response: Response, regexp: RegExp, date: Date, url: URL, blob: Blob, reader: ReadableStreamDefaultReader, writer: WritableStreamDefaultWriter, string: String, number: Number, boolean: Boolean, fn: Function, object: Object }
const unmodelled = (I, host, name, node, what) => {
  if (!host || name === 'constructor' || !(Object.hasOwn(host, name) || (name === '@@iterator' && host[Symbol.iterator]) || (name === '@@asyncIterator' && host[Symbol.asyncIterator])))
    return null
  I.noteOpaque(`${what}.${name}`, node)
  return sym(`${what}.${name}@${I.ctx}`, { opaque: true })
}
const unmodelledOf = (I, kind, name, node) => unmodelled(I, HOST[kind]?.prototype, name, node, kind)
const symMethodNames = new Set(Object.keys(symArrayMethods))
const methodCache = new Map()
const kindMethod = (kind, key) => {
  const ck = `${kind}.${key}`
  if (methodCache.has(ck))
    return methodCache.get(ck)
  const f = kinds[kind]?.[key]
  const m = f ? N(ck, (I, t, args, node) => mapThis(I, t, kind, f, args, node)) : null
  methodCache.set(ck, m)
  return m
}
const mapThis = (I, t, kind, f, args, node) => {
  if (t.t === 'ref')
    return f(I, t, args, node)
  if (t.t === 'union')
    return I.forEachAlt(t, x => mapThis(I, x, kind, f, args, node))
  I.noteOpaque(`method of ${kind} on ${t.t}`, node)
  return sym(`m(${kind})@${I.ctx}`, { opaque: true })
}

const nget = (I, v, key, node) => {
  if (key.t === 'union')
    return mapAlts(key, k => nget(I, v, k, node))
  if (!isConst(key)) {
    if (v.t === 'ref') {
      const r = I.st.get(v.id)
      if (r.kind === 'array')
        return indexArr(I, v, key, false, node)
      const vs = [...r.props].filter(([, e]) => !e.hidden).map(([, e]) => e.v)
      if (r.star)
        vs.push(r.star)
      if (r.rest?.length)
        return sym(`${r.rest[0].id}[${key.k}]`, { prov: r.rest.map(s => s.id) })
      return union([...vs, UNDEF])
    }
    if (v.t === 'sym')
      return v.meta?.elem ? union([v.meta.elem, UNDEF]) : sym(`${v.id}[${key.k}]`, v.meta?.elemMeta ?? {})
    return op('index', [v, key])
  }
  const k = key.v
  if (v.t === 'const') {
    if (typeof v.v === 'string') {
      if (k === 'length')
        return C(v.v.length)
      if (typeof k === 'number' || /^\d+$/.test(String(k)))
        return C(v.v[k])
      return stringMethod(String(k)) ?? unmodelledOf(I, 'string', String(k), node) ?? UNDEF
    }
    if (typeof v.v === 'number') {
      if (['toFixed', 'toString', 'toPrecision'].includes(k))
        return N(`Number.${k}`, (I2, t, args) => (args.every(isConst) && isConst(t) ? C(t.v[k](...args.map(a => a.v))) : op('numstr', [t], str)))
      return unmodelledOf(I, 'number', String(k), node) ?? UNDEF
    }
    if (typeof v.v === 'boolean')
      return k === 'toString' ? N('Boolean.toString', (I2, t) => C(String(t.v))) : UNDEF
    return UNDEF
  }
  if (v.t === 'fn' || v.t === 'native')
    return fnProp(I, v, String(k), node)
  if (v.t === 'op' || v.t === 'sym') {
    const t = I.typeOf(v)
    if (t === 'string') {
      if (k === 'length')
        return op('length', [v], num)
      if (typeof k === 'number' || /^\d+$/.test(String(k)))
        return op('charAt', [v, key], {})
      return stringMethod(String(k)) ?? unmodelledOf(I, 'string', String(k), node) ?? UNDEF
    }
    if (v.t === 'sym') {
      const own = v.meta?.props && Object.hasOwn(v.meta.props, k)
      const isArr = v.meta?.isArray || v.meta?.elem
      if (!own && isArr) {
        if (k === 'length')
          return op('length', [v], { ...num, minLen: v.meta?.minLen ?? 0 })
        if (typeof k === 'number' || /^\d+$/.test(String(k)))
          return v.meta?.elem ? ((v.meta.minLen ?? 0) > Number(k) ? v.meta.elem : union([v.meta.elem, UNDEF])) : sym(`${v.id}[${k}]`, v.meta?.elemMeta ?? {})
        if (symMethodNames.has(k))
          return N(`symArray.${k}`, (I2, t2, args, n2) => symArrayMethods[k](I2, t2, args, n2))
      }
      if (!own && !isArr && (I.nullAlt(v) === '?' || !v.meta?.closed)) {
        if (symMethodNames.has(k) || boolStr.has(k) || strStr.has(k) || numStr.has(k) || arrStr.has(k)) {
          return N(`symAny.${k}.${v.id}`, (I2, t2, args, n2) => {
            if (k === 'toString')
              return I2.toStr(t2, n2)
            const sm = stringMethod(k)
            if (sm && (!symMethodNames.has(k) || args.every(a => a.t !== 'fn' && a.t !== 'native')) && !(k in A && k !== 'slice' && k !== 'at' && k !== 'includes' && k !== 'indexOf'))
              return I2.call(sm, t2, args, n2)
            if (symMethodNames.has(k))
              return symArrayMethods[k](I2, t2, args, n2)
            return sym(`ret(${t2.k}.${k})@${I2.ctx}`, { opaque: true })
          })
        }
      }
      return I.symProp(v, String(k))
    }
    if (k === 'toString')
      return N('op.toString', (I2, t2, args, n2) => I2.toStr(t2, n2))
    if (k === 'length')
      return op('length', [v], num)
    return stringMethod(String(k)) && !v.meta?.type ? stringMethod(String(k)) : op('prop', [v, key])
  }
  // heap objects
  const r = I.st.get(v.id)
  const name = String(k)
  if (r.kind === 'array') {
    if (k === 'length')
      return lengthOf(I, v)
    if (/^\d+$/.test(name))
      return indexArr(I, v, C(Number(name)), false, node)
  }
  const e = r.props.get(name)
  if (e && !e.hidden) {
    if (e.getter)
      return I.call(e.getter, v, [], node)
    if (e.may && r.cls?.t === 'fn') {
      const m = I.classMethod(r.cls, name)
      if (m)
        return union([e.v, m])
    }
    return I.readRec(r, name)
  }
  if (r.cls?.t === 'fn') {
    const m = I.classMethod(r.cls, name)
    if (m)
      return m
    const g = I.classMethod(r.cls, `get ${name}`)
    if (g)
      return I.call(g, v, [], node)
  }
  const spec = kindProps[r.kind]?.[name]
  if (spec)
    return spec(I, v, node)
  const km = kindMethod(r.kind, name)
  if (km)
    return km
  if (name === '@@iterator' && ['array', 'set', 'map'].includes(r.kind)) {
    return N('iterator', (I2, t, args, n2) => {
      const it = I2.iterate(t, n2)
      return I2.alloc(rec('iterator', { items: it.items, star: it.star ?? it.unknown ?? null }), tagOf('it', n2))
    })
  }
  if (r.kind === 'iterator') {
    if (name === '@@iterator')
      return N('iterator', () => v)
    I.noteOpaque(`iterator.${name}`, node)
    return sym(`iterator.${name}@${I.ctx}`, { opaque: true })
  }
  if (r.kind !== 'object') {
    const x = unmodelledOf(I, r.kind, name, node)
    if (x)
      return x
  }
  if (r.rest?.length && name !== 'hasOwnProperty')
    return I.readRec(r, name)
  const om = kindMethod('object', name)
  if (om)
    return om
  if (r.star && r.kind === 'object')
    return union([UNDEF, r.star])
  if (name === 'constructor')
    return r.cls ?? I.globals.get('Object')
  return (name.startsWith('__') ? null : unmodelledOf(I, 'object', name, node)) ?? UNDEF
}

const fnProp = (I, f, k, node) => {
  if (f.t === 'fn' && f.isClass) {
    for (let c = f; c; c = c.superV) {
      if (c.t !== 'fn')
        break
      if (c.statics?.has(k))
        return c.statics.get(k)
      if (c.statics?.has(`get ${k}`))
        return I.call(c.statics.get(`get ${k}`), f, [], node)
    }
    if (k === 'prototype')
      return sym(`${f.k}.prototype`, { nonNull: true })
  }
  if (f.t === 'native' && f.statics) {
    if (Object.hasOwn(f.statics, k) && f.statics[k])
      return f.statics[k]
  }
  if (f.t === 'native' && typeof globalThis[f.name] === 'function' && !['name', 'length', 'prototype'].includes(k)) {
    const x = unmodelled(I, globalThis[f.name], k, node, f.name)
    if (x)
      return x
  }
  switch (k) {
    case 'call': return N(`call`, (I2, t, args, n2) => I2.call(t, args[0] ?? UNDEF, args.slice(1), n2))
    case 'apply': return N(`apply`, (I2, t, args, n2) => {
      const it = args[1] && !isNullish(args[1]) ? I2.iterate(args[1], n2) : { items: [] }
      return I2.call(t, args[0] ?? UNDEF, [...it.items, ...(it.star ? [{ ...it.star, spreadStar: it.star }] : [])], n2)
    })
    case 'bind': return N(`bind`, (I2, t, args) => mapAlts(t, x => ({ ...x, bound: args[0] ?? UNDEF, preArgs: [...(x.preArgs ?? []), ...args.slice(1)], k: `bind(${x.k},${args.map(a => a.k)})` })))
    case 'name': return C(f.name ?? '')
    case 'length': {
      if (f.t !== 'fn' || f.isClass) {
        I.noteOpaque('length of a function', node)
        return sym(`${f.k}.length`, num)
      }
      const ps = f.node.parameters.filter(p => p.name.text !== 'this')
      const n = ps.findIndex(p => p.initializer || p.dotDotDotToken)
      return C(Math.max(0, (n < 0 ? ps.length : n) - (f.preArgs?.length ?? 0)))
    }
    case 'toString': return N('fn.toString', () => sym('fnsrc', str))
    default: return unmodelledOf(I, 'fn', k, node) ?? UNDEF
  }
}

const nset = (I, o, key, v, node) => {
  const r = I.st.get(o.id)
  if (r.caller)
    I.emit('mutate', { target: r.caller, prop: key, key: `${o.id}.${key.k}`, value: v }, node)
  if (r.x.frozen) {
    return I.throwError('TypeError', 'Cannot assign to read only property', node)
  }
  if (key.t === 'native')
    key = C(key.name)
  if (r.kind === 'regexp' && isConst(key) && key.v === 'lastIndex') {
    setHidden(I, o, 'lastIndex', v)
    return
  }
  if (key.t === 'union') {
    for (const a of key.alts) I.putWeak(o, a.v, v, node)
    return
  }
  if (r.kind === 'array') {
    if (isConst(key) && /^\d+$/.test(String(key.v))) {
      const i = Number(key.v)
      if (r.star && i >= r.items.length) {
        I.st.set(o.id, { ...r, star: union([r.star, v]) })
        return
      }
      const items = [...r.items]
      while (items.length < i) items.push(UNDEF)
      items[i] = v
      I.st.set(o.id, { ...r, items })
      return
    }
    if (isConst(key) && key.v === 'length') {
      if (isConst(v) && v.v <= r.items.length)
        I.st.set(o.id, { ...r, items: r.items.slice(0, v.v), star: null })
      return
    }
    if (!isConst(key)) {
      I.st.set(o.id, { ...r, items: r.items.map(x => union([x, v])), star: union([...(r.star ? [r.star] : []), v, ...(key.t === 'sym' && key.k.startsWith('s:num@') ? [] : [UNDEF])]) })
      return
    }
  }
  if (!isConst(key)) {
    const props = new Map()
    for (const [k, e] of r.props) props.set(k, e.hidden ? e : { ...e, v: union([e.v, v]) })
    I.st.set(o.id, { ...r, props, star: r.star ? union([r.star, v]) : v, x: { ...r.x, dynKey: key } })
    return
  }
  const name = String(key.v)
  if (r.kind === 'url' && URL_PARTS.has(name)) {
    if (name !== 'origin' && name !== 'searchParams')
      each(I, [mapAlts(v, x => I.toStr(x, node))], [], as => urlStep(I, o, `${name}=`, as, (u, [x]) => { u[name] = x }))
    return
  }
  const props = new Map(r.props)
  const old = props.get(name)
  if (old?.getter)
    return I.throwError('TypeError', `Cannot set property ${name} which has only a getter`, node)
  props.set(name, { v, may: false, ...(r.kind === 'error' && !['message', 'stack'].includes(name) ? { own: true } : {}) })
  I.st.set(o.id, { ...r, props })
}
const ndel = (I, o, key, node) => {
  if (o.t !== 'ref') {
    if (o.t === 'sym')
      I.emit('mutate-sym', { target: o, prop: key, key: `${o.k}.${key.k}` }, node)
    return
  }
  const r = I.st.get(o.id)
  if (r.caller)
    I.emit('mutate', { target: r.caller, prop: key, key: `${o.id}.del.${key.k}` }, node)
  const props = new Map(r.props)
  if (isConst(key)) {
    props.delete(String(key.v))
    const rest = r.rest?.map(s => sym(`${s.id}\\${key.v}`, { ...s.meta, restOf: s.meta?.restOf ?? s, taken: [...(s.meta?.taken ?? []), String(key.v)] }))
    I.st.set(o.id, { ...r, props, rest: rest ?? null })
  }
  else {
    for (const [k, e] of props) props.set(k, { ...e, may: true })
    I.st.set(o.id, { ...r, props })
  }
}

// ------------------------------------------------------------------ streams
const ST = {
  OPEN: C('open'),
  CLOSED: C('closed'),
  ERR: C('errored'),
  CANCELLED: C('cancelled'),
}
export const newStream = (I, tag, init = {}) => {
  const r = I.alloc(rec('stream', { items: init.items ?? [], star: init.star ?? null, x: { src: init.src ?? 'ext', ...(init.x ?? {}) } }), tag)
  setHidden(I, r, '#ctrl', init.ctrl ?? ST.OPEN)
  setHidden(I, r, '#err', init.err ?? UNDEF)
  setHidden(I, r, '#locked', FALSE)
  setHidden(I, r, '#pos', C(0))
  return r
}
const lock = (I, s, node) => {
  const l = hid(I, s, '#locked')
  if (isConst(l) && l.v === true) {
    I.throwError('TypeError', 'ReadableStream is locked', node)
    return
  }
  setHidden(I, s, '#locked', TRUE)
}
/** run f per possible control state of stream s */
const byCtrl = (I, s, f) => I.forEachAlt(hid(I, s, '#ctrl'), (c) => {
  setHidden(I, s, '#ctrl', c)
  return f(c.v)
})
export const enqueue = (I, s, v, node) => byCtrl(I, s, (c) => {
  if (c !== 'open')
    return I.throwError('TypeError', `Invalid state: Controller is already ${c}`, node)
  put(I, s.id, r => (r.star ? { ...r, star: union([r.star, v]) } : { ...r, items: [...r.items, v] }))
  const t = tree(I, v)
  I.emit('enqueue', { stream: s.id, value: v, tree: t, key: `${s.id}|${treeKey(t)}` }, node)
  logEvent(I, `enqueue:${s.id}`, t)
  return UNDEF
})
export const logEvent = (I, label, t) => {
  if (!I.st)
    return
  I.log({ t: 'op', op: 'log', args: [C(label)], tree: t, meta: {}, k: `log:${label}:${treeKey(t)}` })
}
const ctrlClose = (I, s, node) => byCtrl(I, s, (c) => {
  if (c !== 'open')
    return I.throwError('TypeError', 'Invalid state: Controller is already closed', node)
  setHidden(I, s, '#ctrl', ST.CLOSED)
  logEvent(I, `close:${s.id}`, { kind: 'const' })
  return UNDEF
})
const ctrlError = (I, s, e, node) => byCtrl(I, s, (c) => {
  if (c === 'open') {
    setHidden(I, s, '#ctrl', ST.ERR)
    setHidden(I, s, '#err', e)
    logEvent(I, `error:${s.id}`, tree(I, e))
  }
  void node
  return UNDEF
})
export const cancelStream = (I, s, reason, node) => {
  const r = I.st?.get(s.id)
  if (!r)
    return UNDEF
  switch (r.x.src) {
    case 'ctrl':
      return byCtrl(I, s, (c) => {
        if (c === 'errored')
          return I.rejectedPromise(hid(I, s, '#err'), tagOf('cancel', node))
        if (c !== 'open')
          return UNDEF
        setHidden(I, s, '#ctrl', ST.CANCELLED)
        put(I, s.id, q => ({ ...q, items: [], star: null }))
        const f = r.x.underlying ? I.getProp(r.x.underlying, C('cancel'), node) : UNDEF
        if (f.t === 'fn' || f.t === 'native') {
          const v = I.call(f, r.x.underlying, [reason], node)
          return I.st ? I.awaitValue(v, node) : BOT
        }
        return UNDEF
      })
    case 'pipe': {
      setHidden(I, s, '#ctrl', ST.CANCELLED)
      const t = r.x.transformer
      if (t && I.kindOf(t) === 'object') {
        const f = I.getProp(t, C('cancel'), node)
        if (f.t === 'fn')
          I.call(f, t, [reason], node)
      }
      return r.x.up ? cancelStream(I, r.x.up, reason, node) : UNDEF
    }
    case 'tee': {
      setHidden(I, s, '#ctrl', ST.CANCELLED)
      const other = r.x.sibling
      if (other && isConst(hid(I, other, '#ctrl')) && hid(I, other, '#ctrl').v === 'cancelled')
        return cancelStream(I, r.x.up, reason, node)
      return UNDEF
    }
    default:
      setHidden(I, s, '#ctrl', ST.CANCELLED)
      I.emit('cancel-source', { stream: s.id, key: s.id }, node)
      return UNDEF
  }
}

/** push every item of s into the sink, then its end; leaves this.st null (the sink keeps the final states) */
export const pump = (I, s, sink, node) => {
  if (!I.st)
    return
  const r = I.st.get(s.id)
  const run = (items, star, each) => {
    items.forEach((x, i) => {
      if (I.st)
        I.withCtx(`i${i}`, () => each(x))
    })
    if (star && I.st)
      I.fixLoop(`st:${s.id.length > 60 ? s.id.slice(-60) : s.id}`, () => each(star), node)
  }
  const finish = (kind) => {
    if (!I.st)
      return
    switch (kind) {
      case 'closed':
      case 'cancelled':
        sink.close()
        break
      case 'errored':
        sink.error(hid(I, s, '#err'))
        break
      case 'open':
        I.noteHang(s)
        I.emit('stream-hang', { stream: s.id, key: s.id }, node)
        sink.hang?.()
        I.st = null
        break
      default:
        I.noteOpaque(`stream end ${kind}`, node)
        I.st = null
    }
  }
  const finishAll = () => {
    const st0 = I.st
    if (!st0)
      return
    for (const a of alts(hid(I, s, '#ctrl'))) {
      I.st = st0.clone()
      if (a.g && !I.assertGuards(I.st, [a]))
        continue
      setHidden(I, s, '#ctrl', a.v)
      finish(a.v.v)
    }
    I.st = null
  }
  switch (r.x.src) {
    case 'ext': {
      run(r.items, r.star, sink.item)
      finishAll()
      return
    }
    case 'ctrl': {
      const pulled = r.x.underlying ? I.getProp(r.x.underlying, C('pull'), node) : UNDEF
      const done = { n: r.items.length }
      run(r.items, r.star, sink.item)
      if (!I.st)
        return
      if (pulled.t === 'fn' || pulled.t === 'native') {
        let n = done.n
        let guard = 0
        // the ways in which the source has ended; goes on where it is open
        const split = (ended) => {
          const st0 = I.st
          const open = []
          for (const a of alts(hid(I, s, '#ctrl'))) {
            I.st = st0.clone()
            if (a.g && !I.assertGuards(I.st, [a]))
              continue
            setHidden(I, s, '#ctrl', a.v)
            if (isConst(a.v) && a.v.v === 'open')
              open.push({ st: I.st, v: UNDEF })
            else ended(a.v)
          }
          I.st = I.joinList(open)?.st ?? null
        }
        const pull = () => {
          const cap = I.capture(() => I.awaitValue(I.call(pulled, r.x.underlying, [r.x.controller], node), node))
          for (const t of cap.throws) {
            const keep = I.st
            I.st = t.st
            sink.error(t.v)
            I.st = keep
          }
        }
        while (I.st && guard++ <= I.unrollLimit) {
          split(v => finish(v.v))
          if (!I.st)
            return
          I.withCtx(`pull${guard}`, pull)
          if (!I.st)
            return
          const q = I.st.get(s.id)
          const fresh = q.items.slice(n)
          n = q.items.length
          run(fresh, q.star, sink.item)
        }
        if (!I.st)
          return
        // any further number of pulls
        let exits = []
        I.fixLoop(`pull:${s.id.slice(-40)}`, () => {
          exits = []
          split(v => exits.push({ st: I.st, v: UNDEF, kind: v.v }))
          if (!I.st)
            return
          put(I, s.id, x => ({ ...x, items: [], star: null }))
          pull()
          if (!I.st)
            return
          const q = I.st.get(s.id)
          run(q.items, q.star, sink.item)
        }, node, 0)
        if (!I.st)
          return
        exits = []
        split(v => exits.push({ st: I.st, kind: v.v }))
        for (const e of exits) {
          I.st = e.st
          finish(e.kind)
        }
        // a source that never ends
        if (exits.length === 0 && I.st)
          finish('open')
        I.st = null
        return
      }
      finishAll()
      return
    }
    case 'tee': {
      const m = materialise(I, r.x.up, node)
      if (!I.st)
        return
      pumpMat(I, m, sink, node)
      return
    }
    case 'pipe': {
      const { up, transformer, flavour, ctl } = r.x
      if (!up) {
        // nobody writes to it: it delivers nothing and never ends
        if (r.x.written)
          I.noteOpaque('transform stream fed by a writer', node)
        return finish('open')
      }
      const sub = {
        item: (v) => {
          if (flavour) {
            flavour.item(I, v, sink, node)
            return
          }
          if (!transformer || isNullish(transformer)) {
            sink.item(v)
            return
          }
          const prev = I.activeSinks.get(ctl.id)
          I.activeSinks.set(ctl.id, sink)
          const f = I.getProp(transformer, C('transform'), node)
          if (isUndef(f)) {
            I.activeSinks.set(ctl.id, prev)
            sink.item(v)
            return
          }
          const cap = I.capture(() => {
            const p = I.call(f, transformer, [v, ctl], node)
            return I.st ? I.awaitValue(p, node) : BOT
          })
          endTransform(I, ctl, cap, sink, up, node)
          I.activeSinks.set(ctl.id, prev)
        },
        close: () => {
          if (flavour) {
            flavour.flush?.(I, sink, node)
            if (I.st)
              sink.close()
            return
          }
          if (!transformer || isNullish(transformer)) {
            sink.close()
            return
          }
          const prev = I.activeSinks.get(ctl.id)
          I.activeSinks.set(ctl.id, sink)
          const f = I.getProp(transformer, C('flush'), node)
          if (!isUndef(f)) {
            const cap = I.capture(() => {
              const p = I.call(f, transformer, [ctl], node)
              return I.st ? I.awaitValue(p, node) : BOT
            })
            endTransform(I, ctl, cap, sink, null, node)
          }
          I.activeSinks.set(ctl.id, prev)
          if (I.st)
            sink.close()
        },
        error: e => sink.error(e),
        hang: () => sink.hang?.(),
      }
      // values enqueued while the stream was being constructed
      run(r.items, r.star, sink.item)
      if (I.st)
        pump(I, up, sub, node)
      return
    }
    default:
      I.noteOpaque(`stream source ${r.x.src}`, node)
      I.st = null
  }
}
const endTransform = (I, ctl, cap, sink, up, node) => {
  const ok = I.st
  for (const t of cap.throws) {
    I.st = t.st
    if (up)
      cancelStream(I, up, t.v, node)
    if (I.st)
      sink.error(t.v)
  }
  I.st = ok
  if (!I.st)
    return
  const st0 = I.st
  const outs = []
  for (const a of alts(hid(I, ctl, '#end'))) {
    I.st = st0.clone()
    if (a.g && !I.assertGuards(I.st, [a]))
      continue
    if (isUndef(a.v)) {
      outs.push({ st: I.st, v: UNDEF })
    }
    else if (a.v.v === 'errored') {
      if (up)
        cancelStream(I, up, hid(I, ctl, '#err'), node)
      if (I.st)
        sink.error(hid(I, ctl, '#err'))
    }
    else {
      if (up)
        cancelStream(I, up, UNDEF, node)
      if (I.st)
        sink.close()
    }
  }
  I.st = I.joinList(outs)?.st ?? null
}

/** run a stream to its end into a buffer record; returns the buffer */
export const materialise = (I, s, node) => {
  const r = I.st.get(s.id)
  if (r.x.mat)
    return r.x.mat
  const m = I.alloc(rec('array', { items: [] }), `mat:${s.id}`)
  const outs = []
  const end = (kind, e) => {
    setHidden(I, m, '#end', C(kind))
    setHidden(I, m, '#err', e ?? UNDEF)
    outs.push({ st: I.st, v: UNDEF })
    I.st = null
  }
  pump(I, s, { item: v => I.arrPush(m, v), close: () => end('closed'), error: e => end('errored', e), hang: () => end('open') }, node)
  I.st = I.joinList(outs)?.st ?? null
  if (I.st)
    put(I, s.id, x => ({ ...x, x: { ...x.x, mat: m } }))
  return m
}
const pumpMat = (I, m, sink, node) => {
  const r = I.st.get(m.id)
  r.items.forEach((x, i) => {
    if (I.st)
      I.withCtx(`m${i}`, () => sink.item(x))
  })
  if (r.star && I.st)
    I.fixLoop(`ms:${m.id.slice(-40)}`, () => sink.item(r.star), node)
  if (!I.st)
    return
  const st0 = I.st
  for (const a of alts(hid(I, m, '#end'))) {
    I.st = st0.clone()
    if (a.g && !I.assertGuards(I.st, [a]))
      continue
    if (a.v.v === 'closed') {
      sink.close()
    }
    else if (a.v.v === 'errored') {
      sink.error(hid(I, m, '#err'))
    }
    else {
      sink.hang?.()
      I.st = null
    }
  }
  I.st = null
}
const readOnce = (I, s, node) => {
  const m = materialise(I, s, node)
  if (!I.st)
    return BOT
  const r = I.st.get(m.id)
  const pos = hid(I, s, '#pos')
  const result = (done, v, tag) => I.alloc(rec('object', { props: new Map([['done', { v: done }], ['value', { v }]]) }), `${tagOf('rd', node)}${tag}`)
  if (isConst(pos) && pos.v < r.items.length) {
    setHidden(I, s, '#pos', C(pos.v + 1))
    return I.resolvedPromise(result(FALSE, r.items[pos.v], 'i'), tagOf('rdp', node))
  }
  const endP = (g) => {
    const outs = []
    for (const a of alts(hid(I, m, '#end'))) {
      if (a.v.v === 'closed')
        outs.push(I.resolvedPromise(result(TRUE, UNDEF, 'd'), tagOf('rdc', node)))
      else if (a.v.v === 'errored')
        outs.push(I.rejectedPromise(hid(I, m, '#err'), tagOf('rde', node)))
      else outs.push(I.alloc(rec('promise', { x: { okV: null, errV: null, pend: true } }), tagOf('rdh', node)))
    }
    void g
    return union(outs)
  }
  const star = isConst(pos) ? r.star : union([...r.items, ...(r.star ? [r.star] : [])])
  if (!star || star.t === 'bot')
    return endP()
  return union([I.resolvedPromise(result(FALSE, star, 's'), tagOf('rds', node)), endP()])
}

// transform flavours of platform / dependency streams: token-wise
const flavours = {
  decode: { item: (I, v, sink) => sink.item(mapAlts(v, a => (a.t === 'op' && a.op === 'bytes' ? a.args[0] : op('decode', [a], str)))) },
  sse: {
    item: (I, v, sink, node) => {
      I.forEachAlt(v, (a) => {
        if (a.t === 'op' && a.op === 'sse')
          sink.item(I.alloc(rec('object', { props: new Map([['data', { v: a.args[0] }], ['event', { v: a.args[1] ?? UNDEF }], ['id', { v: UNDEF }]]) }), tagOf('msg', node)))
        else if (a.t === 'const' && a.v === '')
          return UNDEF
        else sink.item(I.alloc(rec('object', { props: new Map([['data', { v: op('ssedata', [a], str) }], ['event', { v: UNDEF }], ['id', { v: UNDEF }]]) }), tagOf('msg', node)))
        return UNDEF
      })
    },
  },
}

const mkTransform = (I, transformer, node, flavour) => {
  const ctl = I.alloc(rec('tcontroller'), tagOf('tctl', node))
  setHidden(I, ctl, '#end', UNDEF)
  setHidden(I, ctl, '#err', UNDEF)
  const readable = newStream(I, tagOf('tread', node), { src: 'pipe', x: { up: null, transformer, flavour, ctl } })
  const writable = I.alloc(rec('wstream', { x: { to: readable } }), tagOf('twrite', node))
  put(I, ctl.id, r => ({ ...r, x: { readable } }))
  const t = I.alloc(rec('tstream', { props: new Map([['readable', { v: readable }], ['writable', { v: writable }]]) }), tagOf('ts', node))
  if (transformer && I.kindOf(transformer) === 'object') {
    const f = I.getProp(transformer, C('start'), node)
    if (f.t === 'fn')
      I.call(f, transformer, [ctl], node)
  }
  return t
}
const connect = (I, up, t, node) => {
  // returns the readable side of t fed by up
  if (t.t !== 'ref') {
    I.noteOpaque('pipeThrough of opaque transform', node)
    return newStream(I, tagOf('opaquepipe', node), { star: sym(`piped@${I.ctx}`, { opaque: true }), ctrl: ST.CLOSED })
  }
  const w = I.getProp(t, C('writable'), node)
  const rd = I.getProp(t, C('readable'), node)
  const wr = I.rec(w)
  if (wr?.x.to) {
    put(I, wr.x.to.id, r => ({ ...r, x: { ...r.x, up } }))
  }
  else if (wr) {
    // a plain writable paired with some readable: run the pipe in the background
    I.asyncRun(() => pipeTo(I, up, w, node), node, 'bgpipe')
  }
  return rd
}
const pipeTo = (I, s, w, node, opts) => {
  const wr = I.rec(w)
  if (!wr) {
    I.noteOpaque('pipeTo opaque sink', node)
    return UNDEF
  }
  if (wr.x.to) {
    // run to completion like every un-awaited call: the readable side buffers what it gets
    put(I, wr.x.to.id, r => ({ ...r, x: { ...r.x, up: s } }))
    const m = materialise(I, wr.x.to, node)
    if (!I.st)
      return BOT
    const st0 = I.st
    const done = []
    for (const a of alts(hid(I, m, '#end'))) {
      I.st = st0.clone()
      if (a.g && !I.assertGuards(I.st, [a]))
        continue
      if (a.v.v === 'closed')
        done.push({ st: I.st, v: UNDEF })
      else if (a.v.v === 'errored')
        I.throwValue(hid(I, m, '#err'))
      else I.noteHang(m, I.st)
    }
    I.st = I.joinList(done)?.st ?? null
    return I.st ? UNDEF : BOT
  }
  const flag = k => (opts && !isNullish(opts) ? isConst(I.getProp(opts, C(k), node)) && I.getProp(opts, C(k), node).v === true : false)
  const sinkObj = wr.x.sink
  const wctl = wr.x.controller
  const m = name => (sinkObj && !isNullish(sinkObj) ? I.getProp(sinkObj, C(name), node) : UNDEF)
  const oks = []
  const errs = []
  const callSink = (name, args) => {
    const f = m(name)
    if (isUndef(f))
      return { throws: [] }
    return I.capture(() => {
      const p = I.call(f, sinkObj, args, node)
      return I.st ? I.awaitValue(p, node) : BOT
    })
  }
  pump(I, s, {
    hang: () => I.noteHang(s, I.st),
    item: (v) => {
      const cap = callSink('write', [v, wctl])
      const ok = I.st
      for (const t of cap.throws) {
        I.st = t.st
        I.emit('sink-throw', { key: '' }, node)
        if (!flag('preventCancel'))
          cancelStream(I, s, t.v, node)
        if (I.st)
          errs.push({ st: I.st, v: t.v })
      }
      I.st = ok
      if (I.st && wctl && !isUndef(hid(I, wctl, '#end'))) {
        const e = hid(I, wctl, '#err')
        cancelStream(I, s, e, node)
        errs.push({ st: I.st, v: e })
        I.st = null
      }
    },
    close: () => {
      if (flag('preventClose')) {
        oks.push({ st: I.st, v: UNDEF })
        I.st = null
        return
      }
      const cap = callSink('close', [])
      errs.push(...cap.throws)
      if (I.st)
        oks.push({ st: I.st, v: UNDEF })
      I.st = null
    },
    error: (e) => {
      if (flag('preventAbort')) {
        errs.push({ st: I.st, v: e })
        I.st = null
        return
      }
      const cap = callSink('abort', [e])
      // the pipe rejects with the source error whatever abort() does
      for (const t of cap.throws) errs.push({ st: t.st, v: t.v })
      if (I.st)
        errs.push({ st: I.st, v: e })
      I.st = null
    },
  }, node)
  const j = I.joinList(errs)
  if (j)
    I.h.onThrow(j.st, j.v)
  const o = I.joinList(oks)
  I.st = o ? o.st : null
  return UNDEF
}

const streamMethods = {
  pipeThrough(I, t, args, node) {
    lock(I, t, node)
    if (!I.st)
      return BOT
    return connect(I, t, args[0], node)
  },
  pipeTo(I, t, args, node) {
    return I.asyncRun(() => {
      lock(I, t, node)
      return I.st ? pipeTo(I, t, args[0], node, args[1]) : BOT
    }, node, 'pipeTo')
  },
  tee(I, t, args, node) {
    lock(I, t, node)
    if (!I.st)
      return BOT
    const a = newStream(I, tagOf('tee0', node), { src: 'tee', x: { up: t } })
    const b = newStream(I, tagOf('tee1', node), { src: 'tee', x: { up: t, sibling: a } })
    put(I, a.id, r => ({ ...r, x: { ...r.x, sibling: b } }))
    return newArray(I, [a, b], node, 'tee')
  },
  getReader(I, t, args, node) {
    lock(I, t, node)
    if (!I.st)
      return BOT
    return I.alloc(rec('reader', { x: { stream: t } }), tagOf('reader', node))
  },
  cancel(I, t, args, node) {
    return I.asyncRun(() => {
      const l = hid(I, t, '#locked')
      if (isConst(l) && l.v === true)
        return I.throwError('TypeError', 'Cannot cancel a locked stream', node)
      return cancelStream(I, t, args[0] ?? UNDEF, node)
    }, node, 'cancelp')
  },
  values(I, t) {
    return t
  },
}

// ------------------------------------------------------------------ kinds
const ctrlOf = (I, t) => I.st.get(t.id).x.stream
const activeSink = (I, t) => I.activeSinks.get(t.id)
const promiseMethods = {
  then(I, t, args, node) {
    return I.promiseThen(t, args[0], args[1], node)
  },
  catch(I, t, args, node) {
    return I.promiseThen(t, undefined, args[0], node)
  },
  finally(I, t, args, node) {
    return I.promiseThen(t, args[0], undefined, node, true)
  },
}
const mapGet = (I, t, k) => {
  const r = I.st.get(t.id)
  const outs = []
  for (const p of r.items) {
    const pr = I.st.get(p.id)
    const eq = I.binary('===', pr.items[0], k)
    if (isConst(eq) && eq.v)
      return pr.items[1]
    if (!isConst(eq))
      outs.push(pr.items[1])
  }
  if (r.star)
    outs.push(...alts(r.star).map(a => I.st.get(a.v.id)?.items?.[1] ?? UNDEF))
  return outs.length ? union([...outs, UNDEF]) : null
}
const headerName = k => (isConst(k) ? C(String(k.v).toLowerCase()) : k)
const pairs = (I, t, node) => {
  const r = I.st.get(t.id)
  const it = [...r.props].filter(([, e]) => e.hdr).map(([k, e]) => ({ v: I.alloc(rec('array', { items: [C(k), e.v] }), `${tagOf('hp', node)}.${k}`), may: e.may }))
  let star = null
  if (r.star)
    star = I.alloc(rec('array', { items: [sym('hdrname', str), r.star] }), `${tagOf('hp', node)}.*`)
  const mays = it.filter(p => p.may)
  if (mays.length)
    star = union([...(star ? [star] : []), ...mays.map(p => p.v)])
  return { items: it.filter(p => !p.may).map(p => p.v), star }
}
const hdrSet = (I, t, k, v, node) => {
  if (I.st.get(t.id).caller)
    I.emit('mutate', { target: I.st.get(t.id).caller, prop: k, key: `${t.id}.${k.k}`, value: v }, node)
  put(I, t.id, (r) => {
    if (!isConst(k))
      return { ...r, star: r.star ? union([r.star, v]) : v }
    const props = new Map(r.props)
    props.set(String(k.v).toLowerCase(), { v: I.toStr(v, node), may: false, hidden: true, hdr: true })
    return { ...r, props }
  })
}
const fillHeaders = (I, h, init, node) => {
  I.forEachAlt(init, (a) => {
    if (isNullish(a))
      return UNDEF
    const r = I.rec(a)
    if (r?.kind === 'headers') {
      for (const [k, e] of r.props) put(I, h.id, x => ({ ...x, props: new Map(x.props).set(k, e) }))
      if (r.star)
        put(I, h.id, x => ({ ...x, star: r.star }))
    }
    else if (r?.kind === 'array') {
      r.items.forEach((p) => {
        const pr = I.rec(p)
        if (pr)
          hdrSet(I, h, pr.items[0], pr.items[1], node)
      })
    }
    else if (r) {
      for (const [k, e] of r.props) {
        hdrSet(I, h, C(k), e.v, node)
        if (e.may)
          put(I, h.id, x => ({ ...x, props: new Map(x.props).set(k.toLowerCase(), { ...x.props.get(k.toLowerCase()), may: true }) }))
      }
      if (r.rest?.length)
        put(I, h.id, x => ({ ...x, rest: r.rest }))
    }
    else if (a.t === 'sym') {
      put(I, h.id, x => ({ ...x, rest: [...(x.rest ?? []), a] }))
    }
    return UNDEF
  })
}
const bodyMethod = (kind, ok) => (I, t, args, node) => {
  const r = I.st.get(t.id)
  I.emit('body-read', { how: kind, response: t.id, key: t.id + kind }, node)
  if (r.x.bodyErr) {
    const e = r.x.bodyErr
    if (!r.x.bodyMay)
      return I.rejectedPromise(e, tagOf('bodyE', node))
    return union([I.rejectedPromise(e, tagOf('bodyE', node)), I.resolvedPromise(ok(I, r, node), tagOf('body', node))])
  }
  return I.resolvedPromise(ok(I, r, node), tagOf('body', node))
}
const kinds = {
  array: A,
  set: {
    add(I, t, args, node) {
      const has = kinds.set.has(I, t, args, node)
      if (!(isConst(has) && has.v))
        I.arrPush(t, args[0])
      return t
    },
    has: (I, t, args) => A.includes(I, t, args),
    delete(I, t, args) {
      const r = I.st.get(t.id)
      I.st.set(t.id, { ...r, items: r.items.filter(x => !(isConst(I.binary('===', x, args[0])) && I.binary('===', x, args[0]).v)) })
      return sym('set.delete', boolean)
    },
    values: (I, t) => t,
    keys: (I, t) => t,
    forEach: A.forEach,
    clear(I, t) {
      I.st.set(t.id, { ...I.st.get(t.id), items: [], star: null })
      return UNDEF
    },
  },
  map: {
    get: (I, t, args) => mapGet(I, t, args[0]) ?? UNDEF,
    has(I, t, args) {
      const v = mapGet(I, t, args[0])
      return v === null ? FALSE : v.t === 'union' ? op('map.has', [t, args[0]], boolean) : TRUE
    },
    set(I, t, args, node) {
      const r = I.st.get(t.id)
      const i = r.items.findIndex((p) => {
        const e = I.binary('===', I.st.get(p.id).items[0], args[0])
        return isConst(e) && e.v
      })
      const pair = I.alloc(rec('array', { items: [args[0], args[1] ?? UNDEF] }), `${tagOf('mapset', node)}.${args[0].k}`)
      if (!isConst(args[0]) && args[0].t !== 'ref')
        I.arrStar(t, pair)
      else if (i >= 0)
        I.st.set(t.id, { ...r, items: r.items.map((p, j) => (j === i ? pair : p)) })
      else I.arrPush(t, pair)
      return t
    },
    delete(I, t, args) {
      const r = I.st.get(t.id)
      I.st.set(t.id, { ...r, items: r.items.filter((p) => {
        const e = I.binary('===', I.st.get(p.id).items[0], args[0])
        return !(isConst(e) && e.v)
      }) })
      return sym('map.delete', boolean)
    },
    entries: (I, t, args, node) => newArray(I, I.st.get(t.id).items, node, 'ments', I.st.get(t.id).star),
    values: (I, t, args, node) => newArray(I, I.st.get(t.id).items.map(p => I.st.get(p.id).items[1]), node, 'mvals', I.st.get(t.id).star ? union(alts(I.st.get(t.id).star).map(a => I.st.get(a.v.id)?.items?.[1] ?? UNDEF)) : null),
    keys: (I, t, args, node) => newArray(I, I.st.get(t.id).items.map(p => I.st.get(p.id).items[0]), node, 'mkeys', I.st.get(t.id).star ? sym('mapkey', {}) : null),
    forEach(I, t, args, node) {
      for (const p of I.st.get(t.id).items) {
        if (I.st)
          callCb(I, args[0], [I.st.get(p.id).items[1], I.st.get(p.id).items[0], t], node)
      }
      return UNDEF
    },
    clear(I, t) {
      I.st.set(t.id, { ...I.st.get(t.id), items: [], star: null })
      return UNDEF
    },
  },
  headers: {
    get(I, t, args) {
      const r = I.st.get(t.id)
      const k = headerName(args[0])
      if (isConst(k)) {
        const e = r.props.get(k.v)
        if (e?.hdr)
          return e.may ? union([e.v, NULL]) : e.v
        if (r.x.dflt)
          return sym(`${r.x.dflt}.get(${k.v})`, { type: undefined })
        return r.rest?.length ? union(r.rest.map(s => sym(`${s.id}.${k.v}`, {}))) : r.star ? union([r.star, NULL]) : NULL
      }
      return union([...[...r.props.values()].filter(e => e.hdr).map(e => e.v), NULL])
    },
    has(I, t, args) {
      const v = kinds.headers.get(I, t, args)
      return isConst(v) ? bool(v.v !== null) : op('nn', [v], boolean)
    },
    set(I, t, args, node) {
      hdrSet(I, t, args[0], args[1], node)
      return UNDEF
    },
    append(I, t, args, node) {
      const old = kinds.headers.get(I, t, args)
      const val = old.t === 'const' && old.v === null ? args[1] : mapAlts(old, o => (isConst(o) && o.v === null ? args[1] : I.concat(I.concat(I.toStr(o, node), C(', ')), I.toStr(args[1], node))))
      hdrSet(I, t, args[0], val, node)
      return UNDEF
    },
    delete(I, t, args) {
      put(I, t.id, (r) => {
        const props = new Map(r.props)
        if (isConst(args[0]))
          props.delete(String(args[0].v).toLowerCase())
        return { ...r, props }
      })
      return UNDEF
    },
    entries: (I, t, args, node) => {
      const p = pairs(I, t, node)
      return newArray(I, p.items, node, 'hents', p.star)
    },
    keys: (I, t, args, node) => newArray(I, [...I.st.get(t.id).props].filter(([, e]) => e.hdr).map(([k]) => C(k)), node, 'hkeys'),
    values: (I, t, args, node) => newArray(I, [...I.st.get(t.id).props].filter(([, e]) => e.hdr).map(([, e]) => e.v), node, 'hvals'),
    forEach(I, t, args, node) {
      for (const [k, e] of I.st.get(t.id).props) {
        if (e.hdr && I.st)
          callCb(I, args[0], [e.v, C(k), t], node)
      }
      return UNDEF
    },
  },
  formdata: {
    append(I, t, args, node) {
      const pair = I.alloc(rec('array', { items: [args[0], args[1], ...(args[2] ? [args[2]] : [])] }), `${tagOf('fd', node)}.${args[0].k}`)
      I.arrPush(t, pair)
      return UNDEF
    },
    set(I, t, args, node) {
      kinds.formdata.delete(I, t, args)
      return kinds.formdata.append(I, t, args, node)
    },
    delete(I, t, args) {
      const r = I.st.get(t.id)
      I.st.set(t.id, { ...r, items: r.items.filter((p) => {
        const e = I.binary('===', I.st.get(p.id).items[0], args[0])
        return !(isConst(e) && e.v)
      }) })
      return UNDEF
    },
    get: (I, t, args) => mapGet(I, t, args[0]) ?? NULL,
    has: (I, t, args) => kinds.map.has(I, t, args),
    entries: (I, t, args, node) => newArray(I, I.st.get(t.id).items, node, 'fents', I.st.get(t.id).star),
  },
  url: {
    toString: (I, t) => I.st.get(t.id).x.href,
    toJSON: (I, t) => I.st.get(t.id).x.href,
  },
  promise: promiseMethods,
  stream: streamMethods,
  wstream: {
    getWriter(I, t, args, node) {
      const to = I.rec(t)?.x.to
      if (to)
        put(I, to.id, r => ({ ...r, x: { ...r.x, written: true } }))
      return I.alloc(rec('writer', { x: { w: t } }), tagOf('writer', node))
    },
    close: () => UNDEF,
    abort: () => UNDEF,
  },
  writer: {
    write(I, t, args, node) {
      const w = I.st.get(I.st.get(t.id).x.w.id)
      const f = w.x.sink ? I.getProp(w.x.sink, C('write'), node) : UNDEF
      if (isUndef(f)) {
        I.noteOpaque('writer.write', node)
        return UNDEF
      }
      return I.asyncRun(() => I.call(f, w.x.sink, [args[0], w.x.controller], node), node, 'write')
    },
    close: (I, t, args, node) => I.resolvedPromise(UNDEF, tagOf('wclose', node)),
    abort: (I, t, args, node) => I.resolvedPromise(UNDEF, tagOf('wabort', node)),
    releaseLock: () => UNDEF,
  },
  reader: {
    read: (I, t, args, node) => readOnce(I, I.st.get(t.id).x.stream, node),
    releaseLock(I, t) {
      setHidden(I, I.st.get(t.id).x.stream, '#locked', FALSE)
      return UNDEF
    },
    cancel: (I, t, args, node) => I.asyncRun(() => cancelStream(I, I.st.get(t.id).x.stream, args[0] ?? UNDEF, node), node, 'rcancel'),
  },
  controller: {
    enqueue: (I, t, args, node) => enqueue(I, ctrlOf(I, t), args[0] ?? UNDEF, node),
    close: (I, t, args, node) => ctrlClose(I, ctrlOf(I, t), node),
    error: (I, t, args, node) => ctrlError(I, ctrlOf(I, t), args[0] ?? UNDEF, node),
  },
  tcontroller: {
    enqueue(I, t, args, node) {
      const v = args[0] ?? UNDEF
      const sink = activeSink(I, t)
      I.emit('t-enqueue', { value: v, key: v.k, tree: tree(I, v) }, node)
      if (!isUndef(hid(I, t, '#end')))
        return I.throwError('TypeError', 'Invalid state: transform stream already ended', node)
      if (sink) {
        I.sinkStack.push(t.id)
        sink.item(v)
        I.sinkStack.pop()
      }
      else {
        const rd = I.st.get(t.id).x.readable
        if (rd)
          put(I, rd.id, r => ({ ...r, items: [...r.items, v] }))
      }
      return UNDEF
    },
    terminate(I, t) {
      setHidden(I, t, '#end', C('closed'))
      return UNDEF
    },
    error(I, t, args) {
      setHidden(I, t, '#end', C('errored'))
      setHidden(I, t, '#err', args[0] ?? UNDEF)
      return UNDEF
    },
  },
  wcontroller: {
    error(I, t, args) {
      setHidden(I, t, '#end', C('errored'))
      setHidden(I, t, '#err', args[0] ?? UNDEF)
      return UNDEF
    },
  },
  regexp: {
    test(I, t, args, node) {
      return I.forEachAlt(args[0] ?? UNDEF, (a) => {
        const m = reStep(I, t, a)
        return m === undefined ? op('hasmatch', [a, reKey(I, t)], boolean) : bool(m !== null)
      })
    },
    exec(I, t, args, node) {
      return I.forEachAlt(args[0] ?? UNDEF, (a) => {
        const m = reStep(I, t, a)
        if (m === undefined)
          return I.call(stringMethod('match'), a, [t], node)
        return m === null ? NULL : matchResult(I, m, node, m.index)
      })
    },
    toString: (I, t) => op('restr', [I.st.get(t.id).x.source], str),
  },
  response: {
    text: bodyMethod('text', (I, r) => r.x.text ?? (r.x.json ? jsonStringify(I, [r.x.json]) : null) ?? sym(`text(${r.x.name ?? 'res'})`, str)),
    json: bodyMethod('json', (I, r) => r.x.json ?? sym(`json(${r.x.name ?? 'res'})`, {})),
    arrayBuffer: bodyMethod('arrayBuffer', (I, r) => {
      const buf = xs => op('buffer', plainArgs(xs), { type: 'object', nonNull: true })
      if (r.x.bodySrc && I.kindOf(r.x.bodySrc) !== 'stream')
        return buf([r.x.bodySrc])
      if (r.x.bodySrc?.t === 'ref') {
        const m = materialise(I, r.x.bodySrc)
        const s = I.st?.get(m.id)
        if (s && !s.star && alts(hid(I, m, '#end')).every(a => a.v.v === 'closed'))
          return buf(s.items)
      }
      return sym(`buffer(${r.x.name ?? 'res'})`, { type: 'object', nonNull: true })
    }),
    blob: bodyMethod('blob', (I, r) => {
      const name = r.x.name ?? 'res'
      return I.alloc(rec('blob', { x: { type: sym(`blob(${name}).type`, str), name: `blob(${name})` } }), `blob(${name})`)
    }),
    bytes: bodyMethod('bytes', (I, r) => sym(`bytes(${r.x.name ?? 'res'})`, { type: 'object', nonNull: true })),
    formData: bodyMethod('formData', (I, r) => sym(`form(${r.x.name ?? 'res'})`, { type: 'object', nonNull: true })),
    clone: (I, t) => t,
  },
  object: {
    hasOwnProperty: (I, t, args, node) => I.hasProp(t, args[0], node),
    toString: (I, t) => op('strobj', [t], str),
    valueOf: (I, t) => t,
  },
  error: {
    toString: (I, t, args, node) => I.toStr(t, node),
  },
  iterator: A,
  date: {
    getTime: () => sym('time', num),
    toISOString: () => sym('iso', str),
    toJSON: () => sym('iso', str),
  },
  blob: {
    arrayBuffer: (I, t, args, node) => I.resolvedPromise(sym(`buffer(${I.st.get(t.id).x.name ?? t.id})`, { type: 'object', nonNull: true }), tagOf('bab', node)),
    text: (I, t, args, node) => I.resolvedPromise(sym(`btext(${I.st.get(t.id).x.name ?? t.id})`, str), tagOf('bt', node)),
    stream: (I, t, args, node) => newStream(I, tagOf('bst', node), { star: sym(`bchunk(${t.id})`, { nonNull: true }), ctrl: ST.CLOSED }),
  },
}
const kindProps = {
  set: { size: (I, v) => lengthOf(I, v) },
  map: { size: (I, v) => lengthOf(I, v) },
  formdata: { size: (I, v) => lengthOf(I, v) },
  url: {
    href: (I, v) => I.st.get(v.id).x.href,
    pathname: (I, v) => urlPart(I, v, 'pathname'),
    origin: (I, v) => urlPart(I, v, 'origin'),
    host: (I, v) => urlPart(I, v, 'host'),
    hostname: (I, v) => urlPart(I, v, 'hostname'),
    port: (I, v) => urlPart(I, v, 'port'),
    username: (I, v) => urlPart(I, v, 'username'),
    password: (I, v) => urlPart(I, v, 'password'),
    protocol: (I, v) => urlPart(I, v, 'protocol'),
    search: (I, v) => urlPart(I, v, 'search'),
    hash: (I, v) => urlPart(I, v, 'hash'),
    searchParams: (I, v) => searchParams(I, v),
  },
  stream: { locked: (I, v) => hid(I, v, '#locked') },
  reader: { closed: (I, v) => sym(`${v.id}.closed`, {}) },
  // of a stream that is read when everything has arrived
  controller: {
    desiredSize: (I, v) => byCtrl(I, ctrlOf(I, v), (c) => {
      const r = I.st.get(ctrlOf(I, v).id)
      if (c !== 'open')
        return C(c === 'errored' ? null : 0)
      const l = hid(I, ctrlOf(I, v), '#locked')
      return !r.star && !r.x.strategy && isConst(l) && l.v === false ? C(1 - r.items.length) : sym('desiredSize', num)
    }),
  },
  tcontroller: { desiredSize: () => sym('desiredSize', num) },
  wcontroller: { signal: () => sym('wsignal', { nonNull: true, type: 'object' }) },
  regexp: { lastIndex: (I, v) => (isUndef(hid(I, v, 'lastIndex')) ? C(0) : hid(I, v, 'lastIndex')), source: (I, v) => I.st.get(v.id).x.source, flags: (I, v) => I.st.get(v.id).x.flags, global: (I, v) => (isConst(I.st.get(v.id).x.flags) ? bool(I.st.get(v.id).x.flags.v.includes('g')) : sym('reglobal', boolean)) },
  blob: { type: (I, v) => I.st.get(v.id).x.type ?? C(''), size: () => sym('blobsize', num) },
  error: { cause: () => UNDEF, message: () => C(''), name: (I, v) => C(I.st.get(v.id).x.errName ?? 'Error') },
}
for (const table of [kinds, kindProps, A, symArrayMethods, ...Object.values(kinds), ...Object.values(kindProps)]) Object.setPrototypeOf(table, null)
/** apply f(URL) to every constant href; otherwise record the step as a term */
const urlStep = (I, v, name, args, f) => {
  const r = I.st.get(v.id)
  const href = mapAlts(r.x.href, (a) => {
    if (isConst(a) && args.every(isConst)) {
      try {
        const u = new URL(a.v)
        f(u, args.map(x => x.v))
        return C(u.href)
      }
      catch {}
    }
    return op(`url.${name}`, [a, ...args], str)
  })
  I.st.set(v.id, { ...I.st.get(v.id), x: { ...r.x, href } })
}
const URL_PARTS = new Set(['href', 'pathname', 'origin', 'host', 'hostname', 'port', 'username', 'password', 'protocol', 'search', 'hash', 'searchParams'])
const each = (I2, list, done, f) => (list.length === 0 ? f(done) : I2.forEachAlt(list[0], x => each(I2, list.slice(1), [...done, x], f)))
const searchParams = (I, v) => {
  const N2 = (name, f) => native(name, f, { k: `n:searchParams.${name}:${v.id}` })
  const read = (name, f, meta) => N2(name, (I2, t, args) => mapAlts(I2.st.get(v.id).x.href, a => (isConst(a) && args.every(isConst) ? C(f(new URL(a.v).searchParams, args.map(x => x.v))) : op(`searchParams.${name}`, [a, ...args], meta))))
  const write = name => N2(name, (I2, t, args, node) => each(I2, args.map(x => mapAlts(x, y => I2.toStr(y, node))), [], (as) => {
    urlStep(I2, v, `searchParams.${name}`, as, (u, xs) => u.searchParams[name](...xs))
    return UNDEF
  }))
  return native('URLSearchParams', null, { objectLike: true, k: `n:URLSearchParams:${v.id}`, statics: { set: write('set'), append: write('append'), delete: write('delete'), get: read('get', (p, xs) => p.get(...xs), {}), has: read('has', (p, xs) => p.has(...xs), boolean), toString: read('toString', p => p.toString(), str) } })
}
const urlPart = (I, v, p) => {
  const h = I.st.get(v.id).x.href
  return mapAlts(h, (a) => {
    if (isConst(a)) {
      try {
        return C(new URL(a.v)[p])
      }
      catch {}
    }
    return op(`url.${p}`, [a], str)
  })
}

const instNames = { error: ['Error'], array: ['Array'], promise: ['Promise'], stream: ['ReadableStream'], tstream: ['TransformStream'], wstream: ['WritableStream'], headers: ['Headers'], url: ['URL'], response: ['Response'], blob: ['Blob', 'File'], formdata: ['FormData'], map: ['Map'], set: ['Set'], regexp: ['RegExp'], date: ['Date'] }
const isInstance = (I, r, name) => {
  if (!r)
    return false
  if (name === 'Object')
    return true
  if (r.kind === 'error' && (r.x.errName === name))
    return true
  if (name === 'File')
    return r.kind === 'blob' && !!r.x.file
  if (instNames[r.kind]?.includes(name))
    return true
  for (let c = r.cls; c; c = c.superV) {
    if (c.t === 'native' && c.name === name)
      return true
  }
  return false
}

// ------------------------------------------------------------------ globals
/** the value as a replacer function leaves it */
const replaced = (I, fn, holder, key, v, node, depth, path = "") => {
  const x = I.call(fn, holder, [C(key), v], node)
  if (!I.st)
    return UNDEF
  const r = I.rec(x)
  if (!r) {
    if (x.t === 'union' || (!isConst(x) && !['string', 'number', 'boolean'].includes(I.typeOf(x))))
      I.noteOpaque('JSON.stringify replacer on an unknown value', node)
    return x
  }
  if (!['object', 'array'].includes(r.kind) || r.star || r.rest?.length || depth > 20 || [...r.props.values()].some(e => e.may)) {
    I.noteOpaque('JSON.stringify replacer', node)
    return x
  }
  if (r.kind === 'array') {
    const items = []
    r.items.forEach((y, i) => I.st && items.push(replaced(I, fn, x, String(i), y, node, depth + 1, `${path}.${i}`)))
    return I.st ? newArray(I, items, node, `repl${path}`) : UNDEF
  }
  const props = new Map()
  for (const [k, e] of r.props) {
    if (e.hidden || !I.st)
      continue
    const y = replaced(I, fn, x, k, e.v, node, depth + 1, `${path}.${k}`)
    if (I.st && !isUndef(y))
      props.set(k, { v: y })
  }
  return I.st ? I.alloc(rec('object', { props }), `${tagOf("repl", node)}${path}`) : UNDEF
}
const jsonStringify = (I, args, node) => {
  if (args[1]?.t === 'fn') {
    const holder = I.alloc(rec('object', { props: new Map([['', { v: args[0] ?? UNDEF }]]) }), tagOf('replh', node))
    const v = replaced(I, args[1], holder, '', args[0] ?? UNDEF, node, 0)
    return I.st ? jsonStringify(I, [v, UNDEF, ...args.slice(2)], node) : UNDEF
  }
  const v = args[0] ?? UNDEF
  if (isUndef(v))
    return UNDEF
  if (isConst(v) && typeof v.v === 'bigint')
    return I.throwError('TypeError', 'Do not know how to serialize a BigInt', node)
  const t = tree(I, v, true)
  if (args[1] && I.kindOf(args[1]) === 'array') {
    I.noteOpaque('JSON.stringify replacer', node)
  }
  if (hasCycle(t))
    return I.throwError('TypeError', 'Converting circular structure to JSON', node)
  if (mayCycle(v) && I.harness.jsonMayThrow?.(I, v))
    I.mayThrow(I.makeError('TypeError', C('Converting circular structure to JSON'), node))
  const text = args.length === 1 ? constJson(t) : undefined
  const o = op('json', [sym(`#${treeKey(t).length > 180 ? hashKey(treeKey(t)) : treeKey(t)}`)], str)
  return { ...o, tree: t, text, k: `json(${treeKey(t)})` }
}
/** the exact text, when every part is known; undefined otherwise */
const constJson = (t) => {
  switch (t.kind) {
    case 'const': return t.v === undefined ? 'null' : typeof t.v === 'bigint' ? undefined : JSON.stringify(t.v)
    case 'array': {
      if (t.star)
        return undefined
      const l = t.items.map(constJson)
      return l.includes(undefined) ? undefined : `[${l.join()}]`
    }
    case 'object': {
      if (t.rest?.length || t.star)
        return undefined
      const l = []
      for (const [k, e] of Object.entries(t.props)) {
        const x = e.may ? undefined : constJson(e.v)
        if (x === undefined)
          return undefined
        l.push(`${JSON.stringify(k)}:${x}`)
      }
      return `{${l.join()}}`
    }
    default: return undefined
  }
}
const hashKey = (s) => {
  let h = 0
  for (let i = 0; i < s.length; i++) h = (h * 31 + s.charCodeAt(i)) | 0
  return `${h}:${s.length}`
}
const mayCycle = v => alts(v).some(a => a.v.t === 'sym')
const hasCycle = t => t.kind === 'cycle' || (t.items ?? []).some(hasCycle) || Object.values(t.props ?? {}).some(p => hasCycle(p.v))
const jsonParse = (I, args, node) => mapAltsF(I, args[0] ?? UNDEF, (a) => {
  if (args[1] && !isNullish(args[1]))
    I.noteOpaque('JSON.parse with a reviver', node)
  if (I.harness.parseJSON) {
    const r = I.harness.parseJSON(I, a, node)
    if (r) {
      if (r.err && !r.ok)
        return I.throwValue(r.err)
      if (r.err)
        I.mayThrow(r.err)
      return r.ok
    }
  }
  if (a.t === 'op' && a.op === 'json')
    return fromTree(I, a.tree, tagOf('parsed', node))
  if (isConst(a)) {
    let js
    try {
      js = JSON.parse(a.v)
    }
    catch (e) {
      return I.throwError('SyntaxError', e.message, node)
    }
    return I.fromJS(js, tagOf('parsed', node))
  }
  I.mayThrow(I.makeError('SyntaxError', C('Unexpected token'), node))
  return sym(`parsed(${a.k})`, { prov: [...prov(a)] })
})
const mapAltsF = (I, v, f) => I.forEachAlt(v, f)

const clone = (I, v, tag, node, depth = 0) => {
  if (!I.st)
    return BOT
  return mapAlts(v, (a) => {
    if (a.t === 'fn' || a.t === 'native')
      return I.throwError('DataCloneError', 'could not be cloned', node)
    if (a.t === 'sym')
      return sym(a.id, { ...a.meta, cloned: true })
    if (a.t !== 'ref' || depth > 10)
      return a
    const r = I.st.get(a.id)
    const props = new Map()
    for (const [k, e] of r.props) props.set(k, { ...e, v: clone(I, e.v, `${tag}.${k}`, node, depth + 1) })
    if (!I.st)
      return BOT
    const items = r.items ? r.items.map((x, i) => clone(I, x, `${tag}[${i}]`, node, depth + 1)) : null
    if (!I.st)
      return BOT
    const star = r.star ? clone(I, r.star, `${tag}[*]`, node, depth + 1) : null
    return I.st ? I.alloc({ ...r, props, items, star, caller: null, cls: r.kind === 'error' ? r.cls : null }, tag) : BOT
  })
}

const assignInto = (I, t, src, node) => {
  I.forEachAlt(t, (o) => {
    if (isNullish(o))
      return I.throwError('TypeError', 'Cannot convert undefined or null to object', node)
    if (o.t === 'ref') {
      const r = I.st.get(o.id)
      if (r.caller)
        I.emit('mutate', { target: r.caller, prop: C('assign'), key: `${o.id}.assign` }, node)
      if (r.kind === 'object' || r.kind === 'error') {
        I.spreadInto(o, src, node)
      }
      else {
        // exotic target: assign property by property
        const s = I.rec(src)
        if (s) {
          for (const [k, e] of s.props) {
            if (!e.hidden)
              nset(I, o, C(k), e.v, node)
          }
        }
      }
    }
    else if (o.t === 'fn' || o.t === 'native') {
      I.noteOpaque('assign to function', node)
    }
    else if (o.t === 'sym') {
      I.emit('mutate-sym', { target: o, prop: C('assign'), key: `${o.k}.assign` }, node)
    }
    return UNDEF
  })
}
const objEntries = (I, v, node, what) => I.forEachAlt(v, (a) => {
  if (isNullish(a))
    return I.throwError('TypeError', 'Cannot convert undefined or null to object', node)
  const r = I.rec(a)
  const mk = (k, x, i) => (what === 'keys' ? k : what === 'values' ? x : I.alloc(rec('array', { items: [k, x] }), `${tagOf('oe', node)}.${i}`))
  if (r) {
    if (r.kind === 'array') {
      return newArray(I, r.items.map((x, i) => mk(C(String(i)), x, i)), node, `oe${what}`, r.star ? mk(sym('idx', str), r.star, '*') : null)
    }
    if (['headers', 'map', 'set', 'formdata', 'stream', 'promise', 'url', 'blob', 'response'].includes(r.kind))
      return newArray(I, [], node, `oe${what}`)
    const items = []
    const st = []
    for (const [k, e] of r.props) {
      if (e.hidden || (r.kind === 'error' && !e.own))
        continue
      const x = e.getter ? I.call(e.getter, a, [], node) : e.v
      if (!I.st)
        return BOT
      if (e.may)
        st.push({ ...mk(C(k), x, k), __k: k })
      else items.push(mk(C(k), x, k))
    }
    let star = null
    if (st.length || r.rest?.length || r.star) {
      const s = [...st.map(x => ({ ...x }))]
      if (r.rest?.length)
        s.push(mk(sym(`${r.rest[0].id}.key`, str), sym(`${r.rest[0].id}.val`, { prov: r.rest.map(q => q.id) }), 'r'))
      if (r.star)
        s.push(mk(r.x.dynKey ?? sym('dynkey', str), r.star, '*'))
      star = union(s)
    }
    return newArray(I, items, node, `oe${what}`, star)
  }
  if (a.t === 'sym')
    return newArray(I, [], node, `oe${what}`, mk(sym(`${a.id}.key`, str), sym(`${a.id}.val`, { prov: [a.id] }), 'r'))
  if (isConst(a) && typeof a.v === 'string')
    return newArray(I, [...a.v].map((ch, i) => mk(C(String(i)), C(ch), i)), node, `oe${what}`)
  return newArray(I, [], node, `oe${what}`)
})
const fromEntries = (I, v, node) => {
  const out = I.alloc(rec('object'), tagOf('fe', node))
  const it = I.iterate(v, node)
  if (!I.st)
    return BOT
  const one = (p) => {
    const r = I.rec(p)
    const k = r ? r.items?.[0] ?? r.star ?? UNDEF : I.getProp(p, C(0), node)
    const x = r ? r.items?.[1] ?? r.star ?? UNDEF : I.getProp(p, C(1), node)
    return [k, x]
  }
  for (const p of it.items) {
    if (p.t === 'union') {
      I.forEachAlt(p, (a) => {
        const [k, x] = one(a)
        I.objPut(out, k, x)
        return UNDEF
      })
    }
    else {
      const [k, x] = one(p)
      I.objPut(out, k, x)
    }
  }
  const star = it.star ?? it.unknown
  if (star) {
    for (const a of alts(star)) {
      const [k, x] = one(a.v)
      for (const ka of alts(k)) {
        if (isConst(ka.v)) {
          put(I, out.id, (r) => {
            const props = new Map(r.props)
            const o = props.get(String(ka.v.v))
            props.set(String(ka.v.v), o ? { v: union([o.v, x]), may: o.may } : { v: x, may: true })
            return { ...r, props }
          })
        }
        else {
          put(I, out.id, r => ({ ...r, star: r.star ? union([r.star, x]) : x, x: { ...r.x, dynKey: ka.v } }))
        }
      }
    }
  }
  return out
}

const resolveDeferred = (I, p, v, node, how) => {
  if (!I.st)
    return
  const t = tree(I, v)
  I.emit('settle', { promise: p.id, how, value: v, tree: t, key: `${p.id}${how}${treeKey(t)}` }, node)
  logEvent(I, `${how}:${p.id}`, t)
  put(I, p.id, (r) => {
    const x = r.x
    if (x.pend === false)
      return r
    return { ...r, x: { ...x, okV: how === 'resolve' ? v : x.okV, errV: how === 'reject' ? v : x.errV, pend: false } }
  })
}
const deferred = (I, node, tag = 'def') => {
  const p = I.alloc(rec('promise', { x: { okV: null, errV: null, pend: true } }), tagOf(tag, node))
  const resolve = N(`resolve:${p.id}`, (I2, t, args, n2) => {
    resolveDeferred(I2, p, args[0] ?? UNDEF, n2, 'resolve')
    return UNDEF
  })
  const reject = N(`reject:${p.id}`, (I2, t, args, n2) => {
    resolveDeferred(I2, p, args[0] ?? UNDEF, n2, 'reject')
    return UNDEF
  })
  return { p, resolve, reject }
}

const constFn = (name, f) => N(name, (I, t, args) => (args.every(isConst) ? C(f(...args.map(a => a.v))) : op(name, plainArgs(args), num)))

export const installNatives = (I) => {
  I.activeSinks = new Map()
  I.sinkStack = []
  I.natives = {
    get: nget,
    set: nset,
    del: ndel,
    arrayJoin,
    isInstance,
    hasBuiltin: (r, name) => !!kinds[r.kind]?.[name] || (['toString', 'hasOwnProperty', 'valueOf', 'constructor'].includes(name)) || (r.kind === 'error' && ['message', 'name', 'stack'].includes(name)),
    mapEntries: (I2, v, node) => {
      const r = I2.st.get(v.id)
      if (r.kind === 'headers')
        return pairs(I2, v, node)
      return { items: r.items ?? [], star: r.star }
    },
    consumeInLoop: (I2, s, body, node) => {
      lock(I2, s, node)
      if (!I2.st)
        return
      const oks = []
      const errs = []
      pump(I2, s, {
        hang: () => I2.noteHang(s, I2.st),
        item: v => body(v),
        close: () => {
          oks.push({ st: I2.st, v: UNDEF })
          I2.st = null
        },
        error: (e) => {
          errs.push({ st: I2.st, v: e })
          I2.st = null
        },
      }, node)
      const j = I2.joinList(errs)
      if (j)
        I2.h.onThrow(j.st, j.v)
      const o = I2.joinList(oks)
      I2.st = o ? o.st : null
    },
  }
  const g = new Map()
  I.globals = g
  const def = (name, impl, extra) => g.set(name, N(name, impl, extra))
  const S = (o) => {
    const out = {}
    for (const [k, f] of Object.entries(o)) out[k] = typeof f === 'function' ? N(k, f) : f
    return out
  }
  def('Object', (I2, t, args, node) => args[0] ?? I2.alloc(rec('object'), tagOf('O', node)), { statics: S({
    'Object.assign': null,
    'assign': (I2, t, args, node) => {
      if (!args[0] || isNullish(args[0]))
        return I2.throwError('TypeError', 'Cannot convert undefined or null to object', node)
      for (const a of args.slice(1)) {
        if (I2.st)
          assignInto(I2, args[0], a.spreadStar ?? a, node)
      }
      return args[0]
    },
    'entries': (I2, t, args, node) => objEntries(I2, args[0], node, 'entries'),
    'keys': (I2, t, args, node) => objEntries(I2, args[0], node, 'keys'),
    'values': (I2, t, args, node) => objEntries(I2, args[0], node, 'values'),
    'fromEntries': (I2, t, args, node) => fromEntries(I2, args[0], node),
    'freeze': (I2, t, args, node) => mapAlts(args[0], (a) => {
      const r = I2.rec(a)
      if (r?.caller)
        I2.emit('mutate', { target: r.caller, prop: C('freeze'), key: `${a.id}.freeze` }, node)
      if (r)
        put(I2, a.id, x => ({ ...x, x: { ...x.x, frozen: true } }))
      return a
    }),
    'seal': (I2, t, args, node) => {
      I2.noteOpaque('Object.seal', node)
      return args[0]
    },
    'preventExtensions': (I2, t, args, node) => {
      I2.noteOpaque('Object.preventExtensions', node)
      return args[0]
    },
    'isFrozen': (I2, t, args) => mapAlts(args[0], a => (I2.rec(a) ? bool(!!I2.rec(a).x.frozen) : sym('isFrozen', boolean))),
    'is': (I2, t, args) => (args.every(isConst) ? bool(Object.is(args[0].v, args[1].v)) : I2.binary('===', args[0], args[1])),
    'hasOwn': (I2, t, args, node) => mapAlts(args[0], a => I2.hasProp(a, args[1], node)),
    'create': (I2, t, args, node) => {
      const o = I2.alloc(rec('object'), tagOf('create', node))
      if (args[0] && !isNullish(args[0])) {
        I2.noteOpaque('an object with a prototype of its own', node)
        I2.spreadInto(o, args[0], node)
      }
      return o
    },
    'getPrototypeOf': (I2, t, args) => sym(`proto(${args[0]?.k})`, {}),
    'setPrototypeOf': (I2, t, args) => args[0],
    'defineProperty': (I2, t, args, node) => {
      const d = args[2]
      const v = I2.getProp(d, C('value'), node)
      const get = I2.getProp(d, C('get'), node)
      if (get.t === 'fn') {
        put(I2, args[0].id, r => ({ ...r, props: new Map(r.props).set(String(args[1].v), { v: UNDEF, getter: get, may: false }) }))
      }
      else if (args[0].t === 'ref') {
        if (isConst(args[1]) && I2.rec(args[0]).props.get(String(args[1].v))?.getter)
          put(I2, args[0].id, r => ({ ...r, props: new Map(r.props).set(String(args[1].v), { v: UNDEF, may: false }) }))
        nset(I2, args[0], args[1], v, node)
        const shown = I2.getProp(d, C('enumerable'), node)
        if (I2.st && !(isConst(shown) && shown.v) && isConst(args[1]) && !(I2.rec(args[0]).kind === 'error' && ['message', 'name', 'stack', 'cause'].includes(String(args[1].v))))
          I2.noteOpaque('property that is not enumerable', node)
      }
      return args[0]
    },
    'getOwnPropertyDescriptor': (I2, t, args, node) => {
      const v = args[0]
      return mapAlts(v, (a) => {
        if (a.t === 'native' && a.isGlobal) {
          return sym(`descriptor(globalThis.${isConst(args[1]) ? args[1].v : '?'})`, {})
        }
        const r = I2.rec(a)
        const e = r && isConst(args[1]) ? r.props.get(String(args[1].v)) : undefined
        if (r && !e)
          return UNDEF
        if (e)
          return I2.fromJS({ configurable: true, enumerable: true, writable: true, value: e.v }, tagOf('gopd', node))
        return sym(`descriptor(${a.k})`, {})
      })
    },
    'getOwnPropertyNames': (I2, t, args, node) => objEntries(I2, args[0], node, 'keys'),
    'groupBy': (I2, t, args, node) => {
      I2.noteOpaque('Object.groupBy', node)
      return sym('groupBy', { opaque: true })
    },
  }) })
  def('Reflect', null, { objectLike: true, statics: S({
    get: (I2, t, args, node) => I2.getProp(args[0], args[1], node),
    has: (I2, t, args, node) => I2.hasProp(args[0], args[1], node),
    ownKeys: (I2, t, args, node) => objEntries(I2, args[0], node, 'keys'),
    set: (I2, t, args, node) => {
      I2.putProp(args[0], args[1], args[2], node)
      return TRUE
    },
  }) })
  def('Array', (I2, t, args, node) => newArray(I2, isConst(args[0] ?? UNDEF) && typeof args[0]?.v === 'number' ? Array.from({ length: Math.min(args[0].v, 64) }, () => UNDEF) : plainArgs(args), node, 'Arr'), {
    construct: (I2, args, node) => newArray(I2, args.length === 1 && isConst(args[0]) ? Array.from({ length: Math.min(args[0].v, 64) }, () => UNDEF) : args.length === 1 ? [] : plainArgs(args), node, 'nArr', args.length === 1 && !isConst(args[0]) ? UNDEF : null),
    statics: S({
      isArray: (I2, t, args) => mapAlts(args[0] ?? UNDEF, (a) => {
        if (a.t === 'ref')
          return bool(I2.kindOf(a) === 'array')
        if (a.t === 'sym') {
          if (a.meta?.isArray || a.meta?.elem)
            return TRUE
          if (a.meta?.plain || (a.meta?.type && a.meta.type !== 'object') || a.meta?.notArray)
            return FALSE
          return op('isArray', [a], boolean)
        }
        return a.t === 'op' && !a.meta?.type ? op('isArray', [a], boolean) : FALSE
      }),
      from: (I2, t, args, node) => I2.forEachAlt(args[0], (src) => {
        let base
        const r = I2.rec(src)
        if (r?.kind === 'object' && r.props.has('length')) {
          const n = r.props.get('length').v
          base = isConst(n) && n.v <= 64 ? newArray(I2, Array.from({ length: n.v }, () => UNDEF), node, 'from') : newArray(I2, [], node, 'from', UNDEF)
        }
        else {
          const it = I2.iterate(src, node)
          if (!I2.st)
            return BOT
          base = newArray(I2, it.items, node, 'from', it.star ?? it.unknown ?? null)
        }
        return args[1] ? A.map(I2, base, [args[1]], node) : base
      }),
      of: (I2, t, args, node) => newArray(I2, plainArgs(args), node, 'of'),
      fromAsync: (I2, t, args, node) => {
        I2.noteOpaque('Array.fromAsync', node)
        return sym('fromAsync', { opaque: true })
      },
    }),
  })
  def('String', (I2, t, args, node) => I2.toStr(args[0] ?? C(''), node), { statics: S({ fromCharCode: (I2, t, args) => (args.every(isConst) ? C(String.fromCharCode(...args.map(a => a.v))) : op('fromCharCode', plainArgs(args), str)), raw: () => sym('raw', str) }) })
  def('Number', (I2, t, args) => mapAlts(args[0] ?? C(0), a => (isConst(a) ? C(Number(a.v)) : I2.typeOf(a) === 'number' ? a : op('Number', [a], num))), { statics: { ...S({
    isFinite: (I2, t, args) => mapAlts(args[0], a => (isConst(a) ? bool(Number.isFinite(a.v)) : I2.typeOf(a) && I2.typeOf(a) !== 'number' ? FALSE : op('isFinite', [a], boolean))),
    isInteger: (I2, t, args) => mapAlts(args[0], a => (isConst(a) ? bool(Number.isInteger(a.v)) : I2.typeOf(a) && I2.typeOf(a) !== 'number' ? FALSE : op('isInteger', [a], boolean))),
    isNaN: (I2, t, args) => mapAlts(args[0], a => (isConst(a) ? bool(Number.isNaN(a.v)) : I2.typeOf(a) && I2.typeOf(a) !== 'number' ? FALSE : op('isNaN', [a], boolean))),
    isSafeInteger: (I2, t, args) => mapAlts(args[0], a => (isConst(a) ? bool(Number.isSafeInteger(a.v)) : op('isSafeInteger', [a], boolean))),
    parseInt: (I2, t, args) => mapAlts(args[0], a => (isConst(a) ? C(Number.parseInt(a.v, args[1]?.v)) : op('parseInt', [a], num))),
    parseFloat: (I2, t, args) => mapAlts(args[0], a => (isConst(a) ? C(Number.parseFloat(a.v)) : op('parseFloat', [a], num))),
  }), MAX_SAFE_INTEGER: C(Number.MAX_SAFE_INTEGER), POSITIVE_INFINITY: C(Number.POSITIVE_INFINITY), NaN: C(Number.NaN) } })
  g.set('parseInt', g.get('Number').statics.parseInt)
  g.set('parseFloat', g.get('Number').statics.parseFloat)
  g.set('isNaN', g.get('Number').statics.isNaN)
  g.set('isFinite', g.get('Number').statics.isFinite)
  def('Boolean', (I2, t, args) => mapAlts(args[0] ?? UNDEF, (a) => {
    const x = I2.truthAlt(a)
    return x === 'T' ? TRUE : x === 'F' ? FALSE : I2.typeOf(a) === 'boolean' ? a : op('not', [op('not', [a], boolean)], boolean)
  }))
  def('BigInt', (I2, t, args) => op('BigInt', args, {}))
  def('Symbol', (I2, t, args) => C(`@@sym:${args[0]?.v ?? ''}`), { statics: { for: N('Symbol.for', (I2, t, args) => C(`@@for:${args[0]?.v}`)), asyncIterator: C('@@asyncIterator'), iterator: C('@@iterator'), dispose: C('@@dispose'), asyncDispose: C('@@asyncDispose') } })
  def('Math', null, { objectLike: true, statics: { ...Object.fromEntries(['max', 'min', 'abs', 'floor', 'ceil', 'round', 'trunc', 'sign', 'pow', 'sqrt', 'log', 'log2', 'log10', 'exp'].map(k => [k, constFn(`Math.${k}`, Math[k])])), random: N('Math.random', () => sym('random', num)), PI: C(Math.PI), E: C(Math.E) } })
  def('JSON', null, { objectLike: true, statics: S({
    stringify: (I2, t, args, node) => jsonStringify(I2, args, node),
    parse: (I2, t, args, node) => jsonParse(I2, args, node),
  }) })
  for (const e of ['Error', 'TypeError', 'SyntaxError', 'RangeError', 'ReferenceError', 'EvalError', 'URIError', 'AggregateError', 'DOMException']) {
    const mk = (I2, args, node) => {
      const a = e === 'AggregateError' ? args.slice(1) : args
      const msg = a[0] === undefined || isUndef(a[0]) ? C('') : I2.toStr(a[0], node)
      const r = I2.makeError(e, msg, node)
      if (e === 'AggregateError') {
        const it = args[0] ? I2.iterate(args[0], node) : { items: [] }
        if (!I2.st)
          return BOT
        const errors = newArray(I2, it.items, node, 'aggerrs', it.star ?? it.unknown)
        put(I2, r.id, x => ({ ...x, props: new Map(x.props).set('errors', { v: errors }) }))
      }
      if (e === 'DOMException' && a[1]) {
        put(I2, r.id, x => ({ ...x, props: new Map(x.props).set('name', { v: a[1] }) }))
      }
      else if (a[1] && !isNullish(a[1])) {
        const has = I2.rec(a[1]) ? I2.hasProp(a[1], C('cause'), node) : TRUE
        if (!(isConst(has) && has.v === false)) {
          const c = I2.getProp(a[1], C('cause'), node)
          if (I2.st)
            put(I2, r.id, x => ({ ...x, props: new Map(x.props).set('cause', { v: c }) }))
        }
      }
      return r
    }
    def(e, (I2, t, args, node) => mk(I2, args, node), { construct: mk, statics: S({ captureStackTrace: () => UNDEF }) })
  }
  // promises
  const iter = (I2, v, node, each) => {
    const it = I2.iterate(v, node)
    if (!I2.st)
      return null
    const out = []
    it.items.forEach((x, i) => {
      if (I2.st)
        out.push(I2.withCtx(`#${i}`, () => each(x, i)))
    })
    let star = null
    const s = it.star ?? it.unknown
    if (s && I2.st)
      I2.fixLoop(tagOf('pa', node), () => { star = each(s, '*') }, node)
    return { out, star }
  }
  def('Promise', null, {
    construct: (I2, args, node) => {
      const d = deferred(I2, node, 'newP')
      const cap = I2.capture(() => I2.call(args[0], UNDEF, [d.resolve, d.reject], node))
      const outs = []
      if (I2.st)
        outs.push({ st: I2.st, v: UNDEF })
      for (const t of cap.throws) {
        I2.st = t.st
        resolveDeferred(I2, d.p, t.v, node, 'reject')
        outs.push({ st: I2.st, v: UNDEF })
      }
      I2.st = I2.joinList(outs)?.st ?? null
      return I2.st ? d.p : BOT
    },
    statics: S({
      withResolvers: (I2, t, args, node) => {
        const d = deferred(I2, node, 'wr')
        return I2.alloc(rec('object', { props: new Map([['promise', { v: d.p }], ['resolve', { v: d.resolve }], ['reject', { v: d.reject }]]) }), tagOf('wro', node))
      },
      resolve: (I2, t, args, node) => (args[0] && alts(args[0]).every(a => I2.kindOf(a.v) === 'promise') ? args[0] : I2.resolvedPromise(args[0] ?? UNDEF, tagOf('pres', node))),
      reject: (I2, t, args, node) => I2.rejectedPromise(args[0] ?? UNDEF, tagOf('prej', node)),
      try: (I2, t, args, node) => I2.asyncRun(() => I2.call(args[0], UNDEF, args.slice(1), node), node, 'ptry'),
      all: (I2, t, args, node) => I2.asyncRun(() => {
        const r = iter(I2, args[0], node, x => I2.awaitValue(x, node))
        return r && I2.st ? newArray(I2, r.out, node, 'pall', r.star) : BOT
      }, node, 'all'),
      allSettled: (I2, t, args, node) => I2.asyncRun(() => {
        const r = iter(I2, args[0], node, (x, i) => {
          const cap = I2.capture(() => I2.awaitValue(x, node))
          const outs = []
          if (I2.st) {
            const v = cap.v
            outs.push({ st: I2.st, v: I2.alloc(rec('object', { props: new Map([['status', { v: C('fulfilled') }], ['value', { v }]]) }), `${tagOf('as', node)}f${i}`) })
          }
          for (const th of cap.throws) {
            I2.st = th.st
            outs.push({ st: th.st, v: I2.alloc(rec('object', { props: new Map([['status', { v: C('rejected') }], ['reason', { v: th.v }]]) }), `${tagOf('as', node)}r${i}`) })
          }
          const j = I2.joinList(outs)
          I2.st = j?.st ?? null
          return j ? j.v : BOT
        })
        return r && I2.st ? newArray(I2, r.out, node, 'pas', r.star) : BOT
      }, node, 'allS'),
      race: (I2, t, args, node) => I2.asyncRun(() => {
        const it = I2.iterate(args[0], node)
        return I2.st ? I2.awaitValue(union([...it.items, ...(it.star ? [it.star] : [])]), node) : BOT
      }, node, 'race'),
      any: (I2, t, args, node) => I2.asyncRun(() => {
        const it = I2.iterate(args[0], node)
        return I2.st ? I2.awaitValue(union([...it.items, ...(it.star ? [it.star] : [])]), node) : BOT
      }, node, 'any'),
    }),
  })
  def('Function', (I2, t, args, node) => {
    I2.noteOpaque('Function constructor', node)
    return sym('newFunction', { opaque: true })
  })
  def('structuredClone', (I2, t, args, node) => clone(I2, args[0] ?? UNDEF, `${I2.ctx}${tagOf('@sc', node)}`, node))
  def('queueMicrotask', (I2, t, args, node) => {
    callCb(I2, args[0], [], node)
    return UNDEF
  })
  def('setTimeout', (I2, t, args, node) => {
    I2.emit('setTimeout', { delay: args[1] ?? C(0), key: (args[1] ?? C(0)).k }, node)
    if (I2.harness.logTimers)
      logEvent(I2, 'timer', { kind: 'array', items: [tree(I2, args[1] ?? C(0))] })
    if (args[0] && I2.harness.timers !== 'never')
      callCb(I2, args[0], args.slice(2), node)
    return sym('timer', { nonNull: true })
  })
  def('setImmediate', (I2, t, args, node) => {
    callCb(I2, args[0], [], node)
    return sym('timer', { nonNull: true })
  })
  def('setInterval', (I2, t, args, node) => {
    I2.noteOpaque('setInterval', node)
    return sym('timer', { nonNull: true })
  })
  def('clearTimeout', () => UNDEF)
  def('clearInterval', () => UNDEF)
  def('encodeURIComponent', (I2, t, args) => mapAlts(args[0], a => (isConst(a) ? C(encodeURIComponent(a.v)) : op('encodeURIComponent', [a], str))))
  def('decodeURIComponent', (I2, t, args) => mapAlts(args[0], a => (isConst(a) ? C(decodeURIComponent(a.v)) : op('decodeURIComponent', [a], str))))
  def('atob', (I2, t, args) => op('atob', plainArgs(args), str))
  def('btoa', (I2, t, args) => op('btoa', plainArgs(args), str))
  const logFn = k => N(`console.${k}`, (I2, t, args, node) => {
    I2.emit('console', { args, key: k }, node)
    return UNDEF
  })
  def('console', null, { objectLike: true, statics: Object.fromEntries(['log', 'warn', 'error', 'info', 'debug', 'trace'].map(k => [k, logFn(k)])) })
  def('crypto', null, { objectLike: true, statics: S({ randomUUID: (I2, t, args, node) => sym(`uuid@${I2.ctx}${tagOf('', node)}`, { ...str, truthy: true }), getRandomValues: (I2, t, args) => args[0] }) })
  def('performance', null, { objectLike: true, statics: S({ now: () => sym('now', num) }) })
  def('Date', () => sym('datestr', str), { construct: (I2, args, node) => I2.alloc(rec('date'), tagOf('date', node)), statics: S({ now: () => sym('now', num), parse: () => sym('dateparse', num) }) })
  def('URL', null, {
    construct: (I2, args, node) => {
      const toUrlStr = v => mapAlts(v, a => (I2.kindOf(a) === 'url' ? I2.st.get(a.id).x.href : I2.toStr(a, node)))
      const a = toUrlStr(args[0])
      const b = args[1] && !isUndef(args[1]) ? toUrlStr(args[1]) : null
      const mk = (x, y) => {
        if (isConst(x) && (!y || isConst(y))) {
          try {
            return C(new URL(x.v, y?.v).href)
          }
          catch {
            return null
          }
        }
        return op('url', y ? [x, y] : [x], { ...str })
      }
      return I2.forEachAlt(a, x => (b
        ? I2.forEachAlt(b, (y) => {
            const h = mk(x, y)
            return h ? I2.alloc(rec('url', { x: { href: h } }), `${tagOf('url', node)}${h.k}`) : I2.throwError('TypeError', 'Invalid URL', node)
          })
        : (() => {
            const h = mk(x, null)
            return h ? I2.alloc(rec('url', { x: { href: h } }), `${tagOf('url', node)}${h.k}`) : I2.throwError('TypeError', 'Invalid URL', node)
          })()))
    },
    statics: S({ createObjectURL: () => sym('objurl', str), canParse: (I2, t, args) => op('canParse', args, boolean) }),
  })
  def('Headers', null, { construct: (I2, args, node) => {
    const h = I2.alloc(rec('headers'), tagOf('hdrs', node))
    if (args[0])
      fillHeaders(I2, h, args[0], node)
    return h
  } })
  def('FormData', null, { construct: (I2, args, node) => I2.alloc(rec('formdata', { items: [] }), tagOf('fd', node)) })
  def('Map', null, { construct: (I2, args, node) => {
    const m = I2.alloc(rec('map', { items: [] }), tagOf('map', node))
    if (args[0] && !isNullish(args[0])) {
      const it = I2.iterate(args[0], node)
      if (I2.st)
        put(I2, m.id, r => ({ ...r, items: it.items, star: it.star ?? it.unknown ?? null }))
    }
    return m
  } })
  def('WeakMap', null, { construct: (I2, args, node) => I2.alloc(rec('map', { items: [] }), tagOf('wmap', node)) })
  def('Set', null, { construct: (I2, args, node) => {
    const m = I2.alloc(rec('set', { items: [] }), tagOf('set', node))
    if (args[0] && !isNullish(args[0])) {
      const it = I2.iterate(args[0], node)
      for (const x of it.items) {
        if (I2.st)
          kinds.set.add(I2, m, [x], node)
      }
      if (I2.st && (it.star ?? it.unknown))
        I2.arrStar(m, it.star ?? it.unknown)
    }
    return m
  } })
  def('WeakSet', null, { construct: (I2, args, node) => I2.alloc(rec('set', { items: [] }), tagOf('wset', node)) })
  def('RegExp', null, { construct: (I2, args, node) => {
    const s = I2.rec(args[0])
    return I2.alloc(rec('regexp', { x: { source: s?.kind === 'regexp' ? s.x.source : I2.toStr(args[0] ?? C(''), node), flags: args[1] && !isUndef(args[1]) ? args[1] : s?.kind === 'regexp' ? s.x.flags : C('') } }), tagOf('re', node))
  } })
  def('Blob', null, { construct: (I2, args, node) => I2.alloc(rec('blob', { x: { type: args[1] && !isUndef(args[1]) ? I2.getProp(args[1], C('type'), node) : C('') } }), tagOf('blob', node)) })
  def('File', null, { construct: (I2, args, node) => I2.alloc(rec('blob', { x: { type: args[2] && !isUndef(args[2]) ? I2.getProp(args[2], C('type'), node) : C(''), file: true }, props: new Map([['name', { v: args[1] ?? UNDEF }]]) }), tagOf('file', node)) })
  const mkResponse = (I2, body, init, node, json) => {
    const gp = (k, d) => {
      if (!init || isNullish(init))
        return d
      const v = I2.getProp(init, C(k), node)
      return mapAlts(v, a => (isUndef(a) ? d : a))
    }
    const status = gp('status', C(200))
    const h = I2.alloc(rec('headers'), tagOf('rh', node))
    const hi = gp('headers', UNDEF)
    if (!isUndef(hi))
      fillHeaders(I2, h, hi, node)
    const ok = mapAlts(status, (s) => {
      if (isConst(s))
        return bool(s.v >= 200 && s.v <= 299)
      const okFact = I2.st.facts.get(`ok:${s.k}`)
      return okFact !== undefined ? bool(okFact) : s.meta?.httpOk !== undefined ? bool(s.meta.httpOk) : op('status-ok', [s], boolean)
    })
    const bodyV = json ? UNDEF : body ?? NULL
    const stream = !json && I2.kindOf(bodyV) === 'stream' ? bodyV : isConst(bodyV) && bodyV.v == null && !json ? NULL : newStream(I2, tagOf('rbody', node), { items: [op('bytes', [json ? jsonStringify(I2, [body], node) : bodyV])], ctrl: ST.CLOSED })
    if (!I2.st)
      return BOT
    return I2.alloc(rec('response', {
      props: new Map([['ok', { v: ok }], ['status', { v: status }], ['statusText', { v: gp('statusText', C('')) }], ['headers', { v: h }], ['body', { v: stream }], ['bodyUsed', { v: FALSE }], ['url', { v: C('') }], ['redirected', { v: FALSE }], ['type', { v: C('default') }]]),
      x: { json: json ? body : null, text: json ? null : typeof bodyV.v === 'string' ? bodyV : null, name: 'constructed', bodySrc: json ? body : bodyV },
    }), tagOf('resp', node))
  }
  I.mkResponse = mkResponse
  def('Response', null, {
    construct: (I2, args, node) => mkResponse(I2, args[0] ?? NULL, args[1], node, false),
    statics: S({
      json: (I2, t, args, node) => mkResponse(I2, args[0] ?? UNDEF, args[1], node, true),
      error: (I2, t, args, node) => mkResponse(I2, NULL, I2.fromJS({ status: 0 }, tagOf('re', node)), node, false),
    }),
  })
  def('Request', null, { construct: (I2, args, node) => {
    I2.noteOpaque('new Request', node)
    return sym(`request@${I2.ctx}`, { opaque: true, nonNull: true, type: 'object', prov: args.flatMap(a => [...prov(a)]) })
  } })
  def('ReadableStream', null, {
    construct: (I2, args, node) => {
      const underlying = args[0] && !isUndef(args[0]) ? args[0] : null
      const s = newStream(I2, tagOf('rs', node), { src: 'ctrl', x: { underlying, strategy: args[1] && !isUndef(args[1]) } })
      const c = I2.alloc(rec('controller', { x: { stream: s } }), tagOf('rsc', node))
      put(I2, s.id, r => ({ ...r, x: { ...r.x, controller: c } }))
      I2.emit('stream-created', { stream: s.id, key: s.id }, node)
      if (underlying) {
        const f = I2.getProp(underlying, C('start'), node)
        if (I2.st && (f.t === 'fn' || f.t === 'native')) {
          const v = I2.call(f, underlying, [c], node)
          if (I2.st && I2.kindOf(v) === 'promise') {
            const cap = I2.capture(() => I2.awaitValue(v, node))
            const ok = I2.st
            const outs = ok ? [{ st: ok, v: UNDEF }] : []
            for (const t of cap.throws) {
              I2.st = t.st
              ctrlError(I2, s, t.v, node)
              outs.push({ st: I2.st, v: UNDEF })
            }
            I2.st = I2.joinList(outs)?.st ?? null
          }
        }
      }
      return I2.st ? s : BOT
    },
    statics: S({ from: (I2, t, args, node) => {
      const it = I2.iterate(args[0], node)
      return newStream(I2, tagOf('rsfrom', node), { items: it.items, star: it.star ?? it.unknown ?? null, ctrl: ST.CLOSED })
    } }),
  })
  def('TransformStream', null, { construct: (I2, args, node) => mkTransform(I2, args[0] && !isUndef(args[0]) ? args[0] : null, node, null) })
  def('TextDecoderStream', null, { construct: (I2, args, node) => mkTransform(I2, null, node, flavours.decode) })
  def('TextEncoderStream', null, { construct: (I2, args, node) => mkTransform(I2, null, node, { item: (I3, v, sink) => sink.item(op('bytes', [v])) }) })
  def('WritableStream', null, { construct: (I2, args, node) => {
    const sink = args[0] && !isUndef(args[0]) ? args[0] : null
    const c = I2.alloc(rec('wcontroller'), tagOf('wsc', node))
    setHidden(I2, c, '#end', UNDEF)
    setHidden(I2, c, '#err', UNDEF)
    const w = I2.alloc(rec('wstream', { x: { sink, controller: c } }), tagOf('ws', node))
    if (sink) {
      const f = I2.getProp(sink, C('start'), node)
      if (f.t === 'fn')
        I2.call(f, sink, [c], node)
    }
    return w
  } })
  def('TextDecoder', null, { construct: (I2, args, node) => I2.alloc(rec('object', { props: new Map([['decode', { v: N('TextDecoder.decode', (I3, t, a) => mapAlts(a[0] ?? C(''), x => (x.t === 'op' && x.op === 'bytes' ? x.args[0] : isConst(x) ? x : op('decode', [x], str)))) }]]) }), tagOf('td', node)) })
  def('TextEncoder', null, { construct: (I2, args, node) => I2.alloc(rec('object', { props: new Map([['encode', { v: N('TextEncoder.encode', (I3, t, a) => op('bytes', [a[0] ?? C('')])) }]]) }), tagOf('te', node)) })
  def('Uint8Array', null, { construct: (I2, args) => op('u8', plainArgs(args), { type: 'object' }), statics: S({ fromBase64: (I2, t, args, node) => (args[0] && isConst(args[0]) && (typeof args[0].v !== 'string' || !/^[A-Za-z0-9+/\s]*=*\s*$/.test(args[0].v)) ? I2.throwError(typeof args[0].v === 'string' ? 'SyntaxError' : 'TypeError', 'not base64', node) : op('fromBase64', plainArgs(args), { type: 'object' })), from: (I2, t, args) => op('u8from', plainArgs(args), { type: 'object' }), of: (I2, t, args) => op('u8of', plainArgs(args), { type: 'object' }) }) })
  def('ArrayBuffer', null, { construct: (I2, args) => op('arraybuffer', plainArgs(args), { type: 'object' }), statics: S({ isView: () => sym('isView', boolean) }) })
  def('Buffer', null, { statics: S({ from: (I2, t, args) => op('buffer', plainArgs(args), { type: 'object' }) }) })
  const ownSignal = (I2, node, tag) => {
    const listeners = I2.alloc(rec('array', { items: [] }), tagOf(`${tag}l`, node))
    const signal = I2.alloc(rec('object', { props: new Map([['aborted', { v: FALSE }], ['reason', { v: UNDEF }], ['onabort', { v: NULL }]]), x: { signal: true } }), tagOf(tag, node))
    const method = (name, f) => put(I2, signal.id, r => ({ ...r, props: new Map(r.props).set(name, { v: N(`${name}:${signal.id}`, f) }) }))
    method('addEventListener', (I3, t, a, n2) => {
      if (a[0] && isConst(a[0]) && a[0].v === 'abort')
        I3.arrPush(listeners, a[1])
      return UNDEF
    })
    method('removeEventListener', (I3, t, a, n2) => {
      const l = I3.rec(listeners)
      if (l.items.length || l.star)
        I3.noteOpaque('removeEventListener', n2)
      return UNDEF
    })
    method('throwIfAborted', (I3, t, a, n2) => {
      const on = I3.getProp(signal, C('aborted'), n2)
      const reason = I3.getProp(signal, C('reason'), n2)
      if (isConst(on))
        return on.v ? I3.throwValue(reason) : UNDEF
      I3.mayThrow(reason)
      return UNDEF
    })
    const abort = (I3, reason, n2) => {
      const on = I3.getProp(signal, C('aborted'), n2)
      if (isConst(on) && on.v)
        return UNDEF
      nset(I3, signal, C('aborted'), TRUE, n2)
      nset(I3, signal, C('reason'), reason === undefined || isUndef(reason) ? sym('AbortError', { nonNull: true, type: 'object' }) : reason, n2)
      const l = I3.rec(listeners)
      const event = () => I3.fromJS({ type: 'abort', target: signal }, tagOf('abev', n2))
      const own = I3.getProp(signal, C('onabort'), n2)
      for (const [i, f] of [...(isNullish(own) ? [] : [own]), ...l.items, ...(l.star ? [l.star] : [])].entries()) {
        if (I3.st && f)
          I3.withCtx(`#ab${i}`, () => I3.call(f, signal, [event()], n2))
      }
      return UNDEF
    }
    return { signal, abort }
  }
  def('AbortController', null, { construct: (I2, args, node) => {
    const { signal, abort } = ownSignal(I2, node, 'sig')
    return I2.alloc(rec('object', { props: new Map([['signal', { v: signal }], ['abort', { v: N(`abort:${signal.id}`, (I3, t, a, n2) => abort(I3, a[0], n2)) }]]) }), tagOf('ac', node))
  } })
  def('AbortSignal', null, { statics: S({
    any: (I2, t, args, node) => sym(`anySignal@${I2.ctx}`, { nonNull: true, type: 'object', prov: [...prov(args[0] ?? UNDEF)], signalOf: args[0] }),
    timeout: () => sym('timeoutSignal', { nonNull: true, type: 'object' }),
    abort: (I2, t, args, node) => {
      const { signal, abort } = ownSignal(I2, node, 'asig')
      abort(I2, args[0], node)
      return signal
    },
  }) })
  def('FileReader', null, { construct: (I2, args, node) => {
    I2.emit('browser-only', { name: 'FileReader', key: 'FileReader' }, node)
    I2.noteOpaque('FileReader', node)
    return sym('FileReader', { opaque: true, nonNull: true, type: 'object' })
  } })
  def('Intl', null, { objectLike: true, statics: { Segmenter: N('Segmenter', null, { construct: (I2, args, node) => sym('segmenter', { nonNull: true, type: 'object' }) }) } })
  def('process', null, { objectLike: true, statics: { env: sym('process.env', { nonNull: true, type: 'object' }), nextTick: N('nextTick', (I2, t, args, node) => I2.call(args[0], UNDEF, args.slice(1), node)) } })
  def('fetch', (I2, t, args, node) => {
    I2.emit('global-fetch', { args, key: '' }, node)
    if (I2.harness.fetch)
      return I2.harness.fetch(I2, t, args, node)
    // there is no network here: only the given fetch answers
    return I2.rejectedPromise(sym('no global network', { nonNull: true, type: 'object' }), tagOf('gfetch', node))
  })
  I.externals = {
    'eventsource-parser/stream': { EventSourceParserStream: N('EventSourceParserStream', null, { construct: (I2, args, node) => mkTransform(I2, null, node, flavours.sse) }) },
    'best-effort-json-parser': { parse: N('bestEffortParse', (I2, t, args, node) => {
      if (I2.harness.partialParse)
        return I2.harness.partialParse(I2, args[0] ?? UNDEF, node)
      return sym(`partial(${args[0]?.k})`, { prov: [...prov(args[0] ?? UNDEF)] })
    }) },
    'node:process': {},
  }
  return I
}
export { A as arrayNatives, deferred, fillHeaders, hdrSet, hid, kinds, loc, N, newArray, num, pairs, put, setHidden, ST, str }
export { boolean as boolMeta, joinStates, ref }
