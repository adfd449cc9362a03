// How runs end and what stays independent: C14 settlement, C15 cancellation, C25 traced = plain
import { ABSENT, errorOf, open } from '../lib/check.mjs'
import { runChat } from '../lib/chat.mjs'
import { cat, CHAT, NUM, OBJ, OPS, outputs, runOp, S, T } from '../lib/ops.mjs'
import { ABORTS, build, chatScenario, MAIN } from '../lib/suite.mjs'
import { C, treeKey } from '../lib/harness.mjs'
import { cancelStream } from '../lib/natives.mjs'

const streaming = CHAT.filter(id => OPS[id].stream)
const boom = (n = 'boom') => I => I.A.error('Error', n)
export const turns = [{ text: [T('t0')], calls: [{ id: C('id-0'), name: 'alpha', args: ['{}'] }] }, { text: [T('t1')] }]
const brk = at => ({ turns: turns.map((t, i) => (i === at ? { ...t, end: 'errored', noDone: true, broken: true } : t)) })
const raw = (id, at, data) => ({ rawAt: at, data })
const cbErr = cb => ({ name: cb, err: { $p: 'defined' } })
void cbErr

/** every returned stream and promise has settled, in the given way (null: either way, consistently) */
export const settled = (s, R, o, how, err = { $p: 'defined' }) => {
  if (R.err) {
    if (how !== 'fails' && how !== null && !R.ok)
      return s.must('the call returns', false, 'it fails')
    s.is('the rejection is the underlying error', R.A.tree(R.err.st, R.err.v), err)
  }
  if (!R.ok)
    return s.must('the call returns or fails', !!R.err, 'neither')
  const out = outputs(R)
  const ends = []
  for (const name of o.promises ?? []) {
    const p = out.promises[name]
    if (!s.must(`promise ${name} settles`, !!p && (!!p.ok || !!p.err), p ? 'it never settles on some path' : 'missing from the result'))
      continue
    ends.push(p.ok && p.err ? 'mixed' : p.ok ? 'ok' : 'fails')
    if (how)
      s.must(`promise ${name} ${how === 'ok' ? 'resolves' : 'rejects'}`, ends.at(-1) === how, `it may ${ends.at(-1) === 'ok' ? 'resolve' : ends.at(-1) === 'mixed' ? 'do either' : 'reject'}`)
    if (how === 'fails' && p.err)
      s.is(`promise ${name} carries the underlying error`, p.err, err)
  }
  for (const name of o.streams ?? []) {
    const st = out.streams[name]
    if (!s.must(`stream ${name} ends`, !!st && st.end.length >= 1 && st.end.every(e => e === 'closed' || e === 'errored'), st ? st.end.join('|') : 'missing from the result'))
      continue
    ends.push(st.end.length > 1 ? 'mixed' : st.end[0] === 'closed' ? 'ok' : 'fails')
    if (how)
      s.must(`stream ${name} ${how === 'ok' ? 'closes' : 'errors'}`, ends.at(-1) === how, `it ends ${st.end.join('|')}`)
    if (how === 'fails' && st.err)
      s.is(`stream ${name} carries the underlying error`, st.err, err)
  }
  if (how === null)
    s.must('everything ends the same way', new Set(ends).size === 1, ends.join())
  return out
}

// ------------------------------------------------------------------ C14
const ERR = T('brokenReason')
export const chatEndings = (o) => {
  const isRes = o.msgKey === 'input'
  const E = {
    'normal': { how: 'ok' },
    'fetch throws synchronously': { respond: (I, n, q, node, A) => I.throwValue(A.error('Error', 'sync')), err: open({ message: ABSENT_OR_ANY }) },
  }
  for (const at of [0, 1]) {
    const n = at ? ' in the second step' : ''
    Object.assign(E, {
      [`rejected fetch${n}`]: { respond: (I, k, q, node, A) => (k === at ? I.rejectedPromise(A.error('TypeError', 'net'), `netrej${I.ctx}`) : null), err: errorOf('TypeError') },
      [`aborted fetch${n}`]: { respond: (I, k) => (k === at ? I.rejectedPromise(T('abortReason'), `abrej${I.ctx}`) : null), err: T('abortReason') },
      [`error status${n}`]: { respond: (I, k, q, node, A) => (k === at ? { ok: false, json: A.val({}) } : null), err: errorOf('APICallError') },
      [`no body${n}`]: { respond: (I, k) => (k === at ? { ok: true, body: C(null) } : null), err: errorOf('InvalidResponseError') },
      [`malformed event${n}`]: { bad: { at, data: C('{"x"') }, err: errorOf('JSONParseError') },
      [`error payload${n}`]: { bad: { at, data: C('{"error":{"message":"x"}}') }, err: errorOf('RemoteAPIError') },
      [`connection breaks before data${n}`]: { bad: { at, end: true }, err: ERR },
      [`connection breaks after data${n}`]: { bad: { at, end: true, after: true }, err: ERR },
    })
  }
  const opt = (name, f) => ({ options: A => ({ [name]: f(A) }) })
  const thr = n => opt(n, A => A.fn(n, undefined, { throws: I => A.error('RangeError', n) }))
  const rej = n => opt(n, A => A.fn(n, undefined, { rejects: A.error('RangeError', n) }))
  for (const n of ['stopWhen', 'prepareStep', 'onEvent', 'onStepFinish', 'onFinish']) E[`${n} throws`] = { ...thr(n), err: errorOf('RangeError') }
  for (const n of ['prepareStep', 'onFinish']) E[`${n} rejects`] = { ...rej(n), err: errorOf('RangeError') }
  E['onEvent throws on a late event'] = { options: A => ({ onEvent: A.fn('onEvent', (I, args, node) => {
    const t = I.getProp(args[0], C('type'), node)
    return t.t === 'const' && t.v === 'step.done' ? I.throwValue(A.error('RangeError', 'late')) : C(undefined)
  }) }), err: errorOf('RangeError') }
  E['a failing tool'] = { exec: { alpha: { throws: I => I.A.error('Error', 'tool') } }, how: 'ok' }
  E['a failing hook'] = { options: A => ({ preToolCall: A.fn('pre', undefined, { throws: I => A.error('Error', 'pre') }), postToolCall: A.fn('post', undefined, { rejects: A.error('Error', 'post') }) }), how: 'ok' }
  E['hook answers for another call'] = { options: A => ({ preToolCall: A.fn('pre', () => A.val({ args: {}, result: 'x', toolCallId: 'other', toolName: 'alpha' })) }), err: errorOf('InvalidToolCallError') }
  E['an unnamed call'] = { turns: [{ calls: [{ id: T('c0'), args: ['{}'] }] }], tools: ['alpha'], err: errorOf('InvalidToolCallError') }
  E['a failing run whose finish callback fails too'] = { ...opt('onFinish', A => A.fn('onFinish', undefined, { throws: I => A.error('RangeError', 'late') })), respond: (I, k, q, node, A) => ({ ok: false, json: A.val({}) }), err: errorOf('APICallError') }
  if (!isRes)
    E['nothing but the end marker'] = { bad: { at: 0, only: true }, how: 'ok' }
  return E
}
const ABSENT_OR_ANY = { $p: 'any' }
const sseOf = (I, A, o, e, turn) => {
  const spec = o.reply(A, I, turn, 9)
  void spec
  if (e.bad.only)
    return A.sse(I, [C('[DONE]')], { name: 'only' })
  if (e.bad.end && !e.bad.after)
    return A.sse(I, [], { end: 'errored', err: ERR, name: `brk${e.bad.at}` })
  return null
}
/** respond function for endings that tamper with the body of one response */
export const respondBad = (o, e, list) => (I, n, q, node, A) => {
  if (e.respond)
    return e.respond(I, n, q, node, A)
  if (!e.bad || n !== e.bad.at)
    return null
  const b = sseOf(I, A, o, e, list[n])
  if (b)
    return { ok: true, body: b }
  // tampered body: the first events of the normal one, then the fault
  const norm = o.reply(A, I, list[n], 50 + n).body
  const items = I.st.get(norm.id).items.slice(0, 2)
  const extra = e.bad.data ? [A.I.st.get(A.sse(I, [e.bad.data], { name: `x${n}` }).id).items[0]] : []
  const tail = e.bad.data ? I.st.get(norm.id).items.slice(2) : []
  const s = A.sse(I, [], { name: `tampered${n}`, end: e.bad.end ? 'errored' : 'closed', err: e.bad.end ? ERR : undefined })
  I.st.set(s.id, { ...I.st.get(s.id), items: [...items, ...extra, ...tail] })
  return { ok: true, body: s }
}
export const C14 = (rep) => {
  for (const id of streaming) {
    const o = OPS[id]
    for (const [key, e] of Object.entries(chatEndings(o))) {
      rep.scenario(`${id}: ${key}`, (s) => {
        const list = (e.turns ?? turns).map((t, i) => ({ usage: i, ...t }))
        const R = runChat(s, id, { stop: 9, turns: list, tools: e.tools, exec: e.exec, respond: respondBad(o, e, list), options: (A) => {
          A.I.A = A
          return typeof e.options === 'function' ? e.options(A) : {}
        } })
        settled(s, R, o, e.how ?? 'fails', e.err)
      })
    }
    for (const k of ABORTS) {
      if (!build(id, k))
        continue
      rep.scenario(`${id}: ${k}`, (s) => {
        const { R } = chatScenario(s, id, k)
        settled(s, R, o, null)
      })
    }
    for (const k of MAIN) {
      const sc = build(id, k)
      if (!sc)
        continue
      rep.scenario(`${id}: ${k}`, (s) => {
        const { R } = chatScenario(s, id, k)
        settled(s, R, o, sc.fail ? 'fails' : 'ok', sc.fail)
      })
    }
  }
  for (const id of streaming) {
    for (const n of OPS[id].streams) {
      rep.scenario(`${id}: ${n} is cancelled, then the run fails`, (s) => {
        const ids = idsOf(cancelRun(s, id, { fails: true }))
        const R = cancelRun(s, id, { fails: true, respond: k => k === 0 && ids[n] })
        const out = outputs(R)
        s.must('the stream exists', !!ids[n], 'missing')
        for (const p of OPS[id].promises) s.must(`promise ${p} rejects`, !!out.promises[p]?.err && !out.promises[p].ok, 'it may resolve or stay open')
        for (const m of OPS[id].streams.filter(m => m !== n)) s.must(`stream ${m} fails`, out.streams[m]?.end.join() === 'errored', `it ends ${out.streams[m]?.end.join('|')}`)
      })
    }
  }
  for (const id of ['streamObject', 'streamSpeech', 'streamTranscription']) {
    const o = OPS[id]
    const list = [id === 'streamObject' ? { text: ['{"a"', ':1}'] } : {}]
    const E = Object.fromEntries(Object.entries(chatEndings(o)).filter(([k, e]) => (id === 'streamObject' ? !/second|tool|hook|unnamed/.test(k) : !/second|tool|hook|unnamed|throws on|rejects$|^on|callback|stopWhen|prepareStep/.test(k)) && k !== 'nothing but the end marker' && !(e.options && id !== 'streamObject')))
    for (const [key, e] of Object.entries(E)) {
      for (const output of id === 'streamObject' ? ['object', 'array'] : [null]) {
        rep.scenario(`${id}: ${key}${output ? ` (${output})` : ''}`, (s) => {
          const t = output === 'array' ? [{ text: ['{"elements":[1', ',2]}'] }] : list
          const R = runOp(s, id, { turns: t, respond: respondBad(o, e, t), options: (A) => {
            A.I.A = A
            return { ...(output ? { output } : {}), ...(typeof e.options === 'function' ? e.options(A) : {}) }
          } })
          const spec = output === 'array' ? { ...o, streams: [...o.streams.filter(x => x !== 'partialObjectStream'), 'elementStream'] } : o
          settled(s, R, spec, e.how ?? 'fails', e.err)
        })
      }
    }
  }
  rep.scenario('streamSpeech: no usage', (s) => {
    const R = runOp(s, 'streamSpeech', { turns: [{ usage: null }] })
    const out = settled(s, R, OPS.streamSpeech, 'ok')
    s.is('the usage promise resolves with undefined', out?.promises?.usage?.ok, ABSENT)
  })
  rep.scenario('streamSpeech: stream without a done event', (s) => {
    const R = runOp(s, 'streamSpeech', { turns: [{ events: [{ type: 'speech.audio.delta', audio: T('a') }] }] })
    settled(s, R, OPS.streamSpeech, 'ok')
  })
  rep.scenario('streamSpeech: empty stream', (s) => {
    const R = runOp(s, 'streamSpeech', { turns: [{ events: [] }] })
    settled(s, R, OPS.streamSpeech, 'ok')
  })
  rep.scenario('streamTranscription: empty stream', (s) => {
    const R = runOp(s, 'streamTranscription', { turns: [{ events: [] }] })
    settled(s, R, OPS.streamTranscription, 'ok')
  })
}

// ------------------------------------------------------------------ comparing two runs
const same = (s, rule, a, b) => s.must(rule, a === b, a === b ? '' : diff(a, b))
const diff = (a = '', b = '') => {
  let i = 0
  while (i < a.length && a[i] === b[i]) i++
  return `differs at …${a.slice(Math.max(0, i - 60), i + 120)}… vs …${b.slice(Math.max(0, i - 60), i + 120)}…`
}
/** everything observable about a run, as comparable text */
export const observe = (R, { skip = [], labels = () => true } = {}) => {
  const out = R.o.promises || R.o.streams ? (R.ok ? outputs(R) : null) : null
  const o = {}
  o.log = R.entries(l => (l.startsWith('cb:') || l === 'fetch') && labels(l)).map(e => `${e.label} ${treeKey(norm(e.tree))}`)
  o.error = R.err ? treeKey(norm(R.A.tree(R.err.st, R.err.v))) : ''
  if (out) {
    for (const [k, p] of Object.entries(out.promises)) o[`promise ${k}`] = `${p.ok ? treeKey(norm(p.ok)) : '-'} / ${p.err ? treeKey(norm(p.err)) : '-'}`
    for (const [k, st] of Object.entries(out.streams)) {
      if (!skip.includes(k))
        o[`stream ${k}`] = `${st.items.map(t => treeKey(norm(t))).join('; ')} * ${st.star ? treeKey(norm(st.star)) : ''} ${st.end.join('|')} ${st.err ? treeKey(norm(st.err)) : ''}`
    }
    for (const [k, v] of Object.entries(out.values)) o[`value ${k}`] = treeKey(norm(v))
  }
  else { o.result = R.ok ? treeKey(norm(R.A.tree(R.ok.st, R.ok.v))) : '' }
  return o
}
/** traced functions are wrapped closures: compare them by being functions */
const norm = (t) => {
  if (!t)
    return t
  if (t.kind === 'fn')
    return { kind: 'const', v: '<function>' }
  if (t.kind === 'union')
    return { ...t, alts: t.alts.map(norm) }
  if (t.kind === 'array')
    return { ...t, items: t.items.map(norm), star: t.star ? norm(t.star) : null }
  if (t.kind === 'op' && t.tree)
    return { kind: 'object', props: { [`${t.v.op}()`]: { v: norm(t.tree) } } }
  if (t.props)
    return { ...t, items: t.items?.map(norm), props: Object.fromEntries(Object.entries(t.props).filter(([k]) => k !== 'stack').map(([k, e]) => [k, { ...e, v: norm(e.v) }])) }
  return t
}
export const sameRuns = (s, a, b, what, anyOrder) => {
  // work that goes on at the same time has no order of its own
  if (anyOrder)
    [a, b] = [a, b].map(x => ({ ...x, log: x.log.toSorted() }))
  for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
    if (k === 'log') {
      s.must(`${what}: as many requests, callbacks and tool runs`, a.log.length === b.log.length, `${a.log.length} vs ${b.log.length}: ${a.log.map(x => x.split(' ')[0]).join(' ')} vs ${b.log.map(x => x.split(' ')[0]).join(' ')}`)
      a.log.forEach((x, i) => same(s, `${what}: effect ${i + 1}`, x, b.log[i]))
    }
    else { same(s, `${what}: ${k}`, a[k], b[k]) }
  }
}

// ------------------------------------------------------------------ C15
const idsOf = R => Object.fromEntries((R.o.streams ?? []).map(n => [n, R.A.with(R.ok.st, I => I.rec(R.ok.v)?.props.get(n)?.v?.id)]))
const cancelNow = (I, id, node) => {
  if (I.st?.get(id))
    cancelStream(I, { t: 'ref', id, k: `r:${id}` }, T('notInterested'), node)
}
const cancelTurns = [{ reasoning: [T('r0')], text: [T('t0')], calls: [{ id: T('c0'), name: 'alpha', args: ['{}'] }] }, { reasoning: [T('r1'), T('r2')], text: [T('t1'), T('t2')] }]
const cancelRun = (s, id, p = {}) => runChat(s, id, {
  stop: 9,
  turns: cancelTurns,
  respond: (I, n, q, node) => {
    const x = p.respond?.(n)
    for (const y of [x].flat()) {
      if (y)
        cancelNow(I, y, node)
    }
    return p.fails && n === 1 ? { ok: false, json: I.A.val({}) } : null
  },
  exec: { alpha: { before: (I, a, node) => [p.tool].flat().forEach(y => y && cancelNow(I, y, node)) } },
  options: A => ({
    ...((A.I.A = A) && {}),
    onEvent: A.fn('onEvent', undefined, { before: (I, args, node) => {
      const t = p.event ? I.getProp(args[0], C('type'), node) : null
      if (t?.t === 'const' && t.v === 'text.delta')
        [p.event].flat().forEach(y => cancelNow(I, y, node))
    } }),
    onFinish: A.fn('onFinish', undefined, { before: (I, args, node) => [p.finish].flat().forEach(y => y && cancelNow(I, y, node)) }),
  }),
})
export const C15 = (rep) => {
  const POINTS = {
    'before the first response': id => ({ respond: n => n === 0 && id }),
    'before the second response': id => ({ respond: n => n === 1 && id }),
    'while a tool runs': id => ({ tool: id }),
    'while events arrive': id => ({ event: id }),
    'in the finish callback': id => ({ finish: id }),
  }
  const go = cancelRun
  for (const id of streaming) {
    const o = OPS[id]
    const groups = [...o.streams.map(n => [n]), ['textStream', 'reasoningTextStream'], ['eventStream', 'fullStream'], o.streams]
    for (const g of groups) {
      for (const [pk, mk] of Object.entries(POINTS)) {
        rep.scenario(`${id}: cancelling ${g.join(' and ')} ${pk}`, (s) => {
          const base = go(s, id)
          if (!s.must('the call returns its streams', !!base.ok, 'it fails'))
            return
          const ids = idsOf(base)
          const target = g.map(n => ids[n])
          s.must('the streams exist', target.every(Boolean), 'missing')
          const R = go(s, id, mk(target))
          const out = outputs(R)
          for (const n of o.promises) s.must(`promise ${n} resolves`, !!out.promises[n]?.ok && !out.promises[n].err, 'it may reject or stay open')
          sameRuns(s, observe(base, { skip: g }), observe(R, { skip: g }), 'as without cancelling')
        })
      }
      for (const pk of ['before the first response', 'while a tool runs']) {
        rep.scenario(`${id}: cancelling ${g.join(' and ')} ${pk}, then the run fails`, (s) => {
          const base = go(s, id, { fails: true })
          if (!s.must('the call returns its streams', !!base.ok, 'it fails'))
            return
          const ids = idsOf(base)
          const target = g.map(n => ids[n])
          s.must('the streams exist', target.every(Boolean), 'missing')
          const R = go(s, id, { fails: true, ...POINTS[pk](target) })
          const out = outputs(R)
          for (const n of o.promises) s.must(`promise ${n} rejects`, !!out.promises[n]?.err && !out.promises[n].ok, 'it may resolve or stay open')
          for (const n of o.streams.filter(n => !g.includes(n))) s.must(`stream ${n} fails`, out.streams[n]?.end.join() === 'errored', `it ends ${out.streams[n]?.end.join('|')}`)
          sameRuns(s, observe(base, { skip: g }), observe(R, { skip: g }), 'as without cancelling')
        })
      }
    }
  }
  // transcription: two streams and a promise
  for (const n of ['textStream', 'fullStream']) {
    rep.scenario(`streamTranscription: cancelling ${n}`, (s) => {
      const base = runOp(s, 'streamTranscription', {})
      const target = idsOf(base)[n]
      const R = runOp(s, 'streamTranscription', { respond: (I, k, q, node) => {
        cancelNow(I, target, node)
        return null
      } })
      s.must('the stream exists', !!target, 'missing')
      sameRuns(s, observe(base, { skip: [n] }), observe(R, { skip: [n] }), 'as without cancelling')
    })
  }
  // object streams: the text stream is split
  for (const output of ['object', 'array']) {
    const names = ['textStream', output === 'object' ? 'partialObjectStream' : 'elementStream', 'eventStream', 'fullStream', 'reasoningTextStream']
    for (const n of names) {
      rep.scenario(`streamObject (${output}): cancelling ${n}`, (s) => {
        const mk = () => runOp(s, 'streamObject', { turns: [{ text: [output === 'object' ? '{"a"' : '{"elements":[1', output === 'object' ? ':1}' : ',2]}'] }], options: { output }, harness: { partialParse } })
        const base = mk()
        const R = mk()
        if (!s.must('the call returns its streams', !!base.ok && !!R.ok, 'it fails'))
          return
        const id = R.A.with(R.ok.st, I => I.rec(R.ok.v)?.props.get(n)?.v?.id)
        if (!s.must('the stream exists', !!id, 'missing'))
          return
        const first = outputs(base)
        for (const k of names) {
          if (first.streams[k])
            s.must(`stream ${k} can be read`, first.streams[k].end.join() === 'closed', `it ends ${first.streams[k].end.join('|')}`)
        }
        R.A.with(R.ok.st, I => cancelNow(I, id))
        sameRuns(s, observe(base, { skip: [n] }), observe(R, { skip: [n] }), 'as without cancelling')
      })
    }
  }
}
/** best-effort parsing of constant texts (reference for the dependency) */
export const partialParse = (I, a) => {
  if (a.t !== 'const')
    return I.A ? OBJ(`partial(${a.k})`) : OBJ(`partial(${a.k})`)
  let v
  try {
    v = lenient(String(a.v))
  }
  catch { return I.throwError('SyntaxError', 'nothing to parse') }
  return I.fromJS ? I.fromJS(v) : C(v)
}
/** value of a cut-off JSON text: unfinished strings, arrays and objects count as they stand */
export const lenient = (text) => {
  let i = 0
  const ws = () => {
    while (/\s/.test(text[i] ?? '')) i++
  }
  const NONE = Symbol('none')
  const value = () => {
    ws()
    const c = text[i]
    if (c === undefined)
      return NONE
    if (c === '{') {
      i++
      const o = {}
      for (;;) {
        ws()
        if (text[i] === ',') {
          i++
          continue
        }
        if (i >= text.length || text[i] === '}') {
          i++
          return o
        }
        const k = value()
        ws()
        if (text[i] === ':') {
          i++
          const v = value()
          if (v !== NONE)
            o[k] = v
        }
        else { return o }
      }
    }
    if (c === '[') {
      i++
      const l = []
      for (;;) {
        ws()
        if (text[i] === ',') {
          i++
          continue
        }
        if (i >= text.length || text[i] === ']') {
          i++
          return l
        }
        const v = value()
        if (v === NONE)
          return l
        l.push(v)
      }
    }
    if (c === '"') {
      let s = ''
      i++
      while (i < text.length && text[i] !== '"') {
        s += text[i] === '\\' ? text[++i] ?? '' : text[i]
        i++
      }
      i++
      return s
    }
    const m = /^(?:true|false|null|-?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?)/.exec(text.slice(i))
    if (m) {
      i += m[0].length
      return JSON.parse(m[0])
    }
    i = text.length
    return NONE
  }
  const v = value()
  if (v === NONE)
    throw new Error('empty')
  return v
}

// ------------------------------------------------------------------ C25
export const C25 = (rep) => {
  for (const id of ['tracedGenerateText', 'tracedStreamText']) {
    const o = OPS[id]
    for (const k of [...MAIN, ...ABORTS]) {
      if (!build(id, k))
        continue
      rep.scenario(`${id}: ${k}`, (s) => {
        const plain = chatScenario(s, o.traced, k)
        const traced = chatScenario(s, id, k, { options: { telemetry: { attributes: { attr: T('attr') }, metadata: {} } } })
        sameRuns(s, observe(plain.R), observe(traced.R), 'as the plain operation', build(id, k).lastFirst)
      })
    }
    const E = chatEndings(OPS[o.traced])
    for (const [k, e] of Object.entries(E)) {
      rep.scenario(`${id}: ending: ${k}`, (s) => {
        const list = (e.turns ?? turns).map((t, i) => ({ usage: i, ...t }))
        const go = x => runChat(s, x, { stop: 9, turns: list, tools: e.tools, exec: e.exec, respond: o.stream ? respondBad(o, e, list) : e.respond, options: (A) => {
          A.I.A = A
          return typeof e.options === 'function' ? e.options(A) : {}
        } })
        sameRuns(s, observe(go(o.traced)), observe(go(id)), 'as the plain operation')
      })
    }
  }
  for (const id of ['tracedEmbed', 'tracedEmbedMany']) {
    const o = OPS[id]
    const KINDS = {
      'success': {},
      'extra options': { options: A => ({ dimensions: 3, userName: T('u'), apiKey: T('k'), headers: A.val({ 'x-a': T('h') }), abortSignal: A.signal() }) },
      'error status': { respond: (I, n, q, node, A) => ({ ok: false, json: A.val({}) }) },
      'rejected fetch': { respond: (I, n, q, node, A) => I.rejectedPromise(A.error('TypeError', 'net'), `netrej${I.ctx}`) },
      'not JSON': { respond: (I, n, q, node, A) => ({ ok: true, body: A.sse(I, []), text: C('{"x"') }) },
      'no data': { respond: (I, n, q, node, A) => ({ ok: true, body: A.sse(I, []), json: A.val({ data: [], usage: null }) }) },
    }
    for (const [k, cfg] of Object.entries(KINDS)) {
      rep.scenario(`${id}: ${k}`, (s) => {
        const plain = runOp(s, o.traced, cfg)
        const traced = runOp(s, id, { ...cfg, options: A => ({ ...(cfg.options?.(A) ?? {}), telemetry: { attributes: { attr: T('attr') } } }) })
        sameRuns(s, observe(plain), observe(traced), 'as the plain operation')
      })
    }
  }
}
void [brk, raw, boom, cat, NUM, S]
