// Step preparation: C24
import { errorOf, open } from '../lib/check.mjs'
import { expectChat, initialInput, runChat } from '../lib/chat.mjs'
import { CHAT, OBJ, OPS, outputs, runOp, S, T } from '../lib/ops.mjs'
import { ASPECTS, build, checkChat, MAIN } from '../lib/suite.mjs'
import { alts, C, UNDEF } from '../lib/harness.mjs'

const HACK = T('hacked')
/** overwrite everything reachable from a value: what a hostile hook could do with its arguments */
const vandalise = (I, v, seen = new Set()) => {
  for (const a of alts(v)) {
    const x = a.v
    const r = I.rec(x)
    if (!r || seen.has(x.id))
      continue
    seen.add(x.id)
    for (const e of r.props?.values() ?? []) vandalise(I, e.v, seen)
    for (const e of r.items ?? []) vandalise(I, e, seen)
    const q = I.st.get(x.id)
    if (q.kind === 'array') {
      I.st.set(x.id, { ...q, items: [HACK] })
    }
    else if (q.kind === 'object') {
      const props = new Map([...q.props].map(([k, e]) => [k, { ...e, v: HACK }]))
      props.set('hacked', { v: HACK, may: false })
      I.st.set(x.id, { ...q, props })
    }
  }
}
const turns = [
  { text: [T('t0')], calls: [{ id: T('c0'), name: 'alpha', args: ['{"x":', '1}'] }, { id: T('c1'), name: 'beta', args: ['{}'] }] },
  { calls: [{ id: T('c2'), name: 'alpha', args: ['{"y":2}'] }] },
  { text: [T('t9')] },
]
const seven = [...[0, 1, 2, 3, 4, 5].map(i => ({ text: [T(`t${i}`)], calls: [{ id: T(`c${i}`), name: i % 2 ? 'alpha' : 'beta', args: [`{"n":${i}}`] }] })), { text: [T('t9')] }]
const ALL = ['requests', 'model', 'steps', 'result', 'usage', 'execs', 'stepCallback', 'finishCallback', 'stopCondition', 'order', 'events', 'texts']
const num = (I, args, node) => {
  const n = I.getProp(args[0], C('stepNumber'), node)
  return n.t === 'const' ? n.v : null
}
/** scenarios: hook(A) gives the hook; prepare describes its effect on the requests */
const HOOKS = {
  'a hook that looks only': { hook: A => A.fn('prepareStep') },
  'an asynchronous hook that looks only': { hook: A => A.fn('prepareStep', UNDEF, { async: true }) },
  'a hook that gives null': { hook: A => A.fn('prepareStep', C(null), { async: true }) },
  'a hook that gives an empty object': { hook: A => A.fn('prepareStep', () => A.val({})) },
  'a hook that gives undefined fields': { hook: A => A.fn('prepareStep', () => A.val({ input: undefined, model: undefined, toolChoice: undefined }), { async: true }) },
  'a hook that overwrites its arguments': { hook: A => A.fn('prepareStep', UNDEF, { before: (I, args) => vandalise(I, args[0]) }) },
  'a hook that overwrites its arguments asynchronously': { hook: A => A.fn('prepareStep', UNDEF, { async: true, before: (I, args) => vandalise(I, args[0]) }) },
  'a hook that overwrites the arguments of earlier calls': {
    hook: (A) => {
      const kept = []
      return A.fn('prepareStep', UNDEF, { before: (I, args) => {
        kept.forEach(v => vandalise(I, v))
        kept.push(args[0])
      } })
    },
  },
  'a hook that gives other models': { prepare: [{ model: T('m0') }, {}, { model: S('m2') }] },
  'a hook that gives the tool choice of one step': { prepare: [{}, { toolChoice: 'none' }, {}] },
  'a hook that removes nothing from a given tool choice': { prepare: [{ toolChoice: 'required' }, {}, { toolChoice: 'none' }], toolChoice: 'auto' },
  'a hook that gives the input of the first step': { prepare: [{ input: [OBJ('prepared')] }, {}, {}] },
  'a hook that gives the input of every step': { prepare: [{ input: [OBJ('p0')] }, { input: [OBJ('p1'), OBJ('p1b')] }, { input: [OBJ('p2')] }] },
  'a hook that gives an empty input': { prepare: [{}, { input: [] }, {}] },
  'a hook that gives everything': { prepare: [{ input: [OBJ('p0')], model: T('m0'), toolChoice: 'none' }, {}, { input: [OBJ('p2')], model: T('m2'), toolChoice: 'required' }], toolChoice: 'auto' },
  'a hook that looks at seven steps': { hook: A => A.fn('prepareStep'), turns: seven },
  'a hook that changes some of seven steps': { prepare: [{}, { model: T('m1') }, {}, { toolChoice: 'none' }, {}, {}, { model: T('m6') }], turns: seven },
  'a hook that gives and overwrites one object': {
    // the object it gave for the first step changes while the second is prepared
    prepare: [{ input: [OBJ('p0')], model: T('m0') }, {}, {}],
    hook: (A) => {
      let given = null
      return A.fn('prepareStep', (I, args, node) => {
        if (given) {
          vandalise(I, given)
          return UNDEF
        }
        void num(I, args, node)
        given = A.val({ input: [OBJ('p0')], model: T('m0') }, {}, 'given')
        return given
      })
    },
  },
  'a hook that gives back its own arguments, overwritten later': {
    prepare: [{}, {}, {}],
    hook: (A) => {
      const kept = []
      return A.fn('prepareStep', (I, args, node) => {
        kept.forEach(v => vandalise(I, v))
        const input = I.getProp(args[0], C('input'), node)
        kept.push(input)
        return A.val({ input }, {}, `back${kept.length}`)
      })
    },
  },
}

export const C24 = (rep) => {
  for (const id of CHAT) {
    const o = OPS[id]
    for (const [key, h] of Object.entries(HOOKS)) {
      rep.scenario(`${id}: ${key}`, (s) => {
        const sc = { stop: 9, turns: h.turns ?? turns, prepare: h.prepare, toolChoice: h.toolChoice }
        const E = expectChat(id, sc)
        const R = runChat(s, id, { ...sc, options: (A) => {
          A.I.A = A
          const prepareStep = h.hook?.(A) ?? A.fn('prepareStep', (I, args, node) => {
            const p = h.prepare[num(I, args, node)]
            return p === undefined ? UNDEF : A.val(p)
          }, { async: true })
          return { prepareStep, ...(h.toolChoice ? { toolChoice: h.toolChoice } : {}) }
        } })
        const x = { R, E, sc: E.sc, o, out: E.isStream ? outputs(R) : null }
        ASPECTS.exact(s, x)
        for (const a of ALL) ASPECTS[a](s, x)
        hookCalls(s, R, E, o)
        s.is('the options object of the caller is untouched', R.st && R.A.tree(R.st, R.options), open({ model: 'gpt-x', [o.msgKey]: [initialInput[o.msgKey]] }))
      })
    }
    rep.scenario(`${id}: no hook`, (s) => {
      const sc = { stop: 9, turns, toolChoice: 'auto' }
      const E = expectChat(id, sc)
      const R = runChat(s, id, { ...sc, options: { toolChoice: 'auto' } })
      const x = { R, E, sc: E.sc, o, out: E.isStream ? outputs(R) : null }
      ASPECTS.exact(s, x)
      for (const a of ['requests', 'model', 'steps', 'result']) ASPECTS[a](s, x)
    })
    for (const [how, extra, at] of [['throws', { throws: I => I.A.error('RangeError', 'prep') }, 0], ['rejects in the second step', {}, 1]]) {
      rep.scenario(`${id}: a hook that ${how}`, (s) => {
        const R = runChat(s, id, { stop: 9, turns, options: (A) => {
          A.I.A = A
          return { prepareStep: A.fn('prepareStep', (I, args, node) => (num(I, args, node) === 1 ? I.throwValue(A.error('RangeError', 'prep')) : UNDEF), extra) }
        } })
        s.must('the unprepared request is not sent', R.requests.length === at, `${R.requests.length} requests`)
        const done = R.calls('onStepFinish').length
        s.must('no step is recorded for it', done === at, `${done} steps`)
        if (o.stream) {
          for (const n of o.promises) s.is(`promise ${n} rejects with its error`, outputs(R).promises[n]?.err, errorOf('RangeError'))
        }
        else { s.is('the run rejects with its error', R.err && !R.ok ? R.A.tree(R.err.st, R.err.v) : null, errorOf('RangeError')) }
      })
    }
    for (const k of MAIN.filter(k => /prepareStep/.test(k))) {
      if (build(id, k))
        checkChat(rep, id, k, ['requests', 'model', 'steps', 'result'])
    }
  }
  for (const id of ['generateObject', 'streamObject']) {
    rep.scenario(`${id}: the hook prepares its request`, (s) => {
      const R = runOp(s, id, { turns: [{ text: ['{"a":1}'] }], harness: { partialParse: undefined }, options: A => ({ prepareStep: A.fn('prepareStep', () => A.val({ model: T('m0'), input: [OBJ('p0')] }), { before: (I, args) => vandalise(I, args[0]) }) }) })
      const got = R.calls('prepareStep')
      s.must('the hook is called once', got.length === 1, `${got.length} calls`)
      s.is('it gets the step', got[0]?.[0], { input: [initialInput.messages], model: 'gpt-x', stepNumber: 0, steps: [] })
      s.must('one request is sent', R.requests.length === 1, `${R.requests.length}`)
      s.is('it carries what the hook gave', R.requests[0]?.json, open({ model: T('m0'), messages: [OBJ('p0')] }))
    })
  }
}
const hookCalls = (s, R, E, o) => {
  const got = R.entries('cb:prepareStep')
  const f = R.entries('fetch').map(e => e.i)
  const sf = R.entries('cb:onStepFinish').map(e => e.i)
  s.must('the hook is called once per request', got.length === E.requests.length && got.every(g => g.sure), `${got.length} calls for ${E.requests.length} requests`)
  const base = [initialInput[o.msgKey]]
  got.forEach((g, i) => {
    // the recorded conversation before this request, whatever earlier requests were given
    const rec = expectChat(o.id, { ...E.sc, prepare: undefined }).requests[i]
    s.is(`call ${i + 1} gets conversation, model, step number and steps`, g.tree.items[0], { input: rec ?? base, model: 'gpt-x', stepNumber: i, steps: E.steps.slice(0, i) })
    s.must(`call ${i + 1} comes right before its request`, g.i < f[i] && (i === 0 || (f[i - 1] < g.i && sf[i - 1] < g.i)), 'it is out of order')
  })
}

