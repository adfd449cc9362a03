// Tool loop, steps, usage, events: C08–C13, C16, C17
import { ABSENT, errorOf, open } from '../lib/check.mjs'
import { runChat } from '../lib/chat.mjs'
import { CHAT, chunksOf, eventsOf, NUM, OBJ, OPS, outputs, T } from '../lib/ops.mjs'
import { ABORTS, build, checkChat, concerns, MAIN } from '../lib/suite.mjs'
import { allFail } from './http.mjs'

const over = (rep, aspects, { ops = CHAT, keys = MAIN, when = () => true, cfg } = {}) => {
  for (const id of ops) {
    for (const k of keys) {
      const sc = build(id, k)
      if (!sc || !concerns(sc, aspects) || !when(sc, OPS[id], k))
        continue
      checkChat(rep, id, k, aspects, cfg)
    }
  }
}
const good = sc => !sc.fail
const streaming = CHAT.filter(id => OPS[id].stream)

export const C08 = (rep) => {
  over(rep, ['requestCount', 'stopCondition', 'order', 'execs'], { when: good })
  over(rep, ['failStop', 'order'], { when: sc => sc.fail })
  over(rep, ['abort'], { keys: ABORTS })
}

export const C09 = (rep) => {
  over(rep, ['execs', 'hooks', 'order'], { when: good })
  over(rep, ['failExecs'], { when: sc => sc.fail })
  over(rep, ['abort'], { keys: ABORTS })
  // whatever the arguments, and whatever the validator says
  for (const id of CHAT) {
    const turns = [{ calls: [{ id: T('c0'), name: 'alpha', args: [T('anyArgs')] }] }, { text: [T('t1')] }]
    const gated = (key, validate, want) => rep.scenario(`${id}: ${key}`, (s) => {
      const R = runChat(s, id, { turns, toolExtra: A => ({ validate: validate(A) }) })
      const seen = R.A.I.events.filter(e => e.label === 'cb:exec:alpha')
      const asked = R.A.I.events.filter(e => e.label === 'cb:validate')
      s.must('the validator is consulted', asked.length > 0)
      if (!want)
        return s.must('no refused input reaches the tool', seen.length === 0, 'the tool may run', seen[0]?.at)
      s.must('the tool is reachable', seen.length > 0)
      for (const e of seen) s.is('the tool only ever gets what the validator gave', e.trees[0], want)
    })
    gated('arbitrary arguments, the validator refuses', A => A.fn('validate', () => A.val({ issues: [{ message: T('issue') }] })))
    gated('arbitrary arguments, the validator refuses later', A => A.fn('validate', () => A.val({ issues: [{ message: T('issue') }] }), { async: true }))
    gated('arbitrary arguments, the validator throws', A => A.fn('validate', undefined, { throws: A.error('Error', 'boom') }))
    gated('arbitrary arguments, the validator gives a value', A => A.fn('validate', () => A.val({ value: OBJ('valid') })), OBJ('valid'))
  }
}

export const C10 = (rep) => {
  over(rep, ['requests', 'steps', 'result', 'hooks', 'execs'], { when: (sc, o, k) => !sc.fail && /tool|hook|argument|validator|unknown/.test(k) })
  over(rep, ['failure', 'failStop'], { when: sc => sc.fail })
}

export const C11 = (rep) => {
  over(rep, ['requests', 'result', 'model'], { when: good })
}

export const C12 = (rep) => {
  over(rep, ['steps', 'stepCallback', 'finishCallback', 'result'], { when: good })
  const two = [{ text: [T('t0')], calls: [{ id: T('c0'), name: 'alpha', args: ['{}'] }] }, { calls: [{ id: T('c1'), name: 'alpha', args: ['{}'] }] }, { text: [T('t2')] }]
  const ENDINGS = {
    'the first request fails': { steps: 0, respond: (I, n, q, node, A) => (n === 0 ? { ok: false, json: A.val({}) } : null) },
    'the second request fails': { steps: 1, respond: (I, n, q, node, A) => (n === 1 ? { ok: false, json: A.val({}) } : null) },
    'the third request fails': { steps: 2, respond: (I, n, q, node, A) => (n === 2 ? { ok: false, json: A.val({}) } : null) },
    'fetch rejects in the second step': { steps: 1, respond: (I, n, q, node, A) => (n === 1 ? I.rejectedPromise(A.error('TypeError', 'net'), `netrej${I.ctx}`) : null) },
    'the step callback throws': { steps: 1, options: A => ({ onStepFinish: A.fn('onStepFinish', undefined, { throws: I => A.error('Error', 'cb') }) }) },
    'the event callback throws': { steps: 0, options: A => ({ onEvent: A.fn('onEvent', undefined, { throws: I => A.error('Error', 'cb') }) }) },
    'the stop condition throws': { steps: 0, options: A => ({ stopWhen: A.fn('stopWhen', undefined, { throws: I => A.error('Error', 'cb') }) }) },
    'prepareStep rejects': { steps: 0, options: A => ({ prepareStep: A.fn('prepareStep', undefined, { rejects: A.error('Error', 'cb') }) }) },
    'the finish callback throws': { steps: 3, options: A => ({ onFinish: A.fn('onFinish', undefined, { throws: I => A.error('Error', 'cb') }) }) },
    'the finish callback rejects': { steps: 3, options: A => ({ onFinish: A.fn('onFinish', undefined, { rejects: A.error('Error', 'cb') }) }) },
    'a request fails and the finish callback throws': { steps: 1, respond: (I, n, q, node, A) => (n === 1 ? { ok: false, json: A.val({}) } : null), options: A => ({ onFinish: A.fn('onFinish', undefined, { throws: I => A.error('Error', 'cb') }) }), err: errorOf('APICallError') },
    'an invalid tool call ends the run': { steps: 0, turns: [{ calls: [{ id: T('c0'), args: ['{}'] }] }], tools: ['alpha'] },
  }
  for (const id of streaming) {
    for (const [key, e] of Object.entries(ENDINGS)) {
      rep.scenario(`${id}: ${key}`, (s) => {
        const R = runChat(s, id, { stop: 9, turns: e.turns ?? two, tools: e.tools, respond: e.respond, options: e.options })
        const calls = R.calls('onFinish')
        s.must('the finish callback is called once', calls.length === 1 && R.exact, `${calls.length} calls`)
        const cb = R.calls('onStepFinish')
        s.must('one step callback per finished step', cb.length === e.steps, `${cb.length} calls for ${e.steps} steps`)
        s.is('the finish callback gets the last step', calls[0]?.[0], cb.length ? open({ text: cb.at(-1)[0]?.props?.text?.v ? pin(cb.at(-1)[0].props.text.v) : ABSENT }) : ABSENT)
        const f = R.entries('cb:onFinish').at(-1)
        s.must('the finish callback comes last', R.entries(l => l === 'fetch' || (l.startsWith('cb:') && l !== 'cb:onFinish')).every(x => !f || x.i < f.i), 'a callback or request follows it')
        allFail(s, R, OPS[id], e.err ?? { $p: 'defined' }, { items: false })
      })
    }
  }
}
const pin = t => (t.kind === 'const' ? t.v : t.v)

export const C13 = (rep) => {
  over(rep, ['usage'], { when: good })
}

export const C16 = (rep) => {
  over(rep, ['events', 'eventCallback', 'texts', 'requests', 'steps'], { ops: streaming, when: good })
}

export const C17 = (rep) => {
  over(rep, ['full'], { ops: streaming, when: good })
  // whatever the server sends: arbitrary JSON values as chunks
  for (const id of [...streaming]) {
    const ofTurn = t => (OPS[id].msgKey === 'input' ? eventsOf(t) : chunksOf(t))
    rep.scenario(`${id}: chunks of kinds this library does not know`, (s) => {
      const odd = [{ type: 'keepalive', sequence_number: NUM('n') }, { object: 'ping' }, { type: 'response.brand_new.delta', delta: T('d') }, { id: T('chunk.id'), type: 'x' }, {}]
      const turns = [{ text: [T('t0')] }].map((t, i) => ({ ...t, usage: i }))
      const list = turns.map(t => ofTurn(t).flatMap((c, i) => (i === 0 ? [odd[0], c, ...odd.slice(1)] : [c])))
      const R = runChat(s, id, { turns: turns.map((t, i) => ({ ...t, [OPS[id].msgKey === 'input' ? 'events' : 'chunks']: list[i] })) })
      const st = outputs(R).streams.fullStream
      s.is('the full stream delivers every chunk once, unmodified, in order', st && { kind: 'array', items: st.items, star: st.star }, list.flat())
      s.must('the full stream closes', !!st && st.end.length === 1 && st.end[0] === 'closed', st?.end.join('|'))
    })
    rep.scenario(`${id}: chunks that are no objects`, (s) => {
      const odd = [0, false, '', 'text', 7, true, []]
      const list = ofTurn({ text: [T('t0')], usage: 0 }).flatMap((c, i) => (i === 1 ? [...odd, c] : [c]))
      const R = runChat(s, id, { turns: [{ text: [T('t0')], usage: 0, [OPS[id].msgKey === 'input' ? 'events' : 'chunks']: list }] })
      const st = outputs(R).streams.fullStream
      s.is('the full stream delivers every chunk once, unmodified, in order', st && { kind: 'array', items: st.items, star: st.star }, list)
      s.must('the full stream closes', !!st && st.end.length === 1 && st.end[0] === 'closed', st?.end.join('|'))
    })
    rep.scenario(`${id}: chunks with fields this library does not know`, (s) => {
      const extra = c => ({ ...c, extra_field: T('extra'), nested: { a: [1, T('deep')] } })
      const turns = [{ text: [T('t0')], calls: [{ id: T('c0'), name: 'alpha', args: ['{}'] }] }, { text: [T('t1')] }].map((t, i) => ({ ...t, usage: i }))
      const list = turns.map(t => ofTurn(t).map(extra))
      const R = runChat(s, id, { turns: turns.map((t, i) => ({ ...t, [OPS[id].msgKey === 'input' ? 'events' : 'chunks']: list[i] })) })
      const st = outputs(R).streams.fullStream
      s.is('the full stream delivers every chunk once, unmodified, in order', st && { kind: 'array', items: st.items, star: st.star }, list.flat())
      s.must('the full stream closes', !!st && st.end.length === 1 && st.end[0] === 'closed', st?.end.join('|'))
    })
  }
}
