// C42: what the server has sent is delivered although nothing further has arrived yet
import { match, open } from '../lib/check.mjs'
import { CHAT, chunksOf, eventsOf, outputs, runOp, S, streamIs, T, TT } from '../lib/ops.mjs'
import { C, newStream, op, rec } from '../lib/harness.mjs'
import { rawTool, stopAt } from '../lib/chat.mjs'
import { lenientOf, samePlain } from './objects.mjs'
import { partialParse } from './settle.mjs'

const OPEN = { end: 'open', noDone: true }
const KINDS = ['text.delta', 'reasoning.delta', 'tool-call.start', 'tool-call.delta', 'tool-result.done']
const typeOf = t => t?.props?.type?.v?.v
/** every prefix quickly checked: after nothing, each event, all */
const prefixes = l => Array.from({ length: l.length + 1 }, (_, k) => l.slice(0, k))

/** what a chat stream owes for the raw chunks seen so far */
const owed = (id, chunks) => {
  const out = { text: [], reasoning: [], events: [] }
  const add = (kind, list, d) => {
    list.push(d)
    out.events.push({ type: `${kind}.delta`, delta: d })
  }
  for (const c of chunks) {
    if (id === 'responses') {
      if (/^response\.(?:output_text|refusal)\.delta$/.test(c.type))
        add('text', out.text, c.delta)
      else if (/^response\.reasoning(?:_summary_text)?\.delta$/.test(c.type))
        add('reasoning', out.reasoning, c.delta)
      else if (c.type === 'response.output_item.added' && c.item.type === 'function_call')
        out.events.push({ type: 'tool-call.start', toolCallId: c.item.call_id, toolName: c.item.name })
      else if (c.type === 'response.function_call_arguments.delta')
        out.events.push({ type: 'tool-call.delta', delta: c.delta })
      continue
    }
    const d = c.choices?.[0]?.delta ?? {}
    for (const k of ['reasoning_content', 'reasoning']) {
      if (d[k] !== undefined)
        add('reasoning', out.reasoning, d[k])
    }
    for (const k of ['content', 'refusal']) {
      if (d[k] !== undefined)
        add('text', out.text, d[k])
    }
    for (const t of d.tool_calls ?? []) {
      if (t.id)
        out.events.push({ type: 'tool-call.start', toolCallId: t.id, toolName: t.function.name })
      else out.events.push({ type: 'tool-call.delta', delta: t.function.arguments })
    }
  }
  return out
}
const deltasOf = list => list.filter(x => KINDS.includes(typeOf(x)))
/** deliveries of each kind, in order */
const inOrder = (s, rule, items, want) => {
  for (const k of KINDS) {
    const got = deltasOf(items).filter(x => typeOf(x) === k)
    const exp = want.filter(x => x.type === k)
    const r = match({ kind: 'array', items: got, star: null }, exp.map(open))
    if (!r.ok)
      s.add(`${rule}: ${k}`, r.imprecise ? 'undecided' : 'violated', `${got.length} of ${exp.length} delivered: ${r.why}`)
    else s.add(`${rule}: ${k}`, 'holds')
  }
}
const TURNS = {
  'text': { text: [T('t0'), T('t1'), T('t2')] },
  'blank text': { text: [C(''), TT('t1'), C(' ')] },
  'reasoning, then text': { reasoning: [T('r0'), T('r1')], text: [T('t0'), T('t1')] },
  'reasoning only': { reasoning: [T('r0'), T('r1')], reasoningField: 'reasoning' },
  'refusal': { refusal: [T('f0'), T('f1')] },
  'calls': { text: [T('t0')], calls: [{ id: T('c0'), name: 'alpha', args: ['{"x"', ':1}'] }, { id: T('c1'), name: 'beta', args: ['{', '}'] }] },
  'calls only': { calls: [{ id: T('c0'), name: 'alpha', args: ['{"a":', '[1,', '2]}'] }] },
}
const STREAMING = CHAT.filter(id => !/enerateText$/.test(id))
const tools = (A, extra = {}) => ({ tools: ['alpha', 'beta'].map(n => rawTool(A, n, A.fn(`exec:${n}`, T(`out:${n}`)))), stopWhen: stopAt(A, 3), ...extra })

export const C42 = (rep) => {
  const deep = rep.tier === 'thorough'
  const chat = (name, id, turn, options, before = null) => rep.scenario(`${id}: ${name}`, (s) => {
    const o = { responses: eventsOf }[id] ?? chunksOf
    // the event that ends a response may end its step
    const all = id === 'responses' ? o(turn).slice(0, -1) : o(turn)
    const list = deep || all.length < 5 ? prefixes(all) : prefixes(all).filter((_, k) => k % 2 === all.length % 2 || k === all.length - 1)
    for (const seen of list) {
      const last = { ...OPEN, ...(id === 'responses' ? { events: seen } : { chunks: seen }) }
      const R = runOp(s, id, { turns: before ? [before, last] : [last], strictTurns: false, mayBeBlank: true, options: A => ({ ...tools(A), ...Object.fromEntries(['onEvent', 'onStepFinish', 'onFinish'].map(k => [k, A.fn(k)])), ...(options?.(A) ?? {}) }) })
      const how = `${seen.length} of ${all.length} events, then silence`
      if (!s.must('the call returns', !!R.ok && !R.err, `${how}: it fails`))
        return
      const out = outputs(R)
      const first = before ? o(before) : []
      const want = owed(id, [...first, ...seen])
      const events = [...want.events]
      if (before)
        events.push(...before.calls.map(c => ({ type: 'tool-result.done', toolCallId: c.id, result: T(`out:${c.name}`) })))
      streamIs(s, `the text so far is delivered`, out.streams.textStream, want.text, 'open')
      streamIs(s, `the reasoning so far is delivered`, out.streams.reasoningTextStream, want.reasoning, 'open')
      const raw = out.streams.fullStream
      streamIs(s, `the raw events so far are delivered`, raw, [...first, ...seen], 'open')
      inOrder(s, 'the events so far are streamed', out.streams.eventStream?.items ?? [], events)
      s.must('the event stream stays open', out.streams.eventStream?.end.join() === 'open', `it is ${out.streams.eventStream?.end.join('|')}`)
      inOrder(s, 'the events so far reach the callback', R.calls('onEvent').map(c => c[0]), events)
      const reports = R.calls('onStepFinish').length
      s.must('a finished step is reported', !before || reports > 0, `${how}: no report`)
      if (seen.some(c => c.usage || c.choices?.[0]?.finish_reason))
        continue
      s.must('an unfinished step is not reported', reports <= (before ? 1 : 0), `${how}: ${reports} reports`)
      s.must('the run is not reported finished', R.calls('onFinish').length === 0, `${how}: it is`)
      s.must('the promises stay pending', Object.values(out.promises).every(p => !p.ok && !p.err), `${how}: settled ${Object.entries(out.promises).filter(([, p]) => p.ok || p.err).map(([k]) => k)}`)
    }
  })
  for (const id of STREAMING) {
    for (const [name, turn] of Object.entries(TURNS)) chat(name, id, turn)
    chat('a later step', id, TURNS.calls, null, { text: [TT('p0')], reasoning: [TT('q0')], calls: [{ id: T('k0'), name: 'alpha', args: ['{"y":2}'] }] })
    chat('a later step after two calls', id, TURNS.text, null, { calls: [{ id: T('k0'), name: 'alpha', args: ['{}'] }, { id: T('k1'), name: 'beta', args: ['{}'] }] })
  }
  // the next request is not answered, or a tool does not return: what came before is out already
  const never = I => I.alloc(rec('promise', { x: { okV: null, errV: null, pend: true } }), 'never')
  for (const id of STREAMING) {
    for (const what of ['the next request is not answered', 'a tool does not return', 'the step is being prepared']) {
      rep.scenario(`${id}: ${what}`, (s) => {
        const calls = [{ id: T('k0'), name: 'alpha', args: ['{}'] }, { id: T('k1'), name: 'beta', args: ['{"x":', '1}'] }]
        const before = { text: [TT('p0'), TT('p1')], reasoning: [TT('q0')], calls }
        const R = runOp(s, id, {
          turns: [before],
          strictTurns: false,
          respond: (I, n) => (what === 'the next request is not answered' && n > 0 ? never(I) : null),
          options: A => tools(A, {
            ...Object.fromEntries(['onEvent', 'onStepFinish', 'onFinish'].map(k => [k, A.fn(k)])),
            ...(what === 'a tool does not return' ? { tools: ['alpha', 'beta'].map(n => rawTool(A, n, A.fn(`exec:${n}`, I => n === 'beta' ? never(I) : T('out:alpha')))) } : {}),
            ...(what === 'the step is being prepared' ? { prepareStep: A.fn('prepareStep', (I, [a]) => I.getProp(a, C('stepNumber')).v === 1 ? never(I) : A.val({})) } : {}),
          }),
        })
        if (!s.must('the call returns', !!R.ok && !R.err, 'it fails'))
          return
        const out = outputs(R)
        const first = (id === 'responses' ? eventsOf : chunksOf)(before)
        const want = owed(id, first)
        const events = [...want.events, ...(what === 'a tool does not return' ? [] : calls.map(c => ({ type: 'tool-result.done', toolCallId: c.id, result: T(`out:${c.name}`) })))]
        streamIs(s, 'the text so far is delivered', out.streams.textStream, want.text, 'open')
        streamIs(s, 'the reasoning so far is delivered', out.streams.reasoningTextStream, want.reasoning, 'open')
        // the event that ends a response may wait for the tools it leads to
        const raw = out.streams.fullStream
        streamIs(s, 'the raw events so far are delivered', raw, id === 'responses' && raw?.items.length === first.length - 1 && what === 'a tool does not return' ? first.slice(0, -1) : first, 'open')
        inOrder(s, 'the events so far are streamed', out.streams.eventStream?.items ?? [], events)
        inOrder(s, 'the events so far reach the callback', R.calls('onEvent').map(c => c[0]), events)
        s.must('a finished step is reported', what === 'a tool does not return' || R.calls('onStepFinish').length === 1, `${R.calls('onStepFinish').length} reports`)
        s.must('the run is not reported finished', R.calls('onFinish').length === 0, 'it is')
      })
    }
  }

  // media
  const a = n => T(`a${n}`)
  const speech = [{ type: 'speech.audio.delta', audio: a(0) }, { type: 'speech.audio.delta', audio: a(1) }, { type: 'speech.audio.delta', audio: a(0) }, { type: 'speech.audio.done', usage: { input_tokens: 1, output_tokens: 2, total_tokens: 3 } }]
  rep.scenario('streamSpeech: audio so far', (s) => {
    for (const seen of prefixes(speech)) {
      const R = runOp(s, 'streamSpeech', { turns: [{ ...OPEN, events: seen }], strictTurns: false })
      if (!s.must('the call returns', !!R.ok && !R.err, 'it waits or fails'))
        return
      streamIs(s, 'the audio so far is delivered', outputs(R).streams.fullStream, seen.filter(e => e.audio).map(e => op('fromBase64', [e.audio])), 'open')
    }
  })
  const heard = [...[0, 1, 0].map(n => ({ type: 'transcript.text.delta', delta: T(`t${n}`) })), { type: 'transcript.text.done', text: T('all') }]
  rep.scenario('streamTranscription: text so far', (s) => {
    for (const seen of prefixes(heard)) {
      const R = runOp(s, 'streamTranscription', { turns: [{ ...OPEN, events: seen }], strictTurns: false })
      if (!s.must('the call returns', !!R.ok && !R.err, 'it waits or fails'))
        return
      const { textStream, fullStream } = outputs(R).streams
      const ds = seen.filter(e => e.delta)
      streamIs(s, 'the text so far is delivered', textStream, ds.map(e => e.delta), 'open')
      streamIs(s, 'the deltas so far are delivered', fullStream && { ...fullStream, items: fullStream.items.filter(x => typeOf(x) !== 'transcript.text.done') }, ds, 'open')
    }
  })

  // objects
  const object = (s, text, output) => {
    const R = runOp(s, 'streamObject', { turns: [{ ...OPEN, chunks: text.map(t => ({ id: T('chunk.id'), choices: [{ index: 0, delta: { content: t } }] })) }], strictTurns: false, harness: { partialParse }, options: { output } })
    if (!s.must('the call returns', !!R.ok && !R.err, 'it waits or fails'))
      return {}
    const { streams } = outputs(R)
    streamIs(s, 'the text so far is delivered', streams.textStream, text, 'open')
    return streams
  }
  for (const list of [[1, 2, 3], [{ a: 1 }, { a: 2 }, { b: [3] }], ['x', 'yz', ''], [[1], [2]], [{ a: 1 }, { a: 1 }], [true, null, false], [null, null, 0]]) {
    rep.scenario(`elements of ${JSON.stringify(list)} once the next begins`, (s) => {
      for (let k = 1; k < list.length; k++) {
        // up to and with the first characters of element k
        const head = `{"elements":[${list.slice(0, k).map(x => `${JSON.stringify(x)},`).join('')}`
        const next = JSON.stringify(list[k])
        for (const tail of new Set([next.length > 1 ? next.slice(0, -1) : next, next])) {
          for (const pieces of [[head + tail], [head, tail], deep ? [...head, tail] : [head.slice(0, 4), head.slice(4), tail]]) {
            const { elementStream } = object(s, pieces, 'array')
            const seen = lenientOf(pieces.join('')).elements?.length ?? 0
            if (seen > k)
              streamIs(s, 'every element before the one begun is delivered', elementStream, list.slice(0, k).map(samePlain), 'open')
          }
        }
      }
    })
  }
  for (const v of [{ a: 'xy', b: 1 }, { a: { b: [1, 2] }, c: null }, { a: '' }]) {
    const text = JSON.stringify(v)
    rep.scenario(`snapshots of ${text} so far`, (s) => {
      for (let k = 1; k <= text.length; k += deep ? 1 : 3) {
        for (const pieces of [[text.slice(0, k)], [text.slice(0, k >> 1), text.slice(k >> 1, k)]]) {
          const { partialObjectStream } = object(s, pieces, 'object')
          const want = []
          let last = '{}'
          let acc = ''
          for (const x of pieces) {
            acc += x
            try {
              const d = lenientOf(acc)
              if (JSON.stringify(d) !== last)
                want.push(d)
              last = JSON.stringify(d)
            }
            catch {}
          }
          streamIs(s, 'every snapshot so far is delivered', partialObjectStream, want.map(samePlain), 'open')
        }
      }
    })
  }

  // transformers
  const through = (s, make, pieces) => {
    const A = s.analysis()
    const t = A.run(A.export(...make.f), make.args(A))
    if (!t.st)
      return null
    const src = newStream(A.I, '@src-open', { items: pieces.map(C), ctrl: C('open') })
    const r = make.pipe(A, t.v, src)
    const d = A.drain(A.I.st.clone(), r)
    return { items: d.items.map(x => A.tree(d.st, x)), star: d.star, end: d.end }
  }
  const smooth = { f: ['@xsai/utils-stream', 'smoothStream'], args: A => [A.val({ delay: C(0) })], pipe: (A, t, src) => A.I.capture(() => A.I.call(A.I.getProp(src, C('pipeThrough')), src, [t])).v }
  rep.scenario('smoothing: words already complete', (s) => {
    for (const [pieces, want] of [[['one two'], ['one ']], [['one ', 'two ', 'th'], ['one ', 'two ']], [['o', 'n', 'e', ' '], ['one ']], [['a b c '], ['a ', 'b ', 'c ']]]) {
      const d = through(s, smooth, pieces)
      streamIs(s, 'a complete word is delivered before the next one ends', d, want, 'open')
    }
  })
}
