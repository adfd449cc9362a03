// The public operations of the repository, how to call them abstractly, and what they gave back.
import { match } from './check.mjs'
import { alts, BOT, C, N, op, ref, sym, treeAlts, treeKey, UNDEF } from './harness.mjs'
import { rec } from './values.mjs'

export const S = (n, meta = {}) => sym(n, { type: 'string', nonNull: true, ...meta })
/** some text, which may be empty */
export const T = S
/** non-empty text */
export const TT = (n, meta = {}) => sym(n, { type: 'string', nonNull: true, truthy: true, ...meta })
/** the same turns with every piece of answer text in them non-empty */
export const filled = (v) => {
  if (v === null || typeof v !== 'object')
    return v
  if (v.t === 'sym' && v.k)
    return v.meta?.type === 'string' && /^(?:[tfx]\d*|thinking|extra)$/.test(v.id) ? { ...v, meta: { ...v.meta, truthy: true } } : v
  if (v.t === 'op' && v.k)
    return op(v.op, v.args.map(filled), v.meta)
  if (Array.isArray(v))
    return v.map(filled)
  if (v.t || Object.getPrototypeOf(v) !== Object.prototype)
    return v
  return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, filled(x)]))
}
export const NUM = (n, meta = {}) => sym(n, { type: 'number', nonNull: true, ...meta })
export const OBJ = (n, meta = {}) => sym(n, { type: 'object', nonNull: true, plain: true, ...meta })

export const BASE = 'https://api.example.com/v1/'
export const usage = n => ({ prompt_tokens: NUM(`u${n}.in`), completion_tokens: NUM(`u${n}.out`), total_tokens: NUM(`u${n}.total`) })
export const usageOut = n => ({ inputTokens: NUM(`u${n}.in`), outputTokens: NUM(`u${n}.out`), totalTokens: NUM(`u${n}.total`) })
const addT = (...xs) => {
  const l = [...xs].sort((x, y) => (x.k < y.k ? -1 : x.k > y.k ? 1 : 0))
  return l.length === 1 ? l[0] : op('add', l, { type: 'number', nonNull: true })
}
export const usageSum = ns => ({ inputTokens: addT(...ns.map(n => NUM(`u${n}.in`))), outputTokens: addT(...ns.map(n => NUM(`u${n}.out`))), totalTokens: addT(...ns.map(n => NUM(`u${n}.total`))) })
export const cat = (...xs) => {
  const out = []
  for (const x of xs.map(v => (v && v.t ? v : C(v))).flatMap(v => (v.t === 'op' && v.op === 'concat' ? v.args : [v]))) {
    const last = out.at(-1)
    if (x.t === 'const' && x.v === '')
      continue
    if (last?.t === 'const' && x.t === 'const')
      out[out.length - 1] = C(last.v + x.v)
    else out.push(x)
  }
  return out.length === 0 ? C('') : out.length === 1 ? out[0] : op('concat', out, { type: 'string', nonNull: true })
}

// ------------------------------------------------------------------ model turns
/** turn: { text: [..], reasoning: [..], calls: [{id,name,args:[..]}], finish, usage: n|null } */
const jsonTurn = (A, I, turn) => {
  if (turn.raw)
    return A.val(turn.raw)
  const message = { role: 'assistant' }
  message.content = turn.content !== undefined ? turn.content : turn.text ? cat(...turn.text) : C(null)
  if (turn.reasoning)
    message[turn.reasoningField ?? 'reasoning_content'] = cat(...turn.reasoning)
  if (turn.calls)
    message.tool_calls = turn.calls.map(c => ({ id: c.id, type: 'function', function: { ...(c.name !== undefined ? { name: c.name } : {}), ...(c.args ? { arguments: cat(...c.args) } : {}) } }))
  return A.val({ id: T('resp.id'), choices: [{ index: 0, finish_reason: turn.finish ?? (turn.calls ? 'tool_calls' : 'stop'), message }], ...(turn.usage === null ? {} : { usage: usage(turn.usage ?? 0) }) })
}
export const chunksOf = (turn) => {
  if (turn.chunks)
    return turn.chunks
  const d = (delta, extra = {}) => ({ id: T('chunk.id'), object: 'chat.completion.chunk', choices: [{ index: 0, delta, ...extra }] })
  const out = []
  for (const r of turn.reasoning ?? []) out.push(d({ role: 'assistant', [turn.reasoningField ?? 'reasoning_content']: r }))
  for (const t of turn.text ?? []) out.push(d({ role: 'assistant', content: t }))
  for (const t of turn.refusal ?? []) out.push(d({ role: 'assistant', refusal: t }))
  ;(turn.calls ?? []).forEach((c, i) => {
    const frags = c.args ?? []
    out.push(d({ tool_calls: [{ index: i, id: c.id, type: 'function', function: { name: c.name, arguments: '' } }] }))
    for (const a of frags) out.push(d({ tool_calls: [{ index: i, function: { arguments: a } }] }))
  })
  out.push(d({}, { finish_reason: turn.finish ?? (turn.calls ? 'tool_calls' : 'stop') }))
  if (turn.usage !== null)
    out.push({ id: T('chunk.id'), choices: [], usage: usage(turn.usage ?? 0) })
  return out
}
export const eventsOf = (turn) => {
  if (turn.events)
    return turn.events
  const out = []
  const items = []
  out.push({ type: 'response.created', response: { id: T('resp.id'), output: [] } })
  let idx = 0
  if (turn.reasoning) {
    const it = { type: 'reasoning', id: T('rs.id'), summary: [] }
    out.push({ type: 'response.output_item.added', output_index: idx, item: it })
    for (const r of turn.reasoning) out.push({ type: turn.reasoningField === 'summary' ? 'response.reasoning_summary_text.delta' : 'response.reasoning.delta', delta: r, output_index: idx })
    out.push({ type: turn.reasoningField === 'summary' ? 'response.reasoning_summary_text.done' : 'response.reasoning.done', text: cat(...turn.reasoning), output_index: idx })
    out.push({ type: 'response.output_item.done', output_index: idx++, item: it })
    items.push(it)
  }
  for (const [kind, list] of [['output_text', turn.text], ['refusal', turn.refusal]]) {
    if (!list)
      continue
    const part = kind === 'refusal' ? { type: 'refusal', refusal: cat(...list) } : { type: 'output_text', text: cat(...list) }
    const it = { type: 'message', id: T('msg.id'), role: 'assistant', content: [part] }
    out.push({ type: 'response.output_item.added', output_index: idx, item: { type: 'message', id: T('msg.id'), role: 'assistant', content: [] } })
    out.push({ type: 'response.content_part.added', output_index: idx, content_index: 0, part: kind === 'refusal' ? { type: 'refusal', refusal: '' } : { type: 'output_text', text: '' } })
    for (const t of list) out.push({ type: `response.${kind}.delta`, output_index: idx, content_index: 0, delta: t })
    out.push({ type: `response.${kind}.done`, output_index: idx, content_index: 0, ...(kind === 'refusal' ? { refusal: cat(...list) } : { text: cat(...list) }) })
    out.push({ type: 'response.output_item.done', output_index: idx++, item: it })
    items.push(it)
  }
  for (const c of turn.calls ?? []) {
    const it = { type: 'function_call', id: T(`fc.${c.id.id ?? c.id}`), call_id: c.id, ...(c.name !== undefined ? { name: c.name } : {}), ...(c.args ? { arguments: cat(...c.args) } : {}) }
    out.push({ type: 'response.output_item.added', output_index: idx, item: { type: 'function_call', id: T(`fc.${c.id.id ?? c.id}`), call_id: c.id, name: c.name, arguments: '' } })
    for (const a of c.args ?? []) out.push({ type: 'response.function_call_arguments.delta', output_index: idx, delta: a })
    out.push({ type: 'response.function_call_arguments.done', output_index: idx, arguments: cat(...(c.args ?? [])) })
    out.push({ type: 'response.output_item.done', output_index: idx++, item: it })
    items.push(it)
  }
  const u = turn.usage === null ? {} : { usage: { input_tokens: NUM(`u${turn.usage ?? 0}.in`), output_tokens: NUM(`u${turn.usage ?? 0}.out`), total_tokens: NUM(`u${turn.usage ?? 0}.total`) } }
  out.push({ type: `response.${turn.status ?? 'completed'}`, response: { id: T('resp.id'), status: turn.status ?? 'completed', output: items, ...u } })
  return out
}
const sseBody = (A, I, list, turn, n) => A.sse(I, [...list.map(c => (c && c.t ? c : A.json(I, A.val(c)))), ...(turn.noDone ? [] : [C('[DONE]')])], { end: turn.end ?? 'closed', err: turn.err, name: `body${n}` })

/** abstract Standard Schema: converts itself to `json`, validates with `validate` */
export const stdSchema = (A, { json = { type: 'object', properties: {} }, validate, async = false } = {}) => ({
  '~standard': {
    version: 1,
    vendor: 'custom',
    jsonSchema: { input: A.fn('toJsonSchema', () => A.val(json)), output: A.fn('toJsonSchema', () => A.val(json)) },
    validate: A.fn('validate', validate ?? ((I, args) => I.fromJS({ value: args[0] })), { async }),
  },
})

// ------------------------------------------------------------------ operations
const speechEvents = turn => turn.events ?? [...(turn.audio ?? [T('a1'), T('a2')]).map(a => ({ type: 'speech.audio.delta', audio: a })), { type: 'speech.audio.done', ...(turn.usage === null ? {} : { usage: { input_tokens: NUM('u0.in'), output_tokens: NUM('u0.out'), total_tokens: NUM('u0.total') } }) }]
const trEvents = turn => turn.events ?? [...(turn.text ?? [T('t1'), T('t2')]).map(t => ({ type: 'transcript.text.delta', delta: t })), { type: 'transcript.text.done', text: cat(...(turn.text ?? [T('t1'), T('t2')])) }]

const json = f => (A, I, turn) => ({ json: turn.raw !== undefined ? A.val(turn.raw) : f(A, I, turn) })
const sse = f => (A, I, turn, n) => ({ body: sseBody(A, I, f(turn), turn, n) })

export const OPS = {
  generateText: { spec: '@xsai/generate-text', path: 'chat/completions', stream: false, family: 'chat', callbacks: ['onStepFinish'], opts: () => ({ messages: [{ role: 'user', content: T('hello') }] }), reply: json((A, I, t) => jsonTurn(A, I, t)), msgKey: 'messages' },
  streamText: { spec: '@xsai/stream-text', path: 'chat/completions', stream: true, sync: true, family: 'chat', callbacks: ['onEvent', 'onStepFinish', 'onFinish'], opts: () => ({ messages: [{ role: 'user', content: T('hello') }] }), reply: sse(chunksOf), msgKey: 'messages', promises: ['messages', 'steps', 'usage', 'totalUsage'], streams: ['textStream', 'reasoningTextStream', 'eventStream', 'fullStream'] },
  responses: { spec: '@xsai-ext/responses', path: 'responses', stream: true, sync: true, family: 'chat', callbacks: ['onEvent', 'onStepFinish', 'onFinish'], opts: () => ({ input: [{ type: 'message', role: 'user', content: T('hello') }] }), reply: sse(eventsOf), msgKey: 'input', promises: ['input', 'steps', 'usage', 'totalUsage'], streams: ['textStream', 'reasoningTextStream', 'eventStream', 'fullStream'] },
  tracedGenerateText: { spec: '@xsai-ext/telemetry', name: 'generateText', traced: 'generateText' },
  tracedStreamText: { spec: '@xsai-ext/telemetry', name: 'streamText', traced: 'streamText' },
  generateObject: { spec: '@xsai/generate-object', path: 'chat/completions', stream: false, family: 'object', callbacks: ['onStepFinish'], opts: A => ({ messages: [{ role: 'user', content: T('hello') }], schema: stdSchema(A) }), reply: json((A, I, t) => jsonTurn(A, I, t)), msgKey: 'messages' },
  streamObject: { spec: '@xsai/stream-object', path: 'chat/completions', stream: true, family: 'object', callbacks: ['onEvent', 'onStepFinish', 'onFinish'], opts: A => ({ messages: [{ role: 'user', content: T('hello') }], schema: stdSchema(A) }), reply: sse(chunksOf), msgKey: 'messages', promises: ['messages', 'steps', 'usage', 'totalUsage'], streams: ['textStream', 'reasoningTextStream', 'eventStream', 'fullStream', 'partialObjectStream'] },
  embed: { spec: '@xsai/embed', path: 'embeddings', stream: false, family: 'plain', opts: () => ({ input: T('in') }), reply: json(A => A.val({ data: [{ embedding: OBJ('emb0'), index: 0 }], usage: { prompt_tokens: NUM('pt'), total_tokens: NUM('tt') } })) },
  embedMany: { spec: '@xsai/embed', path: 'embeddings', stream: false, family: 'plain', opts: () => ({ input: [T('in0'), T('in1')] }), reply: json(A => A.val({ data: [{ embedding: OBJ('emb0'), index: 0 }, { embedding: OBJ('emb1'), index: 1 }], usage: { prompt_tokens: NUM('pt'), total_tokens: NUM('tt') } })) },
  tracedEmbed: { spec: '@xsai-ext/telemetry', name: 'embed', traced: 'embed' },
  tracedEmbedMany: { spec: '@xsai-ext/telemetry', name: 'embedMany', traced: 'embedMany' },
  generateImage: { spec: '@xsai/generate-image', path: 'images/generations', stream: false, family: 'plain', opts: () => ({ prompt: T('prompt') }), reply: json(A => A.val({ created: 1, data: [{ b64_json: C('iVBORw0KGgoAAA') }] })) },
  generateSpeech: { spec: '@xsai/generate-speech', path: 'audio/speech', stream: false, family: 'plain', opts: () => ({ input: T('in'), voice: T('voice') }), reply: () => ({}) },
  streamSpeech: { spec: '@xsai/stream-speech', path: 'audio/speech', stream: true, streamMark: ['stream_format', 'sse'], family: 'media', opts: () => ({ input: T('in'), voice: T('voice') }), reply: sse(speechEvents), promises: ['usage'], streams: ['fullStream'] },
  generateTranscription: { spec: '@xsai/generate-transcription', path: 'audio/transcriptions', stream: false, form: true, family: 'plain', opts: () => ({ file: OBJ('file') }), reply: json(A => A.val({ text: T('heard') })) },
  streamTranscription: { spec: '@xsai/stream-transcription', path: 'audio/transcriptions', stream: true, sync: true, form: true, family: 'media', opts: () => ({ file: OBJ('file') }), reply: sse(trEvents), promises: ['text'], streams: ['fullStream', 'textStream'] },
  listModels: { spec: '@xsai/model', path: 'models', method: 'GET', stream: false, noModel: true, noBody: true, family: 'plain', opts: () => ({}), reply: json(A => A.val({ data: [{ id: T('m0') }, { id: T('m1') }] })) },
  retrieveModel: { spec: '@xsai/model', path: 'models/gpt-x', method: 'GET', stream: false, noBody: true, family: 'plain', opts: () => ({}), reply: json(A => A.val({ id: T('m0') })) },
}
for (const [id, o] of Object.entries(OPS)) {
  o.id = id
  o.name ??= id
  o.method ??= 'POST'
}
for (const o of Object.values(OPS)) {
  if (o.traced) {
    const { spec: _s, name: _n, id: _i, ...rest } = OPS[o.traced]
    Object.assign(o, { ...rest, ...o })
  }
}
export const CHAT = ['generateText', 'streamText', 'responses', 'tracedGenerateText', 'tracedStreamText']

// ------------------------------------------------------------------ OpenTelemetry model
export const otel = (cfg = {}) => {
  const spanOf = (I, name, attrs, node) => {
    const id = `${I.ctx}@span`
    const log = (what, args) => {
      I.emit(`span-${what}`, { span: id, args, key: id + args.map(a => a.k).join() }, node)
      I.logEvent?.(`span-${what}`, id, args)
      cfg.log?.(I, what, id, args)
    }
    const fn = (n, f) => N(n, (I2, t, args) => {
      log(n, args)
      return f?.(I2, args) ?? ref(id)
    })
    I.st.set(id, rec('object', { props: new Map([
      ['end', { v: fn('end', () => UNDEF) }],
      ['setAttribute', { v: fn('setAttribute') }],
      ['setAttributes', { v: fn('setAttributes') }],
      ['setStatus', { v: fn('setStatus') }],
      ['recordException', { v: fn('recordException', () => UNDEF) }],
      ['addEvent', { v: fn('addEvent') }],
      ['updateName', { v: fn('updateName') }],
      ['isRecording', { v: N('isRecording', () => C(true)) }],
      ['spanContext', { v: N('spanContext', () => OBJ('spanContext')) }],
    ]), x: { span: true } }))
    log('start', [name, attrs ?? UNDEF])
    return ref(id)
  }
  const tracer = I => I.fromJS({
    startActiveSpan: N('startActiveSpan', (I2, t, args, node) => {
      const f = args.at(-1)
      const o = args.length > 2 ? args[1] : UNDEF
      const s = spanOf(I2, args[0], o.t === 'ref' ? I2.getProp(o, C('attributes'), node) : UNDEF, node)
      return I2.call(f, UNDEF, [s], node)
    }),
    startSpan: N('startSpan', (I2, t, args, node) => spanOf(I2, args[0], args[1]?.t === 'ref' ? I2.getProp(args[1], C('attributes'), node) : UNDEF, node)),
  }, `${I.ctx}@tracer`)
  const objN = (name, members) => N(name, null, { objectLike: true, statics: members })
  return {
    trace: objN('trace', { getTracer: N('getTracer', I => tracer(I)), setSpan: N('setSpan', (I, t, args) => args[0]), getActiveSpan: N('getActiveSpan', () => UNDEF) }),
    context: objN('context', { active: N('active', () => OBJ('otelContext')), with: N('with', (I, t, args, node) => I.call(args[1], UNDEF, args.slice(3), node)) }),
    SpanStatusCode: objN('SpanStatusCode', { UNSET: C(0), OK: C(1), ERROR: C(2) }),
    SpanKind: objN('SpanKind', { INTERNAL: C(0), CLIENT: C(2) }),
  }
}

// ------------------------------------------------------------------ running
export class Run {
  constructor(A, o) {
    this.A = A
    this.o = o
  }

  /** trees of the arguments of every call of a user callback, in order; null when not exact */
  calls(name) {
    return this.entries(`cb:${name}`).map(e => e.tree.items)
  }

  entries(prefix) {
    if (!this.st)
      return []
    const l = this.A.logOf(this.st)
    const out = []
    l.items.forEach((as, i) => {
      const hit = as.filter(a => typeof prefix === 'function' ? prefix(a.label) : a.label === prefix || a.label.startsWith(`${prefix}:`))
      if (hit.length)
        out.push({ i, label: hit[0].label, tree: hit.length === 1 ? hit[0].tree : { kind: 'union', alts: hit.map(h => h.tree) }, sure: hit.length === as.length })
    })
    return out
  }

  /** log has a definite order and content */
  get exact() {
    if (!this.st)
      return true
    const l = this.A.logOf(this.st)
    return !l.star && l.items.every(x => x.length === 1)
  }

  logText() {
    return this.A.logOf(this.st).items.map(x => x.map(a => `${a.label} ${treeKey(a.tree)}`).join(' || '))
  }

  /** requests: { url, method, headers, body, bodyJSON, signal } as snapshots, in order */
  get requests() {
    return this.entries('fetch').map(({ tree, i, sure }) => {
      const [url, init] = tree.kind === 'union' ? [null, null] : tree.items
      const p = init?.props ?? {}
      const body = p.body?.v
      return { i, sure, url, init, method: p.method?.v, headers: lower(p.headers?.v), body, json: body?.kind === 'op' && body.v.op === 'json' ? body.tree : null, signal: p.signal?.v }
    })
  }
}
export const lower = (t) => {
  if (t && (t.kind === 'object' || t.kind === 'headers')) {
    const props = {}
    for (const [k, e] of Object.entries(t.props)) props[k.toLowerCase()] = e
    return { ...t, props }
  }
  return t
}

/** options a caller may leave out, and may as well give as undefined */
const CONNECTION = ['abortSignal', 'apiKey', 'fetch', 'headers']
const CHAT_OPTIONS = ['frequencyPenalty', 'parallelToolCalls', 'presencePenalty', 'reasoningEffort', 'seed', 'stop', 'temperature', 'toolChoice', 'tools', 'topK', 'topP', 'onEvent', 'onFinish', 'onStepFinish', 'postToolCall', 'prepareStep', 'preToolCall', 'stopWhen', 'streamOptions', 'steps', 'totalUsage']
const OBJECT_OPTIONS = ['schemaName', 'schemaDescription', 'strict', 'output']
const OPTIONAL = { embed: ['dimensions'], embedMany: ['dimensions'], generateImage: ['n', 'responseFormat', 'size'], generateSpeech: ['instructions', 'responseFormat', 'speed'], streamSpeech: ['instructions', 'responseFormat', 'speed'], generateTranscription: ['fileName', 'language', 'prompt', 'responseFormat', 'temperature', 'timestampGranularities'], streamTranscription: ['fileName', 'language', 'prompt', 'temperature'] }
export const optionalOf = o => [...CONNECTION, ...(o.family === 'chat' || o.family === 'object' ? CHAT_OPTIONS : []), ...(o.family === 'object' ? OBJECT_OPTIONS : []), ...(o.traced ? ['telemetry'] : []), ...(OPTIONAL[o.traced ?? o.id] ?? [])]

/** what the model answers the other run of `runOther` */
const OTHER = {
  embed: { raw: { data: [{ embedding: OBJ('other.emb'), index: 0 }], model: T('other.m'), usage: { prompt_tokens: NUM('other.pt'), total_tokens: NUM('other.tt') } } },
  embedMany: { raw: { data: [{ embedding: OBJ('other.emb0'), index: 0 }, { embedding: OBJ('other.emb1'), index: 1 }], model: T('other.m'), usage: { prompt_tokens: NUM('other.pt'), total_tokens: NUM('other.tt') } } },
  generateImage: { raw: { created: 7, data: [{ b64_json: '/9j/4AAQ' }] } },
  generateTranscription: { raw: { text: T('other.heard') } },
  listModels: { raw: { data: [{ id: T('other.m0') }] } },
  retrieveModel: { raw: { id: T('other.m0') } },
  streamSpeech: { audio: [T('other.a')], usage: 90 },
  streamTranscription: { text: [TT('other.t')] },
}
const otherTurns = (o) => {
  const id = o.traced ?? o.id
  if (o.family === 'chat')
    return [{ text: [TT('other.t0')], reasoning: [TT('other.r0')], calls: [{ id: T('c0'), name: 'alpha', args: ['{"x":1}'] }], usage: 90 }, { text: [TT('other.t1')], usage: 91 }]
  return [o.family === 'object' ? { text: ['{"elements":[{"other":1},', '{"other":2}]}'], usage: 90 } : OTHER[id] ?? {}]
}

/**
 * another run of an operation, to its end, in the state at hand: with other options throughout,
 * but for those it has in common with the run under analysis (`common`).
 * What it sent and reported is forgotten; what it left behind in the library is not.
 */
export const runOther = (A, o, f, common = {}, I = A.I) => {
  const log = I.st.get(I.logId)
  const count = I.st.counts.get('fetch')
  const events = I.events.length
  const turns = otherTurns(o)
  const fetch = A.fetchFn((I2, n, req, node) => I2.st ? A.response(I2, { name: `other${n}`, ...plainBody(A, I2, o, `other${n}`), ...o.reply(A, I2, turns[Math.min(n, turns.length - 1)], `other${n}`) }) : BOT)
  I.st.counts.delete('fetch')
  const chat = o.family === 'chat'
  const own = { baseURL: 'https://other.example.com/v0/', apiKey: T('other.key'), headers: { 'x-other': '1' }, fetch, ...(o.noModel ? {} : { model: 'gpt-other' }) }
  const input = chat || o.family === 'object' ? { [o.msgKey ?? 'messages']: [{ ...(o.msgKey === 'input' ? { type: 'message' } : {}), role: 'user', content: T('other.hello') }] } : {}
  const tools = chat
    ? {
        tools: [{ type: 'function', function: { name: 'alpha', description: T('other.description'), parameters: { type: 'object', properties: { other: { type: 'number' } } } }, execute: A.fn('other:exec', T('other.out')) }],
        stopWhen: A.fn('other:stop', (I2, args, node) => {
          const len = I2.getProp(I2.getProp(args[0], C('steps'), node), C('length'), node)
          return len.t === 'const' ? C(len.v >= turns.length) : sym('other.stop?', { type: 'boolean', nonNull: true })
        }),
      }
    : {}
  const schema = o.family === 'object' ? { schema: stdSchema(A, { json: { type: 'object', properties: { other: { type: 'number' } } } }) } : {}
  const n = A.others = (A.others ?? 0) + 1
  const options = A.val({ ...o.opts(A), ...own, ...input, ...tools, ...schema, ...common }, {}, `${I.ctx}other${n}`)
  I.withCtx(`#other${n}`, () => {
    const r = I.capture(() => I.call(f, UNDEF, [options]))
    const done = (v) => {
      const x = I.st ? I.settle(I.st, v) : {}
      I.st = x.ok?.st ?? x.err?.st ?? null
      return x.ok?.v
    }
    const v = done(r.v)
    const res = v && I.st && I.rec(v)
    for (const [, e] of res?.kind === 'object' ? res.props : []) {
      if (!I.st)
        break
      const kind = I.kindOf(e.v)
      if (kind === 'promise')
        done(e.v)
      else if (kind === 'stream')
        I.st = A.drain(I.st, e.v).st
    }
  })
  if (!I.st)
    throw new Error('the other run does not come to an end')
  I.st.set(I.logId, log)
  if (count)
    I.st.counts.set('fetch', count)
  else I.st.counts.delete('fetch')
  I.events.length = events
}

/**
 * run operation `id` on the given model turns.
 * cfg: { turns, options, omit, respond(I,n,req)→response spec or null, harness, fetchOpts }
 */
export const runOp = (s, id, cfg = {}) => {
  const o = OPS[id]
  const A = s.analysis({ externals: { '@opentelemetry/api': otel(cfg.otel), ...(cfg.externals ?? {}) }, ...(cfg.harness ?? {}) })
  const I = A.I
  const f = A.export(o.spec, o.name)
  // the responses API leaves a step without text undefined: its texts are non-empty here unless asked
  const given = cfg.turns ?? [{ text: [T('t1')] }]
  const turns = id === 'responses' && !cfg.mayBeBlank ? filled(given) : given
  const R = new Run(A, o)
  R.A = A
  s.ranOps = true
  const respond = (I2, n, req, node) => {
    if (s.other === 'meanwhile' && n === 0 && I2.st)
      runOther(A, o, f, {}, I2)
    const special = cfg.respond?.(I2, n, req, node, A)
    if (special)
      return special.t ? special : A.response(I2, { name: `res${n}`, ...special })
    if (!I2.st)
      return BOT
    const turn = turns[Math.min(n, turns.length - 1)]
    // well beyond the last turn, on a path on which everything so far is known
    if (n >= turns.length + 2 && I2.opaque.size === 0) {
      const [lo, hi] = I2.st.count('fetch')
      if (lo === hi)
        R.beyond = Math.max(R.beyond ?? 0, n + 1)
    }
    if (n >= turns.length && cfg.strictTurns !== false)
      return A.response(I2, { name: `res${n}`, ...o.reply(A, I2, { text: [T(`extra${n}`)], usage: n }, n) , ...plainBody(A, I2, o, n) })
    const spec = o.reply(A, I2, turn, n)
    return A.response(I2, { name: `res${n}`, ...plainBody(A, I2, o, n), ...spec })
  }
  const fetch = cfg.fetch ?? A.fetchFn(respond, cfg.fetchOpts)
  if (cfg.globalFetch)
    I.harness.fetch = fetch.impl
  const base = { baseURL: BASE, ...(o.noModel ? {} : { model: 'gpt-x' }), ...o.opts(A), ...(cfg.globalFetch ? {} : { fetch }), ...(typeof cfg.options === 'function' ? cfg.options(A) : cfg.options ?? {}) }
  for (const k of cfg.omit ?? []) delete base[k]
  if (cfg.undef) {
    for (const k of optionalOf(o)) {
      if (!(k in base) && (k !== 'fetch' || cfg.globalFetch))
        base[k] = undefined
    }
  }
  const options = A.val(base, cfg.caller === false ? {} : { caller: 'options' }, 'options')
  if (s.other === 'before')
    runOther(A, o, f, 'output' in base ? { output: base.output } : {})
  if (s.other === 'same') {
    // the same server, credential and model, for another operation, then for this one; the same schema in another role
    const get = k => (k in base ? { [k]: A.get(A.st, options, k) } : {})
    const conn = { apiKey: undefined, ...get('baseURL'), ...get('apiKey') }
    const o2 = OPS[(o.traced ?? o.id) === 'listModels' ? 'retrieveModel' : 'listModels']
    runOther(A, o2, A.export(o2.spec, o2.name), conn)
    const shape = o.family === 'object' ? { ...get('schema'), output: base.output === 'array' ? 'object' : 'array', schemaName: 'other', strict: base.strict === false } : {}
    runOther(A, o, f, { ...conn, ...get('model'), ...shape })
  }
  R.options = options
  R.optionsBefore = A.tree(A.st, options)
  if (cfg.before)
    cfg.before(A, options)
  if (o.sync && !cfg.awaited) {
    const r = A.run(f, [options])
    R.throws = r.throws
    R.value = r.v
    R.st = r.st ?? A.I.joinList(r.throws)?.st ?? null
    R.ok = r.st ? { st: r.st, v: r.v } : null
    R.err = A.I.joinList(r.throws)
  }
  else {
    const r = A.runAwait(f, [options])
    R.throws = r.sync
    R.ok = r.ok
    R.err = r.err
    R.value = r.ok?.v ?? BOT
    R.st = r.ok?.st ?? r.err?.st ?? null
  }
  return R
}
const plainBody = (A, I, o, n) => ({ headers: undefined, body: A.sse(I, [], { name: `plain${n}` }) })

/** everything a result object exposes, with its outcome */
export const outputs = (R) => {
  const { A } = R
  const out = { promises: {}, streams: {}, values: {} }
  if (!R.ok)
    return out
  const st = R.ok.st
  const r = A.with(st, I => I.rec(R.ok.v))
  if (!r)
    return out
  for (const [k, e] of r.props) {
    const kinds = new Set(alts(e.v).map(a => A.with(st, I => I.kindOf(a.v))))
    if (kinds.has('promise')) {
      const p = A.outcome(e.v, st.clone())
      out.promises[k] = { ok: p.ok ? A.tree(p.ok.st, p.ok.v) : null, err: p.err ? A.tree(p.err.st, p.err.v) : null }
    }
    else if (kinds.has('stream')) {
      const d = A.drain(st.clone(), e.v)
      out.streams[k] = { items: d.items.map(x => A.tree(d.st, x)), star: d.star ? A.tree(d.st, d.star) : null, end: d.end, err: d.err ? A.tree(d.st, d.err) : null }
    }
    else {
      out.values[k] = A.tree(st, e.v)
    }
  }
  return out
}

/** items of a drained stream match exactly */
export const streamIs = (s, rule, st, pats, end = 'closed') => {
  if (!st)
    return s.must(rule, false, 'the stream is missing from the result')
  const r = match({ kind: 'array', items: st.items, star: st.star }, pats)
  if (!r.ok)
    return s.add(rule, r.imprecise ? 'undecided' : 'violated', `items: ${r.why}`)
  return s.must(rule, st.end.length === 1 && st.end[0] === end, `stream ended ${st.end.join('|')}, expected ${end}`)
}
export { alts, C, op, sym, treeAlts, treeKey }
