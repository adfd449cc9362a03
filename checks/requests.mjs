// What requests look like: C03–C07, C35
import { ABSENT, ANY, match, open, pred } from '../lib/check.mjs'
import { runChat } from '../lib/chat.mjs'
import { BASE, cat, CHAT, OBJ, OPS, outputs, runOp, stdSchema, T } from '../lib/ops.mjs'
import { build, chatScenario, MAIN } from '../lib/suite.mjs'
import { C, sym, treeKey, treeProv } from '../lib/harness.mjs'

const jsonOps = Object.keys(OPS).filter(id => !OPS[id].noBody && !OPS[id].form)
const turnsFor = id => (CHAT.includes(id) ? [{ calls: [{ id: T('c0'), name: 'alpha', args: ['{}'] }] }, { calls: [{ id: T('c1'), name: 'alpha', args: ['{}'] }] }, { text: [T('t2')] }] : undefined)
const goodText = id => (['generateObject', 'streamObject'].includes(id) ? [{ text: ['{"a":1}'] }] : undefined)

/** run an operation with extra options; chat operations run three steps with a tool */
export const runAny = (s, id, cfg = {}) => {
  if (CHAT.includes(id))
    return runChat(s, id, { stop: 9, turns: cfg.turns ?? turnsFor(id), respond: cfg.respond, options: A => (typeof cfg.options === 'function' ? cfg.options(A) : cfg.options ?? {}), exec: cfg.exec, toolExtra: cfg.toolExtra }, { ...cfg, options: undefined, turns: undefined, respond: undefined, ...(cfg.turns || turnsFor(id) ? { turns: cfg.turns ?? turnsFor(id) } : {}), respond: cfg.respond })
  const R = runOp(s, id, { turns: goodText(id), ...cfg })
  return R
}
const expectedRequests = id => (CHAT.includes(id) ? 3 : 1)
const headersOf = q => q.headers
const hdrPat = o => ({ $p: 'pred', what: JSON.stringify(Object.fromEntries(Object.entries(o).map(([k, v]) => [k, v?.k ?? v]))), f: (t) => {
  const props = t?.props ?? (t == null || t.kind === 'const' ? {} : null)
  if (!props || t?.rest?.length || t?.star)
    return false
  for (const [k, v] of Object.entries(o)) {
    if (!props[k] || props[k].may || !match(props[k].v, v).ok)
      return false
  }
  return Object.entries(props).every(([k, e]) => k in o || k === '#end' || (e.v.kind === 'const' && e.v.v === undefined))
} })

// ------------------------------------------------------------------ C04
const KEY = T('apiKey')
const bearer = cat('Bearer ', KEY)
const HEADERS = {
  'no headers, no key': { given: {}, want: {} },
  'key': { given: { apiKey: KEY }, want: { authorization: bearer } },
  'record': { given: A => ({ headers: A.val({ 'X-One': T('h1'), 'x-two': T('h2') }, { caller: 'headers' }) }), want: { 'x-one': T('h1'), 'x-two': T('h2') } },
  'record and key': { given: A => ({ apiKey: KEY, headers: A.val({ 'X-One': T('h1'), 'x-two': T('h2') }) }), want: { 'authorization': bearer, 'x-one': T('h1'), 'x-two': T('h2') } },
  'Headers object and key': { given: A => ({ apiKey: KEY, headers: A.headers({ 'X-One': T('h1'), 'x-two': T('h2') }) }), want: { 'authorization': bearer, 'x-one': T('h1'), 'x-two': T('h2') } },
  'Headers object': { given: A => ({ headers: A.headers({ 'X-One': T('h1') }) }), want: { 'x-one': T('h1') } },
  'own authorization in a Headers object': { given: A => ({ apiKey: KEY, headers: A.headers({ Authorization: T('own') }) }), want: { authorization: T('own') } },
  'own Authorization': { given: A => ({ apiKey: KEY, headers: A.val({ Authorization: T('own') }) }), want: { authorization: T('own') } },
  'own authorization, lower case': { given: A => ({ apiKey: KEY, headers: A.val({ authorization: T('own') }) }), want: { authorization: T('own') } },
  'own AUTHORIZATION, no key': { given: A => ({ headers: A.val({ AUTHORIZATION: T('own') }) }), want: { authorization: T('own') } },
  'own content type': { json: true, given: A => ({ apiKey: KEY, headers: A.val({ 'content-type': T('ct') }) }), want: { 'authorization': bearer, 'content-type': T('ct') } },
}
/** the same header given twice under different case is ambiguous */
const noDup = (s, R) => R.requests.forEach((q, i) => {
  const names = Object.keys(q.init?.props?.headers?.v?.props ?? {}).map(n => n.toLowerCase())
  s.must(`request ${i + 1} names no header twice`, new Set(names).size === names.length, names.join(', '))
})

export const C04 = (rep) => {
  for (const id of Object.keys(OPS)) {
    const o = OPS[id]
    const json = !o.noBody && !o.form
    for (const [key, h] of Object.entries(HEADERS)) {
      if (h.json && !json)
        continue
      for (const own of [true, false]) {
        rep.scenario(`${id}: ${key}, ${own ? 'own' : 'global'} fetch`, (s) => {
          let signal
          const R = runAny(s, id, { globalFetch: !own, options: A => ({ abortSignal: signal = A.signal(), ...(typeof h.given === 'function' ? h.given(A) : h.given) }) })
          const want = { ...(json ? { 'content-type': 'application/json' } : {}), ...h.want }
          s.must('every request is made', R.requests.length === expectedRequests(id) && R.requests.every(q => q.sure), `${R.requests.length} requests`)
          R.requests.forEach((q, i) => {
            s.is(`request ${i + 1} carries exactly these headers`, headersOf(q), hdrPat(want))
            s.must(`request ${i + 1} carries the caller's signal`, q.signal?.id === signal.id, 'another signal or none')
          })
          noDup(s, R)
          const glob = R.A.events('global-fetch')
          s.must(own ? 'the global fetch is not used' : 'the global fetch is used', own ? glob.length === 0 : glob.length > 0, `${glob.length} uses`, glob[0]?.at)
        })
      }
    }
  }
  for (const id of Object.keys(OPS)) {
    for (const [k, options] of Object.entries({ none: {}, undefined: { abortSignal: undefined } })) {
      rep.scenario(`${id}: signal ${k}`, (s) => {
        const R = runAny(s, id, { options })
        s.must('every request is made', R.requests.length === expectedRequests(id) && R.requests.every(q => q.sure), `${R.requests.length} requests`)
        R.requests.forEach((q, i) => s.must(`request ${i + 1} carries no signal the caller did not give`, q.signal == null || (q.signal.kind === 'const' && q.signal.v == null), `it carries ${treeKey(q.signal)}`))
      })
    }
  }
  for (const own of [true, false]) {
    rep.scenario(`generateImage: downloads, ${own ? 'own' : 'global'} fetch`, (s) => {
      let signal
      const R = runOp(s, 'generateImage', { globalFetch: !own, options: A => ({ abortSignal: signal = A.signal() }), respond: (I, n, req, node, A) => (n === 0 ? { body: A.sse(I, []), json: A.val({ data: [{ url: C('https://img.example.com/a.png') }, { url: C('https://img.example.com/b.png') }] }) } : { body: A.sse(I, [], { name: `img${n}` }), headers: A.headers({}) }) })
      s.must('one request and one download per image', R.requests.length === 3, `${R.requests.length}`)
      R.requests.forEach((q, i) => s.must(`request ${i + 1} carries the caller's signal`, q.signal?.id === signal.id, 'another signal or none'))
      const glob = R.A.events('global-fetch')
      s.must(own ? 'the global fetch is not used' : 'the global fetch is used', own ? glob.length === 0 : glob.length > 0, `${glob.length} uses`)
    })
  }
}

// ------------------------------------------------------------------ C05
const BASES = ['https://api.example.com/v1/', 'https://api.example.com/v1', 'https://api.example.com', 'https://api.example.com/', 'https://api.example.com/a/b/v2', 'https://api.example.com/a/b/v2/', 'http://localhost:11434/v1', 'http://localhost:11434/api/v1.5/']
export const C05 = (rep) => {
  for (const id of Object.keys(OPS)) {
    const o = OPS[id]
    for (const b of BASES) {
      for (const asURL of [false, true]) {
        rep.scenario(`${id}: base ${b} as ${asURL ? 'URL object' : 'string'}`, (s) => {
          let given
          const R = runAny(s, id, { options: A => ({ baseURL: asURL ? given = A.url(b) : b }) })
          if (asURL)
            s.must('the URL object of the caller is untouched', given && R.st && urlOf(R.A.tree(R.st, given))?.v === new URL(b).href, 'it is changed')
          s.must('every request is made', R.requests.length === expectedRequests(id), `${R.requests.length} requests`)
          const want = `${b.endsWith('/') ? b : `${b}/`}${o.path}`
          R.requests.forEach((q, i) => {
            s.is(`request ${i + 1} goes to the documented path`, urlOf(q.url), want)
            s.is(`request ${i + 1} uses the documented method`, q.method, o.method === 'GET' ? { $p: 'oneOf', ps: [ABSENT, 'GET'] } : o.method)
            if (!o.noBody && !o.form)
              s.is(`request ${i + 1} is declared as JSON`, q.headers?.props?.['content-type']?.v, 'application/json')
            if (o.noBody)
              s.is(`request ${i + 1} has no body`, q.body, ABSENT)
          })
        })
      }
    }
  }
  for (const model of ['org/model-1', 'gpt-4o', 'a.b:c']) {
    rep.scenario(`retrieveModel: model ${model}`, (s) => {
      const R = runOp(s, 'retrieveModel', { options: { model } })
      s.is('the model is the last part of the path', urlOf(R.requests[0]?.url), `${BASE}models/${model}`)
    })
  }
}
const urlOf = t => (t?.href ? { kind: 'const', v: t.href.v } : t)

// ------------------------------------------------------------------ C06
const KNOWN = {
  chat: { frequencyPenalty: T('fp'), parallelToolCalls: false, presencePenalty: 0, reasoningEffort: T('re'), seed: 7, stop: [T('s1')], temperature: 0, toolChoice: 'auto', topK: 3, topP: T('tp') },
}
const UNKNOWN = A => ({ fooBarBaz: OBJ('foo'), snake_already: 1, nullValue: null, falseValue: false, zero: 0, emptyText: '', deepOption: A.val({ innerKey: { deepKey: 1 }, listKey: [1, { aB: 2 }] }), absent: undefined, X: 5 })
const UNKNOWN_OUT = { foo_bar_baz: OBJ('foo'), snake_already: 1, null_value: null, false_value: false, zero: 0, empty_text: '', deep_option: { innerKey: { deepKey: 1 }, listKey: [1, { aB: 2 }] }, _x: 5 }
const snake = o => Object.fromEntries(Object.entries(o).map(([k, v]) => [k.replace(/[A-Z]/g, c => `_${c.toLowerCase()}`), v]))
const fmt = { type: 'json_schema', json_schema: { name: 'json_schema', schema: ANY, strict: true } }
const toolOut = { type: 'function', function: { name: 'alpha', description: T('alpha.description'), parameters: ANY, strict: true } }
const BODY = {
  generateText: { messages: ANY, model: 'gpt-x', tools: [toolOut], ...snake(KNOWN.chat), stream: { $p: 'oneOf', ps: [ABSENT, false] } },
  streamText: { messages: ANY, model: 'gpt-x', tools: [toolOut], ...snake(KNOWN.chat), stream: true },
  responses: { input: ANY, model: 'gpt-x', tools: [{ type: 'function', name: 'alpha', description: T('alpha.description'), parameters: ANY, strict: true }], stream: true, ...snake(KNOWN.chat) },
  generateObject: { messages: ANY, model: 'gpt-x', ...snake(KNOWN.chat), response_format: fmt, stream: { $p: 'oneOf', ps: [ABSENT, false] } },
  streamObject: { messages: ANY, model: 'gpt-x', ...snake(KNOWN.chat), response_format: fmt, stream: true },
  embed: { input: T('in'), model: 'gpt-x', dimensions: 3 },
  embedMany: { input: [T('in0'), T('in1')], model: 'gpt-x', dimensions: 3 },
  generateImage: { prompt: T('prompt'), model: 'gpt-x', n: 2, size: '1x1', response_format: 'url' },
  generateSpeech: { input: T('in'), voice: T('voice'), model: 'gpt-x', instructions: T('ins'), response_format: 'wav', speed: 2 },
  streamSpeech: { input: T('in'), voice: T('voice'), model: 'gpt-x', instructions: T('ins'), response_format: 'wav', speed: 2, stream_format: 'sse' },
}
BODY.tracedGenerateText = BODY.generateText
BODY.tracedStreamText = BODY.streamText
BODY.tracedEmbed = BODY.embed
BODY.tracedEmbedMany = BODY.embedMany
const OWN = { embed: { dimensions: 3 }, embedMany: { dimensions: 3 }, generateImage: { n: 2, size: '1x1', responseFormat: 'url' }, generateSpeech: { instructions: T('ins'), responseFormat: 'wav', speed: 2 }, streamSpeech: { instructions: T('ins'), responseFormat: 'wav', speed: 2 } }
const own = id => OWN[OPS[id].traced ?? id] ?? KNOWN.chat
const local = (A, id) => {
  const o = OPS[id]
  const fn = n => A.fn(n)
  return {
    apiKey: T('apiKey'),
    headers: A.val({ 'x-one': T('h1') }),
    abortSignal: A.signal(),
    ...(o.family === 'chat' || o.family === 'object' ? { onStepFinish: fn('onStepFinish'), preToolCall: fn('pre'), postToolCall: fn('post'), prepareStep: A.fn('prepareStep', () => A.val({})) } : {}),
    ...(o.callbacks?.includes('onFinish') ? { onEvent: fn('onEvent'), onFinish: fn('onFinish') } : {}),
    ...(o.family === 'object' ? { schema: stdSchema(A), stopWhen: A.fn('stopWhen', C(true)) } : {}),
    ...(o.traced ? { telemetry: A.val({ attributes: { a: 1 } }) } : {}),
  }
}
export const C06 = (rep) => {
  for (const id of jsonOps) {
    rep.scenario(`${id}: every kind of option`, (s) => {
      const R = runAny(s, id, { options: A => ({ ...own(id), ...UNKNOWN(A), ...local(A, id) }) })
      s.must('every request is made', R.requests.length === expectedRequests(id), `${R.requests.length} requests`)
      R.requests.forEach((q, i) => s.is(`body of request ${i + 1} holds exactly the API options`, q.json, { ...BODY[id], ...UNKNOWN_OUT }))
    })
    // names that mean something at the top mean nothing inside a value
    rep.scenario(`${id}: values that hold names of options`, (s) => {
      const inner = Object.fromEntries(['abortSignal', 'apiKey', 'api_key', 'baseURL', 'execute', 'fetch', 'headers', 'messages', 'model', 'onFinish', 'preToolCall', 'schema', 'steps', 'stopWhen', 'stream', 'telemetry', 'tools', 'validate', 'aB', 'nullValue', 'emptyText'].map(k => [k, k === 'nullValue' ? null : k === 'emptyText' ? '' : { type: 'string', [k]: [1] }]))
      const R = runOp(s, id, { options: A => ({ nested: A.val(inner), list: A.val([inner, [inner]]), ...(CHAT.includes(id) ? { [OPS[id].msgKey ?? 'messages']: A.val([{ role: 'user', content: 'hi' }]), tools: A.val([{ type: 'function', execute: A.fn('alpha'), function: { name: 'alpha', parameters: { type: 'object', properties: inner }, strict: false } }]) } : {}) }) , turns: goodText(id) })
      s.must('a request is made', R.requests.length > 0, 'none')
      R.requests.forEach((q, i) => {
        s.is(`option of request ${i + 1}`, q.json?.props?.nested?.v, inner)
        s.is(`list of request ${i + 1}`, q.json?.props?.list?.v, [inner, [inner]])
        if (CHAT.includes(id)) {
          const tool = q.json?.props?.tools?.v?.items?.[0]
          s.is(`tool parameters of request ${i + 1}`, (OPS[id].msgKey === 'input' ? tool : tool?.props?.function?.v)?.props?.parameters?.v, { type: 'object', properties: inner })
        }
      })
    })
    rep.scenario(`${id}: only required options`, (s) => {
      const R = runAny(s, id)
      const keep = new Set(['messages', 'input', 'model', 'stream', 'stream_format', 'response_format', 'prompt', 'voice', 'tools'])
      if (!['generateObject', 'streamObject'].includes(id))
        keep.delete('response_format')
      R.requests.forEach((q, i) => s.is(`body of request ${i + 1} holds nothing else`, q.json, Object.fromEntries(Object.entries(BODY[id]).filter(([k]) => keep.has(k)))))
      s.must('every request is made', R.requests.length === expectedRequests(id), `${R.requests.length} requests`)
    })
    rep.scenario(`${id}: undefined options are left out`, (s) => {
      const keys = Object.keys(own(id))
      const R = runAny(s, id, { options: { ...Object.fromEntries(keys.map(k => [k, undefined])), fooBar: undefined } })
      R.requests.forEach((q, i) => s.must(`request ${i + 1} names none of them`, q.json && !Object.keys(snake(Object.fromEntries([...keys, 'fooBar'].map(k => [k, 1])))).some(k => q.json.props[k] && q.json.props[k].v && !(['stream'].includes(k))), `${Object.keys(q.json?.props ?? {})}`))
    })
  }
  // an option given as undefined is an option not given
  for (const id of jsonOps) {
    rep.scenario(`${id}: undefined options change nothing`, (s) => {
      const a = runAny(s, id, { undef: true })
      const b = runAny(s, id)
      if (!s.must('as many requests are made', a.requests.length === b.requests.length && b.requests.length === expectedRequests(id), `${a.requests.length} and ${b.requests.length}`))
        return
      a.requests.forEach((q, i) => {
        s.must(`body of request ${i + 1}`, treeKey(q.json) === treeKey(b.requests[i].json), `${treeKey(q.json)} instead of ${treeKey(b.requests[i].json)}`)
        s.must(`address of request ${i + 1}`, treeKey(q.url) === treeKey(b.requests[i].url), treeKey(q.url))
        s.must(`headers of request ${i + 1}`, treeKey(q.headers) === treeKey(b.requests[i].headers), treeKey(q.headers))
      })
    })
  }
  for (const id of ['streamText', 'tracedStreamText']) {
    rep.scenario(`${id}: stream options`, (s) => {
      const R = runAny(s, id, { options: A => ({ streamOptions: A.val({ includeUsage: true }) }) })
      R.requests.forEach((q, i) => s.is(`request ${i + 1} carries the stream options under API names`, q.json?.props?.stream_options?.v, { include_usage: true }))
      R.requests.forEach((q, i) => s.is(`request ${i + 1} asks for a stream`, q.json?.props?.stream?.v, true))
      s.must('every request is made', R.requests.length === 3, `${R.requests.length} requests`)
    })
  }
  // whatever the caller puts under `stream`
  for (const id of Object.keys(OPS).filter(id => OPS[id].family === 'chat')) {
    rep.scenario(`${id}: stream is not the caller's choice`, (s) => {
      const stream = OPS[id].stream
      const R = runAny(s, id, { options: { stream: !stream } })
      R.requests.forEach((q, i) => s.is(`request ${i + 1} ${stream ? 'asks' : 'does not ask'} for a stream`, q.json?.props?.stream?.v, stream ? true : { $p: 'oneOf', ps: [ABSENT, false] }))
      s.must('every request is made', R.requests.length === 3, `${R.requests.length} requests`)
    })
  }
  const TOOLS = {
    full: { description: T('d0'), parameters: OBJ('p0'), strict: true },
    loose: { description: T('d1'), parameters: OBJ('p1'), strict: false },
    plain: { parameters: OBJ('p2') },
    blank: { description: '', parameters: { type: 'object', properties: {}, additionalProperties: T('more') } },
    full_again: { description: T('d0'), parameters: OBJ('p0'), strict: true },
  }
  for (const id of CHAT) {
    const o = OPS[id]
    for (const names of [Object.keys(TOOLS), ['loose'], ['blank', 'plain'], []]) {
      rep.scenario(`${id}: tools ${names.join(', ') || 'none'} are sent as given, without their implementation`, (s) => {
        const R = runChat(s, id, { stop: 9, noTools: true, turns: [{ calls: [{ id: T('c0'), name: names[0] ?? 'any', args: ['{}'] }] }, { text: [T('t')] }], options: A => ({ tools: A.val(names.map(n => ({ type: 'function', function: { name: n, ...TOOLS[n] }, execute: A.fn(`exec:${n}`, T('out')), validate: A.fn('validate', (I, args) => A.val({ value: args[0] })) }))) }) })
        s.must('both requests are made', R.requests.length === 2, `${R.requests.length} requests`)
        const want = names.map(n => (o.msgKey === 'input'
          ? { type: 'function', name: n, description: TOOLS[n].description ?? { $p: 'oneOf', ps: [ABSENT, null] }, parameters: TOOLS[n].parameters, strict: TOOLS[n].strict ?? { $p: 'oneOf', ps: [ABSENT, true] } }
          : { type: 'function', function: { name: n, ...TOOLS[n] } }))
        R.requests.forEach((q, i) => s.is(`request ${i + 1}`, q.json?.props?.tools?.v, names.length ? want : { $p: 'oneOf', ps: [ABSENT, []] }))
      })
    }
  }
}

// ------------------------------------------------------------------ C07
export const C07 = (rep) => {
  const owned = (s, R) => {
    const m = R.A.events('mutate').filter(e => e.target && /^(options|headers|messages|schema|tools|caller)/.test(String(e.target)))
    s.must('no caller-owned object is written', m.length === 0, m.slice(0, 4).map(e => `${e.target}.${e.prop?.v ?? e.prop?.k} at ${e.at ?? ''}`).join('; '), m[0]?.at)
    const ms = R.A.events('mutate-sym')
    s.must('nothing inside an opaque caller value is written', ms.length === 0, ms.slice(0, 3).map(e => `${e.target?.k}.${e.prop?.v}`).join('; '), ms[0]?.at)
  }
  for (const id of Object.keys(OPS)) {
    const o = OPS[id]
    for (const [key, cfg] of Object.entries({
      success: {},
      'error status': { respond: (I, n, q, node, A) => ({ ok: false, json: A.val({}) }) },
      'rejected fetch': { respond: (I, n, q, node, A) => I.rejectedPromise(A.error('TypeError', 'net'), `netrej${I.ctx}`) },
    })) {
      for (const hdr of ['record', 'Headers']) {
        rep.scenario(`${id}: ${key}, headers as ${hdr}`, (s) => {
          const R = runAny(s, id, { ...cfg, options: A => ({ ...(o.noBody || o.form ? {} : own(id)), ...(o.noBody || o.form ? {} : { deepOption: { innerKey: { deepKey: 1 }, listKey: [1, { aB: 2 }] } }), apiKey: T('apiKey'), headers: hdr === 'record' ? { 'X-One': T('h1') } : A.headers({ 'x-one': T('h1') }, { caller: 'headers' }), ...(o.traced ? { telemetry: { attributes: { a: T('attr') } } } : {}), ...(o.family === 'object' ? { schema: plainSchema(A) } : {}) }) })
          if (o.promises?.length && R.ok)
            outputs(R)
          owned(s, R)
        })
      }
    }
  }
  for (const id of CHAT) {
    for (const k of MAIN) {
      if (!build(id, k))
        continue
      rep.scenario(`${id}: ${k}`, (s) => {
        const { R } = chatScenario(s, id, k)
        owned(s, R)
      })
    }
  }
  for (const id of ['generateObject', 'streamObject']) {
    for (const output of ['array', 'object', undefined]) {
      rep.scenario(`${id}: a nested schema in ${output ?? 'default'} mode`, (s) => {
        const R = runOp(s, id, { turns: [{ text: ['{"elements":[{"a":1}]}'] }], options: A => ({ ...(output ? { output } : {}), schema: plainSchema(A) }) })
        owned(s, R)
      })
    }
  }
}
/** schema whose JSON form belongs to the caller (a schema library may cache it) */
const plainSchema = A => stdSchema(A, { json: A.val({ type: 'object', properties: { a: { type: 'object', properties: { b: { type: 'string' } }, required: ['b'] }, l: { type: 'array', items: { type: 'object', properties: {} } } }, $defs: { x: { type: 'object', properties: {} } } }, { caller: 'schema' }) })
export { plainSchema }

// ------------------------------------------------------------------ C03
const secretsIn = t => [...treeProv(t)].filter(x => String(x).startsWith('SECRET'))
export const C03 = (rep) => {
  const opt = A => ({ apiKey: T('SECRET_KEY'), headers: A.val({ 'x-secret': T('SECRET_HEADER'), 'authorization2': T('SECRET_HEADER2') }) })
  const scan = (s, R) => {
    const o = R.o
    R.requests.forEach((q, i) => {
      s.must(`request ${i + 1}: the URL holds no credential`, secretsIn(q.url).length === 0, secretsIn(q.url).join())
      const rest = Object.entries(q.init?.props ?? {}).filter(([k]) => k !== 'headers')
      for (const [k, e] of rest) s.must(`request ${i + 1}: ${k} holds no credential`, secretsIn(e.v).length === 0, secretsIn(e.v).join())
    })
    const others = R.entries(l => l !== 'fetch')
    const bad = others.filter(e => secretsIn(e.tree).length)
    s.must('no callback, tool, event or span sees a credential', bad.length === 0, bad.map(b => b.label).slice(0, 3).join())
    const con = R.A.events(/^(console|span-)/).filter(e => (e.args ?? []).some(a => secretsIn(R.st ? R.A.tree(R.st, a) : null).length || provHas(a)))
    s.must('no console line or span holds a credential', con.length === 0, con.map(c => c.label).join(), con[0]?.at)
    if (R.err)
      s.must('no error holds a credential', secretsIn(R.A.tree(R.err.st, R.err.v)).length === 0, 'the rejection')
    if (R.ok) {
      const out = o.promises || o.streams ? outputs(R) : null
      if (out) {
        for (const [k, p] of Object.entries(out.promises)) s.must(`promise ${k} holds no credential`, !secretsIn(p.ok).length && !secretsIn(p.err).length)
        for (const [k, st] of Object.entries(out.streams)) s.must(`stream ${k} holds no credential`, ![...st.items, st.star, st.err].some(t => secretsIn(t).length))
      }
      else {
        s.must('the result holds no credential', secretsIn(R.A.tree(R.ok.st, R.ok.v)).length === 0)
      }
    }
  }
  const provHas = a => [...treeProv({ kind: a.t, v: a })].some(x => String(x).startsWith('SECRET'))
  const KINDS = {
    'success': {},
    'error status': { respond: (I, n, q, node, A) => ({ ok: false, json: A.val({ error: T('upstream') }) }) },
    'no body': { respond: () => ({ ok: true, body: C(null) }) },
    'body is not a stream': { respond: (I, n, q, node, A) => ({ ok: true, body: A.val({}) }) },
    'not JSON': { respond: (I, n, q, node, A) => ({ ok: true, body: A.sse(I, [C('{"x"')], { name: 'bad' }), text: C('{"x"') }) },
    'rejected fetch': { respond: (I, n, q, node, A) => I.rejectedPromise(A.error('TypeError', 'net'), `netrej${I.ctx}`) },
  }
  for (const id of Object.keys(OPS)) {
    for (const [kind, k] of Object.entries(KINDS)) {
      rep.scenario(`${id}: ${kind}`, (s) => {
        const R = runAny(s, id, { ...k, options: A => ({ ...opt(A), ...Object.fromEntries((OPS[id].callbacks ?? []).map(c => [c, A.fn(c)])), ...(OPS[id].family === 'chat' ? { preToolCall: A.fn('pre'), postToolCall: A.fn('post'), prepareStep: A.fn('prepareStep', () => A.val({})) } : {}), ...(OPS[id].traced ? { telemetry: A.val({ attributes: { a: 1 } }) } : {}) }) })
        scan(s, R)
      })
    }
  }
  for (const id of CHAT) {
    for (const k of MAIN.filter(k => /throws|unknown|not JSON|issues|without|another call|rewrites/.test(k))) {
      if (!build(id, k))
        continue
      rep.scenario(`${id}: ${k}`, (s) => {
        const { R } = chatScenario(s, id, k, { options: opt })
        scan(s, R)
      })
    }
  }
  const HOSTS = { 'another host': 'https://img.example.com/a.png', 'the host of the API': `${new URL(BASE).origin}/files/a.png`, 'a path under the base URL': `${BASE.replace(/\/$/, '')}/files/a.png`, 'a host of the same domain': `${BASE.replace('://', '://img.').replace(/\/$/, '')}/a.png`, 'plain http': 'http://img.example.com/a.png', 'a local address': 'http://localhost:11434/v1/a.png', 'a data URL': 'data:image/png;base64,AAAA', 'a signed URL': 'https://img.example.com/a.png?token=t&sig=s#f' }
  for (const [name, u] of Object.entries(HOSTS)) {
    for (const own of [false, true]) {
      rep.scenario(`generateImage: downloads carry no credential, ${name}${own ? ', several images' : ''}`, (s) => {
        const R = runOp(s, 'generateImage', { options: opt, respond: (I, n, req, node, A) => (n === 0 ? { body: A.sse(I, []), json: A.val({ data: own ? [{ url: C(u) }, { url: C('https://img.example.com/b.png') }, { url: C(u) }] : [{ url: C(u) }] }) } : { body: A.sse(I, [], { name: `img${n}` }), headers: A.headers({}) }) })
        scan(s, R)
        s.must('the image is downloaded', R.requests.length === (own ? 4 : 2), `${R.requests.length} requests`)
        R.requests.slice(1).forEach(q => s.must('the download carries no credential', secretsIn(q.init).length === 0 && secretsIn(q.headers).length === 0))
      })
    }
  }
}

// ------------------------------------------------------------------ C35
const formOf = q => q.body
const entry = (name, value, ...rest) => ({ name, value, rest })
export const C35 = (rep) => {
  const base = { model: 'gpt-x' }
  void base
  const CASES = {
    'only required': [{}, {}],
    'file name': [{ fileName: T('fname') }, { fname: T('fname') }],
    'language': [{ language: T('lang') }, { language: T('lang') }],
    'prompt': [{ prompt: T('pr') }, { prompt: T('pr') }],
    'temperature': [{ temperature: T('temp') }, { temperature: T('temp') }],
    'empty and zero-like texts': [{ language: '', prompt: '', temperature: '0' }, { language: '', prompt: '', temperature: '0' }],
    'everything': [{ fileName: T('fname'), language: T('lang'), prompt: T('pr'), temperature: T('temp') }, { fname: T('fname'), language: T('lang'), prompt: T('pr'), temperature: T('temp') }],
    'undefined fields': [{ fileName: undefined, language: undefined, prompt: undefined, temperature: undefined }, {}],
  }
  const FORMATS = {
    '': [{}, { response_format: 'json' }],
    ', json': [{ responseFormat: 'json' }, { response_format: 'json' }],
    ', json with granularity': [{ responseFormat: 'json', timestampGranularities: 'word' }, { response_format: 'json' }],
    ', verbose': [{ responseFormat: 'verbose_json' }, { 'response_format': 'verbose_json', 'timestamp_granularities[]': 'segment' }],
    ', verbose words': [{ responseFormat: 'verbose_json', timestampGranularities: 'word' }, { 'response_format': 'verbose_json', 'timestamp_granularities[]': 'word' }],
  }
  const check = (s, R, want) => {
    s.must('one request', R.requests.length === 1, `${R.requests.length}`)
    const q = R.requests[0]
    const t = formOf(q)
    if (!s.must('the body is a form', t?.kind === 'formdata', t?.kind))
      return
    const got = {}
    for (const it of t.items) {
      const [n, v, f] = it.items ?? []
      const name = n?.v?.v ?? n?.v
      s.must('every field has a constant name and appears once', typeof name === 'string' && !(name in got), String(name))
      got[name] = { v, f }
    }
    s.must('no unbounded fields', !t.star)
    s.must('exactly the documented fields', JSON.stringify(Object.keys(got).sort()) === JSON.stringify(Object.keys(want.fields).sort()), `${Object.keys(got)} expected ${Object.keys(want.fields)}`)
    for (const [k, p] of Object.entries(want.fields)) s.is(`field ${k}`, got[k]?.v, p)
    s.is('the file keeps its name', got.file?.f, want.fname ?? ABSENT)
    s.is('no content type is set by hand', q.headers?.props?.['content-type']?.v, ABSENT)
  }
  for (const id of ['generateTranscription', 'streamTranscription']) {
    for (const [k, [given, w]] of Object.entries(CASES)) {
      for (const [fk, [fg, fw]] of Object.entries(id === 'generateTranscription' ? FORMATS : { '': [{}, { stream: 'true' }] })) {
        rep.scenario(`${id}: ${k}${fk}`, (s) => {
          const R = runOp(s, id, { options: { ...given, ...fg, apiKey: T('apiKey') } })
          const { fname, ...fields } = w
          check(s, R, { fname, fields: { model: 'gpt-x', file: OBJ('file'), ...fields, ...fw } })
        })
      }
    }
  }
}
void [ANY, open, pred, sym, entry]
