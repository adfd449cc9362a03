// Structured data: C18 event and body parsing, C19 validated objects, C20 requested schema, C21 object streams, C23 tool builders
import { ABSENT, ANY, DEFINED, errorOf, match, open, pred } from '../lib/check.mjs'
import { NUM, OBJ, OPS, outputs, runOp, S, stdSchema, streamIs, T, TT, usageOut } from '../lib/ops.mjs'
import { C, N, sym, tree, treeKey } from '../lib/harness.mjs'
import { partialParse } from './settle.mjs'

/** plain data of a snapshot made of constants only; undefined otherwise */
export const plainOf = (t) => {
  if (!t || (t.star) || t.rest?.length)
    return undefined
  if (t.kind === 'const')
    return t.v
  if (t.kind === 'array')
    return t.items.map(plainOf)
  if (t.kind === 'object') {
    const o = {}
    for (const [k, e] of Object.entries(t.props)) {
      if (e.may)
        return undefined
      const v = plainOf(e.v)
      if (v !== undefined)
        o[k] = v
    }
    return o
  }
  return undefined
}
const canon = v => JSON.stringify(v, (k, x) => (x && typeof x === 'object' && !Array.isArray(x) ? Object.fromEntries(Object.entries(x).sort(([a], [b]) => (a < b ? -1 : 1))) : x))
export const samePlain = want => pred(canon(want).slice(0, 400), t => canon(plainOf(t)) === canon(want))

// ------------------------------------------------------------------ C18
const BAD = ['{"a"', 'not json', '[1,', 'undefined', '<html>', '{"a":1}}', '[DONE', 'DONE', ' ', '\u2028{', '{\'a\':1}', 'NaN']
const ERRS = ['{"error":{"message":"x","code":429}}', '{"error":"x"}', '{"error":false}', '{"error":{},"choices":[{"delta":{"content":"t"}}]}', '{"error":0,"type":"response.completed"}', '{"error":""}']
const SKIP = { 'empty data': C(''), 'end marker': C('[DONE]'), 'null data': C('null'), 'null data with spaces': C(' null ') }
const sseOps = ['streamText', 'tracedStreamText', 'responses', 'streamObject', 'streamSpeech', 'streamTranscription']
/** respond with the normal body, with `datas` inserted in front of item `at` (or at the end) */
const insert = (o, turn, at, datas, { cut = false } = {}) => (I, n, q, node, A) => {
  if (n !== 0)
    return null
  const norm = o.reply(A, I, turn, 70).body
  const items = I.st.get(norm.id).items
  const extra = datas.map((d, i) => I.st.get(A.sse(I, [d], { name: `ins${i}` }).id).items[0])
  const s = A.sse(I, [], { name: 'ins' })
  const i = at < 0 ? items.length - 1 : at
  I.st.set(s.id, { ...I.st.get(s.id), items: [...items.slice(0, i), ...extra, ...(cut ? [] : items.slice(i))] })
  return { ok: true, body: s }
}
const nOf = (o, turn) => {
  let n = 0
  return { set: x => n = x, get: () => n, o, turn }
}
void nOf
const turnFor = id => (id === 'streamObject' ? { text: ['{"a"', ':1}'] } : id === 'streamSpeech' || id === 'streamTranscription' ? {} : { reasoning: [T('r0')], text: [T('t0'), T('t1')] })
const failsWith = (s, R, o, err) => {
  if (R.err)
    s.is('the call fails with the typed error', R.A.tree(R.err.st, R.err.v), err)
  if (!R.ok)
    return
  const out = outputs(R)
  for (const n of o.promises ?? []) {
    const p = out.promises[n]
    s.must(`promise ${n} rejects`, !!p?.err && !p.ok, 'it may resolve or stay open')
    if (p?.err)
      s.is(`promise ${n} carries the typed error`, p.err, err)
  }
  for (const n of o.streams ?? []) {
    const st = out.streams[n]
    s.must(`stream ${n} fails`, st?.end.join() === 'errored', st ? `ends ${st.end.join('|')}` : 'missing')
    if (st?.err)
      s.is(`stream ${n} carries the typed error`, st.err, err)
  }
  return out
}
export const C18 = (rep) => {
  for (const id of sseOps) {
    const o = OPS[id]
    const turn = turnFor(id)
    const go = (s, f, extra = {}) => runOp(s, id, { turns: [turn], respond: f, harness: { partialParse }, options: A => ({ ...Object.fromEntries((o.callbacks ?? []).map(c => [c, A.fn(c)])) }), ...extra })
    const cases = [...BAD.map(d => [d, errorOf('JSONParseError', { text: d, cause: errorOf('SyntaxError') })]), ...ERRS.map(d => [d, errorOf('RemoteAPIError', { responseBody: d })])]
    for (const at of [0, 1, 2, -1]) {
      for (const [d, err] of cases) {
        rep.scenario(`${id}: event ${JSON.stringify(d)} at ${at}`, (s) => {
          const R = go(s, insert(o, turn, at, [C(d)]))
          failsWith(s, R, id === 'streamSpeech' && at < 0 ? { ...o, promises: [] } : o, err)
          s.must('no further request follows', R.requests.length === 1, `${R.requests.length} requests`)
        })
      }
      if (at === 0)
        continue
      rep.scenario(`${id}: what came before a bad event at ${at} is delivered`, (s) => {
        const a = go(s, insert(o, turn, at, [], { cut: true }))
        const b = go(s, insert(o, turn, at, [C('{')]))
        if (!s.must('both runs return', !!a.ok && !!b.ok, 'one fails at once'))
          return
        const [x, y] = [outputs(a), outputs(b)]
        for (const n of o.streams) {
          // the same items, without those only the end of the stream brings
          const k = y.streams[n].items.map(treeKey)
          const w = x.streams[n].items.map(treeKey)
          s.must(`stream ${n} delivered the events before it`, k.length <= w.length && k.every((v, i) => v === w[i]) && (n === 'eventStream' || n === 'elementStream' || n === 'partialObjectStream' || k.length === w.length || w.slice(k.length).every(v => v.includes('.done'))), `${k.length} of ${w.length} items`)
        }
      })
    }
    for (const [name, d] of Object.entries(SKIP)) {
      for (const at of [0, 1, 2, -1]) {
        rep.scenario(`${id}: ${name} at ${at} changes nothing`, (s) => {
          const a = outputs(go(s, insert(o, turn, at, [])))
          const b = outputs(go(s, insert(o, turn, at, [d, d])))
          for (const n of o.streams) {
            s.must(`stream ${n} delivers the same`, canonStream(a.streams[n]) === canonStream(b.streams[n]), `${canonStream(a.streams[n]).slice(0, 200)} vs ${canonStream(b.streams[n]).slice(0, 200)}`)
          }
          for (const n of o.promises) s.must(`promise ${n} resolves to the same`, !!a.promises[n]?.ok && !a.promises[n].err && treeKey(a.promises[n].ok) === treeKey(b.promises[n]?.ok ?? { kind: 'const', v: null }) && !b.promises[n]?.err, 'differs')
        })
      }
    }
    for (const e of ['null', 'undefined']) {
      const d = e === 'null' ? null : undefined
      rep.scenario(`${id}: an ${e} error field is no error`, (s) => {
        const first = o.reply
        void first
        const R = go(s, (I, n, q, node, A) => {
          const ev = A.val({ ...(id === 'responses' ? { type: 'response.created', response: { output: [] } } : id === 'streamText' || id === 'streamObject' ? { choices: [] } : { type: 'x' }), error: d })
          return insert(o, turn, 0, [A.json(I, ev)])(I, n, q, node, A)
        })
        const out = R.ok ? outputs(R) : null
        for (const n of o.streams) s.must(`stream ${n} ends normally`, out?.streams[n]?.end.join() === 'closed', out ? out.streams[n]?.end.join('|') : 'the call fails')
      })
    }
  }
  for (const id of Object.keys(OPS).filter(k => !OPS[k].stream && k !== 'generateSpeech')) {
    const o = OPS[id]
    for (const d of ['{"a"', 'not json', '', '<html></html>']) {
      rep.scenario(`${id}: body ${JSON.stringify(d)}`, (s) => {
        const R = runOp(s, id, { respond: (I, n, q, node, A) => ({ ok: true, body: A.sse(I, []), text: C(d) }) })
        s.must('the call rejects', !!R.err && !R.ok, 'it may resolve')
        if (R.err)
          s.is('with a JSON-parse error carrying the text and the cause', R.A.tree(R.err.st, R.err.v), errorOf('JSONParseError', { text: d, cause: errorOf('SyntaxError') }))
      })
    }
    if (o.path === 'chat/completions') {
      for (const [k, raw] of Object.entries({ 'no choices': { id: 'x' }, 'no choices but usage': { usage: { prompt_tokens: 1, completion_tokens: 2, total_tokens: 3 } }, 'empty choices': { choices: [], usage: { prompt_tokens: 1, completion_tokens: 2, total_tokens: 3 } }, 'null choices': { choices: null, usage: null } })) {
        rep.scenario(`${id}: ${k}`, (s) => {
          const R = runOp(s, id, { turns: [{ raw }] })
          s.must('the call rejects', !!R.err && !R.ok, 'it may resolve')
          if (R.err)
            s.is('with an invalid-response error', R.A.tree(R.err.st, R.err.v), errorOf('InvalidResponseError', { reason: 'no_choices' }))
        })
      }
    }
  }
  // the parser itself, with options of its own
  const PARSE = {
    'a value': ['{"a":1}', null, { a: 1 }],
    'a list': ['[1]', null, [1]],
    'a text': ['"x"', null, 'x'],
    'zero': ['0', null, 0],
    'false': ['false', null, false],
    'empty data': ['', null, undefined],
    'the end marker': ['[DONE]', null, undefined],
    'its own end marker': ['END', { doneMarker: C('END') }, undefined],
    'the usual end marker next to its own': ['[DONE]', { doneMarker: C('END') }, errorOf('JSONParseError', { text: '[DONE]' })],
    'its own parser': ['anything', { parse: T('parsed') }, T('parsed')],
    'its own parser and the end marker': ['[DONE]', { parse: T('parsed') }, undefined],
    'its own parser that throws': ['anything', { parse: null }, errorOf('JSONParseError', { text: 'anything', cause: errorOf('RangeError') })],
    'an error': ['{"error":1}', null, errorOf('RemoteAPIError', { responseBody: '{"error":1}' })],
    'an error by its own test': ['{"failed":1}', { isErrorResponse: C(true) }, errorOf('RemoteAPIError', { responseBody: '{"failed":1}' })],
    'no error by its own test': ['{"error":1}', { isErrorResponse: C(false) }, { error: 1 }],
  }
  for (const [k, [data, options, want]] of Object.entries(PARSE)) {
    rep.scenario(`one event: ${k}`, (s) => {
        const A = s.analysis({})
        const o = options && A.val(Object.fromEntries(Object.entries(options).map(([n, v]) => [n, n === 'doneMarker' ? v : v === null ? A.fn(n, undefined, { throws: () => A.error('RangeError', 'own') }) : A.fn(n, v)])))
        const failed = want?.$p === 'error'
        const r = A.run(A.export('@xsai/shared-stream', 'parseJsonSSEMessage'), [A.val({ data }), ...(o ? [o] : [])])
        if (failed) {
          s.must('it throws', !r.st && r.throws.length > 0, 'it may return')
          r.throws.forEach(t => s.is('the typed error', A.tree(t.st, t.v ?? t.value), want))
        }
        else if (s.must('it returns', !!r.st && r.throws.length === 0, 'it may throw')) {
          s.is('the value', A.tree(r.st, r.v), want === undefined ? ABSENT : want)
        }
    })
  }
  rep.scenario('generateText: bad body of a later step', (s) => {
    const R = runOp(s, 'generateText', { turns: [{ calls: [{ id: T('c'), name: 'alpha', args: ['{}'] }] }], options: A => ({ stopWhen: A.fn('stopWhen', C(false)), tools: [A.val({ type: 'function', function: { name: 'alpha', parameters: {} }, execute: A.fn('alpha', C('r')) })] }), respond: (I, n, q, node, A) => (n === 1 ? { ok: true, body: A.sse(I, []), text: C('nope') } : null) })
    s.must('the call rejects', !!R.err && !R.ok, 'it may resolve')
    if (R.err)
      s.is('with a JSON-parse error', R.A.tree(R.err.st, R.err.v), errorOf('JSONParseError', { text: 'nope' }))
  })
}
const canonStream = st => (st ? `${st.items.map(treeKey).join(';')}*${st.star ? treeKey(st.star) : ''} ${st.end.join('|')}` : 'missing')

// ------------------------------------------------------------------ C19
/** validator whose output names its input */
const validator = (I, args) => I.fromJS({ value: OBJ(`valid(${treeKey(tree(I, args[0]))})`) })
const validOf = t => OBJ(`valid(${treeKey(t)})`)
const lit = v => (Array.isArray(v) ? { kind: 'array', items: v.map(lit), star: null } : v && typeof v === 'object' ? { kind: 'object', props: Object.fromEntries(Object.entries(v).map(([k, x]) => [k, { v: lit(x), may: false }])), rest: [] } : { kind: 'const', v })
const isValid = v => ({ $p: 'pred', what: `the validator's output for ${JSON.stringify(v)}`, f: t => t?.kind === 'sym' && t.v.k === validOf(lit(v)).k })
const OBJECT_TEXTS = ['{"elements":[1]}', '{"object":{"a":1}}', '{"a":1,"a":2}', '"{\\"a\\":1}"', '"{}"', '""', '-1.5e3', 'true', '[{"a":1},{"a":1}]', '{"":""}', '{"Ключ":"Значение ✓"}', '{"a":"x\\ny"}', '{"a":null,"b":[]}', '\t[1]\n\n', '{}', '{"a":1}', '{"a":{"b":[1,2,{"c":null}]}}', '[]', '"text"', '0', 'null', 'false', ' {"a":1}\n']
const ARRAYS = [[1, 2, 1], [{ a: 1 }, { b: 2 }, { a: 1 }], ['', '', 'x'], [null, null], [false, 0], [[[1]], [[1]]], [[], {}, []], [{ elements: [1] }, { elements: [] }], Array.from({ length: 12 }, (_, i) => i % 5), [], [1], [1, 2, 3], [{ a: 1 }, { a: 2 }], [null, false, 0, ''], [[1], []]]
const goObj = (s, cfg = {}) => runOp(s, 'generateObject', { ...cfg, turns: cfg.turns ?? [{ text: [cfg.text], reasoning: cfg.reasoning, usage: 0 }], options: A => ({ schema: A.val(stdSchema(A, { validate: validator, async: cfg.async, ...cfg.schema?.(A) }), { caller: 'schema' }), ...(cfg.output ? { output: cfg.output } : {}), ...(typeof cfg.options === 'function' ? cfg.options(A) : cfg.options ?? {}) }) })
export const C19 = (rep) => {
  for (const async of [false, true]) {
    const tag = async ? 'async' : 'sync'
    for (const output of [undefined, 'object']) {
      for (const text of OBJECT_TEXTS) {
        rep.scenario(`${tag} validator, output ${output}, text ${text}`, (s) => {
          const R = goObj(s, { text, output, async })
          if (!s.must('the call resolves', !!R.ok && !R.err, R.err ? 'it may reject' : 'neither'))
            return
          s.is('the object is the validator output for the parsed text', R.A.tree(R.ok.st, R.A.get(R.ok.st, R.ok.v, 'object')), isValid(JSON.parse(text)))
          s.must('the validator ran once', R.calls('validate').length === 1, `${R.calls('validate').length} times`)
        })
      }
      rep.scenario(`${tag} validator, output ${output}, cut-up text`, (s) => {
        const R = goObj(s, { turns: [{ content: C('{"x":"y"}') }], output, async })
        s.is('the object is the validator output for the parsed text', R.ok ? R.A.tree(R.ok.st, R.A.get(R.ok.st, R.ok.v, 'object')) : null, isValid({ x: 'y' }))
      })
      rep.scenario(`${tag} validator, output ${output}, text in parts`, (s) => {
        const R = goObj(s, { turns: [{ content: [{ type: 'text', text: '{"x":' }, { type: 'text', text: '"y"}' }] }], output, async })
        s.is('the object is the validator output for the parsed text', R.ok ? R.A.tree(R.ok.st, R.A.get(R.ok.st, R.ok.v, 'object')) : null, isValid({ x: 'y' }))
      })
    }
    for (const [list, lastFirst] of ARRAYS.flatMap(l => (async && l.length > 1 ? [[l, false], [l, true]] : [[l, false]]))) {
      rep.scenario(`${tag} validator, array ${JSON.stringify(list)}${lastFirst ? ', later elements are validated first' : ''}`, (s) => {
        const R = goObj(s, { text: JSON.stringify({ elements: list }), output: 'array', async, harness: { lastFirst } })
        if (!s.must('the call resolves', !!R.ok && !R.err, R.err ? 'it may reject' : 'neither'))
          return
        s.is('the object is the validator output for each element, in order', R.A.tree(R.ok.st, R.A.get(R.ok.st, R.ok.v, 'object')), list.map(isValid))
        s.must('the validator ran once per element', R.calls('validate').length === list.length, `${R.calls('validate').length} times`)
      })
    }
    for (const output of [undefined, 'object', 'array']) {
      const text = output === 'array' ? '{"elements":[1,2,3]}' : '{"a":1}'
      const rejects = (name, cfg, err) => rep.scenario(`${tag} validator, output ${output}, ${name}`, (s) => {
        const R = goObj(s, { output, async, text, ...cfg })
        s.must('the call rejects', !R.ok && !!R.err, 'it may resolve')
        if (R.err && err)
          s.is('with the documented error', R.A.tree(R.err.st, R.err.v), err)
      })
      const issue = A => ({ validate: (I) => { void A; return I.fromJS({ issues: I.fromJS([{ message: 'bad' }], '@issues') }) } })
      const issuesErr = { $p: 'pred', what: 'an error telling the issues', f: t => t?.kind === 'error' && /message:c:string:bad|"message": "bad"/.test(treeKey(t)) }
      rejects('issues reported', { schema: issue }, issuesErr)
      if (output === 'array')
        rejects('issues reported for the last element', { schema: () => ({ validate: (I, a) => (a[0].t === 'const' && a[0].v === 3 ? I.fromJS({ issues: I.fromJS([{ message: 'bad' }], '@issues') }) : I.fromJS({ value: a[0] })) }) }, issuesErr)
      rejects('issues and a value reported', { schema: () => ({ validate: (I, a) => I.fromJS({ value: a[0], issues: I.fromJS([{ message: 'bad' }], '@issues') }) }) }, issuesErr)
      rejects('validator throws', { schema: () => ({ validate: I => I.throwValue(I.A.error('RangeError', 'v')) }), options: (A) => { A.I.A = A; return {} } }, errorOf('RangeError'))
      rejects('empty text', { text: '' }, errorOf('InvalidResponseError', { reason: 'empty_body' }))
      rejects('no text', { turns: [{}] }, errorOf('InvalidResponseError', { reason: 'empty_body' }))
      for (const bad of ['{"a"', 'Sure! {"a":1}', '{"a":1}{"a":2}', '```json\n{}\n```', ' '])
        rejects(`text ${JSON.stringify(bad)}`, { text: bad }, errorOf('JSONParseError', { text: bad, cause: errorOf('SyntaxError') }))
      if (output === 'array') {
        for (const bad of ['{}', '[1]', '{"elements":null}', '{"elements":{"a":1}}']) rejects(`text ${bad}`, { text: bad })
      }
    }
  }
  // the other fields are those of the text generation
  for (const output of [undefined, 'array']) {
    for (const [k, turns] of Object.entries({
      'one step': [{ text: [output ? '{"elements":[1]}' : '{"a":1}'], reasoning: [T('r0')], usage: 0, finish: T('fr') }],
      'after a tool step': [{ calls: [{ id: T('c0'), name: 'alpha', args: ['{}'] }], text: [T('thinking')], usage: 0 }, { text: [output ? '{"elements":[1]}' : '{"a":1}'], usage: 1 }],
    })) {
      rep.scenario(`output ${output}: other fields, ${k}`, (s) => {
        const common = A => ({ stopWhen: A.fn('stopWhen', C(false)), onStepFinish: A.fn('onStepFinish'), tools: [A.val({ type: 'function', function: { name: 'alpha', parameters: {} }, execute: A.fn('alpha', C('r')) })] })
        const a = goObj(s, { turns, output, options: common })
        const b = runOp(s, 'generateText', { turns, options: common })
        if (!s.must('both resolve', !!a.ok && !!b.ok, 'one rejects'))
          return
        const x = a.A.tree(a.ok.st, a.ok.v)
        const y = b.A.tree(b.ok.st, b.ok.v)
        for (const n of new Set([...Object.keys(x.props), ...Object.keys(y.props)])) {
          if (n === 'object' || n === '#end')
            continue
          s.must(`field ${n} is that of the text generation`, treeKey(x.props[n]?.v ?? lit(undefined)) === treeKey(y.props[n]?.v ?? lit(undefined)), `${treeKey(x.props[n]?.v ?? lit(undefined)).slice(0, 150)} vs ${treeKey(y.props[n]?.v ?? lit(undefined)).slice(0, 150)}`)
        }
        s.must('the step callback ran per step', a.calls('onStepFinish').length === turns.length, `${a.calls('onStepFinish').length}`)
      })
    }
  }
}

// ------------------------------------------------------------------ C20
const O = (properties, extra = {}) => ({ type: 'object', properties, required: Object.keys(properties), ...extra })
export const SCHEMAS = {
  'empty object': { type: 'object', properties: {} },
  'flat object': O({ a: { type: 'string' } }, { description: 'd' }),
  'object without properties': { type: 'object' },
  'nested objects': O({ a: O({ b: O({ c: { type: 'number' } }) }), z: { type: 'string', enum: ['x'] } }),
  'objects in arrays': O({ list: { type: 'array', items: O({ x: { type: 'array', items: O({}) } }) } }),
  'objects in unions': O({ u: { anyOf: [O({ k: { const: 1 } }), { type: 'null' }, O({ l: O({}) })] }, v: { oneOf: [O({}), { type: 'string' }] } }),
  'shared definitions': { ...O({ n: { $ref: '#/$defs/node' } }), $defs: { node: O({ next: { $ref: '#/$defs/node' }, data: O({}) }) }, definitions: { old: O({}) } },
  'nullable objects': { ...O({ n: { ...O({ deep: { ...O({}), type: ['null', 'object'] } }), type: ['object', 'null'] }, list: { type: ['array', 'null'], items: O({}) }, s: { type: ['string', 'null'] } }) },
  'tuples': O({ pair: { type: 'array', items: [O({}), { type: 'string' }, { anyOf: [O({ a: O({}) })] }] } }),
  'extra keywords': O({ s: { type: 'string', format: 'email', minLength: 1, default: 'q' } }, { $schema: 'http://json-schema.org/draft-07/schema#', title: 't', minProperties: 1 }),
}
const strictly = (v) => {
  if (Array.isArray(v))
    return v.map(strictly)
  if (!v || typeof v !== 'object')
    return v
  const o = { ...v }
  for (const k of ['properties', '$defs', 'definitions']) {
    if (o[k])
      o[k] = Object.fromEntries(Object.entries(o[k]).map(([n, x]) => [n, strictly(x)]))
  }
  for (const k of ['items', 'anyOf', 'oneOf']) {
    if (o[k])
      o[k] = strictly(o[k])
  }
  if ([o.type].flat().includes('object'))
    o.additionalProperties = false
  return o
}
export { strictly }
const wrapped = v => ({ type: 'object', properties: { elements: { type: 'array', items: v } }, required: ['elements'] })
export const C20 = (rep) => {
  for (const id of ['generateObject', 'streamObject']) {
    for (const [name, json] of Object.entries(SCHEMAS)) {
      for (const output of [undefined, 'object', 'array']) {
        for (const strict of [undefined, true, false]) {
          for (const named of [false, true, 'undefined']) {
            if (named === 'undefined' && (strict !== undefined || (output && name !== 'nested objects')))
              continue
            rep.scenario(`${id}: ${name}, output ${output}, strict ${strict}${named === 'undefined' ? ', options given as undefined' : named ? ', named' : ''}`, (s) => {
              const R = runOp(s, id, { turns: [{ text: [output === 'array' ? '{"elements":[]}' : '{}'] }], harness: { partialParse }, options: A => ({ schema: A.val(stdSchema(A, { json }), { caller: 'schema' }), ...(output ? { output } : {}), ...(strict === undefined ? {} : { strict }), ...(named === true ? { schemaName: T('sn'), schemaDescription: T('sd') } : {}), ...(named === 'undefined' ? { strict: undefined, schemaName: undefined, schemaDescription: undefined, output } : {}) }) })
              const q = R.requests[0]
              if (!s.must('one request is made', R.requests.length === 1 && !!q.json, `${R.requests.length} requests`))
                return
              let want = output === 'array' ? wrapped(json) : json
              if (strict !== false)
                want = strictly(want)
              s.is('the requested response format', q.json.props.response_format?.v, { type: 'json_schema', json_schema: { name: named === true ? T('sn') : 'json_schema', description: named === true ? T('sd') : ABSENT, strict: strict ?? true, schema: samePlain(want) } })
              for (const k of ['schema', 'schema_name', 'schema_description', 'output', 'strict']) s.is(`no stray field ${k}`, q.json.props[k]?.v, ABSENT)
              s.is('the schema was asked for in the draft the API expects', { kind: 'array', items: R.calls('toJsonSchema').map(c => c[0]), star: null }, [open({ target: 'draft-07' })])
            })
          }
        }
      }
    }
    for (const strict of [undefined, false]) {
      rep.scenario(`${id}: the schema given by the caller is left alone, strict ${strict}`, (s) => {
        const json = SCHEMAS['objects in unions']
        let ref
        let before
        const R = runOp(s, id, { turns: [{ text: ['{"elements":[]}'] }], harness: { partialParse }, options: (A) => {
          ref = A.val(json, { caller: 'json' }, 'callerjson')
          before = treeKey(A.tree(A.st, ref))
          return { schema: A.val({ '~standard': { version: 1, vendor: 'custom', jsonSchema: { input: A.fn('toJsonSchema', () => ref) }, validate: A.fn('validate', validator) } }), output: 'array', strict }
        } })
        s.must('unchanged', treeKey(R.A.tree(R.st, ref)) === before, 'it was changed')
      })
    }
  }
}

// ------------------------------------------------------------------ C21
const cuts = (text, max) => {
  const half = text.length >> 1
  const out = [[text], [...text], [text, ''], ['', text], [text.slice(0, half), '', '', text.slice(half), '']]
  for (let i = 1; i < text.length; i++) out.push([text.slice(0, i), text.slice(i)])
  for (let k = 2; k <= max; k++) {
    const l = []
    for (let i = 0; i < text.length; i += k) l.push(text.slice(i, i + k))
    out.push(l)
  }
  return out
}
const monotone = (n, max) => {
  const out = []
  const go = (l) => {
    if (l.length === n)
      return out.push(l)
    for (let i = l.at(-1) ?? 0; i <= max; i++) go([...l, i])
  }
  go([])
  return out
}
const streamObj = (s, text, output, extra = {}) => runOp(s, 'streamObject', { turns: [{ text }], harness: { partialParse, ...extra }, options: { output } })
export const C21 = (rep) => {
  const deep = rep.tier === 'thorough'
  for (const list of [[], [1], [1, 2, 3], [{ a: 1 }, { a: 2 }], ['x', 'yz'], [[], [1]], [12, 34], [true, null], [{ elements: [1] }], [1, 2, 1], [{ a: 1 }, { a: 1 }], ['', ''], [null, null], [[[]], {}]]) {
    const text = JSON.stringify({ elements: list })
    const all = cuts(text, deep ? 8 : 3)
    rep.scenario(`elements ${JSON.stringify(list)} in ${all.length} cuts`, (s) => {
      for (const c of all) {
        const R = streamObj(s, c, 'array')
        const out = R.ok ? outputs(R) : null
        streamIs(s, 'every element exactly once and in order', out?.streams.elementStream, list.map(samePlain))
        streamIs(s, 'the text stream delivers the whole text', out?.streams.textStream, c)
        s.must('no partial-object stream in array mode', !out?.streams.partialObjectStream, 'there is one')
      }
    })
  }
  for (const v of [{}, { a: 1 }, { a: 'xy', b: [1, { c: true }] }, { a: { b: {} } }, [1, 2], { a: null }]) {
    const text = JSON.stringify(v)
    const all = cuts(text, deep ? 8 : 3)
    for (const output of [undefined, 'object']) {
      rep.scenario(`object ${text}, output ${output}, in ${all.length} cuts`, (s) => {
        for (const c of all) {
          const R = streamObj(s, c, output)
          const out = R.ok ? outputs(R) : null
          const want = []
          let acc = ''
          let last = '{}'
          for (const x of c) {
            acc += x
            let d
            try {
              d = lenientOf(acc)
            }
            catch { continue }
            if (JSON.stringify(d) !== last) {
              last = JSON.stringify(d)
              want.push(d)
            }
          }
          streamIs(s, 'each changed snapshot, ending with the final one', out?.streams.partialObjectStream, want.map(samePlain))
          s.must('the last snapshot is the final object', text === '{}' || canon(want.at(-1)) === canon(v), 'reference')
          streamIs(s, 'the text stream delivers the whole text', out?.streams.textStream, c)
          s.must('no element stream in object mode', !out?.streams.elementStream, 'there is one')
        }
      })
    }
  }
  // any parser, any text: the number of elements recognised after each chunk is arbitrary
  const steps = deep ? 4 : 3
  for (const sizes of monotone(steps, 3)) {
    for (const hole of deep ? [-1, 0, 1, 2] : [-1, 0, 1]) {
      rep.scenario(`recognised elements ${sizes.join()}${hole >= 0 ? `, chunk ${hole} not parsable` : ''}`, (s) => {
        const final = sizes.at(-1)
        const E = i => OBJ(`element${i}`)
        let R
        const parse = (I, a) => {
          // which prefix is parsed
          const parts = a.t === 'op' && a.op === 'concat' ? a.args.length : 1
          const i = parts - 1
          if (i === hole)
            return I.throwError('SyntaxError', 'cut')
          const n = sizes[i]
          const items = []
          for (let j = 0; j < n; j++) items.push(j === n - 1 && (i < steps - 1 || n < final) ? OBJ(`partial${j}@${i}`) : E(j))
          if (i === steps - 1 && n)
            items[n - 1] = E(n - 1)
          return I.fromJS(n === 0 && i === 0 ? {} : { elements: I.fromJS(items, `${I.ctx}@els${i}`) }, `${I.ctx}@parsed${i}`)
        }
        R = streamObj(s, Array.from({ length: steps }, (_, i) => TT(`c${i}`)), 'array', { partialParse: parse })
        const out = R.ok ? outputs(R) : null
        streamIs(s, 'every final element exactly once and in order', out?.streams.elementStream, Array.from({ length: final }, (_, j) => E(j)))
        streamIs(s, 'the text stream delivers the whole text', out?.streams.textStream, Array.from({ length: steps }, (_, i) => TT(`c${i}`)))
      })
    }
  }
  for (const output of ['object', 'array']) {
    for (const [k, turn] of Object.entries({ 'no text': { text: [] }, 'only reasoning': { reasoning: [T('r')] }, 'empty chunks': { text: ['', ''] }, 'only tool calls': { calls: [{ id: T('c'), name: 'alpha', args: ['{}'] }] } })) {
      rep.scenario(`${output}: ${k}`, (s) => {
        const R = runOp(s, 'streamObject', { turns: [turn], harness: { partialParse }, options: A => ({ output, tools: [A.val({ type: 'function', function: { name: 'alpha', parameters: {} }, execute: A.fn('alpha', C('r')) })] }) })
        const out = R.ok ? outputs(R) : null
        for (const n of ['textStream', output === 'array' ? 'elementStream' : 'partialObjectStream']) {
          const st = out?.streams[n]
          s.must(`stream ${n} fails`, st?.end.join() === 'errored', st ? `ends ${st.end.join('|')}` : 'missing')
          s.is(`stream ${n} tells why`, st?.err, errorOf('InvalidResponseError', { reason: 'empty_body' }))
          s.must(`stream ${n} delivers nothing`, !!st && st.items.every(x => x.kind === 'const' && x.v === '') && !st.star, 'it delivers items')
        }
      })
    }
  }
  // the rest of the result is that of text streaming
  for (const output of ['object', 'array']) {
    rep.scenario(`${output}: the other results are those of text streaming`, (s) => {
      const turns = [{ reasoning: [T('r')], text: [output === 'array' ? '{"elements":[1' : '{"a":', output === 'array' ? ']}' : '1}'], usage: 0 }]
      const a = runOp(s, 'streamObject', { turns, harness: { partialParse }, options: { output } })
      const b = runOp(s, 'streamText', { turns })
      if (!s.must('both return', !!a.ok && !!b.ok, 'one fails'))
        return
      const [x, y] = [outputs(a), outputs(b)]
      for (const n of OPS.streamText.promises) s.must(`promise ${n}`, !!x.promises[n]?.ok && treeKey(x.promises[n].ok) === treeKey(y.promises[n].ok), 'differs or missing')
      for (const n of OPS.streamText.streams) s.must(`stream ${n}`, canonStream(x.streams[n]) === canonStream(y.streams[n]), `${canonStream(x.streams[n]).slice(0, 100)} vs ${canonStream(y.streams[n]).slice(0, 100)}`)
    })
  }
}
import { lenient as lenientOf } from './settle.mjs'

// ------------------------------------------------------------------ C23
export const C23 = (rep) => {
  const BUILD = { tool: true, defineTool: false, rawTool: null }
  for (const [b, async] of Object.entries(BUILD)) {
    for (const [name, json] of Object.entries(SCHEMAS)) {
      for (const strict of [undefined, true, false]) {
        for (const described of [true, false, 'undefined']) {
          if (described === 'undefined' && strict !== undefined)
            continue
          rep.scenario(`${b}: ${name}, strict ${strict}${described === 'undefined' ? ', options given as undefined' : described ? '' : ', no description'}`, (s) => {
            const A = s.analysis({})
            const exec = A.fn('execute', C('r'))
            const verdict = { value: OBJ('v') }
            const parameters = async === null ? A.val(json, { caller: 'json' }) : A.val(stdSchema(A, { json, validate: () => A.val(verdict) }), { caller: 'schema' })
            const before = treeKey(A.tree(A.st, parameters))
            const r = A.runAwait(A.export('@xsai/tool', b), [A.val({ name: T('name'), ...(described === true ? { description: T('desc') } : described ? { description: undefined, strict: undefined } : {}), execute: exec, parameters, ...(strict === undefined ? {} : { strict }) }, { caller: 'options' })])
            if (!s.must('a tool is built', !!r.ok && !r.err, 'it fails'))
              return
            const t = A.tree(r.ok.st, r.ok.v)
            s.is('the tool', t, {
              type: 'function',
              execute: exec,
              function: { name: T('name'), description: described === true ? T('desc') : ABSENT, parameters: samePlain(strict === false ? json : strictly(json)), strict: strict ?? true },
              validate: async === null ? ABSENT : { $p: 'fn' },
            })
            s.must('the given schema is left alone', treeKey(A.tree(r.ok.st, parameters)) === before, 'it was changed')
            if (async === null)
              return
            s.is('the schema was asked for in the draft the API expects', { kind: 'array', items: A.logOf(r.ok.st).items.flat().filter(l => l.label === 'cb:toJsonSchema').map(l => l.tree.items[0]), star: null }, [open({ target: 'draft-07' })])
            const v = A.get(r.ok.st, r.ok.v, 'validate')
            A.I.st = r.ok.st.clone()
            const o = A.runAwait(v, [OBJ('input')])
            s.is('the validator returns the schema\'s verdict', o.ok ? A.tree(o.ok.st, o.ok.v) : null, verdict)
            s.is('on the input given', o.ok ? A.logOf(o.ok.st).items.flat().filter(l => l.label === 'cb:validate').at(-1)?.tree.items[0] : null, OBJ('input'))
          })
        }
      }
    }
    if (async === null)
      continue
    for (const [k, validate] of Object.entries({ issues: (I, A) => A.val({ issues: [{ message: 'bad' }] }), throws: (I, A) => I.throwValue(A.error('RangeError', 'v')) })) {
      rep.scenario(`${b}: schema verdict ${k}`, (s) => {
        const A = s.analysis({})
        const r = A.runAwait(A.export('@xsai/tool', b), [A.val({ name: 'n', execute: A.fn('execute'), parameters: A.val(stdSchema(A, { validate: I => validate(I, A) })) })])
        const v = A.get(r.ok.st, r.ok.v, 'validate')
        A.I.st = r.ok.st.clone()
        const o = A.runAwait(v, [OBJ('input')])
        if (k === 'throws')
          s.must('the validator fails too', !o.ok && !!o.err, 'it resolves')
        else s.is('the issues are returned', o.ok ? A.tree(o.ok.st, o.ok.v) : null, open({ issues: [{ message: 'bad' }] }))
      })
      rep.scenario(`${b}: asynchronous verdict ${k}`, (s) => {
        const A = s.analysis({})
        const r = A.runAwait(A.export('@xsai/tool', b), [A.val({ name: 'n', execute: A.fn('execute'), parameters: A.val(stdSchema(A, { async: true, validate: () => A.val({ value: OBJ('v') }) })) })])
        const v = A.get(r.ok.st, r.ok.v, 'validate')
        A.I.st = r.ok.st.clone()
        const o = A.runAwait(v, [OBJ('input')])
        s.is('the awaited verdict is returned', o.ok ? A.tree(o.ok.st, o.ok.v) : null, { value: OBJ('v') })
      })
    }
    if (b === 'tool') {
      rep.scenario('tool: a schema that cannot be converted', (s) => {
        const A = s.analysis({})
        const r = A.runAwait(A.export('@xsai/tool', b), [A.val({ name: 'n', execute: A.fn('execute'), parameters: A.val({ '~standard': { version: 1, vendor: 'nobody', validate: A.fn('validate') } }) })])
        s.must('building fails', !r.ok && !!r.err, 'it resolves')
      })
    }
  }
}
void [ANY, DEFINED, match, NUM, S, usageOut, N, sym]
export { lenientOf }
