// Small building blocks: C22 errors, C31 retrying fetch, C37 message helpers, C39 stop conditions
import { ABSENT, ANY, errorOf, open, pred } from '../lib/check.mjs'
import { rawTool, runChat } from '../lib/chat.mjs'
import { cat, OBJ, OPS, outputs, runOp, S, T } from '../lib/ops.mjs'
import { alts, C, N, op, rec, ref, sym, tree, treeKey } from '../lib/harness.mjs'
import { FALSE, TRUE, UNDEF } from '../lib/values.mjs'
import { entryFile } from '../lib/harness.mjs'
import { exportNames } from './providers.mjs'

// ------------------------------------------------------------------ C22
const SHARED = '@xsai/shared'
const resp = A => A.response(A.I, { name: 'r', ok: false, headers: A.headers({ 'X-One': T('h1'), 'x-two': T('h2') }) })
/** documented error classes: code, options they take, what they then expose */
const ERRORS = {
  APICallError: { code: 'api_call_error', given: A => ({ requestBody: T('requestBody'), response: resp(A), responseBody: T('responseBody') }), shows: { requestBody: T('requestBody'), responseBody: T('responseBody'), statusCode: sym('r.status'), statusText: sym('r.statusText'), url: sym('r.url'), response: open({ status: sym('r.status') }), responseHeaders: { 'x-one': T('h1'), 'x-two': T('h2') } } },
  InvalidResponseError: { code: 'invalid_response', given: A => ({ body: OBJ('body'), contentType: T('ct'), reason: 'no_choices', response: resp(A), responseBody: T('responseBody') }), shows: { body: OBJ('body'), contentType: T('ct'), reason: 'no_choices', responseBody: T('responseBody'), response: open({ status: sym('r.status') }) } },
  InvalidToolCallError: { code: 'invalid_tool_call', given: () => ({ availableTools: [T('a'), T('b')], reason: 'unknown_tool', toolCall: OBJ('call'), toolName: T('name') }), shows: { availableTools: [T('a'), T('b')], reason: 'unknown_tool', toolCall: OBJ('call'), toolName: T('name') } },
  InvalidToolInputError: { code: 'invalid_tool_input', given: () => ({ toolInput: OBJ('input'), toolName: T('name') }), shows: { toolInput: OBJ('input'), toolName: T('name') } },
  JSONParseError: { code: 'json_parse_error', given: () => ({ text: T('text') }), shows: { text: T('text') } },
  RemoteAPIError: { code: 'remote_api_error', given: A => ({ response: resp(A), responseBody: T('responseBody') }), shows: { responseBody: T('responseBody'), response: open({ status: sym('r.status') }) } },
  ToolExecutionError: { code: 'tool_execution_error', given: () => ({ toolCallId: T('id'), toolInput: OBJ('input'), toolName: T('name') }), shows: { toolCallId: T('id'), toolInput: OBJ('input'), toolName: T('name') } },
}
const construct = (A, f, args) => {
  const I = A.I
  const n = A.runs = (A.runs ?? -1) + 1
  const r = I.withCtx(`#${n}`, () => I.capture(() => I.construct(f, args)))
  return I.st && !r.throws.length ? r.v : null
}
/** is it certain (true/false) that v is an instance */
const certain = v => (v?.t === 'const' && typeof v.v === 'boolean' ? v.v : null)
const staticCall = (A, cls, name, args) => {
  const I = A.I
  const f = I.capture(() => I.getProp(cls, C(name))).v
  const r = I.capture(() => I.call(f, cls, args))
  return r.throws.length ? null : r.v
}
const errorClasses = (A) => {
  const base = A.export(SHARED, 'XSAIError')
  return exportNames(entryFile(SHARED)).filter((n) => {
    const v = A.export(SHARED, n)
    for (let c = v; c; c = c.superV) {
      if (c.k === base.k)
        return n !== 'XSAIError'
    }
    return false
  })
}
export const C22 = (rep) => {
  const names = [...new Set([...Object.keys(ERRORS), ...errorClasses(rep.probe())])]
  rep.extra.error_classes = names
  const given = (A, n) => ERRORS[n]?.given(A) ?? {}
  for (const n of names) {
    rep.scenario(`class ${n}`, (s) => {
      const A = s.analysis({})
      const cls = A.export(SHARED, n)
      const cause = A.error('SyntaxError', 'cause')
      const e = construct(A, cls, [T('msg'), A.val({ ...given(A, n), cause })])
      if (!s.must('it can be created with its documented options', !!e, 'it throws'))
        return
      const t = A.tree(A.I.st, e)
      s.is('it is an error of that name with code, message, cause and metadata', t, errorOf(n, { name: n, code: ERRORS[n]?.code ?? pred('a code of its own', x => x?.kind === 'const' && typeof x.v === 'string' && !Object.values(ERRORS).some(d => d.code === x.v)), message: T('msg'), ...ERRORS[n]?.shows }))
      s.must('the cause is the wrapped error itself', t.props?.cause?.v?.id === cause.id, 'another cause or none')
      for (const other of ['Error', 'XSAIError']) {
        const c = other === 'Error' ? A.I.globals.get('Error') : A.export(SHARED, other)
        s.must(`it is an instance of ${other}`, certain(A.I.instanceOf(e, c)) === true, 'it is not')
      }
      const plain = construct(A, cls, [T('msg'), A.val(given(A, n))])
      s.is('without a cause it has none', plain ? A.tree(A.I.st, plain).props.cause?.v : null, ABSENT)
    })
  }
  rep.scenario('base class', (s) => {
    const A = s.analysis({})
    const cause = A.error('Error', 'cause')
    const e = construct(A, A.export(SHARED, 'XSAIError'), [T('msg'), T('code'), A.val({ cause })])
    s.is('message and code', e && A.tree(A.I.st, e), errorOf('XSAIError', { message: T('msg'), code: T('code'), name: 'XSAIError' }))
    s.must('the cause is the wrapped error itself', !!e && A.tree(A.I.st, e).props.cause?.v?.id === cause.id)
    const e2 = construct(A, A.export(SHARED, 'XSAIError'), [T('msg'), T('code')])
    s.is('options may be left out', e2 && A.tree(A.I.st, e2), errorOf('XSAIError', { message: T('msg'), code: T('code'), cause: ABSENT }))
  })
  rep.scenario('instance tests', (s) => {
    const A = s.analysis({})
    const made = names.map(n => [n, construct(A, A.export(SHARED, n), [T('msg'), A.val(given(A, n))])])
    const others = [['Error', A.error('Error')], ['TypeError', A.error('TypeError')], ['null', C(null)], ['undefined', UNDEF], ['string', C('APICallError')], ['look-alike', A.val({ name: 'APICallError', code: 'api_call_error', message: 'x' })]]
    // other libraries name and number their errors as they like
    for (const n of [...names, 'XSAIError']) {
      const code = ERRORS[n]?.code ?? 'x'
      const e = A.error('Error', `foreign${n}`)
      for (const [k, v] of Object.entries({ name: C(n), code: C(code) })) A.I.st.get(e.id).props.set(k, { v })
      others.push([`a foreign error called ${n}`, e], [`an object like ${n}`, A.val({ name: n, code, message: 'x' })])
      const around = A.error('Error', `around${n}`)
      const inner = made.find(x => x[0] === n)?.[1]
      if (inner)
        A.I.st.get(around.id).props.set('cause', { v: inner })
      others.push([`an error caused by ${n}`, around])
    }
    for (const n of [...names, 'XSAIError']) {
      for (const [m, e] of [...made, ...others]) {
        if (!e)
          continue
        const want = n === m || (n === 'XSAIError' && names.includes(m))
        const r = staticCall(A, A.export(SHARED, n), 'isInstance', [e])
        s.must(`${n}.isInstance is ${want} for ${m}`, r && certain(r) === want, r ? treeKey(tree(A.I, r)) : 'it throws')
      }
    }
  })
  rep.scenario('codes and names are distinct', (s) => {
    const A = s.analysis({})
    const codes = names.map(n => A.tree(A.I.st, construct(A, A.export(SHARED, n), [T('msg'), A.val(given(A, n))]) ?? UNDEF).props?.code?.v?.v)
    s.must('no two classes share a code', new Set(codes).size === codes.length && codes.every(c => typeof c === 'string'), codes.join())
  })
  // parse failures wrap the original error, at every place that parses
  const bad = T('broken', { json: 'invalid' })
  for (const id of Object.keys(OPS)) {
    const o = OPS[id]
    if (id === 'generateSpeech')
      continue
    rep.scenario(`${id}: unparsable answer`, (s) => {
      const R = runOp(s, id, { respond: (I, n, q, node, A) => (o.stream ? { body: A.sse(I, [C('{nope')]) } : { body: A.sse(I, [], { name: 'x' }), text: C('{nope') }) })
      const want = errorOf('JSONParseError', { text: '{nope', cause: errorOf('SyntaxError'), code: 'json_parse_error' })
      if (R.err)
        s.is('the parse failure', R.A.tree(R.err.st, R.err.v), want)
      if (R.ok) {
        const out = outputs(R)
        const errs = [...Object.values(out.promises), ...Object.values(out.streams)].map(x => x.err).filter(Boolean)
        s.must('the failure is reported', errs.length > 0, 'nothing fails')
        errs.forEach((e, i) => s.is(`the parse failure ${i + 1}`, e, want))
      }
    })
  }
  rep.scenario('generateObject: unparsable text', (s) => {
    const R = runOp(s, 'generateObject', { turns: [{ text: ['{nope'] }] })
    s.is('the parse failure', R.err && R.A.tree(R.err.st, R.err.v), errorOf('JSONParseError', { text: '{nope', cause: errorOf('SyntaxError') }))
  })
}
const tryExport = (A, spec, name) => {
  try {
    return A.export(spec, name)
  }
  catch { return null }
}

// ------------------------------------------------------------------ C31
const STATUSES = [408, 409, 425, 429, 500, 502, 503, 504]
const DEFAULTS = { retry: 3, retryDelay: 500, retryStatusCodes: STATUSES }
const RETRY = {
  'no options': undefined,
  'empty options': {},
  'undefined options': { retry: undefined, retryDelay: undefined, retryStatusCodes: undefined },
  'own count': { retry: 2 },
  'own delay': { retryDelay: 7 },
  'own list': { retryStatusCodes: [418] },
  'no retries': { retry: 0 },
  'one retry': { retry: 1, retryDelay: 0, retryStatusCodes: [500, 418] },
  'negative count': { retry: -1 },
  'empty list': { retryStatusCodes: [] },
  'debugging': { debug: true },
  'a list with successes': { retryStatusCodes: [500, 200, 202] },
  'no retries, debugging': { retry: 0, debug: true },
}
export const C31 = (rep) => {
  for (const [key, opts] of Object.entries(RETRY)) {
    const given = Object.fromEntries(Object.entries(opts ?? {}).filter(([, v]) => v !== undefined))
    const cfg = { ...DEFAULTS, ...given }
    const retry = Math.max(0, cfg.retry)
    const statuses = [...new Set([200, 202, 204, 301, 304, 400, 401, 404, 418, 501, ...STATUSES])]
    // sequences: status on every attempt / success after k failures / unlisted status after k failures / rejection after k failures
    const seqs = []
    const listed = cfg.retryStatusCodes[0]
    for (const st of statuses) seqs.push([`always ${st}`, () => st])
    for (let k = 0; listed && k <= retry; k++) {
      seqs.push([`success after ${k} failures`, n => (n < k ? listed : 200)])
      seqs.push([`unlisted status after ${k} failures`, n => (n < k ? listed : 404)])
      seqs.push([`rejection after ${k} failures`, n => (n < k ? listed : 'reject')])
    }
    if (cfg.retryStatusCodes.length > 1)
      seqs.push(['alternating listed statuses', n => cfg.retryStatusCodes[n % 2]])
    for (const [what, at] of seqs) {
      rep.scenario(`${key}: ${what}`, (s) => {
        const A = s.analysis({ logTimers: true })
        const I = A.I
        let over = 0
        const fetch = A.fetchFn((I2, n) => {
          const st = at(n)
          // beyond the count, on a path on which everything so far is known
          if (n > retry && I2.opaque.size === 0)
            over = Math.max(over, n)
          return st === 'reject' ? I2.rejectedPromise(A.error('TypeError', 'net'), `net${I2.ctx}`) : A.response(I2, { name: `r${n}`, ok: st >= 200 && st < 300, status: C(st), body: A.sse(I2, [], { name: `b${n}` }) })
        })
        I.harness.fetch = fetch.impl
        const optionsV = opts === undefined ? [] : [A.val(opts, { caller: 'options' })]
        const made = A.run(A.export('xsfetch', 'createFetch'), optionsV)
        I.st = made.st
        const input = A.url('https://api.example.com/x')
        const init = A.val({ method: 'POST', body: T('body'), headers: { a: T('h') }, signal: OBJ('signal') }, { caller: 'init' })
        const before = treeKey(A.tree(I.st, init))
        const r = A.runAwait(made.v, [input, init])
        // reference
        let n = 0
        while (at(n) !== 'reject' && !(at(n) >= 200 && at(n) < 300) && n < retry && cfg.retryStatusCodes.includes(at(n))) n++
        const st = r.ok?.st ?? r.err?.st
        const log = st ? A.logOf(st).items : []
        const sent = log.filter(x => x.some(a => a.label === 'fetch'))
        const waits = log.filter(x => x.some(a => a.label === 'timer'))
        s.must('as many requests as needed, never more than allowed', sent.length === n + 1 && sent.every(x => x.length === 1), `${sent.length} requests instead of ${n + 1}`)
        if (cfg.retryDelay > 0)
          s.must('one wait before each retry', waits.length === n && log.filter(x => x.some(a => ['fetch', 'timer'].includes(a.label))).every((x, i) => x[0].label === (i % 2 ? 'timer' : 'fetch')), `${waits.length} waits for ${n} retries`)
        waits.forEach((w, i) => s.is(`wait ${i + 1} is as long as configured`, w[0].tree.items[0], cfg.retryDelay))
        s.syntactic('no request beyond the count', over === 0, `request ${over + 1} is made`)
        const evs = A.events('fetch')
        s.must('every request has the same input and init', evs.every(e => e.req.input.id === input.id && e.req.init?.id === init.id), 'another object is sent')
        s.must('the caller\'s init is unchanged', !st || treeKey(A.tree(st, init)) === before, 'it is changed')
        if (at(n) === 'reject') {
          s.must('the rejection is passed on', !r.ok && !!r.err, 'it may resolve')
          s.is('unchanged', r.err && A.tree(r.err.st, r.err.v), errorOf('TypeError'))
        }
        else {
          s.must('it resolves', !!r.ok && !r.err, 'it may reject')
          s.is('with the last response', r.ok && A.tree(r.ok.st, r.ok.v), pred(`response r${n}`, t => t?.props?.status?.v?.v === at(n) && String(t.id).endsWith(`resp:r${n}`)))
        }
      })
    }
  }
  rep.scenario('no retry before the delay is over', (s) => {
    const A = s.analysis({ timers: 'never' })
    A.I.harness.fetch = A.fetchFn((I2, n) => A.response(I2, { name: `r${n}`, ok: false, status: C(503), body: A.sse(I2, [], { name: `b${n}` }) })).impl
    const made = A.run(A.export('xsfetch', 'createFetch'), [])
    A.I.st = made.st
    const r = A.runAwait(made.v, [T('input')])
    s.must('one request is made', A.events('fetch').length === 1, `${A.events('fetch').length} requests`)
    s.must('and the call waits', !r.ok && !r.err, 'it ends')
  })
  // one fetch serves many requests
  for (const k of [0, 1, 2, 3]) {
    rep.scenario(`a second request after one that took ${k} retries`, (s) => {
      const A = s.analysis({ logTimers: true })
      const I = A.I
      I.harness.fetch = A.fetchFn((I2, n) => A.response(I2, { name: `r${n}`, ok: n === k, status: C(n === k ? 200 : 500), body: A.sse(I2, [], { name: `b${n}` }) })).impl
      const made = A.run(A.export('xsfetch', 'createFetch'), [])
      I.st = made.st
      const a = A.runAwait(made.v, [T('input0')])
      if (!s.must('the first request resolves', !!a.ok && !a.err, 'it may fail'))
        return
      I.st = a.ok.st.clone()
      const b = A.runAwait(made.v, [T('input1')])
      const log = b.ok ? A.logOf(b.ok.st).items : []
      const sent = log.filter(x => x.some(e => e.label === 'fetch'))
      s.must('the second one has all its retries', sent.length === k + 1 + 4, `${sent.length - k - 1} requests`)
      s.is('and resolves with the last response', b.ok && A.tree(b.ok.st, b.ok.v), pred(`response r${k + 4}`, t => String(t?.id).endsWith(`resp:r${k + 4}`)))
    })
  }
  rep.scenario('five requests in a row, each with all its retries', (s) => {
    const A = s.analysis({ logTimers: true })
    const I = A.I
    I.harness.fetch = A.fetchFn((I2, n) => A.response(I2, { name: `r${n}`, ok: false, status: C(500), body: A.sse(I2, [], { name: `b${n}` }) })).impl
    const made = A.run(A.export('xsfetch', 'createFetch'), [A.val({ retry: 2 })])
    I.st = made.st
    for (let k = 0; k < 5; k++) {
      const r = A.runAwait(made.v, [T(`input${k}`)])
      if (!s.must(`request ${k} resolves`, !!r.ok && !r.err, 'it may fail'))
        return
      const sent = A.logOf(r.ok.st).items.filter(x => x.some(e => e.label === 'fetch'))
      s.must(`request ${k} has all its retries`, sent.length === 3 * (k + 1), `${sent.length} requests so far`)
      s.is('and resolves with the last response', A.tree(r.ok.st, r.ok.v), pred(`response r${3 * k + 2}`, t => String(t?.id).endsWith(`resp:r${3 * k + 2}`)))
      I.st = r.ok.st.clone()
    }
  })
  rep.scenario('symbolic status and input', (s) => {
    const A = s.analysis({})
    A.I.harness.fetch = A.fetchFn((I2, n) => A.response(I2, { name: `r${n}`, ok: false, body: A.sse(I2, [], { name: `b${n}` }) })).impl
    const made = A.run(A.export('xsfetch', 'createFetch'), [A.val({ retry: 2 })])
    A.I.st = made.st
    const r = A.runAwait(made.v, [T('input')])
    s.must('it resolves for every status', !!r.ok && !r.err, 'it may reject or not end')
    s.must('every request has the given input', A.events('fetch').every(e => e.req.input.k === T('input').k))
  })
}

// ------------------------------------------------------------------ C37
const parts = A => A.val([{ type: 'text', text: T('t') }, { type: 'image_url', image_url: { url: T('u') } }])
const toolCallV = (A, n = 0) => A.val({ id: T(`id${n}`), type: 'function', function: { name: T(`name${n}`), arguments: T(`args${n}`) } }, { caller: `call${n}` })
const toolCallT = (n = 0) => ({ id: T(`id${n}`), type: 'function', function: { name: T(`name${n}`), arguments: T(`args${n}`) } })
export const C37 = (rep) => {
  const PARTS = [{ type: 'text', text: T('t') }, { type: 'image_url', image_url: { url: T('u') } }]
  const H = [
    ['system', 'text', () => [T('x')], { role: 'system', content: T('x') }],
    ['system', 'empty text', () => [C('')], { role: 'system', content: '' }],
    ['system', 'any text', () => [S('x')], { role: 'system', content: S('x') }],
    ['system', 'parts', A => [parts(A)], { role: 'system', content: PARTS }],
    ['user', 'text', () => [T('x')], { role: 'user', content: T('x') }],
    ['user', 'any text', () => [S('x')], { role: 'user', content: S('x') }],
    ['user', 'empty text', () => [C('')], { role: 'user', content: '' }],
    ['user', 'parts', A => [parts(A)], { role: 'user', content: PARTS }],
    ['user', 'no parts', A => [A.val([])], { role: 'user', content: [] }],
    ['textPart', 'text', () => [S('x')], { type: 'text', text: S('x') }],
    ['imagePart', 'url', () => [S('x')], { type: 'image_url', image_url: { url: S('x') } }],
    ['assistant', 'text', () => [T('x')], { role: 'assistant', content: T('x') }],
    ['assistant', 'any text', () => [S('x')], { role: 'assistant', content: S('x') }],
    ['assistant', 'empty text', () => [C('')], { role: 'assistant', content: '' }],
    ['assistant', 'parts', A => [A.val([{ type: 'text', text: T('t') }, { type: 'refusal', refusal: T('r') }])], { role: 'assistant', content: [{ type: 'text', text: T('t') }, { type: 'refusal', refusal: T('r') }] }],
    ['assistant', 'one text part', A => [A.val([{ type: 'text', text: T('t') }])], { role: 'assistant', content: [{ type: 'text', text: T('t') }] }],
    ['assistant', 'tool call', A => [toolCallV(A)], { role: 'assistant', tool_calls: [toolCallT()] }],
    ['assistant', 'tool calls', A => [A.val([toolCallV(A, 0), toolCallV(A, 1)])], { role: 'assistant', tool_calls: [toolCallT(0), toolCallT(1)] }],
    ['assistant', 'one tool call in a list', A => [A.val([toolCallV(A, 0)])], { role: 'assistant', tool_calls: [toolCallT(0)] }],
    ['tool', 'text', A => [T('x'), toolCallV(A)], { role: 'tool', content: T('x'), tool_call_id: T('id0') }],
    ['tool', 'any text', A => [S('x'), toolCallV(A)], { role: 'tool', content: S('x'), tool_call_id: T('id0') }],
    ['tool', 'parts', A => [parts(A), toolCallV(A, 1)], { role: 'tool', content: PARTS, tool_call_id: T('id1') }],
    ['messages', 'two', A => [A.val({ role: 'user', content: T('a') }), A.val({ role: 'assistant', content: T('b') })], [{ role: 'user', content: T('a') }, { role: 'assistant', content: T('b') }]],
    ['messages', 'none', () => [], []],
  ]
  for (const [name, what, args, want] of H) {
    rep.scenario(`${name}: ${what}`, (s) => {
      const A = s.analysis({})
      const v = tryExport(A, '@xsai/utils-chat', 'message')
      const f = v ? A.get(A.I.st, v, name) : A.export('@xsai/utils-chat', name)
      const as = args(A)
      const before = as.map(a => treeKey(A.tree(A.I.st, a)))
      const r = A.run(f, as)
      s.must('it cannot fail', !!r.st && !r.throws.length, 'it may throw')
      s.is('the documented message', r.st && A.tree(r.st, r.v), want)
      s.must('its arguments are unchanged', !r.st || as.every((a, i) => treeKey(A.tree(r.st, a)) === before[i]), 'they are changed')
    })
  }
  for (const [what, given, want] of [
    ['a tool call', A => toolCallV(A), true],
    ['a list of tool calls', A => A.val([toolCallV(A, 0), toolCallV(A, 1)]), true],
    ['text', () => S('x'), false],
    ['text parts', A => A.val([{ type: 'text', text: T('t') }]), false],
    ['a text part next to a tool call', A => A.val([{ type: 'text', text: T('t') }, toolCallV(A)]), false],
  ]) {
    rep.scenario(`isToolCall: ${what}`, (s) => {
      const A = s.analysis({})
      const v = tryExport(A, '@xsai/utils-chat', 'message')
      const f = v ? A.get(A.I.st, v, 'isToolCall') : A.export('@xsai/utils-chat', 'isToolCall')
      const r = A.run(f, [given(A)])
      s.is(`it is ${want}`, r.st && A.tree(r.st, r.v), want)
    })
  }
}

// ------------------------------------------------------------------ C39
const step = (A, calls) => ({ finishReason: 'stop', text: T('text'), toolCalls: calls.map((n, i) => ({ args: '{}', toolCallId: T(`id${i}`), toolCallType: 'function', toolName: n })), toolResults: [], usage: undefined })
const ctx = (A, n, calls = []) => {
  const last = A.val(step(A, calls), {}, 'laststep')
  return A.val({ input: [], messages: [], step: last, steps: [...Array.from({ length: Math.max(0, n - 1) }, (_, i) => A.val(step(A, ['earlier']), {}, `step${i}`)), ...(n > 0 ? [last] : [])] }, {}, 'context')
}
export const C39 = (rep) => {
  const where = ['@xsai/shared-chat', '@xsai-ext/responses', 'xsai', '@xsai-ext/telemetry']
  const f = (A, spec, name) => A.export(spec, name)
  const apply = (A, cond, c) => {
    const r = A.run(cond, [c])
    A.I.st = r.st ?? A.I.st
    return r.throws.length || !r.st ? null : r.v
  }
  /** truth of an applied condition: condition results may be any value of their documented type boolean */
  const truth = v => (v?.t === 'const' ? (typeof v.v === 'boolean' ? v.v : null) : null)
  for (const spec of where) {
    rep.scenario(`${spec}: and / or / not`, (s) => {
      const A = s.analysis({})
      const bools = [[], [true], [false], [true, true], [true, false], [false, true], [false, false], [true, true, false], [false, false, true], [true, true, true], [false, false, false]]
      const c = ctx(A, 2, ['alpha'])
      for (const bs of bools) {
        for (const [name, want] of [['and', bs.every(Boolean)], ['or', bs.some(Boolean)]]) {
          const conds = bs.map((b, i) => A.fn(`c${i}`, C(b)))
          const made = A.run(f(A, spec, name), conds)
          A.I.st = made.st
          const v = apply(A, made.v, c)
          s.must(`${name}(${bs}) is ${want}`, truth(v) === want, v ? treeKey(tree(A.I, v)) : 'it may throw')
        }
      }
      for (const b of [true, false]) {
        const made = A.run(f(A, spec, 'not'), [A.fn('c', C(b))])
        A.I.st = made.st
        const v = apply(A, made.v, c)
        s.must(`not(${b}) is ${!b}`, truth(v) === !b, v ? treeKey(tree(A.I, v)) : 'it may throw')
      }
      for (const e of A.events(/^cb:c/)) s.must('each condition is given the same step context', e.args.length >= 1 && e.args[0].id === c.id, 'another value', e.at)
    })
    rep.scenario(`${spec}: nested combinators`, (s) => {
      const A = s.analysis({})
      const c = ctx(A, 1, ['alpha'])
      const call = (name, args) => {
        const r = A.run(f(A, spec, name), args)
        A.I.st = r.st
        return r.v
      }
      for (const [a, b, d] of [[true, false, true], [false, true, false], [true, true, true], [false, false, false]]) {
        const v = apply(A, call('or', [call('and', [A.fn('c0', C(a)), A.fn('c1', C(b))]), call('not', [A.fn('c2', C(d))])]), c)
        s.must(`or(and(${a},${b}),not(${d}))`, truth(v) === ((a && b) || !d), v ? treeKey(tree(A.I, v)) : 'it may throw')
      }
    })
    rep.scenario(`${spec}: step count`, (s) => {
      const A = s.analysis({})
      for (const name of ['stepCountAtLeast', 'stepCountIs']) {
        const g = name === 'stepCountIs' ? tryExport(A, spec, name) : f(A, spec, name)
        if (!g)
          continue
        for (const n of [0, 1, 2, 3, 20]) {
          const made = A.run(g, [C(n)])
          A.I.st = made.st
          for (const k of [1, 2, 3, 4, 19, 20, 21]) {
            const v = apply(A, made.v, ctx(A, k, ['alpha']))
            s.must(`${name}(${n}) after ${k} steps is ${k >= n}`, truth(v) === (k >= n), v ? treeKey(tree(A.I, v)) : 'it may throw')
          }
        }
      }
    })
    rep.scenario(`${spec}: tool call`, (s) => {
      const A = s.analysis({})
      const LISTS = [[], ['alpha'], ['beta'], ['alpha', 'beta'], ['beta', 'alpha'], ['beta', 'gamma'], ['']]
      for (const name of [undefined, 'alpha', 'gamma', '']) {
        const made = A.run(f(A, spec, 'hasToolCall'), name === undefined ? [] : [C(name)])
        A.I.st = made.st
        for (const l of LISTS) {
          const want = name === undefined ? l.length > 0 : l.includes(name)
          const v = apply(A, made.v, ctx(A, 2, l))
          s.must(`hasToolCall(${name === undefined ? '' : JSON.stringify(name)}) for [${l}] is ${want}`, truth(v) === want, v ? treeKey(tree(A.I, v)) : 'it may throw')
        }
      }
    })
  }
  // in a run: the condition decides when the run stops
  const calls = n => Array.from({ length: n }, (_, i) => ({ calls: [{ id: C(`c${i}`), name: i === 2 ? 'beta' : 'alpha', args: ['{}'] }] }))
  const IN = [
    ['stepCountAtLeast', A => [C(3)], 3],
    ['hasToolCall', () => [], 1],
    ['hasToolCall', () => [C('beta')], 3],
  ]
  for (const id of ['generateText', 'streamText', 'responses', 'tracedGenerateText', 'tracedStreamText']) {
    for (const [name, args, want] of IN) {
      rep.scenario(`${id}: stopped by ${name}(${args({}).map(a => a.v)})`, (s) => {
        const R = runChat(s, id, { turns: [...calls(5), { text: [T('end')] }], stop: 9, options: A => ({ stopWhen: A.run(f(A, id === 'responses' ? OPS[id].spec : id.startsWith('traced') ? OPS[id].spec : '@xsai/shared-chat', name), args(A)).v }) })
        s.must('the run stops there', R.requests.length === want, `${R.requests.length} requests instead of ${want}`)
      })
    }
  }
}
void [ANY, cat, alts, N, op, rec, ref, FALSE, TRUE]
