// Telemetry spans: C26
import { ABSENT, errorOf, jsonOf, match, oneOf, open, pred } from '../lib/check.mjs'
import { runChat } from '../lib/chat.mjs'
import { NUM, OPS, outputs, runOp, T } from '../lib/ops.mjs'
import { ABORTS, build, chatScenario, MAIN } from '../lib/suite.mjs'
import { C, logEvent, tree, treeKey } from '../lib/harness.mjs'
import { chatEndings, respondBad, turns } from './settle.mjs'

/** every span call goes to the log, in order */
const spanLog = { log: (I, what, id, args) => logEvent(I, `span-${what}`, { kind: 'array', items: [{ kind: 'const', v: id }, ...args.map(a => tree(I, a))] }) }
const ATTRS = { 'attr': T('attr'), 'gen_ai.provider.name': T('provider') }
const get = (t, k) => t?.props?.[k]?.v

/** the spans of a run: name, final attributes, errors, position of start, end and other calls */
export const spansOf = (R) => {
  const spans = []
  const stray = []
  for (const e of R.entries(l => l.startsWith('span-'))) {
    const what = e.label.slice(5)
    const [idT, ...args] = e.tree.items ?? []
    const id = idT?.v
    if (what === 'start') {
      const attrs = {}
      for (const [k, x] of Object.entries(args[1]?.props ?? {})) attrs[k] = x.v
      spans.push({ id, name: args[0], attrs, start: e.i, ends: [], status: [], exceptions: [], late: [], sure: e.sure })
      continue
    }
    const s = spans.findLast(x => x.id === id)
    if (!s) {
      stray.push(e.label)
      continue
    }
    if (!e.sure)
      s.sure = false
    if (what === 'end') {
      s.ends.push(e.i)
      continue
    }
    if (s.ends.length)
      s.late.push(what)
    if (what === 'setAttribute' && args[0]?.kind === 'const')
      s.attrs[args[0].v] = args[1]
    else if (what === 'setAttributes')
      Object.entries(args[0]?.props ?? {}).forEach(([k, x]) => { s.attrs[k] = x.v })
    else if (what === 'setStatus')
      s.status.push(args[0])
    else if (what === 'recordException')
      s.exceptions.push(args[0])
  }
  for (const s of spans) s.kind = s.attrs['gen_ai.operation.name']?.v
  return { spans, stray }
}
const isError = t => get(t, 'code')?.v === 2
const failed = s => s.status.length > 0 && isError(s.status.at(-1))
/** the error a run ended with: { tree, id } */
const failureOf = (R) => {
  if (!R.o.promises)
    return R.err ? { tree: R.A.tree(R.err.st, R.err.v), also: !!R.ok } : null
  const p = outputs(R).promises.steps
  return p?.err ? { tree: p.err, also: !!p.ok } : R.err ? { tree: R.A.tree(R.err.st, R.err.v), also: !!R.ok } : null
}
const recorded = (s, what, span, err) => {
  s.must(`${what} has an error status`, failed(span), span.status.map(treeKey).join() || 'no status')
  if (err && err.kind !== 'error') {
    s.must(`${what} records no exception for a value that is no Error`, span.exceptions.length === 0, `${span.exceptions.length} exceptions`)
  }
  else if (err) {
    s.must(`${what} records the error once`, span.exceptions.length === 1, `${span.exceptions.length} exceptions`)
    s.is(`${what} carries the message of the error`, span.attrs['error.message'], same(get(err, 'message')))
    s.is(`${what} records the error itself`, span.exceptions[0], oneOf(open({ message: same(get(err, 'message')) }), errorOf(err.cls, { message: same(get(err, 'message')) })))
  }
}
const same = t => pred(`the message ${treeKey(t)}`, x => x != null && treeKey(x) === treeKey(t))

/** rules that hold for every run */
const general = (s, R, kind = 'chat') => {
  const { spans, stray } = spansOf(R)
  if (!R.exact) {
    s.add('the order of effects is definite', 'undecided', 'effects with more than one possible order')
    return spans
  }
  s.must('no call on an unknown span', stray.length === 0, stray.join())
  if (new Set(spans.map(x => x.id)).size !== spans.length)
    s.add('spans can be told apart', 'undecided', 'two spans with one abstract identity')
  const of = spans.filter(x => x.kind === kind)
  const tool = spans.filter(x => x.kind === 'execute_tool')
  s.must('every span is of a known kind', of.length + tool.length === spans.length, spans.map(x => x.kind).join())
  spans.forEach((x, i) => {
    s.must(`span ${i + 1} (${x.kind}) is ended exactly once`, x.ends.length === 1, `${x.ends.length} ends`)
    const about = x.attrs[x.kind === 'execute_tool' ? 'gen_ai.tool.call.name' : 'gen_ai.request.model']?.v
    s.must(`span ${i + 1} is named after what it traces`, x.name?.kind === 'const' ? String(x.name.v).startsWith(`${x.kind} `) && (typeof about !== 'string' || about === '' || x.name.v.length > x.kind.length + 1) : !!x.name && treeKey(x.name).includes(String(x.kind)), x.name ? treeKey(x.name) : 'no name')
    s.must(`span ${i + 1} (${x.kind}) is complete when it ends`, x.late.length === 0, x.late.join())
  })
  const openAt = (list, i) => list.filter(x => x.start < i && (x.ends[0] === undefined || x.ends[0] > i))
  const fetches = R.entries('fetch')
  s.must('one span per model request', of.length === fetches.length, `${of.length} spans for ${fetches.length} requests`)
  fetches.forEach((f, i) => s.must(`request ${i + 1} is sent inside its span`, openAt(of, f.i).length === 1 && openAt(of, f.i)[0] === of[i], `${openAt(of, f.i).length} spans open`))
  const execs = R.entries(l => l.startsWith('cb:exec:'))
  s.must('one span per tool execution', tool.length === execs.length, `${tool.length} spans for ${execs.length} executions`)
  execs.forEach((e, i) => {
    const cur = openAt(tool, e.i)
    const name = e.label.slice(8)
    s.must(`execution ${i + 1} happens inside its span`, cur.some(x => x.attrs['gen_ai.tool.call.name']?.v === name), cur.map(x => treeKey(x.attrs['gen_ai.tool.call.name'])).join() || 'no span is open')
  })
  of.forEach((x, i) => {
    for (const [k, v] of Object.entries(ATTRS)) s.is(`span ${i + 1} carries the caller's attribute ${k}`, x.attrs[k], v)
  })
  return spans
}
/** error status exactly where the traced work failed */
const errors = (s, R, { inside = true, toolErr = Object.create(null) } = {}, kind = 'chat') => {
  const spans = spansOf(R).spans
  const of = spans.filter(x => x.kind === kind)
  const f = failureOf(R)
  if (f?.also)
    return s.add('the outcome is definite', 'undecided', 'the run may succeed or fail')
  of.forEach((x, i) => {
    if (f && inside && i === of.length - 1)
      return recorded(s, `the span of the failing request ${i + 1}`, x, f.tree)
    s.must(`the span of request ${i + 1} has no error`, !failed(x) && x.exceptions.length === 0, 'it has')
  })
  if (f && inside)
    s.must('a failing request has a span', of.length > 0, 'none')
  for (const [i, x] of spans.filter(x => x.kind === 'execute_tool').entries()) {
    const name = x.attrs['gen_ai.tool.call.name']?.v
    if (Object.hasOwn(toolErr, name))
      recorded(s, `the span of the failing tool ${name}`, x, toolErr[name])
    else s.must(`the span of tool execution ${i + 1} has no error`, !failed(x) && x.exceptions.length === 0, 'it has')
  }
}
const boomT = { kind: 'error', cls: 'Error', props: { message: { v: { kind: 'sym', v: { k: 's:boom.message' } } } } }

const traced = abort => ({ options: A => ({ telemetry: { attributes: ATTRS, metadata: {} }, ...(abort ? { abortSignal: A.signal({ reason: A.error('Error', 'aborted') }) } : {}) }), otel: spanLog })
const withTelemetry = (A, x) => ({ ...x, telemetry: { attributes: ATTRS } })

export const C26 = (rep) => {
  for (const id of ['tracedGenerateText', 'tracedStreamText']) {
    const o = OPS[id]
    for (const k of [...MAIN, ...ABORTS]) {
      if (!build(id, k))
        continue
      rep.scenario(`${id}: ${k}`, (s) => {
        const { R, E, sc } = chatScenario(s, id, k, traced(ABORTS.includes(k)))
        const spans = general(s, R)
        const toolErr = Object.create(null)
        for (const [n, e] of Object.entries(sc.exec ?? {})) {
          if (e.throws)
            toolErr[n] = sc.thrown ? { kind: 'error', cls: 'Error', props: { message: { v: { kind: 'sym', v: { k: `s:${sc.thrown[n]}` } } } } } : /no errors/.test(k) ? { kind: 'value' } : /without a message/.test(k) ? { kind: 'error', cls: 'Error', props: { message: { v: { kind: 'const', v: '' } } } } : boomT
          else if (e.rejects)
            toolErr[n] = R.A.tree(R.st, e.rejects)
        }
        errors(s, R, { toolErr })
        if (!E || sc.fail)
          return
        const chats = spans.filter(x => x.kind === 'chat')
        E.steps.forEach((st, i) => {
          const a = chats[i]?.attrs ?? {}
          const u = st.usage
          s.is(`span ${i + 1} carries the input tokens reported`, a['gen_ai.usage.input_tokens'], u ? u.inputTokens : ABSENT)
          s.is(`span ${i + 1} carries the output tokens reported`, a['gen_ai.usage.output_tokens'], u ? u.outputTokens : ABSENT)
          s.is(`span ${i + 1} carries the finish reason`, a['gen_ai.response.finish_reasons'], [st.finishReason])
          s.is(`span ${i + 1} names the model of its request`, a['gen_ai.request.model'], E.models[i])
          s.is(`span ${i + 1} carries the conversation of its request`, a['gen_ai.input.messages'], jsonOf(E.requests[i]))
        })
        // concurrent executions may take place in any order: spans go by the call they name
        const tools = spans.filter(x => x.kind === 'execute_tool')
        const taken = new Set()
        const place = new Map(tools.map((x) => {
          const i = E.execs.findIndex((e, n) => !taken.has(n) && match(x.attrs['gen_ai.tool.call.id'], e.id).ok)
          taken.add(i)
          return [x, i]
        }))
        tools.sort((a, b) => place.get(a) - place.get(b))
        E.execs.forEach((x, i) => {
          const a = tools[i]?.attrs ?? {}
          s.is(`tool span ${i + 1} names its tool`, a['gen_ai.tool.call.name'], x.name)
          s.is(`tool span ${i + 1} names its call`, a['gen_ai.tool.call.id'], x.id)
          if (typeof x.input !== 'bigint')
            s.is(`tool span ${i + 1} carries the input`, a['gen_ai.tool.call.arguments'], x.input === undefined ? oneOf(jsonOf(undefined), undefined) : jsonOf(x.input))
        })
      })
    }
    for (const [k, e] of Object.entries(chatEndings(OPS[o.traced]))) {
      rep.scenario(`${id}: ending: ${k}`, (s) => {
        const list = (e.turns ?? turns).map((t, i) => ({ usage: i, ...t }))
        const R = runChat(s, id, { stop: 9, turns: list, tools: e.tools, exec: e.exec, respond: o.stream ? respondBad(o, e, list) : e.respond, options: (A) => {
          A.I.A = A
          return withTelemetry(A, typeof e.options === 'function' ? e.options(A) : {})
        } }, { otel: spanLog })
        general(s, R)
        const toolErr = e.exec?.alpha ? { alpha: { kind: 'error', cls: 'Error', props: { message: { v: { kind: 'sym', v: { k: 's:tool.message' } } } } } } : {}
        errors(s, R, { inside: !/prepareStep|onFinish/.test(k), toolErr })
      })
    }
    rep.scenario(`${id}: a value that is no Error`, (s) => {
      const R = runChat(s, id, { stop: 9, turns, respond: I => I.rejectedPromise(T('reason'), `rej${I.ctx}`), options: { telemetry: { attributes: ATTRS } } }, { otel: spanLog })
      const spans = general(s, R)
      s.must('the span has an error status', spans.length === 1 && failed(spans[0]))
      s.is('the value is passed on', failureOf(R)?.tree, T('reason'))
    })
    // the error counts as what it is, whatever it is called
    for (const name of ['AbortError', 'TimeoutError', 'SyntaxError', null]) {
      for (const at of [0, 1]) {
        rep.scenario(`${id}: request ${at + 1} fails with ${name ?? 'an error of any name'}`, (s) => {
          const R = runChat(s, id, { stop: 9, turns, respond: (I, n, q, node, A) => {
            if (n !== at)
              return null
            const e = A.error(name ?? 'Error', 'net')
            if (!name)
              A.I.st.get(e.id).props.set('name', { v: T('errname') })
            return I.rejectedPromise(e, `rej${I.ctx}`)
          }, options: { telemetry: { attributes: ATTRS } } }, { otel: spanLog })
          const spans = general(s, R)
          s.must('one span per request', spans.length >= at + 1, `${spans.length}`)
          errors(s, R)
        })
      }
    }
    rep.scenario(`${id}: the error object is passed on`, (s) => {
      let net
      const R = runChat(s, id, { stop: 9, turns, respond: (I, n, q, node, A) => {
        net ??= A.error('TypeError', 'net')
        return I.rejectedPromise(net, `rej${I.ctx}`)
      }, options: { telemetry: { attributes: ATTRS } } }, { otel: spanLog })
      if (!R.o.promises)
        s.must('the run rejects with the same object', R.err?.v?.id === net.id, R.err ? treeKey(R.A.tree(R.err.st, R.err.v)) : 'it resolves')
      else s.must('the run rejects with the same object', failureOf(R)?.tree?.id === net.id || match(failureOf(R)?.tree, errorOf('TypeError', { message: T('net.message') })).ok)
    })
    const SETTINGS = {
      'numbers': { given: { temperature: NUM('temp'), topP: NUM('tp'), topK: NUM('tk'), seed: NUM('seed'), frequencyPenalty: NUM('fp'), presencePenalty: NUM('pp'), stop: ['a', T('b')] }, want: { 'temperature': NUM('temp'), 'top_p': NUM('tp'), 'top_k': NUM('tk'), 'seed': NUM('seed'), 'frequency_penalty': NUM('fp'), 'presence_penalty': NUM('pp'), 'stop_sequences': ['a', T('b')] } },
      'zeros and one stop text': { given: { temperature: 0, topP: 0, topK: 0, seed: 0, frequencyPenalty: 0, presencePenalty: 0, stop: T('s') }, want: { 'temperature': 0, 'top_p': 0, 'top_k': 0, 'seed': 0, 'frequency_penalty': 0, 'presence_penalty': 0, 'stop_sequences': [T('s')] } },
      'none': { given: {}, want: Object.fromEntries(['temperature', 'top_p', 'top_k', 'seed', 'frequency_penalty', 'presence_penalty', 'stop_sequences'].map(k => [k, ABSENT])) },
    }
    for (const [k, { given, want }] of Object.entries(SETTINGS)) {
      rep.scenario(`${id}: request settings: ${k}`, (s) => {
        const R = runChat(s, id, { stop: 9, turns, options: { ...given, telemetry: { attributes: ATTRS } } }, { otel: spanLog })
        const chats = general(s, R).filter(x => x.kind === 'chat')
        chats.forEach((x, i) => {
          for (const [n, v] of Object.entries(want)) s.is(`span ${i + 1} carries the setting ${n}`, x.attrs[`gen_ai.request.${n}`], v)
        })
      })
    }
    rep.scenario(`${id}: tools on offer`, (s) => {
      const R = runChat(s, id, { stop: 9, turns, options: { telemetry: { attributes: ATTRS } } }, { otel: spanLog })
      const chats = general(s, R).filter(x => x.kind === 'chat')
      chats.forEach((x, i) => s.is(`span ${i + 1} lists the tools of its request`, x.attrs['gen_ai.tool.definitions'], jsonOf([open({ type: 'function', function: open({ name: 'alpha' }) })])))
    })
    rep.scenario(`${id}: caller's attributes win`, (s) => {
      const R = runChat(s, id, { stop: 9, turns, options: { telemetry: { attributes: { 'gen_ai.request.model': T('mine'), 'server.address': T('here') } } } }, { otel: spanLog })
      spansOf(R).spans.filter(x => x.kind === 'chat').forEach((x, i) => {
        s.is(`span ${i + 1} carries the caller's model name`, x.attrs['gen_ai.request.model'], T('mine'))
        s.is(`span ${i + 1} carries the caller's server name`, x.attrs['server.address'], T('here'))
      })
    })
    rep.scenario(`${id}: without telemetry options`, (s) => {
      const R = runChat(s, id, { stop: 9, turns }, { otel: spanLog })
      const { spans } = spansOf(R)
      s.must('spans are started and ended', spans.length === 3 && spans.every(x => x.ends.length === 1), `${spans.length} spans`)
    })
    rep.scenario(`${id}: telemetry options stay local`, (s) => {
      const R = runChat(s, id, { stop: 9, turns, options: { telemetry: { attributes: ATTRS } } }, { otel: spanLog })
      R.requests.forEach((q, i) => s.is(`request ${i + 1} does not carry them`, get(q.json, 'telemetry'), ABSENT))
    })
  }
  for (const id of ['tracedGenerateText', 'tracedStreamText', 'tracedEmbed', 'tracedEmbedMany']) {
    for (const [base, host, port] of [['https://api.example.com/v1/', 'api.example.com', 443], ['http://api.example.com/v1', 'api.example.com', 80], ['http://localhost:11434/v1/', 'localhost', 11434], ['https://h:8443/', 'h', 8443]]) {
      rep.scenario(`${id}: server ${base}`, (s) => {
        const R = OPS[id].family === 'chat' ? runChat(s, id, { turns: [{ text: [T('t')] }], options: { baseURL: base, telemetry: {} } }, { otel: spanLog }) : runOp(s, id, { otel: spanLog, options: { baseURL: base, telemetry: {} } })
        const { spans } = spansOf(R)
        s.must('a span is started', spans.length === 1, `${spans.length} spans`)
        s.is('it names the host', spans[0]?.attrs['server.address'], host)
        s.is('it names the port', spans[0]?.attrs['server.port'], port)
      })
    }
  }
  for (const id of ['tracedEmbed', 'tracedEmbedMany']) {
    const KINDS = {
      'success': { ok: true },
      'extra options': { ok: true, options: A => ({ dimensions: 3, apiKey: T('k'), abortSignal: A.signal() }) },
      'error status': { respond: (I, n, q, node, A) => ({ ok: false, json: A.val({}) }) },
      'rejected fetch': { respond: (I, n, q, node, A) => I.rejectedPromise(A.error('TypeError', 'net'), `netrej${I.ctx}`) },
      'rejected with no Error': { respond: I => I.rejectedPromise(T('reason'), `netrej${I.ctx}`) },
      'fetch throws': { respond: (I, n, q, node, A) => I.throwValue(A.error('Error', 'sync')) },
      'not JSON': { respond: (I, n, q, node, A) => ({ ok: true, body: A.sse(I, []), text: C('{"x"') }) },
      'no usage': { ok: true, noUsage: true, respond: (I, n, q, node, A) => ({ ok: true, body: A.sse(I, []), json: A.val({ data: [{ embedding: [1], index: 0 }] }) }) },
    }
    for (const [k, cfg] of Object.entries(KINDS)) {
      rep.scenario(`${id}: ${k}`, (s) => {
        const R = runOp(s, id, { ...cfg, otel: spanLog, options: A => ({ ...(cfg.options?.(A) ?? {}), telemetry: { attributes: ATTRS } }) })
        const spans = general(s, R, 'embeddings')
        errors(s, R, {}, 'embeddings')
        s.must(cfg.ok ? 'the call succeeds' : 'the call fails', cfg.ok ? !!R.ok && !R.err : !!R.err && !R.ok)
        if (cfg.ok) {
          s.is('the span carries the tokens reported', spans[0]?.attrs['gen_ai.usage.input_tokens'], cfg.noUsage ? ABSENT : NUM('pt'))
          s.is('the span names the model', spans[0]?.attrs['gen_ai.request.model'], 'gpt-x')
          s.is('the span carries the dimensions asked for', spans[0]?.attrs['gen_ai.embeddings.dimension.count'], k === 'extra options' ? 3 : ABSENT)
        }
      })
    }
  }
}

