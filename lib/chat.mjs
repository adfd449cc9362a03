// Reference model of a chat run: what the five tool-loop entry points must do for given model turns, tools and hooks.
import { ABSENT, ANY, errorOf, jsonOf, match, oneOf, open, pred } from './check.mjs'
import { C, rec, sym } from './harness.mjs'
import { prov, treeProv } from './values.mjs'
import { cat, OPS, outputs, runOp, S, T, treeAlts, usageOut, usageSum } from './ops.mjs'

/** text built from a given symbol (an error message quoting it) */
export const textFrom = (...ids) => pred(`text containing ${ids.join(', ')}`, (t) => {
  if (t?.kind === 'const')
    return typeof t.v === 'string' && ids.every(i => t.v.includes(i))
  if (t?.kind !== 'op' && t?.kind !== 'sym')
    return false
  const p = prov(t.v)
  return ids.every(i => p.has(i) || JSON.stringify(constsIn(t.v)).includes(i))
})
export const constsIn = (v, out = []) => {
  if (!v)
    return out
  if (v.t === 'const')
    out.push(v.v)
  else if (v.t === 'op')
    v.args.forEach(a => constsIn(a, out))
  else if (v.t === 'union')
    v.alts.forEach(a => constsIn(a.v, out))
  return out
}

/** stop condition true from n recorded steps on */
export const stopAt = (A, n, name = 'stopWhen') => A.fn(name, (I, args, node) => {
  const len = I.getProp(I.getProp(args[0], C('steps'), node), C('length'), node)
  return len.t === 'const' ? C(len.v >= n) : sym('stop?', { type: 'boolean', nonNull: true })
})

export const rawTool = (A, name, exec, extra = {}) => ({
  type: 'function',
  function: { name, description: T(`${name}.description`), parameters: { type: 'object', properties: {} }, strict: true },
  execute: exec,
  ...extra,
})

const norm = (sc) => {
  const turns = sc.turns.map((t, i) => ({ ...t, usage: t.usage === undefined ? i : t.usage }))
  return { stop: sc.stop ?? turns.length, ...sc, turns }
}

export const argsText = c => (c.args ?? []).map(a => (a && a.t ? a.v : a)).join('')

/** what a call of the model must lead to */
const outcomeOf = (c, sc) => {
  const args = cat(...(c.args ?? []))
  const raw = { args, toolCallId: c.id, toolCallType: 'function', toolName: c.name }
  const w = c.want ?? {}
  const call = w.call ?? raw
  let input
  try {
    input = 'input' in w ? w.input : JSON.parse(argsText(c).trim() || '{}')
  }
  catch {
    input = args
  }
  const ret = w.ret !== undefined ? w.ret : sc.exec?.[c.name]?.ret ?? T(`out:${c.name}`)
  const result = w.result ?? { args: input, result: ret, toolCallId: c.id, toolName: c.name }
  const content = w.content ?? ret
  return { postArg: w.postArg, raw, call, input, result, content, runs: w.runs !== false, name: w.runName ?? c.name }
}

export const initialInput = { messages: { role: 'user', content: T('hello') }, input: { type: 'message', role: 'user', content: T('hello') } }

/** expected observables of a run without request failures */
export const expectChat = (id, scIn) => {
  const sc = norm(scIn)
  const o = OPS[id]
  const fam = o.traced ?? id
  const isRes = fam === 'responses'
  const isStream = fam !== 'generateText'
  const conv = [...(sc.initial ?? [initialInput[o.msgKey]])]
  const requests = []
  const steps = []
  const log = []
  const execs = []
  const events = { 'text': [], 'reasoning': [], 'tool-call': [], 'tool-result': [], 'step': [] }
  const textItems = []
  const reasoningItems = []
  const raw = []
  const usages = []
  const allCalls = []
  const models = []
  const toolChoices = []
  let done = false
  sc.turns.forEach((t, i) => {
    if (done)
      return
    const prep = sc.prepare?.[i]
    requests.push(prep?.input ?? [...conv])
    models.push(prep?.model ?? 'gpt-x')
    toolChoices.push(prep?.toolChoice ?? sc.toolChoice ?? ABSENT)
    const calls = t.calls ?? []
    const outs = calls.map(c => outcomeOf(c, sc))
    const stop = sc.stop === 'default' || i + 1 >= sc.stop || (isRes && ['failed', 'incomplete'].includes(t.status))
    allCalls.push(...outs)
    const executed = !stop && calls.length > 0
    const usage = t.usage === null ? undefined : usageOut(t.usage)
    if (t.usage !== null)
      usages.push(t.usage)
    const texts = [...(t.text ?? []), ...(t.refusal ?? [])]
    let text
    if (fam === 'generateText')
      text = t.content !== undefined ? t.wantText : t.text ? cat(...t.text) : C(null)
    else if (isRes)
      text = t.text && cat(...t.text).k !== C('').k ? (sc.mayBeBlank ? oneOf(cat(...t.text), undefined) : cat(...t.text)) : undefined
    else text = cat(...texts)
    const step = {
      finishReason: isRes ? (t.status === 'failed' ? 'error' : t.status === 'incomplete' ? 'length' : calls.length ? 'tool-calls' : 'stop') : t.finish ?? (calls.length ? 'tool_calls' : 'stop'),
      text,
      toolCalls: outs.map(x => (executed ? x.call : x.raw)),
      toolResults: executed ? outs.map(x => x.result) : [],
      usage,
    }
    steps.push(step)
    // conversation
    if (fam === 'generateText') {
      const m = { role: 'assistant', content: t.content !== undefined ? t.content : t.text ? cat(...t.text) : null }
      if (t.reasoning)
        m[t.reasoningField ?? 'reasoning_content'] = cat(...t.reasoning)
      if (t.calls)
        m.tool_calls = t.calls.map(c => ({ id: c.id, type: 'function', function: { ...(c.name !== undefined ? { name: c.name } : {}), ...(c.args ? { arguments: cat(...c.args) } : {}) } }))
      conv.push(m)
    }
    else if (isRes && t.conv) {
      conv.push(...t.conv)
    }
    else if (isRes) {
      if (t.reasoning)
        conv.push({ type: 'reasoning', id: ANY, summary: [] })
      if (t.text)
        conv.push({ type: 'message', id: ANY, role: 'assistant', content: [{ type: 'output_text', text: cat(...t.text) }] })
      if (t.refusal)
        conv.push({ type: 'message', id: ANY, role: 'assistant', content: [{ type: 'refusal', refusal: cat(...t.refusal) }] })
      for (const c of calls) conv.push({ type: 'function_call', id: ANY, call_id: c.id, name: c.name, arguments: cat(...(c.args ?? [])) })
    }
    else {
      const field = t.reasoning ? t.reasoningField ?? 'reasoning_content' : null
      conv.push({
        role: 'assistant',
        content: cat(...texts),
        ...(field ? { [field]: cat(...t.reasoning) } : { reasoning: oneOf(ABSENT), reasoning_content: oneOf(ABSENT) }),
        tool_calls: calls.length ? calls.map(c => ({ index: ANY, id: c.id, type: 'function', function: { name: c.name, arguments: cat(...(c.args ?? [])) } })) : ABSENT,
      })
    }
    if (executed) {
      const seen = [...conv]
      outs.forEach((x, j) => {
        conv.push(isRes
          ? { type: 'function_call_output', call_id: calls[j].id, output: x.content, id: ANY, status: ANY }
          : { role: 'tool', tool_call_id: calls[j].id, content: x.content })
        if (x.runs)
          execs.push({ name: x.name, input: x.input, id: calls[j].id, step: i, messages: seen })
      })
    }
    // events
    events.step.push({ type: 'step.start' })
    const field = (kind, list) => {
      if (!list.length)
        return
      events[kind].push({ type: `${kind}.start` }, ...list.map(d => ({ type: `${kind}.delta`, delta: d })), { type: `${kind}.done`, content: cat(...list) })
    }
    field('reasoning', t.reasoning ?? [])
    if (isRes) {
      if (t.textEvents) {
        events.text.push(...t.textEvents)
      }
      else {
        field('text', t.text ?? [])
        field('text', t.refusal ?? [])
      }
    }
    else field('text', texts)
    const te = sc.toolEvents?.[i]
    if (te)
      events['tool-call'].push(...te)
    for (const [j, c] of te ? [] : calls.entries()) {
      events['tool-call'].push({ type: 'tool-call.start', toolCallId: c.id, toolName: c.name })
      for (const a of c.args ?? []) events['tool-call'].push({ type: 'tool-call.delta', delta: a })
      if (isRes)
        events['tool-call'].push({ type: 'tool-call.done', ...outs[j].raw })
    }
    if (!isRes) {
      for (const x of outs) events['tool-call'].push({ type: 'tool-call.done', ...x.raw })
    }
    if (executed)
      events['tool-result'].push(...outs.map(x => ({ ...x.result, type: 'tool-result.done' })))
    events.step.push({ type: 'step.done', usage })
    textItems.push(...texts)
    reasoningItems.push(...(t.reasoning ?? []))
    raw.push(t)
    if (!executed)
      done = true
  })
  return { allCalls, models, toolChoices, sc, o, fam, isRes, isStream, conv, requests, steps, execs, events, textItems, reasoningItems, raw, usage: steps.at(-1)?.usage, totalUsage: usages.length ? usageSum(usages) : undefined, last: sc.turns[steps.length - 1] }
}

/** run op id on scenario sc */
export const runChat = (s, id, scIn, cfg = {}) => {
  const sc = norm(scIn)
  const o = OPS[id]
  return runOp(s, id, {
    turns: sc.turns,
    mayBeBlank: sc.mayBeBlank,
    undef: sc.undef,
    respond: sc.respond,
    ...cfg,
    options: (A) => {
      const names = sc.tools ?? [...new Set(sc.turns.flatMap(t => (t.calls ?? []).map(c => c.name)))].filter(n => n !== undefined)
      const out = { ...(sc.noTools ? {} : { tools: names.map(n => rawTool(A, n, A.fn(`exec:${n}`, sc.exec?.[n]?.ret ?? T(`out:${n}`), sc.exec?.[n] ?? {}), sc.toolExtra?.(A, n) ?? {})) }) }
      if (sc.stop !== 'default')
        out.stopWhen = stopAt(A, sc.stop)
      for (const c of o.callbacks) out[c] = A.fn(c)
      if (sc.abort)
        out.abortSignal = A.signal()
      else if (sc.signal)
        out.abortSignal = A.signal({}, 'callerSignal')
      return { ...out, ...(typeof sc.options === 'function' ? sc.options(A, o) : sc.options ?? {}), ...(typeof cfg.options === 'function' ? cfg.options(A, o) : cfg.options ?? {}) }
    },
  })
}

/** conversations sent, per request */
export const sentConversations = R => R.requests.map(q => q.json?.props?.[R.o.msgKey]?.v)

export const all = (f, ...xs) => xs.forEach(f)
export { ABSENT, ANY, C, cat, errorOf, jsonOf, match, oneOf, open, OPS, outputs, pred, rec, runOp, S, T, treeAlts, treeProv, usageOut, usageSum }
