// C01 failed responses
import { ANY, errorOf, jsonOf, open } from '../lib/check.mjs'
import { runChat } from '../lib/chat.mjs'
import { CHAT, OPS, outputs, runOp, S, T } from '../lib/ops.mjs'
import { C, sym } from '../lib/harness.mjs'

const outs = o => (o.promises?.length ?? 0) + (o.streams?.length ?? 0)

/** every observable outcome of a failed run is this error */
export const allFail = (s, R, o, pattern, { items = true } = {}) => {
  if (R.err)
    s.is('the failure is the documented error', R.A.tree(R.err.st, R.err.v), pattern)
  if (!R.ok)
    return s.must('no result is returned', !!R.err, 'the call neither returns nor fails')
  if (!outs(o))
    return s.must('no result is returned', false, 'the call may resolve with a result')
  const out = outputs(R)
  for (const name of o.promises ?? []) {
    const p = out.promises[name]
    s.must(`promise ${name} rejects`, !!p && !p.ok && !!p.err, p ? (p.ok ? 'it may resolve' : 'it never settles') : 'missing from the result')
    if (p?.err)
      s.is(`promise ${name} carries the error`, p.err, pattern)
  }
  for (const name of o.streams ?? []) {
    const st = out.streams[name]
    s.must(`stream ${name} errors`, !!st && st.end.length === 1 && st.end[0] === 'errored', st ? `it ends ${st.end.join('|')}` : 'missing from the result')
    if (st?.err)
      s.is(`stream ${name} carries the error`, st.err, pattern)
    if (st && items)
      s.must(`stream ${name} delivers nothing from that response`, st.items.length === 0 && !st.star, `it delivers ${st.items.length}${st.star ? '+' : ''} items`)
  }
}

const hdrs = A => A.headers({ 'x-upstream': S('upstreamHeader') })
/** an error status, whatever the body says */
const status = body => ({
  spec: A => ({ ok: false, headers: hdrs(A), ...(typeof body === 'function' ? body(A) : { text: C(body) }) }),
  err: n => errorOf('APICallError', { response: open({ status: sym(`res${n}.status`), ok: false }), statusCode: sym(`res${n}.status`), statusText: sym(`res${n}.statusText`), url: sym(`res${n}.url`), responseHeaders: open({ 'x-upstream': S('upstreamHeader') }), responseBody: typeof body === 'function' ? body({}).shows : body }),
})
const KINDS = {
  'error status': status(A => ({ json: A.val?.({ error: T('upstream') }), shows: jsonOf({ error: T('upstream') }) })),
  'error status, any text': status(() => ({ text: T('body'), shows: T('body') })),
  'error status, empty body': status(''),
  'error status, spaced body': status('  {"choices": []}\r\n\n '),
  'error status, a body like a result': status('{"choices":[{"index":0,"message":{"role":"assistant","content":"x"},"finish_reason":"stop"}],"data":[],"text":"x","object":"chat.completion"}'),
  'error status, no body at all': status(() => ({ text: C(''), body: C(null), shows: '' })),
  'no body': { spec: A => ({ ok: true, body: C(null), headers: hdrs(A), json: A.val({ choices: [{ message: { content: 'x' } }], data: [], text: 'x', usage: {} }) }), err: () => errorOf('InvalidResponseError', { reason: 'empty_body' }) },
  'body is not a stream': { spec: A => ({ ok: true, body: A.val({}), headers: hdrs(A), json: A.val({ choices: [{ message: { content: 'x' } }], data: [], text: 'x', usage: {} }) }), err: () => errorOf('InvalidResponseError', { reason: 'invalid_body' }) },
}
/** nothing the caller can see happened after request n, apart from the end of the run */
const silentAfter = (s, R, n) => {
  const reqs = R.requests
  s.must('no further request', reqs.length === n + 1, `${reqs.length} requests`)
  const bad = R.entries(l => l.startsWith('cb:') && l !== 'cb:onFinish').filter(e => reqs[n] && e.i > reqs[n].i)
  s.must('no callback, event or tool after the failed response', bad.length === 0, bad.map(b => b.label).join(', '))
}

export const C01 = (rep) => {
  for (const [id, o] of Object.entries(OPS)) {
    for (const [kind, k] of Object.entries(KINDS)) {
      rep.scenario(`${id}: first response: ${kind}`, (s) => {
        const R = CHAT.includes(id)
          ? runChat(s, id, { turns: [{ calls: [{ id: T('c1'), name: 'alpha', args: ['{}'] }] }, { text: [T('t')] }], respond: (I, n, req, node, A) => k.spec(A) })
          : runOp(s, id, { respond: (I, n, req, node, A) => k.spec(A), options: A => Object.fromEntries((o.callbacks ?? []).map(c => [c, A.fn(c)])) })
        allFail(s, R, o, k.err(0))
        silentAfter(s, R, 0)
      })
    }
  }
  for (const id of CHAT) {
    const o = OPS[id]
    for (const [kind, k] of Object.entries(KINDS)) {
      for (const at of [1, 2]) {
        rep.scenario(`${id}: response ${at + 1} of a run: ${kind}`, (s) => {
          const R = runChat(s, id, { stop: 9, turns: [0, 1, 2, 3].map(i => ({ calls: [{ id: T(`c${i}`), name: 'alpha', args: ['{}'] }] })), respond: (I, n, req, node, A) => (n === at ? k.spec(A) : null) })
          allFail(s, R, o, k.err(at), { items: false })
          silentAfter(s, R, at)
        })
      }
    }
  }
  for (const [kind, k] of Object.entries(KINDS)) {
    for (const bad of [1, 2]) {
      rep.scenario(`generateImage: download ${bad}: ${kind}`, (s) => {
        const R = runOp(s, 'generateImage', { respond: (I, n, req, node, A) => (n === 0 ? { body: A.sse(I, []), json: A.val({ data: [{ url: C('https://img.example.com/a.png') }, { url: C('https://img.example.com/b.png') }] }) } : n === bad ? k.spec(A) : { body: A.sse(I, [], { name: 'img' }), headers: A.headers({}) }) })
        allFail(s, R, OPS.generateImage, k.err(bad))
      })
    }
  }
}
void ANY
