// Stream transformers: C32 smoothing, C33 reasoning extraction, C38 speech, C41 transcription
import { ABSENT, ANY, errorOf } from '../lib/check.mjs'
import { cat, NUM, outputs, runOp, S, streamIs, T } from '../lib/ops.mjs'
import { alts, C, N, newStream, op, rec, ref, sym, treeKey, UNDEF } from '../lib/harness.mjs'

const UTILS = '@xsai/utils-stream'
const REASON = '@xsai/utils-reasoning'
let seq = 0
const source = (A, items, end = 'closed', err) => newStream(A.I, `@src${seq++}`, { items, ctrl: C(end), err: err ?? UNDEF })
/** every way to cut a text in pieces, up to a number of cuts */
const splits = (text, cuts) => {
  const out = []
  const go = (at, left, acc) => {
    out.push([...acc, text.slice(at)])
    if (left === 0)
      return
    for (let i = at + 1; i < text.length; i++) go(i, left - 1, [...acc, text.slice(at, i)])
  }
  go(0, cuts, [])
  return out
}
/** constant text of drained items; null when it is not constant */
const textOf = (items) => {
  let t = ''
  for (const x of items) {
    if (x.t !== 'const' || typeof x.v !== 'string')
      return null
    t += x.v
  }
  return t
}
const drained = (A, st, v) => {
  const d = A.drain(st.clone(), v)
  return { ...d, sure: d.end.length === 1 && !d.star }
}

// ------------------------------------------------------------------ C32
const TEXTS = ['', 'a', ' ', '\n', 'one two three', 'one  two\n\nthree ', '  lead', 'no-gap', 'a\nb\nc', '\n\n', 'l1\nl2', 'x y\tz\r\nw', '\u00E9t\u00E9 \u{1F600} fin', '你好，世界。再见。', 'a;b;;c', 'aXXbXc']
const PATTERNS = { 'default': null, 'word': 'word', 'line': 'line', 'custom': ['[^;]*;', ''], 'without leading text': [';', ''], 'character': ['.', 'u'], 'CJK': ['[\\u4E00-\\u9FFF]|\\S+\\s+', ''], 'zero-length': ['(?:)', ''], 'possibly empty': ['x*', ''], 'lookahead': ['(?=X)', ''], 'global': ['\\S+\\s', 'g'], 'global without leading text': ['X', 'g'], 'sticky': ['\\S+\\s', 'y'], 'never': ['[^\\s\\S]', ''] }
const runSmooth = (s, pieces, chunking, end = 'closed', err, harness = {}, delay = C(0)) => {
  const A = s.analysis(harness)
  const I = A.I
  const f = A.export(UTILS, 'smoothStream')
  const opts = chunking === null ? [] : [A.val({ delay, chunking: typeof chunking === 'string' ? C(chunking) : regexp(A, chunking) })]
  const t = A.run(f, opts)
  if (!t.st)
    return { A, none: true }
  const src = source(A, pieces, end, err)
  const r = I.capture(() => I.call(I.getProp(src, C('pipeThrough')), src, [t.v]))
  return { A, ...drained(A, I.st, r.v), closedBy: end }
}
const regexp = (A, [source, flags]) => {
  const id = `@re${seq++}`
  A.I.st.set(id, rec('regexp', { x: { source: C(source), flags: C(flags) } }))
  return ref(id)
}
const C32 = (rep) => {
  for (const [name, chunking] of Object.entries(PATTERNS)) {
    for (const text of TEXTS) {
      rep.scenario(`smoothing ${name}: ${JSON.stringify(text)}`, (s) => {
        const list = text === '' ? [[], ['']] : splits(text, rep.tier === 'thorough' ? 2 : 1).slice(0, rep.tier === 'thorough' ? 400 : 14)
        if (rep.tier !== 'thorough' && text.length > 2)
          list.push([...text], ['', text, ''])
        for (const pieces of list) {
          const r = runSmooth(s, pieces.map(C), chunking)
          const whole = r.none ? null : textOf(r.items)
          const how = `chunks ${JSON.stringify(pieces)}`
          s.must('it terminates and closes when the source ends', !r.none && r.sure && r.end[0] === 'closed', `${how}: ends ${r.end?.join('|')}`)
          s.must('the concatenation is unchanged', whole === text, `${how}: emitted ${whole === null ? 'something else' : JSON.stringify(r.items.map(x => x.v))}`)
        }
      }, { unrollLimit: 200 })
    }
  }
  rep.scenario('smoothing: unterminated pieces are re-chunked by the pattern', (s) => {
    for (const [chunking, text, want] of [['word', 'one two three', ['one ', 'two ', 'three']], ['line', 'l1\nl2\nrest', ['l1\n', 'l2\n', 'rest']], [null, 'a b', ['a ', 'b']], [['[^;]*;', ''], 'a;b;c', ['a;', 'b;', 'c']]]) {
      for (const pieces of [[text], [...text]]) {
        const r = runSmooth(s, pieces.map(C), chunking)
        s.must('what it emits are the pieces the pattern finds', !r.none && JSON.stringify(r.items.map(x => x.v)) === JSON.stringify(want), `${JSON.stringify(pieces)}: ${JSON.stringify(r.items?.map(x => x.v))}`)
      }
    }
  }, { unrollLimit: 200 })
  rep.scenario('smoothing: pieces are spaced by the delay', (s) => {
    for (const pieces of [['one two three four '], ['one ', 'two three four ']]) {
      const r = runSmooth(s, pieces.map(C), 'word', 'closed', undefined, { logTimers: true }, NUM('delay'))
      const waits = r.none ? [] : r.A.logOf(r.st).items.flat().filter(l => l.label === 'timer').map(l => l.tree.items[0])
      s.must('there is a wait between any two pieces', waits.length >= 3, `${waits.length} waits`)
      waits.forEach((w, i) => s.is(`wait ${i + 1} is as long as configured`, w, NUM('delay')))
      const q = runSmooth(s, pieces.map(C), 'word', 'closed', undefined, { timers: 'never' }, NUM('delay'))
      s.must('no further piece is emitted before the wait is over', !q.none && q.items.length <= 1 && !q.star && q.end.join() !== 'closed', `${q.items?.length} pieces, then ${q.end?.join('|')}`)
    }
  }, { unrollLimit: 200 })
  rep.scenario('smoothing: a failing source', (s) => {
    const r = runSmooth(s, [C('one two')], 'word', 'errored', T('reason'))
    s.must('its error is passed on', !r.none && r.sure && r.end[0] === 'errored', r.end?.join())
    s.is('unchanged', r.none ? null : r.A.tree(r.st, r.err), T('reason'))
    const t = textOf(r.items ?? [])
    s.must('nothing was invented before it', t !== null && 'one two'.startsWith(t), `emitted ${t}`)
  })
  for (const n of [0, 1, 2, 3]) {
    for (const delay of ['numbers', 'zero', 'null']) {
      rep.scenario(`simulating ${n} chunks, delays ${delay}`, (s) => {
        const A = s.analysis({})
        const chunks = Array.from({ length: n }, (_, i) => S(`c${i}`, { any: true }))
        const d = delay === 'numbers' ? NUM('delay') : delay === 'zero' ? C(0) : C(null)
        const f = A.export(UTILS, 'simulateReadableStream')
        const r = A.run(f, [A.val({ chunkDelay: d, chunks, initialDelay: d })])
        if (!s.must('it returns a stream', !!r.st, 'it throws'))
          return
        const out = drained(A, r.st, r.v)
        streamIs(s, 'exactly the given chunks in order, then the end', { items: out.items.map(x => A.tree(out.st, x)), star: out.star ? A.tree(out.st, out.star) : null, end: out.end }, chunks)
      })
    }
  }
  for (const n of [1, 2, 4]) {
    rep.scenario(`pacing of ${n} simulated chunks`, (s) => {
      const A = s.analysis({ logTimers: true })
      const f = A.export(UTILS, 'simulateReadableStream')
      const r = A.run(f, [A.val({ chunkDelay: NUM('between'), chunks: Array.from({ length: n }, (_, i) => S(`c${i}`)), initialDelay: NUM('initial') })])
      if (!s.must('it returns a stream', !!r.st, 'it throws'))
        return
      const out = drained(A, r.st, r.v)
      const waits = A.logOf(out.st).items.flat().filter(l => l.label === 'timer').map(l => l.tree.items[0])
      s.is('it waits the initial delay, then the chunk delay before every later chunk', { kind: 'array', items: waits, star: null }, Array.from({ length: n }, (_, i) => NUM(i ? 'between' : 'initial')))
      const B = s.analysis({ timers: 'never' })
      const q = B.run(B.export(UTILS, 'simulateReadableStream'), [B.val({ chunkDelay: NUM('between'), chunks: Array.from({ length: n }, (_, i) => S(`c${i}`)), initialDelay: NUM('initial') })])
      const early = q.st ? drained(B, q.st, q.v) : null
      s.must('nothing is emitted before the wait is over', early && !early.items.length && !early.star && early.end.join() !== 'closed', early ? `${early.items.length} chunks, then ${early.end.join('|')}` : 'it throws')
    })
  }
  rep.scenario('simulating any number of chunks', (s) => {
    const A = s.analysis({ unrollLimit: 2 })
    const f = A.export(UTILS, 'simulateReadableStream')
    const r = A.run(f, [A.val({ chunkDelay: NUM('d'), chunks: A.starArray(S('c*')), initialDelay: NUM('d') })])
    if (!s.must('it returns a stream', !!r.st, 'it throws'))
      return
    const out = drained(A, r.st, r.v)
    for (const x of [...out.items, ...(out.star ? [out.star] : [])]) s.is('every chunk is a given chunk', A.tree(out.st, x), S('c*'))
    s.must('chunks of every number are emitted', !!out.star, 'only a bounded number')
    s.must('it closes', out.end.join() === 'closed', out.end.join('|'))
  })
}

// ------------------------------------------------------------------ C33
/** what the extractor has to produce for a whole text, without separators */
const reference = (text, { tagName = 'think', startWithReasoning = false }) => {
  const start = `<${tagName}>`
  const end = `</${tagName}>`
  let inside = startWithReasoning
  const out = { text: [''], reasoning: [''] }
  while (true) {
    const tag = inside ? end : start
    const i = text.indexOf(tag)
    const list = inside ? out.reasoning : out.text
    list[list.length - 1] += i < 0 ? text : text.slice(0, i)
    if (i < 0)
      return { ...out, inside }
    text = text.slice(i + tag.length)
    inside = !inside
    const next = inside ? out.reasoning : out.text
    next.push('')
  }
}
/** longest part at the end that may still become a tag */
const keptBack = (text, tag) => {
  for (let n = Math.min(tag.length - 1, text.length); n > 0; n--) {
    if (tag.startsWith(text.slice(text.length - n)))
      return n
  }
  return 0
}
const R_TEXTS = ['a<THINK>b</THINK>c', '<think>a</THINK>b</think>c', '<Think>a</think>b<think>c</Think>', '< think>a</ think>', '<think >a</think >', '<thinking>a</thinking>', '<think/>a', '<think>a</think >b</think>c', '&lt;think&gt;a&lt;/think&gt;', '  <think>  a  </think>  b  ', '\n<think>\na\n</think>\n\nb\n', '', 'plain', '<think>r</think>t', 'a<think>b</think>c', 'a<think>b</think>c<think>d</think>e', '<think>only', '<think></think>t', '<think>r</think>', 'x < y <th z', 'a<thi', '<think>a</thi', 'a</think>b', '<<think>r</think>>', '<think><think>r</think>', 'a<think>b</think><think>c</think>d', '<think>b</</think>c', 'a<think>b</think><thi', 'a<think>b</think>c<think>d</think><<', '<think>a</think>b<think></th', '<think>l1\nl2</think>\nx\ny', '<think>\u{1F600}</think>\u00e9']
const runExtract = (s, pieces, options, end = 'closed', err) => {
  const A = s.analysis({})
  const f = A.export(REASON, 'extractReasoningStream')
  if (pieces.length && pieces.length === [...pieces.map(x => x.v).join('')].length) {
    // a stream with other tags before
    const other = A.run(f, [source(A, ['x<other>y</o', 'ther>z<other>'].map(C)), A.val({ tagName: 'other', separator: '#' })])
    for (const k of other.st ? ['textStream', 'reasoningStream'] : []) A.I.st = A.drain(A.I.st, A.get(A.I.st, other.v, k)).st
  }
  const src = source(A, pieces, end, err)
  const r = A.run(f, [src, ...(options ? [A.val(Object.fromEntries(Object.entries(options).map(([k, v]) => [k, C(v)])))] : [])])
  if (!r.st)
    return { A, none: true }
  const get = n => drained(A, r.st, A.get(r.st, r.v, n))
  return { A, text: get('textStream'), reasoning: get('reasoningStream') }
}
const literal = t => t.replace(/[$()*+.?[\\\]^{|}]/g, '\\$&')
const strip = (t, sep) => t.split(sep).join('')
const C33 = (rep) => {
  const deep = rep.tier === 'thorough'
  const variants = [['defaults', null, 'think'], ['own separator', { tagName: 'think', separator: '|' }, 'think'], ['starting inside', { tagName: 'think', separator: '|', startWithReasoning: true }, 'think'], ['own tag', { tagName: 'r', separator: '|' }, 'r'], ['a tag with a dash', { tagName: 'my-think' }, 'my-think'], ...['|t|', 'a.b', 'a+b', 'a$b'].map(t => [`tag ${t}`, { tagName: t, separator: '' }, t])]
  for (const [name, options, tagName] of variants) {
    for (const base of R_TEXTS) {
      const text = base.replaceAll('think', () => tagName)
      const sep = options?.separator ?? '\n'
      const want = reference(text, { tagName, startWithReasoning: options?.startWithReasoning })
      const cut = splits(text, deep ? 2 : 1)
      const list = text === '' ? [[], ['']] : [...(deep ? cut : cut.filter((_, i) => i < 30)), [...text]]
      rep.scenario(`extracting, ${name}: ${JSON.stringify(text)}`, (s) => {
        for (const pieces of list) {
          const r = runExtract(s, pieces.map(C), options)
          const how = `chunks ${JSON.stringify(pieces)}`
          for (const [kind, blocks] of [['text', want.text], ['reasoning', want.reasoning]]) {
            const d = r[kind]
            s.must(`the ${kind} stream closes with the source`, !r.none && d.sure && d.end[0] === 'closed', `${how}: ends ${d?.end.join('|')}`)
            const got = r.none ? null : textOf(d.items)
            const full = blocks.filter(b => b !== '').join(sep)
            s.must(`the ${kind} stream carries exactly the ${kind}, its blocks joined by the separator`, got === full, `${how}: ${JSON.stringify(got)}, expected ${JSON.stringify(full)}`)
          }
        }
      }, { unrollLimit: 200 })
    }
  }
  // promptness: while the source is open, all but a possible tag has been delivered
  for (const text of ['hello', 'a<think>deep', 'a<think>b</think>c', 'x < y', 'a<thi', '<think>r</t', 'one<t two']) {
    rep.scenario(`extracting from an open source: ${JSON.stringify(text)}`, (s) => {
      const want = reference(text, {})
      const tag = want.inside ? '</think>' : '<think>'
      const cur = want.inside ? 'reasoning' : 'text'
      const k = keptBack(text, tag)
      for (const pieces of [[text], [...text]]) {
        const r = runExtract(s, pieces.map(C), null, 'open')
        for (const kind of ['text', 'reasoning']) {
          const full = want[kind].join('')
          const expect = kind === cur && k ? full.slice(0, -k) : full
          const got = r.none ? null : textOf(r[kind].items)
          s.must(`what cannot be part of a tag was delivered (${kind})`, got !== null && strip(got, '\n') === expect, `chunks ${JSON.stringify(pieces)}: ${JSON.stringify(got)}, expected ${JSON.stringify(expect)}`)
        }
      }
    }, { unrollLimit: 200 })
  }
  for (const [name, pieces] of [['before any data', []], ['inside text', ['some']], ['inside reasoning', ['a<think>b']], ['inside a tag', ['a<thi']]]) {
    rep.scenario(`source fails ${name}`, (s) => {
      const r = runExtract(s, pieces.map(C), null, 'errored', T('reason'))
      for (const kind of ['text', 'reasoning']) {
        s.must(`the ${kind} stream fails`, !r.none && r[kind].sure && r[kind].end[0] === 'errored', r[kind]?.end.join('|'))
        s.is(`the ${kind} stream carries the same error`, r.none ? null : r.A.tree(r[kind].st, r[kind].err), T('reason'))
      }
    }, { unrollLimit: 50 })
  }
  // the whole-text variant
  for (const [name, options, tagName] of variants) {
    for (const base of R_TEXTS) {
      const text = base.replaceAll('think', () => tagName)
      const sep = options?.separator ?? '\n'
      // blocks that are closed
      const full = (options?.startWithReasoning ? `<${tagName}>` : '') + text
      const ms = [...full.matchAll(new RegExp(`<${literal(tagName)}>([\\s\\S]*?)</${literal(tagName)}>`, 'g'))]
      rep.scenario(`whole text, ${name}: ${JSON.stringify(text)}`, (s) => {
        const A = s.analysis({})
        // a text with other tags before
        A.run(A.export(REASON, 'extractReasoning'), [C('x<other>y</other>z'), A.val({ tagName: 'other', separator: '#' })])
        const r = A.run(A.export(REASON, 'extractReasoning'), [C(text), ...(options ? [A.val(Object.fromEntries(Object.entries(options).map(([k, v]) => [k, C(v)])))] : [])])
        if (!s.must('it returns', !!r.st, 'it throws'))
          return
        const v = A.tree(r.st, r.v)
        if (!ms.length) {
          s.is('without a closed block the text is returned unchanged', v, { text: C(text), reasoning: ABSENT })
          return
        }
        const outside = []
        let at = 0
        for (const m of ms) {
          outside.push(full.slice(at, m.index))
          at = m.index + m[0].length
        }
        const joined = [...outside.filter(b => b !== ''), full.slice(at)].join(sep)
        const bare = [...outside, full.slice(at)].filter(b => b !== '').join(sep)
        s.is('the reasoning is what the blocks hold', v.props?.reasoning?.v, C(ms.map(m => m[1]).join(sep)))
        const t = v.props?.text?.v
        s.must('the text is what is outside, its blocks joined by the separator', t?.kind === 'const' && [joined, bare].includes(t.v), `${t && treeKey(t)}, expected ${JSON.stringify(joined)}`)
      }, { unrollLimit: 50 })
    }
  }
}

// ------------------------------------------------------------------ C38
const delta = a => ({ type: 'speech.audio.delta', audio: a })
const done = (u = true) => ({ type: 'speech.audio.done', ...(u === null ? { usage: null } : u ? { usage: { input_tokens: NUM('u0.in'), output_tokens: NUM('u0.out'), total_tokens: NUM('u0.total') } } : {}) })
const USAGE = { inputTokens: NUM('u0.in'), outputTokens: NUM('u0.out'), totalTokens: NUM('u0.total') }
const bytes = a => op('fromBase64', [a])
const C38 = (rep) => {
  const a = n => T(`a${n}`)
  const other = { type: 'speech.audio.other', audio: T('noise') }
  const cases = {
    'no audio': [[done()], [], USAGE],
    'one fragment': [[delta(a(0)), done()], [a(0)], USAGE],
    'three fragments': [[delta(a(0)), delta(a(1)), delta(a(2)), done()], [a(0), a(1), a(2)], USAGE],
    'repeated fragment': [[delta(a(0)), delta(a(0)), done()], [a(0), a(0)], USAGE],
    'without usage': [[delta(a(0)), done(false)], [a(0)], undefined],
    'usage null': [[delta(a(0)), done(null)], [a(0)], undefined],
    'without done event': [[delta(a(0)), delta(a(1))], [a(0), a(1)], undefined],
    'nothing at all': [[], [], undefined],
    'other events': [[other, delta(a(0)), other, done(), other], [a(0)], USAGE],
    'audio after done': [[delta(a(0)), done(), delta(a(1))], [a(0), a(1)], USAGE],
    'done twice, second without usage': [[delta(a(0)), done(), done(false)], [a(0)], USAGE],
    'done twice, first without usage': [[done(false), delta(a(0)), done()], [a(0)], USAGE],
  }
  for (const [name, [events, audio, usage]] of Object.entries(cases)) {
    for (const noDone of [false, true]) {
      rep.scenario(`${name}${noDone ? ', no terminator' : ''}`, (s) => {
        const R = runOp(s, 'streamSpeech', { turns: [{ events, noDone }] })
        if (!s.must('the call returns', !!R.ok && !R.err, 'it fails'))
          return
        const o = outputs(R)
        streamIs(s, 'every fragment decoded, once and in order', o.streams.fullStream, audio.map(bytes))
        s.must('the usage promise resolves', !!o.promises.usage?.ok && !o.promises.usage?.err, 'it does not')
        s.is('with the counts the server reported', o.promises.usage?.ok, usage ?? ABSENT)
      })
    }
  }
  rep.scenario('any number of fragments', (s) => {
    const A = s.analysis({ unrollLimit: 2 })
    const f = A.export('@xsai/stream-speech', 'streamSpeech')
    const fetch = A.fetchFn(I => A.response(I, { name: 'res', body: A.sse(I, [], { star: A.json(I, A.val(delta(T('a*')))), name: 'b' }) }))
    const r = A.runAwait(f, [A.val({ baseURL: 'https://api.example.com/v1/', model: 'm', input: T('in'), voice: T('v'), fetch })])
    if (!s.must('the call returns', !!r.ok, 'it fails'))
      return
    const d = drained(A, r.ok.st, A.get(r.ok.st, r.ok.v, 'fullStream'))
    for (const x of [...d.items, ...(d.star ? [d.star] : [])]) s.is('every piece of audio is a decoded fragment', A.tree(d.st, x), bytes(T('a*')))
    s.must('audio of every length', !!d.star, 'a bounded number of pieces')
  })
  const fails = {
    'connection breaks': { turn: { events: [delta(a(0))], end: 'errored', err: T('broken'), noDone: true }, err: T('broken') },
    'connection breaks at once': { turn: { events: [], end: 'errored', err: T('broken'), noDone: true }, err: T('broken') },
    'malformed event': { turn: { events: [delta(a(0)), C('{"x"')] }, err: errorOf('JSONParseError') },
    'error payload': { turn: { events: [delta(a(0)), { error: { message: 'x' } }] }, err: errorOf('RemoteAPIError') },
    'audio that is no base64': { turn: { events: [delta(a(0)), delta('***'), delta(a(1)), done()] }, err: ANY, may: true },
    'audio that is no base64, after the usage': { turn: { events: [done(), delta('***')] }, err: ANY, may: true, used: true },
    'the connection breaks after the usage': { turn: { events: [delta(a(0)), done()], end: 'errored', err: T('broken'), noDone: true }, err: T('broken'), used: true },
  }
  for (const [name, { turn, err, may, used }] of Object.entries(fails)) {
    rep.scenario(`stream fails: ${name}`, (s) => {
      const R = runOp(s, 'streamSpeech', { turns: [turn] })
      if (!s.must('the call returns', !!R.ok && !R.err, 'it fails'))
        return
      const o = outputs(R)
      const st = o.streams.fullStream
      // a decoder may take any text
      if (may && st?.end.join() === 'closed')
        return
      if (used) {
        // the counts were known before the stream failed
        s.must('the usage promise settles', !!o.promises.usage?.err !== !!o.promises.usage?.ok, 'it does not')
      }
      else {
        s.must('the usage promise rejects', !!o.promises.usage?.err && !o.promises.usage?.ok, 'it does not')
        s.is('with the stream\'s error', o.promises.usage?.err, err)
      }
      s.must('the audio stream fails', st?.end.join() === 'errored', st?.end.join('|'))
      s.is('with the same error', st?.err, err)
    })
  }
}

// ------------------------------------------------------------------ C41
const C41 = (rep) => {
  const d = (t, extra = {}) => ({ type: 'transcript.text.delta', delta: t, ...extra })
  const fin = t => ({ type: 'transcript.text.done', text: t })
  const t = n => T(`t${n}`)
  const cases = {
    'one delta': [[d(t(0)), fin(t(0))], [d(t(0))]],
    'three deltas': [[d(t(0)), d(t(1)), d(t(2)), fin(cat(t(0), t(1), t(2)))], [d(t(0)), d(t(1)), d(t(2))]],
    'repeated text': [[d(t(0)), d(t(0)), d(t(0)), fin(t(9))], [d(t(0)), d(t(0)), d(t(0))]],
    'no done event': [[d(t(0)), d(t(1))], [d(t(0)), d(t(1))]],
    'text in the done event only': [[fin(t(0))], []],
    'nothing': [[], []],
    'other events': [[{ type: 'transcript.text.segment', delta: T('noise'), text: T('noise') }, d(t(0)), { type: 'x', delta: T('noise') }, d(t(1)), fin(t(2))], [d(t(0)), d(t(1))]],
    'empty delta': [[d(C('')), d(t(0)), d(C(''))], [d(C('')), d(t(0)), d(C(''))]],
    'extra fields': [[d(t(0), { logprobs: [OBJ0] }), fin(t(0))], [d(t(0), { logprobs: [OBJ0] })]],
    'delta after done': [[d(t(0)), fin(t(0)), d(t(1))], [d(t(0)), d(t(1))]],
  }
  for (const [name, [events, deltas]] of Object.entries(cases)) {
    for (const noDone of [false, true]) {
      rep.scenario(`${name}${noDone ? ', no terminator' : ''}`, (s) => {
        const R = runOp(s, 'streamTranscription', { turns: [{ events, noDone }] })
        if (!s.must('the call returns', !!R.ok && !R.err, 'it throws'))
          return
        const o = outputs(R)
        const full = o.streams.fullStream
        // the done event itself may or may not be forwarded; it adds no text
        const kept = full && { ...full, items: full.items.filter(x => x.props?.type?.v?.v !== 'transcript.text.done') }
        streamIs(s, 'full stream: every delta event once, in order', kept, deltas)
        streamIs(s, 'text stream: the text of every delta, in order', o.streams.textStream, deltas.map(x => x.delta))
        s.is('text: the concatenation', o.promises.text?.ok, cat(...deltas.map(x => x.delta)))
        s.must('the text promise resolves', !!o.promises.text?.ok && !o.promises.text?.err, 'it may reject')
      })
    }
  }
  rep.scenario('any number of deltas', (s) => {
    const A = s.analysis({ unrollLimit: 2 })
    const f = A.export('@xsai/stream-transcription', 'streamTranscription')
    const fetch = A.fetchFn(I => A.response(I, { name: 'res', body: A.sse(I, [], { star: A.json(I, A.val(d(T('t*')))), name: 'b' }) }))
    const r = A.run(f, [A.val({ baseURL: 'https://api.example.com/v1/', model: 'm', file: sym('file', { type: 'object', nonNull: true }), fetch })])
    if (!s.must('the call returns', !!r.st, 'it throws'))
      return
    for (const [n, p] of [['fullStream', d(T('t*'))], ['textStream', T('t*')]]) {
      const x = drained(A, r.st, A.get(r.st, r.v, n))
      for (const e of [...x.items, ...(x.star ? [x.star] : [])]) s.is(`${n} carries delta events only`, A.tree(x.st, e), p)
      s.must(`${n} carries deltas of every number`, !!x.star, 'a bounded number')
      s.must(`${n} closes`, x.end.join() === 'closed', x.end.join('|'))
    }
  })
  const fails = {
    'connection breaks': { turn: { events: [d(t(0))], end: 'errored', err: T('broken'), noDone: true }, err: T('broken') },
    'malformed event': { turn: { events: [d(t(0)), C('{"x"')] }, err: errorOf('JSONParseError') },
  }
  for (const [name, { turn, err }] of Object.entries(fails)) {
    rep.scenario(`stream fails: ${name}`, (s) => {
      const R = runOp(s, 'streamTranscription', { turns: [turn] })
      const o = outputs(R)
      s.must('the text promise rejects', !!o.promises.text?.err && !o.promises.text?.ok, 'a truncated text is passed off as whole')
      s.is('with the failure', o.promises.text?.err, err)
    })
  }
}
const OBJ0 = sym('lp', { type: 'object', nonNull: true, plain: true })
void alts, N
export { C32, C33, C38, C41 }
