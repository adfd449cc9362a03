// Results that project one response: C36 images, C40 plain results
import { ABSENT, errorOf, open, pred } from '../lib/check.mjs'
import { cat, NUM, OBJ, runOp, S, T, usageOut } from '../lib/ops.mjs'
import { C, op, sym, treeAlts, treeKey } from '../lib/harness.mjs'

// ------------------------------------------------------------------ C36
const FORMATS = { png: ['iVBORw0KGgo', 'image/png'], jpeg: ['/9j/', /^image\/jpe?g$/], gif: ['R0lGOD', 'image/gif'], webp: ['UklGR', 'image/webp'], avif: ['AAAAIGZ0eXBhdmlm', 'image/avif'] }
const b64 = (f, n) => cat(f ? FORMATS[f][0] : 'Qk0', T(`rest${n}`))
const url = n => C(`https://img.example.com/${n}.png`)
const flat = v => (v?.t === 'op' && v.op === 'concat' ? v.args : v ? [v] : [])
const val = t => (t?.kind === 'sym' || t?.kind === 'op' || t?.kind === 'const' ? t.v?.t ? t.v : C(t.v) : null)
/** the data URL of base64 text */
const isDataURL = (s, t, { content, type }, where) => {
  const mime = t?.props?.mimeType?.v
  s.must(`${where}: typed`, mime?.kind === 'const' && typeof mime.v === 'string' && (type === null || (type instanceof RegExp ? type.test(mime.v) : type === mime.v)), `${mime ? treeKey(mime) : 'no type'}, expected ${type}`)
  s.is(`${where}: a data URL of exactly the bytes returned`, t?.props?.base64?.v, cat(`data:${mime?.v};base64,`, content))
}
/** the responses a value is made from */
const resOf = (v, ids = new Set()) => {
  if (!v)
    return ids
  for (const m of (v.t === 'sym' ? v.k : '').match(/res\d+/g) ?? []) ids.add(m)
  for (const a of v.args ?? []) resOf(a, ids)
  for (const a of v.alts ?? []) resOf(a.v, ids)
  return ids
}
const ITEMS = {
  b: i => ({ b64_json: b64('png', i) }),
  u: i => ({ url: url(i) }),
  r: i => ({ url: url(i), revised_prompt: T(`revised${i}`) }),
  n: i => ({ b64_json: null, url: url(i) }),
}
export const C36 = (rep) => {
  for (const f of [...Object.keys(FORMATS), null]) {
    rep.scenario(`base64 image, ${f ?? 'unknown format'}`, (s) => {
      const R = runOp(s, 'generateImage', { turns: [{ raw: { created: 1, data: [{ b64_json: b64(f, 0) }] } }] })
      if (!s.must('the call succeeds', !!R.ok && !R.err, 'it may fail'))
        return
      const t = R.A.tree(R.ok.st, R.ok.v)
      const imgs = t.props?.images?.v
      if (!s.must('one image', imgs?.kind === 'array' && imgs.items.length === 1 && !imgs.star, imgs && treeKey(imgs)))
        return
      isDataURL(s, imgs.items[0], { content: b64(f, 0), type: f ? FORMATS[f][1] : null }, 'the image')
      s.must('it is also the single image', treeKey(t.props.image?.v) === treeKey(imgs.items[0]), t.props.image && treeKey(t.props.image.v))
      s.must('nothing is downloaded', R.requests.length === 1, `${R.requests.length} requests`)
    })
  }
  const shapes = ['', 'b', 'bb', 'u', 'uu', 'bu', 'ub', 'bub', 'ubu', 'r', 'n', 'rbn', ...(rep.tier === 'thorough' ? ['bbbb', 'uuuu', 'ubub', 'nrub', 'buuub'] : [])]
  for (const shape of shapes) {
    for (const how of ['', 'own fetch missing', ...(shape.length > 1 ? ['later ones finish first'] : [])]) {
      rep.scenario(`items [${shape}]${how && `, ${how}`}`, (s) => {
        const R = runOp(s, 'generateImage', { globalFetch: how === 'own fetch missing', harness: { lastFirst: how === 'later ones finish first' }, turns: [{ raw: { created: 1, data: [...shape].map((k, i) => ITEMS[k](i)) } }], respond: (I, n, q, node, A) => (n > 0 ? { ok: true, body: A.sse(I, [], { name: `img${n}` }) } : null) })
        if (!s.must('the call succeeds', !!R.ok && R.A.tree, 'it fails'))
          return
        const t = R.A.tree(R.ok.st, R.ok.v)
        const imgs = t.props?.images?.v
        if (!s.must('one image per item', imgs?.kind === 'array' && imgs.items.length === shape.length && !imgs.star, imgs && treeKey(imgs)))
          return
        const first = t.props.image?.v
        s.must('the first one is the single image', shape === '' ? !first || (first.kind === 'const' && first.v === undefined) : !!first && treeKey(first) === treeKey(imgs.items[0]), first && treeKey(first))
        const downloads = R.requests.slice(1)
        const urls = [...shape].map((k, i) => (k === 'b' ? null : url(i).v)).filter(Boolean)
        s.must('each URL is downloaded once', downloads.length === urls.length && urls.every(u => downloads.filter(d => d.url?.kind === 'const' && d.url.v === u).length === 1), downloads.map(d => treeKey(d.url)).join())
        ;[...shape].forEach((k, i) => {
          const img = imgs.items[i]
          if (k === 'b') {
            isDataURL(s, img, { content: b64('png', i), type: 'image/png' }, `image ${i}`)
            return
          }
          // the download of that URL is request number
          const n = R.requests.findIndex(d => d.url?.kind === 'const' && d.url.v === url(i).v)
          const type = sym(`blob(res${n}).type`)
          const types = { 'the downloaded type': x => x.k === type.k || x.k === op('before', [type, C(';')]).k, 'no type': x => x.t === 'const' && x.v === 'application/octet-stream' }
          const own = (v) => {
            const ids = resOf(v)
            return ids.has(`res${n}`) && ids.size === 1
          }
          const mimes = treeAlts(img?.props?.mimeType?.v).map(val)
          s.must(`image ${i}: typed as downloaded`, mimes.some(x => x && types['the downloaded type'](x)) && mimes.every(x => x && Object.values(types).some(f => f(x))), img && treeKey(img.props?.mimeType?.v))
          const bases = treeAlts(img?.props?.base64?.v).map(val)
          s.must(`image ${i}: a data URL made of the bytes downloaded from its own URL`, bases.length > 0 && bases.every((x) => {
            const parts = flat(x)
            return parts[0]?.t === 'const' && String(parts[0].v).startsWith('data:') && own(parts.at(-1)) && parts.length > 1 && String(parts.at(-2).v ?? '').endsWith(';base64,') && parts.slice(0, -1).every(y => y.t === 'const' || y.k === type.k)
          }), img && treeKey(img.props?.base64?.v))
        })
      })
    }
  }
  for (const [name, item] of Object.entries({ 'neither': {}, 'null members': { b64_json: null, url: null }, 'other members': { revised_prompt: T('p'), file: T('f') }, 'numbers': { b64_json: 1, url: 2 } })) {
    for (const at of [0, 1]) {
      rep.scenario(`item ${at} carries ${name}`, (s) => {
        const data = [ITEMS.b(0), ITEMS.b(1)]
        data[at] = item
        const R = runOp(s, 'generateImage', { turns: [{ raw: { created: 1, data } }] })
        s.must('the call fails', !!R.err && !R.ok, 'it succeeds')
      })
    }
  }
  rep.scenario('a download fails', (s) => {
    const R = runOp(s, 'generateImage', { turns: [{ raw: { created: 1, data: [ITEMS.b(0), ITEMS.u(1)] } }], respond: (I, n) => (n > 0 ? { ok: false } : null) })
    s.must('the call fails', !!R.err && !R.ok, 'it succeeds')
    if (R.err)
      s.is('with the response as error', R.A.tree(R.err.st, R.err.v), errorOf('APICallError'))
  })
  rep.scenario('a download breaks off', (s) => {
    const R = runOp(s, 'generateImage', { turns: [{ raw: { created: 1, data: [ITEMS.u(0), ITEMS.b(1)] } }], respond: (I, n, q, node, A) => (n > 0 ? { ok: true, body: A.sse(I, [], { name: 'img' }), bodyErr: T('broken') } : null) })
    s.must('the call fails', !!R.err && !R.ok, 'it succeeds')
  })
  rep.scenario('any number of items', (s) => {
    const R = runOp(s, 'generateImage', { harness: { unrollLimit: 2 }, respond: (I, n, q, node, A) => (n === 0 ? { body: A.sse(I, [], { name: 'plain' }), json: A.val({ created: 1, data: A.starArray(A.val({ b64_json: b64('png', 0) })) }) } : null) })
    if (!s.must('the call succeeds', !!R.ok, 'it fails'))
      return
    const imgs = R.A.tree(R.ok.st, R.ok.v).props?.images?.v
    s.must('images of every number', !!imgs?.star, imgs && treeKey(imgs))
    for (const a of imgs?.star ? treeAlts(imgs.star) : []) isDataURL(s, a, { content: b64('png', 0), type: 'image/png' }, 'every image')
  })
}

// ------------------------------------------------------------------ C40
const U = { prompt_tokens: NUM('pt'), total_tokens: NUM('tt') }
const emb = (n, extra = {}) => ({ embedding: OBJ(`emb${n}`), index: n, object: 'embedding', ...extra })
const plain = (s, R) => {
  if (!s.must('the call succeeds', !!R.ok && !R.err, R.err ? `it may fail: ${treeKey(R.A.tree(R.err.st, R.err.v)).slice(0, 200)}` : 'it never ends'))
    return null
  return R.A.tree(R.ok.st, R.ok.v)
}
export const C40 = (rep) => {
  for (const id of ['embed', 'tracedEmbed']) {
    for (const n of [1, 2, 3]) {
      rep.scenario(`${id}: ${n} returned`, (s) => {
        const t = plain(s, runOp(s, id, { turns: [{ raw: { data: Array.from({ length: n }, (_, i) => emb(i)), usage: U, model: T('m') } }] }))
        t && s.is('the first embedding, the input and the usage', t, { embedding: OBJ('emb0'), input: T('in'), usage: U })
      })
    }
    rep.scenario(`${id}: usage missing`, (s) => {
      const R = runOp(s, id, { turns: [{ raw: { data: [emb(0)], model: T('m') } }] })
      if (id === 'embed' || R.ok) {
        const t = plain(s, R)
        t && s.is('the embedding and the input', t, { embedding: OBJ('emb0'), input: T('in'), usage: ABSENT })
      }
      else {
        s.must('it ends', !!R.err)
      }
    })
  }
  for (const id of ['embedMany', 'tracedEmbedMany']) {
    for (const n of [0, 1, 2, 4]) {
      rep.scenario(`${id}: ${n} returned`, (s) => {
        const t = plain(s, runOp(s, id, { turns: [{ raw: { data: Array.from({ length: n }, (_, i) => emb(i)), usage: U } }] }))
        t && s.is('all embeddings in order, the input and the usage', t, { embeddings: Array.from({ length: n }, (_, i) => OBJ(`emb${i}`)), input: [T('in0'), T('in1')], usage: U })
      })
    }
    rep.scenario(`${id}: equal embeddings`, (s) => {
      const t = plain(s, runOp(s, id, { turns: [{ raw: { data: [emb(0), emb(0, { index: 1 }), emb(1, { index: 2 })], usage: U } }] }))
      t && s.is('none is merged', t, { embeddings: [OBJ('emb0'), OBJ('emb0'), OBJ('emb1')], input: [T('in0'), T('in1')], usage: U })
    })
    rep.scenario(`${id}: any number returned`, (s) => {
      const t = plain(s, runOp(s, id, { harness: { unrollLimit: 2 }, respond: (I, n, q, node, A) => ({ body: A.sse(I, [], { name: 'plain' }), json: A.val({ data: A.starArray(A.val({ embedding: OBJ('emb*'), index: NUM('i') })), usage: U }) }) }))
      const e = t?.props?.embeddings?.v
      if (t && s.must('embeddings of every number', !!e?.star, e && treeKey(e)))
        s.is('each is a returned embedding', e.star, OBJ('emb*'))
    })
  }
  const model = n => ({ id: T(`m${n}`), created: NUM(`c${n}`), object: 'model', owned_by: T(`o${n}`), extra: OBJ(`x${n}`) })
  for (const n of [0, 1, 3]) {
    rep.scenario(`listModels: ${n}`, (s) => {
      const list = Array.from({ length: n }, (_, i) => model(i))
      const t = plain(s, runOp(s, 'listModels', { turns: [{ raw: { object: 'list', data: list } }] }))
      t && s.is('the models as sent', t, list)
    })
  }
  // whatever a server says about its models
  const odd = { 'another kind': { id: T('m'), object: T('kind') }, 'only an id': { id: T('m') }, 'nulls': { id: T('m'), created: null, object: null, owned_by: null }, 'any values': { id: S('m'), created: NUM('c'), object: S('o'), owned_by: S('w') }, 'empty': {}, 'other fields': { name: T('n'), created: C(0), owned_by: C('') } }
  for (const [name, m] of Object.entries(odd)) {
    rep.scenario(`listModels: ${name}`, (s) => {
      const list = [model(0), m, m, model(1)]
      const t = plain(s, runOp(s, 'listModels', { turns: [{ raw: { object: 'list', data: list } }] }))
      t && s.is('the models as sent', t, list)
    })
    rep.scenario(`retrieveModel: ${name}`, (s) => {
      const t = plain(s, runOp(s, 'retrieveModel', { turns: [{ raw: m }] }))
      t && s.is('the model as sent', t, m)
    })
  }
  rep.scenario('retrieveModel', (s) => {
    const t = plain(s, runOp(s, 'retrieveModel', { turns: [{ raw: model(0) }] }))
    t && s.is('the model as sent', t, model(0))
  })
  rep.scenario('generateSpeech', (s) => {
    const t = plain(s, runOp(s, 'generateSpeech'))
    t && s.must('the bytes of the response', (t.kind === 'op' || t.kind === 'sym') && /^.:buffer\(.*res0\)$/.test(t.v.k), treeKey(t))
  })
  for (const fmt of [undefined, 'json', 'verbose_json']) {
    rep.scenario(`generateTranscription: ${fmt ?? 'default'}`, (s) => {
      const raw = fmt === 'verbose_json' ? { text: T('heard'), duration: NUM('d'), language: T('l'), segments: [OBJ('s0'), OBJ('s1')], words: OBJ('w') } : { text: T('heard'), usage: OBJ('u') }
      const t = plain(s, runOp(s, 'generateTranscription', { options: fmt ? { responseFormat: fmt } : {}, turns: [{ raw }] }))
      t && s.is('the parsed body', t, raw)
    })
  }
  // text generation
  const choice = (n, message, finish = 'stop') => ({ index: n, finish_reason: finish, message: { role: 'assistant', ...message } })
  const texts = {
    'plain text': [{ content: T('t0') }, T('t0')],
    'empty text': [{ content: C('') }, C('')],
    'any text': [{ content: S('t0') }, S('t0')],
    'one part': [{ content: [{ type: 'text', text: T('p0') }] }, T('p0')],
    'text parts': [{ content: [{ type: 'text', text: T('p0') }, { type: 'text', text: T('p1') }, { type: 'text', text: T('p2') }] }, cat(T('p0'), '\n', T('p1'), '\n', T('p2'))],
    'refusal': [{ content: null, refusal: T('no') }, undefined],
    'refusal part': [{ content: [{ type: 'text', text: T('p0') }, { type: 'refusal', refusal: T('no') }] }, T('p0')],
    'refusal part first': [{ content: [{ type: 'refusal', refusal: T('no') }, { type: 'text', text: T('p0') }, { type: 'refusal', refusal: T('no2') }, { type: 'text', text: T('p1') }] }, cat(T('p0'), '\n', T('p1'))],
    'refusal part only': [{ content: [{ type: 'refusal', refusal: T('no') }] }, C('')],
    'no parts': [{ content: [] }, C('')],
  }
  for (const id of ['generateText', 'tracedGenerateText']) {
    for (const [name, [message, text]] of Object.entries(texts)) {
      for (const [rname, rfield] of [['no reasoning', null], ['reasoning_content', 'reasoning_content'], ['reasoning', 'reasoning']]) {
        for (const others of [0, 2]) {
          rep.scenario(`${id}: ${name}, ${rname}, ${others} other choices`, (s) => {
            const raw = { id: T('id'), choices: [choice(0, { ...message, ...(rfield ? { [rfield]: T('why') } : {}) }, others ? 'length' : 'stop'), ...Array.from({ length: others }, (_, i) => choice(i + 1, { content: T(`other${i}`) }))], usage: { prompt_tokens: NUM('u0.in'), completion_tokens: NUM('u0.out'), total_tokens: NUM('u0.total') } }
            const t = plain(s, runOp(s, id, { turns: [{ raw }] }))
            if (!t)
              return
            s.is('reasoning, finish reason, tool calls and usage', t, open({ finishReason: C(others ? 'length' : 'stop'), reasoningText: rfield ? T('why') : ABSENT, toolCalls: [], toolResults: [], usage: usageOut(0) }))
            if (text !== undefined)
              s.is('the text of the first choice', t.props?.text?.v, text)
            else s.must('no text of another choice', !/other\d/.test(t.props?.text ? treeKey(t.props.text.v) : ''), 'it is')
          })
        }
      }
    }
    for (const n of [1, 3]) {
      rep.scenario(`${id}: ${n} tool calls left to the caller`, (s) => {
        const calls = Array.from({ length: n }, (_, i) => ({ id: C(`id-${i}`), type: 'function', function: { name: 'alpha', arguments: C(`{"n":${i}}`) } }))
        const raw = { id: T('id'), choices: [choice(0, { content: null, tool_calls: calls }, 'tool_calls')], usage: { prompt_tokens: NUM('u0.in'), completion_tokens: NUM('u0.out'), total_tokens: NUM('u0.total') } }
        const t = plain(s, runOp(s, id, { turns: [{ raw }], options: A => ({ tools: [A.val({ type: 'function', function: { name: 'alpha', parameters: {} }, execute: A.fn('alpha', S('res')) })] }) }))
        if (!t)
          return
        s.is('every tool call in order', t.props?.toolCalls?.v, calls.map(c => open({ toolCallId: c.id, toolName: 'alpha', args: c.function.arguments })))
      })
    }
  }
}
void pred
