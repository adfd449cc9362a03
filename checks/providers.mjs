// Provider presets and factories: C02 adapters, C29 descriptors, C30 presets
import path from 'node:path'
import { ABSENT, ANY, errorOf, match, open } from '../lib/check.mjs'
import { cat, lower, NUM, OBJ, OPS, outputs, runOp, S, T } from '../lib/ops.mjs'
import { C, headerTree, N, op, parseFile, REPO, sym, treeAlts, treeKey } from '../lib/harness.mjs'
import { ts } from '../lib/loader.mjs'
import { UNDEF, union } from '../lib/values.mjs'

const DIR = path.join(REPO, 'packages-ext/providers/src')
const CREATE = ['create.ts', 'special/create.ts'].map(f => path.join(DIR, f))
const INDEX = ['index.ts', 'special/index.ts'].map(f => path.join(DIR, f))
const METHODS = ['chat', 'embed', 'image', 'model', 'speech', 'transcription']

/** names exported by a module file */
const exportNames = (file, seen = new Set()) => {
  if (seen.has(file))
    return []
  seen.add(file)
  const sf = parseFile(file)
  const out = []
  for (const s of sf.statements) {
    const isExp = ts.canHaveModifiers(s) && ts.getModifiers(s)?.some(m => m.kind === ts.SyntaxKind.ExportKeyword)
    if (ts.isVariableStatement(s) && isExp) {
      for (const d of s.declarationList.declarations) out.push(d.name.text)
    }
    else if ((ts.isFunctionDeclaration(s) || ts.isClassDeclaration(s)) && isExp && s.name) {
      out.push(s.name.text)
    }
    else if (ts.isExportDeclaration(s) && !s.isTypeOnly) {
      if (s.exportClause && ts.isNamedExports(s.exportClause)) {
        for (const e of s.exportClause.elements) {
          if (!e.isTypeOnly)
            out.push(e.name.text)
        }
      }
      else if (s.moduleSpecifier && !s.exportClause) {
        const base = path.resolve(path.dirname(file), s.moduleSpecifier.text)
        for (const c of [`${base}.ts`, path.join(base, 'index.ts'), base]) {
          if (ts.sys.fileExists(c)) {
            out.push(...exportNames(c, seen))
            break
          }
        }
      }
    }
  }
  return [...new Set(out)]
}
export { exportNames }

/** how to call a factory: list of { label, args(A), base, async, key, headers } */
const KEY = T('providerKey')
const B = 'https://own.example.com/v9/'
const CALLS = {
  createAzure: [
    { label: 'static key', args: (A, K = KEY, b = 'res') => [A.val({ apiKey: K, resourceName: b, apiVersion: '2024-05-01' })], base: 'https://res.services.ai.azure.com/models/', headers: { 'api-key': KEY }, bearer: cat('Bearer ', KEY), query: '?api-version=2024-05-01' },
    { label: 'no version', args: (A, K = KEY, b = 'res') => [A.val({ apiKey: K, resourceName: b })], base: 'https://res.services.ai.azure.com/models/', headers: { 'api-key': KEY }, bearer: cat('Bearer ', KEY) },
    { label: 'token function', args: (A, K = KEY, b = 'res') => [A.val({ apiKey: A.fn('token', K, { async: true }), resourceName: b })], base: 'https://res.services.ai.azure.com/models/', headers: null, bearer: cat('Bearer ', KEY) },
    { label: 'synchronous token function', args: (A, K = KEY, b = 'res') => [A.val({ apiKey: A.fn('token', K), resourceName: b })], base: 'https://res.services.ai.azure.com/models/', headers: null, bearer: cat('Bearer ', KEY) },
  ],
  createPlayer2: [
    { label: 'defaults', args: (A, K, b) => (K ? [C(b ?? 'http://localhost:4315/v1/'), K] : b ? [C(b)] : []), base: 'http://localhost:4315/v1/', headers: { 'player2-game-key': 'xsai' } },
    { label: 'own base and key', args: (A, K = KEY, b = B) => [C(b), K], base: B, headers: { 'player2-game-key': KEY } },
  ],
  createWorkersAI: [{ label: 'account', args: (A, K = KEY, b = 'acc') => [K, C(b)], base: 'https://api.cloudflare.com/client/v4/accounts/acc/ai/v1/', key: KEY }],
}
const callsOf = name => CALLS[name] ?? [{ label: 'default base', args: (A, K = KEY, b = null) => [K, ...(b === null ? [] : [C(b)])], base: null, key: KEY }, { label: 'own base', args: (A, K = KEY, b = B) => [K, C(b)], base: B, key: KEY }]

const factories = (A) => {
  const out = []
  for (const f of CREATE) {
    for (const n of exportNames(f)) {
      if (/^create[A-Z]/.test(n))
        out.push([f, n])
    }
  }
  return out
}
/** build the provider; A.I.st is left behind the call */
const build = (A, file, name, call, ...other) => {
  const r = A.runAwait(A.export(file, name), call.args(A, ...other))
  if (!r.ok || r.err)
    return null
  A.I.st = r.ok.st
  return r.ok.v
}
const methodsOf = (A, p) => {
  const r = A.I.rec(p)
  return r ? [...r.props].filter(([, e]) => !e.hidden).map(([k]) => k) : []
}
const callMethod = (A, p, m, args) => {
  const f = A.get(A.I.st, p, m)
  const r = A.run(f, args)
  if (!r.st || r.throws.length)
    return null
  A.I.st = r.st
  return r.v
}
const EXTRA = {
  createAnthropic: { chat: { given: A => A.val({ thinking: OBJ('thinking') }), out: { thinking: OBJ('thinking') } } },
  createOpenRouter: { chat: {
    given: A => A.val({ models: [T('m1'), T('m2')], provider: { allowFallbacks: false, dataCollection: 'deny', order: [T('o1')], requireParameters: true, sort: 'price' }, transforms: [T('tr')], extraHeaders: { 'X-Title': T('title'), 'HTTP-Referer': T('ref') } }, { caller: 'extra' }),
    out: { models: [T('m1'), T('m2')], provider: { allow_fallbacks: false, data_collection: 'deny', order: [T('o1')], require_parameters: true, sort: 'price' }, transforms: [T('tr')], headers: { 'X-Title': T('title'), 'HTTP-Referer': T('ref') } },
  } },
}
const baseIs = b => ({ $p: 'pred', what: b ?? 'an absolute base URL', f: t => t?.kind === 'const' && typeof t.v === 'string' && (b == null ? /^https?:\/\/[^/]/.test(t.v) : slash(t.v) === slash(b)) })
const slash = u => (u.endsWith('/') ? u : `${u}/`)

const descriptor = (call, model, m, extra = {}) => ({
  ...(call.key ? { apiKey: call.key } : {}),
  baseURL: baseIs(call.base),
  ...(call.headers ? { headers: call.headers } : {}),
  ...(m === 'model' ? {} : { model }),
  fetch: { $p: 'oneOf', ps: [ABSENT, { $p: 'fn' }] },
  ...extra,
})

export const C29 = (rep) => {
  const probe = rep.probe()
  const list = factories(probe)
  rep.scenario('factories are found', (s) => {
    s.must('provider factories are exported', list.length >= 20, `${list.length}`)
    rep.extra.factories = list.length
    s.must('every exported factory is a function', true)
  })
  for (const [file, name] of list) {
    for (const call of callsOf(name)) {
      rep.scenario(`${name}: ${call.label}`, (s) => {
        const A = s.analysis({})
        const p = build(A, file, name, call)
        if (!s.must('the factory returns a provider', !!p && p.t === 'ref', 'it fails'))
          return
        const ms = methodsOf(A, p)
        s.must('it has methods, all of them documented ones', ms.length > 0 && ms.every(m => METHODS.includes(m)), ms.join())
        const kept = []
        for (const m of ms) {
          const one = callMethod(A, p, m, m === 'model' ? [] : [T('modelA')])
          if (!s.must(`${m} returns a descriptor`, !!one && one.t === 'ref', 'it fails'))
            continue
          s.is(`${m} carries base, key and model`, A.tree(A.I.st, one), descriptor(call, T('modelA'), m))
          kept.push([`${m} descriptor`, one, treeKey(A.tree(A.I.st, one))])
          const two = callMethod(A, p, m, m === 'model' ? [] : [T('modelB')])
          s.is(`${m} for another model carries that model`, A.tree(A.I.st, two), descriptor(call, T('modelB'), m))
          s.must(`${m} returns a descriptor of its own`, two.id !== one.id, 'the same object is returned twice')
          const ex = EXTRA[name]?.[m]
          if (ex) {
            const three = callMethod(A, p, m, [T('modelC'), ex.given(A)])
            s.is(`${m} with extra options carries them`, three ? A.tree(A.I.st, three) : null, descriptor(call, T('modelC'), m, ex.out))
          }
          // a caller changing its descriptor leaves later ones alone
          const mine = callMethod(A, p, m, m === 'model' ? [] : [T('modelD')])
          A.with(A.I.st, (I) => {
            I.putProp(mine, C('apiKey'), T('changed'))
            I.putProp(mine, C('baseURL'), T('changed'))
            I.putProp(mine, C('model'), T('changed'))
          })
          const four = callMethod(A, p, m, m === 'model' ? [] : [T('modelE')])
          s.is(`${m} afterwards carries no left-overs`, A.tree(A.I.st, four), descriptor(call, T('modelE'), m))
        }
        for (const [what, d, key] of kept) s.must(`an earlier ${what} is unchanged`, treeKey(A.tree(A.I.st, d)) === key, `now ${treeKey(A.tree(A.I.st, d)).slice(0, 200)}`)
      })
    }
  }
  for (const [file, name] of list) {
    for (const call of callsOf(name)) {
      // providers of one kind for other accounts and servers, made and used before
      for (const [what, other] of [['another key', [T('otherKey')]], ['another server', [undefined, 'elsewhere']]]) {
        rep.scenario(`${name}: ${call.label}, next to one with ${what}`, (s) => {
          const A = s.analysis({})
          const q = build(A, file, name, call, ...other)
          if (!s.must('the factory returns a provider', !!q && q.t === 'ref', 'it fails'))
            return
          const use = (p, m) => callMethod(A, p, m, m === 'model' ? [] : [T('modelA')])
          const ms = methodsOf(A, q)
          const before = ms.map(m => use(q, m))
          const keys = before.map(d => d && treeKey(A.tree(A.I.st, d)))
          const p = build(A, file, name, call)
          for (const m of ms) {
            const d = p && use(p, m)
            if (s.must(`${m} returns a descriptor`, !!d && d.t === 'ref', 'it fails'))
              s.is(`${m} carries base, key and model`, A.tree(A.I.st, d), descriptor(call, T('modelA'), m))
          }
          ms.forEach((m, i) => {
            const d = use(q, m)
            s.must(`${m} of the other one goes on as before`, !!d && treeKey(A.tree(A.I.st, d)) === keys[i], 'it changed')
          })
        })
      }
    }
  }
  rep.scenario('openrouter: headers as a Headers object', (s) => {
    const A = s.analysis({})
    const p = build(A, CREATE[0], 'createOpenRouter', callsOf('createOpenRouter')[0])
    const d = callMethod(A, p, 'chat', [T('m'), A.val({ extraHeaders: A.headers({ 'X-Title': T('title') }) })])
    s.is('the headers are carried', A.tree(A.I.st, d)?.props?.headers?.v, { 'x-title': T('title') })
  })
  rep.scenario('openrouter: partial options', (s) => {
    const A = s.analysis({})
    const p = build(A, CREATE[0], 'createOpenRouter', callsOf('createOpenRouter')[0])
    for (const [k, v] of Object.entries({ models: [T('x')], transforms: [], provider: { sort: 'price' } })) {
      const d = callMethod(A, p, 'chat', [T('m'), A.val({ [k]: v })])
      s.is(`only ${k}`, A.tree(A.I.st, d), { apiKey: KEY, baseURL: baseIs(null), model: T('m'), [k]: v })
    }
  })
  // the building blocks
  const utils = path.join(DIR, 'utils/index.ts')
  for (const n of exportNames(utils).filter(x => /^create\w+Provider/.test(x))) {
    rep.scenario(`utility ${n}`, (s) => {
      const A = s.analysis({})
      const fetch = A.fn('fetch')
      const opts = A.val({ apiKey: KEY, baseURL: B, headers: { 'x-a': T('h') }, fetch, custom: OBJ('custom') }, { caller: 'options' })
      const r = A.run(A.export(utils, n), [opts])
      A.I.st = r.st
      const ms = methodsOf(A, r.v)
      s.must('one method', ms.length === 1 && METHODS.includes(ms[0]), ms.join())
      const m = ms[0]
      const withExtra = /WithExtraOptions$/.test(n)
      const base = { apiKey: KEY, baseURL: B, headers: { 'x-a': T('h') }, fetch, custom: OBJ('custom') }
      const a = callMethod(A, r.v, m, m === 'model' ? [] : [T('m1')])
      s.is('the descriptor carries everything given', A.tree(A.I.st, a), { ...base, ...(m === 'model' ? {} : { model: T('m1') }) })
      if (withExtra) {
        const e = A.val({ thinking: OBJ('t'), custom: OBJ('other') })
        const b = callMethod(A, r.v, m, m === 'model' ? [e] : [T('m2'), e])
        s.is('extra options are added, for that call', A.tree(A.I.st, b), { ...base, ...(m === 'model' ? {} : { model: T('m2') }), thinking: OBJ('t'), custom: OBJ('other') })
      }
      const c = callMethod(A, r.v, m, m === 'model' ? [] : [T('m3')])
      s.is('a later descriptor carries no left-overs', A.tree(A.I.st, c), { ...base, ...(m === 'model' ? {} : { model: T('m3') }) })
      s.is('the first descriptor is unchanged', A.tree(A.I.st, a), { ...base, ...(m === 'model' ? {} : { model: T('m1') }) })
      s.is('the given options are unchanged', A.tree(A.I.st, opts), base)
    })
  }
  rep.scenario('utility merge', (s) => {
    const A = s.analysis({})
    const parts = [A.val({ chat: A.fn('a') }, { caller: 'p0' }), A.val({ embed: A.fn('b') }, { caller: 'p1' }), A.val({ chat: A.fn('c') }, { caller: 'p2' })]
    const before = parts.map(p => treeKey(A.tree(A.st, p)))
    const r = A.run(A.export(utils, 'merge'), parts)
    s.must('all parts are in it, the last one winning', JSON.stringify(methodsOf(A, r.v)) === '["chat","embed"]' && A.tree(r.st, r.v).props.chat.v.v.name === 'cb:c', methodsOf(A, r.v).join())
    s.must('the parts are unchanged', parts.every((p, i) => treeKey(A.tree(r.st, p)) === before[i]), 'one was changed')
  })
}

// ------------------------------------------------------------------ C30
const documented = () => {
  const out = []
  for (const f of ['generated/index.ts', 'manual/index.ts', 'special/index.ts'].map(x => path.join(DIR, x))) {
    if (!ts.sys.fileExists(f))
      continue
    const sf = parseFile(f)
    for (const st of sf.statements) {
      if (!ts.isVariableStatement(st) || !ts.getModifiers(st)?.some(m => m.kind === ts.SyntaxKind.ExportKeyword))
        continue
      const doc = (st.jsDoc ?? []).map(d => d.getText(sf)).join('\n')
      const base = /baseURL - `([^`]+)`/.exec(doc)?.[1]
      const env = /apiKey - `([^`]+)`/.exec(doc)?.[1]
      for (const d of st.declarationList.declarations) out.push({ file: f, name: d.name.text, base, env, at: `${path.relative(REPO, f)}:${sf.getLineAndCharacterOfPosition(st.getStart(sf)).line + 1}` })
    }
  }
  return out
}
const envNames = docs => [...new Set([...docs.map(d => d.env).filter(Boolean), ...docs.map(d => d.file).filter((f, i, l) => l.indexOf(f) === i).flatMap(f => [...ts.sys.readFile(f).matchAll(/\b[A-Z][A-Z0-9]*(?:_[A-Z0-9]+)+\b/g)].map(m => m[0]))])]

export const C30 = (rep) => {
  const docs = documented()
  const names = envNames(docs)
  rep.extra.presets = docs.length
  rep.extra.environment_variables = names.length
  rep.scenario('presets', (s) => {
    const env = Object.fromEntries(names.map(n => [n, union([T(`env.${n}`), UNDEF])]))
    const A = s.analysis({})
    const proc = A.val({ env }, {}, 'process')
    const mod = { default: proc, env: A.get(A.st, proc, 'env') }
    A.I.harness.externals = { 'node:process': mod, 'process': mod }
    A.I.harness.globals = { process: proc }
    const facs = new Map(factories(A).map(([f, n]) => [n.toLowerCase(), [f, n]]))
    s.must('presets are found', docs.filter(d => d.base).length >= 20, `${docs.length}`)
    for (const d of docs) {
      if (!d.base && !d.env)
        continue
      const v = A.export(d.file, d.name)
      const tr = v && v.t === 'ref' ? A.tree(A.I.st, v) : null
      if (!s.must(`${d.name}: is a provider`, !!tr?.props, 'it is not an object', d.at))
        continue
      const fac = facs.get(`create${d.name}`.toLowerCase())
      const ms = methodsOf(A, v)
      if (fac) {
        const p = build(A, fac[0], fac[1], callsOf(fac[1])[0])
        s.must(`${d.name}: offers what its factory offers`, p && methodsOf(A, p).sort().join() === [...ms].sort().join(), `${ms.join()} instead of ${p ? methodsOf(A, p).join() : 'nothing'}`, d.at)
      }
      for (const m of ms) {
        const desc = callMethod(A, v, m, m === 'model' ? [] : [T('m')])
        const t = desc ? A.tree(A.I.st, desc) : null
        s.is(`${d.name}.${m}: documented base URL`, t?.props?.baseURL?.v, baseIs(d.base), d.at)
        if (!d.env)
          continue
        const vars = d.env.split(/\s+or\s+|[,\s]+/).filter(Boolean)
        const want = new Set([...vars.map(x => T(`env.${x}`).k), C('').k])
        const k = t?.props?.apiKey?.v
        s.must(`${d.name}.${m}: key from ${d.env}, else empty`, k && !t.props.apiKey.may && treeAlts(k).length === want.size && treeAlts(k).every(a => want.has(a.kind === 'const' ? C(a.v).k : a.v?.k)), k ? treeKey(k) : 'no key', d.at)
      }
    }
  })
}

// ------------------------------------------------------------------ C02
const OPS_FOR = { chat: ['generateText', 'streamText'], embed: ['embed', 'embedMany'], image: ['generateImage'], speech: ['generateSpeech', 'streamSpeech'], transcription: ['generateTranscription', 'streamTranscription'], model: ['listModels', 'retrieveModel'] }
/** run an operation with a provider's descriptor over the global fetch */
const viaProvider = (s, file, name, call, m, opId, cfg = {}) => runOp(s, opId, {
  ...cfg,
  globalFetch: true,
  options: (A) => {
    const p = build(A, file, name, call)
    const d = callMethod(A, p, m, m === 'model' ? [] : [C('gpt-x')])
    const r = A.I.rec(d)
    return { ...Object.fromEntries([...r.props].filter(([, e]) => !e.hidden).map(([k, e]) => [k, e.v])), ...(typeof cfg.options === 'function' ? cfg.options(A) : {}) }
  },
})
/** what the adapters translate today, whether or not a descriptor still holds one */
const ADAPTED = { createAzure: () => true, createPlayer2: m => m === 'speech', createTogetherAI: m => m === 'model', createFeatherless: m => m === 'model' }
const adapters = (rep) => {
  const A = rep.probe()
  const out = []
  for (const [file, name] of factories(A)) {
    for (const call of callsOf(name)) {
      const p = build(A, file, name, call)
      if (!p)
        continue
      for (const m of methodsOf(A, p)) {
        if (!METHODS.includes(m))
          continue
        const d = callMethod(A, p, m, m === 'model' ? [] : [C('gpt-x')])
        const t = d && A.tree(A.I.st, d)
        if (ADAPTED[name]?.(m) || (t?.props?.fetch && !(t.props.fetch.v.kind === 'const' && t.props.fetch.v.v === undefined)))
          out.push([file, name, call, m])
      }
    }
  }
  return out
}
const listing = name => ['createTogetherAI', 'createFeatherless'].includes(name)
export const C02 = (rep) => {
  const list = adapters(rep)
  rep.extra.adapters = list.map(([, n, c, m]) => `${n}.${m} (${c.label})`)
  rep.scenario('adapters', s => {
    for (const n of Object.keys(ADAPTED)) s.must(`${n} can be built`, list.some(x => x[1] === n), 'it cannot')
  })
  // the adapter called as a fetch function, with headers of every form
  const HEADERS = { 'no headers': () => undefined, 'an empty record': A => A.val({}), 'a record': A => A.val({ 'x-a': T('h') }), 'a Headers object': A => A.headers({ 'x-a': T('h') }), 'a list': A => A.val([['x-a', T('h')]]) }
  for (const [file, name, call, m] of list.filter(x => x[1] === 'createAzure' && x[3] === 'chat')) {
    for (const [form, given] of Object.entries(HEADERS)) {
      rep.scenario(`${name} (${call.label}): the adapter itself, ${form}`, (s) => {
        const A = s.analysis({})
        A.I.harness.fetch = A.fetchFn(I => A.response(I, { name: 'r', body: A.sse(I, [], { name: 'b' }) })).impl
        const p = build(A, file, name, call)
        const d = p && callMethod(A, p, m, [T('m')])
        const fetch = d && A.get(A.I.st, d, 'fetch')
        if (!s.must('the descriptor carries the adapter', !!fetch, 'it does not'))
          return
        const h = given(A)
        const r = A.runAwait(fetch, [A.url('https://res.services.ai.azure.com/models/x'), A.val({ method: 'POST', body: T('body'), signal: OBJ('signal'), ...(h ? { headers: h } : {}) })])
        s.must('it resolves', !!r.ok && !r.err, 'it may reject')
        const q = A.events('fetch')
        if (!s.must('one request is sent', q.length === 1, `${q.length} requests`))
          return
        const t = A.tree(r.ok.st, q[0].req.init)
        s.is('method, body and signal are forwarded', t, open({ method: 'POST', body: T('body'), signal: OBJ('signal') }))
        const given2 = A.get(r.ok.st, q[0].req.init, 'headers')
        const sent = A.with(r.ok.st, I => (I.kindOf(given2) === 'array' ? A.tree(r.ok.st, given2) : headerTree(I, given2)))
        const flat = sent?.kind === 'array' ? Object.fromEntries(sent.items.map(x => [String(x.items[0].v).toLowerCase(), x.items[1]])) : Object.fromEntries(Object.entries(sent?.props ?? {}).map(([k, e]) => [k, e.v]))
        s.is('it is authorised', flat.authorization, call.bearer)
        if (!/^(no|an empty)/.test(form))
          s.is('and keeps the given header', flat['x-a'], T('h'))
      })
    }
  }
  for (const async of [true, false]) {
    rep.scenario(`createAzure: every request asks the ${async ? 'asynchronous' : 'synchronous'} token function`, (s) => {
      const A = s.analysis({})
      let n = 0
      A.I.harness.fetch = A.fetchFn(I => A.response(I, { name: 'r', body: A.sse(I, [], { name: 'b' }) })).impl
      const file = list.find(x => x[1] === 'createAzure')?.[0]
      const p = file && build(A, file, 'createAzure', { args: A => [A.val({ apiKey: A.fn('token', () => T(`token${n++}`), { async }), resourceName: 'res' })] })
      const d = p && callMethod(A, p, 'chat', [T('m')])
      const fetch = d && A.get(A.I.st, d, 'fetch')
      if (!s.must('the descriptor carries the adapter', !!fetch, 'it does not'))
        return
      for (let i = 0; i < 3; i++) {
        const r = A.runAwait(fetch, [A.url('https://res.services.ai.azure.com/models/x'), A.val({ method: 'POST', headers: {} })])
        if (!s.must('it resolves', !!r.ok && !r.err, 'it may reject'))
          return
        A.I.st = r.ok.st
      }
      const qs = A.events('fetch')
      const sent = qs.map(q => treeKey(lower(A.tree(A.I.st, A.get(A.I.st, q.req.init, 'headers'))).props?.authorization?.v))
      s.must('every request carries the token of its own', qs.length === 3 && sent.every((x, i) => x === treeKey(A.tree(A.I.st, cat('Bearer ', T(`token${i}`))))), sent.join('; '))
    })
  }
  for (const [file, name, call, m] of list) {
    for (const opId of OPS_FOR[m]) {
      const o = OPS[opId]
      const label = `${name}.${m} (${call.label}): ${opId}`
      const failing = (what, spec, err) => rep.scenario(`${label}: ${what}`, (s) => {
        const R = viaProvider(s, file, name, call, m, opId, { respond: (I, n, q, node, A) => spec(A, I) })
        if (R.err)
          s.is('the call fails with the upstream failure', R.A.tree(R.err.st, R.err.v), err)
        if (!R.ok)
          return s.must('the call fails', !!R.err, 'it neither returns nor fails')
        const out = outputs(R)
        s.must('the call does not succeed', (o.promises ?? []).length + (o.streams ?? []).length > 0, 'it may resolve')
        for (const p of o.promises ?? []) {
          s.must(`promise ${p} rejects`, !!out.promises[p]?.err && !out.promises[p].ok, 'it may resolve or stay open')
          s.is(`promise ${p} carries the upstream failure`, out.promises[p]?.err, err)
        }
        for (const p of o.streams ?? []) {
          s.must(`stream ${p} fails`, out.streams[p]?.end.join() === 'errored', `it ends ${out.streams[p]?.end.join('|')}`)
          s.is(`stream ${p} carries the upstream failure`, out.streams[p]?.err, err)
        }
        return true
      })
      const upstream = errorOf('APICallError', { statusCode: sym('res0.status'), response: open({ ok: false }) })
      failing('error status with a JSON body', A => ({ ok: false, json: A.val({ error: T('why'), data: 'QUJD' }), body: A.sse(A.I, [], { name: 'e' }) }), upstream)
      failing('error status with a list body', A => ({ ok: false, json: A.val([{ id: 'm' }]), body: A.sse(A.I, [], { name: 'e' }) }), upstream)
      failing('error status with a text body', A => ({ ok: false, text: C('nope'), body: A.sse(A.I, [], { name: 'e' }) }), errorOf('APICallError', { statusCode: sym('res0.status'), responseBody: 'nope' }))
      failing('error status without a body', () => ({ ok: false, body: C(null), text: C('') }), upstream)
      failing('rejected fetch', (A, I) => I.rejectedPromise(A.error('TypeError', 'net'), `net${I.ctx}`), errorOf('TypeError'))
      if (call.label.includes('token function')) {
        rep.scenario(`${label}: failing token function`, (s) => {
          const bad = { ...call, args: A => [A.val({ apiKey: A.fn('token', undefined, call.label.startsWith('sync') ? { throws: I => A.error('RangeError', 'tok') } : { rejects: A.error('RangeError', 'tok') }), resourceName: 'res' })] }
          const R = viaProvider(s, file, name, bad, m, opId)
          const err = R.err ? R.A.tree(R.err.st, R.err.v) : R.ok ? (Object.values(outputs(R).promises)[0]?.err ?? null) : null
          s.is('the call fails with the token failure', err, errorOf('RangeError'))
          s.must('nothing is sent', R.requests.length === 0, `${R.requests.length} requests`)
        })
      }
      rep.scenario(`${label}: success`, (s) => {
        let signal
        const speech = name === 'createPlayer2'
        const R = viaProvider(s, file, name, call, m, opId, { options: A => ({ abortSignal: signal = A.signal() }), respond: (I, n, q, node, A) => (listing(name) ? { ok: true, body: A.sse(I, []), json: A.val(opId === 'listModels' ? [{ id: T('m0') }, { id: T('m1') }] : { id: T('m0') }) } : speech ? { ok: true, body: A.sse(I, []), json: A.val({ data: T('base64') }) } : null) })
        const q = R.requests[0]
        if (!s.must('one request is sent', R.requests.length === 1 && q?.sure, `${R.requests.length}`))
          return
        s.must('it carries the caller\'s signal', q.signal?.id === signal.id, 'another one or none')
        s.is('its method is that of the operation', q.method, o.method === 'GET' ? { $p: 'oneOf', ps: [ABSENT, 'GET'] } : o.method)
        const h = q.headers?.props ?? {}
        if (call.bearer)
          s.is('it is authorised', h.authorization?.v, call.bearer)
        else if (call.key)
          s.is('it is authorised', h.authorization?.v, cat('Bearer ', call.key))
        for (const [k, v] of Object.entries(call.headers ?? {})) s.is(`it carries the header ${k}`, h[k]?.v, v)
        if (!o.form && !o.noBody)
          s.is('it is declared as JSON', h['content-type']?.v, 'application/json')
        const url = q.url?.href ? q.url.href.v : q.url?.kind === 'const' ? q.url.v : treeKey(q.url ?? { kind: 'const' })
        const base = call.base ?? new URL(url).href.slice(0, -o.path.length)
        s.must('it goes to the operation\'s path', String(url) === `${base}${speech ? 'tts/speak' : o.path}${call.query ?? ''}`, String(url))
        if (speech) {
          s.is('the translated body', q.json, { text: T('in'), voice_ids: [T('voice')], audio_format: ANY, play_in_app: false, speed: 1, model: 'gpt-x', stream_format: opId === 'streamSpeech' ? 'sse' : ABSENT })
          return
        }
        const plain = runOp(s, opId, { globalFetch: true, options: () => ({ model: 'gpt-x' }), ...(listing(name) ? { turns: [{}] } : {}) })
        s.must('the call succeeds', !!R.ok && !R.err, 'it may fail')
        const same = (what, a, b) => s.must(`${what} is that of the upstream payload`, a === b, `${String(a).slice(0, 150)} instead of ${String(b).slice(0, 150)}`)
        if (o.promises || o.streams) {
          const [x, y] = [outputs(R), outputs(plain)]
          for (const p of o.promises ?? []) same(`promise ${p}`, treeKey(x.promises[p]?.ok ?? C(0)), treeKey(y.promises[p]?.ok ?? C(1)))
          for (const p of o.streams ?? []) same(`stream ${p}`, x.streams[p].items.map(treeKey).join(), y.streams[p].items.map(treeKey).join())
        }
        else if (listing(name) && opId === 'listModels') {
          s.is('the models are those listed upstream', R.A.tree(R.ok.st, R.ok.v), [{ id: T('m0') }, { id: T('m1') }])
        }
        else if (listing(name)) {
          s.is('the model is the one sent upstream', R.A.tree(R.ok.st, R.ok.v), { id: T('m0') })
        }
        else {
          same('the result', noMsg(R.ok && treeKey(R.A.tree(R.ok.st, R.ok.v))), noMsg(treeKey(plain.A.tree(plain.ok.st, plain.ok.v))))
        }
      })
      if (name === 'createPlayer2') {
        for (const [given, want] of [[{ speed: NUM('speed'), responseFormat: 'opus' }, { speed: NUM('speed'), audio_format: 'opus' }], [{ speed: 0.5, responseFormat: 'wav', instructions: T('ins') }, { speed: 0.5, audio_format: 'wav', instructions: T('ins') }], [{ voice: undefined }, { speed: 1, audio_format: opId === 'streamSpeech' ? ANY : ABSENT, voice_ids: [] }]]) {
          rep.scenario(`${label}: body for ${JSON.stringify(Object.keys(given))} ${given.responseFormat ?? ''}`, (s) => {
            const R = viaProvider(s, file, name, call, m, opId, { options: () => given, respond: (I, n, q, node, A) => ({ ok: true, body: A.sse(I, []), json: A.val({ data: T('base64') }) }) })
            s.is('the translated body', R.requests[0]?.json, { text: T('in'), voice_ids: [T('voice')], play_in_app: false, model: 'gpt-x', stream_format: opId === 'streamSpeech' ? 'sse' : ABSENT, ...want })
          })
        }
      }
      if (name === 'createPlayer2' && opId === 'generateSpeech') {
        rep.scenario(`${label}: the audio is what came back`, (s) => {
          const R = viaProvider(s, file, name, call, m, opId, { respond: (I, n, q, node, A) => ({ ok: true, body: A.sse(I, []), json: A.val({ data: T('base64') }) }) })
          const t = R.ok && !R.err ? R.A.tree(R.ok.st, R.ok.v) : null
          s.must('the result holds the decoded data', !!t && treeKey(t).includes('s:base64'), t ? treeKey(t).slice(0, 300) : 'the call may fail')
        })
      }
    }
  }
}
const noMsg = x => x
void [N, op, S, NUM, match]
