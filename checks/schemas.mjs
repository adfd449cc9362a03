// Schema conversion and validation: C34
import { ABSENT, errorOf, match, oneOf, open } from '../lib/check.mjs'
import { textFrom } from '../lib/chat.mjs'
import { OBJ, T } from '../lib/ops.mjs'
import { C, rec, sym, treeKey } from '../lib/harness.mjs'

const SPEC = 'xsschema'
const VENDORS = {
  arktype: { own: 'toJsonSchema', target: { target: 'draft-07' } },
  effect: { pkg: ['effect'], deps: ['effect'], fn: ['JSONSchema', 'make'], options: oneOf(ABSENT, open({ target: 'jsonSchema7' }), open({ target: ABSENT })) },
  sury: { pkg: ['sury'], deps: ['sury'], fn: ['toJSONSchema'], options: ABSENT },
  valibot: { pkg: ['@valibot/to-json-schema'], deps: ['@valibot/to-json-schema'], fn: ['toJsonSchema'], options: oneOf(ABSENT, open({ target: 'draft-07' }), open({ target: ABSENT })) },
  'zod 4': { vendor: 'zod', pkg: ['zod/v4/core', 'zod/v4', 'zod', 'zod/v4-mini', 'zod/mini'], deps: ['zod'], fn: ['toJSONSchema'], mark: { _zod: OBJ('_zod') }, options: oneOf(open({ target: 'draft-7' }), open({ target: 'draft-07' })) },
  'zod 3': { vendor: 'zod', pkg: ['zod-to-json-schema'], deps: ['zod-to-json-schema'], fn: ['zodToJsonSchema', 'default'], mark: { _def: OBJ('_def') }, options: oneOf(ABSENT, open({ target: 'jsonSchema7' }), open({ target: ABSENT, name: ABSENT })) },
}
const EXTERNAL = [...new Set(Object.values(VENDORS).flatMap(v => v.pkg ?? []))]
const JSON_OUT = OBJ('converted')
/** module namespaces of the vendors: every converter records its calls */
const modules = (A, missing = []) => (I, spec) => {
  if (!EXTERNAL.includes(spec))
    return undefined
  if (missing.includes(spec))
    return I.rejectedPromise(A.error('Error', `missing:${spec}`), `missing:${spec}:${I.ctx}`)
  const conv = name => A.fn(`convert:${spec}:${name}`, sym(`converted:${spec}`, { type: 'object', nonNull: true, plain: true }))
  const names = { 'effect': ['JSONSchema.make'], 'sury': ['toJSONSchema'], '@valibot/to-json-schema': ['toJsonSchema'], 'zod-to-json-schema': ['zodToJsonSchema', 'default'] }[spec] ?? ['toJSONSchema']
  const ns = {}
  for (const n of names) {
    const [a, b] = n.split('.')
    ns[a] = b ? A.val({ [b]: conv(b) }, {}, `ns:${spec}:${a}`) : conv(a)
  }
  return I.resolvedPromise(A.val(ns, {}, `ns:${spec}`), `mod:${spec}`)
}
const calls = (A, st, prefix) => {
  const l = A.logOf(st)
  return l.items.flatMap(as => as.filter(a => a.label.startsWith(prefix)).map(a => ({ label: a.label, args: a.tree.items, sure: as.length === 1 })))
}
const setup = (s, missing) => {
  let A
  A = s.analysis({ dynamicImport: (I, spec, node) => modules(A, missing)(I, spec, node) })
  return A
}

export const C34 = (rep) => {
  const run = (A, schema, name = 'toJsonSchema', ...rest) => A.runAwait(A.export(SPEC, name), [schema, ...rest])

  // ---- own capability comes first, whatever the vendor
  for (const vendor of ['zod', 'valibot', 'arktype', 'effect', 'sury', 'somebody-else']) {
    rep.scenario(`own capability of ${vendor}`, (s) => {
      const A = setup(s)
      const schema = A.val({ 'toJsonSchema': A.fn('convert:method', OBJ('other')), '_zod': OBJ('_zod'), '~standard': { version: 1, vendor, validate: A.fn('validate'), jsonSchema: { input: A.fn('convert:input', JSON_OUT), output: A.fn('convert:output', OBJ('outputSide')) } } })
      const r = run(A, schema)
      s.must('the conversion cannot fail', !r.err && !!r.ok, 'it may reject')
      if (!r.ok)
        return
      s.is('the result is the converted input side', A.tree(r.ok.st, r.ok.v), JSON_OUT)
      const got = calls(A, r.ok.st, 'cb:convert:')
      s.must('only its own converter runs, once', got.length === 1 && got[0].label === 'cb:convert:input' && got[0].sure, got.map(g => g.label).join() || 'none')
      s.is('it is asked for draft 07', got[0]?.args[0], open({ target: 'draft-07' }))
    })
  }
  rep.scenario('own capability that throws', (s) => {
    const A = setup(s)
    const boom = A.error('Error', 'boom')
    const schema = A.val({ '~standard': { version: 1, vendor: 'zod', validate: A.fn('validate'), jsonSchema: { input: A.fn('convert:input', undefined, { throws: boom }), output: A.fn('convert:output') } } })
    const r = run(A, schema)
    s.must('it rejects', !r.ok && !!r.err, 'it may resolve')
    s.must('with the error of the capability', r.err?.v?.id === boom.id, r.err ? treeKey(A.tree(r.err.st, r.err.v)) : 'no error')
  })

  // ---- vendors
  const vendorSchema = (A, v, name, tag = 'schema') => {
    const own = v.own ? { [v.own]: A.fn(`convert:own:${v.own}`, sym('converted:own', { type: 'object', nonNull: true, plain: true })) } : {}
    return A.val({ ...own, ...(v.mark ?? {}), '~standard': { version: 1, vendor: v.vendor ?? name, validate: A.fn('validate') } }, {}, tag)
  }
  for (const [name, v] of Object.entries(VENDORS)) {
    const others = EXTERNAL.filter(p => !(v.pkg ?? []).includes(p))
    for (const [how, missing] of [['everything installed', []], ['nothing else installed', others], ['after schemas of the other vendors', []]]) {
      rep.scenario(`vendor ${name}: ${how}`, (s) => {
        const A = setup(s, missing)
        for (const [other, w] of how.startsWith('after') ? [...Object.entries(VENDORS).filter(([k]) => k !== name), ['nobody', {}], [name, v]] : []) {
          const r = run(A, vendorSchema(A, w, other, `schema:${other}`))
          A.I.st = (r.ok ?? r.err).st
          A.I.st.set(A.I.logId, rec('array', { items: [], x: { log: true } }))
        }
        const schema = vendorSchema(A, v, name)
        const r = run(A, schema)
        s.must('the conversion cannot fail', !!r.ok && !r.err, r.err ? `it may reject with ${treeKey(A.tree(r.err.st, r.err.v))}` : 'it does not return')
        if (!r.ok)
          return
        const got = calls(A, r.ok.st, 'cb:convert:')
        const want = v.own ? [`cb:convert:own:${v.own}`] : v.pkg.flatMap(p => [v.fn.at(-1), ...v.fn].map(f => `cb:convert:${p}:${f}`))
        if (!s.must('the converter of the vendor runs, once', got.length === 1 && got[0].sure && want.includes(got[0].label), got.map(g => g.label).join() || 'none'))
          return
        const spec = got[0].label.split(':').slice(2, -1).join(':')
        s.is('its result is returned', A.tree(r.ok.st, r.ok.v), sym(`converted:${v.own ? 'own' : spec}`))
        if (v.own) {
          s.is('it is asked for draft 07', got[0].args[0], open(v.target))
        }
        else {
          s.must('it is given the schema', got[0].args[0]?.id === schema.id, treeKey(got[0].args[0]))
          s.is('it is asked for draft 07', got[0].args[1], v.options)
        }
      })
    }
    if (v.pkg) {
      for (const [how, missing] of [['its dependency is missing', v.pkg], ['nothing installed', EXTERNAL]]) {
        rep.scenario(`vendor ${name}: ${how}`, (s) => {
          const A = setup(s, missing)
          const r = run(A, vendorSchema(A, v, name))
          s.must('the conversion rejects', !r.ok && !!r.err, 'it may resolve')
          if (r.err)
            s.is('the error names the dependency', A.tree(r.err.st, r.err.v), open({ message: textFrom('Missing', ...v.deps) }))
        })
      }
    }
    rep.scenario(`vendor ${name}: the converter throws`, (s) => {
      let A
      A = s.analysis({ dynamicImport: (I, spec) => {
        if (!EXTERNAL.includes(spec))
          return undefined
        const f = A.fn(`convert:${spec}`, undefined, { throws: sym('convErr', { nonNull: true, truthy: true }) })
        return I.resolvedPromise(A.val({ JSONSchema: { make: f }, toJSONSchema: f, toJsonSchema: f, zodToJsonSchema: f, default: f }, {}, `ns:${spec}`), `mod:${spec}`)
      } })
      const schema = A.val({ ...(v.own ? { [v.own]: A.fn('own', undefined, { throws: sym('convErr', { nonNull: true, truthy: true }) }) } : {}), ...(v.mark ?? {}), '~standard': { version: 1, vendor: v.vendor ?? name, validate: A.fn('validate') } })
      const r = run(A, schema)
      s.must('the conversion rejects', !r.ok && !!r.err, 'it may resolve')
      if (r.err)
        s.is('with the error of the converter', A.tree(r.err.st, r.err.v), sym('convErr'))
    })
  }
  rep.scenario('both zod versions side by side', (s) => {
    const A = setup(s)
    for (const name of ['zod 4', 'zod 3', 'zod 4']) {
      const r = run(A, vendorSchema(A, VENDORS[name], name))
      if (!s.must('conversion succeeds', !!r.ok && !r.err))
        return
      A.I.st = r.ok.st
      const v = r.ok && A.tree(r.ok.st, r.ok.v)
      s.must(`${name} schemas go to their own converter`, v?.kind === 'sym' && VENDORS[name].pkg.some(p => v.v.id === `converted:${p}`), treeKey(v))
    }
  })
  for (const [how, vendor, text] of [['another library', C('somebody-else'), 'somebody-else'], ['any other name', T('vendorName', { notIn: ['arktype', 'effect', 'sury', 'valibot', 'zod'] }), 'vendorName'], ['a name inherited by objects', C('constructor'), 'constructor'], ['an upper-case name', C('ZOD'), 'ZOD'], ['an empty name', C(''), '""']]) {
    rep.scenario(`unknown vendor: ${how}`, (s) => {
      const A = setup(s)
      const r = run(A, A.val({ '~standard': { version: 1, vendor, validate: A.fn('validate') } }))
      const err = r.err && (r.ok ? null : r.err)
      if (vendor.t === 'sym') {
        // some values of the symbol are known vendors: look at the rejecting part
        s.must('the conversion may reject', !!r.err)
        if (r.err) {
          const t = A.tree(r.err.st, r.err.v)
          const list = t.kind === 'union' ? t.alts : [t]
          s.must('an error names the vendor', list.some(x => match(x.props?.message?.v, textFrom(text)).ok), treeKey(t))
        }
        return
      }
      s.must('the conversion rejects', !!err, 'it may resolve')
      if (err)
        s.is('the error names the vendor', A.tree(err.st, err.v), errorOf('Error', { message: textFrom(text) }))
    })
  }

  // ---- validation
  const VALUE = OBJ('validated')
  const results = {
    'a value': { ret: A => A.val({ value: VALUE }), ok: VALUE },
    'a value, issues undefined': { ret: A => A.val({ value: VALUE, issues: undefined }), ok: VALUE },
    'a falsy value': { ret: A => A.val({ value: 0 }), ok: 0 },
    'an undefined value': { ret: A => A.val({ value: undefined }), ok: undefined },
    'issues': { ret: A => A.val({ issues: [{ message: T('issue'), path: ['a'] }] }), fail: ['issue'] },
    'issues next to a value': { ret: A => A.val({ value: VALUE, issues: [{ message: T('issue') }, { message: T('second') }] }), fail: ['issue', 'second'] },
    'no issue listed': { ret: A => A.val({ issues: [] }), fail: [] },
  }
  for (const [name, e] of Object.entries(results)) {
    for (const async of [false, true]) {
      rep.scenario(`${async ? 'asynchronous' : 'synchronous'} validator: ${name}`, (s) => {
        const A = setup(s)
        const schema = A.val({ '~standard': { version: 1, vendor: 'zod', validate: A.fn('validate', () => e.ret(A), { async }) } })
        const r = run(A, schema, 'validate', OBJ('input'))
        if (e.fail) {
          s.must('validation rejects', !r.ok && !!r.err, 'it may resolve')
          if (r.err)
            s.is('with the issues', A.tree(r.err.st, r.err.v), open({ message: textFrom(...e.fail) }))
        }
        else {
          s.must('validation cannot fail', !!r.ok && !r.err, 'it may reject')
          if (r.ok)
            s.is('it returns the validated value', A.tree(r.ok.st, r.ok.v), e.ok)
        }
        const st = r.ok?.st ?? r.err?.st
        const got = st ? calls(A, st, 'cb:validate') : []
        s.must('the validator runs once', got.length === 1 && got[0].sure, `${got.length} calls`)
        s.is('on the input', got[0]?.args[0], OBJ('input'))
      })
    }
  }
  for (const [how, extra] of [['throws', { throws: sym('valErr', { nonNull: true, truthy: true }) }], ['rejects', { rejects: sym('valErr', { nonNull: true, truthy: true }) }]]) {
    rep.scenario(`validator that ${how}`, (s) => {
      const A = setup(s)
      const r = run(A, A.val({ '~standard': { version: 1, vendor: 'zod', validate: A.fn('validate', undefined, extra) } }), 'validate', OBJ('input'))
      s.must('validation rejects', !r.ok && !!r.err, 'it may resolve')
      if (r.err)
        s.is('with that error', A.tree(r.err.st, r.err.v), sym('valErr'))
    })
  }
}

