// Obligations, structural matching of abstract observables, evidence and verdicts.
import { createHash } from 'node:crypto'
import fs from 'node:fs'
import path from 'node:path'
import { fileURLToPath } from 'node:url'
import { Analysis, treeKey } from './harness.mjs'
import { loc } from './loader.mjs'
import { clock, rec } from './values.mjs'

export const VERIF = path.dirname(path.dirname(fileURLToPath(import.meta.url)))

// ---------------------------------------------------------------- patterns
/** anything, even absent */
export const ANY = { $p: 'any' }
/** present and not undefined */
export const DEFINED = { $p: 'defined' }
/** absent or undefined */
export const ABSENT = { $p: 'absent' }
export const FN = { $p: 'fn' }
export const pred = (what, f) => ({ $p: 'pred', what, f })
export const oneOf = (...ps) => ({ $p: 'oneOf', ps })
/** object with at least these properties */
export const open = o => ({ $p: 'open', o })
/** JSON text of a matching value */
export const jsonOf = p => ({ $p: 'json', p })
/** error instance of that class (name) with at least these properties */
export const errorOf = (cls, props = {}) => ({ $p: 'error', cls, props })
export const star = (elem, ...items) => ({ $p: 'star', elem, items })

const imprecise = (t) => {
  if (t == null)
    return false
  switch (t.kind) {
    case 'sym': return !!(t.v.meta?.wide || t.v.meta?.opaque || t.v.meta?.accum)
    case 'op': return (t.v.args ?? []).some(a => imprecise({ kind: a.t === 'op' ? 'op' : a.t === 'sym' ? 'sym' : 'const', v: a })) || (t.tree ? imprecise(t.tree) : false)
    case 'union': return t.alts.some(imprecise)
    default:
      return (t.items ?? []).some(imprecise) || (t.star ? imprecise(t.star) : false) || Object.values(t.props ?? {}).some(e => imprecise(e.v))
  }
}
export { imprecise }

const short = (t) => {
  const k = typeof t === 'string' ? t : t == null ? 'nothing' : t.kind ? treeKey(t) : t.k ?? JSON.stringify(t)
  return k.length > 300 ? `${k.slice(0, 297)}...` : k
}
const showPat = (p) => {
  if (p === undefined)
    return 'undefined'
  if (p && p.$p)
    return p.$p === 'pred' ? p.what : p.$p === 'error' ? `${p.cls} error` : p.$p === 'oneOf' ? p.ps.map(showPat).join(' or ') : p.$p === 'json' ? `json(${showPat(p.p)})` : p.$p
  if (p && p.t && p.k)
    return p.k
  if (Array.isArray(p))
    return `[${p.map(showPat).join(',')}]`
  if (p && typeof p === 'object')
    return `{${Object.entries(p).map(([k, v]) => `${k}:${showPat(v)}`).join(',')}}`
  return typeof p === 'bigint' ? `${p}n` : JSON.stringify(p)
}

const ok = { ok: true }
const bad = (at, t, p) => ({ ok: false, why: `${at || 'value'}: found ${short(t)}, expected ${showPat(p).slice(0, 300)}`, imprecise: imprecise(t) })

/** does every concretisation of the snapshot match the pattern? */
export const match = (t, p, at = '') => {
  if (p && p.$p === 'any')
    return ok
  if (t && t.kind === 'union') {
    let first = null
    for (const a of t.alts) {
      const r = match(a, p, at)
      if (!r.ok)
        first ??= { ...r, why: `${r.why} (one of ${t.alts.length} alternatives)` }
    }
    return first ?? ok
  }
  if (p && p.$p) {
    switch (p.$p) {
      case 'defined': return t && !(t.kind === 'const' && t.v === undefined) ? ok : bad(at, t, p)
      case 'absent': return !t || (t.kind === 'const' && t.v === undefined) ? ok : bad(at, t, p)
      case 'fn': return t?.kind === 'fn' ? ok : bad(at, t, p)
      case 'pred': return p.f(t) ? ok : bad(at, t, p)
      case 'oneOf': {
        let r
        for (const q of p.ps) {
          r = match(t, q, at)
          if (r.ok)
            return ok
        }
        return p.ps.length === 1 ? r : bad(at, t, p)
      }
      case 'open': return matchObj(t, p.o, at, true)
      case 'json':
        if (t?.kind === 'op' && t.v.op === 'json')
          return match(t.tree, p.p, `${at}(json)`)
        if (t?.kind === 'const' && typeof t.v === 'string') {
          try {
            return match(fromPlain(JSON.parse(t.v)), p.p, `${at}(json)`)
          }
          catch {}
        }
        return bad(at, t, p)
      case 'error': {
        if (t?.kind !== 'error' || t.cls !== p.cls)
          return bad(at, t, p)
        for (const [k, q] of Object.entries(p.props)) {
          const r = match(t.props[k]?.v, q, `${at}.${k}`)
          if (!r.ok)
            return r
        }
        return ok
      }
      case 'star': {
        if (t?.kind !== 'array')
          return bad(at, t, p)
        for (const [i, x] of t.items.entries()) {
          const r = match(x, i < p.items.length ? p.items[i] : p.elem, `${at}[${i}]`)
          if (!r.ok)
            return r
        }
        return t.star ? match(t.star, p.elem, `${at}[*]`) : ok
      }
      default: throw new Error(`pattern ${p.$p}`)
    }
  }
  if (p && p.t && p.k) {
    if (t == null)
      return p.t === 'const' && p.v === undefined ? ok : bad(at, t, p)
    if (p.t === 'const')
      return t.kind === 'const' && Object.is(t.v, p.v) ? ok : bad(at, t, p)
    if ((t.kind === 'sym' || t.kind === 'op' || t.kind === 'fn') && t.v.k === p.k)
      return ok
    if (p.t === 'ref' && t.id === p.id)
      return ok
    return bad(at, t, p)
  }
  if (p === null || typeof p !== 'object') {
    if (t == null)
      return p === undefined ? ok : bad(at, t, p)
    return t.kind === 'const' && Object.is(t.v, p) ? ok : bad(at, t, p)
  }
  if (Array.isArray(p)) {
    if (t?.kind !== 'array')
      return bad(at, t, p)
    if (t.items.length !== p.length || t.star)
      return { ...bad(at, t, p), why: `${at || 'value'}: found ${t.items.length}${t.star ? '+ (unbounded)' : ''} items ${short(t)}, expected ${p.length}: ${showPat(p).slice(0, 300)}` }
    for (const [i, q] of p.entries()) {
      const r = match(t.items[i], q, `${at}[${i}]`)
      if (!r.ok)
        return r
    }
    return ok
  }
  return matchObj(t, p, at, false)
}
const matchObj = (t, p, at, isOpen) => {
  if (!t || t.kind === 'const' || t.kind === 'sym' || t.kind === 'op' || t.kind === 'array' || !t.props)
    return bad(at, t, p)
  for (const [k, q] of Object.entries(p)) {
    const e = t.props[k]
    if (!e && t.rest?.length)
      return { ...bad(`${at}.${k}`, t, q), imprecise: true }
    const r = match(e?.v, q, `${at}.${k}`)
    if (!r.ok)
      return r
    if (e?.may) {
      const r2 = match(undefined, q, `${at}.${k}`)
      if (!r2.ok)
        return { ok: false, why: `${at}.${k}: may be absent, expected ${showPat(q)}` }
    }
  }
  if (!isOpen) {
    for (const [k, e] of Object.entries(t.props)) {
      if (k in p)
        continue
      if (e.v.kind === 'const' && e.v.v === undefined)
        continue
      return { ok: false, why: `${at}.${k}: unexpected property ${short(e.v)}`, imprecise: imprecise(e.v) }
    }
    if (t.rest?.length)
      return { ok: false, why: `${at}: unexpected extra properties of ${t.rest.map(s => s.id)}`, imprecise: t.rest.some(s => s.meta?.opaque) }
    if (t.star)
      return { ok: false, why: `${at}: unexpected dynamic property ${short(t.star)}`, imprecise: imprecise(t.star) }
  }
  return ok
}
export const fromPlain = (v) => {
  if (Array.isArray(v))
    return { kind: 'array', items: v.map(fromPlain), star: null }
  if (v && typeof v === 'object')
    return { kind: 'object', props: Object.fromEntries(Object.entries(v).map(([k, x]) => [k, { v: fromPlain(x), may: false }])), rest: [] }
  return { kind: 'const', v }
}

// ---------------------------------------------------------------- report
/** seconds: whole check, one scenario, and the point from which a found violation ends the check */
const LIMITS = { quick: { total: 480, each: 60, found: 90 }, thorough: { total: 720, each: 200, found: 400 } }
export class Undecided extends Error {}
export class Missing extends Error {}

export class Report {
  constructor(id, tier) {
    this.id = id
    this.tier = tier
    this.obligations = []
    this.functions = new Set()
    this.sites = new Set()
    this.scenarios = []
    this.noted = new Map()
    this.extra = {}
    this.again = []
    this.t0 = Number(process.env.VERIF_T0 ?? Date.now())
    this.skip = new Set(JSON.parse(process.env.VERIF_SKIP ?? '[]'))
  }

  /** an analysis used only to enumerate what there is to check */
  probe() {
    clock.deadline = Date.now() + 60000
    return new Analysis({})
  }

  /** run one scenario: body(S) states obligations through S */
  scenario(name, body, harness = {}, other = null) {
    const spent = (Date.now() - this.t0) / 1000
    const lim = LIMITS[this.tier] ?? LIMITS.quick
    if (spent > lim.total || (spent > lim.found && this.obligations.some(o => o.verdict === 'violated'))) {
      this.obligations.push({ scenario: name, rule: 'analysed within the time limit', verdict: 'undecided', why: `not analysed after ${spent.toFixed(0)} s` })
      return
    }
    if (this.skip.has(name)) {
      this.obligations.push({ scenario: name, rule: 'analysable', verdict: 'undecided', why: 'the analysis of this scenario ran out of resources' })
      return
    }
    if (process.env.VERIF_PROGRESS)
      fs.writeFileSync(process.env.VERIF_PROGRESS, name)
    clock.deadline = Date.now() + Math.min(lim.each, lim.total + 20 - spent) * 1000
    const s = new Scenario(this, name, / many /.test(name) ? { unrollLimit: 400, ...harness } : harness)
    s.other = other
    try {
      if (other === 'twice') {
        body(s)
        s.obs.length = 0
        s.reuse = s.analyses
        s.analyses = []
      }
      body(s)
      if (s.obs.length === 0)
        s.obs.push({ rule: 'scenario states an obligation', verdict: 'undecided', why: 'no obligation was reached' })
    }
    catch (e) {
      if (e instanceof Missing || /^anchor missing/.test(e.message))
        s.obs.push({ rule: 'anchor present', verdict: 'violated', why: e.message })
      else s.obs.push({ rule: 'analysable', verdict: 'undecided', why: e instanceof Undecided ? e.message : `${e.message} ${(e.stack ?? '').split('\n').slice(1, 4).join(' ')}` })
    }
    // a mismatch in a run that met constructs outside the analysed subset is not a verdict
    const notes = s.notes()
    if (notes.length) {
      this.noted.set(name, notes)
      for (const o of s.obs) {
        if (o.verdict === 'violated' && !o.syntactic && o.rule !== 'anchor present') {
          o.verdict = 'undecided'
          o.why = `${o.why} [outside the analysed subset: ${notes.slice(0, 3).join('; ')}]`
        }
      }
    }
    for (const o of s.obs) this.obligations.push({ scenario: name, ...o })
    for (const a of s.analyses) {
      for (const f of a.I.fnsSeen) this.functions.add(loc(f))
      for (const c of a.I.callSites) this.sites.add(loc(c))
    }
    this.scenarios.push(name)
    if (!other && s.analyses.length && s.obs.every(o => o.verdict === 'holds'))
      this.again.push({ name, body, harness, ops: s.ranOps })
  }

  /**
   * scenarios that run an operation, once more: after another run of that operation, and around one.
   * Thorough: all of them; quick: an even selection for every operation.
   */
  rerun() {
    const groups = new Map()
    for (const x of this.again) {
      const g = x.name.split(':')[0]
      groups.set(g, [...(groups.get(g) ?? []), x])
    }
    const max = this.tier === 'thorough' ? Infinity : Math.max(8, Math.ceil(60 / Math.max(1, groups.size)))
    const modes = [['before', 'after another run'], ['same', 'after another run on the same connection'], ['meanwhile', 'another run meanwhile'], ['twice', 'once more']]
    modes.forEach(([other, text], k) => {
      for (const all of groups.values()) {
        const l = all.filter(x => !!x.ops === (other !== 'twice'))
        const n = Math.min(l.length, max)
        for (let i = 0; i < n; i++) {
          const { name, body, harness } = l[Math.floor((i + k / 3) * l.length / n) % l.length]
          this.scenario(`${name}, ${text}`, body, harness, other)
        }
      }
    })
  }

  finish() {
    const known = loadKnown().filter(k => k.property === this.id && !k.fixed)
    const bads = this.obligations.filter(o => o.verdict === 'violated')
    const fresh = []
    const listed = []
    for (const b of bads) {
      const k = known.find(k => k.scenario === b.scenario && k.rule === b.rule && (!k.contains || b.why.includes(k.contains)))
      if (k)
        listed.push({ k, b })
      else fresh.push(b)
    }
    const und = this.obligations.filter(o => o.verdict === 'undecided')
    const held = this.obligations.filter(o => o.verdict === 'holds')
    const rules = {}
    for (const o of this.obligations) rules[o.rule] = (rules[o.rule] ?? 0) + 1
    const ev = {
      property: this.id,
      tier: this.tier,
      seed: Number(process.env.VERIF_SEED ?? 1),
      level: 'other',
      coverage: {
        explanation: 'Static abstract interpretation of the current source: each scenario is an abstract precondition (symbolic options and responses); each obligation is a rule checked on every abstract outcome. Nothing from /repo is executed.',
        scenarios: this.scenarios.length,
        obligations: this.obligations.length,
        discharged: held.length,
        undecided: und.length,
        functions_analysed: this.functions.size,
        call_sites_analysed: this.sites.size,
        rules,
        ...this.extra,
        undecided_list: und.slice(0, 20).map(o => `${o.scenario} :: ${o.rule} :: ${o.why}`.slice(0, 400)),
        samples: held.slice(0, 6).map(o => `${o.scenario} :: ${o.rule}`),
        functions: [...this.functions].sort().slice(0, 200),
      },
      assumptions: ['JavaScript and web-platform built-ins behave as the transfer functions in lib/natives.mjs describe', 'user callbacks follow their declared types unless the scenario says they throw'],
      wall_s: (Date.now() - this.t0) / 1000,
      violations: fresh.length,
    }
    fs.mkdirSync(path.join(VERIF, 'evidence', 'replay'), { recursive: true })
    fs.writeFileSync(path.join(VERIF, 'evidence', `${this.id}.json`), `${JSON.stringify(ev, null, 1)}\n`)
    for (const { k } of new Map(listed.map(l => [l.k, l])).values())
      console.log(`KNOWN-FINDING: property=${this.id} ${k.what}`)
    fresh.forEach((b) => {
      const h = createHash('sha1').update(`${b.scenario}|${b.rule}|${b.why}`).digest('hex').slice(0, 10)
      const file = path.join(VERIF, 'evidence', 'replay', `${this.id}-${h}.json`)
      fs.writeFileSync(file, `${JSON.stringify({ property: this.id, ...b, command: `node run.mjs ${this.id} --only '${b.scenario}'` }, null, 1)}\n`)
      console.log(`  ${b.scenario} :: ${b.rule}\n    ${b.why}${b.at ? `\n    at ${b.at}` : ''}`)
      console.log(`VIOLATION property=${this.id} replay=${file}`)
    })
    console.log(`${this.id}: ${this.scenarios.length} scenarios, ${this.obligations.length} obligations: ${held.length} hold, ${fresh.length} violated, ${listed.length} known, ${und.length} undecided; ${this.functions.size} functions, ${this.sites.size} call sites; ${ev.wall_s.toFixed(1)}s`)
    if (process.env.VERIF_NOTES)
      console.log(`NOTED ${this.noted.size} of ${this.scenarios.length} scenarios: ${[...new Set([...this.noted.values()].flat())].slice(0, 12).join('; ')}`)
    if (process.env.VERIF_DEBUG) {
      for (const o of und) console.log(`  UNDECIDED ${o.scenario} :: ${o.rule} :: ${o.why}`)
    }
    return fresh.length ? 1 : 0
  }
}

export const loadKnown = () => {
  const f = path.join(VERIF, 'known-findings.json')
  return fs.existsSync(f) ? JSON.parse(fs.readFileSync(f, 'utf8')) : []
}

export class Scenario {
  constructor(rep, name, harness) {
    this.rep = rep
    this.name = name
    this.harness = harness
    this.analyses = []
    this.obs = []
  }

  analysis(h = {}) {
    const old = this.reuse?.shift()
    if (old?.I.st) {
      // the same library once more: what happened before is forgotten, what it left behind is not
      const I = old.I
      I.st.set(I.logId, rec('array', { items: [], x: { log: true } }))
      I.st.counts.clear()
      I.events.length = 0
      this.reused = true
      this.analyses.push(old)
      return old
    }
    const a = new Analysis({ ...this.harness, ...h })
    this.analyses.push(a)
    return a
  }

  notes() {
    return this.analyses.flatMap(a => [...a.I.opaque.keys()])
  }

  add(rule, verdict, why, at) {
    this.obs.push({ rule, verdict, why, at })
    return verdict === 'holds'
  }

  /** boolean obligation */
  must(rule, cond, why = '', at) {
    return this.add(rule, cond ? 'holds' : 'violated', why, at)
  }

  /** structural obligation on a snapshot */
  is(rule, t, pattern, at) {
    const r = match(t, pattern)
    if (r.ok)
      return this.add(rule, 'holds')
    return this.add(rule, r.imprecise ? 'undecided' : 'violated', r.why, at)
  }

  syntactic(rule, cond, why = '', at) {
    this.obs.push({ rule, verdict: cond ? 'holds' : 'violated', why, at, syntactic: true })
    return cond
  }
}
