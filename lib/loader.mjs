// Source loading and module resolution over /repo's working tree (nothing is executed).
import fs from 'node:fs'
import { createRequire } from 'node:module'
import path from 'node:path'

const require = createRequire(import.meta.url)
const tsPath = ['/opt/veriftools/node/node_modules/typescript', '/repo/node_modules/typescript'].find(p => fs.existsSync(p))
export const ts = require(tsPath)

export const REPO = process.env.VERIF_REPO ?? '/repo'

const files = new Map()
let nodeSeq = 0
export const nodeId = n => (n.__id ??= ++nodeSeq)
export const loc = (n) => {
  const sf = n.getSourceFile()
  const { line, character } = sf.getLineAndCharacterOfPosition(n.getStart(sf))
  return `${path.relative(REPO, sf.fileName)}:${line + 1}:${character + 1}`
}

export const parseFile = (file) => {
  let sf = files.get(file)
  if (!sf) {
    const text = fs.readFileSync(file, 'utf8')
    sf = file.endsWith('.json')
      ? { fileName: file, json: JSON.parse(text) }
      : ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true, file.endsWith('.js') || file.endsWith('.mjs') ? ts.ScriptKind.JS : ts.ScriptKind.TS)
    files.set(file, sf)
  }
  return sf
}
export const parsedFiles = () => [...files.keys()]

let pkgs
/** workspace packages: name -> { dir, pkg, entries: {'.': file, './create': file} } */
export const packages = () => {
  if (pkgs)
    return pkgs
  pkgs = new Map()
  for (const group of ['packages', 'packages-top', 'packages-ext']) {
    const g = path.join(REPO, group)
    if (!fs.existsSync(g))
      continue
    for (const d of fs.readdirSync(g).sort()) {
      const dir = path.join(g, d)
      const pj = path.join(dir, 'package.json')
      if (!fs.existsSync(pj))
        continue
      const pkg = JSON.parse(fs.readFileSync(pj, 'utf8'))
      const entries = {}
      const exp = pkg.exports
      const pick = e => (typeof e === 'string' ? e : e && (e.default ?? e.import ?? e.types))
      if (typeof exp === 'string') {
        entries['.'] = path.join(dir, exp)
      }
      else if (exp && typeof exp === 'object') {
        for (const [k, e] of Object.entries(exp)) {
          const t = pick(e)
          if (t && !t.endsWith('package.json'))
            entries[k] = path.join(dir, t)
        }
      }
      pkgs.set(pkg.name, { name: pkg.name, dir, pkg, entries, group })
    }
  }
  return pkgs
}

const tryFile = (p) => {
  for (const c of [p, `${p}.ts`, `${p}.mts`, `${p}.js`, path.join(p, 'index.ts'), path.join(p, 'index.js')]) {
    if (fs.existsSync(c) && fs.statSync(c).isFile())
      return c
  }
  if (p.endsWith('.js') && fs.existsSync(`${p.slice(0, -3)}.ts`))
    return `${p.slice(0, -3)}.ts`
}

/** resolve an import: { file } for analysable source, { external: name } otherwise */
export const resolve = (spec, from) => {
  if (spec.startsWith('.')) {
    const f = tryFile(path.resolve(path.dirname(from), spec))
    return f ? { file: f } : { external: spec }
  }
  for (const [name, p] of packages()) {
    if (spec === name || spec.startsWith(`${name}/`)) {
      const sub = spec === name ? '.' : `.${spec.slice(name.length)}`
      if (p.entries[sub])
        return { file: p.entries[sub] }
    }
  }
  // the trampoline/sleep helpers are tiny dependency functions: analyse them from source too
  if (spec.startsWith('@moeru/std/')) {
    const sub = spec.slice('@moeru/std/'.length)
    const store = path.join(REPO, 'node_modules/.pnpm')
    const dir = fs.existsSync(store) ? fs.readdirSync(store).find(d => d.startsWith('@moeru+std@')) : undefined
    if (dir) {
      const f = path.join(store, dir, 'node_modules/@moeru/std/dist', sub, 'index.js')
      if (fs.existsSync(f))
        return { file: f }
    }
  }
  return { external: spec }
}
