// The module graph: C27 web-standard runtimes only, C28 complete re-exports
import fs from 'node:fs'
import { builtinModules } from 'node:module'
import path from 'node:path'
import { loc, packages, parseFile, REPO, resolve, ts } from '../lib/loader.mjs'

const K = ts.SyntaxKind
const rel = f => path.relative(REPO, f)
const sources = (dir, out = []) => {
  for (const e of fs.existsSync(dir) ? fs.readdirSync(dir, { withFileTypes: true }) : []) {
    const p = path.join(dir, e.name)
    if (e.isDirectory()) {
      if (!['node_modules', 'dist', 'test', 'tests', '__tests__', '__snapshots__'].includes(e.name))
        sources(p, out)
    }
    else if (/\.(ts|mts|js|mjs|tsx)$/.test(e.name) && !/\.(test|spec)\.|\.d\.ts$/.test(e.name)) {
      out.push(p)
    }
  }
  return out
}

// ------------------------------------------------------------------ bindings
/** follow the exports of a module: name -> { file, name } of the declaration, or { ambiguous } */
const isType = s => ts.isInterfaceDeclaration(s) || ts.isTypeAliasDeclaration(s)
const modExports = new Map()
const exportedModifier = s => ts.canHaveModifiers(s) && ts.getModifiers(s)?.some(m => m.kind === K.ExportKeyword)
const boundNames = (n, out = []) => {
  if (ts.isIdentifier(n))
    out.push(n.text)
  else for (const e of n.elements) e.name && boundNames(e.name, out)
  return out
}
const localValues = (sf) => {
  const m = new Map()
  for (const s of sf.statements) {
    if (ts.isVariableStatement(s)) {
      for (const d of s.declarationList.declarations) {
        for (const n of boundNames(d.name)) m.set(n, { file: sf.fileName, name: n })
      }
    }
    else if ((ts.isFunctionDeclaration(s) || ts.isClassDeclaration(s) || ts.isEnumDeclaration(s)) && s.name) {
      m.set(s.name.text, { file: sf.fileName, name: s.name.text })
    }
    else if (ts.isImportDeclaration(s) && s.importClause && !s.importClause.isTypeOnly) {
      const spec = s.moduleSpecifier.text
      const c = s.importClause
      if (c.name)
        m.set(c.name.text, { import: spec, from: sf.fileName, name: 'default' })
      if (c.namedBindings && ts.isNamespaceImport(c.namedBindings))
        m.set(c.namedBindings.name.text, { file: `ns:${spec}`, name: '*' })
      else for (const e of c.namedBindings?.elements ?? []) !e.isTypeOnly && m.set(e.name.text, { import: spec, from: sf.fileName, name: (e.propertyName ?? e.name).text })
    }
  }
  return m
}
const follow = (b) => {
  if (!b?.import)
    return b
  const r = resolve(b.import, b.from)
  return r.file ? bindings(r.file).get(b.name) : { file: `ext:${b.import}`, name: b.name }
}
const bindings = (file, busy = new Set()) => {
  if (modExports.has(file))
    return modExports.get(file)
  if (busy.has(file))
    return new Map()
  const out = new Map()
  const next = new Set([...busy, file])
  const sf = parseFile(file)
  const locals = localValues(sf)
  const stars = []
  for (const s of sf.statements) {
    if (exportedModifier(s) && !isType(s)) {
      if (ts.isVariableStatement(s)) {
        for (const d of s.declarationList.declarations) {
          for (const n of boundNames(d.name)) out.set(n, { file, name: n })
        }
      }
      else if (s.name) {
        const dflt = ts.getModifiers(s).some(m => m.kind === K.DefaultKeyword)
        out.set(dflt ? 'default' : s.name.text, { file, name: s.name.text })
      }
    }
    else if (ts.isExportAssignment(s)) {
      out.set('default', { file, name: 'default' })
    }
    else if (ts.isExportDeclaration(s) && !s.isTypeOnly) {
      const spec = s.moduleSpecifier?.text
      const r = spec ? resolve(spec, file) : null
      if (s.exportClause && ts.isNamedExports(s.exportClause)) {
        for (const e of s.exportClause.elements) {
          if (e.isTypeOnly)
            continue
          const from = (e.propertyName ?? e.name).text
          const b = spec ? (r.file ? bindings(r.file, next).get(from) : { file: `ext:${spec}`, name: from }) : follow(locals.get(from))
          if (b)
            out.set(e.name.text, b)
        }
      }
      else if (s.exportClause && ts.isNamespaceExport(s.exportClause)) {
        out.set(s.exportClause.name.text, { file: `ns:${spec}`, name: '*' })
      }
      else {
        stars.push(r?.file ?? null)
      }
    }
  }
  const own = new Set(out.keys())
  for (const f of stars) {
    if (!f)
      continue
    for (const [n, b] of bindings(f, next)) {
      if (own.has(n) || n === 'default')
        continue
      const was = out.get(n)
      if (was && (was.file !== b.file || was.name !== b.name))
        out.set(n, { ambiguous: [was, b], file: was.file, name: was.name })
      else if (!was)
        out.set(n, b)
    }
  }
  if (busy.size === 0)
    modExports.set(file, out)
  return out
}
export { bindings }

// ------------------------------------------------------------------ C28
export const C28 = (rep) => {
  const pk = packages()
  const umbrella = pk.get('xsai')?.entries['.']
  const telemetry = pk.get('@xsai-ext/telemetry')?.entries['.']
  const same = (a, b) => a && b && a.file === b.file && a.name === b.name
  const at = b => (b ? `${rel(b.file)}#${b.name}` : 'nothing')
  const core = [...pk.values()].filter(p => p.group === 'packages' && p.pkg.private !== true)
  rep.extra.core_packages = core.map(p => p.name)
  rep.scenario('the packages are there', (s) => {
    s.syntactic('the umbrella package has an entry', !!umbrella && fs.existsSync(umbrella), 'packages-top/xsai')
    s.syntactic('the telemetry package has an entry', !!telemetry && fs.existsSync(telemetry), 'packages-ext/telemetry')
    s.syntactic('core packages exist', core.length >= 10, `${core.length} found`)
  })
  if (!umbrella || !telemetry)
    return
  const all = bindings(umbrella)
  for (const p of core) {
    rep.scenario(`umbrella: ${p.name}`, (s) => {
      const names = p.entries['.'] ? bindings(p.entries['.']) : new Map()
      s.syntactic('the package exports something', names.size > 0 || p.name === '@xsai/shared-chat', 'no value exported')
      for (const [n, b] of names) {
        const u = all.get(n)
        s.syntactic('no name is lost to a conflict inside the package', !b.ambiguous, `${n} of ${p.name}: ${(b.ambiguous ?? []).map(at)}`)
        s.syntactic('every public value is re-exported', !!u, `${n} of ${p.name} is missing from ${rel(umbrella)}`)
        if (u) {
          s.syntactic('no name is lost to a conflict', !u.ambiguous, `${n}: ${(u.ambiguous ?? []).map(at).join(' and ')}`)
          s.syntactic('it is the same thing', same(u, b), `${n}: ${at(u)} instead of ${at(b)}`)
        }
      }
    })
  }
  const traced = bindings(telemetry)
  const REPLACED = ['embed', 'embedMany', 'generateText', 'streamText']
  rep.scenario('telemetry', (s) => {
    for (const [n, b] of all) {
      const t = traced.get(n)
      s.syntactic('every public value is exported', !!t && !t.ambiguous, `${n} is ${t ? 'ambiguous' : 'missing'} in ${rel(telemetry)}`)
      if (!t)
        continue
      if (REPLACED.includes(n))
        s.syntactic('traced operations are its own', t.file.startsWith(path.join(REPO, 'packages-ext/telemetry') + path.sep), `${n} is ${at(t)}`)
      else s.syntactic('the rest is the same thing', same(t, b), `${n}: ${at(t)} instead of ${at(b)}`)
    }
    for (const n of REPLACED) s.syntactic('traced operations exist', traced.has(n), n)
  })
}

// ------------------------------------------------------------------ C27
const STANDARD = new Set(`
undefined NaN Infinity globalThis eval isFinite isNaN parseFloat parseInt decodeURI decodeURIComponent encodeURI encodeURIComponent escape unescape arguments
Object Function Boolean Symbol Error AggregateError EvalError RangeError ReferenceError SyntaxError TypeError URIError SuppressedError
Number BigInt Math Date String RegExp Array Int8Array Uint8Array Uint8ClampedArray Int16Array Uint16Array Int32Array Uint32Array BigInt64Array BigUint64Array Float16Array Float32Array Float64Array
Map Set WeakMap WeakSet ArrayBuffer SharedArrayBuffer DataView Atomics JSON WeakRef FinalizationRegistry Promise Proxy Reflect Iterator AsyncIterator Intl WebAssembly DisposableStack AsyncDisposableStack
AbortController AbortSignal Blob ByteLengthQueuingStrategy CompressionStream CountQueuingStrategy Crypto CryptoKey CustomEvent DecompressionStream DOMException Event EventTarget File FormData Headers
MessageChannel MessageEvent MessagePort Performance PerformanceEntry PerformanceMark PerformanceMeasure PerformanceObserver
ReadableByteStreamController ReadableStream ReadableStreamBYOBReader ReadableStreamBYOBRequest ReadableStreamDefaultController ReadableStreamDefaultReader Request Response SubtleCrypto TextDecoder TextDecoderStream TextEncoder TextEncoderStream TransformStream TransformStreamDefaultController URL URLPattern URLSearchParams WritableStream WritableStreamDefaultController WritableStreamDefaultWriter WebSocket BroadcastChannel
atob btoa clearInterval clearTimeout console crypto fetch navigator performance queueMicrotask setInterval setTimeout structuredClone`.trim().split(/\s+/))
/** identifiers used as values that nothing in the file declares */
const freeNames = (files) => {
  const options = { noLib: true, noResolve: true, types: [], allowJs: true, target: ts.ScriptTarget.Latest, module: ts.ModuleKind.ESNext }
  const host = { ...ts.createCompilerHost(options), getSourceFile: f => (fs.existsSync(f) ? parseFile(f) : undefined), writeFile() {} }
  const program = ts.createProgram(files, options, host)
  const checker = program.getTypeChecker()
  const out = new Map()
  for (const f of files) {
    const found = []
    const sf = program.getSourceFile(f)
    const guardedBy = (n, name) => {
      // typeof name decides whether this code runs
      for (let p = n.parent, c = n; p; c = p, p = p.parent) {
        const test = ts.isIfStatement(p) ? p.expression : ts.isConditionalExpression(p) ? p.condition : ts.isBinaryExpression(p) && [K.AmpersandAmpersandToken, K.BarBarToken].includes(p.operatorToken.kind) ? p.left : null
        if (test && test !== c && new RegExp(`typeof\\s+(globalThis\\.)?${name}\\b`).test(test.getText()))
          return true
      }
      return false
    }
    const go = (n) => {
      if (ts.isTypeNode(n) && !ts.isExpressionWithTypeArguments(n))
        return
      if (ts.isTypeParameterDeclaration(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || (ts.isImportDeclaration(n)) || (ts.isExportDeclaration(n)))
        return
      if (n.modifiers?.some(m => m.kind === K.DeclareKeyword))
        return
      if (ts.isHeritageClause(n) && n.token === K.ImplementsKeyword)
        return
      if (ts.isMetaProperty(n)) {
        if (n.keywordToken === K.ImportKeyword && !(ts.isPropertyAccessExpression(n.parent) && n.parent.name.text === 'url'))
          found.push({ node: n, name: n.parent.getText() })
        return
      }
      if (ts.isPropertyAccessExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'globalThis') {
        if (!STANDARD.has(n.name.text) && !n.questionDotToken && !ts.isTypeOfExpression(n.parent) && !guardedBy(n, n.name.text) && !(ts.isPropertyAccessExpression(n.parent) && n.parent.questionDotToken))
          found.push({ node: n, name: `globalThis.${n.name.text}` })
        return
      }
      if (ts.isIdentifier(n)) {
        const p = n.parent
        const isName = (ts.isPropertyAccessExpression(p) && p.name === n) || (ts.isPropertyAssignment(p) && p.name === n) || (ts.isBindingElement(p) && p.propertyName === n) || ((ts.isMethodDeclaration(p) || ts.isPropertyDeclaration(p) || ts.isPropertySignature(p) || ts.isGetAccessor(p) || ts.isSetAccessor(p) || ts.isEnumMember(p)) && p.name === n) || ts.isLabeledStatement(p) || ts.isBreakOrContinueStatement(p) || ts.isJsxAttribute(p)
        if (!isName && !(ts.isTypeOfExpression(p))) {
          const sym = checker.resolveName(n.text, n, ts.SymbolFlags.Value | ts.SymbolFlags.Alias, false)
          if (!sym && !guardedBy(n, n.text))
            found.push({ node: n, name: n.text })
        }
        return
      }
      ts.forEachChild(n, go)
    }
    ts.forEachChild(sf, go)
    out.set(f, found)
  }
  return out
}
const pkgName = spec => spec.split('/').slice(0, spec.startsWith('@') ? 2 : 1).join('/')
const isBuiltin = spec => spec.startsWith('node:') || spec.startsWith('bun:') || spec.startsWith('deno:') || spec.startsWith('cloudflare:') || builtinModules.includes(spec) || builtinModules.includes(pkgName(spec)) || /^https?:/.test(spec)
/** { spec, node, typeOnly } of every import of a module */
const importsOf = (sf) => {
  const out = []
  const erased = (d) => {
    if (ts.isImportDeclaration(d)) {
      const c = d.importClause
      if (!c)
        return false
      return c.isTypeOnly || (!c.name && c.namedBindings && ts.isNamedImports(c.namedBindings) && c.namedBindings.elements.length > 0 && c.namedBindings.elements.every(e => e.isTypeOnly))
    }
    return d.isTypeOnly || (!!d.exportClause && ts.isNamedExports(d.exportClause) && d.exportClause.elements.length > 0 && d.exportClause.elements.every(e => e.isTypeOnly))
  }
  const go = (n) => {
    if ((ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) && n.moduleSpecifier)
      out.push({ spec: n.moduleSpecifier.text, node: n, typeOnly: erased(n) })
    else if (ts.isCallExpression(n) && (n.expression.kind === K.ImportKeyword || (ts.isIdentifier(n.expression) && n.expression.text === 'require')))
      out.push({ spec: n.arguments[0] && ts.isStringLiteralLike(n.arguments[0]) ? n.arguments[0].text : null, node: n, typeOnly: false })
    else if (ts.isImportEqualsDeclaration(n) && ts.isExternalModuleReference(n.moduleReference))
      out.push({ spec: n.moduleReference.expression.text, node: n, typeOnly: n.isTypeOnly })
    ts.forEachChild(n, go)
  }
  go(sf)
  return out
}
/** modules an entry reaches inside its own package */
const closure = (entry, seen = new Set()) => {
  if (seen.has(entry))
    return seen
  seen.add(entry)
  for (const i of importsOf(parseFile(entry))) {
    if (i.spec?.startsWith('.')) {
      const r = resolve(i.spec, entry)
      if (r.file)
        closure(r.file, seen)
    }
  }
  return seen
}
export const C27 = (rep) => {
  const pk = [...packages().values()].filter(p => p.pkg.private !== true)
  const files = pk.map(p => ({ p, list: sources(path.join(p.dir, 'src')) }))
  rep.extra.modules = files.reduce((n, f) => n + f.list.length, 0)
  rep.scenario('the packages are there', s => s.syntactic('modules found', rep.extra.modules > 50, `${rep.extra.modules}`))
  const analysed = new Set(files.flatMap(f => f.list))
  const free = freeNames(files.flatMap(f => f.list))
  for (const { p, list } of files) {
    // presets read the environment; what the factory entry reaches does not
    const create = p.name === '@xsai-ext/providers' && p.entries['./create'] ? closure(p.entries['./create']) : new Set()
    const preset = f => p.name === '@xsai-ext/providers' && !create.has(f)
    const declared = new Set([p.name, ...['dependencies', 'peerDependencies', 'optionalDependencies', 'devDependencies'].flatMap(k => Object.keys(p.pkg[k] ?? {}))])
    for (const f of list) {
      rep.scenario(rel(f), (s) => {
        for (const { spec, node, typeOnly } of importsOf(parseFile(f))) {
          const where = loc(node)
          if (spec === null) {
            s.add('imports are literal', 'undecided', 'computed module name', where)
            continue
          }
          if (spec.startsWith('.')) {
            // a module of a sibling package is bundled; it is analysed as a source of its own
            const r = resolve(spec, f)
            s.syntactic('relative imports reach analysed sources', typeOnly || (!!r.file && analysed.has(r.file)) || path.resolve(path.dirname(f), spec) === path.join(p.dir, 'package.json'), `${spec} is no source of a package`, where)
            continue
          }
          const env = preset(f) && (spec === 'node:process' || spec === 'process')
          if (isBuiltin(spec)) {
            s.syntactic('no built-in module of one runtime is imported', typeOnly || env, `import of ${spec}`, where)
            continue
          }
          if (!typeOnly)
            s.syntactic('imported packages are declared', declared.has(pkgName(spec)), `${spec} is no dependency of ${p.name}`, where)
        }
        for (const { node, name } of free.get(f)) {
          if (preset(f) && name === 'process')
            continue
          s.syntactic('only web-standard globals are used', STANDARD.has(name), `${name} does not exist on every runtime`, loc(node))
        }
        s.syntactic('module analysed', true)
      })
    }
  }
}
