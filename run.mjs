// node run.mjs <property id> [--only <scenario substring>] [--thorough]
// The analysis runs in a child process; a scenario that exhausts memory is left undecided and the rest is analysed anyway.
import { spawnSync } from 'node:child_process'
import fs from 'node:fs'
import os from 'node:os'
import path from 'node:path'
import { fileURLToPath } from 'node:url'

const id = process.argv[2]
const here = path.dirname(fileURLToPath(import.meta.url))
if (id !== '--self-check' && !process.env.VERIF_PROGRESS) {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-'))
  const progress = path.join(dir, 'scenario')
  const t0 = String(Date.now())
  const skip = []
  let r
  try {
    for (let i = 0; i < 8; i++) {
      fs.writeFileSync(progress, '')
      r = spawnSync(process.execPath, ['--max-old-space-size=4500', path.join(here, 'run.mjs'), ...process.argv.slice(2)], {
        env: { ...process.env, VERIF_PROGRESS: progress, VERIF_SKIP: JSON.stringify(skip), VERIF_T0: t0 },
        stdio: ['ignore', 'pipe', 'pipe'],
        maxBuffer: 1 << 28,
      })
      if (r.status === 0 || r.status === 1 || r.status === 2)
        break
      const at = fs.readFileSync(progress, 'utf8')
      if (!at || skip.includes(at))
        break
      skip.push(at)
    }
  }
  finally { fs.rmSync(dir, { recursive: true, force: true }) }
  process.stdout.write(r.stdout)
  process.stderr.write(r.stderr)
  process.exit(r.status ?? 2)
}

const { Report } = await import('./lib/check.mjs')
const { suites } = await import('./checks/index.mjs')
if (id === '--self-check') {
  console.log(`${Object.keys(suites).length} checks`)
  process.exit(0)
}
const only = process.argv.includes('--only') ? process.argv[process.argv.indexOf('--only') + 1] : null
const tier = process.env.VERIF_TIER === 'thorough' || process.argv.includes('--thorough') ? 'thorough' : 'quick'
const suite = suites[id]
if (!suite) {
  console.error(`no check for ${id}`)
  process.exit(2)
}
const rep = new Report(id, tier)
if (only) {
  const run = rep.scenario.bind(rep)
  rep.scenario = (name, ...a) => (name.includes(only) ? run(name, ...a) : undefined)
}
try {
  await suite(rep)
  rep.rerun()
}
catch (e) {
  rep.obligations.push({ scenario: 'suite', rule: 'analysable', verdict: /^anchor missing/.test(e.message) ? 'violated' : 'undecided', why: `${e.message} ${(e.stack ?? '').split('\n').slice(1, 4).join(' ')}` })
}
process.exitCode = rep.finish()
