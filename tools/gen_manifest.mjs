// Writes /verif/MANIFEST.json: one entry per property that has a check.
import fs from 'node:fs'
import path from 'node:path'
import { VERIF } from '../lib/check.mjs'
import { suites } from '../checks/index.mjs'
import { notes } from './notes.mjs'

const props = fs.readFileSync(path.join(VERIF, 'properties.jsonl'), 'utf8').trim().split('\n').map(l => JSON.parse(l))
const out = {
  version: 1,
  setup_cmd: 'node run.mjs --self-check',
  checks: props.filter(p => suites[p.id]).map(p => ({
    property: p.id,
    quick_cmd: `node run.mjs ${p.id}`,
    thorough_cmd: `node run.mjs ${p.id} --thorough`,
    technique: notes[p.id]?.technique ?? notes.default.technique,
    level: 'other',
    level_note: notes[p.id]?.note ?? notes.default.note,
  })),
  not_applicable: props.filter(p => !suites[p.id]).map(p => ({ property: p.id, reason: notes[p.id]?.na ?? 'not claimed yet' })),
}
fs.writeFileSync(path.join(VERIF, 'MANIFEST.json'), `${JSON.stringify(out, null, 1)}\n`)
console.log(`${out.checks.length} checks, ${out.not_applicable.length} not applicable`)
