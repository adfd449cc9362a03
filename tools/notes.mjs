export const notes = {
  default: {
    technique: 'interprocedural abstract interpretation of the TypeScript source (symbolic heap, joins, fixpoint loops; calls inlined), obligations matched against a reference model of each scenario',
    note: 'Each scenario is an abstract precondition (symbolic contents, fixed shape); its obligations hold for every concrete input of that shape. Shapes not listed are not covered. Trusted: the transfer functions for built-ins in lib/natives.mjs and the TypeScript parser. Constructs outside the analysed subset make an obligation undecided (counted in the evidence), never a violation.',
  },
  C90: { na: 'The property is about wall-clock waiting under load; no static argument bounds timers or the scheduler.' },
  C91: { na: 'The partial values come from the dependency best-effort-json-parser; the claim is about its grammar over every prefix of every text, which no static argument over this repository\'s source reaches.' },
  C92: { na: 'Memory held depends on the queueing of the platform\'s streams and on how consumers read, which the source does not determine.' },
  C93: { na: 'Equality of a regular expression match with an incremental scanner over every text and chunking needs a decision procedure over unbounded strings, not an analysis of the source.' },
}
