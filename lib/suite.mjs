// Scenarios of chat runs (model turns × tools × hooks × endings) and their comparison with the reference model in chat.mjs.
// Each property check picks the scenarios and the aspects (observables) it is about.
import { ABSENT, ANY, C, cat, errorOf, expectChat, jsonOf, match, oneOf, open, OPS, outputs, pred, runChat, S, sentConversations, T, textFrom } from './chat.mjs'
import { CHAT, chunksOf, eventsOf, NUM, OBJ } from './ops.mjs'
import { op, sym } from './harness.mjs'

const call = (n, name = 'alpha', args = ['{"x":', '1}'], want) => ({ id: T(`c${n}`), name, args, want })
export const errText = (...parts) => textFrom(...parts)

const errResult = (input, name, n, ...parts) => ({ args: input, isError: true, result: errText('execution failed', ...parts), toolCallId: T(`c${n}`), toolName: name })
const failing = (input, name, n, parts, extra = {}) => ({ result: errResult(input, name, n, ...parts), content: errText('execution failed', ...parts), runs: false, ...extra })

const ownFields = () => ({ args: OBJ('ownArgs'), result: T('ownResult'), toolCallId: T('c0'), toolName: 'alpha' })
const done = { text: [T('t9')] }
const two = { text: [T('t0')], calls: [call(0), call(1, 'beta', ['{}'])] }

/** what a tool may throw: errors of its own, of the platform, and of the calls it makes with this library */
const lib = (name, meta) => I => I.construct(I.A.export('@xsai/shared', name), [T(`${name}.text`), I.A.val(meta(I))])
const THROWN = [
  [I => I.makeError('TypeError', T('type.text')), ['type.text']],
  [I => I.construct(I.globals.get('DOMException'), [T('timeout.text'), C('TimeoutError')]), ['timeout.text']],
  [I => I.construct(I.globals.get('DOMException'), [T('abort.text'), C('AbortError')]), ['abort.text']],
  [lib('APICallError', I => ({ response: I.A.response(I, { name: 'nested' }), responseBody: T('nestedBody') })), ['APICallError.text']],
  [lib('InvalidToolCallError', () => ({ reason: 'unknown_tool', toolName: 'other' })), ['InvalidToolCallError.text']],
  [lib('JSONParseError', () => ({ text: T('nestedText') })), ['JSONParseError.text']],
]

/** scenario name → (A-independent) description; `o` is the operation entry */
export const SCENARIOS = {
  'one answer, default stop condition': () => ({ stop: 'default', turns: [{ text: [T('t0'), T('t1')] }] }),
  'tool call, default stop condition': () => ({ stop: 'default', turns: [{ calls: [call(0)] }] }),
  'options given as undefined, default stop condition': () => ({ undef: true, stop: 'default', turns: [{ text: [T('t0')], calls: [call(0)] }] }),
  'options given as undefined': () => ({ undef: true, turns: [two, done] }),
  'text that may be empty': o => ({ mayBeBlank: true, turns: [{ text: [T('t0'), T('t1')], calls: [call(0)] }, { text: [T('t2')] }] }),
  'a last step without any output': () => ({ mayBeBlank: true, turns: [two, {}] }),
  'tool calls with any finish reason': o => ({ skip: o.msgKey === 'input', turns: [{ ...two, finish: T('reason0') }, { text: [T('t1')], calls: [call(2)], finish: T('reason1') }, { ...done, finish: T('reason2') }] }),
  'tool calls with finish reason stop': o => ({ skip: o.msgKey === 'input', turns: [{ ...two, finish: 'stop' }, { calls: [call(2)], finish: 'length' }, { calls: [call(3)], finish: 'content_filter' }, done] }),
  'finish reason tool_calls without calls': o => ({ skip: o.msgKey === 'input', turns: [{ text: [T('t0')], finish: 'tool_calls' }] }),
  'a last step without any output, incomplete': () => ({ mayBeBlank: true, turns: [two, { finish: 'length', status: 'incomplete' }] }),
  'a last step without any output, failed': o => ({ skip: o.msgKey !== 'input', mayBeBlank: true, turns: [two, { status: 'failed' }] }),
  'a last step that failed': o => ({ skip: o.msgKey !== 'input', turns: [two, { text: [T('t1')], calls: [call(2)], status: 'failed' }] }),
  'a last step cut short': () => ({ turns: [two, { text: [T('t1')], finish: 'length', status: 'incomplete' }] }),
  'a single step without any output': () => ({ mayBeBlank: true, turns: [{}] }),
  'arguments of any text, not executed': () => ({ stop: 1, turns: [{ calls: [call(0, 'alpha', [T('a0'), T('a1')]), call(1, 'beta', [T('a2')])] }, done] }),
  'reasoning then text': () => ({ turns: [{ reasoning: [T('r0'), T('r1')], text: [T('t0')] }] }),
  'reasoning in the other field': o => ({ turns: [{ reasoning: [T('r0'), T('r1')], reasoningField: o.family === 'chat' && o.msgKey === 'input' ? 'summary' : 'reasoning', text: [T('t0')] }] }),
  'two calls, then text': () => ({ turns: [two, done] }),
  'text next to calls, three steps, stopped by the condition': () => ({ stop: 3, turns: [two, { text: [T('t1')], calls: [call(2)] }, { calls: [call(3)] }, done] }),
  'stop at the first step although tools are requested': () => ({ stop: 1, turns: [two, done] }),
  'four steps': () => ({ stop: 9, turns: [{ calls: [call(0)] }, { calls: [call(1, 'beta')] }, { calls: [call(2), call(3)] }, done] }),
  'three calls of one tool': () => ({ turns: [{ calls: [call(0), call(1, 'alpha', ['{"y":2}']), call(2, 'alpha', ['[3]'])] }, done] }),
  'blank arguments': () => ({ turns: [{ calls: [call(0, 'alpha', ['']), call(1, 'beta', [' '])] }, done].map(t => t) }),
  'arguments in one fragment': () => ({ turns: [{ calls: [call(0, 'alpha', ['{"x":1}'])] }, done] }),
  'reasoning only in the first step': () => ({ turns: [{ reasoning: [T('r0')], calls: [call(0)] }, done] }),
  'reasoning in both steps': () => ({ turns: [{ reasoning: [T('r0')], calls: [call(0)] }, { reasoning: [T('r1')], text: [T('t1')] }] }),
  'refusal': o => ({ skip: !o.stream, turns: [{ refusal: [T('f0'), T('f1')] }] }),
  'other finish reason': () => ({ turns: [{ text: [T('t0')], finish: 'length', status: 'incomplete' }] }),
  'failed response status': o => ({ skip: o.msgKey !== 'input', turns: [{ text: [T('t0')], status: 'failed' }] }),
  'structured content parts': o => ({ skip: o.stream, turns: [{ content: undefined, text: null, parts: true }] }),
  'no usage reported': o => ({ skip: !o.stream, turns: [{ usage: null, calls: [call(0)] }, { usage: null, text: [T('t1')] }] }),
  'usage only in the first step': o => ({ skip: !o.stream, turns: [{ calls: [call(0)] }, { usage: null, text: [T('t1')] }] }),
  'usage only in the last step': o => ({ skip: !o.stream, turns: [{ usage: null, calls: [call(0)] }, { text: [T('t1')] }] }),

  'later calls finish first': () => ({ lastFirst: true, turns: [{ calls: [call(0), call(1, 'beta', ['{"y":2}']), call(2, 'gamma', ['{}'])] }, done], exec: { alpha: { async: true }, beta: { async: true }, gamma: { async: true } } }),
  'later calls finish first, with hooks': () => ({ lastFirst: true, turns: [{ calls: [call(0), call(1, 'beta', ['{"y":2}'])] }, done], options: A => ({ preToolCall: A.fn('pre', undefined, { async: true }), postToolCall: A.fn('post', undefined, { async: true }) }) }),

  'eight calls of one step': () => ({ turns: [{ text: [T('t0')], calls: [0, 1, 2, 3, 4, 5, 6, 7].map(i => call(i, i % 2 ? 'alpha' : 'beta', [`{"n":${i}}`])) }, done] }),
  'prepareStep over seven steps': () => ({ stop: 9, turns: [...[0, 1, 2, 3, 4, 5].map(i => ({ text: [`a${i}`], calls: [call(i, i % 2 ? 'alpha' : 'beta', [`{"n":${i}}`])] })), done], prepare: [{}, { model: T('m1') }, {}, undefined, { toolChoice: 'none' }, {}, {}] }),
  'two calls with the same id': () => ({ turns: [{ calls: [{ ...call(0), id: T('same') }, { ...call(1, 'beta', ['{"y":2}']), id: T('same') }] }, done] }),
  'calls with empty ids': () => ({ turns: [{ calls: [{ ...call(0), id: '' }, { ...call(1, 'beta', ['{"y":2}']), id: '' }] }, done] }),
  'the same call in one step and the next': () => ({ turns: [{ calls: [call(0), call(1, 'alpha')] }, { calls: [call(0), call(1, 'alpha')] }, done] }),
  'tools whose names differ in case or spaces': () => ({ tools: ['Alpha', 'alpha', ' alpha', 'alpha_1', 'alpha-1', 'constructor'], turns: [{ calls: ['alpha', 'constructor', ' alpha', 'alpha-1', 'Alpha', 'alpha_1'].map((n, i) => call(i, n, [`{"n":${i}}`])) }, done] }),
  'a tool named in another case': () => ({ tools: ['Alpha', 'beta'], turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], failing('{"x":1}', 'alpha', 0, ['alpha', 'Alpha'])), call(1, ' beta', ['{"x":1}'], failing('{"x":1}', ' beta', 1, [' beta']))] }, done] }),
  'arguments of many forms': () => ({ turns: [{ calls: [' {"x":1}\n', '[1,[2]]', '"text"', '0', 'null', 'false', '{"a":{"b":null}}', '{"":"","\\u00e9":"\\ud83d\\ude00"}', '{"x":1e21,"y":-0.5}', '{ "x" : [ ] }', '{"x":1,"x":2}'].map((a, i) => call(i, 'alpha', [a])) }, done] }),
  'arguments that only look like JSON': () => ({ turns: [{ calls: ['{"x":1}{"x":1}', "{'x':1}", '{x:1}', '{"x":1,}', 'undefined', '{"x":1} done', '```json\n{"x":1}\n```', 'NaN', '[', '"'].map((a, i) => call(i, 'alpha', [a], failing(a, 'alpha', i, ['alpha']))) }, done] }),
  'text of any whitespace': () => ({ turns: [{ text: [' ', '\n', 'a ', ' a', 'a ', '\t', '  '], calls: [call(0)] }, { text: ['\n\n'] }] }),
  'reasoning of any whitespace': () => ({ turns: [{ reasoning: [' ', '\n', 'a ', 'a ', '\t'], text: ['x'] }] }),
  'a signal that never fires': () => ({ signal: true, turns: [{ calls: [call(0), call(1, 'alpha')] }, { calls: [call(2)] }, done] }),
  'a signal that never fires, with hooks and a validator': () => ({ signal: true, turns: [{ calls: [call(0), call(1, 'alpha')] }, done], options: A => ({ preToolCall: A.fn('pre'), postToolCall: A.fn('post') }), toolExtra: A => ({ validate: A.fn('validate', (I, args) => A.val({ value: args[0] })) }), post: [0, 1] }),
  'the step callback rejects': o => ({ skip: o.stream, turns: [{ calls: [call(0)] }, done], options: A => ({ onStepFinish: A.fn('onStepFinish', undefined, { rejects: A.error('RangeError', 'late') }) }), fail: errorOf('RangeError') }),
  'a response without choices': o => ({ skip: o.stream, turns: [done], respond: (I, n, q, node, A) => ({ ok: true, body: A.sse(I, []), json: A.val({ id: T('id'), choices: [] }) }), fail: errorOf('InvalidResponseError', { reason: 'no_choices', responseBody: ANY }) }),
  'a second response without choices': o => ({ skip: o.stream, turns: [{ calls: [call(0)] }, done], respond: (I, n, q, node, A) => (n === 1 ? { ok: true, body: A.sse(I, []), json: A.val({ id: T('id'), object: T('error') }) } : null), failAt: 1, fail: errorOf('InvalidResponseError', { reason: 'no_choices', responseBody: ANY }) }),
  'many fragments': o => ({ skip: !o.stream, turns: [{ reasoning: Array.from({ length: 40 }, (_, i) => `r${i},`), text: Array.from({ length: 40 }, (_, i) => `t${i},`) }] }),
  'equal fragments': o => ({ skip: !o.stream, turns: [{ reasoning: ['a', 'a', 'b', 'a'], text: ['a', 'a', 'b', 'b', 'a'], calls: [call(0, 'alpha', ['[', '1', ',', '1', ',', '1', ']'])] }, done] }),

  // ---- failing tools
  'tools fail without a message': () => ({ turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], { ...failing({ x: 1 }, 'alpha', 0, []), runs: true }), call(1, 'beta', ['{"x":1}'], { ...failing({ x: 1 }, 'beta', 1, []), runs: true }), call(2, 'gamma', ['{}'])] }, done], exec: { alpha: { throws: I => blankErr(I, 'Error') }, beta: { throws: I => blankErr(I, 'AbortError') } } }),
  'a validator reports an empty list of issues': () => ({ turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], failing({ x: 1 }, 'alpha', 0, ['alpha']))] }, done], toolExtra: A => ({ validate: A.fn('validate', () => A.val({ issues: [] })) }) }),
  'a tool throws, its sibling succeeds': () => ({ turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], { ...failing({ x: 1 }, 'alpha', 0, ['boom.message']), runs: true }), call(1, 'beta', ['{}'])] }, done], exec: { alpha: { throws: I => err(I, 'boom') } } }),
  'a tool rejects, its sibling succeeds': () => ({ turns: [{ calls: [call(0, 'beta', ['{}']), call(1, 'alpha', ['{"x":1}'], { ...failing({ x: 1 }, 'alpha', 1, ['boom.message']), runs: true })] }, done], exec: { alpha: { rejects: sym('boomValue', { type: 'error', nonNull: true }), rejectsErr: true } } }),
  'unknown tool': () => ({ tools: ['alpha', 'beta'], turns: [{ calls: [call(0, 'gamma', ['{"x":1}'], failing('{"x":1}', 'gamma', 0, ['gamma', 'alpha', 'beta'])), call(1, 'beta', ['{}'])] }, done] }),
  'tool call without tools': () => ({ noTools: true, turns: [{ calls: [call(0, 'gamma', ['{"x":1}'], failing('{"x":1}', 'gamma', 0, ['gamma', 'No tools are available']))] }, done] }),
  'arguments are not JSON': () => ({ turns: [{ calls: [call(0, 'alpha', ['{"x"'], failing('{"x"', 'alpha', 0, ['alpha'])), call(1, 'beta', ['{}'])] }, done] }),
  'validator reports issues': () => ({ turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], failing({ x: 1 }, 'alpha', 0, ['alpha'])), call(1, 'beta', ['{}'], { input: OBJ('valid:beta'), result: { args: OBJ('valid:beta'), result: T('out:beta'), toolCallId: T('c1'), toolName: 'beta' } })] }, done], toolExtra: (A, n) => ({ validate: A.fn(`validate:${n}`, n === 'alpha' ? () => A.val({ issues: [{ message: T('issue') }] }) : () => A.val({ value: OBJ('valid:beta') })) }) }),
'validator sees blank and odd arguments': () => ({ turns: [{ calls: ['', ' ', '\n', 'null', '0', 'false', '""', '[]', '{}'].map((a, i) => call(i, 'alpha', [a], failing(JSON.parse(a.trim() || '{}'), 'alpha', i, ['alpha']))) }, done], toolExtra: A => ({ validate: A.fn('validate', () => A.val({ issues: [{ message: T('issue') }] })) }), validated: [{}, {}, {}, null, 0, false, '', [], {}] }),
  'validator changes odd arguments': () => ({ turns: [{ calls: ['', ' ', 'null', '0', '""'].map((a, i) => call(i, 'alpha', [a], { input: OBJ('valid'), result: { args: OBJ('valid'), result: T('out:alpha'), toolCallId: T(`c${i}`), toolName: 'alpha' } })) }, done], toolExtra: A => ({ validate: A.fn('validate', () => A.val({ value: OBJ('valid') })) }) }),
  'validator gives a value that is not truthy': () => ({ turns: [{ calls: [undefined, null, 0, '', false].map((v, i) => call(i, `t${i}`, ['{"x":1}'], { input: v, result: { args: v, result: T(`out:t${i}`), toolCallId: T(`c${i}`), toolName: `t${i}` } })) }, done], toolExtra: (A, n) => ({ validate: A.fn('validate', () => A.val({ value: [undefined, null, 0, '', false][Number(n[1])] })) }) }),
  'tools throw values that are no errors': () => ({
    turns: [{ calls: [undefined, null, '', 0, false, 'text', 'obj', 'rejects'].map((v, i) => call(i, `t${i}`, ['{"x":1}'], { ...failing({ x: 1 }, `t${i}`, i, typeof v === 'string' && !['', 'text'].includes(v) ? [] : v === 'text' ? ['thrown'] : [String(v)]), runs: true })) }, done],
    exec: { ...Object.fromEntries([undefined, null, '', 0, false].map((v, i) => [`t${i}`, { throws: C(v) }])), t5: { throws: T('thrown') }, t6: { throws: I => I.A.val({ code: T('code') }) }, t7: { rejects: C(undefined) } },
  }),
  'tools throw errors of every kind': () => ({
    signal: true,
    turns: [{ calls: THROWN.map(([, parts], i) => call(i, `t${i}`, ['{"x":1}'], { ...failing({ x: 1 }, `t${i}`, i, parts), runs: true })) }, done],
    exec: Object.fromEntries(THROWN.map(([throws], i) => [`t${i}`, { throws }])),
    thrown: Object.fromEntries(THROWN.map(([, parts], i) => [`t${i}`, parts[0]])),
  }),
  'hooks throw values that are no errors': () => ({
    turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], { ...failing({ x: 1 }, 'alpha', 0, ['undefined']), runs: true, postArg: ANY })] }, done],
    options: A => ({ postToolCall: A.fn('post', undefined, { throws: C(undefined) }) }),
    post: [0],
  }),
  'validator gives a value that JSON cannot hold': () => ({ turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], { input: 10n, result: { args: 10n, result: T('out:alpha'), toolCallId: T('c0'), toolName: 'alpha' } })] }, done], toolExtra: A => ({ validate: A.fn('validate', () => A.val({ value: 10n })) }) }),
  'validator changes the input': () => ({ turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], { input: OBJ('valid') , result: { args: OBJ('valid'), result: T('out:alpha'), toolCallId: T('c0'), toolName: 'alpha' } })] }, done], toolExtra: A => ({ validate: A.fn('validate', () => A.val({ value: OBJ('valid') }), { async: true }) }), validated: [{ x: 1 }] }),
  'validator throws': () => ({ turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], failing('{"x":1}', 'alpha', 0, ['boom.message'])), call(1, 'alpha', ['{"y":1}'], failing('{"y":1}', 'alpha', 1, ['boom.message']))] }, done], toolExtra: A => ({ validate: A.fn('validate', undefined, { throws: I => err(I, 'boom') }) }) }),
  'call without a name': () => ({ tools: ['alpha'], turns: [{ calls: [{ id: T('c0'), args: ['{}'] }] }, done], fail: errorOf('InvalidToolCallError', { reason: 'missing_name' }) }),
  'call without arguments': o => ({ skip: o.stream && o.msgKey !== 'input', turns: [{ calls: [{ id: T('c0'), name: 'alpha' }] }, done], fail: errorOf('InvalidToolCallError', { reason: 'missing_arguments' }) }),

  // ---- hooks
  'pre hook lets the call pass': () => ({ turns: [two, done], options: A => ({ preToolCall: A.fn('pre') }), pre: [0, 1] }),
  'pre hook rewrites name and arguments': () => ({
    tools: ['alpha', 'beta'],
    turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], { call: { args: '{"z":9}', toolCallId: T('c0'), toolCallType: 'function', toolName: 'beta' }, input: { z: 9 }, runName: 'beta', result: { args: { z: 9 }, result: T('out:beta'), toolCallId: T('c0'), toolName: 'beta' }, content: T('out:beta') })] }, done],
    options: A => ({ preToolCall: A.fn('pre', () => A.val({ args: '{"z":9}', toolCallId: T('c0'), toolCallType: 'function', toolName: 'beta' }), { async: true }) }),
    pre: [0],
  }),
  'pre hook supplies the result': () => ({
    turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], { result: { args: OBJ('hookArgs'), result: T('hookResult'), toolCallId: T('c0'), toolName: 'alpha' }, content: T('hookResult'), runs: false }), ] }, done],
    options: A => ({ preToolCall: A.fn('pre', () => A.val({ args: OBJ('hookArgs'), result: T('hookResult'), toolCallId: T('c0'), toolName: 'alpha' })), postToolCall: A.fn('post') }),
    pre: [0],
    post: [],
  }),
  'pre hook throws': () => ({
    turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], failing('{"x":1}', 'alpha', 0, ['boom.message']))] }, done],
    options: A => ({ preToolCall: A.fn('pre', undefined, { throws: I => err(I, 'boom') }), postToolCall: A.fn('post') }),
    pre: [0],
    post: [],
  }),
  'pre hook answers for another call': () => ({
    turns: [{ calls: [{ ...call(0), id: C('id-0') }, { ...call(1, 'beta'), id: C('id-1') }] }, done],
    options: A => ({ preToolCall: A.fn('pre', () => A.val({ args: '{}', toolCallId: 'other', toolCallType: 'function', toolName: 'alpha' })) }),
    fail: errorOf('InvalidToolCallError', { reason: 'tool_call_id_mismatch' }),
  }),
  'pre hook gives a result for another call': () => ({
    turns: [{ calls: [{ ...call(0), id: C('id-0') }] }, done],
    options: A => ({ preToolCall: A.fn('pre', () => A.val({ args: {}, result: 'x', toolCallId: 'other', toolName: 'alpha' })) }),
    fail: errorOf('InvalidToolCallError', { reason: 'tool_call_id_mismatch' }),
    execs: [],
  }),
  'post hook keeps the result': () => ({ turns: [two, done], options: A => ({ postToolCall: A.fn('post') }), post: [0, 1] }),
  'post hook replaces the result': () => ({
    turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], { result: { args: OBJ('postArgs'), result: T('postResult'), toolCallId: T('c0'), toolName: 'alpha' }, content: T('postResult'), postArg: { args: { x: 1 }, result: T('out:alpha'), toolCallId: T('c0'), toolName: 'alpha' } })] }, done],
    options: A => ({ postToolCall: A.fn('post', () => A.val({ args: OBJ('postArgs'), result: T('postResult'), toolCallId: T('c0'), toolName: 'alpha' }), { async: true }) }),
    post: [0],
  }),
  'pre hook returns a result with fields of its own': () => ({
    turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], { result: { ...ownFields(), note: oneOf(T('note'), ABSENT) }, content: T('ownResult'), runs: false })] }, done],
    options: A => ({ preToolCall: A.fn('pre', () => A.val({ ...ownFields(), note: T('note') })) }),
    pre: [0],
    execs: [],
  }),
  'post hook returns a result with fields of its own': () => ({
    turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], { result: { ...ownFields(), note: oneOf(T('note'), ABSENT) }, content: T('ownResult'), postArg: { args: { x: 1 }, result: T('out:alpha'), toolCallId: T('c0'), toolName: 'alpha' } })] }, done],
    options: A => ({ postToolCall: A.fn('post', () => A.val({ ...ownFields(), note: T('note') })) }),
    post: [0],
  }),
  'post hook throws': () => ({
    turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], { ...failing({ x: 1 }, 'alpha', 0, ['boom.message']), runs: true, postArg: { args: { x: 1 }, result: T('out:alpha'), toolCallId: T('c0'), toolName: 'alpha' } })] }, done],
    options: A => ({ postToolCall: A.fn('post', undefined, { throws: I => err(I, 'boom') }) }),
    post: [0],
  }),
  'post hook sees a failed tool': () => ({
    turns: [{ calls: [call(0, 'alpha', ['{"x":1}'], { ...failing({ x: 1 }, 'alpha', 0, ['boom.message']), runs: true })] }, done],
    exec: { alpha: { throws: I => err(I, 'boom') } },
    options: A => ({ postToolCall: A.fn('post') }),
    post: [0],
  }),
  'post hook is skipped for calls that never started': () => ({
    tools: ['alpha', 'beta'],
    turns: [{ calls: [call(0, 'gamma', ['{}'], failing('{}', 'gamma', 0, ['gamma'])), call(1, 'alpha', ['{'], failing('{', 'alpha', 1, ['alpha'])), call(2, 'beta', ['{}'])] }, done],
    options: A => ({ postToolCall: A.fn('post') }),
    post: [2],
  }),
  'post hook answers for another call': () => ({
    turns: [{ calls: [{ ...call(0), id: C('id-0') }] }, done],
    options: A => ({ postToolCall: A.fn('post', () => A.val({ args: {}, result: 'x', toolCallId: 'other', toolName: 'alpha' })) }),
    fail: errorOf('InvalidToolCallError', { reason: 'tool_call_id_mismatch' }),
  }),

  // ---- encodings of results
  'results are objects, lists and content parts': o => ({
    turns: [{ calls: [
      call(0, 'alpha', ['{}'], { ret: { a: 1, b: [OBJ('deep')] }, content: jsonOf({ a: 1, b: [OBJ('deep')] }) }),
      call(1, 'beta', ['{}'], o.msgKey === 'input'
        ? { ret: [{ type: 'input_text', text: T('p0') }, { type: 'input_image', image_url: T('p1') }], content: [{ type: 'input_text', text: T('p0') }, { type: 'input_image', image_url: T('p1') }] }
        : { ret: [{ type: 'text', text: T('p0') }, { type: 'image_url', image_url: { url: T('p1') } }], content: [{ type: 'text', text: T('p0') }, { type: 'image_url', image_url: { url: T('p1') } }] }),
      call(2, 'gamma', ['{}'], { ret: [{ type: 'unknown', x: 1 }, null, 3], content: jsonOf([{ type: 'unknown', x: 1 }, null, 3]) }),
      call(3, 'delta', ['{}'], { ret: '', content: '' }),
    ] }, done],
    exec: {
      alpha: { ret: I => I.A.val({ a: 1, b: [OBJ('deep')] }) },
      beta: { ret: I => I.A.val(o.msgKey === 'input' ? [{ type: 'input_text', text: T('p0') }, { type: 'input_image', image_url: T('p1') }] : [{ type: 'text', text: T('p0') }, { type: 'image_url', image_url: { url: T('p1') } }]) },
      gamma: { ret: I => I.A.val([{ type: 'unknown', x: 1 }, null, 3]) },
      delta: { ret: C('') },
    },
  }),
  'lists that are no content parts': (o) => {
    const part = o.msgKey === 'input' ? { type: 'input_text', text: T('p0') } : { type: 'text', text: T('p0') }
    const lists = [['a', T('b')], [1, true], [null], [['text']], [{}], [{ type: 'other' }], [part, 'x'], [part, null], [part, { type: 'other', text: T('p1') }], ['x', part], []]
    return {
      turns: [{ calls: lists.map((l, i) => call(i, `t${i}`, ['{}'], { ret: l, content: jsonOf(l) })) }, done],
      exec: Object.fromEntries(lists.map((l, i) => [`t${i}`, { ret: I => I.A.val(l) }])),
    }
  },
  'other content part kinds': o => ({
    turns: [{ calls: (o.msgKey === 'input' ? ['input_file'] : ['file', 'input_audio']).map((k, i) => call(i, `t${i}`, ['{}'], { ret: [{ type: k, data: T('p') }], content: [{ type: k, data: T('p') }] })) }, done],
    exec: Object.fromEntries((o.msgKey === 'input' ? ['input_file'] : ['file', 'input_audio']).map((k, i) => [`t${i}`, { ret: I => I.A.val([{ type: k, data: T('p') }]) }])),
  }),
  'async tools': () => ({ turns: [two, done], exec: { alpha: { async: true }, beta: { async: true } } }),

  // ---- preparation of steps
  'prepareStep changes nothing': () => ({ turns: [two, done], prepare: [{}, {}] }),
  'prepareStep changes the model and tool choice per step': () => ({ turns: [two, { calls: [call(2)] }, done], options: () => ({ toolChoice: 'auto' }), toolChoice: 'auto', prepare: [{ model: T('m0') }, { toolChoice: 'required' }, { model: T('m2'), toolChoice: 'none' }] }),
  'prepareStep replaces the input of one step': () => ({ turns: [two, { calls: [call(2)] }, done], prepare: [{}, { input: [OBJ('prepared')] }, {}] }),
  'prepareStep gives nothing': () => ({ turns: [two, done], prepare: [undefined, undefined] }),
}

// ------------------------------------------------------------------ shapes of streamed responses
const ch = (delta, extra = {}, top = {}) => ({ id: T('chunk.id'), object: 'chat.completion.chunk', choices: [{ index: 0, delta, ...extra }], ...top })
const fin = (reason = 'stop', top = {}) => ch({}, { finish_reason: reason }, top)
const use = n => ({ prompt_tokens: NUM(`u${n}.in`), completion_tokens: NUM(`u${n}.out`), total_tokens: NUM(`u${n}.total`) })
const usageChunk = n => ({ id: T('chunk.id'), choices: [], usage: use(n) })
const tc = (index, id, name, args) => ({ index, ...(id ? { id } : {}), type: 'function', function: { ...(name ? { name } : {}), ...(args !== undefined ? { arguments: args } : {}) } })
const chatOnly = o => o.stream && o.family === 'chat' && o.msgKey !== 'input'
const resOnly = o => o.msgKey === 'input'
const ev = (type, rest = {}) => ({ type: `response.${type}`, ...rest })
const msgItem = (id, ...content) => ({ type: 'message', id: T(id), role: 'assistant', content })
const finalRes = (output, n = 0, status = 'completed') => ev(status, { response: { id: T('resp.id'), status, output, usage: n === null ? null : { input_tokens: NUM(`u${n}.in`), output_tokens: NUM(`u${n}.out`), total_tokens: NUM(`u${n}.total`) } } })
const created = ev('created', { response: { id: T('resp.id'), output: [] } })
const fcItem = (id, name, args) => ({ type: 'function_call', id: T(`fc.${id}`), call_id: T(id), name, arguments: args })
const textPart = (...t) => ({ type: 'output_text', text: cat(...t) })

Object.assign(SCENARIOS, {
  'stream: text and tool call in one chunk': o => ({ skip: !chatOnly(o), turns: [{ text: [T('t0')], calls: [{ id: T('c0'), name: 'alpha', args: ['{"x":1}'] }], chunks: [ch({ role: 'assistant', content: T('t0'), tool_calls: [tc(0, T('c0'), 'alpha', '{"x":1}')] }), fin('tool_calls', { usage: use(0) })] }, done] }),
  'stream: reasoning and text in one chunk': o => ({ skip: !chatOnly(o), turns: [{ reasoning: [T('r0'), T('r1')], text: [T('t0'), T('t1')], chunks: [ch({ reasoning_content: T('r0') }), ch({ reasoning_content: T('r1'), content: T('t0') }), ch({ content: T('t1') }), fin('stop', { usage: use(0) })] }] }),
  'stream: text and refusal in one chunk': o => ({ skip: !chatOnly(o), turns: [{ text: [T('t0')], refusal: [T('f0')], chunks: [ch({ content: T('t0'), refusal: T('f0') }), fin('stop', { usage: use(0) })] }] }),
  'stream: null fields in deltas': o => ({ skip: !chatOnly(o), turns: [{ text: [T('t0')], chunks: [ch({ role: 'assistant', content: null, refusal: null, reasoning: null, reasoning_content: null, tool_calls: null }, { finish_reason: null }, { usage: null }), ch({ content: T('t0') }, { finish_reason: null }, { usage: null }), fin('stop', { usage: null }), usageChunk(0)] }] }),
  'stream: usage reported on every chunk': o => ({ skip: !chatOnly(o), turns: [{ usage: 0, text: [T('t0')], chunks: [ch({ content: T('t0') }, {}, { usage: use(7) }), fin('stop', { usage: use(8) }), usageChunk(0)] }] }),
  'stream: usage reported twice in two steps': o => ({ skip: !chatOnly(o), turns: [{ usage: 0, calls: [{ id: T('c0'), name: 'alpha', args: ['{}'] }], chunks: [ch({ tool_calls: [tc(0, T('c0'), 'alpha', '{}')] }, {}, { usage: use(5) }), fin('tool_calls', { usage: use(0) })] }, { usage: 1, text: [T('t1')], chunks: [ch({ content: T('t1') }, {}, { usage: use(6) }), fin('stop', { usage: use(1) })] }] }),
  'stream: usage on the last chunk with choices': o => ({ skip: !chatOnly(o), turns: [{ text: [T('t0')], chunks: [ch({ content: T('t0') }), fin('stop', { usage: use(0) })] }] }),
  'stream: no finish reason': o => ({ skip: !chatOnly(o), turns: [{ text: [T('t0')], finish: 'other', chunks: [ch({ content: T('t0') }), usageChunk(0)] }] }),
  'stream: no finish reason in a later step': o => ({ skip: !chatOnly(o), turns: [{ calls: [{ id: T('c0'), name: 'alpha', args: ['{}'] }], finish: 'tool_calls', chunks: [ch({ tool_calls: [tc(0, T('c0'), 'alpha', '{}')] }), fin('tool_calls', { usage: use(0) })] }, { text: [T('t0')], finish: 'other', chunks: [ch({ content: T('t0') }), usageChunk(1)] }] }),
  'stream: finish reason in front of the last text': o => ({ skip: !chatOnly(o), turns: [{ text: [T('t0'), T('t1')], finish: T('reason'), chunks: [ch({ content: T('t0') }, { finish_reason: T('reason') }), ch({ content: T('t1') }, { finish_reason: null }), ch({}), usageChunk(0)] }] }),
  'stream: two finish reasons': o => ({ skip: !chatOnly(o), turns: [{ text: [T('t0')], finish: 'length', chunks: [ch({ content: T('t0') }, { finish_reason: 'stop' }), fin('length'), usageChunk(0)] }] }),
  'stream: chunks without choices': o => ({ skip: !chatOnly(o), turns: [{ text: [T('t0')], chunks: [{ id: T('chunk.id'), object: 'ping' }, { id: T('chunk.id'), choices: null }, ch({ content: T('t0') }), { id: T('chunk.id'), choices: [] }, fin('stop'), usageChunk(0)] }] }),
  'stream: second choice is ignored': o => ({ skip: !chatOnly(o), turns: [{ text: [T('t0')], chunks: [{ id: T('chunk.id'), choices: [{ index: 0, delta: { content: T('t0') } }, { index: 1, delta: { content: T('other') } }] }, fin('stop'), usageChunk(0)] }] }),
  'stream: calls in one delta': o => ({ skip: !chatOnly(o), turns: [{ calls: [{ id: T('c0'), name: 'alpha', args: ['{"x":1}'] }, { id: T('c1'), name: 'beta', args: ['{"y":', '2}'] }], chunks: [ch({ tool_calls: [tc(0, T('c0'), 'alpha', '{"x":1}'), tc(1, T('c1'), 'beta', '{"y":')] }), ch({ tool_calls: [tc(1, null, null, '2}')] }), fin('tool_calls'), usageChunk(0)] }, done], toolEvents: [[{ type: 'tool-call.start', toolCallId: T('c0'), toolName: 'alpha' }, { type: 'tool-call.delta', delta: '{"x":1}' }, { type: 'tool-call.start', toolCallId: T('c1'), toolName: 'beta' }, { type: 'tool-call.delta', delta: '{"y":' }, { type: 'tool-call.delta', delta: '2}' }]] }),
  'stream: interleaved argument fragments': o => ({ skip: !chatOnly(o), turns: [{ calls: [{ id: T('c0'), name: 'alpha', args: ['{"x":', '1}'] }, { id: T('c1'), name: 'beta', args: ['{"y":', '2}'] }], chunks: [ch({ tool_calls: [tc(0, T('c0'), 'alpha', '')] }), ch({ tool_calls: [tc(1, T('c1'), 'beta', '')] }), ch({ tool_calls: [tc(0, null, null, '{"x":')] }), ch({ tool_calls: [tc(1, null, null, '{"y":')] }), ch({ tool_calls: [tc(0, null, null, '1}')] }), ch({ tool_calls: [tc(1, null, null, '2}')] }), fin('tool_calls'), usageChunk(0)] }, done], toolEvents: [[{ type: 'tool-call.start', toolCallId: T('c0'), toolName: 'alpha' }, { type: 'tool-call.start', toolCallId: T('c1'), toolName: 'beta' }, ...['{"x":', '{"y":', '1}', '2}'].map(delta => ({ type: 'tool-call.delta', delta }))]] }),
  'stream: later fragments repeat the name and id': o => ({ skip: !chatOnly(o), turns: [{ calls: [{ id: T('c0'), name: 'alpha', args: ['{"x":', '1}'] }], chunks: [ch({ tool_calls: [tc(0, T('c0'), 'alpha', '')] }), ch({ tool_calls: [tc(0, T('c0'), 'alpha', '{"x":')] }), ch({ tool_calls: [tc(0, T('c0'), 'alpha', '1}')] }), fin('tool_calls'), usageChunk(0)] }, done] }),
  'stream: later fragments have an empty name and id': o => ({ skip: !chatOnly(o), turns: [{ calls: [{ id: T('c0'), name: 'alpha', args: ['{"x":', '1}'] }], chunks: [ch({ tool_calls: [tc(0, T('c0'), 'alpha', '')] }), ...['{"x":', '1}'].map(a => ch({ tool_calls: [{ index: 0, id: '', type: 'function', function: { name: '', arguments: a } }] })), fin('tool_calls'), usageChunk(0)] }, done] }),
  'stream: later fragments have a null name and id': o => ({ skip: !chatOnly(o), turns: [{ calls: [{ id: T('c0'), name: 'alpha', args: ['{"x":', '1}'] }], chunks: [ch({ tool_calls: [tc(0, T('c0'), 'alpha', '')] }), ...['{"x":', '1}'].map(a => ch({ tool_calls: [{ index: 0, id: null, type: null, function: { name: null, arguments: a } }] })), fin('tool_calls'), usageChunk(0)] }, done] }),
  'stream: call without argument fragments': o => ({ skip: !chatOnly(o), turns: [{ calls: [{ id: T('c0'), name: 'alpha', args: [] }], chunks: [ch({ tool_calls: [tc(0, T('c0'), 'alpha')] }), fin('tool_calls'), usageChunk(0)] }, done] }),
  'stream: call indices start at one': o => ({ skip: !chatOnly(o), turns: [{ calls: [{ id: T('c0'), name: 'alpha', args: ['{}'] }, { id: T('c1'), name: 'beta', args: ['{}'] }], chunks: [ch({ tool_calls: [tc(1, T('c0'), 'alpha', '{}')] }), ch({ tool_calls: [tc(2, T('c1'), 'beta', '{}')] }), fin('tool_calls'), usageChunk(0)] }, done] }),
  'stream: text after a call': o => ({ skip: !chatOnly(o), turns: [{ text: [T('t0'), T('t1')], calls: [{ id: T('c0'), name: 'alpha', args: ['{}'] }], chunks: [ch({ content: T('t0') }), ch({ tool_calls: [tc(0, T('c0'), 'alpha', '{}')] }), ch({ content: T('t1') }), fin('tool_calls'), usageChunk(0)] }, done] }),
  'stream: text, reasoning, text': o => ({ skip: !chatOnly(o), turns: [{ text: [T('t0'), T('t1')], reasoning: [T('r0')], chunks: [ch({ content: T('t0') }), ch({ reasoning_content: T('r0') }), ch({ content: T('t1') }), fin('stop'), usageChunk(0)] }] }),
  'stream: ends without the end marker': o => ({ skip: !o.stream, turns: [{ text: [T('t0')], noDone: true }] }),
  'stream: many fragments': o => ({ skip: !o.stream, turns: [{ reasoning: [0, 1, 2, 3].map(i => T(`r${i}`)), text: [0, 1, 2, 3, 4, 5].map(i => T(`t${i}`)), calls: [0, 1, 2, 3].map(i => ({ id: T(`c${i}`), name: `tool${i}`, args: ['{', '"a"', ':', `${i}`, '}'] })) }, done] }),

  'events: unknown events and items': o => ({ skip: !resOnly(o), turns: [{ text: [T('t0')], conv: [{ type: 'web_search_call', id: T('ws'), status: 'completed' }, msgItem('msg.id', textPart(T('t0')))], events: [created, ev('in_progress', { response: { id: T('resp.id') } }), ev('queued'), ev('output_item.added', { output_index: 0, item: { type: 'web_search_call', id: T('ws') } }), ev('web_search_call.searching', { item_id: T('ws') }), ev('output_item.done', { output_index: 0, item: { type: 'web_search_call', id: T('ws'), status: 'completed' } }), ev('output_item.added', { output_index: 1, item: msgItem('msg.id') }), ev('content_part.added', { part: { type: 'output_text', text: '' } }), ev('output_text.delta', { delta: T('t0') }), ev('output_text.annotation.added', { annotation: OBJ('ann') }), ev('output_text.done', { text: T('t0') }), ev('content_part.done', { part: textPart(T('t0')) }), ev('output_item.done', { output_index: 1, item: msgItem('msg.id', textPart(T('t0'))) }), finalRes([{ type: 'web_search_call', id: T('ws'), status: 'completed' }, msgItem('msg.id', textPart(T('t0')))])] }] }),
  'events: two messages with several parts': o => ({ skip: !resOnly(o), turns: [{ text: [T('t0'), T('t1'), T('t2')], textEvents: [{ type: 'text.start' }, { type: 'text.delta', delta: T('t0') }, { type: 'text.done', content: T('t0') }, { type: 'text.start' }, { type: 'text.delta', delta: T('t1') }, { type: 'text.done', content: T('t1') }, { type: 'text.start' }, { type: 'text.delta', delta: T('t2') }, { type: 'text.done', content: T('t2') }], conv: [msgItem('m0', textPart(T('t0')), textPart(T('t1'))), msgItem('m1', textPart(T('t2')))], events: [created, ev('output_item.added', { item: msgItem('m0') }), ...[T('t0'), T('t1')].flatMap(t => [ev('content_part.added', { part: { type: 'output_text', text: '' } }), ev('output_text.delta', { delta: t }), ev('output_text.done', { text: t }), ev('content_part.done', { part: textPart(t) })]), ev('output_item.done', { item: msgItem('m0', textPart(T('t0')), textPart(T('t1'))) }), ev('output_item.added', { item: msgItem('m1') }), ev('content_part.added', { part: { type: 'output_text', text: '' } }), ev('output_text.delta', { delta: T('t2') }), ev('output_text.done', { text: T('t2') }), ev('content_part.done', { part: textPart(T('t2')) }), ev('output_item.done', { item: msgItem('m1', textPart(T('t2'))) }), finalRes([msgItem('m0', textPart(T('t0')), textPart(T('t1'))), msgItem('m1', textPart(T('t2')))])] }] }),
  'events: interleaved calls': o => ({ skip: !resOnly(o), turns: [{ calls: [{ id: T('c0'), name: 'alpha', args: ['{"x":', '1}'] }, { id: T('c1'), name: 'beta', args: ['{"y":2}'] }], events: [created, ev('output_item.added', { item: fcItem('c0', 'alpha', '') }), ev('output_item.added', { item: fcItem('c1', 'beta', '') }), ev('function_call_arguments.delta', { delta: '{"x":' }), ev('function_call_arguments.delta', { delta: '{"y":2}' }), ev('function_call_arguments.delta', { delta: '1}' }), ev('function_call_arguments.done', { arguments: '{"x":1}' }), ev('output_item.done', { item: fcItem('c0', 'alpha', '{"x":1}') }), ev('function_call_arguments.done', { arguments: '{"y":2}' }), ev('output_item.done', { item: fcItem('c1', 'beta', '{"y":2}') }), finalRes([fcItem('c0', 'alpha', '{"x":1}'), fcItem('c1', 'beta', '{"y":2}')])] }, done], toolEvents: [[{ type: 'tool-call.start', toolCallId: T('c0'), toolName: 'alpha' }, { type: 'tool-call.start', toolCallId: T('c1'), toolName: 'beta' }, { type: 'tool-call.delta', delta: '{"x":' }, { type: 'tool-call.delta', delta: '{"y":2}' }, { type: 'tool-call.delta', delta: '1}' }, { type: 'tool-call.done', args: '{"x":1}', toolCallId: T('c0'), toolCallType: 'function', toolName: 'alpha' }, { type: 'tool-call.done', args: '{"y":2}', toolCallId: T('c1'), toolCallType: 'function', toolName: 'beta' }]] }),
  'events: calls of an incomplete response do not run': o => ({ skip: !resOnly(o), turns: [{ status: 'incomplete', calls: [{ id: T('c0'), name: 'alpha', args: ['{}'] }] }, done], endsAt: 1 }),
  'events: calls of a failed response do not run': o => ({ skip: !resOnly(o), turns: [{ calls: [{ id: T('c9'), name: 'beta', args: ['{}'] }] }, { status: 'failed', calls: [{ id: T('c0'), name: 'alpha', args: ['{}'] }] }, done], endsAt: 2 }),
  'events: null usage': o => ({ skip: !resOnly(o), turns: [{ usage: null, text: [T('t0')], conv: [msgItem('msg.id', textPart(T('t0')))], events: [created, ev('content_part.added', { part: { type: 'output_text', text: '' } }), ev('output_text.delta', { delta: T('t0') }), ev('output_text.done', { text: T('t0') }), ev('output_item.done', { item: msgItem('msg.id', textPart(T('t0'))) }), finalRes([msgItem('msg.id', textPart(T('t0')))], null)] }] }),
  'events: text content part': o => ({ skip: !resOnly(o), turns: [{ text: [T('t0')], conv: [msgItem('msg.id', { type: 'text', text: T('t0') })], events: [created, ev('content_part.added', { part: { type: 'text', text: '' } }), ev('output_text.delta', { delta: T('t0') }), ev('output_text.done', { text: T('t0') }), ev('output_item.done', { item: msgItem('msg.id', { type: 'text', text: T('t0') }) }), finalRes([msgItem('msg.id', { type: 'text', text: T('t0') })])] }] }),
  'events: item without content is skipped': o => ({ skip: !resOnly(o), turns: [{ text: [T('t0')], conv: [msgItem('msg.id', textPart(T('t0')))], events: [created, ev('output_item.added', { item: null }), ev('output_item.done', { item: null }), ev('content_part.added', { part: { type: 'output_text', text: '' } }), ev('output_text.delta', { delta: T('t0') }), ev('output_text.done', { text: T('t0') }), ev('output_item.done', { item: msgItem('msg.id', textPart(T('t0'))) }), finalRes([msgItem('msg.id', textPart(T('t0')))])] }] }),
  'events: text input': o => ({ skip: !resOnly(o), options: () => ({ input: T('hello') }), initial: [{ type: 'message', role: 'user', content: T('hello') }], turns: [two, done] }),
})

// ------------------------------------------------------------------ the caller aborts
/** sc.abort: where the signal flips; from then on no tool starts and no request is sent */
Object.assign(SCENARIOS, {
  'abort during the first of two tools': () => ({ abort: 'exec:alpha', turns: [two, done], want: { execs: 1, requests: 1 } }),
  'abort during the stop condition': () => ({ abort: 'stopWhen', turns: [two, done], want: { execs: 0, requests: 1 } }),
  'abort during the pre hook': () => ({ abort: 'pre', turns: [two, done], want: { execs: 0, requests: 1 } }),
  'abort during the post hook of the last call': () => ({ abort: 'post', turns: [{ calls: [call(0)] }, done], want: { execs: 1, requests: 1 } }),
  'abort during the validator': () => ({ abort: 'validate', turns: [{ calls: [call(0)] }, done], want: { execs: 0, requests: 1 } }),
  'abort while the response arrives': () => ({ abort: 'fetch', turns: [two, done], want: { execs: 0, requests: 1, stops: 0 } }),
  'abort in the second step': () => ({ abort: 'exec:beta', turns: [{ calls: [call(0)] }, { calls: [call(1, 'beta')] }, done], want: { execs: 2, requests: 2 } }),
  'abort while the second response arrives': () => ({ abort: 'fetch1', turns: [{ calls: [call(0)] }, { calls: [call(1, 'beta')] }, done], want: { execs: 1, requests: 2, stops: 1 } }),
})
export const ABORTS = Object.keys(SCENARIOS).filter(k => k.startsWith('abort'))
export const MAIN = Object.keys(SCENARIOS).filter(k => !k.startsWith('abort'))

const err = (I, name) => I.A.error('Error', name)
const blankErr = (I, name) => {
  const e = I.A.error(name)
  I.A.I.st.get(e.id).props.set('message', { v: C('') })
  return e
}

export const build = (id, key) => {
  const o = OPS[id]
  const sc = SCENARIOS[key](o)
  if (sc.skip)
    return null
  for (const t of sc.turns) {
    if (t.parts) {
      t.content = undefined
      t.text = undefined
    }
  }
  return sc
}

/** names of the scenarios that apply to the operation */
export const scenariosFor = (id, keys = Object.keys(SCENARIOS)) => keys.filter(k => build(id, k))

/** run a scenario; returns { R, E, sc } */
export const chatScenario = (s, id, key, cfg = {}) => {
  const sc = build(id, key)
  const o = OPS[id]
  const withA = (sc) => {
    const options = sc.options
    return {
      ...sc,
      options: (A, o2) => {
        A.I.A = A
        const out = typeof options === 'function' ? options(A, o2) : options ?? {}
        if (sc.prepare)
          out.prepareStep = A.fn('prepareStep', (I, args, node) => {
            const n = I.getProp(args[0], C('stepNumber'), node)
            const p = n.t === 'const' ? sc.prepare[n.v] : undefined
            return p === undefined ? C(undefined) : A.val(p)
          }, { async: true })
        for (const e of Object.values(sc.exec ?? {})) {
          if (e.rejectsErr)
            e.rejects = A.error('Error', 'boom')
        }
        return out
      },
    }
  }
  if (sc.turns.some(t => t.parts)) {
    // content given as a list of parts
    sc.turns = sc.turns.map(t => (t.parts ? { content: [{ type: 'text', text: T('t0') }, { type: 'refusal', refusal: T('x') }, { type: 'text', text: T('t1') }], wantText: cat(T('t0'), '\n', T('t1')) } : t))
  }
  const E = sc.abort ? null : expectChat(id, sc)
  if (sc.abort) {
    const at = sc.abort
    const flip = { before: I => I.A.abort(I) }
    const base = sc.options
    sc.exec = Object.fromEntries([...new Set(sc.turns.flatMap(t => (t.calls ?? []).map(c => c.name)))].map(n => [n, at === `exec:${n}` ? flip : {}]))
    sc.options = (A) => {
      const out = typeof base === 'function' ? base(A) : base ?? {}
      if (at === 'pre')
        out.preToolCall = A.fn('pre', undefined, flip)
      if (at === 'post')
        out.postToolCall = A.fn('post', undefined, flip)
      if (at === 'stopWhen')
        out.stopWhen = A.fn('stopWhen', C(false), flip)
      return out
    }
    if (at === 'validate')
      sc.toolExtra = A => ({ validate: A.fn('validate', (I, args) => A.val({ value: args[0] }), flip) })
    if (at.startsWith('fetch')) {
      sc.respond = (I, n) => {
        if (n === Number(at.slice(5) || 0))
          I.A.abort(I)
        return null
      }
    }
  }
  const R = runChat(s, id, withA(sc), sc.lastFirst ? { ...cfg, harness: { ...cfg.harness, lastFirst: true } } : cfg)
  return { R, E, sc, o }
}

// ------------------------------------------------------------------ comparison
const arr = (items, star = null) => ({ kind: 'array', items, star })
const kindOf = t => t?.props?.type?.v?.v

/** index of log entries with a label */
const logIdx = (R, label) => R.entries(label).map(e => e.i)

export const ASPECTS = {
  exact(s, { R }) {
    if (!R.exact)
      s.add('the order of effects is definite', 'undecided', 'effects with more than one possible order')
  },
  /** number of requests and the conversation each carries */
  requests(s, { R, E }) {
    s.syntactic('no request after the last answer', !R.beyond, `request ${R.beyond} is made although answer ${E.requests.length} ends the run`)
    s.must('as many requests as model turns', R.requests.length === E.requests.length, `${R.requests.length} requests, expected ${E.requests.length}`)
    const sent = sentConversations(R)
    E.requests.forEach((c, i) => s.is(`request ${i + 1} carries the conversation so far`, sent[i], c))
  },
  requestCount(s, { R, E }) {
    s.syntactic('no request after the last answer', !R.beyond, `request ${R.beyond} is made although answer ${E.requests.length} ends the run`)
    s.must('as many requests as model turns', R.requests.length === E.requests.length && R.requests.every(q => q.sure), `${R.requests.length} requests, expected ${E.requests.length}`)
  },
  model(s, { R, E }) {
    R.requests.forEach((q, i) => {
      s.is(`request ${i + 1} names the model`, q.json?.props?.model?.v, E.models?.[i] ?? 'gpt-x')
      s.is(`request ${i + 1} carries the tool choice`, q.json?.props?.tool_choice?.v, E.toolChoices?.[i] ?? ABSENT)
    })
  },
  steps(s, { R, E, out }) {
    const t = E.isStream ? out.promises.steps?.ok : R.ok && R.A.tree(R.ok.st, R.ok.v).props?.steps?.v
    s.is('the result holds one step per response', t, E.steps)
  },
  /** result fields of non-streaming runs, result promises of streaming runs */
  result(s, { R, E, out }) {
    const last = E.steps.at(-1)
    if (E.isStream) {
      s.is('the final conversation', out.promises[R.o.msgKey]?.ok, E.conv)
      for (const [k, p] of Object.entries(out.promises)) s.must(`promise ${k} cannot fail`, !p.err, 'it may reject')
    }
    else {
      s.must('the run cannot fail', !R.err, 'it may reject')
      if (!R.ok)
        return s.must('the run returns', false)
      const t = R.A.tree(R.ok.st, R.ok.v)
      const turn = E.last
      s.is('the result', t, { finishReason: last.finishReason, messages: E.conv, reasoningText: turn.reasoning ? cat(...turn.reasoning) : oneOf(ABSENT, null), steps: E.steps, text: last.text, toolCalls: last.toolCalls, toolResults: last.toolResults, totalUsage: E.totalUsage ?? ABSENT, usage: E.usage ?? ABSENT })
    }
  },
  usage(s, { R, E, out }) {
    const t = E.isStream ? null : R.ok && R.A.tree(R.ok.st, R.ok.v)
    s.is('usage is that of the last step', E.isStream ? out.promises.usage?.ok : t?.props?.usage?.v, E.usage ?? ABSENT)
    s.is('total usage is the sum over the steps', E.isStream ? out.promises.totalUsage?.ok : t?.props?.totalUsage?.v, E.totalUsage ?? ABSENT)
    const steps = E.isStream ? out.promises.steps?.ok : t?.props?.steps?.v
    E.steps.forEach((st, i) => s.is(`step ${i + 1} has the usage of its response`, steps?.items?.[i]?.props?.usage?.v, st.usage ?? ABSENT))
  },
  stepCallback(s, { R, E }) {
    const calls = R.calls('onStepFinish')
    s.must('one step callback per step', calls.length === E.steps.length, `${calls.length} calls for ${E.steps.length} steps`)
    E.steps.forEach((st, i) => s.is(`step callback ${i + 1} gets the step`, calls[i]?.[0], st))
  },
  finishCallback(s, { R, E }) {
    if (!R.o.callbacks.includes('onFinish'))
      return
    const calls = R.calls('onFinish')
    s.must('the finish callback is called once', calls.length === 1, `${calls.length} calls`)
    if (calls.length === 1)
      s.is('the finish callback gets the last step', calls[0][0], E.steps.at(-1) ?? ABSENT)
    const f = logIdx(R, 'cb:onFinish').at(-1)
    const before = [...logIdx(R, 'cb:onStepFinish'), ...logIdx(R, 'fetch')]
    s.must('the finish callback comes last', before.every(i => i < f), 'a step callback or request follows it')
  },
  stopCondition(s, { R, E }) {
    if (E.sc.stop === 'default')
      return
    const calls = R.calls('stopWhen')
    // a response that failed or is incomplete ends a responses run by itself
    const asked = E.steps.filter((_, i) => !(E.isRes && ['failed', 'incomplete'].includes(E.raw[i].status)))
    s.must('the stop condition is evaluated once per response', calls.length === asked.length, `${calls.length} evaluations for ${asked.length} responses`)
    asked.forEach((st, i) => {
      const t = calls[i]?.[0]
      const open0 = x => open({ finishReason: x.finishReason, text: x.text, usage: x.usage ?? ABSENT })
      s.must(`evaluation ${i + 1} sees the finished steps and the new one`, t?.props?.steps?.v?.items?.length === i + 1 && !t.props.steps.v.star, `it sees ${t?.props?.steps?.v?.items?.length ?? 0} steps`)
      s.is(`evaluation ${i + 1} sees the step just finished`, t?.props?.step?.v, open0(st))
      s.is(`evaluation ${i + 1} has it at the end of the history`, t?.props?.steps?.v?.items?.at(-1), open0(st))
    })
  },
  execs(s, { R, E }) {
    const list = R.entries(l => l.startsWith('cb:exec:'))
    s.must('exactly the permitted tool calls run', list.length === E.execs.length, `${list.length} executions (${list.map(e => e.label).join(', ')}), expected ${E.execs.length}`)
    E.execs.forEach((x, i) => {
      const e = list[i]
      if (!e)
        return
      s.must(`execution ${i + 1} is of the called tool`, e.label === `cb:exec:${x.name}`, `${e.label}, expected ${x.name}`)
      s.is(`execution ${i + 1} gets the validated input`, e.tree.items[0], x.input)
      const o = { toolCallId: x.id, abortSignal: E.sc.abort ? open({ aborted: ANY }) : E.sc.signal ? pred('the signal of the caller', t => t?.id === '@callerSignal') : ABSENT, messages: E.isRes ? ANY : x.messages ?? ANY }
      s.is(`execution ${i + 1} gets signal, conversation and call id`, e.tree.items[1], open(o))
    })
  },
  /** effects of one step stay between its response and the next request */
  order(s, { R, E }) {
    const f = logIdx(R, 'fetch')
    const sw = logIdx(R, 'cb:stopWhen')
    const sf = logIdx(R, 'cb:onStepFinish')
    const ex = R.entries(l => l.startsWith('cb:exec:'))
    sw.forEach((w, i) => s.must(`stop condition ${i + 1} follows its response`, f[i] < w && (f[i + 1] === undefined || w < f[i + 1])))
    ex.forEach((e, j) => {
      const i = E.execs[j]?.step
      if (i === undefined)
        return
      s.must(`execution ${j + 1} lies between its stop decision and the next request`, (sw[i] === undefined || sw[i] < e.i) && f[i] < e.i && (f[i + 1] === undefined || e.i < f[i + 1]))
      s.must(`execution ${j + 1} precedes its step callback`, sf[i] === undefined || e.i < sf[i])
    })
    sf.forEach((w, i) => s.must(`step callback ${i + 1} follows its response and precedes the next request`, f[i] < w && (f[i + 1] === undefined || w < f[i + 1])))
  },
  hooks(s, { R, E, sc }) {
    const calls = E.allCalls
    for (const [cb, list] of [['pre', sc.pre], ['post', sc.post]]) {
      if (!list)
        continue
      const got = R.calls(cb)
      s.must(`the ${cb}-call hook runs exactly for the right calls`, got.length === list.length, `${got.length} calls, expected ${list.length}`)
      list.forEach((ci, j) => {
        if (!got[j])
          return
        const x = calls[ci]
        s.is(`${cb}-call hook ${j + 1} gets the ${cb === 'pre' ? 'call' : 'result'}`, got[j][0], cb === 'pre' ? x.raw : x.postArg ?? x.result)
        s.is(`${cb}-call hook ${j + 1} gets the tool options`, got[j][1], open({ toolCallId: x.raw.toolCallId }))
      })
    }
    if (sc.validated) {
      const got = R.calls('validate')
      s.must('the validator runs once per call', got.length === sc.validated.length, `${got.length} calls`)
      sc.validated.forEach((v, i) => s.is('the validator gets the parsed arguments', got[i]?.[0], v))
    }
  },
  events(s, { R, E, out }) {
    if (!E.isStream)
      return
    const st = out.streams.eventStream
    if (!s.must('the event stream is returned', !!st, 'missing'))
      return
    for (const k of Object.keys(E.events)) {
      if (k === 'tool-result' || k === 'tool-call' || k === 'text' || k === 'reasoning' || k === 'step')
        s.is(`${k} events`, arr(st.items.filter(t => kindOf(t)?.startsWith(`${k}.`)), st.star), E.events[k])
    }
    s.must('only known event kinds', st.items.every(t => kindOf(t)), 'an event without a definite type')
    s.must('the event stream closes', st.end.length === 1 && st.end[0] === 'closed', st.end.join('|'))
    // bracketing per step
    const types = st.items.map(kindOf)
    let depth = 0
    const okNest = types.every((t) => {
      if (t === 'step.start')
        return depth++ === 0
      if (t === 'step.done')
        return --depth === 0
      return depth === 1
    })
    s.must('every event lies between step-start and step-done', okNest && depth === 0, types.join(' '))
    for (const k of ['text', 'reasoning']) {
      let openK = false
      const good = types.every((t) => {
        if (t === `${k}.start`)
          return !openK && (openK = true)
        if (t === `${k}.delta`)
          return openK
        if (t === `${k}.done`)
          return openK && !(openK = false)
        return t !== 'step.done' || !openK
      })
      s.must(`${k} deltas lie between start and done`, good && !openK, types.join(' '))
    }
  },
  eventCallback(s, { R, E, out }) {
    if (!E.isStream)
      return
    const evs = out.streams.eventStream?.items ?? []
    const got = R.calls('onEvent')
    s.must('every event is given to the event callback', got.length === evs.length, `${got.length} callbacks for ${evs.length} events`)
    evs.forEach((e, i) => s.must(`event ${i + 1} is the one given to the callback`, sameEvent(got[i]?.[0], e), `event ${i + 1} differs`))
  },
  texts(s, { E, out }) {
    if (!E.isStream)
      return
    for (const [name, items] of [['textStream', E.textItems], ['reasoningTextStream', E.reasoningItems]]) {
      const st = out.streams[name]
      if (!s.must(`${name} is returned`, !!st, 'missing'))
        continue
      s.is(`${name} delivers every fragment once, in order`, arr(st.items, st.star), items)
      s.must(`${name} closes`, st.end.length === 1 && st.end[0] === 'closed', st.end.join('|'))
    }
  },
  abort(s, { R, sc }) {
    const n = l => R.entries(l)
    const ex = n(l => l.startsWith('cb:exec:'))
    s.must('no tool starts after the abort', ex.length === sc.want.execs, `${ex.length} executions, expected ${sc.want.execs}`)
    s.must('no request is sent after the abort', R.requests.length === sc.want.requests, `${R.requests.length} requests, expected ${sc.want.requests}`)
    if (sc.want.stops !== undefined)
      s.must('the stop condition is not consulted after the abort', n('cb:stopWhen').length === sc.want.stops, `${n('cb:stopWhen').length} evaluations`)
  },
  full(s, { R, E, out }) {
    if (!E.isStream)
      return
    const st = out.streams.fullStream
    if (!s.must('the full stream is returned', !!st, 'missing'))
      return
    const want = E.raw.flatMap(t => (E.isRes ? eventsOf(t) : chunksOf(t)))
    s.is('the full stream delivers every chunk once, unmodified, in order', arr(st.items, st.star), want)
    s.must('the full stream closes', st.end.length === 1 && st.end[0] === 'closed', st.end.join('|'))
  },
  /** a run that fails goes no further */
  failStop(s, { R, E, sc }) {
    s.must('no request follows the failing step', R.requests.length === (sc.failAt ?? 0) + 1, `${R.requests.length} requests`)
    void E
  },
  /** only permitted calls run although the run fails */
  failExecs(s, { R, E, sc }) {
    const allowed = new Set(sc.execs ? [] : E.allCalls.map(c => c.name))
    R.entries(l => l.startsWith('cb:exec:')).forEach((e) => {
      s.must(`execution of ${e.label} was permitted`, allowed.has(e.label.slice(8)), 'its call was rejected')
    })
    s.must('no request follows the failing step', R.requests.length === (sc.failAt ?? 0) + 1, `${R.requests.length} requests`)
  },
  failure(s, { R, E, out, sc }) {
    if (!E.isStream) {
      s.must('the run fails', !R.ok && !!R.err, 'it may resolve')
      if (R.err)
        s.is('with the documented error', R.A.tree(R.err.st, R.err.v), sc.fail)
      return
    }
    for (const name of R.o.promises) {
      const p = out.promises[name]
      s.must(`promise ${name} rejects`, p && !p.ok && p.err, p ? 'it may resolve or never settles' : 'missing')
      if (p?.err)
        s.is(`promise ${name} carries the documented error`, p.err, sc.fail)
    }
    for (const name of R.o.streams) {
      const st = out.streams[name]
      s.must(`stream ${name} errors`, st && st.end.length === 1 && st.end[0] === 'errored', st ? st.end.join('|') : 'missing')
      if (st?.err)
        s.is(`stream ${name} carries the documented error`, st.err, sc.fail)
    }
  },
}
const typeKey = t => (t == null ? '-' : t.kind === 'object' ? `{${Object.entries(t.props).map(([k, e]) => `${k}:${typeKey(e.v)}`).sort().join(',')}}` : t.kind === 'array' ? `[${t.items.map(typeKey).join(',')}]` : t.kind === 'union' ? `(${t.alts.map(typeKey).sort().join('|')})` : t.kind === 'const' ? `c:${String(t.v)}` : t.v?.k ?? t.kind)
const sameEvent = (a, b) => a != null && typeKey(a) === typeKey(b)

/** the order of effects of concurrent calls is not specified, only what comes of them */
const LAST_FIRST = new Set(['requests', 'result', 'steps', 'stepCallback', 'usage', 'model', 'requestCount'])
export const concerns = (sc, aspects) => !sc.lastFirst || aspects.some(a => LAST_FIRST.has(a))

/** check the given aspects of a scenario on one operation */
export const checkChat = (rep, id, key, aspects, cfg) => {
  rep.scenario(`${id}: ${key}`, (s) => {
    const x = chatScenario(s, id, key, cfg)
    x.out = (x.E ? x.E.isStream : x.o.stream) ? outputs(x.R) : null
    if (cfg?.debug)
      cfg.debug(x)
    ASPECTS.exact(s, x)
    if (x.sc.abort)
      return ASPECTS.abort(s, x)
    for (const a of aspects) {
      if (x.sc.lastFirst && !LAST_FIRST.has(a))
        continue
      if (x.sc.fail && !FAIL_OK.has(a))
        continue
      ASPECTS[a](s, x)
    }
  })
}
const FAIL_OK = new Set(['failure', 'order', 'failStop', 'failExecs'])
export { ABSENT, ANY, C, cat, CHAT, errorOf, jsonOf, match, NUM, OBJ, oneOf, op, open, OPS, outputs, pred, S, sym, T }
