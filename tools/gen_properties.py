#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

SH='packages/shared/src'; SC='packages/shared-chat/src'; SS='packages/shared-stream/src'
GT='packages/generate-text/src/index.ts'; ST='packages/stream-text/src/index.ts'
GO='packages/generate-object/src/index.ts'; SO='packages/stream-object/src/utils'
RE='packages-ext/responses/src/utils/responses.ts'; TG='packages-ext/telemetry/src/wrapped/generate-text.ts'; TS='packages-ext/telemetry/src/wrapped/stream-text.ts'
TR='packages/generate-transcription/src/index.ts'; STR='packages/stream-transcription/src/index.ts'
SP='packages/generate-speech/src/index.ts'; SSP='packages/stream-speech/src/index.ts'; GI='packages/generate-image/src/index.ts'
EM='packages/embed/src/utils'; MO='packages/model/src/utils'; PR='packages-ext/providers/src'

p('C01','Failed HTTP responses never pass as results',
  'Whatever operation sent the request and whichever step of a multi-step run it belongs to (including the download of a generated image), a response with a non-2xx status makes the operation fail with an API-call error that carries the response, its status code, status text, URL, headers and body text. A 2xx response without a body, or whose body is not a readable stream, makes it fail with an invalid-response error naming that reason. In neither case is a result returned, a stream item, event or step callback produced, or a tool run from that response.',
  ['inputs','fault_sequences','histories'],'every entry point, every status code, every step number at which the failure arrives',
  'the tests feed a few 4xx bodies to one or two entry points at step one; the obligation is per request site and per step',
  [SH+'/utils/response-catch.ts',SH+'/utils/post-json.ts',TR,STR,GI,MO+'/list-models.ts',MO+'/retrieve-model.ts'],
  [('status and body check on every response before its body is consumed',SH+'/utils/response-catch.ts')],
  ['returned promise','returned streams'])
p('C02','Provider fetch adapters keep failures failures',
  "A provider that ships its own fetch adapter (model-list reshaping, text-to-speech translation, token injection) hands a failed HTTP response on with its failing status, so that the calling operation still rejects with an API-call error. The adapter never produces a successful response from a failed one, and on success the response it returns carries the upstream payload. Apart from its documented translation it forwards the request as it was given: method, headers, abort signal and body. An access-token function is asked anew for every request.",
  ['inputs','fault_sequences'],'every provider adapter and every upstream status',
  'no test sends a failing response through a provider adapter',
  [PR+'/manual/providers/featherless.ts',PR+'/manual/providers/together-ai.ts',PR+'/special/providers/player2.ts',PR+'/special/providers/azure.ts'],
  [('adapter returns the upstream response when it is not ok','providers')],['Response seen by the caller'])
p('C03','Credentials reach nothing but request headers',
  'The API key and the caller\'s custom headers are sent only as headers of the request they were given for. They never appear in a request body or form, in a URL, in an error message, in a result, event, stream item, tool input, telemetry span or console line, and the download of an image from a server-supplied URL carries neither.',
  ['inputs','programs'],'every entry point, every option, success and failure paths',
  'a leak shows only when some test looks at the one place it leaks to; the tests look at few request bodies and at no error or span',
  [SH+'/utils/request-body.ts',SH+'/utils/request-headers.ts',SH+'/error/index.ts',GI,'packages-ext/telemetry/src/utils/record-span-options.ts'],
  [('credentials are stripped from the body',SH+'/utils/request-body.ts')],['fetch arguments','errors','spans','console'])
p('C04','Every request honours fetch, abort signal, headers and key',
  "Every request any operation sends, first or later step, goes through the caller's fetch function when one is given and the global one otherwise, and carries the caller's abort signal, or none when the caller gave none. On every API request (a download of a generated image is none), each custom header the caller gave, as a plain record or as a Headers object, is sent unchanged, and the authorization header is the bearer form of the key exactly when a key was given, unless the caller set the authorization header themselves.",
  ['inputs','configurations','histories'],'every request site times every subset of the connection options',
  'tests cover a custom fetch at a few sites and no Headers object, and no test lists all request sites',
  [SH+'/utils/post-json.ts',SH+'/utils/request-headers.ts',TR,STR,GI,MO+'/list-models.ts',MO+'/retrieve-model.ts'],
  [('shared request wiring',SH+'/utils/post-json.ts')],['fetch arguments'])
p('C05','Each operation calls its own endpoint with the right method',
  'Each operation sends its requests to its documented path under the given base URL, with the documented method and, for JSON bodies, the JSON content type. A base URL given as a string or URL object, with or without a trailing slash, keeps its own path and resolves to the same endpoint.',
  ['inputs','configurations'],'every operation and every form of base URL',
  'the recorded tests use one base URL form and never assert the URL for most operations',
  [SH+'/utils/request-url.ts',SH+'/utils/post-json.ts',SC+'/utils/chat.ts',RE,EM,MO,SP,SSP,GI,TR,STR],
  [('base URL joined with the path',SH+'/utils/request-url.ts')],['fetch arguments'])
p('C06','Bodies carry every API option and no local option',
  'The JSON body holds every option the operation does not handle itself, including ones this library does not know, under its snake_case name with its value unchanged, and leaves out options that are undefined. Connection options, hooks, stop and step-preparation functions, schemas, tool implementations and internal state are never serialized. Tools are offered with the name, description, parameter schema and strictness the caller gave them. Streaming operations always ask for a stream and non-streaming ones never do, in every step.',
  ['inputs','configurations','histories'],'every option subset, known and unknown, at every step',
  'tests snapshot a handful of bodies with a handful of options',
  [SH+'/utils/request-body.ts',SH+'/utils/case.ts',SH+'/utils/clean.ts',SC+'/utils/chat.ts',GT,ST,RE,GO,SO+'/stream-object.ts'],
  [('option stripping and key mapping',SH+'/utils/request-body.ts')],['fetch arguments'])
p('C07','Caller-owned objects are never modified',
  "No operation modifies anything the caller handed in: the options object, the message or input list and its items, tools, headers, schemas, arrays or nested option objects. This holds for one step and for many, with and without tools, on success and on failure.",
  ['inputs','histories'],'all inputs, all step counts, all endings',
  'a mutation shows only if a test re-reads its inputs afterwards; one or two do',
  [GT,ST,RE,TG,TS,GO,SO+'/stream-object.ts',SH+'/utils','packages-top/xsschema/src/json-schema.ts','packages/tool/src/utils'],
  [('inputs are cloned or copied before use',GT)],['caller-owned objects'])
p('C08','The tool loop goes on exactly when it should',
  'After each completed model response the stop condition is evaluated once, with the step history including the step just finished; when it says stop, when the model called no tool, or when the caller aborted while the step was under way, no tool is started afterwards and no further request is sent. Otherwise every requested tool call is executed and exactly one further request follows, carrying the conversation so far. Without a stop condition the run ends after the first response.',
  ['inputs','histories','schedules'],'every stop condition, number of steps, tool-call list and abort point',
  'tests run one or two step counts with well-behaved stop conditions',
  [GT,ST,RE,TG,TS,SC+'/utils/stop-when.ts'],
  [('stop decision before tools and before the next step',GT)],['fetch calls','tool executions','stop condition calls'])
p('C09','Tools run only on parsed, validated, permitted input',
  "A tool's implementation runs only after the pre-call hook allowed the call, the arguments (as the hook left them) parsed as JSON (blank meaning an empty object) and passed the tool's validator when it has one, and the caller has not aborted; it then receives exactly the validated value, plus the abort signal, the call id and, in the chat-completion entry points, the conversation. When the hook supplies a result, that result is used and the tool does not run. The same holds in every entry point that runs tools, including the traced and the responses variants.",
  ['inputs','histories','schedules'],'every hook behaviour, argument text, validator outcome and abort point, in every tool-running entry point',
  'tests cover the hooks in one entry point with cooperative hooks; order and forwarding in the others is unexamined',
  [SC+'/utils/execute-tool.ts',GT,ST,RE,TG,TS,'packages-ext/telemetry/src/utils/wrap-tool.ts'],
  [('hook, lookup, parse, validate, abort check, execute',SC+'/utils/execute-tool.ts')],['tool execute arguments','hook calls'])
p('C10','A failing tool becomes an error result, not a crash',
  'When a hook throws, the named tool does not exist, its arguments do not parse or validate, or its implementation throws, the run continues and the model is told through an error result for that call; the other calls of the step are unaffected. A result or call returned by a hook for a different call id, or a model call without a name (or, where the server can leave them out, without arguments) fails the run with an invalid-tool-call error stating which. The post-call hook runs exactly for calls whose implementation was started, and its replacement is what the model sees.',
  ['inputs','fault_sequences'],'every fault position in hook, lookup, parse, validate and execute',
  'tests inject some faults one at a time into a single helper',
  [SC+'/utils/execute-tool.ts'],[('every fallible stage is contained',SC+'/utils/execute-tool.ts')],['tool results','messages sent'])
p('C11','Every tool call is answered once, in order, under its id',
  'After tools ran, the conversation sent in the next request contains the assistant message with its tool calls, followed by exactly one tool message per call, in the order of the calls, each with the id of its call and the content produced for that call. Text, lists of content parts and other values are each encoded in the form the API accepts.',
  ['inputs','schedules'],'any number of calls finishing in any order',
  'tests use one or two calls that finish in order',
  [GT,ST,RE,TG,TS,SC+'/utils/internal/to-tool-message-content.ts','packages-ext/responses/src/utils/normalize-tool.ts'],
  [('results collected in call order',GT)],['next request body'])
p('C12','Steps are recorded and reported exactly once',
  "Every finished model response of a run that is not aborted yields exactly one step, appended in order to the step history, reported once to the step callback, and present in the final result with that response's finish reason, text, tool calls, tool results and usage. For streamed runs the finish callback is called exactly once, after every step callback, with the last step, on success as well as on failure; a finish callback that fails makes the run fail.",
  ['inputs','histories','fault_sequences'],'any number of steps and any ending',
  'tests look at one- and two-step successful runs',
  [GT,ST,RE,TG,TS],[('one push and one callback per step',GT)],['step callbacks','result steps'])
p('C13','Token usage is mapped and accumulated correctly',
  "A step's usage reports the server's prompt, completion and total counts under input, output and total; the total usage of a run is their component-wise sum over all steps, and the run's usage is that of its last step. When a streamed run received no usage at all, both are undefined.",
  ['inputs','histories'],'all counts, any number of steps',
  'tests sum one or two fixed responses',
  [SC+'/utils/usage.ts','packages-ext/responses/src/utils/normalize-usage.ts',GT,ST,RE,TG,TS,SSP],
  [('usage normalisation and accumulation',SC+'/utils/usage.ts')],['usage, totalUsage'])
p('C14','Every stream and result promise settles on every ending',
  'However a streaming operation ends (normal completion, request failure, error status, malformed or error event, upstream break, abort, failing tool, hook or callback), each stream it returned is closed on success or errored on failure, and each promise in its result is resolved or rejected. On failure all of them carry the same underlying error.',
  ['fault_sequences','histories','schedules'],'every ending at every point of the exchange, for every returned stream and promise',
  'tests cover normal completion and one error ending',
  [ST,TS,RE,STR,SSP,SS+'/controller.ts'],[('single settlement point covering all outputs',ST)],['returned streams','returned promises'])
p('C15','Cancelling one output leaves the others intact',
  'When a consumer cancels one of the streams returned by an operation that returns several, the remaining streams still deliver every item, the run still completes all its steps, and its result promises still resolve with complete data.',
  ['schedules','histories'],'every choice of cancelled stream and moment of cancellation',
  'no test cancels a stream',
  [ST,TS,RE,STR,SS+'/controller.ts','packages/utils-reasoning/src/extract-reasoning-stream.ts'],
  [('a cancelled output is detached',SS+'/controller.ts')],['other streams','result promises'])
p('C16','Streamed deltas are conserved and well bracketed',
  'Each text, refusal, reasoning or tool-argument fragment the server sends appears exactly once, unchanged and in order, in the event stream, in the matching text or reasoning stream, and in the accumulated assistant message and step. Each kind starts with one start event before its first delta and ends with one done event holding the concatenation (in the responses operation per item or part the server opens and finishes); each step opens with step-start and closes with step-done; every event delivered to the event stream is also given to the event callback.',
  ['inputs','histories'],'every sequence of chunks',
  'tests replay a few recorded chunk sequences',
  [ST,TS,RE],[('chunk handler',ST)],['event stream','text streams','event callback','next request'])
p('C17','The full stream forwards everything the server sent',
  'The full stream of text streaming, object streaming and the responses operation delivers every parsed server chunk or event, unmodified, once and in arrival order, whatever its type or content and across all steps.',
  ['inputs','histories'],'every chunk type and step',
  'tests replay recorded sequences of common chunk types',
  [ST,TS,RE],[('chunk forwarded before it is interpreted',ST)],['full stream'])
p('C18','Malformed or error events surface as typed errors',
  'A server-sent event whose data is not JSON fails the stream with a JSON-parse error carrying the text, and one carrying an error payload fails it with a remote-API error carrying the payload; nothing is skipped except events with empty or null data and the end marker. A non-streaming response body that is not JSON rejects with a JSON-parse error carrying the text, and a chat response without choices with an invalid-response error.',
  ['inputs','fault_sequences'],'every event position and payload, in every streaming operation',
  'tests feed one malformed event to one helper',
  [SS+'/json.ts',SH+'/utils/response-json.ts',GT,TG],[('parse and error detection per event',SS+'/json.ts')],['stream errors','rejections'])
p('C19','Structured results are returned only after validation',
  "The object returned by object generation is the validator's output for the parsed model text; in array mode it is the validator's output for each element, in order. If validation reports issues, the text is empty or it is not JSON, the call rejects (validation error, invalid-response error, JSON-parse error respectively) and never returns unvalidated data. All other result fields are those of the underlying text generation.",
  ['inputs'],'every model text and schema',
  'tests use valid model output only',
  [GO,'packages-top/xsschema/src/validate.ts'],[('validation of the parsed text',GO)],['returned promise'])
p('C20','Structured generation asks for the given schema',
  "Object generation and object streaming request a JSON-schema response format with the caller's schema converted to JSON Schema, its name (a default name when absent), its description and strictness, which is on unless disabled; strict schemas forbid additional properties on every object, and array mode wraps the schema as the elements of one required array property. Generation and streaming send the same format for the same options.",
  ['inputs','configurations'],'every schema and strict/output setting, both operations',
  'tests snapshot one schema per operation',
  [GO,SO+'/stream-object.ts','packages/generate-object/src/_wrap.ts','packages-top/xsschema/src/json-schema.ts'],
  [('response_format construction',GO)],['request body'])
p('C21','Object streams deliver every element and snapshot',
  'In array mode the element stream delivers each element of the final array exactly once and in order, however the text is cut into chunks, and nothing for an empty array. In object mode the partial stream delivers each changed snapshot, ending with the final one. The text stream still delivers the whole text in both modes, and an empty response makes the streams fail.',
  ['inputs','schedules'],'every chunking of the text',
  'tests use one chunking, one element per chunk',
  [SO+'/to-element-stream.ts',SO+'/to-partial-object-stream.ts',SO+'/stream-object.ts'],
  [('incremental parse and emission index',SO+'/to-element-stream.ts')],['element stream','partial object stream','text stream'])
p('C22','Errors are typed, coded and carry their cause',
  'Every library error is an Error and a library base error, has a stable code specific to its class and its class name, keeps the cause it wraps and exposes the metadata it was created with (status, URL, headers and body text for API errors; reason, tool, input or text for the others); the instance test of a class accepts exactly its own instances. Parse failures wrap the original parse error.',
  ['inputs'],'every error class and construction',
  'tests construct some classes by hand and never look at the errors operations really throw',
  [SH+'/error/index.ts'],[('error constructors',SH+'/error/index.ts')],['thrown errors'])
p('C23','Tool builders keep name, schema, strictness, code, validator',
  "A tool built by any builder exposes the given name, description and implementation and the JSON Schema of the given parameters, strict (additional properties forbidden, strict flag on) unless strictness is disabled, in which case the schema is sent as given with the flag off. Builders that take a validating schema attach a validator that returns that schema's verdict.",
  ['inputs','configurations'],'every builder and strict setting',
  'tests snapshot one tool per builder',
  ['packages/tool/src/utils/tool.ts','packages/tool/src/utils/define-tool.ts','packages/tool/src/utils/raw-tool.ts'],
  [('tool descriptor construction','packages/tool/src/utils')],['returned tool'])
p('C24','Step preparation is isolated and affects one step only',
  'Before each request the step-preparation hook is called once with the step number, the model, and independent copies of the conversation and steps, so that nothing it does to them affects the run. What it returns (model, tool choice, input) replaces the corresponding part of that one request only; the recorded conversation and later steps start again from the unprepared values, and absent fields fall back to them.',
  ['inputs','histories'],'every hook behaviour and step number',
  'tests cover a cooperative hook for one or two steps',
  [SC+'/utils/prepare-step.ts',GT,ST,RE,TG,TS],[('copies and per-step overrides',SC+'/utils/prepare-step.ts')],['hook arguments','request body','recorded messages'])
p('C25','Traced operations behave like the plain ones',
  'The traced text generation, text streaming and embedding operations send the same requests, run the same tools and hooks with the same arguments, deliver the same events, stream items and callbacks and return or reject with the same values as their plain counterparts for the same options, in every step. Telemetry options never reach the server.',
  ['inputs','histories','fault_sequences','configurations'],'every option, response and step sequence',
  'tests compare neither implementation with the other',
  [TG,TS,'packages-ext/telemetry/src/wrapped/embed.ts','packages-ext/telemetry/src/utils/wrap-tool.ts',GT,ST],
  [('mirrored implementation plus spans',TG)],['requests','hook calls','events','results'])
p('C26','Every span is ended once and failures are recorded',
  "Every span a traced operation starts, one per model request, embedding call and tool execution, is ended exactly once on every outcome. When the traced work fails, the error is recorded on its span with error status and is rethrown unchanged; otherwise the span has no error. Request and embedding spans carry the caller's telemetry attributes, the model requested, the server's address and port, and the usage the server reported for that request; request spans also mirror the sampling settings, the conversation and the tools on offer. Tool spans name their tool, call and input; every span is named after the operation it traces.",
  ['fault_sequences','histories'],'every outcome of every traced call',
  'tests look at successful spans only',
  ['packages-ext/telemetry/src/utils/record-span.ts',TG,TS,'packages-ext/telemetry/src/wrapped/embed.ts','packages-ext/telemetry/src/utils/wrap-tool.ts'],
  [('span ended on both exits','packages-ext/telemetry/src/utils/record-span.ts')],['tracer and span calls'])
p('C27','Library code runs on any web-standard runtime',
  'Apart from the provider preset modules, which read environment variables, no library module imports a Node built-in or a package it does not declare as a dependency, or uses a global that is specific to Node or to browsers. Only web-standard globals present in browsers, Node, Deno, Bun and workers are used.',
  ['programs','configurations'],'every module of every package',
  'the tests run on one runtime only',
  ['packages','packages-top','packages-ext'],[('imports and free identifiers of each module','packages')],['module graph'])
p('C28','The umbrella package re-exports every core package',
  'The umbrella package exports every public value of every core package under the same name and bound to the same thing, with no name lost to a conflict; the telemetry package exports the same set with its traced replacements.',
  ['programs','configurations'],'every public name of every package',
  'no test enumerates the exports',
  ['packages-top/xsai/src/index.ts','packages-ext/telemetry/src/index.ts'],[('star re-exports','packages-top/xsai/src/index.ts')],['module exports'])
p('C29','Provider descriptors are complete and independent',
  "Each provider factory's methods return request options carrying the base URL and key (or headers and fetch adapter) the factory was created with, the requested model, and the extra options given for that call. Each returned descriptor is independent: requesting another model, passing other options or creating another provider never changes a descriptor returned earlier or leaks into one returned later.",
  ['inputs','histories','configurations'],'every factory, method and sequence of calls',
  'tests call one method of a few providers once',
  [PR+'/utils/create.ts',PR+'/utils/merge.ts',PR+'/generated/create.ts',PR+'/manual/providers',PR+'/special/providers'],
  [('descriptor construction per call',PR+'/utils/create.ts')],['returned descriptors'])
p('C30','Provider presets use their own documented key and URL',
  "Every ready-made provider is created by its own factory with the API key from the environment variable its documentation names and no other, an empty key when that is unset, and resolves to the base URL documented for it.",
  ['configurations','programs'],'every preset of the provider package',
  'tests import a few presets',
  [PR+'/generated/index.ts',PR+'/generated/create.ts',PR+'/manual/index.ts',PR+'/special/index.ts'],
  [('preset construction',PR+'/generated/index.ts')],['descriptors of presets'])
p('C31','Retrying fetch is bounded and repeats the same request',
  'The retrying fetch returns the first response that is successful or whose status is not in the retry list, and otherwise retries with the same input and init at most the configured number of times, waiting the configured delay before each retry, and then returns the last response. A rejected fetch rejects at once; partial options fall back to the documented defaults.',
  ['inputs','fault_sequences','configurations'],'every status sequence and configuration',
  'the retrying fetch has no test',
  ['packages-top/xsfetch/src/index.ts'],[('retry counter','packages-top/xsfetch/src/index.ts')],['fetch calls','returned response'])
p('C32','Stream smoothing and simulation neither lose nor invent',
  'The smoothing transform only re-chunks and spaces (it waits the configured delay between the pieces it finds): the concatenation of what it emits is the concatenation of what it received, including an unterminated tail at the end of the stream and text in front of a custom pattern, and it terminates for every pattern. The simulated stream emits exactly the given chunks in order, waiting the initial delay before the first and the chunk delay before each later one, and then closes.',
  ['inputs','schedules'],'every text, chunking and pattern',
  'the smoothing transform has no test',
  ['packages/utils-stream/src/smooth-stream.ts','packages/utils-stream/src/simulate-readable-stream.ts'],
  [('buffer remainder and flush','packages/utils-stream/src/smooth-stream.ts')],['transform output'])
p('C33','Reasoning extraction loses nothing and ends both streams',
  'The streaming reasoning extractor routes all text outside the tags to the text stream and all text inside to the reasoning stream, keeps back only what could still be part of a tag, and delivers what is kept back when the source ends; a block that follows an earlier block of its stream is set off by the separator. The whole-text extractor returns what closed blocks hold as reasoning and what is outside them as text, each joined by the separator. Both streams of the streaming extractor close when the source ends and fail with its error when it fails.',
  ['inputs','schedules','fault_sequences'],'every chunking and ending',
  'tests use recorded texts that end normally',
  ['packages/utils-reasoning/src/extract-reasoning-stream.ts','packages/utils-reasoning/src/extract-reasoning.ts'],
  [('buffering state machine','packages/utils-reasoning/src/extract-reasoning-stream.ts')],['text stream','reasoning stream'])
p('C34','Schemas convert through their own vendor or fail clearly',
  'A schema is converted by its own JSON Schema capability when it has one and otherwise by the converter of its declared vendor, always producing the draft the API expects; an unknown vendor or a missing vendor dependency rejects with an error naming it. Validation awaits asynchronous validators, returns the validated value and rejects with the issues otherwise.',
  ['inputs','configurations'],'every vendor and validator kind',
  'tests cover installed vendors with synchronous validators',
  ['packages-top/xsschema/src/to-json-schema','packages-top/xsschema/src/validate.ts'],
  [('vendor dispatch','packages-top/xsschema/src/to-json-schema/vendors/index.ts')],['returned schema','rejections'])
p('C35','Transcription forms carry every documented field',
  'A transcription request is a multipart form with the model, the file under the given name, and each of language, prompt and temperature exactly when given; the non-streaming form adds the response format (JSON by default) and the timestamp granularity exactly in verbose mode (segment by default), and the streaming form asks for a stream. No content-type header is set by hand.',
  ['inputs','configurations'],'every subset of options, both operations',
  'tests send one form each and do not inspect optional fields',
  [TR,STR],[('form construction',TR)],['request body'])
p('C36','Generated images come back complete, in order, correctly typed',
  'The result holds one image per item the server returned, in the same order, the first one also as the single image; base64 items become data URLs of the recognised format and URL items are downloaded and returned as data URLs with the downloaded type. An item that is neither fails the call.',
  ['inputs'],'every list of items and image format',
  'image generation has no test',
  [GI],[('per-item conversion',GI)],['returned images'])
p('C37','Message helpers build exactly the documented message',
  "Each message helper returns a message of its own role with the given content unchanged: system, user, text and image parts, assistant text or one or several tool calls, and tool messages answering the given call's id.",
  ['inputs'],'every content value',
  'the helpers have no test',
  ['packages/utils-chat/src/message.ts'],[('message construction','packages/utils-chat/src/message.ts')],['returned messages'])
p('C38','Streamed speech delivers all audio and the reported usage',
  "Each audio fragment of a speech stream is decoded and delivered once and in order; other events produce no audio. The usage promise resolves with the server's counts when reported, with undefined when the stream ends without them, and rejects when the stream fails.",
  ['inputs','fault_sequences'],'every event sequence and ending',
  'speech streaming has no test',
  [SSP],[('event transform',SSP)],['audio stream','usage promise'])
p('C39','Stop conditions mean what their names say',
  'The all, any and negation combinators are exactly the logical combination of their conditions on the same step context; the step-count condition holds from that number of recorded steps on; the tool-call condition holds exactly when the finished step called a tool (of the given name, if one is given).',
  ['inputs'],'all conditions and step histories',
  'tests sample a few contexts',
  [SC+'/utils/stop-when.ts'],[('predicates over the step context',SC+'/utils/stop-when.ts')],['returned predicate'])
p('C40','Plain results project the response faithfully',
  "Embedding, model and speech calls return exactly what the server sent: the first embedding or all of them in order together with the caller's input and the server's usage, the listed models, the retrieved model, the audio bytes. Text generation returns the first choice's text (text parts joined by line breaks), reasoning, finish reason and tool calls, and transcription the parsed body.",
  ['inputs'],'every response',
  'tests compare one recorded response each',
  [EM,MO,SP,GT,TG,TR],[('response projection',EM)],['returned values'])
p('C41','Streamed transcription text equals what was heard',
  'Each transcription delta event is delivered once, in order, on the full stream and its text on the text stream, and the text promise resolves with the concatenation of all deltas. Other events add no text.',
  ['inputs','histories'],'every event sequence',
  'one recorded sequence is tested',
  [STR],[('event sink',STR)],['text stream','full stream','text promise'])
p('C42','Streamed output is delivered as it arrives',
  'Whatever the server has sent on a streamed response is delivered on every stream, and to the event callback, before anything further arrives: no text or reasoning delta, tool-call event, raw event, audio fragment, transcription delta, changed object snapshot, or array element whose successor has begun is withheld until later data, the end of the response or the end of the run. This holds in every step: the results of tools and the report of a finished step are out although the next step is still being prepared, its request unanswered or its answer open, and what came before a tool call is out although the tool has not returned (only the raw event that ends a response may wait for the tools it leads to). Smoothing passes a complete piece on without waiting for the next one to end. While an answer is open, the run is not reported as finished and its streams stay open.',
  ['inputs','schedules','histories'],'every point at which a server, a tool or a hook may pause, in every step',
  'tests read streams of recorded responses to the end, where withheld output has caught up',
  [ST,RE,TS,SSP,STR,SO+'/to-element-stream.ts',SO+'/to-partial-object-stream.ts','packages/utils-stream/src/smooth-stream.ts',SS],
  [('every delta is enqueued when its event is read',ST),('elements before the last one begun are enqueued',SO+'/to-element-stream.ts')],['every result stream','onEvent','onStepFinish'])
# not claimed by this family
p('C90','Delays and pacing match the configuration in real time',
  'Smoothing, simulated streams and retries wait at least the configured delay between items and not noticeably longer, under any load.',
  ['schedules'],'all timer schedules','tests do not measure time',
  ['packages/utils-stream/src','packages-top/xsfetch/src/index.ts'],[('timer based sleep','@moeru/std')])
p('C91','Partial objects always converge to the parsed text',
  'For every JSON text and every prefix, the partial object is a prefix of the final object in the sense of the JSON grammar, and the last partial equals the parsed text.',
  ['inputs'],'every JSON text and prefix','tests use one object',
  [SO+'/to-partial-object-stream.ts'],[('best-effort parser','best-effort-json-parser (external)')])
p('C92','Streams respect backpressure and bounded memory',
  'Memory held by an operation stays bounded when a consumer reads slowly or never reads one of several returned streams.',
  ['schedules'],'all consumer schedules','not tested',
  [ST,RE,SS+'/controller.ts'],[('unbounded controller queues',SS+'/controller.ts')])
p('C93','The non-streaming and streaming extractors agree on every text',
  'For every text and every chunking, the concatenated outputs of the streaming reasoning extractor equal the outputs of the one-shot extractor.',
  ['inputs'],'every text and chunking','a few recorded texts',
  ['packages/utils-reasoning/src'],[('regular expression versus state machine','packages/utils-reasoning/src')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
