From e1843bddb46a3750301824fe3ec04a6ff2acf953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:48 +0000
Subject: [PATCH 01/26] fix: keep headers given as a Headers object and
 caller-set header names

---
 packages/shared/src/utils/post-json.ts       |  5 +----
 packages/shared/src/utils/request-headers.ts | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/packages/shared/src/utils/post-json.ts b/packages/shared/src/utils/post-json.ts
index a841b9b..ffecd3c 100644
--- a/packages/shared/src/utils/post-json.ts
+++ b/packages/shared/src/utils/post-json.ts
@@ -8,10 +8,7 @@ import { responseCatch } from './response-catch'
 export const postJSON = async (path: string, options: WithUnknown<CommonRequestOptions>) =>
   (options.fetch ?? globalThis.fetch)(requestURL(path, options.baseURL), {
     body: requestBody(options),
-    headers: requestHeaders({
-      'Content-Type': 'application/json',
-      ...options.headers,
-    }, options.apiKey),
+    headers: requestHeaders(options.headers, options.apiKey, { 'Content-Type': 'application/json' }),
     method: 'POST',
     signal: options.abortSignal,
   }).then(responseCatch)
diff --git a/packages/shared/src/utils/request-headers.ts b/packages/shared/src/utils/request-headers.ts
index b9a8c9a..6fc2732 100644
--- a/packages/shared/src/utils/request-headers.ts
+++ b/packages/shared/src/utils/request-headers.ts
@@ -2,7 +2,18 @@ import type { CommonRequestOptions } from '../types'
 
 import { clean } from './clean'
 
-export const requestHeaders = (headers?: CommonRequestOptions['headers'], apiKey?: CommonRequestOptions['apiKey']) => clean({
-  Authorization: apiKey !== undefined ? `Bearer ${apiKey}` : undefined,
-  ...headers,
-})
+/** headers set by the caller win over the defaults, whatever the case of their names */
+export const requestHeaders = (headers?: CommonRequestOptions['headers'], apiKey?: CommonRequestOptions['apiKey'], defaults?: Record<string, string>) => {
+  const custom: Record<string, string> = headers instanceof Headers
+    ? Object.fromEntries(headers.entries())
+    : { ...headers }
+  const names = Object.keys(custom).map(name => name.toLowerCase())
+
+  return clean({
+    ...Object.fromEntries(
+      Object.entries({ ...defaults, Authorization: apiKey !== undefined ? `Bearer ${apiKey}` : undefined })
+        .filter(([name]) => !names.includes(name.toLowerCase())),
+    ),
+    ...custom,
+  })
+}
-- 
2.43.0


From 7a9337424f4087501d45b7f1c0f4cb6d2b28e428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 02/26] fix: send openrouter transforms and extra headers given
 as a Headers object

---
 packages-ext/providers/src/manual/providers/openrouter.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/openrouter.ts b/packages-ext/providers/src/manual/providers/openrouter.ts
index 7a85d95..a20dd24 100644
--- a/packages-ext/providers/src/manual/providers/openrouter.ts
+++ b/packages-ext/providers/src/manual/providers/openrouter.ts
@@ -104,10 +104,11 @@ export const createOpenRouter = (apiKey: string, baseURL = 'https://openrouter.a
     chat: (model: string, openRouterOptions?: OpenRouterOptions) => {
       const requestOptions: CommonRequestOptions = { apiKey, baseURL, model }
 
-      const toOpenRouterOptions = ({ extraHeaders, models, provider }: OpenRouterOptions): Record<string, unknown> => {
+      const toOpenRouterOptions = ({ extraHeaders, models, provider, transforms }: OpenRouterOptions): Record<string, unknown> => {
         if (extraHeaders != null) {
-          requestOptions.headers ??= {}
-          Object.assign(requestOptions.headers, extraHeaders)
+          requestOptions.headers = extraHeaders instanceof Headers
+            ? Object.fromEntries(extraHeaders.entries())
+            : { ...extraHeaders }
         }
 
         let transformedProvider: Record<string, unknown> | undefined
@@ -118,6 +119,7 @@ export const createOpenRouter = (apiKey: string, baseURL = 'https://openrouter.a
         return objCamelToSnake({
           models,
           provider: transformedProvider,
+          transforms,
         })
       }
 
-- 
2.43.0


From 3050aeaffd11fd696f7a97f6fe2f199b9d471b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 03/26] fix: return a separate descriptor from every provider
 call

---
 packages-ext/providers/src/utils/create.ts | 22 +++++++++++-----------
 packages-ext/providers/src/utils/merge.ts  |  2 +-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/packages-ext/providers/src/utils/create.ts b/packages-ext/providers/src/utils/create.ts
index fd068b1..ca07480 100644
--- a/packages-ext/providers/src/utils/create.ts
+++ b/packages-ext/providers/src/utils/create.ts
@@ -1,45 +1,45 @@
 import type { ChatProvider, ChatProviderWithExtraOptions, CreateProviderOptions, EmbedProvider, EmbedProviderWithExtraOptions, ImageProvider, ModelProvider, ModelProviderWithExtraOptions, SpeechProvider, SpeechProviderWithExtraOptions, TranscriptionProvider, TranscriptionProviderWithExtraOptions } from './types'
 
 export const createChatProvider = <T extends string = string>(options: CreateProviderOptions): ChatProvider<T> => ({
-  chat: model => Object.assign(options, { model }),
+  chat: model => Object.assign({}, options, { model }),
 })
 
 export const createChatProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): ChatProviderWithExtraOptions<T, T2> => ({
-  chat: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  chat: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
 
 export const createEmbedProvider = <T extends string = string>(options: CreateProviderOptions): EmbedProvider<T> => ({
-  embed: model => Object.assign(options, { model }),
+  embed: model => Object.assign({}, options, { model }),
 })
 
 export const createEmbedProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): EmbedProviderWithExtraOptions<T, T2> => ({
-  embed: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  embed: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
 
 export const createImageProvider = <T extends string = string>(options: CreateProviderOptions): ImageProvider<T> => ({
-  image: model => Object.assign(options, { model }),
+  image: model => Object.assign({}, options, { model }),
 })
 
 export const createModelProvider = (options: CreateProviderOptions): ModelProvider => ({
-  model: () => options,
+  model: () => ({ ...options }),
 })
 
 export const createModelProviderWithExtraOptions = <T = undefined>(options: Omit<CreateProviderOptions, 'model'>): ModelProviderWithExtraOptions<T> => ({
-  model: extraOptions => Object.assign(options, extraOptions),
+  model: extraOptions => Object.assign({}, options, extraOptions),
 })
 
 export const createSpeechProvider = <T extends string = string>(options: CreateProviderOptions): SpeechProvider<T> => ({
-  speech: model => Object.assign(options, { model }),
+  speech: model => Object.assign({}, options, { model }),
 })
 
 export const createSpeechProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): SpeechProviderWithExtraOptions<T, T2> => ({
-  speech: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  speech: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
 
 export const createTranscriptionProvider = <T extends string = string>(options: CreateProviderOptions): TranscriptionProvider<T> => ({
-  transcription: model => Object.assign(options, { model }),
+  transcription: model => Object.assign({}, options, { model }),
 })
 
 export const createTranscriptionProviderWithExtraOptions = <T extends string = string, T2 = undefined>(options: CreateProviderOptions): TranscriptionProviderWithExtraOptions<T, T2> => ({
-  transcription: (model, extraOptions) => Object.assign(options, { model }, extraOptions),
+  transcription: (model, extraOptions) => Object.assign({}, options, { model }, extraOptions),
 })
diff --git a/packages-ext/providers/src/utils/merge.ts b/packages-ext/providers/src/utils/merge.ts
index d623af9..c51fae9 100644
--- a/packages-ext/providers/src/utils/merge.ts
+++ b/packages-ext/providers/src/utils/merge.ts
@@ -1,4 +1,4 @@
 import type { UnionToIntersection } from 'type-fest'
 
 export const merge = <T extends object[]>(...arr: T): UnionToIntersection<T[number]> =>
-  Object.assign(arr[0], ...arr.slice(1)) as UnionToIntersection<T[number]>
+  Object.assign({}, ...arr) as UnionToIntersection<T[number]>
-- 
2.43.0


From cf31ef266a45f3106984585b0e3047c2017f110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 04/26] fix: keep failed responses failed in provider fetch
 adapters

---
 packages-ext/providers/src/manual/providers/featherless.ts | 5 +++--
 packages-ext/providers/src/manual/providers/together-ai.ts | 5 +++--
 packages-ext/providers/src/special/providers/player2.ts    | 6 +++++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/featherless.ts b/packages-ext/providers/src/manual/providers/featherless.ts
index 648404a..15bcf0d 100644
--- a/packages-ext/providers/src/manual/providers/featherless.ts
+++ b/packages-ext/providers/src/manual/providers/featherless.ts
@@ -14,7 +14,8 @@ export const createFeatherless = (apiKey: string, baseURL = 'https://api.feather
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.json() as Promise<unknown[]>)
-      .then(data => Response.json({ data, object: 'list' })),
+      .then(async res => res.ok
+        ? Response.json({ data: await res.json() as unknown[], object: 'list' })
+        : res),
   }),
 )
diff --git a/packages-ext/providers/src/manual/providers/together-ai.ts b/packages-ext/providers/src/manual/providers/together-ai.ts
index 55ac5e2..8681bb0 100644
--- a/packages-ext/providers/src/manual/providers/together-ai.ts
+++ b/packages-ext/providers/src/manual/providers/together-ai.ts
@@ -18,7 +18,8 @@ export const createTogetherAI = (apiKey: string, baseURL = 'https://api.together
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.json() as Promise<unknown[]>)
-      .then(data => Response.json({ data, object: 'list' })),
+      .then(async res => res.ok
+        ? Response.json({ data: await res.json() as unknown[], object: 'list' })
+        : res),
   }),
 )
diff --git a/packages-ext/providers/src/special/providers/player2.ts b/packages-ext/providers/src/special/providers/player2.ts
index a3d444c..fa5f5cb 100644
--- a/packages-ext/providers/src/special/providers/player2.ts
+++ b/packages-ext/providers/src/special/providers/player2.ts
@@ -47,7 +47,11 @@ export const createPlayer2 = (baseURL = 'http://localhost:4315/v1/', gameKey = '
       catch (err) {
         console.warn('Could not parse body as JSON:', err)
       }
-      return globalThis.fetch(newUrl, reqInit).then(async res => res.json() as Promise<{ data?: string }>).then((json: { data?: string }) => {
+      return globalThis.fetch(newUrl, reqInit).then(async (res) => {
+        if (!res.ok)
+          return res
+
+        const json = await res.json() as { data?: string }
         const base64 = json.data ?? ''
         const bytes = Uint8Array.fromBase64(base64)
         const body = new ReadableStream({
-- 
2.43.0


From be12f1aa6e6633e14da8b79074e2b7bc00f838cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 05/26] fix: smoothStream keeps the tail and text in front of a
 custom pattern

---
 packages/utils-stream/src/smooth-stream.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/utils-stream/src/smooth-stream.ts b/packages/utils-stream/src/smooth-stream.ts
index 17bc5e1..49e6a84 100644
--- a/packages/utils-stream/src/smooth-stream.ts
+++ b/packages/utils-stream/src/smooth-stream.ts
@@ -29,12 +29,20 @@ export const smoothStream = ({ chunking = 'word', delay = 10 }: SmoothStreamOpti
   let buffer = ''
 
   return new TransformStream<string, string>({
+    flush: (controller) => {
+      if (buffer.length > 0)
+        controller.enqueue(buffer)
+    },
     transform: async (chunk, controller) => {
       buffer += chunk
 
       let match = chunkingRegexp.exec(buffer)
       while (match !== null) {
-        const result = match[0]
+        // include the text in front of the match
+        const result = buffer.slice(0, match.index + match[0].length)
+        if (result.length === 0)
+          break
+
         controller.enqueue(result)
         buffer = buffer.slice(result.length)
 
-- 
2.43.0


From 29befc281ad392454526fb7d290a7fe05ddeb0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:48 +0000
Subject: [PATCH 06/26] fix: toElementStream delivers every element once

---
 .../stream-object/src/utils/to-element-stream.ts     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/stream-object/src/utils/to-element-stream.ts b/packages/stream-object/src/utils/to-element-stream.ts
index b5bed5b..ae0aa0d 100644
--- a/packages/stream-object/src/utils/to-element-stream.ts
+++ b/packages/stream-object/src/utils/to-element-stream.ts
@@ -9,17 +9,17 @@ export const toElementStream = <T>(stream: ReadableStream<string>): ReadableStre
   return stream.pipeThrough(new TransformStream<string, T>({
     flush: (controller) => {
       const data = parse(partialObjectData) as PartialDeep<T>
-      controller.enqueue((data as { elements: T[] }).elements.at(-1))
+      for (const element of (data as { elements: T[] }).elements.slice(index))
+        controller.enqueue(element)
     },
     transform: (chunk, controller) => {
       partialObjectData += chunk
       try {
         const data = parse(partialObjectData) as PartialDeep<T>
-        if (
-          Array.isArray(Object.getOwnPropertyDescriptor(data, 'elements')?.value)
-          && (data as { elements: T[] }).elements.length > index + 1
-        ) {
-          controller.enqueue((data as { elements: T[] }).elements[index++])
+        if (Array.isArray(Object.getOwnPropertyDescriptor(data, 'elements')?.value)) {
+          // the last element may still be incomplete
+          while ((data as { elements: T[] }).elements.length > index + 1)
+            controller.enqueue((data as { elements: T[] }).elements[index++])
         }
       }
       catch {}
-- 
2.43.0


From aeca43bfbc205604a7862e7c4bb955888ee42f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:35 +0000
Subject: [PATCH 07/26] fix: settle the usage promise of a speech stream that
 fails

---
 packages/stream-speech/src/index.ts | 83 ++++++++++++++++-------------
 1 file changed, 45 insertions(+), 38 deletions(-)

diff --git a/packages/stream-speech/src/index.ts b/packages/stream-speech/src/index.ts
index 807dd1e..847c560 100644
--- a/packages/stream-speech/src/index.ts
+++ b/packages/stream-speech/src/index.ts
@@ -56,49 +56,56 @@ export const streamSpeech = async (options: WithUnknown<StreamSpeechOptions>): P
     streamFormat: 'sse',
   })
 
-  const fullStream = response.body!
-    .pipeThrough(new TextDecoderStream())
-    .pipeThrough(new EventSourceParserStream())
-    .pipeThrough(new JsonMessageTransformStream<StreamSpeechEvent>())
-    .pipeThrough(new TransformStream<StreamSpeechEvent, Uint8Array>({
-      flush: () => {
-        if (usageResolved)
-          return
+  const audioStream = new TransformStream<StreamSpeechEvent, Uint8Array>({
+    flush: () => {
+      if (usageResolved)
+        return
 
-        usageResolved = true
-        usage.resolve(undefined)
-      },
-      transform: (chunk, controller) => {
-        try {
-          switch (chunk.type) {
-            case 'speech.audio.delta':
-              controller.enqueue(Uint8Array.fromBase64(chunk.audio))
-              break
-            case 'speech.audio.done':
-              if (chunk.usage != null) {
-                usage.resolve({
-                  inputTokens: chunk.usage.input_tokens,
-                  outputTokens: chunk.usage.output_tokens,
-                  totalTokens: chunk.usage.total_tokens,
-                })
-                usageResolved = true
-              }
-              break
-          }
+      usageResolved = true
+      usage.resolve(undefined)
+    },
+    transform: (chunk, controller) => {
+      try {
+        switch (chunk.type) {
+          case 'speech.audio.delta':
+            controller.enqueue(Uint8Array.fromBase64(chunk.audio))
+            break
+          case 'speech.audio.done':
+            if (chunk.usage != null) {
+              usage.resolve({
+                inputTokens: chunk.usage.input_tokens,
+                outputTokens: chunk.usage.output_tokens,
+                totalTokens: chunk.usage.total_tokens,
+              })
+              usageResolved = true
+            }
+            break
         }
-        catch (error) {
-          if (!usageResolved) {
-            usageResolved = true
-            usage.reject(error)
-          }
-
-          throw error
+      }
+      catch (error) {
+        if (!usageResolved) {
+          usageResolved = true
+          usage.reject(error)
         }
-      },
-    }))
+
+        throw error
+      }
+    },
+  })
+
+  response.body!
+    .pipeThrough(new TextDecoderStream())
+    .pipeThrough(new EventSourceParserStream())
+    .pipeThrough(new JsonMessageTransformStream<StreamSpeechEvent>())
+    .pipeTo(audioStream.writable)
+    .catch((error) => {
+      usage.reject(error)
+    })
+  // a caller that only reads the audio has no interest in this rejection
+  usage.promise.catch(() => {})
 
   return {
-    fullStream,
+    fullStream: audioStream.readable,
     usage: usage.promise,
   }
 }
-- 
2.43.0


From 3f7d87e7d9aef86fa7da768de6904e51c0c101ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 08/26] fix: traced operations run tool hooks and validators
 and accept missing usage

---
 packages-ext/telemetry/src/utils/wrap-tool.ts       |  3 +--
 packages-ext/telemetry/src/wrapped/embed.ts         | 10 ++++++++--
 packages-ext/telemetry/src/wrapped/generate-text.ts |  2 ++
 packages-ext/telemetry/src/wrapped/stream-text.ts   |  6 +++---
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/packages-ext/telemetry/src/utils/wrap-tool.ts b/packages-ext/telemetry/src/utils/wrap-tool.ts
index 37d2c4d..9d5b183 100644
--- a/packages-ext/telemetry/src/utils/wrap-tool.ts
+++ b/packages-ext/telemetry/src/utils/wrap-tool.ts
@@ -4,6 +4,7 @@ import type { Tool, ToolExecuteOptions } from 'xsai'
 import { recordSpan } from './record-span'
 
 export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
+  ...tool,
   execute: async (input: unknown, options: ToolExecuteOptions) =>
     recordSpan({
       attributes: {
@@ -20,6 +21,4 @@ export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
       span.setAttribute('gen_ai.tool.call.result', JSON.stringify(result))
       return result
     }),
-  function: tool.function,
-  type: tool.type,
 })
diff --git a/packages-ext/telemetry/src/wrapped/embed.ts b/packages-ext/telemetry/src/wrapped/embed.ts
index 8aa9786..8a1a1b8 100644
--- a/packages-ext/telemetry/src/wrapped/embed.ts
+++ b/packages-ext/telemetry/src/wrapped/embed.ts
@@ -18,7 +18,10 @@ export const embed = async (options: WithTelemetry<EmbedOptions>): Promise<Embed
   // https://opentelemetry.io/docs/specs/semconv/gen-ai/gen-ai-spans/#embeddings
   return recordSpan<EmbedResult>(embedSpan(options, tracer), async (span) => {
     const result = await originalEmbed(clean({ ...options, telemetry: undefined }))
-    span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+    // not every server reports usage
+    const usage = result.usage as typeof result.usage | undefined
+    if (usage != null)
+      span.setAttribute('gen_ai.usage.input_tokens', usage.prompt_tokens)
     return result
   })
 }
@@ -33,7 +36,10 @@ export const embedMany = async (options: WithTelemetry<EmbedManyOptions>): Promi
   // https://opentelemetry.io/docs/specs/semconv/gen-ai/gen-ai-spans/#embeddings
   return recordSpan<EmbedManyResult>(embedSpan(options, tracer), async (span) => {
     const result = await originalEmbedMany(clean({ ...options, telemetry: undefined }))
-    span.setAttribute('gen_ai.usage.input_tokens', result.usage.prompt_tokens)
+    // not every server reports usage
+    const usage = result.usage as typeof result.usage | undefined
+    if (usage != null)
+      span.setAttribute('gen_ai.usage.input_tokens', usage.prompt_tokens)
     return result
   })
 }
diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index 5777e0a..a5ebd57 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -94,6 +94,8 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
               msgToolCalls.map(async toolCall => executeTool({
                 abortSignal: options.abortSignal,
                 messages,
+                postToolCall: options.postToolCall,
+                preToolCall: options.preToolCall,
                 toolCall,
                 tools: options.tools,
               })),
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index e644ca8..52b84dc 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -50,9 +50,7 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
     void options.onStepFinish?.(step)
   }
 
-  const tools = options.tools != null && options.tools.length > 0
-    ? options.tools.map(tool => wrapTool(tool, tracer))
-    : undefined
+  const tools = options.tools?.map(tool => wrapTool(tool, tracer))
 
   const doStream = async () => {
     const stepOptions = await resolvePrepareStep({
@@ -247,6 +245,8 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
           validToolCalls.map(async toolCall => executeTool({
             abortSignal: options.abortSignal,
             messages,
+            postToolCall: options.postToolCall,
+            preToolCall: options.preToolCall,
             toolCall,
             tools,
           })),
-- 
2.43.0


From a1fa12455174a598bf55b422ea50139bab4d0d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 09/26] fix: streamed text next to tool calls, refusals and
 argument-less deltas are kept

---
 .../telemetry/src/wrapped/stream-text.ts      | 38 +++++++++----------
 packages/stream-text/src/index.ts             | 38 +++++++++----------
 2 files changed, 36 insertions(+), 40 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 52b84dc..63f0123 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -155,25 +155,23 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
             if (choice.finish_reason != null)
               finishReason = choice.finish_reason
 
-            if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null) {
-              if (choice.delta.content != null) {
-                if (!textStarted) {
-                  textStarted = true
-                  pushEvent({ type: 'text.start' })
-                }
-                pushEvent({ delta: choice.delta.content, type: 'text.delta' })
-                pushText(choice.delta.content)
+            if (choice.delta.content != null) {
+              if (!textStarted) {
+                textStarted = true
+                pushEvent({ type: 'text.start' })
               }
-              else if (choice.delta.refusal != null) {
-                if (!textStarted) {
-                  textStarted = true
-                  pushEvent({ type: 'text.start' })
-                }
-                pushEvent({ delta: choice.delta.refusal, type: 'text.delta' })
-                pushText(choice.delta.refusal)
+              pushEvent({ delta: choice.delta.content, type: 'text.delta' })
+              pushText(choice.delta.content)
+            }
+            if (choice.delta.refusal != null) {
+              if (!textStarted) {
+                textStarted = true
+                pushEvent({ type: 'text.start' })
               }
+              pushEvent({ delta: choice.delta.refusal, type: 'text.delta' })
+              pushText(choice.delta.refusal)
             }
-            else {
+            if (choice.delta.tool_calls != null) {
             // https://platform.openai.com/docs/guides/function-calling?api-mode=chat&lang=javascript#streaming
               for (const toolCall of choice.delta.tool_calls) {
                 const { index } = toolCall
@@ -194,9 +192,9 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
                   if (toolCall.function.arguments != null && toolCall.function.arguments.length > 0)
                     pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
                 }
-                else {
+                else if (toolCall.function.arguments != null) {
                   tool_calls[index].function.arguments! += toolCall.function.arguments
-                  pushEvent({ delta: toolCall.function.arguments!, type: 'tool-call.delta' })
+                  pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
                 }
               }
             }
@@ -208,16 +206,16 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
       if (textStarted)
         pushEvent({ content: text, type: 'text.done' })
 
+      const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
       const message: AssistantMessage = {
         ...(reasoningField != null ? { [reasoningField]: reasoningText } : {}),
         content: text,
         role: 'assistant',
-        tool_calls: tool_calls.length > 0 ? tool_calls : undefined,
+        tool_calls: validToolCalls.length > 0 ? validToolCalls : undefined,
       }
       messages.push(message)
       span.setAttribute('gen_ai.output.messages', JSON.stringify([message]))
 
-      const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
       const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
       const toolResults: CompletionToolResult[] = []
 
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 91e992e..988f1ec 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -184,25 +184,23 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
           if (choice.finish_reason != null)
             finishReason = choice.finish_reason
 
-          if (choice.delta.tool_calls?.length === 0 || choice.delta.tool_calls == null) {
-            if (choice.delta.content != null) {
-              if (!textStarted) {
-                textStarted = true
-                pushEvent({ type: 'text.start' })
-              }
-              pushEvent({ delta: choice.delta.content, type: 'text.delta' })
-              pushText(choice.delta.content)
+          if (choice.delta.content != null) {
+            if (!textStarted) {
+              textStarted = true
+              pushEvent({ type: 'text.start' })
             }
-            else if (choice.delta.refusal != null) {
-              if (!textStarted) {
-                textStarted = true
-                pushEvent({ type: 'text.start' })
-              }
-              pushEvent({ delta: choice.delta.refusal, type: 'text.delta' })
-              pushText(choice.delta.refusal)
+            pushEvent({ delta: choice.delta.content, type: 'text.delta' })
+            pushText(choice.delta.content)
+          }
+          if (choice.delta.refusal != null) {
+            if (!textStarted) {
+              textStarted = true
+              pushEvent({ type: 'text.start' })
             }
+            pushEvent({ delta: choice.delta.refusal, type: 'text.delta' })
+            pushText(choice.delta.refusal)
           }
-          else {
+          if (choice.delta.tool_calls != null) {
             // https://platform.openai.com/docs/guides/function-calling?api-mode=chat&lang=javascript#streaming
             for (const toolCall of choice.delta.tool_calls) {
               const { index } = toolCall
@@ -219,9 +217,9 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
                 if (toolCall.function.arguments != null && toolCall.function.arguments.length > 0)
                   pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
               }
-              else {
+              else if (toolCall.function.arguments != null) {
                 tool_calls[index].function.arguments! += toolCall.function.arguments
-                pushEvent({ delta: toolCall.function.arguments!, type: 'tool-call.delta' })
+                pushEvent({ delta: toolCall.function.arguments, type: 'tool-call.delta' })
               }
             }
           }
@@ -233,14 +231,14 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
     if (textStarted)
       pushEvent({ content: text, type: 'text.done' })
 
+    const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
     messages.push({
       ...(reasoningField != null ? { [reasoningField]: reasoningText } : {}),
       content: text,
       role: 'assistant',
-      tool_calls: tool_calls.length > 0 ? tool_calls : undefined,
+      tool_calls: validToolCalls.length > 0 ? validToolCalls : undefined,
     })
 
-    const validToolCalls = tool_calls.filter((tc): tc is ToolCall => tc != null)
     const toolCalls: CompletionToolCall[] = validToolCalls.map(toCompletionToolCall)
     const toolResults: CompletionToolResult[] = []
 
-- 
2.43.0


From 16d636db0f6801900b61834007be0372fc785e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 10/26] fix: a streamed step reports its own usage, counted
 once

---
 packages-ext/responses/src/utils/responses.ts     | 5 ++++-
 packages-ext/telemetry/src/wrapped/stream-text.ts | 5 ++++-
 packages/stream-text/src/index.ts                 | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages-ext/responses/src/utils/responses.ts b/packages-ext/responses/src/utils/responses.ts
index 0cdfbb5..bf1eecd 100644
--- a/packages-ext/responses/src/utils/responses.ts
+++ b/packages-ext/responses/src/utils/responses.ts
@@ -83,8 +83,11 @@ export const responses = (options: ResponsesOptions): ResponsesResult => {
   }
 
   const pushUsage = (nextUsage?: NonNullable<ResponseResource['usage']>) => {
-    if (nextUsage == null)
+    // usage belongs to one step
+    if (nextUsage == null) {
+      usage = undefined
       return
+    }
 
     usage = normalizeUsage(nextUsage)
     totalUsage = computeTotalUsage(totalUsage, usage)
diff --git a/packages-ext/telemetry/src/wrapped/stream-text.ts b/packages-ext/telemetry/src/wrapped/stream-text.ts
index 63f0123..09ed08d 100644
--- a/packages-ext/telemetry/src/wrapped/stream-text.ts
+++ b/packages-ext/telemetry/src/wrapped/stream-text.ts
@@ -81,12 +81,15 @@ export const streamText = (options: WithUnknown<WithTelemetry<StreamTextOptions>
         tools,
       })
 
+      // usage belongs to this step, and a server may report it more than once
+      usage = undefined
+      const previousTotalUsage = totalUsage
       const pushUsage = (u: StreamTextChunkResult['usage']) => {
         if (u == null)
           return
 
         usage = normalizeChatCompletionUsage(u)
-        totalUsage = computeTotalUsage(totalUsage, usage)
+        totalUsage = computeTotalUsage(previousTotalUsage, usage)
       }
 
       let text = ''
diff --git a/packages/stream-text/src/index.ts b/packages/stream-text/src/index.ts
index 988f1ec..77c99d4 100644
--- a/packages/stream-text/src/index.ts
+++ b/packages/stream-text/src/index.ts
@@ -110,12 +110,15 @@ export const streamText = (options: WithUnknown<StreamTextOptions>): StreamTextR
       toolChoice: stepOptions.toolChoice,
     })
 
+    // usage belongs to this step, and a server may report it more than once
+    usage = undefined
+    const previousTotalUsage = totalUsage
     const pushUsage = (u: StreamTextChunkResult['usage']) => {
       if (u == null)
         return
 
       usage = normalizeChatCompletionUsage(u)
-      totalUsage = computeTotalUsage(totalUsage, usage)
+      totalUsage = computeTotalUsage(previousTotalUsage, usage)
     }
 
     let text = ''
-- 
2.43.0


From 722a9c8d4143aaa40dfa7d37c92261b2824a120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 11/26] fix: a chat response without choices is an invalid
 response even without usage

---
 packages-ext/telemetry/src/wrapped/generate-text.ts | 5 +++--
 packages/generate-text/src/index.ts                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages-ext/telemetry/src/wrapped/generate-text.ts b/packages-ext/telemetry/src/wrapped/generate-text.ts
index a5ebd57..d2f0d94 100644
--- a/packages-ext/telemetry/src/wrapped/generate-text.ts
+++ b/packages-ext/telemetry/src/wrapped/generate-text.ts
@@ -49,8 +49,6 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
         .then(responseJSON<GenerateTextResponse>)
         .then(async (res) => {
           const { choices } = res
-          const usage = normalizeChatCompletionUsage(res.usage)
-          const totalUsage = computeTotalUsage(options.totalUsage, usage)
 
           if (!choices?.length) {
             const responseBody = JSON.stringify(res)
@@ -60,6 +58,9 @@ export const generateText = async (options: WithUnknown<WithTelemetry<GenerateTe
             })
           }
 
+          const usage = normalizeChatCompletionUsage(res.usage)
+          const totalUsage = computeTotalUsage(options.totalUsage, usage)
+
           const { finish_reason: finishReason, message } = choices[0]
           const msgToolCalls: ToolCall[] = message?.tool_calls ?? []
           const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
diff --git a/packages/generate-text/src/index.ts b/packages/generate-text/src/index.ts
index 87d39d9..99784dd 100644
--- a/packages/generate-text/src/index.ts
+++ b/packages/generate-text/src/index.ts
@@ -87,8 +87,6 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
     .then(responseJSON<GenerateTextResponse>)
     .then(async (res) => {
       const { choices } = res
-      const usage = normalizeChatCompletionUsage(res.usage)
-      const totalUsage = computeTotalUsage(options.totalUsage, usage)
 
       if (!choices?.length) {
         const responseBody = JSON.stringify(res)
@@ -98,6 +96,9 @@ const rawGenerateText = async (options: WithUnknown<GenerateTextOptions>): Promi
         })
       }
 
+      const usage = normalizeChatCompletionUsage(res.usage)
+      const totalUsage = computeTotalUsage(options.totalUsage, usage)
+
       const { finish_reason: finishReason, message } = choices[0]
       const msgToolCalls = message?.tool_calls ?? []
       const toolCalls: CompletionToolCall[] = msgToolCalls.map(toCompletionToolCall)
-- 
2.43.0


From 8e6f13d92c7d5c2b95de02fe542d35e77f3e496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 12/26] fix: download generated images without FileReader and
 recognise webp

---
 packages/generate-image/src/index.ts | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/packages/generate-image/src/index.ts b/packages/generate-image/src/index.ts
index 8210ac9..8081022 100644
--- a/packages/generate-image/src/index.ts
+++ b/packages/generate-image/src/index.ts
@@ -61,7 +61,7 @@ const mimeTypes = {
   'AAAAIGZ0eXBhdmlm': 'image/avif',
   'iVBORw0KGgo': 'image/png',
   'R0lGOD': 'image/gif',
-  'UklGRg==': 'image/webp',
+  'UklGR': 'image/webp',
 }
 
 /** @internal */
@@ -82,12 +82,11 @@ const responseBlobAsDataURL = async (res: Response): Promise<string> =>
       const blob = await res.blob()
 
       try {
-        return await new Promise<string>((resolve, reject) => {
-          const reader = new FileReader()
-          reader.onloadend = () => resolve(reader.result as string)
-          reader.onerror = reject
-          reader.readAsDataURL(blob)
-        })
+        let binary = ''
+        for (const byte of new Uint8Array(await blob.arrayBuffer()))
+          binary += String.fromCharCode(byte)
+
+        return `data:${blob.type || 'application/octet-stream'};base64,${btoa(binary)}`
       }
       catch {
         throw new Error(`Failed to parse response blob, response URL: ${res.url}`)
-- 
2.43.0


From 8643d3ef4a0cd41b8d79bc42d7f872295253254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 13/26] fix: strict schemas forbid additional properties in
 arrays, unions and the array wrapper

---
 packages-top/xsschema/src/json-schema.ts      | 45 ++++++++++++++-----
 packages/generate-object/src/index.ts         |  6 +--
 .../stream-object/src/utils/stream-object.ts  |  6 +--
 3 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/packages-top/xsschema/src/json-schema.ts b/packages-top/xsschema/src/json-schema.ts
index 892778a..ef5218d 100644
--- a/packages-top/xsschema/src/json-schema.ts
+++ b/packages-top/xsschema/src/json-schema.ts
@@ -1,19 +1,40 @@
 import type { JsonSchema } from './types'
 
+type JsonSchemaDefinition = boolean | JsonSchema
+
 export const jsonSchema = (schema: JsonSchema) => schema
 
+const strictDefinition = (definition: JsonSchemaDefinition): JsonSchemaDefinition => {
+  if (definition == null || typeof definition !== 'object')
+    return definition
+
+  return definition.type === 'object'
+    ? strictJsonSchema(definition)
+    : strictChildren(definition)
+}
+
+const strictDefinitions = (definitions: Record<string, JsonSchemaDefinition>) =>
+  Object.fromEntries(Object.entries(definitions).map(([k, v]) => [k, strictDefinition(v)]))
+
+/** objects may also be nested in arrays, unions and shared definitions */
+const strictChildren = (schema: JsonSchema): JsonSchema => {
+  const result: JsonSchema = { ...schema }
+
+  if (schema.properties != null)
+    result.properties = strictDefinitions(schema.properties)
+  if (schema.items != null)
+    result.items = Array.isArray(schema.items) ? schema.items.map(strictDefinition) : strictDefinition(schema.items)
+  if (schema.anyOf != null)
+    result.anyOf = schema.anyOf.map(strictDefinition)
+  if (schema.$defs != null)
+    result.$defs = strictDefinitions(schema.$defs)
+  if (schema.definitions != null)
+    result.definitions = strictDefinitions(schema.definitions)
+
+  return result
+}
+
 export const strictJsonSchema = (schema: JsonSchema): JsonSchema => ({
-  ...schema,
+  ...strictChildren(schema),
   additionalProperties: false,
-  properties: schema.properties != null
-    ? Object.fromEntries(
-        Object.entries(schema.properties)
-          .map(([k, v]) => [
-            k,
-            v != null && typeof v === 'object' && 'type' in v && v.type === 'object'
-              ? strictJsonSchema(v)
-              : v,
-          ]),
-      )
-    : schema.properties,
 })
diff --git a/packages/generate-object/src/index.ts b/packages/generate-object/src/index.ts
index 2adcb61..d06265a 100644
--- a/packages/generate-object/src/index.ts
+++ b/packages/generate-object/src/index.ts
@@ -26,12 +26,12 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
 export async function generateObject<T extends Schema>(options: GenerateObjectOptions<T> & { output?: GenerateObjectOutputOption }) {
   let schema = await toJsonSchema(options.schema)
 
-  if (options.strict !== false)
-    schema = strictJsonSchema(schema)
-
   if (options.output === 'array')
     schema = wrap(schema)
 
+  if (options.strict !== false)
+    schema = strictJsonSchema(schema)
+
   return generateText({
     ...options,
     output: undefined, // Remove output from options
diff --git a/packages/stream-object/src/utils/stream-object.ts b/packages/stream-object/src/utils/stream-object.ts
index 553ac42..09f014e 100644
--- a/packages/stream-object/src/utils/stream-object.ts
+++ b/packages/stream-object/src/utils/stream-object.ts
@@ -46,12 +46,12 @@ export async function streamObject<T extends Schema>(
 ): Promise<StreamObjectResult<T>> {
   let schema = await toJsonSchema(options.schema)
 
-  if (options.strict !== false)
-    schema = strictJsonSchema(schema)
-
   if (options.output === 'array')
     schema = wrap(schema)
 
+  if (options.strict !== false)
+    schema = strictJsonSchema(schema)
+
   let { textStream, ...rest } = streamText({
     ...options,
     output: undefined,
-- 
2.43.0


From 2f1888da1166d2f8c885ec1f9c3887f9e45e0418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:05 +0000
Subject: [PATCH 14/26] fix: object generation keeps the reasoning text and
 rejects with a JSON parse error

---
 packages/generate-object/src/index.ts | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/packages/generate-object/src/index.ts b/packages/generate-object/src/index.ts
index d06265a..26cdd9a 100644
--- a/packages/generate-object/src/index.ts
+++ b/packages/generate-object/src/index.ts
@@ -2,7 +2,7 @@ import type { GenerateTextOptions, GenerateTextResult } from '@xsai/generate-tex
 import type { Schema } from 'xsschema'
 
 import { generateText } from '@xsai/generate-text'
-import { InvalidResponseError } from '@xsai/shared'
+import { InvalidResponseError, JSONParseError } from '@xsai/shared'
 import { strictJsonSchema, toJsonSchema, validate } from 'xsschema'
 
 import { wrap } from './_wrap'
@@ -48,14 +48,24 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
     schemaDescription: undefined, // Remove schemaDescription from options
     schemaName: undefined, // Remove schemaName from options
     strict: undefined, // Remove strict from options
-  }).then(async ({ finishReason, messages, steps, text, toolCalls, toolResults, totalUsage, usage }) => {
+  }).then(async ({ finishReason, messages, reasoningText, steps, text, toolCalls, toolResults, totalUsage, usage }) => {
     if (text == null || text.length === 0) {
       throw new InvalidResponseError('Cannot generate an object from an empty response.', {
         reason: 'empty_body',
       })
     }
 
-    const json: unknown = JSON.parse(text)
+    let json: unknown
+
+    try {
+      json = JSON.parse(text)
+    }
+    catch (cause) {
+      throw new JSONParseError(`Failed to parse object, text: ${text}`, {
+        cause,
+        text,
+      })
+    }
 
     if (options.output === 'array') {
       return {
@@ -64,6 +74,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
         object: await Promise.all((json as { elements: Schema.InferInput<T>[] })
           .elements
           .map(async element => validate(options.schema, element))),
+        reasoningText,
         steps,
         text,
         toolCalls,
@@ -77,6 +88,7 @@ export async function generateObject<T extends Schema>(options: GenerateObjectOp
         finishReason,
         messages,
         object: await validate(options.schema, json as Schema.InferInput<T>),
+        reasoningText,
         steps,
         text,
         toolCalls,
-- 
2.43.0


From a304396f6b5d5d431737bb9c0a64b7782ed0b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 15/26] fix: responses keeps output items of other types in the
 conversation

---
 packages-ext/responses/src/utils/normalize-output.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages-ext/responses/src/utils/normalize-output.ts b/packages-ext/responses/src/utils/normalize-output.ts
index bc0b2ea..882cf51 100644
--- a/packages-ext/responses/src/utils/normalize-output.ts
+++ b/packages-ext/responses/src/utils/normalize-output.ts
@@ -12,5 +12,8 @@ export const normalizeOutput = (item: ItemField): ItemParam => {
       return item as AssistantMessageItemParam | DeveloperMessageItemParam | SystemMessageItemParam | UserMessageItemParam
     case 'reasoning':
       return item as ReasoningItemParam
+    // hosted tool calls and item types this version does not know
+    default:
+      return item as ItemParam
   }
 }
-- 
2.43.0


From 6b572d11f99a6975f9dbf49e0db5478707f9f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:29 +0000
Subject: [PATCH 16/26] fix: cancelling one stream of extractReasoningStream
 keeps the other

---
 packages/utils-reasoning/src/extract-reasoning-stream.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning-stream.ts b/packages/utils-reasoning/src/extract-reasoning-stream.ts
index 6383f57..2bf7654 100644
--- a/packages/utils-reasoning/src/extract-reasoning-stream.ts
+++ b/packages/utils-reasoning/src/extract-reasoning-stream.ts
@@ -15,12 +15,14 @@ export const extractReasoningStream = (stream: ReadableStream<string>, options:
   const endTag = `</${options.tagName}>`
   const separator = options.separator ?? '\n'
 
-  let reasoningStreamController: ReadableStreamDefaultController<string>
-  let textStreamController: ReadableStreamDefaultController<string>
+  let reasoningStreamController: ReadableStreamDefaultController<string> | undefined
+  let textStreamController: ReadableStreamDefaultController<string> | undefined
   const reasoningStream = new ReadableStream<string>({
+    cancel: () => reasoningStreamController = undefined,
     start: controller => reasoningStreamController = controller,
   })
   const textStream = new ReadableStream<string>({
+    cancel: () => textStreamController = undefined,
     start: controller => textStreamController = controller,
   })
 
-- 
2.43.0


From 6a68123e7b554e1404a6c413733cb8547c7ec4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 17/26] fix: xsfetch falls back to its defaults for undefined
 options and never retries forever

---
 packages-top/xsfetch/src/index.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages-top/xsfetch/src/index.ts b/packages-top/xsfetch/src/index.ts
index d3e773c..151d436 100644
--- a/packages-top/xsfetch/src/index.ts
+++ b/packages-top/xsfetch/src/index.ts
@@ -17,12 +17,17 @@ const defaults: CreateFetchOptions = {
 }
 
 export const createFetch = (userOptions: Partial<CreateFetchOptions> = {}): typeof globalThis.fetch => {
-  const options: Readonly<CreateFetchOptions> = Object.assign({}, defaults, userOptions)
+  const options: Readonly<CreateFetchOptions> = {
+    debug: userOptions.debug ?? defaults.debug,
+    retry: userOptions.retry ?? defaults.retry,
+    retryDelay: userOptions.retryDelay ?? defaults.retryDelay,
+    retryStatusCodes: userOptions.retryStatusCodes ?? defaults.retryStatusCodes,
+  }
 
   const xsfetch = async (retriesLeft: number, input: Request | string | URL, init?: RequestInit) => {
     const res = await fetch(input, init)
 
-    if (res.ok || retriesLeft === 0 || !options.retryStatusCodes.includes(res.status))
+    if (res.ok || retriesLeft <= 0 || !options.retryStatusCodes.includes(res.status))
       return res
 
     if (options.debug)
-- 
2.43.0


From 823edfaf26af59632aa26554e0b51cb5250b4695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 18/26] fix: a stream chunk with a null error field is no error

---
 packages/shared-stream/src/json.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/shared-stream/src/json.ts b/packages/shared-stream/src/json.ts
index d23fab0..1f483af 100644
--- a/packages/shared-stream/src/json.ts
+++ b/packages/shared-stream/src/json.ts
@@ -12,6 +12,7 @@ const defaultIsErrorResponse = (parsed: unknown) =>
   parsed != null
   && typeof parsed === 'object'
   && 'error' in parsed
+  && parsed.error != null
 
 export const parseJsonSSEMessage = <T>(
   message: EventSourceMessage,
-- 
2.43.0


From e336b5c4ce8bfb436428baf4ebce0fc03fa4df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:58 +0000
Subject: [PATCH 19/26] fix: strict schemas forbid extra properties in every
 union

---
 packages-top/xsschema/src/json-schema.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages-top/xsschema/src/json-schema.ts b/packages-top/xsschema/src/json-schema.ts
index ef5218d..3659855 100644
--- a/packages-top/xsschema/src/json-schema.ts
+++ b/packages-top/xsschema/src/json-schema.ts
@@ -26,6 +26,8 @@ const strictChildren = (schema: JsonSchema): JsonSchema => {
     result.items = Array.isArray(schema.items) ? schema.items.map(strictDefinition) : strictDefinition(schema.items)
   if (schema.anyOf != null)
     result.anyOf = schema.anyOf.map(strictDefinition)
+  if (schema.oneOf != null)
+    result.oneOf = schema.oneOf.map(strictDefinition)
   if (schema.$defs != null)
     result.$defs = strictDefinitions(schema.$defs)
   if (schema.definitions != null)
-- 
2.43.0


From 13eb1cdab7c2c94ade697d3ebb5e8471fdbf249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:03 +0000
Subject: [PATCH 20/26] fix: arktype schemas without a capability of their own
 convert to draft 07

---
 packages-top/xsschema/src/to-json-schema/vendors/arktype.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages-top/xsschema/src/to-json-schema/vendors/arktype.ts b/packages-top/xsschema/src/to-json-schema/vendors/arktype.ts
index f85c2ef..dd0a3b8 100644
--- a/packages-top/xsschema/src/to-json-schema/vendors/arktype.ts
+++ b/packages-top/xsschema/src/to-json-schema/vendors/arktype.ts
@@ -4,4 +4,5 @@ import type { JSONSchema7 } from 'json-schema'
 import type { ToJsonSchemaFn } from '.'
 
 export const getToJsonSchemaFn = async (): Promise<ToJsonSchemaFn> =>
-  schema => (schema as Type).toJsonSchema() as JSONSchema7
+  // arktype defaults to Draft 2020-12, but we need Draft 07
+  schema => (schema as Type).toJsonSchema({ target: 'draft-07' }) as JSONSchema7
-- 
2.43.0


From 5d2a8e74f43f7774292e3c7f80155c90ffe6a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 21/26] fix: forbid additional properties on nullable objects
 in strict schemas

---
 packages-top/xsschema/src/json-schema.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages-top/xsschema/src/json-schema.ts b/packages-top/xsschema/src/json-schema.ts
index 3659855..02134e7 100644
--- a/packages-top/xsschema/src/json-schema.ts
+++ b/packages-top/xsschema/src/json-schema.ts
@@ -4,11 +4,15 @@ type JsonSchemaDefinition = boolean | JsonSchema
 
 export const jsonSchema = (schema: JsonSchema) => schema
 
+/** nullable objects list their types, like `['object', 'null']` */
+const isObject = ({ type }: JsonSchema) =>
+  Array.isArray(type) ? type.includes('object') : type === 'object'
+
 const strictDefinition = (definition: JsonSchemaDefinition): JsonSchemaDefinition => {
   if (definition == null || typeof definition !== 'object')
     return definition
 
-  return definition.type === 'object'
+  return isObject(definition)
     ? strictJsonSchema(definition)
     : strictChildren(definition)
 }
-- 
2.43.0


From a53696c143e9c471247efd1f796551576839b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 22/26] fix: separate a kept-back reasoning or text block from
 the one before it

---
 .../utils-reasoning/src/extract-reasoning-stream.ts    | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning-stream.ts b/packages/utils-reasoning/src/extract-reasoning-stream.ts
index 2bf7654..21a3d34 100644
--- a/packages/utils-reasoning/src/extract-reasoning-stream.ts
+++ b/packages/utils-reasoning/src/extract-reasoning-stream.ts
@@ -56,14 +56,8 @@ export const extractReasoningStream = (stream: ReadableStream<string>, options:
   stream.pipeTo(
     new WritableStream({
       close: () => {
-        if (buffer.length > 0) {
-          if (isReasoning) {
-            reasoningStreamController?.enqueue(buffer)
-          }
-          else {
-            textStreamController?.enqueue(buffer)
-          }
-        }
+        // what is kept back may be the start of a block
+        enqueueStream(buffer)
         reasoningStreamController?.close()
         textStreamController?.close()
       },
-- 
2.43.0


From 8549273cf30548d3ca369374718a9bf8b5de3874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 23/26] fix: send an empty list returned by a tool as text, not
 as no content parts

---
 packages-ext/responses/src/utils/normalize-tool.ts            | 3 ++-
 .../shared-chat/src/utils/internal/to-tool-message-content.ts | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages-ext/responses/src/utils/normalize-tool.ts b/packages-ext/responses/src/utils/normalize-tool.ts
index 285b1a5..4c1f9bf 100644
--- a/packages-ext/responses/src/utils/normalize-tool.ts
+++ b/packages-ext/responses/src/utils/normalize-tool.ts
@@ -7,7 +7,8 @@ export const toFunctionCallOutput = (result: ToolExecuteResult): FunctionCallOut
   if (typeof result === 'string')
     return result
 
-  if (Array.isArray(result) && result.every(item => item !== null && typeof item === 'object' && 'type' in item && ['input_file', 'input_image', 'input_text'].includes((item as { type: string }).type)))
+  // an empty list holds no parts
+  if (Array.isArray(result) && result.length > 0 && result.every(item => item !== null && typeof item === 'object' && 'type' in item && ['input_file', 'input_image', 'input_text'].includes((item as { type: string }).type)))
     return result as FunctionCallOutput['output']
 
   return JSON.stringify(result)
diff --git a/packages/shared-chat/src/utils/internal/to-tool-message-content.ts b/packages/shared-chat/src/utils/internal/to-tool-message-content.ts
index 2f708d3..fa279ae 100644
--- a/packages/shared-chat/src/utils/internal/to-tool-message-content.ts
+++ b/packages/shared-chat/src/utils/internal/to-tool-message-content.ts
@@ -6,8 +6,8 @@ export const toToolMessageContent = (result: object | string | unknown[]): ToolM
     return result
 
   if (Array.isArray(result)) {
-    // check array type
-    if (result.every(item => item !== null && typeof item === 'object' && 'type' in item && ['file', 'image_url', 'input_audio', 'text'].includes((item as { type: string }).type))) {
+    // check array type, an empty list holds no parts
+    if (result.length > 0 && result.every(item => item !== null && typeof item === 'object' && 'type' in item && ['file', 'image_url', 'input_audio', 'text'].includes((item as { type: string }).type))) {
       return result as CommonContentPart[]
     }
   }
-- 
2.43.0


From 0a4c0295a79e3614ff103799e82f67414f2eadba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 24/26] fix: keep a single model of featherless and together ai
 as it is

---
 .../providers/src/manual/providers/featherless.ts     | 11 ++++++++---
 .../providers/src/manual/providers/together-ai.ts     | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/packages-ext/providers/src/manual/providers/featherless.ts b/packages-ext/providers/src/manual/providers/featherless.ts
index 15bcf0d..f1aa8bb 100644
--- a/packages-ext/providers/src/manual/providers/featherless.ts
+++ b/packages-ext/providers/src/manual/providers/featherless.ts
@@ -14,8 +14,13 @@ export const createFeatherless = (apiKey: string, baseURL = 'https://api.feather
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.ok
-        ? Response.json({ data: await res.json() as unknown[], object: 'list' })
-        : res),
+      .then(async (res) => {
+        if (!res.ok)
+          return res
+
+        const data = await res.json() as unknown
+        // a single model is no list
+        return Response.json(Array.isArray(data) ? { data, object: 'list' } : data)
+      }),
   }),
 )
diff --git a/packages-ext/providers/src/manual/providers/together-ai.ts b/packages-ext/providers/src/manual/providers/together-ai.ts
index 8681bb0..356a564 100644
--- a/packages-ext/providers/src/manual/providers/together-ai.ts
+++ b/packages-ext/providers/src/manual/providers/together-ai.ts
@@ -18,8 +18,13 @@ export const createTogetherAI = (apiKey: string, baseURL = 'https://api.together
     apiKey,
     baseURL,
     fetch: async (...args: Parameters<typeof globalThis.fetch>) => globalThis.fetch(...args)
-      .then(async res => res.ok
-        ? Response.json({ data: await res.json() as unknown[], object: 'list' })
-        : res),
+      .then(async (res) => {
+        if (!res.ok)
+          return res
+
+        const data = await res.json() as unknown
+        // a single model is no list
+        return Response.json(Array.isArray(data) ? { data, object: 'list' } : data)
+      }),
   }),
 )
-- 
2.43.0


From cd150b9be752bc83c0c7e57e4a92b0da472088d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 25/26] fix: tag names with pattern characters are taken
 literally by extractReasoning

---
 packages/utils-reasoning/src/extract-reasoning.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/utils-reasoning/src/extract-reasoning.ts b/packages/utils-reasoning/src/extract-reasoning.ts
index a76b242..6a74aeb 100644
--- a/packages/utils-reasoning/src/extract-reasoning.ts
+++ b/packages/utils-reasoning/src/extract-reasoning.ts
@@ -21,7 +21,9 @@ export const extractReasoning = (text: string, options: ExtractReasoningOptions
   const separator = options.separator ?? '\n'
   const fullText = options.startWithReasoning ? startTag + text : text
 
-  const regex = new RegExp(`${startTag}(.*?)${endTag}`, 'gs')
+  // the tags are plain text, also where they hold characters that are special in a pattern
+  const [start, end] = [startTag, endTag].map(tag => tag.replace(/[$()*+.?[\\\]^{|}]/g, '\\$&'))
+  const regex = new RegExp(`${start}(.*?)${end}`, 'gs')
   const reasonMatches = [...fullText.matchAll(regex)]
 
   if (reasonMatches.length === 0) {
-- 
2.43.0


From 84916025b07e2c0d0a166419c99690668f25b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:25 +0000
Subject: [PATCH 26/26] fix: let traced tools take and return values JSON
 cannot hold

---
 packages-ext/telemetry/src/utils/wrap-tool.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages-ext/telemetry/src/utils/wrap-tool.ts b/packages-ext/telemetry/src/utils/wrap-tool.ts
index 9d5b183..87be51f 100644
--- a/packages-ext/telemetry/src/utils/wrap-tool.ts
+++ b/packages-ext/telemetry/src/utils/wrap-tool.ts
@@ -3,13 +3,23 @@ import type { Tool, ToolExecuteOptions } from 'xsai'
 
 import { recordSpan } from './record-span'
 
+// what a tool is given and returns need not be JSON, and tracing must not make it fail
+const stringify = (value: unknown): string => {
+  try {
+    return JSON.stringify(value)
+  }
+  catch {
+    return '[unserializable]'
+  }
+}
+
 export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
   ...tool,
   execute: async (input: unknown, options: ToolExecuteOptions) =>
     recordSpan({
       attributes: {
         'gen_ai.operation.name': 'execute_tool',
-        'gen_ai.tool.call.arguments': JSON.stringify(input),
+        'gen_ai.tool.call.arguments': stringify(input),
         'gen_ai.tool.call.description': tool.function.description,
         'gen_ai.tool.call.id': options.toolCallId,
         'gen_ai.tool.call.name': tool.function.name,
@@ -18,7 +28,7 @@ export const wrapTool = (tool: Tool, tracer: Tracer): Tool => ({
       tracer,
     }, async (span) => {
       const result = await tool.execute(input, options)
-      span.setAttribute('gen_ai.tool.call.result', JSON.stringify(result))
+      span.setAttribute('gen_ai.tool.call.result', stringify(result))
       return result
     }),
 })
-- 
2.43.0

