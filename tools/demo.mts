import { pathToFileURL } from 'node:url'

/** the sources of a package of the repository the demonstration runs in */
export const load = async (pkg: string, part = 'index'): Promise<any> => import(pathToFileURL(`${process.cwd()}/${pkg}/src/${part}.ts`).href)

let failed = false
export const check = (ok: unknown, what: string) => {
  if (ok)
    return
  failed = true
  console.error('FAILED:', what)
}
export const finish = () => process.exit(failed ? 1 : 0)
process.on('unhandledRejection', () => {})

export const bytes = (text: string) => new TextEncoder().encode(text)
export const data = (value: unknown) => `data: ${typeof value === 'string' ? value : JSON.stringify(value)}\n\n`

/** a server-sent event response; each argument is one event */
export const sse = (...events: unknown[]) => new Response(new ReadableStream({
  start: (c) => {
    for (const e of events) c.enqueue(bytes(data(e)))
    c.close()
  },
}), { headers: { 'Content-Type': 'text/event-stream' } })

/** a chat completion response */
export const chat = (message: object, finish_reason = 'stop', usage: object = { completion_tokens: 2, prompt_tokens: 1, total_tokens: 3 }) =>
  Response.json({ choices: [{ finish_reason, index: 0, message: { role: 'assistant', ...message } }], created: 0, id: 'x', model: 'm', object: 'chat.completion', usage })

/** a streamed chat chunk */
export const message = (delta: object, rest: object = {}) => ({ choices: [{ delta, finish_reason: null, index: 0, ...rest }], id: 'x', object: 'chat.completion.chunk' })

export const hangs = Symbol('hangs')
/** the outcome of a promise, or `hangs` */
export const settled = async (p: Promise<any>, ms = 1500): Promise<{ error?: any, value?: any } | typeof hangs> => Promise.race([
  p.then(value => ({ value }), error => ({ error })),
  new Promise<typeof hangs>(r => setTimeout(r, ms, hangs)),
])
/** everything a stream yields, with the error it ended in */
export const read = async (s: ReadableStream<any>, ms = 1500) => {
  const out: any[] = []
  const reader = s.getReader()
  const loop = async () => {
    while (true) {
      const { done, value } = await reader.read()
      if (done)
        return
      out.push(value)
    }
  }
  const end = await settled(loop(), ms)
  return { end, error: end === hangs ? hangs : (end as any).error, out }
}
