import * as chat from './chat.mjs'
import * as helpers from './helpers.mjs'
import * as http from './http.mjs'
import * as objects from './objects.mjs'
import * as prepare from './prepare.mjs'
import * as prompt from './prompt.mjs'
import * as providers from './providers.mjs'
import * as requests from './requests.mjs'
import * as results from './results.mjs'
import * as platform from './platform.mjs'
import * as schemas from './schemas.mjs'
import * as settle from './settle.mjs'
import * as spans from './spans.mjs'
import * as streams from './streams.mjs'

export const suites = Object.fromEntries(Object.entries({ ...http, ...chat, ...requests, ...settle, ...objects, ...providers, ...helpers, ...streams, ...results, ...platform, ...schemas, ...prepare, ...prompt, ...spans }).filter(([k]) => /^C\d+$/.test(k)))
