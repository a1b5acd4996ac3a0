// A stand-in for the browser: modules resolved as a bundler would, an audio context, a worklet and its port.
import fs from 'node:fs'
import path from 'node:path'
import { registerHooks } from 'node:module'
import { resolveObjectURL } from 'node:buffer'
import { fileURLToPath, pathToFileURL } from 'node:url'

export const JS = '/repo/js'

/** Import a module of the repository in a copy of its own: the same `copy` gives the same instance. */
export function load(file, copy) {
  return import(pathToFileURL(path.join(JS, file)).href + `?copy=${copy}`)
}
registerHooks({
  resolve(spec, ctx, next) {
    const parent = ctx.parentURL || ''
    if (!parent.includes('?copy=') || !spec.startsWith('.')) return next(spec, ctx)
    const copy = parent.slice(parent.indexOf('?copy='))
    if (spec.includes('.wasm')) return { url: `vjs:wasm${copy}`, shortCircuit: true, format: 'module' }
    if (copy.includes('=fake') && /glicol_wasm\.js$/.test(spec)) return { url: `vjs:engine${copy}`, shortCircuit: true, format: 'module' }
    let file = fileURLToPath(new URL(spec, parent.split('?')[0]))
    if (!fs.existsSync(file)) file += '.js'
    return { url: pathToFileURL(file).href + copy, shortCircuit: true, format: 'module' }
  },
  load(url, ctx, next) {
    // what the bundler makes of the import of a binary is a function that names its address
    if (url.startsWith('vjs:wasm')) {
      return { format: 'module', shortCircuit: true, source: 'export default opts => globalThis.initWasm(opts, "/assets/glicol_wasm.abc123.wasm")' }
    }
    if (url.startsWith('vjs:engine')) return { format: 'module', shortCircuit: true, source: ENGINE }
    if (!url.includes('?copy=')) return next(url, ctx)
    return { format: 'module', shortCircuit: true, source: fs.readFileSync(fileURLToPath(url.split('?')[0]), 'utf8') }
  },
})

// the compiled engine's module, which hands its calls to the check
const NAMES = ['set_sr', 'set_seed', 'add_sample', 'set_bpm', 'set_track_amp', 'update', 'process', 'send_msg', 'live_coding_mode', 'reset']
const ENGINE = 'const e = globalThis.fakeEngine\nexport const initSync = b => e.init(b)\nexport default b => e.init(b)\n' +
  NAMES.map(n => `export const ${n} = (...a) => e.call('${n}', a)`).join('\n')

/** Was this thrown by the repository's code? */
export function threw(e) {
  const l = String(e && e.stack || '').split('\n').find(l => /^\s+at /.test(l) && !/node:|\(<anonymous>\)$/.test(l))
  return !!l && (l.includes('?copy=') || l.includes('worklet.js') || l.includes('page.js'))
}

/** Both ends of a message port; messages wait until they are delivered. */
export function ports() {
  const side = () => ({ queue: [], onmessage: null })
  const a = side(), b = side()
  a.postMessage = m => b.queue.push(structuredClone(m))
  b.postMessage = m => a.queue.push(structuredClone(m))
  return [a, b]
}
export async function deliver(...list) {
  for (let again = true; again;) {
    again = false
    for (const p of list) {
      while (p.queue.length && p.onmessage) {
        again = true
        await p.onmessage({ data: p.queue.shift() })
      }
    }
  }
}
/** let pending promises run */
export async function settle(n = 12) {
  for (let i = 0; i < n; i++) await new Promise(setImmediate)
}

export class Processor {
  constructor() { this.port = Processor.port }
}

/** An audio buffer as the page decodes it */
export class Sound {
  constructor(channels, sampleRate) {
    this.data = channels
    this.numberOfChannels = channels.length
    this.length = channels[0].length
    this.sampleRate = sampleRate
  }
  getChannelData(c) { return this.data[c] }
}

export async function workletSource(url) {
  return url.startsWith('blob:') ? await resolveObjectURL(url).text() : null
}
