// C32: the browser package relays texts, messages, samples and audio between the page and the engine.
import vm from 'node:vm'
import { Report, Rng, Broken, must } from './lib.mjs'
import { load, threw, ports, deliver, settle, Processor, Sound, workletSource } from './page.mjs'

const rep = new Report(process.argv)
rep.rule('a case is a session of calls of the engine object (programs, chains, stop, messages, tempo, mode, samples from arrays, addresses and files) with blocks in between, ' +
  'with shared memory or without, run on the real worklet with a recording stand-in for the compiled engine whose memory moves when it grows; ' +
  'what the engine was called with, what came out and what the page printed is compared with what was asked; cases are distinct by their calls and count when a program and a block were among them')
rep.assume('with shared memory: programs of at most 2048 bytes, one per block, and messages that fit the queue')

/** The engine: records its calls, answers with numbered audio. */
class Fake {
  constructor(r) {
    this.r = r
    this.memory = new WebAssembly.Memory({ initial: 2, maximum: 4000 })
    this.top = 64
    this.calls = []
    this.n = 0
    this.reply = null
    this.allocated = 0
    this.seen = undefined
    const move = () => { if (r.chance(0.3)) this.memory.grow(1) }
    const take = bytes => {
      const at = this.top
      this.top += (bytes + 15) & ~7
      while (this.top > this.memory.buffer.byteLength) this.memory.grow(1)
      move()
      this.allocated += bytes
      return at
    }
    const text = (p, n) => Buffer.from(this.memory.buffer, p, n).toString('utf8')
    this.exports = {
      memory: this.memory,
      alloc: n => take(n * 4),
      alloc_uint8array: n => take(n),
      update: (p, n) => { const t = text(p, n); this.calls.push(['update', t]); this.reply = this.verdict(t); move() },
      send_msg: (p, n) => { this.calls.push(['msg', text(p, n)]); move() },
      add_sample: (np, nn, sp, sn, ch, sr) => {
        this.calls.push(['sample', text(np, nn), Array.from(new Float32Array(this.memory.buffer, sp, sn)), ch, sr])
        move()
      },
      set_bpm: v => this.calls.push(['bpm', v]),
      set_track_amp: v => this.calls.push(['amp', v]),
      set_sr: v => this.calls.push(['rate', v]),
      set_seed: v => this.calls.push(['seed', v]),
      live_coding_mode: v => this.calls.push(['mode', !!v]),
      process: (inp, out, size, res) => {
        this.n++
        this.seen = inp === undefined ? undefined : Array.from(new Float32Array(this.memory.buffer, inp, 128))
        move()
        const o = new Float32Array(this.memory.buffer, out, size)
        for (let i = 0; i < size; i++) o[i] = this.n * 1024 + i
        const b = new Uint8Array(this.memory.buffer, res, 256)
        b.fill(0)
        if (this.reply) b.set(this.reply.slice(0, 256))
        this.reply = null
        this.calls.push(['block'])
      },
    }
  }
  /** what the engine says to a program: nothing, or an error the program asks for */
  verdict(t) {
    const m = /\/\/ fail (\d) ?(.*)/.exec(t)
    if (!m) return null
    return Uint8Array.from([Number(m[1]), 0, ...Buffer.from(m[2])])
  }
}

let copies = 0
async function open(r, shared) {
  const printed = []
  const con = { log: (...a) => printed.push(a), warn: () => {}, error: (...a) => printed.push(['ERROR', ...a]), table: (...a) => printed.push(a) }
  const w = { printed, posted: [], connected: [], state: [], net: new Map(), fake: new Fake(r) }
  const real = { SharedArrayBuffer: globalThis.SharedArrayBuffer, console: globalThis.console, fetch: globalThis.fetch, setTimeout: globalThis.setTimeout, Request: globalThis.Request }
  const agent = shared ? 'Mozilla/5.0 (X11; Linux x86_64) Chrome/119.0 Safari/537.36' : 'Mozilla/5.0 (Macintosh) Version/16.1 Safari/605.1'
  const nav = { userAgent: agent, platform: shared ? 'Linux x86_64' : 'MacIntel' }
  const drop = !shared && r.chance(0.5)
  Object.defineProperty(globalThis, 'navigator', { value: nav, configurable: true, writable: true })
  globalThis.window = { navigator: nav }
  if (drop) globalThis.SharedArrayBuffer = undefined
  globalThis.console = con
  globalThis.setTimeout = f => f()
  globalThis.Request = class { constructor(u) { this.url = u } }
  globalThis.fetch = async u => {
    let k = u.url || u
    // the samples the package brings itself may move to another place
    if (/\/sample-list\.json$/.test(k)) k = 'list'
    else if (/^https.*\/assets\/[^/]+\.wav$/.test(k)) k = k.slice(k.lastIndexOf('/') + 1)
    if (!w.net.has(k)) throw new TypeError(`no such address ${k}`)
    return { arrayBuffer: async () => w.net.get(k), json: async () => w.net.get(k) }
  }
  w.close = () => {
    Object.assign(globalThis, real)
    delete globalThis.window
    delete globalThis.document
    delete globalThis.FileReader
    delete globalThis.AudioWorkletNode
  }
  const rate = r.pick([44100, 48000, 96000])
  const binary = new ArrayBuffer(32)
  new Uint8Array(binary).set([0, 97, 115, 109, r.below(256)])
  w.net.set('/assets/glicol_wasm.abc123.wasm', binary)
  w.rate = rate
  let Engine = null
  const registered = {}
  const ctx = {
    suspend: () => w.state.push('suspend'), resume: () => w.state.push('resume'), destination: { name: 'destination' },
    decodeAudioData: (data, ok) => ok(data),
    audioWorklet: {
      addModule: async url => {
        const src = await workletSource(url)
        const box = vm.createContext({
          AudioWorkletProcessor: Processor, registerProcessor: (n, c) => { registered[n] = c }, sampleRate: rate, console: con,
          Uint8Array, Float32Array, Math, Date, Atomics, SharedArrayBuffer: real.SharedArrayBuffer, ArrayBuffer,
          WebAssembly: {
            instantiate: async (obj, imports) => {
              must(obj instanceof ArrayBuffer && Buffer.from(obj).equals(Buffer.from(binary)), 'the worklet was not given the fetched engine')
              w.imports = imports
              return { instance: { exports: w.fake.exports } }
            },
          },
        })
        vm.runInContext(src, box, { filename: 'worklet.js' })
      },
    },
  }
  globalThis.AudioWorkletNode = class {
    constructor(c, name, options) {
      must(registered[name], () => `no processor is called ${name}`)
      const [page, inner] = ports()
      this.port = page
      w.page = page
      w.inner = inner
      Processor.port = inner
      must(options.outputChannelCount[0] === 2, 'the worklet has no stereo output')
      w.proc = new registered[name]({ ...options, processorOptions: structuredClone(options.processorOptions) })
    }
    connect(t) { w.connected.push(t) }
  }
  const pkg = await load('npm/index.js', `${copies++}`)
  Engine = pkg.default
  w.pkg = pkg
  w.loaded = 0
  w.live = r.chance(0.3)
  const untold = !w.live && r.chance(0.3)
  w.target = r.chance(0.5) ? { name: 'other' } : undefined
  const early = r.chance(0.3)
  w.early = early
  const opt = { audioContext: ctx, isLiveCoding: w.live, onLoaded: () => w.loaded++ }
  if (untold) delete opt.isLiveCoding
  w.own = []
  if (r.chance(0.3)) {
    opt.loadSamples = true
    const list = {}
    for (const name of r.pick([[], ['bd0000', 'clav'], ['pan-drum', 'cb', 'blip_0']])) {
      const n = r.range(2, 3000)
      const s = new Sound(Array.from({ length: r.range(1, 2) }, () => noise(r, n)), r.pick([22050, 44100, 48000]))
      list[name] = [name + '.wav']
      w.net.set(name + '.wav', s)
      w.own.push([name.replace('-', '_'), s])
    }
    w.net.set('list', list)
  }
  if (w.target) opt.connectTo = w.target
  w.e = new Engine(opt)
  await settle(3)
  for (let i = 0; i < 50 && !w.page; i++) await settle(1)
  must(w.page, 'the engine object made no audio node')
  return w
}

const LETTERS = ['a', 'b', 'q', ' ', ' ', '\n', '1', '.', ':', '>', '~', '_', 'é', '音', '🎵', '"', '\\', "'", '`', ';', '#', '%']
function words(r, max) {
  let s = ''
  const n = r.chance(0.1) ? max : r.range(1, Math.min(max, 200))
  while (Buffer.byteLength(s) < n - 4) s += r.pick(LETTERS)
  while (Buffer.byteLength(s) < n) s += 'x'
  return s
}
const noise = (r, n) => Float32Array.from({ length: n }, () => r.f(-1, 1))

/** what add_sample is to be called with */
function asSample(name, s) {
  const all = s.numberOfChannels === 2 ? [...s.data[0], ...s.data[1]] : [...s.data[0]]
  return ['sample', '\\' + name, all, s.numberOfChannels, s.sampleRate]
}

async function session(r, c) {
  const shared = r.chance(0.6)
  const w = await open(r, shared)
  const log = []
  const say = s => { log.push(s); rep.note(s) }
  try {
    say(shared ? 'shared memory' : 'messages')
    let want = []
    if (w.early) {
      // before the engine is there
      const s = new Sound(Array.from({ length: r.range(1, 2) }, () => noise(r, 20)), 44100)
      const name = r.pick(['first', 'fir-st', 'a_b'])
      w.e.sampleBuffers[name] = s
      want.push(asSample(name.replace('-', '_'), s))
      say('a sample before the engine is loaded')
    }
    else if (w.own.length) {
      want = w.own.map(([n, s]) => asSample(n, s))
      say(`${want.length} samples of the package`)
      rep.count('own_samples', want.length)
    }
    for (let i = 0; i < 3; i++) {
      await settle(3)
      await deliver(w.page, w.inner)
    }
    await settle(2)
    const calls = w.fake.calls.splice(0)
    const kinds = calls.map(c => c[0])
    must(kinds.filter(k => k === 'rate').length === 1 && calls.find(c => c[0] === 'rate')[1] === w.rate, () => `the engine was not told the rate: ${kinds}`)
    must(calls.filter(c => c[0] === 'mode').pop()?.[1] === w.live, 'the engine was not told the mode')
    const seed = calls.find(c => c[0] === 'seed')
    must(seed && seed[1] >= 0 && seed[1] <= 4096, 'the engine was given no seed')
    const byName = (a, b) => a[1] < b[1] ? -1 : 1
    same(calls.filter(c => c[0] === 'sample').sort(byName), want.sort(byName), 'samples at the start')
    must(w.loaded === 1, () => `onLoaded was called ${w.loaded} times`)
    must(w.connected.length === 1 && w.connected[0] === (w.target || w.e.audioContext.destination), 'the node was not connected as asked')
    must(typeof w.imports?.env?.now === 'function', 'the engine was given no clock')

    let code = null       // waiting in the queue
    let msgs = ''         // waiting in the queue
    let free = 2048
    let programs = 0, blocks = 0
    const steps = r.range(10, 40)
    for (let i = 0; i < steps; i++) {
      w.printed.length = 0
      const what = r.below(14)
      if (what < 4) {
        if (shared && code !== null) { await block(); continue }
        let t, stop = false
        const how = r.below(6)
        w.state.length = 0
        if (how === 0) {
          stop = true
          say('stop')
          w.e.stop()
          t = ''
        } else if (how === 1) {
          const { sin, sig, seq } = w.pkg
          const k = r.range(1, 5), o = {}
          t = ''
          for (let j = 0; j < k; j++) {
            const name = ['a', '~b', '~c', '_d', '~mod_2'][j]
            const f = r.range(1, 999)
            o[name] = r.pick([() => sin(f), () => sig(f).mul(f), () => sig(f)])()
            t += name + ': ' + o[name].code + ';\n\n'
          }
          say(`play ${t}`)
          w.e.play(o)
        } else {
          t = words(r, shared ? 2000 : 6000)
          if (how === 2) {
            // an error the page shows
            const kind = r.range(1, 3)
            t = [...t].slice(0, 200).join('').replaceAll('%', '')
            const lines = t.split('\n')
            const l = r.below(lines.length)
            const col = r.range(1, lines[l].length + 1)
            const lists = r.chance(0.5) ? 'positives[EOI, line, reference], negatives[]' : r.chance(0.5) ? 'positives[number], negatives[space]' : `positives[${'number, '.repeat(30)}`
            const info = kind === 1 ? `pos[${r.below(99)}], line[${l + 1}], col[${col}], ${lists}` : `There is no sample named ${r.pick(['\\kick', '~a'])}`
            t += `\n// fail ${kind} ${info}`
            if (shared && Buffer.byteLength(t) > 2040) continue
            say(`run ${JSON.stringify(t)}`)
            w.e.run(t)
            if (shared) code = t
            else {
              await deliver(w.page, w.inner)
              same(w.fake.calls.splice(0), [['update', t]], 'a program')
            }
            await block()
            await deliver(w.page, w.inner)
            await settle(1)
            const shown = info.slice(0, 254)
            const out = w.printed.map(a => a.map(String))
            if (kind !== 1) must(out.some(a => a[0].replaceAll('%c', '') === shown), () => `the error ${shown} was not shown: ${JSON.stringify(out)}`)
            else {
              must(out.some(a => a[0].replaceAll('%c', '').includes(`line ${l + 1}`)), () => `the line of the error ${shown} was not shown: ${JSON.stringify(out)}`)
              const line = lines[l].slice(0, col - 1) + '%c %c' + lines[l].slice(col - 1)
              must(out.some(a => a[0] === line), () => `the place of the error ${shown} was not shown: ${JSON.stringify(out)}`)
              if (lists.includes('space')) must(out.some(a => !a[0].includes('pos[') && a[0].includes('number') && a[0].includes('space')), () => `what the error ${shown} expected was not shown: ${JSON.stringify(out)}`)
            }
            rep.count('errors')
            programs++
            continue
          }
          say(`run ${JSON.stringify(t)}`)
          w.e.run(t)
        }
        must(w.state.includes('resume'), 'the audio context was not resumed')
        programs++
        rep.count('programs')
        if (shared) code = stop ? null : t
        else await deliver(w.page, w.inner)
        if (stop) {
          // an empty program, however it is spelled
          if (shared) runBlock()
          const all = w.fake.calls.splice(0)
          const u = all.filter(c => c[0] === 'update')
          same(all.filter(c => c[0] === 'msg'), msgs ? [['msg', msgs]] : [], 'messages before a stop')
          msgs = ''
          free = 2048
          must(u.length === 1 && u[0][1].trim() === '', () => `stop gave the engine ${JSON.stringify(u)}`)
          rep.count('stops')
        } else if (!shared) same(w.fake.calls.splice(0), [['update', t]], 'a program')
      } else if (what < 6) {
        const m = words(r, shared ? 300 : 900)
        const full = m.endsWith(';') ? m : m + ';'
        if (shared && Buffer.byteLength(full) > free) { await block(); continue }
        say(`message ${JSON.stringify(m)}`)
        w.e.sendMsg(m)
        rep.count('messages')
        if (shared) { msgs += full; free -= Buffer.byteLength(full) } else {
          await deliver(w.page, w.inner)
          same(w.fake.calls.splice(0), [['msg', full]], 'a message')
        }
      } else if (what < 9) {
        const name = r.pick(['kick', 'a_1', 'Big', 's0'])
        const s = new Sound(Array.from({ length: r.range(1, 2) }, () => noise(r, r.range(2, 5000))), r.pick([8000, 22050, 44100, 48000]))
        if (s.numberOfChannels === 2) s.data[1] = noise(r, s.length)
        const how = r.below(3)
        say(`sample ${name} ${s.numberOfChannels}x${s.length} at ${s.sampleRate} by ${['array', 'address', 'file'][how]}`)
        let asked = name
        if (how === 0) {
          w.e.addSampleFromDataArray(name, Float32Array.from(asSample(name, s)[2]), s.numberOfChannels, s.length, s.sampleRate)
        } else if (how === 1) {
          w.net.set('https://x/' + name, s)
          w.e.audioContext.decodeAudioData = (data, ok) => ok(data)
          await w.e.addSampleFiles(name, 'https://x/' + name)
        } else {
          const known = { 'Kick-1 a.wav': 'kick_1_a', 'snare#2.mp3': 'snare_sharp_2', 'x.wav': 'x', 'One Two - three.wav': 'one_two___three', 'c#-f# Long-Name.mp3': 'c_sharp__f_sharp__long_name' }
          const files = Object.keys(known).filter(() => r.chance(0.4)).map(name => ({ name }))
          if (!files.length) files.push({ name: 'x.wav' })
          asked = files.map(f => known[f.name])
          globalThis.FileReader = class { readAsArrayBuffer() { this.done = this.onload({ target: { result: s } }) } }
          globalThis.document = { createElement: () => ({ click() { this.onchange({ target: { files } }) } }) }
          await w.e.addSampleFiles()
        }
        await settle(1)
        await deliver(w.page, w.inner)
        same(w.fake.calls.splice(0), [asked].flat().map(n => asSample(n, s)), 'a sample')
        rep.count('samples')
      } else if (what === 9) {
        const v = r.f(20, 400)
        say(`tempo ${v}`)
        w.e.setBPM(v)
        await deliver(w.page, w.inner)
        same(w.fake.calls.splice(0), [['bpm', v]], 'a tempo')
      } else if (what === 10) {
        const v = r.chance(0.5)
        say(`mode ${v}`)
        w.e.liveCodingMode(v)
        await deliver(w.page, w.inner)
        same(w.fake.calls.splice(0), [['mode', v]], 'a mode')
      } else await block()
    }
    await block()

    function runBlock() {
      const input = r.chance(0.5) ? noise(r, 128) : null
      const out = [new Float32Array(128), new Float32Array(128)]
      const before = w.fake.allocated
      const go = w.proc.process([input ? r.chance(0.5) ? [input] : [input, noise(r, 128)] : []], [out], {})
      must(go === true, 'the worklet ended itself')
      const k = w.fake.n * 1024
      for (let i = 0; i < 128; i++) {
        must(out[0][i] === k + i && out[1][i] === k + 128 + i, () => `sample ${i} of block ${w.fake.n} came out as ${out[0][i] - k}, ${out[1][i] - k}`)
      }
      if (input) {
        must(w.fake.seen && input.every((x, i) => x === w.fake.seen[i]), 'the engine did not hear the input of this block')
        rep.count('inputs')
      }
      blocks++
      rep.count('blocks')
      return w.fake.allocated - before
    }
    async function block() {
      say('block')
      w.fake.calls.length = 0
      const quiet = code === null && msgs === ''
      const had = blocks > 0 && w.warm
      const got = runBlock()
      // the first input may need a place; later ones not
      if (quiet && had) must(got === 0, () => `a block without news allocated ${got} bytes`)
      if (w.fake.seen !== undefined) w.warm = true
      const want = []
      if (shared) {
        if (code !== null) want.push(['update', code])
        if (msgs) want.push(['msg', msgs])
      }
      want.push(['block'])
      const calls = w.fake.calls.splice(0)
      same(calls, want, 'a block')
      code = null
      msgs = ''
      free = 2048
    }
    return { key: log.join('\n'), nontrivial: programs > 0 && blocks > 1 }
  } catch (e) {
    if (!(e instanceof Broken) && threw(e)) throw new Broken(`the code threw ${e.stack}`)
    throw e
  } finally {
    w.close()
  }
}
function same(got, want, what) {
  const show = l => JSON.stringify(l.map(c => c.map(x => Array.isArray(x) ? `${x.length} values` : x))).slice(0, 1500)
  must(got.length === want.length, () => `${what}: the engine was called with ${show(got)}, asked was ${show(want)}`)
  got.forEach((g, i) => must(JSON.stringify(g) === JSON.stringify(want[i]), () => `${what}: the engine was called with ${show([g])}, asked was ${show([want[i]])}`))
}

process.on('unhandledRejection', e => { rejected = e })
let rejected = null
await rep.cases('session', rep.n(1500, 8000), rep.n(60, 900), async (r, c) => {
  rejected = null
  const o = await session(r, c)
  await settle(1)
  if (rejected) {
    if (threw(rejected)) throw new Broken(`the code threw ${rejected.stack}`)
    throw rejected
  }
  return o
})
for (const k of ['programs', 'messages', 'samples', 'blocks', 'inputs', 'errors', 'stops', 'own_samples']) rep.require(k, 20)
process.exit(rep.finish())
