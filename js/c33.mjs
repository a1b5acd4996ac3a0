// C33: the web page runs what the editor holds, shows errors and plays what the engine makes.
import fs from 'node:fs'
import vm from 'node:vm'
import { Report, Broken, must } from './lib.mjs'
import { JS, load, threw, ports, deliver, settle, Processor, Sound } from './page.mjs'

const rep = new Report(process.argv)
rep.rule('part page: a case is a session on the page (programs with and without embedded scripts, tempo, loudness, samples from the list, addresses, files and folders, errors, stop) with blocks in between, ' +
  'run on the real page script and worklet with a recording stand-in for the compiled engine; part sound: sessions on the worklet with the committed engine, judged by their audio; ' +
  'cases are distinct by their calls and count when a program and a block were among them')
rep.assume('embedded scripts are expressions, or statements with a return; sample names hold at most one dash')

const dec = new TextDecoder()
class Fake {
  constructor() { this.calls = []; this.n = 0; this.engines = 0 }
  init(b) { this.engines++; this.binary = b }
  call(name, a) {
    if (name === 'process') {
      this.n++
      this.calls.push(['block'])
      return Float32Array.from({ length: a[0] }, (_, i) => this.n * 1024 + i)
    }
    if (name === 'update') {
      const t = dec.decode(a[0])
      this.calls.push(['update', t])
      const m = /\/\/ fail (\d) ?(.*)/.exec(t)
      const r = new Uint8Array(256)
      if (m) r.set([Number(m[1]), 0, ...Buffer.from(m[2])].slice(0, 256))
      return r
    }
    this.calls.push([name, ...a.map(x => ArrayBuffer.isView(x) ? Array.from(x) : x)])
  }
}

const PAGE = new vm.Script(fs.readFileSync(`${JS}/src/glicol.js`, 'utf8'), { filename: 'page.js' })
const UTILS = fs.readFileSync(`${JS}/src/utils.js`, 'utf8')
let copies = 0

async function open(r, samples) {
  const w = { printed: [], warned: [], net: new Map(), fake: new Fake(), state: [], nodes: 0, samples }
  globalThis.fakeEngine = w.fake
  const rate = r.pick([44100, 48000])
  w.rate = rate
  const binary = new ArrayBuffer(16)
  w.net.set('./src/glicol_wasm_bg.wasm', binary)
  w.net.set('./src/utils.js', UTILS)
  w.net.set('./src/glicol-api.json', {})
  w.net.set('./src/sample-list.json', Object.fromEntries(Object.keys(samples).map(k => [k, ''])))
  for (const k in samples) w.net.set(`./assets/${k}.wav`, samples[k])
  let cls = null
  class Ctx {
    constructor() {
      this.destination = {}
      this.audioWorklet = {
        addModule: async url => {
          must(url === './src/glicol-engine.js', () => `the page loads the worklet ${url}`)
          Object.assign(globalThis, { AudioWorkletProcessor: Processor, registerProcessor: (n, c) => { w.registered = n; cls = c }, sampleRate: rate })
          await load('src/glicol-engine.js', `fake${copies++}`)
        },
      }
    }
    resume() { w.state.push('resume') }
    suspend() { w.state.push('suspend') }
    async close() { w.state.push('close'); w.proc = null }
    createChannelSplitter(n) { return nodeOf('splitter', n) }
    createAnalyser() { return nodeOf('analyser') }
    createChannelMerger(n) { return nodeOf('merger', n) }
    decodeAudioData(data, ok) { ok(data); return Promise.resolve(data) }
  }
  w.wires = []
  const nodeOf = (kind, n) => { const o = { kind, n, connect(to, from = 0, at = 0) { w.wires.push([o, from, to, at]) } }; return o }
  const con = { log: (...a) => w.printed.push(a), warn: (...a) => w.warned.push(a), table: () => {}, clear: () => {}, error: (...a) => w.printed.push(a) }
  const box = {
    console: con, setTimeout: f => f(), TextEncoder, TextDecoder, Uint8Array, Float32Array, AudioContext: Ctx,
    Request: class { constructor(u) { this.url = u } },
    fetch: async u => {
      const k = u.url || u
      if (!w.net.has(k)) throw new TypeError(`no such address ${k}`)
      const v = w.net.get(k)
      return { text: async () => v, json: async () => JSON.parse(JSON.stringify(v)), arrayBuffer: async () => v }
    },
    AudioWorkletNode: class {
      constructor(c, name, options) {
        must(name === w.registered, () => `no processor is called ${name}`)
        must(options.outputChannelCount[0] === 2, 'the worklet has no stereo output')
        const [page, inner] = ports()
        this.port = w.page = page
        w.inner = Processor.port = inner
        w.node = this
        this.kind = 'worklet'
        w.proc = new cls({ ...options, processorOptions: structuredClone(options.processorOptions) })
      }
      connect(to, from = 0, at = 0) { w.wires.push([this, from, to, at]) }
    },
    document: { getElementById: () => null, createElement: () => w.input },
  }
  box.window = box
  w.box = vm.createContext(box)
  PAGE.runInContext(w.box)
  await ready(w)
  return w
}
async function ready(w) {
  for (let i = 0; i < 60 && !(w.page && w.page.onmessage); i++) await settle(1)
  must(w.page && w.page.onmessage, 'the page made no audio node')
  await deliver(w.page, w.inner)
  await settle(4)
  await deliver(w.page, w.inner)
}
const bySound = (name, s) => ['add_sample', name, s.numberOfChannels === 2 ? [...s.data[0], ...s.data[1]] : [...s.data[0]], s.numberOfChannels, s.sampleRate]

const LETTERS = ['a', 'b', 'q', ' ', ' ', '\n', '1', '.', ':', '>', '~', '_', 'é', '音', '🎵', '"', "'", ';', '/']
function words(r, max, hash) {
  let s = ''
  for (let n = r.range(0, max); n > 0; n--) s += r.pick(LETTERS)
  // a single mark is part of the text
  if (hash && r.chance(0.2)) s += '# '
  return s
}
/** an embedded script and its result */
function script(r) {
  const a = r.range(0, 99), b = r.range(0, 99)
  return r.pick([
    [`${a} + ${b}`, String(a + b)],
    [`"ab".repeat(${a % 4})`, 'ab'.repeat(a % 4)],
    [`[${a}, ${b}].map(x => x * 2).join(" ")`, `${a * 2} ${b * 2}`],
    [`let x = ${a}; return x * ${b}`, String(a * b)],
    [`let l = [];\nfor (let i = 0; i < ${a % 5}; i++) { l.push(i) }\nreturn l.join(" ")`, [...Array(a % 5).keys()].join(' ')],
    [`let y = ${a};`, ''],
    [`undefined`, ''],
    [`nothing_of_this_name + ${a}`, ''],
    [`(`, ''],
    [`[1].map(\n x => x + ${a})[0]`, String(1 + a)],
    [`null`, 'null'],
    [`0`, '0'],
  ])
}
const noise = (r, n) => Float32Array.from({ length: n }, () => r.f(-1, 1))
function sound(r, n = r.range(2, 800)) {
  return new Sound(Array.from({ length: r.range(1, 2) }, () => noise(r, n)), r.pick([8000, 22050, 44100, 48000]))
}
function same(got, want, what) {
  const show = l => JSON.stringify(l.map(c => c.map(x => Array.isArray(x) ? `${x.length} values` : x))).slice(0, 1500)
  must(got.length === want.length, () => `${what}: the engine was called with ${show(got)}, asked was ${show(want)}`)
  got.forEach((g, i) => must(JSON.stringify(g) === JSON.stringify(want[i]), () => `${what}: the engine was called with ${show([g])}, asked was ${show([want[i]])}`))
}

async function page(r) {
  const samples = {}
  for (let i = r.range(0, 3); i > 0; i--) samples[r.pick(['kick', 'a_1', 'cb-x', 's0', 'pandrum'])] = sound(r)
  const log = []
  const say = s => { log.push(s); rep.note(s) }
  const w = await open(r, samples)
  const drain = async () => { await settle(1); await deliver(w.page, w.inner); await settle(1) }
  const calls = () => w.fake.calls.splice(0)
  const held = {}
  let programs = 0, blocks = 0
  const started = () => {
    const c = calls()
    must(c.filter(x => x[0] === 'set_sr').length === 1 && c.find(x => x[0] === 'set_sr')[1] === w.rate, () => 'the engine was not told the rate')
    const seed = c.find(x => x[0] === 'set_seed')
    must(seed && seed[1] >= 0 && seed[1] <= 4096, 'the engine was given no seed')
    const got = c.filter(x => x[0] === 'add_sample').sort((a, b) => a[1] < b[1] ? -1 : 1)
    const want = Object.entries(held).map(([k, s]) => bySound('\\' + k.replace('-', '_'), s)).sort((a, b) => a[1] < b[1] ? -1 : 1)
    same(got, want, 'samples at the start')
    // what the worklet makes must come out left and right
    const to = (from, out) => w.wires.filter(x => x[0] === from && (out === undefined || x[1] === out))
    const ends = out => {
      const seen = []
      const walk = (x, ch) => {
        if (x === w.box.actx.destination) return seen.push(ch)
        for (const [, f, t, at] of to(x)) {
          if (x.kind === 'splitter') { if (f === ch) walk(t, t.kind === 'merger' ? at : ch) }
          else walk(t, t.kind === 'merger' ? at : ch)
        }
      }
      walk(w.node, out)
      return seen
    }
    must(JSON.stringify([ends(0), ends(1)]) === '[[0],[1]]', () => `the sides of the worklet end at ${JSON.stringify([ends(0), ends(1)])}`)
  }
  Object.assign(held, samples)
  started()
  const block = () => {
    const out = [new Float32Array(128), new Float32Array(128)]
    must(w.proc.process([[]], [out], {}) === true, 'the worklet ended itself')
    const k = w.fake.n * 1024
    for (let i = 0; i < 128; i++) must(out[0][i] === k + i && out[1][i] === k + 128 + i, () => `sample ${i} of block ${w.fake.n} came out as ${out[0][i] - k}, ${out[1][i] - k}`)
    same(calls(), [['block']], 'a block')
    blocks++
    rep.count('blocks')
  }
  for (let i = r.range(8, 30); i > 0; i--) {
    w.printed.length = 0
    w.warned.length = 0
    const what = r.below(12)
    if (what < 4) {
      let raw = words(r, 60, true), want = raw
      for (let k = r.chance(0.5) ? r.range(1, 3) : 0; k > 0; k--) {
        const [code, result] = script(r)
        const more = words(r, 30, false)
        // a mark just before a script would belong to it
        raw += `##${code}#` + more
        want += result + more
        rep.count('scripts')
      }
      let info = null, kind = 0, l = 0, col = 0
      if (r.chance(0.3)) {
        kind = r.range(1, 3)
        const lines = want.split('\n')
        l = r.below(lines.length)
        col = r.range(1, lines[l].length + 1)
        const lists = r.pick(['positives[EOI, line, reference], negatives[]', 'positives[number], negatives[space]', `positives[${'number, '.repeat(30)}`])
        info = kind === 1 ? `pos[${r.below(99)}], line[${l + 1}], col[${col}], ${lists}` : `There is no sample named ${r.pick(['\\kick', '~a'])}`
        raw += `\n// fail ${kind} ${info}`
        want += `\n// fail ${kind} ${info}`
      }
      say(`run ${JSON.stringify(raw)}`)
      w.state.length = 0
      await w.box.run(raw)
      await drain()
      same(calls(), [['update', want]], 'a program')
      must(w.state.includes('resume'), 'the audio context was not resumed')
      must(w.box.code === want, 'the page does not hold the program it runs')
      if (info) {
        const shown = info.slice(0, 254), out = w.printed.map(a => a.map(String))
        if (kind !== 1) must(out.some(a => a[0].replaceAll('%c', '') === shown), () => `the error ${shown} was not shown: ${JSON.stringify(out)}`)
        else {
          must(out.some(a => a[0].replaceAll('%c', '').includes(`line ${l + 1}`)), () => `the line of the error ${shown} was not shown: ${JSON.stringify(out)}`)
          const lt = want.split('\n')[l]
          const line = lt.slice(0, col - 1) + '%c %c' + lt.slice(col - 1)
          must(out.some(a => a[0] === line), () => `the place of the error ${shown} was not shown: ${JSON.stringify(out)}`)
          if (info.includes('space')) must(out.some(a => !a[0].includes('pos[') && a[0].includes('number') && a[0].includes('space')), () => `what the error ${shown} expected was not shown: ${JSON.stringify(out)}`)
        }
        rep.count('errors')
      } else must(!w.printed.some(a => String(a[0]).includes('rror')), () => `an error was shown for an accepted program: ${JSON.stringify(w.printed)}`)
      programs++
      rep.count('programs')
    } else if (what < 6) {
      const amp = what === 5
      const v = r.pick([r.f(0, 1), r.f(20, 300), 1, 0.5, '120', undefined, null])
      say(`${amp ? 'loudness' : 'tempo'} ${v}`)
      if (amp) w.box.trackAmp(v)
      else w.box.setBPM(v)
      await drain()
      const ok = typeof v === 'number' && (!amp || v <= 1)
      same(calls(), ok ? [[amp ? 'set_track_amp' : 'set_bpm', v]] : [], 'a setting')
      must(ok || w.warned.length > 0, 'a setting was refused without a word')
      rep.count('settings')
    } else if (what < 8) {
      const s = sound(r)
      const how = r.below(3)
      let name
      say(`sample ${s.numberOfChannels}x${s.length} at ${s.sampleRate} by ${['address', 'file', 'folder'][how]}`)
      if (how === 0) {
        name = r.pick(['kick', 'a_1', 'new'])
        w.net.set('https://x/' + name, s)
        await w.box.addSampleFiles(name, 'https://x/' + name)
      } else {
        const f = r.pick([['Kick-1 a.wav', 'kick_1_a'], ['snare#2.mp3', 'snare_sharp_2'], ['x.wav', 'x']])
        const d = r.pick([['My-kit a', 'my_kit_a'], ['c#', 'c_sharp_'], ['drums', 'drums']])
        const files = [{ name: f[0], type: 'audio/wav', webkitRelativePath: `top/${d[0]}/${f[0]}` }]
        name = how === 1 ? f[1] : `${d[1]}_0`
        w.box.FileReader = class { readAsArrayBuffer() { this.onload({ target: { result: s } }) } }
        w.input = { click() { this.onchange({ target: { files } }) } }
        if (how === 1) await w.box.addSampleFiles()
        else await w.box.addSampleFolder()
      }
      await drain()
      held[name] = s
      same(calls(), [bySound('\\' + name, s)], 'a sample')
      must(w.box.allSamples().includes(name), 'the sample is not in the list of samples')
      rep.count('samples')
    } else if (what === 8 && r.chance(0.4)) {
      say('stop')
      w.state.length = 0
      w.wires.length = 0
      w.page = null
      await w.box.stop()
      await ready(w)
      must(w.state.includes('close'), 'the old audio context goes on')
      must(w.proc, 'there is no engine after a stop')
      started()
      rep.count('stops')
    } else block()
  }
  block()
  return { key: log.join('\n'), nontrivial: programs > 0 && blocks > 1 }
}

/** The worklet with the committed engine: programs whose audio is known. */
const wasm = fs.readFileSync(`${JS}/src/glicol_wasm_bg.wasm`)
async function play(r) {
  const log = []
  const say = s => { log.push(s); rep.note(s) }
  let cls
  Object.assign(globalThis, { AudioWorkletProcessor: Processor, registerProcessor: (n, c) => { cls = c }, sampleRate: 44100 })
  await load('src/glicol-engine.js', `real${copies++}`)
  const [page, inner] = ports()
  Processor.port = inner
  const proc = new cls({ processorOptions: { wasmBlob: wasm.buffer.slice(wasm.byteOffset, wasm.byteOffset + wasm.length) } })
  page.got = []
  page.onmessage = e => page.got.push(e.data)
  const post = async m => { page.postMessage(m); await deliver(inner, page); return page.got.splice(0) }
  const first = await post({ type: 'load' })
  must(first.length === 1 && first[0].type === 'ready', 'the worklet did not get ready')
  const block = () => {
    const out = [new Float32Array(128), new Float32Array(128)]
    proc.process([[]], [out], {})
    rep.count('real_blocks')
    return out
  }
  const run = async t => { say(`run ${JSON.stringify(t)}`); return post({ type: 'run', value: new TextEncoder().encode(t) }) }
  const f32 = Math.fround
  const near = (a, b) => Math.abs(a - b) <= 1e-5 * Math.max(1, Math.abs(b))
  const flat = (want, what) => {
    const o = block()
    for (let c = 0; c < 2; c++) for (let i = 0; i < 128; i++) must(near(o[c][i], want[c]), () => `${what}: sample ${i} of side ${c} is ${o[c][i]}, not ${want[c]}`)
  }
  const num = () => (r.range(-90, 90) / 100).toFixed(2)
  let loud = 0
  for (let k = r.range(3, 8); k > 0; k--) {
    const what = r.below(6)
    if (what < 2) {
      // sums and products of constants, in texts of any length
      let text = '', sum = 0
      const n = r.range(1, r.chance(0.2) ? 60 : 4)
      for (let j = 0; j < n; j++) {
        const a = num(), b = num(), c = num()
        text += `o${j}: constsig ${a} >> mul ~m${j} >> add ${c};\n~m${j}: constsig ${b}; // ${r.pick(['', 'é', '音', '🎵'])}\n`
        sum += a * b + Number(c)
      }
      const e = await run(text)
      must(e.length === 0, () => `an error for a valid program: ${JSON.stringify(e)}`)
      block()
      const o = block()
      for (const s of o) for (const x of s) must(Math.abs(x - sum) < 1e-4 * (n + 1), () => `a program of ${n} chains gives ${x}, not ${sum}`)
      loud++
    } else if (what === 2) {
      await run('o: constsig 0.5')
      block()
      const [text, kind, part] = r.pick([
        ['o: sin ~nope', 3, 'There is no reference named ~nope'],
        ["o: sp \\nope_é".slice(0, 12), 2, 'There is no sample named \\nope'],
        ['o: constsig 1\na: sin %', 1, 'line[2], col[8]'],
        ['o: ', 1, 'line[1]'],
      ])
      const e = await run(text)
      must(e.length === 1 && e[0].type === 'e' && e[0].info[0] === kind, () => `the reply to ${text} is ${JSON.stringify(e)}`)
      const t = Buffer.from(e[0].info).toString().replaceAll('\0', '')
      must(t.includes(part), () => `the reply to ${text} is ${t}`)
      flat([0.5, 0.5], 'after a rejected program')
      rep.count('real_errors')
    } else if (what === 3) {
      const name = r.pick(['\\kick', '\\a_1', '\\long_name_of_a_sample'])
      const n = r.range(300, 900), ch = r.range(1, 2), a = f32(num()), b = f32(num())
      const data = new Float32Array(n * ch).fill(a, 0, n).fill(b, n)
      say(`sample ${name} ${ch}x${n}`)
      await post({ type: 'loadsample', sample: data, channels: ch, length: n, name, sr: 44100 })
      await run('')
      block()
      const e = await run(`o: imp 1 >> sp ${name}`)
      must(e.length === 0, () => `an error for a registered sample: ${JSON.stringify(e)}`)
      flat([a, ch === 2 ? b : a], `a sample of ${ch} sides`)
      let len = 128
      for (let i = 0; i < 8; i++) len += block()[0].filter(x => x !== 0).length
      must(a === 0 || Math.abs(len - n) <= 2, () => `a sample of ${n} frames sounded for ${len}`)
      rep.count('real_samples')
    } else if (what === 4) {
      const v = r.pick([2400, 3000, 4800, 6000])
      say(`tempo ${v}`)
      await post({ type: 'bpm', value: v })
      await run('')
      block()
      await run('o: seq 60')
      const at = []
      for (let b = 0; b < 60; b++) block()[0].forEach((x, i) => { if (x !== 0) at.push(b * 128 + i) })
      const half = 44100 * 60 / v * 4
      must(at.length >= 2 && at.every((x, i) => Math.abs(x - i * half) <= 2), () => `at tempo ${v} notes fall on ${at}`)
      rep.count('real_tempos')
    } else {
      const e = await run(r.pick(['', '\n', ' ']))
      must(e.length === 0, 'an error for an empty program')
      flat([0, 0], 'an empty program')
    }
  }
  return { key: log.join('\n'), nontrivial: loud > 0 }
}

let rejected = null
process.on('unhandledRejection', e => { rejected = e })
const judged = f => async (r, c) => {
  rejected = null
  try {
    const o = await f(r, c)
    await settle(1)
    if (rejected) throw rejected
    return o
  } catch (e) {
    if (!(e instanceof Broken) && threw(e)) throw new Broken(`the code threw ${e.stack}`)
    throw e
  }
}
await rep.cases('page', rep.n(1500, 6000), rep.n(60, 900), judged(page))
await rep.cases('sound', rep.n(300, 2000), rep.n(60, 900), judged(play))
for (const k of ['programs', 'scripts', 'settings', 'samples', 'blocks', 'errors', 'stops', 'real_blocks', 'real_errors', 'real_samples', 'real_tempos']) rep.require(k, 20)
process.exit(rep.finish())
