// C28: the shared-memory queue, driven by one writer and one reader.
import { Worker } from 'node:worker_threads'
import { Report, Broken, must, target } from './lib.mjs'

const rep = new Report(process.argv)
rep.rule(
  'parts: plain compares every call with a model of the queue; nested runs calls of one side in the middle of calls of the other, ' +
  'at every shared read and write of the pointers and of the contents; threads runs a writer and a reader in two threads with random pauses; text sends texts; ' +
  'what is written is numbered, so that a lost, repeated, changed or reordered element shows; cases are distinct by their sizes and calls and count when the queue wrapped around')
rep.assume('one writer and one reader')

const { module: m, path } = await target('npm/ringbuf.js')
const { RingBuffer, TextParameterReader, TextParameterWriter } = m
const TYPES = [Uint8Array, Int16Array, Uint32Array, Float32Array, Float64Array]

/** the k-th element ever written */
const value = (k, T) => {
  const x = Math.imul(k + 1, 2654435761) >>> 0
  if (T === Uint8Array) return x >>> 24
  if (T === Int16Array) return (x >>> 16) - 32768
  if (T === Uint32Array) return x
  return T === Float32Array ? Math.fround(x / 7) : x / 7
}
const offer = (from, n, T) => {
  const a = new T(n)
  for (let i = 0; i < n; i++) a[i] = value(from + i, T)
  return a
}

/** Hook every access to shared memory: pointers through Atomics, contents through the array type. */
let hook = null
const real = { load: Atomics.load, store: Atomics.store }
for (const f of ['load', 'store', 'add', 'sub', 'exchange', 'compareExchange']) {
  const g = Atomics[f]
  Atomics[f] = (...a) => {
    if (hook) hook()
    const v = g(...a)
    if (hook) hook()
    return v
  }
}
function hooked(T) {
  const H = class extends T {
    constructor(...a) {
      super(...a)
      return new Proxy(this, {
        get(t, k) {
          if (hook && typeof k === 'string' && /^\d+$/.test(k)) hook()
          const v = t[k]
          return typeof v === 'function' ? v.bind(t) : v
        },
        set(t, k, v) {
          if (hook && /^\d+$/.test(String(k))) hook()
          t[k] = v
          if (hook && /^\d+$/.test(String(k))) hook()
          return true
        },
      })
    }
    static get [Symbol.species]() { return T }
  }
  Object.defineProperty(H, 'name', { value: T.name })
  return H
}

/** What both sides know */
class Side {
  constructor(cap, T) {
    this.cap = cap
    this.T = T
    this.accepted = 0
    this.received = 0
  }
  push(rb, n) {
    const a = offer(this.accepted, n, this.T)
    const k = rb.push(a)
    must(Number.isInteger(k) && k >= 0 && k <= n, () => `a push of ${n} elements says that ${k} were taken`)
    for (let i = 0; i < n; i++) must(a[i] === value(this.accepted + i, this.T), 'a push changed what was offered')
    this.accepted += k
    return k
  }
  pop(rb, n) {
    const a = new this.T(n)
    const k = rb.pop(a)
    must(Number.isInteger(k) && k >= 0 && k <= n, () => `a pop of ${n} elements says that ${k} were read`)
    for (let i = 0; i < k; i++) {
      const w = value(this.received + i, this.T)
      must(a[i] === w, () => `element ${this.received + i} was written as ${w} and read as ${a[i]}`)
    }
    this.received += k
    return k
  }
  get held() { return this.accepted - this.received }
  bounds() {
    must(this.held >= 0 && this.held <= this.cap, () => `${this.accepted} elements written, ${this.received} read, room for ${this.cap}`)
  }
  reports(w, r) {
    const h = this.held
    for (const rb of [w, r]) {
      must(rb.empty() === (h === 0), () => `empty() is ${rb.empty()} with ${h} elements held`)
      must(rb.full() === (h === this.cap), () => `full() is ${rb.full()} with ${h} of ${this.cap} elements held`)
      must(rb.available_read() === h, () => `available_read() is ${rb.available_read()} with ${h} elements held`)
      must(rb.available_write() === this.cap - h, () => `available_write() is ${rb.available_write()} with ${h} of ${this.cap} elements held`)
    }
  }
}
const size = (r, cap) => r.pick([r.below(4), r.range(0, cap), r.range(cap, 2 * cap + 2), cap, cap + 1, 1])
const capacity = r => r.pick([1, 2, 3, r.range(4, 20), r.range(20, 200)])

await rep.cases('plain', rep.n(6000, 120000), rep.n(15, 200), r => {
  const T = r.pick(TYPES), cap = capacity(r)
  const sab = RingBuffer.getStorageForCapacity(cap, T)
  const w = new RingBuffer(sab, T), d = new RingBuffer(sab, T)
  must(w.type() === T.name, `type() says ${w.type()} for ${T.name}`)
  const s = new Side(cap, T)
  const key = [`${T.name} ${cap}`]
  rep.note(key[0])
  s.reports(w, d)
  for (let i = 0; i < 60; i++) {
    const n = size(r, cap), held = s.held
    if (r.chance(0.5)) {
      const k = s.push(w, n)
      key.push(`+${n}=${k}`)
      rep.note(`push ${n}: ${k}`)
      must(k === Math.min(n, cap - held), () => `a push of ${n} took ${k} with ${held} of ${cap} elements held`)
    } else {
      const k = s.pop(d, n)
      key.push(`-${n}=${k}`)
      rep.note(`pop ${n}: ${k}`)
      must(k === Math.min(n, held), () => `a pop of ${n} read ${k} with ${held} elements held`)
    }
    s.bounds()
    s.reports(w, d)
    rep.count('calls')
  }
  while (s.held) must(s.pop(d, cap) > 0, 'what was written cannot be read')
  return { key: key.join(' '), nontrivial: s.accepted > cap + 1 }
})

await rep.cases('nested', rep.n(8000, 160000), rep.n(20, 300), r => {
  const T = r.pick(TYPES), cap = capacity(r)
  const H = hooked(T)
  const sab = RingBuffer.getStorageForCapacity(cap, T)
  const w = new RingBuffer(sab, H), d = new RingBuffer(sab, H)
  const s = new Side(cap, T)
  const key = [`${T.name} ${cap}`]
  rep.note(key[0])
  const p = r.pick([0.02, 0.1, 0.4])
  const nested = other => {
    hook = () => {
      if (!r.chance(p)) return
      const h = hook
      hook = null
      try { other() } finally { hook = h }
    }
  }
  try {
    for (let i = 0; i < 30; i++) {
      const n = size(r, cap)
      const before = s.held
      if (r.chance(0.5)) {
        let got = 0
        nested(() => {
          got += s.pop(d, size(r, cap))
          const e = d.empty()
          must(e === (d.available_read() === 0), 'empty() and available_read() disagree')
          rep.count('nested_pops')
        })
        const k = s.push(w, n)
        hook = null
        key.push(`+${n}=${k}/${got}`)
        rep.note(`push ${n}: ${k}, ${got} read meanwhile`)
        must(k >= Math.min(n, cap - before) && k <= Math.min(n, cap - before + got), () => `a push of ${n} took ${k} with ${before} of ${cap} held before and ${got} read meanwhile`)
      } else {
        let put = 0
        nested(() => {
          put += s.push(w, size(r, cap))
          rep.count('nested_pushes')
        })
        const k = s.pop(d, n)
        hook = null
        key.push(`-${n}=${k}/${put}`)
        rep.note(`pop ${n}: ${k}, ${put} written meanwhile`)
        must(k >= Math.min(n, before) && k <= Math.min(n, before + put), () => `a pop of ${n} read ${k} with ${before} held before and ${put} written meanwhile`)
      }
      s.bounds()
      s.reports(w, d)
    }
    while (s.held) must(s.pop(d, cap) > 0, 'what was written cannot be read')
  } finally { hook = null }
  return { key: key.join(' '), nontrivial: s.accepted > cap + 1 }
})
Object.assign(Atomics, real)

const WORKER = `
const { workerData: d, parentPort } = require('node:worker_threads')
const value = (k, n) => {
  const x = Math.imul(k + 1, 2654435761) >>> 0
  return n === 'Uint8Array' ? x >>> 24 : n === 'Float32Array' ? Math.fround(x / 7) : x
}
import(d.path).then(m => {
  const T = globalThis[d.type]
  const rb = new m.RingBuffer(d.sab, T)
  let s = d.seed
  const rnd = n => { s = (Math.imul(s, 1664525) + 1013904223) >>> 0; return Math.floor(s / 4294967296 * n) }
  let at = 0, waits = 0, calls = 0
  const sleep = new Int32Array(new SharedArrayBuffer(4))
  const pause = () => { const k = rnd(6); if (k === 0) for (let i = 0; i < rnd(2000); i++); if (k === 1 && rnd(50) === 0) Atomics.wait(sleep, 0, 0, 0.2) }
  const stop = Date.now() + d.limit
  while (at < d.total) {
    if ((++calls & 1023) === 0 && Date.now() > stop) break
    const n = 1 + rnd(d.chunk)
    if (d.writer) {
      const k = Math.min(n, d.total - at)
      const a = new T(k)
      for (let i = 0; i < k; i++) a[i] = value(at + i, d.type)
      const free = rb.available_write()
      const t = rb.push(a)
      if (t < Math.min(k, free) || t > k) return parentPort.postMessage({ bad: 'a push of ' + k + ' took ' + t + ' after available_write() said ' + free })
      if (!t) waits++
      at += t
    } else {
      const a = new T(n)
      const there = rb.available_read()
      const t = rb.pop(a)
      if (t < Math.min(n, there) || t > n) return parentPort.postMessage({ bad: 'a pop of ' + n + ' read ' + t + ' after available_read() said ' + there })
      for (let i = 0; i < t; i++) if (a[i] !== value(at + i, d.type)) return parentPort.postMessage({ bad: 'element ' + (at + i) + ' was written as ' + value(at + i, d.type) + ' and read as ' + a[i] })
      if (!t) waits++
      at += t
    }
    pause()
  }
  parentPort.postMessage({ at, waits, calls })
}).catch(e => parentPort.postMessage({ error: String(e && e.stack || e) }))
`
await rep.cases('threads', rep.n(24, 400), rep.n(40, 400), async r => {
  const jobs = []
  for (let j = 0; j < 3; j++) {
    const type = r.pick(['Uint8Array', 'Uint32Array', 'Float32Array'])
    const cap = r.pick([1, 2, 5, 16, 63, 500])
    const sab = RingBuffer.getStorageForCapacity(cap, globalThis[type])
    const d = { path, type, sab, total: rep.n(60000, 200000), limit: 6000 }
    const desc = `${type} ${cap}`
    rep.note(desc)
    const run = (writer, chunk) => new Promise((ok, bad) => {
      const k = new Worker(WORKER, { eval: true, workerData: { ...d, writer, chunk, seed: r.u32() } })
      k.once('message', x => ok(x))
      k.once('error', bad)
    })
    jobs.push(Promise.all([run(true, r.range(1, 2 * cap + 3)), run(false, r.range(1, 2 * cap + 3))]).then(([a, b]) => [desc, a, b]))
  }
  const key = []
  let waits = 0
  for (const [desc, a, b] of await Promise.all(jobs)) {
    for (const x of [a, b]) {
      must(!x.bad, () => `${desc}: ${x.bad}`)
      if (x.error) {
        if (x.error.includes('.target.mjs')) throw new Broken(`${desc}: ${x.error}`)
        throw new Error(x.error)
      }
      rep.count('thread_calls', x.calls)
      rep.count('thread_waits', x.waits)
      waits += x.waits
    }
    must(b.at <= a.at, () => `${desc}: ${a.at} elements written, ${b.at} read`)
    rep.count('thread_elements', b.at)
    key.push(`${desc} ${a.at} ${b.at} ${a.waits} ${b.waits}`)
  }
  return { key: key.join('; '), nontrivial: waits > 10 }
})

await rep.cases('text', rep.n(3000, 60000), rep.n(10, 100), r => {
  const cap = r.pick([1, 7, 64, 2048])
  const sab = RingBuffer.getStorageForCapacity(cap, Uint8Array)
  const w = new TextParameterWriter(new RingBuffer(sab, Uint8Array)), d = new TextParameterReader(new RingBuffer(sab, Uint8Array))
  const enc = new TextEncoder(), dec = new TextDecoder()
  const buf = new Uint8Array(2048)
  const key = []
  let total = 0
  must(d.dequeue(buf) === 0 && d.available_read() === 0, 'an empty queue gives text')
  for (let i = 0; i < 30; i++) {
    const t = Array.from({ length: r.below(Math.min(cap, 700) + 1) }, () => r.pick([...'abc 0.9>~:;\né√🎵'])).join('')
    const b = enc.encode(t)
    if (b.length > cap) continue
    rep.note(JSON.stringify(t))
    must(w.available_write() === cap, () => `available_write() is ${w.available_write()} of ${cap}`)
    must(w.enqueue(b) === b.length, 'a text that fits was not taken')
    must(d.available_read() === b.length, 'available_read() differs from what was sent')
    const k = d.dequeue(buf)
    must(dec.decode(buf.slice(0, k)) === t, () => `sent ${JSON.stringify(t)}, received ${JSON.stringify(dec.decode(buf.slice(0, k)))}`)
    must(d.dequeue(buf) === 0, 'a text arrived twice')
    total += k
    key.push(t)
    rep.count('texts')
  }
  for (const T of [Float32Array, Uint32Array]) {
    const rb = new RingBuffer(RingBuffer.getStorageForCapacity(4, T), T)
    for (const C of [TextParameterReader, TextParameterWriter]) {
      let threw = false
      try { new C(rb) } catch { threw = true }
      must(threw, 'a text queue was made from a queue that is not of bytes')
    }
  }
  return { key: key.join('|'), nontrivial: total > cap }
})

rep.require('nested_pops', 1000)
rep.require('nested_pushes', 1000)
rep.require('thread_waits', 1000)
rep.require('thread_elements', 100000)
process.exit(rep.finish())
