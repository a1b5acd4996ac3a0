// Cases, evidence and verdicts for the checks of the JavaScript front end.
import fs from 'node:fs'
import os from 'node:os'
import path from 'node:path'
import { createHash } from 'node:crypto'
import { fileURLToPath, pathToFileURL } from 'node:url'

export const ROOT = path.dirname(path.dirname(fileURLToPath(import.meta.url)))

export class Rng {
  constructor(seed) {
    const h = createHash('sha256').update(String(seed)).digest()
    this.s = [0, 4, 8, 12].map(i => h.readUInt32LE(i))
  }
  u32() {
    // sfc32
    let [a, b, c, d] = this.s
    const t = (a + b + d) >>> 0
    this.s = [(b ^ (b >>> 9)) >>> 0, (c + (c << 3)) >>> 0, (((c << 21) | (c >>> 11)) + t) >>> 0, (d + 1) >>> 0]
    return t
  }
  unit() { return this.u32() / 4294967296 }
  below(n) { return Math.floor(this.unit() * n) }
  range(a, b) { return a + this.below(b - a + 1) }
  f(a, b) { return a + this.unit() * (b - a) }
  chance(p) { return this.unit() < p }
  pick(l) { return l[this.below(l.length)] }
}

/** A property does not hold. */
export class Broken extends Error {}
export function must(ok, what) {
  if (!ok) throw new Broken(typeof what === 'function' ? what() : what)
}

export class Report {
  constructor(argv) {
    this.id = argv[2]
    this.tier = argv[3] || 'quick'
    this.only = argv.length > 5 ? { part: argv[4], c: Number(argv[5]) } : null
    this.seed = Number(process.env.VERIF_SEED || 1)
    this.start = Date.now()
    this.meas = {}
    this.distinct = new Set()
    this.samples = []
    this.evals = 0
    this.viols = []
    this.errors = []
    this.assumptions = []
    this.ruleText = ''
    this.stop = false
  }
  n(q, t) { return this.tier === 'quick' ? q : t }
  rule(s) { this.ruleText = s }
  assume(s) { this.assumptions.push(s) }
  count(k, n = 1) { this.meas[k] = (this.meas[k] || 0) + n }
  require(k, min) {
    if (!this.only && !this.stop && !((this.meas[k] || 0) >= min)) this.errors.push(`observed only ${this.meas[k] || 0} of ${k}, expected at least ${min}`)
  }
  note(s) { this.log.push(s) }
  seen(part, c, o) {
    this.evals++
    if (!o.nontrivial) return
    const k = createHash('sha256').update(o.key).digest('hex').slice(0, 16)
    if (!this.distinct.has(k)) {
      this.distinct.add(k)
      if (this.samples.length < 6 || (this.samples.length < 12 && c % 97 === 13)) this.samples.push(`${part}#${c}: ${o.key.slice(0, 500)}`)
    }
  }
  broken(part, c, what) {
    this.viols.push({ part, c, what, log: this.log.join('\n') })
    if (this.viols.length >= 3) this.stop = true
  }
  /** f(rng, case) gives {key, nontrivial}; throws Broken for a violation */
  async cases(part, n, cap, f) {
    if (this.stop || (this.only && this.only.part !== part)) return
    const end = Date.now() + cap * 1000
    let done = 0
    for (let c = this.only ? this.only.c : 0; c < n && !this.stop; c++) {
      if (Date.now() > end) break
      this.log = []
      try {
        this.seen(part, c, await f(new Rng(`${this.seed}/${this.id}/${part}/${c}`), c))
      } catch (e) {
        this.evals++
        if (e instanceof Broken) this.broken(part, c, e.message)
        else if (fromTarget(e)) this.broken(part, c, `the code threw ${e}`)
        else {
          this.errors.push(`harness error in ${part}#${c}: ${e && e.stack || e}`)
          if (this.errors.length > 3) this.stop = true
        }
      }
      done++
      if (this.only) return
    }
    this.count(`cases_${part}`, done)
    if (done < Math.max(1, n / 20) && !this.stop) this.errors.push(`part ${part}: only ${done} of ${n} cases completed in ${cap} s`)
  }
  finish() {
    if (!this.only) {
      if (!this.viols.length && !this.distinct.size) this.errors.push('no non-trivial case was observed')
      const ev = {
        property: this.id, tier: this.tier, seed: this.seed, level: 'exploration',
        coverage: { evaluations: this.evals, distinct_nontrivial: this.distinct.size, rule: this.ruleText, samples: this.samples, ...this.meas },
        assumptions: this.assumptions, wall_s: (Date.now() - this.start) / 1000, violations: this.viols.length,
      }
      fs.mkdirSync(`${ROOT}/evidence`, { recursive: true })
      fs.writeFileSync(`${ROOT}/evidence/${this.id}.json`, JSON.stringify(ev) + '\n')
    }
    if (this.viols.length) {
      fs.mkdirSync(`${ROOT}/replays`, { recursive: true })
      this.viols.forEach((v, i) => {
        const p = `${ROOT}/replays/${this.id}-${this.seed}-${i}.txt`
        const t = `property ${this.id}\nreplay with: VERIF_SEED=${this.seed} ./check ${this.id} ${this.tier} ${v.part} ${v.c}\n\n${v.what}\n\n--- case log ---\n${v.log}\n`
        fs.writeFileSync(p, t)
        console.log(v.what)
        console.log(`VIOLATION property=${this.id} replay=${p}`)
        if (this.only) console.log(t)
      })
      return 1
    }
    if (this.errors.length) {
      this.errors.forEach(e => console.error(`ERROR: ${e}`))
      return 2
    }
    console.log(`${this.id} ${this.tier}: ${this.evals} evaluations, ${this.distinct.size} distinct non-trivial, ${((Date.now() - this.start) / 1000).toFixed(1)} s`)
    return 0
  }
}

let scratch
export function scratchDir() {
  if (!scratch) {
    scratch = fs.mkdtempSync(path.join(os.tmpdir(), 'vjs-'))
    process.on('exit', () => fs.rmSync(scratch, { recursive: true, force: true }))
  }
  return scratch
}
/** Was this thrown by the code under test? Its copies are the only files named *.target.mjs. */
export function fromTarget(e) {
  // only the code under test throws plain text
  if (typeof e === 'string') return true
  const l = String(e && e.stack || '').split('\n').find(l => /^\s+at .*(file:|\/|vm:)/.test(l))
  return !!l && l.includes('.target.mjs')
}
/** Import one of the repository's modules; its package does not say that they are modules. */
export async function target(file, edit = s => s) {
  const to = path.join(scratchDir(), path.basename(file).replace(/\.js$/, '') + '.target.mjs')
  fs.writeFileSync(to, edit(fs.readFileSync(`/repo/js/${file}`, 'utf8')))
  return { module: await import(pathToFileURL(to).href), path: to }
}
