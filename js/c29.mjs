// C29: chains built in JavaScript, read back by the engine's parser.
import fs from 'node:fs'
import { spawnSync } from 'node:child_process'
import { Report, must, target, scratchDir } from './lib.mjs'

const rep = new Report(process.argv)
rep.rule(
  'a case is a program of several chains built by random sequences of builder calls with numbers, references, patterns and names; ' +
  'its text is parsed and compared, node by node and argument by argument, with the parse of a spelling written by the harness; ' +
  'cases are distinct by their calls and count when a chain has two or more nodes; every builder call is used')
rep.assume('numbers that JavaScript prints without an exponent')

const { module: b } = await target('npm/nodechain.js')

const num = r => r.pick([r.range(0, 20000), r.range(-5, 5), Number(r.f(-10, 10).toFixed(r.range(1, 5))), Number(r.f(0, 1).toFixed(3)), 0.000001, 123456.75])
const pos = r => Math.abs(num(r))
const ref = r => r.pick(['~a', '~mod', '~lfo_1', '~x2', '~trigger', '~bb', '~slow_modulation_of_the_lead_2', '~v..'])
// numbers may be given as text
const n = r => { const v = num(r); return { arg: r.chance(0.2) ? String(v) : v, text: String(v) } }
const nr = r => r.chance(0.35) ? (x => ({ arg: x, text: x }))(ref(r)) : n(r)
const whole = r => { const v = r.range(0, 9000); return { arg: r.chance(0.2) ? String(v) : v, text: String(v) } }
const name = r => (x => ({ arg: x, text: `\\${x}` }))(r.pick(['kick', 'bd_1', 'x9', '808_0']))
const notes = r => {
  const t = Array.from({ length: r.range(1, 5) }, () => Array.from({ length: r.range(1, 3) }, () => r.pick(['60', '72', '_', '48', '~a'])).join('')
    .replace(/(\d\d)(?=\d)/g, '$1_')).join(' ')
  return { arg: t, text: t }
}
const refs = r => {
  const l = Array.from({ length: r.range(1, 4) }, () => ref(r))
  return { arg: r.chance(0.3) ? l : l.join(' '), text: l.join(' ') }
}
const pattern = r => {
  const t = Array.from({ length: r.range(1, 3) }, () => `${r.range(0, 7) / 8} ${r.range(30, 90)}`).join(', ')
  return { arg: t, text: t }
}
const sampled = r => {
  const t = '"' + Array.from({ length: r.range(1, 3) }, () => `\\${r.pick(['kick', 'sn'])}@${r.range(0, 7) / 8}`).join(' ') + '"' + r.pick(['()', '(2)'])
  return { arg: t, text: t }
}
const sweep = r => r.chance(0.2) ? (t => ({ arg: t, text: t }))(`"${r.range(100, 900)}@0 ${r.range(100, 900)}@${r.range(1, 7) / 8}"(1)`) : nr(r)

// name of the call: kinds of its arguments and how the language spells it
const HEAD = {
  sin: [[nr], t => `sin ${t[0]}`], saw: [[nr], t => `saw ${t[0]}`], tri: [[nr], t => `tri ${t[0]}`], squ: [[nr], t => `squ ${t[0]}`],
  imp: [[n], t => `imp ${t[0]}`], noise: [[whole], t => `noise ${t[0]}`], speed: [[n], t => `speed ${t[0]}`], seq: [[notes], t => `seq ${t[0]}`],
  psynth: [[pattern, n], t => `psynth \`${t[0]}\` ${t[1]}`], psampler: [[sampled], t => `psampler ${t[0]}`], sig: [[n], t => `sig ${t[0]}`], mix: [[refs], t => `mix ${t[0]}`],
}
const REST = {
  mul: [[nr], t => `mul ${t[0]}`], add: [[nr], t => `add ${t[0]}`], delayms: [[nr], t => `delayms ${t[0]}`], delayn: [[whole], t => `delayn ${t[0]}`],
  lpf: [[sweep, n], t => `lpf ${t[0]} ${t[1]}`], hpf: [[nr, n], t => `hpf ${t[0]} ${t[1]}`], plate: [[n], t => `plate ${t[0]}`],
  bd: [[n], t => `bd ${t[0]}`], sn: [[n], t => `sn ${t[0]}`], hh: [[n], t => `hh ${t[0]}`],
  sawsynth: [[n, n], t => `sawsynth ${t[0]} ${t[1]}`], squsynth: [[n, n], t => `squsynth ${t[0]} ${t[1]}`], trisynth: [[n, n], t => `trisynth ${t[0]} ${t[1]}`],
  seq: [[notes], t => `seq ${t[0]}`], adsr: [[n, n, n, n], t => `adsr ${t.join(' ')}`], sp: [[name], t => `sp ${t[0]}`], envperc: [[n, n], t => `envperc ${t[0]} ${t[1]}`],
}

const CHECKED = ['mul', 'add', 'delayms', 'delayn', 'hpf', 'plate', 'bd', 'sn', 'hh', 'sawsynth', 'squsynth', 'trisynth']

const build = (r, key) => {
  const call = (table, k, on) => {
    const a = table[k][0].map(f => f(r))
    key.push(`${k}(${a.map(x => JSON.stringify(x.arg)).join(', ')})`)
    rep.note(key[key.length - 1])
    rep.count(`call_${on ? '' : 'head_'}${k}`)
    const out = on ? on[k](...a.map(x => x.arg)) : b[k](...a.map(x => x.arg))
    must(out !== undefined && out !== null, () => `${key[key.length - 1]} gives nothing`)
    return [out, table[k][1](a.map(x => x.text))]
  }
  let [chain, text] = call(HEAD, r.pick(Object.keys(HEAD)))
  const spelled = [text]
  for (let i = r.below(6); i > 0; i--) {
    if (r.chance(0.1)) {
      // an argument that is neither a number nor a reference where one of them must stand
      const k = r.pick(CHECKED)
      const a = REST[k][0].map(f => f(r).arg)
      a[r.below(a.length)] = r.pick([undefined, NaN, 'abc', '1.2.3', {}, '4 >> mul'])
      const before = chain.code
      key.push(`${k}(${a.map(x => x === undefined ? 'undefined' : JSON.stringify(x)).join(', ')}) adds nothing`)
      rep.note(key[key.length - 1])
      must(chain[k](...a) === chain, () => `${key[key.length - 1]}: a call with a bad argument does not give the chain`)
      must(chain.code === before, () => `${key[key.length - 1]}: it added ${chain.code.slice(before.length)}`)
      rep.count('refused')
    }
    const [next, t] = call(REST, r.pick(Object.keys(REST)), chain)
    chain = next
    spelled.push(t)
  }
  must(String(chain) === chain.code, 'a chain and its text differ')
  return [chain, spelled.join(' >> '), spelled.length]
}

const pairs = []
await rep.cases('chains', rep.n(20000, 400000), rep.n(30, 400), (r, c) => {
  const key = []
  let code = '', want = '', most = 0
  const names = ['o', '~a', '~b2', 'lead', '~mod', '_side', '~slow_modulation_of_the_lead_2'].filter(() => r.chance(0.5))
  if (!names.length) names.push('o')
  // chains are built side by side, so that one must not leak into another
  const built = names.map(k => { key.push(`${k}:`); return [k, ...build(r, key)] })
  for (const [k, chain, text, len] of built) {
    code += `${k}: ${chain.code};\n\n`
    want += `${k}: ${text}\n`
    most = Math.max(most, len)
  }
  pairs.push({ c, code, want, log: key.join('\n') })
  return { key: key.join(' '), nontrivial: most > 1 }
})
const file = `${scratchDir()}/pairs`
fs.writeFileSync(file, pairs.map(p => `${p.code}\x1f${p.want}\x1e`).join(''))
const out = spawnSync(process.env.VMON, ['pairs', file], { encoding: 'utf8', maxBuffer: 1 << 30 })
const lines = (out.stdout || '').split('\n').filter(l => l)
if (out.status !== 0 || lines.length !== pairs.length) rep.errors.push(`the parser answered ${lines.length} of ${pairs.length} times: ${out.error || ''} ${out.stderr}`)
else lines.forEach((l, i) => {
  rep.count('compared')
  if (l === 'same' || rep.viols.length >= 3) return
  rep.log = [pairs[i].log, pairs[i].code, pairs[i].want]
  rep.broken('chains', pairs[i].c, `the built text ${l}`)
})
rep.require('refused', 500)
for (const k of Object.keys(HEAD)) rep.require(`call_head_${k}`, 20)
for (const k of Object.keys(REST)) rep.require(`call_${k}`, 20)
process.exit(rep.finish())
