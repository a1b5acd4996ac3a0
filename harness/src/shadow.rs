//! Reference models of the nodes, stepped on recorded inputs and compared with recorded outputs.

use crate::gen::{sample, Cfg};
use crate::prog::*;
use glicol::Engine;
use std::collections::HashMap;

pub struct Sig<'a> {
    pub ch: Vec<&'a [f32]>,
}
impl<'a> Sig<'a> {
    pub fn l(&self, i: usize) -> f32 {
        self.ch[0][i]
    }
    pub fn r(&self, i: usize) -> f32 {
        self.ch.get(1).unwrap_or(&self.ch[0])[i]
    }
    pub fn c(&self, c: usize, i: usize) -> f32 {
        if c == 0 {
            self.l(i)
        } else {
            self.r(i)
        }
    }
}

pub struct Ins<'a> {
    pub main: Option<Sig<'a>>,
    pub refs: Vec<Sig<'a>>,
}
impl<'a> Ins<'a> {
    fn m(&self) -> &Sig<'a> {
        self.main.as_ref().expect("model without a main input")
    }
}

pub trait Model {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String>;
    fn number(&mut self, _pos: u8, _v: f32) {}
    fn symbol(&mut self, _pos: u8, _s: &str) {}
    fn bpm(&mut self, _bpm: f32) {}
}

pub fn cmp(what: &str, i: usize, c: usize, got: f32, want: f64, tol: f64) -> Result<(), String> {
    if ((got as f64) - want).abs() <= tol + 1e-36 || (got.is_nan() && want.is_nan()) || got as f64 == want {
        Ok(())
    } else {
        Err(format!("{what}: sample {i} channel {c}: got {got}, expected {want} (tolerance {tol:.3e})"))
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Wave {
    Sin,
    Saw,
    Squ,
    Tri,
}
impl Wave {
    fn at(self, ph: f64) -> f64 {
        match self {
            Wave::Sin => (ph * std::f64::consts::TAU).sin(),
            Wave::Saw => ph * 2. - 1.,
            Wave::Squ => {
                if ph <= 0.5 {
                    1.
                } else {
                    -1.
                }
            }
            Wave::Tri => 2. * ((-1. + 2. * ph).abs() - 0.5),
        }
    }
    fn slope(self) -> f64 {
        match self {
            Wave::Sin => 6.3,
            Wave::Saw => 2.,
            Wave::Squ => 0.,
            Wave::Tri => 4.,
        }
    }
}

struct Osc {
    w: Wave,
    freq: f32,
    sr: f64,
    ph: f64,
    err: f64,
    inc: f32,
    is_ref: bool,
    step: f64,
    last: f64,
}
impl Osc {
    /// Once rounding has moved the phase visibly, it is read off the output again.
    fn anchor(&mut self, got: f64) {
        if self.err < 1e-2 {
            return;
        }
        let (at, err) = match self.w {
            Wave::Saw => (vec![(got + 1.) / 2.], 1e-6),
            Wave::Tri if got.abs() < 0.8 => (vec![(got + 3.) / 4., (1. - got) / 4.], 1e-6),
            Wave::Sin if got.abs() < 0.9 => {
                let a = got.asin() / std::f64::consts::TAU;
                (vec![a, 0.5 - a], 1e-5)
            }
            // an edge lies between two samples
            Wave::Squ if got != self.last && self.last != 0. && self.step < 5e-3 => (vec![0., 0.5], self.step + 1e-6),
            _ => return,
        };
        let far = |a: &f64| {
            let d = (a - self.ph).rem_euclid(1.);
            d.min(1. - d)
        };
        let near = at.into_iter().min_by(|a, b| far(a).total_cmp(&far(b))).unwrap();
        self.ph = near.rem_euclid(1.);
        self.err = err;
    }
}
impl Model for Osc {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            let got = out.l(i) as f64;
            let e = self.err + 1e-6;
            let tol = self.w.slope() * e * 2. + 3e-6;
            let ok = [0., -e, e].iter().any(|d| (self.w.at((self.ph + d).rem_euclid(1.)) - got).abs() <= tol);
            // what is left of an unreadable phase after minutes says nothing
            if !ok && e < 0.2 {
                return Err(format!(
                    "sample {i}: got {got}, expected {} (phase {}, phase tolerance {e:.2e})",
                    self.w.at(self.ph),
                    self.ph
                ));
            }
            if got.abs() > 1.0001 {
                return Err(format!("sample {i}: {got} leaves -1..1"));
            }
            self.anchor(got);
            let f = if self.is_ref {
                let m = ins.refs[0].l(i);
                if self.w == Wave::Sin || m != 0. {
                    self.inc = m;
                }
                self.inc
            } else {
                self.freq
            };
            let inc = f as f64 / self.sr;
            self.step = inc.abs();
            self.last = got;
            self.ph = (self.ph + inc).rem_euclid(1.);
            self.err += 7e-8 * (1. + inc.abs());
        }
        Ok(())
    }
    fn number(&mut self, pos: u8, v: f32) {
        if pos == 0 {
            self.freq = v
        }
    }
}

struct Sig1(f32);
impl Model for Sig1 {
    fn block(&mut self, _: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            cmp("constant", i, 0, out.l(i), self.0 as f64, 0.)?
        }
        Ok(())
    }
    fn number(&mut self, pos: u8, v: f32) {
        if pos == 0 {
            self.0 = v
        }
    }
}

struct Imp {
    period: u64,
    clock: u64,
    sr: f64,
}
impl Imp {
    fn period(sr: f64, f: f32) -> u64 {
        ((sr / f as f64) as u64).max(1)
    }
}
impl Model for Imp {
    fn block(&mut self, _: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            let w = if self.clock % self.period == 0 { 1. } else { 0. };
            cmp("impulse", i, 0, out.l(i), w, 0.)?;
            self.clock += 1;
        }
        Ok(())
    }
    fn number(&mut self, pos: u8, v: f32) {
        if pos == 0 {
            self.period = Imp::period(self.sr, v)
        }
    }
}

pub struct NoiseGen(pub u64);
impl NoiseGen {
    pub fn next(&mut self) -> f64 {
        let x = (self.0 << 13) ^ self.0;
        self.0 = self.0.wrapping_add(1);
        1.0 - (x.wrapping_mul(x.wrapping_mul(x).wrapping_mul(15_731).wrapping_add(789_221)).wrapping_add(1_376_312_589)
            & 0x7fffffff) as f64
            / 1_073_741_824.0
    }
}
impl Model for NoiseGen {
    fn block(&mut self, _: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            let w = self.next();
            cmp("noise", i, 0, out.l(i), w, 1e-6)?
        }
        Ok(())
    }
    fn number(&mut self, pos: u8, v: f32) {
        if pos == 0 {
            self.0 = v as u64
        }
    }
}

struct Speed(f32);
impl Model for Speed {
    fn block(&mut self, _: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            cmp("speed", i, 0, out.l(i), if i == 0 { self.0 as f64 } else { 0. }, 0.)?
        }
        Ok(())
    }
    fn number(&mut self, pos: u8, v: f32) {
        if pos == 0 {
            self.0 = v
        }
    }
}

pub struct SeqM {
    /// position in the bar; a midi number or the index of the reference
    pub events: Vec<(f64, Result<u32, usize>)>,
    pub bpm: f64,
    pub sr: f64,
    pub speed: f64,
    pub step: u64,
    pub has_main: bool,
    pub fired: u64,
}
impl SeqM {
    pub fn events(groups: &[Vec<Note>]) -> (Vec<(f64, Result<u32, usize>)>, Vec<char>) {
        let mut refs: Vec<char> = vec![];
        let mut ev = vec![];
        for (i, g) in groups.iter().enumerate() {
            for (j, n) in g.iter().enumerate() {
                let t = (i as f64 + j as f64 / g.len() as f64) / groups.len() as f64;
                match n {
                    Note::M(m) => ev.push((t, Ok(*m))),
                    Note::Rest => {}
                    Note::R(c) => {
                        let k = refs.iter().position(|x| x == c).unwrap_or_else(|| {
                            refs.push(*c);
                            refs.len() - 1
                        });
                        ev.push((t, Err(k)));
                    }
                }
            }
        }
        (ev, refs)
    }
}
impl Model for SeqM {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        if self.has_main {
            let m = ins.m();
            if m.l(0) > 0. && m.l(1) == 0. {
                self.speed = m.l(0) as f64;
            }
        }
        let bar = 240. / self.bpm * self.sr / self.speed;
        let len = (bar as u64).max(1);
        for i in 0..n {
            let pos = self.step % len;
            let mut want = 0.;
            for (t, v) in &self.events {
                // positions are chosen away from rounding ties, or exactly on a sample
                let p = t * bar;
                let at = if (p - p.round()).abs() < 1e-3 { p.round() } else { p.floor() } as u64;
                if at == pos {
                    let midi = match v {
                        Ok(m) => *m as f64,
                        Err(k) => ins.refs[*k].l(i) as f64,
                    };
                    want = if midi == 0. { 0. } else { 2f64.powf((midi - 60.) / 12.) };
                    self.fired += 1;
                }
            }
            cmp("sequence", i, 0, out.l(i), want, 2e-6 * (1. + want.abs()))?;
            cmp("sequence", i, 1, out.r(i), want, 2e-6 * (1. + want.abs()))?;
            self.step += 1;
        }
        Ok(())
    }
    fn bpm(&mut self, bpm: f32) {
        self.bpm = bpm as f64
    }
}

struct ChooseM(Vec<i32>, NoiseGen);
impl Model for ChooseM {
    fn block(&mut self, _: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        let mut id = ((self.1.next() * 0.5 + 0.5) * self.0.len() as f64) as usize;
        if id >= self.0.len() {
            id = 0
        }
        for i in 0..n {
            for c in 0..2 {
                cmp("choice", i, c, out.c(c, i), self.0[id] as f64, 0.)?
            }
        }
        Ok(())
    }
}

pub struct ArrangeM {
    pub bars: Vec<f32>,
    pub bpm: f64,
    pub sr: f64,
    pub step: u64,
}
impl Model for ArrangeM {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        let bar = 240. / self.bpm * self.sr;
        for i in 0..n {
            let mut cum = 0.;
            let mut k = None;
            for (j, b) in self.bars.iter().enumerate() {
                cum += *b as f64;
                let lim = cum * bar;
                let lim = if (lim - lim.round()).abs() < 1e-3 { lim.round() } else { lim };
                if (self.step as f64) < lim {
                    k = Some(j);
                    break;
                }
            }
            if k.is_none() {
                self.step = 0;
            }
            let s = &ins.refs[k.unwrap_or(0)];
            for c in 0..2 {
                cmp("arrangement", i, c, out.c(c, i), s.c(c, i) as f64, 0.)?
            }
            self.step += 1;
        }
        Ok(())
    }
    fn number(&mut self, pos: u8, v: f32) {
        self.step = 0;
        if pos % 2 == 1 {
            if let Some(b) = self.bars.get_mut(pos as usize / 2) {
                *b = v
            }
        }
    }
    fn bpm(&mut self, bpm: f32) {
        self.bpm = bpm as f64
    }
}

struct OpM {
    add: bool,
    val: f32,
    is_ref: bool,
}
impl Model for OpM {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            for c in 0..2 {
                let x = ins.m().c(c, i) as f64;
                let y = if self.is_ref { ins.refs[0].c(c, i) as f64 } else { self.val as f64 };
                let w = if self.add { x + y } else { x * y };
                cmp(if self.add { "sum" } else { "product" }, i, c, out.c(c, i), w, 1e-6 * (x.abs() + y.abs() + w.abs()))?
            }
        }
        Ok(())
    }
    fn number(&mut self, pos: u8, v: f32) {
        if pos == 0 {
            self.val = v
        }
    }
}

struct PanM(f32, bool);
impl Model for PanM {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            let p = if self.1 { ins.refs[0].l(i) } else { self.0 } as f64;
            let q = (p + 1.) / 2.;
            let x = ins.m().l(i) as f64;
            for c in 0..2 {
                let g = if c == 0 { 1. - q } else { q };
                let w = x * g.max(0.).sqrt();
                // the square root is steep near zero
                cmp("pan", i, c, out.c(c, i), w, 1e-6 * x.abs() + if g < 1e-4 { 6e-4 * x.abs() } else { 3e-6 * x.abs() })?
            }
        }
        Ok(())
    }
    fn number(&mut self, pos: u8, v: f32) {
        if pos == 0 {
            self.0 = v.clamp(-1., 1.)
        }
    }
}

struct MixM;
impl Model for MixM {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            for c in 0..2 {
                let (mut w, mut a) = (0., 0.);
                for s in ins.refs.iter().chain(ins.main.iter()) {
                    w += s.c(c, i) as f64;
                    a += s.c(c, i).abs() as f64;
                }
                cmp("mix", i, c, out.c(c, i), w, 1e-6 * a)?
            }
        }
        Ok(())
    }
}

struct BalM;
impl Model for BalM {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            for c in 0..2 {
                cmp("balance", i, c, out.c(c, i), ins.refs[c].l(i) as f64, 0.)?
            }
        }
        Ok(())
    }
}

pub struct DelayM {
    pub hist: [Vec<f32>; 2],
    pub d: usize,
    pub sr: f64,
    pub ms: bool,
    pub is_ref: bool,
}
impl Model for DelayM {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            let t = self.hist[0].len();
            for c in 0..2 {
                self.hist[c].push(ins.m().c(c, i));
            }
            for c in 0..2 {
                let h = &self.hist[c];
                let at = |k: i64| if k <= 0 || k as usize > t { 0. } else { h[t - k as usize] as f64 };
                if self.is_ref {
                    let d = (ins.refs[0].l(i) as f64 / 1000. * self.sr).max(1.);
                    let k = d.floor();
                    let fr = d - k;
                    let k = k as i64;
                    let w = at(k) * (1. - fr) + at(k + 1) * fr;
                    // rounding of the read position in f32
                    let e = 0.04;
                    let m = [at(k - 1), at(k), at(k + 1), at(k + 2)];
                    let span = m.iter().cloned().fold(f64::MIN, f64::max) - m.iter().cloned().fold(f64::MAX, f64::min);
                    cmp("modulated delay", i, c, out.c(c, i), w, e * span + 1e-6 * (1. + m.iter().fold(0f64, |a, x| a.max(x.abs()))))?
                } else {
                    let w = if self.d == 0 { h[t] as f64 } else { at(self.d as i64) };
                    cmp("delay", i, c, out.c(c, i), w, 0.)?
                }
            }
        }
        Ok(())
    }
    fn number(&mut self, pos: u8, v: f32) {
        if pos == 0 {
            self.d = if self.ms { ms_samples(v, self.sr) } else { v as usize };
            self.hist = [vec![], vec![]];
        }
    }
}
pub fn ms_samples(ms: f32, sr: f64) -> usize {
    let p = ms as f64 / 1000. * sr;
    ((if (p - p.round()).abs() < 1e-3 { p.round() } else { p }) as usize).max(1)
}
pub fn secs_samples(s: f32, sr: f64) -> usize {
    let p = s as f64 * sr;
    (if (p - p.round()).abs() < 1e-3 { p.round() } else { p }) as usize
}

struct OnePoleM {
    r: f32,
    y1: f64,
    is_ref: bool,
}
impl Model for OnePoleM {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            if self.is_ref {
                self.r = ins.refs[0].l(i);
            }
            let b = (-2. * std::f64::consts::PI * self.r as f64).exp();
            let x = ins.m().l(i) as f64;
            let w = (1. - b) * x + b * self.y1;
            cmp("one-pole", i, 0, out.l(i), w, 1e-6 * (x.abs() + self.y1.abs()) + 1e-30)?;
            self.y1 = out.l(i) as f64;
        }
        Ok(())
    }
    fn number(&mut self, pos: u8, v: f32) {
        if pos == 0 {
            self.r = v
        }
    }
}

struct BiquadM {
    high: bool,
    cutoff: f32,
    q: f32,
    sr: f64,
    x: [f64; 2],
    y: [f64; 2],
    is_ref: bool,
    pat: Vec<(f32, f32)>,
    span: f32,
    bpm: f64,
    step: u64,
}
impl Model for BiquadM {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        let cyc = 240. / self.bpm;
        let bar = cyc * self.span as f64 * self.sr;
        let len = ((if (bar - bar.round()).abs() < 1e-3 { bar.round() } else { bar }) as u64).max(1);
        for i in 0..n {
            if self.is_ref {
                // one value per block is promised: the first
                self.cutoff = ins.refs[0].l(0);
            }
            for (v, t) in &self.pat {
                let p = *t as f64 * cyc * self.sr;
                let p = (if (p - p.round()).abs() < 1e-3 { p.round() } else { p }) as u64;
                if p == self.step % len {
                    self.cutoff = *v;
                }
            }
            let th = 2. * std::f64::consts::PI * self.cutoff as f64 / self.sr;
            let d = 1. / self.q as f64;
            let beta = 0.5 * (1. - d * th.sin() / 2.) / (1. + d * th.sin() / 2.);
            let gama = (0.5 + beta) * th.cos();
            let s = if self.high { 0.5 + beta + gama } else { 0.5 + beta - gama };
            let (a0, a1, a2) = (s / 2., if self.high { -s } else { s }, s / 2.);
            let x = ins.m().l(i) as f64;
            let w = a0 * x + a1 * self.x[0] + a2 * self.x[1] + 2. * gama * self.y[0] - 2. * beta * self.y[1];
            let scale = x.abs() + self.x[0].abs() + self.x[1].abs() + 2. * self.y[0].abs() + self.y[1].abs();
            cmp(if self.high { "high-pass" } else { "low-pass" }, i, 0, out.l(i), w, 1.2e-6 * scale + 1e-30)?;
            self.x = [x, self.x[0]];
            self.y = [out.l(i) as f64, self.y[0]];
            self.step += 1;
        }
        Ok(())
    }
    fn number(&mut self, pos: u8, v: f32) {
        match pos {
            0 => self.cutoff = v,
            1 => self.q = v,
            _ => {}
        }
    }
    fn bpm(&mut self, bpm: f32) {
        self.bpm = bpm as f64
    }
}

struct ApfM {
    g: f32,
    d: usize,
    x: Vec<f32>,
    y: Vec<f32>,
    sr: f64,
    is_ref: bool,
}
impl Model for ApfM {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            let t = self.x.len();
            let x = ins.m().l(i);
            self.x.push(x);
            self.y.push(out.l(i));
            let at = |h: &Vec<f32>, k: i64| if k <= 0 || k as usize > t { 0. } else { h[t - k as usize] as f64 };
            let g = self.g as f64;
            let (w, tol) = if self.is_ref {
                let d = (ins.refs[0].l(i) as f64 / 1000. * self.sr).max(1.);
                let (k, fr) = (d.floor() as i64, d - d.floor());
                let f = |h: &Vec<f32>| at(h, k) * (1. - fr) + at(h, k + 1) * fr;
                let sp = |h: &Vec<f32>| {
                    let m = [at(h, k - 1), at(h, k), at(h, k + 1), at(h, k + 2)];
                    m.iter().cloned().fold(f64::MIN, f64::max) - m.iter().cloned().fold(f64::MAX, f64::min)
                };
                (-g * x as f64 + f(&self.x) + g * f(&self.y), 0.04 * (sp(&self.x) + sp(&self.y)) + 1e-6 * (1. + x.abs() as f64 + f(&self.x).abs() + f(&self.y).abs()))
            } else {
                let (a, b) = (at(&self.x, self.d as i64), at(&self.y, self.d as i64));
                (-g * x as f64 + a + g * b, 1e-6 * (x.abs() as f64 + a.abs() + b.abs()))
            };
            for c in 0..2 {
                cmp("all-pass", i, c, out.c(c, i), w, tol)?;
            }
        }
        Ok(())
    }
    fn number(&mut self, pos: u8, v: f32) {
        match pos {
            0 => {
                self.d = ms_samples(v, self.sr);
                self.x.clear();
                self.y.clear();
            }
            1 => self.g = v,
            _ => {}
        }
    }
}

pub struct PercM {
    pub a: f32,
    pub d: f32,
    pub pos: usize,
    pub scale: f64,
    pub sr: f64,
}
impl PercM {
    pub fn new(a: f32, d: f32, sr: f64) -> PercM {
        PercM { a, d, pos: 0, scale: 1., sr }
    }
    pub fn tick(&mut self, trig: f32) -> f64 {
        let (al, dl) = (secs_samples(self.a, self.sr), secs_samples(self.d, self.sr));
        if trig > 0. {
            self.pos = 0;
            self.scale = trig as f64;
        }
        let p = self.pos;
        let v = if p <= al {
            if al == 0 {
                0.
            } else {
                p as f64 / al as f64
            }
        } else if p <= al + dl {
            (al + dl - p) as f64 / dl as f64
        } else {
            0.
        };
        self.pos += 1;
        v * self.scale
    }
}
impl Model for PercM {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            let w = self.tick(ins.m().l(i));
            for c in 0..2 {
                cmp("percussive envelope", i, c, out.c(c, i), w, 1e-6 * (w.abs() + self.scale.abs()))?;
            }
        }
        Ok(())
    }
    fn number(&mut self, pos: u8, v: f32) {
        match pos {
            0 => self.a = v,
            1 => self.d = v,
            _ => {}
        }
    }
}

struct AdsrM {
    p: [f32; 4],
    sr: f64,
    pos: usize,
    stage: u8,
    y0: f64,
    lx: f32,
    ly: f64,
}
impl Model for AdsrM {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        let al = secs_samples(self.p[0], self.sr);
        let dl = secs_samples(self.p[1], self.sr);
        let rl = secs_samples(self.p[3], self.sr);
        let s = self.p[2] as f64;
        for i in 0..n {
            let x = ins.m().l(i);
            if x > 0. && self.lx == 0. {
                self.stage = 1;
                self.pos = 0;
                self.y0 = self.ly;
            } else if x == 0. && self.lx > 0. {
                self.stage = 2;
                self.pos = 0;
                self.y0 = self.ly;
            }
            let p = self.pos;
            let w = match self.stage {
                1 if p <= al && al > 0 => self.y0 + (1. - self.y0) * p as f64 / al as f64,
                1 if p <= al => 0.,
                1 if p <= al + dl => s + (1. - s) * (al + dl - p) as f64 / dl as f64,
                1 => s,
                2 if p < rl => self.y0 * (rl - p) as f64 / rl as f64,
                _ => 0.,
            };
            for c in 0..2 {
                cmp("gated envelope", i, c, out.c(c, i), w, 2e-6)?;
            }
            self.ly = out.l(i) as f64;
            self.lx = x;
            self.pos += 1;
        }
        Ok(())
    }
    fn number(&mut self, pos: u8, v: f32) {
        if let Some(p) = self.p.get_mut(pos as usize) {
            *p = v
        }
    }
}

/// Sums of playbacks, some of which may or may not still sound at their very end
pub struct Playback {
    pub begin: u64,
    pub dur: f64,
    pub data: &'static [f32],
    pub ch: usize,
}
impl Playback {
    pub fn new(begin: u64, s: &'static crate::gen::Smp, pitch: f64, sr: f64) -> Playback {
        let len = (s.data.len() / s.ch) as f64;
        Playback { begin, dur: len / pitch / (s.sr as f64 / sr), data: s.data, ch: s.ch }
    }
    /// value and tolerance per channel; `None` when over; `true`: at the very end, may be over
    pub fn at(&self, clock: u64) -> Option<([f64; 2], f64, bool)> {
        let k = (clock - self.begin) as f64;
        let slack = 1e-3 + k * 1e-6;
        if k > self.dur + slack {
            return None;
        }
        let edge = (k - self.dur).abs() <= slack;
        let len = self.data.len() / self.ch;
        let idx = ((k / self.dur) * (len - 1) as f64).min((len - 1) as f64);
        let (a, b) = (idx.floor() as usize, (idx.ceil() as usize).min(len - 1));
        let fr = idx - a as f64;
        let v = |o: usize| self.data[o + a] as f64 * (1. - fr) + self.data[o + b] as f64 * fr;
        let l = v(0);
        let r = if self.ch == 2 { v(len) } else { l };
        Some(([l, r], 1e-5 + 1.5e-6 * len as f64, edge))
    }
}
pub fn cmp_playbacks(what: &str, pb: &mut Vec<Playback>, clock: u64, out: &Sig, i: usize) -> Result<(), String> {
    let mut base = [0f64; 2];
    let mut tol = 1e-6;
    let mut opt: Vec<[f64; 2]> = vec![];
    let (mut mass, mut count) = (0f64, 0f64);
    pb.retain(|p| match p.at(clock) {
        None => false,
        Some((v, t, edge)) => {
            tol += t;
            mass += v[0].abs().max(v[1].abs());
            count += 1.;
            if edge {
                opt.push(v)
            } else {
                base[0] += v[0];
                base[1] += v[1];
            }
            true
        }
    });
    tol += mass * count * 1.2e-7; // rounding of the sum
    for v in opt.iter().skip(6) {
        tol += v[0].abs().max(v[1].abs());
    }
    opt.truncate(6);
    for mask in 0..1u32 << opt.len() {
        let mut s = base;
        for (k, v) in opt.iter().enumerate() {
            if mask >> k & 1 == 1 {
                s[0] += v[0];
                s[1] += v[1];
            }
        }
        if (s[0] - out.l(i) as f64).abs() <= tol && (s[1] - out.r(i) as f64).abs() <= tol {
            return Ok(());
        }
    }
    Err(format!(
        "{what}: sample {i}: got ({}, {}), expected ({}, {}) from {} playbacks ({} at their end; tolerance {tol:.2e})",
        out.l(i),
        out.r(i),
        base[0],
        base[1],
        pb.len(),
        opt.len()
    ))
}

struct SpM {
    s: &'static crate::gen::Smp,
    pb: Vec<Playback>,
    clock: u64,
    sr: f64,
}
impl Model for SpM {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            let x = ins.m().l(i);
            if x > 0. {
                self.pb.push(Playback::new(self.clock, self.s, x as f64, self.sr));
            }
            cmp_playbacks("sampler", &mut self.pb, self.clock, out, i)?;
            self.clock += 1;
        }
        Ok(())
    }
}

struct PSpM {
    es: Vec<(&'static crate::gen::Smp, f32)>,
    span: f32,
    bpm: f64,
    sr: f64,
    pb: Vec<Playback>,
    clock: u64,
}
impl Model for PSpM {
    fn block(&mut self, _: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        let cyc = 240. / self.bpm;
        let rnd = |p: f64| (if (p - p.round()).abs() < 1e-3 { p.round() } else { p }) as u64;
        let len = rnd(cyc * self.span as f64 * self.sr).max(1);
        for i in 0..n {
            for (s, t) in &self.es {
                if rnd(*t as f64 * cyc * self.sr) == self.clock % len {
                    self.pb.push(Playback::new(self.clock, s, 1., self.sr));
                }
            }
            cmp_playbacks("sample pattern", &mut self.pb, self.clock, out, i)?;
            self.clock += 1;
        }
        Ok(())
    }
    fn bpm(&mut self, bpm: f32) {
        self.bpm = bpm as f64
    }
}

/// Saw voices with a percussive amplitude
pub struct Voices {
    pub v: Vec<(u64, f64, f64, f64)>, // begin, freq, phase, phase error
    pub att: f32,
    pub dec: f32,
    pub sr: f64,
}
impl Voices {
    pub fn on(&mut self, clock: u64, midi: f64) {
        self.v.push((clock, 440. * 2f64.powf((midi - 69.) / 12.), 0., 0.));
    }
    /// expected value and tolerance, and the jumps that a voice close to its wrap could make
    pub fn tick(&mut self, clock: u64) -> (f64, f64, Vec<f64>) {
        let (mut w, mut tol, mut jumps) = (0., 1e-6, vec![]);
        let a = self.att as f64 * self.sr;
        let d = self.dec as f64 * self.sr;
        let an = secs_samples(self.att, self.sr) as u64;
        let dur = ((self.att + self.dec) as f64 * self.sr) as u64;
        let dn = secs_samples(self.dec, self.sr);
        self.v.retain(|v| clock - v.0 <= dur);
        for v in self.v.iter_mut() {
            let pos = clock - v.0;
            let amp = if pos <= an {
                if an == 0 {
                    0.
                } else {
                    pos as f64 / a
                }
            } else if dn == 0 {
                0.
            } else {
                (dur - pos) as f64 / d
            };
            let e = v.3 + 1e-6;
            w += amp * (v.2 * 2. - 1.) * 0.1;
            tol += amp * 0.1 * (2. * e) + 2e-6 * amp + 0.1 / d * 1e-2;
            if v.2 < e || v.2 > 1. - e {
                jumps.push(amp * 0.2 * if v.2 < 0.5 { 1. } else { -1. });
            }
            let inc = v.1 / self.sr;
            v.2 += inc;
            v.3 += 1.2e-7 * (1. + inc);
            if v.2 > 1. {
                v.2 -= 1.
            }
        }
        (w, tol, jumps)
    }
    pub fn check(&mut self, what: &str, clock: u64, got: f32, i: usize) -> Result<(), String> {
        let (w, tol, jumps) = self.tick(clock);
        for mask in 0..1u32 << jumps.len().min(5) {
            let mut s = w;
            for (k, j) in jumps.iter().enumerate() {
                if k < 5 && mask >> k & 1 == 1 {
                    s += j
                }
            }
            if (s - got as f64).abs() <= tol {
                return Ok(());
            }
        }
        cmp(what, i, 0, got, w, tol)
    }
}

pub struct PSynthM {
    pub es: Vec<(f32, f32)>,
    pub span: f32,
    pub bpm: f64,
    pub clock: u64,
    pub v: Voices,
}
impl Model for PSynthM {
    fn block(&mut self, _: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        let cyc = 240. / self.bpm;
        let sr = self.v.sr;
        let rnd = |p: f64| (if (p - p.round()).abs() < 1e-3 { p.round() } else { p }) as u64;
        let len = rnd(cyc * self.span as f64 * sr).max(1);
        for i in 0..n {
            for (t, m) in &self.es {
                if rnd(*t as f64 * cyc * sr) == self.clock % len {
                    self.v.on(self.clock, *m as f64);
                }
            }
            self.v.check("pattern synth", self.clock, out.l(i), i)?;
            self.clock += 1;
        }
        Ok(())
    }
    fn bpm(&mut self, bpm: f32) {
        self.bpm = bpm as f64
    }
}

pub struct MsgSynthM {
    pub es: Vec<(u64, f32)>,
    pub clock: u64,
    pub v: Voices,
}
impl Model for MsgSynthM {
    fn block(&mut self, _: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            for (t, m) in &self.es {
                if *t == self.clock {
                    self.v.on(self.clock, *m as f64);
                }
            }
            self.v.check("message synth", self.clock, out.l(i), i)?;
            self.clock += 1;
        }
        Ok(())
    }
    fn number(&mut self, pos: u8, v: f32) {
        match pos {
            1 => self.v.att = v,
            2 => self.v.dec = v,
            _ => {}
        }
    }
    fn symbol(&mut self, pos: u8, s: &str) {
        if pos == 3 {
            if let Some((a, b)) = s.split_once("=>") {
                if let (Ok(a), Ok(b)) = (a.parse::<f32>(), b.parse::<f32>()) {
                    self.es.push((secs_samples(a, self.v.sr) as u64, b));
                }
            }
        }
    }
}

pub struct PointsM {
    pub pts: Vec<(u64, f64)>,
    pub period: u64,
    pub looping: bool,
    pub step: u64,
}
impl Model for PointsM {
    fn block(&mut self, _: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            let pos = if self.looping { self.step % self.period } else { self.step };
            let k = self.pts.iter().rposition(|p| p.0 <= pos).unwrap_or(0);
            let (p0, v0) = self.pts[k];
            let w = if k + 1 < self.pts.len() {
                let (p1, v1) = self.pts[k + 1];
                v0 + (v1 - v0) * (pos - p0) as f64 / (p1 - p0) as f64
            } else if self.looping {
                let (p1, v1) = self.pts[0];
                v0 + (v1 - v0) * (pos - p0) as f64 / (self.period + p1 - p0) as f64
            } else {
                v0
            };
            cmp("breakpoints", i, 0, out.l(i), w, 3e-6)?;
            self.step += 1;
        }
        Ok(())
    }
}
pub fn points_model(pts: &[Pt], span: Option<(bool, f32)>, looping: bool, bpm: f32, sr: f64) -> PointsM {
    let s = span.map_or(1., |(m, n)| if m { n as f64 } else { 1. / n as f64 });
    let bar = 240. / bpm as f64 * s * sr;
    let rnd = |p: f64| (if (p - p.round()).abs() < 1e-3 { p.round() } else { p }) as u64;
    let mut v: Vec<(u64, f64)> = pts
        .iter()
        .map(|p| {
            let bars = if let Some(d) = p.bar.1 { p.bar.0 as f64 / d as f64 } else { p.bar.2 as f64 };
            let off = p.off.map_or(0., |(ms, x)| if ms { x as f64 / 1000. } else { x as f64 }) * sr;
            (rnd(bars * bar + off), p.val as f64)
        })
        .collect();
    if v.is_empty() || v[0].0 != 0 {
        v.insert(0, (0, 0.));
    }
    PointsM { pts: v, period: rnd(bar).max(1), looping, step: 0 }
}

struct Pass1;
impl Model for Pass1 {
    fn block(&mut self, ins: &Ins, out: &Sig, n: usize) -> Result<(), String> {
        for i in 0..n {
            for c in 0..2 {
                cmp("reference", i, c, out.c(c, i), ins.refs[0].c(c, i) as f64, 0.)?
            }
        }
        Ok(())
    }
}

fn isr(p: &P) -> bool {
    matches!(p, P::R(_))
}
fn num(p: &P) -> f32 {
    match p {
        P::N(x) => *x,
        P::R(_) => 0.,
    }
}

/// The model of a node, or `None` if it is judged elsewhere
pub fn model(nd: &Nd, has_main: bool, cfg: &Cfg, bpm: f32) -> Option<Box<dyn Model>> {
    let sr = cfg.sr as f64;
    let osc = |w, p: &P| -> Option<Box<dyn Model>> {
        Some(Box::new(Osc { w, freq: num(p), sr, ph: 0., err: 0., inc: 0., is_ref: isr(p), step: 1., last: 0. }))
    };
    let biq = |high, p: &P, q: f32| BiquadM {
        high,
        cutoff: if isr(p) { 20. } else { num(p) },
        q,
        sr,
        x: [0.; 2],
        y: [0.; 2],
        is_ref: isr(p),
        pat: vec![],
        span: 1.,
        bpm: bpm as f64,
        step: 0,
    };
    Some(match nd {
        Nd::Sin(p) => return osc(Wave::Sin, p),
        Nd::Saw(p) => return osc(Wave::Saw, p),
        Nd::Squ(p) => return osc(Wave::Squ, p),
        Nd::Tri(p) => return osc(Wave::Tri, p),
        Nd::Sig(x) => Box::new(Sig1(*x)),
        Nd::Imp(f) => Box::new(Imp { period: Imp::period(sr, *f), clock: 0, sr }),
        Nd::Noise(s) => Box::new(NoiseGen(*s as u64)),
        Nd::Speed(x) => Box::new(Speed(*x)),
        Nd::Seq(g) => Box::new(SeqM { events: SeqM::events(g).0, bpm: bpm as f64, sr, speed: 1., step: 0, has_main, fired: 0 }),
        Nd::Choose(v) => Box::new(ChooseM(v.clone(), NoiseGen(cfg.seed as u64))),
        Nd::Arrange(es) => Box::new(ArrangeM { bars: es.iter().map(|e| e.1).collect(), bpm: bpm as f64, sr, step: 0 }),
        Nd::Mul(p) => Box::new(OpM { add: false, val: num(p), is_ref: isr(p) }),
        Nd::Add(p) => Box::new(OpM { add: true, val: num(p), is_ref: isr(p) }),
        Nd::Pan(p) => Box::new(PanM(num(p), isr(p))),
        Nd::Mix(_) => Box::new(MixM),
        Nd::Get(_) => Box::new(Pass1),
        Nd::Balance(..) => Box::new(BalM),
        Nd::DelayN(n) => Box::new(DelayM { hist: [vec![], vec![]], d: *n as usize, sr, ms: false, is_ref: false }),
        Nd::DelayMs(p) => Box::new(DelayM {
            hist: [vec![], vec![]],
            d: if isr(p) { 0 } else { ms_samples(num(p), sr) },
            sr,
            ms: true,
            is_ref: isr(p),
        }),
        Nd::OnePole(p) => Box::new(OnePoleM { r: num(p), y1: 0., is_ref: isr(p) }),
        Nd::Lpf(p, q) => Box::new(biq(false, p, *q)),
        Nd::Hpf(p, q) => Box::new(biq(true, p, *q)),
        Nd::LpfPat(es, span, q) => {
            Box::new(BiquadM { cutoff: 20., pat: es.clone(), span: span.unwrap_or(1.), ..biq(false, &P::N(20.), *q) })
        }
        Nd::Apf(p, g) => Box::new(ApfM {
            g: *g,
            d: if isr(p) { 0 } else { ms_samples(num(p), sr) },
            x: vec![],
            y: vec![],
            sr,
            is_ref: isr(p),
        }),
        Nd::EnvPerc(a, d) => Box::new(PercM::new(*a, *d, sr)),
        Nd::Adsr(a, d, s, r) => Box::new(AdsrM { p: [*a, *d, *s, *r], sr, pos: 0, stage: 0, y0: 0., lx: 0., ly: 0. }),
        Nd::Sp(s) => Box::new(SpM { s: sample(s).unwrap(), pb: vec![], clock: 0, sr }),
        Nd::PSampler(es, span) => Box::new(PSpM {
            es: es.iter().map(|(s, t)| (sample(s).unwrap(), *t)).collect(),
            span: span.unwrap_or(1.),
            bpm: bpm as f64,
            sr,
            pb: vec![],
            clock: 0,
        }),
        Nd::PSynth(es, span) => Box::new(PSynthM {
            es: es.clone(),
            span: span.unwrap_or(1.),
            bpm: bpm as f64,
            clock: 0,
            v: Voices { v: vec![], att: 0.001, dec: 0.1, sr },
        }),
        Nd::MsgSynth(a, d) => Box::new(MsgSynthM { es: vec![], clock: 0, v: Voices { v: vec![], att: *a, dec: *d, sr } }),
        Nd::Points(p, s, l) => Box::new(points_model(p, *s, *l, bpm, sr)),
        _ => return None,
    })
}

/// Follows an engine through a session
pub struct Monitor {
    pub cfg: Cfg,
    pub bpm: f32,
    pub prog: Prog,
    pub models: HashMap<String, Vec<Option<Box<dyn Model>>>>,
    pub reach: Vec<String>,
    pub block: u64,
    pub nodes_checked: u64,
    /// largest output seen: tells whether anything sounded
    pub peak: f32,
    /// which kinds of node were judged
    pub kinds: std::collections::BTreeSet<&'static str>,
}

pub fn lcs<T: PartialEq>(a: &[T], b: &[T]) -> Vec<(usize, usize)> {
    let mut l = vec![vec![0usize; b.len() + 1]; a.len() + 1];
    for i in 0..a.len() {
        for j in 0..b.len() {
            l[i + 1][j + 1] = if a[i] == b[j] { l[i][j] + 1 } else { l[i][j + 1].max(l[i + 1][j]) };
        }
    }
    let (mut i, mut j) = (a.len(), b.len());
    let mut v = vec![];
    while i > 0 && j > 0 {
        if a[i - 1] == b[j - 1] {
            v.push((i - 1, j - 1));
            i -= 1;
            j -= 1;
        } else if l[i - 1][j] >= l[i][j - 1] {
            i -= 1
        } else {
            j -= 1
        }
    }
    v.reverse();
    v
}

impl Monitor {
    pub fn new(cfg: &Cfg) -> Monitor {
        Monitor {
            bpm: cfg.bpms[0],
            cfg: cfg.clone(),
            prog: Prog::default(),
            models: HashMap::new(),
            reach: vec![],
            block: 0,
            nodes_checked: 0,
            peak: 0.,
            kinds: Default::default(),
        }
    }
    pub fn update(&mut self, p: &Prog) {
        let mut old = std::mem::take(&mut self.models);
        for (name, c) in &p.chains {
            let mut ms: Vec<Option<Box<dyn Model>>> =
                c.iter().enumerate().map(|(i, nd)| model(nd, i > 0, &self.cfg, self.bpm)).collect();
            if let (Some(oc), Some(om)) = (self.prog.get(name), old.get_mut(name)) {
                for (a, b) in lcs(oc, c) {
                    ms[b] = om[a].take();
                }
            }
            self.models.insert(name.clone(), ms);
        }
        self.prog = p.clone();
        self.reach = p.reachable();
    }
    pub fn set_bpm(&mut self, bpm: f32) {
        self.bpm = bpm;
        for m in self.models.values_mut().flatten().flatten() {
            m.bpm(bpm);
        }
    }
    pub fn number(&mut self, chain: &str, pos: usize, par: u8, v: f32) {
        if let Some(Some(m)) = self.models.get_mut(chain).and_then(|c| c.get_mut(pos)) {
            m.number(par, v);
        }
    }
    pub fn symbol(&mut self, chain: &str, pos: usize, par: u8, s: &str) {
        if let Some(Some(m)) = self.models.get_mut(chain).and_then(|c| c.get_mut(pos)) {
            m.symbol(par, s);
        }
    }
    /// Judge the block the engine has just rendered.
    pub fn check<const N: usize>(&mut self, e: &Engine<N>) -> Result<(), String> {
        let sig = |chain: &str, pos: Option<usize>| -> Result<Sig<'_>, String> {
            let c = e.index_info.get(chain).ok_or_else(|| format!("chain {chain} is missing in the engine"))?;
            let k = match pos {
                Some(p) => p,
                None => c.len() - 1,
            };
            let idx = c.get(k).ok_or_else(|| format!("chain {chain} has no node {k} in the engine"))?;
            let nd = e
                .context
                .graph
                .node_weight(*idx)
                .ok_or_else(|| format!("node {k} of chain {chain} is not in the graph"))?;
            Ok(Sig { ch: nd.buffers.iter().map(|b| &b[..]).collect() })
        };
        for (name, c) in &self.prog.chains {
            let l = e.index_info.get(name).map_or(0, |c| c.len());
            if l != c.len() {
                return Err(format!("chain {name} has {l} nodes in the engine, {} are written", c.len()));
            }
            if !self.reach.contains(name) {
                continue;
            }
            for (k, nd) in c.iter().enumerate() {
                let Some(m) = self.models.get_mut(name).unwrap()[k].as_mut() else { continue };
                let ins = Ins {
                    main: if k > 0 { Some(sig(name, Some(k - 1))?) } else { None },
                    refs: nd.refs().iter().map(|r| sig(r, None)).collect::<Result<_, _>>()?,
                };
                let out = sig(name, Some(k))?;
                m.block(&ins, &out, N)
                    .map_err(|x| format!("block {}, node {k} of chain {name} ({}): {x}", self.block, nd.text()))?;
                self.nodes_checked += 1;
                self.kinds.insert(nd.name());
            }
        }
        // the destination
        let dest = &e.context.graph[e.context.destination].buffers;
        for ch in 0..2 {
            for i in 0..N {
                let (mut w, mut a) = (0f64, 0f64);
                for (name, c) in &self.prog.chains {
                    if !name.contains('~') {
                        let v = sig(name, Some(c.len() - 1))?.c(ch, i) as f64;
                        w += v;
                        a += v.abs();
                    }
                }
                self.peak = self.peak.max(dest[ch][i].abs());
                cmp("output", i, ch, dest[ch][i], w, 1e-6 * a).map_err(|x| format!("block {}: {x}", self.block))?;
            }
        }
        self.block += 1;
        Ok(())
    }
}
