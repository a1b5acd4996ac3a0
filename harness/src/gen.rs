//! Random programs with a known meaning: acyclic, with parameters for which the intended sample
//! counts do not hang on rounding.

use crate::prog::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub sr: usize,
    /// tempos that may be in force during the session; the first is the initial one
    pub bpms: Vec<f32>,
    pub seed: usize,
    /// how much longer times are than the short ones most sessions use
    pub slow: f64,
}

/// Tempos at which a bar is a dyadic number of seconds, so that dyadic positions are exact
pub const EXACT_BPM: [f32; 8] = [960., 1920., 3840., 7680., 1280., 1536., 640., 2560.];

fn exact_bpm(b: f32) -> bool {
    EXACT_BPM.contains(&b) || EXACT_BPM.contains(&(b * 16.))
}

fn dyadic(v: f64, k: f64) -> bool {
    (v * k).fract() == 0.
}

/// `v * m` converts to the same whole number whatever the order of the float operations
pub fn clean(v: f64, m: f64) -> bool {
    let f = (v * m).fract().abs();
    let near = 0.03 + (v * m).abs() * 4e-7;
    (f > near && f < 1. - near) || (f == 0. && dyadic(v, 1024.) && (v * m).abs() < 4e6)
}

impl Cfg {
    pub fn random(r: &mut Rng) -> Cfg {
        let sr = *r.pick(&[44100usize, 44100, 48000, 22050, 32000, 96000]);
        let n = r.us(1, 3);
        Cfg { sr, bpms: (0..n).map(|_| Cfg::tempo(r, sr, 1.)).collect(), seed: r.us(0, 1000), slow: 1. }
    }
    /// the tempos and times of real music
    pub fn slow(r: &mut Rng) -> Cfg {
        let sr = *r.pick(&[44100usize, 44100, 48000, 22050, 96000]);
        let n = r.us(1, 3);
        Cfg { sr, bpms: (0..n).map(|_| Cfg::tempo(r, sr, 16.)).collect(), seed: r.us(0, 1000), slow: 16. }
    }
    /// a tempo at which a whole and a half bar have an unambiguous length
    pub fn tempo(r: &mut Rng, sr: usize, slow: f64) -> f32 {
        retry(|| {
            let b = Cfg::bpm(r, slow as f32);
            let c = Cfg { sr, bpms: vec![b], seed: 0, slow };
            (c.clean_bars(1., 1.) && c.clean_bars(0.5, 1.)).then_some(b)
        })
    }
    fn bpm(r: &mut Rng, slow: f32) -> f32 {
        if r.chance(0.5) {
            *r.pick(&EXACT_BPM) / slow
        } else {
            r.dec(700. / slow as f64, 6000. / slow as f64, 1)
        }
    }
    /// a position of `t` bars (at speed `sp`) is unambiguous at every tempo of the session
    pub fn clean_bars(&self, t: f64, sp: f64) -> bool {
        self.clean_grid(t, sp, 16.)
    }
    fn clean_grid(&self, t: f64, sp: f64, grid: f64) -> bool {
        self.bpms.iter().all(|b| {
            let secs = 240. / *b as f64 / sp;
            let p = t * secs * self.sr as f64;
            let f = p.fract();
            let near = 0.03 + p * 6e-7;
            (f > near && f < 1. - near) || (exact_bpm(*b) && dyadic(t, grid) && dyadic(sp, 4.) && sp.log2().fract() == 0.)
                || p == 0.
        })
    }
    /// a time in seconds converts cleanly to samples
    pub fn clean_secs(&self, s: f64) -> bool {
        clean(s, self.sr as f64)
    }
    pub fn min_bar(&self) -> f64 {
        self.bpms.iter().map(|b| 240. / *b as f64 * self.sr as f64).fold(f64::MAX, f64::min)
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub cfg: Cfg,
    /// node names that may be used; empty: all
    pub allow: Vec<&'static str>,
    pub deny: Vec<&'static str>,
    pub samples: Vec<String>,
    pub input: bool,
    pub chains: Vec<(String, Vec<Nd>)>,
    ctl: usize,
    letters: Vec<char>,
}

pub fn retry<T>(mut f: impl FnMut() -> Option<T>) -> T {
    for _ in 0..10000 {
        if let Some(x) = f() {
            return x;
        }
    }
    panic!("generator found no value");
}

const AUDIBLE: [&str; 10] = ["o", "lead", "x1", "_x", "out", "a__b2", "qq", "vox_", "_z9", "k0"];
const HIDDEN: [&str; 10] = ["~aa", "~mod", "~sin", "~x__1", "~long_name", "~g2", "~seq", "~w_", "~dd", "~oo"];

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, cfg: Cfg) -> Gen<'a> {
        Gen {
            r,
            cfg,
            allow: vec![],
            deny: vec![],
            samples: vec![],
            input: false,
            chains: vec![],
            ctl: 0,
            letters: "abcdefghijklmnopqrstuv".chars().collect(),
        }
    }
    pub fn ok(&self, n: &str) -> bool {
        (self.allow.is_empty() || self.allow.contains(&n)) && !self.deny.contains(&n)
    }

    /// a control chain whose values stay in [lo, hi]
    pub fn ctl(&mut self, lo: f64, hi: f64) -> String {
        self.ctl += 1;
        let name = format!("~{}{}", self.r.pick(&["c", "m", "lfo_"]), self.ctl);
        let mid = (lo + hi) / 2.;
        let amp = (hi - lo) / 2.;
        let c = match self.r.below(4) {
            0 => vec![Nd::Sig(self.r.dec(lo, hi, 4).clamp(lo as f32, hi as f32))],
            k => {
                let f = P::N(self.r.dec(0.5, 90., 2));
                let osc = match k {
                    1 if self.ok("tri") => Nd::Tri(f),
                    2 if self.ok("saw") => Nd::Saw(f),
                    _ => Nd::Sin(f),
                };
                vec![
                    osc,
                    Nd::Mul(P::N(self.r.dec(amp * 0.2, amp * 0.95, 4))),
                    Nd::Add(P::N(self.r.dec(mid - amp * 0.04, mid + amp * 0.04, 4))),
                ]
            }
        };
        self.chains.push((name.clone(), c));
        name
    }
    /// a moving delay time in milliseconds, sometimes around zero
    fn delay_time(&mut self, hi: f64, most: f64) -> String {
        match self.r.below(4) {
            0 => self.ctl(-0.1, 0.3),
            1 if self.cfg.slow > 1. => self.ctl(0.7 * most, 0.997 * most),
            _ => self.ctl(0.5, hi * self.cfg.slow),
        }
    }
    /// a number or, sometimes, a reference with values in that range
    pub fn p(&mut self, lo: f64, hi: f64, dec: u32, pref: f64) -> P {
        if self.r.chance(pref) {
            P::R(self.ctl(lo, hi))
        } else {
            P::N(self.r.dec(lo, hi, dec))
        }
    }
    pub fn secs(&mut self, lo: f64, hi: f64) -> f32 {
        let mut hi = hi * self.cfg.slow;
        if self.cfg.slow > 1. && self.r.chance(0.15) {
            hi *= 8.;
        }
        let cfg = self.cfg.clone();
        let r = &mut *self.r;
        retry(|| {
            let v = if r.chance(0.2) {
                (r.f(lo, hi) * 256.).round() as f32 / 256.
            } else {
                r.dec(lo, hi, 4)
            };
            cfg.clean_secs(v as f64).then_some(v)
        })
    }
    pub fn ms(&mut self, lo: f64, hi: f64) -> f32 {
        let hi = hi * self.cfg.slow;
        let cfg = self.cfg.clone();
        let r = &mut *self.r;
        retry(|| {
            let v = if r.chance(0.1) { 7.8125 * r.us(1, 10) as f32 } else { r.dec(lo, hi, 3) };
            let p = v as f64 / 1000. * cfg.sr as f64;
            let f = p.fract();
            ((f > 0.03 && f < 0.97) || dyadic(v as f64 / 1000., 128.)).then_some(v)
        })
    }
    pub fn hz_trig(&mut self, lo: f64, hi: f64) -> f32 {
        let sr = self.cfg.sr as f64;
        let r = &mut *self.r;
        retry(|| {
            let v = if r.chance(0.3) && hi > lo.ceil() { r.us(lo.ceil() as usize, hi as usize) as f32 } else { r.dec(lo, hi, 2) };
            let f = (sr / v as f64).fract();
            ((f > 0.03 && f < 0.97) || (f == 0. && v.fract() == 0.)).then_some(v)
        })
    }

    pub fn seq(&mut self, speed: f64, refs: bool) -> Nd {
        let cfg = self.cfg.clone();
        let groups = {
            let r = &mut *self.r;
            retry(|| {
                let (ng, most) = match r.below(25) {
                    0 => (*r.pick(&[12usize, 16, 24, 32, 33, 40, 64]), 1),
                    1 => (*r.pick(&[1usize, 2, 3]), 32),
                    _ => (*r.pick(&[1usize, 2, 3, 4, 4, 5, 8]), 4),
                };
                let sizes: Vec<usize> = [1, 1, 2, 2, 3, 4, 7, 8, 13, 16, 16, 24, 32].into_iter().filter(|n| *n <= most).collect();
                let gs: Vec<usize> = (0..ng).map(|_| *r.pick(&sizes)).collect();
                let tot: usize = ng * gs.iter().max().unwrap();
                if cfg.min_bar() / speed < 20. * tot as f64 {
                    return None;
                }
                if !cfg.clean_bars(1., speed) {
                    return None;
                }
                for (i, n) in gs.iter().enumerate() {
                    for j in 0..*n {
                        if !cfg.clean_grid((i as f64 + j as f64 / *n as f64) / ng as f64, speed, 64.) {
                            return None;
                        }
                    }
                }
                Some(gs)
            })
        };
        let mut pool: Vec<char> = vec![];
        if refs && self.r.chance(0.6) {
            let most = *self.r.pick(&[2, 2, 3, 5]);
            for _ in 0..self.r.us(1, most).min(self.letters.len()) {
                let k = self.r.below(self.letters.len());
                let c = self.letters.remove(k);
                let v = match self.r.below(3) {
                    0 => vec![Nd::Sig(if self.r.chance(0.2) { self.r.range(-30, 30) as f32 } else { self.r.us(30, 90) as f32 })],
                    1 if self.ok("choose") => vec![Nd::Choose((0..self.r.us(1, 4)).map(|_| self.r.range(40, 80) as i32).collect())],
                    _ => vec![Nd::Sin(P::N(self.r.dec(1., 50., 1))), Nd::Mul(P::N(9.)), Nd::Add(P::N(60.))],
                };
                self.chains.push((format!("~{c}"), v));
                pool.push(c);
            }
        }
        let mut out = vec![];
        for n in groups {
            let mut g: Vec<Note> = vec![];
            for _ in 0..n {
                let prev_num = matches!(g.last(), Some(Note::M(_)));
                let note = match self.r.below(4 + pool.len()) {
                    0 => Note::Rest,
                    x if x != 2 && !pool.is_empty() => Note::R(*self.r.pick(&pool)),
                    _ if prev_num => Note::Rest,
                    _ => Note::M(*self.r.pick(&[0u32, 1, 36, 48, 55, 60, 60, 61, 67, 72, 84, 127, 128, 133])),
                };
                g.push(note);
            }
            out.push(g);
        }
        Nd::Seq(out)
    }

    pub fn seq_chain(&mut self) -> Vec<Nd> {
        if self.r.chance(0.4) && self.ok("speed") {
            let sp = *self.r.pick(&[1.0f32, 2., 4., 0.5, 0.25, 3., 1.5, 0.0625]);
            let cfg = self.cfg.clone();
            if cfg.clean_bars(1., sp as f64) && cfg.min_bar() / sp as f64 > 500. {
                return vec![Nd::Speed(sp), self.seq(sp as f64, true)];
            }
        }
        vec![self.seq(1., true)]
    }

    /// a chain that fires triggers
    pub fn trig(&mut self) -> Vec<Nd> {
        let b = self.cfg.sr as f64 / 3000. / self.cfg.slow;
        if self.ok("seq") && self.r.chance(0.5) {
            self.seq_chain()
        } else if self.ok("imp") {
            vec![Nd::Imp(self.hz_trig(b, b * 12.))]
        } else {
            self.seq_chain()
        }
    }

    /// A gate that opens and closes
    pub fn gate(&mut self) -> Vec<Nd> {
        let f = self.r.dec(20., 200., 1);
        let mut v = match self.r.below(3) {
            0 if self.ok("imp") && self.ok("envperc") => {
                let mut v = self.trig();
                v.push(Nd::EnvPerc(self.secs(0., 0.01), self.secs(0., 0.02)));
                v
            }
            1 if self.ok("sig") => vec![Nd::Sig(1.)],
            _ if self.ok("squ") && self.ok("add") => vec![Nd::Squ(P::N(f)), Nd::Add(P::N(1.))],
            _ => return self.trig(),
        };
        if self.ok("mul") && self.r.chance(0.3) {
            v.push(Nd::Mul(P::N(self.r.dec(0.1, 2., 2))));
        }
        v
    }

    /// a free-running source
    pub fn source(&mut self) -> Vec<Nd> {
        loop {
            let k = self.r.below(14);
            let n = match k {
                0 if self.ok("sin") => Nd::Sin(self.p(20., 3000., 2, 0.3)),
                1 if self.ok("saw") => Nd::Saw(self.p(20., 3000., 2, 0.3)),
                2 if self.ok("squ") => Nd::Squ(self.p(20., 3000., 2, 0.3)),
                3 if self.ok("tri") => Nd::Tri(self.p(20., 3000., 2, 0.3)),
                4 if self.ok("sig") => Nd::Sig(self.r.dec(-1., 1., 3)),
                5 if self.ok("noise") => Nd::Noise(self.r.us(0, 100000) as u32),
                6 if self.ok("imp") => Nd::Imp(self.hz_trig(10., 900.)),
                7 if self.ok("seq") => return self.seq_chain(),
                8 if self.ok("choose") => {
                    Nd::Choose((0..if self.r.chance(0.1) { self.r.us(6, 40) } else { self.r.us(1, 5) }).map(|_| self.r.range(-3, 12) as i32).collect())
                }
                9 if self.ok("points") => self.points(),
                10 if self.ok("psampler") && !self.samples.is_empty() => self.psampler(),
                11 if self.ok("get") && self.input => Nd::Get("~input".into()),
                12 if self.ok("psynth") => self.psynth(),
                13 if self.ok("speed") && self.r.chance(0.2) => Nd::Speed(self.r.dec(0.5, 4., 1)),
                _ => continue,
            };
            return vec![n];
        }
    }

    pub fn psynth(&mut self) -> Nd {
        let (es, span) = self.pattern_times();
        Nd::PSynth(es.iter().map(|t| (*t, self.r.us(30, 90) as f32)).collect(), span)
    }

    /// times of a pattern and its span: unambiguous, distinct and within the period
    pub fn pattern_times(&mut self) -> (Vec<f32>, Option<f32>) {
        let cfg = self.cfg.clone();
        let r = &mut *self.r;
        let span = retry(|| {
            let s = match r.below(5) {
                0 => None,
                1 => Some(2.),
                2 => Some(0.5),
                3 => Some(1.),
                _ => Some(r.dec(0.3, 2.5, 2)),
            };
            (cfg.clean_bars(s.unwrap_or(1.) as f64, 1.)).then_some(s)
        });
        let n = if r.chance(0.04) { r.us(10, 45) } else { r.us(1, 4) };
        let mut ts: Vec<f32> = vec![];
        for i in 0..200 {
            if ts.len() == n || (i > 150 && !ts.is_empty()) {
                break;
            }
            let s = span.unwrap_or(1.) as f64;
            let t = match r.below(4) {
                0 => 0.,
                1 => (r.f(0., s * 0.95) * 16.).floor() as f32 / 16.,
                _ => r.dec(0., s * 0.95, 3),
            };
            if cfg.clean_bars(t as f64, 1.) && (t as f64) < s * 0.97 && ts.iter().all(|x| (x - t).abs() > 0.01) {
                ts.push(t);
            }
        }
        if ts.is_empty() {
            ts.push(0.);
        }
        (ts, span)
    }

    pub fn psampler(&mut self) -> Nd {
        let (ts, span) = self.pattern_times();
        let one = self.r.chance(0.3).then(|| self.r.pick(&self.samples).clone());
        let es = ts.iter().map(|t| (one.clone().unwrap_or_else(|| self.r.pick(&self.samples).clone()), *t)).collect();
        Nd::PSampler(es, span)
    }

    pub fn points(&mut self) -> Nd {
        let cfg = self.cfg.clone();
        let r = &mut *self.r;
        retry(|| {
            let span = match r.below(4) {
                0 => Some((true, 2.)),
                1 => Some((false, 2.)),
                2 => Some((true, 0.5)),
                _ => None,
            };
            let s = span.map_or(1., |(m, n): (bool, f32)| if m { n as f64 } else { 1. / n as f64 });
            let bpm = cfg.bpms[0] as f64;
            let bar = 240. / bpm * s * cfg.sr as f64;
            if !cfg.clean_bars(s, 1.) {
                return None;
            }
            let mut pts = vec![];
            let mut last = -1.;
            let n = if r.chance(0.04) { r.us(6, 30) } else { r.us(1, 5) };
            let looping = r.chance(0.4);
            for i in 0..n {
                let b = match r.below(3) {
                    0 if i == 0 => (0, None, 0.0f32),
                    0 => {
                        let d = *r.pick(&[2u32, 4, 8, 16, 3, 5]);
                        (r.us(0, d as usize) as i32, Some(d), 0.)
                    }
                    1 => (r.us(i, 16) as i32, Some(16), 0.),
                    _ => (0, None, r.dec(0., 0.98, 3)),
                };
                let off = match r.below(4) {
                    0 => Some((true, r.dec(-4., 4., 2))),
                    1 => Some((false, r.dec(-0.004, 0.004, 4))),
                    _ => None,
                };
                let bars = if let Some(d) = b.1 { b.0 as f64 / d as f64 } else { b.2 as f64 };
                let o = off.map_or(0., |(ms, x): (bool, f32)| if ms { x as f64 / 1000. } else { x as f64 }) * cfg.sr as f64;
                let p = bars * bar + o;
                let f = p.fract();
                let near = 0.03 + p.abs() * 6e-7;
                let exact = off.is_none() && exact_bpm(cfg.bpms[0]) && dyadic(bars, 16.);
                if p < 0. || p <= last + 5. || p > bar * 0.98 || !((f > near && f < 1. - near) || exact || p == 0.) {
                    return None;
                }
                last = p;
                pts.push(Pt { bar: b, off, val: r.dec(-1., 1., 2) });
            }
            Some(Nd::Points(pts, span, looping))
        })
    }

    /// something fed by triggers
    pub fn triggered(&mut self) -> Option<Nd> {
        for _ in 0..20 {
            let n = match self.r.below(9) {
                0 | 1 if self.ok("envperc") => Nd::EnvPerc(self.secs(0., 0.03), self.secs(0., 0.08)),
                2 if self.ok("adsr") => Nd::Adsr(self.secs(0.0005, 0.02), self.secs(0., 0.02), self.r.dec(0., 1., 2), self.secs(0., 0.02)),
                3 | 4 if self.ok("sp") && !self.samples.is_empty() => Nd::Sp(self.r.pick(&self.samples).clone()),
                5 if self.ok("bd") => Nd::Bd(self.secs(0.005, 0.2)),
                6 if self.ok("sn") => Nd::Sn(self.secs(0.005, 0.2)),
                // its cutoff must be below half the rate
                7 if self.ok("hh") && self.cfg.sr >= 32000 => Nd::Hh(self.secs(0.005, 0.2)),
                8 if self.ok("sawsynth") => match self.r.below(3) {
                    0 => Nd::SawSynth(self.secs(0.001, 0.05), self.secs(0.005, 0.1)),
                    1 => Nd::SquSynth(self.secs(0.001, 0.05), self.secs(0.005, 0.1)),
                    _ => Nd::TriSynth(self.secs(0.001, 0.05), self.secs(0.005, 0.1)),
                },
                _ => continue,
            };
            return Some(n);
        }
        None
    }

    pub fn processor(&mut self) -> Option<Nd> {
        for _ in 0..30 {
            let n = match self.r.below(14) {
                0 | 1 if self.ok("mul") => {
                    if self.r.chance(0.3) {
                        Nd::Mul(P::R(self.any_ref()))
                    } else {
                        Nd::Mul(P::N(self.r.dec(-1.2, 1.2, 3)))
                    }
                }
                2 if self.ok("add") => {
                    if self.r.chance(0.3) {
                        Nd::Add(P::R(self.any_ref()))
                    } else {
                        Nd::Add(P::N(self.r.dec(-0.5, 0.5, 3)))
                    }
                }
                3 if self.ok("pan") => Nd::Pan(self.p(-1., 1., 2, 0.3)),
                4 if self.ok("delayn") => Nd::DelayN(*self.r.pick(&[0u32, 1, 2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 300, 1000]) * self.cfg.slow as u32),
                5 if self.ok("delayms") => {
                    if self.r.chance(0.3) {
                        Nd::DelayMs(P::R(self.delay_time(60., 2000.)))
                    } else {
                        Nd::DelayMs(P::N(self.ms(0.1, 40.)))
                    }
                }
                6 if self.ok("onepole") && self.ok("sig") && self.r.chance(0.1) => {
                    let name = format!("~nil{}", self.chains.len());
                    let mut c = vec![Nd::Sig(0.)];
                    if self.ok("imp") && self.ok("mul") && self.r.chance(0.7) {
                        c = vec![Nd::Imp(self.hz_trig(10., 900.)), Nd::Mul(P::N(self.r.dec(0.05, 0.4, 2)))];
                    }
                    self.chains.push((name.clone(), c));
                    Nd::OnePole(P::R(name))
                }
                6 if self.ok("onepole") => Nd::OnePole(self.p(0.01, 0.45, 3, 0.3)),
                7 if self.ok("lpf") => Nd::Lpf(self.p(100., 6000., 1, 0.3), self.r.dec(0.4, 4., 2)),
                8 if self.ok("lpf") => {
                    let (ts, span) = self.pattern_times();
                    Nd::LpfPat(ts.iter().map(|t| (self.r.dec(100., 6000., 0), *t)).collect(), span, self.r.dec(0.4, 4., 2))
                }
                9 if self.ok("hpf") => Nd::Hpf(self.p(100., 6000., 1, 0.3), self.r.dec(0.4, 4., 2)),
                10 if self.ok("apfmsgain") => {
                    let d = if self.r.chance(0.3) { P::R(self.delay_time(40., 3000.)) } else { P::N(self.ms(0.1, 30.)) };
                    Nd::Apf(d, self.r.dec(-0.7, 0.7, 2))
                }
                11 if self.ok("envperc") && self.r.chance(0.3) => Nd::EnvPerc(self.secs(0., 0.03), self.secs(0., 0.08)),
                12 if self.ok("plate") && self.r.chance(0.4) => Nd::Plate(self.r.dec(0., 1., 2)),
                _ => continue,
            };
            return Some(n);
        }
        None
    }

    /// some earlier chain (or the input), creating one if there is none
    pub fn any_ref(&mut self) -> String {
        if self.input && self.r.chance(0.25) {
            return "~input".into();
        }
        let usable: Vec<String> = self.chains.iter().map(|c| c.0.clone()).filter(|n| !n.starts_with("~c") && !n.starts_with("~m") && !n.starts_with("~lfo")).collect();
        if usable.is_empty() || self.r.chance(0.3) {
            return self.ctl(-1., 1.);
        }
        self.r.pick(&usable).clone()
    }

    pub fn chain(&mut self, max: usize) -> Vec<Nd> {
        let mut c = match self.r.below(10) {
            0..=4 => self.source(),
            5..=6 if self.ok("envperc") || self.ok("sp") || self.ok("adsr") || self.ok("bd") || self.ok("sawsynth") => {
                let n = self.triggered();
                // a gate of one sample never opens a gated envelope
                let mut t = if matches!(n, Some(Nd::Adsr(..))) && self.r.chance(0.85) { self.gate() } else { self.trig() };
                t.extend(n);
                t
            }
            7 if self.ok("mix") && self.chains.len() > 1 => {
                let mut rs = vec![];
                for _ in 0..*self.r.pick(&[1, 2, 3, 6]) {
                    let x = self.any_ref();
                    if !rs.contains(&x) {
                        rs.push(x);
                    }
                }
                vec![Nd::Mix(rs)]
            }
            8 if self.ok("balance") => vec![Nd::Balance(self.any_ref(), self.any_ref())],
            8 if self.ok("get") => vec![Nd::Get(self.any_ref())],
            9 if self.ok("arrange") && !self.chains.is_empty() => {
                if let Some(n) = self.arrange() {
                    vec![n]
                } else {
                    self.source()
                }
            }
            9 if self.ok("get") => vec![Nd::Get(self.any_ref())],
            _ => self.source(),
        };
        let n = self.r.us(0, max);
        for _ in 0..n {
            if let Some(x) = self.processor() {
                c.push(x);
            }
        }
        c
    }

    pub fn arrange(&mut self) -> Option<Nd> {
        let n = *self.r.pick(&[1, 2, 2, 3, 3, 5, 9]);
        // a part may come back later
        let again = n > 5 || self.r.chance(0.3);
        let mut rs: Vec<String> = vec![];
        for _ in 0..10 {
            let x = self.any_ref();
            if again || !rs.contains(&x) {
                rs.push(x);
            }
            if rs.len() == n {
                break;
            }
        }
        for _ in 0..50 {
            let mut cum = 0.;
            let mut es = vec![];
            let mut ok = true;
            for r in &rs {
                let d = if n > 5 { 0.25 } else { *self.r.pick(&[0.25f32, 0.5, 1., 2., 0.3, 0.7, 1.1]) };
                cum += d as f64;
                ok &= self.cfg.clean_bars(cum, 1.);
                es.push((r.clone(), d));
            }
            if ok && es.iter().all(|e| dyadic(e.1 as f64, 16.) || !self.cfg.bpms.iter().any(|b| exact_bpm(*b))) {
                return Some(Nd::Arrange(es));
            }
        }
        None
    }

    /// a whole program with `k` main chains (plus the control chains they need)
    pub fn program(mut self, k: usize, max_len: usize) -> Prog {
        let mut aud: Vec<&str> = AUDIBLE.to_vec();
        let mut hid: Vec<&str> = HIDDEN.to_vec();
        self.r.shuffle(&mut aud);
        self.r.shuffle(&mut hid);
        for i in 0..k {
            let c = self.chain(max_len);
            let name = if i + 1 == k || self.r.chance(0.5) { aud.pop() } else { hid.pop() };
            let name = name.map(str::to_string).unwrap_or_else(|| format!("{}{i}", if i + 1 == k || self.r.chance(0.5) { "o_" } else { "~h_" }));
            self.chains.push((name, c));
        }
        let mut chains = self.chains;
        if self.r.chance(0.7) {
            self.r.shuffle(&mut chains);
        }
        Prog { chains }
    }
}

/// the fixed pool of samples
pub struct Smp {
    pub name: &'static str,
    pub data: &'static [f32],
    pub ch: usize,
    pub sr: usize,
}
pub fn pool() -> &'static [Smp] {
    static POOL: std::sync::OnceLock<Vec<Smp>> = std::sync::OnceLock::new();
    POOL.get_or_init(|| {
        let mut r = Rng::new(7, "samples", 0);
        let mut mk = |name, len: usize, ch: usize, sr| {
            let data: Vec<f32> = (0..len * ch).map(|_| r.f(-1., 1.) as f32).collect();
            Smp { name, data: Box::leak(data.into_boxed_slice()), ch, sr }
        };
        vec![
            mk("\\kick", 333, 1, 44100),
            mk("'s_1'", 700, 2, 44100),
            mk("\\x-y", 50, 1, 22050),
            mk("\\one", 1, 1, 44100),
            mk("\\two", 2, 2, 48000),
            mk("'long'", 2000, 1, 48000),
            mk("\\St", 1500, 2, 32000),
            mk("\\whole", 70000, 2, 44100),
        ]
    })
}
pub fn sample(name: &str) -> Option<&'static Smp> {
    pool().iter().find(|s| s.name == name)
}
