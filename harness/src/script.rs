//! A whole session written down, so that it can be given to several engines.

use crate::edit::*;
use crate::gen::*;
use crate::prog::*;
use crate::rep::note;
use crate::rng::Rng;
use crate::session::*;
use glicol::Engine;

#[derive(Clone, Debug)]
pub enum Ev {
    Text(String),
    Msg(String),
    Bpm(f32),
    Seed(usize),
    Rate(usize),
    /// index into the sample pool
    Sample(usize),
}

#[derive(Clone, Debug)]
pub struct Script {
    /// events and the sample before which they happen, in order
    pub events: Vec<(usize, Ev)>,
    pub input: [Vec<f32>; 2],
}

/// What one engine made of a script
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Take {
    pub audio: [Vec<f32>; 2],
    /// what each update returned
    pub verdicts: Vec<String>,
    /// what rounding of the mix may amount to, per block
    pub slack: Vec<f32>,
}

pub fn apply<const N: usize>(e: &mut Engine<N>, ev: &Ev, t: &mut Take) {
    match ev {
        Ev::Text(s) => {
            let v = e.update_with_code(s);
            t.verdicts.push(match v {
                Ok(()) => "ok".into(),
                Err(glicol::EngineError::ParsingError(_)) => "syntax".into(),
                Err(x) => {
                    // which of several missing names is reported is open
                    format!("{x:?}").split('(').next().unwrap_or("").into()
                }
            })
        }
        Ev::Msg(s) => e.send_msg(s),
        Ev::Bpm(b) => e.set_bpm(*b),
        Ev::Seed(s) => e.set_seed(*s),
        Ev::Rate(s) => e.set_sr(*s),
        Ev::Sample(k) => {
            let s = &pool()[*k];
            e.add_sample(s.name, s.data, s.ch, s.sr);
        }
    }
}

/// A script being played block by block
pub struct Player<'a, const N: usize> {
    pub e: Engine<N>,
    pub s: &'a Script,
    pub at: usize,
    next: usize,
    pub take: Take,
}
impl<'a, const N: usize> Player<'a, N> {
    pub fn new(e: Engine<N>, s: &'a Script) -> Self {
        Player { e, s, at: 0, next: 0, take: Take::default() }
    }
    /// play one block; false at the end
    pub fn step(&mut self) -> bool {
        if self.at + N > self.s.input[0].len() {
            return false;
        }
        while self.next < self.s.events.len() && self.s.events[self.next].0 <= self.at {
            apply(&mut self.e, &self.s.events[self.next].1, &mut self.take);
            self.next += 1;
        }
        let o = self.e.next_block(vec![&self.s.input[0][self.at..self.at + N], &self.s.input[1][self.at..self.at + N]]);
        for c in 0..2 {
            self.take.audio[c].extend_from_slice(&o[c]);
        }
        self.take.slack.push(rounding(&self.e));
        self.at += N;
        true
    }
    pub fn all(mut self) -> Take {
        while self.step() {}
        self.take
    }
}

impl Script {
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (t, e) in &self.events {
            match e {
                Ev::Text(x) => s += &format!("sample {t}: update\n{x}"),
                e => s += &format!("sample {t}: {e:?}\n"),
            }
        }
        s + format!("{} samples\n", self.input[0].len()).as_str()
    }
    pub fn noted(self) -> Script {
        note(self.show());
        self
    }
    pub fn play<const N: usize>(&self, e: Engine<N>) -> Take {
        Player::new(e, self).all()
    }
    pub fn random_input(r: &mut Rng, n: usize) -> [Vec<f32>; 2] {
        [(0..n).map(|_| r.f(-1., 1.) as f32).collect(), (0..n).map(|_| r.f(-1., 1.) as f32).collect()]
    }

    /// A random session of `n` samples in which events happen at multiples of `grid`.
    pub fn random(r: &mut Rng, m: &mut Stateful, n: usize, grid: usize, with: Kinds) -> (Script, Prog) {
        let cfg = m.cfg.clone();
        let mut events = vec![];
        for k in 0..pool().len() {
            events.push((0, Ev::Sample(k)));
        }
        events.push((0, Ev::Rate(cfg.sr)));
        events.push((0, Ev::Bpm(cfg.bpms[0])));
        events.push((0, Ev::Seed(cfg.seed)));
        r.shuffle(&mut events);
        let k = r.us(1, 4);
        let mut p = make_prog(r, m, k, 3);
        events.push((0, Ev::Text(shuffled(r, &p).text())));
        let mut t = grid;
        while t < n {
            if r.chance(with.rate) {
                match r.below(5) {
                    0 | 1 if with.updates => {
                        for _ in 0..r.us(1, 3) {
                            edit(r, m, &mut p, &mut vec![]);
                        }
                        events.push((t, Ev::Text(shuffled(r, &p).text())));
                    }
                    2 if with.rejected => events.push((t, Ev::Text(crate::checks::live::spoil(r, m, &p)))),
                    3 if with.messages => events.push((t, Ev::Msg(crate::checks::live::message(r, &p)))),
                    4 if with.tempo => events.push((t, Ev::Bpm(*r.pick(&cfg.bpms)))),
                    _ => {}
                }
            }
            t += grid;
        }
        (Script { events, input: Script::random_input(r, n) }, p)
    }
}

#[derive(Clone, Copy)]
pub struct Kinds {
    pub rate: f64,
    pub updates: bool,
    pub rejected: bool,
    pub messages: bool,
    pub tempo: bool,
}
impl Kinds {
    pub const ALL: Kinds = Kinds { rate: 0.5, updates: true, rejected: true, messages: true, tempo: true };
}

/// Are two takes of a script the same up to rounding of the mix? Takes of different block size may be compared.
pub fn same_take(what: &str, a: &Take, na: usize, b: &Take, tol: f32) -> Result<(), String> {
    if a.verdicts != b.verdicts {
        return Err(format!("{what}: the updates returned {:?} and {:?}", a.verdicts, b.verdicts));
    }
    let n = a.audio[0].len().min(b.audio[0].len());
    for i in 0..n {
        let tol = tol + a.slack[i / na];
        for c in 0..2 {
            let (x, y) = (a.audio[c][i], b.audio[c][i]);
            let ok = x == y || tol == f32::INFINITY || (x.is_nan() && y.is_nan()) || (x - y).abs() <= tol * (1. + x.abs().max(y.abs()));
            if !ok {
                return Err(format!("{what}: sample {i} (block {}), channel {c}: {x} against {y}", i / na));
            }
        }
    }
    Ok(())
}
