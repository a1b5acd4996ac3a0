//! Edits of programs whose chains are kept in an order in which references point backwards.

use crate::prog::*;
use crate::rng::Rng;

/// Makes the nodes an edit inserts.
pub trait Maker {
    /// `earlier`: chains that may be referenced; `first`: the node opens a chain
    fn node(&mut self, r: &mut Rng, earlier: &[String], first: bool) -> Nd;
    /// may a node stand anywhere in a chain, or only where it was made for?
    fn movable(&self) -> bool;
}

pub fn fresh_name(r: &mut Rng, p: &Prog, audible: bool) -> String {
    loop {
        let n = if audible {
            r.pick(&["o", "lead", "x1", "_x", "out", "a_b2", "qq", "vox", "_z9", "k0", "tt", "ww", "a__b", "b_"]).to_string()
        } else {
            r.pick(&["~aa", "~mod", "~sin", "~x_1", "~long_name", "~g2", "~seq", "~w", "~dd", "~oo", "~ee", "~ff", "~a__b", "~c_"]).to_string()
        };
        let n = match r.below(50) {
            0..=14 => format!("{n}{}", r.below(10)),
            15 => n + "_of_a_remarkable_length".repeat(r.us(1, 12)).as_str(),
            _ => n,
        };
        if p.get(&n).is_none() {
            return n;
        }
    }
}

fn earlier(p: &Prog, k: usize) -> Vec<String> {
    let mut v: Vec<String> = p.chains[..k].iter().map(|c| c.0.clone()).collect();
    v.push("~input".into());
    v
}

pub fn make_chain(r: &mut Rng, m: &mut dyn Maker, earlier: &[String], max: usize) -> Vec<Nd> {
    let mut c = vec![m.node(r, earlier, true)];
    for _ in 0..r.us(0, max) {
        c.push(m.node(r, earlier, false));
    }
    c
}

pub fn make_prog(r: &mut Rng, m: &mut dyn Maker, k: usize, max: usize) -> Prog {
    loop {
        let p = any_prog(r, m, k, max);
        if sane(&p) {
            return p;
        }
    }
}

fn any_prog(r: &mut Rng, m: &mut dyn Maker, k: usize, max: usize) -> Prog {
    let mut p = Prog::default();
    for i in 0..k {
        let name = {
            let a = i + 1 == k || r.chance(0.5);
            fresh_name(r, &p, a)
        };
        let c = make_chain(r, m, &earlier(&p, i), max);
        p.chains.push((name, c));
    }
    p
}

/// One random edit; says what it did. `touched` collects the chains whose text it changed.
pub fn edit(r: &mut Rng, m: &mut dyn Maker, p: &mut Prog, touched: &mut Vec<String>) -> String {
    loop {
        let mut q = p.clone();
        let mut t = vec![];
        let what = edit_once(r, m, &mut q, &mut t);
        if sane(&q) {
            *p = q;
            touched.extend(t);
            return what;
        }
    }
}

/// A node that takes all it plays from its references opens its chain.
pub fn sane(p: &Prog) -> bool {
    p.chains.iter().all(|(_, c)| {
        // a playback per sample would only cost time
        let dense = |w: &[Nd]| matches!(w[1], Nd::Sp(_)) && !matches!(w[0], Nd::Imp(_) | Nd::Seq(_));
        !c.windows(2).any(dense) && c[1..].iter().all(|n| !matches!(n, Nd::Get(_) | Nd::Balance(..) | Nd::Arrange(_)) && !matches!(n, Nd::Mix(v) if v.len() > 1))
    })
}

fn edit_once(r: &mut Rng, m: &mut dyn Maker, p: &mut Prog, touched: &mut Vec<String>) -> String {
    for _ in 0..50 {
        let k = r.below(p.chains.len());
        let before = earlier(p, k);
        let len = p.chains[k].1.len();
        let name = p.chains[k].0.clone();
        match r.below(11) {
            0 | 1 => {
                let at = r.us(1, len);
                let n = m.node(r, &before, false);
                let t = n.text();
                p.chains[k].1.insert(at, n);
                touched.push(name.clone());
                return format!("insert {t} into {name} at {at}");
            }
            2 if len > 1 => {
                let at = if m.movable() { r.below(len) } else { r.us(1, len - 1) };
                p.chains[k].1.remove(at);
                touched.push(name.clone());
                return format!("delete node {at} of {name}");
            }
            3 => {
                let at = r.below(len);
                let n = m.node(r, &before, at == 0);
                p.chains[k].1[at] = n;
                touched.push(name.clone());
                return format!("replace node {at} of {name}");
            }
            4 if m.movable() && len > 1 => {
                let (a, b) = (r.below(len), r.below(len));
                let n = p.chains[k].1.remove(a);
                p.chains[k].1.insert(b, n);
                touched.push(name.clone());
                return format!("move node {a} of {name} to {b}");
            }
            5 if m.movable() => {
                let (a, b) = (r.below(len), r.us(0, len));
                let n = p.chains[k].1[a].clone();
                p.chains[k].1.insert(b, n);
                touched.push(name.clone());
                return format!("duplicate node {a} of {name} at {b}");
            }
            6 if p.chains.len() < 8 => {
                let at = r.us(0, p.chains.len());
                let c = make_chain(r, m, &earlier(p, at), 3);
                let a = r.chance(0.5);
                let n = fresh_name(r, p, a);
                p.chains.insert(at, (n.clone(), c));
                touched.push(n.clone());
                return format!("add chain {n}");
            }
            7 if p.chains.len() > 1 => {
                // remove a chain; its users turn to the input
                if !p.chains.iter().any(|c| c.0 != name && !c.0.contains('~')) {
                    continue;
                }
                p.chains.remove(k);
                rewire(p, &name, "~input", touched);
                touched.push(name.clone());
                return format!("remove chain {name}");
            }
            8 => {
                let a = r.chance(0.5);
                if !a && !p.chains.iter().any(|c| c.0 != name && !c.0.contains('~')) {
                    continue;
                }
                let new = fresh_name(r, p, a);
                p.chains[k].0 = new.clone();
                rewire(p, &name, &new, touched);
                touched.push(name.clone());
                touched.push(new.clone());
                return format!("rename {name} to {new}");
            }
            9 => {
                // point a reference somewhere else
                let Some(at) = (0..len).find(|i| !p.chains[k].1[*i].refs().is_empty()) else { continue };
                let to = r.pick(&before).clone();
                let old = p.chains[k].1[at].refs()[0].clone();
                if old.ends_with("..") || p.chains[k].1[at].refs().contains(&to) || matches!(p.chains[k].1[at], Nd::Seq(_) | Nd::Pan(_)) {
                    continue;
                }
                p.chains[k].1[at] = p.chains[k].1[at].map_refs(&|s| if s == old { to.clone() } else { s.to_string() });
                touched.push(name.clone());
                return format!("let node {at} of {name} refer to {to} instead of {old}");
            }
            10 => {
                return "submit again".into();
            }
            _ => continue,
        }
    }
    "nothing".into()
}

fn rewire(p: &mut Prog, from: &str, to: &str, touched: &mut Vec<String>) {
    for (n, c) in p.chains.iter_mut() {
        for d in c.iter_mut() {
            let rs = d.refs();
            if !rs.iter().any(|x| x == from) {
                continue;
            }
            touched.push(n.clone());
            *d = d.map_refs(&|s| if s == from { to.to_string() } else { s.to_string() });
            // a mix lists every chain once
            if let Nd::Mix(v) = d {
                let mut seen: Vec<String> = vec![];
                v.retain(|x| {
                    let dup = seen.contains(x);
                    seen.push(x.clone());
                    !dup
                });
            }
        }
    }
}

/// the program as text with its chains in a random order
pub fn shuffled(r: &mut Rng, p: &Prog) -> Prog {
    let mut c = p.chains.clone();
    r.shuffle(&mut c);
    Prog { chains: c }
}

/// Nodes without memory, or with a memory that is over after a known number of samples.
pub struct Forgetful {
    pub sr: usize,
    /// envelopes or filters, not both: where rounding noise meets a threshold the outcome is open
    pub env: bool,
}

impl Maker for Forgetful {
    fn movable(&self) -> bool {
        true
    }
    fn node(&mut self, r: &mut Rng, e: &[String], first: bool) -> Nd {
        fn pr(r: &mut Rng, e: &[String], lo: f64, hi: f64) -> P {
            if r.chance(0.4) {
                P::R(r.pick(e).clone())
            } else {
                P::N(r.dec(lo, hi, 2))
            }
        }
        fn some(r: &mut Rng, e: &[String], n: usize) -> Vec<String> {
            let mut v: Vec<String> = vec![];
            for _ in 0..r.us(1, n) {
                let x = r.pick(e).clone();
                if !v.contains(&x) {
                    v.push(x);
                }
            }
            v
        }
        let k = if first { r.us(0, 4) } else { *r.pick(&[1usize, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]) };
        match k {
            0 => Nd::Get(r.pick(e).clone()),
            1 => Nd::Mix(some(r, e, if first { 2 } else { 1 })),
            2 => Nd::Balance(r.pick(e).clone(), r.pick(e).clone()),
            3 => Nd::Get("~input".into()),
            4 => Nd::Sig(r.dec(-1., 1., 2)),
            5 | 6 => Nd::Mul(pr(r, e, -1., 1.)),
            7 | 8 => Nd::Add(pr(r, e, -0.5, 0.5)),
            9 => Nd::Pan(P::R("~input".into())),
            10 => Nd::Pan(P::N(r.dec(-1., 1., 2))),
            11 => Nd::DelayN(r.us(0, 70) as u32),
            12 => Nd::DelayMs(P::N(r.dec(0.05, 2., 2))),
            13 if !self.env => Nd::OnePole(P::N(r.dec(0.1, 0.45, 2))),
            14 if !self.env => {
                let f = r.dec(0.05 * self.sr as f64, 0.2 * self.sr as f64, 0);
                if r.chance(0.5) {
                    Nd::Lpf(P::N(f), r.dec(0.5, 1., 2))
                } else {
                    Nd::Hpf(P::N(f), r.dec(0.5, 1., 2))
                }
            }
            _ if !self.env => Nd::Mul(pr(r, e, -1., 1.)),
            _ => Nd::EnvPerc(r.dec(0., 0.001, 4), r.dec(0., 0.002, 4)),
        }
    }
}

/// after how many samples such a program has forgotten its past
pub fn memory(p: &Prog, sr: usize) -> usize {
    p.chains
        .iter()
        .flat_map(|c| &c.1)
        .map(|n| match n {
            Nd::DelayN(n) => *n as usize,
            Nd::DelayMs(P::N(ms)) => (*ms as f64 / 1000. * sr as f64) as usize + 2,
            Nd::OnePole(_) => 600,
            Nd::Lpf(..) | Nd::Hpf(..) => 1500,
            Nd::EnvPerc(a, d) => ((a + d) as f64 * sr as f64) as usize + 4,
            _ => 0,
        })
        .sum()
}

/// Nodes with running state.
pub struct Stateful {
    pub cfg: crate::gen::Cfg,
    pub deny: Vec<&'static str>,
    pub allow: Vec<&'static str>,
    pub movable: bool,
}

impl Maker for Stateful {
    fn movable(&self) -> bool {
        self.movable
    }
    fn node(&mut self, r: &mut Rng, e: &[String], first: bool) -> Nd {
        loop {
            let n = if r.chance(0.3) {
                let x = r.pick(e).clone();
                match (first, r.below(7)) {
                    (true, 0) => Nd::Sin(P::R(x)),
                    (true, 1) => Nd::Saw(P::R(x)),
                    (true, 2) => Nd::Get(x),
                    (true, 3) => Nd::Balance(x, r.pick(e).clone()),
                    (true, 4) => {
                        let y = r.pick(e).clone();
                        if x == y {
                            Nd::Mix(vec![x])
                        } else {
                            Nd::Mix(vec![x, y])
                        }
                    }
                    (true, 5) => {
                        let d = *r.pick(&[0.5f32, 1., 2.]);
                        let y = r.pick(e).clone();
                        if x == y {
                            Nd::Arrange(vec![(x, d)])
                        } else {
                            Nd::Arrange(vec![(x, d), (y, 0.5)])
                        }
                    }
                    (true, _) => continue,
                    (false, 0..=2) => Nd::Mul(P::R(x)),
                    (false, 3) => Nd::Pan(P::R("~input".into())),
                    (false, _) => Nd::Add(P::R(x)),
                }
            } else {
                let mut g = crate::gen::Gen::new(r, self.cfg.clone());
                g.samples = crate::session::sample_names();
                let n = if first {
                    let v = g.source();
                    if v.len() > 1 {
                        continue;
                    }
                    v.into_iter().next()
                } else if g.r.chance(0.3) {
                    g.triggered()
                } else {
                    g.processor()
                };
                // nodes that brought their own control chains do not fit in here
                if !g.chains.is_empty() {
                    continue;
                }
                let Some(n) = n else { continue };
                n
            };
            let k = n.name();
            if self.deny.contains(&k) || !(self.allow.is_empty() || self.allow.contains(&k)) {
                continue;
            }
            return n;
        }
    }
}

/// chains whose text and transitive references lie outside `touched`
pub fn untouched(p: &Prog, touched: &[String]) -> Vec<String> {
    let mut bad: Vec<String> = touched.to_vec();
    loop {
        let n = bad.len();
        for (name, c) in &p.chains {
            if !bad.contains(name) && c.iter().flat_map(|d| d.refs()).any(|r| bad.contains(&r)) {
                bad.push(name.clone());
            }
        }
        if bad.len() == n {
            break;
        }
    }
    p.chains.iter().map(|c| c.0.clone()).filter(|n| !bad.contains(n)).collect()
}
