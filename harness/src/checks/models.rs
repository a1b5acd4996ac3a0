//! C12-C18, C20, C24, C31: nodes against their reference models in random programs.

use crate::gen::*;
use crate::prog::*;
use crate::rep::*;
use crate::rng::Rng;
use crate::session::*;
use crate::shadow::*;

pub struct Focus {
    pub id: &'static str,
    /// the nodes the property is about
    pub on: &'static [&'static str],
    /// other nodes the programs may use
    pub with: &'static [&'static str],
    pub rule: &'static str,
}

pub const ALL_MODELLED: &[&str] = &[
    "sin", "saw", "squ", "tri", "sig", "imp", "noise", "speed", "seq", "choose", "arrange", "mul", "add", "pan", "mix", "get",
    "balance", "delayn", "delayms", "onepole", "lpf", "hpf", "apfmsgain", "envperc", "adsr", "sp", "psampler", "psynth",
];

const RULE: &str = "a case is one random program rendered for many blocks with every reachable node judged sample by sample; \
 it counts when a focus node was judged and the output was not silent; two cases are distinct when program text, rate, tempo or edits differ";

pub const FOCI: &[Focus] = &[
    Focus { id: "C12", on: &["sin", "saw", "squ", "tri", "sig", "imp", "noise"], with: &["mul", "add"], rule: RULE },
    Focus {
        id: "C13",
        on: &["mul", "add", "pan", "mix", "get", "balance"],
        with: &["sin", "saw", "noise", "sig", "imp", "envperc", "delayn"],
        rule: RULE,
    },
    Focus { id: "C14", on: &["seq", "speed"], with: &["sin", "saw", "sig", "mul", "add", "choose", "imp"], rule: RULE },
    Focus { id: "C15", on: &["envperc", "adsr"], with: &["sin", "squ", "sig", "mul", "add", "imp", "seq", "speed"], rule: RULE },
    Focus { id: "C16", on: &["sp", "psampler"], with: &["imp", "seq", "mul", "speed", "sig"], rule: RULE },
    Focus {
        id: "C17",
        on: &["delayn", "delayms"],
        with: &["sin", "saw", "noise", "imp", "mul", "add", "pan", "balance", "sig", "get", "tri"],
        rule: RULE,
    },
    Focus {
        id: "C18",
        on: &["onepole", "lpf", "hpf", "apfmsgain"],
        with: &["sin", "saw", "noise", "imp", "mul", "add", "sig", "squ", "get", "tri"],
        rule: RULE,
    },
    Focus {
        id: "C20",
        on: &["arrange", "choose"],
        with: &["sin", "saw", "noise", "sig", "mul", "pan", "add", "get", "imp"],
        rule: RULE,
    },
    Focus { id: "C24", on: ALL_MODELLED, with: &[], rule: RULE },
    Focus { id: "C31", on: &["points"], with: &["sin", "mul", "add", "sig"], rule: RULE },
];

pub fn run(rep: &Rep, f: &Focus) {
    rep.rule(f.rule);
    rep.assume("programs are acyclic and times are chosen so that their whole sample counts do not hang on float rounding");
    rep.assume("float comparisons use bounds derived from f32 rounding; off-by-one shifts are outside them");
    run_part(rep, f, rep.n(8000, 300000), rep.n(12, 240));
    for k in f.on {
        if f.id == "C24" && !["seq", "arrange", "psampler", "lpf", "psynth"].contains(k) {
            continue;
        }
        rep.require(&format!("nodes_{k}"), 20);
    }
    if f.id == "C13" {
        rep.cases("loose", rep.n(4000, 300_000), rep.n(3, 120), |r, _| match r.below(2) {
            0 => super::mix::c13_loose::<32>(rep, r),
            _ => super::mix::c13_loose::<128>(rep, r),
        });
        rep.require("groups_compared", 1000);
    }
    if f.id == "C24" {
        rep.cases("defaults", rep.n(150, 4000), rep.n(6, 60), |r, _| defaults(rep, r));
        rep.require("engines_left_alone", 20);
    }
}

pub fn run_part(rep: &Rep, f: &Focus, n: u64, cap: u64) {
    rep.cases("program", n, cap, |r, _| match r.below(4) {
        0 => case::<16>(rep, f, r, false),
        1 => case::<64>(rep, f, r, false),
        2 => case::<500>(rep, f, r, false),
        _ => case::<128>(rep, f, r, false),
    });
    rep.cases("long", n / 100, cap, |r, _| match r.below(2) {
        0 => case::<500>(rep, f, r, true),
        _ => case::<128>(rep, f, r, true),
    });
    rep.cases("endless", rep.n(3, 150), cap, |r, _| endless::<500>(rep, f, r));
}

/// One chain for more samples than a 32-bit float can count
fn endless<const N: usize>(rep: &Rep, f: &Focus, r: &mut Rng) -> Case {
    let mut cfg = if r.chance(0.5) { Cfg::slow(r) } else { Cfg::random(r) };
    if f.id == "C31" {
        cfg.bpms.truncate(1);
    }
    let mut g = Gen::new(r, cfg.clone());
    g.allow = f.on.iter().chain(f.with).copied().collect();
    g.samples = sample_names();
    let c = focus_chain(&mut g, f);
    let mut chains = std::mem::take(&mut g.chains);
    chains.push(("o".into(), c));
    let prog = Prog { chains };
    note(format!("rate {} tempo {:?} seed {} block {N}\n{}", cfg.sr, cfg.bpms, cfg.seed, prog.text()));
    let mut e = engine::<N>(&cfg);
    let mut m = Monitor::new(&cfg);
    must(&mut e, &prog)?;
    m.update(&prog);
    let total = (1 << 24) / N + 400;
    let (l, q) = input::<N>(r);
    let mut at: Vec<usize> = cfg.bpms[1..].iter().map(|_| if r.chance(0.5) { total - r.below(400) } else { r.below(total) }).collect();
    at.sort();
    for b in 0..total {
        for (k, t) in at.iter().enumerate() {
            if *t == b {
                note(format!("block {b}: tempo {}", cfg.bpms[k + 1]));
                e.set_bpm(cfg.bpms[k + 1]);
                m.set_bpm(cfg.bpms[k + 1]);
            }
        }
        e.next_block(vec![&l, &q]);
        m.check(&e)?;
    }
    let mut hit = false;
    for k in &m.kinds {
        rep.count(&format!("endless_{k}"), 1);
        hit |= f.on.contains(k);
    }
    rep.count("node_blocks_judged", m.nodes_checked);
    rep.count("samples_rendered", (total * N) as u64);
    Ok(Obs::new(format!("endless {} {:?} {}", cfg.sr, cfg.bpms, prog.text()), hit && m.peak > 0.))
}

/// a chain built around a node of the focus
fn focus_chain(g: &mut Gen, f: &Focus) -> Vec<Nd> {
    let k = *g.r.pick(f.on);
    let src = |g: &mut Gen| g.source();
    match k {
        "sin" => vec![Nd::Sin(freq(g))],
        "saw" => vec![Nd::Saw(freq(g))],
        "squ" => vec![Nd::Squ(freq(g))],
        "tri" => vec![Nd::Tri(freq(g))],
        "sig" => vec![Nd::Sig(g.r.dec(-1000., 1000., 3))],
        "imp" => vec![Nd::Imp(if g.r.chance(0.1) { g.cfg.sr as f32 } else { g.hz_trig(1., 4000.) })],
        "noise" => vec![Nd::Noise(g.r.us(0, 1 << 20) as u32)],
        "speed" | "seq" => g.seq_chain(),
        "mul" | "add" | "pan" | "delayn" | "delayms" | "onepole" | "lpf" | "hpf" | "apfmsgain" => {
            let mut c = match g.r.below(4) {
                0 if g.ok("balance") => vec![Nd::Balance(g.any_ref(), g.any_ref())],
                1 if g.ok("pan") => {
                    let mut c = g.source();
                    c.push(Nd::Pan(P::N(g.r.dec(-1., 1., 2))));
                    c
                }
                2 if g.input => vec![Nd::Get("~input".into())],
                _ => src(g),
            };
            for _ in 0..40 {
                if let Some(n) = g.processor() {
                    if n.name() == k {
                        c.push(n);
                        break;
                    }
                }
            }
            c
        }
        "mix" => {
            let mut rs: Vec<String> = vec![];
            for _ in 0..g.r.us(1, 4) {
                let x = g.any_ref();
                if !rs.contains(&x) {
                    rs.push(x)
                }
            }
            vec![Nd::Mix(rs)]
        }
        "get" => vec![Nd::Get(g.any_ref())],
        "balance" => vec![Nd::Balance(g.any_ref(), g.any_ref())],
        "envperc" | "adsr" => {
            // triggers: impulses, sequences, or a gate that opens and closes
            let mut t = match g.r.below(4) {
                0 if k == "adsr" => g.gate(),
                1 if g.ok("squ") => {
                    let mut v = vec![Nd::Squ(P::N(g.r.dec(5., 200., 1)))];
                    v.push(Nd::Add(P::N(1.)));
                    if g.r.chance(0.5) {
                        v.push(Nd::Mul(P::N(g.r.dec(0.1, 2., 2))));
                    }
                    v
                }
                2 if g.input && g.r.chance(0.3) => vec![Nd::Get("~input".into())],
                _ => g.trig(),
            };
            for _ in 0..40 {
                if let Some(n) = g.triggered() {
                    if n.name() == k {
                        t.push(n);
                        break;
                    }
                }
            }
            t
        }
        "sp" => {
            let mut t = g.trig();
            if g.r.chance(0.5) {
                t.push(Nd::Mul(P::N(g.r.dec(0.3, 2.5, 2))));
            }
            let s = g.r.pick(&g.samples).clone();
            t.push(Nd::Sp(s));
            t
        }
        "psampler" => vec![g.psampler()],
        "psynth" => vec![g.psynth()],
        "points" => vec![g.points()],
        "arrange" => {
            if g.chains.is_empty() {
                let c = g.chain(2);
                g.chains.push(("~first".into(), c));
                let mut c = g.source();
                c.push(Nd::Pan(P::N(0.5)));
                g.chains.push(("~second".into(), c));
            }
            g.arrange().map(|a| vec![a]).unwrap_or_else(|| g.source())
        }
        "choose" => vec![Nd::Choose((0..if g.r.chance(0.2) { g.r.us(7, 60) } else { g.r.us(1, 6) }).map(|_| g.r.range(-20, 100) as i32).collect())],
        _ => g.source(),
    }
}

fn freq(g: &mut Gen) -> P {
    let sr = g.cfg.sr as f64;
    match g.r.below(8) {
        0 => P::N(0.),
        1 => P::N(g.r.dec(-3000., -1., 2)),
        2 => P::N(g.r.dec(sr * 0.3, sr * 2.5, 1)),
        3 => P::R(g.ctl(-2000., 2000.)),
        4 => P::R(g.ctl(20., 2000.)),
        5 => {
            // a modulator that falls silent in between
            let f = g.r.dec(50., 800., 0);
            let name = format!("~gap{}", g.chains.len());
            g.chains.push((name.clone(), vec![Nd::Imp(f), Nd::Mul(P::N(g.r.dec(100., 4000., 1)))]));
            P::R(name)
        }
        _ => P::N(g.r.dec(0.1, 8000., 2)),
    }
}

fn case<const N: usize>(rep: &Rep, f: &Focus, r: &mut Rng, slow: bool) -> Case {
    let mut cfg = if slow { Cfg::slow(r) } else { Cfg::random(r) };
    if f.id == "C31" {
        cfg.bpms.truncate(1); // a running list keeps the tempo it was written under
    }
    if f.id == "C24" {
        while cfg.bpms.len() < 2 {
            let b = Cfg::tempo(r, cfg.sr, cfg.slow);
            cfg.bpms.push(b);
        }
    }
    let prog = program(f, r, &cfg);
    let text = if r.chance(0.3) { prog.text_varied(r) } else { prog.text() };
    note(format!("rate {} tempo {:?} seed {} block {N}\n{text}", cfg.sr, cfg.bpms, cfg.seed));
    let mut e = engine::<N>(&cfg);
    let mut m = Monitor::new(&cfg);
    must_text(&mut e, &text)?;
    m.update(&prog);
    let total = r.us(4000, 14000) * cfg.slow as usize / N + 2;
    let mut changes = 0;
    let mut pending = cfg.bpms[1..].to_vec();
    let mut p2 = prog.clone();
    for b in 0..total {
        if !pending.is_empty() && r.chance(3. * pending.len() as f64 / total as f64) {
            let bpm = pending.remove(0);
            note(format!("block {b}: tempo {bpm}"));
            e.set_bpm(bpm);
            m.set_bpm(bpm);
            changes += 1;
        }
        if f.id == "C24" && changes > 0 && b == total * 2 / 3 {
            // a node written after the change lives at the new tempo too
            let mut g = Gen::new(r, cfg.clone());
            g.allow = vec!["seq", "psampler", "sin", "mul", "psynth", "sig", "imp"];
            g.samples = sample_names();
            let late = match g.r.below(3) {
                0 => vec![g.psampler()],
                1 => vec![g.psynth()],
                _ => vec![g.seq(1., false)],
            };
            p2.chains.push(("late".into(), late));
            note(format!("block {b}: update\n{}", p2.text()));
            must(&mut e, &p2)?;
            m.update(&p2);
        }
        let (l, q) = input::<N>(r);
        e.next_block(vec![&l, &q]);
        m.check(&e)?;
    }
    let mut hit = false;
    for k in &m.kinds {
        rep.count(&format!("nodes_{k}"), 1);
        hit |= f.on.contains(k);
    }
    rep.count("node_blocks_judged", m.nodes_checked);
    rep.count("samples_rendered", (total * N) as u64);
    rep.count("tempo_changes", changes);
    Ok(Obs::new(format!("{} {:?} {N} {}", cfg.sr, cfg.bpms, prog.text()), hit && m.peak > 0.))
}

/// An engine on which nothing was set against one set to 44100 Hz and 120 beats a minute
fn defaults(rep: &Rep, r: &mut Rng) -> Case {
    let mut t = String::new();
    for i in 0..r.us(1, 3) {
        let (a, b, c) = (r.us(0, 12), r.us(0, 12), r.dec(0.1, 0.9, 2));
        let x = r.dec(100., 2000., 1);
        t += &match r.below(8) {
            0 => format!("o{i}: sin {x}\n"),
            1 => format!("o{i}: speed {}.0 >> seq 6{} _6{} 60_60 >> sawsynth 0.01 0.1\n", r.us(2, 9), a % 10, b % 10),
            2 => format!("o{i}: seq 6{} _60 60_ 60 >> sp \\kick\n", a % 10),
            3 => format!("o{i}: arrange ~p{i} 1 ~q{i} 1\n~p{i}: sig 0.5\n~q{i}: saw {x}\n"),
            4 => format!("o{i}: psampler \"\\kick@0.0 \\St@{c}\"(1.0)\n"),
            5 => format!("o{i}: psynth `0.0 60, {c} 6{}` 1.0\n", b % 10),
            6 => format!("o{i}: saw 110 >> lpf \"{x}@0.0 300@{c}\"(1.0) 1.0\n"),
            _ => format!("o{i}: [0.0=>0.0 {c}=>1.0 0.95=>0.2]!\n"),
        };
    }
    note(&t);
    let mut a = glicol::Engine::<128>::new();
    let mut b = glicol::Engine::<128>::new();
    b.set_sr(44100);
    b.set_bpm(120.);
    register(&mut a);
    register(&mut b);
    must_text(&mut a, &t)?;
    must_text(&mut b, &t)?;
    let mut loud = 0f32;
    for k in 0..1000 {
        let (x, y) = (silent(&mut a), silent(&mut b));
        same("an engine on which nothing was set, and one set to the defaults", k, &x, &y, 1e-6 + rounding(&a))?;
        loud = loud.max(peak(&x));
    }
    rep.count("engines_left_alone", 1);
    Ok(Obs::new(t, loud > 0.))
}

fn program(f: &Focus, r: &mut Rng, cfg: &Cfg) -> Prog {
    let mut g = Gen::new(r, cfg.clone());
    g.allow = f.on.iter().chain(f.with).copied().collect();
    if f.id == "C31" || f.id == "C24" {
        g.allow.push("mul");
    }
    if f.id == "C24" {
        g.deny = vec!["points"]; // judged at a fixed tempo in C31
    }
    g.samples = sample_names();
    if cfg.slow > 1. {
        g.samples.extend(vec!["\\whole".to_string(); 3]);
    }
    g.input = f.id != "C12" && g.r.chance(0.5);
    let k = g.r.us(1, 3);
    for i in 0..k {
        let mut c = focus_chain(&mut g, f);
        for _ in 0..g.r.us(0, 2) {
            if let Some(n) = g.processor() {
                c.push(n);
            }
        }
        let name = if i + 1 == k || g.r.chance(0.6) { format!("o{i}") } else { format!("~h{i}") };
        g.chains.push((name, c));
    }
    let mut chains = std::mem::take(&mut g.chains);
    g.r.shuffle(&mut chains);
    Prog { chains }
}
