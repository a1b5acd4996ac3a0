//! C08, C10, C11, C22, C23: the whole sound of a session.

use super::live::chain_end;
use crate::edit::*;
use crate::gen::*;
use crate::prog::*;
use crate::rep::*;
use crate::rng::Rng;
use crate::script::*;
use crate::session::*;
use glicol::Engine;

/// at most two summands, so that the order of the sum cannot matter
fn two(p: &mut Prog) {
    for d in p.chains.iter_mut().flat_map(|c| &mut c.1) {
        if let Nd::Mix(v) = d {
            v.truncate(2);
        }
    }
}

/// a program over the whole vocabulary, with references into parameters
pub fn rich(r: &mut Rng, cfg: &Cfg, deny: &[&'static str]) -> Prog {
    let (k, max) = match r.below(100) {
        0 | 1 => (r.us(6, 30), r.us(1, 10)),
        2 => (r.us(1, 3), r.us(15, 45)),
        _ => (r.us(1, 5), r.us(1, 4)),
    };
    let mut g = Gen::new(r, cfg.clone());
    g.samples = sample_names();
    g.input = true;
    g.deny = deny.to_vec();
    let mut p = g.program(k, max);
    two(&mut p);
    p
}

fn loud(t: &Take) -> bool {
    t.audio.iter().flatten().any(|x| *x != 0.)
}

// ---------------------------------------------------------------- C08

pub fn c08(rep: &Rep) {
    rep.rule(
        "parts: sum compares every block with the sum of the ends of the audible chains and with the sum of engines that play one audible chain each; order and name compare with reordered and renamed programs; \
         stereo compares stereo processing with separate processing of the two sides; programs are distinct by text; a case counts when it sounded",
    );
    rep.cases("sum", rep.n(40_000, 1_000_000), rep.n(12, 250), |r, _| match r.below(3) {
        0 => c08_sum::<16>(rep, r),
        1 => c08_sum::<64>(rep, r),
        _ => c08_sum::<128>(rep, r),
    });
    rep.cases("name", rep.n(40_000, 1_000_000), rep.n(12, 250), |r, _| c08_name::<64>(rep, r));
    rep.cases("stereo", rep.n(60_000, 1_500_000), rep.n(12, 200), |r, _| c08_stereo::<32>(rep, r));
    rep.require("chains_alone", 2000);
    rep.require("renamed", 2000);
}

fn rename(p: &Prog, f: &dyn Fn(&str) -> String) -> Prog {
    Prog { chains: p.chains.iter().map(|(n, c)| (f(n), c.iter().map(|d| d.map_refs(f)).collect())).collect() }
}

fn c08_sum<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let p = rich(r, &cfg, &[]);
    note(format!("rate {}, tempo {:?}, block {N}\n{}", cfg.sr, cfg.bpms, p.text()));
    let mut e = engine::<N>(&cfg);
    must(&mut e, &p)?;
    let audible: Vec<String> = p.chains.iter().map(|c| c.0.clone()).filter(|n| !n.contains('~')).collect();
    // the same program with only one chain audible
    let mut alone = vec![];
    for a in &audible {
        let q = rename(&p, &|n: &str| if n == a || n.contains('~') { n.to_string() } else { format!("~was{n}").replace("was_", "was") });
        let mut f = engine::<N>(&cfg);
        must(&mut f, &q)?;
        alone.push(f);
        rep.count("chains_alone", 1);
    }
    let mut sound = false;
    for b in 0..r.us(600, 2500) / N + 4 {
        let (x, y) = input::<N>(r);
        let o = render(&mut e, &x, &y);
        let slack = rounding(&e);
        let mut sum = [vec![0f64; N], vec![0f64; N]];
        for a in &audible {
            let end = chain_end(&e, a)?;
            for c in 0..2 {
                for i in 0..N {
                    sum[c][i] += end[c.min(end.len() - 1)][i] as f64;
                }
            }
        }
        let sum = sum.map(|v| v.iter().map(|x| *x as f32).collect::<Vec<_>>());
        same("output against the sum of the ends of the audible chains", b, &o, &sum, 1e-6 + slack)?;
        let mut sum = [vec![0f64; N], vec![0f64; N]];
        for f in alone.iter_mut() {
            let o = render(f, &x, &y);
            for c in 0..2 {
                for i in 0..N {
                    sum[c][i] += o[c][i] as f64;
                }
            }
        }
        let sum = sum.map(|v| v.iter().map(|x| *x as f32).collect::<Vec<_>>());
        same("output against the sum of engines with one audible chain each", b, &o, &sum, 1e-6 + slack)?;
        sound |= peak(&o) > 0.;
    }
    rep.maxi("audible_chains", audible.len() as u64);
    Ok(Obs::new(p.text(), sound))
}

fn c08_name<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let p = rich(r, &cfg, &[]);
    let q = shuffled(r, &p);
    // note references are single letters
    let letters: Vec<String> = p.chains.iter().flat_map(|c| &c.1).filter(|d| matches!(d, Nd::Seq(_))).flat_map(|d| d.refs()).collect();
    let mut names: Vec<(String, String)> = vec![];
    let style = r.below(3);
    for (i, (n, _)) in p.chains.iter().enumerate() {
        let m = if letters.contains(n) {
            n.clone()
        } else if n.contains('~') {
            match style {
                0 => format!("~zz{i}"),
                1 => format!("~{}_q", ["bass", "seqx", "mul_", "o__", "w"][i % 5].to_string() + i.to_string().as_str()),
                _ => format!("{n}x"),
            }
        } else {
            match style {
                0 => format!("zz{i}"),
                1 => format!("{}_q", ["kk", "_v", "out", "o__o", "w_"][i % 5].to_string() + i.to_string().as_str()),
                _ => format!("{n}x"),
            }
        };
        names.push((n.clone(), m));
    }
    let f = |n: &str| names.iter().find(|(a, _)| a == n).map_or(n.to_string(), |(_, b)| b.clone());
    let q = rename(&q, &f);
    rep.count("renamed", 1);
    note(format!("rate {}, tempo {:?}, block {N}\n{}\nand\n{}", cfg.sr, cfg.bpms, p.text(), q.text()));
    let (mut e, mut g) = (engine::<N>(&cfg), engine::<N>(&cfg));
    must(&mut e, &p)?;
    must(&mut g, &q)?;
    let mut sound = false;
    for b in 0..r.us(600, 2500) / N + 4 {
        let (x, y) = input::<N>(r);
        let (s, t) = (render(&mut e, &x, &y), render(&mut g, &x, &y));
        same("a program against the same with other names in another order", b, &s, &t, 1e-6 + rounding(&e))?;
        sound |= peak(&s) > 0.;
    }
    Ok(Obs::new(p.text(), sound))
}

/// chains of nodes that treat both sides alike, between a stereo source and the output
fn c08_stereo<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let mut chains: Vec<(String, Vec<Nd>)> = vec![];
    let mut prev: Vec<String> = vec!["~input".into()];
    let n = r.us(1, 4);
    for k in 0..n {
        let x = r.pick(&prev).clone();
        let y = r.pick(&prev).clone();
        let mut c = vec![match r.below(4) {
            0 if x != y => Nd::Mix(vec![x, y]),
            1 => Nd::Arrange(vec![(x, 1.)]),
            _ => Nd::Get(x),
        }];
        for _ in 0..r.below(4) {
            let z = r.pick(&prev).clone();
            c.push(match r.below(8) {
                0 => Nd::Mul(P::N(r.dec(-1., 1., 2))),
                1 => Nd::Add(P::N(r.dec(-1., 1., 2))),
                2 => Nd::Mul(P::R(z)),
                3 => Nd::Add(P::R(z)),
                4 => Nd::DelayN(r.below(100) as u32),
                5 => Nd::DelayMs(P::N(r.dec(0.1, 3., 2))),
                6 => Nd::Mul(P::N(0.5)),
                _ => Nd::DelayN(N as u32),
            });
        }
        let name = if k + 1 == n { "o".to_string() } else { format!("~s{k}") };
        prev.push(name.clone());
        chains.push((name, c));
    }
    let p = Prog { chains };
    note(p.text());
    let mut e = engine::<N>(&cfg);
    must(&mut e, &p)?;
    // the two sides on their own, and swapped
    let (mut left, mut right, mut swap) = (engine::<N>(&cfg), engine::<N>(&cfg), engine::<N>(&cfg));
    for x in [&mut left, &mut right, &mut swap] {
        must(x, &p)?;
    }
    let mut sound = false;
    for b in 0..400 / N {
        let (x, y) = input::<N>(r);
        let o = render(&mut e, &x, &y);
        let l = render(&mut left, &x, &x);
        let q = render(&mut right, &y, &y);
        let s = render(&mut swap, &y, &x);
        for (what, a, z) in [
            ("the left side against the left input on both sides", &o[0], &l[0]),
            ("the right side against the right input on both sides", &o[1], &q[1]),
            ("left against right of the swapped input", &o[0], &s[1]),
            ("right against left of the swapped input", &o[1], &s[0]),
            ("left against right of an equal input", &l[0], &l[1]),
        ] {
            if let Some(i) = (0..N).find(|i| a[*i] != z[*i]) {
                return Err(format!("{what}: block {b}, sample {i}: {} against {}", a[i], z[i]));
            }
        }
        sound |= peak(&o) > 0.;
    }
    rep.count("stereo_blocks", (400 / N) as u64);
    Ok(Obs::new(p.text(), sound))
}

// ---------------------------------------------------------------- C10

/// nodes that are defined per block, not per sample
const PER_BLOCK: &[&str] = &["choose", "speed", "plate", "meta"];

fn per_block(d: &Nd) -> bool {
    PER_BLOCK.contains(&d.name()) || matches!(d, Nd::Lpf(P::R(_), _) | Nd::Hpf(P::R(_), _))
}

pub fn c10(rep: &Rep) {
    rep.rule(
        "a case is one session played at two or more block sizes and compared sample by sample; sessions are distinct by their script; a case counts when it sounded; \
         part plain: one program, sizes from 2 to 1024; part live: updates, messages and tempo changes on a grid of 128 samples, sizes 16 to 128",
    );
    rep.assume("no feedback; no choose, speed, plate or meta node and no referenced cutoff, which act once per block");
    rep.cases("plain", rep.n(40_000, 1_000_000), rep.n(15, 300), |r, _| c10_plain(rep, r));
    rep.cases("live", rep.n(40_000, 1_000_000), rep.n(15, 300), |r, _| c10_live(rep, r));
}

fn c10_plain(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let p = loop {
        let p = rich(r, &cfg, PER_BLOCK);
        if !p.chains.iter().flat_map(|c| &c.1).any(per_block) {
            break p;
        }
    };
    let n = r.us(1500, 4500);
    let s = Script { events: vec![(0, Ev::Text(p.text()))], input: Script::random_input(r, n) }.noted();
    fn go<const N: usize>(cfg: &Cfg, s: &Script) -> Take {
        s.play(engine::<N>(cfg))
    }
    let a = go::<64>(&cfg, &s);
    if a.verdicts != ["ok"] {
        return Err("a valid program was rejected".into());
    }
    for _ in 0..2 {
        let (b, nb) = match r.below(9) {
            0 => (go::<2>(&cfg, &s), 2),
            1 => (go::<16>(&cfg, &s), 16),
            2 => (go::<32>(&cfg, &s), 32),
            3 => (go::<128>(&cfg, &s), 128),
            4 => (go::<75>(&cfg, &s), 75),
            5 => (go::<500>(&cfg, &s), 500),
            6 => (go::<1024>(&cfg, &s), 1024),
            7 => (go::<7>(&cfg, &s), 7),
            _ => (go::<256>(&cfg, &s), 256),
        };
        rep.count(&format!("size_{nb}"), 1);
        same_take(&format!("blocks of 64 against blocks of {nb}"), &a, 64, &b, 2e-6)?;
    }
    Ok(Obs::new(s.show(), loud(&a)))
}

fn c10_live(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let mut m = Stateful { cfg: cfg.clone(), deny: PER_BLOCK.to_vec(), allow: vec![], movable: false };
    let n = 128 * r.us(6, 30);
    let (s, _) = Script::random(r, &mut m, n, 128, Kinds::ALL);
    let s = s.noted();
    let a = s.play(Engine::<128>::new());
    let (b, nb) = match r.below(3) {
        0 => (s.play(Engine::<16>::new()), 16),
        1 => (s.play(Engine::<32>::new()), 32),
        _ => (s.play(Engine::<64>::new()), 64),
    };
    rep.count("updates", a.verdicts.len() as u64);
    same_take(&format!("blocks of 128 against blocks of {nb}"), &a, 128, &b, 2e-6)?;
    Ok(Obs::new(s.show(), loud(&a)))
}

// ---------------------------------------------------------------- C11

pub fn c11(rep: &Rep) {
    rep.rule(
        "part again: a case is a session of updates, rejected updates, messages and tempo changes played alone, then in turns with a different session in the same thread, and on a second thread at the same time; \
         part seed: engines and noise nodes that differ in nothing but the seed; sessions are distinct by their script; a case counts when it sounded",
    );
    rep.cases("again", rep.n(30_000, 600_000), rep.n(18, 350), |r, _| c11_case::<64>(rep, r));
    rep.cases("seed", rep.n(10_000, 100_000), rep.n(10, 100), |r, _| c11_seed(rep, r));
    rep.require("interleaved", 1000);
    rep.require("concurrent", 500);
}

fn c11_case<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let script = |r: &mut Rng| {
        let cfg = Cfg::random(r);
        let n = N * r.us(8, 40);
        let mut m = Stateful { cfg, deny: vec![], allow: vec![], movable: true };
        Script::random(r, &mut m, n, N, Kinds::ALL).0
    };
    let s = script(r).noted();
    let t = script(r);
    let first = s.play(Engine::<N>::new());
    // in turns with another engine, at random
    let (mut a, mut b) = (Player::new(Engine::<N>::new(), &s), Player::new(Engine::<N>::new(), &t));
    loop {
        if r.chance(0.5) && b.step() {
            continue;
        }
        if !a.step() {
            break;
        }
    }
    rep.count("interleaved", 1);
    same_take("a session against the same in turns with another", &first, N, &a.take, 1e-6)?;
    if r.chance(0.3) {
        let (x, y) = std::thread::scope(|k| {
            let h = k.spawn(|| t.play(Engine::<N>::new()));
            let x = s.play(Engine::<N>::new());
            (x, h.join())
        });
        let Ok(y) = y else { return Err("the session on the other thread panicked".into()) };
        rep.count("concurrent", 1);
        same_take("a session against the same next to another thread", &first, N, &x, 1e-6)?;
        let alone = t.play(Engine::<N>::new());
        same_take("a session on another thread against the same alone", &alone, N, &y, 1e-6)?;
    }
    Ok(Obs::new(s.show(), loud(&first)))
}

fn c11_seed(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let go = |seed: usize, text: &str| {
        let mut e = engine::<64>(&cfg);
        e.set_seed(seed);
        must_text(&mut e, text)?;
        let mut v = vec![];
        for _ in 0..40 {
            v.extend(silent(&mut e)[0].clone());
        }
        Ok::<Vec<f32>, String>(v)
    };
    let (a, b) = (r.us(0, 100000), r.us(0, 100000));
    let noise = r.chance(0.5);
    let x = if noise { format!("o: noise {a}") } else { "o: choose 1 2 3 4 5 6 7".to_string() };
    let y = if noise { format!("o: noise {b}") } else { x.clone() };
    note(format!("seeds {a} {b}: {x} / {y}"));
    let (s, t, u) = (go(a, &x)?, go(b, &y)?, go(a, &x)?);
    if s != u {
        return Err(format!("the same seed {a} gives another sequence"));
    }
    if a != b && s == t {
        return Err(format!("seeds {a} and {b} give the same sequence of {}", if noise { "noise" } else { "choices" }));
    }
    rep.count(if noise { "noise_pairs" } else { "choose_pairs" }, 1);
    Ok(Obs::new(format!("{x} {a} {b}"), a != b))
}

// ---------------------------------------------------------------- C22

pub fn c22(rep: &Rep) {
    rep.rule(
        "a case is a session whose programs tap ~input in several places; input samples are unique (except for silent, half silent and constant blocks) and each tap must carry exactly the samples of the same block, across updates, rejected updates, messages and resets; \
         sessions are distinct by their texts; a case counts when at least two updates happened",
    );
    rep.cases("tap", rep.n(100_000, 2_000_000), rep.n(18, 250), |r, _| match r.below(3) {
        0 => c22_case::<16>(rep, r),
        1 => c22_case::<64>(rep, r),
        _ => c22_case::<128>(rep, r),
    });
    rep.require("taps", 10000);
    rep.require("resets", 100);
    rep.require("rejected", 1000);
}

fn c22_case<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let mut m = Stateful { cfg: cfg.clone(), deny: vec!["plate"], allow: vec![], movable: true };
    let mut e = engine::<N>(&cfg);
    let mut serial = 0u32;
    let mut taps: Vec<String> = vec![];
    let mut desc = String::new();
    let mut updates = 0;
    let mut p = make_prog(r, &mut m, 2, 2);
    for b in 0..r.us(10, 40) {
        if b == 0 || r.chance(0.2) {
            if r.chance(0.15) {
                e.reset();
                setup(&mut e, &cfg);
                rep.count("resets", 1);
                note(format!("block {b}: reset"));
                taps.clear();
            }
            edit(r, &mut m, &mut p, &mut vec![]);
            let mut q = p.clone();
            let mut next = vec![];
            for k in 0..r.us(1, 4) {
                let n = if r.chance(0.5) { format!("tap{k}") } else { format!("~tap{k}") };
                let c = match r.below(5) {
                    0 => vec![Nd::Get("~input".into())],
                    1 => vec![Nd::Mix(vec!["~input".into()])],
                    2 => vec![Nd::Get("~input".into()), Nd::Mul(P::N(1.))],
                    3 => vec![Nd::Sig(0.), Nd::Add(P::R("~input".into()))],
                    _ => vec![Nd::Sig(1.), Nd::Mul(P::R("~input".into()))],
                };
                q.chains.push((n.clone(), c));
                // a hidden tap is only alive when it is heard
                if n.starts_with('~') {
                    q.chains.push((format!("use{k}"), vec![Nd::Get(n.clone())]));
                }
                next.push(n);
            }
            let text = shuffled(r, &q).text();
            note(format!("block {b}: update\n{text}"));
            must_text(&mut e, &text)?;
            desc += &text;
            taps = next;
            updates += 1;
        }
        if r.chance(0.15) {
            let t = super::live::spoil(r, &mut m, &p);
            if e.update_with_code(&t).is_ok() {
                return Ok(Obs::new("not rejected", false));
            }
            note(format!("block {b}: rejected update\n{t}"));
            rep.count("rejected", 1);
        }
        // every sample is a number of its own
        let mut io = [[0f32; N]; 2];
        for i in 0..N {
            for c in 0..2 {
                serial += 1;
                io[c][i] = serial as f32 / 1024.;
            }
        }
        // pauses, on both sides or on one
        match r.below(20) {
            0 | 1 => io = [[0.; N]; 2],
            2 => io[r.below(2)] = [0.; N],
            3 => io[r.below(2)] = [serial as f32; N],
            _ => {}
        }
        let o = if r.chance(0.1) {
            // one microphone on both sides
            io[1] = io[0];
            let o = e.next_block(vec![&io[0][..], &io[0][..]]);
            [o[0].to_vec(), o[1].to_vec()]
        } else {
            render(&mut e, &io[0], &io[1])
        };
        if o[0].len() != N {
            return Err("a block of the wrong size".into());
        }
        for n in &taps {
            let end = chain_end(&e, n)?;
            for c in 0..2 {
                if let Some(i) = (0..N).find(|i| end[c.min(end.len() - 1)][*i] != io[c][*i]) {
                    return Err(format!(
                        "block {b}: {n} carries {} at sample {i} of channel {c}, the input was {}",
                        end[c.min(end.len() - 1)][i], io[c][i]
                    ));
                }
            }
            rep.count("taps", 1);
        }
    }
    // and it is heard: nothing but the input
    e.reset();
    must_text(&mut e, "o: ~input")?;
    let (x, y) = input::<N>(r);
    let o = render(&mut e, &x, &y);
    if o[0] != x || o[1] != y {
        return Err("a program that is only ~input does not return the input".into());
    }
    Ok(Obs::new(desc, updates >= 2))
}

// ---------------------------------------------------------------- C23

pub fn c23(rep: &Rep) {
    rep.rule(
        "a case is a random session, a reset, silence, and a second random session on that engine and on a new one; the second takes are compared sample by sample together with verdicts and node population; \
         cases are distinct by both scripts; a case counts when both sessions sounded",
    );
    rep.assume("the sample rate is set again after the reset (it is a property of the host, not of the session)");
    rep.cases("reset", rep.n(40_000, 1_000_000), rep.n(18, 300), |r, _| match r.below(2) {
        0 => c23_case::<32>(rep, r),
        _ => c23_case::<128>(rep, r),
    });
}

fn c23_case<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let script = |r: &mut Rng, k: usize| {
        let cfg = Cfg::random(r);
        let n = N * r.us(4, 4 + 2000 / N);
        let mut m = Stateful { cfg, deny: vec![], allow: vec![], movable: true };
        let mut s = Script::random(r, &mut m, n, N, Kinds::ALL).0;
        if k == 1 {
            // the second session may rely on the defaults
            if r.chance(0.4) {
                s.events.retain(|e| !matches!(e.1, Ev::Bpm(_)));
            }
            if r.chance(0.4) {
                s.events.retain(|e| !matches!(e.1, Ev::Seed(_)));
            }
            if r.chance(0.2) {
                let gone = r.below(pool().len());
                s.events.retain(|e| !matches!(e.1, Ev::Sample(k) if k == gone || k == 0));
            }
        }
        s
    };
    let s = script(r, 0).noted();
    let mut e = Engine::<N>::new();
    let mut pl = Player::new(e, &s);
    while pl.step() {}
    let before = loud(&pl.take);
    e = pl.e;
    note("reset");
    e.reset();
    if r.chance(0.3) {
        e.reset();
    }
    let fresh = Engine::<N>::new();
    let (a, b) = (e.context.graph.node_count(), fresh.context.graph.node_count());
    if a != b {
        return Err(format!("{a} nodes after a reset, a new engine has {b}"));
    }
    if r.chance(0.5) {
        let o = silent(&mut e);
        if peak(&o) != 0. {
            return Err("the reset engine is not silent".into());
        }
        if r.chance(0.5) {
            let s = *r.pick(&["o: sp \\kick", "o: sin ~was"]);
            if e.update_with_code(s).is_ok() {
                return Err(format!("{s} is accepted after a reset"));
            }
        }
        // keep the clocks together
        e.reset();
    }
    let t = script(r, 1).noted();
    let (x, y) = (t.play(e), t.play(fresh));
    rep.count("updates", x.verdicts.len() as u64);
    same_take("a reset engine against a new one", &x, N, &y, 1e-6)?;
    Ok(Obs::new(s.show() + t.show().as_str(), before && loud(&y)))
}

// ---------------------------------------------------------------- C13, references to all the chains of a prefix

const VOICES: &[&str] = &[
    "~v", "~va", "~vab", "~v_1", "~v1", "~v12", "~vx_with_a_rather_long_name_99", "~voice_number_0001", "~w", "~wv", "~xv", "v", "va", "vb_2", "v_long_enough_to_be_cut_somewhere", "_v", "_va", "_va_3", "~bv_a",
    "~va_b", "~va0", "~va1", "~va2", "~va3", "~va4", "~va5", "~va6",
];
const PREFIXES: &[&str] = &["~v", "~va", "~v_", "~v1", "~vx_with_a_rather", "~voice_number_0001", "~w", "v", "va", "_v", "_va", "~in", "~x", "~b", "~vo"];

/// `mix ~v..` against the same with the chains of that prefix written out, while such chains come and go
pub fn c13_loose<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let (mut e, mut f) = (engine::<N>(&cfg), engine::<N>(&cfg));
    let mut voices: Vec<(String, Vec<Nd>)> = vec![];
    let voice = |r: &mut Rng| {
        let mut c = vec![match r.below(5) {
            0 => Nd::Sig(r.dec(-1., 1., 2)),
            1 => Nd::Saw(P::N(r.dec(20., 2000., 1))),
            2 => Nd::Noise(r.below(1000) as u32),
            3 => Nd::Get("~input".into()),
            _ => Nd::Sin(P::N(r.dec(20., 2000., 1))),
        }];
        if r.chance(0.4) {
            c.push(Nd::Pan(P::N(r.dec(-1., 1., 1))));
        }
        if r.chance(0.4) {
            c.push(Nd::Mul(P::N(r.dec(-1., 1., 2))));
        }
        c
    };
    let mut buses: Vec<(String, Vec<Nd>)> = vec![];
    let (mut desc, mut loud, mut most) = (format!("{} ", cfg.sr), false, 0);
    for step in 0..r.us(1, 5) {
        for _ in 0..if r.chance(0.05) { 60 } else if step == 0 { r.us(1, 9) } else { r.us(0, 3) } {
            let n = r.pick(VOICES).to_string();
            match voices.iter().position(|v| v.0 == n) {
                Some(k) if r.chance(0.3) => _ = voices.remove(k),
                Some(k) => voices[k].1 = voice(r),
                None => voices.push((n, voice(r))),
            }
        }
        if step == 0 || r.chance(0.3) {
            buses.clear();
            for k in 0..r.us(1, 3) {
                let mut c = vec![Nd::Mix(vec![format!("{}..", r.pick(PREFIXES))])];
                for _ in 0..r.below(3) {
                    c.push(if r.chance(0.5) { Nd::Mul(P::N(r.dec(-1., 1., 2))) } else { Nd::DelayN(r.us(1, 90) as u32) });
                }
                buses.push((["o", "z1", "~z"][k].into(), c));
            }
            // a member of its own group is not among its own sources
            if r.chance(0.3) {
                buses.push(("~vzz".into(), vec![Nd::Mix(vec!["~v..".into()])]));
            }
            buses.push(("zz".into(), vec![Nd::Mix(vec!["~z..".into()])]));
        }
        let all: Vec<(String, Vec<Nd>)> = voices.iter().chain(&buses).cloned().collect();
        let names: Vec<String> = all.iter().map(|c| c.0.clone()).collect();
        let mut written = vec![];
        let (mut kept, mut count) = (vec![], 0);
        for (n, c) in &all {
            let mut c = c.clone();
            if let Nd::Mix(v) = &mut c[0] {
                let pre = v[0].trim_end_matches("..").to_string();
                *v = names.iter().map(|s| s.as_str()).chain(["~input"]).filter(|m| m.starts_with(&pre) && *m != n).map(|s| s.to_string()).collect();
                if v.is_empty() {
                    continue;
                }
                count = count.max(v.len());
            }
            kept.push(n.clone());
            written.push((n.clone(), c));
        }
        // groups without a member are left out of both
        if kept.len() < names.len() && kept.iter().filter(|n| n.starts_with("~z")).count() != names.iter().filter(|n| n.starts_with("~z")).count() {
            continue;
        }
        let mut grouped = Prog { chains: all.into_iter().filter(|c| kept.contains(&c.0)).collect() };
        let mut written = Prog { chains: written };
        if written.chains.iter().flat_map(|c| &c.1).any(|d| d.refs().iter().any(|x| x != "~input" && !kept.contains(x))) {
            continue;
        }
        r.shuffle(&mut grouped.chains);
        r.shuffle(&mut written.chains);
        let t = grouped.text();
        note(format!("rate {}, block {N}\n{t}\nwritten out\n{}", cfg.sr, written.text()));
        must(&mut e, &grouped)?;
        must(&mut f, &written)?;
        desc += &t;
        most = most.max(count);
        for b in 0..r.us(1, 4) {
            let (x, y) = input::<N>(r);
            let (s, w) = (render(&mut e, &x, &y), render(&mut f, &x, &y));
            same("a group against its members written out", b, &s, &w, 1e-6 + rounding(&e) + rounding(&f))?;
            loud |= peak(&s) > 0.;
        }
        rep.count("groups_compared", grouped.chains.iter().filter(|c| matches!(c.1[0], Nd::Mix(_))).count() as u64);
    }
    rep.maxi("members_of_a_group", most as u64);
    Ok(Obs::new(desc, loud && most > 1))
}
