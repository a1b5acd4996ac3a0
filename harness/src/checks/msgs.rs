//! C21: control messages.

use super::mix::rich;
use crate::gen::*;
use crate::prog::*;
use crate::rep::*;
use crate::rng::Rng;
use crate::session::*;
use crate::shadow::*;

/// The numbers written in a node that a message can change: parameter and a new value for it
pub fn slots(g: &mut Gen, d: &Nd) -> Vec<(u8, f32)> {
    let hz = if g.r.chance(0.15) { g.r.dec(3000., 0.49 * g.cfg.sr as f64, 1) } else { g.r.dec(20., 3000., 1) };
    match d {
        Nd::Sin(P::N(_)) | Nd::Saw(P::N(_)) | Nd::Squ(P::N(_)) | Nd::Tri(P::N(_)) => vec![(0, hz)],
        Nd::Sig(_) if g.r.chance(0.1) => vec![(0, g.r.dec(-50_000., 50_000., 0))],
        Nd::Sig(_) => vec![(0, g.r.dec(-2., 2., 2))],
        Nd::Imp(_) => vec![(0, g.hz_trig(5., 1000.))],
        Nd::Noise(_) => vec![(0, g.r.us(0, 1 << 20) as f32)],
        Nd::Speed(_) => vec![(0, *g.r.pick(&[0.5f32, 1., 2., 4., 0.25]))],
        Nd::Mul(P::N(_)) | Nd::Add(P::N(_)) | Nd::Pan(P::N(_)) => vec![(0, g.r.dec(-1., 1., 2))],
        Nd::DelayN(_) => vec![(0, g.r.us(0, 300) as f32)],
        Nd::DelayMs(P::N(_)) => vec![(0, g.ms(0.1, 30.))],
        Nd::OnePole(P::N(_)) => vec![(0, g.r.dec(0.01, 0.45, 3))],
        Nd::Lpf(P::N(_), _) | Nd::Hpf(P::N(_), _) => vec![(0, if g.r.chance(0.2) { g.r.dec(6000., 0.45 * g.cfg.sr as f64, 1) } else { g.r.dec(100., 6000., 1) }), (1, g.r.dec(0.4, 4., 2))],
        Nd::Lpf(P::R(_), _) | Nd::Hpf(P::R(_), _) | Nd::LpfPat(..) => vec![(1, g.r.dec(0.4, 4., 2))],
        Nd::Apf(P::N(_), _) => vec![(0, g.ms(0.1, 20.)), (1, g.r.dec(-0.7, 0.7, 2))],
        Nd::Apf(P::R(_), _) => vec![(1, g.r.dec(-0.7, 0.7, 2))],
        Nd::EnvPerc(..) | Nd::SawSynth(..) | Nd::SquSynth(..) | Nd::TriSynth(..) => vec![(0, g.secs(0., 0.03)), (1, g.secs(0., 0.08))],
        Nd::Adsr(..) => vec![(0, g.secs(0.0005, 0.02)), (1, g.secs(0., 0.02)), (2, g.r.dec(0., 1., 2)), (3, g.secs(0., 0.02))],
        Nd::Plate(_) => vec![(0, g.r.dec(0., 1., 2))],
        Nd::Bd(_) | Nd::Sn(_) | Nd::Hh(_) => vec![(0, g.secs(0.002, 0.1))],
        Nd::Arrange(v) => (0..v.len()).map(|i| (2 * i as u8 + 1, *g.r.pick(&[1f32, 2., 0.5, 0.25, 3.]))).collect(),
        _ => vec![],
    }
}

/// the node with another number written in the place
fn written(d: &Nd, par: u8, v: f32) -> Nd {
    let n = P::N(v);
    match (d.clone(), par) {
        (Nd::Sin(_), 0) => Nd::Sin(n),
        (Nd::Saw(_), 0) => Nd::Saw(n),
        (Nd::Squ(_), 0) => Nd::Squ(n),
        (Nd::Tri(_), 0) => Nd::Tri(n),
        (Nd::Sig(_), 0) => Nd::Sig(v),
        (Nd::Imp(_), 0) => Nd::Imp(v),
        (Nd::Noise(_), 0) => Nd::Noise(v as u32),
        (Nd::Speed(_), 0) => Nd::Speed(v),
        (Nd::Mul(_), 0) => Nd::Mul(n),
        (Nd::Add(_), 0) => Nd::Add(n),
        (Nd::Pan(_), 0) => Nd::Pan(n),
        (Nd::DelayN(_), 0) => Nd::DelayN(v as u32),
        (Nd::DelayMs(_), 0) => Nd::DelayMs(n),
        (Nd::OnePole(_), 0) => Nd::OnePole(n),
        (Nd::Lpf(_, q), 0) => Nd::Lpf(n, q),
        (Nd::Lpf(c, _), 1) => Nd::Lpf(c, v),
        (Nd::LpfPat(e, s, _), 1) => Nd::LpfPat(e, s, v),
        (Nd::Hpf(_, q), 0) => Nd::Hpf(n, q),
        (Nd::Hpf(c, _), 1) => Nd::Hpf(c, v),
        (Nd::Apf(_, g), 0) => Nd::Apf(n, g),
        (Nd::Apf(d, _), 1) => Nd::Apf(d, v),
        (Nd::EnvPerc(_, d), 0) => Nd::EnvPerc(v, d),
        (Nd::EnvPerc(a, _), 1) => Nd::EnvPerc(a, v),
        (Nd::SawSynth(_, d), 0) => Nd::SawSynth(v, d),
        (Nd::SawSynth(a, _), 1) => Nd::SawSynth(a, v),
        (Nd::SquSynth(_, d), 0) => Nd::SquSynth(v, d),
        (Nd::SquSynth(a, _), 1) => Nd::SquSynth(a, v),
        (Nd::TriSynth(_, d), 0) => Nd::TriSynth(v, d),
        (Nd::TriSynth(a, _), 1) => Nd::TriSynth(a, v),
        (Nd::Adsr(a, b, c, d), p) => {
            let mut x = [a, b, c, d];
            x[p as usize] = v;
            Nd::Adsr(x[0], x[1], x[2], x[3])
        }
        (Nd::Plate(_), 0) => Nd::Plate(v),
        (Nd::Bd(_), 0) => Nd::Bd(v),
        (Nd::Sn(_), 0) => Nd::Sn(v),
        (Nd::Hh(_), 0) => Nd::Hh(v),
        (Nd::Arrange(mut e), p) => {
            e[p as usize / 2].1 = v;
            Nd::Arrange(e)
        }
        (d, _) => d,
    }
}

pub fn c21(rep: &Rep) {
    rep.rule(
        "parts: written compares an engine that is sent numbers before the first block with one whose text has them written in place, and goes on sending the same to both; \
         running judges every node sample by sample against reference models while messages arrive; \
         junk compares an engine that is also sent incomplete and misaddressed messages, alone and within lists, with one that is not; \
         cases are distinct by program and messages; a case counts when a message was sent and it sounded",
    );
    rep.assume("a delay line whose length is changed starts empty, a noise source given a new seed and an arrangement given new lengths start over");
    rep.cases("written", rep.n(30_000, 800_000), rep.n(12, 250), |r, _| match r.below(2) {
        0 => c21_written::<32>(rep, r),
        _ => c21_written::<128>(rep, r),
    });
    rep.cases("running", rep.n(8_000, 300_000), rep.n(12, 250), |r, _| match r.below(3) {
        0 => c21_running::<16>(rep, r),
        1 => c21_running::<64>(rep, r),
        _ => c21_running::<128>(rep, r),
    });
    rep.cases("junk", rep.n(20_000, 600_000), rep.n(10, 200), |r, _| c21_junk::<64>(rep, r));
    for k in [
        "sin", "saw", "squ", "tri", "sig", "imp", "noise", "speed", "mul", "add", "pan", "delayn", "delayms", "onepole", "lpf", "hpf",
        "apfmsgain", "envperc", "adsr", "plate", "bd", "sn", "hh", "sawsynth", "squsynth", "trisynth", "arrange",
    ] {
        rep.require(&format!("written_{k}"), 20);
    }
    rep.require("notes_sent", 1000);
}

/// a random address of a changeable number in a program
fn address(r: &mut Rng, cfg: &Cfg, p: &Prog) -> Option<(String, usize, u8, f32)> {
    for _ in 0..10 {
        let (n, c) = r.pick(&p.chains).clone();
        let k = r.below(c.len());
        let s = slots(&mut Gen::new(r, cfg.clone()), &c[k]);
        if !s.is_empty() {
            let (par, mut v) = *r.pick(&s);
            if matches!(c[k], Nd::Sig(_)) && n.len() == 2 {
                v %= 100.; // played as a note
            }
            return Some((n, k, par, v));
        }
    }
    None
}

/// after the change the times of all events still fall clearly before or after a sample
fn clear(cfg: &Cfg, c: &[Nd], k: usize, par: u8, v: f32) -> bool {
    match (&c[k], c.get(k + 1)) {
        (Nd::Speed(_), Some(Nd::Seq(gs))) => {
            cfg.clean_bars(1., v as f64)
                && gs.iter().enumerate().all(|(i, g)| (0..g.len()).all(|j| cfg.clean_bars((i as f64 + j as f64 / g.len() as f64) / gs.len() as f64, v as f64)))
        }
        (Nd::Arrange(e), _) => {
            let mut t = 0.;
            e.iter().enumerate().all(|(i, e)| {
                t += if 2 * i + 1 == par as usize { v } else { e.1 } as f64;
                cfg.clean_bars(t, 1.)
            })
        }
        _ => true,
    }
}

/// Messages as text: one or several in a string, with blanks anywhere
fn spelled(r: &mut Rng, v: &[String]) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for m in v {
        let m = if r.chance(0.3) { m.replace(',', " , ") } else { m.clone() };
        if r.chance(0.5) && !out.is_empty() {
            let l = out.last_mut().unwrap();
            *l += r.pick(&[";", "; ", " ;\n", ";;"]);
            *l += &m;
        } else {
            out.push(m);
        }
    }
    for m in out.iter_mut() {
        if r.chance(0.3) {
            m.push(';');
        }
    }
    out
}

fn c21_written<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let p = rich(r, &cfg, &[]);
    let mut q = p.clone();
    note(format!("rate {}, tempo {:?}, block {N}\n{}", cfg.sr, cfg.bpms, p.text()));
    let mut msgs = vec![];
    let mut kinds = vec![];
    for _ in 0..r.us(1, 4) {
        let Some((n, k, par, v)) = address(r, &cfg, &q) else { break };
        let c = &mut q.chains.iter_mut().find(|c| c.0 == n).unwrap().1;
        c[k] = written(&c[k], par, v);
        kinds.push(c[k].name());
        msgs.push(format!("{n},{k},{par},{v}"));
    }
    let (mut e, mut f) = (engine::<N>(&cfg), engine::<N>(&cfg));
    must(&mut e, &p)?;
    must(&mut f, &q)?;
    let mut desc = p.text();
    for m in spelled(r, &msgs) {
        note(format!("message {m:?}"));
        e.send_msg(&m);
        desc += &m;
    }
    let mut sound = false;
    for b in 0..r.us(600, 2500) / N + 4 {
        if r.chance(0.1) {
            // later both are told the same
            if let Some((n, k, par, v)) = address(r, &cfg, &q) {
                let m = format!("{n},{k},{par},{v}");
                note(format!("block {b}: message {m:?} to both"));
                e.send_msg(&m);
                f.send_msg(&m);
            }
        }
        let (x, y) = input::<N>(r);
        let (s, t) = (render(&mut e, &x, &y), render(&mut f, &x, &y));
        same("the numbers sent against the numbers written", b, &s, &t, 1e-6 + rounding(&f))?;
        sound |= peak(&t) > 0.;
    }
    for k in kinds {
        rep.count(&format!("written_{k}"), 1);
    }
    Ok(Obs::new(desc, sound && !msgs.is_empty()))
}

/// the program without the chains that set a parameter which is only defined in a range
fn free(p: &Prog) -> Prog {
    let held: Vec<String> = p
        .chains
        .iter()
        .flat_map(|c| &c.1)
        .filter(|d| matches!(d, Nd::Pan(_) | Nd::OnePole(_) | Nd::Lpf(..) | Nd::Hpf(..) | Nd::Apf(..) | Nd::DelayMs(_) | Nd::DelayNRef(_)))
        .flat_map(|d| d.refs())
        .collect();
    Prog { chains: p.chains.iter().filter(|c| !held.contains(&c.0)).cloned().collect() }
}

fn c21_running<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    // what has no model is twinned in the other parts
    let mut p = rich(r, &cfg, &["plate", "bd", "sn", "hh", "sawsynth", "points"]);
    let mut notes: Vec<(u64, f32)> = vec![];
    let synth = r.chance(0.5);
    if synth {
        let mut g = Gen::new(r, cfg.clone());
        let (a, d) = retry(|| {
            let (a, d) = (g.secs(0.0005, 0.01), g.secs(0.001, 0.03));
            g.cfg.clean_secs((a + d) as f64).then_some((a, d))
        });
        p.chains.push(("keys".into(), vec![Nd::MsgSynth(a, d), Nd::Mul(P::N(0.9))]));
    }
    note(format!("rate {}, tempo {:?}, block {N}\n{}", cfg.sr, cfg.bpms, p.text()));
    let mut e = engine::<N>(&cfg);
    let mut m = Monitor::new(&cfg);
    must(&mut e, &p)?;
    m.update(&p);
    let mut desc = p.text();
    let mut sent = 0;
    let mut at = free(&p);
    let total = r.us(1500, 6000) / N + 4;
    for b in 0..total {
        let mut msgs = vec![];
        while r.chance(4. / total as f64) {
            if synth && r.chance(0.5) {
                let t = Gen::new(r, cfg.clone()).secs((b * N) as f64 / cfg.sr as f64, (total * N) as f64 / cfg.sr as f64 + 0.01);
                let at = secs_samples(t, cfg.sr as f64) as u64;
                // in the past a note is never played, two at once are
                if at as usize > b * N && notes.iter().all(|n| n.0 != at) {
                    let midi = r.us(30, 90);
                    notes.push((at, midi as f32));
                    msgs.push(format!("keys,0,3,{t}=>{midi}"));
                    m.symbol("keys", 0, 3, &format!("{t}=>{midi}"));
                    rep.count("notes_sent", 1);
                }
            } else if let Some((n, k, par, v)) = address(r, &cfg, &at) {
                // `at` keeps the lengths that were sent
                let c = &mut at.chains.iter_mut().find(|c| c.0 == n).unwrap().1;
                if !clear(&cfg, c, k, par, v) {
                    continue;
                }
                if matches!(c[k], Nd::Arrange(_)) {
                    c[k] = written(&c[k], par, v);
                }
                msgs.push(format!("{n},{k},{par},{v}"));
                m.number(&n, k, par, v);
                rep.count(&format!("running_{}", p.get(&n).unwrap()[k].name()), 1);
            }
        }
        sent += msgs.len();
        for t in spelled(r, &msgs) {
            note(format!("block {b}: message {t:?}"));
            e.send_msg(&t);
            desc += &t;
        }
        let (l, q) = input::<N>(r);
        e.next_block(vec![&l, &q]);
        m.check(&e)?;
    }
    rep.count("node_blocks_judged", m.nodes_checked);
    Ok(Obs::new(desc, sent > 0 && m.peak > 0.))
}

fn c21_junk<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let p = rich(r, &cfg, &[]);
    note(format!("rate {}, tempo {:?}, block {N}\n{}", cfg.sr, cfg.bpms, p.text()));
    let (mut e, mut f) = (engine::<N>(&cfg), engine::<N>(&cfg));
    must(&mut e, &p)?;
    must(&mut f, &p)?;
    let mut desc = p.text();
    let (mut sound, mut bad) = (false, 0);
    for b in 0..r.us(600, 2000) / N + 4 {
        let mut all = vec![];
        for _ in 0..r.below(4) {
            if r.chance(0.4) {
                if let Some((n, k, par, v)) = address(r, &cfg, &p) {
                    let s = format!("{n},{k},{par},{v}");
                    f.send_msg(&s);
                    all.push(s);
                }
                continue;
            }
            let (n, c) = r.pick(&p.chains).clone();
            let v = r.dec(-3000., 3000., 1);
            all.push(match r.below(9) {
                0 => format!("{n}x,0,0,{v}"),
                1 => format!("{n},{},0,{v}", c.len()),
                2 => format!("{n},{},0,{v}", c.len() + r.below(1000)),
                3 => format!("{n},0,0"),
                4 => n.clone(),
                5 => format!("{n},0"),
                6 => format!("~{n},0,0,{v}"),
                7 => String::new(),
                _ => format!("{},0,0,{v}", r.pick(&["", "~", "~nope", "__", "Out", "ö", "🎵"])),
            });
            if all.last().unwrap().split(',').next().is_some_and(|x| x != n && p.get(x).is_some()) {
                all.pop(); // hit another chain
                continue;
            }
            bad += 1;
        }
        for t in spelled(r, &all) {
            note(format!("block {b}: message {t:?}"));
            e.send_msg(&t);
            desc += &t;
        }
        let (x, y) = input::<N>(r);
        let (s, t) = (render(&mut e, &x, &y), render(&mut f, &x, &y));
        same("with ignored messages against without", b, &s, &t, 1e-6 + rounding(&f))?;
        sound |= peak(&t) > 0.;
    }
    rep.count("ignored_messages", bad);
    Ok(Obs::new(desc, sound && bad > 0))
}
