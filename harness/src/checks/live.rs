//! C01-C03: sessions with updates, compared with twin engines.

use crate::edit::*;
use crate::gen::*;
use crate::prog::*;
use crate::rep::*;
use crate::rng::Rng;
use crate::session::*;
use glicol::Engine;

pub fn c01(rep: &Rep) {
    rep.rule(
        "a case is one session of random accepted updates; after every checked update a new engine gets only the latest program and both are fed the same random input; \
         it counts when at least two updates changed the program and the compared audio was not silent; sessions are distinct by their texts",
    );
    rep.assume("nodes are memoryless or forget their past within a known time, which is rendered before comparing");
    rep.cases("session", rep.n(50000, 2000000), rep.n(20, 300), |r, _| match r.below(3) {
        0 => c01_case::<16>(rep, r, false),
        1 => c01_case::<64>(rep, r, false),
        _ => c01_case::<128>(rep, r, false),
    });
    rep.cases("large", rep.n(40, 2000), rep.n(4, 60), |r, _| match r.below(2) {
        0 => c01_case::<64>(rep, r, true),
        _ => c01_case::<128>(rep, r, true),
    });
    rep.require("updates", 1000);
    rep.require("comparisons", 1000);
}

fn c01_case<const N: usize>(rep: &Rep, r: &mut Rng, large: bool) -> Case {
    let mut cfg = Cfg::random(r);
    cfg.bpms.truncate(1);
    let mut m = Forgetful { sr: cfg.sr, env: r.chance(0.5) };
    let mut e = engine::<N>(&cfg);
    let (lo, hi, len) = match r.below(3) {
        _ if !large => (1, 5, 4),
        0 => (1, 4, 45),
        _ => (12, 50, 9),
    };
    let k = r.us(lo, hi);
    let mut p = make_prog(r, &mut m, k, len);
    let mut hist: Vec<Prog> = vec![];
    let mut desc = String::new();
    let (mut changes, mut loud) = (0, false);
    let steps = if large { r.us(5, 40) } else { r.us(2, 7) };
    for s in 0..steps {
        if s > 0 {
            let old = p.clone();
            match r.below(12) {
                0 => {
                    let k = r.us(lo, hi);
                    p = make_prog(r, &mut m, k, len);
                    note("a new program");
                }
                1 => {
                    p = r.pick(&hist).clone();
                    note("back to an earlier program");
                }
                _ => {
                    for _ in 0..r.us(1, if large { 12 } else { 3 }) {
                        let mut t = vec![];
                        note(edit(r, &mut m, &mut p, &mut t));
                    }
                }
            }
            changes += (old != p) as usize;
        }
        hist.push(p.clone());
        let text = shuffled(r, &p).text();
        note(format!("update {s} (rate {}, block {N}):\n{text}", cfg.sr));
        desc += &text;
        desc.push('\n');
        must_text(&mut e, &text)?;
        rep.count("updates", 1);
        if s + 1 == steps || r.chance(if large { 0.1 } else { 0.4 }) {
            loud |= against_fresh(rep, r, &cfg, &mut e, &p)?;
        } else {
            for _ in 0..r.below(4) {
                let (a, b) = input::<N>(r);
                render(&mut e, &a, &b);
            }
        }
    }
    Ok(Obs::new(desc, changes >= 2 && loud))
}

fn against_fresh<const N: usize>(rep: &Rep, r: &mut Rng, cfg: &Cfg, e: &mut Engine<N>, p: &Prog) -> Result<bool, String> {
    let mut f = engine::<N>(cfg);
    must(&mut f, p)?;
    let (a, b) = (e.context.graph.node_count(), f.context.graph.node_count());
    if a != b {
        return Err(format!("the session has {a} nodes in its graph, a new engine has {b} for the same program"));
    }
    for _ in 0..memory(p, cfg.sr) / N + 2 {
        let (a, b) = input::<N>(r);
        render(e, &a, &b);
        render(&mut f, &a, &b);
    }
    let mut pk = 0f32;
    for b in 0..3 {
        let (x, y) = input::<N>(r);
        let (s, t) = (render(e, &x, &y), render(&mut f, &x, &y));
        same("session against a new engine with the same program", b, &s, &t, 2e-5 + rounding(&f))?;
        pk = pk.max(peak(&t));
    }
    rep.count("comparisons", 1);
    Ok(pk > 0.)
}

/// the output of the last node of a chain
pub fn chain_end<const N: usize>(e: &Engine<N>, name: &str) -> Result<Vec<Vec<f32>>, String> {
    let idx = e.index_info.get(name).and_then(|c| c.last()).ok_or_else(|| format!("chain {name} is missing in the engine"))?;
    let nd = e.context.graph.node_weight(*idx).ok_or_else(|| format!("the end of chain {name} is not in the graph"))?;
    Ok(nd.buffers.iter().map(|b| b.to_vec()).collect())
}

fn same_bits(what: &str, a: &[Vec<f32>], b: &[Vec<f32>]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{what}: {} channels against {}", a.len(), b.len()));
    }
    for (c, (x, y)) in a.iter().zip(b).enumerate() {
        for (i, (x, y)) in x.iter().zip(y).enumerate() {
            if x != y && !(x.is_nan() && y.is_nan()) {
                return Err(format!("{what}: sample {i}, channel {c}: {x} against {y}"));
            }
        }
    }
    Ok(())
}

pub fn c02(rep: &Rep) {
    rep.rule(
        "part twin: a case is a session of random updates next to an engine that keeps the first program; the ends of all chains that no update touched, directly or through references, are compared in every block; \
         part kept: a case is a session whose nodes are all judged by reference models that keep their state exactly for nodes kept in place; \
         a case counts when an update changed the program while an untouched or edited chain was sounding; sessions are distinct by their texts",
    );
    rep.assume("a chain that no audible chain reaches is not rendered and rests; it is compared only while it was always reached");
    rep.assume("in part kept the nodes of a chain differ in their text and are not reordered, so that it is plain which one is kept");
    rep.cases("twin", rep.n(20000, 500000), rep.n(12, 240), |r, _| match r.below(3) {
        0 => c02_twin::<16>(rep, r, false),
        1 => c02_twin::<64>(rep, r, false),
        _ => c02_twin::<128>(rep, r, false),
    });
    rep.cases("twin-long", rep.n(60, 2000), rep.n(4, 60), |r, _| c02_twin::<128>(rep, r, true));
    rep.cases("kept-long", rep.n(60, 2000), rep.n(4, 60), |r, _| c02_kept::<500>(rep, r, true));
    rep.cases("kept", rep.n(20000, 500000), rep.n(12, 240), |r, _| match r.below(3) {
        0 => c02_kept::<16>(rep, r, false),
        1 => c02_kept::<64>(rep, r, false),
        _ => c02_kept::<128>(rep, r, false),
    });
    rep.require("untouched_chain_blocks", 10000);
    rep.require("node_blocks_judged", 10000);
    rep.require("updates", 2000);
}

fn c02_twin<const N: usize>(rep: &Rep, r: &mut Rng, long: bool) -> Case {
    let cfg = if long { Cfg::slow(r) } else { Cfg::random(r) };
    let mut m = Stateful { cfg: cfg.clone(), deny: vec![], allow: vec![], movable: true };
    let (k, len) = if r.chance(0.02) { (2, *r.pick(&[40, 80])) } else { (r.us(2, 5), 4) };
    let first = make_prog(r, &mut m, k, len);
    let mut p = first.clone();
    let text = p.text();
    note(format!("rate {}, tempo {:?}, block {N}\n{text}", cfg.sr, cfg.bpms));
    let mut desc = text.clone();
    let (mut e, mut f) = (engine::<N>(&cfg), engine::<N>(&cfg));
    must_text(&mut e, &text)?;
    must_text(&mut f, &text)?;
    let mut touched: Vec<String> = vec![];
    let reach0 = first.reachable();
    let mut rested: Vec<String> = vec![];
    let (mut changed, mut loud) = (false, false);
    let blocks = if long { r.us(40000, 140000) } else { r.us(1500, 6000) } / N + 4;
    let mut edits = if long { r.us(3, 25) } else { r.us(1, 5) };
    for b in 0..blocks {
        if edits > 0 && b > 0 && r.chance(2. * (edits as f64) / blocks as f64) {
            edits -= 1;
            let old = p.clone();
            for _ in 0..r.us(1, 2) {
                let before: Vec<String> = touched.clone();
                let mut t = vec![];
                let mut q = p.clone();
                let what = edit(r, &mut m, &mut q, &mut t);
                let mut all = before;
                all.extend(t);
                // leave something to observe
                if untouched(&first, &all).iter().any(|n| reach0.contains(n)) {
                    p = q;
                    touched = all;
                    note(what);
                }
            }
            let text = shuffled(r, &p).text();
            note(format!("block {b}: update\n{text}"));
            desc += &text;
            must_text(&mut e, &text)?;
            rep.count("updates", 1);
            changed |= old != p;
            let now = p.reachable();
            rested.extend(reach0.iter().filter(|n| !now.contains(n)).cloned());
        }
        if r.chance(0.02) {
            let t = *r.pick(&cfg.bpms);
            note(format!("block {b}: tempo {t}"));
            e.set_bpm(t);
            f.set_bpm(t);
        }
        let (x, y) = input::<N>(r);
        render(&mut e, &x, &y);
        render(&mut f, &x, &y);
        for name in untouched(&first, &touched) {
            if !reach0.contains(&name) || rested.contains(&name) {
                continue;
            }
            let (s, t) = (chain_end(&e, &name)?, chain_end(&f, &name)?);
            same_bits(&format!("block {b}: chain {name}, which no update touched, against the engine without updates"), &s, &t)?;
            rep.count("untouched_chain_blocks", 1);
            loud |= changed && s[0].iter().any(|x| *x != 0.);
        }
    }
    Ok(Obs::new(desc, changed && loud))
}

fn distinct(p: &Prog) -> bool {
    p.chains.iter().all(|(_, c)| (0..c.len()).all(|i| (0..i).all(|j| c[i] != c[j])))
}

/// the nodes both versions of a chain have in common stand in the same order
fn in_order(old: &Prog, new: &Prog) -> bool {
    new.chains.iter().all(|(name, c)| {
        let Some(o) = old.get(name) else { return true };
        crate::shadow::lcs(o, c).len() == c.iter().filter(|n| o.contains(n)).count()
    })
}

fn c02_kept<const N: usize>(rep: &Rep, r: &mut Rng, long: bool) -> Case {
    let cfg = if long { Cfg::slow(r) } else { Cfg::random(r) };
    let mut m = Stateful { cfg: cfg.clone(), deny: vec![], allow: super::models::ALL_MODELLED.to_vec(), movable: false };
    let (k, len) = if r.chance(0.02) { (r.us(1, 2), *r.pick(&[30, 75])) } else { (r.us(1, 4), 4) };
    let mut p = loop {
        let mut p = make_prog(r, &mut m, k, len);
        if len > 4 {
            for (_, c) in p.chains.iter_mut() {
                *c = c.iter().enumerate().filter(|(i, n)| !c[..*i].contains(n)).map(|(_, n)| n.clone()).collect();
            }
        }
        if distinct(&p) && sane(&p) {
            break p;
        }
    };
    let mut e = engine::<N>(&cfg);
    let mut mon = crate::shadow::Monitor::new(&cfg);
    note(format!("rate {}, tempo {:?}, seed {}, block {N}\n{}", cfg.sr, cfg.bpms, cfg.seed, p.text()));
    let mut desc = p.text();
    must(&mut e, &p)?;
    mon.update(&p);
    let blocks = if long { r.us(40000, 140000) } else { r.us(1500, 6000) } / N + 4;
    let mut edits = if long { r.us(3, 25) } else { r.us(1, 5) };
    let mut changed = false;
    rep.maxi("longest_chain", p.chains.iter().map(|c| c.1.len()).max().unwrap_or(0) as u64);
    for b in 0..blocks {
        if edits > 0 && b > 0 && r.chance(2. * (edits as f64) / blocks as f64) {
            edits -= 1;
            let old = p.clone();
            for _ in 0..r.us(1, 2) {
                let mut q = p.clone();
                let what = edit(r, &mut m, &mut q, &mut vec![]);
                if distinct(&q) && in_order(&old, &q) {
                    p = q;
                    note(what);
                }
            }
            let text = shuffled(r, &p);
            note(format!("block {b}: update\n{}", text.text()));
            desc += &text.text();
            must(&mut e, &text)?;
            mon.update(&text);
            rep.count("updates", 1);
            changed |= old != p;
        }
        let (x, y) = input::<N>(r);
        render(&mut e, &x, &y);
        mon.check(&e)?;
    }
    rep.count("node_blocks_judged", mon.nodes_checked);
    for k in &mon.kinds {
        rep.count(&format!("nodes_{k}"), 1);
    }
    Ok(Obs::new(desc, changed && mon.peak > 0.))
}

pub fn c03(rep: &Rep) {
    rep.rule(
        "a case is a session with updates, messages and tempo changes given to two engines, one of which also gets rejected updates of every kind; \
         the ends of all rendered chains, the output and the node population are compared in every block; \
         it counts when at least one update was rejected and sound followed; sessions are distinct by their texts and faults",
    );
    rep.cases("session", rep.n(50000, 1500000), rep.n(20, 400), |r, _| match r.below(3) {
        0 => c03_case::<16>(rep, r),
        1 => c03_case::<64>(rep, r),
        _ => c03_case::<128>(rep, r),
    });
    for k in ["rejected_syntax", "rejected_reference", "rejected_sample"] {
        rep.require(k, 300);
    }
}

/// A variant of a program that must be rejected, or a text that will probably be.
pub fn spoil(r: &mut Rng, m: &mut dyn Maker, p: &Prog) -> String {
    let mut q = p.clone();
    for _ in 0..r.below(4) {
        edit(r, m, &mut q, &mut vec![]);
    }
    let k = r.below(q.chains.len());
    let at = r.us(1, q.chains[k].1.len());
    match r.below(9) {
        0 => q.chains[k].1.insert(at, Nd::Mul(P::R("~nope".into()))),
        1 => q.chains[k].1.insert(at, Nd::Add(P::R("nope..".into()))),
        2 => {
            // a chain goes, its users stay
            let n = q.chains.remove(k).0;
            if q.chains.is_empty() {
                q.chains.push(("zz".into(), vec![Nd::Get(n)]));
            } else {
                let j = r.below(q.chains.len());
                q.chains[j].1.push(Nd::Mul(P::R(n)));
            }
        }
        3 => q.chains[k].1.insert(at, Nd::Sp("\\nope".into())),
        4 => q.chains.push(("zz".into(), vec![Nd::PSampler(vec![("\\kick".into(), 0.), ("'no_pe'".into(), 0.5)], None)])),
        5 => q.chains.push(("~zz".into(), vec![Nd::Sin(P::N(3.)), Nd::Mul(P::R("~nope".into())), Nd::Sp("'nope'".into())])),
        _ => {
            let t = q.text();
            loop {
                let g = garble(r, &t);
                if glicol_parser::get_ast(&g).is_err() {
                    return g;
                }
            }
        }
    }
    shuffled(r, &q).text()
}

/// break the spelling somewhere
pub fn garble(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..r.us(1, 3) {
        if c.is_empty() {
            break;
        }
        let i = r.below(c.len());
        match r.below(6) {
            0 => {
                c.remove(i);
            }
            1 => c.insert(i, *r.pick(&['>', ':', '~', '"', '`', '@', '(', '-', '.', 'é', ';', '[', '0', 'x', '\n', '/'])),
            2 => c.truncate(i),
            3 => c[i] = *r.pick(&['>', ':', '~', '"', ' ', '$', 'S', '.']),
            4 => {
                let w = *r.pick(&[" >> >> ", " sine 440 ", "::", ">> nothing", "\no: ", "mul mul"]);
                for (k, x) in w.chars().enumerate() {
                    c.insert(i + k, x);
                }
            }
            _ => {
                let j = r.below(c.len());
                c.swap(i, j);
            }
        }
    }
    c.into_iter().collect()
}

pub fn message(r: &mut Rng, p: &Prog) -> String {
    let (n, c) = r.pick(&p.chains);
    let v = match r.below(4) {
        0 => r.dec(0., 5000., 1),
        1 => r.dec(-1., 1., 2),
        _ => r.dec(0., 1., 3),
    };
    format!("{n},{},{},{v}", r.us(0, c.len()), r.us(0, 3))
}

fn c03_case<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let mut m = Stateful { cfg: cfg.clone(), deny: vec!["plate"], allow: vec![], movable: true };
    let k = r.us(1, 4);
    let mut p = make_prog(r, &mut m, k, 3);
    let (mut e, mut f) = (engine::<N>(&cfg), engine::<N>(&cfg));
    note(format!("rate {}, tempo {:?}, block {N}", cfg.sr, cfg.bpms));
    let mut desc = String::new();
    // sometimes the first thing the engine sees is a bad text
    let mut started = false;
    let (mut rejected, mut loud) = (0, false);
    let blocks = r.us(800, 3000) / N + 6;
    for b in 0..blocks {
        let x = r.below(12);
        if !started && (b > 1 || x > 5) || started && x == 0 {
            if started {
                for _ in 0..r.us(1, 3) {
                    note(edit(r, &mut m, &mut p, &mut vec![]));
                }
            }
            started = true;
            let t = shuffled(r, &p).text();
            note(format!("block {b}: update\n{t}"));
            desc += &t;
            must_text(&mut f, &t)?;
            must_text(&mut e, &t).map_err(|x| format!("after {rejected} rejected updates {x}"))?;
        } else if x <= 2 {
            let bad = spoil(r, &mut m, &p);
            match e.update_with_code(&bad) {
                Err(x) => {
                    rejected += 1;
                    rep.count(
                        match x {
                            glicol::EngineError::ParsingError(_) => "rejected_syntax",
                            glicol::EngineError::NonExistReference(_) => "rejected_reference",
                            glicol::EngineError::NonExistSample(_) => "rejected_sample",
                        },
                        1,
                    );
                    note(format!("block {b}: rejected update\n{bad}"));
                    desc += &bad;
                }
                Ok(()) => {
                    // what may be accepted is the subject of another check
                    rep.count("not_rejected", 1);
                    return Ok(Obs::new("not rejected", false));
                }
            }
        } else if x == 3 && started {
            let s = message(r, &p);
            note(format!("block {b}: message {s}"));
            e.send_msg(&s);
            f.send_msg(&s);
        } else if x == 4 {
            let t = *r.pick(&cfg.bpms);
            note(format!("block {b}: tempo {t}"));
            e.set_bpm(t);
            f.set_bpm(t);
        }
        let (x, y) = input::<N>(r);
        let (s, t) = (render(&mut e, &x, &y), render(&mut f, &x, &y));
        let what = "session with rejected updates against one without";
        let (a, c) = (e.context.graph.node_count(), f.context.graph.node_count());
        if a != c {
            return Err(format!("{what}: block {b}: {a} nodes against {c}"));
        }
        if e.index_info.len() != f.index_info.len() {
            return Err(format!("{what}: block {b}: {} chains against {}", e.index_info.len(), f.index_info.len()));
        }
        for name in f.index_info.keys() {
            same_bits(&format!("{what}: block {b}: end of chain {name}"), &chain_end(&e, name)?, &chain_end(&f, name)?)?;
        }
        same(what, b, &s, &t, 1e-6 + rounding(&f))?;
        loud |= rejected > 0 && peak(&s) > 0.;
    }
    rep.count("rejected", rejected);
    Ok(Obs::new(desc, loud))
}
