//! C07: accepted programs render without crashing.

use super::text::{fits, signature, wild_num, wild_text, Wide, UNSUPPORTED};
use crate::gen::*;
use crate::prog::*;
use crate::rep::*;
use crate::rng::Rng;
use crate::session::*;
use glicol::{Engine, EngineError};

pub fn c07(rep: &Rep) {
    rep.rule(
        "a case is a session: accepted programs from a generator that ignores musical sense (any node anywhere, feedback, degenerate and huge numbers), rendered with 0, 1 or 2 input channels \
         between wild messages, tempo changes and updates; sessions are distinct by their texts; a case counts when a program was accepted and at least ten blocks were rendered",
    );
    rep.assume("delay lines fit in memory (less than 4 million samples per program); noise seeds stay below 2^40; scripts terminate; the tempo is positive and the block holds at least two samples");
    super::text::probe_unsupported(rep);
    let k = kinds();
    let all = k.len() as u64;
    rep.cases("pairs", all * all, rep.n(20, 60), |r, c| {
        let (a, b) = (k[(c / all) as usize], k[(c % all) as usize]);
        pair::<32>(rep, r, a, b)
    });
    rep.cases("random", rep.n(25_000, 1_200_000), rep.n(20, 900), |r, _| match r.below(4) {
        0 => session::<2>(rep, r),
        1 => session::<16>(rep, r),
        2 => session::<128>(rep, r),
        _ => session::<75>(rep, r),
    });
    rep.require("accepted", 5000);
    rep.require("messages", 5000);
}

pub fn kinds() -> Vec<&'static str> {
    let mut r = Rng::new(1, "kinds", 0);
    let mut v: Vec<&'static str> = vec![];
    for _ in 0..5000 {
        let n = Wide.node(&mut r).name();
        if !v.contains(&n) {
            v.push(n);
        }
    }
    v.sort();
    v
}

/// make a node acceptable: references to chains that exist, registered samples, delays that fit
pub fn fit(r: &mut Rng, n: Nd, names: &[String]) -> Nd {
    let choices: Vec<String> = names.to_vec();
    let pick = std::cell::RefCell::new(r.fork());
    let mut n = if matches!(n, Nd::Seq(_)) { n } else { n.map_refs(&|x| {
        let mut q = pick.borrow_mut();
        let t = q.pick(&choices).clone();
        if x.ends_with("..") && q.chance(0.5) {
            return format!("{}..", &t[..if t.starts_with(['~', '_']) { 2 } else { 1 }]);
        }
        t
    }) };
    if let Nd::Seq(gs) = &mut n {
        // note references are one letter long
        let short: Vec<char> = names.iter().filter(|n| n.len() == 2 && n.starts_with('~')).map(|n| n.chars().nth(1).unwrap()).collect();
        for x in gs.iter_mut().flatten() {
            if let Note::R(c) = x {
                match short.is_empty() {
                    true => *x = Note::Rest,
                    false => *c = *r.pick(&short),
                }
            }
        }
    }
    let pool: Vec<String> = sample_names();
    match &mut n {
        Nd::Sp(s) => *s = r.pick(&pool).clone(),
        Nd::PSampler(es, _) => es.iter_mut().for_each(|e| e.0 = r.pick(&pool).clone()),
        Nd::DelayN(x) => *x %= 5000,
        Nd::DelayMs(P::N(x)) | Nd::Apf(P::N(x), _) => *x = x.min(400.),
        Nd::Meta(c) => {
            *c = r
                .pick(&["[1.0]", "let a = 3.0; [a, a]", "[]", "x", "output", "let v = []; v.push(0.5); v", "input", "throw 1", "42", "[1, 2]", "\"s\"", "(", "let n = 0; n += 1; [n * 1.0]"])
                .to_string()
        }
        _ => {}
    }
    n
}

pub fn any_prog(r: &mut Rng) -> Prog {
    let names: Vec<String> = r.pick(&[vec!["o"], vec!["o", "~a"], vec!["o", "~a", "~b"], vec!["~a", "x1", "y"], vec!["~q", "_z", "~a", "out"]]).iter().map(|s| s.to_string()).collect();
    let mut refs = names.clone();
    refs.push("~input".into());
    let mut p = Prog::default();
    for n in &names {
        let c = (0..r.us(1, 4))
            .map(|_| {
                let n = Wide.node(r);
                fit(r, n, &refs)
            })
            .collect();
        p.chains.push((n.clone(), c));
    }
    p
}

pub fn wild_message(r: &mut Rng, p: Option<&Prog>) -> String {
    match r.below(7) {
        6 => {
            // every field on its own: there, not there, or not of its kind
            let c = match p {
                Some(p) if r.chance(0.6) => r.pick(&p.chains).0.clone(),
                _ => r.pick(&["o", "~a", "~nope", "~input", "", "~", "é", "O", "~a..", "_x", "nope"]).to_string(),
            };
            let at = |r: &mut Rng| match r.below(3) {
                0 => r.below(6).to_string(),
                1 => format!("-{}", r.below(9)),
                _ => r.pick(&["", "x", "1.5", "+1", "255", "256", "-0", "1e1", "0x1", "４", "18446744073709551615", "18446744073709551616", "--1"]).to_string(),
            };
            let (i, j) = (at(r), at(r));
            let mut m = format!("{c},{i},{j},{}", wild_num(r));
            if r.chance(0.2) {
                m += r.pick(&[",", ";", ",1", ";;", ";o", " ; ,"]);
            }
            m
        }
        0 => r
            .pick(&["", ";", ",,,", "o", "o,0", "o,0,0", "o,0,0,", ",0,0,1", "o,-1,0,3", "o,0,256,3", "o,99999999999999999999,0,1", "o,0,0,1,2", "é,0,0,1", "o,0,0,1;", ";;o,0,0,2"])
            .to_string(),
        1 => format!("o,{},{},{}", r.below(5), r.below(5), r.pick(&["\\kick", "\\nope", "abc", "0=>60", "1=>", "=>", "0.1=>200", "-1=>3", "nan", "inf", "é"])),
        _ => {
            let mut v = vec![];
            for _ in 0..r.us(1, 3) {
                let c = match p {
                    Some(p) => r.pick(&p.chains).0.clone(),
                    None => "o".into(),
                };
                v.push(format!("{c}, {}, {}, {}", r.below(4), r.below(4), wild_num(r)));
            }
            v.join(";")
        }
    }
}

/// may this message ask for a delay line too long for memory?
pub fn harmless(s: &str) -> bool {
    s.split(';').all(|m| m.split(',').nth(3).and_then(|v| v.trim().parse::<f32>().ok()).map_or(true, |v| v.abs() < 1e4 || v.is_nan()))
}

fn pair<const N: usize>(rep: &Rep, r: &mut Rng, a: &str, b: &str) -> Case {
    let find = |r: &mut Rng, k: &str| loop {
        let n = Wide.node(r);
        if n.name() == k {
            return n;
        }
    };
    let names: Vec<String> = ["o", "~a", "~input"].iter().map(|s| s.to_string()).collect();
    let mut desc = String::new();
    for _ in 0..3 {
        let (x, y, z) = (find(r, a), find(r, b), find(r, b));
        let p = Prog { chains: vec![("o".into(), vec![fit(r, x, &names), fit(r, y, &names)]), ("~a".into(), vec![fit(r, z, &names)])] };
        let t = p.text();
        desc += &t;
        note(&t);
        let mut e = Engine::<N>::new();
        register(&mut e);
        match guard(|| e.update_with_code(&t)) {
            Err(i) => return Err(format!("submitting panics at {}: {}", i.loc, i.msg)),
            Ok(Err(x)) => return Err(format!("a generated program is rejected: {x:?}")),
            Ok(Ok(())) => rep.count("accepted", 1),
        }
        if let Err(i) = guard(|| {
            for b in 0..20 {
                let (x, y) = input::<N>(r);
                render(&mut e, &x, &y);
                if b == 10 {
                    e.set_bpm(90.);
                }
            }
        }) {
            return Err(format!("rendering panics at {}: {}", i.loc, i.msg));
        }
    }
    Ok(Obs::new(desc, true))
}

pub fn session<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let sr = *r.pick(&[44100usize, 48000, 22050, 8000, 96000]);
    let mut e = Engine::<N>::new();
    register(&mut e);
    e.set_sr(sr);
    note(format!("rate {sr}, block {N}"));
    let mut prog: Option<Prog> = None;
    let mut desc = String::new();
    let mut rendered = 0;
    let left = r.us(600, 4000) / N + 12;
    for b in 0..left {
        if prog.is_none() || r.chance(0.06) {
            let text = match r.below(4) {
                0 => {
                    let cfg = Cfg::random(r);
                    let k = r.us(1, 4);
                    let p = Gen::new(r, cfg).program(k, 4);
                    let t = p.text();
                    prog = Some(p);
                    t
                }
                1 if prog.is_some() => wild_text(r),
                _ => {
                    let p = any_prog(r);
                    let t = p.text();
                    prog = Some(p);
                    t
                }
            };
            if fits(&text, sr) {
                note(format!("block {b}: update\n{text}"));
                match guard(|| e.update_with_code(&text)) {
                    Err(i) if rep.known_hit(&signature(&i)) => return Ok(Obs::new(UNSUPPORTED[0], false)),
                    Err(i) => return Err(format!("submitting panics at {}: {}", i.loc, i.msg)),
                    Ok(Ok(())) => {
                        rep.count("accepted", 1);
                        desc += &text;
                    }
                    Ok(Err(EngineError::ParsingError(_))) => rep.count("not_a_program", 1),
                    Ok(Err(_)) => rep.count("missing_names", 1),
                }
            }
        }
        if r.chance(0.25) {
            let m = wild_message(r, prog.as_ref());
            if harmless(&m) {
                note(format!("block {b}: message {m:?}"));
                rep.count("messages", 1);
                if let Err(i) = guard(|| e.send_msg(&m)) {
                    return Err(format!("a message panics at {}: {}", i.loc, i.msg));
                }
            }
        }
        if r.chance(0.05) {
            let t = *r.pick(&[0.5f32, 30., 60., 120., 133.7, 999., 20000., 1e6]);
            note(format!("block {b}: tempo {t}"));
            if let Err(i) = guard(|| e.set_bpm(t)) {
                return Err(format!("a tempo change panics at {}: {}", i.loc, i.msg));
            }
        }
        let ch = r.below(3);
        let (x, y) = input::<N>(r);
        let io: Vec<&[f32]> = match ch {
            0 => vec![],
            1 => vec![&x[..]],
            _ => vec![&x[..], &y[..]],
        };
        match guard(|| e.next_block(io).len()) {
            Err(i) => return Err(format!("rendering block {b} with {ch} input channels panics at {}: {}", i.loc, i.msg)),
            Ok(2) => rendered += 1,
            Ok(n) => return Err(format!("block {b} has {n} channels")),
        }
    }
    rep.count("blocks", rendered);
    Ok(Obs::new(desc.clone(), !desc.is_empty() && rendered >= 10))
}
