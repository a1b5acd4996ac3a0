//! C25: memory safety. This check is run in a build with the address sanitizer, whose reports end the process;
//! the supervising process then attributes them to the case. Smaller sessions are written to files for the interpreter.

use super::crash::{any_prog, fit, harmless, kinds, session, wild_message};
use super::text::{fits, wild_text, Wide};
use crate::edit::*;
use crate::gen::*;
use crate::prog::*;
use crate::rep::*;
use crate::rng::Rng;
use crate::script::*;
use crate::session::*;

pub fn c25(rep: &Rep) {
    rep.rule(
        "the address sanitizer watches: wild runs sessions of any accepted and rejected texts, messages and tempo changes that ignore musical sense; \
         live runs long sessions with edits, rejected updates and resets; read parses texts near and far from programs; \
         graph drives contexts and processors directly; bridge calls the browser's entry points; an interpreter for undefined behaviour then runs small sessions that together use every node, with 0, 1 or 2 input channels; \
         cases are distinct by their texts; a case counts when a program was accepted and rendered, or a text parsed",
    );
    rep.assume("a panic is not an unsafe access; panics are the subject of other checks");
    rep.cases("wild", rep.n(6_000, 300_000), rep.n(25, 400), |r, _| {
        let c = match r.below(4) {
            0 => session::<2>(rep, r),
            1 => session::<16>(rep, r),
            2 => session::<128>(rep, r),
            _ => session::<75>(rep, r),
        };
        Ok(c.unwrap_or_else(|_| {
            rep.count("panics", 1);
            Obs::new("", false)
        }))
    });
    rep.cases("live", rep.n(2_000, 100_000), rep.n(25, 400), |r, _| match r.below(2) {
        0 => live::<16>(rep, r),
        _ => live::<64>(rep, r),
    });
    rep.cases("read", rep.n(15_000, 600_000), rep.n(15, 200), |r, _| {
        let t = if r.chance(0.5) {
            wild_text(r)
        } else {
            let p = any_prog(r);
            let t = p.text();
            super::live::garble(r, &t)
        };
        note(&t);
        let ok = guard(|| glicol_parser::get_ast(&t).is_ok());
        rep.count("read", 1);
        Ok(Obs::new(t, ok.is_ok()))
    });
    let quiet = |c: Case| {
        Ok(c.unwrap_or_else(|_| {
            rep.count("not_judged", 1);
            Obs::new("", false)
        }))
    };
    rep.cases("graph", rep.n(6_000, 300_000), rep.n(10, 100), |r, _| {
        quiet(match r.below(4) {
            0 => super::graph::context::<1>(rep, r),
            1 => super::graph::context::<64>(rep, r),
            2 => super::graph::raw_stable(rep, r),
            _ => super::graph::raw_plain(rep, r),
        })
    });
    rep.cases("bridge", rep.n(300, 10_000), rep.n(10, 100), |r, _| {
        let _turn = super::wasm::TURN.lock().unwrap_or_else(|e| e.into_inner());
        quiet(super::wasm::session(rep, r))
    });
    rep.require("accepted", 1000);
    rep.require("live_blocks", 5000);
}

fn live<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let mut m = Stateful { cfg, deny: vec![], allow: vec![], movable: true };
    let n = r.us(800, 3000) / N * N;
    let (s, _) = Script::random(r, &mut m, n, N, Kinds::ALL);
    let s = s.noted();
    let mut e = glicol::Engine::<N>::new();
    let out = guard(|| {
        // the second time around the engine has been reset or replaced
        for round in 0..2 {
            let mut p = Player::new(std::mem::replace(&mut e, glicol::Engine::new()), &s);
            while p.step() {
                rep.count("live_blocks", 1);
            }
            e = p.e;
            if round == 0 {
                e.reset();
            }
        }
    });
    Ok(Obs::new(s.show(), out.is_ok()))
}

/// Small sessions for an interpreter that is ten thousand times slower, one record per call.
pub fn corpus(file: &str, seed: u64, n: u64) {
    use std::fmt::Write;
    let k = kinds();
    let mut all = String::new();
    for c in 0..n {
        let mut r = Rng::new(seed, "corpus", c);
        let r = &mut r;
        let mut put = |op: char, t: &str| write!(all, "{op} {}\n{t}\n", t.len()).unwrap();
        put('N', &c.to_string());
        let names: Vec<String> = ["o", "~a", "~input"].iter().map(|s| s.to_string()).collect();
        let two = r.chance(0.5);
        let names = if two { names } else { vec!["o".to_string(), "~input".into()] };
        let mut p = Prog::default();
        for round in 0..r.us(1, 2) {
            if round == 0 || r.chance(0.5) {
                // the c-th kind of node, so that all are used
                let one = loop {
                    let x = Wide.node(r);
                    if x.name() == k[(c % k.len() as u64) as usize] {
                        break x;
                    }
                };
                let mut first = vec![fit(r, one, &names)];
                for _ in 0..r.below(2) {
                    let x = Wide.node(r);
                    let at = r.below(2).min(first.len());
                    first.insert(at, fit(r, x, &names));
                }
                p = Prog { chains: vec![("o".into(), first)] };
                if two {
                    let x = Wide.node(r);
                    p.chains.push(("~a".into(), vec![fit(r, x, &names)]));
                }
            } else {
                p.chains[0].1.push(Nd::Mul(P::N(0.5)));
            }
            let t = p.text();
            if !fits(&t, 44100) || t.len() > 400 {
                continue;
            }
            put('U', &t);
            put('R', &r.us(1, 3).to_string());
            if r.chance(0.4) {
                let m = wild_message(r, Some(&p));
                if harmless(&m) {
                    put('M', &m);
                    put('R', "1");
                }
            }
            if r.chance(0.2) {
                put('B', "90");
                put('R', "1");
            }
            if r.chance(0.2) {
                let t = super::live::garble(r, &t);
                if fits(&t, 44100) {
                    put('U', &t);
                    put('R', "1");
                }
            }
        }
        if r.chance(0.2) {
            put('X', "");
            put('R', "1");
        }
        put('E', "");
    }
    std::fs::write(file, all).expect("corpus file");
}
