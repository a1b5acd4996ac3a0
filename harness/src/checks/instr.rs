//! C19: instruments against the patches they stand for.

use super::models::{run_part, Focus};
use crate::gen::*;
use crate::prog::*;
use crate::rep::*;
use crate::rng::Rng;
use crate::session::*;

const PSYNTH: Focus = Focus { id: "C19", on: &["psynth"], with: &["mul", "add", "sig", "sin"], rule: "" };

pub fn c19(rep: &Rep) {
    rep.rule(
        "part patch: a case is an instrument and its patch in two engines, given the same triggers, parameters, parameter messages, tempo changes and updates elsewhere, compared sample by sample; \
         part program: pattern synths judged by a reference model; cases are distinct by text and messages; a case counts when it sounded",
    );
    rep.assume("sample rates at which the cutoff of the hi-hat is below half the rate");
    rep.cases("patch", rep.n(15_000, 400_000), rep.n(15, 300), |r, _| match r.below(3) {
        0 => patch::<16>(rep, r),
        1 => patch::<64>(rep, r),
        _ => patch::<128>(rep, r),
    });
    run_part(rep, &PSYNTH, rep.n(8_000, 200_000), rep.n(12, 200));
    for k in KINDS {
        rep.require(&format!("sounded_{k}"), 100);
        rep.require(&format!("messages_{k}"), 50);
    }
    rep.require("nodes_psynth", 100);
}

const KINDS: [&str; 6] = ["bd", "sn", "hh", "sawsynth", "squsynth", "trisynth"];

/// the instrument, and its patch on the triggers of ~t
fn texts(kind: &str, a: &str, d: &str, tail: &str) -> (String, String) {
    let osc = |w: &str| {
        (
            format!("o: ~t >> {kind} {a} {d}{tail};\n"),
            format!("o: {w} ~p >> mul ~env{tail};\n~p: ~t >> mul 261.63;\n~env: ~t >> envperc {a} {d};\n"),
        )
    };
    match kind {
        "bd" => (
            format!("o: ~t >> bd {d}{tail};\n"),
            format!("o: sin ~p >> mul ~env{tail};\n~p: ~t >> envperc 0.01 0.1 >> mul 50 >> add 60;\n~env: ~t >> envperc 0.003 {d};\n"),
        ),
        "sn" => (
            format!("o: ~t >> sn {d}{tail};\n"),
            format!(
                "o: sin ~p >> add ~no >> mul ~env{tail};\n~no: noise 42 >> mul 0.3;\n~p: ~t >> envperc 0.001 0.1 >> mul 55 >> add 60;\n~env: ~t >> envperc 0.001 {d};\n"
            ),
        ),
        "hh" => (
            format!("o: ~t >> hh {d}{tail};\n"),
            format!("o: noise 42 >> hpf 15000 1 >> mul ~env{tail};\n~env: ~t >> envperc 0.003 {d};\n"),
        ),
        "sawsynth" => osc("saw"),
        "squsynth" => osc("squ"),
        _ => osc("tri"),
    }
}

fn patch<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let mut cfg = Cfg::random(r);
    let kind = *r.pick(&KINDS);
    // the cutoff of the hi-hat must be below half the rate
    if kind == "hh" && cfg.sr < 32000 {
        cfg.sr = 44100;
    }
    let time = |r: &mut Rng| match r.below(8) {
        0 => 0.,
        1 => r.dec(0.1, 2., 2),
        _ => r.dec(0.0005, 0.08, 4),
    };
    let (a, d) = (time(r).to_string(), time(r).to_string());
    let trig = match r.below(8) {
        0 => "~input".to_string(),
        1 => format!("imp {}", r.us(5, 600)),
        2 => format!("imp {} >> mul {}", r.us(5, 600), r.dec(0.1, 2., 2).to_string()),
        3 => format!("noise {} >> add -0.99", r.us(0, 999)),
        4 => format!("squ {}", r.us(10, 800)),
        _ => {
            let g: Vec<String> = (0..r.us(1, 4)).map(|_| (0..r.us(1, 3)).map(|_| if r.chance(0.3) { "_".to_string() } else { r.us(40, 90).to_string() }).collect::<Vec<_>>().join("_").replace("___", "__")).collect();
            let g: Vec<String> = g.into_iter().map(|x| if x.chars().all(|c| c == '_') { "60".into() } else { x }).collect();
            format!("speed {} >> seq {}", r.dec(0.5, 4., 1).to_string(), g.join(" "))
        }
    };
    let tail = match r.below(4) {
        0 => format!(" >> mul {}", r.dec(-1., 1., 2).to_string()),
        1 => format!(" >> pan {}", r.dec(-1., 1., 2).to_string()),
        2 => format!(" >> delayn {}", r.below(300)),
        _ => String::new(),
    };
    let (x, y) = texts(kind, &a, &d, &tail);
    let (x, y) = (format!("{x}~t: {trig};\n"), format!("{y}~t: {trig};\n"));
    note(format!("rate {}, tempo {:?}, block {N}\n{x}\nand\n{y}", cfg.sr, cfg.bpms));
    let (mut e, mut f) = (engine::<N>(&cfg), engine::<N>(&cfg));
    must_text(&mut e, &x)?;
    must_text(&mut f, &y)?;
    let mut sound = false;
    let mut desc = format!("{} {:?}{x}", cfg.sr, cfg.bpms);
    let mut extra = String::new();
    let total = r.us(1500, 9000) / N + 2;
    for b in 0..total {
        if r.chance(3. / total as f64) {
            let v = time(r);
            let which = if ["bd", "sn", "hh"].contains(&kind) { 1 } else { r.below(2) };
            let at = if which == 1 && ["bd", "sn", "hh"].contains(&kind) { 0 } else { which };
            let (m, n) = (format!("o,1,{at},{v}"), format!("~env,1,{which},{v}"));
            note(format!("block {b}: message {m} and {n}"));
            e.send_msg(&m);
            f.send_msg(&n);
            desc += &m;
            rep.count(&format!("messages_{kind}"), 1);
        }
        if r.chance(1. / total as f64) {
            let bpm = *r.pick(&cfg.bpms);
            e.set_bpm(bpm);
            f.set_bpm(bpm);
        }
        if r.chance(1. / total as f64) {
            // something else comes and goes
            extra = if extra.is_empty() { "z: sin 300 >> mul 0.1 >> bd 0.1;\n".into() } else { String::new() };
            note(format!("block {b}: update with {extra:?}"));
            let p = r.chance(0.5);
            must_text(&mut e, &if p { format!("{extra}{x}") } else { format!("{x}{extra}") })?;
            must_text(&mut f, &if p { format!("{extra}{y}") } else { format!("{y}{extra}") })?;
        }
        let (l, q) = input::<N>(r);
        let (s, t) = (render(&mut e, &l, &q), render(&mut f, &l, &q));
        same(&format!("{kind} against its patch"), b, &s, &t, 1e-5)?;
        sound |= peak(&s) > 0.;
    }
    if sound {
        rep.count(&format!("sounded_{kind}"), 1);
    }
    Ok(Obs::new(desc, sound))
}
