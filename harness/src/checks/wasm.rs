//! C27: the browser bridge against a directly driven engine.

use super::live::{message, spoil};
use crate::edit::*;
use crate::gen::*;
use crate::rep::*;
use crate::rng::Rng;
use crate::session::*;
use glicol::{Engine, EngineError};
use std::sync::Mutex;

/// the bridge keeps one engine for the whole process
pub static TURN: Mutex<()> = Mutex::new(());

pub fn c27(rep: &Rep) {
    rep.rule(
        "a case is a session of updates (accepted and rejected in every way), messages, samples, tempo, seed, rate, loudness, mode and reset calls \
         and blocks of several sizes given to the bridge and to an engine driven directly; audio and replies are compared at every call; \
         a fifth of the sessions contain a call that fails inside the bridge; cases are distinct by what was called and count when sound came out",
    );
    rep.assume("the bridge is compiled for this machine rather than for a browser");
    rep.cases("session", rep.n(8000, 80_000), rep.n(40, 400), |r, _| {
        let _turn = TURN.lock().unwrap_or_else(|e| e.into_inner());
        session(rep, r)
    });
    for k in ["accepted", "rejected_syntax", "rejected_sample", "rejected_reference", "truncated", "failed_calls", "blocks"] {
        rep.require(k, 50);
    }
}

/// the reply to an update as the front end reads it
fn expected(e: &EngineError) -> (u8, String) {
    use pest::error::{ErrorVariant, InputLocation, LineColLocation};
    match e {
        EngineError::ParsingError(v) => {
            let at = match v.location {
                InputLocation::Pos(u) => u,
                InputLocation::Span((s, _)) => s,
            };
            let (line, col) = match v.line_col {
                LineColLocation::Pos(u) => u,
                LineColLocation::Span(u, _) => u,
            };
            let lists = match &v.variant {
                ErrorVariant::ParsingError { positives, negatives } => format!("positives{positives:?}, negatives{negatives:?}"),
                _ => String::new(),
            };
            (1, format!("pos[{at}], line[{line}], col[{col}], {lists}"))
        }
        EngineError::NonExistSample(n) => (2, format!("There is no sample named {n}")),
        EngineError::NonExistReference(n) => (3, format!("There is no reference named {n}")),
    }
}

fn update(rep: &Rep, e: &mut Engine<128>, t: &str) -> Result<bool, String> {
    let reply = unsafe { bridge::update(t.as_bytes()) };
    let v = e.update_with_code(t);
    if reply.len() != 256 {
        return Err(format!("a reply of {} bytes", reply.len()));
    }
    match v {
        Ok(()) => {
            if reply.iter().any(|b| *b != 0) {
                return Err(format!("an accepted program got the reply {} {:?}", reply[0], String::from_utf8_lossy(&reply[2..])));
            }
            rep.count("accepted", 1);
            Ok(true)
        }
        Err(x) => {
            let (kind, text) = expected(&x);
            rep.count(["", "rejected_syntax", "rejected_sample", "rejected_reference"][kind as usize], 1);
            let end = text.len().min(254);
            if text.len() > 254 {
                rep.count("truncated", 1);
            }
            let mut want = vec![0u8; 256];
            want[0] = kind;
            want[2..2 + end].copy_from_slice(&text.as_bytes()[..end]);
            // which of several missing things is named is open
            let same = if kind == 1 {
                reply == want
            } else {
                let rest = text.rsplit(' ').next().unwrap_or("").len();
                let k = (2 + text.len() - rest).min(256);
                reply == want || (reply[2..k] == want[2..k] && kind == reply[0] && missing(t, e, &reply[k..]))
                    || (reply[0] > 1 && reply[0] != kind && both(t))
            };
            if !same {
                return Err(format!(
                    "the engine says {kind} {text:?}, the bridge {} {:?}",
                    reply[0],
                    String::from_utf8_lossy(&reply[2..]).trim_end_matches('\0')
                ));
            }
            Ok(false)
        }
    }
}
/// Is this name (of the reply) one that the text uses and that does not exist?
fn missing(t: &str, e: &Engine<128>, name: &[u8]) -> bool {
    let n = String::from_utf8_lossy(name).trim_end_matches('\0').to_string();
    // the whole name, or as much of it as the reply can hold
    let part = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-';
    let whole = t.match_indices(&n).any(|(i, _)| !t[i + n.len()..].starts_with(part) || n.ends_with('\'') || n.len() == name.len());
    !n.is_empty() && whole && !e.samples_dict.contains_key(n.as_str()) && !t.lines().any(|l| l.trim_start().starts_with(&format!("{n}:")))
}
/// could both kinds of missing things be reported?
fn both(t: &str) -> bool {
    t.contains("nope'") && t.contains("~nope")
}

pub fn session(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let rate = if r.chance(0.1) { *r.pick(&[88200, 96000, 176400, 192000]) } else { cfg.sr };
    let mut m = Stateful { cfg: cfg.clone(), deny: vec!["plate"], allow: vec![], movable: true };
    let (k, len) = if r.chance(0.01) { (r.us(6, 30), 9) } else { (r.us(1, 3), 3) };
    let mut p = make_prog(r, &mut m, k, len);
    let mut e = Engine::<128>::new();
    bridge::reset();
    bridge::set_track_amp(1.);
    bridge::live_coding_mode(false);
    e.set_track_amp(1.);
    e.livecoding = false;
    let set = |e: &mut Engine<128>| {
        // the rate is kept when a bridge is reset
        bridge::set_sr(rate as f32);
        e.set_sr(rate);
        bridge::set_bpm(cfg.bpms[0]);
        e.set_bpm(cfg.bpms[0]);
        bridge::set_seed(cfg.seed as f32);
        e.set_seed(cfg.seed as f32 as usize);
        // the bridge keeps every sample it is ever given
        for s in pool().iter().filter(|s| s.data.len() < 10_000) {
            bridge::add_sample(s.name.into(), s.data.to_vec().into_boxed_slice(), s.ch, s.sr);
            e.add_sample(s.name, s.data, s.ch, s.sr);
        }
    };
    set(&mut e);
    let mut desc = String::new();
    let mut loud = false;
    let mut say = |s: String| {
        note(s.clone());
        desc += &s;
        desc += "\n";
    };
    say(format!("rate {}, tempo {:?}, seed {}", rate, cfg.bpms, cfg.seed));
    let t = p.text();
    say(t.clone());
    if !update(rep, &mut e, &t)? {
        return Err("a valid program was rejected".into());
    }
    let fails = r.chance(0.2);
    for _ in 0..r.us(4, 16) {
        match r.below(14) {
            0 | 1 | 2 => {
                for _ in 0..r.us(1, 3) {
                    edit(r, &mut m, &mut p, &mut vec![]);
                }
                let t = shuffled(r, &p).text();
                say(t.clone());
                update(rep, &mut e, &t)?;
            }
            3 | 4 => {
                let t = spoil(r, &mut m, &p);
                say(format!("bad\n{t}"));
                update(rep, &mut e, &t)?;
            }
            5 => {
                // replies around the fixed size
                let n = "x".repeat(r.us(200, 300));
                let t = match r.below(3) {
                    0 => format!("o: sin ~{n}"),
                    1 => format!("o: imp 1 >> sp \\{n}"),
                    _ => "o: sin 1 >> mul 1 >> \n\n".to_string(),
                };
                say(format!("bad\n{t}"));
                update(rep, &mut e, &t)?;
            }
            6 | 7 => {
                let s = message(r, &p);
                say(format!("message {s}"));
                bridge::send_msg(s.clone());
                e.send_msg(&s);
            }
            8 => {
                let b = if r.chance(0.2) { *r.pick(&[1f32, 4., 15., 19.5, 480., 999.]) } else { *r.pick(&cfg.bpms) };
                say(format!("tempo {b}"));
                bridge::set_bpm(b);
                e.set_bpm(b);
            }
            9 => {
                let a = r.f(0., 2.) as f32;
                say(format!("loudness {a}"));
                bridge::set_track_amp(a);
                e.set_track_amp(a);
            }
            10 => {
                let s = r.below(1 << 20);
                say(format!("seed {s}"));
                bridge::set_seed(s as f32 + 0.25);
                e.set_seed(s);
            }
            11 if r.chance(0.4) => {
                say("reset".into());
                bridge::reset();
                e.reset();
                set(&mut e);
                if r.chance(0.7) {
                    update(rep, &mut e, &p.text())?;
                }
            }
            11 => {
                // a sample of an existing or a new name
                let name = r.pick(&["\\kick", "'s_1'", "\\new", "\\new_", "\\a__1", "'odd_'", "\\808", "'1_2'"]).to_string();
                let (ch, sr) = (r.us(1, 2), *r.pick(&[22050, 44100, 48000]));
                let data: Vec<f32> = (0..ch * if r.chance(0.004) { r.us(60, 70000) } else { r.us(1, 60) }).map(|_| r.f(-1., 1.) as f32).collect();
                say(format!("sample {name} {ch} {sr} {:?}.. {}", &data[..data.len().min(60)], data.len()));
                bridge::add_sample(name.clone(), data.clone().into_boxed_slice(), ch, sr);
                e.add_sample(&name, Box::leak(data.into_boxed_slice()), ch, sr);
                let t = format!("{}zz: imp 300 >> sp {name}", p.text());
                update(rep, &mut e, &t)?;
            }
            12 => {
                let on = r.chance(0.5);
                say(format!("live coding {on}"));
                bridge::live_coding_mode(on);
                e.livecoding = on;
            }
            _ if fails => {
                say("a block that is too large".into());
                // the call fails after the engine has rendered
                if guard(|| bridge::process(2 * 128 + 2 * r.us(1, 9))).is_err() {
                    rep.count("failed_calls", 1);
                } else {
                    rep.count("large_blocks", 1);
                }
                e.next_block(vec![]);
            }
            _ => {}
        }
        for _ in 0..r.us(0, 4) {
            let size = if r.chance(0.85) { 256 } else { 2 * r.us(1, 128) };
            let out = bridge::process(size);
            let h = size / 2;
            let tol = 1e-6 + rounding(&e);
            let o = e.next_block(vec![]);
            if out.len() != size {
                return Err(format!("asked for {size} samples, got {}", out.len()));
            }
            let got = [out[..h].to_vec(), out[h..].to_vec()];
            let want = [o[0][..h].to_vec(), o[1][..h].to_vec()];
            let tol = tol.max(1e-6 + rounding(&e));
            same("the bridge and the engine differ", 0, &got, &want, tol)?;
            loud |= peak(&want) > 0.;
            rep.count("blocks", 1);
        }
    }
    Ok(Obs::new(desc, loud))
}
