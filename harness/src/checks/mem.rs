//! C26: memory and graph size, watched by a counting allocator.

use super::live::{message, spoil};
use super::mix::rich;
use crate::edit::*;
use crate::gen::*;
use crate::rep::*;
use crate::rng::Rng;
use crate::script::*;
use crate::session::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
/// Counts the bytes each thread holds.
pub struct Counting;
fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}
fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// Does what is held grow without end? `f(i)` does round i and says what is held after it.
/// Growth counts when everything seen in a late window exceeds everything seen in an earlier one,
/// four times in a row, with windows far enough apart for any growing container to have grown.
fn grows(first: usize, mut f: impl FnMut(usize) -> Result<i64, String>) -> Result<Option<String>, String> {
    let mut i = 0;
    let mut last: Option<i64> = None;
    // what is noted here must not itself take memory
    let mut seen = [(0i64, 0i64, 0usize, 0usize); 5];
    for w in 0..5 {
        let (from, to) = (first << (2 * w), first << (2 * w + 1));
        let (mut lo, mut hi) = (i64::MAX, i64::MIN);
        while i < to {
            let b = f(i)?;
            if i >= from {
                lo = lo.min(b);
                hi = hi.max(b);
            }
            i += 1;
        }
        seen[w] = (lo, hi, from, to);
        if last.is_some_and(|l| lo <= l) {
            return Ok(None);
        }
        last = Some(hi);
    }
    Ok(Some(seen.map(|(lo, hi, from, to)| format!("{lo} to {hi} bytes in rounds {from} to {to}")).join(", ")))
}

pub fn c26(rep: &Rep) {
    rep.rule(
        "a counting allocator gives the bytes held after every round; parts: render also sends notes to the message synth; session repeats a cycle of updates, rejected updates, messages, tempo changes and rendering, \
         and compares the number of graph nodes and edges after every accepted update with a fresh engine's; render renders one program for long; \
         engines makes, uses, resets and drops engines; growth is reported when every value of a later window of rounds exceeds every value of the window before, four times in a row",
    );
    rep.assume("the samples themselves are the caller's and are not counted");
    rep.cases("session", rep.n(3_000, 60_000), rep.n(20, 300), |r, _| match r.below(2) {
        0 => c26_session::<16>(rep, r),
        _ => c26_session::<32>(rep, r),
    });
    rep.cases("render", rep.n(3_000, 60_000), rep.n(20, 300), |r, _| match r.below(2) {
        0 => c26_render::<64>(rep, r),
        _ => c26_render::<128>(rep, r),
    });
    rep.cases("engines", rep.n(1_000, 20_000), rep.n(8, 150), |r, _| c26_engines::<16>(rep, r));
    rep.require("rounds_session", 1000);
    rep.require("rounds_render", 10_000);
    rep.require("populations", 1000);
}

enum Step {
    Good(String, usize, usize),
    Bad(String),
    Msg(String),
    Bpm(f32),
    Render(usize),
}

fn c26_session<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let mut m = Stateful { cfg: cfg.clone(), deny: if r.chance(0.8) { vec!["plate"] } else { vec![] }, allow: vec![], movable: true };
    let k = r.us(1, 3);
    let mut p = make_prog(r, &mut m, k, 3);
    let mut steps = vec![];
    let population = |t: &str| -> Result<(usize, usize), String> {
        let mut f = engine::<N>(&cfg);
        must_text(&mut f, t)?;
        Ok((f.context.graph.node_count(), f.context.graph.edge_count()))
    };
    for _ in 0..r.us(2, 7) {
        match r.below(6) {
            0 => steps.push(Step::Bad(spoil(r, &mut m, &p))),
            1 => steps.push(Step::Msg(message(r, &p))),
            2 => steps.push(Step::Bpm(*r.pick(&cfg.bpms))),
            _ => {
                for _ in 0..r.us(1, 3) {
                    edit(r, &mut m, &mut p, &mut vec![]);
                }
                let t = shuffled(r, &p).text();
                let (a, b) = population(&t)?;
                steps.push(Step::Good(t, a, b));
            }
        }
        if r.chance(0.7) {
            steps.push(Step::Render(r.us(1, 4)));
        }
    }
    if r.chance(0.6) {
        let t = "quiet: sin 440.0;\n".to_string();
        let (a, b) = population(&t)?;
        steps.push(Step::Good(t, a, b));
        steps.push(Step::Render(1));
    }
    let mut desc = String::new();
    for s in &steps {
        match s {
            Step::Good(t, ..) => desc += &format!("update\n{t}"),
            Step::Bad(t) => desc += &format!("bad update\n{t}"),
            Step::Msg(t) => desc += &format!("message {t}\n"),
            Step::Bpm(t) => desc += &format!("tempo {t}\n"),
            Step::Render(k) => desc += &format!("render {k}\n"),
        }
    }
    note(format!("rate {}, block {N}, repeated:\n{desc}", cfg.sr));
    let mut e = engine::<N>(&cfg);
    let (l, q) = input::<N>(r);
    let mut start = None;
    let g = grows(5, |i| {
        for s in &steps {
            match s {
                Step::Good(t, nodes, edges) => {
                    must_text(&mut e, t)?;
                    let (a, b) = (e.context.graph.node_count(), e.context.graph.edge_count());
                    if (a, b) != (*nodes, *edges) {
                        return Err(format!(
                            "round {i}: {a} nodes and {b} connections after an update, a fresh engine has {nodes} and {edges} for\n{t}"
                        ));
                    }
                    rep.count("populations", 1);
                }
                Step::Bad(t) => {
                    let _ = e.update_with_code(t);
                }
                Step::Msg(t) => e.send_msg(t),
                Step::Bpm(t) => e.set_bpm(*t),
                Step::Render(k) => {
                    for _ in 0..*k {
                        render(&mut e, &l, &q);
                    }
                }
            }
        }
        start.get_or_insert(live());
        Ok(live())
    })?;
    rep.count("rounds_session", 24);
    match g {
        Some(s) => Err(format!("memory grows: {s}")),
        None => Ok(Obs::new(desc, steps.len() > 2)),
    }
}

fn c26_render<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let deny: &[&str] = if r.chance(0.8) { &["plate"] } else { &[] };
    let mut t = rich(r, &cfg, deny).text();
    let notes = r.chance(0.1);
    if notes {
        t += "mm: msgsynth \\ks 0.01 0.1\n";
    }
    if r.chance(0.15) {
        t += "ev: sin 3.0 >> eval `a:=in*0.5; b:=a+phase; sin(b)`\n";
        t += "me: sin 3.0 >> meta `output.clear(); for i in input { a += i; output.push(a.sin()); } output`\n";
    }
    note(format!("rate {}, block {N}\n{t}", cfg.sr));
    let mut e = engine::<N>(&cfg);
    must_text(&mut e, &t)?;
    let (l, q) = input::<N>(r);
    let (mut loud, mut k) = (false, 0u64);
    let g = grows(40, |i| {
        if notes && i % 2 == 0 {
            // a note for this block
            e.send_msg(&format!("mm,0,3,{}=>60", (i * N + 5) as f32 / cfg.sr as f32));
            rep.count("notes", 1);
        }
        let o = e.next_block(vec![&l, &q]);
        loud |= o[0].iter().any(|x| *x != 0.);
        k += 1;
        Ok(live())
    })?;
    rep.count("rounds_render", k);
    match g {
        Some(s) => Err(format!("memory grows: {s}")),
        None => Ok(Obs::new(t, loud)),
    }
}

fn c26_engines<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let deny: &[&str] = if r.chance(0.5) { &["plate"] } else { &[] };
    let t = rich(r, &cfg, deny).text();
    let (resets, drops) = if r.chance(0.5) { (true, false) } else { (r.chance(0.5), true) };
    note(format!("rate {}, block {N}, reset {resets}, drop {drops}\n{t}", cfg.sr));
    let (l, q) = input::<N>(r);
    let mut e = engine::<N>(&cfg);
    let g = grows(5, |_| {
        must_text(&mut e, &t)?;
        for _ in 0..4 {
            render(&mut e, &l, &q);
        }
        if resets {
            e.reset();
            setup(&mut e, &cfg);
        }
        if drops {
            e = engine::<N>(&cfg);
        }
        Ok(live())
    })?;
    rep.count("rounds_engines", 24);
    match g {
        Some(s) => Err(format!("memory grows: {s}")),
        None => Ok(Obs::new(t, true)),
    }
}
