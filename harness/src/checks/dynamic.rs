//! C30: inline expressions and scripts, against an evaluator of our own.

use super::live::chain_end;
use crate::gen::*;
use crate::rep::*;
use crate::rng::Rng;
use crate::session::*;
use std::collections::BTreeMap;

/// An expression. `exact` ones have no rounding, so that steps in them are safe.
#[derive(Clone, Debug)]
enum E {
    Num(f64),
    Var(String),
    Bin(char, Box<E>, Box<E>),
    /// function of one argument
    Call(&'static str, Box<E>),
    /// comparison as 1 or 0
    Cmp(&'static str, Box<E>, Box<E>),
}

trait Flo: Copy + PartialOrd {
    fn of(x: f64) -> Self;
    fn bin(op: char, a: Self, b: Self) -> Self;
    fn call(f: &str, a: Self) -> Self;
}
macro_rules! flo {
    ($t:ty) => {
        impl Flo for $t {
            fn of(x: f64) -> $t {
                x as $t
            }
            fn bin(op: char, a: $t, b: $t) -> $t {
                match op {
                    '+' => a + b,
                    '-' => a - b,
                    '*' => a * b,
                    '/' => a / b,
                    '%' => a % b,
                    _ => a.powf(b),
                }
            }
            fn call(f: &str, a: $t) -> $t {
                match f {
                    "sin" => a.sin(),
                    "cos" => a.cos(),
                    "abs" => a.abs(),
                    "tanh" => a.tanh(),
                    "floor" => a.floor(),
                    "ceil" | "ceiling" => a.ceil(),
                    "atan" => a.atan(),
                    _ => unreachable!(),
                }
            }
        }
    };
}
flo!(f64);
flo!(f32);

impl E {
    /// the value, where every intermediate result is off by this fraction;
    /// None: a variable that does not exist
    fn off<T: Flo>(&self, env: &BTreeMap<String, T>, by: f64) -> Option<T> {
        let nudge = |x: T| if by == 0. { x } else { T::bin('*', x, T::of(1. + by)) };
        Some(match self {
            E::Num(x) => T::of(*x),
            E::Var(v) => *env.get(v)?,
            E::Bin(o, a, b) => {
                let (a, b) = (a.off(env, by)?, b.off(env, by)?);
                let exact = *o == '%' || by == 0.;
                if exact { T::bin(*o, a, b) } else { nudge(T::bin(*o, a, b)) }
            }
            E::Call(f, a) if *f == "floor" || *f == "ceil" => T::call(f, a.off(env, 0.)?),
            E::Call(f, a) => nudge(T::call(f, a.off(env, by)?)),
            E::Cmp(o, a, b) => {
                let (a, b) = (a.off(env, by)?, b.off(env, by)?);
                let t = match *o {
                    "<" => a < b,
                    ">" => a > b,
                    "<=" => a <= b,
                    ">=" => a >= b,
                    "==" => a == b,
                    _ => a != b,
                };
                T::of(if t { 1. } else { 0. })
            }
        })
    }
    fn text(&self, rhai: bool) -> String {
        match self {
            E::Num(x) if rhai => {
                let s = format!("{x}");
                let s = if s.contains('.') { s } else { format!("{s}.0") };
                if *x < 0. {
                    format!("({s})")
                } else {
                    s
                }
            }
            E::Num(x) if *x < 0. => format!("({x})"),
            E::Num(x) => format!("{x}"),
            E::Var(v) => v.clone(),
            E::Bin(o, a, b) => format!("({} {o} {})", a.text(rhai), b.text(rhai)),
            E::Call(f, a) if rhai => format!("({}).{}()", a.text(rhai), if *f == "ceil" { "ceiling" } else { f }),
            E::Call(f, a) => format!("{f}({})", a.text(rhai)),
            E::Cmp(o, a, b) if rhai => format!("(if {} {o} {} {{ 1.0 }} else {{ 0.0 }})", a.text(rhai), b.text(rhai)),
            E::Cmp(o, a, b) => format!("({} {o} {})", a.text(rhai), b.text(rhai)),
        }
    }
}

/// The reference with two copies in which every step is off a little: where
/// they drift apart, the code amplifies rounding and is no longer judged.
struct Track<T> {
    env: [BTreeMap<String, T>; 3],
    by: f64,
}
impl<T: Flo + Into<f64>> Track<T> {
    fn new(by: f64) -> Self {
        Track { env: Default::default(), by }
    }
    fn set(&mut self, v: &str, x: T) {
        for e in &mut self.env {
            e.insert(v.into(), x);
        }
    }
    fn value(&self, x: &E) -> [T; 3] {
        let off = [0., self.by, -self.by];
        std::array::from_fn(|i| x.off(&self.env[i], off[i]).unwrap_or(T::of(0.)))
    }
    fn assign(&mut self, v: &str, x: &E) {
        let y = self.value(x);
        for i in 0..3 {
            self.env[i].insert(v.into(), y[i]);
        }
    }
    /// the value and how far off it may be
    fn judge(&self, x: &E) -> (f64, f64) {
        let y = self.value(x).map(Into::<f64>::into);
        (y[0], 1e-6 * (1. + y[0].abs()) + 8. * (y[1] - y[0]).abs().max((y[2] - y[0]).abs()))
    }
}

struct Mk<'a> {
    vars: Vec<String>,
    /// variables that hold input samples or whole numbers
    exact: Vec<&'a str>,
}
impl Mk<'_> {
    fn num(r: &mut Rng) -> E {
        E::Num(match r.below(4) {
            0 => r.range(-4, 9) as f64,
            _ => (r.f(-3., 3.) * 64.).round() / 64.,
        })
    }
    fn exact(&self, r: &mut Rng) -> E {
        E::Var(r.pick(&self.exact).to_string())
    }
    fn any(&self, r: &mut Rng, depth: usize) -> E {
        if depth == 0 || r.chance(0.15) {
            return if r.chance(0.35) { Self::num(r) } else { E::Var(r.pick(&self.vars).clone()) };
        }
        let d = depth - 1;
        match r.below(12) {
            0..=2 => E::Bin('+', self.any(r, d).into(), self.any(r, d).into()),
            3 | 4 => E::Bin('-', self.any(r, d).into(), self.any(r, d).into()),
            5 | 6 => E::Bin('*', self.any(r, d).into(), self.any(r, d).into()),
            7 => {
                let k = E::Num(*r.pick(&[2., 3., 7., -1.5, 0.25, 44100., 100.]));
                E::Bin('/', self.any(r, d).into(), k.into())
            }
            8 => E::Call(*r.pick(&["sin", "cos", "abs", "tanh", "atan"]), self.any(r, d).into()),
            9 => {
                // whole steps of whole numbers, away from the edges
                let k = r.us(2, 50) as f64;
                let x = E::Bin('+', self.exact(r).into(), E::Num(0.5).into());
                E::Call(*r.pick(&["floor", "ceil"]), E::Bin('/', x.into(), E::Num(k).into()).into())
            }
            10 => {
                let k = E::Num((r.f(-1., 40.) * 32.).round() / 32. + 1. / 128.);
                E::Cmp(*r.pick(&["<", ">", "<=", ">=", "==", "!="]), self.exact(r).into(), k.into())
            }
            _ => E::Bin('%', self.exact(r).into(), E::Num(r.us(2, 60) as f64).into()),
        }
    }
    /// something that stays within bounds when fed back
    fn tame(&self, r: &mut Rng, depth: usize) -> E {
        E::Call(if r.chance(0.5) { "sin" } else { "tanh" }, self.any(r, depth).into())
    }
}

pub fn c30(rep: &Rep) {
    rep.rule(
        "parts: eval compares expression nodes sample by sample with an evaluator of the harness; script does so for script nodes block by block; endless follows counters beyond 2^24 samples; \
         broken runs code that does not compile or fails at some block next to a healthy chain, which must sound as if alone; \
         cases are distinct by code; a case counts when the judged node produced more than one value",
    );
    rep.assume("steps (floor, comparisons, remainders) are applied to exactly representable values only");
    rep.cases("eval", rep.n(20_000, 500_000), rep.n(12, 250), |r, _| match r.below(3) {
        0 => c30_eval::<16>(rep, r),
        1 => c30_eval::<64>(rep, r),
        _ => c30_eval::<128>(rep, r),
    });
    rep.cases("script", rep.n(4_000, 100_000), rep.n(12, 250), |r, _| match r.below(9) {
        0..=3 => c30_script::<16>(rep, r),
        4 => c30_script::<512>(rep, r),
        _ => c30_script::<128>(rep, r),
    });
    rep.cases("broken", rep.n(6_000, 100_000), rep.n(10, 200), |r, _| c30_broken::<32>(rep, r));
    rep.cases("endless", rep.n(6, 200), rep.n(40, 400), |r, _| c30_endless::<4096>(rep, r));
    rep.require("assignments", 1000);
    rep.require("endless_samples", 4 << 24);
    rep.require("script_blocks", 1000);
    rep.require("code_messages", 500);
    rep.require("failures", 500);
}

fn blank(r: &mut Rng) -> &'static str {
    *r.pick(&["", " ", "\n", "  "])
}

fn varied(seen: &[f32]) -> bool {
    seen.iter().any(|x| *x != seen[0])
}

fn c30_eval<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let fed = r.chance(0.7);
    let names = ["x", "y", "z", "a", "acc", "b_1", "k2", "env"];
    let k = if r.chance(0.1) { r.us(5, 14) } else { r.below(5) };
    let mut mk = Mk { vars: vec!["x".into(), "y".into(), "z".into(), "phase".into()], exact: vec!["phase"] };
    if fed {
        mk.vars.push("in".into());
        mk.vars.push("in".into());
        mk.exact.push("in");
    }
    let mut lines: Vec<(String, E)> = vec![];
    for _ in 0..k {
        let v = r.pick(&names).to_string();
        // a variable may be read before its first assignment
        if r.chance(0.15) {
            mk.vars.push(r.pick(&names).to_string());
        }
        let e = mk.tame(r, 3);
        mk.vars.push(v.clone());
        lines.push((v, e));
    }
    let fin = match r.below(30) {
        0..=2 => E::Bin('/', E::Var("sr".into()).into(), E::Num(1000.).into()),
        // divided by zero at some sample
        3 => {
            let x = E::Bin('-', mk.exact(r).into(), E::Num(r.us(0, 20) as f64).into());
            E::Bin('/', E::Num(r.us(1, 9) as f64).into(), x.into())
        }
        _ => mk.tame(r, 3),
    };
    let mut code = String::new();
    for (v, e) in &lines {
        code += &format!("{}{v}{}:={}{};{}", blank(r), blank(r), blank(r), e.text(false), blank(r));
    }
    code += &fin.text(false);
    let src = *r.pick(&["noise 7", "~input", "sig 3 >> mul ~input", "imp 300"]);
    let text = if fed { format!("o: {src} >> eval `{code}`\n") } else { format!("o: eval `{code}`\n") };
    note(format!("rate {}, block {N}\n{text}", cfg.sr));
    let mut e = engine::<N>(&cfg);
    must_text(&mut e, &text)?;
    let mut t = Track::<f64>::new(1e-12);
    for v in ["x", "y", "z"] {
        t.set(v, 0.);
    }
    t.set("sr", cfg.sr as f64);
    let mut phase = 0u64;
    let mut seen = vec![];
    let (mut lines, mut fin, mut text) = (lines, fin, text);
    let total = r.us(200, 900) / N + 2;
    let at = if r.chance(0.2) { r.below(total) } else { total };
    for b in 0..total {
        if b == at {
            // other code by message: variables and the counter go on
            let new = mk.tame(r, 3);
            let k = e.index_info["o"].len() - 1;
            let mut msg = format!("o,{k},0,{}", new.text(false));
            if r.chance(0.2) {
                msg += if r.chance(0.5) { "+(" } else { "+*1" };
            } else {
                (lines, fin) = (vec![], new);
            }
            note(format!("block {b}: message {msg:?}"));
            e.send_msg(&msg);
            rep.count("code_messages", 1);
            text += &msg;
        }
        let (l, q) = input::<N>(r);
        render(&mut e, &l, &q);
        let c = &e.index_info["o"];
        let out = &e.context.graph[*c.last().unwrap()].buffers[0];
        let inn = if fed { Some(&e.context.graph[c[c.len() - 2]].buffers[0]) } else { None };
        for i in 0..N {
            if let Some(x) = inn {
                t.set("in", x[i] as f64);
            }
            t.set("phase", phase as f64);
            for (v, x) in &lines {
                t.assign(v, x);
                rep.count("assignments", 1);
            }
            let (w, mut tol) = t.judge(&fin);
            if w.is_infinite() && out[i] as f64 == w {
                rep.count("infinite_values", 1);
                phase += 1;
                continue;
            }
            if w.is_infinite() {
                tol = 0.;
            }
            if !(tol < 1e-3) {
                rep.count("rounding_amplified", 1);
                return Ok(Obs::new(text, phase > 30 && varied(&seen)));
            }
            let g = out[i];
            if !((g as f64 - w).abs() <= tol) {
                return Err(format!("block {b}, sample {i}: the expression gives {w}, the node {g}"));
            }
            seen.push(g);
            phase += 1;
        }
    }
    Ok(Obs::new(text, varied(&seen)))
}

/// The counter and a variable of the code beyond what a 32-bit float can count
fn c30_endless<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let (k, m) = (r.us(2, 60), r.us(2, 9));
    let (code, want): (String, Box<dyn Fn(u64) -> u64>) = match r.below(4) {
        0 => (format!("phase % {k}"), Box::new(move |n| n % k as u64)),
        1 => (format!("floor((phase + 0.5) / {k}) % {m}"), Box::new(move |n| n / k as u64 % m as u64)),
        2 => (format!("x := x + 1; x % {k}"), Box::new(move |n| (n + 1) % k as u64)),
        _ => (format!("x := x + 1; y := phase; x - y + phase % {k}"), Box::new(move |n| 1 + n % k as u64)),
    };
    let text = if r.chance(0.3) { format!("o: noise 3 >> eval `{code}`\n") } else { format!("o: eval `{code}`\n") };
    note(format!("rate {}, block {N}\n{text}", cfg.sr));
    let mut e = engine::<N>(&cfg);
    must_text(&mut e, &text)?;
    let total = (1 << 24) / N + r.us(2, 40);
    for b in 0..total {
        e.next_block(vec![]);
        let out = &e.context.graph[*e.index_info["o"].last().unwrap()].buffers[0];
        for i in 0..N {
            let w = want((b * N + i) as u64) as f32;
            if out[i] != w {
                return Err(format!("block {b}, sample {i}: the expression gives {w}, the node {}", out[i]));
            }
        }
    }
    rep.count("endless_samples", (total * N) as u64);
    Ok(Obs::new(text, true))
}

fn c30_script<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let fed = r.chance(0.7);
    // of the variables a script finds ready (w is the counter)
    let mut all: Vec<String> = ('a'..='z').filter(|c| *c != 'w').map(String::from).collect();
    all.extend((0..4).flat_map(|k| [format!("x{k}"), format!("y{k}"), format!("z{k}")]));
    all.extend(["freq", "freq2", "phase"].map(String::from));
    r.shuffle(&mut all);
    let names = &all[..7];
    let mut mk = Mk { vars: names.iter().map(|s| s.to_string()).collect(), exact: vec!["count"] };
    mk.vars.push("count".into());
    if fed {
        mk.vars.push("cur".into());
        mk.exact.push("cur");
    }
    let lines: Vec<(String, E)> = (0..r.below(4)).map(|_| (r.pick(&names).to_string(), mk.tame(r, 2))).collect();
    let fin = mk.tame(r, 2);
    let rate = r.chance(0.3);
    // w counts samples
    let upto = if r.chance(0.2) { r.us(1, N) } else { N };
    let mut code = format!("output.clear(); for n1 in 0..{upto} {{ let count = w; w += 1.0; ");
    if fed {
        code += "let cur = input[n1]; ";
    }
    for (v, e) in &lines {
        code += &format!("{v} = {}; ", e.text(true));
    }
    code += &format!("output.push({}{}); }} output", fin.text(true), if rate { " + sr / 100000.0" } else { "" });
    let src = *r.pick(&["noise 7", "~input", "imp 300"]);
    let text = if fed { format!("o: {src} >> meta `{code}`\n") } else { format!("o: script `{code}`\n") };
    note(format!("rate {}, block {N}\n{text}", cfg.sr));
    let mut e = engine::<N>(&cfg);
    must_text(&mut e, &text)?;
    let mut t = Track::<f32>::new(4e-7);
    for v in names {
        t.set(v, 0.);
    }
    let mut count = 0f32;
    let mut seen = vec![];
    for b in 0..r.us(100, 500) / N + 2 {
        let (l, q) = input::<N>(r);
        render(&mut e, &l, &q);
        let c = &e.index_info["o"];
        let out = &e.context.graph[*c.last().unwrap()].buffers[0];
        let inn = if fed { Some(&e.context.graph[c[c.len() - 2]].buffers[0]) } else { None };
        for i in 0..upto {
            t.set("count", count);
            count += 1.;
            if let Some(x) = inn {
                t.set("cur", x[i]);
            }
            for (v, x) in &lines {
                t.assign(v, x);
            }
            let (mut w, tol) = t.judge(&fin);
            if !(tol < 1e-2) {
                rep.count("rounding_amplified", 1);
                return Ok(Obs::new(text, count > 30. && varied(&seen)));
            }
            if rate {
                w += cfg.sr as f64 / 100000.;
            }
            let g = out[i];
            if !((g as f64 - w).abs() <= tol) {
                return Err(format!("block {b}, sample {i}: the script gives {w}, the node {g}"));
            }
            seen.push(g);
        }
        rep.count("script_blocks", 1);
    }
    Ok(Obs::new(text, varied(&seen)))
}

fn c30_broken<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let at = r.us(0, 5);
    let bad = match r.below(9) {
        0 => format!("meta `a += 1.0; if a > {at}.0 {{ throw \"no\"; }} output.clear(); while output.len() < {N} {{ output.push(0.25); }} output`"),
        1 => "meta `nothing(1)`".to_string(),
        2 => "meta `let a = ; output`".to_string(),
        3 => "meta `42`".to_string(),
        4 => "meta `output.clear(); output.push(1); output.push(\"x\"); output`".to_string(),
        5 => format!("meta `b += 1.0; if b > {at}.0 {{ input[99999] }} output.clear(); while output.len() < {} {{ output.push(b); }} output`", 2 * N),
        6 => "eval `((`".to_string(),
        7 => "eval `x:=1 +;x`".to_string(),
        _ => "eval `nope + 1`".to_string(),
    };
    let src = *r.pick(&["", "sin 100 >> ", "~input >> "]);
    let good = *r.pick(&[
        "w: saw 321.5 >> mul 0.5;\n",
        "w: noise 5 >> lpf 900 0.8;\n",
        "w: sin 99 >> eval `x:=in*0.5;x+y`;\n",
        "w: ~input >> delayn 3;\n",
        "w: speed 4.0 >> seq 60 _ 62_65 >> sp \\kick;\n",
    ]);
    let v = if r.chance(0.5) { format!("{good}bad: {src}{bad};\n") } else { format!("bad: {src}{bad};\n{good}") };
    note(format!("rate {}, block {N}\n{v}", cfg.sr));
    let (mut e, mut f) = (engine::<N>(&cfg), engine::<N>(&cfg));
    must_text(&mut e, &v)?;
    must_text(&mut f, good)?;
    let mut sound = false;
    for b in 0..r.us(8, 20) {
        let (l, q) = input::<N>(r);
        render(&mut e, &l, &q);
        let t = render(&mut f, &l, &q);
        let (x, y) = (chain_end(&e, "w")?, chain_end(&f, "w")?);
        if x != y {
            return Err(format!("block {b}: the healthy chain sounds different next to the broken one"));
        }
        sound |= peak(&t) > 0.;
        rep.count("failures", 1);
    }
    // it can be replaced by something that works
    let (mut g, fixed) = (engine::<N>(&cfg), format!("bad: {src}sig 0.5 >> mul 0.5;\n{good}"));
    must_text(&mut e, &fixed)?;
    must_text(&mut g, &format!("bad: {src}sig 0.5 >> mul 0.5;\n"))?;
    let (l, q) = input::<N>(r);
    render(&mut e, &l, &q);
    render(&mut g, &l, &q);
    if src.is_empty() && chain_end(&e, "bad")? != chain_end(&g, "bad")? {
        return Err("the repaired chain does not sound as written".into());
    }
    Ok(Obs::new(v, sound))
}
