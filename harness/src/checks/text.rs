//! C04-C06: what texts mean and which are accepted.

use super::live::garble;
use crate::edit::*;
use crate::gen::*;
use crate::prog::*;
use crate::rep::*;
use crate::rng::Rng;
use crate::session::*;
use glicol::{Engine, EngineError};
use glicol_parser::nodes::{self as gn, Component, NumberOrRef, UsizeOrRef};

// ---------------------------------------------------------------- wild texts

fn wild_int(r: &mut Rng) -> String {
    match r.below(10) {
        0 => "0".into(),
        1 => r.pick(&["-1", "+7", "007", "-0", "18446744073709551616", "4294967296", "2147483648", "99999999999999999999999999"]).to_string(),
        2 => format!("-{}", r.below(200)),
        _ => r.below(130).to_string(),
    }
}
pub fn wild_num(r: &mut Rng) -> String {
    match r.below(12) {
        0 => wild_int(r),
        1 => r.pick(&["0.", "0.0", "-0.0", "1.e9", "1.0e-9", "3.5e38", "1.0e999", "-1.0e+38", "1.0e-999", "9999999.5", "0.00000001", "2.E3", "1.5e+02"]).to_string(),
        2 => r.pick(&["nan", "inf", "1e5", ".5", "--1", "1..2", "1.2.3", "1_000", "0x10", "１"]).to_string(),
        3 => format!("-{}", r.dec(0., 100., 3)),
        4..=6 => r.below(5000).to_string(),
        _ => r.dec(0., 1000., 3).to_string(),
    }
}
pub fn wild_ref(r: &mut Rng) -> String {
    r.pick(&["~a", "~b", "~input", "o", "~nope", "_x", "~a..", "z..", "~z_9", "a", "~t", "~e_x1", "_", "~", "~A", "sin", "~in.."]).to_string()
}
fn wild_sym(r: &mut Rng) -> String {
    r.pick(&["\\kick", "'s_1'", "\\x-y", "\\nope", "''", "\\", "'a b'", "\\808_3", "\\two", "'long", "\\é"]).to_string()
}
fn wild_code(r: &mut Rng) -> String {
    let c = *r.pick(&[
        "x", "", " ", "sin(phase*2*pi())", "x := 3; x + in", "x:=1;;x", "in * (sr - 1) / 0", "a := b; a", "((((((((1))))))))", "1 +", "y[0]",
        "output.push(x); output", "let a = 1; a", "[0.0, 1.0]", "x", "let b = input; b", "\\n \\u0041", "\\q", "1/0", "throw 5",
        "-phase % 1", "x>=1 && y<2", "true", "z:= z + 1; z", "0 60", "0.0 60.0, 0.5 64.0", "0 60,", "0  60 , 1 64 ", "0,60", "a b", "-1 999", "0 60 7", "1e9 1",
        "fn f(a) { a + 1 } [f(1.0)]", "é",
    ]);
    if r.chance(0.1) {
        format!("`{c}")
    } else {
        format!("`{c}`")
    }
}
fn wild_pat(r: &mut Rng) -> String {
    let n = r.below(4);
    let mut s = String::from("\"");
    for i in 0..n {
        if i > 0 {
            s.push(' ');
        }
        s += &if r.chance(0.5) { wild_sym(r) } else { wild_num(r) };
        s.push('@');
        s += &wild_num(r);
    }
    s.push('"');
    match r.below(5) {
        0 => {}
        1 => s += "()",
        2 => s += "(",
        _ => {
            s += "(";
            s += &wild_num(r);
            s += ")"
        }
    }
    s
}
fn wild_points(r: &mut Rng) -> String {
    let mut s = String::from("[");
    for _ in 0..r.below(4) {
        s += &blanks(r, 0, 2);
        s += &match r.below(4) {
            0 => wild_num(r),
            1 => format!("{}/{}", wild_int(r), wild_int(r)),
            _ => format!("{}/{}", r.below(9), r.below(9)),
        };
        if r.chance(0.4) {
            s += &blanks(r, 0, 1);
            s += *r.pick(&["+", "-"]);
            s += &wild_num(r);
            s += *r.pick(&["_ms", "_s", "ms", "_"]);
        }
        s += &blanks(r, 0, 1);
        s += "=>";
        s += &wild_num(r);
        s += &blanks(r, 0, 2);
    }
    s += "]";
    s += &blanks(r, 0, 2);
    if r.chance(0.4) {
        s += *r.pick(&["*", "/"]);
        s += &blanks(r, 0, 2);
        if r.chance(0.3) {
            s += &format!("({}/{})", wild_int(r), wild_int(r));
        } else {
            s += &wild_num(r);
        }
    }
    s += &blanks(r, 0, 1);
    if r.chance(0.3) {
        s.push('!');
    }
    s
}
fn wild_seq(r: &mut Rng) -> String {
    let mut s = String::from("seq");
    for _ in 0..r.us(0, 4) {
        s += &blanks(r, 1, 2);
        for _ in 0..r.us(1, 5) {
            match r.below(8) {
                0..=2 => s.push('_'),
                3 => s += "~a",
                4 => s += &wild_int(r),
                5 => s += r.pick(&["~", "~ab", "_~b", "60.5", "__", "-", "+3"]),
                _ => s += &format!("{}_", r.below(128)),
            }
        }
    }
    s
}

/// n: number, r: reference, p: number or reference, s: symbol, c: code, q: pattern, i: integer
const SHAPES: &[(&str, &str)] = &[
    ("sin", "p"), ("saw", "p"), ("squ", "p"), ("tri", "p"), ("mul", "p"), ("add", "p"), ("pan", "p"), ("sig", "n"), ("constsig", "n"),
    ("imp", "n"), ("noise", "n"), ("noiz", "i"), ("speed", "n"), ("choose", "iii"), ("choose", "i"), ("arrange", "rn"), ("arrange", "rnrn"), ("mix", "r"),
    ("mix", "rrr"), ("get", "r"), ("", "r"), ("balance", "rr"), ("delayn", "i"), ("delayn", "p"), ("delayms", "p"), ("onepole", "p"), ("lpf", "pn"), ("lpf", "qn"),
    ("hpf", "pn"), ("rhpf", "pn"), ("apfmsgain", "pn"), ("apfgain", "pn"), ("envperc", "nn"), ("adsr", "nnnn"), ("plate", "n"), ("bd", "n"),
    ("sn", "n"), ("hh", "n"), ("sawsynth", "nn"), ("squsynth", "nn"), ("trisynth", "nn"), ("sp", "s"), ("sampler", "s"), ("psampler", "q"), ("psynth", "c"),
    ("psynth", "cn"), ("p_synth", "c"), ("pattern_synth", "cn"), ("msgsynth", "snn"), ("msg_synth", "snn"), ("eval", "c"), ("meta", "c"), ("script", "c"), ("expr", "c"), ("reverb", "nnnnn"),
    ("adc", "n"), ("sendpass", "rr"),
];

pub fn wild_node(r: &mut Rng) -> String {
    match r.below(14) {
        0 => return wild_seq(r),
        1 => return wild_points(r),
        _ => {}
    }
    let (name, args) = *r.pick(SHAPES);
    let mut s = name.to_string();
    for (i, a) in args.chars().enumerate() {
        if r.chance(0.01) {
            continue;
        }
        if i > 0 || !name.is_empty() {
            let least = if r.chance(0.02) { 0 } else { 1 };
            s += &blanks(r, least, 2);
        }
        let a = if r.chance(0.03) { *r.pick(&['n', 'r', 's', 'c', 'q', 'i']) } else { a };
        let p = r.chance(0.7);
        s += &match a {
            'n' => wild_num(r),
            'p' if p => wild_num(r),
            'p' | 'r' => wild_ref(r),
            's' => wild_sym(r),
            'c' => wild_code(r),
            'q' => wild_pat(r),
            _ => wild_int(r),
        };
    }
    s
}

pub fn wild_text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.below(2) {
        s.push(*r.pick(&['\n', ' ', ';', '\r']));
    }
    for _ in 0..r.us(1, 4) {
        s += r.pick(&["o", "~a", "~b", "a", "~t", "_x", "~z_9", "z1", "sin", "~input", "~a..", "O"]);
        s += ":";
        s += &blanks(r, 0, 2);
        for j in 0..r.us(1, 3) {
            if j > 0 {
                s += *r.pick(&[" >> ", ">>", " >>\t", "\n>> ", " // c\n >> ", " > "]);
            }
            s += &wild_node(r);
        }
        s += r.pick(&[";\n", "\n", "\n\n", ";", " // tail\n", "", "\r\n", " ;\n"]);
    }
    s
}

/// bytes, characters, repetition: not even close to a program
fn noise_text(r: &mut Rng) -> String {
    match r.below(5) {
        0 => (0..r.below(60)).map(|_| char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}')).collect(),
        1 => (0..r.below(200)).map(|_| r.below(128) as u8 as char).collect(),
        2 => {
            let toks = ["o:", "~a:", " ", ">>", "sin", "440", "mul", "~a", ";", "\n", "//", "seq", "60_", "`", "\"", "[", "]", "=>", "'", "\\", "mix", "..", "@", "(", ")", "_", "-", ".", "é", "\u{0}"];
            (0..r.below(40)).map(|_| *r.pick(&toks)).collect()
        }
        3 => {
            let unit = wild_node(r);
            let n = r.us(50, 400);
            format!("o: {}", vec![unit; n].join(" >> "))
        }
        _ => {
            let c = *r.pick(&['(', '[', '`', ';', ':', '~', '\n', '>', '0', ' ', '/', '_', 'a', '"', '\'', '💣']);
            let n = r.us(1, 3000);
            format!("o: {}{}", r.pick(&["", "eval `", "meta `", "seq ", "sin ", "sig 1", "[", "psampler \""]), c.to_string().repeat(n))
        }
    }
}

// ---------------------------------------------------------------- what the engine is known not to support

/// the memory the delay lines of a program ask for, in samples
fn delay_memory(a: &gn::Ast, sr: usize) -> f64 {
    let mut n = 0.;
    for c in a.nodes.values().flatten() {
        n += match c {
            Component::Delayn(gn::Delayn { param: UsizeOrRef::Usize(x) }) => *x as f64,
            Component::Delayms(gn::Delayms { param: NumberOrRef::Number(x) }) => *x as f64 / 1000. * sr as f64,
            Component::ApfmsGain(gn::ApfmsGain { delay: NumberOrRef::Number(x), .. }) => *x as f64 / 1000. * sr as f64,
            _ => 0.,
        };
    }
    n
}
pub fn fits(text: &str, sr: usize) -> bool {
    match glicol_parser::get_ast(text) {
        Ok(a) => {
            let huge_seed = a.nodes.values().flatten().any(|c| matches!(c, Component::Noise(gn::Noise { seed }) if *seed > 1 << 40));
            delay_memory(&a, sr).max(0.) < 4e6 && !huge_seed
        }
        Err(_) => true,
    }
}

/// the listed signature of a panic
pub fn signature(p: &PanicInfo) -> String {
    match p.msg.strip_suffix(" is currently not supported within the engine") {
        Some(c) => {
            let kind = c.split('(').next().unwrap_or("");
            format!("panic: {kind}(..) is currently not supported within the engine")
        }
        None => format!("panic: {}", p.msg),
    }
}

// ---------------------------------------------------------------- C04

pub const UNSUPPORTED: &[&str] = &[
    "o: reverb 1 1 1 1 1",
    "o: expr `x`",
    "o: adc 1",
    "o: psampler \"\\kick@0\"",
    "o: lpf \"100@0 200@0.5\" 1",
];

/// Submit the known unsupported programs, so that each listed finding is seen while it is there.
pub fn probe_unsupported(rep: &Rep) {
    rep.cases("unsupported", UNSUPPORTED.len() as u64, 60, |_, k| {
        let t = UNSUPPORTED[k as usize];
        note(t);
        let mut e = Engine::<64>::new();
        register(&mut e);
        match guard(|| e.update_with_code(t).map_err(|_| ())) {
            Ok(_) => Ok(Obs::new(t, true)),
            Err(p) if rep.known_hit(&signature(&p)) => Ok(Obs::new(t, true)),
            Err(p) => Err(format!("submitting {t:?} panics at {}: {}", p.loc, p.msg)),
        }
    });
}

pub fn c04(rep: &Rep) {
    rep.rule(
        "a case is one text given to the parser and to an engine that then gets a valid program and is rendered; texts are distinct by content; \
         it counts when the text is not empty and reached a verdict",
    );
    rep.assume("delay lines of the submitted programs fit in memory (less than 4 million samples); noise seeds stay below 2^40; scripts terminate");
    probe_unsupported(rep);
    rep.cases("text", rep.n(120_000, 6_000_000), rep.n(20, 600), |r, _| c04_case(rep, r));
    rep.require("accepted", 1000);
    rep.require("rejected_syntax", 1000);
    rep.require("rejected_reference", 200);
    rep.require("rejected_sample", 30);
}

fn c04_case(rep: &Rep, r: &mut Rng) -> Case {
    let text = match r.below(10) {
        0 => noise_text(r),
        1 | 2 => {
            let mut m = wide_maker();
            let p = wide_prog(r, &mut m);
            let t = p.text_varied(r);
            garble(r, &t)
        }
        3 => {
            let cfg = Cfg::random(r);
            let k = r.us(1, 4);
            let t = Gen::new(r, cfg).program(k, 4).text_varied(r);
            garble(r, &t)
        }
        _ => wild_text(r),
    };
    note(format!("text {text:?}"));
    // the parser
    match guard(|| glicol_parser::get_ast(&text).map(|_| ()).map_err(|e| (format!("{e}"), *e))) {
        Err(p) if rep.known_hit(&signature(&p)) => {}
        Err(p) => return Err(format!("the parser panics at {}: {}", p.loc, p.msg)),
        Ok(Ok(())) => {}
        Ok(Err((shown, e))) => {
            let (a, b) = match e.location {
                pest::error::InputLocation::Pos(u) => (u, u),
                pest::error::InputLocation::Span(s) => s,
            };
            if a > b || b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
                return Err(format!("an error is located at {a}..{b} of a text of {} bytes", text.len()));
            }
            let line = match e.line_col {
                pest::error::LineColLocation::Pos(p) => p,
                pest::error::LineColLocation::Span(p, _) => p,
            };
            // the line and column of the position, counted here
            let before = &text[..a];
            let want = (1 + before.matches('\n').count(), 1 + before.rsplit('\n').next().unwrap_or("").chars().count());
            if line != want {
                return Err(format!("the error at byte {a} is reported at line and column {line:?}, not {want:?}"));
            }
            if shown.is_empty() {
                return Err("an error says nothing".into());
            }
        }
    }
    // the engine
    let mut e = Engine::<16>::new();
    register(&mut e);
    let sr = *r.pick(&[44100, 48000, 22050, 8000]);
    e.set_sr(sr);
    if !fits(&text, sr) {
        return Ok(Obs::new("too large", false));
    }
    if r.chance(0.3) {
        must_text(&mut e, "o: sin 440 >> mul ~a; ~a: saw 3")?;
        silent(&mut e);
    }
    let answer = guard(|| e.update_with_code(&text));
    match answer {
        Err(p) if rep.known_hit(&signature(&p)) => return Ok(Obs::new("unsupported", false)),
        Err(p) => return Err(format!("the engine panics at {}: {}", p.loc, p.msg)),
        Ok(Ok(())) => {
            rep.count("accepted", 1);
        }
        Ok(Err(x)) => {
            let k = match &x {
                EngineError::ParsingError(_) => "rejected_syntax",
                EngineError::NonExistReference(_) => "rejected_reference",
                EngineError::NonExistSample(_) => "rejected_sample",
            };
            rep.count(k, 1);
            if format!("{x}").is_empty() {
                return Err("an error says nothing".into());
            }
        }
    }
    match guard(|| {
        for _ in 0..3 {
            silent(&mut e);
        }
        let ok = e.update_with_code("o: sig 0.25");
        (ok, silent(&mut e))
    }) {
        Err(p) => Err(format!("the engine panics afterwards at {}: {}", p.loc, p.msg)),
        Ok((Err(x), _)) => Err(format!("the engine does not take another program: {x:?}")),
        Ok((Ok(()), o)) => {
            if o.iter().flatten().any(|x| *x != 0.25) {
                return Err("the engine does not play the next program".into());
            }
            Ok(Obs::new(text.clone(), !text.is_empty()))
        }
    }
}

// ---------------------------------------------------------------- C05

const REFNAMES: &[&str] = &[
    "~a", "~b", "~input", "o", "out", "~sin", "~mul2", "_x", "_seq", "~a_b_1", "kk9", "~verylongname_with_many_parts_0123456789", "q..", "~a..", "~r", "get_x", "zz_", "~x__1",
];
const CHAINNAMES: &[&str] = &[
    "o", "~a", "~b", "out", "~sin", "_x", "sin", "seq", "mix", "~bd", "get", "r", "kk9", "~a_b_1", "~x__1", "a1", "~verylongname_with_many_parts_0123456789", "x2_y", "_r", "~q",
];

pub struct Wide;
pub fn wide_maker() -> Wide {
    Wide
}
impl Wide {
    fn num(&self, r: &mut Rng) -> f32 {
        match r.below(9) {
            0 => *r.pick(&[0., 1., -1., 0.5, 100000., 16777216., 0.1, -0.001, 3.4e38, 1.2e-38, 7e-5, 123456.79]),
            1 => f32::from_bits(r.u64() as u32 & 0x7fff_ffff).min(3e38),
            2 => r.below(2000) as f32,
            3 => -(r.below(2000) as f32),
            4 => r.f(-1e6, 1e6) as f32,
            _ => r.dec(-100., 1000., 3),
        }
    }
    fn p(&self, r: &mut Rng) -> P {
        if r.chance(0.4) {
            P::R(self.r(r))
        } else {
            P::N(self.num(r))
        }
    }
    fn r(&self, r: &mut Rng) -> String {
        r.pick(REFNAMES).to_string()
    }
    fn sym(&self, r: &mut Rng) -> String {
        r.pick(&["\\kick", "'s_1'", "\\x-y", "\\808", "'A'", "\\_", "'--'", "\\Z9_-z"]).to_string()
    }
    fn span(&self, r: &mut Rng) -> Option<f32> {
        r.chance(0.6).then(|| self.num(r))
    }
    pub fn node(&self, r: &mut Rng) -> Nd {
        match r.below(39) {
            0 => Nd::Sin(self.p(r)),
            1 => Nd::Saw(self.p(r)),
            2 => Nd::Squ(self.p(r)),
            3 => Nd::Tri(self.p(r)),
            4 => Nd::Sig(self.num(r)),
            5 => Nd::Imp(self.num(r)),
            6 => Nd::Noise(r.u64() as u32 >> r.below(32)),
            7 => Nd::Speed(self.num(r)),
            8 | 9 => {
                let mut gs = vec![];
                for _ in 0..many(r, 6) {
                    let mut g: Vec<Note> = vec![];
                    for _ in 0..many(r, 7) {
                        let m = r.chance(0.5) && !matches!(g.last(), Some(Note::M(_)));
                        g.push(if m {
                            Note::M(r.u64() as u32 >> r.us(22, 31))
                        } else if r.chance(0.6) {
                            Note::Rest
                        } else {
                            Note::R((b'a' + r.below(26) as u8) as char)
                        });
                    }
                    gs.push(g);
                }
                Nd::Seq(gs)
            }
            10 => Nd::Choose((0..many(r, 8)).map(|_| r.below(400) as i32 - 200).collect()),
            11 => Nd::Arrange((0..r.us(1, 5)).map(|_| (self.r(r), self.num(r))).collect()),
            12 => Nd::Mul(self.p(r)),
            13 => Nd::Add(self.p(r)),
            14 => Nd::Pan(self.p(r)),
            15 => Nd::Mix((0..r.us(1, 6)).map(|_| self.r(r)).collect()),
            16 => Nd::Get(self.r(r)),
            17 => Nd::Balance(self.r(r), self.r(r)),
            18 => Nd::DelayN(r.u64() as u32 >> r.below(32)),
            19 => Nd::DelayNRef(self.r(r)),
            20 => Nd::DelayMs(self.p(r)),
            21 => Nd::OnePole(self.p(r)),
            22 => Nd::Lpf(self.p(r), self.num(r)),
            23 => Nd::LpfPat((0..r.us(1, 5)).map(|_| (self.num(r), self.num(r))).collect(), self.span(r), self.num(r)),
            24 => Nd::Hpf(self.p(r), self.num(r)),
            25 => Nd::Apf(self.p(r), self.num(r)),
            26 => Nd::EnvPerc(self.num(r), self.num(r)),
            27 => Nd::Adsr(self.num(r), self.num(r), self.num(r), self.num(r)),
            28 => Nd::Plate(self.num(r)),
            29 => match r.below(3) {
                0 => Nd::Bd(self.num(r)),
                1 => Nd::Sn(self.num(r)),
                _ => Nd::Hh(self.num(r)),
            },
            30 => match r.below(3) {
                0 => Nd::SawSynth(self.num(r), self.num(r)),
                1 => Nd::SquSynth(self.num(r), self.num(r)),
                _ => Nd::TriSynth(self.num(r), self.num(r)),
            },
            31 => Nd::Sp(self.sym(r)),
            32 => Nd::PSampler((0..many(r, 5)).map(|_| (self.sym(r), self.num(r))).collect(), self.span(r)),
            33 => Nd::PSynth((0..many(r, 5)).map(|_| (self.num(r), self.num(r))).collect(), self.span(r)),
            34 => Nd::MsgSynth(self.num(r), self.num(r)),
            35 => Nd::Eval(
                r.pick(&["x", "in * 2", "x := phase + 1;\n y := x*x ; y - x", "sin(phase*2)", "(in + 0.5)/ (2 - in)", "a:=1;b:=2;a+b", "in>=0.5", "x % 2", "x:=1;", " x "])
                    .to_string(),
            ),
            36 => Nd::Meta(
                r.pick(&["let a = 3;\n [a]", "[1.0]", "// comment >> sin 3;\n x", "if a > 3 { b } else { c; }", "x;", ";", " x ; ", "ünï \\n \\u00e9 ; o: sin 3", ""]).to_string(),
            ),
            _ => {
                let n = if r.chance(0.1) { 0 } else { many(r, 5) };
                let pts = (0..n)
                    .map(|_| Pt {
                        bar: if r.chance(0.5) { (r.below(20) as i32, Some(r.us(1, 16) as u32), 0.) } else { (0, None, r.dec(0., 8., 3)) },
                        off: r.chance(0.4).then(|| (r.chance(0.5), r.dec(-50., 50., 2))),
                        val: self.num(r),
                    })
                    .collect();
                let span = r.chance(0.5).then(|| (r.chance(0.5), if r.chance(0.5) { r.us(1, 9) as f32 } else { r.us(1, 32) as f32 / 8. }));
                Nd::Points(pts, span, r.chance(0.4))
            }
        }
    }
}
/// mostly a few, sometimes many
fn many(r: &mut Rng, n: usize) -> usize {
    if r.chance(0.03) {
        r.us(n, n * 10)
    } else {
        r.us(1, n)
    }
}
pub fn wide_prog(r: &mut Rng, m: &mut Wide) -> Prog {
    let mut p = Prog::default();
    let (k, len) = if r.chance(0.01) { (r.us(10, 60), 20) } else { (r.us(1, 5), 5) };
    for _ in 0..k {
        let mut name = r.pick(CHAINNAMES).to_string();
        if k > 5 {
            name += &format!("_{}", r.below(1000));
        }
        if p.get(&name).is_some() {
            continue;
        }
        let c = (0..r.us(1, len)).map(|_| m.node(r)).collect();
        p.chains.push((name, c));
    }
    p
}

pub fn c05(rep: &Rep) {
    rep.rule(
        "a case is one generated program in one random layout, parsed and compared node by node, value by value with what was written; \
         cases are distinct by text; all count",
    );
    rep.cases("layout", rep.n(150_000, 8_000_000), rep.n(20, 500), |r, _| {
        let p = wide_prog(r, &mut Wide);
        let text = p.text_varied(r);
        note(format!("written {p:?}\ntext {text:?}"));
        let ast = glicol_parser::get_ast(&text).map_err(|e| format!("a valid program is not parsed: {e}"))?;
        if ast.nodes.len() != p.chains.len() {
            return Err(format!("{} chains parsed, {} written", ast.nodes.len(), p.chains.len()));
        }
        for (name, c) in &p.chains {
            let Some(got) = ast.nodes.get(name.as_str()) else {
                return Err(format!("chain {name} is missing"));
            };
            if got.len() != c.len() {
                return Err(format!("chain {name} has {} nodes, {} written: {got:?}", got.len(), c.len()));
            }
            for (i, (a, b)) in c.iter().zip(got).enumerate() {
                rep.count(a.name(), 1);
                if !a.same_as(b) {
                    return Err(format!("node {i} of {name}: written {}, parsed {b:?}", a.text()));
                }
            }
        }
        Ok(Obs::new(text.as_str(), true))
    });
    for k in super::models::ALL_MODELLED {
        rep.require(k, 20);
    }
}

// ---------------------------------------------------------------- C06

pub fn c06(rep: &Rep) {
    rep.rule(
        "a case is a session of submissions to one engine, each valid or with a known set of missing references and samples, also ones that existed in \
         an earlier program or are registered later; sessions are distinct by their texts; it counts when both verdicts occurred",
    );
    rep.cases("session", rep.n(25_000, 800_000), rep.n(20, 400), |r, _| c06_case(rep, r));
    rep.require("accepted", 1000);
    rep.require("rejected_reference", 1000);
    rep.require("rejected_sample", 1000);
    rep.require("rejected_syntax", 1000);
}

fn missing(p: &Prog, have: &[String]) -> (Vec<String>, Vec<String>) {
    let (mut refs, mut smp) = (vec![], vec![]);
    let known = |n: &str| n == "~input" || p.get(n).is_some();
    for (_, c) in &p.chains {
        for d in c {
            for x in d.refs() {
                let ok = match x.strip_suffix("..") {
                    Some(pre) => "~input".starts_with(pre) || p.chains.iter().any(|c| c.0.starts_with(pre)),
                    None => known(&x),
                };
                if !ok {
                    refs.push(x);
                }
            }
            for s in d.samples() {
                if !have.contains(&s) {
                    smp.push(s);
                }
            }
        }
    }
    (refs, smp)
}

fn c06_case(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let mut m = Stateful { cfg: cfg.clone(), deny: vec![], allow: vec![], movable: true };
    let k = r.us(1, 4);
    let mut p = make_prog(r, &mut m, k, 3);
    let mut e = Engine::<64>::new();
    setup(&mut e, &cfg);
    let mut have = sample_names();
    let mut past: Vec<String> = vec![];
    let mut desc = String::new();
    let (mut yes, mut no) = (0, 0);
    let extra: &'static [f32] = &[0.1, 0.2];
    for step in 0..r.us(4, 10) {
        for _ in 0..r.below(3) {
            edit(r, &mut m, &mut p, &mut vec![]);
        }
        if r.chance(0.15) {
            let s = format!("\\new{}", r.below(4));
            e.add_sample(&s, extra, 1, 44100);
            note(format!("register {s}"));
            have.push(s);
        }
        let mut q = p.clone();
        // 0: as it is; otherwise add doubtful references and samples, which may or may not exist
        for _ in 0..*r.pick(&[0, 0, 1, 1, 2]) {
            let n = match r.below(8) {
                0 => "~nope".to_string(),
                // close to a name that exists
                6 => {
                    let n = q.chains[r.below(q.chains.len())].0.clone();
                    if n.starts_with('~') { n + *r.pick(&["_", "0", "a", "_1"]) } else { "~nope_".into() }
                }
                1 if !past.is_empty() => r.pick(&past).clone(),
                2 if !past.is_empty() => {
                    let n = r.pick(&past).clone();
                    let l = r.us(1, n.len());
                    if n[..l].ends_with(|c: char| c.is_ascii_lowercase()) { format!("{}..", &n[..l]) } else { "~input".into() }
                }
                3 => "nope..".into(),
                4 => "~in..".into(),
                5 => "~inputs".into(),
                _ => q.chains[r.below(q.chains.len())].0.clone(),
            };
            let s = match r.below(10) {
                0..=2 => r.pick(&have).clone(),
                3..=4 => format!("'new-{}'", r.below(4)),
                _ => format!("\\new{}", r.below(4)),
            };
            let d = match r.below(15) {
                0 => Nd::Mul(P::R(n)),
                1 => Nd::Add(P::R(n)),
                2 => Nd::Sin(P::R(n)),
                3 => Nd::Lpf(P::R(n), 1.),
                4 => Nd::Mix(vec!["~input".into(), n]),
                5 => Nd::Balance(n, "~input".into()),
                6 => Nd::Get(n),
                7 => Nd::DelayMs(P::R(n)),
                8 => Nd::Arrange(vec![("~input".into(), 1.), (n, 2.)]),
                9 if n.len() == 2 && n.starts_with('~') => Nd::Seq(vec![vec![Note::M(60), Note::R(n.chars().nth(1).unwrap())]]),
                9 => Nd::Seq(vec![vec![Note::R('w')]]),
                10 => Nd::OnePole(P::R(n)),
                11 => Nd::Apf(P::R(n), 0.5),
                12 => Nd::Pan(P::R(n)),
                13 => Nd::Sp(s),
                _ => Nd::PSampler(vec![("\\kick".into(), 0.), (s, 0.5)], Some(2.)),
            };
            let k = r.below(q.chains.len());
            let at = r.us(0, q.chains[k].1.len());
            q.chains[k].1.insert(at, d);
        }
        // a reference the grammar would read as a node name is another matter
        let (refs, smp) = missing(&q, &have);
        let mut text = shuffled(r, &q).text_varied(r);
        let mut broken = false;
        if r.chance(0.1) {
            let g = garble(r, &text);
            if glicol_parser::get_ast(&g).is_err() {
                text = g;
                broken = true;
            }
        }
        note(format!("step {step}: missing references {refs:?}, samples {smp:?}, broken {broken}\n{text}"));
        desc += &text;
        let got = e.update_with_code(&text);
        let what = match &got {
            Ok(()) => {
                if broken || !refs.is_empty() || !smp.is_empty() {
                    return Err(format!("accepted with missing references {refs:?}, missing samples {smp:?}, broken {broken}"));
                }
                "accepted"
            }
            Err(EngineError::ParsingError(x)) => {
                if !broken {
                    return Err(format!("a well-formed program is a syntax error: {x}"));
                }
                "rejected_syntax"
            }
            Err(EngineError::NonExistReference(x)) => {
                if broken || !refs.contains(x) {
                    return Err(format!("rejected for reference {x:?}; the missing references are {refs:?}, samples {smp:?}, broken {broken}"));
                }
                "rejected_reference"
            }
            Err(EngineError::NonExistSample(x)) => {
                if broken || !smp.contains(x) {
                    return Err(format!("rejected for sample {x:?}; the missing samples are {smp:?}, references {refs:?}, broken {broken}"));
                }
                "rejected_sample"
            }
        };
        rep.count(what, 1);
        if got.is_ok() {
            yes += 1;
            past.extend(q.chains.iter().map(|c| c.0.clone()));
            if q.chains.len() > 0 {
                // what is accepted takes effect: exactly the chains written exist
                let mut have: Vec<&str> = e.index_info.keys().map(|s| s.as_str()).filter(|s| *s != "~input").collect();
                let mut want: Vec<&str> = q.chains.iter().map(|c| c.0.as_str()).collect();
                have.sort();
                want.sort();
                if have != want {
                    return Err(format!("after the update the chains are {have:?}"));
                }
            }
        } else {
            no += 1;
        }
        if r.chance(0.3) {
            silent(&mut e);
        }
    }
    Ok(Obs::new(desc, yes > 0 && no > 0))
}
