//! The harness's own notion of a program: what the text is supposed to mean, and how to spell it.

use crate::rng::Rng;
use glicol_parser::nodes::{self as gn, Component, NumberOrRef, UsizeOrRef};

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    N(f32),
    R(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Note {
    M(u32),
    Rest,
    R(char),
}

/// One time of a breakpoint list
#[derive(Clone, Debug, PartialEq)]
pub struct Pt {
    pub bar: (i32, Option<u32>, f32), // numerator/denominator, or a plain number
    pub off: Option<(bool, f32)>,     // is_ms, signed offset
    pub val: f32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Nd {
    Sin(P),
    Saw(P),
    Squ(P),
    Tri(P),
    Sig(f32),
    Imp(f32),
    Noise(u32),
    Speed(f32),
    Seq(Vec<Vec<Note>>),
    Choose(Vec<i32>),
    Arrange(Vec<(String, f32)>),
    Mul(P),
    Add(P),
    Pan(P),
    Mix(Vec<String>),
    Get(String),
    Balance(String, String),
    DelayN(u32),
    DelayNRef(String),
    DelayMs(P),
    OnePole(P),
    Lpf(P, f32),
    LpfPat(Vec<(f32, f32)>, Option<f32>, f32),
    Hpf(P, f32),
    Apf(P, f32),
    EnvPerc(f32, f32),
    Adsr(f32, f32, f32, f32),
    Plate(f32),
    Bd(f32),
    Sn(f32),
    Hh(f32),
    SawSynth(f32, f32),
    SquSynth(f32, f32),
    TriSynth(f32, f32),
    Sp(String),
    PSampler(Vec<(String, f32)>, Option<f32>),
    PSynth(Vec<(f32, f32)>, Option<f32>),
    MsgSynth(f32, f32),
    Eval(String),
    Meta(String),
    Points(Vec<Pt>, Option<(bool, f32)>, bool), // span: (is_mul, n); looping
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Prog {
    pub chains: Vec<(String, Vec<Nd>)>,
}

/// Pieces of spelling
pub enum Pc {
    T(String),
    Alt(&'static [&'static str]),
    /// a factor: a number, or a fraction in parentheses
    Factor(f32),
    Num(f32),
    /// an unsigned or signed whole number where only an integer may stand
    Int(i64),
    /// at least one blank
    Ws,
    /// any blank inside a breakpoint list (newlines too), possibly none
    PWs,
}
use Pc::*;

fn t(s: &str) -> Pc {
    T(s.to_string())
}

fn pp(v: &mut Vec<Pc>, p: &P) {
    v.push(Ws);
    match p {
        P::N(x) => v.push(Num(*x)),
        P::R(r) => v.push(t(r)),
    }
}
fn nums(v: &mut Vec<Pc>, xs: &[f32]) {
    for x in xs {
        v.push(Ws);
        v.push(Num(*x));
    }
}

impl Nd {
    pub fn name(&self) -> &'static str {
        match self {
            Nd::Sin(_) => "sin",
            Nd::Saw(_) => "saw",
            Nd::Squ(_) => "squ",
            Nd::Tri(_) => "tri",
            Nd::Sig(_) => "sig",
            Nd::Imp(_) => "imp",
            Nd::Noise(_) => "noise",
            Nd::Speed(_) => "speed",
            Nd::Seq(_) => "seq",
            Nd::Choose(_) => "choose",
            Nd::Arrange(_) => "arrange",
            Nd::Mul(_) => "mul",
            Nd::Add(_) => "add",
            Nd::Pan(_) => "pan",
            Nd::Mix(_) => "mix",
            Nd::Get(_) => "get",
            Nd::Balance(..) => "balance",
            Nd::DelayN(_) | Nd::DelayNRef(_) => "delayn",
            Nd::DelayMs(_) => "delayms",
            Nd::OnePole(_) => "onepole",
            Nd::Lpf(..) | Nd::LpfPat(..) => "lpf",
            Nd::Hpf(..) => "hpf",
            Nd::Apf(..) => "apfmsgain",
            Nd::EnvPerc(..) => "envperc",
            Nd::Adsr(..) => "adsr",
            Nd::Plate(_) => "plate",
            Nd::Bd(_) => "bd",
            Nd::Sn(_) => "sn",
            Nd::Hh(_) => "hh",
            Nd::SawSynth(..) => "sawsynth",
            Nd::SquSynth(..) => "squsynth",
            Nd::TriSynth(..) => "trisynth",
            Nd::Sp(_) => "sp",
            Nd::PSampler(..) => "psampler",
            Nd::PSynth(..) => "psynth",
            Nd::MsgSynth(..) => "msgsynth",
            Nd::Eval(_) => "eval",
            Nd::Meta(_) => "meta",
            Nd::Points(..) => "points",
        }
    }

    fn pieces(&self) -> Vec<Pc> {
        let mut v = vec![];
        match self {
            Nd::Sin(p) => {
                v.push(t("sin"));
                pp(&mut v, p)
            }
            Nd::Saw(p) => {
                v.push(t("saw"));
                pp(&mut v, p)
            }
            Nd::Squ(p) => {
                v.push(t("squ"));
                pp(&mut v, p)
            }
            Nd::Tri(p) => {
                v.push(t("tri"));
                pp(&mut v, p)
            }
            Nd::Sig(x) => {
                v.push(Alt(&["sig", "constsig"]));
                nums(&mut v, &[*x])
            }
            Nd::Imp(x) => {
                v.push(t("imp"));
                nums(&mut v, &[*x])
            }
            Nd::Noise(s) => {
                v.push(Alt(&["noise", "noiz"]));
                v.push(Ws);
                v.push(Int(*s as i64));
            }
            Nd::Speed(x) => {
                v.push(t("speed"));
                nums(&mut v, &[*x])
            }
            Nd::Seq(groups) => {
                v.push(t("seq"));
                for g in groups {
                    v.push(Ws);
                    let mut s = String::new();
                    for n in g {
                        match n {
                            Note::M(m) => s += &m.to_string(),
                            Note::Rest => s.push('_'),
                            Note::R(c) => {
                                s.push('~');
                                s.push(*c)
                            }
                        }
                    }
                    v.push(T(s));
                }
            }
            Nd::Choose(xs) => {
                v.push(t("choose"));
                for x in xs {
                    v.push(Ws);
                    v.push(Int(*x as i64));
                }
            }
            Nd::Arrange(es) => {
                v.push(t("arrange"));
                for (r, n) in es {
                    v.push(Ws);
                    v.push(t(r));
                    v.push(Ws);
                    v.push(Num(*n));
                }
            }
            Nd::Mul(p) => {
                v.push(t("mul"));
                pp(&mut v, p)
            }
            Nd::Add(p) => {
                v.push(t("add"));
                pp(&mut v, p)
            }
            Nd::Pan(p) => {
                v.push(t("pan"));
                pp(&mut v, p)
            }
            Nd::Mix(rs) => {
                v.push(t("mix"));
                for r in rs {
                    v.push(Ws);
                    v.push(t(r));
                }
            }
            Nd::Get(r) => {
                v.push(Alt(&["", "get "]));
                v.push(t(r))
            }
            Nd::Balance(a, b) => {
                v.push(t("balance"));
                for r in [a, b] {
                    v.push(Ws);
                    v.push(t(r));
                }
            }
            Nd::DelayN(n) => {
                v.push(t("delayn"));
                v.push(Ws);
                v.push(Int(*n as i64));
            }
            Nd::DelayNRef(r) => {
                v.push(t("delayn"));
                v.push(Ws);
                v.push(t(r));
            }
            Nd::DelayMs(p) => {
                v.push(t("delayms"));
                pp(&mut v, p)
            }
            Nd::OnePole(p) => {
                v.push(t("onepole"));
                pp(&mut v, p)
            }
            Nd::Lpf(p, q) => {
                v.push(t("lpf"));
                pp(&mut v, p);
                nums(&mut v, &[*q])
            }
            Nd::LpfPat(es, span, q) => {
                v.push(t("lpf"));
                v.push(Ws);
                v.push(t("\""));
                for (i, (val, time)) in es.iter().enumerate() {
                    if i > 0 {
                        v.push(Ws);
                    }
                    v.push(Num(*val));
                    v.push(t("@"));
                    v.push(Num(*time));
                }
                v.push(t("\"("));
                if let Some(s) = span {
                    v.push(Num(*s));
                }
                v.push(t(")"));
                nums(&mut v, &[*q])
            }
            Nd::Hpf(p, q) => {
                v.push(Alt(&["hpf", "rhpf"]));
                pp(&mut v, p);
                nums(&mut v, &[*q])
            }
            Nd::Apf(p, g) => {
                v.push(Alt(&["apfmsgain", "apfgain"]));
                pp(&mut v, p);
                nums(&mut v, &[*g])
            }
            Nd::EnvPerc(a, d) => {
                v.push(t("envperc"));
                nums(&mut v, &[*a, *d])
            }
            Nd::Adsr(a, d, s, r) => {
                v.push(t("adsr"));
                nums(&mut v, &[*a, *d, *s, *r])
            }
            Nd::Plate(x) => {
                v.push(t("plate"));
                nums(&mut v, &[*x])
            }
            Nd::Bd(x) => {
                v.push(t("bd"));
                nums(&mut v, &[*x])
            }
            Nd::Sn(x) => {
                v.push(t("sn"));
                nums(&mut v, &[*x])
            }
            Nd::Hh(x) => {
                v.push(t("hh"));
                nums(&mut v, &[*x])
            }
            Nd::SawSynth(a, d) => {
                v.push(t("sawsynth"));
                nums(&mut v, &[*a, *d])
            }
            Nd::SquSynth(a, d) => {
                v.push(t("squsynth"));
                nums(&mut v, &[*a, *d])
            }
            Nd::TriSynth(a, d) => {
                v.push(t("trisynth"));
                nums(&mut v, &[*a, *d])
            }
            Nd::Sp(s) => {
                v.push(Alt(&["sp", "sampler"]));
                v.push(Ws);
                v.push(t(s));
            }
            Nd::PSampler(es, span) => {
                v.push(t("psampler"));
                v.push(Ws);
                v.push(t("\""));
                for (i, (s, time)) in es.iter().enumerate() {
                    if i > 0 {
                        v.push(Ws);
                    }
                    v.push(t(s));
                    v.push(t("@"));
                    v.push(Num(*time));
                }
                v.push(t("\"("));
                if let Some(s) = span {
                    v.push(Num(*s));
                }
                v.push(t(")"));
            }
            Nd::PSynth(es, span) => {
                v.push(Alt(&["psynth", "p_synth", "pattern_synth"]));
                v.push(Ws);
                v.push(T(format!("`{}`", psynth_text(es))));
                if let Some(s) = span {
                    v.push(Ws);
                    v.push(Num(*s));
                }
            }
            Nd::MsgSynth(a, d) => {
                v.push(Alt(&["msgsynth", "msg_synth"]));
                v.push(Ws);
                v.push(t("\\saw"));
                nums(&mut v, &[*a, *d])
            }
            Nd::Eval(c) => {
                v.push(t("eval"));
                v.push(Ws);
                v.push(T(format!("`{c}`")));
            }
            Nd::Meta(c) => {
                v.push(Alt(&["meta", "script"]));
                v.push(Ws);
                v.push(T(format!("`{c}`")));
            }
            Nd::Points(pts, span, looping) => {
                v.push(t("["));
                v.push(PWs);
                for p in pts {
                    match p.bar {
                        (n, Some(d), _) => {
                            v.push(T(n.to_string()));
                            v.push(PWs);
                            v.push(t("/"));
                            v.push(PWs);
                            v.push(T(d.to_string()));
                        }
                        (_, None, x) => v.push(Num(x)),
                    }
                    if let Some((ms, off)) = p.off {
                        v.push(PWs);
                        v.push(t(if off < 0. { "-" } else { "+" }));
                        v.push(PWs);
                        v.push(T(num_plain(off.abs())));
                        v.push(t(if ms { "_ms" } else { "_s" }));
                    }
                    v.push(PWs);
                    v.push(t("=>"));
                    v.push(PWs);
                    v.push(Num(p.val));
                    v.push(Ws);
                    v.push(PWs);
                }
                v.push(t("]"));
                if let Some((mul, n)) = span {
                    v.push(PWs);
                    v.push(t(if *mul { "*" } else { "/" }));
                    v.push(PWs);
                    v.push(Factor(*n));
                }
                if *looping {
                    v.push(PWs);
                    v.push(t("!"));
                }
            }
        }
        v
    }

    pub fn text(&self) -> String {
        let mut s = String::new();
        for p in self.pieces() {
            match p {
                T(x) => s += &x,
                Alt(a) => s += a[0],
                Num(x) | Factor(x) => s += &num_plain(x),
                Int(x) => s += &x.to_string(),
                Ws => s.push(' '),
                PWs => {}
            }
        }
        s
    }

    /// The same node in a random spelling
    pub fn text_varied(&self, r: &mut Rng) -> String {
        let mut s = String::new();
        for p in self.pieces() {
            match p {
                T(x) => s += &x,
                Alt(a) => s += r.pick(a),
                Num(x) => s += &num_varied(x, r),
                Factor(x) => s += &factor_varied(x, r),
                Int(x) => s += &x.to_string(),
                Ws => s += &blanks(r, 1, 4),
                PWs => {
                    if r.chance(0.5) {
                        let n = r.us(0, 3);
                        for _ in 0..n {
                            s.push(*r.pick(&[' ', '\n', '\t', ' ']));
                        }
                    }
                }
            }
        }
        s
    }

    pub fn refs(&self) -> Vec<String> {
        match self {
            Nd::Sin(P::R(r)) | Nd::Saw(P::R(r)) | Nd::Squ(P::R(r)) | Nd::Tri(P::R(r)) | Nd::Mul(P::R(r))
            | Nd::Add(P::R(r)) | Nd::Pan(P::R(r)) | Nd::DelayMs(P::R(r)) | Nd::OnePole(P::R(r))
            | Nd::Lpf(P::R(r), _) | Nd::Hpf(P::R(r), _) | Nd::Apf(P::R(r), _) | Nd::Get(r) | Nd::DelayNRef(r) => {
                vec![r.clone()]
            }
            Nd::Seq(gs) => {
                let mut v: Vec<String> = vec![];
                for n in gs.iter().flatten() {
                    if let Note::R(c) = n {
                        let s = format!("~{c}");
                        if !v.contains(&s) {
                            v.push(s);
                        }
                    }
                }
                v
            }
            Nd::Arrange(es) => es.iter().map(|e| e.0.clone()).collect(),
            Nd::Mix(rs) => rs.clone(),
            Nd::Balance(a, b) => vec![a.clone(), b.clone()],
            _ => vec![],
        }
    }

    /// rename every reference
    pub fn map_refs(&self, f: &dyn Fn(&str) -> String) -> Nd {
        let mut n = self.clone();
        match &mut n {
            Nd::Sin(P::R(r)) | Nd::Saw(P::R(r)) | Nd::Squ(P::R(r)) | Nd::Tri(P::R(r)) | Nd::Mul(P::R(r))
            | Nd::Add(P::R(r)) | Nd::Pan(P::R(r)) | Nd::DelayMs(P::R(r)) | Nd::OnePole(P::R(r))
            | Nd::Lpf(P::R(r), _) | Nd::Hpf(P::R(r), _) | Nd::Apf(P::R(r), _) | Nd::Get(r) | Nd::DelayNRef(r) => *r = f(r),
            Nd::Seq(gs) => {
                for n in gs.iter_mut().flatten() {
                    if let Note::R(c) = n {
                        let s = f(&format!("~{c}"));
                        *c = s.chars().nth(1).unwrap();
                    }
                }
            }
            Nd::Arrange(es) => es.iter_mut().for_each(|e| e.0 = f(&e.0)),
            Nd::Mix(rs) => rs.iter_mut().for_each(|r| *r = f(r)),
            Nd::Balance(a, b) => {
                *a = f(a);
                *b = f(b)
            }
            _ => {}
        }
        n
    }

    pub fn samples(&self) -> Vec<String> {
        match self {
            Nd::Sp(s) => vec![s.clone()],
            Nd::PSampler(es, _) => es.iter().map(|e| e.0.clone()).collect(),
            _ => vec![],
        }
    }

    /// does the parsed component say the same?
    pub fn same_as(&self, c: &Component) -> bool {
        fn p(a: &P, b: &NumberOrRef<&str>) -> bool {
            match (a, b) {
                (P::N(x), NumberOrRef::Number(y)) => x == y,
                (P::R(x), NumberOrRef::Ref(y)) => x == y,
                _ => false,
            }
        }
        fn pn(a: f32, b: &NumberOrRef<&str>) -> bool {
            matches!(b, NumberOrRef::Number(y) if a == *y)
        }
        match (self, c) {
            (Nd::Sin(a), Component::Sin(gn::Sin { param })) => p(a, param),
            (Nd::Saw(a), Component::Saw(gn::Saw { param })) => p(a, param),
            (Nd::Squ(a), Component::Squ(gn::Squ { param })) => p(a, param),
            (Nd::Tri(a), Component::Tri(gn::Tri { param })) => p(a, param),
            (Nd::Mul(a), Component::Mul(gn::Mul { param })) => p(a, param),
            (Nd::Add(a), Component::Add(gn::Add { param })) => p(a, param),
            (Nd::Pan(a), Component::Pan(gn::Pan { param })) => p(a, param),
            (Nd::DelayMs(a), Component::Delayms(gn::Delayms { param })) => p(a, param),
            (Nd::OnePole(a), Component::Onepole(gn::Onepole { param })) => p(a, param),
            (Nd::Sig(x), Component::ConstSig(gn::ConstSig { value })) => x == value,
            (Nd::Imp(x), Component::Imp(gn::Imp { param })) => pn(*x, param),
            (Nd::Noise(s), Component::Noise(gn::Noise { seed })) => *s as usize == *seed,
            (Nd::Speed(x), Component::Speed(gn::Speed { speed })) => x == speed,
            (Nd::Seq(groups), Component::Seq(gn::Seq { events })) => {
                let mut want = vec![];
                let n = groups.len() as f64;
                for (i, g) in groups.iter().enumerate() {
                    for (j, note) in g.iter().enumerate() {
                        let time = (i as f64 + j as f64 / g.len() as f64) / n;
                        match note {
                            Note::M(m) => want.push((time, Some(*m as usize), String::new())),
                            Note::R(c) => want.push((time, None, format!("~{c}"))),
                            Note::Rest => {}
                        }
                    }
                }
                want.len() == events.len()
                    && want.iter().zip(events).all(|(w, (time, e))| {
                        (w.0 - *time as f64).abs() < 1e-6
                            && match e {
                                UsizeOrRef::Usize(u) => w.1 == Some(*u),
                                UsizeOrRef::Ref(r) => w.1.is_none() && w.2 == *r,
                            }
                    })
            }
            (Nd::Choose(xs), Component::Choose(gn::Choose { choices })) => {
                xs.len() == choices.len() && xs.iter().zip(choices).all(|(a, b)| *a as f32 == *b)
            }
            (Nd::Arrange(es), Component::Arrange(gn::Arrange { events })) => {
                events.len() == 2 * es.len()
                    && es.iter().enumerate().all(|(i, (r, n))| {
                        matches!(&events[2 * i], NumberOrRef::Ref(s) if s == r) && pn(*n, &events[2 * i + 1])
                    })
            }
            (Nd::Mix(rs), Component::Mix(gn::Mix { nodes })) => rs.iter().map(|s| s.as_str()).eq(nodes.iter().copied()),
            (Nd::Get(r), Component::Get(gn::Get { reference })) => r == reference,
            (Nd::Balance(a, b), Component::Balance(gn::Balance { left, right })) => a == left && b == right,
            (Nd::DelayN(n), Component::Delayn(gn::Delayn { param })) => {
                matches!(param, UsizeOrRef::Usize(m) if *m == *n as usize)
            }
            (Nd::DelayNRef(r), Component::Delayn(gn::Delayn { param })) => matches!(param, UsizeOrRef::Ref(s) if s == r),
            (Nd::Lpf(a, q), Component::Lpf(gn::Lpf { signal, qvalue })) => {
                q == qvalue
                    && match (a, signal) {
                        (P::N(x), gn::Signal::Number(y)) => x == y,
                        (P::R(x), gn::Signal::Reference(y)) => x == y,
                        _ => false,
                    }
            }
            (Nd::LpfPat(es, span, q), Component::Lpf(gn::Lpf { signal, qvalue })) => {
                q == qvalue
                    && match signal {
                        gn::Signal::Pattern(p) => {
                            p.span == span.unwrap_or(1.)
                                && p.event.val_times.len() == es.len()
                                && es.iter().zip(&p.event.val_times).all(|(a, b)| {
                                    a.1 == b.1 && matches!(b.0, gn::EventValue::Number(v) if v == a.0)
                                })
                        }
                        _ => false,
                    }
            }
            (Nd::Hpf(a, q), Component::Rhpf(gn::Rhpf { cutoff, qvalue })) => p(a, cutoff) && q == qvalue,
            (Nd::Apf(a, g), Component::ApfmsGain(gn::ApfmsGain { delay, gain })) => p(a, delay) && g == gain,
            (Nd::EnvPerc(a, d), Component::EnvPerc(gn::EnvPerc { attack, decay })) => a == attack && d == decay,
            (Nd::Adsr(a, d, s, r), Component::Adsr(gn::Adsr { attack, decay, sustain, release })) => {
                a == attack && d == decay && s == sustain && r == release
            }
            (Nd::Plate(x), Component::Plate(gn::Plate { mix })) => x == mix,
            (Nd::Bd(x), Component::Bd(gn::Bd { param })) => pn(*x, param),
            (Nd::Sn(x), Component::Sn(gn::Sn { param })) => pn(*x, param),
            (Nd::Hh(x), Component::Hh(gn::Hh { param })) => pn(*x, param),
            (Nd::SawSynth(a, d), Component::SawSynth(gn::SawSynth { attack, decay })) => a == attack && d == decay,
            (Nd::SquSynth(a, d), Component::SquSynth(gn::SquSynth { attack, decay })) => a == attack && d == decay,
            (Nd::TriSynth(a, d), Component::TriSynth(gn::TriSynth { attack, decay })) => a == attack && d == decay,
            (Nd::Sp(s), Component::Sp(gn::Sp { sample_sym })) => s == sample_sym,
            (Nd::PSampler(es, span), Component::PSampler(gn::PSampler::Pattern(p))) => {
                p.span == span.unwrap_or(1.)
                    && p.event.val_times.len() == es.len()
                    && es
                        .iter()
                        .zip(&p.event.val_times)
                        .all(|(a, b)| a.1 == b.1 && matches!(b.0, gn::EventValue::Symbol(v) if v == a.0))
            }
            (Nd::PSynth(es, span), Component::PatternSynth(gn::PatternSynth { symbol, span: s })) => {
                *s == span.unwrap_or(1.) && symbol.trim_matches('`') == psynth_text(es)
            }
            (Nd::MsgSynth(a, d), Component::MsgSynth(gn::MsgSynth { symbol, attack, decay })) => {
                symbol == &"\\saw" && a == attack && d == decay
            }
            (Nd::Eval(s), Component::Eval(gn::Eval { code })) => s.trim() == code.code.trim(),
            (Nd::Meta(s), Component::Meta(gn::Meta { code })) => s == code.code,
            (Nd::Points(pts, span, looping), Component::Points(gn::Points { points, span: s, is_looping })) => {
                let want = span.map_or(1.0, |(mul, n)| if mul { n as f64 } else { 1.0 / n as f64 });
                looping == is_looping
                    && (want - *s as f64).abs() < 1e-6 * want.abs().max(1.)
                    && pts.len() == points.len()
                    && pts.iter().zip(points).all(|(a, (t, v))| {
                        let bar = match a.bar {
                            (n, Some(d), _) => n as f64 / d as f64,
                            (_, None, x) => x as f64,
                        };
                        (bar - t.bar as f64).abs() < 1e-6 * bar.abs().max(1.)
                            && a.val == *v
                            && match (&a.off, &t.time) {
                                (None, None) => true,
                                (Some((true, x)), Some(gn::Duration::Milliseconds(y))) => x == y,
                                (Some((false, x)), Some(gn::Duration::Seconds(y))) => x == y,
                                _ => false,
                            }
                    })
            }
            _ => false,
        }
    }
}

/// A factor as a number or, where it is one exactly, as a fraction
fn factor_varied(x: f32, r: &mut Rng) -> String {
    let d = *r.pick(&[1u32, 2, 4, 8, 16, 6, 24]);
    let n = x * d as f32;
    if r.chance(0.4) || n.fract() != 0. || n / d as f32 != x {
        return num_plain(x);
    }
    let gap = |r: &mut Rng| *r.pick(&["", "", " ", "  "]);
    format!("({}{}/{}{})", n, gap(r), gap(r), d)
}

pub fn psynth_text(es: &[(f32, f32)]) -> String {
    es.iter().map(|(t, m)| format!("{} {}", num_plain(*t), num_plain(*m))).collect::<Vec<_>>().join(", ")
}

pub fn num_plain(x: f32) -> String {
    format!("{x}")
}

fn num_varied(x: f32, r: &mut Rng) -> String {
    let base = format!("{x}");
    let plus = |s: String, r: &mut Rng| if x >= 0. && !s.starts_with('-') && r.chance(0.15) { format!("+{s}") } else { s };
    let alt = if base.contains('.') {
        match r.below(5) {
            0 => format!("{base}0"),
            1 => {
                // a leading zero
                if let Some(s) = base.strip_prefix('-') {
                    format!("-0{s}")
                } else {
                    format!("0{base}")
                }
            }
            2 => {
                let e = format!("{x:e}");
                let (m, ex) = e.split_once('e').unwrap();
                let m = if m.contains('.') { m.to_string() } else { format!("{m}.0") };
                format!("{m}{}{ex}", r.pick(&["e", "E"]))
            }
            _ => base,
        }
    } else {
        match r.below(4) {
            0 => format!("{base}.0"),
            1 => format!("{base}."),
            _ => base,
        }
    };
    plus(alt, r)
}

pub fn blanks(r: &mut Rng, lo: usize, hi: usize) -> String {
    let n = r.us(lo, hi);
    (0..n).map(|_| *r.pick(&[' ', ' ', ' ', '\t', ',', '|'])).collect()
}

impl Prog {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for (n, c) in &self.chains {
            s += n;
            s += ": ";
            s += &c.iter().map(|d| d.text()).collect::<Vec<_>>().join(" >> ");
            s += ";\n";
        }
        s
    }

    /// The same program, laid out at random
    pub fn text_varied(&self, r: &mut Rng) -> String {
        let comment = |r: &mut Rng| {
            let body = *r.pick(&[
                "",
                " note",
                " o: sin 440 >> mul 0.5",
                " >> mul 0.1;",
                " \"`'~ ; : ünïcödé // nested",
                "/ ~x: saw 3",
            ]);
            format!("//{body}\n")
        };
        let mut s = String::new();
        for _ in 0..r.below(3) {
            s.push(*r.pick(&['\n', ' ', '\t']));
        }
        for (i, (n, c)) in self.chains.iter().enumerate() {
            if r.chance(0.2) {
                s += &comment(r);
            }
            s += n;
            s += &blanks(r, 0, 2);
            s.push(':');
            s += &blanks(r, 0, 3);
            for (j, d) in c.iter().enumerate() {
                if j > 0 {
                    match r.below(6) {
                        0 => {
                            s += &blanks(r, 0, 2);
                            s.push('\n');
                            s += &blanks(r, 0, 4);
                        }
                        1 => {
                            s += &blanks(r, 1, 2);
                            s += &comment(r);
                            s += &blanks(r, 0, 3);
                        }
                        _ => s += &blanks(r, 0, 3),
                    }
                    s += ">>";
                    s += &blanks(r, 0, 3);
                }
                s += &d.text_varied(r);
            }
            let last = i + 1 == self.chains.len();
            s += &blanks(r, 0, 2);
            match r.below(5) {
                0 => {
                    s.push(';');
                    s += &blanks(r, 0, 2);
                }
                1 => {
                    s.push(';');
                    s.push('\n');
                }
                2 => {
                    s.push(' ');
                    s += &comment(r);
                }
                _ => {
                    if !last || r.chance(0.5) {
                        for _ in 0..r.us(1, 3) {
                            s.push('\n');
                            s += &blanks(r, 0, 2);
                        }
                    }
                }
            }
        }
        s
    }

    pub fn get(&self, name: &str) -> Option<&Vec<Nd>> {
        self.chains.iter().find(|c| c.0 == name).map(|c| &c.1)
    }

    pub fn node_count(&self) -> usize {
        self.chains.iter().map(|c| c.1.len()).sum()
    }

    /// chains from which an audible chain is reached
    pub fn reachable(&self) -> Vec<String> {
        let mut seen: Vec<String> = vec![];
        let mut todo: Vec<String> = self.chains.iter().map(|c| c.0.clone()).filter(|n| !n.contains('~')).collect();
        while let Some(n) = todo.pop() {
            if seen.contains(&n) {
                continue;
            }
            if let Some(c) = self.get(&n) {
                for d in c {
                    for r in d.refs() {
                        if let Some(p) = r.strip_suffix("..") {
                            todo.extend(self.chains.iter().map(|c| c.0.clone()).filter(|n| n.starts_with(p)));
                        } else {
                            todo.push(r);
                        }
                    }
                }
            }
            seen.push(n);
        }
        seen
    }
}
