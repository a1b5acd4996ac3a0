//! C34: the plate reverb.

use crate::gen::*;
use crate::rep::*;
use crate::rng::Rng;
use crate::session::*;
use glicol::Engine;

pub fn c34(rep: &Rep) {
    rep.rule(
        "a case is one input signal played through plates of mix 0, 1 and a random mix that messages change, and through full-mix plates given a second signal and the weighted sum of both, \
         compared block by block, then silence to the end of the tail; cases are distinct by signals and events and count when the reverberation was heard",
    );
    rep.assume("44.1 kHz to 96 kHz; sessions of some seconds");
    rep.cases("plate", rep.n(120, 6000), rep.n(12, 900), |r, _| match r.below(3) {
        0 => plate::<32>(rep, r),
        1 => plate::<64>(rep, r),
        _ => plate::<128>(rep, r),
    });
    for k in ["first_arrivals", "messages", "updates", "tails"] {
        rep.require(k, 50);
    }
}

struct Sig {
    kind: usize,
    freq: f64,
    len: usize,
}
impl Sig {
    fn new(r: &mut Rng) -> Sig {
        Sig { kind: r.below(4), freq: r.f(20., 4000.), len: *r.pick(&[1usize, 100, 3000, 30000]) }
    }
    fn at(&self, r: &mut Rng, t: usize) -> f32 {
        if t >= self.len {
            return 0.;
        }
        (match self.kind {
            0 => r.f(-1., 1.),
            1 => (t as f64 * self.freq / 44100. * std::f64::consts::TAU).cos() * 0.9,
            2 => 0.7,
            _ => {
                if t % 500 == 0 {
                    1.
                } else {
                    0.
                }
            }
        }) as f32
    }
}

fn plate<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let mut cfg = Cfg::random(r);
    cfg.sr = *r.pick(&[44100, 44100, 48000, 96000]);
    let (xs, ys) = (Sig::new(r), Sig::new(r));
    let (mut xr, mut yr) = (r.fork(), r.fork());
    let a = r.dec(-1.5, 1.5, 2);
    let mut mix = r.dec(0., 1., 2);
    let start = r.us(0, 3000);
    // quiet signals sound the same, only quieter
    let gain = *r.pick(&[1f32, 1., 1., 0.001, 3e-5]);
    let text = |m: f32| format!("o: ~input >> plate {m};\n");
    let open = |m: f32| -> Result<Engine<N>, String> {
        let mut e = engine::<N>(&cfg);
        must_text(&mut e, &text(m))?;
        Ok(e)
    };
    note(format!("rate {}, block {N}, mix {mix}, weight {a}, start {start}, gain {gain}", cfg.sr));
    let (mut dry, mut wet, mut any, mut second, mut both) = (open(0.)?, open(1.)?, open(mix)?, open(1.)?, open(1.)?);
    let written = mix;
    let mut desc = format!("{} {N} {mix} {a} {start} {gain} {} {} {:.1}", cfg.sr, xs.kind, xs.len, xs.freq);
    let mut first: [Option<usize>; 2] = [None, None];
    let mut begun: Option<usize> = None;
    let mut extra = false;
    let heard = (start + 40000) / N;
    let mut loud = 0f32;
    let mut sides = 0f32;
    for b in 0..heard {
        if r.chance(3. / heard as f64) {
            mix = r.dec(0., 1., 2);
            note(format!("block {b}: message mix {mix}"));
            any.send_msg(&format!("o,1,0,{mix}"));
            desc += &format!(" {b}:{mix}");
            rep.count("messages", 1);
        }
        if r.chance(2. / heard as f64) {
            // something silent comes and goes, or a text is rejected
            extra = !extra;
            note(format!("block {b}: update"));
            let t = text(written) + if extra { "z: sin 300 >> mul 0;\n" } else { "" };
            must_text(&mut any, &t)?;
            if r.chance(0.5) && any.update_with_code(&(t + "o: sin ~no")).is_ok() {
                return Err("an invalid program was accepted".into());
            }
            rep.count("updates", 1);
        }
        let (mut x, mut y, mut z) = ([0f32; N], [0f32; N], [0f32; N]);
        for i in 0..N {
            let t = b * N + i;
            if t >= start {
                x[i] = gain * xs.at(&mut xr, t - start);
            }
            y[i] = gain * ys.at(&mut yr, t);
            z[i] = a * x[i] + y[i];
            if x[i] != 0. && begun.is_none() {
                begun = Some(t);
            }
        }
        // what is on the right does not matter
        let (q, _) = input::<N>(r);
        let zero = [0f32; N];
        let d = render(&mut dry, &x, &q);
        let w = render(&mut wet, &x, &zero);
        let m = render(&mut any, &x, &q);
        let s = render(&mut second, &y, &zero);
        let t = render(&mut both, &z, &q);
        for c in 0..2 {
            for i in 0..N {
                let at = b * N + i;
                if d[c][i] != x[i] {
                    return Err(format!("block {b} sample {i} side {c}: without reverberation the input {} comes out as {}", x[i], d[c][i]));
                }
                let want = (1. - mix) * x[i] + mix * w[c][i];
                if !((m[c][i] - want).abs() <= 2e-5 * (gain + w[c][i].abs())) {
                    return Err(format!("block {b} sample {i} side {c}: mix {mix} of input {} and reverberation {} is {}, not {want}", x[i], w[c][i], m[c][i]));
                }
                let sum = a * w[c][i] + s[c][i];
                if !((t[c][i] - sum).abs() <= 2e-4 * (gain + loud)) {
                    return Err(format!("block {b} sample {i} side {c}: the reverberation of {a} times one signal plus another is {}, of each by itself it sums to {sum}", t[c][i]));
                }
                loud = loud.max(w[c][i].abs()).max(s[c][i].abs());
                if w[c][i] != 0. && first[c].is_none() {
                    first[c] = Some(at);
                    rep.count("first_arrivals", 1);
                    // a pre-delay of 50 ms
                    if begun.map_or(true, |g| at < g + 2205) {
                        return Err(format!("side {c}: the reverberation starts at sample {at}, the input at {begun:?}"));
                    }
                }
            }
        }
        for i in 0..N {
            sides = sides.max((w[0][i] - w[1][i]).abs());
        }
    }
    let Some(g) = begun else { return Err("the input never began".into()) };
    for c in 0..2 {
        if first[c].map_or(true, |f| f > g + 10000) {
            return Err(format!("side {c}: the reverberation of an input at sample {g} starts at {:?}", first[c]));
        }
    }
    if cfg.sr == 44100 && first[0] != Some(g + 2205 + 394) {
        return Err(format!("the reverberation of an input at sample {g} reaches the left at {:?}", first[0]));
    }
    if sides == 0. {
        return Err("both sides have the same reverberation".into());
    }
    // the tail dies away
    let window = 44100 / N;
    let mut tail = vec![];
    for _ in 0..3 {
        let mut p = 0f64;
        for _ in 0..window {
            let o = silent(&mut wet);
            p += o.iter().flatten().map(|v| (*v as f64).powi(2)).sum::<f64>();
        }
        tail.push((p / (window * N) as f64).sqrt());
    }
    rep.count("tails", 1);
    rep.maxi("loudest_per_mille", (loud * 1000.) as u64);
    rep.maxi("tail_ratio_per_mille", (tail[1] / tail[0].max(1e-9) * 1000.) as u64);
    if !loud.is_finite() || loud > 16. * gain {
        return Err(format!("the reverberation reaches {loud}"));
    }
    for k in 0..2 {
        let fall = tail[k + 1] / tail[k];
        if !(0.005..=0.4).contains(&fall) {
            return Err(format!("the tail does not die away within seconds: {tail:?} in windows of one second"));
        }
    }
    Ok(Obs::new(desc, loud > 0.))
}
