//! C35: the synth library used on its own.
//!
//! A program is played by an engine, and built by hand in an audio context: the nodes packaged in
//! every way the library offers and wired through every call it has. The buffers of corresponding
//! nodes must stay the same.

use super::mix::rich;
use super::msgs::slots;
use crate::gen::*;
use crate::prog::*;
use crate::rep::*;
use crate::rng::Rng;
use crate::session::*;
use glicol_parser::nodes::{Component, NumberOrRef};
use glicol_parser::ToInnerOwned;
use glicol_synth::compound::*;
use glicol_synth::delay::*;
use glicol_synth::dynamic::*;
use glicol_synth::effect::*;
use glicol_synth::envelope::*;
use glicol_synth::filter::*;
use glicol_synth::operator::*;
use glicol_synth::oscillator::*;
use glicol_synth::sampling::*;
use glicol_synth::sequencer::*;
use glicol_synth::signal::*;
use glicol_synth::synth::*;
use glicol_synth::{audiocontext, AudioContext, AudioContextBuilder, AudioContextConfig, BoxedNodeSend, Buffer, GlicolNodeData, Message, Node, NodeData, Pass, Sum2};
use hashbrown::HashMap;
use petgraph::graph::NodeIndex;
use std::collections::BTreeMap;

pub fn c35(rep: &Rep) {
    rep.rule(
        "a case is a program played by an engine and the same nodes built by hand in an audio context, packaged and wired at random, with messages, tempo changes and rebuilding after a reset; \
         the buffers of corresponding nodes and the output are compared after every block; cases are distinct by program; a case counts when some sound came out",
    );
    rep.assume("the context gets the nodes with the parameters, rate and channel counts the engine uses");
    rep.cases("patch", rep.n(30_000, 800_000), rep.n(18, 300), |r, _| match r.below(3) {
        0 => patch::<16>(rep, r),
        1 => patch::<64>(rep, r),
        _ => patch::<128>(rep, r),
    });
    for k in ["boxed", "borrowed", "twice_boxed", "chained", "chained_new", "added_chain", "placed", "connected", "to_all", "to_one", "rebuilt"] {
        rep.require(k, 200);
    }
}

/// A node in one of the wrappings the library has
fn pack<T: Node<N> + Send + 'static, const N: usize>(rep: &Rep, r: &mut Rng, ch: usize, n: T) -> GlicolNodeData<N> {
    match r.below(12) {
        0 | 1 => {
            rep.count("boxed", 1);
            NodeData::multi_chan_node(ch, BoxedNodeSend::new(Box::new(n)))
        }
        2 => {
            rep.count("twice_boxed", 1);
            NodeData::new(BoxedNodeSend::new(BoxedNodeSend::new(n)), vec![Buffer::SILENT; ch])
        }
        3 => NodeData::new(BoxedNodeSend::from(Box::new(n)), vec![Buffer::SILENT; ch]),
        4 if std::mem::size_of::<T>() < 512 && r.chance(0.3) => {
            // never given back
            rep.count("borrowed", 1);
            let b: &'static mut T = Box::leak(Box::new(n));
            NodeData::multi_chan_node(ch, BoxedNodeSend::new(b))
        }
        _ => n.to_boxed_nodedata(ch),
    }
}

fn num(p: &P, d: f32) -> f32 {
    match p {
        P::N(x) => *x,
        P::R(_) => d,
    }
}

fn make<const N: usize>(rep: &Rep, r: &mut Rng, cfg: &Cfg, bpm: f32, d: &Nd) -> Option<GlicolNodeData<N>> {
    let sr = cfg.sr;
    macro_rules! p {
        ($ch:expr, $n:expr) => {
            pack::<_, N>(rep, r, $ch, $n)
        };
    }
    macro_rules! rated {
        ($n:expr) => {{
            let mut n = p!(2, $n);
            n.node.send_msg(Message::SetSampleRate(sr));
            n
        }};
    }
    Some(match d {
        Nd::Sin(f) => p!(1, SinOsc::new().sr(sr).freq(num(f, 0.))),
        Nd::Saw(f) => p!(1, SawOsc::new().sr(sr).freq(num(f, 0.))),
        Nd::Squ(f) => p!(1, SquOsc::new().sr(sr).freq(num(f, 0.))),
        Nd::Tri(f) => p!(1, TriOsc::new().sr(sr).freq(num(f, 0.))),
        Nd::Sig(v) => p!(1, ConstSig::new(*v).sr(sr)),
        Nd::Imp(f) => p!(1, Impulse::new().sr(sr).freq(*f)),
        Nd::Noise(s) => p!(1, Noise::new(*s as usize)),
        Nd::Speed(v) => p!(1, Speed::from(*v)),
        Nd::Seq(_) => {
            let text = format!("o: {}", d.text());
            let ast = glicol_parser::get_ast(&text).ok()?;
            let Some(Component::Seq(q)) = ast.nodes.get("o")?.first() else { return None };
            let order: HashMap<String, usize> = d.refs().into_iter().enumerate().map(|(i, s)| (s, i)).collect();
            p!(2, Sequencer::new(q.events.to_inner_owned()).sr(sr).bpm(bpm).ref_order(order))
        }
        Nd::Choose(v) => p!(2, Choose::new(v.iter().map(|x| *x as f32).collect(), cfg.seed as u64)),
        Nd::Arrange(v) => {
            let es = v.iter().flat_map(|(s, x)| [NumberOrRef::Ref(s.clone()), NumberOrRef::Number(*x)]).collect();
            p!(2, Arrange::new(es).sr(sr).bpm(bpm))
        }
        Nd::Mul(v) => p!(2, Mul::new(num(v, 0.))),
        Nd::Add(v) => p!(2, Add::new(num(v, 0.))),
        Nd::Pan(v) => p!(2, Pan::new(num(v, 0.))),
        Nd::Mix(_) => p!(2, Sum2),
        Nd::Get(_) => p!(2, Pass),
        Nd::Balance(..) => p!(2, Balance::new()),
        Nd::DelayN(n) => p!(2, DelayN::new(*n as usize)),
        Nd::DelayNRef(_) => p!(2, DelayN::new(0)),
        Nd::DelayMs(v) => p!(2, DelayMs::new().sr(sr).delay(num(v, 2000.), 2)),
        Nd::OnePole(v) => p!(1, OnePole::new(num(v, 0.))),
        Nd::Lpf(c, q) => p!(1, ResonantLowPassFilter::new().cutoff(num(c, 100.)).q(*q).sr(sr)),
        Nd::LpfPat(v, span, q) => p!(1, ResonantLowPassFilter::new().q(*q).pattern(v.clone()).span(span.unwrap_or(1.)).bpm(bpm).sr(sr)),
        Nd::Hpf(c, q) => p!(1, ResonantHighPassFilter::new().cutoff(num(c, 100.)).q(*q).sr(sr)),
        Nd::Apf(v, g) => p!(2, AllPassFilterGain::new().sr(sr).delay(num(v, 0.)).gain(*g)),
        Nd::EnvPerc(a, b) => p!(2, EnvPerc::new().sr(sr).attack(*a).decay(*b)),
        Nd::Adsr(a, b, c, e) => p!(2, Adsr::new().sr(sr).attack(*a).decay(*b).sustain(*c).release(*e)),
        Nd::Plate(m) => p!(2, Plate::<N>::new(*m)),
        Nd::Bd(v) => rated!(Bd::<N>::new(*v)),
        Nd::Sn(v) => rated!(Sn::<N>::new(*v)),
        Nd::Hh(v) => rated!(Hh::<N>::new(*v)),
        Nd::SawSynth(a, b) => rated!(SawSynth::<N>::new(*a, *b)),
        Nd::SquSynth(a, b) => rated!(SquSynth::<N>::new(*a, *b)),
        Nd::TriSynth(a, b) => rated!(TriSynth::<N>::new(*a, *b)),
        Nd::Sp(s) => {
            let s = sample(s)?;
            p!(2, Sampler::new((s.data, s.ch, s.sr), sr))
        }
        Nd::PSampler(v, span) => {
            let table = v.iter().filter_map(|(s, _)| sample(s)).map(|s| (s.name.to_string(), (s.data, s.ch, s.sr))).collect();
            p!(2, PSampler::new(table, sr, bpm, vec![], v.clone(), span.unwrap_or(1.)))
        }
        Nd::PSynth(v, span) => p!(1, PatternSynth::new(v.clone()).sr(sr).period_in_cycle(span.unwrap_or(1.)).cycle_dur(60. / bpm * 4.)),
        Nd::Eval(c) => p!(1, Eval::<N>::new().sr(sr).code(c)),
        _ => return None,
    })
}

/// The places of a program's nodes in a context
type Places = BTreeMap<String, Vec<NodeIndex>>;

fn build<const N: usize>(rep: &Rep, r: &mut Rng, cfg: &Cfg, bpm: f32, p: &Prog, c: &mut AudioContext<N>) -> Option<Places> {
    let mut at: Places = BTreeMap::new();
    // what each node hears, in order
    let mut wires: Vec<(NodeIndex, Vec<(usize, NodeIndex)>, usize)> = vec![];
    let mut refs: Vec<(NodeIndex, Vec<String>, bool)> = vec![];
    for (name, nodes) in &p.chains {
        let data = nodes.iter().map(|d| make::<N>(rep, r, cfg, bpm, d)).collect::<Option<Vec<_>>>()?;
        let (idx, done) = match r.below(4) {
            0 => {
                rep.count("chained_new", 1);
                (c.chain_boxed(data).0, true)
            }
            1 => {
                rep.count("added_chain", 1);
                (c.add_node_chain(data).0, true)
            }
            k => {
                let idx: Vec<NodeIndex> = data
                    .into_iter()
                    .map(|d| match (d.buffers.len(), r.below(3)) {
                        (_, 0) => c.graph.add_node(d),
                        (1, 1) => c.add_mono_node(d.node),
                        (2, 1) => c.add_stereo_node(d.node),
                        (n, _) => c.add_multi_chan_node(n, d.node),
                    })
                    .collect();
                if k == 2 {
                    rep.count("chained", 1);
                    c.chain(idx.clone());
                }
                (idx, k == 2)
            }
        };
        for (i, d) in nodes.iter().enumerate() {
            let main = i > 0;
            if main && !done {
                wires.push((idx[i], vec![(0, idx[i - 1])], 0));
            }
            refs.push((idx[i], d.refs(), main));
            if main && done {
                wires.push((idx[i], vec![], 1));
            }
        }
        at.insert(name.clone(), idx);
    }
    // the references, after what the chain already gave
    for (i, names, main) in refs {
        let to: Vec<NodeIndex> = names.iter().map(|s| if s == "~input" { Some(c.input) } else { at.get(s).map(|v| *v.last().unwrap()) }).collect::<Option<_>>()?;
        let from = main as usize;
        match wires.iter_mut().find(|w| w.0 == i) {
            Some(w) => w.1.extend(to.into_iter().enumerate().map(|(k, t)| (from + k, t))),
            None => wires.push((i, to.into_iter().enumerate().collect(), 0)),
        }
    }
    r.shuffle(&mut wires);
    for (i, mut ins, have) in wires {
        if r.chance(0.5) {
            rep.count("connected", ins.len() as u64);
            for (_, x) in ins {
                c.connect(x, i);
            }
        } else {
            // in any order, each at its place among those already there
            rep.count("placed", ins.len() as u64);
            r.shuffle(&mut ins);
            let mut there: Vec<usize> = (0..have).collect();
            for (k, x) in ins {
                let pos = there.iter().filter(|t| **t < k).count();
                c.connect_with_order(x, i, pos);
                there.push(k);
            }
        }
    }
    for (name, idx) in &at {
        if !name.starts_with('~') {
            let (last, d) = (*idx.last().unwrap(), c.destination);
            match r.below(3) {
                0 => drop(c.connect(last, d)),
                1 => drop(c.chain(vec![last, d])),
                _ => drop(c.connect_with_order(last, d, 0)),
            }
        }
    }
    Some(at)
}

fn patch<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let p = rich(r, &cfg, &["points", "meta", "msgsynth"]);
    note(format!("rate {}, tempo {:?}, seed {}, block {N}\n{}", cfg.sr, cfg.bpms, cfg.seed, p.text()));
    let mut c: AudioContext<N> = match r.below(3) {
        0 => AudioContextBuilder::<N>::new().sr(cfg.sr).channels(2).max_nodes(r.us(1, 30)).max_edges(r.us(1, 30)).build(),
        1 => AudioContext::new(AudioContextConfig { sr: cfg.sr, ..Default::default() }),
        _ => audiocontext!(N, {sr: cfg.sr, channels: 2}),
    };
    let mut bpm = cfg.bpms[0];
    if r.chance(0.3) {
        // something else was here before
        let q = rich(r, &cfg, &["points", "meta", "msgsynth"]);
        if build(rep, r, &cfg, bpm, &q, &mut c).is_some() {
            for _ in 0..r.below(5) {
                c.next_block();
            }
        }
        c.reset();
        rep.count("rebuilt", 1);
    }
    let mut e = engine::<N>(&cfg);
    must(&mut e, &p)?;
    let Some(at) = build(rep, r, &cfg, bpm, &p, &mut c) else {
        return Err(format!("the harness cannot build\n{}", p.text()));
    };
    let free: Vec<(String, usize)> = p.chains.iter().filter(|x| !x.0.starts_with('~')).flat_map(|x| (0..x.1.len()).map(|i| (x.0.clone(), i))).collect();
    let mut pending = cfg.bpms[1..].to_vec();
    let mut sound = false;
    for b in 0..r.us(200, 3000) / N + 2 {
        if !pending.is_empty() && r.chance(0.1) {
            bpm = pending.remove(0);
            note(format!("block {b}: tempo {bpm}"));
            e.set_bpm(bpm);
            rep.count("to_all", 1);
            c.send_msg_to_all(Message::SetBPM(bpm));
        }
        if r.chance(0.1) {
            let (name, i) = r.pick(&free).clone();
            let d = p.chains.iter().find(|x| x.0 == name).unwrap().1[i].clone();
            let mut g = Gen::new(r, cfg.clone());
            let s = slots(&mut g, &d);
            if !s.is_empty() {
                let (k, v) = *r.pick(&s);
                note(format!("block {b}: {name} {i} {k} {v}"));
                e.context.graph[e.index_info[&name][i]].node.send_msg(Message::SetToNumber(k, v));
                c.send_msg(at[&name][i], Message::SetToNumber(k, v));
                rep.count("to_one", 1);
            }
        }
        let (l, q) = input::<N>(r);
        let input = c.input;
        for (k, x) in [&l, &q].into_iter().enumerate() {
            c.graph[input].buffers[k].copy_from_slice(x);
        }
        let want = render(&mut e, &l, &q);
        let got: Vec<Vec<f32>> = c.next_block().iter().map(|x| x.to_vec()).collect();
        for (name, idx) in &at {
            for (i, k) in idx.iter().enumerate() {
                let x = &e.context.graph[e.index_info[name][i]].buffers;
                let y = &c.graph[*k].buffers;
                let same = x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.iter().zip(y.iter()).all(|(a, b)| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())));
                if !same {
                    let d = &p.chains.iter().find(|x| x.0 == *name).unwrap().1[i];
                    return Err(format!("block {b}: node {i} of {name} ({}) sounds different in a context wired by hand: {:?} against {:?}", d.text(), y, x));
                }
                rep.count("node_blocks_compared", 1);
            }
        }
        if got.len() != 2 {
            return Err(format!("{} channels of output", got.len()));
        }
        same("the output of the context against the engine", b, &[got[0].clone(), got[1].clone()], &want, 1e-6 + rounding(&e))?;
        sound |= peak(&want) > 0.;
    }
    Ok(Obs::new(p.text(), sound))
}
