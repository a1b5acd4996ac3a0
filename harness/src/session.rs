//! Driving engines.

use crate::gen::*;
use crate::prog::*;
use crate::rng::Rng;
use glicol::Engine;

pub fn engine<const N: usize>(cfg: &Cfg) -> Engine<N> {
    let mut e = Engine::<N>::new();
    setup(&mut e, cfg);
    e
}
pub fn setup<const N: usize>(e: &mut Engine<N>, cfg: &Cfg) {
    e.set_sr(cfg.sr);
    e.set_bpm(cfg.bpms[0]);
    e.set_seed(cfg.seed);
    register(e);
}
pub fn register<const N: usize>(e: &mut Engine<N>) {
    for s in pool() {
        e.add_sample(s.name, s.data, s.ch, s.sr);
    }
}
pub fn sample_names() -> Vec<String> {
    pool().iter().filter(|s| s.data.len() < 10_000).map(|s| s.name.to_string()).collect()
}

pub fn must<const N: usize>(e: &mut Engine<N>, p: &Prog) -> Result<(), String> {
    must_text(e, &p.text())
}
pub fn must_text<const N: usize>(e: &mut Engine<N>, t: &str) -> Result<(), String> {
    e.update_with_code(t).map_err(|x| format!("a valid program was rejected: {x:?}\n{t}"))
}

/// The input audio of block `b`: different on both sides, different every block
pub fn input<const N: usize>(r: &mut Rng) -> ([f32; N], [f32; N]) {
    let mut l = [0f32; N];
    let mut q = [0f32; N];
    for i in 0..N {
        l[i] = r.f(-1., 1.) as f32;
        q[i] = r.f(-1., 1.) as f32;
    }
    (l, q)
}

/// One rendered block as left and right
pub fn render<const N: usize>(e: &mut Engine<N>, l: &[f32; N], r: &[f32; N]) -> [Vec<f32>; 2] {
    let o = e.next_block(vec![&l[..], &r[..]]);
    [o[0].to_vec(), o[1].to_vec()]
}
pub fn silent<const N: usize>(e: &mut Engine<N>) -> [Vec<f32>; 2] {
    render(e, &[0.; N], &[0.; N])
}

/// Do two renderings agree up to float summation order?
pub fn same(what: &str, block: usize, a: &[Vec<f32>; 2], b: &[Vec<f32>; 2], tol: f32) -> Result<(), String> {
    for c in 0..2 {
        for i in 0..a[c].len() {
            let (x, y) = (a[c][i], b[c][i]);
            let ok = x == y || tol == f32::INFINITY || (x.is_nan() && y.is_nan()) || (x - y).abs() <= tol * (1. + x.abs().max(y.abs()));
            if !ok {
                return Err(format!("{what}: block {block}, sample {i}, channel {c}: {x} against {y}"));
            }
        }
    }
    Ok(())
}
pub fn peak(b: &[Vec<f32>; 2]) -> f32 {
    b.iter().flatten().fold(0f32, |a, x| a.max(x.abs()))
}

/// What rounding in the sum of the audible chains may amount to, depending on its order
pub fn rounding<const N: usize>(e: &Engine<N>) -> f32 {
    let mut mass = 0f32;
    for (name, c) in &e.index_info {
        if let Some(nd) = c.last().filter(|_| !name.contains('~')).and_then(|i| e.context.graph.node_weight(*i)) {
            mass += nd.buffers.iter().flat_map(|b| b.iter()).fold(0f32, |a, x| a.max(x.abs()));
        }
    }
    if mass < 1e30 {
        mass * 1e-6
    } else {
        f32::INFINITY
    }
}
