//! Plays sessions from a file: small <file> <first> <step> <seconds>
//! or drives audio graphs without a text: small graph <first> <step> <seconds>
//! A record is an operation, a length and that many bytes of text.

use glicol::Engine;
use glicol_synth::{AudioContextBuilder, Buffer, Input, Message, Node, Pass, Sum2};
use hashbrown::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

const N: usize = 4;
static MONO: [f32; 7] = [0.1, 0.9, -0.4, 0.3, -0.2, 0.05, 0.6];
static STEREO: [f32; 12] = [0.5, 0.4, 0.3, 0.2, 0.1, 0., -0.5, -0.4, -0.3, -0.2, -0.1, 0.];

fn ops(t: &[u8]) -> Vec<(u8, String)> {
    let (mut at, mut out) = (0, vec![]);
    while at < t.len() {
        let end = at + t[at..].iter().position(|c| *c == b'\n').unwrap();
        let n: usize = std::str::from_utf8(&t[at + 2..end]).unwrap().parse().unwrap();
        out.push((t[at], String::from_utf8(t[end + 1..end + 1 + n].to_vec()).unwrap()));
        at = end + n + 2;
    }
    out
}

fn fresh() -> Engine<N> {
    let mut e = Engine::<N>::new();
    e.livecoding = false;
    for name in ["\\kick", "\\x-y", "'long'", "\\x"] {
        e.add_sample(name, &MONO, 1, 44100);
    }
    e.add_sample("\\one", &MONO[..1], 1, 44100);
    for name in ["\\St", "'s_1'"] {
        e.add_sample(name, &STEREO, 2, 22050);
    }
    e.add_sample("\\two", &STEREO[..4], 2, 48000);
    e
}

/// Reads all it hears and writes all its buffers
struct Touch(f32);
impl Node<N> for Touch {
    fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
        self.0 += 1.;
        for o in output.iter_mut() {
            o.fill(self.0);
            for i in inputs.values() {
                for b in i.buffers() {
                    for (x, y) in o.iter_mut().zip(b.iter()) {
                        *x += *y * 0.5;
                    }
                }
            }
        }
    }
    fn send_msg(&mut self, _: Message) {}
}

fn graphs(first: usize, step: usize, secs: i64) {
    let t0 = Instant::now();
    for k in (first..1000).step_by(step) {
        if t0.elapsed().as_secs() as i64 > secs {
            break;
        }
        println!("start {k}");
        let mut x = (k as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
        let mut below = |n: usize| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 20) as usize % n
        };
        let mut blocks = 0;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut c = AudioContextBuilder::<N>::new().channels(1 + below(3)).build();
            let mut mine = vec![];
            for _ in 0..4 {
                for _ in 0..3 {
                    mine.push(match below(4) {
                        0 => c.add_mono_node(Touch(0.)),
                        1 => c.add_stereo_node(Sum2 {}),
                        2 => c.add_stereo_node(Pass {}),
                        _ => c.add_multi_chan_node(1 + below(3), Touch(0.5)),
                    });
                }
                for _ in 0..6 {
                    // also to itself, in loops, and twice
                    let (a, b) = (mine[below(mine.len())], mine[below(mine.len())]);
                    let b = if below(4) == 0 { c.destination } else { b };
                    c.connect(a, b);
                }
                if below(3) == 0 {
                    let gone = mine.swap_remove(below(mine.len()));
                    c.graph.remove_node(gone);
                }
                for _ in 0..2 {
                    std::hint::black_box(c.next_block().iter().map(|b| b.iter().sum::<f32>()).sum::<f32>());
                    blocks += 1;
                }
            }
        }));
        println!("end {k} accepted 1 blocks {blocks} panic {}", r.is_err() as u8);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (first, step, secs): (usize, usize, i64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    std::panic::set_hook(Box::new(|_| ()));
    if a[1] == "graph" {
        return graphs(first, step, secs);
    }
    let all = ops(&std::fs::read(&a[1]).unwrap());
    let sessions: Vec<&[(u8, String)]> = all.split(|o| o.0 == b'E').filter(|s| !s.is_empty()).collect();
    let t0 = Instant::now();
    for (k, s) in sessions.iter().enumerate().skip(first).step_by(step) {
        if t0.elapsed().as_secs() as i64 > secs {
            break;
        }
        println!("start {k}");
        let (mut accepted, mut blocks) = (0, 0);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut e = fresh();
            for (op, t) in s.iter() {
                match op {
                    b'U' => accepted += e.update_with_code(t).is_ok() as usize,
                    b'M' => e.send_msg(t),
                    b'B' => e.set_bpm(t.parse().unwrap()),
                    b'X' => e.reset(),
                    b'R' => {
                        for i in 0..t.parse().unwrap() {
                            let v = [0.3; N];
                            let ins: Vec<&[f32]> = (0..(k + i) % 3).map(|_| &v[..]).collect();
                            let out = e.next_block(ins);
                            std::hint::black_box(out.iter().map(|b| b.iter().sum::<f32>()).sum::<f32>());
                            blocks += 1;
                        }
                    }
                    _ => {}
                }
            }
        }));
        println!("end {k} accepted {accepted} blocks {blocks} panic {}", r.is_err() as u8);
    }
}
