//! C09: the graph runs every node that is heard exactly once per block, after the nodes it hears.
//!
//! Nodes are wrapped in a recorder; the log of a block is checked against the graph.

use super::live::spoil;
use crate::edit::*;
use crate::gen::*;
use crate::rep::*;
use crate::rng::Rng;
use crate::session::*;
use glicol_synth::{AudioContextBuilder, BoxedNodeSend, Buffer, GlicolGraph, Input, Message, Node, NodeData, Processor};
use hashbrown::HashMap;
use petgraph::graph::{DiGraph, NodeIndex};
use petgraph::stable_graph::StableDiGraph;
use petgraph::visit::{EdgeRef, IntoEdgeReferences};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

fn sum<const N: usize>(b: &[Buffer<N>]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    for c in b {
        for x in c.iter() {
            h = (h ^ x.to_bits() as u64).wrapping_mul(0x100000001b3).rotate_left(17);
        }
    }
    h
}

#[derive(Clone, Debug)]
struct Run {
    node: usize,
    /// key, id, number of buffers, checksum of their content
    inputs: Vec<(usize, usize, usize, u64)>,
    out: u64,
    chans: usize,
}
#[derive(Default)]
struct Log {
    runs: Vec<Run>,
    msgs: Vec<(usize, Message)>,
    /// recorders that were put into an engine and are still there
    alive: BTreeSet<usize>,
}
type Shared = Arc<Mutex<Log>>;

/// Records what a node was given and what it made
struct Wrap<T> {
    id: usize,
    log: Shared,
    inner: T,
}
impl<const N: usize, T: Node<N>> Node<N> for Wrap<T> {
    fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
        let ins = inputs.iter().map(|(k, i)| (*k, i.node_id, i.buffers().len(), sum(i.buffers()))).collect();
        self.inner.process(inputs, output);
        self.log.lock().unwrap().runs.push(Run { node: self.id, inputs: ins, out: sum(output), chans: output.len() });
    }
    fn send_msg(&mut self, info: Message) {
        self.log.lock().unwrap().msgs.push((self.id, info.clone()));
        self.inner.send_msg(info);
    }
}

/// Writes something new in every block
struct Stamp {
    id: usize,
    n: usize,
}
impl<const N: usize> Node<N> for Stamp {
    fn process(&mut self, _: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
        self.n += 1;
        for (c, o) in output.iter_mut().enumerate() {
            for (i, x) in o.iter_mut().enumerate() {
                *x = (self.id * 64 + self.n) as f32 + c as f32 * 0.125 + i as f32 / 8192.;
            }
        }
    }
    fn send_msg(&mut self, _: Message) {}
}

/// what a graph looks like from outside
struct Shape {
    nodes: BTreeMap<usize, usize>, // node, number of buffers
    edges: BTreeSet<(usize, usize)>,
}
impl Shape {
    fn feeding(&self, n: usize) -> BTreeSet<usize> {
        self.edges.iter().filter(|e| e.1 == n && e.0 != n).map(|e| e.0).collect()
    }
    /// all nodes from which `to` can be reached
    fn heard(&self, to: usize) -> BTreeSet<usize> {
        let (mut seen, mut todo) = (BTreeSet::from([to]), vec![to]);
        while let Some(n) = todo.pop() {
            for m in self.feeding(n) {
                if seen.insert(m) {
                    todo.push(m);
                }
            }
        }
        seen
    }
}

/// Check the log of one block. `last` holds what each node's buffers contained before the block.
fn check_block(shape: &Shape, out: usize, runs: &[Run], last: &mut BTreeMap<usize, u64>, fixed: &[usize]) -> Result<u64, String> {
    let heard = shape.heard(out);
    let mut ran: BTreeMap<usize, u64> = BTreeMap::new();
    let mut back = 0;
    for x in runs {
        if ran.contains_key(&x.node) {
            return Err(format!("node {} ran twice in a block", x.node));
        }
        if !heard.contains(&x.node) {
            return Err(format!("node {} ran, but the output does not hear it", x.node));
        }
        if shape.nodes.get(&x.node) != Some(&x.chans) {
            return Err(format!("node {} ran with {} buffers, it has {:?}", x.node, x.chans, shape.nodes.get(&x.node)));
        }
        let want = shape.feeding(x.node);
        let got: BTreeSet<usize> = x.inputs.iter().map(|i| i.0).collect();
        if want != got || x.inputs.len() != got.len() {
            return Err(format!("node {} was given inputs {got:?}, connected are {want:?}", x.node));
        }
        for (k, id, n, s) in &x.inputs {
            if k != id {
                return Err(format!("node {}: input {k} calls itself {id}", x.node));
            }
            if shape.nodes.get(k) != Some(n) {
                return Err(format!("node {}: input {k} came with {n} buffers", x.node));
            }
            if fixed.contains(k) {
                continue;
            }
            match ran.get(k) {
                Some(now) if now != s => return Err(format!("node {}: input {k} is not what {k} made in this block", x.node)),
                Some(_) => {}
                None => {
                    // only in a loop may the reader come first
                    if !shape.heard(*k).contains(&x.node) {
                        return Err(format!("node {} ran before its input {k}", x.node));
                    }
                    back += 1;
                    if last.get(k).is_some_and(|l| l != s) {
                        return Err(format!("node {}: looped input {k} is not what {k} made in its last block", x.node));
                    }
                }
            }
        }
        ran.insert(x.node, x.out);
    }
    for n in &heard {
        if !ran.contains_key(n) && !fixed.contains(n) {
            return Err(format!("node {n} is heard but did not run"));
        }
    }
    last.extend(ran);
    Ok(back)
}

pub fn c09(rep: &Rep) {
    rep.rule(
        "parts: context drives an audio context with random edits of nodes and connections between blocks; raw drives the processor on stable and plain graphs; live wraps every node of a live-coded engine. \
         Each block's log of runs, inputs and outputs is checked against the graph. Graphs are distinct by nodes and edges; a case counts when some node had an input",
    );
    rep.cases("context", rep.n(120_000, 3_000_000), rep.n(12, 250), |r, _| match r.below(3) {
        0 => context::<1>(rep, r),
        1 => context::<8>(rep, r),
        _ => context::<64>(rep, r),
    });
    rep.cases("raw", rep.n(120_000, 3_000_000), rep.n(12, 250), |r, _| match r.below(2) {
        0 => raw_stable(rep, r),
        _ => raw_plain(rep, r),
    });
    rep.cases("live", rep.n(40_000, 1_000_000), rep.n(15, 250), |r, _| live::<32>(rep, r));
    rep.require("runs_in_engines", 10_000);
    rep.require("runs_in_contexts", 10_000);
    rep.require("runs_in_processors", 10_000);
    rep.require("looped_inputs", 100);
}

fn shape_of<const N: usize>(g: &GlicolGraph<N>) -> Shape {
    Shape {
        nodes: g.node_indices().map(|i| (i.index(), g[i].buffers.len())).collect(),
        edges: g.edge_indices().filter_map(|e| g.edge_endpoints(e)).map(|(a, b)| (a.index(), b.index())).collect(),
    }
}

pub fn context<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let log: Shared = Default::default();
    let chans = r.us(1, 4);
    let b = AudioContextBuilder::<N>::new().channels(chans);
    let mut c = if r.chance(0.3) { b.max_nodes(r.us(1, 4)).max_edges(r.us(1, 4)).build() } else { b.build() };
    let mut mine: Vec<NodeIndex> = vec![];
    let mut msgs: Vec<(usize, Message)> = vec![];
    let mut last = BTreeMap::new();
    let mut desc = String::new();
    let mut some = false;
    let mut serial = 0;
    let loops = r.chance(0.5);
    // many nodes into one
    let wide = r.chance(0.02);
    // wrap before the index is known: indices are given in a table afterwards
    let ids: Arc<Mutex<BTreeMap<usize, usize>>> = Default::default();
    struct Named {
        serial: usize,
        ids: Arc<Mutex<BTreeMap<usize, usize>>>,
        w: Wrap<Stamp>,
    }
    impl<const N: usize> Node<N> for Named {
        fn process(&mut self, i: &mut HashMap<usize, Input<N>>, o: &mut [Buffer<N>]) {
            self.w.id = self.ids.lock().unwrap()[&self.serial];
            self.w.process(i, o)
        }
        fn send_msg(&mut self, m: Message) {
            if let Some(k) = self.ids.lock().unwrap().get(&self.serial) {
                self.w.id = *k;
            }
            Node::<N>::send_msg(&mut self.w, m)
        }
    }
    for block in 0..r.us(3, 12) {
        let edits = if wide && block == 0 { r.us(60, 200) } else { r.us(1, 8) };
        for step in 0..edits {
            let what = if edits < 60 { r.below(10) } else if step < edits / 2 { 0 } else { 4 };
            if what < 4 || mine.is_empty() {
                serial += 1;
                let n = Named { serial, ids: ids.clone(), w: Wrap { id: usize::MAX, log: log.clone(), inner: Stamp { id: serial, n: 0 } } };
                let i = match r.below(3) {
                    0 => c.add_mono_node(n),
                    1 => c.add_stereo_node(n),
                    _ => c.add_multi_chan_node(r.us(1, 5), n),
                };
                ids.lock().unwrap().insert(serial, i.index());
                // a new node at an old index has made nothing yet
                last.remove(&i.index());
                last.insert(i.index(), sum(&c.graph[i].buffers));
                mine.push(i);
                note(format!("node {}", i.index()));
            } else if what < 8 {
                let b = if r.chance(0.25) { c.destination } else if edits < 60 { *r.pick(&mine) } else { *mine.last().unwrap() };
                let a = *r.pick(&mine);
                if !loops && b != c.destination && a.index() >= b.index() {
                    continue;
                }
                match r.below(4) {
                    0 => {
                        let have = msgs_of(&log, b.index());
                        let at = r.us(0, have);
                        c.connect_with_order(a, b, at);
                        msgs.push((b.index(), Message::IndexOrder(at, a.index())));
                        note(format!("{} -> {} at {at}", a.index(), b.index()));
                    }
                    1 => {
                        let d = *r.pick(&mine);
                        c.chain(vec![a, d, b]);
                        msgs.push((d.index(), Message::Index(a.index())));
                        msgs.push((b.index(), Message::Index(d.index())));
                        note(format!("chain {} {} {}", a.index(), d.index(), b.index()));
                    }
                    _ => {
                        c.connect(a, b);
                        msgs.push((b.index(), Message::Index(a.index())));
                        note(format!("{} -> {}", a.index(), b.index()));
                    }
                }
            } else if what == 8 {
                let k = r.below(mine.len());
                let i = mine.swap_remove(k);
                c.graph.remove_node(i);
                ids.lock().unwrap().retain(|_, v| *v != i.index());
                note(format!("remove {}", i.index()));
            } else {
                let es: Vec<_> = c.graph.edge_indices().collect();
                if !es.is_empty() {
                    let e = *r.pick(&es);
                    note(format!("cut {:?}", c.graph.edge_endpoints(e)));
                    c.graph.remove_edge(e);
                }
            }
        }
        if r.chance(0.1) {
            c.send_msg_to_all(Message::SetBPM(77.));
            for i in &mine {
                msgs.push((i.index(), Message::SetBPM(77.)));
            }
        }
        if r.chance(0.1) {
            if let Some(i) = mine.first() {
                c.send_msg(*i, Message::SetToNumber(1, 2.));
                msgs.push((i.index(), Message::SetToNumber(1, 2.)));
            }
        }
        // the output is not wrapped
        let d = c.destination.index();
        let mut want: Vec<String> = msgs.drain(..).filter(|m| m.0 != d).map(|m| format!("{m:?}")).collect();
        let mut got: Vec<String> = log.lock().unwrap().msgs.drain(..).map(|m| format!("{m:?}")).collect();
        want.sort();
        got.sort();
        if want != got {
            return Err(format!("block {block}: messages sent {want:?}, received {got:?}"));
        }
        let shape = shape_of(&c.graph);
        note(format!("block {block}"));
        let out: Vec<Vec<f32>> = c.next_block().iter().map(|b| b.to_vec()).collect();
        let runs = std::mem::take(&mut log.lock().unwrap().runs);
        rep.count("runs_in_contexts", runs.len() as u64);
        let back = check_block(&shape, d, &runs, &mut last, &[d, c.input.index()]).map_err(|e| format!("block {block}: {e}"))?;
        rep.count("looped_inputs", back);
        rep.maxi("most_inputs", runs.iter().map(|x| x.inputs.len()).max().unwrap_or(0) as u64);
        some |= runs.iter().any(|x| !x.inputs.is_empty());
        // the output is the sum of what it hears
        if out.len() != chans {
            return Err(format!("{} channels of output, {chans} asked for", out.len()));
        }
        for (k, o) in out.iter().enumerate() {
            for i in 0..N {
                let mut s = 0f64;
                for m in shape.feeding(d) {
                    let b = &c.graph[NodeIndex::new(m)].buffers;
                    s += b[if k < b.len() { k } else { 0 }][i] as f64;
                }
                if (o[i] as f64 - s).abs() > 1e-3 + s.abs() * 1e-5 {
                    return Err(format!("block {block}: output {} at sample {i} of channel {k}, the inputs add up to {s}", o[i]));
                }
            }
        }
        desc += &format!("{:?}", shape.edges);
    }
    if r.chance(0.1) {
        c.reset();
        if c.graph.node_count() != 2 || c.graph.edge_count() != 0 {
            return Err("the graph is not empty after a reset".into());
        }
        if c.next_block().iter().any(|b| b.iter().any(|x| *x != 0.)) {
            return Err("the context is not silent after a reset".into());
        }
        if c.next_block().len() != chans || c.graph[c.input].buffers.len() != chans {
            return Err(format!("{} channels of output after a reset, {chans} asked for", c.next_block().len()));
        }
    }
    Ok(Obs::new(desc, some))
}

fn msgs_of(log: &Shared, _to: usize) -> usize {
    // any position is passed on as it is
    log.lock().unwrap().msgs.len()
}

type Plain<const N: usize> = NodeData<Wrap<Stamp>, N>;

macro_rules! raw {
    ($name:ident, $graph:ty, $n:expr, $stable:expr) => {
        pub fn $name(rep: &Rep, r: &mut Rng) -> Case {
            const N: usize = $n;
            let log: Shared = Default::default();
            let mut g = <$graph>::with_capacity(4, 4);
            let mut p = Processor::<$graph, N>::with_capacity(r.us(0, 4));
            let mut last = BTreeMap::new();
            let mut desc = String::new();
            let mut some = false;
            let style = r.below(4);
            for block in 0..r.us(2, 8) {
                let edits = if r.chance(0.004) { r.us(60, 200) } else { r.us(1, 12) };
                for step in 0..edits {
                    let all: Vec<NodeIndex> = g.node_indices().collect();
                    if all.is_empty() || if edits < 60 { r.chance(0.35) } else { step < edits / 2 } {
                        let n = r.us(1, 3);
                        // a stable graph reuses the place of a removed node
                        let i = g.add_node(NodeData::new(Wrap { id: 0, log: log.clone(), inner: Stamp { id: 0, n: 0 } }, vec![Buffer::SILENT; n]));
                        g[i].node.id = i.index();
                        g[i].node.inner.id = i.index() + block * 100;
                        last.insert(i.index(), sum(&g[i].buffers));
                    } else if $stable && r.chance(0.1) {
                        let i = *r.pick(&all);
                        g.remove_node(i);
                        last.remove(&i.index());
                    } else {
                        let (a, b) = (*r.pick(&all), if edits < 60 { *r.pick(&all) } else { all[if style == 1 { 0 } else { all.len() - 1 }] });
                        match style {
                            0 if a.index() >= b.index() => {}
                            1 if a.index() <= b.index() => {}
                            _ => {
                                g.add_edge(a, b, ());
                            }
                        }
                    }
                }
                let all: Vec<NodeIndex> = g.node_indices().collect();
                if all.is_empty() {
                    continue;
                }
                let out = *r.pick(&all);
                let shape = Shape {
                    nodes: all.iter().map(|i| (i.index(), g[*i].buffers.len())).collect(),
                    edges: g.edge_indices().filter_map(|e| g.edge_endpoints(e)).map(|(a, b)| (a.index(), b.index())).collect(),
                };
                note(format!("block {block}: output {}, nodes {:?}, edges {:?}", out.index(), shape.nodes, shape.edges));
                p.process(&mut g, out);
                let runs = std::mem::take(&mut log.lock().unwrap().runs);
                rep.count("runs_in_processors", runs.len() as u64);
                let back = check_block(&shape, out.index(), &runs, &mut last, &[])?;
                rep.count("looped_inputs", back);
                rep.maxi("most_inputs", runs.iter().map(|x| x.inputs.len()).max().unwrap_or(0) as u64);
                some |= runs.iter().any(|x| !x.inputs.is_empty());
                desc += &format!("{:?}", shape.edges);
            }
            Ok(Obs::new(desc, some))
        }
    };
}
raw!(raw_stable, StableDiGraph<Plain<4>, ()>, 4, true);
raw!(raw_plain, DiGraph<Plain<16>, ()>, 16, false);

/// Around a node of an engine; takes itself off the list when the engine drops the node
struct Guest<const N: usize>(Wrap<BoxedNodeSend<N>>);
impl<const N: usize> Node<N> for Guest<N> {
    fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
        self.0.process(inputs, output)
    }
    fn send_msg(&mut self, info: Message) {
        Node::<N>::send_msg(&mut self.0, info)
    }
}
impl<const N: usize> Drop for Guest<N> {
    fn drop(&mut self) {
        self.0.log.lock().unwrap().alive.remove(&self.0.id);
    }
}

/// Put a recorder around every node that has none yet
fn wrap_all<const N: usize>(e: &mut glicol::Engine<N>, log: &Shared, last: &mut BTreeMap<usize, u64>) {
    let g = &mut e.context.graph;
    let all: Vec<NodeIndex> = g.node_indices().collect();
    for i in all {
        if !log.lock().unwrap().alive.insert(i.index()) {
            continue;
        }
        let inner = std::mem::replace(&mut g[i].node, BoxedNodeSend::new(Stamp { id: 0, n: 0 }));
        g[i].node = BoxedNodeSend::new(Guest(Wrap { id: i.index(), log: log.clone(), inner }));
        last.insert(i.index(), sum(&g[i].buffers));
    }
}

fn live<const N: usize>(rep: &Rep, r: &mut Rng) -> Case {
    let cfg = Cfg::random(r);
    let mut m = Stateful { cfg: cfg.clone(), deny: vec![], allow: vec![], movable: true };
    let mut e = engine::<N>(&cfg);
    let log: Shared = Default::default();
    let mut last = BTreeMap::new();
    let mut p = make_prog(r, &mut m, 3, 3);
    let mut desc = String::new();
    let mut some = false;
    for b in 0..r.us(6, 16) {
        if b == 0 || r.chance(0.5) {
            for _ in 0..r.us(1, 3) {
                edit(r, &mut m, &mut p, &mut vec![]);
            }
            let mut q = shuffled(r, &p);
            if r.chance(0.25) {
                // a loop through three chains
                use crate::prog::{Nd, P};
                q.chains.push(("loop".into(), vec![Nd::Sig(0.1), Nd::Add(P::R("~back".into()))]));
                q.chains.push(("~back".into(), vec![Nd::Get("loop".into()), Nd::Mul(P::N(0.5))]));
            }
            note(format!("block {b}: update\n{}", q.text()));
            must(&mut e, &q)?;
            desc += &q.text();
        }
        if r.chance(0.2) {
            let t = spoil(r, &mut m, &p);
            note(format!("block {b}: rejected update\n{t}"));
            if e.update_with_code(&t).is_ok() {
                return Ok(Obs::new("not rejected", false));
            }
        }
        wrap_all(&mut e, &log, &mut last);
        log.lock().unwrap().msgs.clear();
        let shape = shape_of(&e.context.graph);
        let d = e.context.destination.index();
        let (x, y) = input::<N>(r);
        render(&mut e, &x, &y);
        let runs = std::mem::take(&mut log.lock().unwrap().runs);
        rep.count("runs_in_engines", runs.len() as u64);
        let back = check_block(&shape, d, &runs, &mut last, &[e.context.input.index()]).map_err(|x| format!("block {b}: {x}"))?;
        rep.count("looped_inputs", back);
        rep.maxi("nodes_in_an_engine", shape.nodes.len() as u64);
        // every edge belongs to a node that is there
        for ed in (&e.context.graph).edge_references() {
            if !e.context.graph.contains_node(ed.source()) || !e.context.graph.contains_node(ed.target()) {
                return Err(format!("block {b}: a connection of a removed node"));
            }
        }
        some |= runs.iter().any(|x| !x.inputs.is_empty());
    }
    Ok(Obs::new(desc, some))
}
