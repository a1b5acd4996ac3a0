From b29ac2b1a22c749bb673d87a13d5f0312605eea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:51 +0000
Subject: [PATCH 01/61] fix: keep, move and duplicate chain nodes correctly on
 update

Nodes were matched by equality alone, so reordering nodes or repeating an
equal node left the old order playing or panicked. Match both chains by
their longest common subsequence instead.
---
 rs/main/src/lib.rs | 86 +++++++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 31 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 8562a3c..ed3b855 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -31,6 +31,36 @@ struct GraphDiff<'engine, const N: usize> {
     idx_to_remove: Vec<NodeIndex>,
 }
 
+/// The (old, new) index pairs of a longest common subsequence of two chains, in ascending order
+fn longest_common_subsequence(old: &[Component], new: &[Component]) -> Vec<(usize, usize)> {
+    // lengths[i][j] is the length of a longest common subsequence of old[i..] and new[j..]
+    let mut lengths = vec![vec![0usize; new.len() + 1]; old.len() + 1];
+    for i in (0..old.len()).rev() {
+        for j in (0..new.len()).rev() {
+            lengths[i][j] = if old[i] == new[j] {
+                lengths[i + 1][j + 1] + 1
+            } else {
+                lengths[i + 1][j].max(lengths[i][j + 1])
+            };
+        }
+    }
+
+    let (mut i, mut j) = (0, 0);
+    let mut pairs = vec![];
+    while i < old.len() && j < new.len() {
+        if old[i] == new[j] {
+            pairs.push((i, j));
+            i += 1;
+            j += 1;
+        } else if lengths[i + 1][j] >= lengths[i][j + 1] {
+            i += 1;
+        } else {
+            j += 1;
+        }
+    }
+    pairs
+}
+
 pub struct Engine<const N: usize> {
     pub context: AudioContext<N>,
     ast: Option<YokedAst>,
@@ -227,45 +257,39 @@ impl<const N: usize> Engine<N> {
                     continue;
                 };
 
-                // we gotta go through every node which exists in the old chain and check if it
-                // exists in the new one.
-                for (old_idx, old_comp) in old_chain.iter().enumerate() {
-                    match new_chain
-                        .iter()
-                        .enumerate()
-                        .find(|(_, comp)| old_comp == *comp)
-                    {
-                        // If it exists in the new chain, then we have to update it
-                        Some((idx, new_comp)) => {
-                            // the paras can be the same
-                            // but if the paras are refs, the source chain of refs can change
-                            // e.g. the main chain is o: constsig 42 >> mul ~a
-                            // the ref ~a: constsig 0.5 becomes ~a: constsig 0.5 >> mul 0.5
-                            // need to reconnect them with the ref source
-                            // note that when update, the reflist is cleared,
-                            // so we will need to rebuild all the ref connection anyway
-                            let reflist = new_comp.all_references();
-                            if !reflist.is_empty() {
-                                let owned_reflist =
-                                    reflist.into_iter().map(|s| s.to_owned()).collect();
-                                graph_diff
-                                    .refpairlist
-                                    .push((owned_reflist, chain_name, idx));
-                            }
-                        }
-                        // If it doesn't exist in the new chain,
-                        None => graph_diff.node_remove_list.push((chain_name, old_idx)),
+                // the nodes on a longest common subsequence of both chains are kept, everything
+                // else in the old chain is removed and everything else in the new one is added
+                let kept = longest_common_subsequence(old_chain, new_chain);
+
+                for old_idx in 0..old_chain.len() {
+                    if !kept.iter().any(|(kept_idx, _)| *kept_idx == old_idx) {
+                        graph_diff.node_remove_list.push((chain_name, old_idx));
+                    }
+                }
+
+                for (_, idx) in &kept {
+                    // the paras can be the same
+                    // but if the paras are refs, the source chain of refs can change
+                    // e.g. the main chain is o: constsig 42 >> mul ~a
+                    // the ref ~a: constsig 0.5 becomes ~a: constsig 0.5 >> mul 0.5
+                    // need to reconnect them with the ref source
+                    // note that when update, the reflist is cleared,
+                    // so we will need to rebuild all the ref connection anyway
+                    let reflist = new_chain[*idx].all_references();
+                    if !reflist.is_empty() {
+                        let owned_reflist = reflist.into_iter().map(|s| s.to_owned()).collect();
+                        graph_diff
+                            .refpairlist
+                            .push((owned_reflist, chain_name, *idx));
                     }
                 }
 
-                // then look through the new chain and find everything which doesn't exist in the
-                // old one, and was thus inserted, and track it for insertion
                 add_nodes(
                     chain_name,
                     new_chain
                         .iter()
                         .enumerate()
-                        .filter(|(_, comp)| !old_chain.iter().any(|old_comp| old_comp == *comp)),
+                        .filter(|(idx, _)| !kept.iter().any(|(_, kept_idx)| kept_idx == idx)),
                     &mut graph_diff,
                     &self.samples_dict,
                     self.sr,
-- 
2.43.0


From fa003990b4a71f5a330134d2ea493068ae1f02a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:51 +0000
Subject: [PATCH 02/61] fix: list a repeated seq reference once

The references of a seq are indexed by their order of first use, but an
update of the program re-registered one entry per use. After any update, a
seq such as `seq ~a ~a ~b` read the wrong source for the later references.
---
 rs/parser/src/nodes.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 44d94f8..160f554 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -155,13 +155,15 @@ impl<'ast> Component<'ast> {
             })
             | Self::Get(Get { reference: r }) => vec![r],
 
-            Self::Seq(Seq { events }) => events
-                .iter()
-                .flat_map(|(_, e)| match e {
-                    UsizeOrRef::Usize(_) => None,
-                    UsizeOrRef::Ref(r) => Some(*r),
-                })
-                .collect(),
+            // every reference is listed once, in the order of first use
+            Self::Seq(Seq { events }) => events.iter().fold(vec![], |mut refs, (_, e)| {
+                if let UsizeOrRef::Ref(r) = e {
+                    if !refs.contains(r) {
+                        refs.push(*r);
+                    }
+                }
+                refs
+            }),
             Self::Arrange(Arrange { events }) => events
                 .iter()
                 .flat_map(|e| match e {
-- 
2.43.0


From 6e9750cb939953a81480449d5cb4c6e66b802ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:05 +0000
Subject: [PATCH 03/61] fix: divide one bar by the groups of a seq

A seq is documented to divide one bar by its space-separated groups. The
event times were given in groups instead of bars, so only the first group
was ever played.
---
 rs/parser/src/nodes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 160f554..5826943 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -519,6 +519,7 @@ impl<'ast> Node<'ast> for Seq<'ast> {
         // to do, more than a symbol
         // should be an event that contains time and note
         let compounds = paras.into_inner();
+        let compounds_n = compounds.len();
 
         let events = compounds
             .enumerate()
@@ -536,7 +537,8 @@ impl<'ast> Node<'ast> for Seq<'ast> {
                             .next()
                             .ok_or_else(|| e_span.to_err_with_positives(positives))?;
 
-                        let time = relative_time_sub + i as f32;
+                        // the whole sequence spans one bar
+                        let time = (relative_time_sub + i as f32) / compounds_n as f32;
 
                         match_or_return_err!(e,
                             Rule::integer => {
-- 
2.43.0


From a4d98076ad0c7ac1f3481c40cb439a43743137d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:05 +0000
Subject: [PATCH 04/61] fix: keep the ~input chain after a reset

reset() dropped the built-in ~input chain, so referencing it was rejected
and feeding input blocks panicked until the engine was recreated.
---
 rs/main/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index ed3b855..7b80a09 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -179,7 +179,11 @@ impl<const N: usize> Engine<N> {
         self.context.reset();
         self.ast = None;
         self.index_info.clear();
-        self.index_info_backup.clear();
+        self.index_info.insert(
+            "~input".to_string(),
+            vec![self.context.add_stereo_node(Pass {})],
+        );
+        self.index_info_backup.clone_from(&self.index_info);
         self.temp_node_index.clear();
         self.samples_dict.clear();
         self.bpm = 120.;
-- 
2.43.0


From d54cfd26c14c8ef97d224a94ff654c8c1c191bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:05 +0000
Subject: [PATCH 05/61] fix: ignore a message to a position outside the chain

A control message naming a node position past the end of its chain
panicked. Skip it, as is already done for unknown chain names.
---
 rs/main/src/lib.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 7b80a09..a25d466 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -117,19 +117,24 @@ impl<const N: usize> Engine<N> {
 
             let chain_pos = chain_pos.parse::<usize>().unwrap_or_default();
             let param_pos = param_pos.parse::<u8>().unwrap_or_default();
-            if self.index_info.contains_key(chain_name) {
-                match value.parse::<f32>() {
-                    // todo: check the name and pos
-                    Ok(v) => self.context.graph[self.index_info[chain_name][chain_pos]]
+            let Some(index) = self
+                .index_info
+                .get(chain_name)
+                .and_then(|chain| chain.get(chain_pos))
+            else {
+                continue; // todo: this should be an error
+            };
+
+            match value.parse::<f32>() {
+                Ok(v) => self.context.graph[*index]
+                    .node
+                    .send_msg(Message::SetToNumber(param_pos, v)),
+                Err(_) => {
+                    self.context.graph[*index]
                         .node
-                        .send_msg(Message::SetToNumber(param_pos, v)),
-                    Err(_) => {
-                        self.context.graph[self.index_info[chain_name][chain_pos]]
-                            .node
-                            .send_msg(Message::SetToSymbol(param_pos, value.to_string()));
-                    }
-                };
-            }
+                        .send_msg(Message::SetToSymbol(param_pos, value.to_string()));
+                }
+            };
         }
     }
 
-- 
2.43.0


From 77392d49710a3d9b25125c5b647279ff7a3c4a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:05 +0000
Subject: [PATCH 06/61] fix: reset the input order of every node on update

All connections are rebuilt on update, but only nodes with references had
their input order cleared. The list of every other node grew by one stale
entry per update.
---
 rs/main/src/lib.rs                     | 11 +++++------
 rs/synth/src/node/compound/bd.rs       |  3 +++
 rs/synth/src/node/compound/hh.rs       |  3 +++
 rs/synth/src/node/compound/sawsynth.rs |  3 +++
 rs/synth/src/node/compound/sn.rs       |  3 +++
 rs/synth/src/node/compound/squsynth.rs |  3 +++
 rs/synth/src/node/compound/trisynth.rs |  3 +++
 rs/synth/src/node/signal/constsig.rs   |  3 +++
 rs/synth/src/node/signal/imp.rs        |  3 +++
 rs/synth/src/node/signal/noise.rs      |  3 +++
 rs/synth/src/node/signal/points.rs     |  3 +++
 11 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index a25d466..ee4c171 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -536,7 +536,11 @@ impl<const N: usize> Engine<N> {
         // println!("self.refpairlist in handle_connection {:?}", self.refpairlist);
 
         // now we have to go through and actually make the graph with all the connections we have
-        let mut already_reset = std::collections::HashSet::new();
+        for index in self.index_info.values().flatten() {
+            self.context.graph[*index]
+                .node
+                .send_msg(Message::ResetOrder);
+        }
         for (reflist, name, new_idx) in &graph_diff.refpairlist {
             let Some(chain) = self.index_info.get(*name) else {
                 return Err(EngineError::NonExistReference(name.to_string()));
@@ -544,11 +548,6 @@ impl<const N: usize> Engine<N> {
 
             let index = chain[*new_idx];
 
-            if !already_reset.contains(&index) {
-                self.context.graph[index].node.send_msg(Message::ResetOrder);
-                already_reset.insert(index);
-            }
-
             for refname in reflist {
                 if refname.contains("..") {
                     // println!("look for {}", &refname.replace("..", ""));
diff --git a/rs/synth/src/node/compound/bd.rs b/rs/synth/src/node/compound/bd.rs
index 9c62790..befb28c 100644
--- a/rs/synth/src/node/compound/bd.rs
+++ b/rs/synth/src/node/compound/bd.rs
@@ -72,6 +72,9 @@ impl<const N: usize> Node<N> for Bd<N> {
                 .send_msg(Message::SetToNumber(1, value)),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => {
+                self.input_order.clear();
+            }
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/hh.rs b/rs/synth/src/node/compound/hh.rs
index 5be4453..95bf790 100644
--- a/rs/synth/src/node/compound/hh.rs
+++ b/rs/synth/src/node/compound/hh.rs
@@ -65,6 +65,9 @@ impl<const N: usize> Node<N> for Hh<N> {
                 .send_msg(Message::SetToNumber(1, value)),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => {
+                self.input_order.clear();
+            }
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/sawsynth.rs b/rs/synth/src/node/compound/sawsynth.rs
index f6a462c..303b12f 100644
--- a/rs/synth/src/node/compound/sawsynth.rs
+++ b/rs/synth/src/node/compound/sawsynth.rs
@@ -72,6 +72,9 @@ impl<const N: usize> Node<N> for SawSynth<N> {
             },
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => {
+                self.input_order.clear();
+            }
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/sn.rs b/rs/synth/src/node/compound/sn.rs
index 8bb0813..a3984f1 100644
--- a/rs/synth/src/node/compound/sn.rs
+++ b/rs/synth/src/node/compound/sn.rs
@@ -81,6 +81,9 @@ impl<const N: usize> Node<N> for Sn<N> {
                 .send_msg(Message::SetToNumber(1, value)),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => {
+                self.input_order.clear();
+            }
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/squsynth.rs b/rs/synth/src/node/compound/squsynth.rs
index 3a2c767..ed15267 100644
--- a/rs/synth/src/node/compound/squsynth.rs
+++ b/rs/synth/src/node/compound/squsynth.rs
@@ -60,6 +60,9 @@ impl<const N: usize> Node<N> for SquSynth<N> {
 
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => {
+                self.input_order.clear();
+            }
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/compound/trisynth.rs b/rs/synth/src/node/compound/trisynth.rs
index 1392b33..8c2e79b 100644
--- a/rs/synth/src/node/compound/trisynth.rs
+++ b/rs/synth/src/node/compound/trisynth.rs
@@ -60,6 +60,9 @@ impl<const N: usize> Node<N> for TriSynth<N> {
 
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => {
+                self.input_order.clear();
+            }
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/signal/constsig.rs b/rs/synth/src/node/signal/constsig.rs
index 015d297..557c516 100644
--- a/rs/synth/src/node/signal/constsig.rs
+++ b/rs/synth/src/node/signal/constsig.rs
@@ -83,6 +83,9 @@ impl<const N: usize> Node<N> for ConstSig {
             Message::SetBPM(bpm) => self.bpm = bpm,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => {
+                self.input_order.clear();
+            }
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/signal/imp.rs b/rs/synth/src/node/signal/imp.rs
index 1cbaa09..e55986f 100644
--- a/rs/synth/src/node/signal/imp.rs
+++ b/rs/synth/src/node/signal/imp.rs
@@ -53,6 +53,9 @@ impl<const N: usize> Node<N> for Impulse {
             Message::SetToNumber(0, value) => self.period = (self.sr as f32 / value) as usize,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => {
+                self.input_order.clear();
+            }
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/signal/noise.rs b/rs/synth/src/node/signal/noise.rs
index fc16335..e3e8b8e 100644
--- a/rs/synth/src/node/signal/noise.rs
+++ b/rs/synth/src/node/signal/noise.rs
@@ -28,6 +28,9 @@ impl<const N: usize> Node<N> for Noise {
             Message::SetToNumber(0, value) => self.sig = Box::new(signal::noise(value as u64)),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => {
+                self.input_order.clear();
+            }
             _ => {}
         }
     }
diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index b2be374..e499d96 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -169,6 +169,9 @@ impl<const N: usize> Node<N> for Points {
             Message::SetBPM(bpm) => self.bpm = bpm,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
+            Message::ResetOrder => {
+                self.input_order.clear();
+            }
             _ => {}
         }
     }
-- 
2.43.0


From f2a2673c904bb33657f443a38e2efe3e494b7e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:55 +0000
Subject: [PATCH 07/61] fix: keep the first and last character of eval code

The code of an eval node is parsed without its backticks, but the first and
last character were stripped anyway, so "eval `0.5`" panicked.
---
 rs/parser/src/nodes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 5826943..14d101a 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -1116,8 +1116,9 @@ impl<'ast> Node<'ast> for CodeBlock<'ast> {
             .ok_or_else(|| span.as_end_span().to_err_with_positives([Rule::code]))?
             .as_str();
 
+        // an `eval` block comes without its backticks
         Ok(Self {
-            code: &s[1..s.len() - 1],
+            code: s.trim_matches('`'),
         })
     }
 }
-- 
2.43.0


From 2ef93e333b8b86904888277424fad46a83e5468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:55 +0000
Subject: [PATCH 08/61] fix: do not panic on invalid eval code

Code that does not compile is now ignored, as the meta node does. An
expression that fails to evaluate, for instance because of an undefined
variable, yields silence.
---
 rs/synth/src/node/dynamic/eval.rs | 36 ++++++++++++++-----------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/rs/synth/src/node/dynamic/eval.rs b/rs/synth/src/node/dynamic/eval.rs
index 617a6eb..ddcca3f 100644
--- a/rs/synth/src/node/dynamic/eval.rs
+++ b/rs/synth/src/node/dynamic/eval.rs
@@ -68,23 +68,22 @@ impl<const N: usize> Eval<N> {
     }
 
     fn apply_code(&mut self, code: &str) {
-        let lines = code.split(';');
-        for line in lines {
+        let (mut slabs, mut vars, mut instructions) = (vec![], vec![], vec![]);
+        for line in code.split(';') {
             let mut slab = fasteval::Slab::new();
-            let mut assign = line.split(":=");
-            if line.contains(":=") {
-                self.var
-                    .push(assign.next().unwrap().replace([' ', '\t', '\n'], ""));
-            }
-            let compiled = self
-                .parser
-                .parse(assign.next().unwrap(), &mut slab.ps)
-                .unwrap()
-                .from(&slab.ps)
-                .compile(&slab.ps, &mut slab.cs);
-            self.slab.push(slab);
-            self.compiled.push(compiled);
+            let (var, expression) = line.split_once(":=").unwrap_or(("", line));
+            // code with an error is ignored as a whole
+            let Ok(parsed) = self.parser.parse(expression, &mut slab.ps) else {
+                return;
+            };
+            let compiled = parsed.from(&slab.ps).compile(&slab.ps, &mut slab.cs);
+            vars.push(var.replace([' ', '\t', '\n'], ""));
+            slabs.push(slab);
+            instructions.push(compiled);
         }
+        self.slab = slabs;
+        self.var = vars;
+        self.compiled = instructions;
     }
 }
 
@@ -103,11 +102,11 @@ impl<const N: usize> Node<N> for Eval<N> {
 
             for (j, ins) in self.compiled.iter().enumerate() {
                 // println!("i is {}", j);
+                // e.g. an undefined variable
+                let v = ins.eval(&self.slab[j], &mut self.map).unwrap_or(0.0);
                 if j < self.compiled.len() - 1 {
-                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap();
                     self.map.insert(self.var[j].clone(), v);
                 } else {
-                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap();
                     output[0][i] = v as f32;
                 }
             }
@@ -118,9 +117,6 @@ impl<const N: usize> Node<N> for Eval<N> {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetToSymbol(0, code) => {
-                self.slab.clear();
-                self.var.clear();
-                self.compiled.clear();
                 self.apply_code(&code);
                 // self.code(s);
                 // self.compiled = self.parser.parse(&s, &mut self.slab.ps).unwrap().from(&self.slab.ps)
-- 
2.43.0


From f9d897962f42b1a3d3df8d8c096fa8922cd2bf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:55 +0000
Subject: [PATCH 09/61] fix: check the pattern of a psynth when parsing

A pattern that is not a list of number pairs was accepted and then panicked
while building the node. Report it as a parsing error. The span is optional
in the grammar but was required by the parser; it now defaults to one bar.
---
 rs/parser/src/nodes.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 14d101a..d9f22fc 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -861,12 +861,21 @@ impl<'ast> Node<'ast> for PatternSynth<'ast> {
         span: Span<'ast>,
     ) -> Result<Self, Box<Error<Rule>>> {
         let end_span = span.as_end_span();
-        let symbol = pairs
+        let code = pairs
             .next()
-            .ok_or_else(|| end_span.to_err_with_positives([Rule::symbol]))?
-            .as_str();
+            .ok_or_else(|| end_span.to_err_with_positives([Rule::code]))?;
+        let symbol = code.as_str();
+
+        // a comma-separated list of "time midi" pairs
+        let is_event = |event: &str| {
+            let mut numbers = event.split(' ').filter(|x| !x.is_empty());
+            numbers.clone().count() >= 2 && numbers.all(|x| x.parse::<f32>().is_ok())
+        };
+        if !symbol.trim_matches('`').split(',').all(is_event) {
+            return Err(code.as_span().to_err_with_positives([Rule::number]));
+        }
 
-        let span = pairs.next_parsed(end_span)?;
+        let span = pairs.next().map_or(Ok(1.), |r| r.try_to_parse())?;
         Ok(Self { symbol, span })
     }
 }
-- 
2.43.0


From 76cbb55f0f063f522756d957ea510ac1f2252ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:55 +0000
Subject: [PATCH 10/61] fix: ignore malformed messages to psynth and msgsynth

A control message whose text is not a list of numbers panicked.
---
 rs/synth/src/node/synth/msgsynth.rs      |  6 ++++--
 rs/synth/src/node/synth/pattern_synth.rs | 21 ++++++++++-----------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/rs/synth/src/node/synth/msgsynth.rs b/rs/synth/src/node/synth/msgsynth.rs
index f351415..488c6f0 100644
--- a/rs/synth/src/node/synth/msgsynth.rs
+++ b/rs/synth/src/node/synth/msgsynth.rs
@@ -161,9 +161,11 @@ impl<const N: usize> Node<N> for MsgSynth {
                         // estimate event_s "2.74343=>60"
                         // for event_s.split("=>");
                         if event_s.contains("=>") {
-                            let mut events = event_s.split("=>").map(|v| v.parse::<f32>().unwrap());
+                            let mut events = event_s.split("=>").map(|v| v.parse::<f32>().ok());
 
-                            if let (Some(start), Some(end)) = (events.next(), events.next()) {
+                            if let (Some(Some(start)), Some(Some(end))) =
+                                (events.next(), events.next())
+                            {
                                 let event_n = (start * self.sr as f32) as usize;
                                 self.events.push((event_n, end));
                             }
diff --git a/rs/synth/src/node/synth/pattern_synth.rs b/rs/synth/src/node/synth/pattern_synth.rs
index e234677..46bb046 100644
--- a/rs/synth/src/node/synth/pattern_synth.rs
+++ b/rs/synth/src/node/synth/pattern_synth.rs
@@ -134,19 +134,18 @@ impl<const N: usize> Node<N> for PatternSynth {
             //     self.bpm = bpm
             // },
             Message::SetToSymbol(0, s) => {
-                // panic!();
-                self.events.clear();
                 let pattern = s.replace('`', "");
-                for event in pattern.split(',') {
-                    // println!("event {:?}", event);
-                    let mut result = event
-                        .split(' ')
-                        .filter(|x| !x.is_empty())
-                        .map(|x| x.replace(' ', "").parse::<f32>().unwrap());
+                let events = pattern
+                    .split(',')
+                    .map(|event| {
+                        let mut numbers = event.split_whitespace().map(|x| x.parse().ok());
+                        Some((numbers.next()??, numbers.next()??))
+                    })
+                    .collect::<Option<Vec<_>>>();
 
-                    // println!("result {:?}", result);
-                    self.events
-                        .push((result.next().unwrap(), result.next().unwrap()));
+                // a malformed pattern is ignored
+                if let Some(events) = events {
+                    self.events = events;
                 }
             }
             Message::SetRefOrder(ref_order) => {
-- 
2.43.0


From 4380f7572bef4a83cb53231b0a45534c814f68ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:55 +0000
Subject: [PATCH 11/61] fix: use the attack before the decay in msgsynth

The two branches of the envelope were swapped: notes started at the level
of the decay and kept growing during it.
---
 rs/synth/src/node/synth/msgsynth.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/synth/msgsynth.rs b/rs/synth/src/node/synth/msgsynth.rs
index 488c6f0..264400f 100644
--- a/rs/synth/src/node/synth/msgsynth.rs
+++ b/rs/synth/src/node/synth/msgsynth.rs
@@ -106,14 +106,14 @@ impl<const N: usize> Node<N> for MsgSynth {
                     let pos = self.step - synth_info.0;
 
                     let amp = match pos.cmp(&attack_n) {
-                        Ordering::Greater | Ordering::Equal => {
+                        Ordering::Less | Ordering::Equal => {
                             if attack_n == 0 {
                                 0.0
                             } else {
                                 pos as f32 / (self.att * self.sr as f32)
                             }
                         }
-                        Ordering::Less => {
+                        Ordering::Greater => {
                             if decay_n == 0 {
                                 0.0
                             } else {
-- 
2.43.0


From 310e2d9c36c2214d50506a58ffa55ed9d884b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:55 +0000
Subject: [PATCH 12/61] fix: follow the span and the tempo in psynth

The pattern always repeated every two seconds, whatever its span and the
tempo of the engine.
---
 rs/main/src/util.rs                      | 6 +++++-
 rs/synth/src/node/synth/pattern_synth.rs | 4 +---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index f1658a4..5939047 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -114,7 +114,11 @@ pub fn makenode<const N: usize>(
                 .collect();
 
             (
-                PatternSynth::new(events).sr(sr).to_boxed_nodedata(1),
+                PatternSynth::new(events)
+                    .sr(sr)
+                    .period_in_cycle(*span)
+                    .cycle_dur(60. / bpm * 4.)
+                    .to_boxed_nodedata(1),
                 vec![],
             )
         }
diff --git a/rs/synth/src/node/synth/pattern_synth.rs b/rs/synth/src/node/synth/pattern_synth.rs
index 46bb046..dd3bcc4 100644
--- a/rs/synth/src/node/synth/pattern_synth.rs
+++ b/rs/synth/src/node/synth/pattern_synth.rs
@@ -130,9 +130,7 @@ impl<const N: usize> Node<N> for PatternSynth {
     }
     fn send_msg(&mut self, info: Message) {
         match info {
-            // Message::SetBPM(bpm) => {
-            //     self.bpm = bpm
-            // },
+            Message::SetBPM(bpm) => self.cycle_dur = 60. / bpm * 4.,
             Message::SetToSymbol(0, s) => {
                 let pattern = s.replace('`', "");
                 let events = pattern
-- 
2.43.0


From e6ee0c9561251c7036e4a1bccb44f91eeda893d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:55 +0000
Subject: [PATCH 13/61] fix: let a points list without a span cover one bar

The span defaulted to -1, so that every time given in bars was clamped to
zero and only the last point was heard.
---
 rs/parser/src/nodes.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index d9f22fc..94b4ec5 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -207,7 +207,7 @@ impl Node<'_> for Points {
         pairs: &mut Pairs<'_, Rule>,
         span: Span<'_>,
     ) -> Result<Self, Box<Error<Rule>>> {
-        let mut node_span = -1.0;
+        let mut node_span = 1.0;
         let mut is_looping = false;
         let points = pairs.next().ok_or_else(|| {
             span.as_end_span()
@@ -226,7 +226,6 @@ impl Node<'_> for Points {
                     };
                 },
                 Rule::is_looping => {
-                    node_span = 1.0;
                     is_looping = true;
                 },
             )
-- 
2.43.0


From 5626deeff4af66f6fb0c47e9764d2467f9fe01c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:55 +0000
Subject: [PATCH 14/61] fix: interpolate between the surrounding points

The point before the current position was looked up wrongly: the position
of the first point panicked, the end of the list started over, and a
looping list extrapolated from the following point. An empty list panicked.
---
 rs/synth/src/node/signal/points.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index e499d96..6087887 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -86,7 +86,7 @@ impl Points {
             })
             .collect::<Vec<_>>();
 
-        if point_list[0].0 != 0 {
+        if point_list.first().is_some_and(|point| point.0 != 0) {
             point_list.insert(0, (0, 0.0));
         }
 
@@ -102,14 +102,14 @@ impl<const N: usize> Node<N> for Points {
             return;
         }
         let cycle_dur = 60. / self.bpm * 4.;
-        let bar_dur = (cycle_dur * self.span * self.sr as f32) as usize;
+        let bar_dur = ((cycle_dur * self.span * self.sr as f32) as usize).max(1);
 
         if !self.is_looping {
             for out in &mut *output[0] {
                 let pos = self.step;
                 let samples = &self.point_list;
 
-                let index = samples.iter().position(|s| pos <= s.0).map_or(0, |p| p - 1);
+                let index = samples.iter().rposition(|s| s.0 <= pos).unwrap_or(0);
 
                 // println!("index {} pos {} samples {:?}", index, pos, samples);
                 if index < samples.len() - 1 {
@@ -132,19 +132,18 @@ impl<const N: usize> Node<N> for Points {
                 let period = bar_dur;
                 let samples = &self.point_list;
 
-                let prev = samples.iter().enumerate().find(|(_, (s, _))| pos <= *s);
+                let index = samples.iter().rposition(|s| s.0 <= pos).unwrap_or(0);
 
-                let is_last = prev.is_none();
-                let (index, (prev_pos, prev_val)) =
-                    prev.unwrap_or_else(|| (samples.len() - 1, samples.last().unwrap()));
+                let is_last = index == samples.len() - 1;
+                let (prev_pos, prev_val) = samples[index];
 
                 let (next_pos, next_val) = samples[(index + 1) % samples.len()];
 
                 let t = if is_last {
-                    (pos as f32 - *prev_pos as f32)
-                        / (period as f32 - *prev_pos as f32 + next_pos as f32)
+                    (pos as f32 - prev_pos as f32)
+                        / (period as f32 - prev_pos as f32 + next_pos as f32)
                 } else {
-                    (pos as f32 - *prev_pos as f32) / (next_pos as f32 - *prev_pos as f32)
+                    (pos as f32 - prev_pos as f32) / (next_pos as f32 - prev_pos as f32)
                 };
                 *out = prev_val + t * (next_val - prev_val);
 
-- 
2.43.0


From 890c868e19d8aa16f617446691e80ca19a4f0145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:56 +0000
Subject: [PATCH 15/61] fix: let pan, plate and delayms run without an input

Starting a chain with one of them panicked when the next block was
rendered.
---
 rs/synth/src/node/delay/delayms.rs | 4 +++-
 rs/synth/src/node/effect/pan.rs    | 2 +-
 rs/synth/src/node/effect/plate.rs  | 5 ++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index ed1ea93..85eef51 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -44,7 +44,9 @@ impl DelayMs {
 
 impl<const N: usize> Node<N> for DelayMs {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
-        let main_input = inputs.values().next().unwrap();
+        let Some(main_input) = inputs.values().next() else {
+            return;
+        };
         if !(1..=2).contains(&main_input.buffers().len()) {
             return;
         }
diff --git a/rs/synth/src/node/effect/pan.rs b/rs/synth/src/node/effect/pan.rs
index 8bc11df..4a9573f 100644
--- a/rs/synth/src/node/effect/pan.rs
+++ b/rs/synth/src/node/effect/pan.rs
@@ -36,7 +36,7 @@ impl<const N: usize> Node<N> for Pan {
                 *left = left_gain * sample; // Left channel
                 *right = right_gain * sample; // Right channel
             }
-        } else {
+        } else if inputs.len() == 2 {
             let ref_input = &inputs[&self.input_order[1]]; // can panic if there is no id
             let main_input = &inputs[&self.input_order[0]]; // can panic if there is no id
 
diff --git a/rs/synth/src/node/effect/plate.rs b/rs/synth/src/node/effect/plate.rs
index d63cab1..c196c0f 100644
--- a/rs/synth/src/node/effect/plate.rs
+++ b/rs/synth/src/node/effect/plate.rs
@@ -158,7 +158,10 @@ impl<const N: usize> Plate<N> {
 
 impl<const N: usize> Node<N> for Plate<N> {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
-        let main_input = inputs[&self.input_order[0]].buffers();
+        let Some(main_input) = self.input_order.first().and_then(|i| inputs.get(i)) else {
+            return;
+        };
+        let main_input = main_input.buffers();
         self.context.graph[self.input].buffers[0] = main_input[0].clone();
         // self.context.graph[self.input].buffers[1] = main_input[1].clone();
         let cout = self.context.next_block();
-- 
2.43.0


From 816531815d970531f69ab6754d0198a0bbf26d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:56 +0000
Subject: [PATCH 16/61] fix: limit the period of imp to one sample

A frequency above the sample rate made the period zero and panicked.
---
 rs/synth/src/node/signal/imp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/signal/imp.rs b/rs/synth/src/node/signal/imp.rs
index e55986f..af6dc1e 100644
--- a/rs/synth/src/node/signal/imp.rs
+++ b/rs/synth/src/node/signal/imp.rs
@@ -25,7 +25,7 @@ impl Impulse {
         }
     }
     pub fn freq(self, freq: f32) -> Self {
-        let period = (self.sr as f32 / freq) as usize;
+        let period = ((self.sr as f32 / freq) as usize).max(1);
         Self { period, ..self }
     }
     pub fn sr(self, sr: usize) -> Self {
@@ -50,7 +50,9 @@ impl<const N: usize> Node<N> for Impulse {
 
     fn send_msg(&mut self, info: Message) {
         match info {
-            Message::SetToNumber(0, value) => self.period = (self.sr as f32 / value) as usize,
+            Message::SetToNumber(0, value) => {
+                self.period = ((self.sr as f32 / value) as usize).max(1)
+            }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
-- 
2.43.0


From 60a4ce2b82b16d0d92488434cb98fa9fbf3c66fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:39 +0000
Subject: [PATCH 17/61] fix: limit the length of a bar to one sample

A very high speed or tempo, or an empty span, made the bar shorter than one
sample. The remainder by zero then panicked in seq, psampler, psynth and
the pattern of lpf.
---
 rs/synth/src/node/filter/rlpf.rs         | 2 +-
 rs/synth/src/node/sampling/psampler.rs   | 2 +-
 rs/synth/src/node/sequencer/seq.rs       | 4 ++--
 rs/synth/src/node/synth/pattern_synth.rs | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/rs/synth/src/node/filter/rlpf.rs b/rs/synth/src/node/filter/rlpf.rs
index 8893e8c..4e63144 100644
--- a/rs/synth/src/node/filter/rlpf.rs
+++ b/rs/synth/src/node/filter/rlpf.rs
@@ -90,7 +90,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
                 let main_input = inputs.values_mut().next().unwrap();
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
                     for event in &self.pattern {
-                        if (self.step % (bar_dur as usize))
+                        if (self.step % (bar_dur as usize).max(1))
                             == ((event.1 * cycle_dur * self.sr as f32) as usize)
                         {
                             self.cutoff = event.0
diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index eb24ea2..fae0261 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -55,7 +55,7 @@ impl<const N: usize> Node<N> for PSampler {
             // if input_buf[0][i] > 0.0 {
 
             for event in &self.pattern {
-                if (self.step % (bar_dur as usize))
+                if (self.step % (bar_dur as usize).max(1))
                     == ((event.1 * self.cycle_dur * self.sr as f32) as usize)
                 {
                     let pitch = 1.0;
diff --git a/rs/synth/src/node/sequencer/seq.rs b/rs/synth/src/node/sequencer/seq.rs
index a053f92..cc1cb47 100644
--- a/rs/synth/src/node/sequencer/seq.rs
+++ b/rs/synth/src/node/sequencer/seq.rs
@@ -46,7 +46,7 @@ impl<const N: usize> Node<N> for Sequencer {
                 for out in &mut *output[0] {
                     *out = 0.0;
                     for event in &self.events {
-                        if (self.step % (bar_length as usize))
+                        if (self.step % (bar_length as usize).max(1))
                             == ((event.0 as f64 * bar_length) as usize)
                         {
                             let midi = match event.1 {
@@ -78,7 +78,7 @@ impl<const N: usize> Node<N> for Sequencer {
                     *out = 0.0;
 
                     for event in &self.events {
-                        if (self.step % (bar_length as usize))
+                        if (self.step % (bar_length as usize).max(1))
                             == ((event.0 as f64 * bar_length) as usize)
                         {
                             let midi = match &event.1 {
diff --git a/rs/synth/src/node/synth/pattern_synth.rs b/rs/synth/src/node/synth/pattern_synth.rs
index dd3bcc4..b97635b 100644
--- a/rs/synth/src/node/synth/pattern_synth.rs
+++ b/rs/synth/src/node/synth/pattern_synth.rs
@@ -63,7 +63,7 @@ impl<const N: usize> Node<N> for PatternSynth {
                 *out = 0.0;
 
                 for event in &self.events {
-                    if (self.step % (bar_length as usize))
+                    if (self.step % (bar_length as usize).max(1))
                         == ((event.0 * self.cycle_dur * self.sr as f32) as usize)
                     {
                         let midi = event.1;
-- 
2.43.0


From 8d0e866a03158c6cefe882d6dab48048eec09f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:39 +0000
Subject: [PATCH 18/61] fix: limit the delay of apfmsgain to one sample

A delay shorter than one sample created an empty ring buffer and panicked.
---
 rs/synth/src/node/filter/apfmsgain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index 0443b2f..5a8db47 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -32,7 +32,7 @@ impl AllPassFilterGain {
         let size = if delay == 0.0 {
             3. * self.sr as f32
         } else {
-            delay / 1000. * self.sr as f32
+            (delay / 1000. * self.sr as f32).max(1.)
         } as usize;
         Self {
             bufx: ring_buffer::Fixed::from(vec![0.0; size]),
-- 
2.43.0


From 115879bc12bc608c7e4b42c3550e133b4dd81219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:39 +0000
Subject: [PATCH 19/61] fix: change the delay of apfmsgain on a message

The message only rotated the ring buffers and kept their length, so the
delay never changed.
---
 rs/synth/src/node/filter/apfmsgain.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index 5a8db47..7b0e9be 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -102,9 +102,9 @@ impl<const N: usize> Node<N> for AllPassFilterGain {
         match info {
             Message::SetToNumber(pos, value) => match pos {
                 0 => {
-                    let delay_n = (value / 1000. * self.sr as f32) as usize;
-                    self.bufx.set_first(delay_n);
-                    self.bufy.set_first(delay_n);
+                    let delay_n = ((value / 1000. * self.sr as f32) as usize).max(1);
+                    self.bufx = ring_buffer::Fixed::from(vec![0.0; delay_n]);
+                    self.bufy = ring_buffer::Fixed::from(vec![0.0; delay_n]);
                 }
                 1 => self.gain = value,
                 _ => {}
-- 
2.43.0


From 93888db090257a7d8010a5d10432f51d5e55ac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:39 +0000
Subject: [PATCH 20/61] fix: accept a zero delay time in messages to the delays

Setting delayn to zero created an empty ring buffer. Setting delayms to zero
dropped its buffers, so that no later message could bring the node back.
---
 rs/synth/src/node/delay/delayms.rs | 11 +++--------
 rs/synth/src/node/delay/delayn.rs  |  2 +-
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index 85eef51..c5aab8e 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -109,15 +109,10 @@ impl<const N: usize> Node<N> for DelayMs {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetToNumber(0, value) => {
-                let delay_n = (value / 1000. * self.sr as f32) as usize;
+                let delay_n = ((value / 1000. * self.sr as f32) as usize).max(1);
+                let chan = self.buf.len();
                 self.delay_n = delay_n;
-
-                if delay_n == 0 {
-                    self.buf.clear();
-                } else {
-                    let chan = self.buf.len();
-                    self.buf = vec![Fixed::from(vec![0.0; delay_n]); chan];
-                };
+                self.buf = vec![Fixed::from(vec![0.0; delay_n]); chan];
             }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
diff --git a/rs/synth/src/node/delay/delayn.rs b/rs/synth/src/node/delay/delayn.rs
index f483daa..71293aa 100644
--- a/rs/synth/src/node/delay/delayn.rs
+++ b/rs/synth/src/node/delay/delayn.rs
@@ -62,7 +62,7 @@ impl<const N: usize> Node<N> for DelayN {
         match info {
             Message::SetToNumber(0, value) => {
                 self.delay_n = value as usize;
-                self.buf = Fixed::from(vec![0.0; self.delay_n]);
+                self.buf = Fixed::from(vec![0.0; self.delay_n.max(1)]);
                 // buf2 = Fixed::from(vec![0.0; delay_n]);
                 // self.buf.set_first(self.delay_n);
                 // self.buf2.set_first(delay_n);
-- 
2.43.0


From 8bee048a45a631ccfee0e2106dfb0b198344cb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:39 +0000
Subject: [PATCH 21/61] fix: wrap a modulated delay time without looping

A very large delay time in the modulation kept the renderer in a loop that
added the buffer length to a number too large to change.
---
 rs/synth/src/node/delay/delayms.rs    | 6 ++----
 rs/synth/src/node/filter/apfmsgain.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index c5aab8e..4c1cdfb 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -78,10 +78,8 @@ impl<const N: usize> Node<N> for DelayMs {
 
                 let mod_buf = &mut ref_input.buffers();
                 for i in 0..N {
-                    let mut pos = -mod_buf[0][i] / 1000. * self.sr as f32;
-                    while pos < 0. {
-                        pos += self.buf[0].len() as f32;
-                    }
+                    let pos = (-mod_buf[0][i] / 1000. * self.sr as f32)
+                        .rem_euclid(self.buf[0].len() as f32);
                     let pos_int = pos.floor() as usize;
                     let pos_frac = pos.fract();
 
diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index 7b0e9be..47cf4e7 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -75,10 +75,8 @@ impl<const N: usize> Node<N> for AllPassFilterGain {
                     .zip(main_input.buffers()[0].iter())
                     .zip(ref_input.buffers()[0].iter())
                 {
-                    let mut pos = -mod_buf / 1000. * self.sr as f32;
-                    while pos < 0. {
-                        pos += self.bufx.len() as f32;
-                    }
+                    let pos =
+                        (-mod_buf / 1000. * self.sr as f32).rem_euclid(self.bufx.len() as f32);
                     let pos_int = pos.floor() as usize;
                     let pos_frac = pos.fract();
 
-- 
2.43.0


From f8b500a6614e2f251a5b55049cb6f73656a3748e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:39 +0000
Subject: [PATCH 22/61] fix: weight the neighbouring samples of a modulated
 delay correctly

The weights of the linear interpolation were swapped, so that a delay of a
whole number of samples came out one sample short and fractions moved the
wrong way.
---
 rs/synth/src/node/delay/delayms.rs    | 4 ++--
 rs/synth/src/node/filter/apfmsgain.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index 4c1cdfb..7f25305 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -90,8 +90,8 @@ impl<const N: usize> Node<N> for DelayMs {
                         .zip(main_input.buffers());
 
                     for ((fixed, out_buf), main_buf) in iter {
-                        out_buf[i] = fixed.get(pos_int) * pos_frac
-                            + fixed.get(pos_int + 1) * (1. - pos_frac);
+                        out_buf[i] = fixed.get(pos_int) * (1. - pos_frac)
+                            + fixed.get(pos_int + 1) * pos_frac;
                         fixed.push(main_buf[i]);
                     }
                 }
diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index 47cf4e7..7afb5d3 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -80,10 +80,10 @@ impl<const N: usize> Node<N> for AllPassFilterGain {
                     let pos_int = pos.floor() as usize;
                     let pos_frac = pos.fract();
 
-                    let xdelay = self.bufx.get(pos_int) * pos_frac
-                        + self.bufx.get(pos_int + 1) * (1. - pos_frac);
-                    let ydelay = self.bufy.get(pos_int) * pos_frac
-                        + self.bufy.get(pos_int + 1) * (1. - pos_frac);
+                    let xdelay = self.bufx.get(pos_int) * (1. - pos_frac)
+                        + self.bufx.get(pos_int + 1) * pos_frac;
+                    let ydelay = self.bufy.get(pos_int) * (1. - pos_frac)
+                        + self.bufy.get(pos_int + 1) * pos_frac;
 
                     let yn = -self.gain * xn + xdelay + self.gain * ydelay;
 
-- 
2.43.0


From 3e225c93abd8df71794b538ad2b216f3249db76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:39 +0000
Subject: [PATCH 23/61] fix: interpolate samples between the right neighbours

The interpolation weights of sp and psampler were swapped, which distorts
every sample not played at exactly one frame per step. The right channel of
a stereo sample was also read one frame late, and a stereo sample of one
frame panicked.
---
 rs/synth/src/node/sampling/psampler.rs | 14 +++++++-------
 rs/synth/src/node/sampling/sampler.rs  | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index fae0261..fb15626 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -82,8 +82,8 @@ impl<const N: usize> Node<N> for PSampler {
                                     let pos_index_float = x * ((sample.0.len() - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
-                                    let left_portion = pos_index_float - left;
-                                    let right_portion = 1. - left_portion;
+                                    let right_portion = pos_index_float - left;
+                                    let left_portion = 1. - right_portion;
 
                                     sample.0[left as usize] * left_portion
                                         + sample.0[right as usize] * right_portion
@@ -104,19 +104,19 @@ impl<const N: usize> Node<N> for PSampler {
                                 }
                                 x if x > 0.0 && x < 1.0 => {
                                     let pos_index_float =
-                                        x * (((sample.0.len() / sample.1) - 2) as f32);
+                                        x * (((sample.0.len() / sample.1) - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
-                                    let left_portion = pos_index_float - left;
-                                    let right_portion = 1. - left_portion;
+                                    let right_portion = pos_index_float - left;
+                                    let left_portion = 1. - right_portion;
 
                                     output[0][i] += sample.0[left as usize] * left_portion
                                         + sample.0[right as usize] * right_portion;
 
                                     output[1][i] += sample.0
-                                        [left as usize + (sample.0.len() / sample.1) + 1]
+                                        [left as usize + (sample.0.len() / sample.1)]
                                         * left_portion
-                                        + sample.0[right as usize + (sample.0.len() / sample.1) + 1]
+                                        + sample.0[right as usize + (sample.0.len() / sample.1)]
                                             * right_portion
                                 }
                                 _ => {}
diff --git a/rs/synth/src/node/sampling/sampler.rs b/rs/synth/src/node/sampling/sampler.rs
index becf224..e323e68 100644
--- a/rs/synth/src/node/sampling/sampler.rs
+++ b/rs/synth/src/node/sampling/sampler.rs
@@ -56,8 +56,8 @@ impl<const N: usize> Node<N> for Sampler {
                                         let pos_index_float = pos * (self.endindex as f32);
                                         let left = pos_index_float.floor();
                                         let right = pos_index_float.ceil();
-                                        let left_portion = pos_index_float - left;
-                                        let right_portion = 1. - left_portion;
+                                        let right_portion = pos_index_float - left;
+                                        let left_portion = 1. - right_portion;
 
                                         self.sample.0[left as usize] * left_portion
                                             + self.sample.0[right as usize] * right_portion
@@ -77,18 +77,18 @@ impl<const N: usize> Node<N> for Sampler {
                                 }
                                 // same comment here about match arms as above
                                 0.0..=1.0 => {
-                                    let pos_index_float = pos * ((self.len - 2) as f32);
+                                    let pos_index_float = pos * ((self.len - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
-                                    let left_portion = pos_index_float - left;
-                                    let right_portion = 1. - left_portion;
+                                    let right_portion = pos_index_float - left;
+                                    let left_portion = 1. - right_portion;
 
                                     output[0][i] += self.sample.0[left as usize] * left_portion
                                         + self.sample.0[right as usize] * right_portion;
 
-                                    output[1][i] += self.sample.0[left as usize + self.len + 1]
+                                    output[1][i] += self.sample.0[left as usize + self.len]
                                         * left_portion
-                                        + self.sample.0[right as usize + self.len + 1]
+                                        + self.sample.0[right as usize + self.len]
                                             * right_portion;
                                 }
                                 _ => {}
-- 
2.43.0


From 94b30ceebb218879af9313e316d39b1f6e3336d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:39 +0000
Subject: [PATCH 24/61] fix: write the envelope of envperc to both channels

The node has two channels but only the left one was written, so everything
multiplied by the envelope was silent on the right.
---
 rs/synth/src/node/envelope/envperc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rs/synth/src/node/envelope/envperc.rs b/rs/synth/src/node/envelope/envperc.rs
index 52f02fc..ce0543f 100644
--- a/rs/synth/src/node/envelope/envperc.rs
+++ b/rs/synth/src/node/envelope/envperc.rs
@@ -74,6 +74,10 @@ impl<const N: usize> Node<N> for EnvPerc {
                 *out *= self.scale;
                 self.pos += 1;
             }
+
+            if let ([out_0], [out_1]) = output.split_at_mut(1) {
+                out_1.copy_from_slice(out_0);
+            }
         }
     }
 
-- 
2.43.0


From 2dd39603459d29e33e5c666b5d45a84da5f9a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:39 +0000
Subject: [PATCH 25/61] fix: write seq and choose to both channels

The nodes have two channels but only the left one was written, so a sine
multiplied by a seq was silent on the right.
---
 rs/synth/src/node/sequencer/choose.rs | 4 +++-
 rs/synth/src/node/sequencer/seq.rs    | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/sequencer/choose.rs b/rs/synth/src/node/sequencer/choose.rs
index 3c957e0..dc2437e 100644
--- a/rs/synth/src/node/sequencer/choose.rs
+++ b/rs/synth/src/node/sequencer/choose.rs
@@ -25,7 +25,9 @@ impl<const N: usize> Node<N> for Choose {
         if id == self.note_list.len() {
             id = 0
         };
-        output[0].iter_mut().for_each(|s| *s = self.note_list[id]);
+        for buffer in output {
+            buffer.iter_mut().for_each(|s| *s = self.note_list[id]);
+        }
     }
     fn send_msg(&mut self, info: Message) {
         match info {
diff --git a/rs/synth/src/node/sequencer/seq.rs b/rs/synth/src/node/sequencer/seq.rs
index cc1cb47..543a76e 100644
--- a/rs/synth/src/node/sequencer/seq.rs
+++ b/rs/synth/src/node/sequencer/seq.rs
@@ -101,6 +101,10 @@ impl<const N: usize> Node<N> for Sequencer {
                 }
             }
         }
+
+        if let ([out_0], [out_1]) = output.split_at_mut(1) {
+            out_1.copy_from_slice(out_0);
+        }
     }
     fn send_msg(&mut self, info: Message) {
         match info {
-- 
2.43.0


From 12f9cdb5c6f523f7dfeb9bfa5a5699836a5fdc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:39 +0000
Subject: [PATCH 26/61] fix: write apfmsgain to both channels

The node has two channels but only the left one was written.
---
 rs/synth/src/node/filter/apfmsgain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index 7afb5d3..c75961a 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -94,6 +94,10 @@ impl<const N: usize> Node<N> for AllPassFilterGain {
             }
             _ => (),
         }
+
+        if let ([out_0], [out_1]) = output.split_at_mut(1) {
+            out_1.copy_from_slice(out_0);
+        }
     }
 
     fn send_msg(&mut self, info: Message) {
-- 
2.43.0


From 3cc2d5a24d26597b323c442e6701a91bd644b49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:22 +0000
Subject: [PATCH 27/61] fix: delay a mono input on both channels in delayms

Only the left channel of the delay was written when its input is mono.
---
 rs/synth/src/node/delay/delayms.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index 7f25305..c5e1c85 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -58,11 +58,12 @@ impl<const N: usize> Node<N> for DelayMs {
                     // equal to a pass node
                     0 => output[0].copy_from_slice(&main_input.buffers()[0]),
                     _ => {
+                        // a mono input goes to all the channels
                         let iter = self
                             .buf
                             .iter_mut()
                             .zip(output.iter_mut())
-                            .zip(main_input.buffers());
+                            .zip(main_input.buffers().iter().cycle());
 
                         for ((fixed, out_buf), main_buf) in iter {
                             for (out, main) in out_buf.iter_mut().zip(main_buf.iter()) {
@@ -87,7 +88,7 @@ impl<const N: usize> Node<N> for DelayMs {
                         .buf
                         .iter_mut()
                         .zip(output.iter_mut())
-                        .zip(main_input.buffers());
+                        .zip(main_input.buffers().iter().cycle());
 
                     for ((fixed, out_buf), main_buf) in iter {
                         out_buf[i] = fixed.get(pos_int) * (1. - pos_frac)
-- 
2.43.0


From 56286b6ccfe0079cef28397a76c42009eb3ef85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:22 +0000
Subject: [PATCH 28/61] fix: delay the right channel of a stereo input in
 delayn

Only the left channel was delayed, the right one stayed silent.
---
 rs/synth/src/node/delay/delayn.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rs/synth/src/node/delay/delayn.rs b/rs/synth/src/node/delay/delayn.rs
index 71293aa..72056c3 100644
--- a/rs/synth/src/node/delay/delayn.rs
+++ b/rs/synth/src/node/delay/delayn.rs
@@ -6,6 +6,7 @@ type Fixed = ring_buffer::Fixed<Vec<f32>>;
 #[derive(Debug, Clone)]
 pub struct DelayN {
     buf: Fixed,
+    buf2: Fixed, // for the right channel of a stereo input
     delay_n: usize,
     input_order: Vec<usize>,
 }
@@ -18,8 +19,10 @@ impl DelayN {
             _ => n,
         };
         let buf = ring_buffer::Fixed::from(vec![0.0; init_n]);
+        let buf2 = buf.clone();
         Self {
             buf,
+            buf2,
             delay_n,
             input_order: Vec::new(),
         }
@@ -33,8 +36,9 @@ impl<const N: usize> Node<N> for DelayN {
             if self.delay_n != 0 {
                 for i in 0..N {
                     output[0][i] = self.buf.push(main_input.buffers()[0][i]);
-                    if main_input.buffers().len() == 1 && output.len() == 2 {
-                        output[1][i] = output[0][i];
+                    if output.len() == 2 {
+                        let right = main_input.buffers().len() - 1;
+                        output[1][i] = self.buf2.push(main_input.buffers()[right][i]);
                     }
                 }
             } else {
@@ -63,9 +67,7 @@ impl<const N: usize> Node<N> for DelayN {
             Message::SetToNumber(0, value) => {
                 self.delay_n = value as usize;
                 self.buf = Fixed::from(vec![0.0; self.delay_n.max(1)]);
-                // buf2 = Fixed::from(vec![0.0; delay_n]);
-                // self.buf.set_first(self.delay_n);
-                // self.buf2.set_first(delay_n);
+                self.buf2 = self.buf.clone();
             }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
-- 
2.43.0


From 6c4a3160b0f842b475f9bafc227910b7af834b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:34 +0000
Subject: [PATCH 29/61] fix: play both channels of the chains in arrange

Only the left channel of the current chain was copied and the right one
stayed silent. A chain arranging itself panicked.
---
 rs/synth/src/node/sequencer/arrange.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/rs/synth/src/node/sequencer/arrange.rs b/rs/synth/src/node/sequencer/arrange.rs
index 5d47e28..10afd3e 100644
--- a/rs/synth/src/node/sequencer/arrange.rs
+++ b/rs/synth/src/node/sequencer/arrange.rs
@@ -41,11 +41,26 @@ impl Arrange {
     }
 }
 
+/// Copy one frame of a source to all the channels of the output; a mono source goes to all of them
+fn copy_frame<const N: usize>(
+    inputs: &HashMap<usize, Input<N>>,
+    source: Option<&usize>,
+    output: &mut [Buffer<N>],
+    i: usize,
+) {
+    let Some(source) = source.and_then(|index| inputs.get(index)) else {
+        return;
+    };
+    for (out, buffer) in output.iter_mut().zip(source.buffers().iter().cycle()) {
+        out[i] = buffer[i];
+    }
+}
+
 impl<const N: usize> Node<N> for Arrange {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         let bar_length = 240.0 / self.bpm * self.sr as f32 / self.speed;
         // calculate which bar we are and which input to pass to theoutput
-        for (i, out) in output[0].iter_mut().enumerate() {
+        for i in 0..N {
             let pos = self.step as f32 / bar_length;
             let mut bar_count = 0.0;
             for j in 0..(self.events.len() / 2) {
@@ -55,8 +70,7 @@ impl<const N: usize> Node<N> for Arrange {
 
                 bar_count += bar;
                 if pos < bar_count {
-                    let source = &inputs[&self.input_order[j]];
-                    *out = source.buffers()[0][i];
+                    copy_frame(inputs, self.input_order.get(j), output, i);
                     // match &self.events[j*2] {
                     //     GlicolPara::Reference(s) => {
                     //         let source = &inputs[&self.input_order[j]];
@@ -67,8 +81,7 @@ impl<const N: usize> Node<N> for Arrange {
                     break;
                 } else if j == self.events.len() / 2 - 1 {
                     self.step = 0;
-                    let source = &inputs[&self.input_order[0]];
-                    *out = source.buffers()[0][i];
+                    copy_frame(inputs, self.input_order.first(), output, i);
                     // match &self.events[0] {
                     //     GlicolPara::Reference(s) => {
                     //         let source = &inputs[&self.input_order[0]];
-- 
2.43.0


From d2faaa10ee8331ac4623adfe013f406a2bcc8360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:34 +0000
Subject: [PATCH 30/61] fix: change a duration of arrange on a message

The message appended to the list of events instead of changing the addressed
one, and panicked for every position inside the list. The tempo message was
not handled either.
---
 rs/synth/src/node/sequencer/arrange.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rs/synth/src/node/sequencer/arrange.rs b/rs/synth/src/node/sequencer/arrange.rs
index 10afd3e..71c4a69 100644
--- a/rs/synth/src/node/sequencer/arrange.rs
+++ b/rs/synth/src/node/sequencer/arrange.rs
@@ -98,13 +98,12 @@ impl<const N: usize> Node<N> for Arrange {
         match info {
             Message::SetToNumber(i, value) => {
                 self.step = 0;
-                let to_push = i as usize - self.events.len();
-
-                self.events.reserve(to_push + 1);
-                self.events
-                    .extend(std::iter::from_fn(|| Some(NumberOrRef::Number(0.0))).take(to_push));
-                self.events.push(NumberOrRef::Number(value));
+                // only the durations can be changed, not the chains
+                if let Some(NumberOrRef::Number(bars)) = self.events.get_mut(i as usize) {
+                    *bars = value;
+                }
             }
+            Message::SetBPM(bpm) => self.bpm = bpm,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
-- 
2.43.0


From d61c560ac5425878f3579ac2135b30f9cd84e754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:34 +0000
Subject: [PATCH 31/61] fix: feed the current sample to the lpf and hpf filters

The newest input was never part of the difference equation. The high-pass
filter let a large offset through and the low-pass filter lost a quarter of
its gain.
---
 rs/synth/src/node/filter/rhpf.rs | 6 ++----
 rs/synth/src/node/filter/rlpf.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/rs/synth/src/node/filter/rhpf.rs b/rs/synth/src/node/filter/rhpf.rs
index ec56e9d..1a57787 100644
--- a/rs/synth/src/node/filter/rhpf.rs
+++ b/rs/synth/src/node/filter/rhpf.rs
@@ -4,7 +4,6 @@ use hashbrown::HashMap;
 pub struct ResonantHighPassFilter {
     cutoff: f32,
     q: f32,
-    x0: f32,
     x1: f32,
     x2: f32,
     y1: f32,
@@ -24,7 +23,6 @@ impl ResonantHighPassFilter {
         Self {
             cutoff: 20.,
             q: 1.0,
-            x0: 0.,
             x1: 0.,
             x2: 0.,
             y1: 0.,
@@ -63,7 +61,7 @@ impl<const N: usize> Node<N> for ResonantHighPassFilter {
                 let b2 = 2.0 * beta;
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
                     let y =
-                        a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
+                        a0 * x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
                     *out = y;
                     self.x2 = self.x1;
                     self.x1 = *x0;
@@ -88,7 +86,7 @@ impl<const N: usize> Node<N> for ResonantHighPassFilter {
 
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
                     let y =
-                        a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
+                        a0 * x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
                     *out = y;
                     self.x2 = self.x1;
                     self.x1 = *x0;
diff --git a/rs/synth/src/node/filter/rlpf.rs b/rs/synth/src/node/filter/rlpf.rs
index 4e63144..d57a0a1 100644
--- a/rs/synth/src/node/filter/rlpf.rs
+++ b/rs/synth/src/node/filter/rlpf.rs
@@ -9,7 +9,6 @@ pub struct ResonantLowPassFilter {
     sr: usize,
     cutoff: f32,
     q: f32,
-    x0: f32,
     x1: f32,
     x2: f32,
     y1: f32,
@@ -35,7 +34,6 @@ impl ResonantLowPassFilter {
             step: 0,
             cutoff: 20.,
             q: 1.0,
-            x0: 0.,
             x1: 0.,
             x2: 0.,
             y1: 0.,
@@ -108,7 +106,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
                     let b2 = 2.0 * beta;
 
                     let y =
-                        a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
+                        a0 * x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
 
                     *out = y;
                     self.x2 = self.x1;
@@ -134,7 +132,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
 
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
                     let y =
-                        a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
+                        a0 * x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
                     *out = y;
                     self.x2 = self.x1;
                     self.x1 = *x0;
-- 
2.43.0


From b7e5432518d6988b05e08b8dcd3966a6ecb10de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:34 +0000
Subject: [PATCH 32/61] fix: build the high-pass filter for the engine's sample
 rate

Its cutoff was always computed for 44100 Hz.
---
 rs/main/src/util.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index 5939047..0f70bf3 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -210,6 +210,7 @@ pub fn makenode<const N: usize>(
                     nodes::NumberOrRef::Ref(_) => 100.0,
                 })
                 .q(*qvalue)
+                .sr(sr)
                 .to_boxed_nodedata(1);
 
             let mut reflist = vec![];
-- 
2.43.0


From c23cce6115cc41ede94032f70fb86e927f4d9d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:34 +0000
Subject: [PATCH 33/61] fix: filter the main input in a modulated onepole

The roles of the signal and of the modulator were swapped.
---
 rs/synth/src/node/filter/onepole.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/filter/onepole.rs b/rs/synth/src/node/filter/onepole.rs
index 3209f70..2759021 100644
--- a/rs/synth/src/node/filter/onepole.rs
+++ b/rs/synth/src/node/filter/onepole.rs
@@ -48,9 +48,9 @@ impl<const N: usize> Node<N> for OnePole {
                     .zip(main_input.buffers()[0].iter())
                     .zip(ref_input.buffers()[0].iter())
                 {
-                    self.b = (-2.0 * std::f32::consts::PI * main_in).exp();
+                    self.b = (-2.0 * std::f32::consts::PI * ref_in).exp();
                     self.a = 1. - self.b;
-                    let y = ref_in * self.a + self.b * self.y1;
+                    let y = main_in * self.a + self.b * self.y1;
                     *out = y;
                     self.y1 = y;
                 }
-- 
2.43.0


From 99ebfbfc3819437a5fd04ad2c2cdccd927ceedfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:34 +0000
Subject: [PATCH 34/61] fix: start the attack of adsr from the current level

A note retriggered during its release dropped to zero and did not reach the
full level at the end of the attack.
---
 rs/synth/src/node/envelope/adsr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/envelope/adsr.rs b/rs/synth/src/node/envelope/adsr.rs
index 57120fc..b96f06e 100644
--- a/rs/synth/src/node/envelope/adsr.rs
+++ b/rs/synth/src/node/envelope/adsr.rs
@@ -96,7 +96,8 @@ impl<const N: usize> Node<N> for Adsr {
                             } else {
                                 // attack from: lasty -> 1.0
                                 *out = self.pos as f32 / attack_len as f32
-                                    * (1.0 - self.state_change_y);
+                                    * (1.0 - self.state_change_y)
+                                    + self.state_change_y;
                             }
                         } else if self.pos > attack_len && self.pos <= attack_len + decay_len {
                             // decay phase
-- 
2.43.0


From ed12a275b157f31aa5b7ab1c8e8ef3c0af1a1455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:34 +0000
Subject: [PATCH 35/61] fix: follow tempo changes in psampler and lpf patterns

Patterns already playing kept the tempo they were created with.
---
 rs/synth/src/node/filter/rlpf.rs       | 1 +
 rs/synth/src/node/sampling/psampler.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/rs/synth/src/node/filter/rlpf.rs b/rs/synth/src/node/filter/rlpf.rs
index d57a0a1..8a7681e 100644
--- a/rs/synth/src/node/filter/rlpf.rs
+++ b/rs/synth/src/node/filter/rlpf.rs
@@ -147,6 +147,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
 
     fn send_msg(&mut self, info: Message) {
         match info {
+            Message::SetBPM(bpm) => self.bpm = bpm,
             Message::SetPattern(p, span) => {
                 self.pattern = p;
                 self.span = span;
diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index fb15626..3dccf5f 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -137,6 +137,7 @@ impl<const N: usize> Node<N> for PSampler {
 
     fn send_msg(&mut self, info: Message) {
         match info {
+            Message::SetBPM(bpm) => self.cycle_dur = 60. / bpm * 4.,
             Message::SetSamplePattern(pattern, span, samples_dict) => {
                 self.playback.clear();
                 self.pattern = pattern;
-- 
2.43.0


From b3ad3d2e85da360338e9bc713b905d681ade8334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:34 +0000
Subject: [PATCH 36/61] fix: play the same chain on both sides of balance

`balance ~a ~a` was silent.
---
 rs/synth/src/node/effect/balance.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rs/synth/src/node/effect/balance.rs b/rs/synth/src/node/effect/balance.rs
index 6732175..eb43b28 100644
--- a/rs/synth/src/node/effect/balance.rs
+++ b/rs/synth/src/node/effect/balance.rs
@@ -23,11 +23,12 @@ impl<const N: usize> Node<N> for Balance {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         // println!("inputs {:?} self.input_order {:?}", inputs, self.input_order);
         // panic!();
-        if inputs.len() == 2 {
-            let left = &inputs[&self.input_order[0]];
-            let right = &inputs[&self.input_order[1]];
-            output[0] = left.buffers()[0].clone();
-            output[1] = right.buffers()[0].clone();
+        if let [left, right] = self.input_order[..] {
+            // the same chain can be on both sides
+            if let (Some(left), Some(right)) = (inputs.get(&left), inputs.get(&right)) {
+                output[0] = left.buffers()[0].clone();
+                output[1] = right.buffers()[0].clone();
+            }
         }
     }
     fn send_msg(&mut self, info: Message) {
-- 
2.43.0


From 57611a267aa560b57da6cac3e427f14dec511eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:34 +0000
Subject: [PATCH 37/61] fix: keep the phase of the oscillators in range

The phase only wrapped by one period, and only upwards. With a negative
frequency or one above the sample rate the waves grew without bound.
---
 rs/synth/src/node/oscillator/saw_osc.rs | 4 ++--
 rs/synth/src/node/oscillator/sin_osc.rs | 8 ++++----
 rs/synth/src/node/oscillator/squ_osc.rs | 4 ++--
 rs/synth/src/node/oscillator/tri_osc.rs | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/rs/synth/src/node/oscillator/saw_osc.rs b/rs/synth/src/node/oscillator/saw_osc.rs
index c9970b6..ff9abe6 100644
--- a/rs/synth/src/node/oscillator/saw_osc.rs
+++ b/rs/synth/src/node/oscillator/saw_osc.rs
@@ -49,8 +49,8 @@ impl<const N: usize> Node<N> for SawOsc {
             |out, freq| {
                 *out = self.phase * 2. - 1.;
                 self.phase += freq / self.sr as f32;
-                if self.phase > 1. {
-                    self.phase -= 1.
+                if !(0. ..=1.).contains(&self.phase) {
+                    self.phase = self.phase.rem_euclid(1.)
                 }
             },
         );
diff --git a/rs/synth/src/node/oscillator/sin_osc.rs b/rs/synth/src/node/oscillator/sin_osc.rs
index 58c80d3..c8fe73e 100644
--- a/rs/synth/src/node/oscillator/sin_osc.rs
+++ b/rs/synth/src/node/oscillator/sin_osc.rs
@@ -43,8 +43,8 @@ impl<const N: usize> Node<N> for SinOsc {
                         buf[i] = (self.phase * 2.0 * std::f32::consts::PI).sin();
                     }
                     self.phase += self.freq / self.sr as f32;
-                    if self.phase > 1.0 {
-                        self.phase -= 1.0
+                    if !(0. ..=1.).contains(&self.phase) {
+                        self.phase = self.phase.rem_euclid(1.)
                     }
                 }
             }
@@ -60,8 +60,8 @@ impl<const N: usize> Node<N> for SinOsc {
                     }
 
                     self.phase += mod_buf / self.sr as f32;
-                    if self.phase > 1.0 {
-                        self.phase -= 1.0
+                    if !(0. ..=1.).contains(&self.phase) {
+                        self.phase = self.phase.rem_euclid(1.)
                     }
                 }
             }
diff --git a/rs/synth/src/node/oscillator/squ_osc.rs b/rs/synth/src/node/oscillator/squ_osc.rs
index d4d7005..a3a5192 100644
--- a/rs/synth/src/node/oscillator/squ_osc.rs
+++ b/rs/synth/src/node/oscillator/squ_osc.rs
@@ -52,8 +52,8 @@ impl<const N: usize> Node<N> for SquOsc {
                 }
 
                 self.phase += freq / self.sr as f32;
-                if self.phase > 1. {
-                    self.phase -= 1.
+                if !(0. ..=1.).contains(&self.phase) {
+                    self.phase = self.phase.rem_euclid(1.)
                 }
             },
         );
diff --git a/rs/synth/src/node/oscillator/tri_osc.rs b/rs/synth/src/node/oscillator/tri_osc.rs
index 155d198..1a6e3be 100644
--- a/rs/synth/src/node/oscillator/tri_osc.rs
+++ b/rs/synth/src/node/oscillator/tri_osc.rs
@@ -50,8 +50,8 @@ impl<const N: usize> Node<N> for TriOsc {
                 *out = 2.0 * (v.abs() - 0.5);
                 self.phase += freq / self.sr as f32;
 
-                if self.phase > 1. {
-                    self.phase -= 1.
+                if !(0. ..=1.).contains(&self.phase) {
+                    self.phase = self.phase.rem_euclid(1.)
                 }
             },
         );
-- 
2.43.0


From 7b225d553abe895f5d1f26d3ea5be7c327263f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:14 +0000
Subject: [PATCH 38/61] fix: tell the main input of a seq from its references

Whether a seq has a speed was guessed from the first input's samples. An
impulse used as the first reference was taken for a speed, which shifted all
references by one and panicked for the last one. Other main inputs shifted
them the other way.
---
 rs/synth/src/node/sequencer/seq.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/rs/synth/src/node/sequencer/seq.rs b/rs/synth/src/node/sequencer/seq.rs
index 543a76e..bc74730 100644
--- a/rs/synth/src/node/sequencer/seq.rs
+++ b/rs/synth/src/node/sequencer/seq.rs
@@ -66,11 +66,14 @@ impl<const N: usize> Node<N> for Sequencer {
             }
             _ => {
                 // println!("{:?} {:?}", inputs, self.input_order);
-                let possible_speed = &inputs[&self.input_order[0]].buffers()[0];
-                let has_speed = possible_speed[0] > 0. && possible_speed[1] == 0.;
+                // the references come after the main input, if there is one
+                let has_main = self.input_order.len() > self.ref_order.len();
 
-                if has_speed {
-                    self.speed = possible_speed[0];
+                if has_main {
+                    let possible_speed = &inputs[&self.input_order[0]].buffers()[0];
+                    if possible_speed[0] > 0. && possible_speed[1] == 0. {
+                        self.speed = possible_speed[0];
+                    }
                 }
 
                 let bar_length = 240.0 / self.bpm as f64 * self.sr as f64 / self.speed as f64;
@@ -84,9 +87,10 @@ impl<const N: usize> Node<N> for Sequencer {
                             let midi = match &event.1 {
                                 UsizeOrRef::Usize(value) => *value as f32,
                                 UsizeOrRef::Ref(s) => {
-                                    let source = &inputs
-                                        [&self.input_order[self.ref_order[s] + has_speed as usize]]; //panic?
-                                    source.buffers()[0][idx]
+                                    let source =
+                                        &self.input_order[self.ref_order[s] + has_main as usize];
+                                    // a seq that refers to itself is not among its inputs
+                                    inputs.get(source).map_or(0., |s| s.buffers()[0][idx])
                                 }
                             };
 
-- 
2.43.0


From 183452946b166040bd4756331a353356de73f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:14 +0000
Subject: [PATCH 39/61] fix: leave a node out of the group it refers to

A node whose own chain matches its prefix reference, such as `~t2: saw ~t..`,
was listed among its inputs although the renderer never passes a node to
itself. Depending on the hash order it then panicked.
---
 rs/main/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index ee4c171..9528be7 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -552,8 +552,10 @@ impl<const N: usize> Engine<N> {
                 if refname.contains("..") {
                     // println!("look for {}", &refname.replace("..", ""));
                     for (key, value) in self.index_info.iter() {
-                        if key.starts_with(&refname.replace("..", "")) {
-                            self.context.connect(*value.last().unwrap(), index);
+                        // the node itself is not part of the group
+                        let source = *value.last().unwrap();
+                        if key.starts_with(&refname.replace("..", "")) && source != index {
+                            self.context.connect(source, index);
                         }
                     }
                 } else {
-- 
2.43.0


From 01d427478a281efdec7bb4a9d7d940af6356819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:14 +0000
Subject: [PATCH 40/61] fix: keep accepting samples after a panic

Every other entry point recovers the engine from a poisoned lock, but adding
a sample panicked for good.
---
 rs/wasm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/wasm/src/lib.rs b/rs/wasm/src/lib.rs
index 2ce8723..d6b437b 100644
--- a/rs/wasm/src/lib.rs
+++ b/rs/wasm/src/lib.rs
@@ -30,7 +30,7 @@ pub fn process(size: usize) -> Vec<f32> {
 
 #[wasm_bindgen]
 pub fn add_sample(name: String, sample: Box<[f32]>, channels: usize, sr: usize) {
-    let mut engine = ENGINE.lock().unwrap();
+    let mut engine = get_engine();
     let leaked_sample = Box::leak(sample);
     engine.add_sample(&name, leaked_sample, channels, sr);
     // engine.update(code);
-- 
2.43.0


From 5cf48db6f8c67ddc2514aa665e8d869317dc1828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:29 +0000
Subject: [PATCH 41/61] fix: report a full and an empty ring buffer correctly

full() was true for every buffer that is not full, and an empty buffer
reported its whole storage as available for reading.
---
 js/npm/ringbuf.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/npm/ringbuf.js b/js/npm/ringbuf.js
index 38e040a..0a7473a 100644
--- a/js/npm/ringbuf.js
+++ b/js/npm/ringbuf.js
@@ -135,7 +135,7 @@ export class RingBuffer {
     var rd = Atomics.load(this.read_ptr, 0);
     var wr = Atomics.load(this.write_ptr, 0);
 
-    return (wr + 1) % this.capacity != rd;
+    return (wr + 1) % this.capacity == rd;
     }
     // The usable capacity for the ring buffer: the number of elements that can be
     // stored.
@@ -162,7 +162,7 @@ export class RingBuffer {
     // private methods //
     // Number of elements available for reading, given a read and write pointer..
     _available_read(rd, wr) {
-    if (wr > rd) {
+    if (wr >= rd) {
         return wr - rd;
     } else {
         return wr + this._storage_capacity() - rd;
-- 
2.43.0


From 384e3af8418ee592c68ca8a43e74c7abd71a2d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:29 +0000
Subject: [PATCH 42/61] fix: close the pattern of psynth in the node chain
 builder

The generated code lacked the closing backtick and was always rejected.
---
 js/npm/nodechain.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/nodechain.js b/js/npm/nodechain.js
index 2abb9a4..952f0e6 100644
--- a/js/npm/nodechain.js
+++ b/js/npm/nodechain.js
@@ -49,7 +49,7 @@ export function seq(str) {
 
 export function psynth(str, span) {
   if (!isNaN(span)) {
-    return new NodeChain(`p_synth \`${str} ${span}`)
+    return new NodeChain(`p_synth \`${str}\` ${span}`)
   }
 }
 
-- 
2.43.0


From a89b238de59ccd8fbf4c314609fcc56663a0194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:42 +0000
Subject: [PATCH 43/61] fix: add a mono sample to both channels in psampler

A mono sample replaced the right channel by the left one, which dropped
the right channel of a stereo sample that was playing at the same time.
---
 rs/synth/src/node/sampling/psampler.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index 3dccf5f..d031ebe 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -75,7 +75,7 @@ impl<const N: usize> Node<N> for PSampler {
                     let sample = self.samples_dict[name];
                     match sample.1 {
                         1 => {
-                            output[0][i] += match pos {
+                            let value = match pos {
                                 x if x == 0.0 => sample.0[0],
                                 x if x == 1.0 => sample.0[sample.0.len() - 1],
                                 x if x > 0.0 && x < 1.0 => {
@@ -90,7 +90,8 @@ impl<const N: usize> Node<N> for PSampler {
                                 }
                                 _ => 0.0,
                             };
-                            output[1][i] = output[0][i];
+                            output[0][i] += value;
+                            output[1][i] += value;
                         }
                         2 => {
                             match pos {
-- 
2.43.0


From 069a9ff45394b26f71f20aaea21ae9329e00f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:09 +0000
Subject: [PATCH 44/61] fix: silence a kept node that lost its input in an
 update

A node kept by an update that no longer has an input does not write its
output, so it kept repeating the last block it had rendered.
---
 rs/main/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 9528be7..3e25b17 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -16,7 +16,7 @@ use glicol_synth::{
     NodeData, Pass,
 };
 use hashbrown::HashMap;
-use petgraph::graph::NodeIndex;
+use petgraph::{graph::NodeIndex, Incoming};
 use yoke::Yoke;
 
 pub type GlicolNodeData<const N: usize> = NodeData<BoxedNodeSend<N>, N>;
@@ -581,6 +581,16 @@ impl<const N: usize> Engine<N> {
             }
         }
 
+        // a kept node that lost its input would go on playing the last block it made from it
+        for (key, chain) in &self.index_info {
+            if let Some(first) = chain.first().filter(|_| key != "~input") {
+                let graph = &mut self.context.graph;
+                if graph.neighbors_directed(*first, Incoming).next().is_none() {
+                    graph[*first].buffers.iter_mut().for_each(Buffer::silence);
+                }
+            }
+        }
+
         // We can't reuse the allocation here as far as I can tell; see the comment at the top of
         // Self::parse
         self.ast = Some(new_ast);
-- 
2.43.0


From dc7082df5d327777b215f28bf2eec300e5b2192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:53 +0000
Subject: [PATCH 45/61] fix: read msg_synth as the node it names

---
 rs/parser/src/glicol.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/parser/src/glicol.pest b/rs/parser/src/glicol.pest
index 895543a..175fa42 100644
--- a/rs/parser/src/glicol.pest
+++ b/rs/parser/src/glicol.pest
@@ -109,7 +109,7 @@ integer = ${ ("+" | "-")? ~(ASCII_DIGIT)+ ~ !"." }
 WHITESPACE = _{" "|","|"|"|"\t"}
 ws = _{" "|","|"|"|"\t"|"\n"}
 
-node_name = ${"reverb"|"arrange"|"adsr"|"sig"|"psampler"|"synth"|"msgsynth"|"psynth"|"p_synth"|"pattern_synth"|
+node_name = ${"reverb"|"arrange"|"adsr"|"sig"|"psampler"|"synth"|"msgsynth"|"msg_synth"|"psynth"|"p_synth"|"pattern_synth"|
 "bd"|"sn"|"hh"|"squsynth"|"trisynth"|"seq"|"speed"|"choose"|"mul"|"add"|
 "linrange"|"apfdecay"|"delayn"|"delaymod"|"expr"|"eval"|
 "sin"|"squ"|"imp"|"envperc"|"sampler"|"noiz"|"lpf"|"plate"|"onepole"|
-- 
2.43.0


From 4cd64a978b8a6cf4a38fe2caa16805b8992d8efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:16 +0000
Subject: [PATCH 46/61] fix: keep the audio input when a chain named ~input is
 removed

---
 rs/main/src/lib.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 3e25b17..6fc2585 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -312,6 +312,12 @@ impl<const N: usize> Engine<N> {
             graph_diff.idx_to_remove.extend(old_ast.get().nodes.keys()
                 .filter(|key| !new_ast.get().nodes.contains_key(*key))
                 .flat_map(|key| {
+                    // the node that takes the audio input stays, behind a chain of that name
+                    if *key == "~input" {
+                        if let Some(chain) = self.index_info.get_mut(*key) {
+                            return chain.drain(..chain.len() - 1).collect();
+                        }
+                    }
                     // This should be safe to unwrap because index_info should always be consistent
                     // with self.ast, but we're .expect'ing just to provide a good message in case
                     self.index_info.remove_entry(*key)
@@ -582,8 +588,8 @@ impl<const N: usize> Engine<N> {
         }
 
         // a kept node that lost its input would go on playing the last block it made from it
-        for (key, chain) in &self.index_info {
-            if let Some(first) = chain.first().filter(|_| key != "~input") {
+        for chain in self.index_info.values() {
+            if let Some(first) = chain.first() {
                 let graph = &mut self.context.graph;
                 if graph.neighbors_directed(*first, Incoming).next().is_none() {
                     graph[*first].buffers.iter_mut().for_each(Buffer::silence);
@@ -612,13 +618,13 @@ impl<const N: usize> Engine<N> {
     pub fn next_block(&mut self, buf: Vec<&[f32]>) -> &[Buffer<N>] {
         //  -> &Vec<Buffer<N>>
         if !buf.is_empty() {
-            self.context.graph[self.index_info[&"~input".to_string()][0]].buffers[0]
-                .copy_from_slice(buf[0]);
+            let input = *self.index_info["~input"].last().unwrap();
+            self.context.graph[input].buffers[0].copy_from_slice(buf[0]);
         }
 
         if buf.len() > 1 {
-            self.context.graph[self.index_info[&"~input".to_string()][0]].buffers[1]
-                .copy_from_slice(buf[1]);
+            let input = *self.index_info["~input"].last().unwrap();
+            self.context.graph[input].buffers[1].copy_from_slice(buf[1]);
         }
 
         self.context
-- 
2.43.0


From a2ffdadbacf5be48cbf6faee29da50612cc0a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:08 +0000
Subject: [PATCH 47/61] fix: accept every number as the span of a points list

---
 rs/parser/src/nodes.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 94b4ec5..02707a1 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -217,10 +217,26 @@ impl Node<'_> for Points {
         if let Some(math_or_loop) = pairs.next() {
             match_or_return_err!(math_or_loop,
                 Rule::math_expression => {
-                    let mut one = "1".to_owned();
-                    let mut ns = fasteval::EmptyNamespace;
-                    one.push_str(math_or_loop.as_str());
-                    node_span = fasteval::ez_eval(&one, &mut ns).unwrap() as f32;
+                    let is_division = math_or_loop.as_str().starts_with('/');
+                    let math_end = math_or_loop.as_end_span();
+                    let factor = math_or_loop.into_inner().next().ok_or_else(|| {
+                        math_end.to_err_with_positives([Rule::number, Rule::bar])
+                    })?;
+
+                    let factor = match_or_return_err!(factor,
+                        Rule::number => {
+                            factor.try_to_parse::<f32>()?
+                        },
+                        Rule::bar => {
+                            let mut nums = factor.into_inner();
+                            let top = nums.next_parsed::<f32>(math_end)?;
+                            let bottom = nums.next_parsed::<f32>(math_end)?;
+
+                            top / bottom
+                        },
+                    );
+
+                    node_span = if is_division { 1.0 / factor } else { factor };
                     if pairs.next().is_some() {
                         is_looping = true;
                     };
-- 
2.43.0


From cb55de0973f0850066cb44d58cc30b27e2c26862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:08 +0000
Subject: [PATCH 48/61] fix: allow an endless attack or decay in envperc

---
 rs/synth/src/node/envelope/envperc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/node/envelope/envperc.rs b/rs/synth/src/node/envelope/envperc.rs
index ce0543f..9c35809 100644
--- a/rs/synth/src/node/envelope/envperc.rs
+++ b/rs/synth/src/node/envelope/envperc.rs
@@ -47,7 +47,7 @@ impl<const N: usize> Node<N> for EnvPerc {
         if inputs.len() == 1 {
             let attack_len = (self.attack * self.sr as f32) as usize;
             let decay_len = (self.decay * self.sr as f32) as usize;
-            let dur = attack_len + decay_len;
+            let dur = attack_len.saturating_add(decay_len);
             let buf = &mut inputs[&self.input_order[0]].buffers();
 
             for (input, out) in buf[0].iter().zip(output[0].iter_mut()) {
-- 
2.43.0


From dcd0a08cd405d8eeef4380f10f7e4046bab3731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:15 +0000
Subject: [PATCH 49/61] fix: allow an endless decay in adsr

---
 rs/synth/src/node/envelope/adsr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/envelope/adsr.rs b/rs/synth/src/node/envelope/adsr.rs
index b96f06e..2a475cb 100644
--- a/rs/synth/src/node/envelope/adsr.rs
+++ b/rs/synth/src/node/envelope/adsr.rs
@@ -99,13 +99,15 @@ impl<const N: usize> Node<N> for Adsr {
                                     * (1.0 - self.state_change_y)
                                     + self.state_change_y;
                             }
-                        } else if self.pos > attack_len && self.pos <= attack_len + decay_len {
+                        } else if self.pos > attack_len
+                            && self.pos <= attack_len.saturating_add(decay_len)
+                        {
                             // decay phase
                             if decay_len == 0 {
                                 // special case
                                 *out = self.sustain;
                             } else {
-                                *out = (attack_len + decay_len - self.pos) as f32
+                                *out = (attack_len.saturating_add(decay_len) - self.pos) as f32
                                     / decay_len as f32
                                     * (1. - self.sustain)
                                     + self.sustain;
-- 
2.43.0


From 23baedddfacec66c1cc9bce7c9dbbddbed4c4705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:41 +0000
Subject: [PATCH 50/61] fix: forget the events the message synth has played

---
 rs/synth/src/node/synth/msgsynth.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rs/synth/src/node/synth/msgsynth.rs b/rs/synth/src/node/synth/msgsynth.rs
index 264400f..adc598b 100644
--- a/rs/synth/src/node/synth/msgsynth.rs
+++ b/rs/synth/src/node/synth/msgsynth.rs
@@ -141,6 +141,9 @@ impl<const N: usize> Node<N> for MsgSynth {
             }
             self.step += 1;
         }
+        // an event that has been played never comes back
+        let step = self.step;
+        self.events.retain(|event| event.0 >= step);
     }
     fn send_msg(&mut self, info: Message) {
         match info {
-- 
2.43.0


From 31f575f5ab17848621025ea2d75c32aaab013497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:35 +0000
Subject: [PATCH 51/61] fix: load samples that were asked for before the engine
 was ready

---
 js/npm/index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/index.js b/js/npm/index.js
index 5ba9611..7ec2cc3 100644
--- a/js/npm/index.js
+++ b/js/npm/index.js
@@ -94,7 +94,7 @@ class Engine {
                       sample: sample,
                       channels: buffer.numberOfChannels,
                       length: buffer.length,
-                      name: encoder.encode("\\"+ key.replace("-","_")),
+                      name: this.encoder.encode("\\"+ key.replace("-","_")),
                       sr: buffer.sampleRate
                     })
                   }
-- 
2.43.0


From e778d0fcee783675ba6c97bb70ad8d695a078704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:35 +0000
Subject: [PATCH 52/61] fix: show a syntax error whose message was cut short

---
 js/npm/index.js  | 2 +-
 js/src/glicol.js | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/npm/index.js b/js/npm/index.js
index 7ec2cc3..59a8a64 100644
--- a/js/npm/index.js
+++ b/js/npm/index.js
@@ -115,7 +115,7 @@ class Engine {
                   let line = parseInt(info.split("line[")[1].split("]")[0])
                   let col = parseInt(info.split("col[")[1].split("]")[0])
                   let positives = info.split("positives[")[1].split("]")[0].replace("EOI", "END OF INPUT").split(",").join(" ||")
-                  let negatives = info.split("negatives[")[1].split("]")[0].split(",").join(" or")
+                  let negatives = (info.split("negatives[")[1] || "").split("]")[0].split(",").join(" or")
                   console.log(`%cError at line ${line}`, "background: #3b82f6; color:white; font-weight: bold")
                   let errline = this.code.split("\n")[line-1];
                   let styleErrLine = errline.slice(0, col-1) + "%c %c" + errline.slice(col-1);
diff --git a/js/src/glicol.js b/js/src/glicol.js
index 6883d60..6e89cc8 100644
--- a/js/src/glicol.js
+++ b/js/src/glicol.js
@@ -91,7 +91,7 @@ window.loadModule = async () => {
           let line = parseInt(info.split("line[")[1].split("]")[0])
           let col = parseInt(info.split("col[")[1].split("]")[0])
           let positives = info.split("positives[")[1].split("]")[0].replace("EOI", "END OF INPUT").split(",").join(" ||")
-          let negatives = info.split("negatives[")[1].split("]")[0].split(",").join(" or")
+          let negatives = (info.split("negatives[")[1] || "").split("]")[0].split(",").join(" or")
           log(`%cError at line ${line}`, "background: #3b82f6; color:white; font-weight: bold")
           let errline = window.code.split("\n")[line-1];
           let styleErrLine = errline.slice(0, col-1) + "%c %c" + errline.slice(col-1);
-- 
2.43.0


From 8232e79b65284258100a7aad02a4ae4ccfb00c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:45 +0000
Subject: [PATCH 53/61] fix: show errors in the program that was run

---
 js/npm/index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/index.js b/js/npm/index.js
index 59a8a64..1ca89d3 100644
--- a/js/npm/index.js
+++ b/js/npm/index.js
@@ -162,6 +162,7 @@ class Engine {
     }
     run(code) {
 
+      this.code = code
       this.audioContext.resume()
       if (isSharedArrayBufferSupported) {
         // console.log("isSharedArrayBufferSupported", isSharedArrayBufferSupported);
@@ -219,7 +220,6 @@ class Engine {
         code += obj[key].code + ";\n\n"
       }
       console.log(code)
-      this.code = code
       this.run(code)
     }
 
-- 
2.43.0


From af84d5639770524b4e4d1305362881a16d2cc7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:45 +0000
Subject: [PATCH 54/61] fix: let stop reach the engine through shared memory

---
 js/npm/index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/index.js b/js/npm/index.js
index 1ca89d3..95a7ecd 100644
--- a/js/npm/index.js
+++ b/js/npm/index.js
@@ -224,7 +224,7 @@ class Engine {
     }
 
     stop() {
-      this.run("")
+      this.run("\n")
     }
 
     showAllSamples() {
-- 
2.43.0


From af31d6f4f7fbc11bb5ca1cb4e7621ff3c14f0edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:45 +0000
Subject: [PATCH 55/61] fix: reuse the input buffer of the worklet

---
 js/npm/glicol-engine.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/npm/glicol-engine.js b/js/npm/glicol-engine.js
index 834b6be..986bf5c 100644
--- a/js/npm/glicol-engine.js
+++ b/js/npm/glicol-engine.js
@@ -140,7 +140,7 @@ class GlicolEngine extends AudioWorkletProcessor {
         }
 
         if (inputs[0][0]) { // TODO: support stereo or multi-chan
-            this._inPtr = this._wasm.exports.alloc(128)
+            this._inPtr = this._inPtr || this._wasm.exports.alloc(128)
             this._inBuf = new Float32Array(
                 this._wasm.exports.memory.buffer,
                 this._inPtr,
-- 
2.43.0


From 34d772afa9d0763c036737f0f0fd6ef3ccef7e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:45 +0000
Subject: [PATCH 56/61] fix: keep program text that holds a single #

---
 js/src/glicol.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/glicol.js b/js/src/glicol.js
index 6e89cc8..ddcf772 100644
--- a/js/src/glicol.js
+++ b/js/src/glicol.js
@@ -121,7 +121,7 @@ window.run = async (codeRaw) => {
   let regex = /(##.*?#)/s
   let parse = codeRaw.split(regex).filter(Boolean)
   let code = parse.map(str => {
-      if (str.includes("#")) {
+      if (str.startsWith("##")) {
         try {
           let result = str.includes('\\n') || str.includes(';') ?
           Function(`'use strict'; return ()=>{${str.replaceAll("#", "")}}`)()() :
-- 
2.43.0


From 2b11053171f5ac8a5976d69e4b441cb14e02c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:42 +0000
Subject: [PATCH 57/61] fix: play the instruments at the engine's sample rate

---
 rs/main/src/util.rs                     | 38 ++++++++++++++++++-------
 rs/synth/src/node/compound/bd.rs        |  3 +-
 rs/synth/src/node/compound/hh.rs        |  3 +-
 rs/synth/src/node/compound/mod.rs       |  8 +++++-
 rs/synth/src/node/compound/sawsynth.rs  |  3 +-
 rs/synth/src/node/compound/sn.rs        |  3 +-
 rs/synth/src/node/compound/squsynth.rs  |  3 +-
 rs/synth/src/node/compound/trisynth.rs  |  3 +-
 rs/synth/src/node/envelope/envperc.rs   |  1 +
 rs/synth/src/node/filter/rhpf.rs        |  1 +
 rs/synth/src/node/oscillator/saw_osc.rs |  1 +
 rs/synth/src/node/oscillator/sin_osc.rs |  1 +
 rs/synth/src/node/oscillator/squ_osc.rs |  1 +
 rs/synth/src/node/oscillator/tri_osc.rs |  1 +
 14 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index 0f70bf3..362242b 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -9,7 +9,7 @@ use glicol_synth::{
     sequencer::{Arrange, Choose, Sequencer, Speed},
     signal::{ConstSig, Impulse, Noise, Points},
     synth::{MsgSynth, PatternSynth},
-    Node, Pass, Sum2,
+    Message, Node, Pass, Sum2,
 };
 
 use glicol_parser::{
@@ -342,19 +342,27 @@ pub fn makenode<const N: usize>(
         Component::ConstSig(nodes::ConstSig { value }) => {
             (ConstSig::new(*value).sr(sr).to_boxed_nodedata(1), vec![])
         }
-        // todo: give sr to them
-        Component::Bd(nodes::Bd { param }) => get_one_para_from_number_or_ref::<N, Bd<N>>(param, 2),
-        Component::Hh(nodes::Hh { param }) => get_one_para_from_number_or_ref::<N, Hh<N>>(param, 2),
-        Component::Sn(nodes::Sn { param }) => get_one_para_from_number_or_ref::<N, Sn<N>>(param, 2),
-        Component::SawSynth(nodes::SawSynth { attack, decay }) => {
-            (SawSynth::new(*attack, *decay).to_boxed_nodedata(2), vec![])
+        Component::Bd(nodes::Bd { param }) => {
+            with_sr(get_one_para_from_number_or_ref::<N, Bd<N>>(param, 2), sr)
         }
-        Component::SquSynth(nodes::SquSynth { attack, decay }) => {
-            (SquSynth::new(*attack, *decay).to_boxed_nodedata(2), vec![])
+        Component::Hh(nodes::Hh { param }) => {
+            with_sr(get_one_para_from_number_or_ref::<N, Hh<N>>(param, 2), sr)
         }
-        Component::TriSynth(nodes::TriSynth { attack, decay }) => {
-            (TriSynth::new(*attack, *decay).to_boxed_nodedata(2), vec![])
+        Component::Sn(nodes::Sn { param }) => {
+            with_sr(get_one_para_from_number_or_ref::<N, Sn<N>>(param, 2), sr)
         }
+        Component::SawSynth(nodes::SawSynth { attack, decay }) => with_sr(
+            (SawSynth::new(*attack, *decay).to_boxed_nodedata(2), vec![]),
+            sr,
+        ),
+        Component::SquSynth(nodes::SquSynth { attack, decay }) => with_sr(
+            (SquSynth::new(*attack, *decay).to_boxed_nodedata(2), vec![]),
+            sr,
+        ),
+        Component::TriSynth(nodes::TriSynth { attack, decay }) => with_sr(
+            (TriSynth::new(*attack, *decay).to_boxed_nodedata(2), vec![]),
+            sr,
+        ),
         Component::Get(nodes::Get { reference }) => (
             NodeData::new2(BoxedNodeSend::new(Pass {})),
             vec![reference.to_string()],
@@ -431,6 +439,14 @@ pub fn makenode<const N: usize>(
     Ok((nodedata, reflist))
 }
 
+fn with_sr<const N: usize>(
+    (mut node_data, reflist): (NodeData<BoxedNodeSend<N>, N>, Vec<String>),
+    sr: usize,
+) -> (NodeData<BoxedNodeSend<N>, N>, Vec<String>) {
+    node_data.node.send_msg(Message::SetSampleRate(sr));
+    (node_data, reflist)
+}
+
 fn get_one_para_from_number_or_ref<const N: usize, T>(
     param: &nodes::NumberOrRef<&str>,
     channels: usize,
diff --git a/rs/synth/src/node/compound/bd.rs b/rs/synth/src/node/compound/bd.rs
index befb28c..0484288 100644
--- a/rs/synth/src/node/compound/bd.rs
+++ b/rs/synth/src/node/compound/bd.rs
@@ -17,7 +17,7 @@ use hashbrown::HashMap;
 
 use petgraph::graph::NodeIndex;
 
-use super::process_compound;
+use super::{process_compound, send_to_all};
 
 pub struct Bd<const N: usize> {
     input: NodeIndex,
@@ -70,6 +70,7 @@ impl<const N: usize> Node<N> for Bd<N> {
             Message::SetToNumber(0, value) => self.context.graph[self.context.tags["d"]]
                 .node
                 .send_msg(Message::SetToNumber(1, value)),
+            Message::SetSampleRate(_) => send_to_all(&mut self.context, info),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
diff --git a/rs/synth/src/node/compound/hh.rs b/rs/synth/src/node/compound/hh.rs
index 95bf790..f18834d 100644
--- a/rs/synth/src/node/compound/hh.rs
+++ b/rs/synth/src/node/compound/hh.rs
@@ -10,7 +10,7 @@ use hashbrown::HashMap;
 
 use petgraph::graph::NodeIndex;
 
-use super::process_compound;
+use super::{process_compound, send_to_all};
 
 pub struct Hh<const N: usize> {
     input: NodeIndex,
@@ -63,6 +63,7 @@ impl<const N: usize> Node<N> for Hh<N> {
             Message::SetToNumber(0, value) => self.context.graph[self.context.tags["d"]]
                 .node
                 .send_msg(Message::SetToNumber(1, value)),
+            Message::SetSampleRate(_) => send_to_all(&mut self.context, info),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
diff --git a/rs/synth/src/node/compound/mod.rs b/rs/synth/src/node/compound/mod.rs
index cc02385..e55b46d 100644
--- a/rs/synth/src/node/compound/mod.rs
+++ b/rs/synth/src/node/compound/mod.rs
@@ -11,7 +11,7 @@ pub use squsynth::*;
 mod trisynth;
 pub use trisynth::*;
 
-use crate::{AudioContext, Buffer, Input};
+use crate::{AudioContext, Buffer, Input, Message, Node};
 use hashbrown::HashMap;
 use petgraph::graph::NodeIndex;
 
@@ -32,3 +32,9 @@ fn process_compound<const N: usize>(
         output[1][..N].copy_from_slice(&cout[1][..N]);
     }
 }
+
+fn send_to_all<const N: usize>(context: &mut AudioContext<N>, info: Message) {
+    for node_data in context.graph.node_weights_mut() {
+        node_data.node.send_msg(info.clone());
+    }
+}
diff --git a/rs/synth/src/node/compound/sawsynth.rs b/rs/synth/src/node/compound/sawsynth.rs
index 303b12f..10ef034 100644
--- a/rs/synth/src/node/compound/sawsynth.rs
+++ b/rs/synth/src/node/compound/sawsynth.rs
@@ -15,7 +15,7 @@ use hashbrown::HashMap;
 
 use petgraph::graph::NodeIndex;
 
-use super::process_compound;
+use super::{process_compound, send_to_all};
 
 pub struct SawSynth<const N: usize> {
     input: NodeIndex,
@@ -70,6 +70,7 @@ impl<const N: usize> Node<N> for SawSynth<N> {
                     .send_msg(Message::SetToNumber(1, value)),
                 _ => {}
             },
+            Message::SetSampleRate(_) => send_to_all(&mut self.context, info),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
diff --git a/rs/synth/src/node/compound/sn.rs b/rs/synth/src/node/compound/sn.rs
index a3984f1..2b19f00 100644
--- a/rs/synth/src/node/compound/sn.rs
+++ b/rs/synth/src/node/compound/sn.rs
@@ -18,7 +18,7 @@ use hashbrown::HashMap;
 
 use petgraph::graph::NodeIndex;
 
-use super::process_compound;
+use super::{process_compound, send_to_all};
 
 pub struct Sn<const N: usize> {
     input: NodeIndex,
@@ -79,6 +79,7 @@ impl<const N: usize> Node<N> for Sn<N> {
             Message::SetToNumber(0, value) => self.context.graph[self.context.tags["d"]]
                 .node
                 .send_msg(Message::SetToNumber(1, value)),
+            Message::SetSampleRate(_) => send_to_all(&mut self.context, info),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
diff --git a/rs/synth/src/node/compound/squsynth.rs b/rs/synth/src/node/compound/squsynth.rs
index ed15267..a469d77 100644
--- a/rs/synth/src/node/compound/squsynth.rs
+++ b/rs/synth/src/node/compound/squsynth.rs
@@ -8,7 +8,7 @@ use hashbrown::HashMap;
 
 use petgraph::graph::NodeIndex;
 
-use super::process_compound;
+use super::{process_compound, send_to_all};
 
 pub struct SquSynth<const N: usize> {
     input: NodeIndex,
@@ -58,6 +58,7 @@ impl<const N: usize> Node<N> for SquSynth<N> {
                 .node
                 .send_msg(Message::SetToNumber(pos, value)),
 
+            Message::SetSampleRate(_) => send_to_all(&mut self.context, info),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
diff --git a/rs/synth/src/node/compound/trisynth.rs b/rs/synth/src/node/compound/trisynth.rs
index 8c2e79b..c7cf972 100644
--- a/rs/synth/src/node/compound/trisynth.rs
+++ b/rs/synth/src/node/compound/trisynth.rs
@@ -8,7 +8,7 @@ use hashbrown::HashMap;
 
 use petgraph::graph::NodeIndex;
 
-use super::process_compound;
+use super::{process_compound, send_to_all};
 
 pub struct TriSynth<const N: usize> {
     input: NodeIndex,
@@ -58,6 +58,7 @@ impl<const N: usize> Node<N> for TriSynth<N> {
                 .node
                 .send_msg(Message::SetToNumber(pos, value)),
 
+            Message::SetSampleRate(_) => send_to_all(&mut self.context, info),
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
diff --git a/rs/synth/src/node/envelope/envperc.rs b/rs/synth/src/node/envelope/envperc.rs
index 9c35809..a2e8b36 100644
--- a/rs/synth/src/node/envelope/envperc.rs
+++ b/rs/synth/src/node/envelope/envperc.rs
@@ -88,6 +88,7 @@ impl<const N: usize> Node<N> for EnvPerc {
                 1 => self.decay = value,
                 _ => {}
             },
+            Message::SetSampleRate(sr) => self.sr = sr,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
diff --git a/rs/synth/src/node/filter/rhpf.rs b/rs/synth/src/node/filter/rhpf.rs
index 1a57787..5705b46 100644
--- a/rs/synth/src/node/filter/rhpf.rs
+++ b/rs/synth/src/node/filter/rhpf.rs
@@ -105,6 +105,7 @@ impl<const N: usize> Node<N> for ResonantHighPassFilter {
                 1 => self.q = value,
                 _ => {}
             },
+            Message::SetSampleRate(sr) => self.sr = sr,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
 
diff --git a/rs/synth/src/node/oscillator/saw_osc.rs b/rs/synth/src/node/oscillator/saw_osc.rs
index ff9abe6..4c02fcd 100644
--- a/rs/synth/src/node/oscillator/saw_osc.rs
+++ b/rs/synth/src/node/oscillator/saw_osc.rs
@@ -59,6 +59,7 @@ impl<const N: usize> Node<N> for SawOsc {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetToNumber(0, value) => self.freq = value,
+            Message::SetSampleRate(sr) => self.sr = sr,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
diff --git a/rs/synth/src/node/oscillator/sin_osc.rs b/rs/synth/src/node/oscillator/sin_osc.rs
index c8fe73e..d1750fa 100644
--- a/rs/synth/src/node/oscillator/sin_osc.rs
+++ b/rs/synth/src/node/oscillator/sin_osc.rs
@@ -71,6 +71,7 @@ impl<const N: usize> Node<N> for SinOsc {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetToNumber(0, value) => self.freq = value,
+            Message::SetSampleRate(sr) => self.sr = sr,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
diff --git a/rs/synth/src/node/oscillator/squ_osc.rs b/rs/synth/src/node/oscillator/squ_osc.rs
index a3a5192..642b454 100644
--- a/rs/synth/src/node/oscillator/squ_osc.rs
+++ b/rs/synth/src/node/oscillator/squ_osc.rs
@@ -62,6 +62,7 @@ impl<const N: usize> Node<N> for SquOsc {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetToNumber(0, value) => self.freq = value,
+            Message::SetSampleRate(sr) => self.sr = sr,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
diff --git a/rs/synth/src/node/oscillator/tri_osc.rs b/rs/synth/src/node/oscillator/tri_osc.rs
index 1a6e3be..305e1ec 100644
--- a/rs/synth/src/node/oscillator/tri_osc.rs
+++ b/rs/synth/src/node/oscillator/tri_osc.rs
@@ -59,6 +59,7 @@ impl<const N: usize> Node<N> for TriOsc {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetToNumber(0, value) => self.freq = value,
+            Message::SetSampleRate(sr) => self.sr = sr,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
-- 
2.43.0


From 03fe30c90c9a75f46315c87afb1fa4965f20cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:06 +0000
Subject: [PATCH 58/61] fix: deliver messages to boxed nodes

A node put into a graph as a Box never received any message: neither its
parameters nor the order of its inputs.
---
 rs/synth/src/node/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/mod.rs b/rs/synth/src/node/mod.rs
index 2e59686..4c96b42 100644
--- a/rs/synth/src/node/mod.rs
+++ b/rs/synth/src/node/mod.rs
@@ -116,7 +116,9 @@ where
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         (**self).process(inputs, output)
     }
-    fn send_msg(&mut self, _info: crate::Message) {}
+    fn send_msg(&mut self, info: crate::Message) {
+        (**self).send_msg(info)
+    }
 }
 
 impl<const N: usize> Node<N> for dyn Fn(&HashMap<usize, Input<N>>, &mut [Buffer<N>]) {
-- 
2.43.0


From 4412c394fcd59e504b67e390b2f42aa52895d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:06 +0000
Subject: [PATCH 59/61] fix: tell the nodes of an added chain about their
 inputs

add_node_chain connected the nodes without the message that gives them the
order of their inputs, so filters, envelopes and modulated operators in such
a chain read past the end of an empty list.
---
 rs/synth/src/context.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/rs/synth/src/context.rs b/rs/synth/src/context.rs
index cfb72dd..5fa8165 100644
--- a/rs/synth/src/context.rs
+++ b/rs/synth/src/context.rs
@@ -231,17 +231,7 @@ impl<const N: usize> AudioContext<N> {
         &mut self,
         chain: Vec<NodeData<BoxedNodeSend<N>, N>>,
     ) -> (Vec<NodeIndex>, Vec<EdgeIndex>) {
-        let v = chain
-            .into_iter()
-            .map(|node| self.graph.add_node(node))
-            .collect::<Vec<_>>();
-
-        let j = v
-            .windows(2)
-            .map(|pair| self.graph.add_edge(pair[0], pair[1], ()))
-            .collect();
-
-        (v, j)
+        self.chain_boxed(chain)
     }
 
     pub fn next_block(&mut self) -> &[Buffer<N>] {
-- 
2.43.0


From d225910d1984e480a25772f8700360ae45754795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:24:04 +0000
Subject: [PATCH 60/61] fix: keep a modulated delay of less than a sample from
 reading the oldest one

---
 rs/synth/src/node/delay/delayms.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index c5e1c85..e0c3d78 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -79,8 +79,9 @@ impl<const N: usize> Node<N> for DelayMs {
 
                 let mod_buf = &mut ref_input.buffers();
                 for i in 0..N {
-                    let pos = (-mod_buf[0][i] / 1000. * self.sr as f32)
-                        .rem_euclid(self.buf[0].len() as f32);
+                    // like a written delay time, at least one sample
+                    let delay = (mod_buf[0][i] / 1000. * self.sr as f32).max(1.);
+                    let pos = (-delay).rem_euclid(self.buf[0].len() as f32);
                     let pos_int = pos.floor() as usize;
                     let pos_frac = pos.fract();
 
-- 
2.43.0


From dc178ec72d605c88234a5f3b3baeb834b824dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:24:04 +0000
Subject: [PATCH 61/61] fix: keep a modulated all-pass delay of less than a
 sample from reading the oldest one

---
 rs/synth/src/node/filter/apfmsgain.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index c75961a..73b3ecb 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -75,8 +75,9 @@ impl<const N: usize> Node<N> for AllPassFilterGain {
                     .zip(main_input.buffers()[0].iter())
                     .zip(ref_input.buffers()[0].iter())
                 {
-                    let pos =
-                        (-mod_buf / 1000. * self.sr as f32).rem_euclid(self.bufx.len() as f32);
+                    // like a written delay time, at least one sample
+                    let delay = (mod_buf / 1000. * self.sr as f32).max(1.);
+                    let pos = (-delay).rem_euclid(self.bufx.len() as f32);
                     let pos_int = pos.floor() as usize;
                     let pos_frac = pos.fract();
 
-- 
2.43.0

