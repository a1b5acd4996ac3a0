"""Single source for properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, level_note, state=None, observe=None,
         level="exploration", claimed=True, reason=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                          observe_at=observe or [], hook_needed=None))
    P.append((d, technique, level_note, level, claimed, reason))


ENG = "rs/main/src/lib.rs"
MK = "rs/main/src/util.rs"
SY = "rs/synth/src/"

prop("C01", "A live session plays exactly the program last accepted",
     "After any sequence of accepted program updates, the engine plays what the latest program text describes: its chains, "
     "their nodes in the written order with the written parameters, and its references, with nothing left over from earlier programs. "
     "Apart from running state carried over by unchanged nodes, its audio equals that of a fresh engine that was only ever given the latest program.",
     ["histories", "programs"], "all sequences of accepted updates: node inserts, deletes, moves, duplicates, parameter and reference changes, chain adds, removes and renames",
     "The repository's tests apply two or three fixed edits and look at the syntax tree, never at the audio; the claim ranges over all edit histories.",
     [ENG, MK], [("diff of old and new chains, rebuild of all edges", ENG + " update_with_code"), ("node construction from a component", MK + " makenode")],
     "twin-engine monitor: long-lived session vs fresh engine, fed the same input audio",
     "Random edit histories over memoryless and finite-memory programs; sample-exact comparison up to float summation order.",
     state=[("index_info", "chain name to graph nodes", ENG)], observe=["audio returned by each rendered block"])

prop("C02", "An accepted edit does not disturb what it leaves unchanged",
     "When an update leaves a chain and everything it references textually unchanged, that chain's audio continues sample for sample as if the update had not happened. "
     "Inside an edited chain, a node that keeps its text and its relative order keeps its running state (phase, clock, envelope position, delay contents, playback), "
     "while a new or changed node starts fresh.",
     ["histories", "programs"], "all programs with stateful nodes, all edits, all update instants",
     "Tests never render audio across an update; continuity must hold for every node type, edit and instant.",
     [ENG], [("component-wise diff keeps graph nodes of equal components", ENG + " update_with_code")],
     "twin-engine monitor on unedited chains plus shadow-model monitor on kept and fresh nodes",
     "Random stateful programs and edits, checked sample by sample against an unedited twin and against reference models.",
     observe=["audio returned by each block", "per-node output buffers"])

prop("C03", "A rejected update leaves the performance untouched",
     "If an update is rejected, whether for a syntax error, an unknown reference or an unknown sample, the engine goes on playing as if the update had never been submitted. "
     "This holds for all later blocks, control messages, tempo changes and updates, after any number and mix of rejected updates.",
     ["histories", "inputs", "fault_sequences"], "all sessions, all points of the session at which a bad text is submitted, all kinds of bad text",
     "No test submits a bad update to a playing engine and listens; rollback has to hold for every failure point of the update.",
     [ENG], [("clean_up restores the chain table and drops temporary nodes", ENG + " clean_up"), ("reference check before edges are rebuilt", ENG + " handle_ref_check")],
     "twin-engine monitor with injected failing updates",
     "Faults of every rejection kind injected at random points of random sessions; the twin never sees them; audio and node population compared.",
     observe=["audio returned by each block", "result of each update", "number of live graph nodes"])

prop("C04", "Every text gets an answer: a program or a located error",
     "Submitting any text, however malformed, to the parser terminates normally with either a syntax tree or an error whose position lies within the text. "
     "Submitting any text (delay lines that fit in memory) to an engine likewise returns acceptance or an error and never crashes it, and the engine can still be updated and rendered afterwards.",
     ["inputs"], "all Unicode strings, in particular near-miss mutations of valid programs",
     "Tests parse a few well-formed snippets; the claim is about all strings.",
     ["rs/parser/src/glicol.pest", "rs/parser/src/nodes.rs", "rs/parser/src/util.rs", ENG, MK],
     [("pest grammar and typed conversion of pairs", "rs/parser/src/lib.rs get_ast")],
     "crash monitor over grammar-based, mutational and byte-level fuzzing with panics, overflow and debug assertions trapped",
     "Structured fuzzing; every panic, arithmetic overflow or out-of-range error position is a violation unless its exact signature is listed as known.",
     observe=["result or panic of each parse and update"])

prop("C05", "Program text means what it spells, however it is laid out",
     "The syntax tree of an accepted program contains exactly the written chains with their nodes, numbers, references, symbols and notes (each note at its written position in the bar) in the written order. "
     "Blank lines, comments, separators, line breaks before a continuation, spacing and alternative spellings of a node name never change it.",
     ["inputs", "programs"], "all programs over the whole node vocabulary, all layouts",
     "The stable tests cover three layouts of tiny programs.",
     ["rs/parser/src/glicol.pest", "rs/parser/src/nodes.rs", "rs/parser/src/lib.rs"],
     [("grammar", "rs/parser/src/glicol.pest"), ("conversion of pairs into components", "rs/parser/src/nodes.rs")],
     "oracle comparison of the parsed tree with the generator's own tree under random layouts",
     "Generated programs over every node type; the expected tree is built independently of the parser.",
     observe=["the tree returned by the parser"])

prop("C06", "Updates are accepted exactly when valid, and errors name the culprit",
     "A well-formed program is accepted if and only if every reference in it names a chain of that program or the built-in input (or, with a trailing double dot, is a prefix of one) and every sample it uses has been registered. "
     "Otherwise it is rejected with the missing reference or missing sample named, and malformed text is rejected as a parse error at the place where it stops being a program.",
     ["inputs", "programs", "histories"], "all programs, registered-sample sets and preceding sessions",
     "Tests never check rejections; acceptance depends on the history because references may resolve against the running session.",
     [ENG, MK, "rs/main/src/error.rs"], [("reference check", ENG + " handle_ref_check"), ("sample lookup", MK + " makenode")],
     "decision oracle on update results along random sessions",
     "Independent resolution of references and samples on the generator's own tree; compares verdict and named culprit.",
     observe=["result of each update"])

prop("C07", "Any accepted program renders without crashing",
     "Whatever supported nodes an accepted program combines, in whatever chain position, with or without inputs and with whatever references (feedback included), parameters (delay lines that fit in memory), sample rate and tempo, rendering blocks never crashes. "
     "The same holds while control messages with any content, tempo changes and further updates arrive between blocks.",
     ["programs", "inputs", "configurations"], "all accepted programs, parameter values in practical ranges, all message texts",
     "Tests render no block at all; crashes hide in odd wirings (effects without input, zero lengths, feedback).",
     [SY + "node/", SY + "graph.rs", ENG], [("per-node handling of missing inputs and degenerate parameters", SY + "node/*")],
     "crash monitor (panic, overflow, bounds) over random wirings, parameters and message storms",
     "Random and exhaustive pairwise node wirings rendered with overflow and debug assertions on.",
     observe=["panic or completion of each block", "shape of each block"])

prop("C08", "The output is the sum of exactly the audible chains, in true stereo",
     "Each output block is the sum of the final signals of exactly those chains whose names carry no tilde, and a tilde chain is heard only where it is referenced. "
     "A chain that ends in a mono signal is heard identically left and right, a stereo signal keeps its two channels through every node that accepts stereo, and neither the order in which chains are written nor their names change the sound.",
     ["programs", "inputs"], "all programs, chain orders and consistent renamings",
     "No stable test listens to the mix.",
     [ENG, SY + "node/sum.rs", SY + "node/pass.rs"], [("summing destination node", SY + "node/sum.rs Sum2"), ("last node of each audible chain is connected to it", ENG + " update_with_code")],
     "conservation monitor: block output vs independently rendered per-chain outputs; metamorphic reorder and rename",
     "Random programs; each audible chain is rendered alone in its own engine and the sum is compared, plus reorder and rename twins.",
     observe=["audio returned by each block"])

prop("C09", "The graph renders each node once per block, after its inputs",
     "For any audio graph and output node, rendering a block runs every node from which the output is reachable exactly once and no other node, and each one sees this block's output of all its inputs. "
     "When there are feedback loops rendering still terminates, each node on a loop runs once per block, and a loop edge delivers the previous block.",
     ["programs", "configurations"], "all directed graphs incl. parallel edges, self-loops and cycles, before and after node and edge removals",
     "Only one graph shape appears in the documentation test.",
     [SY + "graph.rs", SY + "context.rs"], [("reverse depth-first post-order from the output node", SY + "graph.rs process")],
     "trace monitor: probe nodes log (block, node, stamps of inputs seen); offline checker of exactly-once and ordering",
     "Random graphs of up to a few hundred probe nodes mutated between blocks; event log checked against reachability.",
     observe=["process calls on probe nodes"])

prop("C10", "Audio does not depend on the block size",
     "Rendering a program with different block sizes produces the same sample stream, as long as the program uses no feedback and no node that is documented to act once per block.",
     ["configurations", "programs"], "all block sizes (powers of two or not), all programs",
     "Tests use one block size and compare no audio.",
     [SY + "node/", SY + "graph.rs"], [("per-sample state kept across blocks", SY + "node/*")],
     "metamorphic monitor: the same session at several block sizes",
     "Random programs rendered at block sizes from 2 to 1024 and compared sample by sample.",
     observe=["audio returned by each block"])

prop("C11", "The same session always sounds the same, and engines are independent",
     "Repeating a session (same registered samples, settings, updates, messages and input audio) on a new engine reproduces the same audio up to float summation order, noise and random choices included, and both depend on their seeds. "
     "Engines in one process never influence each other, even when they run interleaved or on different threads.",
     ["histories", "schedules"], "all sessions, interleavings of engines and threads",
     "Needs pairs of runs; tests have none.",
     [ENG, SY + "node/signal/noise.rs", SY + "node/sequencer/choose.rs"], [("seeded generators, no globals", SY + "node/signal/noise.rs")],
     "replay monitor: sessions recorded and re-executed interleaved and on concurrent threads",
     "Random sessions re-run; streams compared; seeds varied to confirm that they matter.",
     observe=["audio returned by each block"])

prop("C12", "Oscillators and signal sources follow their waveform at every sample",
     "A sine, saw, square or triangle oscillator outputs its waveform at a phase that starts at zero and advances by frequency over sample rate each sample, stays within -1 and 1, and follows a constant, message-set or referenced frequency (zero, negative and above the sample rate included). "
     "A constant emits its value, an impulse emits 1 on its first sample and then once every whole sample-rate-over-frequency samples and 0 otherwise, and noise emits the fixed pseudo-random sequence of its seed.",
     ["inputs", "configurations", "histories"], "all frequencies, modulators, sample rates and run lengths",
     "No test compares oscillator output.",
     [SY + "node/oscillator/", SY + "node/signal/"], [("phase accumulation", SY + "node/oscillator/mod.rs, sin_osc.rs")],
     "online conformance monitor: every node instance shadowed by a reference model fed the recorded inputs",
     "Random programs; drift-aware tolerance on phase; boundary frequencies and long runs.",
     observe=["per-node output buffers after each block"])

prop("C13", "Arithmetic, panning and mixing nodes compute the stated stereo function",
     "Multiply and add apply their number or referenced signal sample by sample to each channel; a mono operand applies to both channels. "
     "Pan places the signal with equal power at its position, balance takes its left and right channel from its two references, mix sums all its references (one with a trailing double dot stands for every other chain whose name starts that way) and a bare reference passes a chain on unchanged.",
     ["inputs", "programs"], "all operand signals, mono and stereo, number, reference and loose references",
     "No test compares the output of these nodes.",
     [SY + "node/operator/", SY + "node/effect/pan.rs", SY + "node/effect/balance.rs", SY + "node/sum.rs", SY + "node/pass.rs"],
     [("ordered inputs: main signal first, then references", ENG + " update_with_code")],
     "online conformance monitor with reference models", "Random programs, sample-by-sample.",
     observe=["per-node output buffers after each block"])

prop("C14", "Sequenced notes fire exactly once, on their grid position, in every bar",
     "A sequence divides the bar (four beats at the current tempo, divided by a preceding speed) evenly among its space-separated groups and each group evenly among its notes; each note fires once per bar for one sample at that position with the ratio of its midi pitch to middle C, rests stay silent. "
     "A referenced note takes its pitch from the referenced chain at that sample, and tempo and speed changes take effect from the next block without losing the running clock.",
     ["inputs", "histories", "configurations"], "all patterns, tempi, sample rates, speeds and run lengths of many bars",
     "No test renders a sequence; drift and lost notes show only over many bars.",
     [SY + "node/sequencer/seq.rs", SY + "node/sequencer/speed.rs", "rs/parser/src/nodes.rs"], [("modular step clock against event positions", SY + "node/sequencer/seq.rs")],
     "online event-log checker against an independent timetable", "Random patterns and tempo schedules over many bars; exactly-once and position checks.",
     observe=["per-node output buffers after each block"])

prop("C15", "Envelopes have the programmed shape from every trigger",
     "A percussive envelope rises linearly over its attack and falls linearly over its decay, scaled by the trigger level, restarts at each positive trigger sample and is zero once finished. "
     "A gated envelope rises from its current level to one, decays to the sustain level, holds it while the gate is open and releases linearly to zero after the gate closes; both are heard on both channels.",
     ["inputs", "histories"], "all times, trigger sequences incl. retriggers in each stage",
     "No test renders an envelope.",
     [SY + "node/envelope/"], [("stage machine per sample", SY + "node/envelope/adsr.rs, envperc.rs")],
     "online conformance monitor with reference models", "Random trigger trains and parameters, sample by sample.",
     observe=["per-node output buffers after each block"])

prop("C16", "Samples play back completely, at pitch, from every trigger",
     "Each positive trigger starts its own playback of the registered sample, at the trigger value as speed ratio and corrected for the sample's own rate, by linear interpolation from the first frame to the last, and overlapping playbacks add up. "
     "A sample pattern starts its samples at their written times in every cycle; mono samples sound on both channels and stereo samples keep their channels.",
     ["inputs", "histories", "configurations"], "all sample lengths, channel counts and rates, pitches, trigger spacings",
     "No stable test plays a sample.",
     [SY + "node/sampling/"], [("list of running playbacks", SY + "node/sampling/sampler.rs, psampler.rs")],
     "online conformance monitor with reference models", "Random samples, triggers and patterns, sample by sample.",
     observe=["per-node output buffers after each block"])

prop("C17", "Delays return the signal unchanged after exactly the set time",
     "A sample or millisecond delay outputs, on each channel, the input of exactly that many samples ago and silence before that; a delay of zero samples passes the signal through. "
     "A referenced millisecond delay time is followed sample by sample with linear interpolation, from one sample up to the line's maximum.",
     ["inputs", "configurations", "histories"], "all lengths (0, 1, around block size, seconds), mono and stereo signals, modulators",
     "No test renders a delay.",
     [SY + "node/delay/"], [("ring buffers", SY + "node/delay/delayn.rs, delayms.rs")],
     "online conformance monitor with reference models", "Random signals and lengths, sample by sample.",
     observe=["per-node output buffers after each block"])

prop("C18", "Filters obey their difference equations for constant and moving cutoffs",
     "The one-pole, resonant low-pass, resonant high-pass and all-pass filters compute their second-order (first-order, comb) difference equation on the input with coefficients from the cutoff, q, rate, gain and the engine's sample rate. "
     "Consequently the low-pass passes a constant unchanged, the high-pass removes it, the all-pass keeps energy, and a referenced or patterned cutoff takes effect at its block or pattern time.",
     ["inputs", "configurations", "histories"], "all signals, cutoffs, q values, sample rates, modulators and patterns",
     "No test renders a filter.",
     [SY + "node/filter/"], [("direct-form recurrences", SY + "node/filter/*")],
     "online conformance monitor with reference models plus response probes", "Random signals and parameters; double-precision recurrence re-run on recorded inputs.",
     observe=["per-node output buffers after each block"])

prop("C19", "Built-in instruments sound like the patches they abbreviate",
     "The kick, snare, hi-hat and the saw, square and triangle synths sound, at every sample rate, exactly like the documented patch of basic nodes that they stand for, for every trigger sequence and parameter, also after a parameter message. "
     "The pattern synth plays each written note at its written time in every period.",
     ["inputs", "histories"], "all trigger patterns, parameters and messages",
     "No test renders an instrument.",
     [SY + "node/compound/", SY + "node/synth/"], [("inner audio graph of each instrument", SY + "node/compound/mod.rs process_compound")],
     "metamorphic twin monitor: instrument vs its expansion written in the language", "Random triggers and parameters; two programs compared sample by sample.",
     observe=["audio returned by each block"])

prop("C20", "Arrangements play each part for its bars in order; choices stay in the list",
     "An arrangement passes on exactly the part whose turn it is, each for its number of bars at the current tempo, in the written order, and starts over after the last, in stereo. "
     "A random choice outputs only values of its list, constant within a block, all values occur, and its sequence is fixed by the engine's seed.",
     ["inputs", "histories", "configurations"], "all part lists, lengths, tempi; long runs",
     "No test renders these nodes.",
     [SY + "node/sequencer/arrange.rs", SY + "node/sequencer/choose.rs"], [("bar position of the running clock", SY + "node/sequencer/arrange.rs")],
     "online conformance monitor with a timetable model", "Random arrangements over many cycles; membership and distribution of choices.",
     observe=["per-node output buffers after each block"])

prop("C21", "A control message changes exactly the addressed parameter",
     "A message addressing chain, node position and parameter with a number makes that node behave from the next block on as if the number had been written in its place, keeping its running state, and changes nothing else. "
     "A delay line whose length changes starts empty, and a noise source given a new seed or an arrangement given new lengths starts over. Messages that are incomplete or address no existing chain or position are ignored, and in a list of messages each valid one takes effect.",
     ["inputs", "histories"], "all message texts, all programs and addressed nodes",
     "No test sends a message.",
     [ENG, SY + "node/"], [("text protocol and dispatch", ENG + " send_msg"), ("per-node parameter handling", SY + "node/* send_msg")],
     "twin-engine monitor: messaged session vs session whose text carries the value, plus shadow models", "Random programs and message batches incl. malformed ones.",
     observe=["audio returned by each block"])

prop("C22", "Live audio input reaches the program in the same block, unaltered",
     "The input samples handed over with a block are what the built-in input chain carries in that very block, left to left and right to right, wherever and however often the program references it. "
     "This stays true across updates, rejected updates and a reset.",
     ["inputs", "histories"], "all input signals, programs referencing the input, session histories",
     "No test passes input audio.",
     [ENG], [("input node buffers written before processing", ENG + " next_block")],
     "pass-through monitor with uniquely numbered samples", "Every input sample is unique, so loss, delay, duplication or swapping is identified.",
     observe=["audio returned by each block"])

prop("C23", "A reset engine behaves like a new one",
     "After a reset, whatever happened before, the engine behaves like a newly created one at the same sample rate: silent, without chains and registered samples, with default tempo and seed, and any session run on it sounds the same as on a new engine.",
     ["histories"], "all histories before and all sessions after the reset",
     "No test resets an engine.",
     [ENG, SY + "context.rs"], [("reset of graph, tables and settings", ENG + " reset")],
     "twin-engine monitor: dirty-reset engine vs new engine", "Random histories, reset, then the same random session on both.",
     observe=["audio returned by each block", "results of updates"])

prop("C24", "Tempo and sample-rate settings reach everything that depends on them",
     "After a tempo change, every tempo-driven node, already running or created later, keeps the new tempo: sequences, arrangements, sample patterns and cutoff patterns. "
     "Nodes created under a sample-rate setting realise the frequencies and times of their parameters at that rate. "
     "An engine on which nothing was set runs at 44100 samples a second and 120 beats a minute.",
     ["configurations", "histories"], "all tempi, sample rates and orders of settings and updates",
     "No test changes tempo or rate.",
     [ENG, MK, SY + "node/"], [("tempo broadcast", ENG + " set_bpm"), ("rate handed to node constructors", MK + " makenode")],
     "shadow-model monitor under random settings; rate-scaling metamorphic twin", "Random settings schedules; models carry tempo and rate.",
     observe=["per-node output buffers after each block"])

prop("C25", "Parsing, updating and rendering never touch invalid memory",
     "No parse, update, message, reset or render, in any order, performs an out-of-bounds or dangling access, reads uninitialised memory or has any other undefined behaviour.",
     ["histories", "programs"], "all sessions; in particular graph inputs, node replacement and the uninitialised parameter arrays",
     "Ordinary test runs do not notice undefined behaviour.",
     [SY + "node/mod.rs", SY + "graph.rs", "rs/parser/src/nodes.rs", ENG], [("raw input pointers valid during a process call", SY + "node/mod.rs Input"), ("MaybeUninit parameter array", "rs/parser/src/nodes.rs get_f32_arr")],
     "AddressSanitizer build and Miri interpreter over random sessions", "Sanitizer reports are violations; coverage limited to what the sessions reach.",
     observe=["sanitizer and interpreter reports"])

prop("C26", "Memory and graph size stay bounded in endless sessions",
     "The number of live nodes is determined by the current program, and repeating a cycle of updates, rejected updates, messages and rendering any number of times does not grow memory. "
     "Rendering alone does not accumulate memory however long it runs.",
     ["histories"], "all cyclic sessions, any length",
     "Leaks show only over many repetitions.",
     [ENG, SY + "node/"], [("removal of replaced nodes", ENG + " update_with_code"), ("clean_up", ENG + " clean_up"), ("reset of input order", SY + "node/* ResetOrder")],
     "counting-allocator monitor: live heap and node population per cycle", "Live bytes sampled at quiescent points over hundreds of repetitions; any steady growth is a violation.",
     observe=["allocator events", "number of live graph nodes"])

prop("C27", "The browser bridge relays programs, errors and audio faithfully",
     "Through the browser bridge a rendered block is the engine's left half followed by its right half, and an update returns a status of 0 when accepted and otherwise the kind of error (1 syntax, 2 sample, 3 reference) with its message, truncated to the fixed reply size. "
     "Samples, tempo, seed, rate, messages and reset given to the bridge have the same effect as on a directly driven engine, also after an earlier call has failed.",
     ["histories", "inputs"], "all sequences of bridge calls",
     "The bridge has no tests.",
     ["rs/wasm/src/lib.rs"], [("global engine and reply buffer", "rs/wasm/src/lib.rs")],
     "twin monitor: bridge compiled natively vs a directly driven engine", "Random call sequences incl. failing ones; replies and audio compared.",
     observe=["return values of bridge calls"])

prop("C28", "The shared-memory queues deliver every element once and in order",
     "Between one writing and one reading thread, the browser front end's shared-memory queue delivers every accepted element exactly once, unmodified and in order, accepts no more than fits and says how many it took. "
     "Its emptiness, fullness and free-space reports agree with what can then be read or written, and text parameters sent through it arrive complete.",
     ["schedules", "histories"], "all interleavings of pushes and pops, all sizes, wrap-arounds",
     "The JavaScript code has no tests.",
     ["js/npm/ringbuf.js"], [("single-producer single-consumer ring buffer on a SharedArrayBuffer", "js/npm/ringbuf.js")],
     "offline FIFO checker over unique elements: single-threaded model and concurrent workers", "Random operation sequences against a list model and real worker threads.",
     observe=["elements pushed and popped, return values"])

prop("C29", "Chains built in JavaScript spell the programs they describe",
     "The program text that the JavaScript chain builder produces for any sequence of builder calls is accepted by the engine's parser and denotes exactly the called nodes with the given arguments in call order; a call that needs a number or reference and gets something else adds nothing.",
     ["inputs", "programs"], "all builder calls and arguments",
     "The JavaScript code has no tests.",
     ["js/npm/nodechain.js"], [("string assembly per node", "js/npm/nodechain.js")],
     "oracle comparison of built text, parsed by the real parser, with the call list", "Random call sequences; tree compared with the tree of the expected text.",
     observe=["text produced by the builder", "the tree returned by the parser"])

prop("C30", "Inline expressions and scripts compute what they say",
     "An inline expression node outputs, for every sample, the value of its last expression, with its assignments executed in order and remembered from sample to sample and the current input and sample rate available. "
     "A script node outputs the samples its script returns for each block and keeps its variables, and a failing script neither crashes the engine nor disturbs other chains.",
     ["inputs", "programs"], "all expressions and scripts of the supported languages",
     "No stable test evaluates a script.",
     [SY + "node/dynamic/", "rs/parser/src/nodes.rs"], [("compiled expressions with persistent variables", SY + "node/dynamic/eval.rs"), ("script scope", SY + "node/dynamic/meta.rs")],
     "oracle comparison with an independent evaluator", "Random expressions evaluated by the harness's own evaluator; script templates with known results.",
     observe=["per-node output buffers after each block"])

prop("C31", "Breakpoint envelopes pass through their points",
     "A breakpoint list outputs the straight-line interpolation through its written time and value pairs (bars scaled by tempo and span, plus or minus seconds or milliseconds), starts from zero if no point is at the start and holds the last value. "
     "A looping list repeats with its period.",
     ["inputs", "configurations"], "all point lists, spans, tempi and sample rates",
     "No stable test renders a point list.",
     [SY + "node/signal/points.rs", "rs/parser/src/nodes.rs"], [("piecewise interpolation on a step clock", SY + "node/signal/points.rs")],
     "online conformance monitor with a reference model", "Random point lists, sample by sample.",
     observe=["per-node output buffers after each block"])

prop("C32", "The browser package passes everything between page and engine",
     "What a page gives the browser package (program text, built chains, stop, control messages, tempo, mode, samples from arrays, addresses, files or the package's own list, before or after the engine is ready) reaches the engine complete, once and in order, with shared memory or without it. "
     "The engine's left and right output and its input come through unaltered however its memory moves, every error reply is shown with its line, its place in the program that was run and what was expected there, and the relay does not use up memory.",
     ["histories", "inputs"], "all sequences of calls on the page with blocks in between",
     "The JavaScript code has no tests.",
     ["js/npm/index.js", "js/npm/glicol-engine.js", "js/npm/detect.js"], [("engine object of the page", "js/npm/index.js"), ("audio worklet with shared queues and message port", "js/npm/glicol-engine.js")],
     "trace monitor: recorded calls at the engine's boundary, audio and printed errors compared with what the page asked", "Random sessions on the real page and worklet code with a recording engine whose memory grows.",
     observe=["calls received by the engine", "audio returned by the worklet", "lines printed by the page"])

prop("C33", "The web page runs the editor's program and shows its errors",
     "The web page hands the engine the editor's text unchanged, except that each embedded ##script# is replaced by its result (nothing if it has none or fails), and relays tempo and loudness settings if they are valid numbers and refuses them otherwise. "
     "Every sample from the list, an address, a file or a folder arrives complete under its name, also again after a stop. Errors are shown with their line, place and what was expected, and leave the running program playing, and left and right reach the same sides of the output.",
     ["histories", "inputs"], "all sequences of actions on the page",
     "The JavaScript code has no tests.",
     ["js/src/glicol.js", "js/src/utils.js", "js/src/glicol-engine.js", "js/src/glicol_wasm.js"], [("run, samples, settings and error display", "js/src/glicol.js"), ("audio worklet", "js/src/glicol-engine.js"), ("page commands", "js/src/utils.js")],
     "trace monitor: recorded calls at the engine's boundary, routing and printed errors; audio of known programs on the committed engine", "Random sessions on the real page and worklet code.",
     observe=["calls received by the engine", "audio returned by the worklet", "lines printed by the page"])

prop("C34", "The plate reverb blends dry and wet linearly and its tail dies away",
     "The plate outputs on both sides the left side of its input times one minus the mix, plus a reverberation of it times the mix, also when a message changes the mix, and updates elsewhere do not disturb it. "
     "The reverberation is linear in the input, differs between the sides, starts 50 ms and 394 samples after the input (at 44.1 kHz, on the left), stays bounded and falls by 8 to 46 dB in every second after the input ends.",
     ["inputs", "histories"], "all input signals, mixes, block sizes, messages and updates",
     "No test renders the plate.",
     [SY + "node/effect/plate.rs"], [("inner audio graph with a feedback loop", SY + "node/effect/plate.rs")],
     "metamorphic twin monitor: plates of different mixes and superposed inputs", "Random signals; five engines compared sample by sample, then the tail is measured.",
     observe=["audio returned by each block"])

prop("C35", "The synth library gives the same sound however its nodes are wrapped and wired",
     "A patch built by hand in an audio context sounds, node by node, like the same chains played by the engine: whether nodes are added one by one or as chains, plain, boxed or borrowed, and connected in order or at explicit positions. "
     "Messages to one node or to all arrive in every wrapping, and a context that was reset can be built again like a new one.",
     ["programs", "histories"], "all patches, wrappings, orders of wiring calls, messages and resets",
     "The documentation tests build two small patches.",
     [SY + "context.rs", SY + "node/mod.rs", SY + "node/boxed.rs", SY + "graph.rs"],
     [("context wiring calls", SY + "context.rs"), ("wrappings of nodes", SY + "node/mod.rs, " + SY + "node/boxed.rs")],
     "twin monitor: audio context wired by hand vs engine", "Random programs, random wrappings and wiring; the buffers of all nodes are compared bit by bit after every block.",
     observe=["buffers of every node after each block", "audio returned by each block"])


def main():
    checks_ready = set((os.environ.get("READY") or open(os.path.join(ROOT, "tools/ready.txt")).read()).split())
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d, *_ in P:
            f.write(json.dumps(d, ensure_ascii=True) + "\n")
    checks, na = [], []
    for d, tech, note, level, claimed, reason in P:
        i = d["id"]
        if claimed and i in checks_ready:
            checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                               evidence_file=f"evidence/{i}.json", technique=tech, level=level, level_note=note))
        else:
            na.append(dict(property=i, reason=reason or "check not built yet"))
    m = dict(version=1, setup_cmd="./setup", hooks=dict(guard="none", enable="no hooks needed: the checks use the crates' public items", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="One harness crate (harness/) rebuilt from /repo's working tree by every check; see DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
