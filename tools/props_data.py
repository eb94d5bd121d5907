P("P01", "The audio callback never allocates or frees memory",
  "Processing an audio block, including picking up queued graph, parameter, sample, pattern and MIDI updates, never allocates heap memory and never frees it. This holds for every node type, every parameter and setting value, every update message and every block size up to the maximum.",
  ["inputs", "programs", "histories"], "all call paths from the audio entry points (executor processing, MIDI feeding, logging from the audio thread) through every node implementation",
  "Allocation on the audio thread stays invisible in a functional test: results are identical, and only rare paths (a growing vector, a dropped message, a log line) allocate.",
  ["src/nodes/node_exec.rs", "src/dsp/", "src/log.rs"],
  [("audio entry points", "NodeExecutor::process, process_graph_updates, feed_midi_events_from"), ("node dispatch", "Node::process / DspNode::process"), ("disposal of old programs and atoms", "DropMsg ring, drop_thread.rs")],
  "interprocedural effect analysis over the monomorphised MIR call graph plus vector-length dataflow",
  "Sound over-approximation of the call graph (generic instances, trait objects, drop glue); a growth of a Vec counts as allocation unless its length is bounded by its preallocated capacity. Trusts the effect table for std/third-party leaf functions and the WBlockDSP JIT code.")
P("P02", "The audio callback never blocks, locks, sleeps, does I/O or spawns threads",
  "Processing an audio block never waits: it takes no mutex, does no blocking wait, no sleeping, no file, console or network I/O, and starts no thread. This holds for every node type, setting value and queued update message.",
  ["inputs", "programs", "schedules"], "all call paths from the audio entry points through every node implementation",
  "A lock or a write to stdout on the audio thread works fine in every test; it fails only under contention or a slow console.",
  ["src/nodes/node_exec.rs", "src/dsp/", "src/log.rs", "src/nodes/feedback_filter.rs"],
  [("audio entry points", "NodeExecutor::process, process_graph_updates, feed_midi_events_from"), ("shared feedback", "SharedFeedback / scope handles use atomics")],
  "interprocedural effect analysis over the monomorphised MIR call graph",
  "Same call graph as P01; try_lock is accepted, lock is not. Trusts the leaf effect table.")
P("P03", "Updates that refer to another graph program never crash or hit other inputs",
  "Whatever order graph, parameter, modulation, monitor and clear updates arrive in at the audio thread, and however the number of inputs, outputs and nodes changed since they were issued, the executor never accesses memory or an index outside the current program. Clearing the graph also stops every pending parameter ramp and refresh, so they are never applied to inputs of a later program, and whenever the program is exchanged the selection of monitored signals is forgotten (it refers to the replaced program).",
  ["histories", "schedules"], "every sequence of update messages relative to program replacements",
  "Tests send matching messages; a stale index needs a message of a bigger program to be pending when a smaller one is installed.",
  ["src/nodes/node_exec.rs", "src/nodes/node_prog.rs"],
  [("message handling", "NodeExecutor::process_graph_updates"), ("pending smoothers and refresh targets", "NodeExecutor::{smoothers,target_refresh}"), ("monitor", "NodeExecutor::monitor_signal_cur_inp_indices")],
  "taint analysis of message/stale-state indices with dominating-guard proof on flattened MIR",
  "Every index of a program vector whose value stems from a message or surviving executor state must be guarded. Indices inside a program's own operations are trusted (built together).")
P("P04", "No setting, MIDI or signal value can crash a node while it processes audio",
  "Whatever values a node's settings, its inputs, the MIDI events and the loaded sample have (out of range numbers, empty samples or patterns, NaN), processing never panics: no index or slice out of bounds, no arithmetic underflow, no division by zero, no panic that depends on such a value.",
  ["inputs", "histories"], "every value of every setting atom, signal input, MIDI event and sample/pattern, over every processing history",
  "Tests use sane settings and signals; patches, automation and MIDI supply arbitrary ones.",
  ["src/dsp/", "src/dsp/tracker/", "src/shared_feedback.rs"],
  [("node processing", "DspNode::process of every node"), ("tracker", "Tracker::tick, TrackerBackend"), ("feedback buffers", "SharedFeedback")],
  "interprocedural taint analysis on flattened MIR with interval, dominating-guard and length-invariant discharge",
  "Every index, slice bound, subtraction, divisor and panic reachable in node code whose operand stems from a setting, MIDI/host data, a float-to-int conversion or accumulated state must be discharged. Trusts synfx-dsp primitives and the declared lengths of the slices handed to a node.")
P("P05", "Every node writes every output for every frame of every block",
  "When a node processes a block, it writes each of its declared outputs for every frame, on every path through its code (missing sample, missing backend, unknown mode, any setting); the main output node likewise hands the host a value for both channels of every frame. No stale data of an earlier block or of another node is ever heard.",
  ["inputs", "histories", "programs"], "every path through every node's processing code",
  "A skipped output keeps the last block's data, which usually is the silence or the value the test expects.",
  ["src/dsp/"],
  [("node processing", "DspNode::process of every node"), ("node declarations", "node_list! in src/dsp/mod.rs"), ("host output", "node_out.rs")],
  "path-coverage analysis (must-write before exit, per output and frame loop) on flattened MIR control flow graphs",
  "Must-analysis over the natural frame loops and whole-buffer writes. The debugging node Test is exempt for its out4. Trusts that hosts pass at least one frame.")
P("P06", "A sample rate change reaches every node and every rate dependent part of it",
  "After the sample rate is set, every node of the running graph and every node created later works at exactly that rate: each envelope, oscillator, filter, delay, slew limiter, LFO, sequencer, code backend, user supplied Rust node and parameter smoother gets the new rate, every number derived from a sample rate is recomputed, and coefficients cached for the old rate are recalculated. No node computes with a fixed rate. (The fixed feedback delay of the FbWr/FbRd pair is excepted.)",
  ["inputs", "programs", "histories"], "every sample rate, every node type, every order of creating nodes and setting the rate",
  "All tests run at 44100 Hz, which is also the built-in default, so a part that never hears of the rate behaves the same.",
  ["src/nodes/node_exec.rs", "src/nodes/node_conf.rs", "src/dsp/", "src/util.rs"],
  [("rate setter", "NodeExecutor::set_sample_rate"), ("node creation", "NodeConfigurator::create_node"), ("nodes", "DspNode::set_sample_rate of every node"), ("smoothers", "util::Smoother")],
  "member-coverage and dataflow analysis of every sample rate setter on flattened MIR",
  "Every member whose type has a sample rate setter must get an undistorted rate unconditionally; every rate derived number must be rewritten; change-comparison caches must be invalidated. Trusts the setters of the synfx crates.")
P("P07", "Signal buffers have one owner, are freed exactly once and never used after that",
  "However the graph is replaced, swapped and cleared, every signal buffer belongs to exactly one graph program or modulator, is freed exactly once, by that owner's destructor, and is neither leaked nor copied to a second owner. Whenever a program was installed or exchanged input buffers with its predecessor, the pointers its nodes and modulators read from are rebuilt before audio processing goes on, and a modulator without connected buffers is never read. Nodes that are shared with the audio thread are operated by the executor only.",
  ["histories", "schedules"], "every sequence of graph updates",
  "A dangling or doubly owned buffer usually still holds plausible data; leaks are invisible to tests.",
  ["src/nodes/node_prog.rs", "src/nodes/node_exec.rs", "src/dsp/mod.rs", "src/nodes/node_conf.rs"],
  [("raw buffers", "dsp::ProcBuf"), ("owners", "NodeProg, ModOp and their Drop impls"), ("program replacement", "NodeExecutor::process_graph_updates, NodeProg::{swap_previous_outputs,assign_outputs,unlock_buffers}")],
  "ownership analysis (allocation sites, owning fields, destructors, moves/copies of raw buffers) and must-pass-through analysis of program installation on flattened MIR",
  "Decides ownership from allocation sites to destructors. That the indices inside a program fit its vectors is assumed (they are built together).")
P("P08", "A changed parameter, setting or modulation amount always takes effect",
  "Every value set for a parameter, setting (atom) or modulation amount is remembered unmodified and, as long as the update queue has room, becomes effective: immediately when its node is part of the running graph, otherwise with the next upload of a graph that contains it. Adding or removing a modulation rebuilds the graph. On the audio thread an update whose index is valid is never ignored, also not when all smoothers are busy; a ramp ends exactly on the target value, the inputs keep that value afterwards, and a graph update in the middle of a ramp does not lose it.",
  ["inputs", "histories"], "every value, every order of parameter changes and graph updates",
  "Losing a change needs a rare situation: all smoothers busy, a ramp cut by a graph update, a removed modulation, a value set before its node exists.",
  ["src/nodes/node_conf.rs", "src/nodes/node_exec.rs", "src/matrix.rs", "src/util.rs", "src/nodes/node_prog.rs"],
  [("frontend registry", "NodeConfigurator::{set_param,set_param_modamt,rebuild_node_ports,upload_prog}"), ("audio thread", "NodeExecutor::{process_graph_updates,process}"), ("ramps", "util::Smoother"), ("rebuild request", "Matrix::set_param_modamt")],
  "must-pass-through (all-paths) and value-provenance analysis of the update path on flattened MIR",
  "Decides on all control flow paths that each stage stores/sends/applies the unmodified value. The ring buffer itself and its capacity are trusted.")
P("P09", "MIDI events reach the nodes exactly once, in order and in their block",
  "Every MIDI event that the host feeds or the frontend injects (up to the documented per-block capacities) is put, in the order received, into exactly one of the block's two event lists (controllers or notes) and is forwarded to the frontend, which passes it on to the observer. The lists never contain events of an earlier block. Injected events are played exactly once. The event cursor hands a node every event whose time has come, late ones included, without skipping or repeating any, and MIDI nodes fetch all events of every frame. Event windowing hands out each event in the block its time falls into, relative to the start of that block, and keeps it until then.",
  ["inputs", "histories"], "every sequence of events and block partition",
  "Tests feed few, well spaced events; order, capacity, late and simultaneous events are what hosts produce.",
  ["src/nodes/node_exec.rs", "src/nodes/midi.rs", "src/matrix.rs", "src/dsp/node_midip.rs", "src/dsp/node_midicc.rs"],
  [("feeding", "NodeExecutor::feed_midi_events_from"), ("cursor", "MidiEventPointer::next_at"), ("windowing", "EventWindowing"), ("frontend", "Matrix::handle_graph_events")],
  "all-paths event accounting (each event source to exactly one sink), guard-operator and provenance analysis on flattened MIR",
  "Decides event conservation on every control flow path. Trusts the ring buffers and that hosts sort events by time.")

P("P10", "A rejected matrix change leaves no trace",
  "Matrix::change_matrix and change_matrix_err run the caller's change and then the matrix check; when either fails they return an error and the grid cells and the wiring data derived from them (edges, used inputs, graph ordering) are again those from before the call; when they return Ok the change is in the grid and has passed the check. (The caller's function is assumed not to save, restore, clear or nest changes itself.) The check never changes a cell, reports CycleDetected exactly if the connections cannot be ordered, and reports DuplicatedInput whenever two edges feed the same node input. place_multiple writes only to existing, empty grid positions, otherwise returns an error, and returns Ok only after a successful check.",
  ["inputs", "histories"], "every change function, grid and error position",
  "Tests try single invalid changes; that nothing remains of a rejected change must hold for each error exit and each piece of derived state.",
  ["src/matrix.rs", "src/nodes/node_graph_ordering.rs"],
  [("guarded change", "Matrix::change_matrix_err"), ("check", "Matrix::check"), ("placing", "Matrix::place_multiple"), ("restore", "Matrix::restore_matrix")],
  "path-sensitive dataflow over enum variants (error exits vs. restore calls) on flattened MIR, write-effect analysis of the check",
  "Decides that on every path to an error result the saved state is restored and re-derived. Trusts the semantics of std's Option/Result/Vec/HashMap.")

P("P11", "The uploaded program is exactly the acyclic graph of the grid",
  "Matrix::sync rebuilds the wiring from the grid, creates missing nodes and uploads a program only if the connections could be ordered, returning an error otherwise. Every occupied cell contributes its node, and every assigned input that faces an assigned output of the adjacent cell (in1 at the top, in2 at the top left, in3 at the bottom left) contributes exactly one edge, to the edge list and to the ordering. The computed order puts each node after all nodes that feed it and fails if there is a cycle. Nodes enter the program in that order and before any edge; each edge connects the given output of the given source node to the given input of the given destination node, with modulation amount if one is set; the port ranges of the nodes are disjoint and contiguous. (Within the documented limits: up to 256 node instances and 64 distinct successors per node.)",
  ["programs", "histories"], "every grid content",
  "Tests upload a handful of small graphs; a wrong edge, order or port range only shows in particular layouts.",
  ["src/matrix.rs", "src/nodes/node_conf.rs", "src/nodes/node_graph_ordering.rs", "src/nodes/node_prog.rs"],
  [("sync", "Matrix::sync"), ("edges", "Matrix::update_graph_ordering_and_edges"), ("order", "NodeGraphOrdering::calculate_order"), ("program", "NodeConfigurator::rebuild_node_ports / add_prog_node / set_prog_node_exec_connection")],
  "value provenance, guard and loop-coverage analysis on flattened MIR; all-paths accounting of nodes, edges and queue operations",
  "Decides the structural necessary conditions of a correct topological upload on every path. Trusts std collections and P22's direction tables.")

P("P12", "Clear and load leave nothing of the old patch and lose nothing of the new one",
  "Matrix::clear empties, before it synchronises the graph, every grid cell, the properties, the saved grid and all registries of nodes, parameter values, settings and modulation amounts, and tells the audio thread to clear its program. Matrix::from_repr clears first, resets the patterns and block programs of the previous patch, and then puts every parameter value (normalised for files of version 2, as is for older ones), modulation amount, setting, property, cell (with each port and coordinate in its own field), pattern and block program of the representation into the slot it was saved from, synchronises, and returns the result of that synchronisation.",
  ["inputs", "histories"], "every previous content and every representation",
  "Tests load patches into fresh matrices; leftovers only show after particular histories.",
  ["src/matrix.rs", "src/nodes/node_conf.rs", "src/global.rs"],
  [("clear", "Matrix::clear"), ("load", "Matrix::from_repr"), ("registries", "NodeConfigurator::delete_nodes"), ("parameters", "NodeConfigurator::load_dumped_param_values"), ("cells", "Cell::from_repr / Cell::to_repr")],
  "all-paths must-pass and control dependence analysis of every piece of state on flattened MIR, field provenance of the loaded values",
  "Decides that each store happens on every path and takes its value from the right field. Clearing alone keeps pattern and block program contents (they are replaced by loading).")

P("P24", "Every change of the matrix reaches the observer and the generation counter",
  "Setting a parameter or a modulation amount calls update_param with that parameter, setting a property stores it and calls update_prop with its key, monitoring a cell remembers it, monitors its three inputs and outputs in order and calls update_monitor, a successful synchronisation calls update_matrix, clearing and loading call update_all - on every path on which an observer is set. All of them but monitoring increase the generation returned by get_generation whenever they succeed; the generation never decreases. An observer is never lost.",
  ["inputs", "histories"], "every call sequence",
  "Tests look at one call each; a missed notification only shows on particular paths.",
  ["src/matrix.rs"],
  [("parameters", "Matrix::set_param / set_param_modamt"), ("properties", "Matrix::set_prop"), ("monitoring", "Matrix::monitor_cell"), ("synchronisation", "Matrix::sync"), ("clear and load", "Matrix::clear / from_repr")],
  "all-paths must-pass analysis of notification calls and counter updates on flattened MIR",
  "Decides every path of every public mutator.")

P("P22", "One hexagonal layout, used the same way everywhere, inside the grid",
  "For every direction and position: numbering and naming of edges correspond, the opposite of the opposite is the edge itself and turns outputs (TR, BR, B) into inputs (BL, TL, T), and the neighbour's position is the same in CellDir::as_offs, offs_pos, are_adjacent and Matrix::get_adjacent (odd columns sit half a cell lower), so that going there and back in the opposite direction ends at the start; negative positions are refused. TR, BR, B are the cell's outputs 1, 2, 3 and T, TL, BL its inputs 1, 2, 3 in has_dir_set, local_port_idx, set_io_dir, clear_io_dir (the centre clears all), edge_label; get_adjacent_output, adjacent_edge_has_input, is_port_dir_connected and get_connections pair an edge's port with the facing port of the neighbour. Matrix::get, get_copy, place and get_adjacent access the cell of the given position, refuse every position outside the grid and no position inside.",
  ["inputs"], "every direction, column parity, position and grid size",
  "Tests use a few positions in even columns; a wrong entry only shows for one direction in one kind of column or at one border.",
  ["src/cell_dir.rs", "src/matrix.rs"],
  [("directions", "CellDir"), ("ports of a cell", "Cell::has_dir_set / local_port_idx / set_io_dir / clear_io_dir"), ("neighbours", "Matrix::get_adjacent / get_adjacent_output / adjacent_edge_has_input"), ("connections", "Cell::is_port_dir_connected / Matrix::get_connections"), ("grid", "Matrix::get / get_copy / place")],
  "conditional constant propagation per direction and column parity over flattened MIR tabulates every function; tables are compared with one layout",
  "Decides the complete finite tables; positions are symbolic. Integer casts are taken as lossless (grids up to 128x128).")

P("P13", "A saved patch reads back as what was saved",
  "Everything MatrixRepr::serialize writes is read back by MatrixRepr::deserialize from the same key and position into the same field, unaltered: every field of every cell (node, instance, position, each input and output), parameter (id, value, modulation amount), setting, property, pattern (all rows and columns, column types, row count, edit step, cursor) and block program (areas, sizes, headers, blocks with position, ports, contained areas, labels; the block lookup table is rebuilt). Node, parameter and port names and instances go through matching pairs of conversions, every kind of setting is written under the tag it is read from, no element is left out or cut short by a condition, and the version that is written is the newest one that is accepted. Matrix::to_repr captures each cell with a node, all parameters (denormalised), modulation amounts, settings and properties, and the patterns 0-127 and block programs 0-31 that are in use, each under its own number and from its own place; PatternData::to_repr and from_repr map each field and column type to itself.",
  ["inputs"], "every representation and every patch content",
  "Tests round-trip a few small patches; a field that is swapped, narrowed, renamed on one side or dropped under a condition only shows for particular content.",
  ["src/matrix_repr.rs", "src/matrix.rs", "src/nodes/node_conf.rs", "src/dsp/tracker/pattern.rs", "src/wblockdsp/language.rs"],
  [("text format", "MatrixRepr::serialize / MatrixRepr::deserialize"), ("cells", "CellRepr::serialize / deserialize"), ("patterns", "PatternRepr, PatternData::to_repr / from_repr"), ("block programs", "BlockFunSnapshot, BlockArea, Block"), ("capture", "Matrix::to_repr"), ("parameters", "NodeConfigurator::dump_param_values")],
  "structural provenance analysis (which field ends up at which JSON key and back, through which operations) on flattened MIR",
  "Decides field by field which source reaches which place and which operations lie on the way; does not decide numeric exactness of denorm/norm or of serde_json itself. Sample data of audio samples is not part of a patch.")

P("P19", "Pattern edits always reach the sequencer on the audio thread",
  "Every public operation of PatternData that changes a cell, a column type or the row count marks the column concerned (all columns for the row count, on loading and on reset) as modified and advances the generation on every path; changing a cell forgets its cached text, and no operation restarts the generation. Tracker::send_one_update removes a mark only when the ring buffer has room and then sends that very column, recalculated, with its type and the row count; it looks at all six columns. Tracker::get_backend connects a new backend through one new ring buffer and marks every column again. TrackerBackend::check_updates stores column type, row count and all rows of every message in the column it is for, and TSeq looks for updates each time before it plays its six columns.",
  ["inputs", "histories", "schedules"], "every sequence of edits, sends and backend replacements",
  "Tests edit a small pattern once and drain the queue; a missing mark only shows for particular operations, full queues or a replaced backend.",
  ["src/dsp/tracker/pattern.rs", "src/dsp/tracker/mod.rs", "src/dsp/tracker/sequencer.rs", "src/dsp/node_tseq.rs", "src/global.rs"],
  [("edits", "PatternData / UIPatternModel"), ("sending", "Tracker::send_one_update"), ("backend", "Tracker::get_backend"), ("reception", "TrackerBackend::check_updates, PatternSequencer::set_col"), ("playing", "TSeq::process")],
  "must-pass path analysis of modification marks per changed place, guard dominance and provenance of messages on flattened MIR",
  "Decides every path of every public mutator of PatternData and of the three transfer functions. It presumes that check_pattern_data is called repeatedly by the user, as documented.")

P("P14", "No content of a patch can crash or hang the loading, capturing or saving of it",
  "While a patch is read (MatrixRepr::deserialize, read_from_file), applied (Matrix::from_repr, which loads patterns with PatternData::from_repr and block programs with BlockFun::load_snapshot), captured again (Matrix::to_repr) and written (serialize), no panic depends on a value from the patch: every index, slice bound, divisor, overflow-checked sum, allocation size and number of loop rounds that is computed from a number of the patch is limited first, lists are only accessed with positions below their length, and nothing from the patch is unwrapped unchecked. Area references of a loaded block program are only kept if the area exists and was not reached before, so that no block contains itself, and the root area always exists.",
  ["inputs"], "every JSON document and every representation",
  "Tests load well-formed patches and a few broken ones; an extreme position, a short list or a cyclic reference only shows for particular content.",
  ["src/matrix_repr.rs", "src/matrix.rs", "src/dsp/tracker/pattern.rs", "src/wblockdsp/language.rs", "src/nodes/node_conf.rs"],
  [("reading", "MatrixRepr::deserialize / read_from_file, deser_node_id, deserialize_pattern, deserialize_block_fun …"), ("applying", "Matrix::from_repr, PatternData::from_repr, BlockFun::load_snapshot"), ("capturing", "Matrix::to_repr"), ("writing", "MatrixRepr::serialize")],
  "interprocedural taint analysis of patch values with dominating guards and intervals at panic sites, allocation sizes and loop bounds on flattened MIR",
  "Decides every panic site, allocation and loop reachable in the crate's own code in these operations. What the audio thread makes of the values afterwards is P03/P04; Matrix::sync and the loading of audio files are not covered; serde_json is taken to return errors for malformed text.")

P("P18", "Editing a pattern never crashes and never outgrows the limits",
  "Whatever row, column, value or offset the user interface passes to an operation of UIPatternModel for PatternData: accesses are limited to the existing rows and the six columns (others are ignored or answered with nothing), value changes saturate instead of overflowing. Every stored row count - of the pattern in the user interface and of the sequencer on the audio thread - is at most MAX_PATTERN_LEN.",
  ["inputs", "histories"], "every sequence of edits with every argument",
  "Tests edit small patterns with sensible arguments; rows past the end, huge offsets and row counts only show for particular arguments.",
  ["src/dsp/tracker/pattern.rs", "src/dsp/tracker/sequencer.rs", "src/dsp/tracker/mod.rs"],
  [("edits", "impl UIPatternModel for PatternData"), ("row count", "PatternData.rows, PatternSequencer.rows"), ("loading", "PatternData::from_repr")],
  "taint analysis of the arguments with dominating guards at every panic site, and interval analysis of every store into the row counts, on flattened MIR",
  "Decides every panic site of every UIPatternModel operation and every write of a row count. PatternData::sync_out_data is called with the columns 0-5 only (P19).")

P("P20", "Editing a block function is all or nothing, never overlaps blocks, never lost",
  "BlockFun's edits (instanciate_at, clone_block_from_to, move_block_from_to, move_block_chain_from_to, split_block_chain_after, remove_at, shift_port, load_snapshot): a block is only put where BlockArea's space test found all of its rows free, in that area and position; an edit that returns an error has left the blocks of every area as they were, or put the block back where it was; one that succeeds has stored all it took away or changed, and advanced the generation, which never goes back. Blocks only move into another area if that area is not below them (both sub areas of a block count). After each change of the blocks of an area its table of occupied cells is renewed and covers every row of every block. NodeGlobalData::check_code compiles and uploads the block function of the given id whenever its generation differs from the one of the last upload.",
  ["inputs", "histories"], "every edit in every state with every argument",
  "Tests make a few edits that mostly succeed; lost or overlapping blocks only show for particular layouts and refused edits.",
  ["src/wblockdsp/language.rs", "src/global.rs"],
  [("edits", "BlockFun::instanciate_at / clone_block_from_to / move_block_from_to / move_block_chain_from_to / split_block_chain_after / remove_at / shift_port"), ("space", "BlockArea::check_space_at, BlockChain::try_fit_load_into_space"), ("table", "BlockArea::update_origin_map"), ("nesting", "BlockFun::area_is_subarea_of / BlockChain::area_is_subarea_of_loaded"), ("upload", "NodeGlobalData::check_code")],
  "path-sensitive typestate analysis (space tested, removed, stored, generation advanced) of every edit on flattened MIR, with expression matching of areas and positions",
  "Decides every path of every edit. Sub areas created for a block that could not be cloned stay behind unused; the filler blocks of a split and the arithmetic of extreme coordinates are not covered.")

P("P17", "Put-aside programs are freed by the drop thread; threads end with their owners",
  "The drop thread takes every message that waits in its ring each round and drops it (nothing is kept or leaked); it reads the very ring the executor puts replaced programs and settings into. The drop thread and the monitor thread test their stop flag every round, whatever data arrives, end if and only if it is set, and the destructor of their owner sets the flag and then waits for the thread, on every path. Configurator and executor hold the two ends of the same rings (graph updates, events) and share the same sample rate cell and feedback cells.",
  ["histories", "schedules"], "every order of messages and shutdown",
  "A thread that never ends, a slowly filling ring or a crossed channel show only under load or at shutdown.",
  ["src/nodes/drop_thread.rs", "src/monitor.rs", "src/nodes/node_conf.rs", "src/nodes/node_exec.rs"],
  [("drop thread", "DropThread::new, Drop for DropThread"), ("monitor thread", "Monitor::new, Drop for Monitor"), ("channels", "SharedNodeConf::new")],
  "path-sensitive reachability over the thread loops and destructors, identity (provenance) of ring ends and shared cells on flattened MIR",
  "Decides all paths of the loops and destructors. That a worker is scheduled often enough to keep its ring from filling up is not decided.")

P("P27", "Every node runs on its own ports and reports back under its own name",
  "Processing a block runs the modulators and then the node of every operation of the program, in program order, after the parameter ramps were written, each with exactly the operation's own range of inputs, parameters, settings and outputs, its own connection flags and the two feedback cells at twice its index. NodeConfigurator::led_value_for and phase_value_for (and the Matrix functions of the same name) read exactly these two cells of the given node. After each node ran, the last sample of each of its outputs is stored at the output's own index and published once all nodes have run; update_output_feedback takes the newest values over completely, and out_fb_for (and filtered_out_fb_for, filtered_led_for) return the value of the given node and output.",
  ["programs", "inputs"], "every program, node and port",
  "Tests read back one LED or one output of small graphs; an index off by a node's ports only shows in larger ones.",
  ["src/nodes/node_exec.rs", "src/nodes/node_conf.rs", "src/nodes/node_prog.rs", "src/nodes/feedback_filter.rs", "src/matrix.rs"],
  [("running", "NodeExecutor::process"), ("LED and phase", "NodeConfigurator::{led_value_for,phase_value_for}"), ("output feedback", "NodeExecutor::process, NodeConfigurator::{update_output_feedback,out_fb_for}"), ("filters", "FeedbackFilter::{get_led,get_out}")],
  "provenance and linear index analysis of the slices handed to nodes, plus must-pass-through and ordering analysis, on flattened MIR",
  "Decides indices and order symbolically (up to 256 node instances). What a node writes into its cells is not covered.")

P("P28", "Monitored signals reach the frontend complete and under their own slot number",
  "NodeConfigurator::monitor translates the three given inputs into slots 0 to 2 and the three outputs into slots 3 to 5, by position, whether or not other ports are given. NodeExecutor::process feeds each used slot, after the nodes have run, with all frames of the block of the input (slots 0-2) or output (3-5) signal, and sends every buffer it filled. Buffers circulate: they are reset after they were read, given back, collected again, and never lost or freed on the audio thread, also not when a ring is full. The monitor thread reads every buffer to the end for all six slots, keeps minimum and maximum of each slot over a fixed number of samples, starting afresh after each point, and publishes all slots under their own number; get_minmax_monitor_samples fetches them completely and returns the slot asked for, oldest point first. Every Matrix::sync that uploads a program starts monitoring the same cell again.",
  ["inputs", "histories", "schedules"], "every choice of monitored ports, block sizes and thread schedules",
  "Tests monitor one or two ports of one cell for a short time.",
  ["src/monitor.rs", "src/nodes/node_exec.rs", "src/nodes/node_conf.rs", "src/matrix.rs"],
  [("slots", "NodeConfigurator::monitor"), ("feeding", "NodeExecutor::process"), ("buffers", "MonitorBackend, MonitorBuf"), ("thread", "MonitorProcessor, MonitorMinMax, Monitor::{new,get_minmax_monitor_samples}"), ("again after upload", "Matrix::sync")],
  "provenance and linear index analysis of slot numbers and buffer positions, path-sensitive typestate of monitor buffers, on flattened MIR",
  "Decides slot numbers, vectors, bounds and circulation on all paths. Timing of the monitor thread and numeric content are not covered.")

P("P15", "Saving a patch never damages the file it replaces; file errors are reported",
  "write_to_file (and save_patch_to_file) never opens, truncates, moves or removes an existing file at the given path: the complete serialized text is written to another file whose name is derived from that path, emptied before, and only after the text was written completely is that file renamed to the given path. Success is returned only after the replacement, and every failure of opening, writing, flushing or renaming is returned and leaves the existing file as it was. read_from_file opens the file for reading only, reads it to its end and interprets exactly that content; invalid UTF-8 and read errors are reported. save_patch_to_* save the representation of the given matrix, load_patch_from_* load what was read into the given matrix, do not touch the matrix before (or when) reading or parsing failed, and return every error.",
  ["crash points", "faults"], "every point at which saving is interrupted and every failing file operation",
  "Tests save and load successfully once; they neither interrupt a save nor let an operation fail.",
  ["src/matrix_repr.rs"],
  [("saving", "MatrixRepr::{write_to_file,write_to_mem}, save_patch_to_{file,mem}"), ("loading", "MatrixRepr::{read_from_file,read_from_mem}, load_patch_from_{file,mem}")],
  "path identity and builder typestate of the file operations, error-path dataflow and must-pass-before ordering on flattened MIR",
  "Assumes that rename() replaces the target atomically (POSIX). Durability across a power failure (fsync) is not claimed.")

P("P25", "A placed chain has its nodes, ports and parameters where the builder was told",
  "MatrixCellChain builders report an unknown node name, input, output or parameter as an error; place() then returns an error and leaves the matrix untouched. Otherwise place() puts every link of the chain, in order, into the matrix, starting at the given position and advancing by the offset of the link's direction for the column it stands in. Every link gets a node instance that the matrix reports as unused and that no other link of the chain got; its ports are kept: inputs lie at the input direction of the chain, outputs at the output direction (the chain's direction or its opposite). Every parameter set on a link is set, in order, on exactly the node instance that was placed for that link: set_denorm with the value converted to its normalised form, set_norm and set_atom with the given value. Parameters go to the link added last or the one chosen with params_for_idx.",
  ["inputs", "histories"], "every chain, direction, start position and set of nodes already in use",
  "Tests build short chains of distinct nodes in an empty matrix in one direction.",
  ["src/chain_builder.rs"],
  [("placing", "MatrixCellChain::place"), ("building", "MatrixCellChain::{node,node_out,node_inp,node_io,add_link}"), ("parameters", "MatrixCellChain::{set_denorm,set_norm,set_atom}")],
  "path-sensitive dataflow, recurrence analysis of the position and value provenance on flattened MIR; conditional constant propagation per direction",
  "A node counts as unused when the last synced graph does not use it. Chains leaving the matrix to the left or top are not covered.")

P("P29", "SynthConstructor puts exactly the described graph in place",
  "The node builders of hexodsp::build record what was written: each parameter, modulation, setting or input call adds one operation with that name and the given value, amount or source output, and hands back the same node. SynthConstructor::upload takes over every operation of the given node and of all its sources (values normalised once, each with its own modulation amount; settings unchanged), returns an error for unknown parameters, inputs or outputs, returns CycleDetected for a cyclic graph, and uploads nothing in these cases. Otherwise it creates missing nodes, applies all parameters and uploads a program with all known nodes, sources first, and every recorded connection from its own output to its own input. update_params applies every parameter that differs from the current one and uploads the graph again, returning true, when a change of a modulation needs it. clear() forgets the graph and deletes the nodes; phase_value, led_value and the output feedback queries ask the engine for the node and output they are given.",
  ["inputs", "histories"], "every graph built from any node kinds, every parameter and every order of uploads and updates",
  "Tests upload a handful of two or three node graphs; each builder function is generated per parameter and most are never called.",
  ["src/synth_constructor.rs", "src/build.rs"],
  [("builders", "build::{set_param,set_param_mod,input_port,output_port}"), ("walking the graph", "SynthConstructor::walk_upload"), ("uploading", "SynthConstructor::{upload,update_params,update_node_params}")],
  "path-sensitive dataflow per operation kind, value provenance of recorded names, values and ports, ordering and must-pass analysis on flattened MIR",
  "Edges of nodes known from an earlier upload are kept; update_params ignores changes of connections.")

P("P26", "State shared by nodes and frontend is one object per id",
  "For every id, all requests for one kind of shared state (pattern data and its backend, code engine and its backend, block function, scope handle, feedback buffer with its writer and readers, dynamic node handle) use the one object created at the first request: an object is created only when there is none and is never removed or replaced, and the existence queries (has_tracker, has_code_engine) tell just whether it exists. The nodes TSeq, Code, Scope, FbWr, FbRd and Rust1x1 ask for the object of their own instance number, and the queries of Matrix and SynthConstructor pass the given id on and return the answer unchanged. check_pattern_data syncs the tracker of that id; check_code (Matrix::check_block_function) compiles the block function of that id whenever its generation changed, uploads the code to the code engine of the same id and returns compile errors. Scope values, offset and gain, threshold and active signals are read where and as they were written. Feedback writer and readers of one id run through one ring of the same length, and every written sample is read.",
  ["inputs", "histories"], "every id, every order of requests from nodes and frontend",
  "Tests use instance 0 of each node and ask once; sharing errors only show with several ids, repeated requests, or requests from both sides.",
  ["src/global.rs", "src/shared_feedback.rs", "src/scope_handle.rs", "src/matrix.rs", "src/dsp/mod.rs", "src/nodes/node_conf.rs"],
  [("shared state", "NodeGlobalData::{get_*,has_*,check_*,send_dynamic_node1x1}"), ("feedback ring", "SharedFeedback{,Writer,Reader}"), ("scope cells", "ScopeHandle"), ("queries", "Matrix::{get_pattern_data,get_scope_handle,check_block_function,...}")],
  "value provenance of ids and returned objects, path-sensitive creation/must-pass analysis, ring index analysis on flattened MIR",
  "Retry of a failed compile without a further change of the block function is not claimed.")

P("P23", "Names, indices and tables of all node kinds agree with each other",
"For every node kind of the node list the generated tables describe one and the same node: the inputs have consecutive indices from 0, the settings follow behind them in the order of their own indices (each of 0..n once), and the outputs have the indices 0..n. NodeId's lookups (inp_param_by_idx, atom_param_by_idx, param_by_idx, inp_param, inp, inp_name_by_idx, out, out_name_by_idx) agree with each other for every index and every name of that node, answer for exactly the node they were asked about and answer None for any other index or name. ParamId::is_atom, atom_ui and setting_min_max answer just for settings, param_steps and param_min_max just for inputs and with the same range; the default of a setting lies in its range. ParamId::norm, denorm, round, norm_def and as_atom_def and NodeInfo::norm and denorm use the conversion and the default of that very parameter; rounding limits to the parameter's range; the denorm, denorm_offs (which adds the offset before it converts) and norm_def helpers use the same formula as denorm_v and norm_v. The accessors with which a node reads and writes its ports at run time (inp, inp_buf, at, out, out_buf, out_dir, out_idx, is_in_con, is_out_con) use the index of the table. NodeInfo lists the same names in the order of the indices with the help texts of those ports, and its queries (in_name, at_name, out_name, in_help, out_help, in_count, at_count, out_count) look into the right list. name() and label() lead back to the node by from_str, NodeInfo::from and from_node_id; to_instance and instance carry the instance number, eq_variant ignores it; get_node_ids lists exactly the nodes of a category; node_factory creates the DSP node of that kind and describes it with the NodeInfo of that kind.",
["every node kind and every input, setting and output index and name of it", "every index outside of a node's tables", "every normalized value (the formula is compared as an expression)"],
"The lookups of NodeId, ParamId and NodeInfo and the accessor macros' expansions for all node kinds. Whether a formula itself is musically right is not decided.",
"The tables come out of one macro with a few hundred hand written numbers in it. The tests touch some nodes and mostly their first inputs; a doubled or swapped index of one setting of one node, a conversion bound to the neighbour parameter or a lookup into the wrong list passes all of them.",
["src/dsp/mod.rs"],
[("src/dsp/mod.rs","node_list!"),("src/dsp/mod.rs","make_node_info_enum!"),("src/dsp/mod.rs","impl NodeInfo"),("src/dsp/mod.rs","pub fn node_factory")],
"constant propagation over the MIR of the macro generated lookups: every lookup is tabulated for every node kind and index, and the tables are compared with each other",
"The tabulation is complete: node kinds, indices and names are finite.")

N("N01", "The audio a graph renders is numerically what the node definitions say",
  "For every graph and parameter setting the rendered samples equal the mathematical definition of the connected oscillators, filters, envelopes and effects.",
  ["inputs", "programs"], "all sample values", "Tests sample a few settings with tolerances.", ["src/dsp/"], [("node DSP code", "DspNode::process of each node")],
  "numerical results over all floating-point inputs; no static argument in reach bounds them (only the structural necessary conditions in the other properties are claimed)")
N("N02", "Normalising and denormalising a parameter are inverse functions",
  "For every parameter, converting a value to its normalised form and back yields the same value within rounding.",
  ["inputs"], "all parameter values", "Tests sample values.", ["src/dsp/mod.rs"], [("norm/denorm macros", "define_exp!, n_pit!, d_pit! ...")],
  "a round-trip equality over floating point functions (exp/log/pow); not decidable from the shape of the code")
N("N03", "Parameter changes are smoothed within the configured time without overshoot",
  "A changed parameter ramps to its target within the smoothing time and never leaves the interval between old and new value.",
  ["inputs", "histories"], "all values and times", "Tests sample one ramp.", ["src/nodes/node_exec.rs"], [("smoother", "synfx_dsp Smoother")],
  "timing and numeric behaviour of an external crate's ramp; quantifies over runtime values")
N("N04", "Tempo, sequencer and envelope timing is accurate to the sample",
  "Sequencer steps, envelope segments and clock phases happen at the exact sample the settings ask for.",
  ["inputs", "histories"], "all rates and block partitions", "Tests sample settings.", ["src/dsp/tracker/sequencer.rs"], [("sequencer", "PatternSequencer")],
  "timing over runtime quantities")
