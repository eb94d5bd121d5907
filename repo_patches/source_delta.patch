From 92abb2c7d93720d3e43607a0b530e0b5b5449d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:57 +0000
Subject: [PATCH 01/35] fix: guard the executor against indices of a previous
 graph program

Atom updates, running smoothers, pending target refreshes and monitor
indices may refer to a program that was already replaced by a smaller one.
---
 src/nodes/node_exec.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index bd5d5aa..6bf18c6 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -206,6 +206,12 @@ impl NodeExecutor {
                 GraphMessage::Clear { prog } => {
                     self.exec_ctx.clear();
 
+                    // The pending parameter changes refer to inputs of the old program:
+                    for (_, smoother) in self.smoothers.iter_mut() {
+                        smoother.stop();
+                    }
+                    self.target_refresh.clear();
+
                     self.monitor_signal_cur_inp_indices = [UNUSED_MONITOR_IDX; MON_SIG_CNT];
 
                     log(|w| {
@@ -285,8 +291,12 @@ impl NodeExecutor {
                     });
                 }
                 GraphMessage::AtomUpdate { at_idx, value } => {
-                    let prog = &mut self.prog;
-                    let garbage = std::mem::replace(&mut prog.atoms[at_idx], value);
+                    // XXX: The index might belong to a program that is not (or no
+                    //      longer) the current one, so we need to check it here.
+                    let garbage = match self.prog.atoms.get_mut(at_idx) {
+                        Some(atom) => std::mem::replace(atom, value),
+                        None => value,
+                    };
 
                     let _ = self.shared.graph_drop_prod.push(DropMsg::Atom { atom: garbage });
                 }
@@ -411,10 +421,18 @@ impl NodeExecutor {
         let prog = &mut self.prog;
 
         while let Some((idx, v)) = self.target_refresh.pop() {
-            prog.inp[idx].fill(v);
+            if let Some(inp) = prog.inp.get_mut(idx) {
+                inp.fill(v);
+            }
         }
 
         for (idx, smoother) in self.smoothers.iter_mut().filter(|s| !s.1.is_done()) {
+            if *idx >= prog.inp.len() || *idx >= prog.params.len() {
+                // The program was replaced by a smaller one in the meantime.
+                smoother.stop();
+                continue;
+            }
+
             let inp = &mut prog.inp[*idx];
             let mut last_v = 0.0;
 
@@ -493,12 +511,16 @@ impl NodeExecutor {
                 continue;
             }
 
+            // XXX: The indices might belong to a program that is not (or no
+            //      longer) the current one.
+            let sig = if i > 2 { prog.out.get(*idx) } else { prog.cur_inp.get(*idx) };
+            let sig = match sig {
+                Some(sig) if !sig.is_null() => sig,
+                _ => continue,
+            };
+
             if let Some(mut mon) = self.shared.monitor_backend.get_unused_mon_buf() {
-                if i > 2 {
-                    mon.feed(i, ctx.nframes(), &prog.out[*idx]);
-                } else {
-                    mon.feed(i, ctx.nframes(), &prog.cur_inp[*idx]);
-                }
+                mon.feed(i, ctx.nframes(), sig);
 
                 self.shared.monitor_backend.send_mon_buf(mon);
             }
-- 
2.43.0


From 0c999f9c2bb8dd7f021c8de47957d5c9fba77742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:57 +0000
Subject: [PATCH 02/35] fix: off by one in NodeInstance::mod_in_local2global
 bounds check

---
 src/nodes/node_conf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/node_conf.rs b/src/nodes/node_conf.rs
index b25fffa..fd9b46f 100644
--- a/src/nodes/node_conf.rs
+++ b/src/nodes/node_conf.rs
@@ -87,7 +87,7 @@ impl NodeInstance {
     }
 
     pub fn mod_in_local2global(&self, idx: u8) -> Option<usize> {
-        if (idx as usize) > self.in2mod_map.len() {
+        if (idx as usize) >= self.in2mod_map.len() {
             return None;
         }
         self.in2mod_map[idx as usize]
-- 
2.43.0


From 441d7f32735f36e5259f63ab73ad6bba07a06d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:41 +0000
Subject: [PATCH 03/35] fix: TSeq printed to stdout on the audio thread on
 every sync trigger

---
 src/dsp/node_tseq.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dsp/node_tseq.rs b/src/dsp/node_tseq.rs
index f362c41..5a2f3cd 100644
--- a/src/dsp/node_tseq.rs
+++ b/src/dsp/node_tseq.rs
@@ -218,7 +218,6 @@ impl DspNode for TSeq {
         for (frame, phase_out) in phase_out.iter_mut().enumerate().take(ctx.nframes()) {
             if time.trigger.check_trigger(denorm::TSeq::trig(trig, frame)) {
                 time.clock.sync();
-                println!("CLOCK SYNC");
             }
 
             let phase = match cmode {
-- 
2.43.0


From cbff7d665cd92f9672994165dd72054eee689ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:41 +0000
Subject: [PATCH 04/35] fix: MidiCC did not pass the sample rate to its slew
 limiters

---
 src/dsp/node_midicc.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_midicc.rs b/src/dsp/node_midicc.rs
index d80da81..764f786 100644
--- a/src/dsp/node_midicc.rs
+++ b/src/dsp/node_midicc.rs
@@ -73,7 +73,12 @@ If you need different ~~slew~~ values for the CCs, I recommend creating other
 }
 
 impl DspNode for MidiCC {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.slew_cc1.set_sample_rate(srate);
+        self.slew_cc2.set_sample_rate(srate);
+        self.slew_cc3.set_sample_rate(srate);
+    }
+
     fn reset(&mut self) {}
 
     #[inline]
-- 
2.43.0


From b5a8de8081febf74cb2b261ba318b72e21009d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:41 +0000
Subject: [PATCH 05/35] fix: BiqFilt crashed with an out of range order setting

---
 src/dsp/node_biqfilt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_biqfilt.rs b/src/dsp/node_biqfilt.rs
index 063e0bd..7e967ef 100644
--- a/src/dsp/node_biqfilt.rs
+++ b/src/dsp/node_biqfilt.rs
@@ -146,7 +146,7 @@ impl DspNode for BiqFilt {
             self.ogain = cgain;
         }
 
-        let mut order = order.i() as u8;
+        let mut order = order.i().clamp(0, self.cascade.len() as i64 - 1) as u8;
         if ftype == 1 {
             // The resonator just blows up with higher orders.
             order = 0;
-- 
2.43.0


From 3aff130f29d58620ed2735f0a0828cd85a403871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:41 +0000
Subject: [PATCH 06/35] fix: CQnt hung, allocated or crashed with out of range
 settings

---
 src/dsp/node_cqnt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_cqnt.rs b/src/dsp/node_cqnt.rs
index 7ed6146..9f30ee3 100644
--- a/src/dsp/node_cqnt.rs
+++ b/src/dsp/node_cqnt.rs
@@ -118,7 +118,9 @@ impl DspNode for CQnt {
         let omin = at::CQnt::omin(atoms);
         let omax = at::CQnt::omax(atoms);
 
-        self.quant.update_keys(keys.i(), omin.i(), omax.i());
+        // XXX: Out of range settings would need a reallocation of the key
+        //      vector or result in an empty one.
+        self.quant.update_keys(keys.i() & 0xFFF, omin.i().clamp(0, 4), omax.i().clamp(0, 4));
 
         for frame in 0..ctx.nframes() {
             let pitch = self.quant.signal_to_pitch(denorm::CQnt::inp(inp, frame));
-- 
2.43.0


From 2d1e8c0e3a83021c833e344341e41dee9429d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:41 +0000
Subject: [PATCH 07/35] fix: logging on the audio thread allocated and crashed
 with long messages

---
 src/log.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/log.rs b/src/log.rs
index 8f5bfd7..032631b 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -104,10 +104,13 @@ impl Log {
     pub fn log<F: Fn(&mut std::io::BufWriter<&mut [u8]>)>(&mut self, f: F) {
         self.buf.fill(0xFF);
 
+        // XXX: The BufWriter must not allocate it's own buffer, because this is
+        //      also used on the audio thread. Too long messages are cut off.
+        let total = self.buf.len();
         let len = {
-            let mut bw = std::io::BufWriter::new(&mut self.buf[..]);
+            let mut bw = std::io::BufWriter::with_capacity(0, &mut self.buf[..]);
             f(&mut bw);
-            bw.buffer().len()
+            total - bw.get_ref().len()
         };
 
         if len < (self.buf.len() - 1) {
-- 
2.43.0


From f38195c1657972bac63f0574bcc02c132e64a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:41 +0000
Subject: [PATCH 08/35] fix: Rust1x1 never told the dynamic node about the
 sample rate

---
 src/dsp/node_rust.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/dsp/node_rust.rs b/src/dsp/node_rust.rs
index c7db024..4ec3a36 100644
--- a/src/dsp/node_rust.rs
+++ b/src/dsp/node_rust.rs
@@ -120,6 +120,12 @@ where
         self.output.update();
         self.output.output_buffer()
     }
+
+    /// Fetches the most recently written value, returns true if there was a new one.
+    #[inline]
+    pub fn update(&mut self) -> bool {
+        self.output.update()
+    }
 }
 
 pub struct DynNodeHandle<T: Send + Default> {
@@ -167,6 +173,7 @@ impl std::fmt::Debug for Rust1x1 {
 /// A native Rust code node that uses trait objects for dispatch
 pub struct Rust1x1 {
     buffer: DynNodeBuffer<Box<dyn DynamicNode1x1>>,
+    srate: f32,
 }
 
 impl Rust1x1 {
@@ -177,7 +184,7 @@ impl Rust1x1 {
             let mut handle = DynNodeHandle::<Box<dyn DynamicNode1x1>>::new();
             handle.get_output_buffer()
         };
-        Self { buffer }
+        Self { buffer, srate: 44100.0 }
     }
 
     pub const inp: &'static str =
@@ -213,9 +220,14 @@ See also [crate::SynthConstructor] and [crate::DynamicNode1x1].
 }
 
 impl DspNode for Rust1x1 {
-    fn set_sample_rate(&mut self, _srate: f32) {}
+    fn set_sample_rate(&mut self, srate: f32) {
+        self.srate = srate;
+        self.buffer.access().set_sample_rate(srate);
+    }
 
-    fn reset(&mut self) {}
+    fn reset(&mut self) {
+        self.buffer.access().reset();
+    }
 
     #[inline]
     fn process(
@@ -243,6 +255,10 @@ impl DspNode for Rust1x1 {
             phase_value: ctx_vals[1].clone(),
         };
 
+        if self.buffer.update() {
+            self.buffer.access().set_sample_rate(self.srate);
+        }
+
         self.buffer.access().process(
             inp.slice(ctx.nframes()),
             out.slice_mut(ctx.nframes()),
-- 
2.43.0


From f026c292eee36bf2eab9ab35b434b4dd13efe462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:07 +0000
Subject: [PATCH 09/35] fix: loading a patch with an oversized tracker pattern
 crashed

Also the cached cell strings of the previous pattern were still shown.
---
 src/dsp/tracker/pattern.rs | 7 ++++---
 src/matrix_repr.rs         | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 4783f09..91dc90d 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -95,13 +95,14 @@ impl PatternData {
             self.modified_col(i);
         }
 
-        for (row_idx, row) in repr.data.iter().enumerate() {
-            for (col_idx, cell) in row.iter().enumerate() {
+        for (row_idx, row) in repr.data.iter().enumerate().take(MAX_PATTERN_LEN) {
+            for (col_idx, cell) in row.iter().enumerate().take(MAX_COLS) {
                 self.data[row_idx][col_idx] = if *cell < 0 { None } else { Some(*cell as u16) };
+                self.strings[row_idx][col_idx] = None;
             }
         }
 
-        self.rows = repr.rows;
+        self.rows = repr.rows.min(self.data.len());
         self.edit_step = repr.edit_step;
         self.cursor = repr.cursor;
         self.generation += 1;
diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index c6146f8..efcf70d 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -151,7 +151,7 @@ impl PatternRepr {
 
         let cts = &v["col_types"];
         if let Value::Array(cts) = cts {
-            for (i, ct) in cts.iter().enumerate() {
+            for (i, ct) in cts.iter().enumerate().take(MAX_COLS) {
                 col_types[i] = ct.as_i64().unwrap_or(0) as u8;
             }
         }
@@ -159,9 +159,9 @@ impl PatternRepr {
         let mut data = vec![vec![-1; MAX_COLS]; MAX_PATTERN_LEN];
         let dt = &v["data"];
         if let Value::Array(dt) = dt {
-            for (row_idx, row) in dt.iter().enumerate() {
+            for (row_idx, row) in dt.iter().enumerate().take(MAX_PATTERN_LEN) {
                 if let Value::Array(row) = row {
-                    for (col_idx, c) in row.iter().enumerate() {
+                    for (col_idx, c) in row.iter().enumerate().take(MAX_COLS) {
                         data[row_idx][col_idx] = c.as_i64().unwrap_or(-1) as i32;
                     }
                 }
-- 
2.43.0


From fcffabcc1a6f27aa1847c83b6468c6137097cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:07 +0000
Subject: [PATCH 10/35] fix: saving a patch with a short micro sample crashed

---
 src/matrix_repr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/matrix_repr.rs b/src/matrix_repr.rs
index efcf70d..4714943 100644
--- a/src/matrix_repr.rs
+++ b/src/matrix_repr.rs
@@ -276,7 +276,13 @@ fn deserialize_atom(v: &Value) -> Result<SAtom, MatrixDeserError> {
 
 fn serialize_atom(atom: &SAtom) -> Value {
     match atom {
-        SAtom::MicroSample(s) => json!(["ms", s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7],]),
+        SAtom::MicroSample(s) => {
+            let mut buf: [f32; 8] = [0.0; 8];
+            for (b, s) in buf.iter_mut().zip(s.iter()) {
+                *b = *s;
+            }
+            json!(["ms", buf[0], buf[1], buf[2], buf[3], buf[4], buf[5], buf[6], buf[7],])
+        }
         SAtom::Str(s) => json!(["s", s]),
         SAtom::AudioSample((s, _)) => json!(["as", s]),
         SAtom::Setting(i) => json!(["i", i]),
-- 
2.43.0


From 99492d5f785fe12e446ae4bb1dde69d65c488c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:07 +0000
Subject: [PATCH 11/35] fix: tracker pattern updates were lost or not sent to
 the backend

- if the ring buffer was full
- if a new backend for the pattern was created
- if the length changed and the other value columns depended on it
---
 src/dsp/tracker/mod.rs     | 8 ++++++++
 src/dsp/tracker/pattern.rs | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/dsp/tracker/mod.rs b/src/dsp/tracker/mod.rs
index ea8c745..5d24824 100644
--- a/src/dsp/tracker/mod.rs
+++ b/src/dsp/tracker/mod.rs
@@ -87,6 +87,11 @@ impl Tracker {
     }
 
     pub fn send_one_update(&mut self) -> bool {
+        if self.data_prod.is_full() {
+            // Keep the column marked as modified, until the backend fetched some updates.
+            return false;
+        }
+
         let mut data = self.data.lock().unwrap();
 
         for col in 0..MAX_COLS {
@@ -117,6 +122,9 @@ impl Tracker {
             self.seq = Some(PatternSequencer::new(MAX_PATTERN_LEN));
             self.data_prod = prod;
             self.seq_cons = Some(con);
+
+            // The new backend does not know anything about the pattern yet:
+            self.data.lock().unwrap().modified_all_cols();
         }
 
         let seq = self.seq.take().unwrap();
diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 91dc90d..d36e075 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -118,6 +118,12 @@ impl PatternData {
         }
     }
 
+    pub(super) fn modified_all_cols(&mut self) {
+        for col in 0..MAX_COLS {
+            self.modified_col(col);
+        }
+    }
+
     pub fn col_is_modified_reset(&mut self, col: usize) -> bool {
         if self.dirty_col.get(col).copied().unwrap_or(false) {
             self.dirty_col[col] = false;
@@ -358,7 +364,7 @@ impl UIPatternModel for PatternData {
 
     fn set_rows(&mut self, rows: usize) {
         self.rows = rows.min(self.data.len());
-        self.modified_col(0); // modify any col, so we send an update.
+        self.modified_all_cols(); // the contents of the value columns depend on the rows.
         self.generation += 1;
     }
 
-- 
2.43.0


From 6deeae8e7167e722b76d287288d114aa47b485c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:35 +0000
Subject: [PATCH 12/35] fix: parameter changes got lost if all smoothers were
 busy

---
 src/nodes/node_exec.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index 6bf18c6..eb9cbd8 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -413,6 +413,16 @@ impl NodeExecutor {
             sm.1.set(prog.params[input_idx], value);
             //d// println!("SET SMOOTHER {} {:6.3} (old = {:6.3})",
             //d//          input_idx, value, prog.params[input_idx]);
+        } else {
+            // All smoothers are busy, so we have to set the value without smoothing:
+            for (idx, v) in self.target_refresh.iter_mut() {
+                if *idx == input_idx {
+                    *v = value;
+                }
+            }
+
+            prog.params[input_idx] = value;
+            prog.inp[input_idx].fill(value);
         }
     }
 
-- 
2.43.0


From e8ba0f0fb8c535c7648f37781aa2ca4b755d128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:35 +0000
Subject: [PATCH 13/35] fix: injected MIDI events were processed in reverse
 order

---
 src/nodes/node_exec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/node_exec.rs b/src/nodes/node_exec.rs
index eb9cbd8..d00a50c 100644
--- a/src/nodes/node_exec.rs
+++ b/src/nodes/node_exec.rs
@@ -342,7 +342,7 @@ impl NodeExecutor {
         self.exec_ctx.midi_ccs.clear();
 
         if self.injected_midi.len() > 0 {
-            for ev in self.injected_midi.iter().rev() {
+            for ev in self.injected_midi.iter() {
                 let ev = HxTimedEvent::new_timed(0, *ev);
                 if ev.is_cc() {
                     self.exec_ctx.midi_ccs.push(ev);
-- 
2.43.0


From 093cf0d8e7d90f99ad78d2c423251d8c26360538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:35 +0000
Subject: [PATCH 14/35] fix: EventWindowing crashed with events that are late

---
 src/nodes/midi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/midi.rs b/src/nodes/midi.rs
index eef2e10..5f03c28 100644
--- a/src/nodes/midi.rs
+++ b/src/nodes/midi.rs
@@ -93,7 +93,7 @@ impl EventWindowing {
     ) -> Option<HxTimedEvent> {
         if let Some(event) = self.event.take() {
             if event.timing < (to_time + block_size) {
-                return Some(HxTimedEvent { timing: event.timing - to_time, kind: event.kind });
+                return Some(HxTimedEvent { timing: event.timing.saturating_sub(to_time), kind: event.kind });
             } else {
                 self.event = Some(event);
             }
-- 
2.43.0


From fc135e1b7643c15c4c526a160811437dc1995c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:35 +0000
Subject: [PATCH 15/35] fix: retrieving log messages crashed with truncated
 messages

---
 src/log.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/log.rs b/src/log.rs
index 032631b..aa89bf9 100644
--- a/src/log.rs
+++ b/src/log.rs
@@ -63,8 +63,13 @@ impl LogReceiver {
 
             while let Some(byte) = consumer.pop() {
                 if oi >= buf.len() || byte == 0xFF {
-                    f(name, std::str::from_utf8(&buf[0..oi]).unwrap());
+                    f(name, &String::from_utf8_lossy(&buf[0..oi]));
                     oi = 0;
+
+                    if byte != 0xFF {
+                        buf[oi] = byte;
+                        oi += 1;
+                    }
                 } else {
                     buf[oi] = byte;
                     oi += 1;
-- 
2.43.0


From 35f5dbb41afd035cee7caf5115321afcb17f6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:53 +0000
Subject: [PATCH 16/35] fix: Mux9 crashed with an out of range input count
 setting

---
 src/dsp/node_mux9.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_mux9.rs b/src/dsp/node_mux9.rs
index f0c7e45..df87f4b 100644
--- a/src/dsp/node_mux9.rs
+++ b/src/dsp/node_mux9.rs
@@ -151,7 +151,7 @@ impl DspNode for Mux9 {
         let t_down = inp::Mux9::t_down(inputs);
         let out = out::Mux9::sig(outputs);
 
-        let max: u8 = at::Mux9::in_cnt(atoms).i() as u8 + 1;
+        let max: u8 = at::Mux9::in_cnt(atoms).i().clamp(0, 8) as u8 + 1;
         self.idx %= max;
 
         if nctx.in_connected & 0x1 == 0x1 {
-- 
2.43.0


From f329476f0dbef390516035f045e7f26314fa4864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:53 +0000
Subject: [PATCH 17/35] fix: Sampl declick underflowed when the playback passed
 the end of the sample

---
 src/dsp/node_sampl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/node_sampl.rs b/src/dsp/node_sampl.rs
index 0293add..380e17a 100644
--- a/src/dsp/node_sampl.rs
+++ b/src/dsp/node_sampl.rs
@@ -247,7 +247,7 @@ impl Sampl {
                     self.next_sample(sr_factor, playback_speed as f64, sample_slice, reverse);
 
                 if declick {
-                    let samples_to_end = sample_slice.len() - sample_idx;
+                    let samples_to_end = sample_slice.len().saturating_sub(sample_idx);
 
                     let ramp_atten_factor = if sample_idx < ramp_sample_count {
                         sample_idx as f64 * ramp_inc
-- 
2.43.0


From 9be010c739864f82e9208bcc07c269d8a5d5f804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:53 +0000
Subject: [PATCH 18/35] fix: Map and RndWk crashed with NaN on their limit
 inputs

---
 src/dsp/node_map.rs   | 3 ++-
 src/dsp/node_rndwk.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_map.rs b/src/dsp/node_map.rs
index 55db70a..3a37da1 100644
--- a/src/dsp/node_map.rs
+++ b/src/dsp/node_map.rs
@@ -144,7 +144,8 @@ impl DspNode for Map {
                 last_val = x;
                 let s = min + (max - min) * x;
 
-                out.write(frame, if min < max { s.clamp(min, max) } else { s.clamp(max, min) });
+                // f32::clamp() panics if the limits are NaN
+                out.write(frame, if min < max { s.max(min).min(max) } else { s.max(max).min(min) });
             }
         }
 
diff --git a/src/dsp/node_rndwk.rs b/src/dsp/node_rndwk.rs
index 2ec9425..22f5ae3 100644
--- a/src/dsp/node_rndwk.rs
+++ b/src/dsp/node_rndwk.rs
@@ -123,7 +123,8 @@ impl DspNode for RndWk {
 
                 // println!("{:8.6} {:8.6} {:8.6}", min, max, target);
                 // clamp target into a range we can reflect
-                target = target.clamp(min - (delta * 0.99), max + (delta * 0.99));
+                // (f32::clamp() would panic if the limits are NaN)
+                target = target.max(min - (delta * 0.99)).min(max + (delta * 0.99));
                 // reflect back the overshoots:
                 if target > max {
                     target = max - (max - target).abs();
-- 
2.43.0


From ac7176ef161934a6700d9a8cfdab578008aa5f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:15 +0000
Subject: [PATCH 19/35] fix: ExtA-ExtF did not pass the sample rate to their
 slew limiters

---
 src/dsp/node_ext.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dsp/node_ext.rs b/src/dsp/node_ext.rs
index 48dfadc..f6131a4 100644
--- a/src/dsp/node_ext.rs
+++ b/src/dsp/node_ext.rs
@@ -59,7 +59,11 @@ react to MIDI CC messages.
         }
 
         impl DspNode for $name {
-            fn set_sample_rate(&mut self, _srate: f32) {}
+            fn set_sample_rate(&mut self, srate: f32) {
+                self.slew1.set_sample_rate(srate);
+                self.slew2.set_sample_rate(srate);
+                self.slew3.set_sample_rate(srate);
+            }
             fn reset(&mut self) {}
 
             #[inline]
-- 
2.43.0


From 2a0769b2afad03a3455f8fe2e07e496c1bfcfdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:15 +0000
Subject: [PATCH 20/35] fix: ExtA-ExtF, TSeq and Code left stale data in their
 outputs

---
 src/dsp/node_code.rs | 3 +++
 src/dsp/node_ext.rs  | 4 ++++
 src/dsp/node_tseq.rs | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/src/dsp/node_code.rs b/src/dsp/node_code.rs
index a9d0f9c..2e0777c 100644
--- a/src/dsp/node_code.rs
+++ b/src/dsp/node_code.rs
@@ -149,6 +149,9 @@ impl DspNode for Code {
             let backend = if let Some(backend) = &mut self.backend {
                 backend
             } else {
+                sig.fill(0.0);
+                sig1.fill(0.0);
+                sig2.fill(0.0);
                 return;
             };
 
diff --git a/src/dsp/node_ext.rs b/src/dsp/node_ext.rs
index f6131a4..a94c8d7 100644
--- a/src/dsp/node_ext.rs
+++ b/src/dsp/node_ext.rs
@@ -108,6 +108,10 @@ react to MIDI CC messages.
                             denorm::$name::atv3(atv3, frame) * self.slew3.next(p3, slew_ms),
                         );
                     }
+                } else {
+                    sig1.fill(0.0);
+                    sig2.fill(0.0);
+                    sig3.fill(0.0);
                 }
 
                 let last_frame = ctx.nframes() - 1;
diff --git a/src/dsp/node_tseq.rs b/src/dsp/node_tseq.rs
index 5a2f3cd..a06c020 100644
--- a/src/dsp/node_tseq.rs
+++ b/src/dsp/node_tseq.rs
@@ -203,6 +203,9 @@ impl DspNode for TSeq {
         let backend = if let Some(backend) = &mut self.backend {
             backend
         } else {
+            for out in outputs.iter_mut() {
+                out.fill(0.0);
+            }
             return;
         };
 
-- 
2.43.0


From 7c42420008a45f9ee05a1742b6b6dfc550a50c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:08 +0000
Subject: [PATCH 21/35] fix: SFilter and SMap left stale data in their output
 with unknown settings

---
 src/dsp/node_sfilter.rs | 2 +-
 src/dsp/node_smap.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/node_sfilter.rs b/src/dsp/node_sfilter.rs
index c6ba6f4..cbf2d9c 100644
--- a/src/dsp/node_sfilter.rs
+++ b/src/dsp/node_sfilter.rs
@@ -392,7 +392,7 @@ impl DspNode for SFilter {
                     )
                 });
             }
-            _ => {}
+            _ => out.fill(0.0),
         }
 
         ctx_vals[0].set(out.read(ctx.nframes() - 1));
diff --git a/src/dsp/node_smap.rs b/src/dsp/node_smap.rs
index f33729a..1419f91 100644
--- a/src/dsp/node_smap.rs
+++ b/src/dsp/node_smap.rs
@@ -192,7 +192,7 @@ impl DspNode for SMap {
                     out.write(frame, min + (max - min) * s);
                 }
             }
-            _ => {}
+            _ => out.fill(0.0),
         }
 
         ctx_vals[0].set(last_val);
-- 
2.43.0


From e8b4974def910ec249a3faff905eb6909f7f23f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 22/35] fix: a rejected matrix change left the edges of the
 rejected layout recorded

---
 src/matrix.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matrix.rs b/src/matrix.rs
index 9bd7215..b30ebb2 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -671,6 +671,8 @@ impl Matrix {
     pub fn restore_matrix(&mut self) {
         if let Some(matrix) = self.saved_matrix.take() {
             self.matrix = matrix;
+            // A failed [Matrix::check] has recorded the edges of the rejected layout:
+            self.update_graph_ordering_and_edges();
         }
     }
 
-- 
2.43.0


From 461b037a5e8e49b7ff2794c0f038c966e7a5902a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 16:18:18 +0000
Subject: [PATCH 23/35] fix: patterns and block functions of the previous patch
 survived the loading of a patch without them

---
 src/dsp/tracker/pattern.rs |  7 +++++++
 src/global.rs              | 16 ++++++++++++++++
 src/matrix.rs              |  6 ++++++
 3 files changed, 29 insertions(+)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index d36e075..1a09428 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -108,6 +108,13 @@ impl PatternData {
         self.generation += 1;
     }
 
+    /// Resets this pattern to the state of a new one.
+    pub fn reset(&mut self) {
+        let generation = self.generation + 1;
+        *self = Self::new(MAX_PATTERN_LEN);
+        self.generation = generation;
+    }
+
     pub fn get_out_data(&self) -> &[[(f32, u8); MAX_PATTERN_LEN]] {
         &self.out_data
     }
diff --git a/src/global.rs b/src/global.rs
index fe5c76f..ae16693 100644
--- a/src/global.rs
+++ b/src/global.rs
@@ -190,6 +190,22 @@ impl NodeGlobalData {
         }
     }
 
+    /// Resets all patterns and block functions that are in use to their initial, empty state.
+    pub fn reset_patterns_and_block_functions(&mut self) {
+        for tracker in self.trackers.values() {
+            tracker.data().lock().unwrap().reset();
+        }
+
+        #[cfg(feature = "synfx-dsp-jit")]
+        for (_, block_fun) in self.block_functions.values() {
+            let mut block_fun = block_fun.lock().unwrap();
+            if !block_fun.is_unset() {
+                let empty = BlockFun::new(block_fun.block_language()).save_snapshot();
+                block_fun.load_snapshot(&empty);
+            }
+        }
+    }
+
     /// Checks the [CodeEngine] and block function for the id `id`. If the block function did change,
     /// updates are then sent to the audio thread.
     /// See also [NodeGlobalData::get_block_function].
diff --git a/src/matrix.rs b/src/matrix.rs
index b30ebb2..93d54a1 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -927,6 +927,12 @@ impl Matrix {
             self.place(cell.x as usize, cell.y as usize, cell);
         }
 
+        // The patterns and block functions of the previous patch must not
+        // remain where the new patch does not have any:
+        if let Ok(mut node_global) = self.config.get_node_global().lock() {
+            node_global.reset_patterns_and_block_functions();
+        }
+
         for (tracker_id, pat) in repr.patterns.iter().enumerate() {
             if let Some(pat) = pat {
                 if let Some(pd) = self.get_pattern_data(tracker_id) {
-- 
2.43.0


From 199ed461131436a7ee6b0f6b9b0eb435e54644cf Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 16:18:18 +0000
Subject: [PATCH 24/35] fix: shifting a port outside of a block panicked

---
 src/wblockdsp/language.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index 2efe7fe..b0c794a 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -120,6 +120,10 @@ impl Block {
             v.resize(self.rows, None);
         }
 
+        if idx >= v.len() {
+            return;
+        }
+
         let idx_from = idx;
         let idx_to = (idx + 1) % v.len();
         let elem = v.remove(idx_from);
-- 
2.43.0


From be2041c1c1ef1664b4d50998edf0fa55346a7674 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 16:18:18 +0000
Subject: [PATCH 25/35] fix: moving a block to an unknown area lost the block

---
 src/wblockdsp/language.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index b0c794a..a099567 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -1686,6 +1686,10 @@ impl BlockFun {
             return Err(BlockDSPError::CircularAction(id, id2));
         }
 
+        if id2 >= self.areas.len() {
+            return Err(BlockDSPError::UnknownArea(id2));
+        }
+
         let (block, xo, yo) = if let Some(area) = self.areas.get_mut(id) {
             area.remove_at(x, y).ok_or(BlockDSPError::NoBlockAt(id, x, y))?
         } else {
-- 
2.43.0


From b4e040865124f5483c622cb8040d7c88d0ef7ce2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 16:18:18 +0000
Subject: [PATCH 26/35] fix: loading a block function with bad area references
 or row counts panicked or hung

---
 src/wblockdsp/language.rs | 41 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index a099567..ad0b897 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -56,6 +56,9 @@ impl BlockIDGenerator {
     }
 }
 
+/// The maximum number of rows of a deserialized [Block].
+const MAX_BLOCK_ROWS: i64 = 256;
+
 /// This structure represents a block inside the [BlockArea] of a [BlockFun].
 /// It stores everything required for calculating a node of the AST.
 ///
@@ -244,7 +247,7 @@ impl Block {
 
         Ok(Box::new(Block {
             id: v["id"].as_i64().unwrap_or(0) as usize,
-            rows: v["rows"].as_i64().unwrap_or(0) as usize,
+            rows: v["rows"].as_i64().unwrap_or(0).clamp(0, MAX_BLOCK_ROWS) as usize,
             contains: (
                 if v["contains"][0].is_i64() {
                     Some(v["contains"][0].as_i64().unwrap_or(0) as usize)
@@ -1221,10 +1224,46 @@ impl BlockFun {
     pub fn load_snapshot(&mut self, repr: &BlockFunSnapshot) {
         self.areas = repr.areas.iter().cloned().collect();
         self.id_gen = BlockIDGenerator::new_with_id(repr.cur_id);
+        self.remove_invalid_sub_areas();
         self.recalculate_area_sizes();
         self.generation += 1;
     }
 
+    /// Loaded areas might refer to areas that do not exist, or contain each other.
+    /// This drops all such references and makes sure that there is a root area.
+    fn remove_invalid_sub_areas(&mut self) {
+        if self.areas.is_empty() {
+            self.areas.push(Box::new(BlockArea::new(16, 16)));
+        }
+
+        let mut seen = vec![false; self.areas.len()];
+        let mut work_list = vec![0];
+        seen[0] = true;
+
+        while let Some(area_idx) = work_list.pop() {
+            for block in self.areas[area_idx].blocks.values_mut() {
+                for sub_area in [&mut block.contains.0, &mut block.contains.1] {
+                    if let Some(id) = *sub_area {
+                        if seen.get(id) == Some(&false) {
+                            seen[id] = true;
+                            work_list.push(id);
+                        } else {
+                            *sub_area = None;
+                        }
+                    }
+                }
+            }
+        }
+
+        for (area, seen) in self.areas.iter_mut().zip(seen) {
+            if !seen {
+                for block in area.blocks.values_mut() {
+                    block.contains = (None, None);
+                }
+            }
+        }
+    }
+
     pub fn generate_tree<Node: BlockASTNode>(&self, null_typ: &str) -> Result<Node, BlockDSPError> {
         // This is a type for filling in unfilled outputs:
         let lang = self.language.borrow();
-- 
2.43.0


From f8f22d4dc83b41dffb628783efbc553135e82e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:40 +0000
Subject: [PATCH 27/35] fix: the parameters of a placed chain were set on
 another node instance

---
 src/chain_builder.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index 959618b..ce3c73d 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -251,6 +251,8 @@ impl MatrixCellChain {
 
         let mut pos = (at_x, at_y);
 
+        let mut params = vec![];
+
         for link in self.chain.iter() {
             let (x, y) = pos;
 
@@ -272,15 +274,18 @@ impl MatrixCellChain {
 
             matrix.place(x, y, cell);
 
+            // The parameters have to be set on the node instance that was placed:
+            for (pid, at) in link.params.iter() {
+                params.push((node_id.inp_param(pid.name()).unwrap_or(*pid), at.clone()));
+            }
+
             let offs = link.dir.as_offs(pos.0);
             pos.0 = (pos.0 as i32 + offs.0) as usize;
             pos.1 = (pos.1 as i32 + offs.1) as usize;
         }
 
-        for link in self.chain.iter() {
-            for (pid, at) in link.params.iter() {
-                matrix.set_param(*pid, at.clone());
-            }
+        for (pid, at) in params {
+            matrix.set_param(pid, at);
         }
 
         Ok(())
-- 
2.43.0


From 6df13dfeef266b352e80b232fc5cda4c36608a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:04 +0000
Subject: [PATCH 28/35] fix: the observer was not told about changed modulation
 amounts

---
 src/matrix.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 93d54a1..7fc09ce 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -1066,11 +1066,13 @@ impl Matrix {
         param: ParamId,
         modamt: Option<f32>,
     ) -> Result<(), MatrixError> {
-        if self.config.set_param_modamt(param.clone(), modamt) {
-            if let Some(obs) = &self.observer {
-                obs.update_param(&param);
-            }
+        let needs_sync = self.config.set_param_modamt(param.clone(), modamt);
+
+        if let Some(obs) = &self.observer {
+            obs.update_param(&param);
+        }
 
+        if needs_sync {
             // XXX: Remove the observer from the matrix, so the sync() does not
             //      generate a matrix graph update! There is no structural change!
             let obs = self.observer.take();
-- 
2.43.0


From 3de61852aa9a798cd56a3dee65e457d657479404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:20 +0000
Subject: [PATCH 29/35] fix: block functions with extreme block positions or
 sizes overflowed on load

---
 src/wblockdsp/language.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/wblockdsp/language.rs b/src/wblockdsp/language.rs
index ad0b897..0ec2b88 100644
--- a/src/wblockdsp/language.rs
+++ b/src/wblockdsp/language.rs
@@ -831,39 +831,43 @@ impl BlockArea {
         for ((ox, oy), _) in &self.origin_map {
             let (ox, oy) = ((*ox).max(0) as usize, (*oy).max(0) as usize);
 
-            if min_w < (ox + 1) {
-                min_w = ox + 1;
+            if min_w < ox.saturating_add(1) {
+                min_w = ox.saturating_add(1);
             }
-            if min_h < (oy + 1) {
-                min_h = oy + 1;
+            if min_h < oy.saturating_add(1) {
+                min_h = oy.saturating_add(1);
             }
         }
 
         for ((x, y), block) in &self.blocks {
             let (x, y) = ((*x).max(0) as usize, (*y).max(0) as usize);
 
-            let mut prev_h = 1; // one for the top block
+            let mut prev_h: usize = 1; // one for the top block
 
             if let Some(sub_area) = block.contains.0 {
                 let (sub_w, mut sub_h) = resolve_sub_areas(sub_area);
-                sub_h += prev_h;
-                prev_h += sub_h;
-                if min_w < (x + sub_w + 1) {
-                    min_w = x + sub_w + 1;
+                sub_h = sub_h.saturating_add(prev_h);
+                prev_h = prev_h.saturating_add(sub_h);
+                let need_w = x.saturating_add(sub_w).saturating_add(1);
+                if min_w < need_w {
+                    min_w = need_w;
                 }
-                if min_h < (y + sub_h + 1) {
-                    min_h = y + sub_h + 1;
+                let need_h = y.saturating_add(sub_h).saturating_add(1);
+                if min_h < need_h {
+                    min_h = need_h;
                 }
             }
 
             if let Some(sub_area) = block.contains.1 {
                 let (sub_w, mut sub_h) = resolve_sub_areas(sub_area);
-                sub_h += prev_h;
-                if min_w < (x + sub_w + 1) {
-                    min_w = x + sub_w + 1;
+                sub_h = sub_h.saturating_add(prev_h);
+                let need_w = x.saturating_add(sub_w).saturating_add(1);
+                if min_w < need_w {
+                    min_w = need_w;
                 }
-                if min_h < (y + sub_h + 1) {
-                    min_h = y + sub_h + 1;
+                let need_h = y.saturating_add(sub_h).saturating_add(1);
+                if min_h < need_h {
+                    min_h = need_h;
                 }
             }
         }
@@ -883,7 +887,7 @@ impl BlockArea {
 
         for ((ox, oy), block) in &self.blocks {
             for r in 0..block.rows {
-                self.origin_map.insert((*ox, *oy + (r as i64)), (*ox, *oy));
+                self.origin_map.insert((*ox, oy.saturating_add(r as i64)), (*ox, *oy));
             }
         }
     }
-- 
2.43.0


From de7a6a76208ca7fc7efa566df193be05735778ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:59 +0000
Subject: [PATCH 30/35] fix: UIPatternModel::change_value overflowed with large
 offsets

---
 src/dsp/tracker/pattern.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index 1a09428..e778ceb 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -246,7 +246,7 @@ impl PatternData {
 impl dyn UIPatternModel {
     pub fn change_value(&mut self, row: usize, col: usize, offs: i16) {
         let val = self.get_cell_value(row, col) as i16;
-        let val = (val + offs).max(0).min(0xfff);
+        let val = val.saturating_add(offs).max(0).min(0xfff);
         self.set_cell_value(row, col, val as u16);
     }
 }
-- 
2.43.0


From 215c69769d9ab6cf7efc81dbce411c67f94fc190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:59 +0000
Subject: [PATCH 31/35] fix: patterns with more rows than MAX_PATTERN_LEN
 crashed

---
 src/dsp/tracker/pattern.rs   | 2 +-
 src/dsp/tracker/sequencer.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dsp/tracker/pattern.rs b/src/dsp/tracker/pattern.rs
index e778ceb..121c761 100644
--- a/src/dsp/tracker/pattern.rs
+++ b/src/dsp/tracker/pattern.rs
@@ -31,7 +31,7 @@ impl PatternData {
             edit_step: 4,
             dirty_col: [true; MAX_COLS],
             generation: 0,
-            rows,
+            rows: rows.min(MAX_PATTERN_LEN),
         }
     }
 }
diff --git a/src/dsp/tracker/sequencer.rs b/src/dsp/tracker/sequencer.rs
index 6ea6a7e..5e91e72 100644
--- a/src/dsp/tracker/sequencer.rs
+++ b/src/dsp/tracker/sequencer.rs
@@ -35,7 +35,7 @@ const FRACT_16THS: [f32; 16] = [
 impl PatternSequencer {
     pub fn new_default_seed(rows: usize) -> Self {
         Self {
-            rows,
+            rows: rows.min(MAX_PATTERN_LEN),
             data: vec![vec![(0.0, 0); MAX_PATTERN_LEN]; MAX_COLS],
             rng: SplitMix64::new(0x91234),
             rand_vals: [(99999, 0.0); MAX_COLS],
@@ -49,7 +49,7 @@ impl PatternSequencer {
             Err(_) => 1_234_567_890,
         };
         Self {
-            rows,
+            rows: rows.min(MAX_PATTERN_LEN),
             data: vec![vec![(0.0, 0); MAX_PATTERN_LEN]; MAX_COLS],
             rng: SplitMix64::new_from_i64(seed),
             rand_vals: [(99999, 0.0); MAX_COLS],
@@ -57,7 +57,7 @@ impl PatternSequencer {
     }
 
     pub fn set_rows(&mut self, rows: usize) {
-        self.rows = rows;
+        self.rows = rows.min(MAX_PATTERN_LEN);
     }
 
     pub fn rows(&self) -> usize {
-- 
2.43.0


From 41139a6bf5a3e7d009f03a887f221640f7eea303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:33 +0000
Subject: [PATCH 32/35] fix: a chain with several nodes of the same kind could
 reuse a node instance of the matrix

---
 src/chain_builder.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/chain_builder.rs b/src/chain_builder.rs
index ce3c73d..b5e01c4 100644
--- a/src/chain_builder.rs
+++ b/src/chain_builder.rs
@@ -261,14 +261,13 @@ impl MatrixCellChain {
             let node_id = cell.node_id();
             let node_name = node_id.name();
 
-            let node_id = if let Some(i) = last_unused.get(node_name).cloned() {
-                last_unused.insert(node_name.to_string(), i + 1);
-                node_id.to_instance(i + 1)
-            } else {
-                let node_id = matrix.get_unused_instance_node_id(node_id);
-                last_unused.insert(node_name.to_string(), node_id.instance());
-                node_id
+            // Neither use the instances of previous links nor those used in the matrix:
+            let node_id = match last_unused.get(node_name).cloned() {
+                Some(i) => node_id.to_instance(i + 1),
+                None => node_id,
             };
+            let node_id = matrix.get_unused_instance_node_id(node_id);
+            last_unused.insert(node_name.to_string(), node_id.instance());
 
             cell.set_node_id_keep_ios(node_id);
 
-- 
2.43.0


From 501bdd1b612e5fd6a1f099140b6dd1247485e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 33/35] fix: the first sample written to a feedback buffer was
 never read

---
 src/shared_feedback.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/shared_feedback.rs b/src/shared_feedback.rs
index 4ee55d8..83ff6d3 100644
--- a/src/shared_feedback.rs
+++ b/src/shared_feedback.rs
@@ -58,11 +58,7 @@ pub struct SharedFeedbackWriter {
 impl SharedFeedbackWriter {
     pub fn new(sfb: &SharedFeedback) -> Self {
         let buffer = sfb.buffer.clone();
-        Self {
-            buffer,
-            delay_sample_count: sfb.delay_sample_count,
-            write_ptr: sfb.delay_sample_count,
-        }
+        Self { buffer, delay_sample_count: sfb.delay_sample_count, write_ptr: 0 }
     }
 
     /// Write the next sample in to the feedback buffer.
-- 
2.43.0


From d7ac5b6f02c9bc3d5c43181cd7b9995a70e234f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 34/35] fix: the settings of SMap were listed in another order
 than their indices

---
 src/dsp/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dsp/mod.rs b/src/dsp/mod.rs
index 18c4d7a..339bf37 100644
--- a/src/dsp/mod.rs
+++ b/src/dsp/mod.rs
@@ -1458,8 +1458,8 @@ macro_rules! node_list {
                (0 inp   n_id       d_id   r_id  f_def  stp_d -1.0, 1.0, 0.0)
                (1 min   n_id       d_id   r_s   f_def  stp_d -1.0, 1.0, -1.0)
                (2 max   n_id       d_id   r_s   f_def  stp_d -1.0, 1.0, 1.0)
-               {3 1 mode setting(0) mode fa_smap_mode 0  3}
-               {4 0 clip setting(0) mode fa_smap_clip 0  1}
+               {3 0 mode setting(0) mode fa_smap_mode 0  3}
+               {4 1 clip setting(0) mode fa_smap_clip 0  1}
                [0 sig],
             map => Map UIType::Generic UICategory::Ctrl
                (0 inp   n_id       d_id   r_id  f_def  stp_d -1.0, 1.0, 0.0)
-- 
2.43.0


From 3ec4af3cb68c08b07a7a3b43c23356253ac4d65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 35/35] fix: NodeInfo::in_name did not find the settings of a
 node

---
 src/dsp/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dsp/mod.rs b/src/dsp/mod.rs
index 339bf37..4cc4d16 100644
--- a/src/dsp/mod.rs
+++ b/src/dsp/mod.rs
@@ -2549,7 +2549,7 @@ macro_rules! make_node_info_enum {
                 if let Some(s) = self.inputs.get(in_idx) {
                     Some(*s)
                 } else {
-                    Some(*(self.atoms.get(in_idx)?))
+                    Some(*(self.atoms.get(in_idx - self.inputs.len())?))
                 }
             }
 
-- 
2.43.0

