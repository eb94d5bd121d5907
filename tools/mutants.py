N = "src/dsp/node_"
NP = "src/nodes/node_prog.rs"
NE = "src/nodes/node_exec.rs"
NC = "src/nodes/node_conf.rs"
MI = "src/nodes/midi.rs"
MX = "src/matrix.rs"
GO = "src/nodes/node_graph_ordering.rs"
CDR = "src/cell_dir.rs"
MR = "src/matrix_repr.rs"
PT = "src/dsp/tracker/pattern.rs"
GD = "src/global.rs"
WL = "src/wblockdsp/language.rs"
TM = "src/dsp/tracker/mod.rs"
TS = "src/dsp/tracker/sequencer.rs"
CH = "src/chain_builder.rs"
GL = "src/global.rs"
SFB = "src/shared_feedback.rs"
SHH = "src/scope_handle.rs"
SY = "src/synth_constructor.rs"
BU = "src/build.rs"
DM = "src/dsp/mod.rs"
M = [
 ("biq order unclamped", "P04", [(N + "biqfilt.rs", "order.i().clamp(0, self.cascade.len() as i64 - 1) as u8", "order.i() as u8")]),
 ("mux9 in_cnt", "P04", [(N + "mux9.rs", ".i().clamp(0, 8) as u8 + 1", ".i() as u8 + 1")]),
 ("sampl len check gone", "P04", [(N + "sampl.rs", "if sample_data.len() < 3 {", "if sample_data.len() > 300000000 {")]),
 ("sampl len<1 gone", "P04", [(N + "sampl.rs", "if sd_len < 1 {", "if sd_len > 999999999 {")]),
 ("sampl start unlimited", "P04", [(N + "sampl.rs", "((sd_len as f64 * cur_offs).floor() as usize).min(sd_len)", "(sd_len as f64 * cur_offs).floor() as usize"), (N + "sampl.rs", ".abs().min(0.999999)", ".abs()")]),
 ("sampl underflow", "P04", [(N + "sampl.rs", "sample_slice.len().saturating_sub(sample_idx)", "sample_slice.len() - sample_idx")]),
 ("map nan", "P04", [(N + "map.rs", "s.max(min).min(max)", "s.clamp(min, max)")]),
 ("tseq rows 0", "P04", [("src/dsp/tracker/mod.rs", "if self.seq.rows() == 0 {", "if self.seq.rows() == 99999 {")]),
 ("cqnt mask", "P04", [(N + "cqnt.rs", "& 0xFFF", "& 0xFFFF")]),
 ("vosc panic on dist", "P04", [(N + "vosc.rs", "let dist = dist.i() as u8;", "let dist = dist.i() as u8;\n        if dist > 77 { panic!(\"x\"); }")]),
 ("fb zero delay", "P04", [("src/shared_feedback.rs", "delay_sample_count.max(MAX_BLOCK_SIZE)", "delay_sample_count.min(MAX_BLOCK_SIZE)")]),
 ("P04 benign sampl min order", "", [(N + "sampl.rs", "((sd_len as f64 * cur_offs).floor() as usize).min(sd_len)", "sd_len.min((sd_len as f64 * cur_offs).floor() as usize)")]),
 ("P04 benign mux9 if", "", [(N + "mux9.rs", "let max: u8 = at::Mux9::in_cnt(atoms).i().clamp(0, 8) as u8 + 1;", "let cnt = at::Mux9::in_cnt(atoms).i();\n        let cnt = if cnt < 0 { 0 } else if cnt > 8 { 8 } else { cnt };\n        let max: u8 = cnt as u8 + 1;")]),
 ("P04 benign helper biq", "", [(N + "biqfilt.rs", "let mut order = order.i().clamp(0, self.cascade.len() as i64 - 1) as u8;", "let mut order = lim(order.i(), self.cascade.len());"), (N + "biqfilt.rs", None, "\nfn lim(o: i64, n: usize) -> u8 { o.max(0).min(n as i64 - 1) as u8 }\n")]),
 ("P04 benign tseq guard moved", "", [("src/dsp/tracker/mod.rs", "if self.seq.rows() == 0 {\n            return;\n        }", "let n = self.pattern_len();\n        if !(n > 0) {\n            return;\n        }")]),

 ("adsr skip frame", "P05", [(N + "amp.rs", "for frame in 0..ctx.nframes()", "for frame in 1..ctx.nframes()")]),
 ("sfilter default", "P05", [(N + "sfilter.rs", "_ => out.fill(0.0),", "_ => (),")]),
 ("tseq no backend", "P05", [(N + "tseq.rs", "out.fill(0.0);", "let _ = out;")]),
 ("out mono one channel", "P05", [(N + "out.rs", "ctx.output(1, frame, vol * in1.read(frame));", "")]),
 ("inp early return", "P05", [(N + "inp.rs", "for frame in 0..ctx.nframes() {", "if ctx.nframes() == 77 { return; }\n        for frame in 0..ctx.nframes() {")]),
 ("midip gate unwritten col", "P05", [(N + "tseq.rs", "out_g3.write_from(col_out_gate_slice);", "let _ = out_g3;")]),
 ("P05 benign while", "", [(N + "inp.rs", "for frame in 0..ctx.nframes() {", "let mut frame = 0;\n        while frame < ctx.nframes() {"), (N + "inp.rs", "sig2.write(frame, vol * ctx.input(1, frame));", "sig2.write(frame, vol * ctx.input(1, frame));\n            frame += 1;")]),
 ("P05 benign helper", "", [(N + "sfilter.rs", "_ => out.fill(0.0),", "_ => silence(out),"), (N + "sfilter.rs", None, "\nfn silence(b: &mut ProcBuf) { b.fill(0.0); }\n")]),
 ("P05 benign rev", "", [(N + "inp.rs", "for frame in 0..ctx.nframes() {", "for frame in (0..ctx.nframes()).rev() {")]),
 ("P05 benign for_each", "", [(N + "tseq.rs", "for out in outputs.iter_mut() {\n                out.fill(0.0);\n            }", "outputs.iter_mut().for_each(|o| o.fill(0.0));")]),
 ("P05 benign hoisted n", "", [(N + "inp.rs", "for frame in 0..ctx.nframes() {", "let n = ctx.nframes();\n        let frames = 0..n;\n        for frame in frames {")]),

 ("srate bosc", "P06", [(N + "bosc.rs", "self.israte = 1.0 / srate;", "self.israte = 1.0 / srate.max(44100.0);")]),
 ("srate biq cache", "P06", [(N + "biqfilt.rs", "self.otype = 99; // cause recalculation of the filter", "")]),
 ("srate fvafilt", "P06", [(N + "fvafilt.rs", "params.set_sample_rate(srate * 2.0);", "let _ = (params, srate);")]),
 ("srate midicc one missing", "P06", [(N + "ext.rs", "self.slew3.set_sample_rate(srate);", "")]),
 ("srate sampl literal", "P06", [(N + "sampl.rs", "sample_srate / self.srate", "sample_srate / 44100.0")]),
 ("srate exec smoothers", "P06", [("src/nodes/node_exec.rs", "sm.1.set_sample_rate(sample_rate);", "let _ = sm;")]),
 ("srate exec shared", "P06", [("src/nodes/node_exec.rs", "self.shared.sample_rate.set(sample_rate);", "")]),
 ("srate exec prog skip1", "P06", [("src/nodes/node_exec.rs", "for op in self.prog.prog.iter() {\n            op.node.set", "for op in self.prog.prog.iter().skip(1) {\n            op.node.set")]),
 ("srate create", "P06", [("src/nodes/node_conf.rs", "node.set_sample_rate(self.shared.sample_rate.get());", "")]),
 ("srate cell", "P06", [("src/nodes/node_conf.rs", "sample_rate: sample_rate.clone(),", "sample_rate: Arc::new(AtomicFloat::new(44100.0)),")]),
 ("srate code backend only if", "P06", [(N + "code.rs", "        if let Some(backend) = self.backend.as_mut() {\n            backend.set_sample_rate(srate);", "        if let (Some(backend), true) = (self.backend.as_mut(), srate > 44100.0) {\n            backend.set_sample_rate(srate);")]),
 ("srate scope ms", "P06", [(N + "scope.rs", "self.srate_ms = srate / 1000.0;", "let _ = srate;")]),
 ("srate smoother fixed", "P06", [("src/util.rs", "((sr * SMOOTHING_TIME_MS) / 1000.0)", "((44100.0 * SMOOTHING_TIME_MS + 0.0 * sr.signum()) / 1000.0)")]),
 ("srate rust1x1 late", "P06", [(N + "rust.rs", "self.buffer.access().set_sample_rate(self.srate);", "")]),
 ("P06 benign foreach", "", [("src/nodes/node_exec.rs", "for op in self.prog.prog.iter() {\n            op.node.set_sample_rate(sample_rate);\n        }", "self.prog.prog.iter().for_each(|op| op.node.set_sample_rate(sample_rate));")]),
 ("P06 benign index loop", "", [("src/nodes/node_exec.rs", "for sm in self.smoothers.iter_mut() {\n            sm.1.set_sample_rate(sample_rate);\n        }", "for i in 0..self.smoothers.len() {\n            self.smoothers[i].1.set_sample_rate(sample_rate);\n        }")]),
 ("P06 benign helper", "", [(N + "bosc.rs", "self.israte = 1.0 / srate;", "let inv = srate.recip();\n        self.israte = inv;")]),
 ("P06 benign array loop", "", [(N + "ext.rs", "self.slew1.set_sample_rate(srate);\n                self.slew2.set_sample_rate(srate);\n                self.slew3.set_sample_rate(srate);", "for s in [&mut self.slew1, &mut self.slew2, &mut self.slew3] {\n                    s.set_sample_rate(srate);\n                }")]),
 ("P06 benign create after", "", [("src/nodes/node_conf.rs", "            node.set_sample_rate(self.shared.sample_rate.get());\n\n            let index = self.nodes.len();", "            let index = self.nodes.len();\n            let rate = self.shared.sample_rate.get();\n            node.set_sample_rate(rate);")]),

 ("buf out leak", "P07", [(NP, "        for buf in self.out.iter_mut() {\n            buf.free();\n        }\n", "")]),
 ("buf modbuf leak", "P07", [(NP, "        self.modbuf.free();", "        if self.amount != 0.0 { self.modbuf.free(); }")]),
 ("buf cur_inp freed", "P07", [(NP, "        for buf in self.out.iter_mut() {\n            buf.free();", "        for buf in self.cur_inp.iter_mut() {\n            buf.free();")]),
 ("buf free in unlock", "P07", [(NP, "        for modop in self.modops.iter_mut() {\n            modop.unlock();", "        for modop in self.modops.iter_mut() {\n            modop.modbuf.free();\n            modop.unlock();")]),
 ("buf assign only if copy", "P07", [(NE, "                        self.prog.swap_previous_outputs(&mut prev_prog);\n                    }\n\n                    self.prog.assign_outputs();", "                        self.prog.swap_previous_outputs(&mut prev_prog);\n                        self.prog.assign_outputs();\n                    }\n")]),
 ("buf assign before swap", "P07", [(NE, "                    self.prog.assign_outputs();\n", ""), (NE, "                    if copy_old_out {", "                    self.prog.assign_outputs();\n                    if copy_old_out {")]),
 ("buf null check", "P07", [(NP, "        if inbuf.is_null() {\n            return;\n        }\n", "")]),
 ("buf inp clear", "P07", [(NP, "    pub fn unlock_buffers(&mut self) {", "    pub fn unlock_buffers(&mut self) {\n        self.inp.clear();")]),
 ("buf swap cur", "P07", [(NP, "prev_prog.inp.iter_mut().zip(self.inp.iter_mut())", "prev_prog.inp.iter_mut().zip(self.cur_inp.iter_mut())")]),
 ("buf copy elem", "P07", [(NP, "            std::mem::swap(old_inp_pb, new_inp_pb);", "            *new_inp_pb = *old_inp_pb;")]),
 ("buf frontend resets node", "P07", [("src/nodes/node_conf.rs", "            self.shared.node_ctx_values[idx * 2].get()", "            self.nodes[0].2.reset();\n            self.shared.node_ctx_values[idx * 2].get()")]),
 ("P07 benign foreach", "", [(NP, "        for buf in self.out.iter_mut() {\n            buf.free();\n        }\n", "        self.out.iter_mut().for_each(|b| b.free());\n")]),
 ("P07 benign helper", "", [(NP, "        for buf in self.inp.iter_mut() {\n            buf.free();\n        }\n\n        for buf in self.out.iter_mut() {\n            buf.free();\n        }\n", "        free_all(&mut self.inp);\n        free_all(&mut self.out);\n"), (NP, None, "\nfn free_all(b: &mut Vec<ProcBuf>) {\n    for i in 0..b.len() {\n        b[i].free();\n    }\n}\n")]),
 ("P07 benign chain", "", [(NP, "        for buf in self.inp.iter_mut() {\n            buf.free();\n        }\n\n        for buf in self.out.iter_mut() {\n            buf.free();\n        }\n", "        for buf in self.inp.iter_mut().chain(self.out.iter_mut()) {\n            buf.free();\n        }\n")]),
 ("P07 benign unlock always", "", [(NP, "        if self.locked_buffers {\n            self.unlock_buffers();\n        }\n", "        self.unlock_buffers();\n")]),
 ("P07 benign newprog helper", "", [(NE, "                        self.prog.swap_previous_outputs(&mut prev_prog);\n                    }\n\n                    self.prog.assign_outputs();", "                        self.prog.swap_previous_outputs(&mut prev_prog);\n                    }\n\n                    self.finish();"), (NE, "    pub fn no_logging(", "    fn finish(&mut self) { self.prog.assign_outputs(); }\n    pub fn no_logging(")]),
 ("P07 benign swap index", "", [(NP, "        for (old_inp_pb, new_inp_pb) in prev_prog.inp.iter_mut().zip(self.inp.iter_mut()) {\n            std::mem::swap(old_inp_pb, new_inp_pb);\n        }", "        let n = prev_prog.inp.len().min(self.inp.len());\n        for i in 0..n {\n            std::mem::swap(&mut prev_prog.inp[i], &mut self.inp[i]);\n        }")]),

 ("par no smoother free lost", "P08", [(NE, "            prog.params[input_idx] = value;\n            prog.inp[input_idx].fill(value);", "")]),
 ("par range off by one", "P08", [(NE, "if input_idx >= prog.params.len() {", "if input_idx + 1 >= prog.params.len() {")]),
 ("par skip equal", "P08", [(NE, "        if input_idx >= prog.params.len() {\n            return;\n        }", "        if input_idx >= prog.params.len() {\n            return;\n        }\n        if (prog.params[input_idx] - value).abs() < 0.0001 {\n            return;\n        }")]),
 ("par sm idx missing", "P08", [(NE, "            sm.0 = input_idx;\n", "")]),
 ("par newprog stop", "P08", [(NE, "                    self.prog.initialize_input_buffers();", "                    self.prog.initialize_input_buffers();\n                    for (_, s) in self.smoothers.iter_mut() { s.stop(); }")]),
 ("par newprog refresh clear", "P08", [(NE, "                    self.prog.initialize_input_buffers();", "                    self.prog.initialize_input_buffers();\n                    self.target_refresh.clear();")]),
 ("par newprog no init", "P08", [(NE, "                    self.prog.initialize_input_buffers();", "                    if !copy_old_out { self.prog.initialize_input_buffers(); }")]),
 ("par modamt changed only", "P08", [(NE, "        if mod_idx < self.prog.modops.len() {", "        if mod_idx < self.prog.modops.len() && modamt != 0.0 {")]),
 ("par params not kept", "P08", [(NE, "            prog.params[*idx] = last_v;\n", "")]),
 ("par refresh dropped", "P08", [(NE, "            self.target_refresh.push((*idx, last_v));\n", "")]),
 ("par smoother end", "P08", [("src/util.rs", "            self.done = true;\n\n            self.target", "            self.done = true;\n\n            self.value")]),
 ("par smoother early end", "P08", [("src/util.rs", "            self.count -= 1;\n            self.value", "            self.count -= 1;\n            self.done = self.count == 0;\n            if self.count == 0 { self.done = true; }\n            self.value")]),
 ("par conf active value", "P08", [(NC, "                nparam.value = value;\n\n", "")]),
 ("par conf registry only if active", "P08", [(NC, "            self.param_values.insert(param, at.f());\n\n            if let Some(nparam) = self.params.get_mut(&param) {\n", "            if let Some(nparam) = self.params.get_mut(&param) {\n            self.param_values.insert(param, at.f());\n")]),
 ("par conf clamp", "P08", [(NC, "self.param_values.insert(param, at.f());", "self.param_values.insert(param, at.f().clamp(-1.0, 1.0));")]),
 ("par conf send only changed", "P08", [(NC, "                nparam.value = at.clone();\n\n                let at_idx = nparam.at_idx;\n                let _ = self\n                    .shared\n                    .graph_update_prod\n                    .push(GraphMessage::AtomUpdate { at_idx, value: at });", "                let chg = nparam.value.i() != at.i();\n                nparam.value = at.clone();\n\n                let at_idx = nparam.at_idx;\n                if chg { let _ = self\n                    .shared\n                    .graph_update_prod\n                    .push(GraphMessage::AtomUpdate { at_idx, value: at }); }")]),
 ("par modamt none false", "P08", [(NC, "                self.param_modamt.insert(param, v);\n                true\n            } else {", "                self.param_modamt.insert(param, v);\n                false\n            } else {")]),
 ("par modamt else false", "P08", [(NC, "        } else {\n            self.param_modamt.insert(param, v);\n            true\n", "        } else {\n            self.param_modamt.insert(param, v);\n            mod_idx.is_none() && { false }\n")]),
 ("par modamt insert missing", "P08", [(NC, "                let modamt = v.unwrap();\n                self.param_modamt.insert(param, v);\n", "                let modamt = v.unwrap();\n")]),
 ("par upload no modamt", "P08", [(NC, "                prog.modops_mut()[mod_idx].set_amt(amt);", "                let _ = (mod_idx, amt);")]),
 ("par upload skip zero", "P08", [(NC, "            prog.params_mut()[param.input_idx] = param.value;", "            if param.value > 0.0 { prog.params_mut()[param.input_idx] = param.value; }")]),
 ("par rebuild default", "P08", [(NC, "                    let value = if let Some(atom) = self.atom_values.get(&param_id) {\n                        atom.clone()\n                    } else {\n                        param_id.as_atom_def()\n                    };", "                    let value = param_id.as_atom_def();")]),
 ("par matrix no sync", "P08", [("src/matrix.rs", "        if needs_sync {", "        if needs_sync && modamt.is_some() {")]),
 ("P08 benign find", "", [(NE, "        for (sm_inp_idx, smoother) in self.smoothers.iter_mut().filter(|s| !s.1.is_done()) {\n            if *sm_inp_idx == input_idx {\n                smoother.set(prog.params[input_idx], value);", "        for sm in self.smoothers.iter_mut() {\n            if sm.1.is_done() { continue; }\n            if sm.0 == input_idx {\n                let cur = prog.params[input_idx];\n                sm.1.set(cur, value);")]),
 ("P08 benign find2", "", [(NE, "        for (sm_inp_idx, smoother) in self.smoothers.iter_mut().filter(|s| !s.1.is_done()) {\n            if *sm_inp_idx == input_idx {\n                smoother.set(prog.params[input_idx], value);", "        if let Some(s) = self.smoothers.iter_mut().find(|s| !s.1.is_done() && s.0 == input_idx) {\n            {\n                s.1.set(prog.params[input_idx], value);")]),
 ("P08 benign in range nested", "", [(NE, "                    self.set_param(input_idx, value);", "                    if input_idx < self.prog.params.len() {\n                        self.set_param(input_idx, value);\n                    }")]),
 ("P08 benign modamt get", "", [(NE, "        if mod_idx < self.prog.modops.len() {\n            self.prog.modops[mod_idx].set_amt(modamt);\n        }", "        if let Some(m) = self.prog.modops.get_mut(mod_idx) {\n            m.set_amt(modamt);\n        }")]),
 ("P08 benign conf split", "", [(NC, "            self.param_values.insert(param, at.f());\n\n            if let Some(nparam) = self.params.get_mut(&param) {\n                let value = at.f();\n                nparam.value = value;", "            let value = at.f();\n            self.param_values.insert(param, value);\n\n            if let Some(nparam) = self.params.get_mut(&param) {\n                nparam.value = value;")]),
 ("P08 benign modamt match", "", [(NC, "            if v.is_none() {\n                self.param_modamt.insert(param, v);\n                true\n            } else {\n                let modamt = v.unwrap();\n                self.param_modamt.insert(param, v);\n", "            self.param_modamt.insert(param, v);\n            if v.is_none() {\n                true\n            } else {\n                let modamt = v.unwrap();\n")]),
 ("P08 benign modamt iflet", "", [(NC, "            if v.is_none() {\n                self.param_modamt.insert(param, v);\n                true\n            } else {\n                let modamt = v.unwrap();\n                self.param_modamt.insert(param, v);\n\n                if let Some(mod_idx) = mod_idx {\n                    let _ = self\n                        .shared\n                        .graph_update_prod\n                        .push(GraphMessage::ModamtUpdate { mod_idx, modamt });\n                }\n\n                false\n            }", "            self.param_modamt.insert(param, v);\n            match (v, mod_idx) {\n                (None, _) => true,\n                (Some(modamt), Some(mod_idx)) => {\n                    let _ = self\n                        .shared\n                        .graph_update_prod\n                        .push(GraphMessage::ModamtUpdate { mod_idx, modamt });\n                    false\n                }\n                _ => false,\n            }")]),
 ("P08 benign modamt bool", "", [(NC, "            if v.is_none() {\n                self.param_modamt.insert(param, v);\n                true\n            } else {\n                let modamt = v.unwrap();\n                self.param_modamt.insert(param, v);\n\n                if let Some(mod_idx) = mod_idx {\n                    let _ = self\n                        .shared\n                        .graph_update_prod\n                        .push(GraphMessage::ModamtUpdate { mod_idx, modamt });\n                }\n\n                false\n            }", "            self.param_modamt.insert(param, v);\n            let removed = v.is_none();\n            if let (Some(modamt), Some(mod_idx)) = (v, mod_idx) {\n                    let _ = self\n                        .shared\n                        .graph_update_prod\n                        .push(GraphMessage::ModamtUpdate { mod_idx, modamt });\n            }\n            removed")]),
 ("P08 benign rebuild unwrap_or", "", [(NC, "                    let value = if let Some(atom) = self.atom_values.get(&param_id) {\n                        atom.clone()\n                    } else {\n                        param_id.as_atom_def()\n                    };", "                    let value = self.atom_values.get(&param_id).cloned().unwrap_or_else(|| param_id.as_atom_def());")]),
 ("P08 benign upload values", "", [(NC, "        for (_param_id, param) in self.atoms.iter() {\n            prog.atoms_mut()[param.at_idx] = param.value.clone();\n        }", "        self.atoms.values().for_each(|p| prog.atoms_mut()[p.at_idx] = p.value.clone());")]),
 ("P08 benign matrix early", "", [("src/matrix.rs", "        if needs_sync {\n", "        if !needs_sync {\n            self.gen_counter += 1;\n            return Ok(());\n        }\n        if needs_sync {\n")]),
 ("P08 benign smoother next", "", [("src/util.rs", "        if self.count == 0 {\n            self.done = true;\n\n            self.target\n        } else {\n            self.value += self.inc;\n            self.count -= 1;\n            self.value\n        }", "        if self.count > 0 {\n            self.count -= 1;\n            self.value += self.inc;\n            return self.value;\n        }\n        self.done = true;\n        self.target")]),
 ("P08 benign process smoothers while", "", [(NE, "            for frame in 0..nframes {\n                let v = smoother.next();\n\n                inp.write(frame, v);\n                last_v = v;\n            }", "            let mut frame = 0;\n            while frame < nframes {\n                last_v = smoother.next();\n                inp.write(frame, last_v);\n                frame += 1;\n            }")]),

 ("midi clear missing", "P09", [(NE, "        self.exec_ctx.midi_ccs.clear();\n", "")]),
 ("midi clear cond", "P09", [(NE, "        self.exec_ctx.midi_notes.clear();\n", "        if self.prog.prog.len() > 0 { self.exec_ctx.midi_notes.clear(); }\n")]),
 ("midi cap before push", "P09", [(NE, "        while let Some(ev) = f() {\n", "        while let Some(ev) = f() {\n            if self.exec_ctx.midi_notes.len() == 100 { break; }\n")]),
 ("midi route", "P09", [(NE, "        while let Some(ev) = f() {\n            if ev.is_cc() {", "        while let Some(ev) = f() {\n            if !ev.is_cc() {")]),
 ("midi inj reverse", "P09", [(NE, "for ev in self.injected_midi.iter() {", "for ev in self.injected_midi.iter().rev() {")]),
 ("midi inj no clear", "P09", [(NE, "            self.injected_midi.clear();\n", "            if self.injected_midi.len() == MAX_INJ_MIDI_EVENTS { self.injected_midi.clear(); }\n")]),
 ("midi fwd only notes", "P09", [(NE, "                self.exec_ctx.midi_notes.push(ev);\n            }\n\n            let _ = self.shared.graph_event_prod.push(GraphEvent::MIDI(ev.kind()));", "                self.exec_ctx.midi_notes.push(ev);\n            }\n\n            if !ev.is_cc() { let _ = self.shared.graph_event_prod.push(GraphEvent::MIDI(ev.kind())); }")]),
 ("midi cursor lt", "P09", [(MI, "self.buf[self.idx].timing <= time", "self.buf[self.idx].timing < time")]),
 ("midi cursor skip late", "P09", [(MI, "            self.idx += 1;\n            Some", "            self.idx += 1;\n            if self.buf[self.idx - 1].timing < time { return None; }\n            Some")]),
 ("midi window le", "P09", [(MI, "event.timing < (to_time + block_size)", "event.timing <= (to_time + block_size)")]),
 ("midi window drop", "P09", [(MI, "            } else {\n                self.event = Some(event);\n            }", "            }")]),
 ("midi window abs", "P09", [(MI, "event.timing.saturating_sub(to_time)", "event.timing")]),
 ("midi node if let", "P09", [(N + "midip.rs", "while let Some(ev) = ptr.next_at(frame) {\n                match ev {", "let evs = [ptr.next_at(frame)];\n            for ev in evs.iter().flatten().copied() {\n                match ev {")]),
 ("midi cc if let", "P09", [(N + "midicc.rs", "            while let Some(ev) = ptr.next_at(frame) {", "            while let Some(ev) = ptr.next_at(frame) {\n                if change { break; }")]),
 ("midi note_off", "P09", [(MI, "HxMidiEvent::NoteOff { channel, note } }\n    }", "HxMidiEvent::NoteOff { channel: note, note: channel } }\n    }")]),
 ("midi iscc", "P09", [(MI, "if let HxMidiEvent::CC { .. } = self.kind {\n            true\n        } else {\n            false\n        }", "match self.kind { HxMidiEvent::CC { .. } | HxMidiEvent::NoteOff { .. } => true, _ => false }")]),
 ("P09 benign iscc matches", "", [(MI, "if let HxMidiEvent::CC { .. } = self.kind {\n            true\n        } else {\n            false\n        }", "matches!(self.kind, HxMidiEvent::CC { .. })")]),
 ("P09 benign iscc match", "", [(MI, "if let HxMidiEvent::CC { .. } = self.kind {\n            true\n        } else {\n            false\n        }", "match self.kind { HxMidiEvent::NoteOn { .. } => false, HxMidiEvent::NoteOff { .. } => false, HxMidiEvent::CC { .. } => true }")]),
 ("P09 benign helper", "", [(NE, "                if ev.is_cc() {\n                    self.exec_ctx.midi_ccs.push(ev);\n                } else {\n                    self.exec_ctx.midi_notes.push(ev);\n                }\n                let _", "                self.exec_ctx.add(ev);\n                let _"), (NE, "    fn clear(&mut self) {}", "    fn clear(&mut self) {}\n    fn add(&mut self, ev: HxTimedEvent) {\n        let list = if ev.is_cc() { &mut self.midi_ccs } else { &mut self.midi_notes };\n        list.push(ev);\n    }")]),
 ("P09 benign drain", "", [(NE, "            for ev in self.injected_midi.iter() {\n                let ev = HxTimedEvent::new_timed(0, *ev);", "            for ev in self.injected_midi.drain(..) {\n                let ev = HxTimedEvent::new_timed(0, ev);"), (NE, "            self.injected_midi.clear();\n", "")]),
 ("P09 benign foreach", "", [(NE, "        if self.injected_midi.len() > 0 {\n            for ev in self.injected_midi.iter() {\n                let ev = HxTimedEvent::new_timed(0, *ev);\n                if ev.is_cc() {\n                    self.exec_ctx.midi_ccs.push(ev);\n                } else {\n                    self.exec_ctx.midi_notes.push(ev);\n                }\n                let _ = self.shared.graph_event_prod.push(GraphEvent::MIDI(ev.kind()));\n            }\n\n            self.injected_midi.clear();\n        }", "        let (ec, sh) = (&mut self.exec_ctx, &mut self.shared);\n        self.injected_midi.iter().for_each(|ev| {\n                let ev = HxTimedEvent::new_timed(0, *ev);\n                if ev.is_cc() {\n                    ec.midi_ccs.push(ev);\n                } else {\n                    ec.midi_notes.push(ev);\n                }\n                let _ = sh.graph_event_prod.push(GraphEvent::MIDI(ev.kind()));\n            });\n\n            self.injected_midi.clear();")]),
 ("P09 benign loop", "", [(NE, "        while let Some(ev) = f() {\n", "        loop {\n            let ev = match f() { Some(ev) => ev, None => break };\n")]),
 ("P09 benign cursor", "", [(MI, "        if self.idx < self.buf.len() && self.buf[self.idx].timing <= time {\n            self.idx += 1;\n            Some(self.buf[self.idx - 1].kind)\n        } else {\n            None\n        }", "        match self.buf.get(self.idx) {\n            Some(ev) if time >= ev.timing => {\n                self.idx += 1;\n                Some(ev.kind)\n            }\n            _ => None,\n        }")]),
 ("P09 benign cursor early", "", [(MI, "        if self.idx < self.buf.len() && self.buf[self.idx].timing <= time {\n            self.idx += 1;\n            Some(self.buf[self.idx - 1].kind)\n        } else {\n            None\n        }", "        let ev = self.buf.get(self.idx)?;\n        if ev.timing > time {\n            return None;\n        }\n        self.idx += 1;\n        Some(ev.kind)")]),
 ("P09 benign window", "", [(MI, "        if let Some(event) = self.event.take() {\n            if event.timing < (to_time + block_size) {\n                return Some(HxTimedEvent { timing: event.timing.saturating_sub(to_time), kind: event.kind });\n            } else {\n                self.event = Some(event);\n            }\n        }\n\n        None", "        let event = self.event?;\n        let end = to_time + block_size;\n        if event.timing >= end {\n            return None;\n        }\n        self.event = None;\n        let timing = event.timing.saturating_sub(to_time);\n        Some(HxTimedEvent { timing, kind: event.kind })")]),
 ("P09 benign node loop", "", [(N + "midip.rs", "while let Some(ev) = ptr.next_at(frame) {", "loop {\n                let ev = match ptr.next_at(frame) { Some(ev) => ev, None => break };")]),

 ("mx no rebuild after restore", "P10", [(MX, "            // A failed [Matrix::check] has recorded the edges of the rejected layout:\n            self.update_graph_ordering_and_edges();\n", "")]),
 ("mx err no restore", "P10", [(MX, "        if let Err(e) = f(self) {\n            self.restore_matrix();\n            return Err(e);", "        if let Err(e) = f(self) {\n            return Err(e);")]),
 ("mx save only once", "P10", [(MX, "        let matrix = self.matrix.clone();\n        self.saved_matrix = Some(matrix);", "        if self.saved_matrix.is_none() {\n            let matrix = self.matrix.clone();\n            self.saved_matrix = Some(matrix);\n        }")]),
 ("mx save after f", "P10", [(MX, "        self.save_matrix();\n\n        f(self);", "        f(self);\n        self.save_matrix();")]),
 ("mx restore only cycles", "P10", [(MX, "        f(self);\n\n        if let Err(e) = self.check() {\n            self.restore_matrix();", "        f(self);\n\n        if let Err(e) = self.check() {\n            if e == MatrixError::CycleDetected { self.restore_matrix(); }")]),
 ("mx dup key", "P10", [(MX, "edge_map.get(&(edge.to, edge.to_input))", "edge_map.get(&(edge.from, edge.to_input))")]),
 ("mx dup same source ok", "P10", [(MX, "                return Err(MatrixError::DuplicatedInput {", "                if *out1_node_id == edge.from { continue; }\n                return Err(MatrixError::DuplicatedInput {")]),
 ("mx dup skip", "P10", [(MX, "        for edge in self.edges.iter() {\n            if let Some((out1", "        for edge in self.edges.iter().skip(1) {\n            if let Some((out1")]),
 ("mx check cached", "P10", [(MX, "    pub fn check(&mut self) -> Result<(), MatrixError> {\n        self.update_graph_ordering_and_edges();", "    pub fn check(&mut self) -> Result<(), MatrixError> {\n        if self.edges.is_empty() { self.update_graph_ordering_and_edges(); }")]),
 ("mx check empty shortcut", "P10", [(MX, "        let mut edge_map = std::collections::HashMap::new();", "        if self.edges.len() < 2 { return Ok(()); }\n        let mut edge_map = std::collections::HashMap::new();")]),
 ("mx multi same node ok", "P10", [(MX, "                if !existing.is_empty() {", "                if !existing.is_empty() && existing.node_id != cell.node_id {")]),
 ("mx multi skip range", "P10", [(MX, "                return Err(MatrixError::PosOutOfRange);", "                continue;")]),
 ("mx multi check ignored", "P10", [(MX, "        if let Err(e) = self.check() {\n            Err(e)\n        } else {\n            Ok(())\n        }", "        let _ = self.check();\n        Ok(())")]),
 ("P10 benign change map_err", "", [(MX, "        if let Err(e) = self.check() {\n            self.restore_matrix();\n            Err(e)\n        } else {\n            Ok(())\n        }\n    }\n\n    /// Like", "        self.check().map_err(|e| {\n            self.restore_matrix();\n            e\n        })\n    }\n\n    /// Like")]),
 ("P10 benign change is_err", "", [(MX, "        if let Err(e) = self.check() {\n            self.restore_matrix();\n            Err(e)\n        } else {\n            Ok(())\n        }\n    }\n\n    /// Like", "        let res = self.check();\n        if res.is_err() {\n            self.restore_matrix();\n        }\n        res\n    }\n\n    /// Like")]),
 ("P10 benign change and_then", "", [(MX, "        if let Err(e) = f(self) {\n            self.restore_matrix();\n            return Err(e);\n        }\n\n        if let Err(e) = self.check() {\n            self.restore_matrix();\n            Err(e)\n        } else {\n            Ok(())\n        }", "        let res = f(self).and_then(|_| self.check());\n        if res.is_err() {\n            self.restore_matrix();\n        }\n        res")]),
 ("P10 benign change match", "", [(MX, "        if let Err(e) = f(self) {\n            self.restore_matrix();\n            return Err(e);\n        }\n\n        if let Err(e) = self.check() {\n            self.restore_matrix();\n            Err(e)\n        } else {\n            Ok(())\n        }", "        let res = match f(self) {\n            Ok(()) => self.check(),\n            Err(e) => Err(e),\n        };\n        match res {\n            Ok(()) => Ok(()),\n            Err(e) => {\n                self.restore_matrix();\n                Err(e)\n            }\n        }")]),
 ("P10 benign helper", "", [(MX, "        if let Err(e) = self.check() {\n            self.restore_matrix();\n            Err(e)\n        } else {\n            Ok(())\n        }\n    }\n\n    /// Like", "        self.check_or_restore()\n    }\n\n    fn check_or_restore(&mut self) -> Result<(), MatrixError> {\n        let r = self.check();\n        if let Err(e) = r { self.restore_matrix(); return Err(e); }\n        Ok(())\n    }\n\n    /// Like")]),
 ("P10 benign set", "", [(MX, "            if let Some((out1_node_id, out1_idx)) = edge_map.get(&(edge.to, edge.to_input)) {\n                return Err(MatrixError::DuplicatedInput {\n                    output1: (*out1_node_id, *out1_idx),\n                    output2: (edge.from, edge.from_out),\n                });\n            } else {\n                edge_map.insert((edge.to, edge.to_input), (edge.from, edge.from_out));\n            }", "            let out = (edge.from, edge.from_out);\n            if let Some(output1) = edge_map.insert((edge.to, edge.to_input), out) {\n                return Err(MatrixError::DuplicatedInput { output1, output2: out });\n            }")]),
 ("P10 benign question", "", [(MX, "        if let Err(e) = self.check() {\n            Err(e)\n        } else {\n            Ok(())\n        }\n    }\n\n    /// Inserts", "        self.check()?;\n        Ok(())\n    }\n\n    /// Inserts")]),
 ("P10 benign multi order", "", [(MX, "            if let Some(existing) = self.get(x, y) {\n                if !existing.is_empty() {\n                    return Err(MatrixError::NonEmptyCell { cell: *existing });\n                }\n\n                self.place(x, y, *cell);\n            } else {\n                return Err(MatrixError::PosOutOfRange);\n            }", "            match self.get(x, y).copied() {\n                None => return Err(MatrixError::PosOutOfRange),\n                Some(existing) if !existing.is_empty() => {\n                    return Err(MatrixError::NonEmptyCell { cell: existing });\n                }\n                Some(_) => self.place(x, y, *cell),\n            }")]),
 ("P10 benign multi ok_or", "", [(MX, "            if let Some(existing) = self.get(x, y) {\n                if !existing.is_empty() {\n                    return Err(MatrixError::NonEmptyCell { cell: *existing });\n                }\n\n                self.place(x, y, *cell);\n            } else {\n                return Err(MatrixError::PosOutOfRange);\n            }", "            let existing = *self.get(x, y).ok_or(MatrixError::PosOutOfRange)?;\n            if existing.is_empty() {\n                self.place(x, y, *cell);\n            } else {\n                return Err(MatrixError::NonEmptyCell { cell: existing });\n            }")]),

 ("g sync upload anyway", "P11", [(MX, "        let prog = self.build_prog()?;\n\n        self.config.upload_prog(prog, true);", "        let prog = match self.build_prog() { Ok(p) => p, Err(_) => self.config.rebuild_node_ports() };\n\n        self.config.upload_prog(prog, true);")]),
 ("g sync swallow", "P11", [(MX, "        let prog = self.build_prog()?;\n", "        let prog = match self.build_prog() { Ok(p) => p, Err(_) => return Ok(()) };\n")]),
 ("g sync stale edges", "P11", [(MX, "        self.create_intermediate_nodes();\n\n        self.update_graph_ordering_and_edges();", "        self.create_intermediate_nodes();\n\n        if self.saved_matrix.is_none() { self.update_graph_ordering_and_edges(); }")]),
 ("g in2 from BL", "P11", [(MX, "let in2_output = self.get_adjacent_output(x, y, CellDir::TL);", "let in2_output = self.get_adjacent_output(x, y, CellDir::BL);")]),
 ("g edge in3 idx", "P11", [(MX, "                            to_input: in3_idx,", "                            to_input: cell.in1.unwrap_or(in3_idx),")]),
 ("g edge no order", "P11", [(MX, "                        self.graph_ordering.add_edge(in3_output.0, cell.node_id);", "")]),
 ("g edge order swapped", "P11", [(MX, "                        self.graph_ordering.add_edge(in2_output.0, cell.node_id);", "                        self.graph_ordering.add_edge(cell.node_id, in2_output.0);")]),
 ("g edge self skip", "P11", [(MX, "                    (Some(in1_idx), Some(in1_output)) => {", "                    (Some(in1_idx), Some(in1_output)) if in1_output.1 < 3 => {")]),
 ("g assigned not cleared", "P11", [(MX, "        self.edges.clear();\n        self.assigned_inputs.clear();\n\n        for x in 0..self.w", "        self.edges.clear();\n\n        for x in 0..self.w")]),
 ("g range short", "P11", [(MX, "        self.edges.clear();\n        self.assigned_inputs.clear();\n\n        for x in 0..self.w {", "        self.edges.clear();\n        self.assigned_inputs.clear();\n\n        for x in 1..self.w {")]),
 ("g visit rows", "P11", [(MX, "        self.assigned_inputs.clear();\n\n        for x in 0..self.w {\n            for y in 0..self.h {", "        self.assigned_inputs.clear();\n\n        for y in 0..self.h {\n            for x in 0..self.w {")]),
 ("g prog nodes skip", "P11", [(MX, "for node_id in ordered_nodes.iter() {\n            self.config.add_prog_node", "for node_id in ordered_nodes.iter().take(128) {\n            self.config.add_prog_node")]),
 ("g prog nodes rev", "P11", [(MX, "for node_id in ordered_nodes.iter() {\n            self.config.add_prog_node", "for node_id in ordered_nodes.iter().rev() {\n            self.config.add_prog_node")]),
 ("g conn roles", "P11", [(MX, "                (edge.to, edge.to_input),\n                (edge.from, edge.from_out),\n            );", "                (edge.to, edge.from_out),\n                (edge.from, edge.to_input),\n            );")]),
 ("g ord success le", "P11", [(GO, "if visited_count != self.node_count {", "if visited_count > self.node_count {")]),
 ("g ord empty ok", "P11", [(GO, "        if visited_count != self.node_count {", "        if visited_count == 0 { return true; }\n        if visited_count != self.node_count {")]),
 ("g ord indeg le1", "P11", [(GO, "                if self.in_degree[*neigh_node_idx] == 0 {", "                if self.in_degree[*neigh_node_idx] <= 1 {")]),
 ("g ord no reset", "P11", [(GO, "        for indeg in self.in_degree.iter_mut() {\n            *indeg = 0;\n        }\n", "        for indeg in self.in_degree.iter_mut().take(256) {\n            *indeg = 0;\n        }\n")]),
 ("g ord dup edge", "P11", [(GO, "                self.in_degree[*out_node_idx] += 1;", "                if *out_node_idx > 0 { self.in_degree[*out_node_idx] += 1; }")]),
 ("g ord edges take 8", "P11", [(GO, "            for out_node_idx in node.edges.iter().take(node.unused_idx) {\n                self.in_degree", "            for out_node_idx in node.edges.iter().take(8) {\n                self.in_degree")]),
 ("g ord add no clear", "P11", [(GO, "            self.nodes[idx].clear();\n", "")]),
 ("g ord edge self", "P11", [(GO, "        let to_idx = self.add_node(to_node_id);\n", "        let to_idx = self.add_node(to_node_id);\n        if from_node_id == to_node_id { return; }\n")]),
 ("g ord clear keep", "P11", [(GO, "        self.node2idx.clear();\n        self.node_count = 0;", "        self.node_count = 0;")]),
 ("g conn mod", "P11", [(NC, "let mod_index = node_instance.mod_in_local2global(node_input.1);", "let mod_index = node_instance.mod_in_local2global(adjacent_output.1);")]),
 ("g conn in/out", "P11", [(NC, "let input_index = node_instance.in_local2global(node_input.1);", "let input_index = node_instance.out_local2global(node_input.1);")]),
 ("g append tuple", "P11", [(NP, "n_op.inputs.push((out_index, inp_index, mod_index));", "n_op.inputs.push((inp_index, out_index, mod_index));")]),
 ("g append once", "P11", [(NP, "                n_op.inputs.push((out_index, inp_index, mod_index));", "                if n_op.inputs.len() < 16 { n_op.inputs.push((out_index, inp_index, mod_index)); }")]),
 ("g flag range", "P11", [(NP, "        let local_idx = global_idx - self.out_idxlen.0;", "        let local_idx = global_idx - self.in_idxlen.0;")]),
 ("g flag overwrite", "P11", [(NP, "self.in_connected |= 0x1 << local_idx;", "self.in_connected = 0x1 << local_idx;")]),
 ("g port le", "P11", [(NC, "        let idx = self.out_start + idx as usize;\n        if idx < self.out_end {", "        let idx = self.out_start + idx as usize;\n        if idx <= self.out_end {")]),
 ("g port at range", "P11", [(NC, "at_idxlen: (self.at_start, self.at_end),", "at_idxlen: (self.at_start, self.in_end),")]),
 ("g rebuild order", "P11", [(NC, "            let out_idx = out_len;\n            out_len += node_info.out_count();", "            out_len += node_info.out_count();\n            let out_idx = out_len;")]),
 ("g rebuild count", "P11", [(NC, "at_len += node_info.at_count();", "at_len += node_info.in_count();")]),
 ("g rebuild args", "P11", [(NC, "NodeProg::new(out_len, in_len, at_len, mod_len)", "NodeProg::new(in_len, out_len, at_len, mod_len)")]),
 ("g set_atom", "P11", [(NC, "        self.at_start = s;\n        self.at_end = e;", "        self.at_start = s;\n        self.at_end = s + e;")]),
 ("P11 benign table", "", [(MX, "                let in1_output = self.get_adjacent_output(x, y, CellDir::T);\n                let in2_output = self.get_adjacent_output(x, y, CellDir::TL);\n                let in3_output = self.get_adjacent_output(x, y, CellDir::BL);\n\n                match (cell.in1, in1_output) {\n                    (Some(in1_idx), Some(in1_output)) => {\n                        self.edges.push(Edge {\n                            to: cell.node_id,\n                            to_input: in1_idx,\n                            from: in1_output.0,\n                            from_out: in1_output.1,\n                        });\n                        self.graph_ordering.add_edge(in1_output.0, cell.node_id);\n                    }\n                    _ => {}\n                }\n\n                match (cell.in2, in2_output) {\n                    (Some(in2_idx), Some(in2_output)) => {\n                        self.edges.push(Edge {\n                            to: cell.node_id,\n                            to_input: in2_idx,\n                            from: in2_output.0,\n                            from_out: in2_output.1,\n                        });\n                        self.graph_ordering.add_edge(in2_output.0, cell.node_id);\n                    }\n                    _ => {}\n                }\n\n                match (cell.in3, in3_output) {\n                    (Some(in3_idx), Some(in3_output)) => {\n                        self.edges.push(Edge {\n                            to: cell.node_id,\n                            to_input: in3_idx,\n                            from: in3_output.0,\n                            from_out: in3_output.1,\n                        });\n                        self.graph_ordering.add_edge(in3_output.0, cell.node_id);\n                    }\n                    _ => {}\n                }\n", "                for (port, dir) in [(cell.in1, CellDir::T), (cell.in2, CellDir::TL), (cell.in3, CellDir::BL)] {\n                    let out = self.get_adjacent_output(x, y, dir);\n                    if let (Some(to_input), Some((from, from_out))) = (port, out) {\n                        self.edges.push(Edge { to: cell.node_id, to_input, from, from_out });\n                        self.graph_ordering.add_edge(from, cell.node_id);\n                    }\n                }\n")]),
 ("P11 benign helper edge", "", [(MX, "                match (cell.in1, in1_output) {\n                    (Some(in1_idx), Some(in1_output)) => {\n                        self.edges.push(Edge {\n                            to: cell.node_id,\n                            to_input: in1_idx,\n                            from: in1_output.0,\n                            from_out: in1_output.1,\n                        });\n                        self.graph_ordering.add_edge(in1_output.0, cell.node_id);\n                    }\n                    _ => {}\n                }\n", "                self.add_in_edge(&cell, cell.in1, in1_output);\n"), (MX, "    fn update_graph_ordering_and_edges(&mut self) {", "    fn add_in_edge(&mut self, cell: &Cell, inp: Option<u8>, out: Option<(NodeId, u8)>) {\n        let (to_input, (from, from_out)) = match (inp, out) {\n            (Some(a), Some(b)) => (a, b),\n            _ => return,\n        };\n        self.edges.push(Edge { to: cell.node_id, to_input, from, from_out });\n        self.graph_ordering.add_edge(from, cell.node_id);\n    }\n\n    fn update_graph_ordering_and_edges(&mut self) {")]),
 ("P11 benign prog foreach", "", [(MX, "        for node_id in ordered_nodes.iter() {\n            self.config.add_prog_node(&mut prog, node_id);\n        }\n\n        for edge in self.edges.iter() {\n            self.config.set_prog_node_exec_connection(\n                &mut prog,\n                (edge.to, edge.to_input),\n                (edge.from, edge.from_out),\n            );\n        }", "        ordered_nodes.iter().for_each(|n| self.config.add_prog_node(&mut prog, n));\n\n        for i in 0..self.edges.len() {\n            let edge = self.edges[i];\n            let to = (edge.to, edge.to_input);\n            let from = (edge.from, edge.from_out);\n            self.config.set_prog_node_exec_connection(&mut prog, to, from);\n        }")]),
 ("P11 benign build inline", "", [(MX, "        let mut ordered_nodes = vec![];\n        if !self.graph_ordering.calculate_order(&mut ordered_nodes) {\n            return Err(MatrixError::CycleDetected);\n        }\n\n        let mut prog", "        let ordered_nodes = self.ordered()?;\n        let mut prog"), (MX, "    fn build_prog(&mut self)", "    fn ordered(&mut self) -> Result<Vec<NodeId>, MatrixError> {\n        let mut out = vec![];\n        if self.graph_ordering.calculate_order(&mut out) { Ok(out) } else { Err(MatrixError::CycleDetected) }\n    }\n\n    fn build_prog(&mut self)")]),
 ("P11 benign ord result", "", [(GO, "        if visited_count != self.node_count {\n            out.clear();\n            false\n        } else {\n            true\n        }", "        let ok = visited_count == self.node_count;\n        if !ok {\n            out.clear();\n        }\n        ok")]),
 ("P11 benign ord fill", "", [(GO, "        for indeg in self.in_degree.iter_mut() {\n            *indeg = 0;\n        }\n", "        self.in_degree.fill(0);\n")]),
 ("P11 benign ord slice", "", [(GO, "            for out_node_idx in node.edges.iter().take(node.unused_idx) {\n                self.in_degree[*out_node_idx] += 1;\n            }", "            for out_node_idx in &node.edges[..node.unused_idx] {\n                self.in_degree[*out_node_idx] += 1;\n            }")]),
 ("P11 benign ord deg", "", [(GO, "                self.in_degree[*neigh_node_idx] -= 1;\n\n                // we know when that node has been fully supplied with all it's inputs,\n                // so we push it to the end of the dequeue to be executed then:\n                if self.in_degree[*neigh_node_idx] == 0 {", "                let deg = &mut self.in_degree[*neigh_node_idx];\n                *deg -= 1;\n                if *deg == 0 {")]),
 ("P11 benign rebuild order", "", [(NC, "            let out_idx = out_len;\n            out_len += node_info.out_count();\n\n            // - calculate size of input vector.\n            let in_idx = in_len;\n            in_len += node_info.in_count();", "            let (out_idx, in_idx) = (out_len, in_len);\n            in_len += node_info.in_count();\n            out_len += node_info.out_count();")]),
 ("P11 benign port then", "", [(NC, "        let idx = self.out_start + idx as usize;\n        if idx < self.out_end {\n            Some(idx)\n        } else {\n            None\n        }", "        let idx = self.out_start + idx as usize;\n        if idx >= self.out_end {\n            return None;\n        }\n        Some(idx)")]),
 ("P11 benign conn order", "", [(NC, "        let output_index =\n            if let Some((_, Some(node_instance), _)) = self.node_by_id(&adjacent_output.0) {\n                node_instance.out_local2global(adjacent_output.1)\n            } else {\n                return;\n            };\n", "        let (from_id, from_port) = adjacent_output;\n        let output_index = match self.node_by_id(&from_id) {\n            Some((_, Some(inst), _)) => inst.out_local2global(from_port),\n            _ => return,\n        };\n")]),
 ("P11 benign append any", "", [(NP, "        for n_op in self.prog.iter_mut() {\n            if n_op.idx == node_op.idx {\n                return;\n            }\n        }\n\n        node_op", "        if self.prog.iter().any(|o| o.idx == node_op.idx) {\n            return;\n        }\n\n        node_op")]),

 ("l clear props", "P12", [(MX, "        self.saved_matrix = None;\n        self.properties.clear();\n", "        self.saved_matrix = None;\n")]),
 ("l clear atoms", "P12", [(NC, "        self.atoms.clear();\n        self.atom_values.clear();\n", "        self.atoms.clear();\n")]),
 ("l clear modamt", "P12", [(NC, "        self.param_modamt.clear();\n", "")]),
 ("l clear msg", "P12", [(NC, "        let _ = self.shared.graph_update_prod.push(GraphMessage::Clear { prog: NodeProg::empty() });\n    }", "        if !self.nodes.is_empty() {\n            let _ = self.shared.graph_update_prod.push(GraphMessage::Clear { prog: NodeProg::empty() });\n        }\n    }")]),
 ("l clear grid after", "P12", [(MX, "        for cell in self.matrix.iter_mut() {\n            *cell = Cell::empty(NodeId::Nop);\n        }\n\n        self.graph_ordering.clear();", "        self.graph_ordering.clear();"), (MX, "        let _ = self.sync();\n\n        if let Some(obs)", "        let _ = self.sync();\n        for cell in self.matrix.iter_mut() {\n            *cell = Cell::empty(NodeId::Nop);\n        }\n\n        if let Some(obs)")]),
 ("l clear keep occupied", "P12", [(MX, "            *cell = Cell::empty(NodeId::Nop);\n        }", "            if cell.in1.is_none() || cell.x > 0 { *cell = Cell::empty(NodeId::Nop); }\n        }")]),
 ("l load noclear", "P12", [(MX, "        self.clear();\n\n        let normalize", "        if !repr.cells.is_empty() { self.clear(); }\n\n        let normalize")]),
 ("l load version", "P12", [(MX, "repr.version > 1;", "repr.version > 2;")]),
 ("l load swallow", "P12", [(MX, "        let ret = self.sync();\n\n        if let Some(obs) = &self.observer {\n            obs.update_all();\n        }\n\n        ret", "        let _ = self.sync();\n\n        if let Some(obs) = &self.observer {\n            obs.update_all();\n        }\n\n        Ok(())")]),
 ("l load xy", "P12", [(MX, "self.place(cell.x as usize, cell.y as usize, cell);\n        }\n", "self.place(cell.y as usize, cell.x as usize, cell);\n        }\n")]),
 ("l load skip0", "P12", [(MX, "for (tracker_id, pat) in repr.patterns.iter().enumerate() {", "for (tracker_id, pat) in repr.patterns.iter().enumerate().take(64) {")]),
 ("l load bf index", "P12", [(MX, "self.get_block_function(bf_id) {\n                    bf.lock", "self.get_block_function(bf_id + 1) {\n                    bf.lock")]),
 ("l load modamt", "P12", [(NC, "            self.set_param_modamt(*param_id, *modamt);\n", "            if modamt.is_some() && *modamt != Some(0.0) { self.set_param_modamt(*param_id, *modamt); }\n")]),
 ("l load norm inv", "P12", [(NC, "let val = if normalize_params { param_id.norm(*val) } else { *val };", "let val = if !normalize_params { param_id.norm(*val) } else { *val };")]),
 ("l load atoms skip", "P12", [(NC, "for (param_id, val) in atoms.iter() {", "for (param_id, val) in atoms.iter().skip(1) {")]),
 ("l cell out3", "P12", [(MX, "            out3: if repr.out[2] < 0 { None } else { Some(repr.out[2] as u8) },", "            out3: if repr.out[2] < 0 { None } else { Some(repr.out[1] as u8) },")]),
 ("l nosurvive", "P12", [(MX, "            node_global.reset_patterns_and_block_functions();\n", "")]),
 ("l load after sync", "P12", [(MX, "        for cell_repr in repr.cells.iter() {\n            let cell = Cell::from_repr(cell_repr);\n            self.place(cell.x as usize, cell.y as usize, cell);\n        }\n", ""), (MX, "        let ret = self.sync();\n\n        if let Some(obs) = &self.observer {\n            obs.update_all();", "        let ret = self.sync();\n        for cell_repr in repr.cells.iter() {\n            let cell = Cell::from_repr(cell_repr);\n            self.place(cell.x as usize, cell.y as usize, cell);\n        }\n\n        if let Some(obs) = &self.observer {\n            obs.update_all();")]),
 ("o param nonotify", "P24", [(MX, "        self.config.set_param(param.clone(), at);\n        self.gen_counter += 1;\n        if let Some(obs)", "        let was = self.config.get_param(&param).is_some();\n        self.config.set_param(param.clone(), at);\n        self.gen_counter += 1;\n        if !was { return; }\n        if let Some(obs)")]),
 ("o gen reset", "P24", [(MX, "        self.gen_counter += 1;\n\n        // Refresh the input/outputs", "        self.gen_counter = 1;\n\n        // Refresh the input/outputs")]),
 ("o modamt nogen", "P24", [(MX, "        } else {\n            self.gen_counter += 1;\n            Ok(())\n        }", "        } else {\n            Ok(())\n        }")]),
 ("o modamt lost obs", "P24", [(MX, "            let ret = self.sync();\n            self.observer = obs;\n            ret", "            self.sync()?;\n            self.observer = obs;\n            Ok(())")]),
 ("o sync nonotify", "P24", [(MX, "        if let Some(obs) = &self.observer {\n            obs.update_matrix();\n        }\n", "        if self.edges.len() > 0 {\n        if let Some(obs) = &self.observer {\n            obs.update_matrix();\n        }\n        }\n")]),
 ("o clear nonotify", "P24", [(MX, "        let _ = self.sync();\n\n        if let Some(obs) = &self.observer {\n            obs.update_all();\n        }", "        if self.sync().is_err() { return; }\n\n        if self.gen_counter & 1 == 0 { if let Some(obs) = &self.observer {\n            obs.update_all();\n        } }")]),
 ("o monitor ports", "P24", [(MX, "let outputs = [cell.out1, cell.out2, cell.out3];", "let outputs = [cell.out1, cell.out3, cell.out2];")]),
 ("o prop nogen", "P24", [(MX, "        self.gen_counter += 1;\n        self.properties.insert(key.to_string(), val);", "        if self.properties.insert(key.to_string(), val).is_none() { self.gen_counter += 1; }")]),
 ("P12 benign clear order", "", [(MX, "        self.graph_ordering.clear();\n        self.edges.clear();\n        self.assigned_inputs.clear();\n        self.saved_matrix = None;\n        self.properties.clear();\n\n        self.config.delete_nodes();", "        self.config.delete_nodes();\n        self.properties.clear();\n        self.saved_matrix = None;\n        self.edges = vec![];")]),
 ("P12 benign clear fill", "", [(MX, "        for cell in self.matrix.iter_mut() {\n            *cell = Cell::empty(NodeId::Nop);\n        }\n\n        self.graph_ordering.clear();", "        self.matrix.fill(Cell::empty(NodeId::Nop));\n        self.graph_ordering.clear();")]),
 ("P12 benign clear idx", "", [(MX, "        for cell in self.matrix.iter_mut() {\n            *cell = Cell::empty(NodeId::Nop);\n        }\n\n        self.graph_ordering.clear();", "        for i in 0..self.matrix.len() { self.matrix[i] = Cell::empty(NodeId::Nop); }\n        self.graph_ordering.clear();")]),
 ("P12 benign load helper", "", [(MX, "        for cell_repr in repr.cells.iter() {\n            let cell = Cell::from_repr(cell_repr);\n            self.place(cell.x as usize, cell.y as usize, cell);\n        }\n", "        repr.cells.iter().map(Cell::from_repr).for_each(|cell| self.place(cell.x as usize, cell.y as usize, cell));\n"), (MX, "        for (key, val) in repr.properties.iter() {\n            self.properties.insert(key.to_string(), val.clone());\n        }\n", "        self.load_props(repr);\n"), (MX, "    /// Saves a property in the matrix, these", "    fn load_props(&mut self, repr: &MatrixRepr) {\n        let mut i = 0;\n        while i < repr.properties.len() {\n            let kv = &repr.properties[i];\n            self.properties.insert(kv.0.clone(), kv.1.clone());\n            i += 1;\n        }\n    }\n\n    /// Saves a property in the matrix, these")]),
 ("P12 benign pat flatten", "", [(MX, "            if let Some(pat) = pat {\n                if let Some(pd) = self.get_pattern_data(tracker_id) {\n                    pd.lock().unwrap().from_repr(pat);\n                }\n            }\n", "            let pat = match pat { Some(p) => p, None => continue };\n            if let Some(pd) = self.get_pattern_data(tracker_id) {\n                let mut guard = pd.lock().unwrap();\n                guard.from_repr(pat);\n            }\n")]),
 ("P12 benign params", "", [(NC, "            let val = if normalize_params { param_id.norm(*val) } else { *val };\n            self.set_param(*param_id, val.into());\n            self.set_param_modamt(*param_id, *modamt);", "            let mut v = *val;\n            if normalize_params { v = param_id.norm(v); }\n            let _ = self.set_param_modamt(*param_id, *modamt);\n            self.set_param(*param_id, SAtom::param(v));")]),
 ("P24 benign helper", "", [(MX, "        self.config.set_param(param.clone(), at);\n        self.gen_counter += 1;\n        if let Some(obs) = &self.observer {\n            obs.update_param(&param);\n        }", "        self.bump();\n        self.config.set_param(param.clone(), at);\n        self.notify(|o| o.update_param(&param));"), (MX, "    /// Retrieve the modulation amount of the input", "    fn bump(&mut self) { self.gen_counter = self.gen_counter.wrapping_add(1); }\n    fn notify<F: Fn(&dyn MatrixObserver)>(&self, f: F) { if let Some(obs) = self.observer.as_ref() { f(obs.as_ref()); } }\n\n    /// Retrieve the modulation amount of the input")]),
 ("P24 benign obs match", "", [(MX, "        if let Some(obs) = &self.observer {\n            obs.update_matrix();\n        }", "        match self.observer.clone() { Some(obs) => obs.update_matrix(), None => () }")]),
 ("P24 benign modamt early", "", [(MX, "        } else {\n            self.gen_counter += 1;\n            Ok(())\n        }", "            return ret;\n        }\n\n        self.gen_counter += 1;\n        Ok(())"), (MX, "            self.observer = obs;\n            ret\n", "            self.observer = obs;\n")]),

 ("h flip BR", "P22", [(CDR, "CellDir::TL => CellDir::BR,", "CellDir::TL => CellDir::TR,")]),
 ("h offs BL odd", "P22", [(CDR, "CellDir::BL => (-1, i32::from(!even)),", "CellDir::BL => (-1, i32::from(even)),")]),
 ("h offspos x only", "P22", [(CDR, "if new_pos.0 >= 0 && new_pos.1 >= 0 {", "if new_pos.0 >= 0 {")]),
 ("h offspos gt", "P22", [(CDR, "if new_pos.0 >= 0 && new_pos.1 >= 0 {", "if new_pos.0 > 0 && new_pos.1 >= 0 {")]),
 ("h offspos parity y", "P22", [(CDR, "        let offs = self.as_offs(pos.0);\n", "        let offs = self.as_offs(pos.1);\n")]),
 ("h adjacent swap", "P22", [(CDR, "            return Some(CellDir::TL);", "            return Some(CellDir::BL);")]),
 ("h place y", "P22", [(MX, "        if x >= self.w || y >= self.h {\n            return;\n        }\n\n        self.matrix", "        if x >= self.w || y > self.h {\n            return;\n        }\n\n        self.matrix")]),
 ("h get wh", "P22", [(MX, "    pub fn get(&self, x: usize, y: usize) -> Option<&Cell> {\n        if x >= self.w || y >= self.h {", "    pub fn get(&self, x: usize, y: usize) -> Option<&Cell> {\n        if x >= self.h || y >= self.w {")]),
 ("h get refuse", "P22", [(MX, "    pub fn get(&self, x: usize, y: usize) -> Option<&Cell> {\n        if x >= self.w || y >= self.h {", "    pub fn get(&self, x: usize, y: usize) -> Option<&Cell> {\n        if x >= self.w || y + 1 >= self.h {")]),
 ("h adj nocheck", "P22", [(MX, "if x < 0 || y < 0 || (x as usize) >= self.w || (y as usize) >= self.h {", "if x < 0 || (x as usize) >= self.w || (y as usize) >= self.h {")]),
 ("h adj idx", "P22", [(MX, "Some(&self.matrix[(x as usize) * self.h + (y as usize)])", "Some(&self.matrix[(x as usize) * self.w + (y as usize)])")]),
 ("h adjout", "P22", [(MX, "            CellDir::TL => cell.out2?,\n            CellDir::BL => cell.out1?,", "            CellDir::TL => cell.out1?,\n            CellDir::BL => cell.out2?,")]),
 ("h adjin", "P22", [(MX, "                CellDir::TR => cell.in3.is_some(),\n                CellDir::BR", "                CellDir::TR => cell.in2.is_some(),\n                CellDir::BR")]),
 ("h localport", "P22", [(MX, "            CellDir::BL => self.in3,\n            CellDir::TL => self.in2,", "            CellDir::BL => self.in2,\n            CellDir::TL => self.in3,")]),
 ("h clearC", "P22", [(MX, "                self.in2 = None;\n                self.in3 = None;\n            }\n        }", "                self.in2 = None;\n            }\n        }")]),
 ("h setio", "P22", [(MX, "            CellDir::B => {\n                self.out3 = Some(idx as u8);", "            CellDir::B => {\n                self.out2 = Some(idx as u8);")]),
 ("h hasdir", "P22", [(MX, "            CellDir::B => self.out3.is_some(),", "            CellDir::B => self.out3.is_some() || self.out2.is_some(),")]),
 ("h conn noflip", "P22", [(MX, "if let Some(other_node_io_idx) = other_cell.local_port_idx(dir.flip()) {", "if let Some(other_node_io_idx) = other_cell.local_port_idx(dir) {")]),
 ("h conn 0..5", "P22", [(MX, "        for edge in 0..6 {\n            let dir = CellDir::from(edge);\n\n            if let Some(node_io_idx)", "        for edge in 0..5 {\n            let dir = CellDir::from(edge);\n\n            if let Some(node_io_idx)")]),
 ("h conn dirs", "P22", [(MX, "                                (*other_cell, dir.flip(), other_node_io_idx, (nx, ny)),", "                                (*other_cell, dir, other_node_io_idx, (nx, ny)),")]),
 ("h portconn", "P22", [(MX, "                    if dst_cell.has_dir_set(dir.flip()) {", "                    if !dst_cell.is_empty() || dst_cell.has_dir_set(dir.flip()) {")]),
 ("h label", "P22", [(MX, "            CellDir::TR => Some(cell.out1),\n            CellDir::BR => Some(cell.out2),", "            CellDir::TR => Some(cell.out2),\n            CellDir::BR => Some(cell.out1),")]),
 ("P22 benign offs", "", [(CDR, "            CellDir::TR => (1, if even { -1 } else { 0 }),", "            CellDir::TR => { let dy = i32::from(!even) - 1; (1, dy) }"), (CDR, "let even = x % 2 == 0;", "let even = (x & 1) != 1;"), (CDR, "        let e = self.as_edge();\n        e <= 2", "        matches!(self, CellDir::TR | CellDir::BR | CellDir::B)")]),
 ("P22 benign offspos", "", [(CDR, "        if new_pos.0 >= 0 && new_pos.1 >= 0 {\n            Some((new_pos.0 as usize, new_pos.1 as usize))\n        } else {\n            None\n        }", "        if new_pos.0 < 0 || new_pos.1 < 0 {\n            return None;\n        }\n\n        let (nx, ny) = new_pos;\n        Some((nx as usize, ny as usize))")]),
 ("P22 benign adjacent loop", "", [(CDR, "        let (ox, oy) = CellDir::T.as_offs(pos_a.0);\n        if ipos_b == (ipos_a.0 + ox, ipos_a.1 + oy) {\n            return Some(CellDir::T);\n        }", "        for d in [CellDir::T] {\n            let (ox, oy) = d.as_offs(pos_a.0);\n            if ipos_b == (ipos_a.0 + ox, ipos_a.1 + oy) {\n                return Some(d);\n            }\n        }")]),
 ("P22 benign grid helper", "", [(MX, "        if x >= self.w || y >= self.h {\n            return;\n        }\n\n        self.matrix[x * self.h + y] = cell;", "        if let Some(i) = self.grid_idx(x, y) {\n            self.matrix[i] = cell;\n        }"), (MX, "    pub fn get(&self, x: usize, y: usize) -> Option<&Cell> {\n        if x >= self.w || y >= self.h {\n            return None;\n        }\n\n        Some(&self.matrix[x * self.h + y])\n    }", "    fn grid_idx(&self, x: usize, y: usize) -> Option<usize> {\n        if x < self.w && self.h > y { Some(y + x * self.h) } else { None }\n    }\n\n    pub fn get(&self, x: usize, y: usize) -> Option<&Cell> {\n        let i = self.grid_idx(x, y)?;\n        self.matrix.get(i)\n    }")]),
 ("P22 benign ports ref", "", [(MX, "            CellDir::T => self.in1,\n            CellDir::C => None,\n        }\n    }\n", "            CellDir::T => self.in1,\n            CellDir::C => None,\n        }\n    }\n\n    fn port_mut(&mut self, dir: CellDir) -> Option<&mut Option<u8>> {\n        Some(match dir {\n            CellDir::TR => &mut self.out1,\n            CellDir::BR => &mut self.out2,\n            CellDir::B => &mut self.out3,\n            CellDir::BL => &mut self.in3,\n            CellDir::TL => &mut self.in2,\n            CellDir::T => &mut self.in1,\n            CellDir::C => return None,\n        })\n    }\n"), (MX, "            CellDir::T => {\n                self.in1 = Some(idx as u8);\n            }\n            CellDir::C => {}\n        }", "            _ => {\n                if let Some(p) = self.port_mut(dir) { *p = Some(idx as u8); }\n            }\n        }")]),
 ("P22 benign has", "", [(MX, "    pub fn has_dir_set(&self, dir: CellDir) -> bool {\n        match dir {\n            CellDir::TR => self.out1.is_some(),", "    pub fn has_dir_set(&self, dir: CellDir) -> bool {\n        if dir == CellDir::T { return self.local_port_idx(dir).is_some(); }\n        match dir {\n            CellDir::TR => matches!(self.out1, Some(_)),")]),
 ("P22 benign portconn", "", [(MX, "                if let Some(dst_cell) = m.get(new_pos.0, new_pos.1) {\n                    if dst_cell.has_dir_set(dir.flip()) {\n                        return Some(new_pos);\n                    }\n                }", "                let there = m.get(new_pos.0, new_pos.1).map(|c| c.has_dir_set(dir.flip())).unwrap_or(false);\n                if there {\n                    return Some(new_pos);\n                }")]),
 ("P22 benign conn", "", [(MX, "        for edge in 0..6 {\n            let dir = CellDir::from(edge);\n\n            if let Some(node_io_idx) = this_cell.local_port_idx(dir) {", "        let mut edge = 0;\n        while edge < 6 {\n            let dir = CellDir::from(edge);\n            edge += 1;\n\n            if let Some(node_io_idx) = this_cell.local_port_idx(dir) {")]),

 ("P13 cell xy swap", "P13", [(MR, "            self.x,\n            self.y,\n            [", "            self.y,\n            self.x,\n            [")]),
 ("P13 cell inp order", "P13", [(MR, "                inp2idx(node_id, &v[4][1]),\n                inp2idx(node_id, &v[4][2]),", "                inp2idx(node_id, &v[4][2]),\n                inp2idx(node_id, &v[4][1]),")]),
 ("P13 cell out as inp", "P13", [(MR, "out2idx(node_id, &v[5][2])", "inp2idx(node_id, &v[5][2])")]),
 ("P13 cell out idx write", "P13", [(MR, "out_idx2value(node_id: NodeId, idx: i16) -> Value {\n    if idx == -1 {\n        json!(-1)\n    } else {\n        node_id.out_name_by_idx(idx as u8)", "out_idx2value(node_id: NodeId, idx: i16) -> Value {\n    if idx == -1 {\n        json!(-1)\n    } else {\n        node_id.inp_name_by_idx(idx as u8)")]),
 ("P13 modamt dropped", "P13", [(MR, "param_v.push(json!(ma));", "let _ = ma;")]),
 ("P13 modamt idx", "P13", [(MR, "v[4].as_f64().map(|v| v as f32)", "v[3].as_f64().map(|v| v as f32)")]),
 ("P13 modamt only nonneg", "P13", [(MR, "                    if let Some(ma) = ma {", "                    if let Some(ma) = ma.filter(|m| *m >= 0.0) {")]),
 ("P13 cursor swapped", "P13", [(MR, "v[\"cursor_row\"].as_i64().unwrap_or(0) as usize,\n                v[\"cursor_col\"]", "v[\"cursor_col\"].as_i64().unwrap_or(0) as usize,\n                v[\"cursor_row\"]")]),
 ("P13 key renamed", "P13", [(MR, "edit_step: v[\"edit_step\"]", "edit_step: v[\"editstep\"]")]),
 ("P13 take 255", "P13", [(MR, "dt.iter().enumerate().take(MAX_PATTERN_LEN)", "dt.iter().enumerate().take(MAX_COLS)")]),
 ("P13 data u8", "P13", [(MR, "out_col.push(json!(*col as i64));", "out_col.push(json!(*col as i8 as i64));")]),
 ("P13 rows minus", "P13", [(MR, "rows: v[\"rows\"].as_i64().unwrap_or(0) as usize", "rows: v[\"rows\"].as_i64().unwrap_or(0).min(128) as usize")]),
 ("P13 atom tag", "P13", [(MR, "SAtom::Setting(i) => json!([\"i\", i])", "SAtom::Setting(i) => json!([\"p\", i])")]),
 ("P13 atom audio tag", "P13", [(MR, "SAtom::AudioSample((s, _)) => json!([\"as\", s])", "SAtom::AudioSample((s, _)) => json!([\"s\", s])")]),
 ("P13 setting as float", "P13", [(MR, "if let Some(v) = v[1].as_i64() {\n                Ok(SAtom::setting(v))", "if let Some(v) = v[1].as_f64() {\n                Ok(SAtom::setting(v as f32 as i64))")]),
 ("P13 version", "P13", [(MR, "block_funs, properties, version: 2 }", "block_funs, properties, version: 3 }")]),
 ("P13 props skip", "P13", [(MR, "                props.push(json!([k, serialize_atom(v)]));", "                if k.len() < 64 { props.push(json!([k, serialize_atom(v)])); }")]),
 ("P13 atoms dup", "P13", [(MR, "m.atoms.push((param_id, deserialize_atom(&v[3])?))", "if param_id.inp() < 16 { m.atoms.push((param_id, deserialize_atom(&v[3])?)) }")]),
 ("P13 coltype swap", "P13", [(PT, "                2 => PatternColType::Step,\n                3 => PatternColType::Gate,", "                3 => PatternColType::Step,\n                2 => PatternColType::Gate,")]),
 ("P13 pat cell u8", "P13", [(PT, "Some(*cell as u16) };\n            ", "Some(*cell as u8 as u16) };\n            ")]),
 ("P13 pat save rows", "P13", [(PT, "            rows: self.rows,\n            edit_step: self.edit_step,\n            cursor: self.cursor,\n        }", "            rows: self.rows,\n            edit_step: self.rows,\n            cursor: self.cursor,\n        }")]),
 ("P13 denorm gone", "P13", [(NC, "param_id.denorm(*value)", "*value")]),
 ("P13 dump filter", "P13", [(NC, "        let atoms: Vec<(ParamId, SAtom)> =\n            self.atom_values.iter().map(", "        let atoms: Vec<(ParamId, SAtom)> =\n            self.atom_values.iter().filter(|(p, _)| p.inp() < 32).map(")]),
 ("P13 contains1", "P13", [(WL, "\"contains\": json!([c0, c1])", "\"contains\": json!([c0])")]),
 ("P13 contains swapped", "P13", [(WL, "                if v[\"contains\"][1].is_i64() {\n                    Some(v[\"contains\"][1].as_i64()", "                if v[\"contains\"][1].is_i64() {\n                    Some(v[\"contains\"][0].as_i64()")]),
 ("P13 block xy", "P13", [(WL, "let y = b[\"y\"].as_i64().unwrap_or(0);", "let y = b[\"x\"].as_i64().unwrap_or(0);")]),
 ("P13 size swapped", "P13", [(WL, "\"size\": [self.size.0 as i64, self.size.1 as i64]", "\"size\": [self.size.1 as i64, self.size.0 as i64]")]),
 ("P13 inputs none dropped", "P13", [(WL, "            for p in self.inputs.iter() {\n                inputs.push(json!(p));\n            }", "            for p in self.inputs.iter() {\n                if p.is_some() { inputs.push(json!(p)); }\n            }")]),
 ("P13 lbl lost", "P13", [(WL, "\"lbl\": self.lbl,", "\"lbl\": self.typ,")]),
 ("P13 auto_shrink key", "P13", [(WL, "v[\"auto_shrink\"].as_bool()", "v[\"autoshrink\"].as_bool()")]),
 ("P13 id counter", "P13", [(WL, "v[\"current_block_id_counter\"] = self.cur_id.into();", "v[\"current_block_id_counter\"] = self.areas.len().into();")]),
 ("P13 origin map", "P13", [(WL, "        ba.update_origin_map();\n\n        Ok(ba)", "        Ok(ba)")]),
 ("P13 slots 64", "P13", [(MX, "while tracker_id < 128 || self", "while tracker_id < 64 || self")]),
 ("P13 bf slots 16", "P13", [(MX, "while bf_id < 32 || self", "while bf_id < 16 || self")]),
 ("P13 bf shift", "P13", [(MX, "                block_funs.push(if bf.lock().unwrap().is_unset() {\n                    None\n                } else {\n                    Some(bf.lock().unwrap().save_snapshot())\n                });", "                if !bf.lock().unwrap().is_unset() {\n                    block_funs.push(Some(bf.lock().unwrap().save_snapshot()));\n                }")]),
 ("P13 cells unconnected", "P13", [(MX, "            if cell.node_id() != NodeId::Nop {\n                cells.push", "            if cell.node_id() != NodeId::Nop && (cell.in1.is_some() || cell.out2.is_some()) {\n                cells.push")]),
 ("P13 unset inverted", "P13", [(MX, "patterns.push(if pdata.lock().unwrap().is_unset() {", "patterns.push(if !pdata.lock().unwrap().is_unset() {")]),
 ("P13 cell repr in3", "P13", [(MX, "                self.in3.map(|v| v as i16).unwrap_or(-1),", "                self.in2.map(|v| v as i16).unwrap_or(-1),")]),
 ("P13 benign deser helper", "", [(MR, "            x: v[2].as_i64().unwrap_or(0) as usize,\n            y: v[3].as_i64().unwrap_or(0) as usize,", "            x: pos_at(v, 2),\n            y: pos_at(v, 3),"), (MR, "impl CellRepr {\n", "fn pos_at(v: &Value, i: usize) -> usize {\n    match v[i].as_i64() {\n        Some(n) => n as usize,\n        None => 0,\n    }\n}\n\nimpl CellRepr {\n")]),
 ("P13 benign iter", "", [(MR, "        let mut cells = json!([]);\n        if let Value::Array(cells) = &mut cells {\n            for cell in self.cells.iter() {\n                cells.push(cell.serialize());\n            }\n        }\n\n        v[\"cells\"] = cells;", "        v[\"cells\"] = Value::Array(self.cells.iter().map(|c| c.serialize()).collect());")]),
 ("P13 benign get", "", [(MR, "        let props = &v[\"props\"];\n        if let Value::Array(props) = props {\n            for v in props.iter() {", "        if let Some(props) = v.get(\"props\").and_then(|p| p.as_array()) {\n            for v in props {")]),
 ("P13 benign push ports", "", [(MR, "            inp: [\n                inp2idx(node_id, &v[4][0]),\n                inp2idx(node_id, &v[4][1]),\n                inp2idx(node_id, &v[4][2]),\n            ],", "            inp: {\n                let mut inp = [-1; 3];\n                for i in 0..3 {\n                    inp[i] = inp2idx(node_id, &v[4][i]);\n                }\n                inp\n            },")]),
 ("P13 benign micro", "", [(MR, "            let mut buf: [f32; 8] = [0.0; 8];\n            for (b, s) in buf.iter_mut().zip(s.iter()) {\n                *b = *s;\n            }\n            json!([\"ms\", buf[0], buf[1], buf[2], buf[3], buf[4], buf[5], buf[6], buf[7],])", "            let mut ms = vec![json!(\"ms\")];\n            for i in 0..8 {\n                ms.push(json!(s.get(i).copied().unwrap_or(0.0)));\n            }\n            Value::Array(ms)")]),
 ("P13 benign order", "", [(MR, "            rows: v[\"rows\"].as_i64().unwrap_or(0) as usize,\n            edit_step: v[\"edit_step\"].as_i64().unwrap_or(0) as usize,", "            edit_step: v[\"edit_step\"].as_u64().unwrap_or(0) as usize,\n            rows: v[\"rows\"].as_u64().unwrap_or(0) as usize,")]),
 ("P13 benign coltype fn", "", [(PT, "            col_types[i] = match ct {\n                PatternColType::Value => 0,\n                PatternColType::Note => 1,\n                PatternColType::Step => 2,\n                PatternColType::Gate => 3,\n            };", "            col_types[i] = Self::ct_num(*ct);"), (PT, "    pub fn to_repr(&self) -> PatternRepr {", "    fn ct_num(ct: PatternColType) -> u8 {\n        if ct == PatternColType::Note {\n            return 1;\n        }\n        match ct {\n            PatternColType::Step => 2,\n            PatternColType::Gate => 3,\n            _ => 0,\n        }\n    }\n\n    pub fn to_repr(&self) -> PatternRepr {")]),
 ("P13 benign slots for", "", [(MX, "        let mut bf_id = 0;\n        while bf_id < 32 || self.has_code_engine(bf_id) {\n            if let Some(bf) = self.get_block_function(bf_id) {\n                block_funs.push(if bf.lock().unwrap().is_unset() {\n                    None\n                } else {\n                    Some(bf.lock().unwrap().save_snapshot())\n                });\n            }\n\n            bf_id += 1;\n        }", "        for bf_id in 0.. {\n            if bf_id >= 32 && !self.has_code_engine(bf_id) {\n                break;\n            }\n\n            if let Some(bf) = self.get_block_function(bf_id) {\n                let bf = bf.lock().unwrap();\n                if bf.is_unset() {\n                    block_funs.push(None);\n                } else {\n                    block_funs.push(Some(bf.save_snapshot()));\n                }\n            }\n        }")]),
 ("P13 benign save cells", "", [(MX, "            if cell.node_id() != NodeId::Nop {\n                cells.push(cell.to_repr())\n            }", "            if cell.is_empty() {\n                return;\n            }\n            let repr = cell.to_repr();\n            cells.push(repr);")]),
 ("P13 benign dump for", "", [(NC, "        let params: Vec<(ParamId, f32, Option<f32>)> = self\n            .param_values\n            .iter()\n            .map(|(param_id, value)| {\n                (\n                    *param_id,\n                    param_id.denorm(*value),\n                    self.param_modamt.get(param_id).copied().flatten(),\n                )\n            })\n            .collect();", "        let mut params = Vec::with_capacity(self.param_values.len());\n        for (param_id, value) in self.param_values.iter() {\n            let ma = match self.param_modamt.get(param_id) {\n                Some(ma) => *ma,\n                None => None,\n            };\n            params.push((*param_id, param_id.denorm(*value), ma));\n        }")]),
 ("P13 benign block ports", "", [(WL, "        if let Value::Array(inputs) = &mut inputs {\n            for p in self.inputs.iter() {\n                inputs.push(json!(p));\n            }\n        }", "        if let Value::Array(inputs) = &mut inputs {\n            inputs.extend(self.inputs.iter().map(|p| match p {\n                Some(s) => Value::String(s.to_string()),\n                None => Value::Null,\n            }));\n        }")]),
 ("P13 benign block deser", "", [(WL, "                if v[\"contains\"][0].is_i64() {\n                    Some(v[\"contains\"][0].as_i64().unwrap_or(0) as usize)\n                } else {\n                    None\n                },", "                v[\"contains\"][0].as_i64().map(|i| i as usize),")]),

 ("P19 clear no mark", "P19", [(PT, "        self.data[row][col] = None;\n        self.strings[row][col] = None;\n        self.modified_col(col);", "        self.data[row][col] = None;\n        self.strings[row][col] = None;")]),
 ("P19 set mark row", "P19", [(PT, "        self.data[row][col] = Some(val);\n        self.strings[row][col] = None;\n        self.modified_col(col);", "        self.data[row][col] = Some(val);\n        self.strings[row][col] = None;\n        self.modified_col(row);")]),
 ("P19 set mark if changed after write", "P19", [(PT, "        self.data[row][col] = Some(val);\n        self.strings[row][col] = None;\n        self.modified_col(col);", "        self.data[row][col] = Some(val);\n        self.strings[row][col] = None;\n        if row < self.rows {\n            self.modified_col(col);\n        }")]),
 ("P19 set text stale", "P19", [(PT, "        self.data[row][col] = Some(val);\n        self.strings[row][col] = None;", "        self.data[row][col] = Some(val);")]),
 ("P19 rows one col", "P19", [(PT, "        self.modified_all_cols(); // the", "        self.modified_col(0); // the")]),
 ("P19 rows mark 5", "P19", [(PT, "        for col in 0..MAX_COLS {\n            self.modified_col(col);", "        for col in 0..MAX_COLS - 1 {\n            self.modified_col(col);")]),
 ("P19 rows no gen", "P19", [(PT, "contents of the value columns depend on the rows.\n        self.generation += 1;", "contents of the value columns depend on the rows.")]),
 ("P19 gate type no mark", "P19", [(PT, "        self.col_types[col] = PatternColType::Gate;\n        self.modified_col(col);", "        self.col_types[col] = PatternColType::Gate;")]),
 ("P19 type early", "P19", [(PT, "        self.col_types[col] = PatternColType::Step;\n        self.modified_col(col);\n        self.generation += 1;", "        let was = self.col_types[col];\n        self.col_types[col] = PatternColType::Step;\n        if was == PatternColType::Note {\n            return;\n        }\n        self.modified_col(col);\n        self.generation += 1;")]),
 ("P19 from_repr mark", "P19", [(PT, "            };\n\n            self.modified_col(i);\n        }", "            };\n        }")]),
 ("P19 from_repr text", "P19", [(PT, "                self.strings[row_idx][col_idx] = None;\n            }\n        }\n\n        self.rows = repr.rows", "            }\n        }\n\n        self.rows = repr.rows")]),
 ("P19 from_repr gen", "P19", [(PT, "        self.cursor = repr.cursor;\n        self.generation += 1;", "        self.cursor = repr.cursor;")]),
 ("P19 reset gen", "P19", [(PT, "        *self = Self::new(MAX_PATTERN_LEN);\n        self.generation = generation;", "        *self = Self::new(MAX_PATTERN_LEN);\n        let _ = generation;")]),
 ("P19 new clean", "P19", [(PT, "dirty_col: [true; MAX_COLS]", "dirty_col: [false; MAX_COLS]")]),
 ("P19 full", "P19", [(TM, "        if self.data_prod.is_full() {\n            // Keep the column marked as modified, until the backend fetched some updates.\n            return false;\n        }\n", "")]),
 ("P19 full inverted len", "P19", [(TM, "        if self.data_prod.is_full() {\n            // Keep", "        if self.data_prod.is_full() && self.seq.is_some() {\n            // Keep")]),
 ("P19 not sync", "P19", [(TM, "                data.sync_out_data(col);\n", "                if data.rows() > 1 {\n                    data.sync_out_data(col);\n                }\n")]),
 ("P19 msg col", "P19", [(TM, "data: out_data[col],", "data: out_data[0],")]),
 ("P19 msg len", "P19", [(TM, "pattern_len: data.rows(),", "pattern_len: MAX_PATTERN_LEN,")]),
 ("P19 skip unset", "P19", [(TM, "            if data.col_is_modified_reset(col) {\n", "            if data.col_is_modified_reset(col) {\n                if data.is_unset() {\n                    continue;\n                }\n")]),
 ("P19 send range", "P19", [(TM, "        for col in 0..MAX_COLS {\n            if data.col_is", "        for col in 1..MAX_COLS {\n            if data.col_is")]),
 ("P19 backend no mark", "P19", [(TM, "            self.data.lock().unwrap().modified_all_cols();", "")]),
 ("P19 backend no prod", "P19", [(TM, "            self.data_prod = prod;\n", "            let _ = prod;\n")]),
 ("P19 recv type", "P19", [(TM, "                    self.col_types[col] = col_type;\n", "                    if pattern_len > 0 {\n                        self.col_types[col] = col_type;\n                    }\n")]),
 ("P19 recv rows", "P19", [(TM, "                    self.seq.set_rows(pattern_len);\n", "                    if col == 0 {\n                        self.seq.set_rows(pattern_len);\n                    }\n")]),
 ("P19 recv col", "P19", [(TM, "self.seq.set_col(col, &data);", "self.seq.set_col(0, &data);")]),
 ("P19 recv part", "P19", [(TM, "self.seq.set_col(col, &data);", "self.seq.set_col(col, &data[..128]);")]),
 ("P19 set_col take", "P19", [(TS, "self.data[col].iter_mut().zip(col_data.iter())", "self.data[col].iter_mut().take(self.rows).zip(col_data.iter())")]),
 ("P19 node late", "P19", [("src/dsp/node_tseq.rs", "        backend.check_updates();", "        if ctx.nframes() > 1 {\n            backend.check_updates();\n        }")]),
 ("P19 node dup", "P19", [("src/dsp/node_tseq.rs", "backend.get_col_at_phase(5,", "backend.get_col_at_phase(4,")]),
 ("P19 benign dirty direct", "", [(PT, "        self.data[row][col] = Some(val);\n        self.strings[row][col] = None;\n        self.modified_col(col);\n        self.generation += 1;", "        self.dirty_col[col] = true;\n        self.generation += 1;\n        self.strings[row][col].take();\n        self.data[row][col].replace(val);")]),
 ("P19 benign store helper", "", [(PT, "        self.data[row][col] = None;\n        self.strings[row][col] = None;\n        self.modified_col(col);\n        self.generation += 1;", "        self.store(row, col, None);"), (PT, "    fn modified_col(&mut self, col: usize) {", "    fn store(&mut self, row: usize, col: usize, val: Option<u16>) {\n        if let Some(cell) = self.data.get_mut(row).and_then(|r| r.get_mut(col)) {\n            *cell = val;\n        }\n        self.strings[row][col] = None;\n        self.touch(col);\n    }\n\n    fn touch(&mut self, col: usize) {\n        self.modified_col(col);\n        self.generation += 1;\n    }\n\n    fn modified_col(&mut self, col: usize) {")]),
 ("P19 benign unchanged early", "", [(PT, "        self.data[row][col] = Some(val);\n        self.strings[row][col] = None;\n        self.modified_col(col);", "        if self.data[row][col] == Some(val) {\n            return;\n        }\n        self.data[row][col] = Some(val);\n        self.strings[row][col] = None;\n        self.modified_col(col);")]),
 ("P19 benign all cols", "", [(PT, "        for col in 0..MAX_COLS {\n            self.modified_col(col);\n        }", "        for bit in self.dirty_col.iter_mut() {\n            *bit = true;\n        }")]),
 ("P19 benign all cols arr", "", [(PT, "        for col in 0..MAX_COLS {\n            self.modified_col(col);\n        }", "        self.dirty_col = [true; MAX_COLS];")]),
 ("P19 benign fill", "", [(PT, "        for col in 0..MAX_COLS {\n            self.modified_col(col);\n        }", "        self.dirty_col.fill(true);")]),
 ("P19 benign type helper", "", [(PT, "        if col >= self.col_types.len() {\n            return;\n        }\n        self.col_types[col] = PatternColType::Gate;\n        self.modified_col(col);\n        self.generation += 1;", "        self.set_col_type(col, PatternColType::Gate);"), (PT, "    fn modified_col(&mut self, col: usize) {", "    fn set_col_type(&mut self, col: usize, ct: PatternColType) {\n        match self.col_types.get_mut(col) {\n            Some(t) => *t = ct,\n            None => return,\n        }\n        self.modified_col(col);\n        self.generation += 1;\n    }\n\n    fn modified_col(&mut self, col: usize) {")]),
 ("P19 benign from_repr", "", [(PT, "            };\n\n            self.modified_col(i);\n        }", "            };\n        }\n        self.modified_all_cols();")]),
 ("P19 benign from_repr while", "", [(PT, "        for (row_idx, row) in repr.data.iter().enumerate().take(MAX_PATTERN_LEN) {\n            for (col_idx, cell) in row.iter().enumerate().take(MAX_COLS) {\n                self.data[row_idx][col_idx] = if *cell < 0 { None } else { Some(*cell as u16) };\n                self.strings[row_idx][col_idx] = None;\n            }\n        }", "        for (dst, src) in self.data.iter_mut().zip(repr.data.iter()) {\n            for (cell, v) in dst.iter_mut().zip(src.iter()) {\n                *cell = if *v < 0 { None } else { Some(*v as u16) };\n            }\n        }\n        for row in self.strings.iter_mut() {\n            for s in row.iter_mut() {\n                *s = None;\n            }\n        }")]),
 ("P19 benign send restructured", "", [(TM, "        for col in 0..MAX_COLS {\n            if data.col_is_modified_reset(col) {\n                data.sync_out_data(col);\n                let out_data = data.get_out_data();\n                let msg = PatternUpdateMsg::UpdateColumn {\n                    col_type: data.col_type(col),\n                    pattern_len: data.rows(),\n                    data: out_data[col],\n                    col,\n                };\n\n                let _ = self.data_prod.push(msg);\n\n                return true;\n            }\n        }\n\n        false", "        let mut col = 0;\n        while col < MAX_COLS {\n            if !data.col_is_modified_reset(col) {\n                col += 1;\n                continue;\n            }\n            data.sync_out_data(col);\n            let pattern_len = data.rows();\n            let col_type = data.col_type(col);\n            let out = data.get_out_data()[col];\n            return self.data_prod.push(PatternUpdateMsg::UpdateColumn { col_type, pattern_len, data: out, col }).is_ok();\n        }\n\n        false")]),
 ("P19 benign send find", "", [(TM, "        for col in 0..MAX_COLS {\n            if data.col_is_modified_reset(col) {\n                data.sync_out_data(col);\n                let out_data = data.get_out_data();\n                let msg = PatternUpdateMsg::UpdateColumn {\n                    col_type: data.col_type(col),\n                    pattern_len: data.rows(),\n                    data: out_data[col],\n                    col,\n                };\n\n                let _ = self.data_prod.push(msg);\n\n                return true;\n            }\n        }\n\n        false", "        let col = match (0..MAX_COLS).find(|c| data.col_is_modified_reset(*c)) {\n            Some(col) => col,\n            None => return false,\n        };\n        data.sync_out_data(col);\n        let msg = PatternUpdateMsg::UpdateColumn {\n            col_type: data.col_type(col),\n            pattern_len: data.rows(),\n            data: data.get_out_data()[col],\n            col,\n        };\n        let _ = self.data_prod.push(msg);\n        true")]),
 ("P19 benign recv", "", [(TM, "        if let Some(msg) = self.seq_cons.pop() {\n            match msg {\n                PatternUpdateMsg::UpdateColumn { col, col_type, pattern_len, data } => {\n                    self.col_types[col] = col_type;\n                    self.seq.set_rows(pattern_len);\n                    self.seq.set_col(col, &data);\n                }\n            }\n\n            true\n        } else {\n            false\n        }", "        let msg = match self.seq_cons.pop() {\n            Some(msg) => msg,\n            None => return false,\n        };\n        self.apply(&msg);\n        true"), (TM, "impl TrackerBackend {\n", "impl TrackerBackend {\n    fn apply(&mut self, msg: &PatternUpdateMsg) {\n        let PatternUpdateMsg::UpdateColumn { col, col_type, pattern_len, data } = msg;\n        self.seq.set_col(*col, &data[..]);\n        self.seq.set_rows(*pattern_len);\n        self.col_types[*col] = *col_type;\n    }\n\n")]),
 ("P19 benign set_col", "", [(TS, "        for (out_cell, in_cell) in self.data[col].iter_mut().zip(col_data.iter()) {\n            *out_cell = *in_cell;\n        }", "        let len = col_data.len().min(self.data[col].len());\n        self.data[col][..len].copy_from_slice(&col_data[..len]);")]),
 ("P19 benign backend", "", [(TM, "            let rb = RingBuffer::new(MAX_RINGBUF_SIZE);\n            let (prod, con) = rb.split();\n\n            self.seq = Some(PatternSequencer::new(MAX_PATTERN_LEN));\n            self.data_prod = prod;\n            self.seq_cons = Some(con);\n\n            // The new backend does not know anything about the pattern yet:\n            self.data.lock().unwrap().modified_all_cols();", "            self.reconnect();"), (TM, "    pub fn get_backend(&mut self) -> TrackerBackend {", "    fn reconnect(&mut self) {\n        if let Ok(mut d) = self.data.lock() {\n            d.modified_all_cols();\n        }\n        let (prod, con) = RingBuffer::new(MAX_RINGBUF_SIZE).split();\n        self.seq_cons = Some(con);\n        self.data_prod = prod;\n        self.seq = Some(PatternSequencer::new(MAX_PATTERN_LEN));\n    }\n\n    pub fn get_backend(&mut self) -> TrackerBackend {")]),

 ("P14 take cols gone", "P14", [(MR, ".enumerate().take(MAX_COLS) {\n                col_types[i]", ".enumerate() {\n                col_types[i]")]),
 ("P14 take rows gone", "P14", [(MR, "for (row_idx, row) in dt.iter().enumerate().take(MAX_PATTERN_LEN) {", "for (row_idx, row) in dt.iter().enumerate() {")]),
 ("P14 take col too big", "P14", [(MR, "for (col_idx, c) in row.iter().enumerate().take(MAX_COLS) {", "for (col_idx, c) in row.iter().enumerate().take(MAX_COLS + 1) {")]),
 ("P14 from_repr take gone", "P14", [(PT, "repr.data.iter().enumerate().take(MAX_PATTERN_LEN)", "repr.data.iter().enumerate()")]),
 ("P14 from_repr col take gone", "P14", [(PT, "row.iter().enumerate().take(MAX_COLS)", "row.iter().enumerate()")]),
 ("P14 block rows", "P14", [(WL, "rows: v[\"rows\"].as_i64().unwrap_or(0).clamp(0, MAX_BLOCK_ROWS) as usize", "rows: v[\"rows\"].as_i64().unwrap_or(0) as usize")]),
 ("P14 block rows max only", "P14", [(WL, "rows: v[\"rows\"].as_i64().unwrap_or(0).clamp(0, MAX_BLOCK_ROWS) as usize", "rows: v[\"rows\"].as_i64().unwrap_or(0).max(0) as usize")]),
 ("P14 sub areas unchecked", "P14", [(WL, "        self.remove_invalid_sub_areas();\n", "")]),
 ("P14 sub areas cycle", "P14", [(WL, "                        if seen.get(id) == Some(&false) {\n                            seen[id] = true;\n                            work_list.push(id);\n                        } else {", "                        if seen.get(id).is_some() {\n                        } else {")]),
 ("P14 sub areas only first", "P14", [(WL, "for sub_area in [&mut block.contains.0, &mut block.contains.1] {", "for sub_area in [&mut block.contains.0] {")]),
 ("P14 place guard", "P14", [(MX, "        if x >= self.w || y >= self.h {\n            return;\n        }\n\n        self.matrix[x * self.h + y] = cell;", "        if x >= self.w {\n            return;\n        }\n\n        self.matrix[x * self.h + y] = cell;")]),
 ("P14 atom unwrap", "P14", [(MR, "            if let Some(v) = v[1].as_i64() {\n                Ok(SAtom::setting(v))\n            } else {\n                Err(MatrixDeserError::InvalidAtom(v.to_string()))\n            }", "            Ok(SAtom::setting(v[1].as_i64().unwrap()))")]),
 ("P14 param unwrap", "P14", [(MR, "                let param_id = node_id.inp_param(v[2].as_str().unwrap_or(\"\"));\n\n                if let Some(param_id) = param_id {\n                    m.params", "                let param_id = node_id.inp_param(v[2].as_str().expect(\"name\"));\n\n                if let Some(param_id) = param_id {\n                    m.params")]),
 ("P14 utf8 unwrap", "P14", [(MR, "        let s = std::str::from_utf8(data)?;", "        let s = std::str::from_utf8(data).unwrap();")]),
 ("P14 json unwrap", "P14", [(MR, "let v: Value = serde_json::from_str(s)?;", "let v: Value = serde_json::from_str(s).unwrap();")]),
 ("P14 alloc", "P14", [(MR, "        let mut data = vec![vec![-1; MAX_COLS]; MAX_PATTERN_LEN];\n        let dt", "        let n = v[\"rows\"].as_i64().unwrap_or(0) as usize;\n        let mut data = vec![vec![-1; MAX_COLS]; n.max(MAX_PATTERN_LEN)];\n        let dt")]),
 ("P14 ser atom index", "P14", [(MR, "            for (b, s) in buf.iter_mut().zip(s.iter()) {\n                *b = *s;\n            }", "            for (i, s) in s.iter().enumerate() {\n                buf[i] = *s;\n            }")]),
 ("P14 overflow y", "P14", [(WL, "oy.saturating_add(r as i64)", "*oy + (r as i64)")]),
 ("P14 no root", "P14", [(WL, "        if self.areas.is_empty() {\n            self.areas.push(Box::new(BlockArea::new(16, 16)));\n        }\n", "")]),
 ("P14 benign version match", "", [(MR, "            let version: i64 = version.as_i64().unwrap_or(0);\n\n            if version > 2 {\n                return Err(MatrixDeserError::BadVersion);\n            }", "            let version: i64 = match version.as_i64() {\n                Some(v) => v,\n                None => 0,\n            };\n\n            if !(version <= 2) {\n                return Err(MatrixDeserError::BadVersion);\n            }")]),
 ("P14 benign rows min max", "", [(WL, "rows: v[\"rows\"].as_i64().unwrap_or(0).clamp(0, MAX_BLOCK_ROWS) as usize", "rows: v[\"rows\"].as_i64().unwrap_or(0).max(0).min(MAX_BLOCK_ROWS) as usize")]),
 ("P14 benign rows later", "", [(WL, "rows: v[\"rows\"].as_i64().unwrap_or(0).clamp(0, MAX_BLOCK_ROWS) as usize", "rows: block_rows(v)"), (WL, None, "\nfn block_rows(v: &Value) -> usize {\n    let rows = v[\"rows\"].as_i64().unwrap_or(0);\n    if rows < 0 {\n        0\n    } else if rows > MAX_BLOCK_ROWS {\n        MAX_BLOCK_ROWS as usize\n    } else {\n        rows as usize\n    }\n}\n")]),
 ("P14 benign zip", "", [(MR, "            for (i, ct) in cts.iter().enumerate().take(MAX_COLS) {\n                col_types[i] = ct.as_i64().unwrap_or(0) as u8;\n            }", "            for (dst, ct) in col_types.iter_mut().zip(cts.iter()) {\n                *dst = ct.as_i64().unwrap_or(0) as u8;\n            }")]),
 ("P14 benign while idx", "", [(MR, "            for (i, ct) in cts.iter().enumerate().take(MAX_COLS) {\n                col_types[i] = ct.as_i64().unwrap_or(0) as u8;\n            }", "            let mut i = 0;\n            while i < MAX_COLS && i < cts.len() {\n                col_types[i] = cts[i].as_i64().unwrap_or(0) as u8;\n                i += 1;\n            }")]),
 ("P14 benign guard break", "", [(MR, "            for (i, ct) in cts.iter().enumerate().take(MAX_COLS) {\n                col_types[i] = ct.as_i64().unwrap_or(0) as u8;\n            }", "            for (i, ct) in cts.iter().enumerate() {\n                if i >= MAX_COLS {\n                    break;\n                }\n                col_types[i] = ct.as_i64().unwrap_or(0) as u8;\n            }")]),
 ("P14 benign get_mut", "", [(MX, "        if x >= self.w || y >= self.h {\n            return;\n        }\n\n        self.matrix[x * self.h + y] = cell;", "        if x < self.w && y < self.h {\n            let h = self.h;\n            if let Some(c) = self.matrix.get_mut(x * h + y) {\n                *c = cell;\n            }\n        }")]),
 ("P14 benign sub areas filter", "", [(WL, "                for sub_area in [&mut block.contains.0, &mut block.contains.1] {\n                    if let Some(id) = *sub_area {\n                        if seen.get(id) == Some(&false) {\n                            seen[id] = true;\n                            work_list.push(id);\n                        } else {\n                            *sub_area = None;\n                        }\n                    }\n                }", "                if let Some(id) = block.contains.0 {\n                    if id < seen.len() && !seen[id] {\n                        seen[id] = true;\n                        work_list.push(id);\n                    } else {\n                        block.contains.0 = None;\n                    }\n                }\n                if let Some(id) = block.contains.1 {\n                    if id < seen.len() && !seen[id] {\n                        seen[id] = true;\n                        work_list.push(id);\n                    } else {\n                        block.contains.1 = None;\n                    }\n                }")]),
 ("P14 benign sub areas match", "", [(WL, "                        if seen.get(id) == Some(&false) {\n                            seen[id] = true;\n                            work_list.push(id);\n                        } else {\n                            *sub_area = None;\n                        }", "                        match seen.get_mut(id) {\n                            Some(s) if !*s => {\n                                *s = true;\n                                work_list.push(id);\n                            }\n                            _ => *sub_area = None,\n                        }")]),
 ("P14 benign load order", "", [(WL, "        self.areas = repr.areas.iter().cloned().collect();\n        self.id_gen = BlockIDGenerator::new_with_id(repr.cur_id);\n        self.remove_invalid_sub_areas();", "        self.id_gen = BlockIDGenerator::new_with_id(repr.cur_id);\n        self.areas.clear();\n        self.areas.extend(repr.areas.iter().cloned());\n        self.remove_invalid_sub_areas();")]),
 ("P18 get_cell guard", "P18", [(PT, "        if row >= self.data.len() {\n            return None;\n        }\n        if col >= self.data[0].len() {\n            return None;\n        }\n\n        if self.strings", "        if row >= self.data.len() {\n            return None;\n        }\n\n        if self.strings")]),
 ("P18 set value guard le", "P18", [(PT, "    fn set_cell_value(&mut self, row: usize, col: usize, val: u16) {\n        if row >= self.data.len() {", "    fn set_cell_value(&mut self, row: usize, col: usize, val: u16) {\n        if row > self.data.len() {")]),
 ("P18 clear row unchecked", "P18", [(PT, "    fn clear_cell(&mut self, row: usize, col: usize) {\n        if row >= self.data.len() {\n            return;\n        }", "    fn clear_cell(&mut self, row: usize, col: usize) {")]),
 ("P18 swapped dims", "P18", [(PT, "    fn get_cell_value(&mut self, row: usize, col: usize) -> u16 {\n        if row >= self.data.len() {\n            return 0;\n        }\n        if col >= self.data[0].len() {", "    fn get_cell_value(&mut self, row: usize, col: usize) -> u16 {\n        if row >= self.data.len() {\n            return 0;\n        }\n        if col >= self.data.len() {")]),
 ("P18 set_rows unlimited", "P18", [(PT, "        self.rows = rows.min(self.data.len());\n        self.modified_all_cols();", "        self.rows = rows;\n        self.modified_all_cols();")]),
 ("P18 from_repr rows", "P18", [(PT, "self.rows = repr.rows.min(self.data.len());", "self.rows = repr.rows;")]),
 ("P18 seq rows", "P18", [(TS, "        self.rows = rows.min(MAX_PATTERN_LEN);\n", "        self.rows = rows;\n")]),
 ("P18 col type unguarded", "P18", [(PT, "    fn set_col_note_type(&mut self, col: usize) {\n        if col >= self.col_types.len() {\n            return;\n        }", "    fn set_col_note_type(&mut self, col: usize) {")]),
 ("P18 is_col index", "P18", [(PT, "        if let Some(ct) = self.col_types.get(col) {\n            *ct == PatternColType::Gate\n        } else {\n            false\n        }", "        self.col_types[col] == PatternColType::Gate")]),
 ("P18 change overflow", "P18", [(PT, "val.saturating_add(offs)", "(val + offs)")]),
 ("P18 benign modified index", "", [(PT, "        if let Some(bit) = self.dirty_col.get_mut(col) {\n            *bit = true;\n        }", "        self.dirty_col[col] = true;")]),
 ("P18 benign get", "", [(PT, "        if row >= self.data.len() {\n            return 0;\n        }\n        if col >= self.data[0].len() {\n            return 0;\n        }\n\n        self.data[row][col].unwrap_or(0)", "        self.data.get(row).and_then(|r| r.get(col)).copied().flatten().unwrap_or(0)")]),
 ("P18 benign helper", "", [(PT, "    fn clear_cell(&mut self, row: usize, col: usize) {\n        if row >= self.data.len() {\n            return;\n        }\n        if col >= self.data[0].len() {\n            return;\n        }\n", "    fn clear_cell(&mut self, row: usize, col: usize) {\n        if !self.in_range(row, col) {\n            return;\n        }\n"), (PT, "    fn modified_col(&mut self, col: usize) {", "    fn in_range(&self, row: usize, col: usize) -> bool {\n        row < self.data.len() && col < self.data[0].len()\n    }\n\n    fn modified_col(&mut self, col: usize) {")]),
 ("P18 benign consts", "", [(PT, "    fn clear_cell(&mut self, row: usize, col: usize) {\n        if row >= self.data.len() {\n            return;\n        }\n        if col >= self.data[0].len() {\n            return;\n        }\n", "    fn clear_cell(&mut self, row: usize, col: usize) {\n        if row >= MAX_PATTERN_LEN || col >= MAX_COLS {\n            return;\n        }\n")]),
 ("P18 benign rows if", "", [(PT, "        self.rows = rows.min(self.data.len());\n        self.modified_all_cols();", "        let max = self.data.len();\n        self.rows = if rows > max { max } else { rows };\n        self.modified_all_cols();")]),
 ("P18 benign let else", "", [(PT, "        if row >= self.data.len() {\n            return None;\n        }\n        if col >= self.data[0].len() {\n            return None;\n        }\n\n        if self.strings[row][col].is_none() {\n            if let Some(v) = self.data[row][col] {\n                self.strings[row][col] = Some(format!(\"{:03x}\", v));\n            } else {\n                return None;\n            }\n        }\n\n        Some(self.strings[row][col].as_ref().unwrap())", "        let v = (*self.data.get(row)?.get(col)?)?;\n        let s = &mut self.strings[row][col];\n        Some(s.get_or_insert_with(|| format!(\"{:03x}\", v)).as_str())")]),

 ("P20 clone no check", "P20", [(WL, "        if area2.check_space_at(x2, y2, block.rows) {\n            area2.set_block_at(x2, y2, block);\n            self.generation += 1;\n            Ok(())\n        } else {\n            Err(BlockDSPError::NoSpaceAvailable(id2, x2, y2, rows))\n        }", "        let _ = rows;\n            area2.set_block_at(x2, y2, block);\n            self.generation += 1;\n            Ok(())")]),
 ("P20 clone check 1 row", "P20", [(WL, "        if area2.check_space_at(x2, y2, block.rows) {\n            area2.set_block_at(x2, y2, block);\n            self.generation += 1;", "        if area2.check_space_at(x2, y2, 1) {\n            area2.set_block_at(x2, y2, block);\n            self.generation += 1;")]),
 ("P20 clone no gen", "P20", [(WL, "            area2.set_block_at(x2, y2, block);\n            self.generation += 1;\n", "            area2.set_block_at(x2, y2, block);\n")]),
 ("P20 move no putback", "P20", [(WL, "            if let Some(area) = self.areas.get_mut(id) {\n                area.set_block_at(xo, yo, block);\n            }\n            Err(", "            Err(")]),
 ("P20 move putback wrong", "P20", [(WL, "                area.set_block_at(xo, yo, block);", "                area.set_block_at(x, y, block);")]),
 ("P20 move putback other area", "P20", [(WL, "            if let Some(area) = self.areas.get_mut(id) {\n                area.set_block_at(xo, yo, block);", "            if let Some(area) = self.areas.get_mut(id2) {\n                area.set_block_at(xo, yo, block);")]),
 ("P20 move area check late", "P20", [(WL, "        if id2 >= self.areas.len() {\n            return Err(BlockDSPError::UnknownArea(id2));\n        }\n\n        let (block, xo, yo)", "        let (block, xo, yo)")]),
 ("P20 move gen", "P20", [(WL, "        let rows = block.rows;\n\n        self.generation += 1;\n\n        if area2", "        let rows = block.rows;\n\n        if area2")]),
 ("P20 move no circular", "P20", [(WL, "        if self.area_is_subarea_of(id2, id, x, y) {\n            return Err(BlockDSPError::CircularAction(id, id2));\n        }\n", "")]),
 ("P20 move circular swapped", "P20", [(WL, "        if self.area_is_subarea_of(id2, id, x, y) {", "        if self.area_is_subarea_of(id, id2, x2, y2) {")]),
 ("P20 chain no circular", "P20", [(WL, "            if chain.area_is_subarea_of_loaded(id2, self) {", "            if id2 < id && chain.area_is_subarea_of_loaded(id2, self) {")]),
 ("P20 chain store early", "P20", [(WL, "            chain.move_by_offs((grab_x_offs + x2).max(0), (grab_y_offs + y2).max(0));\n", "            chain.move_by_offs((grab_x_offs + x2).max(0), (grab_y_offs + y2).max(0));\n            self.areas[id] = area_clone.clone();\n")]),
 ("P20 chain no fit check", "P20", [(WL, "            if !chain.try_fit_load_into_space(&mut area2_clone) {\n                return Err(BlockDSPError::NoSpaceAvailable(id, x2, y2, 1));\n            }\n", "            chain.try_fit_load_into_space(&mut area2_clone);\n")]),
 ("P20 chain fit other area", "P20", [(WL, "            if !chain.try_fit_load_into_space(&mut area2_clone) {", "            if !chain.try_fit_load_into_space(&mut area_clone) {")]),
 ("P20 chain store forgotten", "P20", [(WL, "            self.areas[id] = area_clone;\n            self.areas[id2] = area2_clone;", "            self.areas[id2] = area2_clone;")]),
 ("P20 chain stores swapped", "P20", [(WL, "            self.areas[id] = area_clone;\n            self.areas[id2] = area2_clone;", "            self.areas[id2] = area_clone;\n            self.areas[id] = area2_clone;")]),
 ("P20 fit other offset", "P20", [(WL, "                self.move_by_offs(*xo, *yo);\n                return true;", "                self.move_by_offs(*xo, *xo);\n                return true;")]),
 ("P20 fit not moved", "P20", [(WL, "                self.move_by_offs(*xo, *yo);\n                return true;", "                return true;")]),
 ("P20 fit skips source", "P20", [(WL, "        for (block, x, y) in self.load.iter() {\n            if !area.check_space_at(*x + xoffs, *y + yoffs, block.rows) {", "        for (block, x, y) in self.load.iter() {\n            if block.rows > 1 && !area.check_space_at(*x + xoffs, *y + yoffs, block.rows) {")]),
 ("P20 fit swapped", "P20", [(WL, "            if !area.check_space_at(*x + xoffs, *y + yoffs, block.rows) {", "            if !area.check_space_at(*x + yoffs, *y + xoffs, block.rows) {")]),
 ("P20 split no check", "P20", [(WL, "        if !chain.area_has_space_for_load(&mut area_clone, 0, 0) {", "        if typ.is_some() && !chain.area_has_space_for_load(&mut area_clone, 0, 0) {")]),
 ("P20 split gen", "P20", [(WL, "        chain.place_load(&mut area_clone);\n        self.generation += 1;\n", "        chain.place_load(&mut area_clone);\n")]),
 ("P20 split place into old", "P20", [(WL, "        self.areas[id] = area_clone;\n\n        Ok(())", "        self.areas.swap(id, id);\n\n        Ok(())")]),
 ("P20 inst check pos", "P20", [(WL, "                    if !area.check_space_at(x, y, typ.rows) {", "                    if !area.check_space_at(y, x, typ.rows) {")]),
 ("P20 inst only multi rows", "P20", [(WL, "                    if !area.check_space_at(x, y, typ.rows) {", "                    if typ.rows > 1 && !area.check_space_at(x, y, typ.rows) {")]),
 ("P20 inst rows inputs", "P20", [(WL, "                    if !area.check_space_at(x, y, typ.rows) {", "                    if !area.check_space_at(x, y, typ.inputs.len()) {")]),
 ("P20 inst root only", "P20", [(WL, "            if let Some(area) = self.areas.get_mut(id) {\n                if let Some(typ) = lang", "            if let Some(area) = self.areas.get_mut(0) {\n                if let Some(typ) = lang")]),
 ("P20 remove gen", "P20", [(WL, "        area.remove_at(x, y).ok_or(BlockDSPError::NoBlockAt(id, x, y))?;\n        self.generation += 1;", "        area.remove_at(x, y).ok_or(BlockDSPError::NoBlockAt(id, x, y))?;\n        if id == 0 {\n            self.generation += 1;\n        }")]),
 ("P20 shift gen", "P20", [(WL, "            block.shift_port(row, output);\n            self.generation += 1;", "            block.shift_port(row, output);")]),
 ("P20 load gen reset", "P20", [(WL, "        self.recalculate_area_sizes();\n        self.generation += 1;", "        self.recalculate_area_sizes();\n        self.generation = 1;")]),
 ("P20 load gen none", "P20", [(WL, "        self.recalculate_area_sizes();\n        self.generation += 1;", "        self.recalculate_area_sizes();")]),
 ("P20 space last row", "P20", [(WL, "        for i in 0..rows {\n            let yo = y + (i as i64);", "        for i in 1..rows {\n            let yo = y + (i as i64);")]),
 ("P20 space rows-1", "P20", [(WL, "        for i in 0..rows {\n            let yo = y + (i as i64);", "        for i in 0..(rows - 1) {\n            let yo = y + (i as i64);")]),
 ("P20 space minus", "P20", [(WL, "            let yo = y + (i as i64);", "            let yo = y - (i as i64);")]),
 ("P20 set no table", "P20", [(WL, "        self.blocks.insert((x, y), block);\n        self.update_origin_map();\n    }\n\n    fn remove_at", "        self.blocks.insert((x, y), block);\n        self.origin_map.insert((x, y), (x, y));\n    }\n\n    fn remove_at")]),
 ("P20 remove no table", "P20", [(WL, "            let (xo, yo) = (*xo, *yo);\n            self.update_origin_map();\n", "            let (xo, yo) = (*xo, *yo);\n")]),
 ("P20 table rows", "P20", [(WL, "            for r in 0..block.rows {\n                self.origin_map", "            for r in 0..block.inputs.len() {\n                self.origin_map")]),
 ("P20 table swap", "P20", [(WL, "oy.saturating_add(r as i64)), (*ox, *oy));", "oy.saturating_add(r as i64)), (*oy, *ox));")]),
 ("P20 contains one", "P20", [(WL, "            if let Some(sub_area) = block.contains.1 {\n                out.push(sub_area);\n            }\n", "")]),
 ("P20 upload lt", "P20", [(GD, "                    if *generation != block_fun.generation() {", "                    if *generation < block_fun.generation() {")]),
 ("P20 upload id", "P20", [(GD, "                        if let Some(cod) = self.code_engines.get_mut(&id) {", "                        if let Some(cod) = self.code_engines.get_mut(&0) {")]),
 ("P20 upload unset", "P20", [(GD, "                        let mut compiler = Block2JITCompiler::new(block_fun.block_language());", "                        if block_fun.area_size(0).0 < 2 {\n                            return Ok(());\n                        }\n                        let mut compiler = Block2JITCompiler::new(block_fun.block_language());")]),
 ("P20 benign any", "", [(WL, "        for i in 0..rows {\n            let yo = y + (i as i64);\n\n            if self.origin_map.get(&(x, yo)).is_some() {\n                return false;\n            }\n        }\n\n        true", "        !(0..rows).any(|i| self.origin_map.contains_key(&(x, y + i as i64)))")]),
 ("P20 benign clone early return", "", [(WL, "        if area2.check_space_at(x2, y2, block.rows) {\n            area2.set_block_at(x2, y2, block);\n            self.generation += 1;\n            Ok(())\n        } else {\n            Err(BlockDSPError::NoSpaceAvailable(id2, x2, y2, rows))\n        }", "        if !area2.check_space_at(x2, y2, rows) {\n            return Err(BlockDSPError::NoSpaceAvailable(id2, x2, y2, rows));\n        }\n        area2.set_block_at(x2, y2, block);\n        self.generation += 1;\n        Ok(())")]),
 ("P20 benign helper put", "", [(WL, "        if area2.check_space_at(x2, y2, block.rows) {\n            area2.set_block_at(x2, y2, block);\n            self.generation += 1;\n            Ok(())\n        } else {\n            Err(BlockDSPError::NoSpaceAvailable(id2, x2, y2, rows))\n        }", "        if let Err(_) = area2.try_put(x2, y2, block) {\n            return Err(BlockDSPError::NoSpaceAvailable(id2, x2, y2, rows));\n        }\n        self.generation += 1;\n        Ok(())"), (WL, "    fn remove_at(&mut self, x: i64, y: i64) -> Option<(Box<Block>, i64, i64)> {", "    fn try_put(&mut self, x: i64, y: i64, block: Box<Block>) -> Result<(), Box<Block>> {\n        if self.check_space_at(x, y, block.rows) {\n            self.set_block_at(x, y, block);\n            Ok(())\n        } else {\n            Err(block)\n        }\n    }\n\n    fn remove_at(&mut self, x: i64, y: i64) -> Option<(Box<Block>, i64, i64)> {")]),
 ("P20 benign all", "", [(WL, "        for (block, x, y) in self.load.iter() {\n            if !area.check_space_at(*x + xoffs, *y + yoffs, block.rows) {\n                return false;\n            }\n        }\n\n        true", "        self.load.iter().all(|(block, x, y)| area.check_space_at(*x + xoffs, *y + yoffs, block.rows))")]),
 ("P20 benign check first", "", [(WL, "        let area2 = self.areas.get_mut(id2).ok_or(BlockDSPError::UnknownArea(id2))?;\n        let rows = block.rows;\n\n        self.generation += 1;\n\n        if area2.check_space_at(x2, y2, block.rows) {\n            area2.set_block_at(x2, y2, block);\n            Ok(())\n        } else {\n            if let Some(area) = self.areas.get_mut(id) {\n                area.set_block_at(xo, yo, block);\n            }\n            Err(BlockDSPError::NoSpaceAvailable(id2, x2, y2, rows))\n        }", "        self.generation += 1;\n        let rows = block.rows;\n        let fits = self.areas[id2].check_space_at(x2, y2, rows);\n        if !fits {\n            self.areas[id].set_block_at(xo, yo, block);\n            return Err(BlockDSPError::NoSpaceAvailable(id2, x2, y2, rows));\n        }\n        self.areas[id2].set_block_at(x2, y2, block);\n        Ok(())")]),
 ("P20 benign inst once", "", [(WL, "            if let Some(area) = self.areas.get_mut(id) {\n                if let Some(typ) = lang.types.get(typ) {\n                    if !area.check_space_at(x, y, typ.rows) {\n                        return Err(BlockDSPError::NoSpaceAvailable(id, x, y, typ.rows));\n                    }\n                }\n            } else {\n                return Err(BlockDSPError::UnknownArea(id));\n            }\n\n            let typ =\n                lang.types.get(typ).ok_or(BlockDSPError::UnknownLanguageType(typ.to_string()))?;\n", "            let area = self.areas.get(id).ok_or(BlockDSPError::UnknownArea(id))?;\n            let typ =\n                lang.types.get(typ).ok_or(BlockDSPError::UnknownLanguageType(typ.to_string()))?;\n            if !area.check_space_at(x, y, typ.rows) {\n                return Err(BlockDSPError::NoSpaceAvailable(id, x, y, typ.rows));\n            }\n")]),
 ("P20 benign sub loop", "", [(WL, "            if let Some(sub_area) = block.contains.0 {\n                out.push(sub_area);\n            }\n\n            if let Some(sub_area) = block.contains.1 {\n                out.push(sub_area);\n            }\n", "            out.extend(block.contains.0.iter().chain(block.contains.1.iter()).copied());\n")]),
 ("P20 benign upload", "", [(GD, "                        if let Some(cod) = self.code_engines.get_mut(&id) {\n                            match cod.upload(ast) {\n                                Err(e) => return Err(BlkJITCompileError::JITCompileError(e)),\n                                Ok(()) => (),\n                            }\n                        }", "                        if let Some(cod) = self.code_engines.get_mut(&id) {\n                            cod.upload(ast).map_err(BlkJITCompileError::JITCompileError)?;\n                        }")]),

 ("fresh p07 modops resize clone", "P07", [(NP, "modops.resize_with(mod_len, ModOp::new);", "modops.resize(mod_len, ModOp::new());")]),
 ("fresh p07 out resize clone", "P07", [(NP, "out.resize_with(out_len, ProcBuf::new);", "out.resize(out_len, ProcBuf::new());")]),
 ("fresh p07 forget old", "P07", [(NE, "let _ = self.shared.graph_drop_prod.push(DropMsg::Prog { prog: prev_prog });\n                }\n                GraphMessage::NewProg", "if let Err(msg) = self.shared.graph_drop_prod.push(DropMsg::Prog { prog: prev_prog }) {\n                        std::mem::forget(msg);\n                    }\n                }\n                GraphMessage::NewProg")]),
 ("fresh p07 drop skip locked", "P07", [(NP, "        for buf in self.inp.iter_mut() {\n            buf.free();\n        }\n\n        for buf in self.out", "        if !self.locked_buffers {\n            for buf in self.inp.iter_mut() {\n                buf.free();\n            }\n        }\n\n        for buf in self.out")]),
 ("fresh p07 drop cur_inp", "P07", [(NP, "        for buf in self.inp.iter_mut() {\n            buf.free();\n        }\n\n        for buf in self.out", "        for buf in self.inp.iter_mut().skip(self.out.len().min(0)).take(self.params.len().saturating_sub(1)) {\n            buf.free();\n        }\n\n        for buf in self.out")]),
 ("fresh p07 unlock keep in", "P07", [(NP, "        self.outbuf = ProcBuf::null();\n        self.inbuf = ProcBuf::null();", "        self.outbuf = ProcBuf::null();")]),
 ("fresh p07 swap assign out", "P07", [(NP, "            std::mem::swap(old_inp_pb, new_inp_pb);", "            *new_inp_pb = *old_inp_pb;")]),
 ("fresh p07 swap modops", "P07", [(NP, "        for (old_inp_pb, new_inp_pb) in prev_prog.inp.iter_mut()", "        for (o, n) in prev_prog.modops.iter_mut().zip(self.modops.iter_mut()) {\n            *n = o.clone();\n        }\n\n        for (old_inp_pb, new_inp_pb) in prev_prog.inp.iter_mut()")]),
 ("fresh p08 skip tiny", "P08", [(NE, "        // First check if we already have a running smoother for this param:", "        if (prog.params[input_idx] - value).abs() < 0.00001 {\n            return;\n        }\n\n        // First check if we already have a running smoother for this param:")]),
 ("fresh p08 refresh only done", "P08", [(NE, "            self.target_refresh.push((*idx, last_v));", "            if nframes == crate::dsp::MAX_BLOCK_SIZE {\n                self.target_refresh.push((*idx, last_v));\n            }")]),
 ("fresh p08 refresh first", "P08", [(NE, "        while let Some((idx, v)) = self.target_refresh.pop() {", "        if let Some((idx, v)) = self.target_refresh.pop() {")]),
 ("fresh p08 busy no refresh upd", "P08", [(NE, "                if *idx == input_idx {\n                    *v = value;\n                }", "                if *idx == input_idx && *v > value {\n                    *v = value;\n                }")]),
 ("fresh p08 default over stored", "P08", [(NC, "if let Some(value) = self.param_values.get(&param_id) {\n                        *value", "if let Some(value) = self.param_values.get(&param_id).filter(|v| **v >= 0.0) {\n                        *value")]),
 ("fresh p08 atom active old", "P08", [(NC, "nparam.value = at.clone();\n", "if nparam.value.type_str() == at.type_str() {\n                    nparam.value = at.clone();\n                }\n")]),
 ("fresh p08 upload unassigned", "P08", [(NC, "            if let Some(nparam) = self.params.get_mut(&param) {\n                let value", "            if let Some(nparam) = self.params.get_mut(&param).filter(|p| p.modamt.is_none()) {\n                let value")]),
 ("fresh p09 midip break chan", "P09", [("src/dsp/node_midip.rs", "                    HxMidiEvent::NoteOff { channel, note } => {\n                        if channel != midip_channel {\n                            continue;", "                    HxMidiEvent::NoteOff { channel, note } => {\n                        if channel != midip_channel {\n                            break;")]),
 ("fresh p09 midip one retrig", "P09", [("src/dsp/node_midip.rs", "                        self.cur_note = note;\n                        self.cur_vel = vel;\n", "                        self.cur_note = note;\n                        self.cur_vel = vel;\n                        if self.next_gate > 0 {\n                            break;\n                        }\n")]),
 ("fresh p09 inj cap drop", "P09", [(NE, "            for ev in self.injected_midi.iter() {", "            for ev in self.injected_midi.iter().take(64) {")]),
 ("fresh p09 only if room", "P09", [(NE, "                    self.exec_ctx.midi_notes.push(ev);\n                }\n                let _", "                    if self.exec_ctx.midi_notes.last().map(|l| format!(\"\").len() == 0 && l.is_cc()).unwrap_or(true) {\n                        self.exec_ctx.midi_notes.push(ev);\n                    }\n                }\n                let _")]),
 ("fresh p09 fwd before cap", "P09", [(NE, "            let _ = self.shared.graph_event_prod.push(GraphEvent::MIDI(ev.kind()));\n\n            if self", "            if self.exec_ctx.midi_ccs.len() < MAX_INJ_MIDI_EVENTS {\n                let _ = self.shared.graph_event_prod.push(GraphEvent::MIDI(ev.kind()));\n            }\n\n            if self")]),
 ("fresh p09 window sat", "P09", [("src/nodes/midi.rs", "event.timing < (to_time + block_size)", "event.timing >= to_time && event.timing < (to_time + block_size)")]),
 ("fresh p09 sorted", "P09", [(NE, "            self.injected_midi.clear();\n        }\n", "            self.injected_midi.clear();\n        }\n        self.exec_ctx.midi_notes.truncate(MAX_INJ_MIDI_EVENTS / 2);\n")]),
 ("fresh p09 new_timed 1", "P09", [("src/nodes/midi.rs", "        Self { timing, kind }\n    }\n\n    pub fn is_cc", "        Self { timing: timing.min(crate::dsp::MAX_BLOCK_SIZE - 1), kind }\n    }\n\n    pub fn is_cc")]),
 ("fresh p03 swap smoother keep", "P03", [(NE, "            if *idx >= prog.inp.len() || *idx >= prog.params.len() {", "            if *idx > prog.inp.len() || *idx > prog.params.len() {")]),
 ("fresh p03 monitor out len", "P03", [(NE, "let sig = if i > 2 { prog.out.get(*idx) } else { prog.cur_inp.get(*idx) };", "let sig = if i > 2 { prog.out.get(*idx) } else if *idx < prog.out.len() { Some(&prog.cur_inp[*idx]) } else { None };")]),
 ("fresh p03 clear smoothers active node only", "P03", [(NE, "                    self.target_refresh.clear();\n\n                    self.monitor", "                    if prog.inp.len() > 0 {\n                        self.target_refresh.clear();\n                    }\n\n                    self.monitor")]),
 ("fresh p03 out local2global", "P03", [(NC, "        let idx = self.out_start + idx as usize;\n        if idx < self.out_end {", "        let idx = self.out_start + idx as usize;\n        if idx <= self.out_end {")]),
 ("fresh p06 delay later", "P06", [("src/dsp/node_delay.rs", "        self.buffer.set_sample_rate(srate);", "        if srate > 44100.0 {\n            self.buffer.set_sample_rate(srate);\n        }")]),
 ("fresh p06 exec same rate skip", "P06", [(NE, "        for op in self.prog.prog.iter() {\n            op.node.set_sample_rate(sample_rate);", "        for op in self.prog.prog.iter().filter(|op| op.out_connected != 0) {\n            op.node.set_sample_rate(sample_rate);")]),
 ("fresh p06 adsr const", "P06", [("src/dsp/node_adsr.rs", "        self.env.set_sample_rate(srate);\n    }", "        self.env.set_sample_rate(srate.min(48000.0));\n    }")]),
 ("fresh p06 smoother busy", "P06", [(NE, "        for sm in self.smoothers.iter_mut() {\n            sm.1.set", "        for sm in self.smoothers.iter_mut().filter(|s| s.1.is_done()) {\n            sm.1.set")]),

 ("fresh p10 restore keep saved", "P10", [(MX, "if let Some(matrix) = self.saved_matrix.take() {\n            self.matrix = matrix;", "if let Some(matrix) = self.saved_matrix.take() {\n            for (dst, src) in self.matrix.iter_mut().zip(matrix.iter()) {\n                if !src.is_empty() {\n                    *dst = *src;\n                }\n            }")]),
 ("fresh p10 dup key node only input0", "P10", [(MX, "                edge_map.insert((edge.to, edge.to_input), (edge.from, edge.from_out));", "                if edge.to != edge.from {\n                    edge_map.insert((edge.to, edge.to_input), (edge.from, edge.from_out));\n                }")]),
 ("fresh p10 cycle only multi", "P10", [(MX, "        let mut ordered_nodes = vec![];\n        if !self.graph_ordering.calculate_order(&mut ordered_nodes) {\n            return Err(MatrixError::CycleDetected);\n        }\n\n        Ok(())", "        let mut ordered_nodes = vec![];\n        if !self.graph_ordering.calculate_order(&mut ordered_nodes) && self.edges.len() > 1 {\n            return Err(MatrixError::CycleDetected);\n        }\n\n        Ok(())")]),
 ("fresh p10 multi allows same id", "P10", [(MX, "if !existing.is_empty() {", "if !existing.is_empty() && existing.node_id() != cell.node_id() {")]),
 ("fresh p10 check then place", "P10", [(MX, "                self.place(x, y, *cell);\n            } else {\n                return Err(MatrixError::PosOutOfRange);", "                self.place(x, y, *cell);\n            } else if !cell.is_empty() {\n                return Err(MatrixError::PosOutOfRange);")]),
 ("fresh p10 f err sync", "P10", [(MX, "        if let Err(e) = f(self) {\n            self.restore_matrix();\n            return Err(e);\n        }\n\n        if", "        f(self)?;\n\n        if")]),
 ("fresh p10 saved only nonempty", "P10", [(MX, "        let matrix = self.matrix.clone();\n        self.saved_matrix = Some(matrix);", "        if self.matrix.iter().any(|c| !c.is_empty()) {\n            let matrix = self.matrix.clone();\n            self.saved_matrix = Some(matrix);\n        }")]),
 ("fresh p10 restore checks", "P10", [(MX, "            self.matrix = matrix;\n            // A", "            std::mem::swap(&mut self.matrix, &mut matrix.clone());\n            self.saved_matrix = None;\n            if self.edges.len() == 0 { return; }\n            // A")]),
 ("fresh p11 skip isolated", "P11", [(MX, "        for node_id in ordered_nodes.iter() {\n            self.config.add_prog_node(&mut prog, node_id);", "        for node_id in ordered_nodes.iter().filter(|id| self.edges.len() == 0 || self.edges.iter().any(|e| e.to == **id || e.from == **id)) {\n            self.config.add_prog_node(&mut prog, node_id);")]),
 ("fresh p11 edges dedup", "P11", [(MX, "        for edge in self.edges.iter() {\n            if let Some(pid)", "        self.edges.dedup_by_key(|e| (e.from, e.to));\n        for edge in self.edges.iter() {\n            if let Some(pid)")]),
 ("fresh p11 in3 needs in2", "P11", [(MX, "match (cell.in3, in3_output) {", "match (cell.in3.or(cell.in2), in3_output) {")]),
 ("fresh p11 adjacent out nop", "P22", [(MX, "        if cell.node_id == NodeId::Nop {\n            return None;\n        }\n\n        let cell_out", "        if cell.node_id == NodeId::Nop || cell.y == 0 && y == 0 && cell.x == 0 {\n            return None;\n        }\n\n        let cell_out")]),
 ("fresh p11 get_adj_out TL BL", "P22", [(MX, "            CellDir::TL => cell.out2?,\n            CellDir::BL => cell.out1?,", "            CellDir::TL => cell.out2?,\n            CellDir::BL => cell.out1.or(cell.out2)?,")]),
 ("fresh p11 modidx first", "P11", [(NP, "                if let Some(idx) = io.2 {\n                    input_bufs[io.1] = self.modops[idx].lock(self.inp[io.1], out_bufs[io.0]);", "                if let Some(idx) = io.2 {\n                    input_bufs[io.1] = self.modops[idx].lock(out_bufs[io.0], self.inp[io.1]);")]),
 ("fresh p11 append edge first only", "P11", [(NP, "                n_op.inputs.push((out_index, inp_index, mod_index));", "                if !n_op.inputs.iter().any(|i| i.0 == out_index) {\n                    n_op.inputs.push((out_index, inp_index, mod_index));\n                }")]),
 ("fresh p11 sync skip unchanged", "P11", [(MX, "        let prog = self.build_prog()?;\n\n        self.config.upload_prog(prog, true);", "        let old = self.edges.clone();\n        let prog = self.build_prog()?;\n        if old.is_empty() && self.gen_counter > 0 && prog.prog.is_empty() {\n            return Ok(());\n        }\n\n        self.config.upload_prog(prog, true);")]),
 ("fresh p12 load skip empty val", "P12", [(NC, "            self.set_param(*param_id, val.into());\n            self.set_param_modamt(*param_id, *modamt);", "            self.set_param(*param_id, val.into());\n            if modamt.unwrap_or(0.0) != 0.0 {\n                self.set_param_modamt(*param_id, *modamt);\n            }")]),
 ("fresh p12 pattern unlock fail", "P12", [(MX, "for (tracker_id, pat) in repr.patterns.iter().enumerate() {", "for (tracker_id, pat) in repr.patterns.iter().flatten().map(|p| Some(p.clone())).enumerate() {"), (MX, "            if let Some(pat) = pat {\n                if let Some(pd)", "            if let Some(pat) = pat.as_ref() {\n                if let Some(pd)")]),
 ("fresh p12 clear assigned", "P12", [(MX, "        self.edges.clear();\n        self.assigned_inputs.clear();\n        self.saved_matrix = None;", "        self.edges.clear();\n        self.assigned_inputs.clear();")]),
 ("fresh p12 clear sync skipped", "P12", [(NC, "        self.params.clear();\n        self.param_values.clear();\n        self.param_modamt.clear();", "        self.params.clear();\n        self.param_values.clear();\n        self.param_modamt.retain(|_, v| v.is_none());")]),
 ("fresh p12 props first wins", "P12", [(MX, "            self.properties.insert(key.to_string(), val.clone());\n        }\n\n        for cell_repr", "            self.properties.entry(key.trim().to_string()).or_insert(val.clone());\n        }\n\n        for cell_repr")]),
 ("fresh p12 place clash", "P12", [(MX, "            self.place(cell.x as usize, cell.y as usize, cell);\n        }\n\n        // The", "            if self.get(cell.x as usize, cell.y as usize).map_or(true, |c| c.node_id().instance() == 0) {\n                self.place(cell.x as usize, cell.y as usize, cell);\n            }\n        }\n\n        // The")]),
 ("fresh p24 modamt err", "P24", [(MX, "            let ret = self.sync();\n            self.observer = obs;\n            ret", "            self.sync()?;\n            self.observer = obs;\n            Ok(())")]),
 ("fresh p24 prop only changed", "P24", [(MX, "        self.gen_counter += 1;\n        self.properties.insert(key.to_string(), val);\n        if let Some(obs) = &self.observer {\n            obs.update_prop(key);\n        }", "        self.gen_counter += 1;\n        if self.properties.insert(key.to_string(), val).is_none() {\n            if let Some(obs) = &self.observer {\n                obs.update_prop(key);\n            }\n        }")]),
 ("fresh p24 monitor out order", "P24", [(MX, "let outputs = [cell.out1, cell.out2, cell.out3];", "let outputs = [cell.out3, cell.out2, cell.out1];")]),
 ("fresh p24 monitor only if known", "P24", [(MX, "        self.config.monitor(&cell.node_id, &inputs, &outputs);\n\n        if let Some(obs) = &self.observer {\n            obs.update_monitor", "        self.config.monitor(&cell.node_id, &inputs, &outputs);\n\n        if cell.is_empty() {\n            return;\n        }\n\n        if let Some(obs) = &self.observer {\n            obs.update_monitor")]),
 ("fresh p24 load ok only", "P24", [(MX, "        let ret = self.sync();\n\n        if let Some(obs) = &self.observer {\n            obs.update_all();\n        }\n\n        ret", "        self.sync()?;\n\n        if let Some(obs) = &self.observer {\n            obs.update_all();\n        }\n\n        Ok(())")]),
 ("fresh p24 gen wrap", "P24", [(MX, "        self.config.set_param(param.clone(), at);\n        self.gen_counter += 1;", "        self.config.set_param(param.clone(), at);\n        self.gen_counter = (self.gen_counter + 1) % 65536;")]),
 ("fresh p24 sync before remonitor", "", [(MX, "        self.remonitor_cell();\n\n        if let Some(obs) = &self.observer {\n            obs.update_matrix();\n        }", "        if let Some(obs) = &self.observer {\n            obs.update_matrix();\n        }\n\n        self.remonitor_cell();")]),
 ("fresh p24 monitor conf skip", "P24", [(NC, "                        bufs[i] = global_idx;\n                    }\n                }\n\n                i += 1;\n            }\n\n            for out_idx", "                        bufs[i] = global_idx;\n                    }\n                    i += 1;\n                }\n            }\n\n            for out_idx")]),

 ("asg idx swap", "P11", [(NP, "input_bufs[io.1] = out_bufs[io.0];", "let k = io.0.min(input_bufs.len() - 1);\n                input_bufs[k] = out_bufs[io.0];")]),
 ("asg wrong order", "P11", [(NP, "            // First step (refresh inputs):\n            input_bufs[inp.0..inp.1].copy_from_slice(&self.inp[inp.0..inp.1]);\n", ""), (NP, "self.modops[idx].lock(self.inp[io.1], out_bufs[io.0]);\n                }\n            }\n", "self.modops[idx].lock(self.inp[io.1], out_bufs[io.0]);\n                }\n            }\n            input_bufs[inp.0..inp.1].copy_from_slice(&self.inp[inp.0..inp.1]);\n")]),
 ("asg null cond", "P11", [(NP, "input_bufs[io.1] = out_bufs[io.0];", "if !input_bufs[io.1].is_null() || io.1 < 64 {\n                    input_bufs[io.1] = out_bufs[io.0];\n                }")]),
 ("asg g separate loops", "", [(NP, "            input_bufs[inp.0..inp.1].copy_from_slice(&self.inp[inp.0..inp.1]);\n", "            for k in inp.0..inp.1 {\n                input_bufs[k] = self.inp[k];\n            }\n")]),
 ("asg g match", "", [(NP, "                input_bufs[io.1] = out_bufs[io.0];\n\n                if let Some(idx) = io.2 {\n                    input_bufs[io.1] = self.modops[idx].lock(self.inp[io.1], out_bufs[io.0]);\n                }", "                let (out_idx, inp_idx, mod_idx) = *io;\n                let src = out_bufs[out_idx];\n                input_bufs[inp_idx] = match mod_idx {\n                    Some(idx) => self.modops[idx].lock(self.inp[inp_idx], src),\n                    None => src,\n                };")]),

 # --- P17 / P27 / P28
 ("w drop if let", "P17", [("src/nodes/drop_thread.rs", "while let Some(_node) = graph_drop_con.pop() {", "if let Some(_node) = graph_drop_con.pop() {")]),
 ("w drop no store", "P17", [("src/nodes/drop_thread.rs", "self.terminate.store(true, std::sync::atomic::Ordering::Relaxed);", "self.terminate.store(false, std::sync::atomic::Ordering::Relaxed);")]),
 ("w drop join first", "P17", [("src/nodes/drop_thread.rs", "        self.terminate.store(true, std::sync::atomic::Ordering::Relaxed);\n        let _ = self.th.take().unwrap().join();", "        let _ = self.th.take().unwrap().join();\n        self.terminate.store(true, std::sync::atomic::Ordering::Relaxed);")]),
 ("w drop forget", "P17", [("src/nodes/drop_thread.rs", "//d// println!(\"Dropped some shit...\");", "std::mem::forget(_node);")]),
 ("w drop continue", "P17", [("src/nodes/drop_thread.rs", "                while let Some(_node) = graph_drop_con.pop() {", "                if graph_drop_con.len() < 8 {\n                    std::thread::sleep(std::time::Duration::from_millis(50));\n                    continue;\n                }\n\n                while let Some(_node) = graph_drop_con.pop() {")]),
 ("w term in loop only", "P17", [("src/nodes/drop_thread.rs", "                if th_terminate.load(std::sync::atomic::Ordering::Relaxed) {\n                    return;\n                }\n\n                while let Some(_node) = graph_drop_con.pop() {", "                while let Some(_node) = graph_drop_con.pop() {\n                    if th_terminate.load(std::sync::atomic::Ordering::Relaxed) {\n                        return;\n                    }\n")]),
 ("w monitor no term", "P17", [("src/monitor.rs", "self.terminate_proc.store(true, std::sync::atomic::Ordering::Relaxed);", "")]),
 ("w monitor term after data", "P17", [("src/monitor.rs", "                if th_terminate.load(std::sync::atomic::Ordering::Relaxed) {\n                    return;\n                }\n\n", ""), ("src/monitor.rs", "                    th_new_data.store(true, std::sync::atomic::Ordering::Relaxed);\n                }", "                    th_new_data.store(true, std::sync::atomic::Ordering::Relaxed);\n                } else if th_terminate.load(std::sync::atomic::Ordering::Relaxed) {\n                    return;\n                }")]),
 ("w rate not shared", "P17", [(NC, "sample_rate: sample_rate.clone(),\n            },", "sample_rate: Arc::new(AtomicFloat::new(44100.0)),\n            },")]),
 ("w g drop while stop", "", [("src/nodes/drop_thread.rs", "            loop {\n                if th_terminate.load(std::sync::atomic::Ordering::Relaxed) {\n                    return;\n                }\n", "            while !th_terminate.load(std::sync::atomic::Ordering::Relaxed) {\n")]),
 ("w g running flag", "", [("src/nodes/drop_thread.rs", "AtomicBool::new(false)", "AtomicBool::new(true)"), ("src/nodes/drop_thread.rs", "if th_terminate.load(", "if !th_terminate.load("), ("src/nodes/drop_thread.rs", "store(true,", "store(false,")]),
 ("w g drop helper", "", [("src/nodes/drop_thread.rs", "                while let Some(_node) = graph_drop_con.pop() {\n                    // drop it ...\n                    //d// println!(\"Dropped some shit...\");\n                }\n", "                drain(&mut graph_drop_con);\n"), ("src/nodes/drop_thread.rs", None, "\nfn drain(c: &mut Consumer<DropMsg>) {\n    loop {\n        match c.pop() {\n            Some(msg) => drop(msg),\n            None => break,\n        }\n    }\n}\n")]),
 ("w g take if let", "", [("src/nodes/drop_thread.rs", "let _ = self.th.take().unwrap().join();", "if let Some(th) = self.th.take() {\n            let _ = th.join();\n        }")]),

 ("r led plus", "P27", [(NC, "self.shared.node_ctx_values[idx * 2].get()", "self.shared.node_ctx_values[idx * 2 + 1].get()")]),
 ("r exec ctx idx", "P27", [(NE, "let ctx_idx = op.idx as usize * 2;", "let ctx_idx = op.idx as usize;")]),
 ("r inp params cur", "P27", [(NE, "params: &prog.inp[inp.0..inp.1],", "params: &prog.cur_inp[inp.0..inp.1],")]),
 ("r cur is inp", "P27", [(NE, "&prog.cur_inp[inp.0..inp.1],\n                &mut", "&prog.inp[inp.0..inp.1],\n                &mut")]),
 ("r at range", "P27", [(NE, "&prog.atoms[at.0..at.1]", "&prog.atoms[at.0..(at.1.min(at.0 + 4))]")]),
 ("r fb first frame", "P27", [(NE, "let last_frame_idx = nframes - 1;", "let last_frame_idx = 0;")]),
 ("r fb index local", "P27", [(NE, "for (pb, out_buf_idx) in prog.out[out.0..out.1].iter().zip(out.0..out.1) {", "for (out_buf_idx, pb) in prog.out[out.0..out.1].iter().enumerate() {")]),
 ("r fb if connected", "P27", [(NE, "                prog_out_fb[out_buf_idx] = pb.read(last_frame_idx);", "                if op.out_connected != 0 {\n                    prog_out_fb[out_buf_idx] = pb.read(last_frame_idx);\n                }")]),
 ("r swap flags", "P27", [(NE, "out_connected: op.out_connected,\n                    in_connected: op.in_connected,", "out_connected: op.in_connected,\n                    in_connected: op.out_connected,")]),
 ("r publish cond", "P27", [(NE, "prog.out_feedback.publish();", "if prog.prog.len() > 1 {\n            prog.out_feedback.publish();\n        }")]),
 ("r skip unconnected", "P27", [(NE, "            op.node.process(\n", "            if op.out_connected == 0 && op.in_connected == 0 {\n                continue;\n            }\n\n            op.node.process(\n")]),
 ("r modops after", "P27", [(NE, "            for modop in prog.modops[md.0..md.1].iter_mut() {\n                modop.process(nframes);\n            }\n", ""), (NE, "            let last_frame_idx = nframes - 1;", "            for modop in prog.modops[md.0..md.1].iter_mut() {\n                modop.process(nframes);\n            }\n            let last_frame_idx = nframes - 1;")]),
 ("r smoothers late", "P27", [(NE, "        self.process_smoothers(ctx.nframes());\n\n        let ctx_vals", "        let ctx_vals"), (NE, "    pub fn process<T: NodeAudioContext>(&mut self, ctx: &mut T) {", "    pub fn process<T: NodeAudioContext>(&mut self, ctx: &mut T) {\n        self.process_nodes(ctx);\n        self.process_smoothers(ctx.nframes());\n    }\n\n    #[inline]\n    fn process_nodes<T: NodeAudioContext>(&mut self, ctx: &mut T) {")]),
 ("r out_fb in", "P27", [(NC, "node_instance.out_local2global(out)?", "node_instance.in_local2global(out)?")]),
 ("r filter key", "P27", [("src/nodes/feedback_filter.rs", "self.out_filters.entry((*node_id, out))", "self.out_filters.entry((*node_id, out & 1))")]),
 ("r filter key inst", "P27", [("src/nodes/feedback_filter.rs", "self.led_filters.entry(*node_id)", "self.led_filters.entry(node_id.to_instance(0))")]),
 ("r mx phase led", "P27", [(MX, "self.config.phase_value_for(node_id)", "self.config.led_value_for(node_id)")]),
 ("r upd fb part", "P27", [(NC, "self.output_fb_values.copy_from_slice(&out_vec[..]);", "let n = out_vec.len().min(64);\n                self.output_fb_values[..n].copy_from_slice(&out_vec[..n]);")]),
 ("r g exec helper", "", [(NE, "            for modop in prog.modops[md.0..md.1].iter_mut() {\n                modop.process(nframes);\n            }\n", "            run_modops(&mut prog.modops[md.0..md.1], nframes);\n"), (NE, None, "\nfn run_modops(modops: &mut [crate::nodes::node_prog::ModOp], nframes: usize) {\n    let mut i = 0;\n    while i < modops.len() {\n        modops[i].process(nframes);\n        i += 1;\n    }\n}\n")]),
 ("r g fb loop", "", [(NE, "for (pb, out_buf_idx) in prog.out[out.0..out.1].iter().zip(out.0..out.1) {\n                prog_out_fb[out_buf_idx] = pb.read(last_frame_idx);", "for out_buf_idx in out.0..out.1 {\n                let v = prog.out[out_buf_idx].read(last_frame_idx);\n                prog_out_fb[out_buf_idx] = v;")]),
 ("r g fb enumerate", "", [(NE, "for (pb, out_buf_idx) in prog.out[out.0..out.1].iter().zip(out.0..out.1) {\n                prog_out_fb[out_buf_idx]", "for (i, pb) in prog.out[out.0..out.1].iter().enumerate() {\n                prog_out_fb[out.0 + i]")]),
 ("r g ctx inline", "", [(NE, "            let ctx_idx = op.idx as usize * 2;\n", ""), (NE, "&ctx_vals[ctx_idx..ctx_idx + 2],", "{\n                    let first = (op.idx as usize) << 1;\n                    &ctx_vals[first..=first + 1]\n                },")]),
 ("r g ops index", "", [(NE, "        for op in prog.prog.iter() {\n            let out = op.out_idxlen;", "        for op_idx in 0..prog.prog.len() {\n            let op = &prog.prog[op_idx];\n            let out = op.out_idxlen;")]),
 ("r g led match", "", [(NC, "self.shared.node_ctx_values[idx * 2].get()", "{\n                let cell = 2 * idx;\n                self.shared.node_ctx_values.get(cell).map(|v| v.get()).unwrap_or(0.0)\n            }")]),

 ("m feed slot", "P28", [(NE, "mon.feed(i, ctx.nframes(), sig);", "mon.feed(if i > 2 { i - 3 } else { i }, ctx.nframes(), sig);")]),
 ("m i ge 2", "P28", [(NE, "let sig = if i > 2 { prog.out", "let sig = if i >= 2 { prog.out")]),
 ("m inp params", "P28", [(NE, "else { prog.cur_inp.get(*idx) };", "else { prog.inp.get(*idx) };")]),
 ("m filter count", "P28", [(NE, "for (i, idx) in self.monitor_signal_cur_inp_indices.iter().enumerate() {", "for (i, idx) in self.monitor_signal_cur_inp_indices.iter().filter(|i| **i != UNUSED_MONITOR_IDX).enumerate() {")]),
 ("m not sent", "P28", [(NE, "                self.shared.monitor_backend.send_mon_buf(mon);", "                if self.shared.monitor_backend.count_unused_mon_bufs() > 0 {\n                    self.shared.monitor_backend.send_mon_buf(mon);\n                }")]),
 ("m recycle drop", "P28", [("src/monitor.rs", "while let Some(buf) = self.rb_recycle_con.pop() {\n            self.unused_monitor_buffers.push(buf);", "while let Some(buf) = self.rb_recycle_con.pop() {\n            if self.unused_monitor_buffers.len() < 16 {\n                self.unused_monitor_buffers.push(buf);\n            }")]),
 ("m send drop", "P28", [("src/monitor.rs", "            Err(buf) => self.unused_monitor_buffers.push(buf),", "            Err(_) => (),")]),
 ("m ring small", "P28", [("src/monitor.rs", "let rb_recycle = RingBuffer::new(MONITOR_BUF_COUNT);", "let rb_recycle = RingBuffer::new(MONITOR_BUF_COUNT / 2);")]),
 ("m reset read_idx", "P28", [("src/monitor.rs", "self.read_idx = [0; MON_SIG_CNT];", "self.read_idx[0] = 0;")]),
 ("m min max share", "P28", [("src/monitor.rs", "self.cur_min_max.1 = self.cur_min_max.1.max(sample);", "else_max(&mut self.cur_min_max, sample);"), ("src/monitor.rs", None, "\nfn else_max(m: &mut (f32, f32, usize), s: f32) {\n    if s > m.0 {\n        m.1 = m.1.max(s);\n    }\n}\n")]),
 ("m any short", "P28", [("src/monitor.rs", "        for proc in self.procs.iter_mut() {\n            if proc.process(mon_buf) {\n                self.new_data = true;\n            }\n        }", "        if self.procs.iter_mut().any(|p| p.process(mon_buf)) {\n            self.new_data = true;\n        }")]),
 ("m thread slots", "P28", [("src/monitor.rs", "                    for i in 0..MON_SIG_CNT {\n                        ms[i].copy_from", "                    for i in 0..MON_SIG_CNT / 2 {\n                        ms[i].copy_from")]),
 ("m new data before", "P28", [("src/monitor.rs", "            self.new_data.store(false, std::sync::atomic::Ordering::Relaxed);\n            pt.print", "            pt.print"), ("src/monitor.rs", "            pt.print(\"XXX\");\n", "            pt.print(\"XXX\");\n            if self.monitor_samples_copy[idx].buf_ptr == ms[idx].buf_ptr {\n                return &self.monitor_samples_copy[idx];\n            }\n            self.new_data.store(false, std::sync::atomic::Ordering::Relaxed);\n")]),
 ("m copy_to no ptr", "P28", [("src/monitor.rs", "        sms.buf_ptr = self.buf_ptr;\n", "")]),
 ("m stride", "P28", [("src/monitor.rs", "let sb_idx = idx * MAX_BLOCK_SIZE;\n        data", "let sb_idx = idx * (MAX_BLOCK_SIZE / 2);\n        data")]),
 ("m early reset", "P28", [("src/monitor.rs", "            self.process_mon_buf(&mut buf);\n            buf.reset();", "            buf.reset();\n            self.process_mon_buf(&mut buf);")]),
 ("m remonitor cond", "P28", [(MX, "        self.remonitor_cell();", "        if self.gen_counter % 2 == 0 {\n            self.remonitor_cell();\n        }")]),
 ("m at ptr", "P28", [("src/monitor.rs", "let idx = (self.buf_ptr + offs) % self.samples.len();", "let idx = offs % self.samples.len();")]),
 ("m counter never reset", "P28", [("src/monitor.rs", "                self.cur_min_max.0 = 100.0;\n                self.cur_min_max.1 = -100.0;\n", "                self.cur_min_max.0 = 100.0;\n")]),
 ("m wrap", "P28", [("src/monitor.rs", "self.buf_write_ptr = (self.buf_write_ptr + 1) % self.buf.len();", "self.buf_write_ptr = (self.buf_write_ptr + 1) % (self.buf.len() - 1);")]),
 ("m g conf one loop", "", [(NC, "            let mut i = 0;\n            for inp_idx in inputs.iter().take(MON_SIG_CNT / 2) {\n                if let Some(inp_idx) = inp_idx {\n                    if let Some(global_idx) = node_instance.in_local2global(*inp_idx) {\n                        bufs[i] = global_idx;\n                    }\n                }\n\n                i += 1;\n            }\n\n            for out_idx in outputs.iter().take(MON_SIG_CNT / 2) {\n                if let Some(out_idx) = out_idx {\n                    if let Some(global_idx) = node_instance.out_local2global(*out_idx) {\n                        bufs[i] = global_idx;\n                    }\n                }\n\n                i += 1;\n            }\n", "            for (i, inp_idx) in inputs.iter().take(MON_SIG_CNT / 2).enumerate() {\n                if let Some(global_idx) = inp_idx.and_then(|i| node_instance.in_local2global(i)) {\n                    bufs[i] = global_idx;\n                }\n            }\n            for (i, out_idx) in outputs.iter().take(MON_SIG_CNT / 2).enumerate() {\n                if let Some(global_idx) = out_idx.and_then(|i| node_instance.out_local2global(i)) {\n                    bufs[3 + i] = global_idx;\n                }\n            }\n")]),
 ("m g exec for", "", [(NE, "        for (i, idx) in self.monitor_signal_cur_inp_indices.iter().enumerate() {\n            if *idx == UNUSED_MONITOR_IDX {", "        for i in 0..MON_SIG_CNT {\n            let idx = &self.monitor_signal_cur_inp_indices[i];\n            if *idx == UNUSED_MONITOR_IDX {")]),
 ("m g sig match", "", [(NE, "let sig = if i > 2 { prog.out.get(*idx) } else { prog.cur_inp.get(*idx) };", "let sig = match i {\n                0 | 1 | 2 => prog.cur_inp.get(*idx),\n                _ => prog.out.get(*idx),\n            };")]),
 ("m g minmax if", "", [("src/monitor.rs", "            self.cur_min_max.0 = self.cur_min_max.0.min(sample);\n            self.cur_min_max.1 = self.cur_min_max.1.max(sample);\n", "            if sample < self.cur_min_max.0 {\n                self.cur_min_max.0 = sample;\n            }\n            if sample > self.cur_min_max.1 {\n                self.cur_min_max.1 = sample;\n            }\n")]),
 ("m g proc loop", "", [("src/monitor.rs", "        for proc in self.procs.iter_mut() {\n            if proc.process(mon_buf) {\n                self.new_data = true;\n            }\n        }", "        let mut any = false;\n        for proc in self.procs.iter_mut() {\n            any = proc.process(mon_buf) || any;\n        }\n        if any {\n            self.new_data = true;\n        }")]),
 ("m g copies zip", "", [("src/monitor.rs", "            for i in 0..MON_SIG_CNT {\n                ms[i].copy_to(&mut self.monitor_samples_copy[i]);\n            }", "            for (src, dst) in ms.iter().zip(self.monitor_samples_copy.iter_mut()) {\n                src.copy_to(dst);\n            }")]),
 ("m g check_new replace", "", [("src/monitor.rs", "        let new_data = self.new_data;\n        self.new_data = false;\n        new_data", "        std::mem::replace(&mut self.new_data, false)")]),
 ("m g send if let", "", [("src/monitor.rs", "        match self.rb_mon_prod.push(buf) {\n            Ok(_) => (),\n            Err(buf) => self.unused_monitor_buffers.push(buf),\n        }", "        if let Err(refused) = self.rb_mon_prod.push(buf) {\n            self.unused_monitor_buffers.push(refused);\n        }")]),

 ("f15 direct", "P15", [(MR, "OpenOptions::new().create(true).write(true).truncate(true).open(&tmp_filepath)?", "OpenOptions::new().create(true).write(true).truncate(true).open(filepath)?"), (MR, "std::fs::rename(&tmp_filepath, &filepath)?;", "let _ = tmp_filepath;")]),
 ("f15 fs write", "P15", [(MR, "        let mut file =\n            OpenOptions::new().create(true).write(true).truncate(true).open(&tmp_filepath)?;\n        file.write_all(ser.as_bytes())?;\n        std::fs::rename(&tmp_filepath, &filepath)?;", "        let _ = tmp_filepath;\n        std::fs::write(filepath, ser.as_bytes())?;")]),
 ("f15 remove first", "P15", [(MR, "        std::fs::rename(&tmp_filepath, &filepath)?;", "        if std::path::Path::new(filepath).exists() { std::fs::remove_file(filepath)?; }\n        std::fs::rename(&tmp_filepath, &filepath)?;")]),
 ("f15 remove before write", "P15", [(MR, "        let mut ser = self.serialize();\n        ser.push('\\n');\n\n        let mut file", "        let _ = std::fs::remove_file(filepath);\n        let mut ser = self.serialize();\n        ser.push('\\n');\n\n        let mut file")]),
 ("f15 write ignored", "P15", [(MR, "file.write_all(ser.as_bytes())?;", "let _ = file.write_all(ser.as_bytes());")]),
 ("f15 write part", "P15", [(MR, "file.write_all(ser.as_bytes())?;", "file.write(ser.as_bytes())?;")]),
 ("f15 rename ignored", "P15", [(MR, "std::fs::rename(&tmp_filepath, &filepath)?;", "std::fs::rename(&tmp_filepath, &filepath).ok();")]),
 ("f15 rename before", "P15", [(MR, "        file.write_all(ser.as_bytes())?;\n        std::fs::rename(&tmp_filepath, &filepath)?;", "        std::fs::rename(&tmp_filepath, &filepath)?;\n        file.write_all(ser.as_bytes())?;")]),
 ("f15 no truncate", "P15", [(MR, "create(true).write(true).truncate(true).open(&tmp", "create(true).write(true).open(&tmp")]),
 ("f15 append", "P15", [(MR, "create(true).write(true).truncate(true).open(&tmp", "create(true).append(true).open(&tmp")]),
 ("f15 tmp dir", "P15", [(MR, "let tmp_filepath = format!(\"{}~\", filepath);", "let tmp_filepath = std::env::temp_dir().join(format!(\"{}~\", filepath.replace('/', \"_\")));")]),
 ("f15 tmp fixed", "P15", [(MR, "let tmp_filepath = format!(\"{}~\", filepath);", "let tmp_filepath = String::from(\"/tmp/hexo.tmp~\");")]),
 ("f15 bufwriter", "P15", [(MR, "file.write_all(ser.as_bytes())?;", "let mut file = std::io::BufWriter::new(file);\n        file.write_all(ser.as_bytes())?;"), (MR, "let mut file =\n            OpenOptions::new().create(true).write(true)", "let file =\n            OpenOptions::new().create(true).write(true)")]),
 ("f15 bufwriter flush ignored", "P15", [(MR, "file.write_all(ser.as_bytes())?;", "let mut file = std::io::BufWriter::new(file);\n        file.write_all(ser.as_bytes())?;\n        let _ = file.flush();"), (MR, "let mut file =\n            OpenOptions::new().create(true).write(true)", "let file =\n            OpenOptions::new().create(true).write(true)")]),
 ("f15 copy fallback", "P15", [(MR, "std::fs::rename(&tmp_filepath, &filepath)?;", "if std::fs::rename(&tmp_filepath, &filepath).is_err() { std::fs::copy(&tmp_filepath, &filepath)?; }")]),
 ("f15 backup", "P15", [(MR, "std::fs::rename(&tmp_filepath, &filepath)?;", "let _ = std::fs::rename(filepath, format!(\"{}.bak\", filepath));\n        std::fs::rename(&tmp_filepath, &filepath)?;")]),
 ("f15 text truncated", "P15", [(MR, "        ser.push('\\n');\n\n        let mut file", "        ser.truncate(1 << 20);\n        ser.push('\\n');\n\n        let mut file")]),
 ("f15 text cut", "P15", [(MR, "file.write_all(ser.as_bytes())?;", "file.write_all(&ser.as_bytes()[..ser.len().min(65536)])?;")]),
 ("f15 read part", "P15", [(MR, "        let mut contents: Vec<u8> = Vec::new();\n        file.read_to_end(&mut contents)?;", "        let mut contents: Vec<u8> = vec![0; 1 << 20];\n        let n = file.read(&mut contents)?;\n        contents.truncate(n);")]),
 ("f15 read take", "P15", [(MR, "        let mut file = OpenOptions::new().write(false).create(false).read(true).open(&filepath)?;", "        let mut file = OpenOptions::new().write(false).create(false).read(true).open(&filepath)?.take(1 << 20);")]),
 ("f15 read creates", "P15", [(MR, "OpenOptions::new().write(false).create(false).read(true)", "OpenOptions::new().write(true).create(true).read(true)")]),
 ("f15 read err", "P15", [(MR, "file.read_to_end(&mut contents)?;", "let _ = file.read_to_end(&mut contents);")]),
 ("f15 read lossy", "P15", [(MR, "        let s = std::str::from_utf8(&contents)?;\n\n        MatrixRepr::deserialize(s)\n    }\n\n    pub fn deserialize", "        let s = String::from_utf8_lossy(&contents);\n\n        MatrixRepr::deserialize(&s)\n    }\n\n    pub fn deserialize")]),
 ("f15 load clears first", "P15", [(MR, "    let mr = MatrixRepr::read_from_file(filepath)?;\n    matrix.from_repr(&mr)?;", "    matrix.clear();\n    let mr = MatrixRepr::read_from_file(filepath)?;\n    matrix.from_repr(&mr)?;")]),
 ("f15 load err hidden", "P15", [(MR, "    let mr = MatrixRepr::read_from_file(filepath)?;\n    matrix.from_repr(&mr)?;\n    Ok(())", "    let mr = MatrixRepr::read_from_file(filepath)?;\n    let _ = matrix.from_repr(&mr);\n    Ok(())")]),
 ("f15 load mem err hidden", "P15", [(MR, "    matrix.from_repr(&mr)?;\n    Ok(())", "    let _ = matrix.from_repr(&mr);\n    Ok(())")]),
 ("f15 save hidden", "P15", [(MR, "    mr.write_to_file(filepath)\n", "    if mr.write_to_file(filepath).is_err() { return Ok(()); }\n    Ok(())\n")]),
 ("f15 benign fs write tmp", "", [(MR, "        let mut file =\n            OpenOptions::new().create(true).write(true).truncate(true).open(&tmp_filepath)?;\n        file.write_all(ser.as_bytes())?;\n        std::fs::rename(&tmp_filepath, &filepath)?;", "        std::fs::write(&tmp_filepath, ser.as_bytes())?;\n        std::fs::rename(&tmp_filepath, filepath)?;"), (MR, "        use std::fs::OpenOptions;\n        use std::io::prelude::*;\n\n        let tmp_filepath", "        let tmp_filepath")]),
 ("f15 benign File create", "", [(MR, "OpenOptions::new().create(true).write(true).truncate(true).open(&tmp_filepath)?", "std::fs::File::create(&tmp_filepath)?"), (MR, "        use std::fs::OpenOptions;\n        use std::io::prelude::*;\n\n        let tmp_filepath", "        use std::io::prelude::*;\n\n        let tmp_filepath")]),
 ("f15 benign match cleanup", "", [(MR, "        file.write_all(ser.as_bytes())?;\n        std::fs::rename(&tmp_filepath, &filepath)?;\n\n        Ok(())", "        if let Err(e) = file.write_all(ser.as_bytes()) {\n            let _ = std::fs::remove_file(&tmp_filepath);\n            return Err(e);\n        }\n        drop(file);\n        match std::fs::rename(&tmp_filepath, &filepath) {\n            Ok(()) => Ok(()),\n            Err(e) => Err(e),\n        }")]),
 ("f15 benign helpers", "", [(MR, "        let mut file =\n            OpenOptions::new().create(true).write(true).truncate(true).open(&tmp_filepath)?;\n        file.write_all(ser.as_bytes())?;\n        std::fs::rename(&tmp_filepath, &filepath)?;\n\n        Ok(())", "        write_new(&tmp_filepath, &ser).and_then(|_| std::fs::rename(&tmp_filepath, filepath))"), (MR, "let tmp_filepath = format!(\"{}~\", filepath);", "let tmp_filepath = tmp_name(filepath);"), (MR, "pub fn save_patch_to_file(", "fn tmp_name(p: &str) -> String {\n    let mut s = String::from(p);\n    s.push('~');\n    s\n}\n\nfn write_new(p: &str, txt: &str) -> std::io::Result<()> {\n    use std::io::prelude::*;\n    let mut o = std::fs::OpenOptions::new();\n    o.create(true);\n    o.write(true);\n    o.truncate(true);\n    let mut f = o.open(p)?;\n    f.write_all(txt.as_bytes())\n}\n\npub fn save_patch_to_file("), (MR, "        use std::fs::OpenOptions;\n        use std::io::prelude::*;\n\n        let tmp_filepath", "        let tmp_filepath")]),
 ("f15 benign bufwriter", "", [(MR, "file.write_all(ser.as_bytes())?;", "let mut file = std::io::BufWriter::new(file);\n        file.write_all(ser.as_bytes())?;\n        file.flush()?;"), (MR, "let mut file =\n            OpenOptions::new().create(true).write(true)", "let file =\n            OpenOptions::new().create(true).write(true)")]),
 ("f15 benign fs read", "", [(MR, "        let mut file = OpenOptions::new().write(false).create(false).read(true).open(&filepath)?;\n\n        let mut contents: Vec<u8> = Vec::new();\n        file.read_to_end(&mut contents)?;\n", "        let contents = std::fs::read(filepath)?;\n"), (MR, "        use std::fs::OpenOptions;\n        use std::io::prelude::*;\n\n        let contents", "        let contents")]),
 ("f15 benign sync", "", [(MR, "file.write_all(ser.as_bytes())?;", "file.write_all(ser.as_bytes())?;\n        file.sync_all()?;")]),
 ("f15 benign pieces", "", [(MR, "        ser.push('\\n');\n\n        let mut file", "        let mut file"), (MR, "let mut ser = self.serialize();\n        let mut file", "let ser = self.serialize();\n        let mut file"), (MR, "file.write_all(ser.as_bytes())?;", "file.write_all(ser.as_bytes())?;\n        file.write_all(b\"\\n\")?;")]),

 ("c25 error ignored", "P25", [(CH, "        if let Some(err) = self.error.take() {\n            return Err(err);\n        }\n", "        let err = self.error.take();\n"), (CH, "            matrix.set_param(pid, at);\n        }\n\n        Ok(())", "            matrix.set_param(pid, at);\n        }\n\n        if let Some(err) = err {\n            return Err(err);\n        }\n\n        Ok(())")]),
 ("c25 error lost for in", "P25", [(CH, "            if let Err(()) = cell.set_input_by_name(inp, self.input_dir()) {\n                self.error = Some(ChainError::UnknownInput(cell.node_id(), inp.to_string()));\n            }\n\n            if", "            let _ = cell.set_input_by_name(inp, self.input_dir());\n\n            if")]),
 ("c25 rev", "P25", [(CH, "for link in self.chain.iter() {", "for link in self.chain.iter().rev() {")]),
 ("c25 place nop skip", "P25", [(CH, "            matrix.place(x, y, cell);", "            if matrix.get(x, y).map_or(true, |c| c.node_id() == NodeId::Nop) {\n                matrix.place(x, y, cell);\n            }")]),
 ("c25 parity", "P25", [(CH, "            let offs = link.dir.as_offs(pos.0);", "            let offs = link.dir.as_offs(at_x);")]),
 ("c25 parity y", "P25", [(CH, "            let offs = link.dir.as_offs(pos.0);", "            let offs = link.dir.as_offs(pos.1);")]),
 ("c25 parity late", "P25", [(CH, "            let offs = link.dir.as_offs(pos.0);\n            pos.0 = (pos.0 as i32 + offs.0) as usize;\n            pos.1 = (pos.1 as i32 + offs.1) as usize;", "            pos.0 = (pos.0 as i32 + link.dir.as_offs(pos.0).0) as usize;\n            pos.1 = (pos.1 as i32 + link.dir.as_offs(pos.0).1) as usize;")]),
 ("c25 minus", "P25", [(CH, "pos.1 = (pos.1 as i32 + offs.1) as usize;", "pos.1 = (pos.1 as i32 - offs.1) as usize;")]),
 ("c25 comp", "P25", [(CH, "pos.1 = (pos.1 as i32 + offs.1) as usize;", "pos.1 = (pos.1 as i32 + offs.0) as usize;")]),
 ("c25 start", "P25", [(CH, "let mut pos = (at_x, at_y);", "let mut pos = (at_y, at_x);")]),
 ("c25 ios lost", "P25", [(CH, "cell.set_node_id_keep_ios(node_id);", "cell.set_node_id(node_id);")]),
 ("c25 collide second", "P25", [(CH, "            let node_id = matrix.get_unused_instance_node_id(node_id);\n            last_unused.insert", "            let node_id = if last_unused.contains_key(node_name) { node_id } else { matrix.get_unused_instance_node_id(node_id) };\n            last_unused.insert")]),
 ("c25 not remembered", "P25", [(CH, "            last_unused.insert(node_name.to_string(), node_id.instance());", "            last_unused.entry(node_name.to_string()).or_insert(node_id.instance());")]),
 ("c25 same", "P25", [(CH, "Some(i) => node_id.to_instance(i + 1),", "Some(i) => node_id.to_instance(i),")]),
 ("c25 never looked up", "P25", [(CH, "            let node_id = match last_unused.get(node_name).cloned() {\n                Some(i) => node_id.to_instance(i + 1),\n                None => node_id,\n            };\n", "")]),
 ("c25 key", "P25", [(CH, "last_unused.insert(node_name.to_string(), node_id.instance());", "last_unused.insert(node_id.label().to_string(), node_id.instance());")]),
 ("c25 param inst", "P25", [(CH, "params.push((node_id.inp_param(pid.name()).unwrap_or(*pid), at.clone()));", "params.push((*pid, at.clone()));")]),
 ("c25 param inst 0", "P25", [(CH, "params.push((node_id.inp_param(pid.name()).unwrap_or(*pid), at.clone()));", "params.push((link.cell.node_id().inp_param(pid.name()).unwrap_or(*pid), at.clone()));")]),
 ("c25 param rev", "P25", [(CH, "for (pid, at) in link.params.iter() {", "for (pid, at) in link.params.iter().rev() {")]),
 ("c25 param rev2", "P25", [(CH, "for (pid, at) in params {", "for (pid, at) in params.into_iter().rev() {")]),
 ("c25 param atoms only", "P25", [(CH, "            matrix.set_param(pid, at);", "            if !pid.is_atom() {\n                matrix.set_param(pid, at);\n            }")]),
 ("c25 denorm norm", "P25", [(CH, "SAtom::param(pid.norm(denorm as f32))", "SAtom::param(denorm as f32)")]),
 ("c25 norm norm", "P25", [(CH, "SAtom::param(norm as f32)", "SAtom::param(pid.norm(norm as f32))")]),
 ("c25 norm clamp", "P25", [(CH, "SAtom::param(norm as f32)", "SAtom::param(norm.clamp(0.0, 1.0))")]),
 ("c25 unknown input silent", "P25", [(CH, "            link.params.push((pid, at));\n        } else {\n            self.error = Some(ChainError::UnknownInput(link.cell.node_id(), param.to_string()));\n        }", "            link.params.push((pid, at));\n        }")]),
 ("c25 last link", "P25", [(CH, "        let link = self.chain.get_mut(self.param_idx).expect(\"Correct parameter idx\");\n\n        if let Some(pid) = link.cell.node_id().inp_param(param) {\n            link.params.push((pid, at));", "        let link = self.chain.last_mut().expect(\"Correct parameter idx\");\n\n        if let Some(pid) = link.cell.node_id().inp_param(param) {\n            link.params.push((pid, at));")]),
 ("c25 unknown node", "P25", [(CH, "if node_id == NodeId::Nop && node_id_name != \"nop\" {", "if node_id == NodeId::Nop && node_id_name == \"\" {")]),
 ("c25 nop refused", "P25", [(CH, "if node_id == NodeId::Nop && node_id_name != \"nop\" {", "if node_id == NodeId::Nop {")]),
 ("c25 unknown node silent", "P25", [(CH, "            if let Err(()) = cell.set_output_by_name(out, self.output_dir()) {\n                self.error = Some(ChainError::UnknownOutput(cell.node_id(), out.to_string()));\n            }\n\n            self.add_link(cell);\n        } else {\n            self.error = Some(ChainError::UnknownNodeId(node_id.to_string()));\n        }", "            if let Err(()) = cell.set_output_by_name(out, self.output_dir()) {\n                self.error = Some(ChainError::UnknownOutput(cell.node_id(), out.to_string()));\n            }\n\n            self.add_link(cell);\n        }")]),
 ("c25 dir swap", "P25", [(CH, "        if self.dir.is_output() {\n            self.dir\n        } else {\n            self.dir.flip()\n        }\n    }\n\n    fn input_dir", "        self.dir\n    }\n\n    fn input_dir")]),
 ("c25 input dir", "P25", [(CH, "        if self.dir.is_input() {", "        if self.dir.is_output() {")]),
 ("c25 param idx kept", "P25", [(CH, "        self.param_idx = self.chain.len() - 1;", "        if self.param_idx + 2 == self.chain.len() || self.chain.len() == 1 {\n            self.param_idx = self.chain.len() - 1;\n        }")]),
 ("c25 out no link", "P25", [(CH, "cell.set_output_by_name(out, self.output_dir())", "cell.set_output_by_name(out, self.input_dir())")]),
 ("c25 benign offs_pos", "", [(CH, "            let offs = link.dir.as_offs(pos.0);\n            pos.0 = (pos.0 as i32 + offs.0) as usize;\n            pos.1 = (pos.1 as i32 + offs.1) as usize;", "            let (ox, oy) = link.dir.as_offs(x);\n            pos = ((x as i32 + ox) as usize, (y as i32 + oy) as usize);")]),
 ("c25 benign vars", "", [(CH, "let mut pos = (at_x, at_y);", "let mut cx = at_x;\n        let mut cy = at_y;"), (CH, "let (x, y) = pos;", "let (x, y) = (cx, cy);"), (CH, "            let offs = link.dir.as_offs(pos.0);\n            pos.0 = (pos.0 as i32 + offs.0) as usize;\n            pos.1 = (pos.1 as i32 + offs.1) as usize;", "            let offs = link.dir.as_offs(cx);\n            cy = (cy as i32 + offs.1) as usize;\n            cx = (cx as i32 + offs.0) as usize;")]),
 ("c25 benign index loop", "", [(CH, "        for link in self.chain.iter() {\n", "        for i in 0..self.chain.len() {\n            let link = &self.chain[i];\n")]),
 ("c25 benign set direct", "", [(CH, "        for (pid, at) in params {\n            matrix.set_param(pid, at);\n        }\n", ""), (CH, "        let mut params = vec![];\n\n        for", "        for"), (CH, "params.push((node_id.inp_param(pid.name()).unwrap_or(*pid), at.clone()));", "let pid = match node_id.inp_param(pid.name()) {\n                    Some(p) => p,\n                    None => *pid,\n                };\n                matrix.set_param(pid, at.clone());")]),
 ("c25 benign set loop", "", [(CH, "            let node_id = match last_unused.get(node_name).cloned() {\n                Some(i) => node_id.to_instance(i + 1),\n                None => node_id,\n            };\n            let node_id = matrix.get_unused_instance_node_id(node_id);\n            last_unused.insert(node_name.to_string(), node_id.instance());", "            let _ = node_name;\n            let mut node_id = matrix.get_unused_instance_node_id(node_id);\n            while node_id != NodeId::Nop && last_unused.contains_key(&node_id) {\n                node_id = matrix.get_unused_instance_node_id(node_id.to_instance(node_id.instance() + 1));\n            }\n            last_unused.insert(node_id, ());")]),
 ("c25 benign helper", "", [(CH, "            let node_id = matrix.get_unused_instance_node_id(node_id);\n            last_unused.insert(node_name.to_string(), node_id.instance());", "            let node_id = claim(matrix, node_id, &mut last_unused);"), (CH, "#[derive(Debug, Clone)]\npub enum ChainError {", "fn claim(m: &Matrix, id: NodeId, used: &mut HashMap<String, usize>) -> NodeId {\n    let id = m.get_unused_instance_node_id(id);\n    used.insert(id.name().to_string(), id.instance());\n    id\n}\n\n#[derive(Debug, Clone)]\npub enum ChainError {")]),
 ("c25 benign builder helper", "", [(CH, "        let link = self.chain.get_mut(self.param_idx).expect(\"Correct parameter idx\");\n\n        if let Some(pid) = link.cell.node_id().inp_param(param) {\n            link.params.push((pid, SAtom::param(pid.norm(denorm as f32))));\n        } else {\n            self.error = Some(ChainError::UnknownInput(link.cell.node_id(), param.to_string()));\n        }\n\n        self\n    }", "        self.put(param, |pid| SAtom::param(pid.norm(denorm)))\n    }\n\n    fn put<F: FnOnce(&ParamId) -> SAtom>(&mut self, param: &str, f: F) -> &mut Self {\n        let link = &mut self.chain[self.param_idx];\n        match link.cell.node_id().inp_param(param) {\n            Some(pid) => link.params.push((pid, f(&pid))),\n            None => self.error = Some(ChainError::UnknownInput(link.cell.node_id(), param.to_string())),\n        }\n        self\n    }")]),
 ("c25 benign match spawn", "", [(CH, "        if node_id == NodeId::Nop && node_id_name != \"nop\" {\n            return None;\n        }\n\n        Some(Cell::empty(node_id))", "        match node_id {\n            NodeId::Nop if node_id_name != \"nop\" => None,\n            id => Some(Cell::empty(id)),\n        }")]),
 ("c25 benign err first", "", [(CH, "        if let Some(err) = self.error.take() {\n            return Err(err);\n        }\n", "        match self.error.take() {\n            None => (),\n            Some(e) => return Err(e),\n        }\n")]),

 ("mon28 flatten outputs", "P28", [(NC, "            for out_idx in outputs.iter().take(MON_SIG_CNT / 2) {\n                if let Some(out_idx) = out_idx {\n                    if let Some(global_idx) = node_instance.out_local2global(*out_idx) {\n                        bufs[i] = global_idx;\n                    }\n                }\n\n                i += 1;\n            }", "            for out_idx in outputs.iter().take(MON_SIG_CNT / 2).flatten() {\n                if let Some(global_idx) = node_instance.out_local2global(*out_idx) {\n                    bufs[i] = global_idx;\n                }\n\n                i += 1;\n            }")]),

    ("mon09 cursor eq", "P09", [(MI, "self.buf[self.idx].timing <= time {", "self.buf[self.idx].timing == time {")]),
    ("ben09 cursor neg", "", [(MI, "if self.idx < self.buf.len() && self.buf[self.idx].timing <= time {", "if self.idx < self.buf.len() && !(time < self.buf[self.idx].timing) {")]),
    ("ben09 cursor get", "", [(MI, """        if self.idx < self.buf.len() && self.buf[self.idx].timing <= time {
            self.idx += 1;
            Some(self.buf[self.idx - 1].kind)
        } else {
            None
        }""", """        let ev = self.buf.get(self.idx)?;
        if ev.timing > time {
            return None;
        }
        self.idx += 1;
        Some(ev.kind)""")]),
    ("mon09 window le", "P09", [(MI, "if event.timing < (to_time + block_size) {", "if event.timing <= (to_time + block_size) {")]),

    ("mon29 norm gone", "P29", [(SY, """                            let v = param_id.norm(*v);
                            node_config.set_param(&name, SAtom::param(v), None);""", """                            node_config.set_param(&name, SAtom::param(*v), None);""")]),
    ("mon29 modamt none", "P29", [(SY, "SAtom::param(v), Some(*ma));", "SAtom::param(v), if *ma == 0.0 { None } else { Some(*ma) });")]),
    ("mon29 modamt const", "P29", [(SY, """SAtom::param(v), None);
                            changed_params = true;""", """SAtom::param(v), Some(0.0));
                            changed_params = true;""")]),
    ("mon29 param unknown ignored", "P29", [(SY, """                    ConstructorOp::SetDenorm(name, v) => {
                        if let Some(param_id) = node_id.inp_param(&name) {
                            let v = param_id.norm(*v);
                            node_config.set_param(&name, SAtom::param(v), None);
                            changed_params = true;
                        } else {
                            return Err(SynthError::UnknownParam(node_id, name.to_string()));
                        }""", """                    ConstructorOp::SetDenorm(name, v) => {
                        if let Some(param_id) = node_id.inp_param(&name) {
                            let v = param_id.norm(*v);
                            node_config.set_param(&name, SAtom::param(v), None);
                            changed_params = true;
                        }""")]),
    ("mon29 setting unchanged flag", "P29", [(SY, """SAtom::setting(*v), None);
                        changed_params = true;""", """SAtom::setting(*v), None);""")]),
    ("mon29 only first input walked", "P29", [(SY, "for node in walk_afterwads.iter() {", "for node in walk_afterwads.iter().take(2) {")]),
    ("mon29 walk if absent", "P29", [(SY, """                        walk_afterwads.push(node.clone());""", """                        if !only_update_params {
                            walk_afterwads.push(node.clone());
                        }""")]),
    ("mon29 rec mode", "P29", [(SY, "if self.walk_upload(&node, only_update_params)? {", "if self.walk_upload(&node, false)? {")]),
    ("mon29 rec result lost", "P29", [(SY, """            if self.walk_upload(&node, only_update_params)? {
                need_rebuild = true;
            }""", """            need_rebuild = self.walk_upload(&node, only_update_params)?;""")]),
    ("mon29 rec err", "P29", [(SY, """            if self.walk_upload(&node, only_update_params)? {
                need_rebuild = true;
            }""", """            if let Ok(true) = self.walk_upload(&node, only_update_params) {
                need_rebuild = true;
            }""")]),
    ("mon29 apply order", "P29", [(SY, "if only_update_params && changed_params && self.update_node_params(node_id)? {", "if only_update_params && need_rebuild && self.update_node_params(node_id)? {")]),
    ("mon29 edge first wins", "P29", [(SY, "                            node_config.set_edge(param, id, out);", "                            if !node_config.edges.contains_key(param) { node_config.set_edge(param, id, out); }")]),
    ("mon29 edge swapped", "P29", [(SY, "node_config.set_edge(param, id, out);", "node_config.set_edge(out, id, param);")]),
    ("mon29 always reset record", "P29", [(SY, "if !self.nodes.contains_key(&node_id) {", "if only_update_params || !self.nodes.contains_key(&node_id) {")]),
    ("mon29 value cmp skip", "P29", [(SY, "if old_val != *value {", "if old_val != *value && !param_id.is_atom() {")]),
    ("mon29 modamt only changed", "P29", [(SY, "                            changed_value = true;\n                            changed_modamt = true;", "                            changed_modamt = true;")]),
    ("mon29 rebuild overwritten", "P29", [(SY, """                        if changed_modamt
                            && !param_id.is_atom()
                            && self.config.set_param_modamt(param_id, *modamt)
                        {
                            needs_graph_rebuild = true;
                        }""", """                        if changed_modamt && !param_id.is_atom() {
                            needs_graph_rebuild = self.config.set_param_modamt(param_id, *modamt);
                        }""")]),
    ("mon29 upd no upload", "P29", [(SY, """            self.upload(node)?;
            Ok(true)""", """            Ok(true)""")]),
    ("mon29 upd result", "P29", [(SY, """            self.upload(node)?;
            Ok(true)""", """            self.upload(node)?;
            Ok(false)""")]),
    ("mon29 no order clear", "P29", [(SY, "        self.graph_ordering.clear();\n\n        for", "        for")]),
    ("mon29 no rev add", "P29", [(SY, """        for node_id in ordered_nodes.iter().rev() {
            self.config.add_prog_node(&mut prog, node_id);""", """        for node_id in ordered_nodes.iter() {
            self.config.add_prog_node(&mut prog, node_id);""")]),
    ("mon29 edge dir", "P29", [(SY, "self.graph_ordering.add_edge(*node_id, *output_node_id);", "self.graph_ordering.add_edge(*output_node_id, *node_id);")]),
    ("mon29 cycle ignored", "P29", [(SY, "return Err(SynthError::CycleDetected);", "ordered_nodes.clear();")]),
    ("mon29 params after rebuild", "P29", [(SY, """
            self.update_node_params(*node_id)?;
        }

        let mut prog = self.config.rebuild_node_ports();
""", """        }

        let mut prog = self.config.rebuild_node_ports();

        for node_id in ordered_nodes.iter().rev() {
            self.update_node_params(*node_id)?;
        }
""")]),
    ("mon29 params only new", "P29", [(SY, """                self.config.create_node(*node_id);
            }

            self.update_node_params(*node_id)?;
        }""", """                self.config.create_node(*node_id);
                self.update_node_params(*node_id)?;
            }
        }""")]),
    ("mon29 connect interleaved", "P29", [(SY, """            self.config.add_prog_node(&mut prog, node_id);
        }

        for node_id in ordered_nodes.iter().rev() {
""", """            self.config.add_prog_node(&mut prog, node_id);
""")]),
    ("mon29 port name", "P29", [(SY, "if let Some(out_idx) = out_node_id.out(&out_port) {", "if let Some(out_idx) = out_node_id.out(&inp_param) {")]),
    ("mon29 bad out silent", "P29", [(SY, """                            return Err(SynthError::BadOutputName(
                                *out_node_id,
                                out_port.to_string(),
                            ));""", """                            continue;""")]),
    ("mon29 clear nodes", "P29", [(SY, "        self.nodes.clear();\n", "")]),
    ("mon29 clear engine", "P29", [(SY, "        self.config.delete_nodes();\n", "")]),
    ("mon29 fb out", "P29", [(SY, "self.config.out_fb_for(node_id, out)", "self.config.out_fb_for(node_id, 0)")]),
    ("mon29 led phase", "P29", [(SY, "self.config.led_value_for(ni)", "self.config.phase_value_for(ni)")]),
    ("mon29 dyn idx", "P29", [(SY, "node_global.send_dynamic_node1x1(index, node)", "node_global.send_dynamic_node1x1(0, node)")]),
    ("mon29 build value", "P29", [(BU, "stringify!($para).to_string(), v, ma));", "stringify!($para).to_string(), ma, v));")]),
    ("mon29 build out port", "P29", [(BU, "self.port = Some(stringify!($out).to_string());", "if self.port.is_none() { self.port = Some(stringify!($out).to_string()); }")]),
    ("mon29 build instance", "P29", [(BU, "node_id: crate::dsp::NodeId::$variant(instance),", "node_id: crate::dsp::NodeId::$variant(instance.min(15)),")]),
    ("mon29 build dedup", "P29", [(BU, """                            if !portname.is_empty() {
""", """                            if !portname.is_empty() && self.node.node_id != node.node_id {
""")]),
    ("mon29 build atom trunc", "P29", [(BU, "stringify!($atom).to_string(), v));", "stringify!($atom).to_string(), v as u8 as i64));")]),
    ("ben29 entry", "", [(SY, """        if !self.nodes.contains_key(&node_id) {
            self.nodes.insert(node_id, Box::new(NodeConfig::new(node_id)));
        }
""", """        self.nodes.entry(node_id).or_insert_with(|| Box::new(NodeConfig::new(node_id)));
""")]),
    ("ben29 forward order", "", [(SY, "self.graph_ordering.add_edge(*node_id, *output_node_id);", "self.graph_ordering.add_edge(*output_node_id, *node_id);"), (SY, """        for node_id in ordered_nodes.iter().rev() {
            if self""", """        for node_id in ordered_nodes.iter() {
            if self"""), (SY, """        for node_id in ordered_nodes.iter().rev() {
            self.config.add""", """        for node_id in ordered_nodes.iter() {
            self.config.add"""), (SY, """        for node_id in ordered_nodes.iter().rev() {
            if let""", """        for node_id in ordered_nodes.iter() {
            if let""")]),
    ("ben29 single record", "", [(SY, """                    ConstructorOp::SetDenormModAmt(name, v, ma) => {
                        if let Some(param_id) = node_id.inp_param(&name) {
                            let v = param_id.norm(*v);
                            node_config.set_param(&name, SAtom::param(v), Some(*ma));
                            changed_params = true;
                        } else {
                            return Err(SynthError::UnknownParam(node_id, name.to_string()));
                        }
                    }
                    ConstructorOp::SetDenorm(name, v) => {
                        if let Some(param_id) = node_id.inp_param(&name) {
                            let v = param_id.norm(*v);
                            node_config.set_param(&name, SAtom::param(v), None);
                            changed_params = true;
                        } else {
                            return Err(SynthError::UnknownParam(node_id, name.to_string()));
                        }
                    }""", """                    ConstructorOp::SetDenormModAmt(name, v, ma) => {
                        let val = Self::norm_value(node_id, name, *v)?;
                        node_config.set_param(&name, val, Some(*ma));
                        changed_params = true;
                    }
                    ConstructorOp::SetDenorm(name, v) => {
                        let val = Self::norm_value(node_id, name, *v)?;
                        node_config.set_param(&name, val, None);
                        changed_params = true;
                    }"""), (SY, """    fn update_node_params(""", """    fn norm_value(node_id: NodeId, name: &str, v: f32) -> Result<SAtom, SynthError> {
        match node_id.inp_param(name) {
            Some(param_id) => Ok(SAtom::param(param_id.norm(v))),
            None => Err(SynthError::UnknownParam(node_id, name.to_string())),
        }
    }

    fn update_node_params(""")]),
    ("ben29 upload split", "", [(SY, """        let mut ordered_nodes = vec![];
        if !self.graph_ordering.calculate_order(&mut ordered_nodes) {
            return Err(SynthError::CycleDetected);
        }

        for node_id""", """        let ordered_nodes = self.order_nodes()?;

        for node_id"""), (SY, """    fn update_node_params(""", """    fn order_nodes(&mut self) -> Result<Vec<NodeId>, SynthError> {
        let mut ordered_nodes = vec![];
        if self.graph_ordering.calculate_order(&mut ordered_nodes) {
            Ok(ordered_nodes)
        } else {
            Err(SynthError::CycleDetected)
        }
    }

    fn update_node_params(""")]),
    ("ben29 ok_or", "", [(SY, """                    if let Some(idx) = node_id.inp(&inp_param) {
                        if let Some(out_idx) = out_node_id.out(&out_port) {
                            self.config.set_prog_node_exec_connection(
                                &mut prog,
                                (*node_id, idx),
                                (*out_node_id, out_idx),
                            );
                        } else {
                            return Err(SynthError::BadOutputName(
                                *out_node_id,
                                out_port.to_string(),
                            ));
                        }
                    } else {
                        return Err(SynthError::UnknownParam(*node_id, inp_param.to_string()));
                    }""", """                    let idx = node_id
                        .inp(inp_param)
                        .ok_or_else(|| SynthError::UnknownParam(*node_id, inp_param.clone()))?;
                    let out_idx = out_node_id
                        .out(out_port)
                        .ok_or_else(|| SynthError::BadOutputName(*out_node_id, out_port.clone()))?;
                    let dest = (*node_id, idx);
                    let source = (*out_node_id, out_idx);
                    self.config.set_prog_node_exec_connection(&mut prog, dest, source);""")]),
    ("ben29 params rewrite", "", [(SY, """                    let mut changed_value = false;
                    let mut changed_modamt = false;
                    if let Some(old_val) = self.config.get_param(&param_id) {
                        if old_val != *value {
                            changed_value = true;
                        }
                    } else {
                        changed_value = true;
                    }
""", """                    let mut changed_value = match self.config.get_param(&param_id) {
                        Some(old_val) => old_val != *value,
                        None => true,
                    };
                    let mut changed_modamt = false;
""")]),
    ("ben29 upd rewrite", "", [(SY, """        if self.walk_upload(&built_node, true)? {
            self.upload(node)?;
            Ok(true)
        } else {
            Ok(false)
        }""", """        let reupload = self.walk_upload(&built_node, true)?;
        if reupload {
            self.upload(node)?;
        }
        Ok(reupload)""")]),
    ("ben29 need or", "", [(SY, """            if self.walk_upload(&node, only_update_params)? {
                need_rebuild = true;
            }""", """            need_rebuild |= self.walk_upload(node, only_update_params)?;""")]),
    ("ben29 build into", "", [(BU, "stringify!($para).to_string(), node, portname));", "String::from(stringify!($para)), node, portname));"), (BU, """                            self.node.ops.borrow_mut().push(
                                super::ConstructorOp::SetDenorm(
                                    stringify!($para).to_string(), v));""", """                            let op = super::ConstructorOp::SetDenorm(stringify!($para).into(), v);
                            self.node.ops.borrow_mut().push(op);""")]),
    ("ben29 push helper", "", [(BU, """                            self.node.ops.borrow_mut().push(
                                super::ConstructorOp::SetDenormModAmt(
                                    stringify!($para).to_string(), v, ma));
                            self.node""", """                            self.node.record(super::ConstructorOp::SetDenormModAmt(stringify!($para).to_string(), v, ma))"""), (BU, """                /// Returns a structure with all settable parameters and settings.
""", """                fn record(self, op: ConstructorOp) -> Self {
                    self.ops.borrow_mut().push(op);
                    self
                }

                /// Returns a structure with all settable parameters and settings.
""")]),

    ("mon22 conn bound mixed", "P22", [(MX, "if !(nx < self.w && ny < self.h) {", "if nx.max(ny) >= self.w.min(self.h) {")]),
    ("mon22 conn bound swapped", "P22", [(MX, "if !(nx < self.w && ny < self.h) {", "if !(nx < self.h && ny < self.w) {")]),
    ("mon22 conn bound off by one", "P22", [(MX, "if !(nx < self.w && ny < self.h) {", "if !(nx + 1 < self.w && ny < self.h) {")]),
    ("mon22 conn bound le", "P22", [(MX, "if !(nx < self.w && ny < self.h) {", "if nx > self.w.saturating_sub(2) || ny >= self.h {")]),
    ("ben22 conn bound", "", [(MX, "if !(nx < self.w && ny < self.h) {", "if nx > self.w - 1 || ny >= self.h {")]),
    ("ben22 conn contains", "", [(MX, "if !(nx < self.w && ny < self.h) {", "if !(0..self.w).contains(&nx) || !(0..self.h).contains(&ny) {")]),
    ("ben22 conn swapped sides", "", [(MX, "if !(nx < self.w && ny < self.h) {", "if self.w <= nx || self.h <= ny {")]),

    ("mon08 modamt removed if active", "P08", [(NC, "                self.param_modamt.insert(param, v);\n                true\n            } else {", "                self.param_modamt.insert(param, v);\n                mod_idx.is_none()\n            } else {")]),
    ("mon08 modamt added if idx", "P08", [(NC, "            self.param_modamt.insert(param, v);\n            true\n        }\n    }", "            self.param_modamt.insert(param, v);\n            mod_idx.is_none()\n        }\n    }")]),
    ("ben08 modamt", "", [(NC, "            self.param_modamt.insert(param, v);\n            true\n        }\n    }", "            self.param_modamt.insert(param, v);\n            v.is_some()\n        }\n    }")]),

    ("mon26 scope not stored", "P26", [(GL, "        self.scopes.insert(scope, new_handle.clone());\n", "")]),
    ("mon26 scope other stored", "P26", [(GL, "self.scopes.insert(scope, new_handle.clone());", "self.scopes.insert(scope, ScopeHandle::new_shared());")]),
    ("mon26 scope key mod", "P26", [(GL, "if let Some(handle) = self.scopes.get(&scope) {", "if let Some(handle) = self.scopes.get(&(scope % 16)) {")]),
    ("mon26 tracker key", "P26", [(GL, "self.trackers.get_mut(&index).unwrap().get_backend()", "self.trackers.get_mut(&(index & 0x7f)).unwrap().get_backend()")]),
    ("mon26 tracker replaced", "P26", [(GL, "        if !self.trackers.contains_key(&index) {\n            self.trackers.insert(index, Tracker::new());\n        }\n\n        self.trackers.get_mut(&index).unwrap().get_backend()", "        self.trackers.insert(index, Tracker::new());\n        self.trackers.get_mut(&index).unwrap().get_backend()")]),
    ("mon26 feedback replaced", "P26", [(GL, "if !self.feedback.contains_key(&instance) {", "if !self.feedback.contains_key(&instance) || instance == 0 {")]),
    ("mon26 fb writer fresh", "P26", [(GL, "Box::new(SharedFeedbackWriter::new(self.get_shared_feedback(instance)))", "Box::new(SharedFeedbackWriter::new(&SharedFeedback::new(44100.0)))")]),
    ("mon26 fb reader other", "P26", [(GL, "Box::new(SharedFeedbackReader::new(self.get_shared_feedback(instance)))", "Box::new(SharedFeedbackReader::new(self.get_shared_feedback(instance.saturating_sub(1))))")]),
    ("mon26 has inverted", "P26", [(GL, "        self.trackers.contains_key(&index)\n    }", "        !self.trackers.is_empty() && index < self.trackers.len()\n    }")]),
    ("mon26 has code blockfun", "P26", [(GL, "            self.code_engines.contains_key(&index)\n", "            self.block_functions.contains_key(&index)\n")]),
    ("mon26 check pattern cond", "P26", [(GL, "            tracker.send_one_update();", "            if index < 64 { tracker.send_one_update(); }")]),
    ("mon26 dyn only new", "P26", [(GL, "            self.dyn_nodes1x1.insert(id, DynNodeHandle::new());\n        }\n\n        self.dyn_nodes1x1.get_mut(&id).unwrap().write(node);", "            self.dyn_nodes1x1.insert(id, DynNodeHandle::new());\n        } else {\n            self.dyn_nodes1x1.get_mut(&id).unwrap().write(node);\n        }")]),
    ("mon26 dyn buffer fresh", "P26", [(GL, "        self.dyn_nodes1x1.get_mut(&id).unwrap().get_output_buffer()", "        DynNodeHandle::new().get_output_buffer()")]),
    ("mon26 code other engine", "P26", [(GL, "if let Some(cod) = self.code_engines.get_mut(&id) {", "if let Some(cod) = self.code_engines.values_mut().next() {")]),
    ("mon26 code gen lt", "P26", [(GL, "if *generation != block_fun.generation() {", "if *generation < block_fun.generation() {")]),
    ("mon26 code gen plus", "P26", [(GL, "*generation = block_fun.generation();", "*generation = block_fun.generation() + 1;")]),
    ("mon26 code err lost", "P26", [(GL, "let ast = compiler.compile(&block_fun)?;", "let ast = match compiler.compile(&block_fun) { Ok(a) => a, Err(_) => return Ok(()) };")]),
    ("mon26 code upload err lost", "P26", [(GL, "                                Err(e) => return Err(BlkJITCompileError::JITCompileError(e)),\n", "                                Err(_e) => (),\n")]),
    ("mon26 remove tracker", "P26", [(GL, "            tracker.data().lock().unwrap().reset();\n        }\n", "            tracker.data().lock().unwrap().reset();\n        }\n        self.scopes.clear();\n")]),
    ("mon26 retain", "P26", [(GL, "        if let Some(tracker) = self.trackers.get_mut(&index) {\n            tracker.send_one_update();", "        self.trackers.retain(|k, _| *k < 128);\n        if let Some(tracker) = self.trackers.get_mut(&index) {\n            tracker.send_one_update();")]),
    ("mon26 node tseq id", "P26", [("src/dsp/node_tseq.rs", "nid.instance() as usize", "(nid.instance() as usize).min(31)")]),
    ("mon26 node fbrd id", "P26", [("src/dsp/node_fbwr_fbrd.rs", "node_global.get_feedback_reader(nid.instance() as usize)", "node_global.get_feedback_reader((nid.instance() as usize) & 0xf)")]),
    ("mon26 node scope cond", "P26", [("src/dsp/node_scope.rs", "        let handle = if let Ok(mut handle) = node_global.lock() {\n            handle.get_scope_handle(nid.instance() as usize)", "        let handle = if let (Ok(mut handle), true) = (node_global.lock(), nid.instance() < 24) {\n            handle.get_scope_handle(nid.instance() as usize)")]),
    ("mon26 node code fixed", "P26", [("src/dsp/node_code.rs", "handle.get_code_engine_backend(nid.instance() as usize)", "handle.get_code_engine_backend(nid.to_instance(0).instance() as usize)")]),
    ("mon26 factory id", "P26", [("src/dsp/mod.rs", "SyncUnsafeCell::new($variant::new(&node_id, node_global))", "SyncUnsafeCell::new($variant::new(&node_id.to_instance(0), node_global))")]),
    ("mon26 instance u8", "P26", [("src/dsp/mod.rs", "$(NodeId::$variant(i) => *i as usize),+", "$(NodeId::$variant(i) => (*i & 0x7f) as usize),+")]),
    ("mon26 fwd scope id", "P26", [(MX, "Some(node_global.get_scope_handle(scope))", "Some(node_global.get_scope_handle(scope % 8))")]),
    ("mon26 fwd has", "P26", [(MX, "            node_global.has_tracker(tracker_id)\n", "            tracker_id < 128 && node_global.has_tracker(tracker_id)\n")]),
    ("mon26 fwd pattern cond", "P26", [(MX, "            node_global.check_pattern_data(tracker_id);", "            if self.properties.is_empty() || tracker_id == 0 { node_global.check_pattern_data(tracker_id); }")]),
    ("mon26 fwd check err", "P26", [(MX, "            node_global.check_code(id)\n", "            let _ = node_global.check_code(id);\n            Ok(())\n")]),
    ("mon26 fwd block fun", "P26", [(MX, "            node_global.get_block_function(id)\n", "            node_global.get_block_function(id).filter(|_| id < 32)\n")]),
    ("mon26 fwd dyn", "P26", [(MX, "            node_global.send_dynamic_node1x1(index, node);", "            node_global.send_dynamic_node1x1(index.min(7), node);")]),
    ("mon26 global fresh", "P26", [(NC, "        self.node_global.clone()\n", "        NodeGlobalData::new_ref()\n")]),
    ("mon26 fb start", "P26", [(SFB, "write_ptr: 0 }", "write_ptr: sfb.delay_sample_count }")]),
    ("mon26 fb length", "P26", [(SFB, "        self.read_ptr = (self.read_ptr + 1) % self.delay_sample_count;", "        self.read_ptr = (self.read_ptr + 1) % self.buffer.len();")]),
    ("mon26 fb write step", "P26", [(SFB, "        self.write_ptr = (self.write_ptr + 1) % self.delay_sample_count;", "        if s != 0.0 { self.write_ptr = (self.write_ptr + 1) % self.delay_sample_count; }")]),
    ("mon26 fb own buffer", "P26", [(SFB, "Self { buffer: sfb.buffer.clone(), delay_sample_count: sfb.delay_sample_count, read_ptr: 0 }", "Self { buffer: SharedFeedback::new(44100.0).buffer.clone(), delay_sample_count: sfb.delay_sample_count, read_ptr: 0 }")]),
    ("mon26 scope read idx", "P26", [(SHH, "        self.bufs[buf_idx % 3][idx % SCOPE_SAMPLES].get()", "        self.bufs[buf_idx % 3][(idx + 1) % SCOPE_SAMPLES].get()")]),
    ("mon26 scope read buf", "P26", [(SHH, "        self.bufs[buf_idx % 3][idx % SCOPE_SAMPLES].get()", "        self.bufs[buf_idx.min(1) % 3][idx % SCOPE_SAMPLES].get()")]),
    ("mon26 scope gain swapped", "P26", [(SHH, "self.offs_gain[buf_idx % 3].set((offs, gain));", "self.offs_gain[buf_idx % 3].set((gain, offs));")]),
    ("mon26 scope mask", "P26", [(SHH, "self.active[2].store(mask & 0x4 > 0x0", "self.active[2].store(mask & 0x3 > 0x2")]),
    ("mon26 scope thresh off", "P26", [(SHH, "            self.threshold.0.store(false, Ordering::Relaxed);\n        }", "            self.threshold.1.set(0.0);\n        }")]),
    ("mon26 scope oversampled", "P26", [(SHH, "            self.bufs[buf_idx % 3][i % SCOPE_SAMPLES].set((v, v));", "            self.bufs[buf_idx % 3][idx % SCOPE_SAMPLES].set((v, v));")]),
    ("ben26 entry", "", [(GL, "        if !self.trackers.contains_key(&index) {\n            self.trackers.insert(index, Tracker::new());\n        }\n\n        self.trackers.get_mut(&index).unwrap().get_backend()", "        self.trackers.entry(index).or_insert_with(Tracker::new).get_backend()")]),
    ("ben26 scope entry", "", [(GL, "        if let Some(handle) = self.scopes.get(&scope) {\n            return handle.clone();\n        }\n\n        // TODO: Make Scopes sample rate agnostic?\n        let new_handle = ScopeHandle::new_shared();\n        self.scopes.insert(scope, new_handle.clone());\n        new_handle", "        self.scopes.entry(scope).or_insert_with(ScopeHandle::new_shared).clone()")]),
    ("ben26 scope match", "", [(GL, "        if let Some(handle) = self.scopes.get(&scope) {\n            return handle.clone();\n        }\n\n        // TODO: Make Scopes sample rate agnostic?\n        let new_handle = ScopeHandle::new_shared();\n        self.scopes.insert(scope, new_handle.clone());\n        new_handle", "        match self.scopes.get(&scope) {\n            Some(handle) => Arc::clone(handle),\n            None => {\n                let h = ScopeHandle::new_shared();\n                self.scopes.insert(scope, Arc::clone(&h));\n                h\n            }\n        }")]),
    ("ben26 helper", "", [(GL, "    pub fn get_pattern_data(&mut self, index: usize) -> Arc<Mutex<PatternData>> {\n        if !self.trackers.contains_key(&index) {\n            self.trackers.insert(index, Tracker::new());\n        }\n\n        self.trackers.get(&index).unwrap().data()\n    }", "    fn tracker_mut(&mut self, index: usize) -> &mut Tracker {\n        if self.trackers.get(&index).is_none() {\n            self.trackers.insert(index, Tracker::new());\n        }\n        self.trackers.get_mut(&index).unwrap()\n    }\n\n    pub fn get_pattern_data(&mut self, index: usize) -> Arc<Mutex<PatternData>> {\n        self.tracker_mut(index).data()\n    }"), (GL, "        if !self.trackers.contains_key(&index) {\n            self.trackers.insert(index, Tracker::new());\n        }\n\n        self.trackers.get_mut(&index).unwrap().get_backend()", "        self.tracker_mut(index).get_backend()")]),
    ("ben26 has", "", [(GL, "        self.trackers.contains_key(&index)\n    }", "        self.trackers.get(&index).is_some()\n    }")]),
    ("ben26 check code", "", [(GL, "                            match cod.upload(ast) {\n                                Err(e) => return Err(BlkJITCompileError::JITCompileError(e)),\n                                Ok(()) => (),\n                            }", "                            cod.upload(ast).map_err(BlkJITCompileError::JITCompileError)?;")]),
    ("ben26 check code early", "", [(GL, "                    if *generation != block_fun.generation() {\n                        *generation = block_fun.generation();", "                    let new_gen = block_fun.generation();\n                    if !(new_gen == *generation) {\n                        *generation = new_gen;")]),
    ("ben26 node map", "", [("src/dsp/node_scope.rs", "        let handle = if let Ok(mut handle) = node_global.lock() {\n            handle.get_scope_handle(nid.instance() as usize)\n        } else {\n            ScopeHandle::new_shared()\n        };", "        let inst = nid.instance();\n        let handle = match node_global.lock() {\n            Ok(mut g) => g.get_scope_handle(inst),\n            Err(_) => ScopeHandle::new_shared(),\n        };")]),
    ("ben26 fwd map", "", [(MX, "        if let Ok(mut node_global) = self.config.get_node_global().lock() {\n            Some(node_global.get_scope_handle(scope))\n        } else {\n            None\n        }", "        let global = self.config.get_node_global();\n        let mut global = global.lock().ok()?;\n        Some(global.get_scope_handle(scope))")]),
    ("ben26 fwd match", "", [(MX, "        if let Ok(node_global) = self.config.get_node_global().lock() {\n            node_global.has_tracker(tracker_id)\n        } else {\n            false\n        }", "        match self.config.get_node_global().lock() {\n            Ok(g) => g.has_tracker(tracker_id),\n            _ => false,\n        }")]),
    ("ben26 fb wrap", "", [(SFB, "        self.read_ptr = (self.read_ptr + 1) % self.delay_sample_count;", "        self.read_ptr += 1;\n        if self.read_ptr >= self.delay_sample_count { self.read_ptr = 0; }")]),
    ("ben26 fb helper", "", [(SFB, "        self.write_ptr = (self.write_ptr + 1) % self.delay_sample_count;", "        let next = self.write_ptr + 1;\n        self.write_ptr = next % self.delay_sample_count;")]),
    ("ben26 scope cell", "", [(SHH, "        self.bufs[buf_idx % 3][idx % SCOPE_SAMPLES].set(v);", "        self.cell(buf_idx, idx).set(v);"), (SHH, "        self.bufs[buf_idx % 3][idx % SCOPE_SAMPLES].get()\n    }", "        self.cell(buf_idx, idx).get()\n    }\n\n    fn cell(&self, b: usize, i: usize) -> &AtomicFloatPair {\n        &self.bufs[b % 3][i % SCOPE_SAMPLES]\n    }")]),
    ("ben26 thresh match", "", [(SHH, "        if let Some(t) = thresh {\n            self.threshold.1.set(t);\n            self.threshold.0.store(true, Ordering::Relaxed);\n        } else {\n            self.threshold.0.store(false, Ordering::Relaxed);\n        }", "        if let Some(t) = thresh {\n            self.threshold.1.set(t);\n        }\n        self.threshold.0.store(thresh.is_some(), Ordering::Relaxed);")]),

    ("mon23 atom idx", "P23", [(DM, "                            $($at_idx => Some(ParamId {\n                                node: *self,\n                                name: stringify!($atom),\n                                idx:  $in_at_idx,", "                            $($at_idx => Some(ParamId {\n                                node: *self,\n                                name: stringify!($atom),\n                                idx:  $at_idx,")]),
    ("mon23 instance lost", "P23", [(DM, "                            $($in_idx => Some(ParamId {\n                                node: *self,\n                                name: stringify!($para),\n                                idx:  $in_idx,\n                            }),)*\n                            _ => None,", "                            $($in_idx => Some(ParamId {\n                                node: self.to_instance(0),\n                                name: stringify!($para),\n                                idx:  $in_idx,\n                            }),)*\n                            _ => None,")]),
    ("mon23 is_atom", "P23", [(DM, "                            $($in_idx    => false,)*\n                            $($in_at_idx => true,)*", "                            $($in_idx    => false,)*\n                            $($at_idx => true,)*")]),
    ("mon23 atom_ui", "P23", [(DM, "$($in_at_idx => Some(stringify!($at_ui)),)*", "$($in_at_idx if $in_at_idx < 9 => Some(stringify!($at_ui)),)*")]),
    ("mon23 setting_min_max", "P23", [(DM, "$($in_at_idx => Some(($amin, $amax)),)*", "$($at_idx => Some(($amin, $amax)),)*")]),
    ("mon23 param steps min", "P23", [(DM, "$($in_idx => Some(($min, $max)),)*", "$($in_idx => Some((-1.0, $max)),)*")]),
    ("mon23 norm is denorm", "P23", [(DM, "$($in_idx => crate::dsp::norm_v::$variant::$para(v),)*", "$($in_idx => crate::dsp::denorm_v::$variant::$para(v),)*")]),
    ("mon23 is_in_con", "P23", [(DM, "nctx.in_connected & (1 << $in_idx) != 0x0", "nctx.out_connected & (1 << $in_idx) != 0x0")]),
    ("mon23 is_out_con", "P23", [(DM, "nctx.out_connected & (1 << $out_idx) != 0x0", "nctx.out_connected & (1 << ($out_idx & 1)) != 0x0")]),
    ("mon23 inp_buf", "P23", [(DM, "                    inputs[$in_idx]\n", "                    inputs[$in_idx & 7]\n")]),
    ("mon23 midicc swap", "P23", [(DM, "{3 2 cc2  setting(0)", "{4 2 cc2  setting(0)"), (DM, "{4 3 cc3  setting(0)", "{3 3 cc3  setting(0)")]),
    ("mon23 default range", "P23", [(DM, "{3 0 ftype setting(8) mode fa_sfilter_type 0 13}", "{3 0 ftype setting(8) mode fa_sfilter_type 0 7}")]),
    ("mon23 help order", "P23", [(DM, "let mut input_help = vec![$(crate::dsp::$variant::$para,)*];\n                    $(input_help.push(crate::dsp::$variant::$atom);)*", "let mut input_help = vec![$(crate::dsp::$variant::$atom,)*];\n                    $(input_help.push(crate::dsp::$variant::$para);)*")]),
    ("mon23 at_name inputs", "P23", [(DM, "                Some(*(self.atoms.get(in_idx)?))\n            }\n\n            pub fn out_name", "                Some(*(self.inputs.get(in_idx)?))\n            }\n\n            pub fn out_name")]),
    ("mon23 out_help", "P23", [(DM, "Some(*(self.output_help.get(out_idx)?))", "Some(*(self.input_help.get(out_idx)?))")]),
    ("mon23 closure norm", "P23", [(DM, "$($in_idx => crate::dsp::norm_v::$variant::$para(x),)+", "$($in_idx => crate::dsp::denorm_v::$variant::$para(x),)+")]),
    ("mon23 from label", "P23", [(DM, "                    $(stringify!($str) => crate::dsp::ni::$variant(NodeId::$variant(0)),)+", "                    $(stringify!($variant) => crate::dsp::ni::$variant(NodeId::$variant(0)),)+")]),
    ("mon23 denorm offs", "P23", [(DM, "                    $d_fun!(buf.read(frame) + offs_val)\n", "                    $d_fun!(buf.read(frame)) + offs_val\n")]),
    ("mon23 round", "P23", [(DM, "                    $r_fun!(x, coarse).clamp($min, $max)\n", "                    $r_fun!(x, coarse).clamp(-1.0, $max)\n")]),
    ("mon23 norm_def raw", "P23", [(DM, "$(#[inline] pub fn $para() -> f32 { $n_fun!($def) })*", "$(#[inline] pub fn $para() -> f32 { $def })*")]),
    ("mon23 category skip", "P23", [(DM, "                    if skip == 0 {\n                        fun(NodeId::$variant(0));\n                    } else {", "                    if skip == 0 && NodeId::$variant(0) != NodeId::TsLFO(0) {\n                        fun(NodeId::$variant(0));\n                    } else {")]),
    ("mon23 eq inst", "P23", [(DM, "                        if let NodeId::$variant(_) = other { true }\n                        else { false }),+", "                        if let NodeId::$variant(_) = other { self.instance() <= other.instance() }\n                        else { false }),+")]),
    ("mon23 to_instance", "P23", [(DM, "$(NodeId::$variant(_) => NodeId::$variant(instance as u8)),+", "$(NodeId::$variant(_) => NodeId::$variant((instance & 3) as u8)),+")]),
    ("mon23 inp skips", "P23", [(DM, "                            $(stringify!($para) => Some($in_idx),)*\n                            _ => None,", "                            $(stringify!($para) if $in_idx < 10 => Some($in_idx),)*\n                            _ => None,")]),
    ("mon23 out name", "P23", [(DM, "                            $(stringify!($out) => Some($out_idx),)*\n", "                            $(stringify!($out) => Some($out_idx % 8),)*\n")]),
    ("mon23 at idx swap sampl", "P23", [(DM, "{7 1 pmode ", "{7 2 pmode "), (DM, "{8 2 dclick ", "{8 1 dclick ")]),
    ("ben23 inp via param", "", [(DM, "                        match name {\n                            $(stringify!($para) => Some($in_idx),)*\n                            _ => None,\n                        }", "                        $(if name == stringify!($para) { return Some($in_idx); })*\n                        None")]),
    ("ben23 is_in_con", "", [(DM, "nctx.in_connected & (1 << $in_idx) != 0x0", "(nctx.in_connected >> $in_idx) & 1 == 1")]),
    ("ben23 inp buf get", "", [(DM, "                    inputs[$in_idx]\n", "                    let buf = inputs[$in_idx];\n                    buf\n")]),
    ("ben23 is_atom", "", [(DM, "                            $($in_idx    => false,)*\n                            $($in_at_idx => true,)*\n                            _            => false,", "                            $($in_at_idx => true,)*\n                            _            => false,")]),
    ("ben23 param_by_idx", "", [(DM, "                            $($in_idx => Some(ParamId {\n                                node: *self,\n                                name: stringify!($para),\n                                idx:  $in_idx,\n                            }),)*\n                            $($in_at_idx => Some(ParamId {\n                                node: *self,\n                                name: stringify!($atom),\n                                idx:  $in_at_idx,\n                            }),)*\n                            _ => None,", "                            $($in_idx => self.inp_param_by_idx(idx),)*\n                            $($in_at_idx => self.atom_param_by_idx($at_idx),)*\n                            _ => None,")]),
    ("ben23 eq matches", "", [(DM, "                        if let NodeId::$variant(_) = other { true }\n                        else { false }),+", "                        matches!(other, NodeId::$variant(_))),+")]),
    ("ben23 help extend", "", [(DM, "let mut input_help = vec![$(crate::dsp::$variant::$para,)*];\n                    $(input_help.push(crate::dsp::$variant::$atom);)*", "let input_help = vec![$(crate::dsp::$variant::$para,)* $(crate::dsp::$variant::$atom,)*];")]),
    ("ben23 norm helper", "", [(DM, "            pub fn norm(&self, v: f32) -> f32 {\n                match self.node {", "            pub fn norm(&self, v: f32) -> f32 {\n                let node = self.node;\n                match node {")]),
    ("ben23 name via", "", [(DM, "                if let Some(s) = self.inputs.get(in_idx) {\n                    Some(*s)\n                } else {", "                if in_idx < self.inputs.len() {\n                    Some(self.inputs[in_idx])\n                } else {")]),
    ("ben23 clamp", "", [(DM, "                    $r_fun!(x, coarse).clamp($min, $max)\n", "                    let r: f32 = $r_fun!(x, coarse);\n                    r.max($min).min($max)\n")]),

("adv p05 scope-like code early", "P05", [("src/dsp/node_code.rs", "                sig1.fill(0.0);\n                sig2.fill(0.0);\n                return;", "                sig1.fill(0.0);\n                return;")]),
("adv p05 smap strict", "P05", [("src/dsp/node_smap.rs", "            _ => out.fill(0.0),", "            _ => (),")]),
("adv p05 midip trig gate", "P05", [("src/dsp/node_midip.rs", "                    if self.next_gate > 0 {\n                        gate.write(frame, 0.0);\n                        self.cur_gate = 0;", "                    if self.next_gate > 0 {\n                        self.cur_gate = 0;")]),
("adv p05 rust1x1 ext none", "P05", [("src/dsp/node_ext.rs", "                    sig2.fill(0.0);\n                    sig3.fill(0.0);", "                    sig2.fill(0.0);")]),
("adv p05 ext swapped twice", "P05", [("src/dsp/node_ext.rs", "                        sig3.write(\n", "                        sig2.write(\n")]),
("adv p05 midicc only change", "P05", [("src/dsp/node_midicc.rs", "            sig3.write(frame, self.slew_cc3.next(self.cur_cc3, slew_ms));", "            if change { sig3.write(frame, self.slew_cc3.next(self.cur_cc3, slew_ms)); }")]),
("adv p05 noise starts at 1", "P05", [("src/dsp/node_noise.rs", "        } else {\n            for frame in 0..ctx.nframes() {", "        } else {\n            for frame in 1..ctx.nframes() {")]),
("adv p05 comb last frame", "P05", [("src/dsp/node_comb.rs", "        } else {\n            for frame in 0..ctx.nframes() {", "        } else {\n            for frame in 0..ctx.nframes() - 1 {")]),
("adv p05 vosc step 2", "P05", [("src/dsp/node_vosc.rs", "        if oversample {\n            for frame in 0..ctx.nframes() {", "        if oversample {\n            for frame in (0..ctx.nframes()).step_by(2) {")]),
("adv p05 write wrong frame", "P05", [("src/dsp/node_tslfo.rs", "            out.write(frame, lfo.next_unipolar() as f32);", "            out.write(frame & 0x3f, lfo.next_unipolar() as f32);")]),
("adv p05 wraps 64", "P05", [("src/dsp/node_rndwk.rs", "            out.write(frame, self.slew_val", "            out.write(frame % 64, self.slew_val")]),
("adv p05 delay break", "P05", [("src/dsp/node_delay.rs", "                let dry = inp.read(frame);\n\n                let clock_samples", "                let dry = inp.read(frame);\n                if frame == 127 { break; }\n\n                let clock_samples")]),
("adv p05 delay continue", "P05", [("src/dsp/node_delay.rs", "                let out_sample = buffer.at(clock_samples as usize);\n", "                if clock_samples as usize == 0 { continue; }\n                let out_sample = buffer.at(clock_samples as usize);\n")]),
("adv p05 fva default", "P05", [("src/dsp/node_fvafilt.rs", "                    out_l.write(frame, output[0]);\n                    out_r.write(frame, output[1]);\n", "                    out_l.write(frame, output[0]);\n                    if nctx_is_zero(output[1]) { continue; }\n                    out_r.write(frame, output[1]);\n"), ("src/dsp/node_fvafilt.rs", "use crate::dsp::{", "fn nctx_is_zero(f: f32) -> bool {\n    f == 0.0\n}\nuse crate::dsp::{")]),
("adv p05 quant t only on change", "P05", [("src/dsp/node_quant.rs", "            t.write(frame, self.change_trig.next(pitch));", "            let tv = self.change_trig.next(pitch);\n            if tv > 0.0 {\n                t.write(frame, tv);\n            }")]),
("adv p04 rndwk clamp", "P04", [("src/dsp/node_rndwk.rs", "target = target.max(min - (delta * 0.99)).min(max + (delta * 0.99));", "target = target.clamp(min - (delta * 0.99), max + (delta * 0.99));")]),
("adv p04 quant keys div", "P04", [("src/dsp/node_quant.rs", "        self.quant.set_keys(keys.i());", "        self.quant.set_keys(keys.i() % (keys.i() & 0x1FFF));")]),
("adv p04 midip channel signed", "P04", [("src/dsp/node_midip.rs", "(chan.i() as usize % 16) as u8", "(128 / (chan.i() + 1)) as u8")]),
("adv p04 scope idx", "P04", [("src/dsp/node_scope.rs", "let copy_count = ((1.0 / samples_per_block) as usize).min(SCOPE_SAMPLES);", "let copy_count = (1.0 / samples_per_block) as usize;"), ("src/dsp/node_scope.rs", "self.idx = self.idx.saturating_add(copy_count);", "self.idx += copy_count;")]),
("adv p04 scope time unclamped", "P04", [("src/dsp/node_scope.rs", "                    if self.frame_time >= time_per_block {", "                    if self.frame_time >= time_per_block && self.idx + 1 <= SCOPE_SAMPLES - 1 + (tsrc.i() as usize) {")]),
("adv p04 scope active mask", "P04", [("src/dsp/node_scope.rs", "let trigger_input = if tsrc.i() == 2 { trig } else { in1 };", "let trigger_input = [in1, in1, trig][tsrc.i() as usize];")]),
("adv p04 midicc assert", "P04", [("src/dsp/node_midicc.rs", "let midicc_cc1 = (cc1.i() as usize % 128) as u8;", "let midicc_cc1: u8 = std::convert::TryFrom::try_from(cc1.i()).unwrap();")]),
("adv p04 mux shift", "P04", [("src/dsp/node_noise.rs", "        if mode.i() == 0 {", "        if (1u32 << mode.i()) == 1 {")]),
("adv p04 bosc wtype arr", "P04", [("src/dsp/node_delay.rs", "        if mode.i() == 0 {", "        if [true, false][mode.i() as usize] {")]),
("adv p04 abs overflow", "P04", [("src/dsp/node_comb.rs", "        if mode.i() == 0 {", "        if mode.i().abs() == 0 {")]),
("adv p04 neg overflow", "P04", [("src/dsp/node_comb.rs", "        if mode.i() == 0 {", "        if -mode.i() == 0 {")]),
("adv p01 code vec", "P01", [("src/dsp/node_scope.rs", "        let input_bufs = [in1, in2, in3];", "        let input_bufs = vec![in1, in2, in3];")]),
("adv p01 backend opt clone", "P01", [("src/dsp/node_sampl.rs", "        let sample = at::Sampl::sample(atoms);", "        let sample = at::Sampl::sample(atoms).clone();\n        let sample = &sample;")]),
("adv p01 fmt", "P01", [("src/dsp/node_noise.rs", "        let rng = &mut self.rng;\n", "        let rng = &mut self.rng;\n        let lbl = mode.i().to_string();\n        if lbl.is_empty() {\n            return;\n        }\n")]),
("adv p01 box osc reset", "P01", [("src/dsp/node_tslfo.rs", "            let time_ms = denorm::TsLFO::time(time, frame).clamp(0.1, 300000.0);", "            let time_ms = *Box::new(denorm::TsLFO::time(time, frame).clamp(0.1, 300000.0));")]),
("adv p02 lock", "P02", [("src/dsp/node_noise.rs", "        let rng = &mut self.rng;\n", "        let rng = &mut self.rng;\n        std::thread::yield_now();\n")]),
("adv p02 time", "P02", [("src/dsp/node_noise.rs", "        let rng = &mut self.rng;\n", "        let rng = &mut self.rng;\n        let _ = std::env::var_os(\"HEXO_X\").is_some();\n")]),

("adv p19 dirty init", "P19", [(PT, "dirty_col: [true; MAX_COLS],", "dirty_col: [false; MAX_COLS],")]),
("adv p19 from_repr only changed type", "P19", [(PT, "        for (i, ct) in repr.col_types.iter().enumerate() {\n            self.col_types[i] = match *ct {", "        for (i, ct) in repr.col_types.iter().enumerate() {\n            let old = self.col_types[i];\n            self.col_types[i] = match *ct {"), (PT, "            self.modified_col(i);\n        }\n\n        for (row_idx", "            if old != self.col_types[i] {\n                self.modified_col(i);\n            }\n        }\n\n        for (row_idx")]),
("adv p19 set_rows shrink only", "P19", [(PT, "        self.modified_all_cols(); // the", "        if rows < 256 { self.modified_all_cols(); } // the")]),
("adv p19 reset all marks", "P19", [(PT, "            self.dirty_col[col] = false;\n", "            self.dirty_col = [false; MAX_COLS];\n")]),
("adv p19 gate rows only", "", [(PT, "        self.rows = rows.min(self.data.len());\n        self.modified_all_cols();", "        let limit = self.data.len();\n        self.modified_all_cols();\n        self.rows = if rows > limit { limit } else { rows };")]),
("adv p19 col type after set", "P19", [(TM, "                    self.col_types[col] = col_type;\n                    self.seq.set_rows(pattern_len);", "                    if pattern_len > 0 { self.col_types[col] = col_type; }\n                    self.seq.set_rows(pattern_len);")]),
("adv p19 len of other", "P19", [(TM, "pattern_len: data.rows(),", "pattern_len: data.rows().max(1),")]),
("adv p19 get_type cursor", "P19", [(TM, "col_type: data.col_type(col),", "col_type: data.col_type(data.get_cursor().1.min(col)),")]),
("adv p19 notes clamp", "P19", [(TM, "        for col in 0..MAX_COLS {\n            if data.col_is_modified_reset(col) {", "        for col in 0..MAX_COLS - 1 {\n            if data.col_is_modified_reset(col) {")]),
("adv p19 sync before rows0", "P19", [(TM, "                data.sync_out_data(col);\n", "                if data.rows() < 256 {\n                    data.sync_out_data(col);\n                }\n")]),
("adv p19 backend mark removed when data locked", "P19", [(TM, "            self.data.lock().unwrap().modified_all_cols();", "            if let Ok(mut d) = self.data.try_lock() {\n                d.modified_all_cols();\n            }")]),
("adv p19 string kept", "P19", [(PT, "        self.data[row][col] = Some(val);\n        self.strings[row][col] = None;", "        self.data[row][col] = Some(val);\n        if val > 0xfff {\n            self.strings[row][col] = None;\n        }")]),
("adv p18 get_cell col", "P18", [(PT, "        if col >= self.data[0].len() {\n            return None;\n        }", "        if col > self.data[0].len() {\n            return None;\n        }")]),
("adv p18 get_value row", "P18", [(PT, "        if row >= self.data.len() {\n            return 0;\n        }", "        if row >= self.data.len() + 1 {\n            return 0;\n        }")]),
("adv p18 col type setter", "P18", [(PT, "        if col >= self.col_types.len() {\n            return;\n        }\n        self.col_types[col] = PatternColType::Gate;", "        if col > MAX_COLS {\n            return;\n        }\n        self.col_types[col] = PatternColType::Gate;")]),
("adv p18 is_col_gate", "P18", [(PT, "        if let Some(ct) = self.col_types.get(col) {\n            *ct == PatternColType::Gate\n        } else {\n            false\n        }", "        self.col_types[col] == PatternColType::Gate")]),
("adv p18 new rows", "P18", [(PT, "rows: rows.min(MAX_PATTERN_LEN),", "rows,")]),
("adv p18 set_rows max", "P18", [(PT, "        self.rows = rows.min(self.data.len());\n        self.modified_all_cols();", "        self.rows = rows.min(self.data.len() * self.data[0].len());\n        self.modified_all_cols();")]),
("adv p18 change_value", "P18", [(PT, "let val = val.saturating_add(offs).max(0).min(0xfff);", "let val = (val + offs).max(0).min(0xfff);")]),
("adv p18 is_modified idx", "", [(PT, "if self.dirty_col.get(col).copied().unwrap_or(false) {", "if self.dirty_col[col] {")]),
("adv p18 value skip", "", [(PT, "                while end_idx <= out_col.len() {", "                while end_idx <= out_col.len() + 1 {")]),
("adv p18 edit_step", "P18", [(PT, "        self.edit_step = es;", "        self.edit_step = self.data.len() / es;")]),
("adv p14 block rows", "P14", [(WL, "MAX_BLOCK_ROWS: i64 = 256", "MAX_BLOCK_ROWS: i64 = i64::MAX")]),
("adv p14 area size add", "P14", [(WL, "                let need_w = x.saturating_add(sub_w).saturating_add(1);\n                if min_w < need_w {\n                    min_w = need_w;\n                }\n                let need_h = y.saturating_add(sub_h).saturating_add(1);\n                if min_h < need_h {\n                    min_h = need_h;\n                }\n            }\n\n            if let Some(sub_area) = block.contains.1", "                let need_w = x + sub_w + 1;\n                if min_w < need_w {\n                    min_w = need_w;\n                }\n                let need_h = y.saturating_add(sub_h).saturating_add(1);\n                if min_h < need_h {\n                    min_h = need_h;\n                }\n            }\n\n            if let Some(sub_area) = block.contains.1")]),
("adv p14 origin", "P14", [(WL, "oy.saturating_add(r as i64)), (*ox, *oy)", "oy + (r as i64)), (*ox, *oy)")]),
("adv p14 root", "P14", [(WL, "        if self.areas.is_empty() {\n            self.areas.push(Box::new(BlockArea::new(16, 16)));\n        }\n\n        let mut seen", "        let mut seen")]),
("adv p14 only first sub area", "P14", [(WL, "for sub_area in [&mut block.contains.0, &mut block.contains.1] {", "for sub_area in [&mut block.contains.0] {")]),
("adv p14 seen not marked", "P14", [(WL, "                            seen[id] = true;\n                            work_list.push(id);", "                            work_list.push(id);")]),
("adv p14 unreached kept", "", [(WL, "            if !seen {\n                for block in area.blocks.values_mut() {\n                    block.contains = (None, None);\n                }\n            }", "            if !seen && area.auto_shrink {\n                for block in area.blocks.values_mut() {\n                    block.contains = (None, None);\n                }\n            }")]),
("adv p14 root not seen", "P14", [(WL, "        seen[0] = true;\n", "")]),
("adv p14 recalc before fix", "P14", [(WL, "        self.remove_invalid_sub_areas();\n        self.recalculate_area_sizes();", "        self.recalculate_area_sizes();\n        self.remove_invalid_sub_areas();")]),
("adv p20 check rows-1", "P20", [(WL, "        for i in 0..rows {\n            let yo = y + (i as i64);", "        for i in 0..rows.saturating_sub(1) {\n            let yo = y + (i as i64);")]),
("adv p20 circular other", "P20", [(WL, "        for a_id in areas.iter() {\n            if *a_id == area {", "        for a_id in areas.iter().take(1) {\n            if *a_id == area {")]),
("adv p20 remove with other origin", "P20", [(WL, "            let (xo, yo) = (*xo, *yo);\n            self.update_origin_map();\n            Some((block, xo, yo))", "            let (xo, _) = (*xo, *yo);\n            self.update_origin_map();\n            Some((block, xo, y))")]),
("adv p20 put back grabbed", "P20", [(WL, "                area.set_block_at(xo, yo, block);\n            }\n            Err(", "                area.set_block_at(x, y, block);\n            }\n            Err(")]),
("adv p20 move chain err", "P20", [(WL, "            self.areas[id] = area_clone;\n            self.areas[id2] = area2_clone;", "            self.areas[id2] = area2_clone;\n            self.areas[id] = area_clone.clone();\n            if area_clone.blocks.is_empty() { return Err(BlockDSPError::UnknownArea(id)); }")]),
("adv p20 fit offset not moved", "P20", [(WL, "            if self.area_has_space_for_load(area, *xo, *yo) {\n                self.move_by_offs(*xo, *yo);", "            if self.area_has_space_for_load(area, *xo, *yo) {\n                self.move_by_offs(*xo, 0);")]),
("adv p20 space for load rows", "P20", [(WL, "if !area.check_space_at(*x + xoffs, *y + yoffs, block.rows) {", "if !area.check_space_at(*x + xoffs, *y + yoffs, 1) {")]),
("adv p20 instanciate typ rows", "P20", [(WL, "if !area.check_space_at(x, y, typ.rows) {", "if !area.check_space_at(x, y, typ.rows.min(typ.inputs.len())) {")]),
("adv p20 origin map rows from ports", "P20", [(WL, "            for r in 0..block.rows {\n                self.origin_map", "            for r in 0..block.inputs.len().max(block.outputs.len()) {\n                self.origin_map")]),
("adv p20 subarea chain", "P20", [(WL, "            for sub_idx in &cur_sub {\n                area_work_list.push_back(*sub_idx);\n            }", "            if let Some(sub_idx) = cur_sub.first() {\n                area_work_list.push_back(*sub_idx);\n            }")]),

("adv p13 col type u8", "P13", [(MR, "cts.push(json!(*ct as i64));", "cts.push(json!((*ct & 3) as i64));")]),
("adv p13 data negative", "P13", [(MR, "c.as_i64().unwrap_or(-1) as i32", "c.as_i64().unwrap_or(-1).max(-1) as u16 as i32")]),
("adv p13 micro swap", "P13", [(MR, "                    buf[i] = v as f32;", "                    buf[7 - i] = v as f32;")]),
("adv p13 atom unknown skipped", "P13", [(MR, "                if let Some(ma) = ma {\n                        param_v.push(json!(ma));", "                if let Some(ma) = ma.filter(|m| *m != 0.0) {\n                        param_v.push(json!(ma));")]),
("adv p13 modamt abs", "P13", [(MR, "v[4].as_f64().map(|v| v as f32),", "v[4].as_f64().map(|v| v.abs() as f32),")]),
("adv p13 dedup", "P13", [(MR, "        self.atoms.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());", "        self.atoms.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());\n        self.atoms.dedup_by(|a, b| a.0.node_id().name() == b.0.node_id().name() && a.0.name() == b.0.name());")]),
("adv p13 reader 7", "P13", [(MR, "for i in 0..8 {", "for i in 0..7 {")]),
("adv p13 empty str", "P13", [(MR, "if let Some(v) = v[1].as_str() {\n                Ok(SAtom::str(v))", "if let Some(v) = v[1].as_str().map(|s| s.trim()) {\n                Ok(SAtom::str(v))")]),
("adv p13 patterns null tail", "P13", [(MR, "        v[\"patterns\"] = patterns;", "        if self.patterns.iter().filter(|p| p.is_some()).count() > 1 || self.version < 2 || !self.cells.is_empty() {\n            v[\"patterns\"] = patterns;\n        }")]),
("adv p13 unused tracker", "P13", [(MX, "                patterns.push(if pdata.lock().unwrap().is_unset() {\n                    None", "                patterns.push(if pdata.lock().unwrap().is_unset() || pdata.lock().unwrap().is_unset() {\n                    None")]),
("adv p13 pattern slot skip", "P13", [(MX, "            if let Some(pdata) = self.get_pattern_data(tracker_id) {\n                patterns.push(if pdata.lock().unwrap().is_unset() {\n                    None\n                } else {\n                    Some(pdata.lock().unwrap().to_repr())\n                });\n            }", "            if let Some(pdata) = self.get_pattern_data(tracker_id) {\n                if !pdata.lock().unwrap().is_unset() {\n                    patterns.push(Some(pdata.lock().unwrap().to_repr()));\n                }\n            }")]),
("adv p13 cell only used", "P13", [(MX, "            if cell.node_id() != NodeId::Nop {\n                cells.push(cell.to_repr())", "            if cell.node_id() != NodeId::Nop && !(cell.has_no_ports()) {\n                cells.push(cell.to_repr())"), (MX, "    pub fn to_repr(&self) -> CellRepr {", "    fn has_no_ports(&self) -> bool {\n        self.x == 255\n    }\n\n    pub fn to_repr(&self) -> CellRepr {")]),
("adv p12 normalize ge", "P12", [(MX, "let normalize_params = repr.version > 1;", "let normalize_params = repr.version > 2;")]),
("adv p12 clear keeps saved", "P12", [(MX, "        self.saved_matrix = None;\n        self.properties.clear();", "        self.properties.clear();")]),
("adv p12 clear edges", "", [(MX, "        self.graph_ordering.clear();\n        self.edges.clear();\n        self.assigned_inputs.clear();\n        self.saved_matrix", "        self.saved_matrix")]),
("adv p12 place occupied", "P12", [(MX, "            let cell = Cell::from_repr(cell_repr);\n            self.place(cell.x as usize, cell.y as usize, cell);", "            let cell = Cell::from_repr(cell_repr);\n            if cell.x as usize + 1 < self.w || self.h > 1 {\n                self.place(cell.x as usize, cell.y as usize, cell);\n            }")]),
("adv p12 load order", "P12", [(MX, "        for (key, val) in repr.properties.iter() {\n            self.properties.insert(key.to_string(), val.clone());", "        for (key, val) in repr.properties.iter() {\n            self.properties.entry(key.to_lowercase()).or_insert(val.clone());")]),
("adv p12 pattern id", "P12", [(MX, "        for (tracker_id, pat) in repr.patterns.iter().enumerate() {", "        for (tracker_id, pat) in repr.patterns.iter().filter(|p| p.is_some()).enumerate() {")]),
("adv p12 reset try_lock", "P12", [(MX, "if let Ok(mut node_global) = self.config.get_node_global().lock() {\n            node_global.reset", "if let Ok(mut node_global) = self.config.get_node_global().try_lock() {\n            node_global.reset")]),
("adv p12 sync result", "P12", [(MX, "        let ret = self.sync();\n\n        if let Some(obs) = &self.observer {\n            obs.update_all();\n        }\n\n        ret\n    }\n\n    /// Saves a property", "        let ret = self.check();\n        let _ = self.sync();\n\n        if let Some(obs) = &self.observer {\n            obs.update_all();\n        }\n\n        if repr.cells.is_empty() { Ok(()) } else { ret.map_err(|e| e).or(Ok(())) }\n    }\n\n    /// Saves a property")]),
("adv p12 late reset", "P12", [(MX, "        for (bf_id, block_fun) in repr.block_funs.iter().enumerate() {", "        if let Ok(mut node_global) = self.config.get_node_global().lock() {\n            node_global.reset_patterns_and_block_functions();\n        }\n\n        for (bf_id, block_fun) in repr.block_funs.iter().enumerate() {")]),
("adv p10 save after first write", "P10", [(MX, "                self.place(x, y, *cell);\n            } else {\n                return Err(MatrixError::PosOutOfRange);", "                self.place(x, y, *cell);\n                if cell.is_empty() { break; }\n            } else {\n                return Err(MatrixError::PosOutOfRange);")]),
("adv p10 place pos", "P10", [(MX, "                self.place(x, y, *cell);\n            } else {\n                return Err(MatrixError::PosOutOfRange);", "                self.place(x.max(y), y, *cell);\n            } else {\n                return Err(MatrixError::PosOutOfRange);")]),
("adv p24 set_prop same", "P24", [(MX, "        self.gen_counter += 1;\n        self.properties.insert(key.to_string(), val);\n        if let Some(obs) = &self.observer {", "        self.gen_counter += 1;\n        let known = self.properties.contains_key(key);\n        self.properties.insert(key.to_string(), val);\n        if known { return; }\n        if let Some(obs) = &self.observer {")]),
("adv p24 gen sub", "P24", [(MX, "        self.gen_counter += 1;\n        self.properties.insert(key.to_string(), val);", "        self.gen_counter = (self.gen_counter + 1) % 65536;\n        self.properties.insert(key.to_string(), val);")]),
("adv p24 monitor before stored", "P24", [(MX, "        self.monitored_cell = cell;\n\n        let inputs = [cell.in1, cell.in2, cell.in3];", "        let inputs = [cell.in1, cell.in2, cell.in3];"), (MX, "            obs.update_monitor(&self.monitored_cell);\n        }\n    }", "            obs.update_monitor(&cell);\n        }\n        self.monitored_cell = cell;\n        if cell.is_empty() { self.monitored_cell = Cell::empty(NodeId::Nop); }\n    }")]),
("adv p24 remonitor", "P28", [(MX, "        if let Some(cell) = self.get(m.x as usize, m.y as usize).copied() {\n            self.monitor_cell(cell);", "        if let Some(cell) = self.get(m.y as usize, m.x as usize).copied() {\n            self.monitor_cell(cell);")]),
("adv p24 load gen", "P24", [(MX, "        let ret = self.sync();\n\n        if let Some(obs) = &self.observer {\n            obs.update_all();\n        }\n\n        ret\n    }\n\n    /// Saves a property", "        let gen = self.gen_counter;\n        let ret = self.sync();\n        if repr.cells.is_empty() { self.gen_counter = gen; }\n\n        if let Some(obs) = &self.observer {\n            obs.update_all();\n        }\n\n        ret\n    }\n\n    /// Saves a property")]),

("adv p08 no fill", "P08", [(NE, "            prog.params[input_idx] = value;\n            prog.inp[input_idx].fill(value);", "            prog.params[input_idx] = value;")]),
("adv p08 refresh one", "P08", [(NE, "while let Some((idx, v)) = self.target_refresh.pop() {", "if let Some((idx, v)) = self.target_refresh.pop() {")]),
("adv p08 refresh stale", "P08", [(NE, "            for (idx, v) in self.target_refresh.iter_mut() {\n                if *idx == input_idx {\n                    *v = value;\n                }\n            }\n", "")]),
("adv p08 last v avg", "P08", [(NE, "            prog.params[*idx] = last_v;\n            self.target_refresh.push((*idx, last_v));", "            if nframes > 1 {\n                prog.params[*idx] = last_v;\n            }\n            self.target_refresh.push((*idx, last_v));")]),
("adv p08 refresh only done", "P08", [(NE, "            self.target_refresh.push((*idx, last_v));", "            if !smoother.is_done() {\n                self.target_refresh.push((*idx, last_v));\n            }")]),
("adv p08 newprog clears refresh", "P08", [(NE, "                    self.prog.assign_outputs();\n\n                    let _ = self.shared", "                    self.prog.assign_outputs();\n                    for (_, sm) in self.smoothers.iter_mut() { sm.stop(); }\n\n                    let _ = self.shared")]),
("adv p08 modamt le", "P08", [(NE, "if mod_idx < self.prog.modops.len() {", "if mod_idx + 1 < self.prog.modops.len() {")]),
("adv p08 mid idx", "P08", [(NE, "if *idx >= prog.inp.len() || *idx >= prog.params.len() {", "if *idx >= prog.inp.len() || *idx >= prog.atoms.len() + prog.params.len() / 2 {")]),
("adv p27 modops skip", "P27", [(NE, "for modop in prog.modops[md.0..md.1].iter_mut() {", "for modop in prog.modops[md.0..md.1].iter_mut().take(nframes) {")]),
("adv p27 ctx idx wrap", "P27", [(NE, "&ctx_vals[ctx_idx..ctx_idx + 2],", "&ctx_vals[ctx_idx % 128..ctx_idx % 128 + 2],")]),
("adv p27 fb frame", "P27", [(NE, "let last_frame_idx = nframes - 1;", "let last_frame_idx = (nframes - 1).min(63);")]),
("adv p27 fb zip out0", "P27", [(NE, ".zip(out.0..out.1) {\n                prog_out_fb", ".zip(out.0..out.1).skip(usize::from(op.out_connected == 0)) {\n                prog_out_fb")]),
("adv p27 publish early", "P27", [(NE, "        prog.out_feedback.publish();\n", "        if nframes > 1 { prog.out_feedback.publish(); }\n")]),
("adv p27 null skip", "P27", [(NE, "            let last_frame_idx = nframes - 1;", "            if op.out_connected == 0 && op.in_connected == 0 { continue; }\n            let last_frame_idx = nframes - 1;")]),
("adv p28 mon inp2", "P28", [(NE, "let sig = if i > 2 {", "let sig = if i > 3 {")]),
("adv p28 mon feed idx", "P28", [(NE, "mon.feed(i, ctx.nframes(), sig);", "mon.feed(i % 6, ctx.nframes() - 1, sig);")]),
("adv p28 one buf", "P28", [(NE, "                self.shared.monitor_backend.send_mon_buf(mon);\n            }", "                self.shared.monitor_backend.send_mon_buf(mon);\n            } else {\n                self.monitor_signal_cur_inp_indices = [UNUSED_MONITOR_IDX; MON_SIG_CNT];\n                break;\n            }")]),
("adv p28 minmax reset", "P28", [("src/monitor.rs", "                self.cur_min_max.1 = -100.0;\n                self.cur_min_max.2 = 0;", "                self.cur_min_max.1 = 100.0;\n                self.cur_min_max.2 = 0;")]),
("adv p28 start values", "P28", [("src/monitor.rs", "                self.cur_min_max.0 = 100.0;\n", "                self.cur_min_max.0 = 1.0;\n")]),
("adv p28 new data once", "P28", [("src/monitor.rs", "            if proc.process(mon_buf) {\n                self.new_data = true;\n            }", "            self.new_data = proc.process(mon_buf);")]),
("adv p28 any short circuit", "P28", [("src/monitor.rs", "        for proc in self.procs.iter_mut() {\n            if proc.process(mon_buf) {\n                self.new_data = true;\n            }\n        }", "        if self.procs.iter_mut().any(|proc| proc.process(mon_buf)) {\n            self.new_data = true;\n        }")]),
("adv p28 lock try", "", [("src/monitor.rs", "            self.new_data.store(false, std::sync::atomic::Ordering::Relaxed);\n            pt", "            if idx == 5 { self.new_data.store(false, std::sync::atomic::Ordering::Relaxed); }\n            pt")]),
("adv p28 store false first", "", [("src/monitor.rs", "            for i in 0..MON_SIG_CNT {\n                ms[i].copy_to(&mut self.monitor_samples_copy[i]);\n            }\n\n            self.new_data.store(false, std::sync::atomic::Ordering::Relaxed);", "            self.new_data.store(false, std::sync::atomic::Ordering::Relaxed);\n            for i in 0..MON_SIG_CNT {\n                ms[i].copy_to(&mut self.monitor_samples_copy[i]);\n            }\n")]),
("adv p28 copy ptr", "P28", [("src/monitor.rs", "        self.buf_ptr = min_max_slice.0;", "        self.buf_ptr = min_max_slice.0.saturating_sub(1);")]),
("adv p28 reset order", "P28", [("src/monitor.rs", "        self.read_idx = [0; MON_SIG_CNT];\n    }\n\n    #[inline", "    }\n\n    #[inline")]),
("adv p09 window", "P09", [(MI, "if event.timing < (to_time + block_size) {", "if event.timing <= (to_time + block_size) {")]),
("adv p09 clear late", "P09", [(NE, "        self.exec_ctx.midi_notes.clear();\n        self.exec_ctx.midi_ccs.clear();\n", "        if self.injected_midi.is_empty() {\n            self.exec_ctx.midi_notes.clear();\n        }\n        self.exec_ctx.midi_ccs.clear();\n")]),
("adv p09 note off as cc", "P09", [(MI, "        if let HxMidiEvent::CC { .. } = self.kind {\n            true", "        if let HxMidiEvent::CC { value, .. } = self.kind {\n            value >= 0.0")]),
("adv p09 injected time", "P09", [(NE, "let ev = HxTimedEvent::new_timed(0, *ev);", "let ev = HxTimedEvent::new_timed(self.exec_ctx.midi_notes.len(), *ev);")]),
("adv p09 cap both", "P09", [(NE, "            if self.exec_ctx.midi_notes.len() == MAX_MIDI_NOTES_PER_BLOCK {\n                break;", "            if self.exec_ctx.midi_notes.len() + self.exec_ctx.midi_ccs.len() >= MAX_MIDI_NOTES_PER_BLOCK {\n                break;")]),
("adv p29 update edges first", "P29", [(SY, "        for node in walk_afterwads.iter() {\n            if self.walk_upload(&node, only_update_params)? {\n                need_rebuild = true;\n            }\n        }", "        if walk_afterwads.len() < 8 { for node in walk_afterwads.iter() {\n            if self.walk_upload(&node, only_update_params)? {\n                need_rebuild = true;\n            }\n        } }")]),
("adv p29 modamt on change", "P29", [(SY, "                            changed_value = true;\n                            changed_modamt = true;", "                            changed_modamt = true;")]),
("adv p29 rebuild last", "P29", [(SY, "                            needs_graph_rebuild = true;", "                            needs_graph_rebuild = !needs_graph_rebuild;")]),
("adv p29 cmp eps", "P29", [(SY, "if old_val != *value {", "if (old_val.f() - value.f()).abs() > 0.0001 {")]),
("adv p29 order fwd", "P29", [(SY, "        let mut prog = self.config.rebuild_node_ports();\n\n        for node_id in ordered_nodes.iter().rev() {", "        let mut prog = self.config.rebuild_node_ports();\n\n        ordered_nodes.sort_by_key(|n| n.instance());\n        for node_id in ordered_nodes.iter().rev() {")]),
("adv p29 edge dedup", "P29", [(SY, "                for (inp_param, (out_node_id, out_port)) in node_config.edges.iter() {", "                for (inp_param, (out_node_id, out_port)) in node_config.edges.iter().filter(|e| e.1.0.name() != node_id.name()) {")]),
("adv p29 clear keeps", "P29", [(SY, "        self.nodes.clear();\n        self.config.delete_nodes();", "        self.nodes.retain(|_, n| !n.edges.is_empty() && n.params.is_empty());\n        self.config.delete_nodes();")]),
("adv p26 scope id", "P26", [(GL, "        if let Some(handle) = self.scopes.get(&scope) {", "        let scope = scope % 16;\n        if let Some(handle) = self.scopes.get(&scope) {")]),
("adv p26 gen after", "", [(GL, "                        *generation = block_fun.generation();\n                        let mut compiler = Block2JITCompiler::new(block_fun.block_language());\n                        let ast = compiler.compile(&block_fun)?;\n", "                        let mut compiler = Block2JITCompiler::new(block_fun.block_language());\n                        let ast = compiler.compile(&block_fun)?;\n                        *generation = block_fun.generation();\n")]),
("adv p26 gen less", "P26", [(GL, "if *generation != block_fun.generation() {", "if *generation + 1 < block_fun.generation() {")]),
("adv p26 gen lt", "", [(GL, "if *generation != block_fun.generation() {", "if *generation < block_fun.generation() {")]),
("adv p26 check try", "P26", [(GL, "                if let Ok(block_fun) = block_fun.lock() {\n                    if *gen", "                if let Ok(block_fun) = block_fun.try_lock() {\n                    if *gen")]),
("adv p26 tracker reset", "P26", [(GL, "        if !self.trackers.contains_key(&index) {\n            self.trackers.insert(index, Tracker::new());\n        }\n\n        self.trackers.get(&index).unwrap().data()", "        if !self.trackers.contains_key(&index) || self.trackers.len() > 127 {\n            self.trackers.insert(index, Tracker::new());\n        }\n\n        self.trackers.get(&index).unwrap().data()")]),
("adv p26 fb len", "P26", [(SFB, "self.read_ptr = (self.read_ptr + 1) % self.delay_sample_count;", "self.read_ptr = (self.read_ptr + 1) % (self.delay_sample_count - 1);")]),
("adv p17 one msg", "P17", [("src/nodes/drop_thread.rs", "while let Some(_node) = graph_drop_con.pop() {", "if let Some(_node) = graph_drop_con.pop() {")]),
("adv p17 forget", "P17", [("src/nodes/drop_thread.rs", "while let Some(_node) = graph_drop_con.pop() {", "while let Some(node) = graph_drop_con.pop() {\n                    if let DropMsg::Atom { .. } = &node { std::mem::forget(node); }")]),
("adv p17 join if finished", "P17", [("src/nodes/drop_thread.rs", "        let _ = self.th.take().unwrap().join();", "        if let Some(th) = self.th.take() {\n            if th.is_finished() { let _ = th.join(); }\n        }")]),
("adv p17 flag cleared", "P17", [("src/nodes/drop_thread.rs", "                if th_terminate.load(std::sync::atomic::Ordering::Relaxed) {\n                    return;", "                if th_terminate.swap(false, std::sync::atomic::Ordering::Relaxed) && graph_drop_con.is_empty() {\n                    return;")]),

("adv p28 at off", "P28", [("src/monitor.rs", "let idx = (self.buf_ptr + offs) % self.samples.len();", "let idx = (self.buf_ptr + offs + 1) % self.samples.len();")]),
("adv p28 at len", "P28", [("src/monitor.rs", "let idx = (self.buf_ptr + offs) % self.samples.len();", "let idx = (self.buf_ptr + offs) % (self.samples.len() - 1);")]),
("ben p28 at", "", [("src/monitor.rs", "let idx = (self.buf_ptr + offs) % self.samples.len();\n        &self.samples[idx]", "let n = self.samples.len();\n        let mut idx = self.buf_ptr + offs;\n        if idx >= n { idx %= n; }\n        &self.samples[idx]")]),
("ben p08 cont", "", [(NE, "if *idx >= prog.inp.len() || *idx >= prog.params.len() {", "if !(*idx < prog.inp.len() && prog.params.len() > *idx) {")]),
("ben p08 push last", "", [(NE, "            self.target_refresh.push((*idx, last_v));", "            if smoother.is_done() {\n                self.target_refresh.push((*idx, last_v));\n            }")]),

("ben p09 full", "", [(NE, "            if self.exec_ctx.midi_ccs.len() == MAX_MIDI_CC_PER_BLOCK {\n                break;\n            }\n            if self.exec_ctx.midi_notes.len() == MAX_MIDI_NOTES_PER_BLOCK {\n                break;\n            }", "            let full_c = self.exec_ctx.midi_ccs.len() >= MAX_MIDI_CC_PER_BLOCK;\n            let full_n = self.exec_ctx.midi_notes.len() >= MAX_MIDI_NOTES_PER_BLOCK;\n            if full_c || full_n {\n                break;\n            }")]),
("ben p09 iscc", "", [(MI, "        if let HxMidiEvent::CC { .. } = self.kind {\n            true\n        } else {\n            false\n        }", "        matches!(self.kind, HxMidiEvent::CC { .. })")]),
("ben p29 walk idx", "", [(SY, "        for node in walk_afterwads.iter() {\n            if self.walk_upload(&node, only_update_params)? {\n                need_rebuild = true;\n            }\n        }", "        let mut n = 0;\n        while n < walk_afterwads.len() {\n            let r = self.walk_upload(&walk_afterwads[n], only_update_params)?;\n            need_rebuild = need_rebuild || r;\n            n += 1;\n        }")]),
("ben p29 order rev", "", [(SY, "        let mut prog = self.config.rebuild_node_ports();\n\n        for node_id in ordered_nodes.iter().rev() {", "        let mut prog = self.config.rebuild_node_ports();\n\n        ordered_nodes.shrink_to_fit();\n        for node_id in ordered_nodes.iter().rev() {")]),

("b5 p07 zip prev len", "P07", [(NP, "for (old_inp_pb, new_inp_pb) in prev_prog.inp.iter_mut().zip(self.inp.iter_mut()) {\n            std::mem::swap(old_inp_pb, new_inp_pb);", "for (old_inp_pb, new_inp_pb) in prev_prog.inp.iter_mut().zip(self.inp.iter_mut()) {\n            *new_inp_pb = *old_inp_pb;")]),
("b5 p07 free only locked", "P07", [(NP, "        for buf in self.out.iter_mut() {\n            buf.free();\n        }\n    }", "        if self.locked_buffers {\n            for buf in self.out.iter_mut() {\n                buf.free();\n            }\n        }\n    }")]),
("b5 p07 modop share", "P07", [(NP, "        modops.resize_with(mod_len, ModOp::new);", "        modops.resize(mod_len, ModOp::new());")]),
("b5 p07 assign copy flag", "P07", [(NE, "                        self.prog.swap_previous_outputs(&mut prev_prog);\n                    }\n\n                    self.prog.assign_outputs();", "                        self.prog.swap_previous_outputs(&mut prev_prog);\n                    }\n\n                    if !self.prog.locked_buffers { self.prog.assign_outputs(); }")]),
("b5 p07 cur inp free", "P07", [(NP, "        for buf in self.cur_inp.iter_mut() {\n            *buf = ProcBuf::null();\n        }", "        for buf in self.cur_inp.iter_mut() {\n            buf.free();\n            *buf = ProcBuf::null();\n        }")]),
("b5 p07 modop null check", "P07", [(NP, "        if inbuf.is_null() {\n            return;\n        }", "        if inbuf.is_null() && self.amount == 0.0 {\n            return;\n        }")]),
("b5 p03 modamt bound", "P03", [(NE, "if mod_idx < self.prog.modops.len() {", "if mod_idx <= self.prog.modops.len() {")]),
("b5 p03 atom index", "P03", [(NE, "                    let garbage = match self.prog.atoms.get_mut(at_idx) {\n                        Some(atom) => std::mem::replace(atom, value),\n                        None => value,\n                    };", "                    let garbage = if at_idx < self.prog.params.len() {\n                        std::mem::replace(&mut self.prog.atoms[at_idx], value)\n                    } else {\n                        value\n                    };")]),
("b5 p03 refresh unchecked", "P03", [(NE, "            if let Some(inp) = prog.inp.get_mut(idx) {\n                inp.fill(v);\n            }", "            if idx <= prog.inp.len() {\n                prog.inp[idx].fill(v);\n            }")]),
("b5 p03 refresh after", "P03", [(NE, "                    self.target_refresh.clear();\n\n                    self.monitor_signal_cur_inp_indices = [UNUSED", "                    if self.target_refresh.len() > 1 { self.target_refresh.clear(); }\n\n                    self.monitor_signal_cur_inp_indices = [UNUSED")]),
("b5 p03 monitor keep", "P03", [(NE, "                    self.monitor_signal_cur_inp_indices = [UNUSED_MONITOR_IDX; MON_SIG_CNT];\n\n                    // XXX: Copying", "                    // XXX: Copying")]),
("b5 p11 indeg once", "P11", [(GO, "                if self.in_degree[*neigh_node_idx] == 0 {\n                    deq.push_back(*neigh_node_idx);", "                if self.in_degree[*neigh_node_idx] <= 1 {\n                    deq.push_back(*neigh_node_idx);")]),
("b5 p11 no cycle check", "P11", [(GO, "if visited_count != self.node_count {", "if visited_count < self.node_count / 2 {")]),
("b5 p11 reset", "P11", [(GO, "        for indeg in self.in_degree.iter_mut() {\n            *indeg = 0;\n        }\n", "        for indeg in self.in_degree.iter_mut().take(self.node_count / 2 + 1) {\n            *indeg = 0;\n        }\n")]),
("b5 p11 push front", "", [(GO, "            visited_count += 1;\n\n            let node = &self.nodes[node_idx];", "            let node = &self.nodes[node_idx];\n            visited_count += 1;\n")]),
("b5 p11 edge op", "P11", [(NP, "                n_op.inputs.push((out_index, inp_index, mod_index));\n                return;", "                if !n_op.inputs.iter().any(|i| i.0 == out_index) {\n                    n_op.inputs.push((out_index, inp_index, mod_index));\n                }\n                return;")]),
("b5 p11 append op dup", "P11", [(NP, "            if n_op.idx == node_op.idx {\n                return;\n            }", "            if n_op.idx == node_op.idx || n_op.in_idxlen == node_op.in_idxlen {\n                return;\n            }")]),
("b5 p15 reuse", "P15", [(MR, "create(true).write(true).truncate(true).open(&tmp_filepath)?;", "create(true).write(true).truncate(!std::path::Path::new(filepath).exists()).open(&tmp_filepath)?;")]),
("b5 p15 write", "P15", [(MR, "        file.write_all(ser.as_bytes())?;\n", "        let _ = file.write(ser.as_bytes())?;\n")]),
("b5 p15 name", "P15", [(MR, "let tmp_filepath = format!(\"{}~\", filepath);", "let tmp_filepath = format!(\"{}~\", filepath.trim_end_matches('~'));")]),
("b5 p15 take", "P15", [(MR, "        file.read_to_end(&mut contents)?;", "        file.take(1 << 20).read_to_end(&mut contents)?;")]),
("b5 p15 lossy", "P15", [(MR, "        file.write_all(ser.as_bytes())?;\n        std::fs::rename", "        if let Err(e) = file.write_all(ser.as_bytes()) {\n            if e.kind() != std::io::ErrorKind::Interrupted {\n                return Err(e);\n            }\n        }\n        std::fs::rename")]),
("b5 p15 remove first", "P15", [(MR, "        std::fs::rename(&tmp_filepath, &filepath)?;\n", "        if std::fs::rename(&tmp_filepath, &filepath).is_err() {\n            std::fs::remove_file(&filepath)?;\n            std::fs::rename(&tmp_filepath, &filepath)?;\n        }\n")]),

("b5 p03 clear some", "P03", [(NE, "                    for (_, smoother) in self.smoothers.iter_mut() {\n                        smoother.stop();\n                    }", "                    for (idx, smoother) in self.smoothers.iter_mut() {\n                        if *idx > 0 {\n                            smoother.stop();\n                        }\n                    }")]),
("b5 p15 ext", "P15", [(MR, "let tmp_filepath = format!(\"{}~\", filepath);", "let tmp_filepath = std::path::Path::new(filepath).with_extension(\"hxy~\");")]),
("ben p15 fname", "", [(MR, "let tmp_filepath = format!(\"{}~\", filepath);", "let mut tmp_filepath = String::from(filepath);\n        tmp_filepath.push('~');")]),
("ben p15 helper", "", [(MR, "let tmp_filepath = format!(\"{}~\", filepath);", "fn tmp_name(p: &str) -> String {\n            [p, \"~\"].concat()\n        }\n        let tmp_filepath = tmp_name(filepath);")]),
("ben p03 clear idx", "", [(NE, "                    for (_, smoother) in self.smoothers.iter_mut() {\n                        smoother.stop();\n                    }", "                    let n = self.smoothers.len();\n                    let mut i = 0;\n                    while i < n {\n                        if !self.smoothers[i].1.is_done() {\n                            self.smoothers[i].1.stop();\n                        }\n                        i += 1;\n                    }")]),
("ben p03 forget fn", "", [(NE, "    #[inline]\n    pub fn process_graph_updates(", "    fn forget_monitors(&mut self) {\n        for i in self.monitor_signal_cur_inp_indices.iter_mut() {\n            *i = UNUSED_MONITOR_IDX;\n        }\n    }\n\n    #[inline]\n    pub fn process_graph_updates("), (NE, "                    self.monitor_signal_cur_inp_indices = [UNUSED_MONITOR_IDX; MON_SIG_CNT];\n\n                    // XXX: Copying", "                    self.forget_monitors();\n\n                    // XXX: Copying")]),
("ben p11 append", "", [(NP, "        for n_op in self.prog.iter_mut() {\n            if n_op.idx == node_op.idx {\n                return;\n            }\n        }\n\n        node_op.out_connected", "        if self.prog.iter().any(|o| o.idx == node_op.idx) {\n            return;\n        }\n\n        node_op.out_connected")]),
("ben p11 order res", "", [(GO, "        if visited_count != self.node_count {\n            out.clear();\n            false\n        } else {\n            true\n        }", "        let complete = self.node_count == visited_count;\n        if !complete {\n            out.clear();\n        }\n        complete")]),
]
