"""P27: every node runs on its own ports and its LED, phase and output feedback reach the
frontend under the node's own name. P28: monitored signals reach the frontend under their
slot number, complete, and their buffers are never lost."""
from .matrix import *
from .midi import ret_values

SHN = "node_ctx_values"
MB = "monitor::MonitorBuf::"
MP = "monitor::MonitorProcessor::"
MM = "monitor::MonitorMinMax::"
MON = "monitor::Monitor::"
MBE = "monitor::MonitorBackend::"
MS = "monitor::MinMaxMonitorSamples::"


def diff(V, a, b):
    """a - b when that is a constant"""
    x, y = lin(V, a), lin(V, b)
    r = dict(x)
    for k, v in y.items():
        r[k] = r.get(k, 0) - v
    r = {k: v for k, v in r.items() if v}
    return r.get(1, 0) if not set(r) - {1} else None


def same(V, a, b):
    return diff(V, a, b) == 0


def ranges_of(e):
    """(start, end) of the first half open range in an expression (a slice of it)"""
    for x in walk(e):
        if x and x[0] == "idx" and x[2][0] == "agg" and str(x[2][1][1]).endswith("Range") and len(x[2][2]) == 2:
            return x[1], x[2][2][0], x[2][2][1]
    return None


def base_field(e):
    fs = [x[2] for x in walk(e) if x and x[0] == "fld"]
    return str(fs[0]) if fs else None


def p27(F, tier):
    rep = Report("P27", "other")
    rep.rule("the executor runs every operation of the program with exactly the operation's own ranges of the inputs, parameters, settings and outputs, and with the two feedback cells at twice the operation's index; the configurator reads the LED of a node at twice its index and the phase right behind it, from the same shared cells")
    rep.rule("after a node has run, the last frame of each of its outputs is stored in the feedback vector at the output's own index; the vector is published after all nodes have run; the frontend takes it over completely and looks a node's output up at the output's own index")
    led(F, rep)
    execute(F, rep)
    outfb(F, rep)
    forwards(F, rep)
    rep.assume("a graph has at most 256 node instances (NodeOp::idx is a u8)")
    return rep


def p28(F, tier):
    rep = Report("P28", "other")
    rep.rule("the configurator translates the three monitored inputs into slots 0-2 and the three outputs into slots 3-5, by position; the executor feeds slots 0-2 from the inputs and 3-5 from the outputs, slot by slot; the monitor thread reads each buffer to the end, takes minimum and maximum of each slot separately and publishes all slots under their own number; every sync restarts the monitoring after the upload")
    monitor_conf(F, rep)
    monitor_exec(F, rep)
    monitor_buf(F, rep)
    monitor_thread(F, rep)
    rings(F, rep)
    remonitor(F, rep)
    return rep


# ---------------------------------------------------------------- LED and phase
def shared_index(V, e):
    """index expressions of accesses to the shared feedback cells in e"""
    out = []
    for x in deep_walk(V, e):
        if x and x[0] == "idx" and any(y and y[0] == "fld" and y[2] == SHN for y in walk(x[1])):
            out.append(x[2])
        if x and x[0] == "call" and last(x[1]) in ("get", "get_unchecked", "nth") and len(x[2]) == 2 and any(y and y[0] == "fld" and y[2] == SHN for y in walk(x[2][0])):
            out.append(x[2][1])
    return out


def led(F, rep):
    for fn, off in (("led_value_for", 0), ("phase_value_for", 1)):
        fid = CONF + fn
        body = flat_or_miss(F, rep, fid, stop=lambda p: p == CONF + "unique_index_for")
        if body is None:
            continue
        V = Val(body)
        ix = []
        for i, t in body.calls():
            if last(callname(t)) in ("get", "load") and "Atomic" in callname(t) and t["a"]:
                ix += [(i, x) for x in shared_index(V, V.op(t["a"][0]))]
        if not ix:
            if not any(last(callname(t)) in ("get", "map", "map_or", "and_then") for _, t in body.calls()):
                rep.violate("led:none:" + fn, "%s does not read the node's feedback cell" % fn, F.fn_loc(fid))
            continue
        for i, x in ix:
            rep.count("feedback cell reads")
            l = lin(V, x)
            at = [k for k in l if k != 1]
            if not at:
                rep.violate("led:const:" + fn, "%s reads a fixed feedback cell" % fn, body.where(i))
                continue
            if len(at) == 1 and (l[at[0]], l.get(1, 0)) != (2, off):
                rep.violate("led:index:" + fn, "%s reads the feedback cell %d*index+%d instead of 2*index+%d" % (fn, l[at[0]], l.get(1, 0), off), body.where(i))
            for y in deep_walk(V, x):
                if y and y[0] == "call" and last(y[1]) == "unique_index_for" and strip(y[2][-1]) != ("arg", 2):
                    rep.violate("led:node:" + fn, "%s looks up another node" % fn, body.where(i))
            bad = [c for c in dev_conds(body, V, i) if not (structural(c) or cnt_cond(V, c))]
            if bad:
                rep.violate("led:cond:" + fn, "%s reads the feedback cell only under the condition %s" % (fn, fmt(bad[0][0])[:80]), body.where(i))
    # the index a node's operation carries is its position in the node table
    fid = "nodes::node_conf::SharedNodeConf::new"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith("monitor::") or "drop_thread" in p)
    if body is not None:
        V = Val(body)
        for i, t in body.calls():
            if last(callname(t)) == "clone" and "AtomicFloat" in str(t["f"].get("path", "")) + callname(t) + str(body.locals[t["d"][0]][0]):
                ty = body.locals[t["d"][0]][0] if not t["d"][1] else ""
                rep.count("shared cell handles")
                if "Arc" not in ty:
                    rep.violate("led:copy", "the audio thread gets copies of the feedback cells instead of the cells the frontend reads", body.where(i))
            if last(callname(t) or trait_call(t)) in ("rev", "skip") and any("Atomic" in body.locals[d[0]][0] for d in [t["d"]]):
                rep.violate("led:shift", "the audio thread and the frontend number the feedback cells differently", body.where(i))
    for fid, body, i, op in op_index_sites(F):
        V = Val(body)
        e = strip(V.op(op))
        rep.count("operation indices")
        src = [x for x in deep_walk(V, e) if x and x[0] == "call" and last(x[1]) == "enumerate"]
        l = lin(V, e)
        at = [k for k in l if k != 1]
        if src and (l.get(1, 0) or len(at) == 1 and l[at[0]] != 1):
            rep.violate("led:opidx", "%s gives a node another index than its position in the node table" % fid, body.where(i))
        for s in src:
            bad = [last(y[1]) for y in deep_walk(V, s[2][0]) if y and y[0] == "call" and last(y[1]) in ("filter", "skip", "rev", "filter_map", "flatten", "skip_while", "step_by")]
            if bad:
                rep.violate("led:opidx", "%s counts the nodes after '%s'" % (fid, bad[0]), body.where(i))
    fid = INST + "as_op"
    if fid in F.fns:
        b = flat(F, fid)
        V = Val(b)
        for i, bl in enumerate(b.blocks):
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == NP_ + "NodeOp" and not bl["cl"]:
                    names = [f[0] for f in F.adts[NP_ + "NodeOp"]["variants"][0]["fields"]]
                    d = dict(zip(names, [V.op(o) for o in s[2][2]]))
                    e = strip(d.get("idx", ("?",)))
                    rep.count("operation indices")
                    if e[0] != "fld" or strip(e[1]) != ("arg", 1):
                        if e[0] in ("k", "bin", "ovf"):
                            rep.violate("led:asop", "as_op does not hand on the node's index", b.where(i))


def op_index_sites(F):
    for fid in sorted(F.fns):
        if not fid.startswith("nodes::node_conf::") or "{closure" in fid:
            continue
        b = F.body(fid)
        for i, t in b.calls():
            if callname(t) == INST + "set_index":
                yield fid, b, i, t["a"][1]


# ---------------------------------------------------------------- running a node
SLOTS = {4: ("atoms", "at_idxlen"), 5: ("cur_inp", "in_idxlen"), 6: ("out", "out_idxlen")}


def exec_body(F, rep):
    return flat_or_miss(F, rep, EXE + "process", stop=lambda p: p.startswith("dsp::ProcBuf") or p.startswith("monitor::") or p in (EXE + "process_smoothers", "dsp::Node::process") or p.startswith(MODOP))


def execute(F, rep):
    body = exec_body(F, rep)
    if body is None:
        return
    V = Val(body)
    P = [i for i, t in body.calls() if callname(t) == "dsp::Node::process" or trait_call(t) == "dsp::DspNode::process"]
    if not P:
        rep.violate("run:none", "NodeExecutor::process runs no node", F.fn_loc(EXE + "process"))
        return
    for i in P:
        rep.count("node executions")
        a = [V.op(x) for x in body.blocks[i]["t"]["a"]]
        node = a[0]
        op = None
        for x in walk(node):
            if x and x[0] == "fld" and x[2] == "node":
                op = norm(strip(x[1]))
        p = partial(V, node)
        if p:
            rep.violate("run:part", "NodeExecutor::process leaves out some operations of the program (%s)" % p[0], body.where(i))
        if "rev" in adaptors(V, node):
            rep.violate("run:rev", "NodeExecutor::process runs the program backwards", body.where(i))
        bad = [c for c in dev_conds(body, V, i) if not (structural(c) or cnt_cond(V, c))]
        bad = [c for c in bad if not any(x and x[0] == "fld" and x[2] == "dsp_log_init" or x and x[0] == "call" and "log" in x[1] for x in deep_walk(V, c[0]))]
        if bad:
            rep.violate("run:cond", "NodeExecutor::process runs an operation only under the condition %s" % fmt(bad[0][0])[:100], body.where(i))
        for k, (vec, rng) in SLOTS.items():
            if k >= len(a):
                continue
            own_range(rep, body, V, i, a[k], vec, rng, op)
        # the context: the parameter values of the same inputs
        for x in walk(a[3]) if len(a) > 3 else ():
            if x and x[0] == "agg" and x[1][0] == "adt" and x[1][1] == "dsp::NodeContext":
                names = [f[0] for f in F.adts["dsp::NodeContext"]["variants"][0]["fields"]]
                d = dict(zip(names, x[2]))
                if "params" in d:
                    own_range(rep, body, V, i, d["params"], "inp", "in_idxlen", op)
                for f in ("in_connected", "out_connected"):
                    e = strip(d.get(f, ("?",)))
                    if e[0] == "fld" and e[2] in ("in_connected", "out_connected") and e[2] != f:
                        rep.violate("run:flags:" + f, "a node is told the connections of its %s as those of its %s" % (e[2][:-10], f[:-10]), body.where(i))
        if len(a) > 7:
            r = ranges_of(a[7])
            if r:
                base, s, e = r
                if not any(x and x[0] == "fld" and x[2] == SHN for x in walk(base)):
                    rep.violate("run:cells", "a node gets something else than its feedback cells", body.where(i))
                l = lin(V, s)
                at = [k for k in l if k != 1]
                if len(at) == 1:
                    if (l[at[0]], l.get(1, 0)) != (2, 0):
                        rep.violate("run:cell-index", "a node reports to the feedback cell %d*index+%d instead of 2*index" % (l[at[0]], l.get(1, 0)), body.where(i))
                    if op and at[0][0] == "fld" and (at[0][2] != "idx" or norm(strip(at[0][1])) != op):
                        rep.violate("run:cell-op", "a node reports to the feedback cells of something else than its own index", body.where(i))
                d = diff(V, e, s)
                if d is not None and d != 2:
                    rep.violate("run:cell-len", "a node gets %d feedback cells instead of two" % d, body.where(i))
    md = [i for i, t in body.calls() if callname(t) == MODOP + "process"]
    for i in md:
        rep.count("modulators run")
        e = V.op(body.blocks[i]["t"]["a"][0])
        own_range(rep, body, V, i, e, "modops", "mod_idxlen", None)
        if partial(V, e) and not ranges_of(e) or {"take", "skip", "step_by", "filter", "skip_while", "take_while"} & set(adaptors(V, e)):
            rep.violate("run:mod-part", "NodeExecutor::process leaves out modulators", body.where(i))
        fr = V.op(body.blocks[i]["t"]["a"][1])
        if not has_call(fr, "nframes") and fr[0] in ("k", "bin"):
            rep.violate("run:mod-frames", "a modulator does not compute all frames of the block", body.where(i))
        for p in P:
            h = common_head(body, p, i)
            if h is not None and i in body.reachable(body.succ(p), avoid={h}) and p not in body.reachable(body.succ(i), avoid={h}):
                rep.violate("run:mod-late", "the modulators of a node run after the node", body.where(i))
    if not md:
        rep.violate("run:mod-none", "NodeExecutor::process runs no modulators", F.fn_loc(EXE + "process"))
    sm = calls_of(body, EXE + "process_smoothers")
    for p in P:
        if sm and must_pass(body, 0, sm, [p]) is not None:
            rep.violate("run:smooth", "the nodes run before the parameter ramps of the block were written", body.where(p))
    rep.floor("node executions", 1)


def common_head(body, a, b):
    """head of the innermost loop around both blocks"""
    ra, rb = body.reachable(body.succ(a)), body.reachable(body.succ(b))
    hs = [h for h in sorted(ra & rb) if h not in (a, b) and not body.blocks[h]["cl"] and body.dominates(h, a) and body.dominates(h, b)
          and any(h in body.succ(x) and body.dominates(h, x) for x in range(len(body.blocks)))]
    for h in hs:
        if all(body.dominates(x, h) for x in hs):
            return h
    return None


def own_range(rep, body, V, i, e, vec, rng, op):
    r = ranges_of(e)
    if not r:
        return
    base, s, en = r
    rep.count("port ranges handed to nodes")
    f = base_field(base)
    if f in ("atoms", "cur_inp", "out", "inp", "modops", "params") and f != vec:
        rep.violate("run:vec:" + vec, "a node gets a part of '%s' instead of '%s'" % (f, vec), body.where(i))
    for x, pos in ((s, "0"), (en, "1")):
        x = strip(x)
        if x[0] == "fld" and str(x[2]) in ("0", "1") and strip(x[1])[0] == "fld":
            y = strip(x[1])
            if str(y[2]).endswith("_idxlen"):
                if y[2] != rng or str(x[2]) != pos:
                    rep.violate("run:range:" + vec, "a node gets the range %s.%s of '%s'" % (y[2], x[2], vec), body.where(i))
                if op and norm(strip(y[1])) != op:
                    rep.violate("run:other:" + vec, "a node gets the '%s' of another operation" % vec, body.where(i))
        elif x[0] in ("k", "bin", "ovf") or x[0] == "call" and last(x[1]) in ("min", "max", "clamp", "saturating_sub", "saturating_add"):
            rep.violate("run:range:" + vec, "a node gets other '%s' than its own range (%s)" % (vec, fmt(x)[:80]), body.where(i))


# ---------------------------------------------------------------- output feedback
def outfb(F, rep):
    body = exec_body(F, rep)
    if body is None:
        return
    V = Val(body)
    stores = []
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[1][1]:
                pl = V.place(s[1])
                while pl[0] in ("deref", "ref"):
                    pl = pl[1]
                if pl[0] == "idx" and any(x and x[0] == "call" and last(x[1]) == "input_buffer" for x in deep_walk(V, pl[1])):
                    stores.append((i, pl[2], V.rv(s[2], 0)))
    P = [i for i, t in body.calls() if callname(t) == "dsp::Node::process" or trait_call(t) == "dsp::DspNode::process"]
    for i, ix, e in stores:
        rep.count("feedback stores")
        rd = [x for x in walk(e) if x and x[0] == "call" and last(x[1]) == "read" and len(x[2]) == 2]
        if not rd:
            if e[0] in ("k", "kf"):
                rep.violate("fb:value", "the output feedback is not taken from the output", body.where(i))
            continue
        buf, fr = rd[0][2]
        l = lin(V, fr)
        at = [k for k in l if k != 1]
        if not at or len(at) == 1 and (l[at[0]] != 1 or l.get(1, 0) != -1):
            rep.violate("fb:frame", "the output feedback is not the last frame of the block", body.where(i))
        fs = set(str(x[2]) for x in walk(buf) if x and x[0] == "fld" and x[2] in ("cur_inp", "inp"))
        if fs:
            rep.violate("fb:src", "the output feedback is taken from the inputs", body.where(i))
        index_matches(rep, body, V, i, ix, buf)
        if {"take", "skip", "step_by", "filter", "skip_while", "take_while"} & (set(adaptors(V, ix)) | set(adaptors(V, buf))):
            rep.violate("fb:part", "the feedback of some outputs is left out", body.where(i))
        bad = [c for c in dev_conds(body, V, i) if not (structural(c) or cnt_cond(V, c) or c in dev_conds(body, V, P[0] if P else i))]
        if bad:
            rep.violate("fb:cond", "the output feedback is stored only under the condition %s" % fmt(bad[0][0])[:100], body.where(i))
        for p in P:
            if body.dominates(i, p):
                rep.violate("fb:early", "the output feedback is stored before the node has run", body.where(i))
    pub = [i for i, t in body.calls() if last(callname(t)) == "publish"]
    if not stores and not any(last(callname(t)) in ("copy_from_slice", "for_each", "extend") for _, t in body.calls()):
        rep.violate("fb:none", "NodeExecutor::process stores no output feedback", F.fn_loc(EXE + "process"))
    if must_pass(body, 0, pub) is not None:
        rep.violate("fb:publish", "NodeExecutor::process can return without publishing the output feedback", F.fn_loc(EXE + "process"))
    for i, _, _ in stores:
        if pub and must_pass(body, i, pub) is not None:
            rep.violate("fb:publish", "output feedback is stored after the last publication", body.where(i))
    rep.count("feedback publications", len(pub))
    # the frontend's side
    fid = NP_ + "NodeProg::new"
    body = flat_or_miss(F, rep, fid)
    if body is not None:
        V = Val(body)
        for i, t in body.calls():
            if last(callname(t)) == "new" and "TripleBuffer" in callname(t):
                e = V.op(t["a"][0])
                ags = set(x[1] for x in deep_walk(V, e) if x and x[0] == "arg")
                rep.count("feedback vectors")
                if ags - {1} or not ags and e[0] in ("k",):
                    rep.violate("fb:len", "the feedback vector has another length than the outputs", body.where(i))
    fid = CONF + "upload_prog"
    body = flat_or_miss(F, rep, fid)
    if body is not None:
        V = Val(body)
        W = [(i, rv) for i, j, p, rv in field_writes(body, V) if p == ("arg1", "output_fb_cons")]
        push = [i for i, t in body.calls() if last(callname(t)) == "push" and "Producer" in callname(t)]
        if must_pass(body, 0, [i for i, _ in W]) is not None:
            rep.violate("fb:cons", "upload_prog can return without connecting the feedback of the new program", F.fn_loc(fid))
        for i, rv in W:
            rep.count("feedback connections")
            if rv is None:
                continue
            e = V.rv(rv, 0)
            if not any(x == ("arg", 2) for x in deep_walk(V, e)) and e[0] != "var":
                rep.violate("fb:cons-src", "upload_prog connects the feedback of something else than the new program", body.where(i))
    fid = CONF + "update_output_feedback"
    body = flat_or_miss(F, rep, fid)
    if body is not None:
        V = Val(body)
        up = [i for i, t in body.calls() if last(callname(t)) in ("update", "read")]
        ob = [i for i, t in body.calls() if last(callname(t)) in ("output_buffer", "read", "peek_output_buffer")]
        for i in ob:
            rep.count("feedback reads")
            if last(callname(body.blocks[i]["t"])) != "read" and must_pass(body, 0, up, [i]) is not None:
                rep.violate("fb:update", "update_output_feedback reads the feedback without fetching the newest one", body.where(i))
        if not ob:
            rep.violate("fb:read", "update_output_feedback does not read the feedback", F.fn_loc(fid))
        ch = []
        for i, t in body.calls():
            if t["a"] and last(callname(t)) in ("copy_from_slice", "clone_from", "extend_from_slice", "extend", "clone_from_slice") and self_path(V.op(t["a"][0])) == ("arg1", "output_fb_values"):
                ch.append(i)
                e = V.op(t["a"][1])
                if partial(V, e) and not any(x and x[0] == "agg" and "RangeFull" in str(x[1]) for x in walk(e)):
                    rep.violate("fb:part", "update_output_feedback takes over only a part of the feedback", body.where(i))
        for i, j, p, rv in field_writes(body, V):
            if p and p[:2] == ("arg1", "output_fb_values"):
                ch.append(i)
        ne = none_edges(body, V, "output_fb_cons")
        if must_pass(body, 0, ch, avoid_edges=ne) is not None:
            rep.violate("fb:stale", "update_output_feedback can return without having taken over the feedback of the running program", F.fn_loc(fid))
        for i in ch:
            t = body.blocks[i]["t"]
            if t["k"] == "call" and last(callname(t)) in ("extend_from_slice", "extend"):
                cl = [x for x, u in body.calls() if last(callname(u)) in ("clear", "truncate") and self_path(V.op(u["a"][0])) == ("arg1", "output_fb_values")]
                if must_pass(body, 0, cl, [i]) is not None:
                    rep.violate("fb:append", "update_output_feedback appends to the old feedback", body.where(i))
    fid = CONF + "out_fb_for"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith(INST) or p == CONF + "unique_index_for")
    if body is not None:
        V = Val(body)
        n = 0
        for i, t in body.calls():
            c = callname(t)
            if c.startswith(INST) and last(c).endswith("local2global"):
                n += 1
                rep.count("feedback look ups")
                if last(c) != "out_local2global":
                    rep.violate("fb:lookup", "out_fb_for translates the port with %s" % last(c), body.where(i))
                if strip(V.op(t["a"][1])) != ("arg", 3):
                    rep.violate("fb:lookup-port", "out_fb_for looks up another port", body.where(i))
            if last(c) == "unique_index_for" and strip(V.op(t["a"][1])) != ("arg", 2):
                rep.violate("fb:lookup-node", "out_fb_for looks up another node", body.where(i))
            if last(c) == "get" and self_path(V.op(t["a"][0])) == ("arg1", "output_fb_values"):
                l = lin(V, V.op(t["a"][1]))
                if l.get(1, 0) or any(v != 1 for k, v in l.items() if k != 1):
                    rep.violate("fb:lookup-idx", "out_fb_for looks at another position than the output's", body.where(i))
        if not n:
            rep.violate("fb:lookup", "out_fb_for does not translate the port into the program's index", F.fn_loc(fid))
    rep.floor("feedback publications", 1)


def zip_parts(V, e):
    """(zip call, which side) an element expression comes from"""
    path = []
    x = strip(e)
    while True:
        if x[0] == "fld" and str(x[2]) in ("0", "1"):
            path.append(str(x[2]))
            x = strip(x[1])
        elif x[0] in ("dc", "deref", "ref"):
            x = x[1]
        elif x[0] == "call" and last(x[1]) == "next":
            break
        else:
            return None
    for y in walk(x):
        if y and y[0] == "call" and last(y[1]) in ("zip", "enumerate"):
            return y, path
    return None


def index_matches(rep, body, V, i, ix, buf):
    """the element stored at index ix is read from the output with the same index"""
    b = strip(buf)
    if b[0] == "idx":
        if b[2][0] != "agg" and diff(V, ix, b[2]) not in (0, None):
            rep.violate("fb:index", "the output feedback is stored at another index than the output's", body.where(i))
        return
    zp, zb = zip_parts(V, ix), zip_parts(V, buf)
    if zb and zb[0][0] == "call" and last(zb[0][1]) == "enumerate":
        l = lin(V, ix)
        consts = [k for k in l if k != 1]
        r = ranges_of(zb[0][2][0])
        if r and not any(k == norm(strip(r[1])) for k in consts):
            rep.violate("fb:index", "the output feedback of a node is stored at indices that do not start at the node's first output", body.where(i))
        return
    if zp and zb and norm(zp[0]) == norm(zb[0]) and last(zp[0][1]) == "zip":
        z = zp[0]
        sides = {zp[1][-2] if len(zp[1]) > 1 else None, zb[1][-2] if len(zb[1]) > 1 else None}
        rg = [x for x in walk(("t",) + tuple(z[2])) if x and x[0] == "agg" and str(x[1][1]).endswith("Range") and len(x[2]) == 2]
        if len(rg) >= 2:
            a, c = rg[0], rg[-1]
            if diff(V, a[2][0], c[2][0]) not in (0,) and (diff(V, a[2][0], c[2][0]) is not None or norm(a[2][0]) != norm(c[2][0])):
                rep.violate("fb:index", "the output feedback of a node is stored at indices that do not start at the node's first output", body.where(i))


# ---------------------------------------------------------------- monitor
def monitor_conf(F, rep):
    fid = CONF + "monitor"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith(INST) or p == CONF + "unique_index_for")
    if body is None:
        return
    V = Val(body)
    st = {}
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[1][1] and isinstance(s[1][1][-1], (list, tuple)) and s[1][1][-1][0] == "i":
                pl = V.place(s[1])
                e = V.rv(s[2], 0)
                cs = [x for x in deep_walk(V, e) if x and x[0] == "call" and strip_gen(x[1]).startswith(INST) and last(x[1]).endswith("local2global")]
                for c in cs:
                    st.setdefault(last(c[1]), []).append((i, s[1][1][-1][1], pl, c))
    for fn, arg, off in (("in_local2global", 3, 0), ("out_local2global", 4, 3)):
        for i, il, pl, c in st.get(fn, []):
            rep.count("monitored slots")
            roots = set(x[1] for x in deep_walk(V, c[2][1]) if x and x[0] == "arg")
            if roots & {3, 4} - {arg}:
                rep.violate("mon:ports:" + fn, "NodeConfigurator::monitor translates the %s with %s" % ("outputs" if arg == 3 else "inputs", fn), body.where(i))
            # the slot number
            x = pl[2] if pl[0] == "idx" else None
            if x is None:
                continue
            en = [y for y in deep_walk(V, x) if y and y[0] == "call" and last(y[1]) == "enumerate"]
            if en:
                for y in en:
                    bad = [last(z[1]) for z in deep_walk(V, y[2][0]) if z and z[0] == "call" and last(z[1]) in ("flatten", "filter", "filter_map", "skip", "rev", "flat_map", "skip_while")]
                    if bad:
                        rep.violate("mon:slot:" + fn, "NodeConfigurator::monitor numbers the slots after '%s' left ports out" % bad[0], body.where(i))
                l = lin(V, x)
                if len([k for k in l if k != 1]) == 1 and l.get(1, 0) != off and not any(z and z[0] == "call" and last(z[1]) == "chain" for z in deep_walk(V, x)):
                    rep.violate("mon:slot:" + fn, "NodeConfigurator::monitor puts the %s into the slots from %d instead of %d" % ("inputs" if arg == 3 else "outputs", l.get(1, 0), off), body.where(i))
                continue
            root = root_var(body, ["c", [il, []]])
            if root is None:
                continue
            for bi, j, kind, s in body.defs().get(root, []):
                if kind != "assign":
                    continue
                e = V.rv(s[2], 0)
                if e[0] in ("ovf", "bin") and ("var", root) in e:
                    k = [y for y in e if isinstance(y, tuple) and y[0] == "k"]
                    if e[1] not in ("Add",) or not k or k[0][1] != 1:
                        rep.violate("mon:step", "NodeConfigurator::monitor does not number the slots one by one", body.where(bi))
                    for cnd in V.conds(bi, asserts=False):
                        ce = strip(cnd[0])
                        dis = ce[1] if ce[0] == "discr" else ce
                        nx = strip(dis)
                        if nx[0] == "call" and last(nx[1]) == "next":
                            lossy = [last(z[1]) for z in deep_walk(V, nx[2][0]) if z and z[0] == "call" and last(z[1]) in ("flatten", "filter", "filter_map", "flat_map", "skip_while", "rev", "skip")]
                            if lossy:
                                rep.violate("mon:slot:" + fn, "NodeConfigurator::monitor numbers the slots after '%s' left ports out" % lossy[0], body.where(bi))
                        if any(y and y[0] == "call" and strip_gen(y[1]).startswith(INST) for y in walk(dis)) or elem_of(V, dis) or (ce[0] == "call" and last(ce[1]) in ("is_some", "is_none") and elem_of(V, ce[2][0])):
                            rep.violate("mon:slot:" + fn, "NodeConfigurator::monitor gives a port a slot number that depends on which ports are assigned", body.where(bi))
    for fn, what in (("in_local2global", "inputs"), ("out_local2global", "outputs")):
        if fn not in st and not any(callname(t) == INST + fn for _, t in body.calls()):
            rep.violate("mon:none:" + fn, "NodeConfigurator::monitor does not translate the %s" % what, F.fn_loc(fid))
    for i, t in body.calls():
        if trait_call(t) == "std::iter::Iterator::take":
            e = lin(V, V.op(t["a"][1]))
            if set(e) == {1} and e[1] < 3:
                rep.violate("mon:take", "NodeConfigurator::monitor looks at %d ports only" % e[1], body.where(i))
    push = [i for i, t in body.calls() if last(callname(t)) == "push" and "Producer" in callname(t)]
    if not push:
        rep.violate("mon:push", "NodeConfigurator::monitor sends nothing to the audio thread", F.fn_loc(fid))


def elem_of(V, e):
    """the content of an element of the ports (not the result of next() itself)"""
    e = strip(e)
    while e[0] in ("deref", "ref"):
        e = e[1]
    return e[0] == "fld" and e[1][0] == "dc" and strip(e[1][1])[0] == "call" and last(strip(e[1][1])[1]) == "next"


def monitor_exec(F, rep):
    body = exec_body(F, rep)
    if body is None:
        return
    V = Val(body)
    fl = Flow(body)
    feeds = calls_of(body, MB + "feed")
    send = calls_of(body, MBE + "send_mon_buf")
    get = calls_of(body, MBE + "get_unused_mon_buf")
    rec = calls_of(body, MBE + "check_recycle")
    if not feeds or not send:
        rep.violate("monx:none", "NodeExecutor::process does not send monitor buffers", F.fn_loc(EXE + "process"))
        return
    nx = [i for i, t in body.calls() if last(callname(t) or trait_call(t)) in ("next",)]
    for i, j, p, rv in field_writes(body, V):
        if p and p[:2] == ("arg1", "monitor_signal_cur_inp_indices"):
            rep.violate("monx:forget", "NodeExecutor::process changes which signals are monitored", body.where(i))
    for f in feeds:
        rep.count("monitor feeds")
        a = [V.op(x) for x in body.blocks[f]["t"]["a"]]
        if must_pass(body, f, send, set(body.returns()) | set(nx)) is not None:
            rep.violate("monx:lost", "NodeExecutor::process fills a monitor buffer but does not send it", body.where(f))
        if not has_call(a[2], "nframes") and strip(a[2])[0] in ("k", "bin", "ovf"):
            rep.violate("monx:frames", "NodeExecutor::process monitors another number of frames than the block has", body.where(f))
        l = lin(V, a[1])
        at = [k for k in l if k != 1]
        if not at or l.get(1, 0):
            rep.violate("monx:slot", "NodeExecutor::process puts the signal into another slot", body.where(f))
        # which vector for which slot
        slot = norm(strip(a[1]))
        for n in range(6):
            vs = slot_vector(body, V, f, a[3], slot, n)
            if vs and vs != {"cur_inp" if n < 3 else "out"}:
                rep.violate("monx:vec", "NodeExecutor::process takes the signal of slot %d from '%s'" % (n, "/".join(sorted(vs))), body.where(f))
        en = zip_parts(V, a[1])
        if en and last(en[0][1]) == "enumerate":
            bad = [last(z[1]) for z in deep_walk(V, en[0][2][0]) if z and z[0] == "call" and last(z[1]) in ("filter", "filter_map", "skip", "rev", "flatten", "take", "step_by")]
            if bad:
                rep.violate("monx:count", "NodeExecutor::process numbers the slots after '%s'" % bad[0], body.where(f))
    for g in get:
        if rec and must_pass(body, 0, rec, [g]) is not None:
            rep.violate("monx:recycle", "NodeExecutor::process takes monitor buffers without having collected the used ones", body.where(g))
    if not rec:
        rep.violate("monx:recycle", "NodeExecutor::process never collects used monitor buffers", F.fn_loc(EXE + "process"))
    P = [i for i, t in body.calls() if callname(t) == "dsp::Node::process" or trait_call(t) == "dsp::DspNode::process"]
    for f in feeds:
        for p in P:
            if before(body, p, f) and not before(body, f, p):
                rep.violate("monx:early", "NodeExecutor::process monitors the signals before the nodes have run", body.where(f))


def slot_vector(body, V, f, sig, slot, n):
    """program vectors the signal of slot n can come from"""
    out = set()
    cand = [(x, None) for x in [sig]]
    src = []
    for x in deep_walk(V, sig):
        if x and x[0] == "fld" and x[2] in ("cur_inp", "out", "inp", "params"):
            src.append(str(x[2]))
    # access sites and the condition they run under
    for i, t in body.calls():
        if last(callname(t) or trait_call(t)) in ("get", "index", "get_mut", "get_unchecked") and t["a"]:
            b = base_field(V.op(t["a"][0]))
            if b not in src or not body.reachable(body.succ(i)) & {f}:
                continue
            if len(t["a"]) > 1 and not any(x and x[0] == "fld" and "monitor" in str(x[2]) for x in deep_walk(V, V.op(t["a"][1]))):
                continue
            ok = True
            for c in V.conds(i, asserts=False):
                e, tr = truth(c)
                if e[0] == "bin" and e[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                    x, y = e[2], e[3]
                    if norm(strip(x)) == slot and lin(V, y).keys() <= {1}:
                        p, q = n, lin(V, y).get(1, 0)
                    elif norm(strip(y)) == slot and lin(V, x).keys() <= {1}:
                        p, q = lin(V, x).get(1, 0), n
                    else:
                        continue
                    r = {"Lt": p < q, "Le": p <= q, "Gt": p > q, "Ge": p >= q, "Eq": p == q, "Ne": p != q}[e[1]]
                    if r != tr:
                        ok = False
                elif c[0][0] in ("var", "fld") and norm(strip(c[0])) == slot and isinstance(c[1], tuple):
                    v = c[1]
                    if v and v[0] == "not":
                        ok = ok and n not in v[1]
                    elif v and all(isinstance(z, int) for z in v):
                        ok = ok and n in v
            if ok:
                out.add(b)
    return out


def monitor_buf(F, rep):
    body = flat_or_miss(F, rep, MB + "feed")
    strides = {}
    if body is not None:
        V = Val(body)
        rep.count("monitor buffer functions")
        for i, t in body.calls():
            if last(callname(t) or trait_call(t)) in ("index_mut", "get_mut") and base_field(V.op(t["a"][0])) == "sig_blocks":
                e = V.op(t["a"][1])
                if e[0] == "agg" and len(e[2]) == 2:
                    l = lin(V, e[2][0])
                    d = diff(V, e[2][1], ("bin", "Add", e[2][0], ("arg", 3)))
                    if d not in (0,) and d is not None:
                        rep.violate("buf:len", "MonitorBuf::feed does not store exactly the given number of frames", body.where(i))
                    if set(l) - {1} == {("arg", 2)}:
                        strides["feed"] = (l[("arg", 2)], l.get(1, 0))
        lw = [(i, p, rv) for i, j, p, rv in field_writes(body, V) if p and p[:2] == ("arg1", "len")]
        if must_pass(body, 0, [i for i, _, _ in lw]) is not None:
            rep.violate("buf:len", "MonitorBuf::feed can return without storing the number of frames", F.fn_loc(MB + "feed"))
        for i, p, rv in lw:
            if rv is not None and not same(V, V.rv(rv, 0), ("arg", 3)) and lin(V, V.rv(rv, 0)).keys() <= {1, ("arg", 3), ("arg", 2)}:
                rep.violate("buf:len", "MonitorBuf::feed stores another number of frames", body.where(i))
        for i, b in enumerate(body.blocks):
            for s in b["s"]:
                if s[0] == "=" and s[1][1] and not b["cl"]:
                    pl = V.place(s[1])
                    if pl[0] == "idx" and base_field(pl[1]) == "len" and strip(pl[2]) != ("arg", 2) and lin(V, pl[2]).keys() <= {1, ("arg", 2), ("arg", 3)}:
                        rep.violate("buf:slot", "MonitorBuf::feed stores the number of frames for another slot", body.where(i))
    body = flat_or_miss(F, rep, MB + "next_sample_for_signal")
    if body is not None:
        V = Val(body)
        fl = Flow(body)
        rep.count("monitor buffer functions")
        rd = [i for i, j, p, rv in field_writes(body, V) if p and p[:2] == ("arg1", "read_idx")]
        for i, v, pay in ret_values(body, V):
            if v == "Some":
                e = strip(pay)
                if e[0] == "idx" and base_field(e[1]) == "sig_blocks":
                    l = lin(V, e[2])
                    if ("arg", 2) in l:
                        strides["next"] = (l[("arg", 2)], 0)
                    others = [k for k in l if k not in (1, ("arg", 2))]
                    if len(others) == 1 and (l[others[0]] != 1 or l.get(1, 0)):
                        rep.violate("buf:read", "MonitorBuf::next_sample_for_signal does not return the sample at the read position", body.where(i))
                if must_pass(body, 0, rd, [i]) is not None:
                    rep.violate("buf:advance", "MonitorBuf::next_sample_for_signal returns a sample without advancing", body.where(i))
        for i, j, p, rv in field_writes(body, V):
            if p and p[:2] == ("arg1", "read_idx") and rv is not None:
                l = lin(V, V.rv(rv, 0))
                at = [k for k in l if k != 1]
                if len(at) == 1 and (l[at[0]] != 1 or l.get(1, 0) != 1):
                    rep.violate("buf:advance", "MonitorBuf::next_sample_for_signal does not advance by one sample", body.where(i))
        bound(rep, body, V)
    if len(strides) == 2 and (strides["feed"][0] != strides["next"][0] or strides["feed"][1]):
        rep.violate("buf:stride", "MonitorBuf::feed and next_sample_for_signal lay out the slots differently (%s, %s samples apart)" % (strides["feed"][0], strides["next"][0]), F.fn_loc(MB + "feed"))
    body = flat_or_miss(F, rep, MB + "reset")
    if body is not None:
        V = Val(body)
        rep.count("monitor buffer functions")
        for f in ("len", "read_idx"):
            w = with_heads(body, [i for i, j, p, rv in field_writes(body, V) if p and p[:2] == ("arg1", f) and (p[-1] != "[]" or i in body.reachable(body.succ(i)))] + [i for i, t in body.calls() if t["a"] and last(callname(t)) == "fill" and base_field(V.op(t["a"][0])) == f])
            if must_pass(body, 0, w) is not None:
                rep.violate("buf:reset:" + f, "MonitorBuf::reset does not reset '%s'" % f, F.fn_loc(MB + "reset"))
    # the samples are copied with the position they start at
    for fid in sorted(F.fns):
        if not fid.startswith(MS) or last(fid) == "new" or last(fid).startswith("{"):
            continue
        body = flat(F, fid)
        V = Val(body)
        for i, b in enumerate(body.blocks):
            if b["cl"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and s[1][1]:
                    pl = V.place(s[1])
                    if pl[0] == "fld" and pl[2] == "buf_ptr":
                        rep.count("start positions copied")
                        e = strip(V.rv(s[2], 0))
                        if e[0] in ("bin", "ovf", "k") or e[0] == "call" and last(e[1]) in ("saturating_sub", "wrapping_sub", "wrapping_add", "saturating_add", "min", "max"):
                            rep.violate("copy:start", "%s copies another start position" % last(fid), body.where(i))
        if last(fid) == "at":
            for x in [y for i, b in enumerate(body.blocks) if not b["cl"] for s in b["s"] if s[0] == "=" for y in walk(V.rv(s[2], 0))]:
                if x and x[0] == "bin" and x[1] == "Rem":
                    l = lin(V, x[2])
                    rep.count("sample look ups")
                    at = [k for k in l if k != 1]
                    if l.get(1, 0) or any(l[k] != 1 for k in at) or at == [("arg", 2)]:
                        rep.violate("at:index", "MinMaxMonitorSamples::at does not count from the oldest point", F.fn_loc(fid))
                    ring_len(rep, V, x[3], F.fn_loc(fid), "samples")
    # the min/max of a slot
    body = flat_or_miss(F, rep, MM + "process", stop=lambda p: p.startswith(MB))
    if body is not None:
        V = Val(body)
        fl = Flow(body)
        rep.count("monitor buffer functions")
        nx = calls_of(body, MB + "next_sample_for_signal")
        for i in nx:
            e = strip(V.op(body.blocks[i]["t"]["a"][1]))
            if self_path(V.op(body.blocks[i]["t"]["a"][1])) != ("arg1", "sig_idx") and e[0] in ("k", "bin", "ovf"):
                rep.violate("mm:slot", "MonitorMinMax::process reads another slot than its own", body.where(i))
        seen = fl.run(forced_all(fl, nx, ("v", 1)), stop_at=nx) if nx else {}
        if nx and fl.returns(seen):
            rep.violate("mm:rest", "MonitorMinMax::process can stop before the end of the buffer", body.where(nx[0]))
        min_max_store(rep, body, V)
        for i, j, p, rv in field_writes(body, V):
            if not p or p[:2] != ("arg1", "cur_min_max") or rv is None or len(p) < 3:
                continue
            e = V.rv(rv, 0)
            if e[0] == "call" and last(e[1]) in ("min", "max") and p[2] in ("0", "1"):
                rep.count("minimum and maximum updates")
                if (p[2] == "0") != (last(e[1]) == "min"):
                    rep.violate("mm:role", "MonitorMinMax::process mixes up minimum and maximum", body.where(i))
                fs = [y for y in e[2] if self_path(y) and self_path(y)[:2] == ("arg1", "cur_min_max")]
                if fs and self_path(fs[0])[2] != p[2]:
                    rep.violate("mm:role", "MonitorMinMax::process mixes up minimum and maximum", body.where(i))
                bad = [c for c in dev_conds(body, V, i) if not structural(c)]
                if bad:
                    rep.violate("mm:cond", "MonitorMinMax::process leaves out samples", body.where(i))
        for i, b in enumerate(body.blocks):
            for s in b["s"]:
                if s[0] == "=" and s[1][1] and not b["cl"]:
                    pl = V.place(s[1])
                    if pl[0] == "idx" and base_field(pl[1]) == "buf":
                        e = V.rv(s[2], 0)
                        if e[0] == "agg":
                            ps = [self_path(x) for x in e[2]]
                            if all(ps) and [x[-1] for x in ps] != ["0", "1"]:
                                rep.violate("mm:store", "MonitorMinMax::process stores maximum and minimum in the wrong order", body.where(i))


def ring_len(rep, V, e, where, what):
    """the modulus of a ring position"""
    l = lin(V, e)
    if set(l) - {1}:
        if l.get(1, 0) or any(v != 1 for k, v in l.items() if k != 1):
            rep.violate("mm:modulus:" + what, "the position in '%s' wraps around at another place than its end" % what, where)
    elif l.get(1, 0) != 160:
        rep.violate("mm:modulus:" + what, "the position in '%s' wraps around at another place than its end" % what, where)


def min_max_store(rep, body, V):
    nx = calls_of(body, MB + "next_sample_for_signal")
    W = {}
    for i, j, p, rv in field_writes(body, V):
        if p and p[:2] == ("arg1", "cur_min_max") and rv is not None:
            e = V.rv(rv, 0)
            if len(p) == 2:
                if e[0] == "agg":
                    for n, x in enumerate(e[2]):
                        W.setdefault(str(n), []).append((i, x))
            elif e[0] in ("k", "kf", "un"):
                W.setdefault(p[2], []).append((i, e))
        if p == ("arg1", "buf_write_ptr") and rv is not None:
            e = strip(V.rv(rv, 0))
            if e[0] == "bin" and e[1] == "Rem":
                l = lin(V, e[2])
                at = [k for k in l if k != 1]
                if len(at) == 1 and (l[at[0]] != 1 or l.get(1, 0) != 1):
                    rep.violate("mm:step", "MonitorMinMax::process does not write its points one after the other", body.where(i))
                ring_len(rep, V, e[3], body.where(i), "buf")
    adv = [i for i, j, p, rv in field_writes(body, V) if p == ("arg1", "buf_write_ptr")]
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] != "=" or not s[1][1]:
                continue
            pl = V.place(s[1])
            if pl[0] == "idx" and base_field(pl[1]) == "buf":
                if self_path(pl[2]) is None and strip(pl[2])[0] == "k":
                    rep.violate("mm:place", "MonitorMinMax::process stores a point at a fixed place", body.where(i))
                ends = set(nx) | set(body.returns())
                for n, what in (("0", "minimum"), ("1", "maximum"), ("2", "number of samples")):
                    w = [x for x, _ in W.get(n, [])]
                    if must_pass(body, i, w, ends) is not None and not (i in w):
                        rep.violate("mm:restart:" + n, "MonitorMinMax::process does not restart the %s after storing a point" % what, body.where(i))
                if must_pass(body, i, adv, ends) is not None:
                    rep.violate("mm:advance", "MonitorMinMax::process stores a point without moving on", body.where(i))
    for n, sign in (("0", 1), ("1", -1)):
        for i, e in W.get(n, []):
            v = e[1] if e[0] in ("k", "kf") else None
            try:
                v = -float(e[2][1]) if e[0] == "un" and e[2][0] in ("k", "kf") else float(v) if v is not None else None
            except (TypeError, ValueError, IndexError):
                v = None
            if isinstance(v, (int, float)) and v * sign < 10:
                rep.violate("mm:start:" + n, "MonitorMinMax::process restarts the %s with %s" % ("minimum" if sign > 0 else "maximum", v), body.where(i))


def forced_all(fl, blks, val):
    out = []
    for b in blks:
        out += forced(fl, b, val)
    return out


def bound(rep, body, V):
    """None is returned exactly at the end of the slot's data"""
    for i, b in enumerate(body.blocks):
        if b["cl"] or b["t"]["k"] != "switch":
            continue
        e, neg = unnot(V.op(b["t"]["d"]))
        if e[0] != "bin" or e[1] not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            continue
        f = [base_field(e[2]), base_field(e[3])]
        if sorted(str(x) for x in f) != ["len", "read_idx"]:
            continue
        op = e[1] if f[0] == "read_idx" else {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(e[1], e[1])
        rep.count("monitor buffer functions")
        if op in ("Gt", "Le"):
            rep.violate("buf:bound", "MonitorBuf::next_sample_for_signal returns a sample behind the end of the slot's data", body.where(i))


def monitor_thread(F, rep):
    body = flat_or_miss(F, rep, MP + "process", stop=lambda p: p.startswith(MB) or p.startswith(MM))
    if body is not None:
        V = Val(body)
        fl = Flow(body)
        rep.count("monitor thread functions")
        pops = [i for i, t in body.calls() if last(callname(t)) == "pop" and "Consumer" in callname(t)]
        proc = calls_of(body, MM + "process")
        push = [i for i, t in body.calls() if last(callname(t)) == "push" and "Producer" in callname(t)]
        rs = calls_of(body, MB + "reset")
        for p in pops:
            start = forced(fl, p, ("v", 1))
            for what, l in (("processed", with_heads(body, proc)), ("given back", push), ("reset", rs)):
                seen = fl.run(start, avoid=l, stop_at=pops)
                if any(x in seen for x in pops) or fl.returns(seen):
                    rep.violate("thr:" + what.split()[0], "MonitorProcessor::process receives a monitor buffer that is not %s" % what, body.where(p))
        for q in push:
            if rs and must_pass(body, 0, rs, [q]) is not None:
                rep.violate("thr:reset", "a monitor buffer is given back without being reset", body.where(q))
            for r in proc:
                if rs and any(body.dominates(x, r) for x in rs):
                    rep.violate("thr:reset-early", "a monitor buffer is reset before it was read", body.where(r))
        for i in proc:
            e = V.op(body.blocks[i]["t"]["a"][0])
            if partial(V, e):
                rep.violate("thr:part", "the monitor thread leaves out slots (%s)" % partial(V, e)[0], body.where(i))
            bad = [c for c in dev_conds(body, V, i) if not structural(c)]
            if bad:
                rep.violate("thr:cond", "the monitor thread processes a slot only under the condition %s" % fmt(bad[0][0])[:80], body.where(i))
            # new data noticed
            W = [x for x, j, p, rv in field_writes(body, V) if p == ("arg1", "new_data")]
            seen = fl.run(forced(fl, i, ("k", 1)), avoid=W)
            if fl.returns(seen):
                rep.violate("thr:notice", "the monitor thread can overlook new data", body.where(i))
        for x, j, p, rv in field_writes(body, V):
            if p == ("arg1", "new_data") and rv is not None:
                e = V.rv(rv, 0)
                if e[:2] == ("k", 1) or any(y and y[0] == "fld" and y[2] == "new_data" for y in deep_walk(V, e)):
                    continue
                rep.violate("thr:forget", "the monitor thread forgets that there is new data", body.where(x))
    body = flat_or_miss(F, rep, MP + "check_new_data")
    if body is not None:
        V = Val(body)
        rep.count("monitor thread functions")
        for i, j, p, rv in field_writes(body, V):
            if p == ("arg1", "new_data") and rv is not None and V.rv(rv, 0)[:2] == ("k", 1):
                rep.violate("thr:flag", "check_new_data sets the flag", body.where(i))
    body = flat_or_miss(F, rep, MP + "new")
    if body is not None:
        V = Val(body)
        rep.count("monitor thread functions")
        full_range(rep, body, V, "MonitorProcessor::new creates a processor for")
        for i, b in enumerate(body.blocks):
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == "monitor::MonitorMinMax" and not b["cl"]:
                    names = [f[0] for f in F.adts["monitor::MonitorMinMax"]["variants"][0]["fields"]]
                    d = dict(zip(names, [V.op(o) for o in s[2][2]]))
                    l = lin(V, d["sig_idx"])
                    if not [k for k in l if k != 1] or l.get(1, 0):
                        rep.violate("thr:number", "MonitorProcessor::new numbers its slots differently", body.where(i))
    body = flat_or_miss(F, rep, MON + "new", stop=lambda p: p.startswith(MP) or p.startswith(MS))
    if body is not None:
        V = Val(body)
        rep.count("monitor thread functions")
        copies(rep, body, V, "copy_from", "minmax_slice_for_signal", "the monitor thread")
        full_range(rep, body, V, "the monitor thread publishes")
        st = [i for i, t in body.calls() if last(callname(t)) == "store" and "Atomic" in callname(t)]
        cp = calls_of(body, MS + "copy_from")
        for c in cp:
            if not [x for x in st if x in body.reachable(body.succ(c))]:
                rep.violate("thr:tell", "the monitor thread does not tell the frontend about new data", body.where(c))
            for s in st:
                if body.dominates(s, c):
                    rep.violate("thr:tell-early", "the monitor thread announces new data before it is there", body.where(s))
        if not cp:
            rep.note("the monitor thread's publication has an unknown shape")
    body = flat_or_miss(F, rep, MON + "get_minmax_monitor_samples", stop=lambda p: p.startswith(MS) or p.startswith("util::"))
    if body is not None:
        V = Val(body)
        rep.count("monitor thread functions")
        copies(rep, body, V, "copy_to", None, "get_minmax_monitor_samples")
        full_range(rep, body, V, "get_minmax_monitor_samples fetches")
        for i, b in enumerate(body.blocks):
            for s in b["s"]:
                if s[0] == "=" and s[1] == [0, []] and not b["cl"]:
                    e = strip(V.rv(s[2], 0))
                    if e[0] == "idx" and base_field(e[1]) == "monitor_samples_copy" and strip(e[2]) != ("arg", 2):
                        rep.violate("thr:get", "get_minmax_monitor_samples returns another slot", body.where(i))
        st = [i for i, t in body.calls() if last(callname(t)) in ("store", "swap") and "Atomic" in callname(t)]
        cp = calls_of(body, MS + "copy_to")
        ld = [i for i, t in body.calls() if last(callname(t)) in ("load", "swap") and "Atomic" in callname(t)]
        fl = Flow(body)
        for i in ld:
            seen = fl.run(forced(fl, i, ("k", 1)), avoid=with_heads(body, cp))
            if cp and fl.returns(seen):
                rep.violate("thr:fetch", "get_minmax_monitor_samples can leave out the new data", body.where(i))
    body = flat_or_miss(F, rep, MS + "at")
    if body is not None:
        V = Val(body)
        rep.count("monitor thread functions")
        for i, b in enumerate(body.blocks):
            for x in b["s"]:
                if x[0] == "=" and x[2][0] in ("ref", "use") and not b["cl"]:
                    e = strip(V.rv(x[2], 0))
                    if e[0] == "idx" and base_field(e[1]) == "samples":
                        ix = strip(e[2])
                        if not rooted_fields(V, ix) & {"buf_ptr"} or not any(y == ("arg", 2) for y in deep_walk(V, ix)):
                            rep.violate("thr:at", "the position of a sample is not taken relative to the oldest one", body.where(i))
                        elif ix[0] == "bin" and ix[1] == "Rem":
                            l = lin(V, ix[2])
                            if l.get(1, 0) or any(v != 1 for k, v in l.items() if k != 1):
                                rep.violate("thr:at", "the position of a sample is not taken relative to the oldest one", body.where(i))
                            ring_len(rep, V, ix[3], body.where(i), "samples")
    for fn, dst, src in (("copy_from", 1, 2), ("copy_to", 2, 1)):
        body = flat_or_miss(F, rep, MS + fn)
        if body is None:
            continue
        V = Val(body)
        rep.count("monitor thread functions")
        d = "arg%d" % dst
        W = [(i, p, rv) for i, j, p, rv in field_writes(body, V)]
        bp = [i for i, p, rv in W if p and p[0] == d and p[1] == "buf_ptr"]
        sm = [i for i, p, rv in W if p and p[0] == d and p[1] == "samples"]
        for i, t in body.calls():
            if last(callname(t)) in ("copy_from_slice", "clone_from_slice", "clone_from", "write") and t["a"] and any(x == ("arg", dst) for x in walk(V.op(t["a"][0]))):
                sm.append(i)
        whole_w = [i for i, p, rv in W if p and p == (d,)]
        for n, l in (("buf_ptr", bp), ("samples", sm)):
            if must_pass(body, 0, l + whole_w) is not None:
                rep.violate("thr:%s:%s" % (fn, n), "MinMaxMonitorSamples::%s does not copy '%s'" % (fn, n), F.fn_loc(MS + fn))


def copies(rep, body, V, fn, src, who):
    for i in calls_of(body, MS + fn):
        a = [V.op(x) for x in body.blocks[i]["t"]["a"]]
        rep.count("slot copies")
        ix = []
        for e in a:
            for x in walk(e):
                if x and x[0] == "idx" and x[2][0] != "agg":
                    ix.append(x[2])
                if src and x and x[0] == "call" and last(x[1]) == src and len(x[2]) > 1:
                    ix.append(x[2][1])
        for y in ix[1:]:
            if diff(V, ix[0], y) not in (0, None):
                rep.violate("thr:mix:" + fn, "%s publishes a slot under another number" % who, body.where(i))
        for y in ix:
            if strip(y)[0] == "k" and len(ix) > 1 and not all(strip(z)[0] == "k" for z in ix):
                rep.violate("thr:mix:" + fn, "%s publishes a slot under another number" % who, body.where(i))


def full_range(rep, body, V, what):
    for i, t in body.calls():
        if last(callname(t) or trait_call(t)) == "next" and t["a"]:
            for x in walk(V.op(t["a"][0])):
                if x and x[0] == "agg" and str(x[1][1]).endswith("Range") and len(x[2]) == 2:
                    r = [lin(V, y) for y in x[2]]
                    if any(set(y) - {1} for y in r):
                        continue
                    lo, hi = [y.get(1, 0) for y in r]
                    rep.count("slot loops")
                    if (lo, hi) != (0, 6):
                        rep.violate("thr:slots", "%s only the slots %s to %s" % (what, lo, hi - 1), body.where(i))


def remonitor(F, rep):
    fid = M + "sync"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith(CONF) or p.startswith(ORD) or p in (M + "get_adjacent_output", M + "get") or is_eq(p))
    if body is None:
        return
    V = Val(body)
    fl = Flow(body)
    U = calls_of(body, CONF + "upload_prog")
    C = calls_of(body, CONF + "monitor")
    G = calls_of(body, M + "get")
    # a monitored position outside of the grid
    ne = set()
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"] or t["k"] != "switch":
            continue
        e = V.op(t["d"])
        if e[0] == "discr" and any(x and x[0] == "call" and strip_gen(x[1]) == M + "get" for x in walk(e)):
            tm = dict((v, s) for v, s in t["v"])
            ne.add((i, tm.get(0, t["o"])))
    for u in U:
        rep.count("uploads followed by monitoring")
        if must_pass(body, u, C, avoid_edges=ne) is not None:
            rep.violate("sync:monitor", "Matrix::sync uploads a program without starting to monitor again", body.where(u))
    for c in C:
        a = [V.op(x) for x in body.blocks[c]["t"]["a"]]
        gs = [x for x in deep_walk(V, a[1]) if x and x[0] == "call" and strip_gen(x[1]) == M + "get"]
        for g in gs:
            fs = [base_of(x) for x in g[2][1:3]]
            if all(fs) and fs != ["x", "y"]:
                rep.violate("sync:monitor-pos", "Matrix::sync monitors another cell afterwards", body.where(c))
        if not gs and "monitored_cell" in rooted_fields(V, a[1]) and not any(x == ("arg", 2) for x in walk(a[1])):
            rep.violate("sync:monitor-old", "Matrix::sync monitors the ports the cell had before", body.where(c))


def base_of(e):
    e = strip(e)
    return str(e[2]) if e[0] == "fld" else None


FWD = (("led_value_for", 1), ("phase_value_for", 1), ("out_fb_for", 2), ("filtered_led_for", 1), ("filtered_out_fb_for", 2), ("get_minmax_monitor_samples", 1), ("update_output_feedback", 0), ("update_filters", 0))


def forwards(F, rep):
    """the public wrappers hand the same node and port on"""
    for own in (M, "synth_constructor::SynthConstructor::", CONF):
        for fn, n in FWD:
            fid = own + fn
            if fid not in F.fns:
                continue
            body = flat(F, fid, stop=lambda p: p.startswith(CONF) or p.startswith("monitor::") or p.startswith("nodes::feedback_filter"))
            V = Val(body)
            for i, t in body.calls():
                c = callname(t)
                if own != CONF and c.startswith(CONF):
                    rep.count("forwarded queries")
                    if last(c) != fn:
                        rep.violate("fwd:fn:" + fid, "%s asks %s" % (fid, last(c)), body.where(i))
                        continue
                    for k in range(n):
                        e = strip(V.op(t["a"][k + 1]))
                        if e[0] == "arg" and e[1] != k + 2 or e[0] in ("k", "bin", "ovf"):
                            rep.violate("fwd:arg:" + fid, "%s asks for another node or port" % fid, body.where(i))
                elif own == CONF and c.startswith("nodes::feedback_filter"):
                    rep.count("forwarded queries")
                    want = {"filtered_led_for": ("get_led", "led_value_for"), "filtered_out_fb_for": ("get_out", "out_fb_for")}.get(fn)
                    if not want or last(c) not in ("get_led", "get_out"):
                        continue
                    if last(c) != want[0]:
                        rep.violate("fwd:filter:" + fn, "%s filters with the filter of another value (%s)" % (fn, last(c)), body.where(i))
                    v = V.op(t["a"][-1])
                    cs = set(last(x[1]) for x in deep_walk(V, v) if x and x[0] == "call" and last(x[1]) in ("led_value_for", "out_fb_for", "phase_value_for"))
                    if cs and cs != {want[1]}:
                        rep.violate("fwd:value:" + fn, "%s filters the value of %s" % (fn, "/".join(cs)), body.where(i))
    for fn, key in (("get_led", ("arg", 2)), ("get_out", ("arg", 3))):
        fid = "nodes::feedback_filter::FeedbackFilter::" + fn
        if fid not in F.fns:
            continue
        body = flat(F, fid, stop=lambda p: "visual_sampling" in p)
        V = Val(body)
        for i, t in body.calls():
            if "Map" in callname(t) and last(callname(t)) in ("entry", "get_mut", "get", "insert") and len(t["a"]) > 1 and "filters" in str(base_field(V.op(t["a"][0]))):
                rep.count("filter look ups")
                f = base_field(V.op(t["a"][0]))
                if f != ("led_filters" if fn == "get_led" else "out_filters"):
                    rep.violate("fwd:map:" + fn, "%s uses the filters of another value" % fn, body.where(i))
                need = {("arg", 2)} | {key}
                ke = V.op(t["a"][1])
                for x in deep_walk(V, ke):
                    if x and x[0] in ("bin", "ovf") and x[1] in ("BitAnd", "Rem", "Div", "Shr", "Sub", "Add") and any(y in need for y in walk(x)):
                        rep.violate("fwd:key:" + fn, "%s shares one filter between several nodes or ports" % fn, body.where(i))
                if not need <= set(x for x in deep_walk(V, V.op(t["a"][1])) if x and x[0] == "arg"):
                    rep.violate("fwd:key:" + fn, "%s shares one filter between several nodes or ports" % fn, body.where(i))
    fid = CONF + "update_filters"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith(CONF) or p.startswith("nodes::feedback_filter"))
    if body is not None:
        if must_pass(body, 0, calls_of(body, CONF + "update_output_feedback")) is not None:
            rep.violate("fwd:update", "update_filters does not fetch the output feedback", F.fn_loc(fid))
        if must_pass(body, 0, [i for i, t in body.calls() if callname(t).endswith("FeedbackFilter::trigger_recalc")]) is not None:
            rep.violate("fwd:recalc", "update_filters does not make the filters recalculate", F.fn_loc(fid))


def rings(F, rep):
    """monitor buffers circulate between the two threads without being lost"""
    fid = MBE + "send_mon_buf"
    body = flat_or_miss(F, rep, fid)
    if body is not None:
        V = Val(body)
        rep.count("monitor buffer hand overs")
        push = [i for i, t in body.calls() if last(callname(t)) == "push" and "Producer" in callname(t)]
        if must_pass(body, 0, push) is not None and not any(last(callname(t)) == "is_full" for _, t in body.calls()):
            rep.violate("ring:send", "send_mon_buf can return without sending the buffer", F.fn_loc(fid))
        back = [i for i, t in body.calls() if last(callname(t)) in ("push", "insert") and "Vec" in callname(t) and self_path(V.op(t["a"][0])) and "unused_monitor_buffers" in self_path(V.op(t["a"][0]))]
        fl = Flow(body)
        for p in push:
            seen = fl.run(forced(fl, p, ("v", 1)), avoid=back)
            if fl.returns(seen):
                rep.violate("ring:refused", "send_mon_buf drops a buffer that does not fit into the ring on the audio thread", body.where(p))
            if back and fl.returns(fl.run(forced(fl, p, ("v", 0)), avoid=[x for x in push if x != p])) is None:
                pass
    fid = MBE + "check_recycle"
    body = flat_or_miss(F, rep, fid)
    if body is not None:
        V = Val(body)
        fl = Flow(body)
        rep.count("monitor buffer hand overs")
        pops = [i for i, t in body.calls() if last(callname(t)) == "pop" and "Consumer" in callname(t)]
        back = [i for i, t in body.calls() if last(callname(t)) in ("push", "insert", "extend") and "Vec" in callname(t)]
        for p in pops:
            seen = fl.run(forced(fl, p, ("v", 1)), avoid=back, stop_at=pops)
            if any(x in seen for x in pops) or fl.returns(seen):
                rep.violate("ring:recycle", "check_recycle drops a used monitor buffer", body.where(p))
            if fl.returns(fl.run(forced(fl, p, ("v", 1)), stop_at=pops)):
                rep.violate("ring:one", "check_recycle does not collect all used monitor buffers", body.where(p))
        if not pops and not any("Consumer" in callname(t) for _, t in body.calls()):
            rep.violate("ring:recycle", "check_recycle does not read the ring of used buffers", F.fn_loc(fid))
    fid = MP + "process"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith(MB) or p.startswith(MM))
    if body is not None:
        V = Val(body)
        fl = Flow(body)
        rep.count("monitor buffer hand overs")
        pops = [i for i, t in body.calls() if last(callname(t)) == "pop" and "Consumer" in callname(t)]
        for p in pops:
            if fl.returns(fl.run(forced(fl, p, ("v", 1)), stop_at=pops)):
                rep.violate("ring:all", "MonitorProcessor::process leaves received buffers waiting", body.where(p))
    fid = "monitor::new_monitor_processor"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith(MON) or p.startswith(MB))
    if body is None:
        return
    V = Val(body)
    caps = []
    for i, t in body.calls():
        if last(callname(t)) == "new" and "RingBuffer" in callname(t):
            caps.append((i, lin(V, V.op(t["a"][0]))))
    n = None
    for i, t in body.calls():
        if callname(t) == MB + "alloc":
            for c in V.conds(i, asserts=False):
                for x in walk(c[0]):
                    if x and x[0] == "agg" and str(x[1][1]).endswith("Range") and len(x[2]) == 2:
                        l = lin(V, ("bin", "Sub", x[2][1], x[2][0]))
                        if set(l) <= {1}:
                            n = l.get(1, 0)
    rep.count("monitor rings", len(caps))
    for i, c in caps:
        if n is not None and set(c) <= {1} and c.get(1, 0) < n:
            rep.violate("ring:size", "a monitor ring holds %d buffers but %d circulate" % (c.get(1, 0), n), body.where(i))
    # both ends of each ring are used crosswise
    ends = {}
    for i, b in enumerate(body.blocks):
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == "monitor::MonitorBackend" and not b["cl"]:
                names = [f[0] for f in F.adts["monitor::MonitorBackend"]["variants"][0]["fields"]]
                ends.update((k, ring_of(V, V.op(o))) for k, o in zip(names, s[2][2]))
    for i in calls_of(body, MON + "new"):
        a = [ring_of(V, V.op(x)) for x in body.blocks[i]["t"]["a"]]
        if a[0] and ends.get("rb_mon_prod") and a[0] != ends["rb_mon_prod"] or a[1] and ends.get("rb_recycle_con") and a[1] != ends["rb_recycle_con"]:
            rep.violate("ring:ends", "the monitor thread and the audio thread use different rings", body.where(i))
    # the thread ends when the frontend is dropped
    drop_thread(F, rep, "monitor::Monitor", MON + "new", "monitor", lambda p: p.startswith(MP) or p.startswith(MS))


def ring_of(V, e):
    for x in deep_walk(V, e):
        if x and x[0] == "call" and last(x[1]) == "split":
            return ("ring", x[3])
    return None


def thread_body(F, fid, stop):
    """the closure a thread is started with"""
    for c in sorted(F.fns):
        if c.startswith(fid + "::{closure"):
            b = flat(F, c, stop=stop)
            if any(last(callname(t)) == "sleep" or last(callname(t)) in ("park", "park_timeout") for _, t in b.calls()):
                return c, b
    return None, None


def drop_thread(F, rep, ty, new, what, stop):
    d = [f for f in F.fns if f.endswith("::drop") and f.startswith("<" + ty + " as")]
    if not d:
        rep.violate("stop:%s:drop" % what, "dropping %s does not end its thread" % ty, F.fn_loc(new))
        return
    body = flat(F, d[0])
    V = Val(body)
    st = [i for i, t in body.calls() if last(callname(t)) in ("store", "swap", "fetch_or") and "Atomic" in callname(t)]
    ks = [V.op(body.blocks[i]["t"]["a"][1]) for i in st]
    told = ks[0][1] if ks and ks[0][0] == "k" and ks[0][1] in (0, 1) else 1
    told = int(told)
    jn = [i for i, t in body.calls() if last(callname(t)) == "join"]
    rep.count("worker threads ended")
    if must_pass(body, 0, st) is not None:
        rep.violate("stop:%s:tell" % what, "dropping %s does not tell its thread to end" % ty, F.fn_loc(d[0]))
    if not jn:
        rep.violate("stop:%s:join" % what, "dropping %s does not wait for its thread" % ty, F.fn_loc(d[0]))
    for j in jn:
        if any(x and x[0] == "call" and last(x[1]) == "is_finished" for c in dev_conds(body, V, j) for x in walk(c[0])):
            rep.violate("stop:%s:join-cond" % what, "dropping %s does not wait for a running thread" % ty, body.where(j))
        if must_pass(body, 0, st, [j]) is not None:
            rep.violate("stop:%s:order" % what, "dropping %s waits for its thread before telling it to end" % ty, body.where(j))
    c, b = thread_body(F, new, stop)
    if b is not None:
        V = Val(b)
        fl = Flow(b)
        rep.count("worker threads")
        loads = [i for i, t in b.calls() if last(callname(t)) in ("load", "swap") and "Atomic" in callname(t)]
        sleeps = [i for i, t in b.calls() if last(callname(t)) in ("sleep", "park_timeout", "park")]
        good = []
        for l in loads:
            yes = fl.run(forced(fl, l, ("k", told)), stop_at=loads)
            if fl.returns(yes) and not any(x in yes for x in loads):
                good.append(l)
        if not loads:
            rep.violate("stop:%s:test" % what, "the %s thread never tests whether it has to end" % what, F.fn_loc(c))
        elif not good:
            rep.violate("stop:%s:ignore" % what, "the %s thread does not end when it is told to" % what, b.where(loads[0]))
        for s in sleeps if good else ():
            if any(must_pass(b, n, good, [s]) is not None for n in b.succ(s)):
                rep.violate("stop:%s:test" % what, "the %s thread can run on without testing whether it has to end" % what, b.where(s))
        for l in good:
            seen = fl.run(forced(fl, l, ("k", 1 - told)), stop_at=good)
            if fl.returns(seen):
                rep.violate("stop:%s:early" % what, "the %s thread ends without being told to" % what, b.where(l))


DT = "nodes::drop_thread::DropThread"
PAIRS = (("graph_update_prod", "graph_update_con", "graph updates"), ("graph_event_cons", "graph_event_prod", "events"))


def p17(F, tier):
    rep = Report("P17", "other")
    rep.rule("the drop thread takes every message out of the drop ring each round and drops it; it tests its stop flag each round, ends when (and only when) it is set; its owner's destructor sets the flag and then joins the thread, on every path; the same for the monitor thread")
    rep.rule("the two ends of every ring between configurator, executor and worker threads belong to the same ring; the sample rate and the feedback cells are the same shared objects on both sides; everything the executor puts aside goes into the ring of the drop thread")
    drop_thread(F, rep, DT, DT + "::new", "drop", lambda p: False)
    drop_thread(F, rep, "monitor::Monitor", MON + "new", "monitor", lambda p: p.startswith(MP) or p.startswith(MS))
    c, b = thread_body(F, DT + "::new", lambda p: False)
    if b is None:
        rep.violate("drop:thread", "DropThread::new starts no thread", F.fn_loc(DT + "::new") if DT + "::new" in F.fns else "")
    else:
        V = Val(b)
        fl = Flow(b)
        pops = [i for i, t in b.calls() if last(callname(t)) in ("pop", "pop_each", "consume") and "Consumer" in callname(t)]
        rep.count("drop ring readers", len(pops))
        sleeps = [i for i, t in b.calls() if last(callname(t)) in ("sleep", "park_timeout", "park")]
        if not pops and not any(t["a"] and "Consumer" in b.locals[a[1][0]][0] for _, t in b.calls() for a in t["a"] if a[0] != "k"):
            rep.violate("drop:read", "the drop thread does not read its ring", F.fn_loc(c))
        for p in pops:
            if last(callname(b.blocks[p]["t"])) != "pop":
                continue
            seen = fl.run(forced(fl, p, ("v", 1)), stop_at=pops)
            if any(s in seen for s in sleeps) or fl.returns(seen):
                rep.violate("drop:all", "the drop thread handles only one message and then sleeps: the ring overflows and the audio thread has to free the rest", b.where(p))
        for s in sleeps:
            if pops and any(must_pass(b, n, pops, [s]) is not None for n in b.succ(s)):
                rep.violate("drop:skip", "the drop thread can sleep again without having read its ring", b.where(s))
        for i, t in b.calls():
            if last(callname(t)) in ("forget", "leak", "into_raw") or last(callname(t)) == "new" and "ManuallyDrop" in callname(t):
                rep.violate("drop:forget", "the drop thread does not drop what it receives", b.where(i))
    wiring(F, rep)
    # what is put aside
    for fid in sorted(F.fns):
        if not fid.startswith(EXE):
            continue
        for i, t in F.body(fid).calls():
            if last(callname(t)) == "push" and "Producer" in callname(t) and "DropMsg" in callname(t) + str(t["f"].get("args", "")) + str([F.body(fid).locals[a[1][0]][0] for a in t["a"] if a[0] != "k"]):
                rep.count("hand overs to the drop thread")
    rep.floor("worker threads ended", 2)
    rep.floor("hand overs to the drop thread", 3)
    return rep


def wiring(F, rep):
    fid = "nodes::node_conf::SharedNodeConf::new"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith("monitor::") or "drop_thread" in p)
    if body is None:
        return
    V = Val(body)
    ends = {}
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and last(s[2][1][1]) in ("SharedNodeConf", "SharedNodeExec"):
                adt = s[2][1][1]
                names = [f[0] for f in F.adts[adt]["variants"][0]["fields"]]
                for n, o in zip(names, s[2][2]):
                    ends[last(adt) + "." + n] = (i, V.op(o))
    if not ends:
        rep.violate("ring:shared", "SharedNodeConf::new builds no pair of shared structures", F.fn_loc(fid))
        return
    for a, c, what in PAIRS:
        x, y = ends.get("SharedNodeConf." + a), ends.get("SharedNodeExec." + c)
        if x and y:
            rep.count("rings wired")
            r, q = ring_of(V, x[1]), ring_of(V, y[1])
            if r and q and r != q:
                rep.violate("ring:" + a, "configurator and executor use different rings for the %s" % what, body.where(x[0]))
    for i in calls_of(body, DT + "::new"):
        x = ring_of(V, V.op(body.blocks[i]["t"]["a"][0]))
        y = ends.get("SharedNodeExec.graph_drop_prod")
        if y and x and ring_of(V, y[1]) and ring_of(V, y[1]) != x:
            rep.violate("ring:drop", "the drop thread reads another ring than the executor fills", body.where(i))
        rep.count("rings wired")
    if not calls_of(body, DT + "::new"):
        rep.violate("ring:drop", "no drop thread is started", F.fn_loc(fid))
    # no two of the executor's ends come from one ring
    used = {}
    for k, (i, e) in ends.items():
        if "prod" in k or "con" in k:
            r = ring_of(V, e)
            if r and (k.split(".")[0], r) in used:
                rep.violate("ring:double", "one ring is used for two purposes (%s, %s)" % (used[(k.split(".")[0], r)], k), body.where(i))
            used[(k.split(".")[0], r)] = k
    # shared sample rate
    x, y = ends.get("SharedNodeConf.sample_rate"), ends.get("SharedNodeExec.sample_rate")
    if x and y:
        rep.count("rings wired")
        r, q = shared_root(V, x[1]), shared_root(V, y[1])
        if r is not None and q is not None and r != q:
            rep.violate("ring:rate", "configurator and executor have different sample rates", body.where(x[0]))


def shared_root(V, e):
    """the value an Arc handle was cloned from"""
    for _ in range(20):
        e = strip(e)
        if e[0] == "call" and last(e[1]) == "clone" and e[2]:
            e = e[2][0]
        elif e[0] in ("ref", "deref"):
            e = e[1]
        else:
            break
    if e[0] == "call" and len(e) > 3:
        return ("call", e[3])
    return e if e[0] == "var" else None
