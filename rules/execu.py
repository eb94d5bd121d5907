"""P03: messages that refer to another program than the current one cannot crash
the executor or act on unrelated inputs."""
from .common import *
from hx.report import Report

STALE = ("smoothers", "target_refresh", "monitor_signal_cur_inp_indices")
PANICKY = ("swap", "split_at", "split_at_mut", "remove", "swap_remove", "insert", "drain", "get_unchecked",
           "get_unchecked_mut", "copy_within", "rotate_left", "rotate_right", "add", "offset", "split_off")


def stop_nodes(p):
    return p.startswith("log::") or p == "dsp::Node::process" or p.endswith("as dsp::DspNode>::process")


def taint(V, e, seen=None):
    """does the value come from a graph message or from executor state that
    survives a program change?"""
    if seen is None:
        seen = set()
    if not isinstance(e, tuple) or not e:
        return None
    k = e[0]
    if k in ("fld", "dc", "deref", "ref"):
        # evaluate the maximal projection chain as a whole
        y = e
        while y[0] in ("fld", "dc", "deref", "ref"):
            y = y[1]
        if y[0] == "call":
            if last(y[1]) == "pop" and y[2]:
                p = self_path(y[2][0])
                if p and p[-1] == "graph_update_con":
                    return "a graph message"
                if p and p[-1] in STALE:
                    return "pending state " + p[-1]
            if last(y[1]) in ITEM:
                return "pending executor state" if is_elem_of_stale(e) else None
            return taint(V, y, seen)
        if y[0] == "idx":
            q = self_path(y)
            if q and any(z in STALE for z in q):
                return "pending executor state"
            return None
        if y[0] == "var":
            return taint(V, y, seen)
        return None
    if k == "idx":
        q = self_path(e)
        if q and any(z in STALE for z in q):
            return "pending executor state"
        return None
    if k == "var":
        if e[1] in seen:
            return None
        seen.add(e[1])
        for d in V.d.get(e[1], []):
            x = V.rv(d[3][2], 1) if d[2] == "assign" else (V.call(d[0], d[3], 1) if d[2] == "call" else None)
            if x:
                r = taint(V, x, seen)
                if r:
                    return r
        return None
    if k == "call":
        if last(e[1]) in ("len", "nframes"):
            return None
        for a in e[2]:
            r = taint(V, a, seen)
            if r:
                return r
        return None
    if k in ("bin", "ovf"):
        return taint(V, e[2], seen) or taint(V, e[3], seen)
    if k == "cast":
        return taint(V, e[2], seen)
    if k == "un":
        return taint(V, e[2], seen)
    if k == "agg":
        for a in e[2]:
            r = taint(V, a, seen)
            if r:
                return r
    return None


ITEM = ("next", "find", "next_back", "nth", "last", "first", "get", "get_mut")


def is_elem_of_stale(x):
    """x is a projection of an item of an iterator over a stale vector (the
    enumerate counter excluded)"""
    proj = []
    y = x
    while y[0] in ("fld", "dc", "deref", "ref"):
        if y[0] == "fld":
            proj.append(str(y[2]))
        y = y[1]
    if y[0] != "call" or last(y[1]) not in ITEM:
        return False
    if not y[2]:
        return False
    proj = list(reversed(proj))[1:]
    it = y[2][0]
    enum = False
    for z in walk(it):
        if z and z[0] == "call" and last(z[1]) == "enumerate":
            enum = True
    src = [z for z in walk(it) if z and z[0] == "fld" and z[2] in STALE]
    if not src:
        return False
    if enum and proj[:1] == ["0"]:
        return False
    return True


def equal_len_fields(F, rep):
    """fields of NodeProg that are created with the same length everywhere"""
    info = F.adts.get("nodes::node_prog::NodeProg")
    if not info:
        return []
    names = [f[0] for f in info["variants"][0]["fields"]]
    groups = None
    for fid, rec in F.fns.items():
        if not any(s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == "nodes::node_prog::NodeProg" for b in rec["blocks"] for s in b["s"]):
            continue
        body = flat(F, fid, depth=3)
        V = Val(body)
        for b in body.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == "nodes::node_prog::NodeProg":
                    sizes = {}
                    for n, o in zip(names, s[2][2]):
                        e = V.op(o)
                        sizes[n] = vec_size(body, V, e)
                    g = {}
                    for n, z in sizes.items():
                        if z is not None:
                            g.setdefault(z, set()).add(n)
                    cur = [frozenset(x) for x in g.values()]
                    if groups is None:
                        groups = cur
                    else:
                        groups = [a & b2 for a in groups for b2 in cur]
    return [tuple(sorted(g)) for g in groups or [] if len(g) > 1]


def vec_size(body, V, e):
    if e[0] == "call" and strip_gen(e[1]) in ("std::vec::Vec::new", "std::vec::Vec::with_capacity"):
        n = norm(e)
        size = ("k", 0)
        for i, t in body.calls():
            if "f" in t and t["a"] and strip_gen(t["f"]["path"]).startswith("std::vec::Vec::"):
                m = last(t["f"]["path"])
                a0 = V.op(t["a"][0])
                a0 = a0[1] if a0[0] == "ref" else a0
                if a0[0] == "call" and a0 == e:
                    if m in ("resize", "resize_with"):
                        size = norm(V.op(t["a"][1]))
                    elif m in ("push", "insert", "extend_from_slice", "append", "truncate"):
                        return None
        return size
    if e[0] == "call" and last(e[1]) == "from_elem":
        return norm(e[2][1])
    return None


def p03(F, tier):
    rep = Report("P03", "other")
    rep.rule("every index into a program vector that stems from a graph message or from executor state surviving a program change (pending smoothers, refresh targets, monitor indices) is dominated by a comparison with that vector's length (or uses get); buffers looked up that way are null-checked before use")
    rep.rule("a Clear message stops all pending smoothers and discards pending refreshes before the program is replaced")
    groups = equal_len_fields(F, rep)
    rep.note("NodeProg vectors of equal length by construction: %s" % (groups,))
    for m in ("process", "process_graph_updates", "feed_midi_events_from"):
        body = flat_or_miss(F, rep, EXE + m, stop=stop_nodes, depth=7)
        if body is None:
            continue
        V = Val(body)
        rep.count("blocks analysed", len(body.blocks))
        for i, kind, base, ix, clen in bounds.obligations(body, V):
            rep.count("index operations")
            exprs = [ix] if kind != "range" else list(ix[2])
            for x in exprs:
                tn = taint(V, x)
                if not tn:
                    # an index taken from a NodeOp must be used with the same program
                    continue
                rep.count("stale-able index uses")
                why = bounds.proved(body, V, i, base, x, clen, groups) if kind != "range" else None
                bn = field_name(base)
                if why:
                    rep.sample("guarded", "%s: %s (%s)" % (body.where(i), bn, why))
                else:
                    rep.violate("unguarded:%s:%s" % (bn, body.blocks[i]["fn"]), "index into %s comes from %s and is not checked against the current length" % (bn, tn), body.where(i))
        for i, t in body.calls():
            nm = last(callname(t)) if "f" in t else ""
            if nm in PANICKY and ("slice" in callname(t) or "Vec" in callname(t) or "ptr" in callname(t)):
                for a in t["a"][1:]:
                    tn = taint(V, V.op(a))
                    if tn:
                        b0 = V.op(t["a"][0])
                        if not bounds.proved(body, V, i, b0[1] if b0[0] == "ref" else b0, V.op(a), None, groups):
                            rep.violate("unguarded-call:%s" % nm, "%s with an index from %s" % (nm, tn), body.where(i))
            if nm in ("unwrap", "expect", "unwrap_unchecked") and t["a"]:
                e = V.op(t["a"][0])
                for x in walk(e):
                    if x and x[0] == "call" and last(x[1]) in ("get", "get_mut", "nth", "checked_sub") and len(x[2]) > 1 and taint(V, x[2][1]):
                        if not bounds.proved(body, V, i, x[2][0][1] if x[2][0][0] == "ref" else x[2][0], x[2][1], None, groups):
                            rep.violate("unwrap-get", "unwrap of a lookup with an index from %s" % taint(V, x[2][1]), body.where(i))
        # looked up buffers: null check before use
        for i, t in body.calls():
            for ai, a in enumerate(t["a"]):
                e = V.op(a)
                for alt in [e]:
                    for x in deep_walk(V, alt):
                        if x and x[0] == "call" and last(x[1]) in ("get", "get_mut") and len(x[2]) > 1 and field_name(x[2][0]) == "cur_inp" and taint(V, x[2][1]):
                            nm = last(callname(t))
                            if nm in ("is_null", "get", "get_mut") or callname(t).startswith("std::option"):
                                continue
                            rep.count("monitored buffer uses")
                            ok = False
                            for c, v in V.conds(i):
                                neg = False
                                while c[0] == "un" and c[1] == "Not":
                                    c = c[2]
                                    neg = not neg
                                if c[0] == "call" and last(c[1]) == "is_null":
                                    tr = (v == (0,)) or (v and v[0] == "not" and v[1] == (1,))
                                    if tr != neg:
                                        ok = True
                                if c[0] == "call" and last(c[1]) == "is_null" and neg and (v == (1,) or v == ("not", (0,))):
                                    ok = True
                            if not ok and not inlined_null_guard(body, V, i):
                                rep.violate("null-buffer:%s" % nm, "an input buffer looked up by a stale-able index is used without a null check (inputs of nodes outside the program have no buffer)", body.where(i))
    clear_rule(F, rep)
    forget_monitors(F, rep)
    # the translation of a node's ports to positions in the program
    from .matrix import local2global
    local2global(F, rep)
    rep.floor("port translations", 2)
    rep.floor("index operations", 15)
    rep.floor("stale-able index uses", 4)
    rep.assume("indices stored in the operations of a program fit that program (they are computed together in rebuild_node_ports)")
    rep.assume("hosts pass 1..=MAX_BLOCK_SIZE frames per block")
    return rep


def inlined_null_guard(body, V, i):
    """is_null() inlined: comparison of the buffer's raw pointer"""
    for c, v in V.conds(i):
        for x in walk(c):
            if x and x[0] == "call" and last(x[1]) == "is_null":
                return True
    return False


def field_name(e):
    if e is None:
        return "?"
    p = self_path(e)
    if p:
        q = [x for x in p if x != "[]"]
        return q[-1]
    for x in walk(e):
        if x and x[0] == "fld":
            return str(x[2])
    return "?"


def clear_rule(F, rep):
    body = flat_or_miss(F, rep, EXE + "process_graph_updates", stop=stop_nodes, depth=7)
    if body is None:
        return
    V = Val(body)
    idx = variant_index(F, "nodes::GraphMessage", "Clear")
    if idx is None:
        rep.violate("anchor:GraphMessage::Clear", "message kind Clear is gone")
        return
    ent = variant_entry(body, V, "nodes::GraphMessage", idx)
    if not ent:
        rep.violate("clear:not-handled", "no handler for the Clear message found in process_graph_updates")
        return
    for sw, s in ent:
        rep.count("Clear handlers")
        # end of the handler: back to the pop or return
        pops = [i for i, t in body.calls() if last(callname(t)) == "pop" and self_path(V.op(t["a"][0])) and self_path(V.op(t["a"][0]))[-1] == "graph_update_con"]
        ends = set(pops) | set(body.returns())
        region = body.reachable(s, avoid=ends)
        clr = [i for i in region if body.blocks[i]["t"]["k"] == "call" and last(callname(body.blocks[i]["t"])) in ("clear", "truncate") and field_name(V.op(body.blocks[i]["t"]["a"][0])) == "target_refresh"]
        # popping until empty is as good
        stopsm = smoother_stops(F, body, V, region)
        for i in stopsm or ():
            for c in dev_conds(body, V, i):
                e = c[0]
                while e[0] == "un":
                    e = e[2]
                if e[0] == "bin" and e[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                    for x, y in ((e[2], e[3]), (e[3], e[2])):
                        if (x[0] == "k" or any(z and (z[0] == "len" or z[0] == "call" and last(z[1]) == "len") for z in walk(x))) and any(z and z[0] == "fld" and z[2] == "smoothers" for z in deep_walk(V, y)):
                            rep.violate("clear:smoothers-some", "a Clear message stops a pending parameter smoother only under a condition (%s)" % fmt(e)[:80], body.where(i))
        if not stopsm:
            rep.violate("clear:smoothers", "a Clear message leaves pending parameter smoothers running: they would be applied to inputs of the next program", body.where(s))
        if not clr or must_pass(body, s, clr, ends) is not None:
            drained = any(body.blocks[i]["t"]["k"] == "call" and last(callname(body.blocks[i]["t"])) == "pop" and field_name(V.op(body.blocks[i]["t"]["a"][0])) == "target_refresh" for i in region)
            if not drained:
                rep.violate("clear:target_refresh", "a Clear message does not discard the pending refresh targets on every path", body.where(s))


def forget_monitors(F, rep):
    """the monitored indices refer to the program they were sent for"""
    body = flat_or_miss(F, rep, EXE + "process_graph_updates", stop=stop_nodes, depth=7)
    if body is None:
        return
    V = Val(body)
    wr = [i for i, b in enumerate(body.blocks) if not b["cl"] for s in b["s"] if s[0] == "=" and s[1][1] and any(x and x[0] == "fld" and x[2] == "monitor_signal_cur_inp_indices" for x in deep_walk(V, V.place(s[1])))]
    wr += [i for i, t in body.calls() if last(callname(t)) in ("fill", "replace", "take", "for_each", "swap", "copy_from_slice", "clone_from") and t["a"] and "monitor_signal_cur_inp_indices" in str(V.op(t["a"][0]))]
    pops = [i for i, t in body.calls() if last(callname(t)) == "pop" and self_path(V.op(t["a"][0])) and self_path(V.op(t["a"][0]))[-1] == "graph_update_con"]
    # (a loop over all entries counts when it was passed, but not the one over the messages)
    wr = set(wr) | set(h for h, bl in body.loops().items() if any(i in bl for i in wr) and not any(i in bl for i in pops))
    for kind in ("Clear", "NewProg"):
        idx = variant_index(F, "nodes::GraphMessage", kind)
        for sw, s in variant_entry(body, V, "nodes::GraphMessage", idx) if idx is not None else ():
            rep.count("exchanges of the program")
            if must_pass(body, s, wr, set(pops) | set(body.returns())) is not None:
                rep.violate("monitor:stale:" + kind, "a %s message leaves the monitored signals of the replaced program selected: signals of other nodes are sent in their place" % kind, body.where(s))


def smoother_stops(F, body, V, region):
    """a write that finishes every smoother: inside a loop over self.smoothers
    some smoother field is assigned"""
    out = []
    for i in region:
        for s in body.blocks[i]["s"]:
            if s[0] == "=" and s[1][1]:
                e = V.place(s[1])
                for x in walk(e):
                    if x and x[0] == "fld" and x[2] == "smoothers":
                        out.append(i)
        t = body.blocks[i]["t"]
        if t["k"] == "call" and last(callname(t)) in ("clear", "for_each", "stop") and "smoothers" in str(V.op(t["a"][0])):
            out.append(i)
    return out
