"""P07 (ownership of signal buffers and nodes), P08 (parameter changes)."""
import re
from hx.report import Report
from .common import *
from hx.flow import Flow
from .srate import rooted_fields, recv_fields, comb_args, structural, inl_arg, opt_filtered

PB = "dsp::ProcBuf"
PROG = "nodes::node_prog::NodeProg"
PGU = EXE + "process_graph_updates"
GM = "nodes::GraphMessage"
PARTIAL = ("take", "skip", "step_by", "take_while", "skip_while", "nth", "first", "last", "filter", "filter_map", "split_at", "chunks", "first_mut", "last_mut", "split_first", "split_last", "find")


def is_pb_new(F, e, dep=0):
    """expression creates an owned buffer (call of / reference to ProcBuf::new)"""
    for x in walk(e):
        if not x:
            continue
        if x[0] == "call" and strip_gen(x[1]) == PB + "::new":
            return True
        if x[0] == "fn" and strip_gen(x[1]) == PB + "::new":
            return True
        if x[0] == "agg" and x[1] and x[1][0] == "closure" and dep < 3:
            c = x[1][1]
            if c in F.fns and any(callname(t) == PB + "::new" for _, t in F.body(c).calls()):
                return True
    return False


def pb_types(F):
    out = {}
    for a, r in F.adts.items():
        if a == PB:
            continue
        for v in r["variants"]:
            for f, ty, _ in v["fields"]:
                if re.search(r"\bProcBuf\b", ty) and "&" not in ty:
                    out.setdefault(a, []).append(f)
    return out


def owned_fields(F, rep):
    """ADT -> fields that hold buffers created by ProcBuf::new; plus the
    functions in which that happens"""
    T = pb_types(F)
    owned = {a: set() for a in T}
    ctors = set()
    users = [fid for fid, r in F.fns.items() if uses_new(F, fid)]
    for fid in users:
        b = flat(F, fid, stop=lambda p: p.startswith(PB + "::"))
        V = Val(b)
        sinks = []  # expressions of containers filled with new buffers
        for i, t in b.calls():
            if callname(t) == PB + "::new":
                continue
            args = [V.op(a) for a in t["a"]]
            if any(is_pb_new(F, a) for a in args):
                for a in args:
                    sinks.append(norm_bb(a))
                if not t["d"][1]:
                    sinks.append(norm_bb(V.local(t["d"][0])))
        for i, blk in enumerate(b.blocks):
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] in T:
                    adt = s[2][1][1]
                    var = F.adts[adt]["variants"][s[2][1][2]]
                    for (n, ty, _), o in zip(var["fields"], s[2][2]):
                        if n not in T[adt]:
                            continue
                        e = V.op(o)
                        if is_pb_new(F, e) or norm_bb(e) in sinks:
                            owned[adt].add(n)
                            ctors.add(fid)
    return T, owned, ctors, users


def uses_new(F, fid):
    b = F.body(fid)
    for i, t in b.calls():
        if callname(t) == PB + "::new":
            return True
        for a in t["a"]:
            if a[0] == "k" and "fn" in a[1] and strip_gen(a[1]["fn"].get("resolved") or a[1]["fn"]["path"]) == PB + "::new":
                return True
    return False


def norm_bb(e):
    while e[0] in ("ref", "deref"):
        e = e[1]
    return e


def drops(F):
    out = {}
    for im in F.impls:
        if im["trait"] in ("std::ops::Drop", "core::ops::Drop"):
            for n, p in im["items"]:
                if n == "drop" and p in F.fns:
                    out[strip_gen(im["self_ty"])] = p
    return out


def null_cond(c):
    e = c[0]
    while e[0] == "un":
        e = e[2]
    return e[0] == "call" and last(e[1]) in ("is_null", "is_empty")


def p07(F, tier):
    rep = Report("P07", "other")
    rep.rule("a signal buffer is allocated only into an owning field, is freed only by that owner's destructor, which frees every owning field completely and no borrowed one; raw pointer (un)boxing happens nowhere else; owners are never cloned and their buffer vectors never change after construction except by swapping with another owner's")
    rep.rule("after a program was installed or its buffers were swapped, the pointers its nodes read from are rebuilt before the audio thread leaves the update handling; buffers that may be null are tested before they are read")
    rep.rule("node objects shared with the audio thread are only operated by the executor, or by the function that has just created them")
    T, owned, ctors, users = owned_fields(F, rep)
    D = drops(F)
    rep.count("types holding buffers", len(T))
    for fid in users:
        rep.count("buffer allocation sites")
        if fid not in ctors and F.fns[fid].get("kind") != "closure":
            rep.violate("orphan:" + fid, "%s allocates a signal buffer that ends up in no owning field" % fid, F.fn_loc(fid))
    in_drop = set()
    for adt in sorted(T):
        own = owned[adt]
        dfn = D.get(adt)
        if not own:
            rep.count("types borrowing buffers only")
            freed = {}
        if not dfn:
            if own:
                rep.violate("leak:" + adt, "%s owns signal buffers %s but has no destructor" % (adt, sorted(own)), F.adts[adt]["loc"])
            continue
        inl = mir.Inliner(F, stop=lambda p: p.startswith(PB + "::"))
        body = inl.run(dfn)
        in_drop |= inl.inlined
        V = Val(body)
        freed = {}
        for i, t in body.calls():
            if callname(t) != PB + "::free":
                continue
            rep.count("buffer release sites")
            fs = recv_fields(body, V, i, t["a"][0])
            if not fs:
                rep.violate("free-what:" + adt, "the destructor of %s frees a buffer that is not one of its fields" % adt, body.where(i))
            for f in fs:
                freed.setdefault(f, []).append(i)
            if not all(structural(c) or null_cond(c) for c in V.conds(i, asserts=False)):
                rep.violate("free-cond:" + adt, "the destructor of %s frees %s only under a condition" % (adt, sorted(fs)), body.where(i))
        for i, t in body.calls():
            n = last(callname(t) or trait_call(t))
            fs = set()
            for a in t["a"]:
                fs |= rooted_fields(V, V.op(a))
            if n in PARTIAL and fs & own:
                rep.violate("free-part:" + adt, "the destructor of %s frees only a part of %s (%s)" % (adt, sorted(fs & own), n), body.where(i))
            for a in t["a"]:
                for x in walk(V.op(a)):
                    if x and x[0] == "idx" and x[2][0] == "agg" and "Range" in str(x[2][1]) and "RangeFull" not in str(x[2][1]) and rooted_fields(V, x[1]) & own:
                        rep.violate("free-part:" + adt, "the destructor of %s frees only a part of %s" % (adt, sorted(own)), body.where(i))
        for f in sorted(own - set(freed)):
            rep.violate("leak:%s.%s" % (adt, f), "the destructor of %s does not free its buffers in '%s'" % (adt, f), F.fn_loc(dfn))
        for f in sorted(set(freed) - own):
            rep.violate("double:%s.%s" % (adt, f), "the destructor of %s frees '%s', which only borrows buffers of another owner" % (adt, f), F.fn_loc(dfn))
        for f, sites in freed.items():
            for a in sites:
                for c in sites:
                    if a != c and c in body.reachable(body.succ(a)):
                        rep.violate("double:%s.%s" % (adt, f), "the destructor of %s frees '%s' twice" % (adt, f), body.where(c))
    rep.floor("buffer allocation sites", 2)
    rep.floor("buffer release sites", 2)
    # free() and raw pointers elsewhere
    C = callers(F)
    for fid in F.fns:
        for i, t in F.body(fid).calls():
            n = callname(t)
            if n == PB + "::free" and fid not in in_drop:
                rep.violate("free:" + fid, "%s frees a signal buffer outside of its owner's destructor" % fid, F.body(fid).where(i))
            if last(n) in ("from_raw", "from_raw_in") and "boxed" in n and fid != PB + "::free":
                # some other raw box: only of interest when it is a signal buffer
                if "f32; 128" in str(t) or "ProcBuf" in str(F.fns[fid]["locals"]):
                    rep.violate("raw:" + fid, "%s turns a raw signal buffer pointer into a box" % fid, F.body(fid).where(i))
    for fid in in_drop:
        if last(fid) == "drop":
            continue
        if any(callname(t) == PB + "::free" for _, t in F.body(fid).calls()):
            for cf, ci in C.get(fid, []):
                if cf not in in_drop:
                    rep.violate("free:" + cf, "%s frees signal buffers outside of their owner's destructor" % cf, F.fn_loc(cf))
    if PB + "::free" in F.fns:
        b = F.body(PB + "::free")
        V = Val(b)
        for i, t in b.calls():
            if last(callname(t)) == "from_raw":
                rep.count("unboxing sites")
                if not any(null_cond(c) for c in V.conds(i)):
                    rep.violate("free-null", "ProcBuf::free unboxes the pointer without testing it for null", b.where(i))
    else:
        rep.violate("anchor:free", "ProcBuf::free is gone")
    owners = [a for a in owned if owned[a]]
    clones(F, rep, owners)
    shared_copies(F, rep)
    vector_changes(F, rep, T, owned, ctors)
    install(F, rep, owned)
    null_reads(F, rep)
    node_access(F, rep)
    rep.assume("a program's operations, indices and buffer vectors match because they are built together (P11)")
    return rep


def clones(F, rep, owners):
    names = [last(a) for a in owners]
    for fid in F.fns:
        derived = " as std::clone::Clone>::clone" in fid
        for i, t in F.body(fid).calls():
            if "f" not in t:
                continue
            p = (t["f"].get("resolved") or "") + " " + t["f"]["path"] + " " + str(t["f"].get("args", ""))
            n = last(t["f"].get("resolved") or t["f"]["path"])
            if n in ("clone", "clone_from", "to_vec", "to_owned", "extend_from_slice", "clone_from_slice", "cloned", "resize"):
                for nm in names:
                    if re.search(r"\b%s\b" % nm, p):
                        rep.violate("clone:%s:%s" % (nm, fid), "%s copies a %s: both copies would free the same buffer" % (fid, nm), F.body(fid).where(i))


def shared_copies(F, rep):
    """one new buffer copied into several slots; owners that are leaked"""
    names = set(last(a) for a in pb_types(F)) | set(["GraphMessage", "DropMsg"])
    for fid in F.fns:
        b = F.body(fid)
        V = None
        for i, t in b.calls():
            n = last(callname(t) or trait_call(t))
            if n in ("resize", "from_elem", "repeat", "repeat_n", "fill", "extend_from_within") and "f" in t and len(t["a"]) > 1 or n in ("repeat", "from_elem"):
                V = V or Val(b)
                if any(direct_new(V.op(a)) for a in t["a"]):
                    rep.violate("clone:ProcBuf:" + fid, "%s puts copies of one new signal buffer into several places: it would be freed several times" % fid, b.where(i))
            if (n == "forget" and "mem" in callname(t)) or (n == "new" and "ManuallyDrop" in callname(t)) or (n in ("leak", "into_raw") and ("Box" in callname(t) or "boxed" in callname(t) or "Arc" in callname(t))):
                tys = " ".join(str(x) for x in [t["f"].get("args", ""), t["f"].get("path", "")] + [b.locals[a[1][0]][0] for a in t["a"] if a[0] != "k"])
                for nm in sorted(names):
                    if re.search(r"\b%s\b" % nm, tys):
                        rep.violate("forget:%s:%s" % (nm, fid), "%s leaks a %s: its signal buffers are never freed" % (fid, nm), b.where(i))
        if b.fid.startswith(PB + "::"):
            continue
        for i, blk in enumerate(b.blocks):
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "repeat" and not blk["cl"]:
                    V = V or Val(b)
                    if direct_new(V.op(s[2][1])):
                        rep.violate("clone:ProcBuf:" + fid, "%s puts copies of one new signal buffer into several places" % fid, b.where(i))


def direct_new(e):
    while e[0] in ("ref", "deref"):
        e = e[1]
    return e[0] == "call" and strip_gen(e[1]) == PB + "::new"


MUTV = {"push", "pop", "clear", "truncate", "resize", "resize_with", "remove", "swap_remove", "drain", "retain", "append", "insert", "extend", "split_off", "dedup"}


def vector_changes(F, rep, T, owned, ctors):
    """buffer vectors of owners keep their elements after construction"""
    for fid in F.fns:
        b = F.body(fid)
        V = None
        for i, t in b.calls():
            n = last(callname(t) or trait_call(t))
            if not t["a"]:
                continue
            if n in MUTV or n in ("replace", "take", "swap"):
                V = V or Val(b)
                hit = []
                for a in t["a"][: 2 if n == "swap" else 1]:
                    p = buf_path(F, b, V, V.op(a), T)
                    hit.append(p)
                if n in MUTV or n in ("replace", "take"):
                    if hit[0] and hit[0][1] in owned.get(hit[0][0], ()):
                        rep.violate("vec:%s:%s" % (hit[0][1], fid), "%s changes the buffer vector '%s' of an existing %s (%s): buffers leak or dangle" % (fid, hit[0][1], last(hit[0][0]), n), b.where(i))
                elif n == "swap" and any(hit):
                    rep.count("buffer swaps")
                    for h in hit:
                        if h and h[1] not in owned.get(h[0], ()):
                            rep.violate("swap:" + fid, "%s swaps an owned buffer with the borrowed one in '%s'" % (fid, h[1]), b.where(i))
        # element stores
        for i, blk in enumerate(b.blocks):
            if blk["cl"]:
                continue
            for s in blk["s"]:
                if s[0] == "=" and s[1][1]:
                    V = V or Val(b)
                    e = V.place(s[1])
                    p = buf_path(F, b, V, e, T)
                    if p and p[1] in owned.get(p[0], ()) and fid not in ctors:
                        rep.violate("store:%s:%s" % (p[1], fid), "%s overwrites an owned buffer in '%s' of %s: the old one leaks and the new one gets two owners" % (fid, p[1], last(p[0])), b.where(i))


def buf_path(F, b, V, e, T):
    """(ADT, field) when the place expression is a buffer field of a buffer
    holding type, or an element of it"""
    seen = 0
    fl = []
    while seen < 30:
        seen += 1
        if e[0] in ("ref", "deref", "dc"):
            e = e[1]
        elif e[0] == "idx":
            e = e[1]
        elif e[0] == "fld":
            for a, fs in T.items():
                if e[2] in fs and base_is(b, V, e[1], a):
                    return (a, e[2])
            # item of an iterator (zip)
            fl.append(str(e[2]))
            e = e[1]
        elif e[0] == "call" and last(e[1]) in ("next", "iter_mut", "iter", "zip", "into_iter", "enumerate", "unwrap", "get_mut", "rev") and e[2]:
            if last(e[1]) == "zip":
                r = [buf_path(F, b, V, x, T) for x in e[2][:2]]
                if len(fl) >= 2 and fl[-2] in ("0", "1"):
                    return r[int(fl[-2])]
                return r[0] or r[1]
            e = e[2][0]
        else:
            return None
    return None


def base_is(b, V, e, adt):
    """is the expression of type `adt` (argument, self field)?"""
    while e[0] in ("ref", "deref"):
        e = e[1]
    if e[0] == "arg" or e[0] == "var":
        ty = b.locals[e[1]][0]
        return strip_gen(ty.replace("&mut ", "").replace("&", "")) == adt or last(strip_gen(ty.replace("&mut ", "").replace("&", ""))) == last(adt)
    if e[0] == "fld" and e[2] in ("prog", "prev_prog", "modops"):
        return True
    if e[0] in ("call", "idx"):
        return True
    return False


def effect_fns(F, pred):
    return [fid for fid, r in F.fns.items() if r["kind"] in ("fn", "method") and pred(fid, F.body(fid))]


def rebuild_fns(F):
    """functions of the program that (re)fill cur_inp from inp/out"""
    out = set()
    for fid in F.fns:
        if not fid.startswith(PROG + "::") or "{closure" in fid:
            continue
        b = flat(F, fid)
        V = Val(b)
        w = False
        for i, t in b.calls():
            n = last(callname(t) or trait_call(t))
            if n in ("copy_from_slice", "clone_from_slice") and "cur_inp" in rooted_fields(V, V.op(t["a"][0])) and "inp" in rooted_fields(V, V.op(t["a"][1])):
                w = True
        for i, j, p, rv in field_writes(b, V):
            if p[:2] == ("arg1", "cur_inp") and len(p) > 2 and rv is not None:
                e = V.rv(rv, 0)
                if "inp" in rooted_fields(V, e):
                    w = True
        if w:
            out.add(fid)
    return out


def init_fns(F):
    """functions that fill the input buffers with the parameter values"""
    out = set()
    for fid in F.fns:
        if not fid.startswith(PROG + "::") or "{closure" in fid:
            continue
        b = flat(F, fid, stop=lambda p: p.startswith(PB + "::"))
        V = Val(b)
        for i, t in b.calls():
            if callname(t) == PB + "::fill":
                r = recv_fields(b, V, i, t["a"][0])
                v = rooted_fields(V, V.op(t["a"][1]))
                if "inp" in r and ("params" in v or "params" in r):
                    out.add(fid)
    return out


def pop_blocks(body, V):
    out = []
    for i, t in body.calls():
        if last(callname(t) or trait_call(t)) == "pop" and t["a"] and "shared" in rooted_fields(V, V.op(t["a"][0])):
            out.append(i)
    return out


def install(F, rep, owned):
    if PGU not in F.fns:
        rep.violate("anchor:" + PGU, "NodeExecutor::process_graph_updates is gone")
        return
    RB = rebuild_fns(F)
    if not RB:
        rep.violate("anchor:rebuild", "no function of NodeProg fills cur_inp from the program's buffers any more")
        return
    rep.sample("rebuild functions", sorted(RB))
    body = flat(F, PGU, stop=lambda p: p in RB or p.startswith("log"))
    V = Val(body)
    ends = set(body.returns()) | set(pop_blocks(body, V))
    rb = [i for i, t in body.calls() if F.callee(t) in RB and self_path(V.op(t["a"][0])) == ("arg1", "prog")]
    idx = variant_index(F, GM, "NewProg")
    ent = variant_entry(body, V, GM, idx) if idx is not None else []
    if not ent:
        rep.violate("anchor:NewProg", "process_graph_updates does not handle GraphMessage::NewProg")
        return
    inst = []
    for i, t in body.calls():
        n = last(callname(t) or trait_call(t))
        if n in ("replace", "swap") and t["a"] and self_path(V.op(t["a"][0])) == ("arg1", "prog"):
            inst.append((i, "installs the program"))
        if n == "swap" and t["a"] and len(t["a"]) == 2 and any("inp" in str(x[2]) for a in t["a"] for x in walk(V.op(a)) if x and x[0] == "fld"):
            inst.append((i, "swaps input buffers"))
    for i, j, p, rv in field_writes(body, V):
        if p == ("arg1", "prog"):
            inst.append((i, "installs the program"))
    n = 0
    for sw, e in ent:
        reg = body.reachable(e, avoid=ends)
        mine = [(i, w) for i, w in inst if i in reg]
        if not any(w.startswith("installs") for _, w in mine):
            rep.violate("install", "the handling of GraphMessage::NewProg does not install the received program", body.where(e))
        for i, w in mine:
            n += 1
            for s in body.succ(i):
                if body.blocks[s]["cl"]:
                    continue
                bad = must_pass(body, s, rb, ends)
                if bad is not None:
                    rep.violate("rebuild:" + w, "after process_graph_updates %s, a path reaches the next update or the audio processing without rebuilding the pointers the nodes read from: they refer to buffers of the old program" % w, body.where(i))
        # what is handed to the drop thread must not be rebuilt afterwards etc: not needed
    rep.count("program installation and swap sites", n)
    rep.floor("program installation and swap sites", 1)


def null_reads(F, rep):
    fid = "nodes::node_prog::ModOp::process"
    if fid not in F.fns:
        rep.violate("anchor:ModOp::process", "ModOp::process is gone")
        return
    b = flat(F, fid, stop=lambda p: p.startswith(PB + "::"))
    V = Val(b)
    nul = []
    tested = set()
    for i, t in b.calls():
        n = callname(t)
        if n in (PB + "::read", PB + "::slice") and t["a"]:
            fs = rooted_fields(V, V.op(t["a"][0]))
            for e, v in V.conds(i):
                while e[0] == "un":
                    e = e[2]
                if e[0] == "call" and last(e[1]) == "is_null":
                    tested |= rooted_fields(V, e) & {"inbuf", "outbuf"}
            if fs & {"inbuf", "outbuf"}:
                rep.count("reads of buffers that may be null")
                ok = False
                for e, v in V.conds(i):
                    x = e
                    neg = 0
                    while x[0] == "un":
                        neg += 1
                        x = x[2]
                    if x[0] == "call" and last(x[1]) == "is_null" and rooted_fields(V, x) & {"inbuf", "outbuf"}:
                        ok = True
                if not ok:
                    rep.violate("null:ModOp", "ModOp::process reads its input buffers without testing them for null: an unconnected modulator dereferences a null pointer", b.where(i))
    # disconnecting a modulator empties what is tested
    u = "nodes::node_prog::ModOp::unlock"
    if u in F.fns and tested:
        ub = flat(F, u, stop=lambda p: p.startswith(PB + "::"))
        UV = Val(ub)
        for f in sorted(tested):
            w = [i for i, j, p, rv in field_writes(ub, UV) if p == ("arg1", f)]
            rep.count("buffers forgotten on disconnection")
            if must_pass(ub, 0, w) is not None:
                rep.violate("null:unlock:" + f, "disconnecting a modulator leaves the pointer '%s' behind, which is what is tested before its buffers are read" % f, F.fn_loc(u))


def node_access(F, rep):
    N = "dsp::Node::"
    for fid in F.fns:
        b = F.body(fid)
        V = None
        for i, t in b.calls():
            n = callname(t)
            if n in (N + "process", N + "reset", N + "set_sample_rate"):
                rep.count("operations on shared nodes")
                if fid.startswith(EXE) or "NodeExecutor" in fid:
                    continue
                V = V or Val(b)
                e = V.op(t["a"][0])
                if any(x and x[0] == "call" and ("factory" in x[1] or last(x[1]) in ("new", "new_node")) for x in deep_walk(V, e)):
                    continue
                # helper functions: all callers are the executor or the creator
                if all(cf.startswith(EXE) or last(cf) == "create_node" for cf, _ in callers(F).get(fid, [])) and callers(F).get(fid):
                    continue
                rep.violate("node:%s" % fid, "%s calls Node::%s from outside of the executor: the node is shared with the audio thread" % (fid, last(n)), b.where(i))
    rep.floor("operations on shared nodes", 2)


# ---------------------------------------------------------------- P08
SM = "util::Smoother"


def from_msg(V, e, field):
    """is the expression the named field of the message taken from the queue?"""
    for x in deep_walk(V, e):
        if x and x[0] == "fld" and str(x[2]) == field and x[1][0] == "dc":
            return True
    return False


def plain(V, e, src, dep=0):
    """the expression is the source value itself: moved, cast, cloned - not
    limited, scaled or replaced.  src: predicate on sub expressions"""
    if dep > 25 or not isinstance(e, tuple) or not e:
        return False
    if src(e):
        return True
    k = e[0]
    if k in ("ref", "deref"):
        return plain(V, e[1], src, dep + 1)
    if k == "cast":
        return plain(V, e[2], src, dep + 1)
    if k == "call" and e[2] and last(e[1]) in ("clone", "into", "from", "to_owned", "f", "copied", "cloned", "unwrap", "unwrap_or_default", "unwrap_or"):
        return plain(V, e[2][0], src, dep + 1)
    if k == "fld":
        return plain(V, e[1], src, dep + 1) if e[1][0] == "dc" else False
    if k == "dc":
        return plain(V, e[1], src, dep + 1)
    if k == "agg" and len(e[2]) == 1:
        return plain(V, e[2][0], src, dep + 1)
    if k == "var":
        ds = V.var_defs(e[1])
        return bool(ds) and any(plain(V, x, src, dep + 1) for _, x in ds)
    return False


def map_calls(body, V, names, field):
    """calls of map methods on self.<field>"""
    out = []
    for i, t in body.calls():
        if last(callname(t) or trait_call(t)) in names and t["a"] and self_path(V.op(t["a"][0])) == ("arg1", field):
            out.append(i)
    return out


def pushes(body, V, variant, ctor=None):
    """push calls of a GraphMessage variant -> [(block, field exprs)]"""
    out = []
    for i, t in body.calls():
        if last(callname(t) or trait_call(t)) != "push" or len(t["a"]) < 2:
            continue
        for alt in expand(V, V.op(t["a"][1])):
            if alt[0] == "agg" and alt[1][0] == "adt" and alt[1][1] == GM and alt[1][3] == variant:
                info = [v for v in body.facts.adts[GM]["variants"] if v["name"] == variant][0]
                out.append((i, dict((f[0], x) for f, x in zip(info["fields"], alt[2]))))
    return out


def some_edges(body, V, calls):
    """(switch block, target) edges taken when one of the lookup calls found
    something"""
    out = []
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"] or t["k"] != "switch":
            continue
        e = V.op(t["d"])
        if e[0] == "discr":
            x = e[1]
            while x[0] in ("ref", "deref"):
                x = x[1]
            if x[0] == "call" and x[3] in calls:
                for v, s in t["v"]:
                    if v == 1:
                        out.append((i, s))
                if 1 not in [v for v, _ in t["v"]]:
                    out.append((i, t["o"]))
    return out


def is_arg(n):
    return lambda e: e == ("arg", n)


def p08(F, tier):
    rep = Report("P08", "other")
    rep.rule("setting a parameter, setting or modulation amount stores the unmodified value in the frontend's registry on every path and, when the parameter is part of the running graph, sends it to the audio thread with the index registered for it")
    rep.rule("a modulation amount that is set anew or removed makes the caller rebuild the graph; every upload copies all parameter values, modulation amounts and settings; a rebuilt graph takes them from the registry")
    rep.rule("on the audio thread every in-range update of a parameter, setting or modulation amount takes effect on every path: a ramp ends exactly at its target, its result is kept, refreshed and survives a graph replacement")
    frontend_set(F, rep)
    frontend_modamt(F, rep)
    frontend_upload(F, rep)
    backend_updates(F, rep)
    smoothing(F, rep)
    rep.assume("the bounded update queue has room (the frontend API ignores a full queue)")
    return rep


def frontend_set(F, rep):
    body = flat_or_miss(F, rep, CONF + "set_param", stop=lambda p: p.startswith("dsp::ParamId::") or p.startswith("sample_lib") or p.startswith("dsp::SAtom::"))
    if body is None:
        return
    V = Val(body)
    for reg, act, variant, idxf, kind in (("atom_values", "atoms", "AtomUpdate", "at_idx", "setting"), ("param_values", "params", "ParamUpdate", "input_idx", "parameter")):
        ins = map_calls(body, V, ("insert",), reg)
        rep.count("registry stores", len(ins))
        good = []
        for i in ins:
            t = body.blocks[i]["t"]
            if not any(x == ("arg", 2) for x in deep_walk(V, V.op(t["a"][1]))):
                rep.violate("set:key:" + kind, "set_param registers the %s under another key than the one given" % kind, body.where(i))
            elif not plain(V, V.op(t["a"][2]), is_arg(3)):
                rep.violate("set:value:" + kind, "set_param registers a %s value other than the one given: %s" % (kind, fmt(V.op(t["a"][2]))[:80]), body.where(i))
            else:
                good.append(i)
        if not ins:
            rep.violate("set:store:" + kind, "set_param does not remember the value of a %s" % kind, F.fn_loc(CONF + "set_param"))
            continue
        # the branch for this kind: switch on is_atom
        for sw, s in kind_edges(body, V, kind == "setting"):
            rep.count("kind branches")
            bad = must_pass(body, s, ins)
            if bad is not None and not any(body.dominates(x, sw) for x in ins):
                rep.violate("set:path:" + kind, "there is a path through set_param that does not remember the value of a %s" % kind, body.where(s))
            look = [i for i in map_calls(body, V, ("get_mut", "get", "entry"), act)]
            ps = pushes(body, V, variant)
            pb = []
            for i, fs in ps:
                rep.count("update messages")
                if not any(x and x[0] == "fld" and x[2] == idxf for x in deep_walk(V, fs.get(idxf, ("?",)))):
                    rep.violate("set:index:" + kind, "the %s message carries another index than the one registered for the %s" % (variant, kind), body.where(i))
                if not plain(V, fs.get("value", ("?",)), is_arg(3)):
                    rep.violate("set:msg-value:" + kind, "the %s message carries another value than the one given: %s" % (variant, fmt(fs.get("value"))[:80]), body.where(i))
                pb.append(i)
            edges = [(q, z) for q, z in some_edges(body, V, look)]
            if not edges and not pb:
                rep.violate("set:send:" + kind, "set_param never sends a changed %s to the audio thread" % kind, F.fn_loc(CONF + "set_param"))
            for i in pb:
                for c in dev_conds(body, V, i):
                    x = c[0]
                    while x[0] == "un":
                        x = x[2]
                    if opt_filtered(x) and any(y and y[0] == "call" and y[3] in look for y in walk(x)):
                        rep.violate("set:send-cond:" + kind, "a changed %s that is part of the running graph is only sent under a further condition" % kind, body.where(i))
            for q, z in edges:
                if must_pass(body, z, pb) is not None:
                    rep.violate("set:send-path:" + kind, "a %s that is part of the running graph is changed without telling the audio thread on some path" % kind, body.where(z))
                st = []
                for i, j, p, e in value_stores(body, V, act):
                    if plain(V, e, is_arg(3)):
                        st.append(i)
                if must_pass(body, z, st) is not None:
                    rep.violate("set:active:" + kind, "set_param does not update the active value of a %s that is part of the running graph (it is what the next upload sends)" % kind, body.where(z))
    rep.floor("registry stores", 2)
    rep.floor("update messages", 2)


def value_stores(body, V, reg):
    """stores to .value of an entry of self.<reg>"""
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for j, s in enumerate(b["s"]):
            if s[0] == "=" and s[1][1] and isinstance(s[1][1][-1], list) and s[1][1][-1][0] == "f" and s[1][1][-1][2] == "value":
                e = V.place(s[1])
                if any(x and x[0] == "fld" and x[2] == reg for x in deep_walk(V, e)):
                    yield i, j, None, V.rv(s[2], 0)
        t = b["t"]
        if t["k"] == "call" and t["d"][1] and isinstance(t["d"][1][-1], list) and t["d"][1][-1][2] == "value":
            e = V.place(t["d"])
            if any(x and x[0] == "fld" and x[2] == reg for x in deep_walk(V, e)):
                yield i, -1, None, V.call(i, t, 0)


def kind_edges(body, V, atom):
    """edges of the switch on param.is_atom()"""
    out = []
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"] or t["k"] != "switch":
            continue
        e = V.op(t["d"])
        neg = False
        while e[0] == "un" and e[1] == "Not":
            e = e[2]
            neg = not neg
        if e[0] == "call" and last(e[1]) == "is_atom":
            want = 1 if atom != neg else 0
            vs = [v for v, _ in t["v"]]
            out.append((i, dict((v, s) for v, s in t["v"])[want] if want in vs else t["o"]))
    return out


def frontend_modamt(F, rep):
    fid = CONF + "set_param_modamt"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith("dsp::ParamId::"))
    if body is None:
        return
    V = Val(body)
    ins = map_calls(body, V, ("insert", "remove"), "param_modamt")
    for i in ins:
        t = body.blocks[i]["t"]
        rep.count("registry stores")
        if last(callname(t)) == "insert" and not plain(V, V.op(t["a"][2]), is_arg(3)):
            rep.violate("mod:value", "set_param_modamt registers another amount than the one given: %s" % fmt(V.op(t["a"][2]))[:80], body.where(i))
    if not ins:
        rep.violate("mod:store", "set_param_modamt does not remember the modulation amount", F.fn_loc(fid))
        return
    ke = kind_edges(body, V, False)
    for sw, s in ke or [(0, 0)]:
        if must_pass(body, s, ins) is not None:
            rep.violate("mod:path", "there is a path through set_param_modamt that does not remember the amount", body.where(s))
    # constant returns
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[1][0] == 0 and not s[1][1] and s[2][0] == "use" and s[2][1][0] == "k" and s[2][1][1].get("v") in (0, False):
                rep.count("paths on which no rebuild is requested")
                cs = V.conds(i, asserts=False)
                if any(is_atom_true(c) for c in cs):
                    continue
                old = any(cond_some(V, c, lambda x: x and x[0] == "fld" and x[2] == "param_modamt") for c in cs)
                new = any(cond_some(V, c, is_arg(3)) for c in cs)
                if not (old and new):
                    rep.violate("mod:rebuild", "set_param_modamt tells its caller that no rebuild is necessary although the modulation was not present before or is removed now: the change never reaches the audio thread", body.where(i))
    # case analysis: removed / added
    fl = Flow(body)
    is_reg = lambda x: x and x[0] == "fld" and x[2] == "param_modamt"
    atom = {(i, j) for i, b in enumerate(body.blocks) if b["t"]["k"] == "switch" and not b["cl"] for j in {x for _, x in b["t"]["v"]} | {b["t"]["o"]}
            if is_atom_edge(V, body, i, j)}
    for name, new, old in (("removed", 0, 1), ("added", 1, 0)):
        cut = set(atom)
        for i, b in enumerate(body.blocks):
            t = b["t"]
            if b["cl"] or t["k"] != "switch":
                continue
            e = V.op(t["d"])
            for val, j in [(x, y) for x, y in t["v"]] + [(None, t["o"])]:
                c = (e, (val,) if val is not None else ("not", tuple(x for x, _ in t["v"])))
                r = option_says(V, c, is_reg)
                if r is not None and r != old:
                    cut.add((i, j))
        seen = fl.run([(0, {(3, ()): ("v", new)})], avoid_edges=cut)
        rep.count("modulation cases")
        for r in body.returns():
            for fs in seen.get(r, ()):
                st = dict(fs)
                for s in body.blocks[r]["s"]:
                    fl.stmt(st, s)
                f = st.get((0, ()))
                foreign = f and f[0] == "is" and f[1][0] != 3 and not any(is_reg(x) or x == ("arg", 3) for x in deep_walk(V, V.place([f[1][0], []])))
                if f == ("k", 0) or foreign:
                    rep.violate("mod:rebuild-" + name, "set_param_modamt does not always tell its caller that a rebuild is necessary when a modulation is %s" % name, F.fn_loc(fid))
    ps = pushes(body, V, "ModamtUpdate")
    if not ps:
        rep.violate("mod:send", "set_param_modamt never sends a changed amount to the audio thread", F.fn_loc(fid))
    for i, fs in ps:
        rep.count("update messages")
        if not plain(V, fs.get("modamt", ("?",)), is_arg(3)):
            rep.violate("mod:msg-value", "the ModamtUpdate message carries another amount than the one given", body.where(i))
    # the matrix rebuilds when asked to
    mf = "matrix::Matrix::set_param_modamt"
    mb = flat_or_miss(F, rep, mf, stop=lambda p: p == fid or p.startswith(CONF))
    if mb is None:
        return
    MV = Val(mb)
    ups = [i for i, t in mb.calls() if F.callee(t) == CONF + "upload_prog"]
    n = 0
    for i, b in enumerate(mb.blocks):
        t = b["t"]
        if b["cl"] or t["k"] != "switch":
            continue
        e = MV.op(t["d"])
        neg = False
        while e[0] == "un" and e[1] == "Not":
            e = e[2]
            neg = not neg
        if e[0] == "call" and F_callee(e) == fid:
            n += 1
            want = 0 if neg else 1
            s = dict((v, x) for v, x in t["v"]).get(want, t["o"])
            reg = mb.reachable(s)
            if not any(u in reg for u in ups):
                rep.violate("mod:sync", "Matrix::set_param_modamt does not upload a new program when the configurator asks for it", mb.where(i))
            else:
                bad = path_without(mb, MV, s, ups, contra_edges(mb, MV, e, 1))
                if bad is not None:
                    rep.violate("mod:sync-path", "Matrix::set_param_modamt reports success without having uploaded the new program on some path", mb.where(bad))
    if n == 0 and not ups:
        rep.violate("mod:sync", "Matrix::set_param_modamt ignores that the graph needs to be rebuilt", F.fn_loc(mf))
    rep.count("rebuild requests honoured", n)


def F_callee(e):
    return strip_gen(e[1])


def contra_edges(body, V, e, want):
    """edges taken when the (single) value e differs from `want`"""
    out = set()
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"] or t["k"] != "switch":
            continue
        x, neg = V.op(t["d"]), False
        while x[0] == "un" and x[1] == "Not":
            x, neg = x[2], not neg
        if x == e:
            tm = dict((v, s) for v, s in t["v"])
            out.add((i, tm.get(want if neg else 1 - want, t["o"])))
    return out


def path_without(body, V, start, ups, cut=()):
    """an Ok-return reachable from start without passing an upload"""
    r = body.reachable(start, avoid=set(ups), avoid_edges=cut)
    for i in r:
        for s in body.blocks[i]["s"]:
            if s[0] == "=" and s[1][0] == 0 and s[2][0] == "agg" and s[2][1][0] == "adt" and len(s[2][1]) > 3 and s[2][1][3] == "Ok":
                if set(body.returns()) & body.reachable(i, avoid=set(ups), avoid_edges=cut):
                    return i
    return None


def is_atom_edge(V, body, i, j):
    t = body.blocks[i]["t"]
    e = V.op(t["d"])
    for val, k in [(x, y) for x, y in t["v"]] + [(None, t["o"])]:
        if k == j and is_atom_true((e, (val,) if val is not None else ("not", tuple(x for x, _ in t["v"])))):
            return True
    return False


def option_says(V, c, src):
    """1 / 0: the condition says that the option derived from src is Some / None"""
    e, v = c
    neg = False
    if e[0] == "discr":
        if not any(src(x) for x in deep_walk(V, e)):
            return None
        return 1 if v in ((1,), ("not", (0,))) else 0 if v in ((0,), ("not", (1,))) else None
    while e[0] == "un" and e[1] == "Not":
        e = e[2]
        neg = not neg
    if e[0] == "call" and last(e[1]) in ("is_some", "is_none") and any(src(x) for x in deep_walk(V, e)):
        tr = (v in ((1,), ("not", (0,)))) != neg
        return int(tr if last(e[1]) == "is_some" else not tr)
    return None


def is_atom_true(c):
    e, v = c
    neg = False
    while e[0] == "un" and e[1] == "Not":
        e = e[2]
        neg = not neg
    if e[0] == "call" and last(e[1]) == "is_atom":
        tr = v == (1,) or v == ("not", (0,))
        return tr != neg
    return False


def cond_some(V, c, src):
    """the condition says that the option derived from src is Some"""
    e, v = c
    if e[0] == "discr":
        if any(src(x) for x in deep_walk(V, e)):
            return v == (1,) or v == ("not", (0,))
        return False
    neg = False
    while e[0] == "un" and e[1] == "Not":
        e = e[2]
        neg = not neg
    if e[0] == "call" and last(e[1]) in ("is_some", "is_none") and any(src(x) for x in deep_walk(V, e)):
        tr = (v == (1,) or v == ("not", (0,))) != neg
        return tr if last(e[1]) == "is_some" else not tr
    # a computed comparison of both: not judged
    if e[0] == "bin" and any(src(x) for x in deep_walk(V, e)):
        return True
    if e[0] == "var" and any(src(x) for x in deep_walk(V, e)):
        return True
    return False


def loop_over(V, e, field):
    return any(x and x[0] == "fld" and x[2] == field and x[1] in (("deref", ("arg", 1)), ("arg", 1)) for x in deep_walk(V, e))


def frontend_upload(F, rep):
    fid = CONF + "upload_prog"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith("nodes::node_prog::ModOp"))
    if body is None:
        return
    V = Val(body)
    got = {}
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        st = []
        for s in b["s"]:
            if s[0] == "=" and s[1][1]:
                st.append((V.place(s[1]), V.rv(s[2], 0)))
        t = b["t"]
        if t["k"] == "call":
            if t["d"][1]:
                st.append((V.place(t["d"]), V.call(i, t, 0)))
            if callname(t).endswith("ModOp::set_amt"):
                st.append((V.op(t["a"][0]), V.op(t["a"][1])))
            if last(callname(t)) == "replace" and len(t["a"]) == 2:
                st.append((V.op(t["a"][0]), V.op(t["a"][1])))
        for pl, e in st:
            for f, reg in (("params", "params"), ("atoms", "atoms"), ("modops", "params")):
                if not any(x and x[0] == "fld" and x[2] == f and prog_root(V, x[1]) for x in walk(pl)):
                    continue
                if f != "modops" and not any(x and x[0] == "idx" for x in walk(pl)):
                    continue
                if not loop_over(V, e, reg) and not loop_over(V, pl, reg):
                    continue
                cs = [c for c in V.conds(i, asserts=False) if not structural(c)]
                got.setdefault(f, []).append((i, cs, e))
    # closures over the registry (for_each) also end up here: spliced
    for f, what in (("params", "parameter values"), ("atoms", "settings"), ("modops", "modulation amounts")):
        rep.count("copied program vectors")
        if f not in got:
            rep.violate("upload:" + f, "upload_prog does not copy the %s into the new program" % what, F.fn_loc(fid))
        elif all(cs for _, cs, _ in got[f]):
            rep.violate("upload-cond:" + f, "upload_prog copies the %s only under a condition" % what, body.where(got[f][0][0]))
    for i, t in body.calls():
        n = last(callname(t) or trait_call(t))
        if n in PARTIAL and t["a"] and (loop_over(V, V.op(t["a"][0]), "params") or loop_over(V, V.op(t["a"][0]), "atoms")):
            if n in ("filter", "filter_map", "find"):
                continue
            rep.violate("upload-part", "upload_prog copies only a part of the registered values (%s)" % n, body.where(i))
    ps = [i for i, _ in pushes(body, V, "NewProg")]
    if not ps or must_pass(body, 0, ps) is not None:
        rep.violate("upload:send", "there is a path through upload_prog that does not send the program", F.fn_loc(fid))
    for i, fs in pushes(body, V, "NewProg"):
        # values are copied before the program is sent
        for f in got:
            if all(body.dominates(i, j) for j, _, _ in got[f]):
                rep.violate("upload:late:" + f, "upload_prog copies %s after sending the program" % f, body.where(i))
    # registry -> active entries
    rb = CONF + "rebuild_node_ports"
    body = flat_or_miss(F, rep, rb, stop=lambda p: p.startswith("dsp::"))
    if body is None:
        return
    V = Val(body)
    for adt, reg, extra in (("nodes::node_conf::NodeInputParam", "param_values", "param_modamt"), ("nodes::node_conf::NodeInputAtom", "atom_values", None)):
        sites = []
        for i, b in enumerate(body.blocks):
            if b["cl"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == adt:
                    names = [f[0] for f in F.adts[adt]["variants"][0]["fields"]]
                    sites.append((i, dict(zip(names, [V.op(o) for o in s[2][2]]))))
        if adt not in F.adts:
            continue
        rep.count("rebuilt registry entries", len(sites))
        if not sites:
            rep.violate("rebuild:" + adt, "rebuild_node_ports does not create %s entries any more" % last(adt), F.fn_loc(rb))
        for i, fs in sites:
            if "value" in fs and not any(x and x[0] == "fld" and x[2] == reg for x in deep_walk(V, fs["value"])):
                rep.violate("rebuild-value:" + last(adt), "rebuild_node_ports ignores the value that was set for a %s (%s)" % (last(adt), reg), body.where(i))
            for f, r in (("value", reg), ("modamt", extra)):
                why = r and f in fs and reg_dropped(V, fs[f], r)
                if why:
                    rep.violate("rebuild-%s-cond:%s" % (f, last(adt)), "rebuild_node_ports does not take over every %s that was set for a %s (%s)" % (f, last(adt), why), body.where(i))
            if extra and "modamt" in fs and not any(x and x[0] == "fld" and x[2] == extra for x in deep_walk(V, fs["modamt"])):
                rep.violate("rebuild-modamt", "rebuild_node_ports ignores the registered modulation amounts", body.where(i))
    # nothing in there may drop registered values
    for i, t in body.calls():
        n = last(callname(t) or trait_call(t))
        if n in ("clear", "remove", "retain", "drain") and t["a"]:
            p = self_path(V.op(t["a"][0]))
            if p and p[:1] == ("arg1",) and p[-1] in ("param_values", "atom_values", "param_modamt"):
                rep.violate("rebuild-clear:" + p[-1], "rebuild_node_ports forgets the registered values (%s.%s)" % (p[-1], n), body.where(i))


def reg_dropped(V, e, reg):
    """the registered value is replaced or altered depending on itself"""
    isreg = lambda x: x and x[0] == "fld" and x[2] == reg
    for x in deep_walk(V, e):
        if x and x[0] == "call" and x[2] and any(isreg(y) for y in deep_walk(V, x[2][0])):
            n = last(x[1])
            if n in ("filter", "take_if", "min", "max", "clamp", "abs", "round", "floor", "fract", "trunc"):
                return n
    for x in deep_walk(V, e):
        if x and x[0] == "var":
            ds = V.var_defs(x[1]) or []
            if len(ds) < 2:
                continue
            for b, d in ds:
                if any(isreg(y) for y in deep_walk(V, d)):
                    continue
                for c, v, _ in dev_conds(V.b, V, b):
                    y = c
                    while y[0] == "un":
                        y = y[2]
                    if y[0] == "bin" and any(isreg(z) for z in deep_walk(V, y)):
                        return fmt(y)[:50]
    return None


def prog_root(V, e):
    """the program argument (argument 2), possibly moved into a local"""
    for x in deep_walk(V, e):
        if x == ("arg", 2):
            return True
    y = e
    while y[0] in ("ref", "deref"):
        y = y[1]
    return y[0] == "var"


def handler(body, V, F, rep, name):
    idx = variant_index(F, GM, name)
    ent = variant_entry(body, V, GM, idx) if idx is not None else []
    if not ent:
        rep.violate("anchor:" + name, "process_graph_updates does not handle GraphMessage::%s" % name)
    return ent


def range_edges(body, V, vecs, isidx):
    """CFG edges taken only when the message index is out of range"""
    out = set()
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"] or t["k"] != "switch":
            continue
        e = V.op(t["d"])
        neg = False
        while e[0] == "un" and e[1] == "Not":
            e = e[2]
            neg = not neg
        tm = dict((v, s) for v, s in t["v"])

        def tgt(v):
            return tm.get(v, t["o"])
        if e[0] == "bin" and e[1] in ("Lt", "Le", "Gt", "Ge") and (has_len(e[2]) or has_len(e[3])):
            a, c = e[2], e[3]
            ia, ic = any(isidx(x) for x in deep_walk(V, a)), any(isidx(x) for x in deep_walk(V, c))
            if ia and has_len(c):
                inr = e[1] in ("Lt", "Le")
            elif ic and has_len(a):
                inr = e[1] in ("Gt", "Ge")
            else:
                continue
            # exact form: only idx < len (and its mirror) may exclude nothing valid
            ok = (ia and e[1] in ("Lt", "Ge")) or (ic and e[1] in ("Gt", "Le"))
            if ok and plain(V, a if ia else c, isidx) and (c if ia else a)[0] == "len":
                if neg:
                    inr = not inr
                out.add((i, tgt(0 if inr else 1)))
        elif e[0] == "discr":
            x = e[1]
            while x[0] in ("ref", "deref"):
                x = x[1]
            if x[0] == "call" and last(x[1]) in ("get", "get_mut") and len(x[2]) > 1 and plain(V, x[2][1], isidx):
                out.add((i, tgt(0)))
        elif e[0] == "call" and last(e[1]) == "is_null":
            pass
    return out


def has_len(e):
    return any(x and x[0] == "len" for x in walk(e))


def backend_updates(F, rep):
    IF = init_fns(F)
    body = flat_or_miss(F, rep, PGU, stop=lambda p: p.startswith("log") or p.startswith(SM + "::") or p.startswith(PB + "::") or p in IF)
    if body is None:
        return
    V = Val(body)
    ends = set(body.returns()) | set(pop_blocks(body, V))
    msg = lambda f: (lambda e: e[0] == "fld" and str(e[2]) == f and e[1][0] == "dc")
    # ---- ParamUpdate
    for sw, s in handler(body, V, F, rep, "ParamUpdate"):
        rep.count("update handlers")
        reg = body.reachable(s, avoid=ends)
        sets, direct_p, direct_i = [], [], []
        assigned = []
        for i in sorted(reg):
            b = body.blocks[i]
            t = b["t"]
            if t["k"] == "call" and callname(t) == SM + "::set":
                rep.count("ramp starts")
                if not plain(V, V.op(t["a"][2]), msg("value")):
                    rep.violate("param:target", "a parameter update starts a ramp towards %s instead of the value sent" % fmt(V.op(t["a"][2]))[:60], body.where(i))
                sets.append(i)
            if t["k"] == "call" and callname(t) == PB + "::fill" and plain(V, V.op(t["a"][1]), msg("value")):
                direct_i.append(i)
            for st in b["s"]:
                if st[0] == "=" and st[1][1]:
                    pe = V.place(st[1])
                    ve = V.rv(st[2], 0)
                    sp = self_path(pe)
                    if sp and sp[:3] == ("arg1", "prog", "params") and plain(V, ve, msg("value")):
                        direct_p.append(i)
                    if plain(V, ve, msg("input_idx")) and any(x and x[0] == "fld" and x[2] == "smoothers" for x in deep_walk(V, pe)):
                        assigned.append(i)
                if st[0] == "=" and st[2][0] == "agg" and False:
                    pass
        oor = range_edges(body, V, ("params", "inp"), msg("input_idx"))
        done = set(sets) | set(direct_p)
        bad = must_pass(body, s, done, ends, avoid_edges=oor)
        if bad is not None:
            rep.violate("param:lost", "there is a path through the handling of a parameter update that neither starts a ramp nor sets the value, although the index is in range: the change is lost", body.where(s))
        if direct_p:
            tr = []
            for i in sorted(reg):
                t = body.blocks[i]["t"]
                for st in body.blocks[i]["s"]:
                    if st[0] == "=" and st[1][1] and plain(V, V.rv(st[2], 0), msg("value")) and any(x and x[0] == "fld" and x[2] == "target_refresh" for x in deep_walk(V, V.place(st[1]))):
                        tr.append(i)
                if t["k"] == "call" and last(callname(t)) in ("retain", "retain_mut", "remove", "swap_remove", "for_each", "push") and t["a"] and any(x and x[0] == "fld" and x[2] == "target_refresh" for x in deep_walk(V, V.op(t["a"][0]))):
                    tr.append(i)
            okc = False
            for i in tr:
                xs = [c for c in dev_conds(body, V, i) if not structural(c) and not eq_idx(V, c[:2], msg("input_idx")) and not ne_idx(V, c[0], msg("input_idx"))]
                base = [c[0] for k in direct_p for c in dev_conds(body, V, k)]
                if not [c for c in xs if c[0] not in base and not any(has_len(z) for z in walk(c[0]))]:
                    okc = True
            if not okc:
                rep.violate("param:stale-refresh", "a parameter update sets the value without replacing a pending refresh of the same input: the next block overwrites it with the old value", body.where(direct_p[0]))
            bad = must_pass(body, s, set(sets) | set(direct_i), ends, avoid_edges=oor)
            if bad is not None:
                rep.violate("param:input", "a parameter update sets the value without refreshing the input buffer the nodes read", body.where(direct_p[0]))
        # the smoother that is set belongs to the input
        for i in sets:
            eq = any(eq_idx(V, c, msg("input_idx")) for c in V.conds(i, asserts=False)) or found_by_idx(F, body, V, i, msg("input_idx"))
            own = [a for a in assigned if body.dominates(a, i) or must_pass(body, i, [a], ends) is None]
            if not eq and not own:
                rep.violate("param:smoother", "a parameter update starts a ramp on a smoother that is not assigned to its input", body.where(i))
    # ---- AtomUpdate
    for sw, s in handler(body, V, F, rep, "AtomUpdate"):
        rep.count("update handlers")
        reg = body.reachable(s, avoid=ends)
        st = []
        for i in sorted(reg):
            b = body.blocks[i]
            t = b["t"]
            if t["k"] == "call" and last(callname(t)) in ("replace", "swap") and len(t["a"]) == 2:
                dst = V.op(t["a"][0])
                if any(x and x[0] == "fld" and x[2] == "atoms" for x in deep_walk(V, dst)) and any(msg("value")(x) for x in deep_walk(V, V.op(t["a"][1]))):
                    st.append(i)
            for q in b["s"]:
                if q[0] == "=" and q[1][1]:
                    pe = V.place(q[1])
                    if any(x and x[0] == "fld" and x[2] == "atoms" for x in deep_walk(V, pe)) and plain(V, V.rv(q[2], 0), msg("value")):
                        st.append(i)
        oor = range_edges(body, V, ("atoms",), msg("at_idx"))
        if must_pass(body, s, st, ends, avoid_edges=oor) is not None:
            rep.violate("atom:lost", "there is a path through the handling of a setting update that does not store the value although the index is in range", body.where(s))
    # ---- ModamtUpdate
    for sw, s in handler(body, V, F, rep, "ModamtUpdate"):
        rep.count("update handlers")
        reg = body.reachable(s, avoid=ends)
        st = []
        for i in sorted(reg):
            for q in body.blocks[i]["s"]:
                if q[0] == "=" and q[1][1]:
                    pe = V.place(q[1])
                    if any(x and x[0] == "fld" and x[2] == "modops" for x in deep_walk(V, pe)) and plain(V, V.rv(q[2], 0), msg("modamt")):
                        st.append(i)
        oor = range_edges(body, V, ("modops",), msg("mod_idx"))
        if must_pass(body, s, st, ends, avoid_edges=oor) is not None:
            rep.violate("modamt:lost", "there is a path through the handling of a modulation amount update that does not apply it although the index is in range", body.where(s))
    # ---- NewProg
    if not IF:
        rep.violate("anchor:init", "no function of NodeProg fills the input buffers with the parameter values any more")
        return
    ini = [i for i, t in body.calls() if F.callee(t) in IF and self_path(V.op(t["a"][0])) == ("arg1", "prog")]
    for sw, s in handler(body, V, F, rep, "NewProg"):
        rep.count("update handlers")
        reg = body.reachable(s, avoid=ends)
        if must_pass(body, s, ini, ends) is not None:
            # initialised before it is installed?
            alt = [i for i, t in body.calls() if i in reg and F.callee(t) in IF]
            if not alt or must_pass(body, s, alt, ends) is not None:
                rep.violate("newprog:init", "a new program is installed without filling its inputs with the parameter values it carries", body.where(s))
        for i in sorted(reg):
            t = body.blocks[i]["t"]
            if t["k"] != "call":
                continue
            n = last(callname(t))
            if callname(t) == SM + "::stop" and not any(has_len(c[0]) for c in V.conds(i)):
                rep.violate("newprog:stop", "installing a new program stops running parameter ramps: the inputs keep a value in between", body.where(i))
            if n in ("clear", "truncate", "drain") and t["a"] and (self_path(V.op(t["a"][0])) or ("",))[-1] == "target_refresh":
                rep.violate("newprog:refresh", "installing a new program discards the pending refresh of finished ramps: the inputs keep a block of ramp values", body.where(i))
    rep.floor("update handlers", 4)


def eq_idx(V, c, isidx):
    e, v = c
    neg = False
    while e[0] == "un" and e[1] == "Not":
        e = e[2]
        neg = not neg
    if e[0] == "bin" and e[1] in ("Eq", "Ne"):
        tr = (v == (1,) or v == ("not", (0,))) != neg
        if (e[1] == "Eq") == tr:
            return any(isidx(x) for x in deep_walk(V, e))
    if e[0] == "call" and last(e[1]) in ("eq", "ne"):
        return any(isidx(x) for x in deep_walk(V, e))
    return False


def ne_idx(V, e, isidx):
    while e[0] == "un":
        e = e[2]
    return (e[0] == "bin" and e[1] in ("Eq", "Ne") or e[0] == "call" and last(e[1]) in ("eq", "ne")) and any(isidx(x) for x in deep_walk(V, e))


def found_by_idx(F, body, V, i, isidx):
    """the smoother was found by find/position/filter with a closure comparing
    the index (captured)"""
    t = body.blocks[i]["t"]
    e = V.op(t["a"][0])
    for x in deep_walk(V, e):
        if x and x[0] == "call" and last(x[1]) in ("find", "position", "filter", "rposition"):
            for y in deep_walk(V, x):
                if y and y[0] == "agg" and y[1] and y[1][0] == "closure":
                    if any(isidx(z) for a in y[2] for z in deep_walk(V, a)):
                        return True
    return False


def smoothing(F, rep):
    # Smoother: a finished ramp delivered its target
    fid = SM + "::set"
    if fid in F.fns:
        b = flat(F, fid)
        V = Val(b)
        w = {}
        for i, j, p, rv in field_writes(b, V):
            if p[0] == "arg1" and rv is not None:
                w.setdefault(p[-1], []).append((i, V.rv(rv, 0)))
        rep.count("smoother methods")
        if must_pass(b, 0, [i for i, e in w.get("target", []) if e == ("arg", 3)]) is not None:
            rep.violate("smoother:target", "Smoother::set does not always take over the target value", F.fn_loc(fid))
        if must_pass(b, 0, [i for i, e in w.get("done", []) if e[0] == "k" and not e[1]]) is not None:
            rep.violate("smoother:start", "Smoother::set does not always start the ramp", F.fn_loc(fid))
    else:
        rep.violate("anchor:" + fid, "Smoother::set is gone")
    fid = SM + "::next"
    if fid in F.fns:
        b = flat(F, fid)
        V = Val(b)
        rep.count("smoother methods")
        dn = [i for i, j, p, rv in field_writes(b, V) if p == ("arg1", "done") and rv is not None and V.rv(rv, 0)[0] == "k" and V.rv(rv, 0)[1]]
        if not dn:
            rep.violate("smoother:end", "Smoother::next never finishes a ramp", F.fn_loc(fid))
        rt = [(i, V.rv(s[2], 0)) for i, blk in enumerate(b.blocks) if not blk["cl"] for s in blk["s"] if s[0] == "=" and s[1] == [0, []]]
        for d in dn:
            reach = b.reachable(d)
            for i, e in rt:
                if i in reach and not any(x and x[0] == "fld" and x[2] == "target" for x in deep_walk(V, e)):
                    # value was set to the target before?
                    if any(p == ("arg1", "value") and rv is not None and self_path(V.rv(rv, 0)) == ("arg1", "target") and (k in reach or b.dominates(k, d)) for k, j, p, rv in field_writes(b, V)):
                        continue
                    rep.violate("smoother:last", "Smoother::next can finish a ramp without delivering its target value", b.where(i))
    else:
        rep.violate("anchor:" + fid, "Smoother::next is gone")
    # process: ramps are written, kept and refreshed before the nodes run
    body = flat_or_miss(F, rep, EXE + "process", stop=lambda p: p.startswith("log") or p.startswith(SM + "::") or p.startswith(PB + "::") or p.startswith("dsp::Node::"))
    if body is None:
        return
    V = Val(body)
    nx = [i for i, t in body.calls() if callname(t) == SM + "::next"]
    if not nx:
        rep.violate("ramp:run", "NodeExecutor::process does not run the parameter ramps", F.fn_loc(EXE + "process"))
        return
    isn = lambda x: x and x[0] == "call" and x[1] and strip_gen(x[1]) == SM + "::next"
    wr = [i for i, t in body.calls() if callname(t) in (PB + "::write", PB + "::fill") and any(isn(x) for x in deep_walk(V, V.op(t["a"][-1])))]
    rep.count("ramp writes", len(wr))
    if not any(any(x and x[0] == "fld" and x[2] == "inp" for x in deep_walk(V, V.op(body.blocks[i]["t"]["a"][0]))) for i in wr):
        rep.violate("ramp:write", "the ramp is not written to the input buffers of the program", body.where(nx[0]))
    keep = [i for i, j, p, rv in field_writes(body, V) if p[:3] == ("arg1", "prog", "params") and rv is not None and any(isn(x) for x in deep_walk(V, V.rv(rv, 0)))]
    rep.count("kept ramp values", len(keep))
    if not keep:
        rep.violate("ramp:keep", "the value a ramp reached is not kept in the program's parameters", body.where(nx[0]))
    psh = [i for i, t in body.calls() if last(callname(t)) == "push" and "target_refresh" in rooted_fields(V, V.op(t["a"][0])) and any(isn(x) for x in deep_walk(V, V.op(t["a"][1])))]
    if not psh:
        rep.violate("ramp:refresh", "the input buffer of a parameter is not refreshed after its ramp: it keeps the ramp of the last block", body.where(nx[0]))
    fil = [i for i, t in body.calls() if callname(t) == PB + "::fill" and any(x and x[0] == "fld" and x[2] == "target_refresh" for x in deep_walk(V, V.op(t["a"][1])))]
    if psh and not fil:
        rep.violate("ramp:refresh-fill", "pending refreshes are never written to the input buffers", body.where(psh[0]))
    loops = body.loops()
    for i in fil:
        rep.count("refresh writes")
        if not any(i in bl for bl in loops.values()):
            rep.violate("ramp:refresh-one", "at most one of the pending refreshes is written per block: the inputs of the others keep the ramp of the last block", body.where(i))
        if i in body.reachable(nx[0]) and not any(body.dominates(i, k) for k in nx) and not any(i in bl for h, bl in loops.items() if nx[0] in bl):
            rep.violate("ramp:refresh-late", "pending refreshes are written after the ramps of the block: they overwrite them", body.where(i))
        for c in dev_conds(body, V, i):
            if not structural(c) and not ramp_cond(c) and not any(has_len(z) for z in walk(c[0])):
                rep.violate("ramp:refresh-cond", "a pending refresh is written only under a condition (%s)" % fmt(c[0])[:60], body.where(i))
    # what a ramp reached is kept and refreshed, whatever the block looked like
    for i in keep + psh:
        for c in dev_conds(body, V, i):
            if not structural(c) and (not ramp_cond(c) or block_len_cond(V, c[0])) and not any(x and x[0] == "fld" and x[2] in ("done", "target") for x in deep_walk(V, c[0])):
                rep.violate("ramp:keep-cond", "the value a ramp reached is kept or refreshed only under a condition (%s)" % fmt(c[0])[:60], body.where(i))
    # the value a running ramp reached counts, too
    for n in nx:
        for i in keep + psh:
            hs = set(h for h, bl in body.loops().items() if i in bl)
            aft = body.reachable(body.succ(n), avoid=hs)
            if i not in aft:
                continue
            for e, v, b in dev_conds(body, V, i):
                e, neg = unnot(e)
                if b in aft and e[0] == "call" and last(e[1]) == "is_done":
                    # (the condition is the one that leaves the site out)
                    yes = (v == (0,) or v == ("not", (1,))) != neg
                    if not yes or i in keep:
                        rep.violate("ramp:keep-done", "the value a ramp reached is %s only while the ramp %s" % ("kept" if i in keep else "refreshed", "has ended" if yes else "is running"), body.where(i))
    # only parameters the program does not have are left out
    for i in nx:
        for c in V.conds(i, asserts=False):
            e, neg = unnot(c[0])
            if e[0] != "bin" or e[1] not in ("Lt", "Le", "Gt", "Ge"):
                continue
            sides = []
            for x in e[2:4]:
                ls = [y for y in walk(x) if y and (y[0] == "len" or y[0] == "call" and last(y[1]) == "len")]
                sides.append((x, ls))
            if bool(sides[0][1]) == bool(sides[1][1]):
                continue
            if any(y and y[0] == "bin" and y[1] in ("Div", "Mul", "Rem", "Shl", "Shr") for s in sides if s[1] for y in walk(s[0])) or any(len(set(map(norm, s[1]))) > 1 for s in sides):
                rep.violate("ramp:bound", "ramps of parameters the program has are left out (%s)" % fmt(e)[:70], body.where(i))
                continue
            a, b = (e[2], e[3]) if sides[1][1] else (e[3], e[2])
            op = e[1] if sides[1][1] else {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[e[1]]
            rep.count("ramp bounds")
            k = lin(V, a).get(1, 0) - lin(V, b).get(1, 0)
            if k > (0 if op in ("Lt", "Ge") else 1):
                rep.violate("ramp:bound", "ramps of parameters the program has are left out (%s)" % fmt(e)[:70], body.where(i))
    pr = [i for i, t in body.calls() if callname(t) == "dsp::Node::process"]
    for i in pr:
        for n in nx:
            if n in body.reachable(body.succ(i)) and not any(body.dominates(k, i) for k in loops_of(body, n)):
                rep.violate("ramp:order", "nodes are processed before the parameter ramps of the block are written", body.where(i))
    for i in nx:
        cs = [c for c in V.conds(i, asserts=False) if not structural(c) and not ramp_cond(c)]
        if cs:
            rep.violate("ramp:cond", "the parameter ramps run only under a condition (%s)" % fmt(cs[0][0])[:60], body.where(i))


def loops_of(body, n):
    return [h for h, blks in body.loops().items() if n in blks]


def block_len_cond(V, e):
    """the length of the block compared with a constant"""
    while e[0] == "un":
        e = e[2]
    return e[0] == "bin" and any(x[0] == "k" and x[1] not in (0, None) for x in (e[2], e[3])) and any(x and x[0] == "call" and last(x[1]) == "nframes" for x in walk(e))


def ramp_cond(c):
    e = c[0]
    for x in walk(e):
        if x and x[0] == "len":
            return True
        if x and x[0] == "call" and last(x[1]) in ("is_done", "is_null", "next", "nframes"):
            return True
    return False
