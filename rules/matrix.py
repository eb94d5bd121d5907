"""P10 (rejected grid changes), P11 (grid -> program), P12 (clear/load), P22
(hexagonal geometry), P24 (change notification)."""
import re
from hx.report import Report
from hx.flow import Flow, TooMany
from .common import *
from .srate import rooted_fields, structural
from .engine import plain, is_arg, PARTIAL

M = "matrix::Matrix::"
CELL = "matrix::Cell"
EDGE = "matrix::Edge"
ORD = "nodes::node_graph_ordering::NodeGraphOrdering::"
FN_TR = mir.FN_TRAITS
GROW = {"push", "push_back", "insert", "extend", "append", "clear", "truncate", "retain", "remove", "pop", "clone_from", "copy_from_slice", "clone_from_slice", "swap", "replace", "take", "fill", "drain", "resize", "sort", "dedup", "swap_remove", "iter_mut", "get_mut", "reverse"}
DERIVED = ("edges", "assigned_inputs", "graph_ordering")


def calls_of(body, *names):
    out = []
    for i, t in body.calls():
        n = callname(t)
        if any(n == x or (x.startswith("~") and last(n) == x[1:]) for x in names):
            out.append(i)
    return out


def user_calls(body, V, arg=2):
    out = []
    for i, t in body.calls():
        if "f" in t and t["f"].get("trait") in FN_TR and t["a"]:
            if any(x == ("arg", arg) for x in deep_walk(V, V.op(t["a"][0]))):
                out.append(i)
    return out


def changes(body, V, field):
    """blocks that change self.<field> (assignment, element store, mutating call)"""
    out = []
    for i, j, p, rv in field_writes(body, V):
        if p[:2] == ("arg1", field):
            out.append(i)
    for i, t in body.calls():
        if not t["a"]:
            continue
        n = last(callname(t) or trait_call(t))
        loc = body.facts.callee(t)
        for k, a in enumerate(t["a"][: 2 if n == "swap" else 1]):
            p = self_path(V.op(a))
            if p and p[:2] == ("arg1", field):
                if n in GROW or (loc and mut_self(body.facts, loc)):
                    out.append(i)
    return sorted(set(out))


def mut_self(F, fid):
    ls = F.fns[fid]["locals"]
    return len(ls) > 1 and ls[1][0].startswith("&mut")


def forced(fl, blk, val):
    """states after a call whose result is assumed to be val ('v'|'k', n)"""
    t = fl.b.blocks[blk]["t"]
    k = fl.key(t["d"])
    out = []
    for j, st in fl.after(blk):
        if k:
            st = dict(st)
            fl.kill(st, k)
            st[k] = val
        out.append((j, st))
    return out


def leaves(fl, starts, avoid=(), avoid_edges=()):
    """set of possible results of the returns reached (None = unknown)"""
    return set(r for _, r in fl.returns(fl.run(starts, avoid=avoid, avoid_edges=avoid_edges)))


def none_edges(body, V, field):
    """edges taken when the option self.<field> is empty"""
    out = set()
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"] or t["k"] != "switch":
            continue
        e = V.op(t["d"])
        tm = dict((v, s) for v, s in t["v"])
        if e[0] == "discr" and field in rooted_fields(V, e[1]) and not any(x and x[0] == "call" and last(x[1]) not in ("take", "as_ref", "as_mut", "as_deref", "clone", "branch", "replace", "as_deref_mut") for x in walk(e[1])):
            br = any(x and x[0] == "call" and last(x[1]) == "branch" for x in walk(e[1]))
            out.add((i, tm.get(1 if br else 0, t["o"])))
        else:
            neg = False
            while e[0] == "un" and e[1] == "Not":
                e = e[2]
                neg = not neg
            if e[0] == "call" and last(e[1]) in ("is_some", "is_none") and field in rooted_fields(V, e):
                v = 1 if (last(e[1]) == "is_none") != neg else 0
                out.add((i, tm.get(v, t["o"])))
    return out


def adaptors(V, e):
    """names of the iterator adaptors an iterated expression went through"""
    out = []
    for x in deep_walk(V, e):
        if x and x[0] == "call":
            out.append(last(x[1]))
        if x and x[0] == "idx" and x[2][0] == "agg" and "Range" in str(x[2][1]) and "RangeFull" not in str(x[2][1]):
            out.append("[range]")
    return out


def partial(V, e):
    return [a for a in adaptors(V, e) if a in PARTIAL or a == "[range]"]


def is_eq(p):
    return "as std::cmp::PartialEq" in p


def truth(c):
    """(expression, whether it is true) of a bool condition"""
    e, neg = unnot(c[0])
    return e, (c[1] == (1,) or c[1] == ("not", (0,))) != neg


def nop_cond(V, c):
    """a comparison of a node id with a constant one, an emptiness test"""
    e, _ = unnot(c[0])
    if e[0] == "call":
        if last(e[1]) == "is_empty":
            return True
        if last(e[1]) in ("eq", "ne") and "NodeId" in e[1]:
            return any(const_id(x) for x in e[2])
        return False
    if e[0] == "discr":
        return enum_is(e[2], "dsp::NodeId")
    return False


def const_id(e):
    e = strip(e)
    return e[0] in ("prom", "item", "kz", "k") or (e[0] == "agg" and all(const_id(x) for x in e[2]))


def size_cond(V, c):
    """loop bound w/h/len comparison"""
    e, _ = unnot(c[0])
    if e[0] != "bin" or e[1] not in ("Lt", "Le", "Gt", "Ge", "Ne"):
        return False
    for x in (strip(e[2]), strip(e[3])):
        if x[0] == "len" or (x[0] == "fld" and x[2] in ("w", "h")):
            return True
    return False


# ---------------------------------------------------------------- P10
def p10(F, tier):
    rep = Report("P10", "other")
    rep.rule("change_matrix and change_matrix_err save the grid on every path before they run the caller's function, check the result on every path after it, put the saved grid back and rebuild the wiring data on every path that returns an error, and on no path that returns Ok")
    rep.rule("Matrix::check never changes a cell, rebuilds the wiring data first, returns Ok only when the ordering succeeded, and returns an error as soon as two edges lead to the same node input; every edge takes part")
    rep.rule("place_multiple writes a cell only when its position exists and is empty, otherwise it returns an error; it returns Ok only after a successful check")
    for name in ("change_matrix", "change_matrix_err"):
        change(F, rep, name)
    check(F, rep)
    place_multiple(F, rep)
    cells_private(F, rep)
    return rep


def change(F, rep, name):
    body = flat_or_miss(F, rep, M + name, stop=lambda p: p == M + "check")
    if body is None:
        return
    V = Val(body)
    fl = Flow(body)
    fc = user_calls(body, V)
    ck = calls_of(body, M + "check")
    if not fc:
        rep.violate("anchor:f:" + name, "%s never runs the function it is given" % name, F.fn_loc(M + name))
        return
    saves = []
    for i, t in body.calls():
        if last(callname(t) or trait_call(t)) in ("clone", "to_vec", "to_owned", "clone_from", "extend_from_slice", "replace", "take"):
            if any(self_path(V.op(a)) == ("arg1", "matrix") for a in t["a"]):
                saves.append(i)
    rep.count("guarded change functions")
    for f in fc:
        if must_pass(body, 0, saves, [f]) is not None:
            rep.violate("nosave:" + name, "%s runs the caller's function without having saved the grid on some path: a rejected change restores an outdated grid or nothing" % name, body.where(f))
    R = []
    for i in changes(body, V, "matrix"):
        if not any(i in body.reachable(body.succ(f)) for f in fc):
            continue
        R.append(i)
    for f in fc:
        after = fl.after(f)
        # no return that may be an error without a restoration
        bad = leaves(fl, after, avoid=R, avoid_edges=none_edges(body, V, 'saved_matrix'))
        if not ck:
            rep.violate("nocheck:" + name, "%s does not check the changed grid" % name, F.fn_loc(M + name))
        if bad - {0}:
            rep.violate("norestore:" + name, "%s can return an error without having put the saved grid back" % name, body.where(f))
        if 0 in leaves(fl, after, avoid=ck):
            rep.violate("nocheck:" + name, "%s can return Ok without having checked the changed grid" % name, body.where(f))
        if name.endswith("_err"):
            if 0 in leaves(fl, forced(fl, f, ("v", 1))):
                rep.violate("lost-err:" + name, "%s can return Ok although the caller's function failed" % name, body.where(f))
    for c in ck:
        rep.count("checks of a changed grid")
        if 0 in leaves(fl, forced(fl, c, ("v", 1))):
            rep.violate("lost-err:" + name, "%s can return Ok although the check failed" % name, body.where(c))
        if leaves(fl, forced(fl, c, ("v", 0))) - {0, None}:
            rep.violate("false-err:" + name, "%s can return an error although the check succeeded" % name, body.where(c))
    for r in R:
        if 0 in leaves(fl, fl.at(r)):
            rep.violate("undo:" + name, "%s undoes the change on a path that returns Ok" % name, body.where(r))
        for d in DERIVED:
            ch = [x for x in changes(body, V, d) if x != r]
            # only what comes after the restoration counts
            if must_pass(body, r, ch) is not None:
                rep.violate("stale:%s:%s" % (d, name), "%s puts the saved grid back but leaves '%s' describing the rejected one" % (name, d), body.where(r))
        rep.count("restorations")
    restored_value(F, rep)


def restored_value(F, rep):
    body = flat_or_miss(F, rep, M + "restore_matrix")
    if body is None:
        return
    V = Val(body)
    ok = False
    for i, j, p, rv in field_writes(body, V):
        if p == ("arg1", "matrix") and rv is not None:
            e = V.rv(rv, 0)
            if "saved_matrix" in rooted_fields(V, e):
                ok = True
                extra = [a for a in adaptors(V, e) if a not in ("take", "unwrap", "clone", "replace", "as_ref", "expect", "branch", "cloned", "unwrap_unchecked")]
                if extra:
                    rep.violate("restored:part", "restore_matrix puts back a modified copy (%s)" % extra[0], body.where(i))
            else:
                rep.violate("restored:other", "restore_matrix writes something else than the saved grid", body.where(i))
    for i, t in body.calls():
        if last(callname(t)) in ("swap", "clone_from", "copy_from_slice", "clone_from_slice") and any(self_path(V.op(a)) == ("arg1", "matrix") for a in t["a"]):
            ok = True
    if not ok:
        rep.violate("restored:none", "restore_matrix does not write the grid", F.fn_loc(M + "restore_matrix"))


MAPTEST = {"get": "v", "contains_key": "k", "contains": "k", "insert": "i", "get_mut": "v"}


def check(F, rep):
    fid = M + "check"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith("nodes::"))
    if body is None:
        return
    V = Val(body)
    fl = Flow(body)
    if changes(body, V, "matrix"):
        rep.violate("check:writes", "Matrix::check changes cells of the grid", F.fn_loc(fid))
    O = calls_of(body, ORD + "calculate_order")
    for d in DERIVED:
        ch = clears(body, V, d)
        if must_pass(body, 0, ch, O or None) is not None:
            rep.violate("check:stale:" + d, "Matrix::check judges '%s' of an earlier layout" % d, F.fn_loc(fid))
    if 0 in leaves(fl, [(0, {})], avoid=O):
        rep.violate("check:order", "Matrix::check can return Ok without having ordered the graph (cycles stay undetected)", F.fn_loc(fid))
    for o in O:
        rep.count("cycle tests")
        if leaves(fl, forced(fl, o, ("k", 0))) - {1}:
            rep.violate("check:cycle", "Matrix::check can return Ok although the graph could not be ordered", body.where(o))
        if leaves(fl, forced(fl, o, ("k", 1))) - {0, None} and not dup_blocks(body):
            rep.violate("check:false", "Matrix::check can return an error although the graph could be ordered", body.where(o))
    D = dup_blocks(body)
    if not D:
        rep.violate("check:dup", "Matrix::check never reports MatrixError::DuplicatedInput", F.fn_loc(fid))
    for d in D:
        if leaves(fl, fl.at(d)) - {1}:
            rep.violate("check:dup-lost", "Matrix::check finds a duplicated input but can still return Ok", body.where(d))
    # look ups of an edge's destination
    looks = []
    for i, t in body.calls():
        n = last(callname(t) or trait_call(t))
        if n in MAPTEST and len(t["a"]) > 1 and not self_path_is_self(V, t["a"][0]):
            fs = edge_fields(V, V.op(t["a"][1]))
            if fs:
                looks.append((i, n, fs))
    tests = [x for x in looks if x[1] != "insert"] or looks
    for i, n, fs in looks:
        rep.count("duplicate input lookups")
        if fs != {"to", "to_input"}:
            rep.violate("check:key", "Matrix::check looks for duplicated inputs by %s instead of the destination node and input" % "/".join(sorted(fs)), body.where(i))
        p = partial(V, V.op(body.blocks[i]["t"]["a"][1]))
        if p:
            rep.violate("check:part", "Matrix::check skips edges (%s) when looking for duplicated inputs" % p[0], body.where(i))
    for i, n, fs in tests:
        t = body.blocks[i]["t"]
        ty = body.locals[t["d"][0]][0]
        if n == "insert":
            found, new = (("k", 0), ("k", 1)) if ty == "bool" else (("v", 1), ("v", 0))
        else:
            found, new = (("k", 1), ("k", 0)) if ty == "bool" else (("v", 1), ("v", 0))
        seen = fl.run(forced(fl, i, found), stop_at=[i])
        if i in seen or any(r != 1 for _, r in fl.returns(seen)):
            rep.violate("check:dup-miss", "Matrix::check goes on although another edge already leads to the same input", body.where(i))
        if n != "insert":
            ins = [j for j, m, _ in looks if m == "insert"]
            seen = fl.run(forced(fl, i, new), avoid=ins, stop_at=[i])
            if i in seen:
                rep.violate("check:dup-note", "Matrix::check does not remember every edge's destination", body.where(i))
    if D and not looks:
        rep.note("duplicate input detection has an unknown shape; only its result handling is judged")
    rep.floor("cycle tests", 1)


def clears(body, V, field):
    out = []
    for i, t in body.calls():
        if last(callname(t) or trait_call(t)) in ("clear", "new", "default", "drain", "take") and t["a"]:
            p = self_path(V.op(t["a"][0]))
            if p == ("arg1", field):
                out.append(i)
    for i, j, p, rv in field_writes(body, V):
        if p == ("arg1", field):
            out.append(i)
    return out


def self_path_is_self(V, o):
    p = self_path(V.op(o))
    return bool(p) and p[0] == "arg1"


def dup_blocks(body):
    out = []
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and len(s[2][1]) > 3 and s[2][1][3] == "DuplicatedInput":
                out.append(i)
    return out


def edge_fields(V, e):
    return set(str(x[2]) for x in walk(e) if x and x[0] == "fld" and str(x[2]) in ("from", "from_out", "to", "to_input"))


def place_multiple(F, rep):
    fid = M + "place_multiple"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p in (M + "check", M + "get", M + "get_copy", CELL + "::is_empty", M + "place") or is_eq(p))
    if body is None:
        return
    V = Val(body)
    fl = Flow(body)
    ck = calls_of(body, M + "check")
    W = calls_of(body, M + "place") + changes(body, V, "matrix")
    if 0 in leaves(fl, [(0, {})], avoid=ck):
        rep.violate("multi:nocheck", "place_multiple can return Ok without having checked the grid", F.fn_loc(fid))
    for c in ck:
        if 0 in leaves(fl, forced(fl, c, ("v", 1))):
            rep.violate("multi:lost", "place_multiple can return Ok although the check failed", body.where(c))
    nx = [i for i, t in body.calls() if trait_call(t) == "std::iter::Iterator::next"]
    tests = [(i, ("k", 0)) for i in calls_of(body, CELL + "::is_empty")] + [(i, ("v", 0)) for i in calls_of(body, M + "get", M + "get_copy")]
    T = [i for i, _ in tests]
    for w in W:
        rep.count("cells placed")
        if not any(body.dominates(t, w) for t in calls_of(body, CELL + "::is_empty")) and not any(nop_cond(V, c) for c in V.conds(w)):
            rep.violate("multi:occupied", "place_multiple overwrites a cell without testing that it is empty", body.where(w))
        if must_pass(body, 0, T, [w]) is not None:
            rep.violate("multi:range", "place_multiple places a cell without looking at its position", body.where(w))
    for i, v in tests:
        if i not in body.reachable(0):
            continue
        seen = fl.run(forced(fl, i, v), stop_at=nx)
        if any(w in seen for w in W):
            rep.violate("multi:over", "place_multiple writes to an occupied or missing position", body.where(i))
        if any(r != 1 for _, r in fl.returns(seen)) or any(x in seen for x in nx):
            rep.violate("multi:silent", "place_multiple goes on or returns Ok although a position is occupied or missing", body.where(i))
    for i, t in body.calls():
        if i in W and callname(t) == M + "place":
            p = partial(V, V.op(t["a"][-1]))
            a = [V.op(x) for x in t["a"]]
            gets = [[V.op(x) for x in body.blocks[g]["t"]["a"]] for g in calls_of(body, M + "get", M + "get_copy") if body.dominates(g, i)]
            if gets and len(a) > 2 and not any(all(shape(V, g[k]) == shape(V, a[k]) for k in (1, 2)) for g in gets):
                rep.violate("multi:other", "place_multiple places a cell at another position than the one it looked at", body.where(i))
            if p:
                rep.violate("multi:part", "place_multiple leaves out cells (%s)" % p[0], body.where(i))
    rep.floor("cells placed", 1)


def shape(V, e):
    """coordinates and calculations an expression consists of"""
    e = deep_walk(V, e)
    out = set()
    for x in e:
        if x and x[0] == "fld" and str(x[2]) in ("x", "y"):
            out.add(str(x[2]))
        elif x and x[0] in ("bin", "ovf"):
            out.add(x[1])
        elif x and x[0] == "call" and last(strip_gen(x[1])) in ("min", "max", "clamp") or x and x[0] == "call" and last(strip_gen(x[1])).startswith(("saturating_", "wrapping_", "checked_")):
            out.add(last(strip_gen(x[1])))
    return out


def cells_private(F, rep):
    """only functions of Matrix change the grid, and outside of a handful of
    deliberate mutators none does"""
    for fid in F.fns:
        if not fid.startswith(M) or "{closure" in fid:
            continue
        b = F.body(fid)
        n = last(fid)
        if n.startswith(("get", "param_", "for_each", "to_repr", "size", "edge_label", "adjacent", "sync", "check", "build", "update", "create", "monitor", "save_")):
            V = Val(b)
            for i, j, p, rv in field_writes(b, V):
                if p[:2] == ("arg1", "matrix"):
                    rep.violate("mut:" + fid, "%s changes cells of the grid" % fid, b.where(i))


# ---------------------------------------------------------------- P11
NP_ = "nodes::node_prog::"
NC_ = "nodes::node_conf::"
INST = NC_ + "NodeInstance::"
DIRNAME = {"in1": "T", "in2": "TL", "in3": "BL"}


def p11(F, tier):
    rep = Report("P11", "other")
    rep.rule("Matrix::sync rebuilds the wiring data from the grid, creates missing nodes, and uploads a program only when the ordering of exactly these data succeeded; otherwise it returns an error and uploads nothing")
    rep.rule("every occupied cell becomes a graph node and every assigned input port facing an assigned output becomes exactly one edge, recorded in the edge list and in the ordering graph alike")
    rep.rule("the ordering emits a node only after all nodes that feed it, and reports success only when it emitted all of them; all ordered nodes are added to the program in that order before any edge is connected; all edges are connected with the indices of their own nodes and ports")
    rep.rule("the index ranges of the nodes' inputs, outputs, settings and modulators are handed out contiguously and without overlap, and the program's vectors have exactly their total length")
    sync(F, rep)
    collect(F, rep)
    ordering(F, rep)
    connect(F, rep)
    modroles(F, rep)
    assign(F, rep)
    ports(F, rep)
    from . import geom
    geom.offsets(F, rep)
    geom.neighbours(F, rep)
    rep.assume("a graph has at most 256 node instances (NodeOp::idx is a u8) and at most 64 distinct successors per node")
    return rep


def before(body, a, b):
    """can block a run after block b?"""
    return a in body.reachable(body.succ(b))


def sync(F, rep):
    fid = M + "sync"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith("nodes::") or p == M + "get_adjacent_output" or p == M + "monitor_cell" or is_eq(p))
    if body is None:
        return
    V = Val(body)
    fl = Flow(body)
    U = calls_of(body, CONF + "upload_prog")
    O = calls_of(body, ORD + "calculate_order")
    R = calls_of(body, CONF + "rebuild_node_ports")
    A = calls_of(body, CONF + "add_prog_node")
    X = calls_of(body, CONF + "set_prog_node_exec_connection")
    for n, l in (("upload_prog", U), ("calculate_order", O), ("rebuild_node_ports", R), ("add_prog_node", A), ("set_prog_node_exec_connection", X)):
        if not l:
            rep.violate("sync:no:" + n, "Matrix::sync never calls %s" % n, F.fn_loc(fid))
    if not (U and O and R):
        return
    seen = fl.run([(0, {})], avoid=O)
    if any(u in seen for u in U):
        rep.violate("sync:unordered", "Matrix::sync can upload a program without having ordered the graph", F.fn_loc(fid))
    for o in O:
        rep.count("orderings before an upload")
        seen = fl.run(forced(fl, o, ("k", 0)))
        if any(u in seen for u in U):
            rep.violate("sync:cyclic", "Matrix::sync uploads a program although the graph has a cycle", body.where(o))
        if any(r != 1 for _, r in fl.returns(seen)):
            rep.violate("sync:silent", "Matrix::sync does not return an error although the graph has a cycle", body.where(o))
        seen = fl.run(forced(fl, o, ("k", 1)), avoid=U)
        if fl.returns(seen):
            rep.violate("sync:noupload", "Matrix::sync can return without having uploaded the ordered graph", body.where(o))
        for d in DERIVED:
            if must_pass(body, 0, clears(body, V, d), [o]) is not None:
                rep.violate("sync:stale:" + d, "Matrix::sync uses '%s' of an earlier layout" % d, body.where(o))
    creates = calls_of(body, CONF + "create_node")
    if not creates:
        rep.violate("sync:create", "Matrix::sync does not create the nodes of new cells", F.fn_loc(fid))
    for c in creates:
        rep.count("node creations")
        if any(before(body, c, r) for r in R):
            rep.violate("sync:create-late", "Matrix::sync creates nodes after it has handed out the port indices", body.where(c))
    for r in R:
        for n, l in (("node", A), ("connection", X)):
            for x in l:
                if not body.dominates(r, x):
                    rep.violate("sync:ports", "Matrix::sync adds a %s to a program without fresh port indices" % n, body.where(x))
    for x in X:
        for a in A:
            if before(body, a, x):
                rep.violate("sync:order", "Matrix::sync connects an edge before all nodes were added to the program", body.where(x))
    for u in U:
        e = V.op(body.blocks[u]["t"]["a"][1])
        if not any(x and x[0] == "call" and strip_gen(x[1]) == CONF + "rebuild_node_ports" for x in deep_walk(V, e)):
            rep.violate("sync:prog", "Matrix::sync uploads another program than the one it built", body.where(u))
        for l in (A, X):
            for x in l:
                if before(body, x, u):
                    rep.violate("sync:late", "Matrix::sync adds to the program after its upload", body.where(x))
    # all ordered nodes, all edges
    for a in A:
        rep.count("nodes and edges put into the program")
        t = body.blocks[a]["t"]
        e = V.op(t["a"][2])
        outs = [norm(V.op(body.blocks[o]["t"]["a"][1])) for o in O]
        if not any(y in [norm(x) for x in deep_walk(V, e)] for y in outs):
            rep.violate("sync:nodes", "Matrix::sync adds other nodes than the ordered ones", body.where(a))
        whole(rep, body, V, a, e, "node of the order", O)
        if "rev" in adaptors(V, e):
            rep.violate("sync:rev", "Matrix::sync adds the ordered nodes backwards", body.where(a))
    for x in X:
        rep.count("nodes and edges put into the program")
        t = body.blocks[x]["t"]
        to, fr = V.op(t["a"][2]), V.op(t["a"][3])
        whole(rep, body, V, x, to, "edge", O)
        if [str(y[2]) for y in tuple_of(to) if y[0] == "fld"] not in ([], ["to", "to_input"]) or [str(y[2]) for y in tuple_of(fr) if y[0] == "fld"] not in ([], ["from", "from_out"]):
            rep.violate("sync:roles", "Matrix::sync connects an edge with its ends or ports mixed up", body.where(x))
    # creation covers every occupied cell
    for c in creates:
        bad = [k for k in dev_conds(body, V, c) if not (structural(k) or nop_cond(V, k) or size_cond(V, k))]
        if bad:
            rep.violate("sync:create-cond", "Matrix::sync creates the node of a cell only under the additional condition %s" % fmt(bad[0][0])[:120], body.where(c))


def tuple_of(e):
    while e[0] in ("ref", "deref"):
        e = e[1]
    if e[0] == "agg":
        out = []
        for x in e[2]:
            while x[0] in ("ref", "deref"):
                x = x[1]
            out.append(x)
        return out
    return []


def whole(rep, body, V, i, e, what, O):
    p = partial(V, e)
    if p:
        rep.violate("sync:part:" + what, "Matrix::sync leaves out some %s (%s)" % (what, p[0]), body.where(i))
    bad = []
    for c in dev_conds(body, V, i):
        if structural(c) or size_cond(V, c):
            continue
        if any(x and x[0] == "call" and last(x[1]) == "calculate_order" for x in deep_walk(V, c[0])):
            continue
        bad.append(c)
    if bad:
        rep.violate("sync:cond:" + what, "Matrix::sync adds the %s to the program only under a condition: %s" % (what, fmt(bad[0][0])[:120]), body.where(i))


def in_field(V, e):
    """inN of a cell, when the expression is the content of that option"""
    fs = set(str(x[2]) for x in walk(e) if x and x[0] == "fld" and str(x[2]) in ("in1", "in2", "in3", "out1", "out2", "out3"))
    return fs


def dirs(V, e):
    out = set()
    for x in walk(e):
        if x and x[0] == "agg" and x[1][0] == "adt" and x[1][1] == "cell_dir::CellDir":
            out.add(x[1][3])
    return out


def collect(F, rep):
    """update of the edge list and the ordering graph"""
    fid = None
    for f in F.fns:
        if f.startswith(M) and "{closure" not in f and f not in (M + "check", M + "sync"):
            b = F.body(f)
            if calls_of(b, ORD + "add_node"):
                fid = f
    fid = fid or M + "sync"
    stop = lambda p: p.startswith("nodes::") or p == M + "get_adjacent_output" or p == M + "monitor_cell" or is_eq(p)
    body = flat(F, fid, stop=stop)
    if not calls_of(body, ORD + "add_node"):
        fid = M + "sync"
        body = flat_or_miss(F, rep, fid, stop=stop)
    V = Val(body)
    adds = calls_of(body, ORD + "add_node")
    if not adds:
        rep.violate("coll:nodes", "no function of Matrix adds the cells to the ordering graph", F.fn_loc(M + "sync"))
    for a in adds:
        rep.count("node collection sites")
        e = V.op(body.blocks[a]["t"]["a"][1])
        if not any(x and x[0] == "fld" and x[2] == "node_id" or x and x[0] == "call" and last(x[1]) == "node_id" for x in walk(e)):
            rep.violate("coll:node-id", "another id than the cell's is added to the ordering graph", body.where(a))
        bad = [k for k in dev_conds(body, V, a) if not (structural(k) or nop_cond(V, k) or size_cond(V, k))]
        if bad:
            rep.violate("coll:node-cond", "a cell's node is added to the ordering graph only under the condition %s" % fmt(bad[0][0])[:120], body.where(a))
    edges = []
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == EDGE:
                names = [f[0] for f in F.adts[EDGE]["variants"][0]["fields"]]
                edges.append((i, dict(zip(names, [V.op(o) for o in s[2][2]]))))
    pushes = [i for i, t in body.calls() if last(callname(t)) == "push" and t["a"] and self_path(V.op(t["a"][0])) == ("arg1", "edges")]
    ged = calls_of(body, ORD + "add_edge")
    if not edges or not pushes:
        rep.violate("coll:edges", "no edges are collected from the grid", F.fn_loc(fid))
        return
    found = set()
    unknown = False
    for i, d in edges:
        rep.count("edge collection sites")
        inf = in_field(V, d["to_input"])
        df = dirs(V, d["from"])
        do = dirs(V, d["from_out"])
        if len(inf) == 1 and len(df) == 1 and len(do) == 1:
            n = list(inf)[0]
            if df != do:
                rep.violate("coll:mix:" + n, "the edge at port %s takes its source node and its source port from different neighbours" % n, body.where(i))
            if DIRNAME.get(n) != list(df)[0]:
                rep.violate("coll:dir:" + n, "the edge at port %s is taken from the neighbour in direction %s" % (n, list(df)[0]), body.where(i))
            found.add(n)
        else:
            # table driven: pairs of port and direction
            prs = set()
            for x in deep_walk(V, d["to_input"]):
                if x and x[0] == "agg" and x[1][0] == "tuple":
                    a, c = set(), set()
                    for y in x[2]:
                        if in_field(V, y):
                            a |= in_field(V, y)
                        elif dirs(V, y):
                            c |= dirs(V, y)
                    if len(a) == 1 and len(c) == 1:
                        prs.add((list(a)[0], list(c)[0]))
            for n, dn in prs:
                found.add(n)
                if DIRNAME.get(n) != dn:
                    rep.violate("coll:dir:" + n, "the edge at port %s is taken from the neighbour in direction %s" % (n, dn), body.where(i))
            if not prs:
                unknown = True
                if len(inf) > 1 and len(df) == 1:
                    rep.violate("coll:mixport", "the edge from direction %s uses the index of another port (%s)" % (list(df)[0], "/".join(sorted(inf))), body.where(i))
        r = [str(x[2]) for x in [strip(d["from"])] if x[0] == "fld"] + [str(x[2]) for x in [strip(d["from_out"])] if x[0] == "fld"]
        if r and r[:2] == ["1", "0"]:
            rep.violate("coll:swap", "an edge mixes up its source node and port", body.where(i))
        bad = [k for k in dev_conds(body, V, i) if not (structural(k) or nop_cond(V, k) or size_cond(V, k))]
        if bad:
            rep.violate("coll:edge-cond", "an edge is recorded only under the condition %s" % fmt(bad[0][0])[:120], body.where(i))
        # recorded in both
        nx = [x for x, _ in edges]
        if must_pass(body, i, pushes, set(body.returns()) | set(x for x in nx if x != i)) is not None:
            rep.violate("coll:lost", "an edge is built but not recorded in the edge list", body.where(i))
        gs = [g for g in ged if same_edge(V, body, g, d)]
        dom = [g for g in gs if body.dominates(g, i)]
        if not dom and must_pass(body, i, gs, set(body.returns()) | set(x for x in nx if x != i) | loop_heads(body, i)) is not None:
            rep.violate("coll:order", "an edge is recorded without telling the ordering graph: cycles and execution order go wrong", body.where(i))
    if not unknown:
        for n in sorted(set(DIRNAME) - found):
            rep.violate("coll:port:" + n, "no edge is ever made for port %s" % n, F.fn_loc(fid))
    for i, t in body.calls():
        if callname(t) == M + "get_adjacent_output":
            pos = [V.op(a) for a in t["a"][1:3]]
    grid_ranges(F, rep, body, V, adds)
    edges_kept(F, rep, body, V)
    # inputs in use
    ins = [i for i, t in body.calls() if last(callname(t)) in ("insert", "extend") and t["a"] and self_path(V.op(t["a"][0])) == ("arg1", "assigned_inputs")]
    if not ins:
        rep.violate("coll:assigned", "the inputs in use are not recorded", F.fn_loc(fid))
    for i in ins:
        bad = [k for k in dev_conds(body, V, i) if not (structural(k) or nop_cond(V, k) or size_cond(V, k))]
        p = partial(V, V.op(body.blocks[i]["t"]["a"][1]))
        p = [x for x in p if x not in ("filter_map",)]
        if bad or p:
            rep.violate("coll:assigned-cond", "an input in use is recorded only under a condition", body.where(i))
    rep.floor("edge collection sites", 1)
    rep.floor("node collection sites", 1)


REMOVE = ("dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut", "truncate", "pop", "remove", "swap_remove", "drain", "split_off", "pop_if", "extract_if")


def edges_kept(F, rep, body, V):
    """recorded edges stay in the list until it is collected anew"""
    for fid in sorted(F.fns):
        if not fid.startswith(M) or "{closure" in fid:
            continue
        b = F.body(fid)
        v = Val(b)
        for i, t in b.calls():
            n = last(callname(t) or trait_call(t))
            if n in REMOVE and t["a"] and "edges" in [x for x in (self_path(v.op(t["a"][0])) or ())][1:2]:
                rep.violate("coll:removed:" + n, "%s takes recorded edges out of the edge list (%s)" % (fid, n), b.where(i))


def loop_heads(body, i):
    return set(h for h, bl in body.loops().items() if i in bl)


def same_edge(V, body, g, d):
    a = body.blocks[g]["t"]["a"]
    return norm(V.op(a[1])) == norm(d["from"]) and norm(V.op(a[2])) == norm(d["to"])


def grid_ranges(F, rep, body, V, sites):
    """loops over the grid visit every column and row, columns outside"""
    heads = {}
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and "Range" in str(s[2][1][1]):
                o = [V.op(x) for x in s[2][2]]
                if len(o) < 2:
                    continue
                fs = [str(x[2]) for x in walk(o[1]) if x and x[0] == "fld" and x[2] in ("w", "h") and strip(x[1]) == ("arg", 1)]
                if not fs:
                    continue
                rep.count("grid loops")
                full = o[0] == ("k", 0, "usize") and strip(o[1])[0] == "fld"
                if not full or "Inclusive" in str(s[2][1][1]):
                    rep.violate("coll:range:" + fs[0], "a loop over the grid does not cover all %s" % ("columns" if fs[0] == "w" else "rows"), body.where(i))
                heads.setdefault(fs[0], []).append(i)
    # an unknown source node must not swallow the edge
    ae = ORD + "add_edge"
    if ae not in F.fns:
        return
    b2 = flat(F, ae, stop=lambda p: p == ORD + "add_node")
    V2 = Val(b2)
    adds_from = any(strip(V2.op(b2.blocks[i]["t"]["a"][1])) == ("arg", 2) for i in calls_of(b2, ORD + "add_node"))
    if not adds_from:
        for a in sites:
            for h in heads.get("h", []):
                for w in heads.get("w", []):
                    if w in body.reachable(body.succ(h)) and not h in body.reachable(body.succ(w)) or (a in body.reachable(body.succ(w)) and not body.dominates(w, h) and body.dominates(h, w)):
                        rep.violate("coll:visit", "the cells are visited row by row: an edge from a cell that comes later is dropped by the ordering graph", body.where(a))
        for i, t in body.calls():
            if last(callname(t) or trait_call(t)) == "rev" and any(x and x[0] == "fld" and x[2] in ("w", "h") for x in walk(V.op(t["a"][0]))):
                rep.violate("coll:visit", "the cells are visited backwards: an edge from a cell that comes later is dropped by the ordering graph", body.where(i))


def ordering(F, rep):
    fid = ORD + "calculate_order"
    body = flat_or_miss(F, rep, fid)
    if body is None:
        return
    V = Val(body)
    fl = Flow(body)

    def indeg(e):
        return any(x and x[0] == "fld" and x[2] == "in_degree" for x in deep_walk(V, e))
    # queue and output
    outp = [i for i, t in body.calls() if last(callname(t)) in ("push", "extend", "push_back", "append") and strip(V.op(t["a"][0])) == ("arg", 2)]
    qp = [i for i, t in body.calls() if last(callname(t)) in ("push_back", "push", "push_front", "extend") and i not in outp and "self_path" and strip(V.op(t["a"][0]))[0] in ("var", "call") and not indeg(V.op(t["a"][0]))]
    if not outp:
        rep.violate("ord:out", "calculate_order never outputs a node", F.fn_loc(fid))
    writes = []
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[1][1] and indeg(V.place(s[1])):
                e = V.rv(s[2], 0)
                k = "other"
                if e[0] == "k" and e[1] == 0:
                    k = "zero"
                elif e[0] == "bin" and e[1] in ("Add", "Sub") and ("k", 1, "usize") in e:
                    k = e[1]
                writes.append((i, k))
    for i, t in body.calls():
        n = last(callname(t) or trait_call(t))
        if n in ("fill", "resize", "clear", "add_assign", "sub_assign") and t["a"] and indeg(V.op(t["a"][0])):
            writes.append((i, {"fill": "zero", "clear": "clear", "resize": "zero", "add_assign": "Add", "sub_assign": "Sub"}[n]))
    zero = [i for i, k in writes if k == "zero"]
    add = [i for i, k in writes if k == "Add"]
    sub = [i for i, k in writes if k == "Sub"]
    # the queue takes nodes without open inputs only
    def zero_cond(c):
        e, v = c
        neg = False
        while e[0] == "un" and e[1] == "Not":
            e, neg = e[2], not neg
        t = (v == (1,) or v == ("not", (0,))) != neg
        if e[0] == "bin" and e[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and indeg(e):
            a, b = e[2], e[3]
            op = e[1]
            if not indeg(a):
                a, b = b, a
                op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
            if b[0] != "k":
                return False
            if (op, b[1]) in (("Eq", 0), ("Lt", 1), ("Le", 0)):
                return t
            if (op, b[1]) in (("Ne", 0), ("Ge", 1), ("Gt", 0)):
                return not t
        if indeg(e) and e[0] != "bin":
            return v == (0,)
        return False
    known = bool(add and sub and zero)
    if known:
        for q in qp:
            rep.count("queue insertions")
            cs = V.conds(q, asserts=False)
            if not any(zero_cond(c) for c in cs):
                rep.violate("ord:ready", "calculate_order queues a node whose inputs are not all supplied", body.where(q))
            bad = [c for c in cs if not (structural(c) or zero_cond(c) or cnt_cond(V, c))]
            if bad:
                rep.violate("ord:cond", "calculate_order queues a ready node only under the condition %s" % fmt(bad[0][0])[:100], body.where(q))
        for i in add + sub:
            rep.count("in-degree updates")
            bad = [c for c in V.conds(i, asserts=False) if not (structural(c) or cnt_cond(V, c))]
            if bad:
                rep.violate("ord:deg", "calculate_order counts an edge only under the condition %s" % fmt(bad[0][0])[:100], body.where(i))
        for a in add:
            if must_pass(body, 0, zero, [a]) is not None and not all(body.dominates(h, a) for h in heads_of(body, zero)):
                rep.violate("ord:reset", "calculate_order counts onto the in-degrees of an earlier run", body.where(a))
            if any(before(body, z, a) for z in zero):
                rep.violate("ord:reset", "calculate_order resets in-degrees after counting", body.where(a))
        # after the last decrement the node must be queued in the same step
        for s_ in sub:
            if must_pass(body, s_, qp, loop_heads(body, s_), avoid_edges=nonzero_edges(body, V, indeg)) is not None:
                rep.violate("ord:wake", "calculate_order supplies a node's last input without queueing it", body.where(s_))
        takes(F, rep, body, V)
    elif qp or outp:
        rep.note("the ordering algorithm has an unknown shape; only its result is judged")
    # success means: all nodes
    edges = set()
    direct = False
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        t = b["t"]
        if t["k"] == "switch":
            e = V.op(t["d"])
            neg = False
            while e[0] == "un" and e[1] == "Not":
                e, neg = e[2], not neg
            if e[0] == "bin" and e[1] in ("Eq", "Ne", "Lt", "Ge") and any(x and x[0] == "fld" and x[2] == "node_count" for x in walk(e)) and not any(x and x[0] == "call" and last(x[1]) == "next" for x in walk(e)):
                tm = dict((v, s) for v, s in t["v"])
                op = e[1]
                if not all_nodes(V, e):
                    continue
                if op in ("Lt", "Ge") and not any(x and x[0] == "fld" and x[2] == "node_count" for x in walk(e[3])):
                    continue
                good = 1 if (op in ("Eq", "Ge")) != neg else 0
                edges.add((i, tm.get(good, t["o"])))
        for s in b["s"]:
            if s[0] == "=" and s[1] == [0, []]:
                for e in expand(V, V.rv(s[2], 0)):
                    if e[0] == "bin" and e[1] == "Eq" and any(x and x[0] == "fld" and x[2] == "node_count" for x in walk(e)) and all_nodes(V, e):
                        direct = True
    rep.count("success tests", len(edges) + direct)
    res = leaves(fl, [(0, {})], avoid_edges=edges)
    if 1 in res or (None in res and not direct):
        rep.violate("ord:success", "calculate_order can report success without having emitted all nodes: a cycle goes undetected", F.fn_loc(fid))
    # graph building
    graph_build(F, rep)


def all_nodes(V, e):
    """a comparison with the number of nodes itself, not with something computed from it"""
    a, b = lin(V, e[2]), lin(V, e[3])
    if a.get(1, 0) != b.get(1, 0):
        return False
    has = lambda k: any(x and x[0] == "fld" and x[2] == "node_count" for x in walk(k))
    return all(abs(v) == 1 and strip(k)[0] == "fld" for l in (a, b) for k, v in l.items() if k != 1 and has(k))


def nonzero_edges(body, V, indeg):
    out = set()
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"] or t["k"] != "switch":
            continue
        e = V.op(t["d"])
        tm = dict((v, s) for v, s in t["v"])
        if not indeg(e):
            continue
        if e[0] == "bin" and ("k", 0, "usize") in e:
            if e[1] == "Eq":
                out.add((i, tm.get(0, t["o"])))
            elif e[1] in ("Ne", "Gt"):
                out.add((i, tm.get(1, t["o"])))
        elif e[0] != "bin" and 0 in tm:
            out.add((i, t["o"]))
    return out


def heads_of(body, blks):
    out = set()
    for z in blks:
        hs = [h for h, bl in body.loops().items() if z in bl]
        out |= set(hs) if hs else {z}
    return out


def cnt_cond(V, c):
    """a loop bound or an index range test"""
    e, _ = unnot(c[0])
    if e[0] != "bin" or e[1] not in ("Lt", "Le", "Gt", "Ge", "Ne", "Eq"):
        return False
    for x in (strip(e[2]), strip(e[3])):
        if x[0] == "len" or (x[0] == "fld" and x[2] in ("node_count", "unused_idx")):
            return True
    return False


def takes(F, rep, body, V):
    """prefixes of the node/edge tables are exactly the used ones"""
    for i, t in body.calls():
        n = last(callname(t) or trait_call(t))
        if n in ("take", "skip", "step_by") and trait_call(t).startswith("std::iter") and len(t["a"]) > 1:
            src = V.op(t["a"][0])
            a = strip(V.op(t["a"][1]))
            tab = [str(x[2]) for x in walk(src) if x and x[0] == "fld" and x[2] in ("nodes", "edges", "in_degree")]
            if not tab:
                continue
            rep.count("table prefixes")
            want = "unused_idx" if "edges" in tab else "node_count"
            if n != "take" or not (a[0] == "fld" and a[2] == want):
                rep.violate("ord:prefix:" + tab[0], "calculate_order does not look at exactly the used entries of '%s'" % tab[0], body.where(i))


def graph_build(F, rep):
    # a new node starts empty, the counter and the index stay in step
    fid = ORD + "add_node"
    body = flat_or_miss(F, rep, fid)
    if body is not None:
        V = Val(body)
        ins = [i for i, t in body.calls() if last(callname(t)) == "insert" and t["a"] and "node2idx" in rooted_fields(V, V.op(t["a"][0]))]
        cnt = [i for i, j, p, rv in field_writes(body, V) if p == ("arg1", "node_count")]
        idw = [i for i, j, p, rv in field_writes(body, V) if p[:2] == ("arg1", "nodes") and p[-1] == "node_id"]
        ew = [i for i, j, p, rv in field_writes(body, V) if p[:2] == ("arg1", "nodes") and (p[-1] in ("unused_idx", "[]"))]
        ew += [i for i, t in body.calls() if last(callname(t)) == "clear" and t["a"] and "nodes" in rooted_fields(V, V.op(t["a"][0]))]
        pw = [i for i, t in body.calls() if last(callname(t)) == "push" and t["a"] and "nodes" in rooted_fields(V, V.op(t["a"][0]))]
        rep.count("graph construction functions")
        for a in ins:
            for what, l in (("count", cnt), ("clean entry", ew + pw)):
                if not l or (must_pass(body, 0, l, [a]) is not None and must_pass(body, a, l) is not None):
                    rep.violate("ord:add:" + what, "NodeGraphOrdering::add_node registers a node without its %s" % what, body.where(a))
        if not ins:
            rep.violate("ord:add", "NodeGraphOrdering::add_node does not register the node", F.fn_loc(fid))
    fid = ORD + "clear"
    body = flat_or_miss(F, rep, fid)
    if body is not None:
        V = Val(body)
        rep.count("graph construction functions")
        if must_pass(body, 0, clears(body, V, "node2idx")) is not None:
            rep.violate("ord:clear", "NodeGraphOrdering::clear keeps registered nodes", F.fn_loc(fid))
        if must_pass(body, 0, [i for i, j, p, rv in field_writes(body, V) if p == ("arg1", "node_count")]) is not None:
            rep.violate("ord:clear", "NodeGraphOrdering::clear keeps the node count", F.fn_loc(fid))
    fid = ORD + "add_edge"
    body = flat_or_miss(F, rep, fid)
    if body is not None:
        V = Val(body)
        rep.count("graph construction functions")
        st = []
        for i, b in enumerate(body.blocks):
            if b["cl"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and s[1][1]:
                    pl = V.place(s[1])
                    if pl[0] == "idx" and any(x and x[0] == "fld" and x[2] == "edges" for x in walk(pl)):
                        st.append((i, pl, V.rv(s[2], 0)))
        st2 = [i for i, t in body.calls() if last(callname(t)) == "push" and t["a"] and any(x and x[0] == "fld" and x[2] == "edges" for x in walk(V.op(t["a"][0])))]
        if not st and not st2:
            rep.violate("ord:edge", "NodeGraphOrdering::add_edge records nothing", F.fn_loc(fid))
        inc = []
        for i, b in enumerate(body.blocks):
            for s in b["s"]:
                if s[0] == "=" and s[1][1] and not b["cl"]:
                    pl = V.place(s[1])
                    if pl[0] == "fld" and pl[2] == "unused_idx":
                        inc.append(i)
        for i, pl, e in st:
            ds = list(deep_walk(V, pl))
            if not any(x == ("arg", 2) for x in ds) and not any(x and x[0] == "call" for x in ds):
                pass
            if must_pass(body, i, inc) is not None:
                rep.violate("ord:edge-count", "NodeGraphOrdering::add_edge stores an edge without counting it", body.where(i))
        for i in [x[0] for x in st] + st2:
            bad = []
            for c in V.conds(i, asserts=False):
                if structural(c) or cnt_cond(V, c):
                    continue
                if any(x and x[0] == "fld" and x[2] == "edges" for x in deep_walk(V, c[0])):
                    continue
                bad.append(c)
            if bad:
                rep.violate("ord:edge-cond", "NodeGraphOrdering::add_edge drops edges depending on %s" % fmt(bad[0][0])[:100], body.where(i))


def connect(F, rep):
    fid = CONF + "set_prog_node_exec_connection"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith(INST) or p.startswith(NP_) or p in (CONF + "node_by_id", CONF + "node_by_id_mut"))
    if body is not None:
        V = Val(body)
        E = calls_of(body, NP_ + "NodeProg::append_edge")
        if not E:
            rep.violate("conn:none", "set_prog_node_exec_connection connects nothing", F.fn_loc(fid))
        for i in E:
            rep.count("connections")
            a = [V.op(x) for x in body.blocks[i]["t"]["a"]]
            ok = [None, ("as_op", 3, None), ("in_local2global", 3, "1"), ("out_local2global", 4, "1"), ("mod_in_local2global", 3, "1")]
            for k in (1, 2, 3, 4):
                if k >= len(a):
                    continue
                fn, arg, _ = ok[k]
                cs = [x for x in deep_walk(V, a[k]) if x and x[0] == "call" and strip_gen(x[1]).startswith(INST)]
                names = set(last(x[1]) for x in cs)
                args = set()
                for x in deep_walk(V, a[k]):
                    if x and x[0] == "fld" and strip(x[1])[0] == "arg" and strip(x[1])[1] in (3, 4):
                        args.add(strip(x[1])[1])
                if names - {fn}:
                    rep.violate("conn:map:%d" % k, "set_prog_node_exec_connection translates argument %d of the connection with %s instead of %s" % (k, "/".join(sorted(names)), fn), body.where(i))
                if args - {arg}:
                    rep.violate("conn:end:%d" % k, "set_prog_node_exec_connection takes argument %d of the connection from the wrong end" % k, body.where(i))
            bad = [c for c in dev_conds(body, V, i) if not structural(c)]
            if bad:
                rep.violate("conn:cond", "set_prog_node_exec_connection drops connections depending on %s" % fmt(bad[0][0])[:100], body.where(i))
    fid = CONF + "add_prog_node"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith(INST) or p.startswith(NP_) or p in (CONF + "node_by_id", CONF + "node_by_id_mut"))
    if body is not None:
        V = Val(body)
        E = calls_of(body, NP_ + "NodeProg::append_op")
        if not E:
            rep.violate("conn:op", "add_prog_node adds nothing to the program", F.fn_loc(fid))
        for i in E:
            rep.count("connections")
            bad = [c for c in dev_conds(body, V, i) if not structural(c)]
            if bad:
                rep.violate("conn:op-cond", "add_prog_node leaves out nodes depending on %s" % fmt(bad[0][0])[:100], body.where(i))
    # NodeProg
    fid = NP_ + "NodeProg::append_op"
    body = flat_or_miss(F, rep, fid)
    if body is not None:
        V = Val(body)
        P = [i for i, t in body.calls() if last(callname(t)) in ("push", "insert", "push_front") and t["a"] and self_path(V.op(t["a"][0])) == ("arg1", "prog")]
        if not P:
            rep.violate("conn:append", "append_op does not append", F.fn_loc(fid))
        for i in P:
            rep.count("connections")
            if last(callname(body.blocks[i]["t"])) != "push":
                rep.violate("conn:append-order", "append_op does not keep the execution order", body.where(i))
            for c in dev_conds(body, V, i):
                f = set(str(x[2]) for x in walk(c[0]) if x and x[0] == "fld") & {"out_idxlen", "in_idxlen", "at_idxlen", "mod_idxlen", "inputs", "in_connected", "out_connected"}
                if f:
                    rep.violate("conn:append-cond", "append_op leaves out operations depending on their %s" % sorted(f)[0], body.where(i))
            for c in V.conds(i, asserts=False):
                if structural(c) or idx_eq(V, c) or any(x and x[0] == "call" and last(x[1]) in ("any", "all", "find", "position") for x in walk(c[0])):
                    continue
                rep.violate("conn:append-cond", "append_op leaves out operations depending on %s" % fmt(c[0])[:100], body.where(i))
    fid = NP_ + "NodeProg::append_edge"
    body = flat_or_miss(F, rep, fid)
    if body is not None:
        V = Val(body)
        P = []
        for i, t in body.calls():
            if last(callname(t)) == "push" and t["a"] and any(x and x[0] == "fld" and x[2] == "inputs" for x in walk(V.op(t["a"][0]))):
                P.append(i)
                e = V.op(t["a"][1])
                rep.count("connections")
                if e[0] == "agg":
                    got = [strip(x) for x in e[2]]
                    if got != [("arg", 4), ("arg", 3), ("arg", 5)]:
                        rep.violate("conn:tuple", "append_edge stores the output, input and modulator index in the wrong order", body.where(i))
                cs = V.conds(i, asserts=False)
                for c in cs:
                    if structural(c) or idx_eq(V, c) or (any(x and x[0] == "call" and last(x[1]) in ("any", "all", "find", "position") for x in walk(c[0])) and not over_inputs(V, c)):
                        continue
                    if any(x and x[0] == "call" and last(x[1]) == "contains" for x in walk(c[0])) and over_inputs(V, c):
                        continue
                    rep.violate("conn:edge-cond", "append_edge drops edges depending on %s" % fmt(c[0])[:100], body.where(i))
        if not P:
            rep.violate("conn:edge", "append_edge records nothing", F.fn_loc(fid))
        flags(F, rep, body, V)
    rep.floor("connections", 3)


MODOP = NP_ + "ModOp::"


def modroles(F, rep):
    """a modulator adds the scaled output to the parameter's value"""
    for n in ("process", "lock"):
        if MODOP + n not in F.fns:
            rep.violate("anchor:" + MODOP + n, "the function %s%s is gone" % (MODOP, n))
            return
    pb = lambda p: p.startswith("dsp::ProcBuf")
    body = flat(F, MODOP + "process", stop=pb)
    V = Val(body)
    bufs = [f[0] for f in F.adts[NP_ + "ModOp"]["variants"][0]["fields"] if "ProcBuf" in f[1]]

    def used(e):
        return set(x[2] for x in deep_walk(V, e) if x and x[0] == "fld" and strip(x[1]) == ("arg", 1))
    scaled, base, dst = set(), set(), set()
    for i, t in body.calls():
        if callname(t) == PB_ + "write" and len(t["a"]) == 3:
            dst |= used(V.op(t["a"][0])) & set(bufs)
            e = V.op(t["a"][2])
            if e[0] == "call" and last(e[1]) in ("mul_add",):
                continue
            if e[0] != "bin":
                if any(x and x[0] == "var" for x in walk(e)) or e[0] == "call" and last(e[1]) not in ("read",):
                    continue
                rep.violate("mod:sum", "ModOp::process does not add the scaled signal to the parameter's value", body.where(i))
                continue
            if e[1] != "Add":
                rep.violate("mod:sum", "ModOp::process does not add the scaled signal to the parameter's value", body.where(i))
                continue
            for s in (e[2], e[3]):
                (scaled if "amount" in used(s) else base).update(used(s) & set(bufs))
    if len(scaled) != 1 or len(base) != 1:
        rep.note("ModOp::process has an unknown shape")
        return
    sf, bf = scaled.pop(), base.pop()
    if sf == bf:
        rep.violate("mod:same", "ModOp::process modulates a signal with itself", F.fn_loc(body.fid))
        return
    body = flat(F, MODOP + "lock", stop=pb)
    V = Val(body)
    arg = {}
    for i, j, p, rv in field_writes(body, V):
        if rv is not None and len(p) == 2:
            e = strip(V.rv(rv, 0))
            if e[0] == "arg":
                arg[p[1]] = e[1]
    if not {sf, bf} <= set(arg):
        rep.note("ModOp::lock has an unknown shape")
        return
    n = 0
    for fid in sorted(F.fns):
        if "{closure" in fid or not fid.startswith("nodes::"):
            continue
        b = F.body(fid)
        v = None
        for i, t in b.calls():
            if callname(t) != MODOP + "lock":
                continue
            v = v or Val(b)
            n += 1
            rep.count("modulators connected")
            for f, want, bad in ((sf, "out", "inp"), (bf, "inp", "out")):
                k = arg[f] - 1
                e = v.op(t["a"][k]) if k < len(t["a"]) else None
                fs = set(x[2] for x in walk(e) if x and x[0] == "fld" and x[2] in ("inp", "out", "cur_inp")) if e else set()
                if fs and want not in fs:
                    rep.violate("mod:role:" + f, "a modulator gets the buffer of '%s' where it needs the one of '%s'" % (sorted(fs)[0], want), b.where(i))
    if not n:
        rep.violate("mod:none", "no modulator is ever connected", F.fn_loc(MODOP + "lock"))


def assign(F, rep):
    """the input vector a node reads from: parameter buffers first, the outputs of
    connected nodes on top of them"""
    fid = NP_ + "NodeProg::assign_outputs"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith(MODOP) or p.startswith("dsp::ProcBuf"))
    if body is None:
        return
    V = Val(body)
    st, cp = [], []
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[1][1]:
                pl = V.place(s[1])
                while pl[0] in ("deref", "ref"):
                    pl = pl[1]
                if pl[0] == "idx" and self_path(pl[1]) == ("arg1", "cur_inp"):
                    (cp if param_store(V, pl, V.rv(s[2], 0)) else st).append((i, pl, V.rv(s[2], 0)))
    for i, t in body.calls():
        n = last(callname(t) or trait_call(t))
        if n in ("copy_from_slice", "clone_from_slice", "clone_from") and "cur_inp" in rooted_fields(V, V.op(t["a"][0])):
            rep.count("input assignments")
            cp.append((i, None, None))
            d, s = [x for x in walk(V.op(t["a"][0]))], [x for x in walk(V.op(t["a"][1]))]
            if not any(x and x[0] == "fld" and x[2] == "inp" and strip(x[1]) == ("arg", 1) for x in s):
                rep.violate("asg:src", "assign_outputs does not initialise the inputs with the parameter buffers", body.where(i))
            rg = [norm(x) for l in (d, s) for x in l if x and x[0] == "agg" and "Range" in str(x[1])][:2]
            if len(rg) == 2 and rg[0] != rg[1]:
                rep.violate("asg:range", "assign_outputs initialises the inputs with the parameter buffers of other inputs", body.where(i))
    for i, pl, e in st:
        rep.count("input assignments")
        if lastfield(pl[2]) in ("0", "2"):
            rep.violate("asg:dst", "assign_outputs connects an edge to another input than its own", body.where(i))
        if e[0] == "idx":
            if not any(x and x[0] == "fld" and x[2] == "out" for x in walk(e[1])):
                rep.violate("asg:from", "assign_outputs connects an input to something else than an output", body.where(i))
            if lastfield(e[2]) in ("1", "2"):
                rep.violate("asg:idx", "assign_outputs connects an edge to another output than its own", body.where(i))
        for c in dev_conds(body, V, i):
            if not (structural(c) or cnt_cond(V, c)):
                rep.violate("asg:cond", "assign_outputs connects an edge only under the condition %s" % fmt(c[0])[:100], body.where(i))
        for j, _, _ in cp:
            if not body.dominates(j, i) and before(body, i, j) and not with_loop(body, i, j):
                rep.violate("asg:order", "assign_outputs overwrites the connected inputs with the parameter buffers", body.where(j))
    if not st:
        rep.violate("asg:none", "assign_outputs connects no input to an output", F.fn_loc(fid))
    if not cp:
        rep.violate("asg:param", "assign_outputs does not initialise the inputs with the parameter buffers", F.fn_loc(fid))


def param_store(V, pl, e):
    return e[0] == "idx" and self_path(e[1]) == ("arg1", "inp")


def with_loop(body, i, j):
    """the copy j stands in a loop of its own in front of i"""
    return any(j in bl and i not in bl and body.dominates(h, i) for h, bl in body.loops().items())


def lastfield(e):
    while True:
        e = strip(e)
        if e[0] == "call" and e[2]:
            e = e[2][0]
            continue
        return str(e[2]) if e[0] == "fld" else None


PB_ = "dsp::ProcBuf::"


def over_inputs(V, c):
    return any(x and x[0] == "fld" and x[2] == "inputs" for x in deep_walk(V, c[0]))


def idx_eq(V, c):
    e = c[0]
    while e[0] == "un":
        e = e[2]
    return e[0] == "bin" and e[1] in ("Eq", "Ne") and all(any(x and x[0] == "fld" and x[2] == "idx" for x in walk(s)) for s in (e[2], e[3]))


def flags(F, rep, body, V):
    """the connected bits: bit (global - start of the same range)"""
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] != "=" or not s[1][1]:
                continue
            pl = V.place(s[1])
            if pl[0] == "fld" and pl[2] in ("in_connected", "out_connected"):
                rep.count("connection flags")
                e = V.rv(s[2], 0)
                rng = "in_idxlen" if pl[2] == "in_connected" else "out_idxlen"
                arg = 3 if pl[2] == "in_connected" else 4
                fs = set(str(x[2]) for x in deep_walk(V, e) if x and x[0] == "fld" and str(x[2]).endswith("_idxlen"))
                ags = set(x[1] for x in deep_walk(V, e) if x and x[0] == "arg")
                if fs - {rng}:
                    rep.violate("conn:flag:" + pl[2], "append_edge sets %s relative to another index range" % pl[2], body.where(i))
                if ags & {3, 4} - {arg}:
                    rep.violate("conn:flag-arg:" + pl[2], "append_edge sets %s for the wrong end of the edge" % pl[2], body.where(i))
                if e[0] == "bin" and e[1] not in ("BitOr",):
                    rep.violate("conn:flag-op:" + pl[2], "append_edge does not add to the %s flags" % pl[2], body.where(i))
                if e[0] != "bin" and e[0] != "var":
                    rep.violate("conn:flag-op:" + pl[2], "append_edge overwrites the %s flags" % pl[2], body.where(i))
    need = {"in_connected", "out_connected"}
    have = set()
    for i, b in enumerate(body.blocks):
        for s in b["s"]:
            if s[0] == "=" and s[1][1] and not b["cl"]:
                pl = V.place(s[1])
                if pl[0] == "fld" and pl[2] in need:
                    have.add(pl[2])
    for f in sorted(need - have):
        rep.violate("conn:flag-none:" + f, "append_edge never sets the %s flags" % f, F.fn_loc(body.fid))


KIND = {"out": ("set_output", "out_count", 0), "in": ("set_input", "in_count", 1), "at": ("set_atom", "at_count", 2), "mod": ("set_mod", None, 3)}


def local2global(F, rep):
    # local -> global translation
    for fn, st, en in (("in_local2global", "in_start", "in_end"), ("out_local2global", "out_start", "out_end")):
        fid = INST + fn
        body = flat_or_miss(F, rep, fid)
        if body is None:
            continue
        V = Val(body)
        rep.count("port translations")
        vals = []
        from .midi import ret_values
        for i, v, pay in ret_values(body, V):
            if v != "Some":
                continue
            e = strip(pay)
            if e[0] == "ovf":
                e = ("bin",) + e[1:]
            fs = set(str(x[2]) for x in walk(e) if x and x[0] == "fld")
            if fs - {st, "0"} or st not in fs or not any(x == ("arg", 2) for x in walk(e)) or e[0] != "bin" or e[1] != "Add" or any(x and x[0] == "k" for x in walk(e)):
                rep.violate("port:" + fn, "%s does not return the start of the node's range plus the port index" % fn, body.where(i))
            cs = [c for c in V.conds(i, asserts=False)]
            good = False
            for c in cs:
                f2 = set(str(x[2]) for x in walk(c[0]) if x and x[0] == "fld")
                if en in f2:
                    good = True
                    x, v2 = c
                    neg = False
                    while x[0] == "un":
                        x, neg = x[2], not neg
                    tr = (v2 == (1,) or v2 == ("not", (0,))) != neg
                    if x[0] == "bin":
                        rhs = en in [str(y[2]) for y in walk(x[3]) if y and y[0] == "fld"] and en not in [str(y[2]) for y in walk(x[2]) if y and y[0] == "fld"]
                        op = x[1] if rhs else {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(x[1], x[1])
                        if not tr:
                            op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}.get(op, op)
                        if op != "Lt" and op in ("Le", "Ge", "Gt", "Eq", "Ne"):
                            rep.violate("port-range:" + fn, "%s accepts an index that is not below the end of the node's range" % fn, body.where(i))
            if not good and not any(x and x[0] == "call" and last(x[1]) in ("then", "then_some", "filter", "contains", "checked_sub") for x in walk(e)):
                if not any(t["k"] == "call" and last(callname(t)) in ("then", "then_some", "filter", "contains") for _, t in body.calls()):
                    rep.violate("port-range:" + fn, "%s does not test the index against the end of the node's range" % fn, body.where(i))


def ports(F, rep):
    local2global(F, rep)
    # setters and the operation
    for k, (setter, _, _) in KIND.items():
        fid = INST + setter
        if fid not in F.fns:
            continue
        body = flat(F, fid)
        V = Val(body)
        for i, j, p, rv in field_writes(body, V):
            if rv is None or len(p) != 2:
                continue
            want = {k + "_start": ("arg", 2), k + "_end": ("arg", 3)}.get(p[1])
            if want and strip(V.rv(rv, 0)) != want:
                rep.violate("port-set:%s" % p[1], "%s stores the wrong bound in %s" % (setter, p[1]), body.where(i))
    fid = INST + "as_op"
    if fid in F.fns:
        body = flat(F, fid)
        V = Val(body)
        for i, b in enumerate(body.blocks):
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == NP_ + "NodeOp":
                    names = [f[0] for f in F.adts[NP_ + "NodeOp"]["variants"][0]["fields"]]
                    rep.count("operation constructors")
                    for n, o in zip(names, s[2][2]):
                        if n.endswith("_idxlen"):
                            got = [str(x[2]) for x in [strip(y) for y in tuple_of(V.op(o))] if x[0] == "fld"]
                            k = n[:-7]
                            if got and got != [k + "_start", k + "_end"]:
                                rep.violate("port-op:" + n, "as_op hands out the range (%s) as %s" % (", ".join(got), n), body.where(i))
    rebuild(F, rep)
    rep.floor("port translations", 2)


def rebuild(F, rep):
    fid = CONF + "rebuild_node_ports"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith(INST) or p.startswith(NP_) or p.startswith("dsp::"))
    if body is None:
        return
    V = Val(body)
    new = calls_of(body, NP_ + "NodeProg::new")
    if not new:
        rep.violate("ports:new", "rebuild_node_ports builds no program", F.fn_loc(fid))
        return
    for n in new:
        t = body.blocks[n]["t"]
        tot = [root_var(body, a) for a in t["a"]]
        if len(tot) < 4 or any(x is None for x in tot):
            rep.note("rebuild_node_ports has an unknown shape")
            return
        by = dict(zip(("out", "in", "at", "mod"), tot))
        for k, (setter, cnt, _) in KIND.items():
            rep.count("index ranges")
            total = by[k]
            incs, others = [], []
            for i, j, kind, s in body.defs().get(total, []):
                if kind != "assign":
                    others.append(i)
                    continue
                e = V.rv(s[2], 0)
                if e[0] == "k" and e[1] == 0:
                    continue
                if e[0] == "bin" and e[1] == "Add" and ("var", total) in (e[2], e[3]):
                    o = e[3] if e[2] == ("var", total) else e[2]
                    incs.append((i, j, o))
                else:
                    others.append(i)
            for i in others:
                rep.violate("ports:total:" + k, "rebuild_node_ports computes the number of '%s' entries in another way than by adding up the nodes'" % k, body.where(i))
            if not incs:
                rep.violate("ports:none:" + k, "rebuild_node_ports never reserves '%s' entries" % k, F.fn_loc(fid))
            for i, j, o in incs:
                if cnt:
                    if not (strip(o)[0] == "call" and last(strip(o)[1]) == cnt):
                        rep.violate("ports:count:" + k, "rebuild_node_ports reserves another number of '%s' entries than the node has" % k, body.where(i))
                    bad = [c for c in dev_conds(body, V, i) if not structural(c)]
                    if bad:
                        rep.violate("ports:cond:" + k, "rebuild_node_ports reserves '%s' entries only under a condition" % k, body.where(i))
                elif not (o[0] == "k" and o[1] == 1):
                    rep.violate("ports:count:" + k, "rebuild_node_ports reserves several modulators per input", body.where(i))
            # the range given to the node: start copied before, end after the reservation
            for c in calls_of(body, INST + setter):
                a = body.blocks[c]["t"]["a"]
                s_pos, e_pos = read_pos(body, a[1], total), read_pos(body, a[2], total)
                if s_pos is None or e_pos is None:
                    ex = [root_var(body, a[1]), root_var(body, a[2])]
                    if any(x is not None and x in tot and x != total for x in ex):
                        rep.violate("ports:range:" + k, "rebuild_node_ports gives a node the wrong '%s' range" % k, body.where(c))
                    continue
                for i, j, o in incs:
                    if order(body, (i, j), s_pos):
                        rep.violate("ports:range:" + k, "rebuild_node_ports gives a node a '%s' range that starts behind its own entries" % k, body.where(c))
                    if cnt and not order(body, (i, j), e_pos):
                        rep.violate("ports:range:" + k, "rebuild_node_ports gives a node a '%s' range that ends before its own entries" % k, body.where(c))


def root_var(body, o):
    """multiply assigned local an operand is a plain copy of"""
    l = None
    for _ in range(20):
        if o[0] not in ("c", "m") or o[1][1]:
            return None
        l = o[1][0]
        ds = body.defs().get(l, [])
        if len(ds) != 1:
            return l
        if ds[0][2] != "assign" or ds[0][3][2][0] != "use":
            return None
        o = ds[0][3][2][1]
    return None


def read_pos(body, o, var):
    """(block, statement) at which the operand's value was copied from var"""
    for _ in range(20):
        if o[0] not in ("c", "m") or o[1][1]:
            return None
        l = o[1][0]
        ds = body.defs().get(l, [])
        if len(ds) != 1 or ds[0][2] != "assign" or ds[0][3][2][0] != "use":
            return None
        o2 = ds[0][3][2][1]
        if o2[0] in ("c", "m") and o2[1] == [var, []]:
            return (ds[0][0], ds[0][1])
        o = o2
    return None


def order(body, a, b):
    """does position a come before position b within an iteration (a dominates b)"""
    if a[0] == b[0]:
        return a[1] < b[1]
    return body.dominates(a[0], b[0])
