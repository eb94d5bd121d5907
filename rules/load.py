"""P12 (clearing and loading a patch) and P24 (change notification)."""
from .matrix import *

PD = "dsp::tracker::pattern::PatternData::"
BF = "wblockdsp::language::BlockFun::"
NG = "global::NodeGlobalData::"


def is_clone(p):
    return "as std::clone::Clone>" in p


def writes_at(body, V, path):
    """blocks that overwrite or empty the place `path` (a tuple), or all of its parts"""
    out = []
    for i, t in body.calls():
        n = last(callname(t) or trait_call(t))
        if t["a"] and n in ("clear", "drain", "take", "truncate"):
            p = self_path(V.op(t["a"][0]))
            if p == path and (n != "truncate" or V.op(t["a"][1])[:2] == ("k", 0)):
                out.append(i)
    for i, j, p, rv in field_writes(body, V):
        if p == path:
            out.append(i)
    return out


def extra_conds(V, i, ok=()):
    return [c for c in dev_conds(V.b, V, i) if not (structural(c) or size_cond(V, c) or any(f(V, c) for f in ok))]


def trait_calls(body, V, name):
    return [i for i, t in body.calls() if trait_call(t) == "matrix::MatrixObserver::" + name]


# ---------------------------------------------------------------- P12
REGISTRIES = ("node2idx", "nodes", "params", "param_values", "param_modamt", "atoms", "atom_values")


def p12(F, tier):
    rep = Report("P12", "other")
    rep.rule("Matrix::clear empties, on every path and before it synchronises, every grid cell, the properties, the saved grid and every registry of nodes, parameters, settings and modulation amounts of the configurator, and tells the audio thread to clear its program")
    rep.rule("Matrix::from_repr clears first, resets all patterns and block programs, then puts every parameter, modulation amount, setting, property, cell, pattern and block program of the representation in place, unconditionally and under its own identity, synchronises, and returns the result of that")
    clear(F, rep)
    load(F, rep)
    load_params(F, rep)
    cell_fields(F, rep)
    from .fmt import patterns
    patterns(F, rep)
    from .untrust import areas
    areas(F, rep)
    return rep


def clear(F, rep):
    fid = M + "clear"
    stop = lambda p: p in (CONF + "upload_prog", CONF + "monitor", ORD + "calculate_order", CONF + "rebuild_node_ports", M + "get_adjacent_output") or is_eq(p)
    body = flat_or_miss(F, rep, fid, stop=stop)
    if body is None:
        return
    V = Val(body)
    O = calls_of(body, ORD + "calculate_order")
    ends = set(body.returns()) | set(O)
    for f in ("properties", "saved_matrix"):
        rep.count("cleared state")
        if must_pass(body, 0, writes_at(body, V, ("arg1", f))) is not None:
            rep.violate("clear:" + f, "Matrix::clear can return with the '%s' of the old patch" % f, F.fn_loc(fid))
    for f in REGISTRIES:
        rep.count("cleared state")
        w = writes_at(body, V, ("arg1", "config", f)) or [x for x in writes_at(body, V, ("arg1", "config"))]
        if must_pass(body, 0, w, ends) is not None:
            rep.violate("clear:config:" + f, "Matrix::clear can return (or rebuild the graph) with the configurator's '%s' of the old patch" % f, F.fn_loc(fid))
    grid = with_heads(body, changes(body, V, "matrix"))
    rep.count("cleared state")
    if must_pass(body, 0, grid, ends) is not None:
        rep.violate("clear:grid", "Matrix::clear can return (or rebuild the graph) without having emptied the grid", F.fn_loc(fid))
    # what is written into the cells
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] != "=" or not s[1][1]:
                continue
            e = V.place(s[1])
            if "matrix" not in rooted_fields(V, e) or not is_cell_place(body, V, e):
                continue
            r = s[2]
            if not ((r[0] == "agg" and r[1][0] == "adt" and r[1][1] == CELL) or (r[0] == "use" and r[1][0] in ("c", "m") and not r[1][1][1] and body.locals[r[1][1][0]][0] == CELL)):
                continue
            rep.count("cell resets")
            v = V.rv(s[2], 0)
            if v[0] == "agg" and v[1][0] == "adt" and v[1][1] == CELL and strip(v[2][0])[0] == "agg" and strip(v[2][0])[1][3] != "Nop":
                rep.violate("clear:cell", "Matrix::clear puts a node into the cells", body.where(i))
            if partial(V, e):
                rep.violate("clear:cells-part", "Matrix::clear leaves out cells (%s)" % partial(V, e)[0], body.where(i))
            bad = extra_conds(V, i)
            if bad:
                rep.violate("clear:cells-cond", "Matrix::clear empties a cell only under the condition %s" % fmt(bad[0][0])[:100], body.where(i))
    msgs = []
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == "nodes::GraphMessage" and s[2][1][3] == "Clear":
                msgs.append(i)
    pushes = [i for i, t in body.calls() if last(callname(t)) == "push" and len(t["a"]) > 1 and any(x and x[0] == "agg" and x[1][0] == "adt" and x[1][1] == "nodes::GraphMessage" and x[1][3] == "Clear" for x in deep_walk(V, V.op(t["a"][1])))]
    rep.count("clear messages", len(pushes))
    U = calls_of(body, CONF + "upload_prog")
    if must_pass(body, 0, pushes, set(body.returns()) | set(U)) is not None:
        rep.violate("clear:msg", "Matrix::clear can return (or upload a program) without telling the audio thread to clear", F.fn_loc(fid))
    if must_pass(body, 0, O) is not None:
        rep.violate("clear:sync", "Matrix::clear does not synchronise the emptied grid", F.fn_loc(fid))
    rep.floor("cleared state", 9)


def is_cell_place(body, V, e):
    """the whole element of the grid (not a field of it)"""
    while e[0] in ("deref", "ref", "dc"):
        e = e[1]
    return e[0] == "idx" or (e[0] == "fld" and e[2] == "0")


def load(F, rep):
    fid = M + "from_repr"
    stop = lambda p: p in (M + "clear", M + "sync", M + "place", M + "get_pattern_data", M + "get_block_function", PD + "from_repr", PD + "reset", PD + "new", PD + "is_unset", BF + "is_unset", BF + "load_snapshot", BF + "new", CONF + "load_dumped_param_values", CELL + "::from_repr") or is_clone(p)
    body = flat_or_miss(F, rep, fid, stop=stop)
    if body is None:
        return
    V = Val(body)
    fl = Flow(body)
    C = calls_of(body, M + "clear")
    S = calls_of(body, M + "sync")
    L = calls_of(body, CONF + "load_dumped_param_values")
    P = calls_of(body, M + "place")
    PR = [i for i, t in body.calls() if last(callname(t)) == "insert" and t["a"] and self_path(V.op(t["a"][0])) == ("arg1", "properties")]
    PT = [i for i in calls_of(body, PD + "from_repr")]
    BL = [i for i in calls_of(body, BF + "load_snapshot") if "block_funs" in repr_fields(V, body, i)]
    steps = [("parameters", L, "params"), ("cells", P, "cells"), ("properties", PR, "properties"), ("patterns", PT, "patterns"), ("block programs", BL, "block_funs")]
    ns = "matrix::Matrix::from_repr"
    if not S:
        rep.violate("load:sync", "from_repr does not synchronise the loaded patch", F.fn_loc(fid))
        return
    if must_pass(body, 0, S) is not None:
        rep.violate("load:sync", "from_repr can return without synchronising the loaded patch", F.fn_loc(fid))
    lv = [leaves(fl, forced(fl, s, ("v", 1))) for s in S]
    if any(0 in x for x in lv):
        rep.violate("load:lost", "from_repr can return Ok although the synchronisation failed", body.where(S[0]))
    if any(1 in leaves(fl, forced(fl, s, ("v", 0))) for s in S):
        rep.violate("load:false", "from_repr can return an error although the synchronisation succeeded", body.where(S[0]))
    for name, sites, field in steps:
        if not sites:
            rep.violate("load:none:" + field, "from_repr does not load the %s" % name, F.fn_loc(fid))
            continue
        for i in sites:
            rep.count("loading sites")
            if must_pass(body, 0, C, [i]) is not None:
                rep.violate("load:unclear:" + field, "from_repr loads %s without having cleared the matrix first" % name, body.where(i))
            if any(before(body, c, i) for c in C):
                rep.violate("load:late-clear:" + field, "from_repr clears the matrix after it loaded %s" % name, body.where(i))
            if name not in ("patterns", "block programs", "properties") and any(before(body, i, s) for s in S):
                rep.violate("load:late:" + field, "from_repr loads %s after the synchronisation" % name, body.where(i))
            bad = extra_conds(V, i)
            if not bad and field == "cells":
                bad = [c for c in dev_conds(body, V, i) if not inside(body, V, c[0])]
            if bad:
                rep.violate("load:cond:" + field, "from_repr loads %s only under the condition %s" % (name, fmt(bad[0][0])[:100]), body.where(i))
            p = []
            for a in body.blocks[i]["t"]["a"][1:]:
                p += [x for x in partial(V, V.op(a))]
            if p and field not in ("patterns", "block_funs"):
                rep.violate("load:part:" + field, "from_repr leaves out some of the %s (%s)" % (name, p[0]), body.where(i))
            elif [x for x in p if x not in ("filter_map", "filter", "flatten")]:
                rep.violate("load:part:" + field, "from_repr leaves out some of the %s (%s)" % (name, p[0]), body.where(i))
            if field not in repr_fields(V, body, i):
                rep.violate("load:src:" + field, "from_repr takes the %s from elsewhere" % name, body.where(i))
    if L and must_pass(body, 0, L) is not None:
        rep.violate("load:skip:params", "from_repr can return without loading the parameters", F.fn_loc(fid))
    for i in L:
        a = [V.op(x) for x in body.blocks[i]["t"]["a"]]
        if argfields(V, a[1]) - {"params"} or argfields(V, a[2]) - {"atoms"}:
            rep.violate("load:args", "from_repr mixes up parameters and settings", body.where(i))
        nv = strip(a[3])
        v2, v1 = version_cond(V, nv, 2), version_cond(V, nv, 1)
        if v2 is False or v1 is True:
            rep.violate("load:version", "from_repr normalises the parameter values of the wrong file versions", body.where(i))
        if nv[0] == "k":
            rep.violate("load:version", "from_repr does not look at the version of the representation", body.where(i))
    for i in P:
        a = [V.op(x) for x in body.blocks[i]["t"]["a"]]
        for k, f in ((1, "x"), (2, "y")):
            fs = [str(x[2]) for x in walk(a[k]) if x and x[0] == "fld" and str(x[2]) in ("x", "y")]
            if fs and set(fs) != {f}:
                rep.violate("load:pos", "from_repr places cells at mixed up coordinates", body.where(i))
    for i in PR:
        a = [V.op(x) for x in body.blocks[i]["t"]["a"]]
        k, v = lastfield(a[1]), lastfield(a[2])
        if k == "1" or v == "0":
            rep.violate("load:prop", "from_repr mixes up keys and values of the properties", body.where(i))
    # same index on both sides
    for sites, getter in ((PT, M + "get_pattern_data"), (BL, M + "get_block_function")):
        for i in sites:
            a = [V.op(x) for x in body.blocks[i]["t"]["a"]]
            idx = None
            for x in deep_walk(V, a[0]):
                if x and x[0] == "call" and strip_gen(x[1]) == getter and len(x[2]) > 1:
                    idx = x[2][1]
            if idx is None:
                continue
            bad = skipped(V, idx)
            if bad:
                rep.violate("load:index", "from_repr counts the slots of the patterns or block programs after '%s' has left some out" % bad, body.where(i))
            e = strip(idx)
            if e[0] == "fld" and e[2] == "0":
                continue
            if e[0] in ("bin", "k"):
                rep.violate("load:index", "from_repr loads a pattern or block program into another slot (%s)" % fmt(idx)[:80], body.where(i))
    # nothing of the previous patch survives
    R1 = [i for i, t in body.calls() if callname(t) == PD + "reset" or (callname(t) == PD + "new")]
    R1 = [i for i in R1 if "trackers" in all_fields(V, body, i)] or R1
    R2 = [i for i in calls_of(body, BF + "load_snapshot") if i not in BL] + calls_of(body, BF + "new")
    for name, r, sites, fld in (("patterns", R1, PT, "trackers"), ("block programs", R2, BL, "block_functions")):
        loops = [h for h, bl in body.loops().items() if any(i in bl for i in r)]
        clr = [i for i, t in body.calls() if last(callname(t)) in ("clear", "drain") and t["a"] and fld in rooted_fields(V, V.op(t["a"][0]))]
        tgt = loops + clr + [i for i in r if not loops]
        rep.count("resets", 1 if tgt else 0)
        lock_err = lock_edges(body, V)
        for s in sites:
            if must_pass(body, 0, tgt, [s], avoid_edges=lock_err) is not None:
                rep.violate("load:survive:" + fld, "from_repr does not reset the %s of the previous patch" % name, body.where(s))
                break
        for i in r:
            if any(before(body, i, s) for s in sites):
                rep.violate("load:late-reset:" + fld, "from_repr resets the %s after it has loaded some" % name, body.where(i))
                break
        for i in r:
            bad = [c for c in extra_conds(V, i) if last(truth(c)[0][1] if truth(c)[0][0] == "call" else "") != "is_unset"]
            if bad:
                rep.violate("load:survive-cond:" + fld, "from_repr resets the %s of the previous patch only under a condition" % name, body.where(i))
    rep.floor("loading sites", 5)


def inside(body, V, e):
    """a condition on size and position that only refuses what the grid does not contain"""
    e, _ = unnot(e)
    if e[0] != "bin" or e[1] not in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
        return True
    fs = [{str(x[2]) for x in walk(s) if x and x[0] == "fld"} for s in e[2:4]]
    for a, b in ((fs[0], fs[1]), (fs[1], fs[0])):
        for d, o in (("w", "x"), ("h", "y")):
            if d in a and not (o in b and {"x", "y"} & b == {o} and {"w", "h"} & a == {d} and e[1] in ("Lt", "Ge", "Gt", "Le") and not any(y and y[0] in ("bin", "ovf") for s in e[2:4] for y in walk(s))):
                return False
    return True


SHIFT = ("flatten", "filter", "filter_map", "skip", "skip_while", "rev", "step_by", "flat_map", "map_while", "chain", "cycle")


def skipped(V, idx):
    """the adaptor in front of the enumerate() the index comes from that moves elements"""
    for x in deep_walk(V, idx):
        if x and x[0] == "call" and last(x[1]) == "enumerate" and x[2]:
            for y in deep_walk(V, x[2][0]):
                if y and y[0] == "call" and last(y[1]) in SHIFT:
                    return last(y[1])
    return None


def lock_edges(body, V):
    """edges taken when a mutex is poisoned"""
    out = set()
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"] or t["k"] != "switch":
            continue
        e = V.op(t["d"])
        if e[0] == "discr" and strip(e[1])[0] == "call" and last(strip(e[1])[1]) == "lock":
            tm = dict((v, s) for v, s in t["v"])
            out.add((i, tm.get(1, t["o"])))
    return out


def argfields(V, e, n=2):
    return set(str(x[2]) for x in deep_walk(V, e) if x and x[0] == "fld" and strip(x[1]) == ("arg", n))


def repr_fields(V, body, i):
    out = set()
    for a in body.blocks[i]["t"]["a"]:
        out |= argfields(V, V.op(a))
    return out


def all_fields(V, body, i):
    out = set()
    for a in body.blocks[i]["t"]["a"]:
        for x in deep_walk(V, V.op(a)):
            if x and x[0] == "fld":
                out.add(str(x[2]))
    return out


def lastfield(e):
    while True:
        e = strip(e)
        if e[0] == "call" and e[2]:
            e = e[2][0]
            continue
        return str(e[2]) if e[0] == "fld" else None


def version_cond(V, e, n):
    """truth of a comparison of .version with a constant, for version n"""
    e, neg = unnot(e)
    if e[0] != "bin":
        return None
    a, b = strip(e[2]), strip(e[3])
    isv = lambda x: x[0] == "fld" and x[2] == "version"
    if isv(a) and b[0] == "k":
        x, y = n, b[1]
    elif isv(b) and a[0] == "k":
        x, y = a[1], n
    else:
        return None
    r = {"Gt": x > y, "Ge": x >= y, "Lt": x < y, "Le": x <= y, "Eq": x == y, "Ne": x != y}.get(e[1])
    return None if r is None else r != neg


def load_params(F, rep):
    fid = CONF + "load_dumped_param_values"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p in (CONF + "set_param", CONF + "set_param_modamt") or p.endswith("ParamId::norm") or is_clone(p))
    if body is None:
        return
    V = Val(body)
    seen = set()
    for i, t in body.calls():
        n = callname(t)
        if n not in (CONF + "set_param", CONF + "set_param_modamt"):
            continue
        a = [V.op(x) for x in t["a"]]
        src = {2: "params", 3: "atoms"}
        roots = set(x[1] for x in deep_walk(V, a[1]) if x and x[0] == "arg" and x[1] in src)
        rep.count("parameter loads")
        if len(roots) != 1:
            continue
        r = roots.pop()
        seen.add((last(n), src[r]))
        bad = extra_conds(V, i)
        if bad or partial(V, a[1]):
            rep.violate("params:cond:%s:%s" % (last(n), src[r]), "loading %s skips some of them" % src[r], body.where(i))
        if lastfield(a[1]) not in (None, "0"):
            rep.violate("params:id", "a parameter is loaded under another identity", body.where(i))
        if last(n) == "set_param_modamt":
            if plainfield(a[2]) not in (None, "2"):
                rep.violate("params:modamt", "the loaded modulation amount is taken from elsewhere", body.where(i))
            if strip(a[2])[0] == "agg":
                rep.violate("params:modamt", "the modulation amounts are not loaded", body.where(i))
        elif r == 2:
            alts = expand(V, strip(a[2]))
            kinds = set()
            for e in alts:
                e = strip(e)
                if e[0] == "call" and last(e[1]) == "norm":
                    kinds.add("norm")
                    if not (lastfield(e[2][0]) in (None, "0") and lastfield(e[2][1]) in (None, "1")):
                        rep.violate("params:norm", "a loaded value is normalised with the wrong parameter", body.where(i))
                elif plainfield(e) == "1":
                    kinds.add("raw")
                elif e[0] in ("k", "kf", "bin"):
                    rep.violate("params:value", "a loaded parameter value is altered", body.where(i))
            if kinds == {"raw"} or kinds == {"norm"}:
                rep.violate("params:normalise", "loading does not distinguish normalised and denormalised files", body.where(i))
            # which of them under which flag
            for d in V.d.get(strip(a[2])[1], []) if strip(a[2])[0] == "var" else []:
                if d[2] not in ("assign", "call"):
                    continue
                e = strip(V.rv(d[3][2], 1) if d[2] == "assign" else V.call(d[0], d[3], 1))
                want = True if e[0] == "call" and last(e[1]) == "norm" else (False if plainfield(e) == "1" else None)
                for c in V.conds(d[0], asserts=False):
                    ce, tv = truth(c)
                    if strip(ce) == ("arg", 4) and want is not None and tv != want:
                        rep.violate("params:flag", "loading normalises the values that are normalised already, and not the others", body.where(d[0]))
    for want in (("set_param", "params"), ("set_param_modamt", "params"), ("set_param", "atoms")):
        if want not in seen and rep.counts.get("parameter loads", 0) == len(seen):
            rep.violate("params:miss:%s:%s" % want, "loading never calls %s for the %s" % want, F.fn_loc(fid))
    rep.floor("parameter loads", 2)


def plainfield(e):
    e = strip(e)
    return str(e[2]) if e[0] == "fld" else None


def cell_fields(F, rep):
    """Cell::from_repr: every port and the position come from their own slot"""
    for fid, rd in ((CELL + "::from_repr", True), (CELL + "::to_repr", False)):
        body = flat_or_miss(F, rep, fid)
        if body is None:
            continue
        V = Val(body)
        adt = CELL if rd else "matrix_repr::CellRepr"
        for i, b in enumerate(body.blocks):
            if b["cl"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == adt:
                    names = [f[0] for f in F.adts[adt]["variants"][0]["fields"]]
                    for n, o in zip(names, s[2][2]):
                        e = V.op(o)
                        rep.count("cell representation fields")
                        if n in ("x", "y", "node_id"):
                            src = set(str(x[2]) for x in deep_walk(V, e) if x and x[0] == "fld" and strip(x[1]) == ("arg", 1))
                            if src - {n}:
                                rep.violate("cell:%s:%s" % (last(fid), n), "%s takes '%s' from '%s'" % (fid, n, "/".join(sorted(src))), body.where(i))
                        elif rd:
                            m = n[:-1].replace("in", "inp"), int(n[-1]) - 1
                            src = set()
                            for x in deep_walk(V, e):
                                if x and x[0] == "idx" and strip(x[1])[0] == "fld" and x[2][0] == "k":
                                    src.add((str(strip(x[1])[2]), x[2][1]))
                            if src and src != {m}:
                                rep.violate("cell:%s:%s" % (last(fid), n), "%s takes port '%s' from %s" % (fid, n, sorted(src)), body.where(i))
                        elif e[0] == "agg":
                            for k, x in enumerate(e[2]):
                                want = {"inp": "in", "out": "out"}[n] + str(k + 1)
                                src = set(str(y[2]) for y in deep_walk(V, x) if y and y[0] == "fld" and strip(y[1]) == ("arg", 1))
                                if src and src != {want}:
                                    rep.violate("cell:%s:%s%d" % (last(fid), n, k), "%s saves port '%s' in the slot of '%s'" % (fid, "/".join(sorted(src)), want), body.where(i))
    rep.floor("cell representation fields", 10)


# ---------------------------------------------------------------- P24
def p24(F, tier):
    rep = Report("P24", "other")
    rep.rule("every public change of the matrix (parameter, modulation amount, property, monitored cell, graph synchronisation, clear, load) calls the matching observer method on every path on which there is an observer, with the identity of what changed")
    rep.rule("every such change (monitoring excepted) increases the generation counter on every successful path; nothing ever decreases or resets it")
    table = [("set_param", "update_param", (M + "sync",)), ("set_param_modamt", "update_param", (M + "sync",)), ("set_prop", "update_prop", ()),
             ("monitor_cell", "update_monitor", (CONF + "monitor",)), ("sync", "update_matrix", (M + "monitor_cell",)), ("clear", "update_all", (M + "sync", M + "monitor_cell")), ("from_repr", "update_all", (M + "sync", M + "clear"))]
    for fn, obs, stops in table:
        notify(F, rep, fn, obs, stops)
    for fid in F.fns:
        if not fid.startswith(M) or "{closure" in fid:
            continue
        b = F.body(fid)
        V = Val(b)
        for i, j, p, rv in field_writes(b, V):
            if p == ("arg1", "gen_counter"):
                rep.count("generation writes")
                if not bumps(V, rv):
                    rep.violate("gen:" + fid, "%s does not increase the generation counter but overwrites it" % fid, b.where(i))
    body = flat_or_miss(F, rep, M + "get_generation")
    if body is not None:
        V = Val(body)
        if "gen_counter" not in rooted_fields(V, V.local(0)):
            rep.violate("gen:get", "get_generation returns something else than the generation counter", F.fn_loc(M + "get_generation"))
    rep.floor("notifications", 7)
    rep.floor("generation writes", 3)
    return rep


def bumps(V, rv):
    if rv is None:
        return False
    e = V.rv(rv, 0)
    if e[0] == "bin" and e[1] in ("Add", "AddUnchecked"):
        ks = [x for x in (e[2], e[3]) if x[0] == "k"]
        return any(x[1] >= 1 for x in ks) and any("gen_counter" in rooted_fields(V, x) for x in (e[2], e[3]))
    if e[0] == "call" and last(e[1]) in ("wrapping_add", "saturating_add"):
        return e[2][1][0] == "k" and e[2][1][1] >= 1
    if e[0] == "bin" or e[0] == "un":
        return False
    return e[0] not in ("k", "fld")


def notify(F, rep, fn, obs, stops):
    fid = M + fn
    body = flat_or_miss(F, rep, fid, stop=lambda p: p in stops or p.startswith(CONF) or p in (PD + "from_repr", BF + "load_snapshot") or (p.startswith(NG)))
    if body is None:
        return
    V = Val(body)
    fl = Flow(body)
    N = trait_calls(body, V, obs)
    rep.count("notifications", 1 if N else 0)
    ne = none_edges(body, V, "observer")
    starts = [(0, {})]
    if fn == "sync":
        bad = 0 in leaves(fl, starts, avoid=N, avoid_edges=ne)
    else:
        bad = must_pass(body, 0, N, avoid_edges=ne) is not None
    if bad:
        rep.violate("notify:" + fn, "Matrix::%s can return without calling %s on the observer" % (fn, obs), F.fn_loc(fid))
    for i in N:
        c = extra_conds(V, i)
        a = [V.op(x) for x in body.blocks[i]["t"]["a"]]
        if fn in ("set_param", "set_param_modamt", "set_prop") and not any(x == ("arg", 2) for x in deep_walk(V, a[1])):
            rep.violate("notify-id:" + fn, "Matrix::%s notifies the observer about something else than what changed" % fn, body.where(i))
        if fn == "monitor_cell" and not ("monitored_cell" in rooted_fields(V, a[1]) or any(x == ("arg", 2) for x in deep_walk(V, a[1]))):
            rep.violate("notify-id:" + fn, "Matrix::monitor_cell notifies the observer about another cell", body.where(i))
    if fn == "monitor_cell":
        monitor(F, rep, body, V)
        from .fb import monitor_conf
        monitor_conf(F, rep)
        return
    G = [i for i, j, p, rv in field_writes(body, V) if p == ("arg1", "gen_counter")]
    G += calls_of(body, *[s for s in stops if s in (M + "sync", M + "clear")])
    if 0 in leaves(fl, starts, avoid=G) or (fn in ("set_param", "set_prop", "clear") and must_pass(body, 0, G) is not None) or (fn in ("set_param_modamt",) and leaves(fl, starts, avoid=G)):
        rep.violate("gen-missing:" + fn, "Matrix::%s can succeed without increasing the generation counter" % fn, F.fn_loc(fid))
    if fn == "set_param_modamt":
        for i, t in body.calls():
            if callname(t) == M + "sync" or not t["a"]:
                continue
        # an observer taken out has to be put back
        takes = [i for i, t in body.calls() if last(callname(t)) == "take" and t["a"] and self_path(V.op(t["a"][0])) == ("arg1", "observer")]
        back = [i for i, j, p, rv in field_writes(body, V) if p == ("arg1", "observer")]
        back += [i for i, t in body.calls() if last(callname(t)) in ("replace", "insert", "swap") and t["a"] and self_path(V.op(t["a"][0])) == ("arg1", "observer")]
        for i in takes:
            rep.count("observers put aside")
            if must_pass(body, i, [x for x in back if x != i]) is not None:
                rep.violate("observer-lost", "Matrix::set_param_modamt can lose the observer", body.where(i))
    if fn == "set_prop":
        ins = [i for i, t in body.calls() if last(callname(t)) == "insert" and self_path(V.op(t["a"][0])) == ("arg1", "properties")]
        if must_pass(body, 0, ins) is not None:
            rep.violate("prop-lost", "Matrix::set_prop can return without having stored the property", F.fn_loc(fid))
        for i in ins:
            a = [V.op(x) for x in body.blocks[i]["t"]["a"]]
            if not any(x == ("arg", 2) for x in deep_walk(V, a[1])) or not any(x == ("arg", 3) for x in deep_walk(V, a[2])):
                rep.violate("prop-value", "Matrix::set_prop stores another key or value", body.where(i))


def monitor(F, rep, body, V):
    fid = M + "monitor_cell"
    W = [i for i, j, p, rv in field_writes(body, V) if p == ("arg1", "monitored_cell")]
    C = calls_of(body, CONF + "monitor")
    for i, j, p, rv in field_writes(body, V):
        if p[:2] == ("arg1", "monitored_cell") and not any(x == ("arg", 2) for x in deep_walk(V, V.rv(rv, 0))):
            rep.violate("monitor:other", "Matrix::monitor_cell remembers something else than the cell it is given", body.where(i))
    if must_pass(body, 0, W) is not None:
        rep.violate("monitor:keep", "Matrix::monitor_cell can return without remembering the cell", F.fn_loc(fid))
    if must_pass(body, 0, C) is not None:
        rep.violate("monitor:config", "Matrix::monitor_cell can return without starting to monitor the cell", F.fn_loc(fid))
    for c in C:
        a = [strip(V.op(x)) for x in body.blocks[c]["t"]["a"]]
        for k, want in ((2, ["in1", "in2", "in3"]), (3, ["out1", "out2", "out3"])):
            e = a[k]
            if e[0] == "agg":
                fs = [str(strip(x)[2]) for x in e[2] if strip(x)[0] == "fld"]
                rep.count("monitored port lists")
                if len(fs) == 3 and fs != want:
                    rep.violate("monitor:ports", "Matrix::monitor_cell monitors the ports %s instead of %s" % (fs, want), body.where(c))
