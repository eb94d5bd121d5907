"""P25: building and placing chains of cells."""
import re
from .matrix import *
from .geom import is_eq as cmp_call, run as ccp_run, one, dirname, EDGES, PORT, OPP, CD, enum, subs, vals

MC = "chain_builder::MatrixCellChain::"
MOD = {"min", "max", "clamp", "abs", "round", "floor", "ceil", "trunc", "powf", "powi", "sqrt", "rem_euclid", "signum", "fract"}


def stop(p):
    return cmp_call(p) or p.startswith(("matrix::", "dsp::", "cell_dir::")) or "as std::clone::Clone" in p and "SAtom" in p


def fl_body(F, rep, fn):
    return flat_or_miss(F, rep, MC + fn, stop=stop)


def p25(F, tier):
    rep = Report("P25", "other")
    rep.rule("place: with a stored error nothing is changed and the error returned; otherwise every link is placed, in order, at positions that follow from the link's direction and the column before the step, as a node instance that get_unused_instance_node_id returned for it and that is remembered before the next link is looked at; the ports are kept; every stored parameter is set, in order, at the instance that was placed")
    rep.rule("the builder functions store an error for unknown nodes, ports and parameters, put inputs and outputs at the chain's input and output direction, add links at the end and parameters to the link at the parameter index, denormalised values converted once")
    place(F, rep)
    params(F, rep)
    nodes(F, rep)
    dirs_(F, rep)
    rep.assume("a node instance counts as unused if the last synced graph does not use it (cells placed since the last sync are not known to the node configuration)")
    return rep


def matrix_changes(F, body):
    return [i for i, t in body.calls() if (F.callee(t) or "").startswith("matrix::Matrix::") and mut_self(F, F.callee(t))]


# ---- place -------------------------------------------------------------------
def place(F, rep):
    fid = MC + "place"
    body = fl_body(F, rep, "place")
    if body is None:
        return
    V = Val(body)
    fl = Flow(body)
    ch = matrix_changes(F, body)
    P = calls_of(body, "matrix::Matrix::place") + calls_of(body, "matrix::Matrix::place_cell")
    rep.count("placements", len(P))
    if not P:
        rep.violate("place:none", "place() places no cell", F.fn_loc(fid))
        return
    ne = none_edges(body, V, "error")
    seen = fl.run([(0, {})], avoid_edges=ne)
    rep.count("error guards", len(ne))
    for i in ch:
        if i in seen:
            rep.violate("error:ignored", "place() changes the matrix although building the chain failed", body.where(i))
    for _, r in fl.returns(seen):
        if r == 0:
            rep.violate("error:hidden", "place() reports success although building the chain failed", F.fn_loc(fid))
    for i in P:
        a = body.blocks[i]["t"]["a"]
        e = [V.op(x) for x in a]
        ln = [x for x in deep_walk(V, e[-1]) if x and x[0] == "call" and last(x[1]) == "next"]
        if "chain" in rooted_fields(V, e[-1]):
            for n in adaptors(V, e[-1]):
                if n in ("rev", "skip", "take", "filter", "step_by", "skip_while", "take_while", "filter_map", "last", "first", "[range]", "rchunks", "chunks"):
                    rep.violate("place:all", "place() does not place the links of the chain in their order (%s)" % n, body.where(i))
        for c, v, b in dev_conds(body, V, i):
            if c[0] == "discr" and any(x and x[0] == "call" and last(x[1]) == "next" for x in deep_walk(V, c)) or "error" in rooted_fields(V, c):
                continue
            if not data_cond(V, c):
                continue
            rep.violate("place:some", "place() skips links of the chain under a condition", body.where(i))
        if len(e) == 4:
            position(F, rep, body, V, i, a, e)
        instance(F, rep, body, V, fl, i, e[-1])
    setting(F, rep, body, V, fl)


def data_cond(V, c):
    """the condition looks at what a cell, node, parameter or value is"""
    for x in expand_alts(V, c):
        while x[0] == "un" and x[1] == "Not":
            x = x[2]
        for y in expand_alts(V, x):
            if y[0] == "discr" and uncast(y[1])[0] == "call" and last(uncast(y[1])[1]) in ("next", "inp_param", "inp_param_by_idx", "get"):
                continue
            for z in walk(y):
                if z and z[0] == "call" and re.match(r"matrix::Matrix::(get|param)|matrix::Cell::|dsp::NodeId::|dsp::ParamId::|dsp::satom|dsp::SAtom", strip_gen(z[1])) and last(z[1]) not in ("inp_param", "inp_param_by_idx"):
                    return True
                if z and z[0] == "discr" and uncast(z[1])[0] == "fld" and uncast(z[1])[2] in ("1",):
                    return True
    return False


def pos_of(body, o):
    """(local, field path) of the mutable variable an operand is a copy of, and
    where it was read"""
    at = None
    for _ in range(20):
        if o[0] not in ("c", "m"):
            return None
        l, pr = o[1]
        fs = tuple(q[1] for q in pr if isinstance(q, list) and q[0] == "f")
        ds = body.defs().get(l, [])
        if fs and all(isinstance(q, list) and q[0] == "f" for q in pr):
            whole = [d for d in ds if d[2] != "part"]
            if len(ds) == 1 and whole and ds[0][2] == "assign" and ds[0][3][2][0] == "agg":
                o = ds[0][3][2][2][fs[0]]
                at = (ds[0][0], ds[0][1])
                continue
            if len(ds) == 1 and whole and ds[0][2] == "assign" and ds[0][3][2][0] == "use":
                o2 = ds[0][3][2][1]
                if o2[0] in ("c", "m"):
                    at = (ds[0][0], ds[0][1])
                    o = [o2[0], [o2[1][0], o2[1][1] + pr]]
                    continue
            return (l, fs), at
        if pr:
            return None
        if len(ds) != 1:
            return (l, ()), at
        if ds[0][2] != "assign" or ds[0][3][2][0] != "use":
            return None
        at = (ds[0][0], ds[0][1])
        o = ds[0][3][2][1]
    return None


def pos_defs(body, V, var):
    """[(block, statement, expression)] of the values assigned to a variable"""
    l, fs = var
    out = []
    for i, j, k, s in body.defs().get(l, []):
        if k == "part":
            pl = s[1] if isinstance(s, (list, tuple)) and s[0] == "=" else s["d"]
            f2 = tuple(q[1] for q in pl[1] if isinstance(q, list) and q[0] == "f")
            if f2[:len(fs)] == fs and fs:
                out.append((i, j, V.rv(s[2], 0) if not isinstance(s, dict) else V.call(i, s, 0)))
        elif k == "assign":
            e = V.rv(s[2], 0)
            for f in fs:
                e = e[2][f] if e[0] == "agg" and f < len(e[2]) else ("fld", e, str(f))
            out.append((i, j, e))
        else:
            e = V.call(i, s, 0)
            for f in fs:
                e = ("fld", e, str(f))
            out.append((i, j, e))
    return out


def uncast(e):
    while e[0] in ("cast", "ref", "deref"):
        e = e[2] if e[0] == "cast" else e[1]
    return e


def position(F, rep, body, V, i, a, e):
    names = ("column", "row")
    for k in (0, 1):
        pv = pos_of(body, a[1 + k])
        if pv is None:
            if e[1 + k] in (("arg", 3), ("arg", 4)) or e[1 + k][0] == "k":
                rep.violate("pos:fixed:" + names[k], "place() puts all links of the chain into the same %s" % names[k], body.where(i))
            continue
        var, rd = pv
        rep.count("positions followed")
        other = pos_of(body, a[2 - k])
        ds = pos_defs(body, V, var)
        ups = 0
        for bb, j, x in ds:
            x = uncast(x)
            offs = [y for y in walk(x) if y and y[0] == "call" and last(y[1]) in ("as_offs", "offs_pos")]
            if not offs:
                if x[0] == "arg":
                    if x != ("arg", 3 + k):
                        rep.violate("pos:start:" + names[k], "place() starts in another %s than the given one" % names[k], body.where(bb))
                elif x[0] == "k":
                    rep.violate("pos:start:" + names[k], "place() starts in another %s than the given one" % names[k], body.where(bb))
                else:
                    ups += 1
                continue
            ups += 1
            # which component of the offset is used
            for y in walk(x):
                if y and y[0] == "fld" and uncast(y[1])[0] == "call" and last(uncast(y[1])[1]) == "as_offs":
                    if str(y[2]) != str(k):
                        rep.violate("pos:comp:" + names[k], "place() adds the offset of the other axis to the %s" % names[k], body.where(bb))
                if y and y[0] == "bin" and y[1] in ("Sub", "SubWithOverflow", "Mul") and any(z and z[0] == "call" and last(z[1]) == "as_offs" for z in walk(y[3])):
                    rep.violate("pos:sign:" + names[k], "place() walks against the direction of the chain", body.where(bb))
            for y in offs:
                if any(z and z[0] == "call" and last(z[1]) in ("flip", "input_dir") for z in walk(y[2][0])):
                    rep.violate("pos:dir", "place() walks against the direction of the chain", body.where(bb))
                oc = y[3] if len(y) > 3 else None
                if last(y[1]) != "as_offs" or oc is None:
                    continue
                cp = pos_of(body, body.blocks[oc]["t"]["a"][1])
                colv = pos_of(body, a[1])
                if cp is None:
                    if uncast(V.op(body.blocks[oc]["t"]["a"][1])) in (("arg", 3), ("arg", 4)) or uncast(V.op(body.blocks[oc]["t"]["a"][1]))[0] == "k":
                        rep.violate("pos:parity", "place() looks up the offset for a fixed column", body.where(oc))
                    continue
                if colv and cp[0] != colv[0]:
                    rep.violate("pos:parity", "place() looks up the offset for something else than the column of the link", body.where(oc))
                    continue
                at = cp[1] or (oc, 1 << 20)
                if colv:
                    for b2, j2, x2 in pos_defs(body, V, colv[0]):
                        if uncast(x2)[0] == "arg":
                            continue
                        # the column is advanced, then the offset looked up, in the same round
                        if b2 == at[0] and j2 < at[1] or b2 != at[0] and at[0] in body.reachable(body.succ(b2), avoid=[i]) and i not in (b2, at[0]) and not body.dominates(at[0], b2):
                            rep.violate("pos:parity", "place() looks up the offset after the column was already advanced", body.where(oc))
        if not ups:
            rep.violate("pos:stay:" + names[k], "place() never advances the %s" % names[k], body.where(i))


def instance(F, rep, body, V, fl, i, cell):
    S = calls_of(body, "matrix::Cell::set_node_id_keep_ios")
    bad = calls_of(body, "matrix::Cell::set_node_id")
    for b in bad:
        rep.violate("ports:lost", "place() loses the ports of the links (set_node_id)", body.where(b))
    U = calls_of(body, "matrix::Matrix::get_unused_instance_node_id")
    rep.count("instances chosen", len(U))
    if not U:
        rep.violate("inst:used", "place() does not ask for unused node instances", body.where(i))
        return
    if not S:
        if not bad and must_pass(body, 0, U, [i]) is None:
            rep.violate("inst:ignored", "place() does not give the cells the instance it chose", body.where(i))
        return
    heads = [h for h, bl in body.loops().items() if i in bl]
    start = heads[0] if heads else 0
    if heads:
        start = min(heads, key=lambda h: len(body.loops()[h]))
        # the loop whose rounds are the links
        for h in heads:
            if any(u in body.loops()[h] for u in U) and any(s in body.loops()[h] for s in S):
                start = h
    if must_pass(body, start, U, S) is not None:
        rep.violate("inst:used", "place() can give a link an instance without asking whether it is unused", body.where(S[0]))
    if must_pass(body, start, S, [i]) is not None:
        rep.violate("inst:ignored", "place() can place a link without giving it the instance that was chosen", body.where(i))
    isu = lambda z: z and z[0] == "call" and last(z[1]) == "get_unused_instance_node_id"
    for s in S:
        e = V.op(body.blocks[s]["t"]["a"][1])
        alts = expand_alts(V, e)
        for x in alts:
            if not any(isu(z) for z in deep_walk(V, x)):
                rep.violate("inst:used", "place() gives links another instance than the unused one it got", body.where(s))
            for z in walk(x):
                if z and z[0] == "call" and last(z[1]) in ("to_instance",) and any(isu(w) for w in walk(z[2][1])) and not nested_in(x, z, isu):
                    rep.violate("inst:used", "place() gives links another instance than the unused one it got", body.where(s))
    for u in U:
        x = V.op(body.blocks[u]["t"]["a"][1])
        # distinct from the earlier instances of the chain
        if not any(z and z[0] == "call" and last(z[1]) == "node_id" for z in deep_walk(V, x)) and not any(z and z[0] == "fld" and z[2] == "node_id" for z in deep_walk(V, x)):
            rep.violate("inst:kind", "place() asks for an instance of something else than the link's node", body.where(u))
    # what was chosen is remembered
    ins = [(b, t) for b, t in body.calls() if last(callname(t) or trait_call(t)) in ("insert", "push", "and_modify", "extend", "push_back", "replace") and t["a"] and not rooted_fields(V, V.op(t["a"][0])) & {"params", "chain"}]
    good, reads = [], []
    for b, t in ins:
        vs = [V.op(x) for x in t["a"][1:]]
        if any(isu(z) for v in vs for z in deep_walk(V, v)) or any(z and z[0] == "var" for v in vs for z in deep_walk(V, v)):
            if any(u in body.reachable(body.succ(b)) for u in U):
                if not any(z and z[0] == "call" and last(z[1]) in ("inp_param",) for v in vs for z in deep_walk(V, v)):
                    good.append(b)
    for b, t in body.calls():
        if last(callname(t)) in ("or_insert", "or_insert_with", "or_default", "get_mut", "index_mut") and stored_through(body, V, b):
            good.append(b)
    # plain variables that carry the instance over to the next round
    carried = False
    for u in U:
        for x in expand_alts(V, V.op(body.blocks[u]["t"]["a"][1])):
            if any(z and z[0] == "var" for z in walk(x)):
                carried = True
    rep.count("instances remembered", len(good))
    if start and not carried:
        if not good:
            rep.violate("inst:same", "place() does not remember the instances it gave to earlier links: two links get the same instance", body.where(U[0]))
        elif fresh_path(body, U, good, start):
            rep.violate("inst:same", "place() can go on with the next link without remembering the chosen instance", body.where(U[0]))
        else:
            # the remembered instances are looked up, and the search starts behind them
            get = [(b, t) for b, t in body.calls() if last(callname(t)) in ("get", "get_mut", "contains", "contains_key", "entry", "index", "remove", "any", "max", "copied", "last", "iter", "get_or_insert_with") and any(u in body.reachable(body.succ(b), avoid=[start]) for u in U)]
            if not get:
                rep.violate("inst:same", "place() does not look up which instances it already used", body.where(U[0]))
            for u in U:
                for x in expand_alts(V, V.op(body.blocks[u]["t"]["a"][1])):
                    for z in walk(x):
                        if z and z[0] == "call" and last(z[1]) == "to_instance":
                            n = uncast(z[2][1])
                            if n[0] in ("call", "fld") and any(w and w[0] == "call" and last(w[1]) in ("get", "cloned", "copied", "get_mut", "remove") for w in walk(n)) and not any(w and w[0] == "bin" for w in walk(n)) and not stored_plus(V, ins):
                                rep.violate("inst:same", "place() starts the search at the instance it already used", body.where(u))
        keys(rep, body, V, ins, good)


def stored_through(body, V, b):
    """something is written through the reference the call in block b returned"""
    for i, bl in enumerate(body.blocks):
        for s in bl["s"]:
            if s[0] == "=" and "*" in s[1][1] and any(z and z[0] == "call" and len(z) > 3 and z[3] == b for z in walk(V.place(s[1]))):
                return True
    return False


def stored_plus(V, ins):
    """the remembered number is already the next one"""
    return any(any(z and z[0] == "bin" and z[1].startswith("Add") for z in deep_walk(V, V.op(t["a"][-1]))) for b, t in ins)


def nested_in(x, z, isu):
    """z only occurs as (part of) an argument of a search"""
    def out(y):
        if y is z or y == z:
            return True
        if isu(y):
            return False
        return isinstance(y, tuple) and any(out(q) for q in y if isinstance(q, tuple))
    return not out(x)


def fresh_path(body, U, good, start):
    for u in U:
        r = body.reachable(body.succ(u), avoid=good)
        if start in r:
            # the remembering may lie before the search (then it has to come next time)
            r2 = body.reachable([start], avoid=good)
            if u in r2:
                return True
    return False


def keys(rep, body, V, ins, good):
    gets = [t for b, t in body.calls() if last(callname(t)) in ("get", "get_mut", "contains_key", "remove") and ("HashMap" in callname(t) or "BTreeMap" in callname(t))]
    for b, t in ins:
        if b in good and len(t["a"]) == 3 and gets:
            k = keyexpr(V, V.op(t["a"][1]))
            if k and all(keyexpr(V, V.op(g["a"][1])) not in (None, k) for g in gets):
                rep.violate("inst:key", "place() remembers the instance under another name than it looks it up", body.where(b))


def keyexpr(V, e):
    """name() of the link's node in different spellings"""
    e = uncast(e)
    while e[0] == "call" and last(e[1]) in ("to_string", "to_owned", "clone", "into", "from", "deref", "as_str", "borrow") and e[2]:
        e = uncast(e[2][0])
    if e[0] == "k":
        return ("const", e)
    if e[0] == "call":
        return ("call", last(e[1]))
    return None


def expand_alts(V, e):
    e = uncast(e)
    if e[0] == "var":
        ds = V.var_defs(e[1])
        if ds:
            out = []
            for _, x in ds:
                out += [x] if x[0] == "var" else expand_alts(V, x)
            return out
    return [e]


def deep_alts(V, e):
    out = list(deep_walk(V, e))
    return out


def setting(F, rep, body, V, fl):
    """link parameters"""
    SP = calls_of(body, "matrix::Matrix::set_param")
    rep.count("parameters set", len(SP))
    if not SP:
        rep.violate("param:none", "place() does not set the parameters of the links", F.fn_loc(MC + "place"))
        return
    P = calls_of(body, "matrix::Matrix::place")
    for s in SP:
        a = [V.op(x) for x in body.blocks[s]["t"]["a"]]
        src = sources(body, V, a[1])
        vsrc = sources(body, V, a[2])
        if src is None:
            continue
        for x in src:
            ds = list(deep_walk(V, x))
            if not any(z and z[0] == "call" and last(z[1]) in ("get_unused_instance_node_id", "inp_param", "inp_param_by_idx", "with_node_id", "instance") for z in ds) and not any(z and z[0] == "agg" and "ParamId" in str(z[1]) for z in ds):
                rep.violate("param:inst", "place() sets the parameters on another node instance than the placed one", body.where(s))
            else:
                ip = [z for z in ds if z and z[0] == "call" and last(z[1]) in ("inp_param", "inp_param_by_idx")]
                for z in ip:
                    if not any(w and w[0] == "call" and last(w[1]) == "get_unused_instance_node_id" for q in expand_alts(V, z[2][0]) for w in deep_walk(V, q)):
                        rep.violate("param:inst", "place() sets the parameters on another node instance than the placed one", body.where(s))
        for x in (vsrc or []):
            for z in deep_walk(V, x):
                if z and (z[0] == "call" and last(z[1]) in MOD | {"norm", "denorm", "default_value", "inp_param_defaults"} or z[0] == "bin"):
                    rep.violate("param:value", "place() changes the values of the parameters", body.where(s))
        for x in src + [a[1]]:
            for n in adaptors(V, x):
                if n in ("rev", "skip", "take", "step_by", "first", "last", "skip_while", "take_while", "[range]", "pop", "filter"):
                    rep.violate("param:all", "place() does not set all parameters in their order (%s)" % n, body.where(s))
        okc = ("next", "error", "params", "chain")
        for c, v, b in dev_conds(body, V, s):
            if not data_cond(V, c):
                continue
            rep.violate("param:some", "place() skips parameters under a condition", body.where(s))


def sources(body, V, e):
    """expressions an element taken out of a local collection was put in as"""
    roots = [z for z in deep_walk(V, e) if z and z[0] == "call" and last(z[1]) == "next"]
    if not any(rooted_fields(V, z) for z in roots):
        comp = None
        x = uncast(e)
        if x[0] == "fld" and str(x[2]).isdigit():
            comp = int(x[2])
        out = []
        for i, t in body.calls():
            if last(callname(t)) in ("push", "push_back") and len(t["a"]) == 2:
                v = V.op(t["a"][1])
                if v[0] == "agg" and len(v[2]) == 2 and comp is not None:
                    out.append(v[2][comp])
        return out or None
    return [e]


# ---- parameters of the links -------------------------------------------------
def params(F, rep):
    for fn, kind in (("set_denorm", "denorm"), ("set_norm", "norm"), ("set_atom", "atom")):
        body = fl_body(F, rep, fn)
        if body is None:
            continue
        V = Val(body)
        fl = Flow(body)
        rep.count("parameter builders")
        I = calls_of(body, "dsp::NodeId::inp_param")
        push = [i for i, t in body.calls() if last(callname(t)) in ("push", "insert", "extend", "push_back") and "params" in rooted_or_deep(V, V.op(t["a"][0]))]
        err = err_stores(body, V)
        if not I:
            continue
        if not push:
            rep.violate("set:none:" + fn, "%s does not store the parameter" % fn, F.fn_loc(MC + fn))
            continue
        for i in I:
            no = fl.run(forced(fl, i, ("v", 0)))
            yes = fl.run(forced(fl, i, ("v", 1)))
            if any(p in no for p in push):
                rep.violate("set:unknown:" + fn, "%s stores a parameter the node does not have" % fn, body.where(i))
            if set(body.returns()) & set(fl.run(forced(fl, i, ("v", 0)), avoid=err)):
                rep.violate("set:error:" + fn, "%s does not report an unknown parameter" % fn, body.where(i))
            if set(body.returns()) & set(fl.run(forced(fl, i, ("v", 1)), avoid=push)):
                rep.violate("set:skip:" + fn, "%s can drop a parameter" % fn, body.where(i))
            if any(p in yes for p in err):
                rep.violate("set:error:" + fn, "%s reports an error for a known parameter" % fn, body.where(i))
            if not any(z == ("arg", 2) for z in deep_walk(V, V.op(body.blocks[i]["t"]["a"][1]))):
                rep.violate("set:name:" + fn, "%s sets another parameter than the named one" % fn, body.where(i))
        for p in push:
            t = body.blocks[p]["t"]
            r = V.op(t["a"][0])
            if "param_idx" not in rooted_or_deep(V, r):
                rep.violate("set:link:" + fn, "%s stores the parameter in another link than the current one" % fn, body.where(p))
            v = V.op(t["a"][-1])
            at = v[2][1] if v[0] == "agg" and len(v[2]) == 2 else v
            ds = list(deep_walk(V, at))
            if ("arg", 3) not in ds:
                rep.violate("set:value:" + fn, "%s stores another value than the given one" % fn, body.where(p))
            nrm = [z for z in ds if z and z[0] == "call" and last(z[1]) == "norm"]
            for z in ds:
                if z and (z[0] == "call" and last(z[1]) in MOD | {"denorm", "round", "fine"} or z[0] == "bin"):
                    rep.violate("set:value:" + fn, "%s stores another value than the given one" % fn, body.where(p))
            if kind == "denorm" and len(nrm) != 1:
                rep.violate("set:norm:" + fn, "set_denorm does not convert the value to its normalised form", body.where(p))
            if kind != "denorm" and nrm:
                rep.violate("set:norm:" + fn, "%s converts a value that is already in its final form" % fn, body.where(p))
            for z in nrm:
                if not any(w and w[0] == "call" and last(w[1]) == "inp_param" for w in deep_walk(V, z[2][0])):
                    rep.violate("set:norm:" + fn, "%s converts the value with another parameter's range" % fn, body.where(p))


def rooted_or_deep(V, e):
    return set(rooted_fields(V, e)) | set(z[2] for z in deep_walk(V, e) if z and z[0] == "fld" and isinstance(z[2], str))


def err_stores(body, V):
    out = []
    for i, j, p, rv in field_writes(body, V):
        if p == ("arg1", "error"):
            e = V.rv(rv, 0) if rv is not None else None
            if e is not None and e[0] == "agg" and "None" in str(e[1]):
                continue
            out.append(i)
    for i, t in body.calls():
        if last(callname(t)) in ("replace", "insert", "get_or_insert", "get_or_insert_with") and t["a"] and self_path(V.op(t["a"][0])) == ("arg1", "error"):
            out.append(i)
    return out


# ---- adding links --------------------------------------------------------------
def chain_pushes(body, V):
    return [i for i, t in body.calls() if last(callname(t)) == "push" and (self_path(V.op(t["a"][0])) or ())[:2] == ("arg1", "chain")]


def nodes(F, rep):
    for fn, ports in (("node", {}), ("node_out", {"out": 3}), ("node_inp", {"inp": 3}), ("node_io", {"inp": 3, "out": 4})):
        body = fl_body(F, rep, fn)
        if body is None:
            continue
        V = Val(body)
        fl = Flow(body)
        rep.count("node builders")
        push = chain_pushes(body, V)
        err = err_stores(body, V)
        ins = [i for i, t in body.calls() if last(callname(t)) in ("insert", "push_front") and (self_path(V.op(t["a"][0])) or ())[:2] == ("arg1", "chain")]
        if ins and not push:
            rep.violate("node:order:" + fn, "%s does not add the node at the end of the chain" % fn, body.where(ins[0]))
            continue
        if not push:
            rep.violate("node:none:" + fn, "%s does not add a node to the chain" % fn, F.fn_loc(MC + fn))
            continue
        for p in push:
            e = V.op(body.blocks[p]["t"]["a"][1])
            ds = list(deep_walk(V, e))
            if e[0] == "agg":
                if not any(z and z[0] == "call" and last(z[1]) == "from_str" for z in ds):
                    rep.violate("node:which:" + fn, "%s adds something else than the named node" % fn, body.where(p))
                if any(z and z[0] == "call" and last(z[1]) in ("flip",) for x in e[2] for z in walk(x)) :
                    rep.violate("node:dir:" + fn, "%s records another direction than the chain's" % fn, body.where(p))
        # the current link for parameters
        ix = [i for i, j, pth, rv in field_writes(body, V) if pth == ("arg1", "param_idx")]
        rep.count("links added", len(push))
        for p in push:
            if not ix or must_pass(body, p, ix) is not None and not any(body.dominates(x, p) for x in ix):
                rep.violate("node:current:" + fn, "parameters set after %s go to an earlier link" % fn, body.where(p))
        for i, j, pth, rv in field_writes(body, V):
            if pth == ("arg1", "param_idx") and rv is not None:
                e = uncast(V.rv(rv, 0))
                ln = [z for z in deep_walk(V, e) if z and z[0] == "call" and last(z[1]) == "len"]
                before = all(p in body.reachable(body.succ(i)) for p in push)
                if e[0] == "bin" and e[1].startswith("Sub") and e[3][0] == "k" and ln:
                    lb = ln[0][3] if len(ln[0]) > 3 else i
                    n = e[3][1]
                    aft = all(lb in body.reachable(body.succ(p)) for p in push)
                    if n != (1 if aft else 0):
                        rep.violate("node:current:" + fn, "parameters set after %s go to another link" % fn, body.where(i))
                elif e[0] == "call" and last(e[1]) == "len":
                    lb = e[3] if len(e) > 3 else i
                    if any(lb in body.reachable(body.succ(p)) for p in push):
                        rep.violate("node:current:" + fn, "parameters set after %s have no link to go to" % fn, body.where(i))
                elif e[0] == "k":
                    rep.violate("node:current:" + fn, "parameters set after %s go to another link" % fn, body.where(i))
        # ports
        for kind, setter in (("inp", "set_input_by_name"), ("out", "set_output_by_name")):
            sc = calls_of(body, "matrix::Cell::" + setter)
            if kind not in ports:
                if sc:
                    rep.violate("node:port:%s:%s" % (fn, kind), "%s sets a port it was not asked for" % fn, body.where(sc[0]))
                continue
            if not sc:
                if not any((F.callee(t) or "").startswith("matrix::Cell::set_io") for _, t in body.calls()):
                    rep.violate("node:port:%s:%s" % (fn, kind), "%s does not set the named %sput" % (fn, "in" if kind == "inp" else "out"), F.fn_loc(MC + fn))
                continue
            for s in sc:
                rep.count("ports assigned")
                a = [V.op(x) for x in body.blocks[s]["t"]["a"]]
                if ("arg", ports[kind]) not in set(deep_walk(V, a[1])):
                    rep.violate("node:port:%s:%s" % (fn, kind), "%s sets another port than the named one" % fn, body.where(s))
                bad = fl.run(forced(fl, s, ("v", 1)), avoid=err)
                if set(body.returns()) & set(bad):
                    rep.violate("node:porterr:%s:%s" % (fn, kind), "%s does not report an unknown %sput" % (fn, "in" if kind == "inp" else "out"), body.where(s))
                for p in push:
                    if p in fl.run([(0, {})], avoid=[s]):
                        rep.violate("node:port:%s:%s" % (fn, kind), "%s can add the node without the named %sput" % (fn, "in" if kind == "inp" else "out"), body.where(p))
        # unknown names
        unknown(F, rep, body, fn, push, err)


def unknown(F, rep, body, fn, push, err):
    for isnop, nopname, known in ((1, 0, False), (1, 1, True), (0, 0, True)):
        def decide(e, isnop=isnop, nopname=nopname):
            if e[0] == "not":
                r = decide(e[1])
                return None if r is None else 1 - r
            z = list(subs(e))
            fs = any(len(x) > 1 and x[0] == "call" and isinstance(x[1], str) and last(x[1]) == "from_str" for x in z)
            eq = e[0] == "bin" and e[1] in ("Eq", "Ne") and e[1] == "Eq" or e[0] == "call" and last(e[1]) == "eq"
            if e[0] == "bin" and e[1] in ("Eq", "Ne") or e[0] == "call" and last(e[1]) in ("eq", "ne"):
                if fs:
                    return int(bool(isnop) == eq)
                if ("a2",) in z:
                    return int(bool(nopname) == eq)
            if e[0] == "discr" and fs:
                if e[1][0] == "call" and last(e[1][1]) == "from_str":
                    return 0 if isnop else 7
            return None
        c = ccp_run(F, body, {}, mark=push + err, decide=decide)
        if c is None or c.coarse:
            continue
        rep.count("node names distinguished")
        for st in c.rets:
            sn = st["seen"]
            if not known and sn & set(push):
                rep.violate("node:unknown:" + fn, "%s adds a link for an unknown node name" % fn, F.fn_loc(MC + fn))
            if not known and not sn & set(err):
                rep.violate("node:unknownerr:" + fn, "%s does not report an unknown node name" % fn, F.fn_loc(MC + fn))
            if known and not sn & set(push):
                rep.violate("node:known:" + fn, "%s does not add a known node" % fn, F.fn_loc(MC + fn))


# ---- directions ----------------------------------------------------------------
def dirs_(F, rep):
    """the directions the builders give to the port setters"""
    for fn, setter, want in (("node_out", "set_output_by_name", "out"), ("node_inp", "set_input_by_name", "in"), ("node_io", "set_output_by_name", "out"), ("node_io", "set_input_by_name", "in")):
        if MC + fn not in F.fns:
            continue
        body = flat(F, MC + fn, stop=lambda p: cmp_call(p) or p.startswith(("matrix::", "dsp::")))
        sc = calls_of(body, "matrix::Cell::" + setter)
        for d in EDGES:
            me = chain_value(F, d)
            c = ccp_run(F, body, {1: ("refv", me)} if me else {})
            if c is None:
                continue
            got = set()
            for s in sc:
                for vs, st in c.calls.get(s, ()):
                    n = dirname(vs[2]) if len(vs) > 2 else None
                    got.add(n)
            if len(got) != 1 or None in got:
                continue
            n = got.pop()
            rep.count("port directions")
            w = d if PORT[d].startswith(want) else OPP[d]
            if n != w:
                rep.violate("dir:%s:%s" % (fn, want), "%s puts the %sput of a chain in direction %s at %s instead of %s" % (fn, want, d, n, w), F.fn_loc(MC + fn))


def chain_value(F, d):
    """abstract MatrixCellChain with the given direction"""
    return ("ov", ("a1",), (("dir", enum(F, CD, d)),))
