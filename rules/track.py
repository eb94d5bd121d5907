"""P19: what the user edits in a pattern is what the sequencer gets to play."""
from hx.report import Report
from rules.common import *
from rules.matrix import strip, unnot, truth, GROW, PARTIAL
from hx.flow import Flow
from hx.interval import interval
from rules.load import lock_edges
from hx.val import Val, walk, deep_walk, fmt, strip_gen

PD = "dsp::tracker::pattern::PatternData"
TR = "dsp::tracker::Tracker"
TB = "dsp::tracker::TrackerBackend"
SEQ = "dsp::tracker::sequencer::PatternSequencer"
SOUND = ("data", "col_types", "rows")
MUTCALL = (GROW - {"get_mut", "iter_mut", "last_mut", "first_mut", "index_mut", "as_mut", "entry", "values_mut"}) | {"take", "replace", "swap", "fill", "insert", "get_or_insert", "get_or_insert_with", "resize", "truncate", "clear", "copy_from_slice", "clone_from_slice", "rotate_left", "rotate_right", "reverse", "sort", "remove", "extend", "swap_with_slice", "copy_within", "push", "pop", "drain"}


def tpath(e):
    """(root expression, [steps]) of a place: field names, ("i", index), ("it", iterator)"""
    out = []
    while True:
        k = e[0]
        if k in ("deref", "ref", "dc", "cast"):
            e = e[1] if k != "cast" else e[2]
        elif k == "fld":
            out.append(str(e[2]))
            e = e[1]
        elif k == "idx":
            out.append(("i", e[2]))
            e = e[1]
        elif k == "sub":
            out.append(("sub",))
            e = e[1]
        elif k == "call" and e[2]:
            n = last(e[1])
            if n in ("get_mut", "get", "index", "index_mut", "get_unchecked_mut"):
                out.append(("i", e[2][1]))
            elif n == "next" or n == "next_back":
                out.append(("it", e[2][0]))
            elif n in ("last_mut", "first_mut", "last", "first"):
                out.append(("?", n))
            elif n in ("iter_mut", "iter", "as_mut", "as_deref_mut", "unwrap", "expect", "lock", "into_iter", "deref_mut", "deref", "as_mut_slice", "borrow_mut", "by_ref", "as_ref"):
                pass
            elif n in ("enumerate", "take", "skip", "rev", "step_by", "zip", "filter"):
                out.append(("ad", n, e[2][1] if len(e[2]) > 1 else None))
            else:
                return None, []
            e = e[2][0]
        else:
            break
    out.reverse()
    return e, out


def clean(st):
    """drop the tuple fields of enumerate / Option and adaptors"""
    return [x for x in st if not (isinstance(x, str) and x.isdigit()) and not (isinstance(x, tuple) and x[0] == "ad")]


def writes(b, V, roots):
    """[(block, steps, rvalue expr or call)] of changes of places below the roots"""
    out = []
    for i, bl in enumerate(b.blocks):
        if bl["cl"]:
            continue
        for s in bl["s"]:
            if s[0] == "=" and s[1][1]:
                r, st = tpath(V.place(s[1]))
                if r in roots:
                    out.append((i, st, V.rv(s[2], 0)))
        t = bl["t"]
        if t["k"] != "call":
            continue
        if t["d"][1]:
            r, st = tpath(V.place(t["d"]))
            if r in roots:
                out.append((i, st, ("call",)))
        n = last(callname(t) or trait_call(t))
        if n in MUTCALL and t["a"]:
            for a in t["a"][: 2 if n in ("swap", "swap_with_slice") else 1]:
                e = V.op(a)
                if e[0] != "ref" and not ismut(b, a):
                    continue
                if not ismut(b, a):
                    continue
                r, st = tpath(e)
                if r in roots and not any(x[0] == "it" for x in st if isinstance(x, tuple) and n in ("take",)):
                    out.append((i, st, ("callw", n, [V.op(x) for x in t["a"]])))
    return out


def ismut(b, o):
    return o[0] in ("c", "m") and not o[1][1] and b.locals[o[1][0]][0].startswith("&mut")


def it_range(V, it):
    """(lo, hi) constants of a range iterator, 'all' for a whole array of columns, else None"""
    e = it
    skip = None
    while True:
        e = strip(e)
        if e[0] == "call" and e[2]:
            n = last(e[1])
            if n in ("take", "skip", "step_by", "filter", "take_while", "skip_while"):
                k = strip(e[2][1]) if len(e[2]) > 1 else None
                if n == "take" and k and k[0] == "k" and k[1] >= 6:
                    pass
                else:
                    return "part"
            e = e[2][0]
            continue
        if e[0] == "agg" and e[1][0] == "adt" and e[1][1].startswith("std::ops::Range"):
            a = [interval(x, (), V=V) for x in e[2][:2]]
            if len(a) == 2 and all(x[0] is not None and x[0] == x[1] for x in a):
                return (a[0][0], a[1][0] + ("Inclusive" in e[1][1]))
            return None
        r, st = tpath(e)
        f = [x for x in st if isinstance(x, str) and not x.isdigit()]
        if f and f[-1] in ("col_types", "dirty_col", "out_data", "rand_vals"):
            return (0, 6)
        return None


def col_cover(b, V, d_idx, want):
    """does marking column index d_idx cover the wanted index? True / False / None unknown
    want None: all columns"""
    if d_idx[0] == "ALL":
        return True
    e = strip(d_idx)
    nx = next((x for x in walk(e) if x and x[0] == "call" and last(x[1]) == "next"), None)
    if want is not None and strip(want) == e:
        return True
    if nx is not None and (e[0] == "fld"):
        r = it_range(V, nx[2][0])
        if r == "part":
            return False
        if r is not None:
            return r[0] <= 0 and r[1] >= 6
        return None
    if e[0] == "var":
        return None
    if want is None:
        return False if e[0] in ("arg", "k", "bin") else None
    w = strip(want)
    if e[0] in ("arg", "k") and w[0] in ("arg", "k"):
        return False
    if e[0] == "bin" or w[0] == "bin":
        return False
    if e[0] in ("arg", "k") or w[0] in ("arg", "k"):
        return False
    # two different loop variables
    return False if e[0] == "fld" and w[0] == "fld" else None


def p19(F, tier):
    rep = Report("P19", "other")
    rep.rule("every public operation that changes a cell, a column type or the row count of a pattern marks the columns concerned as modified and advances the generation on every path, and forgets the cached text of the cell")
    rep.rule("a mark is removed only when the column is handed to a ring buffer with room; the message carries the data, type and row count of that very column after recalculation; every column is looked at")
    rep.rule("a new backend gets a new ring buffer shared with the tracker, and all columns are marked again")
    rep.rule("the backend stores each part of a message in the place it is for, each time the sequencer node runs")
    edits(F, rep)
    fresh(F, rep)
    unmark(F, rep)
    send(F, rep)
    backend(F, rep)
    receive(F, rep)
    node(F, rep)
    return rep


def edits(F, rep):
    fids = [k for k, f in F.fns.items() if f.get("self_ty") == PD and f.get("pub") and f["argc"] >= 1 and f["locals"][1][0] == "&mut " + PD and f["kind"] == "method"]
    for fid in sorted(fids):
        b = flat(F, fid)
        if b is None:
            continue
        V = Val(b)
        W = writes(b, V, [("arg", 1)])
        cut = absent(b, V)
        marks = []  # (block, idx)
        for i, st, rv in W:
            c = clean(st)
            if not c:  # *self = ...
                if rv[0] == "agg" or rv[0] == "call":
                    marks.append((i, ("ALL",)))
                continue
            if c[0] != "dirty_col":
                continue
            v = strip(rv) if rv[0] not in ("callw",) else rv
            if len(c) == 1:
                if v[0] == "repeat" and strip(v[1])[:2] == ("k", 1):
                    marks.append((i, ("ALL",)))
                elif v[0] == "agg" and all(strip(x)[:2] == ("k", 1) for x in v[2]):
                    marks.append((i, ("ALL",)))
                elif v[0] == "callw" and v[1] == "fill" and strip(v[2][1])[:2] == ("k", 1):
                    marks.append((i, ("ALL",)))
                continue
            if v[:2] == ("k", 1):
                x = c[1]
                if x[0] == "i":
                    marks.append((i, x[1]))
                elif x[0] == "it":
                    r = it_range(V, x[1])
                    if r is None or (r != "part" and r[0] <= 0 and r[1] >= 6):
                        marks.append((i, ("ALL",)))
                elif x[0] in ("sub", "?"):
                    pass
            elif v[0] not in ("k",):
                marks.append((i, ("ANY",)))
        gen = [i for i, st, rv in W if clean(st)[:1] == ["generation"] or not clean(st)]
        strs = [(i, clean(st), rv) for i, st, rv in W if clean(st)[:1] == ["strings"]]
        for i, st, rv in W:
            c = clean(st)
            if not c:
                rep.count("whole resets")
                generation_kept(F, rep, fid, b, V, i, W)
                continue
            f = c[0]
            if f not in SOUND + ("cursor", "edit_step"):
                continue
            rep.count("edits")
            if uncovered(b, i, set(with_heads2(b, gen, i))):
                rep.violate("gen:%s:%s" % (last(fid), f), "%s changes '%s' but can return without advancing the generation" % (fid, f), b.where(i))
            if f not in SOUND:
                continue
            want = None
            if f == "data":
                want = c[2][1] if len(c) > 2 and c[2][0] == "i" else (("U",) if len(c) > 1 else None)
            elif f == "col_types":
                want = c[1][1] if len(c) > 1 and c[1][0] == "i" else (("U",) if len(c) > 1 and c[1][0] == "it" else None)
            D, unknown = set(), False
            for m, idx in marks:
                if idx == ("ANY",) or want == ("U",):
                    r = None
                else:
                    r = col_cover(b, V, idx, want)
                if r is not False:
                    D.add(m)
            # a loop over all columns: its head stands for it
            if uncovered(b, i, set(with_heads2(b, D, i)), cut):
                rep.violate("mark:%s:%s" % (last(fid), f), "%s changes '%s' but can return without having marked %s as modified: the audio thread keeps playing the old content" % (fid, f, "every column" if want is None else "that column"), b.where(i))
            if f == "data":
                S = set()
                for m, sc, rv2 in strs:
                    if len(sc) < 3 or len(c) < 3 or sc[1:3] == c[1:3] or "it" in (sc[1][0], sc[2][0], c[1][0], c[2][0]):
                        if rv2[0] == "callw" or isnone(rv2) or rv2[0] in ("var", "call"):
                            S.add(m)
                        elif rv2[0] == "agg" and last(str(rv2[1][1])) != "Option":
                            S.add(m)
                        elif rv2[0] == "agg" and rv2[1][-1] == "Some":
                            S.add(m)
                if uncovered(b, i, set(with_heads2(b, S, i)), cut):
                    rep.violate("text:" + last(fid), "%s changes a cell but keeps its old cached text" % fid, b.where(i))
    rep.floor("edits", 8)


def isnone(e):
    e = strip(e)
    return e[0] == "agg" and e[1][-1] == "None"


def with_heads2(b, sites, at):
    """sites, and heads of the loops around them that the block `at` is not in"""
    out = set(sites)
    for h, bl in b.loops().items():
        if at not in bl and any(i in bl for i in sites):
            out.add(h)
        elif at in bl and any(i in bl for i in sites):
            # inner loops of the same loop
            continue
    return out


def absent(b, V):
    """edges taken when a looked up element of the marks or texts does not exist"""
    out = set()
    for i, bl in enumerate(b.blocks):
        t = bl["t"]
        if bl["cl"] or t["k"] != "switch":
            continue
        e = strip(V.op(t["d"]))
        if e[0] == "discr" and strip(e[1])[0] == "call" and last(strip(e[1])[1]) in ("get_mut", "get") and {"dirty_col", "strings"} & set(x for x in tpath(e[1])[1] if isinstance(x, str)):
            tm = dict((v, s) for v, s in t["v"])
            out.add((i, tm.get(0, t["o"])))
    return out | lock_edges(b, V)


def uncovered(b, i, D, cut=()):
    """some path entry -> i -> return avoids D"""
    if i in D:
        return False
    if i != 0 and i not in b.reachable(0, avoid=D, avoid_edges=cut):
        return False
    return bool(b.reachable(i, avoid=D, avoid_edges=cut) & set(b.returns()))


def generation_kept(F, rep, fid, b, V, i, W):
    """`*self = Self::new()` must not restart the generation at 0"""
    after = [j for j, st, rv in W if clean(st)[:1] == ["generation"] and not (strip(rv)[0] == "k")]
    if uncovered_after(b, i, set(after)):
        rep.violate("gen-restart:" + last(fid), "%s resets the generation counter: a user interface that compares it can miss the change" % fid, b.where(i))


def uncovered_after(b, i, D):
    """some path from the end of block i to a return avoids D (same block counts)"""
    if i in D:
        return False
    return bool(b.reachable(i, avoid=D) & set(b.returns()))


def fresh(F, rep):
    fid = PD + "::new"
    b = flat_or_miss(F, rep, fid)
    if b is None:
        return
    V = Val(b)
    fl = [f[0] for f in F.adts[PD]["variants"][0]["fields"]]
    for i, bl in enumerate(b.blocks):
        for s in bl["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == PD:
                rep.count("constructions")
                v = V.op(s[2][2][fl.index("dirty_col")])
                bad = (v[0] == "repeat" and strip(v[1])[:2] == ("k", 0)) or (v[0] == "agg" and any(strip(x)[:2] == ("k", 0) for x in v[2]))
                if bad:
                    rep.violate("new-mark", "a new or reset pattern does not mark its columns as modified: the audio thread keeps the old content", b.where(i))
    rep.floor("constructions", 1)


def dirty_clears(b, V):
    out = []
    for i, bl in enumerate(b.blocks):
        if bl["cl"]:
            continue
        for s in bl["s"]:
            if s[0] == "=" and s[1][1]:
                r, st = tpath(V.place(s[1]))
                if "dirty_col" in st:
                    rv = strip(V.rv(s[2], 0))
                    if rv[:2] == ("k", 0) or rv[0] in ("repeat", "agg") and strip((rv[2][0] if rv[0] == "agg" else rv[1]))[:2] == ("k", 0):
                        out.append((i, [x[1] for x in clean(st) if isinstance(x, tuple) and x[0] == "i"]))
        t = bl["t"]
        if t["k"] == "call" and last(callname(t)) in ("take", "replace", "fill", "swap") and t["a"] and ismut(b, t["a"][0]):
            r, st = tpath(V.op(t["a"][0]))
            if "dirty_col" in st and not (last(callname(t)) in ("fill", "replace") and strip(V.op(t["a"][1]))[:2] == ("k", 1)):
                out.append((i, [x[1] for x in clean(st) if isinstance(x, tuple) and x[0] == "i"]))
    return out


def unmark(F, rep):
    """public functions that remove a mark report it"""
    for fid, f in sorted(F.fns.items()):
        if f.get("self_ty") != PD or f["kind"] != "method" or not f["locals"][1:] or f["locals"][1][0] != "&mut " + PD:
            continue
        b = flat(F, fid)
        V = Val(b)
        cl = dirty_clears(b, V)
        if not cl:
            continue
        rep.count("functions that remove a mark")
        if f["locals"][0][0] != "bool":
            continue
        fl = Flow(b)
        for i, ix in cl:
            if f["argc"] == 2 and f["locals"][2][0] == "usize" and (not ix or strip(ix[0]) != ("arg", 2)):
                rep.violate("unmark-col:" + last(fid), "%s removes the mark of another column" % fid, b.where(i))
            rs = set(r for _, r in fl.returns(fl.run([(i, {})])))
            if rs == {0}:
                rep.violate("unmark:" + last(fid), "%s removes the mark of a column without reporting it" % fid, b.where(i))


def send(F, rep):
    fid = TR + "::send_one_update"
    b = flat_or_miss(F, rep, fid, stop=lambda p: p == PD + "::sync_out_data")
    if b is None:
        return
    V = Val(b)
    cl = dirty_clears(b, V)
    rep.count("mark removals on sending", len(cl))
    if not cl:
        rep.violate("send:keep", "send_one_update never removes the mark of a sent column", F.fn_loc(fid))
    full = []  # edges on which the ring has room
    for i, bl in enumerate(b.blocks):
        t = bl["t"]
        if bl["cl"] or t["k"] != "switch":
            continue
        e, neg = unnot(V.op(t["d"]))
        tm = dict((v, s) for v, s in t["v"])
        if e[0] == "call" and last(e[1]) == "is_full":
            full.append((i, tm.get(1 if neg else 0, t["o"])))
        elif e[0] == "bin" and any(x and x[0] == "call" and last(x[1]) in ("remaining", "capacity") for x in walk(e)):
            full += [(i, s) for s in set(tm.values()) | {t["o"]}]
    push = [i for i, t in b.calls() if last(callname(t)) == "push" and t["a"] and "data_prod" in tpath(V.op(t["a"][0]))[1]]
    rep.count("messages sent", len(push))
    if not push:
        rep.violate("send:none", "send_one_update does not send anything", F.fn_loc(fid))
        return
    # marks put back after a failed push
    back = []
    for i, bl in enumerate(b.blocks):
        for s in bl["s"]:
            if s[0] == "=" and s[1][1] and "dirty_col" in tpath(V.place(s[1]))[1] and strip(V.rv(s[2], 0))[:2] == ("k", 1):
                back.append(i)
    fl2 = Flow(b)
    for i, ix in cl:
        if i in b.reachable(0, avoid_edges=full) and not back:
            rep.violate("send:full", "send_one_update removes the mark of a column without knowing that the ring buffer has room: the update is lost when it is full", b.where(i))
        if any("{closure" in x for x in b.blocks[i].get("stack", ())):
            continue
        if fl2.returns(fl2.run([(i, {})], avoid=push)):
            rep.violate("send:lost", "send_one_update can remove the mark of a column without sending it", b.where(i))
    sy = [i for i, t in b.calls() if callname(t) == PD + "::sync_out_data"]
    for p in push:
        if sy and p in b.reachable(0, avoid=sy):
            rep.violate("send:stale", "send_one_update can send a column that was not recalculated", b.where(p))
        m = next((x for x in deep_walk(V, V.op(b.blocks[p]["t"]["a"][1])) if x and x[0] == "agg" and x[1][0] == "adt" and x[1][1].endswith("PatternUpdateMsg")), None)
        if m is None:
            continue
        fl = [f[0] for f in F.adts[m[1][1]]["variants"][m[1][2]]["fields"]]
        a = dict(zip(fl, m[2]))
        rep.count("message fields", len(a))
        for i, ix in cl:
            if any("{closure" in x for x in b.blocks[i].get("stack", ())):
                continue
            if ix and "col" in a and strip(a["col"]) != strip(ix[0]) and strip(a["col"])[0] != "var":
                rep.violate("send:col", "send_one_update sends another column than the one it unmarks", b.where(p))
        for s in sy:
            c = V.op(b.blocks[s]["t"]["a"][1])
            if "col" in a and strip(c) != strip(a["col"]) and strip(c)[0] != "var" and strip(a["col"])[0] != "var":
                rep.violate("send:sync-col", "send_one_update recalculates another column than the one it sends", b.where(s))
        for f, g in (("data", "out_data"), ("col_type", "col_types"), ("pattern_len", "rows")):
            if f not in a:
                continue
            fs = set(str(x[2]) for x in deep_walk(V, a[f]) if x and x[0] == "fld" and str(x[2]) in ("out_data", "col_types", "rows", "data", "edit_step"))
            if f == "data":
                fs -= {"data"}
            if fs and g not in fs or strip(a[f])[0] == "k":
                rep.violate("send:" + f, "send_one_update fills '%s' from somewhere else than '%s'" % (f, g), b.where(p))
            if f == "pattern_len" and altered(a[f]):
                rep.violate("send:" + f, "send_one_update does not send the row count itself but %s" % fmt(a[f])[:60], b.where(p))
            if f in ("data", "col_type"):
                ix = [x[1] for x in tpath(a[f])[1] if isinstance(x, tuple) and x[0] == "i"]
                g2 = next((x for x in deep_walk(V, a[f]) if x and x[0] == "call" and last(x[1]) == "get"), None)
                if g2 and not ix:
                    ix = [g2[2][1]]
                if ix and strip(ix[-1]) != strip(a["col"]) and strip(ix[-1])[0] != "var" and strip(a["col"])[0] != "var":
                    rep.violate("send:%s-col" % f, "send_one_update takes '%s' from another column" % f, b.where(p))
    # every column is looked at
    for i, ix in cl:
        for x in ix:
            nx = next((y for y in walk(x) if y and y[0] == "call" and last(y[1]) == "next"), None)
            if nx is None:
                continue
            r = it_range(V, nx[2][0])
            rep.count("column loops")
            if r == "part" or (r is not None and (r[0] > 0 or r[1] < 6)):
                rep.violate("send:range", "send_one_update does not look at every column", b.where(i))
    # only unmarked columns are passed over
    for h, bl in b.loops().items():
        if not any(i in bl for i, _ in cl):
            continue
        for e, vs, at in [c for i, _ in cl for c in dev_conds(b, V, i)]:
            if e[0] == "bin" and any(x not in bl for x in b.succ(at)):
                k = next((strip(x) for x in e[2:] if strip(x)[0] == "k"), None)
                if k and e[1] in ("Lt", "Ge") and isinstance(k[1], int) and k[1] < 6:
                    rep.violate("send:range", "send_one_update does not look at every column", b.where(at))
                continue
            if at in bl and not any("dirty_col" == str(x[2]) for x in deep_walk(V, e) if x and x[0] == "fld") and not (e[0] == "discr" and any(x and x[0] == "call" and last(x[1]) == "next" for x in walk(e))):
                rep.violate("send:cond", "send_one_update passes over modified columns depending on %s" % fmt(e)[:80], b.where(at))
        break
    fid = "global::NodeGlobalData::check_pattern_data"
    b = flat_or_miss(F, rep, fid, stop=lambda p: p == TR + "::send_one_update")
    if b is not None:
        if not any(callname(t) == TR + "::send_one_update" for _, t in b.calls()):
            rep.violate("check:none", "check_pattern_data does not send anything", F.fn_loc(fid))


def altered(e):
    """an expression that is another number than the one it is computed from"""
    e = strip(e)
    if e[0] == "bin" and e[1].split("With")[0] in ("Add", "Sub", "Mul", "Div", "Rem", "Shl", "Shr"):
        return e[3][0] == "k" and e[3][1] != 0
    if e[0] == "call" and len(e[2]) > 1 and strip(e[2][1])[0] == "k":
        n, k = last(e[1]), strip(e[2][1])[1]
        return n == "max" and k > 0 or n == "min" and k < 256 or n in ("saturating_add", "saturating_sub", "wrapping_add", "wrapping_sub") and k != 0
    return False


def backend(F, rep):
    fid = TR + "::get_backend"
    b = flat_or_miss(F, rep, fid)
    if b is None:
        return
    V = Val(b)
    prod = [i for i, st, rv in writes(b, V, [("arg", 1)]) if st[:1] == ["data_prod"]]
    marks = []
    for i, bl in enumerate(b.blocks):
        if bl["cl"]:
            continue
        for s in bl["s"]:
            if s[0] == "=" and s[1][1]:
                r, st = tpath(V.place(s[1]))
                if "dirty_col" in st and strip(V.rv(s[2], 0))[:2] == ("k", 1):
                    ix = [x for x in clean(st) if isinstance(x, tuple)]
                    if ix and ix[-1][0] == "i" and col_cover(b, V, ix[-1][1], None) is False:
                        continue
                    marks.append(i)
                elif "dirty_col" in st and strip(V.rv(s[2], 0))[0] == "repeat":
                    marks.append(i)
        t = bl["t"]
        if t["k"] == "call" and last(callname(t)) == "fill" and "dirty_col" in tpath(V.op(t["a"][0]))[1]:
            marks.append(i)
    for i in prod:
        rep.count("ring buffer replacements")
        if uncovered(b, i, set(with_heads2(b, marks, i)), absent(b, V)):
            rep.violate("backend:mark", "a new backend starts with an empty pattern: get_backend does not mark every column as modified", b.where(i))
    # the returned consumer belongs to the current producer
    cons = [i for i, st, rv in writes(b, V, [("arg", 1)]) if st[:1] == ["seq_cons"] and rv[0] != "callw"]
    rep.count("ring buffer consumers", len(cons))
    if bool(prod) != bool(cons):
        rep.violate("backend:pair", "get_backend replaces only one end of the ring buffer", F.fn_loc(fid))
    for i in cons:
        if uncovered(b, i, set(prod)):
            rep.violate("backend:pair", "get_backend can replace one end of the ring buffer only", b.where(i))
    for i, st, rv in writes(b, V, [("arg", 1)]):
        if st[:1] in (["data_prod"], ["seq_cons"]) and rv[0] != "callw":
            ends = {"data_prod": "0", "seq_cons": "1"}
            sp = [x for x in deep_walk(V, rv) if x and x[0] == "fld" and strip(x[1])[0] == "call" and last(strip(x[1])[1]) == "split"]
            if sp and str(sp[0][2]) != ends[st[0]]:
                rep.violate("backend:ends", "get_backend mixes up the ends of the ring buffer", b.where(i))
    # one ring: both ends come from the same split
    splits = set()
    for i, st, rv in writes(b, V, [("arg", 1)]):
        if st[:1] in (["data_prod"], ["seq_cons"]) and rv[0] != "callw":
            for x in deep_walk(V, rv):
                if x and x[0] == "call" and last(x[1]) == "split":
                    splits.add(x)
    if len(splits) > 1:
        rep.violate("backend:split", "the two ends of the ring buffer of a backend belong to different buffers", F.fn_loc(fid))


def receive(F, rep):
    fid = TB + "::check_updates"
    b = flat_or_miss(F, rep, fid)
    if b is None:
        return
    V = Val(b)
    pops = [i for i, t in b.calls() if last(callname(t)) == "pop"]
    rep.count("message receptions", len(pops))
    if not pops:
        rep.violate("recv:none", "check_updates does not fetch messages", F.fn_loc(fid))
        return
    msg = lambda e: set(str(x[2]) for x in deep_walk(V, e) if x and x[0] == "fld" and any(y and y[0] == "call" and last(y[1]) == "pop" for y in walk(x[1])) and not str(x[2]).isdigit())
    W = writes(b, V, [("arg", 1)])
    none = set()
    for i, bl in enumerate(b.blocks):
        t = bl["t"]
        if t["k"] == "switch":
            e = strip(V.op(t["d"]))
            if e[0] == "discr" and strip(e[1])[0] == "call" and last(strip(e[1])[1]) == "pop":
                tm = dict((v, s) for v, s in t["v"])
                none.add((i, tm.get(0, t["o"])))
            elif e[0] == "call" and last(e[1]) in ("is_none", "is_some", "is_empty"):
                tm = dict((v, s) for v, s in t["v"])
                none.add((i, tm.get(0 if last(e[1]) == "is_some" else 1, t["o"])))
    for what, pre, field in (("column type", ["col_types"], "col_type"), ("row count", ["seq", "rows"], "pattern_len"), ("data", ["seq", "data"], "data")):
        rep.count("parts of a message")
        ws = [(i, st, rv) for i, st, rv in W if [x for x in st if isinstance(x, str) and not x.isdigit()][:len(pre)] == pre]
        if not ws:
            rep.violate("recv:%s" % field, "check_updates does not store the %s of a message" % what, F.fn_loc(fid))
            continue
        if must_pass(b, pops[0], with_heads2(b, [i for i, _, _ in ws], pops[0]), avoid_edges=none) is not None:
            rep.violate("recv:%s" % field, "check_updates can drop the %s of a message" % what, F.fn_loc(fid))
        for i, st, rv in ws:
            m = msg(rv if rv[0] != "callw" else ("tuple", *rv[2][1:])) if rv[0] != "callw" else set().union(*[msg(x) for x in rv[2][1:]] or [set()])
            for x in deep_walk(V, rv if rv[0] != "callw" else ("t",) + tuple(rv[2][1:])):
                if field == "data" and x and x[0] == "idx" and x[2][0] == "agg" and "Range" in str(x[2][1]):
                    hi = [interval(y, (), V=V) for y in x[2][2]]
                    if "RangeTo" in str(x[2][1]) and hi[0][1] is not None and hi[0][1] < 256 or "RangeFrom" in str(x[2][1]) and hi[0][0] or len(hi) > 1 and (hi[0][0] or (hi[1][1] is not None and hi[1][1] < 256)):
                        rep.violate("recv:data:part", "the sequencer does not take over every row (%s)" % fmt(x[2])[:60], b.where(i))
            if m - {field}:
                if field not in m:
                    rep.violate("recv:%s:src" % field, "check_updates fills the %s from '%s'" % (what, "/".join(sorted(m))), b.where(i))
            if strip(rv)[0] == "k" if rv[0] != "callw" else False:
                rep.violate("recv:%s:src" % field, "check_updates fills the %s with a constant" % what, b.where(i))
            ix = [x[1] for x in st if isinstance(x, tuple) and x[0] == "i"]
            if ix and field != "pattern_len":
                mi = msg(ix[0])
                e = strip(ix[0])
                if (mi and "col" not in mi) or e[0] in ("k", "bin"):
                    rep.violate("recv:%s:col" % field, "check_updates stores the %s in another column" % what, b.where(i))
            if field == "pattern_len" and rv[0] != "callw" and strip(rv)[0] == "bin":
                rep.violate("recv:%s:val" % field, "check_updates changes the %s" % what, b.where(i))
            if field == "data":
                it = [x for x in st if isinstance(x, tuple) and x[0] in ("ad",) and x[1] in ("take", "skip", "step_by", "filter")]
                if it:
                    rep.violate("recv:data:part", "the sequencer does not take over every row", b.where(i))
                for x in deep_walk(V, ("t",) + tuple(y[1] for y in st if isinstance(y, tuple) and y[0] == "it")):
                    if x and x[0] == "call" and last(x[1]) in ("take", "skip", "step_by", "filter", "rev"):
                        k = strip(x[2][1]) if len(x[2]) > 1 else ("?",)
                        if not (last(x[1]) == "take" and k[0] == "k" and k[1] >= 256):
                            rep.violate("recv:data:part", "the sequencer does not take over every row (%s)" % last(x[1]), b.where(i))


def node(F, rep):
    """every node that owns a backend fetches its updates before it plays"""
    for fid, f in sorted(F.fns.items()):
        if f.get("trait") != "dsp::DspNode" or f["name"] != "process":
            continue
        st = f.get("self_ty")
        info = F.adts.get(st)
        if not info or not any(TB in x[1] for x in info["variants"][0]["fields"]):
            continue
        b = flat(F, fid, stop=lambda p: p.startswith(TB) or p.startswith("<" + TB))
        V = Val(b)
        up = [i for i, t in b.calls() if callname(t) == TB + "::check_updates"]
        use = [i for i, t in b.calls() if callname(t) == TB + "::get_col_at_phase"]
        rep.count("playing nodes")
        if use and not up:
            rep.violate("node:none:" + st, "%s never fetches pattern updates" % st, F.fn_loc(fid))
        cols = {}
        for i in use:
            if i in b.reachable(0, avoid=up):
                rep.violate("node:late:" + st, "%s plays without having looked for pattern updates on some path" % st, b.where(i))
            k = strip(V.op(b.blocks[i]["t"]["a"][1]))
            if k[0] == "k":
                cols.setdefault(k[1], []).append(i)
            else:
                cols = None
                break
        if cols:
            rep.count("played columns", len(cols))
            for k in range(6):
                if k not in cols:
                    rep.violate("node:col:%d" % k, "%s never plays column %d" % (st, k), F.fn_loc(fid))
            for k, l in cols.items():
                if len(l) > 1:
                    rep.violate("node:col-dup:%d" % k, "%s plays column %d on two outputs" % (st, k), b.where(l[1]))
    rep.floor("playing nodes", 1)
