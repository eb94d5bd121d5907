"""P20: editing block functions."""
from hx.report import Report
from rules.common import *
from rules.matrix import strip, unnot, truth
from hx.flow import Flow, TooMany
from hx.val import Val, walk, deep_walk, fmt, strip_gen, norm

LN = "wblockdsp::language::"
BF = LN + "BlockFun"
BA = LN + "BlockArea"
ERR = LN + "BlockDSPError"
MUTS = {"insert", "remove", "remove_entry", "clear", "retain", "drain", "extend", "append", "entry"}


def refs_field(F, fid, adt, name, memo=None):
    """a function (or something it calls) mentions field `name` of `adt`"""
    memo = {} if memo is None else memo
    if fid in memo:
        return memo[fid]
    memo[fid] = False
    r = F.fns.get(fid)
    if r is None:
        return False
    hit = False
    cl = [k for k in F.fns if k.startswith(fid + "::{closure")]
    for k in [fid] + cl:
        if plain_ref(F, k, adt, name):
            hit = True
            break
        for i, t in F.body(k).calls():
            c = F.callee(t)
            if c and c in F.fns and c.startswith("wblockdsp") and refs_field(F, c, adt, name, memo):
                hit = True
                break
        if hit:
            break
    memo[fid] = hit
    return hit


def places(b):
    for bl in b.blocks:
        if bl["cl"]:
            continue
        for s in bl["s"]:
            if s[0] == "=":
                yield s[1]
                rv = s[2]
                for o in rv[1:]:
                    if isinstance(o, list):
                        if len(o) == 2 and o[0] in ("c", "m"):
                            yield o[1]
                        elif len(o) == 2 and isinstance(o[0], int):
                            yield o
                        else:
                            for q in o:
                                if isinstance(q, list) and len(q) == 2 and q[0] in ("c", "m"):
                                    yield q[1]
        t = bl["t"]
        for o in t.get("a", []):
            if o[0] in ("c", "m"):
                yield o[1]
        if t["k"] == "switch" and t["d"][0] in ("c", "m"):
            yield t["d"][1]


def plain_ref(F, fid, adt, name):
    for p in places(F.body(fid)):
        for x in p[1]:
            if isinstance(x, list) and x[0] == "f" and x[2] == name and x[3] == adt:
                return True
    return False


def kinds(F):
    """(space tests, sub area tests): functions that answer with a bool"""
    sp, sub = set(), set()
    memo = {}
    for k, f in F.fns.items():
        if not k.startswith("wblockdsp::language") or f["locals"][0][0] != "bool" or "closure" in k or "::test" in k:
            continue
        if any(f["locals"][i][0].startswith("&mut") and BA in f["locals"][i][0] for i in range(1, f["argc"] + 1)):
            pass
        own = [k] + [c for c in F.fns if c.startswith(k + "::{closure")]
        if any(plain_ref(F, c, BA, "origin_map") for c in own) and f["argc"] >= 4:
            sp.add(k)
        elif refs_field(F, k, LN + "Block", "contains", memo):
            sub.add(k)
    return sp, sub


def readers(F):
    """functions that only look: no &mut parameter, not answering with a bool"""
    out = set()
    for k, f in F.fns.items():
        if not k.startswith("wblockdsp::language::") or "closure" in k:
            continue
        a = [f["locals"][i][0] for i in range(1, f["argc"] + 1)]
        if not any(x.startswith("&mut") for x in a) and a and a[0].startswith("&") and f["locals"][0][0] != "bool":
            out.add(k)
    return out


class Ed:
    def __init__(self, F, fid, keep, quiet):
        self.F = F
        self.fid = fid
        keep = frozenset(keep)
        quiet = frozenset(quiet)
        self.b = flat(F, fid, stop=lambda p: p in keep or p in quiet)
        self.V = Val(self.b)
        self.Fl = Flow(self.b)
        self.scan()

    def is_clone(self, o, dep=0):
        """the area the operand refers into is a local copy"""
        if o[0] not in ("c", "m") or dep > 30:
            return None
        l = o[1][0]
        ty = self.b.locals[l][0]
        ds = self.b.defs().get(l, [])
        if 1 <= l <= self.b.argc:
            return None
        if len(ds) != 1:
            # a loop variable, or assigned in branches
            for d in ds:
                r = self.is_clone_def(d, dep)
                if r is not None:
                    return r
            return None
        return self.is_clone_def(ds[0], dep)

    def is_clone_def(self, d, dep):
        if d[2] == "assign":
            rv = d[3][2]
            if rv[0] == "ref":
                return self.is_clone(["c", rv[1]], dep + 1)
            if rv[0] in ("use", "cast"):
                return self.is_clone(rv[1], dep + 1)
            return None
        if d[2] == "call":
            t = self.b.blocks[d[0]]["t"]
            n = last(callname(t) or trait_call(t))
            if n == "clone" and "BlockArea" in self.b.locals[t["d"][0]][0]:
                return t["d"][0]
            if n in ("deref_mut", "deref", "as_mut", "as_ref") and t["a"]:
                return self.is_clone(t["a"][0], dep + 1)
        return None

    def area(self, e):
        """index of the area an expression is in, or the whole expression"""
        for x in walk(e):
            if x and x[0] == "call" and last(x[1]) in ("get", "get_mut", "index", "index_mut") and len(x[2]) > 1:
                r = strip(x[2][0])
                if r[0] == "fld" and r[2] == "areas":
                    return norm(x[2][1])
            if x and x[0] == "idx":
                r = strip(x[1])
                if r[0] == "fld" and r[2] == "areas":
                    return norm(x[2])
        return ("?", norm(e))

    def scan(self):
        b, V = self.b, self.V
        self.ins, self.rem, self.store, self.gen, self.pushes = [], [], [], [], []
        for i, bl in enumerate(b.blocks):
            if bl["cl"]:
                continue
            for s in bl["s"]:
                if s[0] == "=" and s[1][1]:
                    e = strip(V.place(s[1]))
                    self.assigned(i, e, s)
            t = bl["t"]
            if t["k"] != "call":
                continue
            n = last(callname(t) or trait_call(t))
            if t["d"][1]:
                self.assigned(i, strip(V.place(t["d"])), None)
            if n in MUTS and t["a"]:
                e = strip(V.op(t["a"][0]))
                if e[0] == "fld" and e[2] == "blocks":
                    m = (i, n, t, self.area(e), self.is_clone(t["a"][0]))
                    (self.ins if n in ("insert", "extend", "entry", "append") else self.rem).append(m)

    def assigned(self, i, e, s):
        if e[0] == "fld" and e[2] == "generation" and strip(e[1]) == ("arg", 1):
            self.gen.append(i)
        if (e[0] == "idx" and strip(e[1])[0] == "fld" and strip(e[1])[2] == "areas") or (e[0] == "call" and last(e[1]) in ("index_mut",) and strip(e[2][0])[0] == "fld" and strip(e[2][0])[2] == "areas"):
            src = self.base(s[2][1]) if s is not None and s[2][0] == "use" else None
            self.store.append((i, self.area(e), src))

    def base(self, o):
        for _ in range(20):
            if o[0] not in ("c", "m"):
                return None
            l = o[1][0]
            ds = self.b.defs().get(l, [])
            if len(ds) == 1 and ds[0][2] == "assign" and ds[0][3][2][0] == "use" and not o[1][1]:
                o = ds[0][3][2][1]
                continue
            return l
        return None

    def after_some(self, i):
        """states after call i when it found something"""
        t = self.b.blocks[i]["t"]
        k = self.Fl.key(t["d"])
        out = []
        for j, st in self.Fl.after(i):
            st = dict(st)
            if k:
                st[k] = ("v", 1)
            out.append((j, st))
        return out


def p20(F, tier):
    rep = Report("P20", "other")
    rep.rule("each block is put into an area only behind a space test of that area, position and height")
    rep.rule("an edit that is refused leaves every area as it was (nothing removed or replaced before, or put back); one that succeeds has stored what it changed and advanced the generation")
    rep.rule("blocks are never moved into an area below themselves: the test for it lies before each move")
    rep.rule("the lookup table of an area is renewed after each change of its blocks and covers every row of each block")
    rep.rule("both sub areas of a block are treated alike; a changed generation leads to compilation and upload of that very function")
    sp, sub = kinds(F)
    rd = readers(F)
    if not sp:
        rep.violate("no-space-test", "no function tests whether there is space for a block in an area")
    fids = []
    for k, f in F.fns.items():
        if f.get("self_ty") == BF and f.get("pub") and f["kind"] == "method" and f["argc"] >= 1 and f["locals"][1][0] == "&mut " + BF and f["locals"][0][0].startswith("std::result::Result<()") and ERR in f["locals"][0][0]:
            fids.append(k)
    for fid in sorted(fids):
        rep.count("edits")
        E = Ed(F, fid, sp | sub, rd)
        space(F, rep, E, sp)
        atomic(F, rep, E)
        bump(F, rep, E)
        if sub:
            circular(F, rep, E, sub)
    rep.floor("edits", 6)
    spaces(F, rep, sp)
    table(F, rep)
    pairs(F, rep)
    whole_search(F, rep, sub)
    origins(F, rep)
    others(F, rep, set(fids))
    upload(F, rep)
    return rep


def block_origin(E, e):
    """the block value comes out of a removal"""
    return any(x and x[0] == "call" and last(x[1]) in ("remove", "remove_entry") for x in deep_walk(E.V, e))


def restoring(E, m):
    """an insertion that puts a removed block back where it was"""
    i, n, t, ar, cl = m
    if n != "insert" or len(t["a"]) < 3:
        return False
    key = E.V.op(t["a"][1])
    if key[0] != "agg" or len(key[2]) != 2:
        return False
    if not block_origin(E, E.V.op(t["a"][2])):
        return False
    # both coordinates come out of the removal, too
    for c in key[2]:
        c2 = strip(c)
        if c2[0] != "fld" or not block_origin(E, c2):
            return False
        if any(x and x[0] == "bin" for x in walk(c2)):
            return False
    if str(strip(key[2][0])[2]) == str(strip(key[2][1])[2]):
        return False
    return any(r[3] == ar for r in E.rem)


def inner_head(b, i):
    c = [(len(bl), h) for h, bl in b.loops().items() if i in bl]
    return min(c)[1] if c else None


def space(F, rep, E, sp):
    b, V = E.b, E.V
    tests = [(i, t) for i, t in b.calls() if F.callee(t) in sp or callname(t) in sp]
    for m in E.ins:
        rep.count("insertions")
        if restoring(E, m):
            continue
        i, n, t, ar, cl = m
        if n != "insert":
            rep.violate("insert:%s:%s" % (last(E.fid), n), "%s adds blocks with '%s', without a space test for each" % (E.fid, n), b.where(i))
            continue
        mine = []
        for j, u in tests:
            a2, c2 = E.area(V.op(u["a"][0])), E.is_clone(u["a"][0])
            inside = "{closure" in b.blocks[j]["fn"]
            if (a2 == ar or (inside and a2[0] == "?")) and (c2 == cl or (inside and c2 is None)):
                mine.append((j, u))
        if not mine:
            rep.violate("space:" + last(E.fid), "%s puts a block into an area without testing whether there is space in that area" % E.fid, b.where(i))
            continue
        tb = set()
        for j, u in mine:
            h = inner_head(b, j)
            tb.add(h if h is not None else j)
        # paths that never test
        seen = runt(E, [(0, {})], tb | set(j for j, _ in mine))
        if i in seen:
            rep.violate("space:" + last(E.fid), "%s can put a block into an area without testing whether there is space" % E.fid, b.where(i))
        # a failed test
        for j, u in mine:
            k = E.Fl.key(u["d"])
            st0 = []
            for q, st in E.Fl.after(j):
                st = dict(st)
                if k:
                    st[k] = ("k", 0)
                st0.append((q, st))
            seen = E.Fl.run(st0, avoid=tb | set(x for x, _ in mine))
            if i in seen:
                rep.violate("nospace:" + last(E.fid), "%s puts the block into the area although there is no space" % E.fid, b.where(i))
            # every round of the loop around it tests
            h = inner_head(b, j)
            if h is not None:
                bl = b.loops()[h]
                sc, _ = b.cfg()
                if any(h in b.reachable(s, avoid=[j] + [x for x in range(len(b.blocks)) if x not in bl]) for s in sc[h] if s in bl and s != j):
                    rep.violate("someskip:" + last(E.fid), "%s does not test each block for space" % E.fid, b.where(j))
            position(rep, E, m, j, u)


CHANGERS = ("min", "max", "clamp", "saturating_sub", "saturating_add", "wrapping_sub", "wrapping_add", "len", "count", "div_ceil")
PARTIAL = ("take", "skip", "step_by", "nth", "first", "last", "take_while", "skip_while", "first_mut", "last_mut", "split_first", "split_last", "map_while")


def position(rep, E, m, j, u):
    """the place and height that were tested are the ones that get filled"""
    b, V = E.b, E.V
    i, n, t, ar, cl = m
    key = V.op(t["a"][1])
    blk = V.op(t["a"][2])
    a = [V.op(x) for x in u["a"]]
    rows = strip(a[3])
    r = rows
    if not (r[0] == "fld" and r[2] == "rows") and not (r[0] in ("fld", "var", "call")) or r[0] == "call" and last(r[1]) in CHANGERS:
        rep.violate("rows:" + last(E.fid), "%s tests for %s rows instead of the height of the block" % (E.fid, fmt(rows)[:60]), b.where(j))
    if key[0] != "agg":
        return
    single = inner_head(b, i) is None and inner_head(b, j) is None
    if single:
        for c in (0, 1):
            x, y = norm(a[1 + c]), norm(key[2][c])
            if x != y and not (x[0] == "var" or y[0] == "var"):
                rep.violate("pos:" + last(E.fid), "%s tests the position %s but uses %s" % (E.fid, fmt(x)[:60], fmt(y)[:60]), b.where(j))
            elif x != y and x[0] == "var" and y[0] == "var":
                rep.violate("pos:" + last(E.fid), "%s tests another position than the one it uses" % E.fid, b.where(j))
        return
    # a list of blocks: the offsets that were tested are the ones the list is moved by
    for c in (1, 2):
        e = strip(a[c])
        if e[0] == "bin" and e[1].startswith("Add"):
            offs = [strip(x) for x in (e[2], e[3]) if not from_list(x)]
        elif from_list(e):
            offs = [("k", 0)]
        else:
            continue
        if len(offs) != 1:
            continue
        off = norm(offs[0])
        mv = moved(E, j, i, c)
        if off[0] == "k" and off[1] == 0:
            if mv and any(x != off for x in mv):
                rep.violate("moved:" + last(E.fid), "%s moves the blocks after the space test" % E.fid, b.where(j))
            continue
        if not mv:
            rep.violate("moved:" + last(E.fid), "%s tests for space at an offset but does not move the blocks by it" % E.fid, b.where(j))
        elif any(x != off for x in mv):
            rep.violate("moved:" + last(E.fid), "%s moves the blocks by another offset than the one it tested" % E.fid, b.where(j))


def from_list(e):
    e = strip(e)
    return e[0] == "fld" and any(x and x[0] == "fld" and x[2] == "load" for x in walk(e))


def moved(E, j, i, c):
    """offsets added to the coordinate (1: x, 2: y) of the listed blocks between the
    test j (when it says yes) and the insertion i"""
    b, V = E.b, E.V
    # between: reachable from j and reaching i, without passing j again
    k = E.Fl.key(b.blocks[j]["t"]["d"])
    st0 = []
    for q, st in E.Fl.after(j):
        st = dict(st)
        if k:
            st[k] = ("k", 1)
        st0.append((q, st))
    seen = set(E.Fl.run(st0, avoid=[j]))
    out = []
    for q in seen:
        if i not in b.reachable(q, avoid=[j]):
            continue
        for s in b.blocks[q]["s"]:
            if s[0] != "=" or not s[1][1]:
                continue
            e = V.place(s[1])
            f = strip(e)
            if f[0] == "fld" and str(f[2]) == str(c) and from_list(f):
                v = strip(V.rv(s[2], 0))
                if v[0] == "fld" and v[2] in (0, "0"):
                    v = strip(v[1])
                if v[0] == "bin" and v[1].startswith("Add"):
                    o = [strip(x) for x in (v[2], v[3]) if norm(x) != norm(e)]
                    out.append(norm(o[0]) if len(o) == 1 else ("?",))
                else:
                    out.append(("?", fmt(v)))
    return out


def none_edges(E):
    """edges on which an area that exists is not found: the same index was found before,
    or was compared with the number of areas"""
    b, V = E.b, E.V
    out = set()
    found = []
    # found: (index, block entered when found)
    looks = {}
    for i, t in b.calls():
        n = last(callname(t) or trait_call(t))
        if n in ("get", "get_mut") and len(t["a"]) > 1:
            r = strip(V.op(t["a"][0]))
            if r[0] == "fld" and r[2] == "areas":
                looks[i] = norm(V.op(t["a"][1]))
    for i, ix in looks.items():
        known = False
        for j, jx in looks.items():
            if j != i and jx == ix and b.dominates(j, i):
                known = True
        for c, v in conds_x(V, i):
            e, tr = truth((c, v))
            e = strip(e)
            if e[0] == "bin" and e[1] in ("Ge", "Lt", "Gt", "Le"):
                l, r = norm(e[2]), norm(e[3])
                if e[1] in ("Ge", "Lt") and l == ix and islen(r) and tr == (e[1] == "Lt"):
                    known = True
                if e[1] in ("Gt", "Le") and r == ix and islen(l) and tr == (e[1] == "Gt"):
                    known = True
        if known:
            out.add(i)
    return out


def islen(e):
    return (e[0] == "call" and last(e[1]) == "len" and any(x and x[0] == "fld" and x[2] == "areas" for x in walk(e))) or e[0] == "len"


def twins(E):
    """lookups of the same key in the same table of the language"""
    g = {}
    for i, t in E.b.calls():
        n = last(callname(t) or trait_call(t))
        if n in ("get", "contains_key") and len(t["a"]) > 1:
            r = strip(E.V.op(t["a"][0]))
            if r[0] == "fld" and r[2] == "types":
                g.setdefault((norm(r), norm(E.V.op(t["a"][1]))), []).append(i)
    return [v for v in g.values() if len(v) > 1]


def runt(E, starts, avoid):
    """blocks reached, when equal lookups in the language have equal results"""
    g = [i for v in twins(E)[:1] for i in v]
    if not g:
        return set(E.Fl.run(starts, avoid=avoid))
    return set(runx(E, starts, avoid, g, 0)) | set(runx(E, starts, avoid, g, 1))


def runx(E, starts, avoid, known, val=1):
    """Flow.run, where the lookups `known` find their area"""
    Fl = E.Fl
    keys = {}
    for i in known:
        k = Fl.key(E.b.blocks[i]["t"]["d"])
        if k:
            keys[i] = (k, val)
    orig = Fl.edges

    def edges(i, st):
        r = orig(i, st)
        if i in keys:
            r = [(j, dict(s, **{})) for j, s in r]
            for j, s in r:
                s[keys[i][0]] = ("v" if last(callname(E.b.blocks[i]["t"])) != "contains_key" else "k", keys[i][1])
        return r
    Fl.edges = edges
    try:
        return Fl.run(starts, avoid=avoid)
    finally:
        Fl.edges = orig


def atomic(F, rep, E):
    b, V = E.b, E.V
    name = last(E.fid)
    known = none_edges(E)
    restore = set(m[0] for m in E.ins if restoring(E, m))
    hot = []
    for m in E.rem + E.ins:
        i, n, t, ar, cl = m
        if cl is not None or i in restore:
            continue
        st = E.after_some(i) if n in ("remove", "remove_entry") else E.Fl.after(i)
        hot.append((i, n, st))
    for i, ar, src in E.store:
        hot.append((i, "store", E.Fl.after(i)))
    for i, n, st in hot:
        rep.count("mutations")
        seen = runx(E, st, restore if n.startswith("remove") else set(), known)
        for r, v in E.Fl.returns(seen):
            if v == 1:
                rep.violate("atomic:%s:%s" % (name, n), "%s can fail after it %s" % (E.fid, "removed a block, which is lost" if n.startswith("remove") else "changed an area"), b.where(i))
                break
    # what was taken out is put in somewhere when the edit succeeds
    if E.ins and E.rem:
        for m in E.rem:
            i = m[0]
            heads = set()
            for q in E.ins:
                h = inner_head(b, q[0])
                heads.add(h if h is not None and i not in b.loops()[h] else q[0])
            seen = runx(E, E.after_some(i), heads, known)
            for r, v in E.Fl.returns(seen):
                if v in (0, None):
                    rep.violate("lost:" + name, "%s can succeed without putting a removed block anywhere" % E.fid, b.where(i))
                    break
    # a changed copy of an area replaces that area
    clones = {}
    for m in E.rem + E.ins:
        if m[4] is not None:
            clones.setdefault(m[4], []).append(m)
    for cl, ms in sorted(clones.items()):
        rep.count("copies")
        ar = ms[0][3]
        st = [x for x in E.store if x[2] == cl or x[2] is None]
        good = set(x[0] for x in st if x[1] == ar)
        for x in E.store:
            if x[2] == cl and x[1] != ar:
                rep.violate("store:" + name, "%s stores the changed copy of an area as another area" % E.fid, b.where(x[0]))
        for m in ms:
            seen = runx(E, E.Fl.after(m[0]), good, known)
            for r, v in E.Fl.returns(seen):
                if v in (0, None):
                    rep.violate("unstored:" + name, "%s changes a copy of an area but can succeed without storing it" % E.fid, b.where(m[0]))
                    break
            # and not changed any more after it was stored
            for g in good:
                if m[0] in b.reachable(g) and m[0] != g:
                    rep.violate("early:" + name, "%s stores the copy of an area before it changes it" % E.fid, b.where(g))


def bump(F, rep, E):
    b = E.b
    seen = runx(E, [(0, {})], set(E.gen), none_edges(E))
    for r, v in E.Fl.returns(seen):
        if v in (0, None):
            rep.violate("gen:" + last(E.fid), "%s can succeed without advancing the generation: the change is not noticed" % E.fid, b.where(r))
            break
    gens(rep, E.fid, b, E.V)


def gens(rep, fid, b, V):
    for i, bl in enumerate(b.blocks):
        if bl["cl"]:
            continue
        for s in bl["s"]:
            if s[0] == "=" and s[1][1]:
                e = strip(V.place(s[1]))
                if e[0] == "fld" and e[2] == "generation" and strip(e[1]) == ("arg", 1):
                    v = strip(V.rv(s[2], 0))
                    if v[0] == "fld" and str(v[2]) == "0":
                        v = strip(v[1])
                    ok = (v[0] == "bin" and v[1].startswith("Add")) or (v[0] == "call" and last(v[1]) in ("wrapping_add", "saturating_add"))
                    if v[0] in ("k",) or (v[0] == "bin" and not v[1].startswith("Add")):
                        rep.violate("gen-back:" + last(fid), "%s does not advance the generation but sets it to %s" % (fid, fmt(v)[:60]), b.where(i))


def circular(F, rep, E, sub):
    """blocks taken out of area A go into area B only if B is not below them"""
    b, V = E.b, E.V
    name = last(E.fid)
    pairs_ = set((r[3], m[3]) for r in E.rem for m in E.ins if not restoring(E, m) and r[3] != m[3])
    for ra, ia in sorted(pairs_, key=str):
        rep.count("moves between areas")
        tests = []
        for j, u in b.calls():
            if (F.callee(u) in sub or callname(u) in sub) and any(norm(V.op(a)) == ia for a in u["a"]):
                tests.append((j, u))
        for m in E.ins:
            if m[3] != ia or restoring(E, m):
                continue
            i = m[0]
            if not tests:
                rep.violate("circular:" + name, "%s moves blocks into another area without testing whether that area is below them" % E.fid, b.where(i))
                continue
            ok = set(j for j, _ in tests)
            eq = same_edges(E, ra, ia)
            seen = E.Fl.run([(0, {})], avoid=ok, avoid_edges=eq)
            if i in seen:
                rep.violate("circular:" + name, "%s can move blocks into another area without testing whether that area is below them" % E.fid, b.where(i))
            for j, u in tests:
                k = E.Fl.key(u["d"])
                st0 = []
                for q, st in E.Fl.after(j):
                    st = dict(st)
                    if k:
                        st[k] = ("k", 1)
                    st0.append((q, st))
                if i in E.Fl.run(st0, avoid=ok):
                    rep.violate("circular2:" + name, "%s moves blocks into an area although it is below them" % E.fid, b.where(i))
                # the position asked for is the one that gets moved
                f = F.fns.get(F.callee(u))
                if f and len(u["a"]) == 5 and E.F.fns[E.fid]["argc"] == 7:
                    want = [ia, ra]
                    got = [norm(V.op(a)) for a in u["a"]]
                    if got[1] == ra and got[2] == ia:
                        rep.violate("circular3:" + name, "%s tests whether the source area is below the destination instead of the reverse" % E.fid, b.where(j))


def same_edges(E, ra, ia):
    out = set()
    for i, bl in enumerate(E.b.blocks):
        t = bl["t"]
        if bl["cl"] or t["k"] != "switch":
            continue
        e, neg = unnot(E.V.op(t["d"]))
        e = strip(e)
        if e[0] == "bin" and e[1] in ("Eq", "Ne") and {norm(e[2]), norm(e[3])} == {ra, ia}:
            eq = (e[1] == "Eq") != neg
            tm = dict((v, s) for v, s in t["v"])
            out.add((i, tm.get(1, t["o"]) if eq else tm.get(0, t["o"])))
    return out


def spaces(F, rep, sp):
    """the space test looks at every row of the column"""
    for fid in sorted(sp):
        rep.count("space tests")
        b = flat(F, fid)
        V = Val(b)
        Fl = Flow(b)
        look = []
        for i, t in b.calls():
            n = last(callname(t) or trait_call(t))
            if n in ("get", "contains_key", "get_key_value") and t["a"]:
                r = strip(V.op(t["a"][0]))
                if r[0] == "fld" and r[2] in ("origin_map",):
                    look.append((i, t, n))
        if not look:
            rep.violate("spacetest:nolook", "%s does not look into the table of occupied cells" % fid)
            continue
        for i, t, n in look:
            key = strip(V.op(t["a"][1]))
            if key[0] != "agg":
                continue
            x, y = norm(key[2][0]), key[2][1]
            if x != ("arg", 2):
                rep.violate("spacetest:x", "%s looks into column %s" % (fid, fmt(x)[:60]), b.where(i))
            ys = strip(y)
            args = set(z[1] for z in deep_walk(V, ys) if z and z[0] == "arg")
            if 3 not in args:
                rep.violate("spacetest:y", "%s does not look at the rows below the position" % fid, b.where(i))
            if ys[0] == "fld" and str(ys[2]) == "0":
                ys = strip(ys[1])
            if ys[0] == "bin" and not ys[1].startswith("Add"):
                rep.violate("spacetest:y", "%s does not look at the rows below the position" % fid, b.where(i))
            if ys[0] == "bin" and any(strip(z)[0] == "k" for z in (ys[2], ys[3])):
                rep.violate("spacetest:y", "%s looks at one row only" % fid, b.where(i))
            for z in deep_walk(V, ys):
                if z and z[0] == "agg" and z[1][0] == "adt" and z[1][1].startswith("std::ops::Range"):
                    lo, hi = strip(z[2][0]), strip(z[2][1])
                    if lo[0] == "k" and lo[1] != 0:
                        rep.violate("spacetest:range", "%s starts at row %s" % (fid, lo[1]), b.where(i))
                    if norm(hi) != ("arg", 4) and norm(hi)[0] not in ("var",):
                        rep.violate("spacetest:range", "%s looks at the rows up to %s" % (fid, fmt(hi)[:60]), b.where(i))
                if z and z[0] == "call" and last(z[1]) in ("skip", "take", "step_by", "filter") and len(z[2]) > 1:
                    rep.violate("spacetest:range", "%s leaves out rows" % fid, b.where(i))
            k = Fl.key(t["d"])
            st0 = []
            for q, st in Fl.after(i):
                st = dict(st)
                if k:
                    st[k] = ("k", 1) if n == "contains_key" else ("v", 1)
                st0.append((q, st))
            for r, v in Fl.returns(Fl.run(st0)):
                if v == 1:
                    rep.violate("spacetest:answer", "%s can say there is space although a cell is occupied" % fid, b.where(i))
                    break


def table(F, rep):
    """origin_map after changes of blocks"""
    for fid, f in sorted(F.fns.items()):
        if not fid.startswith("wblockdsp::language") or "closure" in fid or "::test" in fid or f.get("test"):
            continue
        own = [k for k in F.fns if k == fid or k.startswith(fid + "::{closure")]
        if not any(plain_ref(F, k, BA, "blocks") for k in own):
            continue
        b = flat(F, fid)
        V = Val(b)
        muts, fresh = [], []
        for i, t in b.calls():
            n = last(callname(t) or trait_call(t))
            if n not in MUTS or not t["a"]:
                continue
            r = strip(V.op(t["a"][0]))
            if r[0] != "fld":
                continue
            if r[2] == "blocks" and b.blocks[i]["fn"] in own:
                muts.append((i, n, t))
            elif r[2] == "origin_map":
                fresh.append((i, n, t))
        for i, n, t in muts:
            rep.count("changes of the block table")
            ok = set(x[0] for x in fresh)
            st = [(j, dict(s)) for j, s in Flow(b).after(i)]
            k = Flow(b).key(t["d"])
            if n == "remove" and k:
                for _, s in st:
                    s[k] = ("v", 1)
            Fl = Flow(b)
            seen = Fl.run(st, avoid=ok)
            for r, v in Fl.returns(seen):
                if "Result" in f["locals"][0][0] and v == 1:
                    continue
                # private helpers may leave it to their callers
                if not f.get("pub") and f.get("vis") != "pub" and callers(F).get(fid) and all(covered(F, c, j) for c, j in callers(F)[fid]):
                    continue
                rep.violate("table:" + last(fid), "%s changes the blocks of an area but does not renew the lookup table of occupied cells" % fid, b.where(i))
                break
        # how the table is filled
        for i, n, t in fresh:
            if n != "insert" or b.blocks[i]["fn"] not in own or len(t["a"]) < 3:
                continue
            rep.count("table entries")
            key, val = V.op(t["a"][1]), V.op(t["a"][2])
            if key[0] != "agg" or val[0] != "agg":
                continue
            k0, k1, v0, v1 = norm(key[2][0]), norm(key[2][1]), norm(val[2][0]), norm(val[2][1])
            if k0 != v0:
                rep.violate("table:x:" + last(fid), "%s enters a block under another column" % fid, b.where(i))
            if k1 != v1 and v1 not in set(walk(k1)):
                rep.violate("table:y:" + last(fid), "%s enters a block under rows that do not start at its position" % fid, b.where(i))
            elif k1 == v1:
                rep.violate("table:y:" + last(fid), "%s enters only the first row of a block" % fid, b.where(i))
            if k0 == k1 or v0 == v1:
                rep.violate("table:xy:" + last(fid), "%s mixes up columns and rows" % fid, b.where(i))
            for z in walk(k1):
                if z and z[0] == "agg" and z[1][0] == "adt" and z[1][1].startswith("std::ops::Range"):
                    lo, hi = strip(z[2][0]), strip(z[2][1])
                    if (lo[0] == "k" and lo[1] != 0) or not (hi[0] == "fld" and hi[2] == "rows" or hi[0] in ("var", "call", "arg")) or hi[0] == "call" and last(hi[1]) in CHANGERS:
                        rep.violate("table:rows:" + last(fid), "%s does not enter every row of a block" % fid, b.where(i))
    rep.floor("changes of the block table", 3)
    rep.floor("table entries", 1)


def covered(F, fid, j):
    """after call j in fid the lookup table is renewed"""
    b = F.body(fid)
    ok = set()
    for i, t in b.calls():
        c = F.callee(t)
        if c and c in F.fns and any(plain_ref(F, c, BA, "origin_map") for c in [c]) and i != j:
            ok.add(i)
    return not (b.reachable(j, avoid=ok) & set(b.returns())) if j not in ok else True


def pairs(F, rep):
    """contains.0 and contains.1"""
    seen = {}
    for fid, f in F.fns.items():
        if not fid.startswith("wblockdsp::language") or "::test" in fid:
            continue
        root = fid.split("::{closure")[0]
        for p in places(F.body(fid)):
            for n, x in enumerate(p[1]):
                if isinstance(x, list) and x[0] == "f" and x[2] == "contains" and x[3] == LN + "Block":
                    for y in p[1][n + 1:n + 2]:
                        if isinstance(y, list) and y[0] == "f":
                            seen.setdefault(root, set()).add(y[1])
    for fid, s in sorted(seen.items()):
        rep.count("uses of sub areas")
        if len(s) == 1:
            rep.violate("contains:" + last(fid), "%s looks only at the %s sub area of a block" % (fid, "first" if 0 in s else "second"))
    rep.floor("uses of sub areas", 4)


def whole_search(F, rep, sub):
    """the test whether an area is below a block looks at every loaded block, at
    every area found and at each of its sub areas"""
    for fid in sorted(sub):
        b = flat(F, fid)
        rep.count("sub area tests")
        for i, t in b.calls():
            if last(callname(t)) in PARTIAL and b.blocks[i]["fn"].startswith("wblockdsp"):
                rep.violate("search:" + last(fid), "%s looks at a part of the areas or blocks only (%s)" % (fid, last(callname(t))), b.where(i))


def origins(F, rep):
    """a function that hands out a block together with its position names the
    position under which the block is stored"""
    for fid, f in sorted(F.fns.items()):
        ty = f["locals"][0][0]
        if f.get("self_ty") != BA or not ("Option<(" in ty and LN + "Block" in ty and ty.count("i64") == 2) or "closure" in fid:
            continue
        b = flat(F, fid)
        V = Val(b)
        keys = []
        for i, t in b.calls():
            if last(callname(t)) in ("remove", "get", "get_mut", "remove_entry", "get_key_value") and len(t["a"]) == 2 and any(x and x[0] == "fld" and x[2] == "blocks" for x in walk(V.op(t["a"][0]))):
                k = V.op(t["a"][1])
                while k[0] in ("ref", "deref"):
                    k = k[1]
                keys.append(k)
        rets = [V.rv(s[2], 1) for bl in b.blocks if not bl["cl"] for s in bl["s"] if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "tuple" and len(s[2][2]) in (3, 4) and "Block" in optype(b, s[2][2][0])]
        for r in rets:
            rep.count("positions handed out")
            x, y = norm(r[2][1]), norm(r[2][2])
            for k in keys:
                kx, ky = (norm(k[2][0]), norm(k[2][1])) if k[0] == "agg" and len(k[2]) == 2 else (norm(("fld", k, "0")), norm(("fld", k, "1")))
                args = {a for a in walk((x, y)) if isinstance(a, tuple) and a and a[0] == "arg"}
                if x != kx and strip(x) in [("arg", n) for n in (2, 3)] and strip(kx)[0] != "arg" or y != ky and strip(y) in [("arg", n) for n in (2, 3)] and strip(ky)[0] != "arg":
                    rep.violate("origin:" + last(fid), "%s hands out a block with the position it was asked for, not the position of the block" % fid, F.fn_loc(fid))
                elif x == ky and x != kx or y == kx and y != ky:
                    rep.violate("origin:" + last(fid), "%s mixes up the column and the row of a block" % fid, F.fn_loc(fid))


def optype(b, o):
    return b.locals[o[1][0]][0] if o[0] in ("c", "m") else ""


def others(F, rep, done):
    """changes of blocks and areas outside of the edits that can fail"""
    for fid, f in sorted(F.fns.items()):
        if f.get("self_ty") != BF or f["kind"] != "method" or not f.get("pub") or fid in done:
            continue
        if f["argc"] < 1 or f["locals"][1][0] != "&mut " + BF:
            continue
        b = flat(F, fid)
        V = Val(b)
        gens(rep, fid, b, V)
        if f["locals"][0][0] not in ("()",):
            continue
        hot = []
        gen = set()
        for i, bl in enumerate(b.blocks):
            if bl["cl"]:
                continue
            for s in bl["s"]:
                if s[0] == "=" and s[1][1]:
                    e = strip(V.place(s[1]))
                    p = []
                    while e[0] in ("fld", "deref", "ref", "dc", "idx", "cast"):
                        if e[0] == "fld":
                            p.append(str(e[2]))
                        e = e[2] if e[0] == "cast" else e[1]
                    if e == ("arg", 1) and p and p[-1] == "generation":
                        gen.add(i)
                    elif e == ("arg", 1) and p == ["areas"]:
                        hot.append(i)
            t = bl["t"]
            if t["k"] == "call" and t["a"]:
                if t["d"][1]:
                    e = strip(V.place(t["d"]))
                    if e[0] == "fld" and e[2] == "areas" and strip(e[1]) == ("arg", 1):
                        hot.append(i)
                n = last(callname(t) or trait_call(t))
                e = strip(V.op(t["a"][0]))
                if n in ("remove", "insert", "swap", "resize") and e[0] in ("fld", "var") and port_list(V, e):
                    hot.append(i)
        for i in hot:
            rep.count("other changes")
            Fl = Flow(b)
            if i in Fl.run([(0, {})], avoid=gen) and Fl.returns(Fl.run(Fl.after(i), avoid=gen)):
                rep.violate("gen:" + last(fid), "%s changes the block function without advancing the generation" % fid, b.where(i))
    rep.floor("other changes", 2)


def port_list(V, e):
    if e[0] == "var":
        return any(strip(x)[0] == "fld" and strip(x)[2] in ("inputs", "outputs") for x in expand(V, e))
    return e[2] in ("inputs", "outputs")


def upload(F, rep):
    """a changed block function is compiled and sent"""
    fid = "global::NodeGlobalData::check_code"
    if fid not in F.fns:
        fid = next((k for k, f in F.fns.items() if (f.get("self_ty") or "").endswith("NodeGlobalData") and any(callname(t).endswith("CodeEngine::upload") for _, t in F.body(k).calls())), fid)
    b = flat_or_miss(F, rep, fid, follow=lambda p: not p.startswith("wblockdsp"))
    if b is None:
        return
    V = Val(b)
    Fl = Flow(b)
    ups = [(i, t) for i, t in b.calls() if last(callname(t)) == "upload"]
    comp = [(i, t) for i, t in b.calls() if callname(t).endswith("Block2JITCompiler::compile")]
    if not ups or not comp:
        rep.violate("upload:none", "%s does not compile and upload changed block functions" % fid)
        return
    cmps = []
    for i, bl in enumerate(b.blocks):
        t = bl["t"]
        if bl["cl"] or t["k"] != "switch":
            continue
        e, neg = unnot(V.op(t["d"]))
        e = strip(e)
        if e[0] == "call" and last(e[1]) in ("ne", "eq") and len(e[2]) == 2:
            e = ("bin", "Ne" if last(e[1]) == "ne" else "Eq", e[2][0], e[2][1])
        if e[0] == "bin" and any(x and ((x[0] == "call" and last(x[1]) == "generation") or (x[0] == "fld" and x[2] == "generation")) for x in walk(e)):
            tm = dict((v, s) for v, s in t["v"])
            f0, f1 = tm.get(0, t["o"]), tm.get(1, t["o"])
            g = [any(x and ((x[0] == "call" and last(x[1]) == "generation") or (x[0] == "fld" and x[2] == "generation")) for x in walk(y)) for y in e[2:4]]
            if (g == [False, True] and e[1] in ("Lt", "Ge") or g == [True, False] and e[1] in ("Gt", "Le")) and not any(x and x[0] == "bin" for y in e[2:4] for x in walk(y)):
                # generations only grow: "older than" is "another"
                e = ("bin", "Ne" if e[1] in ("Lt", "Gt") else "Eq") + tuple(e[2:])
            if e[1] not in ("Eq", "Ne"):
                rep.violate("upload:cmp", "%s does not look for any change of the generation (%s)" % (fid, e[1]), b.where(i))
                continue
            cmps.append((i, f1 if (e[1] == "Ne") != neg else f0))
    rep.count("generation tests", len(cmps))
    if not cmps:
        rep.violate("upload:cmp", "%s does not compare the generation of the block function with that of the last upload" % fid)
    ub = set(i for i, _ in ups)
    absent_ = set()
    for i, bl in enumerate(b.blocks):
        t = bl["t"]
        if bl["cl"] or t["k"] != "switch":
            continue
        e = strip(V.op(t["d"]))
        if e[0] == "discr" and strip(e[1])[0] == "call" and last(strip(e[1])[1]) in ("get_mut", "get") and any(x and x[0] == "fld" and x[2] == "code_engines" for x in walk(e)):
            tm = dict((v, s) for v, s in t["v"])
            absent_.add((i, tm.get(0, t["o"])))
    for i, s in cmps:
        seen = Fl.run(Fl.edge(i, s), avoid=ub, avoid_edges=absent_)
        for r, v in Fl.returns(seen):
            if v in (0, None):
                rep.violate("upload:skip", "%s can succeed without uploading the changed block function" % fid, b.where(i))
                break
    for i, t in ups:
        a = strip(V.op(t["a"][1])) if len(t["a"]) > 1 else ("?",)
        if not any(x and x[0] == "call" and last(x[1]) == "compile" for x in deep_walk(V, a)):
            rep.violate("upload:what", "%s uploads something else than the compiled block function" % fid, b.where(i))
    # every lookup is under the id that was asked for
    for i, t in b.calls():
        n = last(callname(t))
        if n in ("get", "get_mut", "contains_key", "insert") and len(t["a"]) > 1:
            r = strip(V.op(t["a"][0]))
            if r[0] == "fld" and r[2] in ("block_functions", "code_engines") and norm(V.op(t["a"][1])) != ("arg", 2):
                rep.violate("upload:id", "%s looks up another block function or code engine than the one with the given id" % fid, b.where(i))
