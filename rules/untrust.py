"""P14: nothing in a patch can crash or hang the loader or the saver.
P18: pattern edits with any row, column or value are safe."""
from .common import *
from .nodes import Taint, const_len, opt_checked, cond_taint, nonzero, PANICS, field_name, adt_fields
from hx.report import Report
from hx.interval import interval

JSON = "serde_json::"
ACC = ("as_i64", "as_u64", "as_f64", "as_str", "as_bool", "as_array", "as_object", "as_number", "from_str", "parse", "from_utf8", "from_slice", "from_reader", "from_value", "get", "get_mut", "pointer", "read_to_string", "read_to_end")
REPRS = ("MatrixRepr", "PatternRepr", "CellRepr", "BlockFunSnapshot", "BlockArea", "MatrixDeserError")
BIG = 1 << 20


class PatchTaint(Taint):
    """values that come from a patch: everything read out of JSON, and the fields of
    the patch representation; numbers stored in containers that came from it"""

    def __init__(self, body, V, mem=(), scalars=()):
        self.b, self.V = body, V
        self.atoms = self.ectx = None
        self.fields = {}
        self.memo = {}
        self.mem = mem
        self.cont = set()
        self.args = {i for i in range(1, body.argc + 1) if any(r in body.locals[i][0] for r in REPRS) or (i in scalars)}
        self.scal = set(scalars)
        for _ in range(2):
            for i, t in body.calls():
                if last(callname(t)) in ("insert", "push", "push_back", "extend", "extend_from_slice", "push_front", "append") and len(t["a"]) >= 2:
                    r = V.op(t["a"][0])
                    while r[0] in ("ref", "deref"):
                        r = r[1]
                    if r[0] == "call" and r[3] not in self.cont and any(self.t(V.op(a)) for a in t["a"][1:]):
                        self.cont.add(r[3])
            self.memo = {}

    def t(self, e, seen=()):
        if not isinstance(e, tuple) or not e:
            return None
        k = e[0]
        if k == "arg":
            return "an argument" if e[1] in self.scal else None
        if k == "len":
            return self.t(e[1], seen)
        if k in ("fld", "dc", "deref", "ref", "idx", "sub"):
            p = self_path(e)
            if p and len(p) > 1:
                if p[0].startswith("arg") and int(p[0][3:]) in self.args and int(p[0][3:]) not in self.scal:
                    return "the patch representation"
                if any(m in p[1:] for m in self.mem):
                    return "loaded data"
            if k == "fld":
                y = strip_ref(e[1])
                while y[0] in ("cast", "dc", "ref", "deref") or y[0] == "fld" and y[2] in ("0", "pointer"):
                    y = y[2] if y[0] == "cast" else y[1]
                if y[0] == "call" and last(y[1]) == "new" and y[2]:
                    y = strip_ref(y[2][0])
                if y[0] == "agg" and y[1][0] == "adt":
                    fs = adt_fields(self.b.facts, y[1][1], y[1][3] if len(y[1]) > 3 else None)
                    if e[2] in fs and fs.index(e[2]) < len(y[2]):
                        return self.t(y[2][fs.index(e[2])], seen)
            return self.t(e[1], seen)
        if k == "call":
            n = last(e[1])
            if e[3] in self.cont:
                return "a collection of loaded values"
            if e[1].startswith(JSON) or "serde_json" in e[1]:
                if n in ACC:
                    return "a value in the patch"
            if n in ("from_str", "parse", "from_utf8"):
                return "a value in the patch"
            if n in ("lock", "to_value", "partial_cmp", "total_cmp", "new", "try_lock"):
                return None
            for a in e[2]:
                r = self.t(a, seen)
                if r:
                    return r
            return None
        if k == "cast":
            return self.t(e[2], seen)
        return Taint.t(self, e, seen)


    def san(self, e, conds, seen=()):
        if e[0] == "call" and last(e[1]) in ("min", "clamp") and len(e[2]) > 1:
            k = interval(e[2][-1], (), V=self.V)[0]
            if k is not None and k >= 1 << 32:
                return last(e[1]) == "min" and not self.t(e[2][0])
        return Taint.san(self, e, conds, seen)


def list_len(F, V, base, dep=0):
    """constant length of a vector made in this function, or of a struct's vector"""
    while base and base[0] in ("ref", "deref"):
        base = base[1]
    if not base or dep > 6:
        return None
    if base[0] == "call" and last(base[1]) == "from_elem" and len(base[2]) == 2:
        lo, hi = interval(base[2][1], (), V=V)
        return lo if lo is not None and lo == hi else None
    if base[0] == "idx" and base[1]:
        x = base[1]
        while x[0] in ("ref", "deref"):
            x = x[1]
        if x[0] == "call" and last(x[1]) == "from_elem" and len(x[2]) == 2:
            return list_len(F, V, x[2][0], dep + 1)
        return elem_len(F, V, x)
    if base[0] == "repeat":
        try:
            return int(str(base[2]).split("_")[0])
        except ValueError:
            return None
    if base[0] == "fld" and isinstance(base[2], str):
        tys = {t for (a, n), t in F.ntys.items() if n == base[2]}
        ls = {bounds.arr_len(t) for t in tys}
        if len(ls) == 1 and None not in ls:
            return ls.pop()
    n = const_len(F, base)
    return n if n is not None else elem_len(F, V, base, True)


def elem_len(F, V, base, outer=False):
    """length of the elements of a Vec<Vec<..>> field (or of the outer Vec), from its constructors"""
    if base[0] != "fld" or not isinstance(base[2], str):
        return None
    name = base[2]
    owners = [a for (a, n), t in F.ntys.items() if n == name and t.startswith("std::vec::Vec<std::vec::Vec<")]
    if len(owners) > 1:
        y = strip_ref(base[1])
        if y[0] == "arg":
            owners = [o for o in owners if o in V.b.locals[y[1]][0]]
    if len(owners) != 1:
        return None
    memo = F.__dict__.setdefault("_elemlen", {})
    key = (owners[0], name, outer)
    if key in memo:
        return memo[key]
    sizes = set()
    for fid, rec in F.fns.items():
        if not any(s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == owners[0] for b in rec["blocks"] for s in b["s"]):
            continue
        fb = F.body(fid)
        fv = Val(fb)
        for b in fb.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == owners[0]:
                    names = adt_fields(F, owners[0])
                    e = fv.op(s[2][2][names.index(name)])
                    if e[0] == "call" and last(e[1]) == "from_elem":
                        sizes.add(list_len(F, fv, e if outer else e[2][0]))
                    else:
                        sizes.add(None)
    memo[key] = sizes.pop() if len(sizes) == 1 else None
    return memo[key]


def place_adt(body, V, o, dep=0):
    """(type, field) an operand was read from, following plain copies"""
    if o[0] not in ("c", "m") or dep > 6:
        return None
    l, pr = o[1]
    if not pr:
        ds = body.defs().get(l, [])
        if len(ds) == 1 and ds[0][2] == "assign" and ds[0][3][2][0] == "use":
            return place_adt(body, V, ds[0][3][2][1], dep + 1)
        if len(ds) == 1 and ds[0][2] == "assign" and ds[0][3][2][0] == "cast":
            return place_adt(body, V, ds[0][3][2][1], dep + 1)
        return None
    if isinstance(pr[-1], list) and pr[-1][0] == "f" and len(pr[-1]) > 3:
        return strip_gen(pr[-1][3]), pr[-1][2]
    return None


def patch_fields(F):
    """(type, field) -> None if every number a patch puts there is limited, else where
    it is not; computed from all constructors in code that reads patches"""
    memo = F.__dict__.get("_patchfields")
    if memo is not None:
        return memo
    out = {}
    for fid, rec in F.fns.items():
        if not any(t["k"] == "call" and "f" in t and "serde_json" in t["f"]["path"] and last(t["f"]["path"]) in ACC for t in (b["t"] for b in rec["blocks"])):
            continue
        body = F.body(fid)
        V = Val(body)
        T = PatchTaint(body, V)
        for i, b in enumerate(body.blocks):
            if b["cl"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] in F.adts:
                    ad = s[2][1][1]
                    names = adt_fields(F, ad, s[2][1][3] if len(s[2][1]) > 3 else None)
                    for n, o in zip(names, s[2][2]):
                        e = V.op(o)
                        if T.t(e) and not T.san(e, conds_x(V, i)):
                            out[(ad, n)] = body.where(i)
    F._patchfields = out
    return out


def mutable_str_index(base_ty):
    return "serde_json" in base_ty


def site_fn(b):
    return b["fn"]


def scan(F, rep, body, what, mem=(), scalars=(), key="", strict=False):
    V = Val(body)
    T = PatchTaint(body, V, mem, scalars)
    pf = patch_fields(F)
    rep.count("blocks analysed", len(body.blocks))
    for i, k, base, ix, cl in bounds.obligations(body, V):
        t = body.blocks[i]["t"]
        if t["k"] == "call":
            sty = body.locals[t["a"][0][1][0]][0] if t["a"][0][0] in ("c", "m") else ""
            if "serde_json::Value" in sty or "serde_json::Map" in sty:
                continue  # never panics on reading
        rep.count("index operations")
        exprs = [ix] if k != "range" else list(ix[2])
        conds = None
        for x in exprs:
            tn = T.t(x)
            if not tn:
                continue
            rep.count("uses of untrusted numbers as index")
            fn = body.blocks[i]["fn"]
            kk = "index:%s:%s:%s" % (key, fn, field_name(base))
            if k != "range" and bounds.proved(body, V, i, base, x, cl):
                rep.sample("proved", "%s[%s]" % (field_name(base), fmt(x)[:60]))
                continue
            conds = conds_x(V, i)
            n = cl if cl is not None else list_len(F, V, base) if base is not None else None
            lo, hi = best(F, V, x, conds)
            if k != "range" and n is not None and hi is not None and hi < BIG:
                if hi >= n:
                    rep.violate(kk, "%s: an index into %s (length %d) that comes from %s is only limited to %s" % (what, field_name(base), n, tn, hi), body.where(i))
                else:
                    rep.sample("proved", "%s[%s] <= %s < %s" % (field_name(base), fmt(x)[:60], hi, n))
                continue
            if not limited(T, V, x, conds):
                rep.violate(kk, "%s: an index into %s comes from %s and nothing limits it: %s" % (what, field_name(base), tn, fmt(x)[:100]), body.where(i))
            else:
                rep.sample("limited", "%s[%s]" % (field_name(base), fmt(x)[:60]))
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"]:
            continue
        fn = b["fn"]
        if t["k"] == "assert" and t["m"][0] in ("rem0", "div0"):
            c = V.op(t["c"])
            d = c[2] if c[0] == "bin" else None
            if d is not None and T.t(d) and not nonzero(d, conds_x(V, i), V):
                rep.violate("div0:%s:%s" % (key, fn), "%s: division by %s, which comes from %s and may be zero" % (what, fmt(d)[:80], T.t(d)), body.where(i))
        elif t["k"] == "assert" and t["m"][0] == "overflow":
            ops = [V.op(a) for a in t["m"][2:]]
            for e in ops:
                tn = T.t(e)
                if not tn:
                    continue
                rep.count("arithmetic on untrusted numbers")
                if narrow(V, t, ops, conds_x(V, i)) or T.san(e, conds_x(V, i)) or counter(V, e):
                    continue
                rep.violate("overflow:%s:%s" % (key, fn), "%s: %s with %s, which comes from %s and is not limited, can overflow" % (what, t["m"][1], fmt(e)[:100], tn), body.where(i))
        elif t["k"] == "call":
            cn = callname(t)
            ln = last(cn)
            if ln in PANICS or (t["t"] is None and ln not in ("unwrap", "expect")):
                for c, v in conds_x(V, i):
                    tn = T.t(c) or cond_taint(T, c)
                    if tn:
                        rep.violate("panic:%s:%s" % (key, fn), "%s: panics depending on %s" % (what, tn), body.where(i))
                        break
            elif ln in ("unwrap", "expect", "unwrap_unchecked", "expect_err", "unwrap_err") and t["a"]:
                e = V.op(t["a"][0])
                rep.count("unwraps")
                tn = T.t(e)
                if tn and not opt_checked(V, e, conds_x(V, i)) and not always_some(e):
                    if e[0] == "call" and last(e[1]) in ("for_each", "try_for_each", "get_mut", "get", "entry") and not (e[1].startswith(JSON) or "serde_json" in e[1]) and inserted_before(body, V, i, e):
                        continue
                    rep.violate("unwrap:%s:%s" % (key, fn), "%s: unwraps a value that depends on %s: %s" % (what, tn, fmt(e)[:100]), body.where(i))
            elif ln in ("from_elem", "with_capacity", "reserve", "resize", "resize_with", "reserve_exact", "repeat"):
                o = t["a"][-1] if ln in ("with_capacity", "reserve", "from_elem", "reserve_exact", "repeat") else t["a"][1] if len(t["a"]) > 1 else None
                if o is not None:
                    e = V.op(o)
                    rep.count("allocations")
                    if T.t(e) and not has_len(e) and not T.san(e, conds_x(V, i)):
                        rep.violate("alloc:%s:%s" % (key, fn), "%s: the size of an allocation comes from %s and is not limited" % (what, T.t(e)), body.where(i))
            elif ln in ("split_at", "split_at_mut", "swap", "remove", "swap_remove", "copy_from_slice", "split_off", "drain", "chunks", "chunks_exact", "windows", "step_by", "rotate_left", "insert") and t["a"] and vecish(body, t):
                for o in t["a"][1:2]:
                    e = V.op(o)
                    if T.t(e) and not limited(T, V, e, conds_x(V, i)) and body_local_int(body, o):
                        rep.violate("bound:%s:%s" % (key, fn), "%s: %s() with a position that comes from %s and is not limited" % (what, ln, T.t(e)), body.where(i))
        # ranges that are run through
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith(("ops::Range", "ops::RangeInclusive")) and len(s[2][2]) >= 2:
                o = s[2][2][1]
                e = V.op(o)
                rep.count("ranges")
                pa = place_adt(body, V, o)
                if T.t(e) and not has_len(e) and not T.san(e, conds_x(V, i)) and not (T.t(e) == "a collection of loaded values" and pa and pa[0] in F.adts and pa not in pf):
                    rep.violate("range:%s:%s" % (key, fn), "%s: the number of rounds of a loop comes from %s and is not limited: %s" % (what, T.t(e), fmt(e)[:80]), body.where(i))
                    continue
                if pa in pf and not capped(F, T, V, e, conds_x(V, i)):
                    rep.violate("range:%s:%s.%s" % (key, pa[0].split("::")[-1], pa[1]), "%s: the number of rounds of a loop is %s.%s, which a patch can set to any number (%s)" % (what, pa[0].split("::")[-1], pa[1], pf[pa]), body.where(i))


def capped(F, T, V, e, conds):
    lo, hi = best(F, V, e, conds)
    if hi is not None and hi < BIG:
        return True
    return any(E[0] == "len" or (not T.t(E) and E[0] in ("arg", "fld", "len", "k", "deref", "ref")) for E in bounds.upper(e, conds, V))


def body_local_int(body, o):
    return o[0] in ("c", "m") and not o[1][1] and body.locals[o[1][0]][0] in ("usize", "u32", "i32", "u64", "i64")


def vecish(body, t):
    o = t["a"][0]
    if o[0] not in ("c", "m"):
        return False
    ty = body.locals[o[1][0]][0]
    return "Vec<" in ty or "&[" in ty or "&mut [" in ty or "str" in ty or "String" in ty or "VecDeque" in ty


def has_len(e):
    """as many as there are elements: work in proportion to the patch itself"""
    while e[0] in ("ref", "deref", "cast"):
        e = e[2] if e[0] == "cast" else e[1]
    return e[0] == "len"


def counter(V, e):
    """a counter of loop rounds or elements"""
    while e[0] in ("ref", "deref"):
        e = e[1]
    if e[0] == "var":
        ds = V.var_defs(e[1])
        return bool(ds) and all(x[0] == "k" or (x[0] == "bin" and x[1] == "Add" and x[3][0] == "k" and x[2] == e) for _, x in ds)
    if has_len(e):
        return True
    y = e
    pr = []
    while y[0] in ("fld", "dc", "deref", "ref"):
        if y[0] == "fld":
            pr.append(str(y[2]))
        y = y[1]
    return y[0] == "call" and last(y[1]) == "next" and y[2] and "Enumerate" in str(y[1]) and pr[:1] == ["0"]


def narrow(V, t, ops, conds):
    """both operands have known, small ranges"""
    r = [interval(x, conds, V=V) for x in ops]
    return all(lo is not None and hi is not None and -2**31 < lo and hi < 2**31 for lo, hi in r) and t["m"][1] != "Sub"


def always_some(e):
    return e[0] == "agg" and e[1][0] == "adt" and e[1][-1] in ("Some", "Ok", 1) and "Option" in str(e[1])


def inserted_before(body, V, i, e):
    """map.insert(k, ..) / contains_key dominates map.get(k).unwrap()"""
    if e[0] != "call" or len(e[2]) < 2:
        return True
    m, k = norm(e[2][0]), norm(e[2][1])
    for j, t in body.calls():
        if last(callname(t)) in ("insert", "contains_key", "entry") and len(t["a"]) >= 2 and norm(V.op(t["a"][0])) == m:
            return True
    return False


def len_const(F, V, E):
    """value of a bound that is computed from list lengths of known size"""
    while E[0] in ("ref", "deref", "cast") or E[0] == "fld" and str(E[2]) == "0" and E[1][0] == "bin":
        E = E[2] if E[0] == "cast" else E[1]
    if E[0] == "k" and isinstance(E[1], int):
        return E[1]
    if E[0] == "len":
        return list_len(F, V, E[1])
    if E[0] == "bin":
        a, b = len_const(F, V, E[2]), len_const(F, V, E[3])
        if a is not None and b is not None:
            op = E[1].split("With")[0]
            return a + b if op == "Add" else a - b if op == "Sub" else a * b if op == "Mul" else None
    return None


def best(F, V, x, conds):
    lo, hi = interval(x, conds, V=V)
    for E in bounds.upper(x, conds, V):
        n = len_const(F, V, E) if E[0] not in ("len", "k") else None
        if n is not None and (hi is None or n - 1 < hi):
            hi = n - 1
        if E[0] == "len":
            n = list_len(F, V, E[1])
            if n is not None and (hi is None or n - 1 < hi):
                hi = n - 1
        l2, h2 = interval(E, conds, V=V)
        if h2 is not None and (hi is None or h2 - 1 < hi):
            hi = h2 - 1
    return lo, hi


def limited(T, V, x, conds, dep=0):
    if not T.t(x):
        return True
    while x[0] in ("ref", "deref"):
        x = x[1]
    # the content of an option that was filled under a condition
    if x[0] == "fld" and x[1][0] == "dc" and x[1][1][0] == "var" and dep < 5:
        ds = V.var_defs(x[1][1][1]) or []
        pay = [(i, e) for i, e in ds if e[0] == "agg" and len(e[2]) == 1]
        if pay and all(e[0] == "agg" for _, e in ds) and all(limited(T, V, e[2][0], conds_x(V, i), dep + 1) for i, e in pay):
            return True
    for E in bounds.upper(x, conds, V):
        if not T.t(E):
            return True
    # known to be an element: map.get(i) / seen.get(i) was Some
    n = norm(x)
    for c, v in conds:
        for y in walk(c):
            if y and y[0] == "call" and last(y[1]) in ("get", "get_mut", "contains", "contains_key", "eq") and len(y[2]) > 1:
                if norm(y[2][1]) == n or any(z and z[0] == "call" and last(z[1]) in ("get", "get_mut") and len(z[2]) > 1 and norm(z[2][1]) == n for z in walk(y)):
                    return True
    if x[0] == "bin" and x[1] in ("Add", "Mul", "Sub") and dep < 5:
        return limited(T, V, x[2], conds, dep + 1) and limited(T, V, x[3], conds, dep + 1)
    if x[0] == "cast" and dep < 5 and limited(T, V, x[2], conds, dep + 1):
        return True
    lo, hi = interval(x, conds, V=V)
    if x[0] == "cast" and hi in (255, 65535):
        return False
    if hi is not None and lo is not None and lo >= 0 and hi < BIG and hi not in (127, 255, 32767, 65535):
        return True
    return False


BF = "wblockdsp::language::BlockFun::"
AR = "wblockdsp::language::BlockArea"


def areas(F, rep):
    """area references are validated before the loaded areas are used"""
    fid = BF + "load_snapshot"
    body = flat_or_miss(F, rep, fid)
    if body is None:
        return
    V = Val(body)
    rep.count("area reference checks")
    store = [i for i, j, p, rv in field_writes(body, V) if p[-1] == "areas" and p[0] == "arg1"]
    T = PatchTaint(body, V)
    for i, t in body.calls():
        if last(callname(t)) in ("extend", "push", "append", "clone_from", "extend_from_slice") and len(t["a"]) >= 2:
            p = self_path(V.op(t["a"][0]))
            if p and p[-1] == "areas" and p[0] == "arg1" and T.t(V.op(t["a"][1])):
                store.append(i)
    if not store:
        rep.violate("areas:store", "load_snapshot does not install the loaded areas", F.fn_loc(fid))
        return

    def ref_of(e):
        # does the expression lead to a block's area reference?
        return any(x and x[0] == "fld" and x[2] == "contains" for x in deep_walk(V, e))

    clears = {"0": [], "1": []}
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] != "=" or not s[1][1]:
                continue
            e = V.rv(s[2], 1)
            none = e[0] == "agg" and e[1][0] == "adt" and "Option" in e[1][1] and not e[2]
            if e[0] == "agg" and e[1][0] != "adt" and len(e[2]) == 2 and all(x[0] == "agg" and "Option" in str(x[1]) and not x[2] for x in e[2]):
                none = True
            filt = e[0] == "call" and last(e[1]) in ("filter", "take_if", "and_then")
            if not none and not filt:
                continue
            dst = V.place(s[1])
            if ref_of(dst):
                p = [str(x[2]) for x in deep_walk(V, dst) if x and x[0] == "fld"]
                fl = []
                y = dst
                while y[0] in ("fld", "deref", "ref", "dc"):
                    if y[0] == "fld":
                        fl.append(str(y[2]))
                    y = y[1]
                if fl[:1] == ["contains"]:
                    # both at once; only counts as check when conditional
                    ks = ["0", "1"]
                elif fl[:2] in (["0", "contains"], ["1", "contains"]):
                    ks = [fl[0]]
                else:
                    # via an iterator over both references
                    ks = [k for k in ("0", "1") if any(z and z[0] == "fld" and z[2] == k and ends(z[1], "contains") for z in deep_walk(V, dst))]
                for k in ks:
                    clears[k].append(i)
    for k in ("0", "1"):
        good = []
        for i in clears[k]:
            dc = dev_conds(body, V, i)
            for c, v, _ in dc:
                if any(x and ((x[0] == "call" and last(x[1]) in ("get", "get_mut", "contains", "contains_key", "insert", "lt", "ge")) or x[0] == "len") for x in deep_walk(V, c)) and ref_of(c):
                    good.append(i)
                    break
        if not good:
            rep.violate("areas:ref%s" % k, "loading a block function does not drop references of blocks (contains.%s) to areas that do not exist" % k, F.fn_loc(fid))
            continue
        w = with_heads(body, good)
        for s in store:
            x = must_pass(body, s, w - {s})
            if x is not None:
                rep.violate("areas:late%s" % k, "loading a block function can finish without checking the area references (contains.%s)" % k, body.where(s))
        rep.count("area references checked")
    # the areas are checked before they are used
    sized = [i for i, b in enumerate(body.blocks) if not b["cl"] for s in b["s"] if s[0] == "=" and s[1][1] and isinstance(s[1][1][-1], list) and s[1][1][-1][0] == "f" and s[1][1][-1][2] == "size"]
    rep.count("sizes calculated", len(sized))
    for k in ("0", "1"):
        w = with_heads(body, clears[k])
        for s in store:
            r = body.reachable(s, avoid=w - {s})
            bad = [i for i in sized if i in r]
            if clears[k] and bad:
                rep.violate("areas:order", "loading a block function calculates the sizes of the areas before their references are checked", body.where(bad[0]))
                break
    # every area is visited once: a marker is set for areas that are reached
    mark, mrec = False, set()
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"]:
            continue
        if t["k"] == "call" and last(callname(t)) in ("insert", "push", "replace", "push_back") and len(t["a"]) >= 2 and ref_of(V.op(t["a"][1])):
            r = norm(V.op(t["a"][0]))
            if any(last(callname(t2)) == "contains" and norm(V.op(t2["a"][0])) == r for _, t2 in body.calls() if t2["a"]) or "Set<" in body.locals[t["a"][0][1][0]][0]:
                mark = True
                mrec.add(strip_ref(V.op(t["a"][0])))
        if t["k"] == "call" and last(callname(t)) in ("get_mut", "index_mut") and len(t["a"]) == 2 and ref_of(V.op(t["a"][1])):
            r = strip_ref(V.op(t["a"][0]))
            if not (r[0] == "fld" and r[2] == "areas"):
                mark = True
                mrec.add(r)
        for s in b["s"]:
            if s[0] == "=" and s[1][1]:
                for pr in s[1][1]:
                    if isinstance(pr, list) and pr[0] == "i" and ref_of(V.local(pr[1])):
                        mark = True
    if not mark:
        rep.violate("areas:cycle", "loading a block function does not record which areas were reached already: areas that contain each other hang the size calculation", F.fn_loc(fid))
    # the root area counts as reached from the start
    def root_ix(e):
        e = strip_ref(e)
        return e[0] == "k" and e[1] == 0 or any(x and x[0] == "call" and last(x[1]) in ("pop", "pop_front", "pop_back", "next", "remove", "swap_remove") for x in deep_walk(V, e)) and not ref_of(e)
    rootm = False
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"]:
            continue
        if t["k"] == "call":
            n, a = last(callname(t)), [V.op(x) for x in t["a"]]
            if n in ("insert", "replace", "index_mut", "get_mut", "set") and len(a) >= 2 and root_ix(a[1]) and not ends(a[0], "areas") and (not mrec or strip_ref(a[0]) in mrec):
                rootm = True
            if n in ("from", "from_iter", "collect", "extend") and "Set<" in body.locals[t["d"][0]][0]:
                rootm = True
            if n in ("first_mut", "iter_mut", "last_mut", "resize"):
                x = a[0] if a else ("k", 0)
                if not any(y and y[0] == "fld" and y[2] in ("areas", "blocks") for y in deep_walk(V, x)):
                    rootm = True
        elif t["k"] == "switch":
            c = V.op(t["d"])
            if any(x and x[0] == "bin" and x[1] in ("Eq", "Ne", "Gt", "Lt", "Ge") and (x[3][0] == "k" and ref_of(x[2]) or x[2][0] == "k" and ref_of(x[3])) for x in walk(c)):
                rootm = True
        for s in b["s"]:
            if s[0] == "=" and s[1][1]:
                for pr in s[1][1]:
                    if isinstance(pr, list) and (pr[0] == "i" and root_ix(V.local(pr[1])) or pr[0] == "ci" and pr[1] == 0):
                        rootm = True
    if mark and not rootm:
        rep.violate("areas:root-mark", "loading a block function does not record that the root area is reached: a block may contain the root area, which hangs the size calculation", F.fn_loc(fid))
    # there is a root area
    root = False
    for i, t in body.calls():
        if last(callname(t)) in ("push", "insert", "resize", "resize_with", "extend") and t["a"]:
            p = self_path(V.op(t["a"][0]))
            if p and p[-1] == "areas":
                root = True
    for i, j, p, rv in field_writes(body, V):
        if p[-1] == "areas" and p[0] == "arg1" and i not in store[:1]:
            root = True
    if not root and not any(x and x[0] == "call" and last(x[1]) == "is_empty" for i, b in enumerate(body.blocks) if b["t"]["k"] == "switch" for x in walk(V.op(b["t"]["d"]))):
        rep.violate("areas:root", "loading a block function without any area leaves none to draw in: the first access crashes", F.fn_loc(fid))


def strip_ref(e):
    while e[0] in ("ref", "deref"):
        e = e[1]
    return e


def ends(e, name):
    while e[0] in ("ref", "deref"):
        e = e[1]
    return e[0] == "fld" and e[2] == name


def p14(F, tier):
    rep = Report("P14", "other")
    rep.rule("in the flattened code of reading, applying, collecting and writing a patch, no index, slice position, division, allocation size or number of loop rounds is computed from a number in the patch unless it was limited (min, clamp, take, %, comparison); no panic or unwrap depends on a value of the patch")
    rep.rule("numbers that are stored in a struct while reading and used as number of loop rounds later are limited where they are stored or used")
    rep.rule("area references in block functions are compared with the existing areas (and each area is entered once) before the sizes are calculated")
    R = "matrix_repr::MatrixRepr::"
    M = "matrix::Matrix::"
    skip = lambda p: p in ("matrix::Matrix::sync", "matrix::Matrix::clear") or p.startswith("sample_lib::") or p.startswith("wblockdsp::definition::")
    for fid, what in ((R + "deserialize", "reading a patch"), (R + "read_from_mem", "reading a patch from memory"), (R + "read_from_file", "reading a patch file"),
                      (R + "serialize", "writing a patch"), (M + "to_repr", "collecting the state for a patch"), (M + "from_repr", "applying a patch")):
        body = flat_or_miss(F, rep, fid, stop=skip)
        if body is None:
            continue
        rep.count("entry points")
        scan(F, rep, body, what, mem=(), key=fid.split("::")[-1])
    body = flat_or_miss(F, rep, BF + "load_snapshot")
    if body is not None:
        scan(F, rep, body, "loading a block function", key="load_snapshot")
        # arithmetic with what is in the loaded areas (their references are looked at by areas())
        r2 = Report("P14", "other")
        scan(F, r2, body, "loading a block function", mem=("areas", "blocks", "origin_map"), key="load_snapshot")
        for k, m, w in r2.violations:
            if k.startswith("overflow:"):
                rep.violate(k, m, w)
        rep.count("arithmetic on untrusted numbers", r2.counts.get("arithmetic on untrusted numbers", 0))
    areas(F, rep)
    rep.floor("entry points", 6)
    rep.floor("index operations", 5)
    rep.floor("uses of untrusted numbers as index", 3)
    rep.floor("ranges", 3)
    rep.assume("serde_json and the standard library do not panic on any text; a patch fits into memory")
    rep.assume("locks are not poisoned; files that a patch names are read by the sample library (not part of this property)")
    return rep


# ---------------------------------------------------------------- P18
PD = "dsp::tracker::pattern::PatternData"
UI = "dsp::tracker::pattern::UIPatternModel"
SEQ = "dsp::tracker::sequencer::PatternSequencer"


def p18(F, tier):
    rep = Report("P18", "other")
    rep.rule("in every pattern editing method, rows and columns given by the caller are compared with the dimensions (or used with get) before they index anything, arithmetic on given values saturates, and nothing is unwrapped or panics depending on them")
    rep.rule("every number of rows that is ever stored in a pattern or a pattern sequencer is limited to at most MAX_PATTERN_LEN, the length of every column")
    meths = [m for m in F.impl_methods_all(UI)] if hasattr(F, "impl_methods_all") else None
    ids = []
    for fid in F.fns:
        f = F.fns[fid]
        if f.get("self_ty") == PD and f.get("trait") == UI or fid.startswith(PD + "::") and False:
            ids.append(fid)
    ids = sorted(set(ids) | {f for f in F.fns if f.startswith("<" + PD + " as ") and "UIPatternModel" in f and "{closure" not in f})
    ids += sorted(f for f in F.fns if f.endswith("UIPatternModel::change_value") or "change_value" in f and "tracker" in f)
    ids = list(dict.fromkeys(ids))
    for fid in ids:
        body = flat(F, fid)
        sc = [i for i in range(1, body.argc + 1) if body.locals[i][0] in ("usize", "u16", "i16", "u8", "i32", "i64")]
        scan(F, rep, body, fid.split("::")[-1], scalars=sc, mem=("cursor", "edit_step"), key=fid.split("::")[-1])
        rep.count("editing methods")
    rep.floor("editing methods", 20)
    # column length
    for owner in (PD, SEQ):
        info = F.adts.get(owner)
        if not info:
            rep.violate("anchor:" + owner, "the type %s is gone" % owner)
            continue
        n = max_rows(F)
        names = adt_fields(F, owner)
        if "rows" not in names:
            rep.violate("anchor:%s.rows" % owner, "%s has no number of rows any more" % owner)
            continue
        for fid, rec in F.fns.items():
            hit = any(s[0] == "=" and (s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == owner or (s[1][1] and isinstance(s[1][1][-1], list) and s[1][1][-1][0] == "f" and s[1][1][-1][2] == "rows")) for b in rec["blocks"] for s in b["s"])
            if not hit:
                continue
            body = F.body(fid)
            V = Val(body)
            for i, b in enumerate(body.blocks):
                if b["cl"]:
                    continue
                for s in b["s"]:
                    if s[0] != "=":
                        continue
                    e = None
                    if s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == owner:
                        e = V.op(s[2][2][names.index("rows")])
                    elif s[1][1] and isinstance(s[1][1][-1], list) and s[1][1][-1][0] == "f" and s[1][1][-1][2] == "rows":
                        ty = place_ty(body, s[1])
                        if ty != owner:
                            continue
                        e = V.rv(s[2], 1)
                    if e is None:
                        continue
                    rep.count("stores of the number of rows")
                    if not rows_ok(F, V, e, conds_x(V, i), n, owner):
                        rep.violate("rows:%s" % fid, "%s stores a number of rows (%s) that may exceed the %d rows a column has" % (fid.split("::")[-1], fmt(e)[:80], n), body.where(i))
    rep.floor("stores of the number of rows", 4)
    rep.assume("methods are called through UIPatternModel or by patch loading (P14)")
    return rep


def place_ty(body, pl):
    return strip_gen(pl[1][-1][3]) if len(pl[1][-1]) > 3 else None


def max_rows(F):
    for o, f in ((PD, "data"), (SEQ, "data")):
        pass
    n = const_len(F, ("fld", ("arg", 1), "strings"))
    return n or 256


def rows_ok(F, V, e, conds, n, owner):
    while e[0] in ("ref", "deref"):
        e = e[1]
    lo, hi = interval(e, conds, V=V)
    if hi is not None and hi <= n:
        return True
    if e[0] == "len":
        return len_field_ok(F, e, n, owner)
    if e[0] == "call" and last(e[1]) in ("min", "clamp"):
        if last(e[1]) == "clamp":
            return rows_ok(F, V, e[2][2], conds, n, owner)
        return any(rows_ok(F, V, a, conds, n, owner) for a in e[2])
    if e[0] == "var":
        ds = V.var_defs(e[1])
        if ds and all(rows_ok(F, V, x, conds_x(V, bb), n, owner) for bb, x in ds):
            return True
    for c, v in conds:
        for E in le_bounds(c, v, norm(e)):
            if rows_ok(F, V, E, (), n, owner):
                return True
    if e[0] == "fld" and e[2] == "rows":
        y = strip_ref(e[1])
        if y[0] == "arg" and any(o in V.b.locals[y[1]][0] for o in (PD, SEQ)):
            return True
    return False


def le_bounds(c, v, n):
    neg = False
    while c[0] == "un" and c[1] == "Not":
        c, neg = c[2], not neg
    if c[0] != "bin":
        return []
    tr = True if v == (1,) or v == ("not", (0,)) else False if v == (0,) or v == ("not", (1,)) else None
    if tr is None:
        return []
    tr = tr != neg
    op, a, b = c[1], c[2], c[3]
    if not tr:
        op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}.get(op)
    if op in ("Lt", "Le") and norm(a) == n:
        return [b]
    if op in ("Gt", "Ge") and norm(b) == n:
        return [a]
    return []


def len_field_ok(F, e, n, owner):
    x = e[1]
    while x[0] in ("ref", "deref"):
        x = x[1]
    if x[0] == "fld" and x[2] in ("data", "strings"):
        return owner == PD
    k = const_len(F, x)
    return k is not None and k <= n
