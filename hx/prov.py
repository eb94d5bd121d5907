"""Structural provenance: which parts of a function's inputs end up in which
parts of what it builds.  Flow insensitive over a flattened body; values are
addressed by access paths (field names, JSON keys, positions, "*" for elements);
references, Option/Result/Box/Value wrappers are transparent.  The answer to a
query is a set of (source, operations applied on the way)."""
from .val import Val, strip_gen
from .ccp import CCP

TRANSP = {
    "std::option::Option", "std::result::Result", "serde_json::Value", "std::boxed::Box", "std::ops::ControlFlow",
    "std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::rc::Rc", "std::sync::Arc", "std::borrow::Cow",
    "std::boxed::BoxRaw", "std::ptr::Unique", "std::ptr::NonNull", "std::mem::MaybeDangling",
}
IDENT = {
    "unwrap", "expect", "ok", "ok_or", "ok_or_else", "into", "from", "clone", "to_string", "to_owned", "as_ref", "as_mut",
    "deref", "deref_mut", "borrow", "borrow_mut", "to_value", "iter", "into_iter", "iter_mut", "collect", "new", "into_boxed_slice",
    "cloned", "copied", "branch", "as_slice", "as_mut_slice", "as_array", "as_object", "as_array_mut", "as_object_mut", "to_vec", "into_vec",
    "box_assume_init_into_vec_unsafe", "write_box_via_move", "assume_init", "unwrap_unchecked", "as_deref", "as_deref_mut", "into_string",
    "as_bytes", "as_str", "as_i64", "as_u64", "as_f64", "as_bool", "by_ref", "peekable", "map_err", "unwrap_or_default", "from_iter",
    "try_into", "try_from", "get_or_insert", "into_inner", "from_str", "lock", "take_mut", "pin",
}
ACC = {"as_i64", "as_u64", "as_f64", "as_str", "as_bool"}
ARITH = {"Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "AddWithOverflow", "SubWithOverflow", "MulWithOverflow", "AddUnchecked", "SubUnchecked"}
WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128, "f32": 32, "f64": 64, "bool": 1}
LEN = 11


def step(s):
    return int(s) if isinstance(s, str) and s.isdigit() else s


def compat(a, b):
    return a == b or "*" in (a, b)


class Tup:
    """operands as a hashable root"""

    def __init__(self, ops):
        self.ops = ops

    def __getitem__(self, i):
        return self.ops[i]


class Prov:
    def __init__(self, body, nomix=None):
        self.nomix = nomix
        self.b = body
        self.F = body.facts
        self.V = Val(body)
        self.defs = {}
        self.stores = {}
        self.args = set(range(1, body.argc + 1))
        self.T = {}
        self.dirty = False
        self.cur = None
        self.deps = {}
        self.unknown = []
        self._scan()

    # ---- places ------------------------------------------------------------
    def path(self, pr, base_ty=None):
        out = []
        var = None
        for x in pr:
            if x == "*":
                continue
            if isinstance(x, list) and x[0] == "dc":
                var = x[2]
                continue
            if isinstance(x, list) and x[0] == "f":
                if x[3] in TRANSP or strip_gen(x[3] or "") in TRANSP:
                    var = None
                    continue
                if var is not None:
                    out.append("<%s>" % var)
                    var = None
                out.append(x[1] if "closure" in (x[3] or "") else step(x[2]))
            elif isinstance(x, list) and x[0] == "i":
                e = self.V.local(x[1])
                out.append(e[1] if e[0] == "k" and isinstance(e[1], int) else "*")
            elif isinstance(x, list) and x[0] in ("ci",):
                out.append(x[1] if isinstance(x[1], int) and not (len(x) > 2 and x[2] is True) else "*")
            else:
                out.append("*")
        return tuple(out)

    def dead_variant(self, pr):
        """a projection into Err / Break / None payloads carries no data"""
        return any(isinstance(x, list) and x[0] == "dc" and x[2] in ("Err", "Break") for x in pr)

    def addr(self, l, dep=0):
        """[(root, path)] a reference typed local may point to"""
        out = []
        for r, q in self.addr_(l, dep):
            out += self.settle(r, q, dep)
        return out

    def settle(self, r, q, dep=0):
        """resolve the pairs made by zip() / enumerate()"""
        if not isinstance(r, tuple):
            ds = self.defs.get(r, ())
            for _ in range(8):
                if q and len(ds) == 1 and ds[0][0] == "rv" and ds[0][1][0] == "use" and ds[0][1][1][0] in ("c", "m") and not ds[0][1][1][1][1]:
                    ds = self.defs.get(ds[0][1][1][1][0], ())
            if q and len(ds) == 1 and ds[0][0] == "rv" and ds[0][1][0] == "agg" and ds[0][1][1][0] in ("closure", "tuple") and dep < 20:
                ops = ds[0][1][2]
                if isinstance(q[0], int) and q[0] < len(ops) and ops[q[0]][0] in ("c", "m"):
                    o = ops[q[0]]
                    if self.isref(o[1][0]) or self.refish(o[1][0]):
                        return [z for a, p in self.addr_place(o[1], dep + 1) for z in self.settle(a, p + q[1:], dep + 1)]
            return [(r, q)]
        if len(q) < 2:
            return [(r, q)]
        t = r[1]
        k = q[1]
        if dep > 20:
            return []
        if t == "enumerate":
            if k == 0:
                return []
            return [z for a, p in self.addr_place(r[2][0][1], dep + 1) for z in self.settle(a, p + (q[0],) + q[2:], dep + 1)]
        a = r[2][1 if k == 1 else 0]
        if a[0] not in ("c", "m"):
            return []
        return [z for b, p in self.addr_place(a[1], dep + 1) for z in self.settle(b, p + (q[0],) + q[2:], dep + 1)]

    def addr_(self, l, dep=0):
        if dep > 20:
            return []
        if l in self.args:
            return [(l, ())]
        out = []
        for d in self.defs.get(l, ()):
            if d[0] == "rv":
                out += self.addr_rv(d[1], dep)
            else:
                out += self.addr_call(d[1], d[2], dep)
        return out

    def isref(self, l):
        ty = self.b.locals[l][0]
        return ty.startswith("&") or ty.startswith("*")

    def addr_place(self, p, dep):
        l, pr = p
        ps = self.path(pr)
        if self.isref(l) or self.refish(l):
            return [z for r, q in self.addr(l, dep + 1) for z in self.settle(r, q + ps, dep + 1)]
        return [(l, ps)]

    def refish(self, l):
        """a local whose value is (a wrapper around) a reference to elsewhere"""
        ty = self.b.locals[l][0]
        if "&" in ty or "IterMut" in ty or "Entry<" in ty or "Iter<" in ty:
            return not ty.startswith("std::vec::Vec")
        return False

    def addr_rv(self, rv, dep):
        if rv[0] in ("ref", "rawptr"):
            return self.addr_place(rv[1], dep)
        if rv[0] in ("use", "cast"):
            o = rv[1]
            if o[0] in ("c", "m"):
                return self.addr_place(o[1], dep)
        if rv[0] == "item" and rv[1][0] in ("c", "m"):
            r = self.addr_place(rv[1][1], dep)
            return [(a, q + (("*",) if rv[2].startswith("next") else ())) for a, q in r]
        if rv[0] == "agg" and rv[1][0] == "adt" and rv[2] and rv[2][0][0] in ("c", "m"):
            return self.addr_place(rv[2][0][1], dep)
        return []

    def addr_call(self, i, t, dep):
        n = self.name(t)
        if not t["a"] or t["a"][0][0] not in ("c", "m"):
            return []
        base = self.addr_place(t["a"][0][1], dep)
        if n in ("index_mut", "get_mut", "index", "get", "get_unchecked_mut"):
            k = self.keyof(t["a"][1])
            return [(r, q + (k,)) for r, q in base]
        if n in ("next", "last_mut", "first_mut", "last", "first", "next_back", "or_insert", "or_insert_with", "or_default"):
            return [(r, q + ("*",)) for r, q in base]
        if n in ("enumerate", "zip"):
            return [(("pair", n, Tup(t["a"])), ())]
        if n in IDENT or n in ("take", "skip", "rev", "entry", "filter", "unwrap_or", "unwrap_or_else", "and_then"):
            return base
        return []

    def name(self, t):
        if "f" not in t:
            return ""
        return strip_gen(t["f"].get("resolved") or t["f"]["path"]).split("::")[-1]

    def keyof(self, o):
        rs = {x for x, _ in self.solve_op(o, ())} if o[0] in ("c", "m") else {self.konst(o)}
        ks = {r[1] for r in rs if r and r[0] == "const"}
        if len(ks) == 1 and len(rs) == 1:
            return step(ks.pop()) if not isinstance(list(rs)[0][1], str) else list(rs)[0][1]
        return "*"

    def konst(self, o):
        k = o[1]
        if "str" in k:
            return ("const", k["str"])
        if "v" in k:
            return ("const", k["v"])
        if "promoted" in k:
            v = CCP.promoted(self, k)
            while v and v[0] == "refv":
                v = v[1]
            if v and v[0] in ("k", "str"):
                return ("const", v[1])
            if v and v[0] == "sym" and v[1][0] == "str":
                return ("const", v[1][1])
        if "f" in k:
            return ("const", k["f"])
        return ("const", None)

    # ---- indexing the body ----------------------------------------------------
    def _scan(self):
        pend = []
        for i, x in enumerate(self.b.blocks):
            if x["cl"]:
                continue
            for s in x["s"]:
                if s[0] != "=":
                    continue
                if not s[1][1]:
                    self.defs.setdefault(s[1][0], []).append(("rv", s[2], i))
                else:
                    pend.append((i, s[1], ("rv", s[2], i)))
            t = x["t"]
            if t["k"] == "call":
                if not t["d"][1]:
                    self.defs.setdefault(t["d"][0], []).append(("call", i, t))
                else:
                    pend.append((i, t["d"], ("call", i, t)))
        for i, p, d in pend:
            if "*" not in p[1] or not (self.isref(p[0]) or self.refish(p[0])):
                self.stores.setdefault(p[0], []).append((self.path(p[1]), d, i))
            else:
                for r, q in self.addr(p[0]):
                    self.stores.setdefault(r, []).append((q + self.path(p[1]), d, i))
        # calls that change what a &mut argument refers to
        pushes = {}
        for i, t in self.b.calls():
            n = self.name(t)
            for k, a in enumerate(t["a"]):
                if a[0] not in ("c", "m") or a[1][1]:
                    continue
                ty = self.b.locals[a[1][0]][0]
                if not ty.startswith("&mut"):
                    continue
                tgt = self.addr(a[1][0])
                rest = [o for j, o in enumerate(t["a"]) if j != k]
                if n in ("next", "index_mut", "get_mut", "iter_mut", "deref_mut", "as_mut", "as_array_mut", "as_object_mut", "sort_by", "sort", "sort_by_key",
                         "sort_unstable_by", "sort_unstable", "unwrap", "reserve", "last_mut", "entry", "pop", "clear", "by_ref", "into_iter", "truncate", "as_mut_slice"):
                    continue
                for r, q in tgt:
                    if n in ("push", "push_back") and len(rest) == 1:
                        pushes.setdefault((r, q), []).append((i, rest[0]))
                    elif n == "insert" and len(rest) == 2:
                        if "serde_json" in ty:
                            self.stores.setdefault(r, []).append((q + (self.keyof(rest[0]),), ("op", rest[1]), i))
                        elif "Map<" in ty:
                            self.stores.setdefault(r, []).append((q + ("*", 0), ("op", rest[0]), i))
                            self.stores.setdefault(r, []).append((q + ("*", 1), ("op", rest[1]), i))
                        else:
                            self.stores.setdefault(r, []).append((q + ("*",), ("op", rest[1]), i))
                    elif n in ("extend", "append", "extend_from_slice", "copy_from_slice", "clone_from_slice", "clone_from"):
                        self.stores.setdefault(r, []).append((q, ("op", rest[0]), i))
                    elif n in ("replace", "write", "set") and len(rest) == 1:
                        self.stores.setdefault(r, []).append((q, ("op", rest[0]), i))
                    elif n == "swap" and rest:
                        self.stores.setdefault(r, []).append((q, ("op", rest[0]), i))
                    elif not (self.nomix and self.nomix(strip_gen(t["f"].get("resolved") or t["f"]["path"]) if "f" in t else "")):
                        self.stores.setdefault(r, []).append((q, ("mix", t), i))
        loops = self.b.loops()
        for (r, q), ss in pushes.items():
            db = [d[2] if d[0] == "rv" else d[1] for d in self.defs.get(r, ())]
            n0 = self.litlen(r) if not q else 0
            for i, o in ss:
                inl = [h for h, bl in loops.items() if i in bl and not any(x in bl for x in db)]
                if inl or n0 is None or len(db) != 1:
                    k = "*"
                else:
                    k = n0 + sum(1 for j, _ in ss if j != i and self.b.dominates(j, i))
                self.stores.setdefault(r, []).append((q + (k,), ("op", o), i))

    def litlen(self, l, dep=0):
        ds = self.defs.get(l, ())
        if len(ds) != 1 or dep > 12:
            return None
        d = ds[0]
        st = [s for s in self.stores.get(l, ()) if not s[0]]
        if len(st) == 1 and st[0][1][0] == "rv":
            d = st[0][1]
        if d[0] == "rv":
            rv = d[1]
            if rv[0] == "agg":
                if rv[1][0] == "array":
                    return len(rv[2])
                if len(rv[2]) == 1 and rv[2][0][0] in ("c", "m"):
                    return self.litlen(rv[2][0][1][0], dep + 1)
                return None
            if rv[0] in ("use", "cast") and rv[1][0] in ("c", "m"):
                return self.litlen(rv[1][1][0], dep + 1)
            if rv[0] == "ref":
                return self.litlen(rv[1][0], dep + 1)
            return None
        t = d[2]
        n = self.name(t)
        if n == "new" or n == "with_capacity":
            return 0
        if n in IDENT and t["a"] and t["a"][0][0] in ("c", "m"):
            return self.litlen(t["a"][0][1][0], dep + 1)
        return None

    # ---- queries ---------------------------------------------------------------
    def solve(self, l, p=(), mode="src"):
        """fixpoint of the table entries the query depends on"""
        key = (l, p, mode)
        if key in self.T and not getattr(self, "_open", False):
            return self.T[key]
        nested = getattr(self, "_open", False)
        if nested:
            return self.get(key)
        self._open = True
        self.T.setdefault(key, set())
        n = 0
        while True:
            self.dirty = False
            self._seen = set()
            self.get(key)
            n += 1
            if not self.dirty or n > 60:
                break
        self._open = False
        return self.T[key]

    def solve_op(self, o, p, mode="src"):
        if o[0] not in ("c", "m"):
            return {(self.konst(o), frozenset())} if mode == "src" else set()
        return self.solve_place(o[1], p, mode)

    def solve_place(self, pl, p, mode="src"):
        if self.dead_variant(pl[1]):
            return set()
        return self.solve(pl[0], self.path(pl[1]) + p, mode)

    def get(self, key):
        cur = self.T.setdefault(key, set())
        if key in self._seen:
            return cur
        self._seen.add(key)
        l, p, mode = key
        if len(p) > LEN:
            return cur
        new = self.compute(l, p, mode)
        if not new <= cur:
            cur |= new
            self.dirty = True
        return cur

    def compute(self, l, p, mode):
        out = set()
        if l in self.args and mode == "src":
            out.add((("src", l, p), frozenset()))
        for d in self.defs.get(l, ()):
            out |= self.ev(d, p, mode)
        for sp, d, i in self.stores.get(l, ()):
            n = min(len(sp), len(p))
            if not all(compat(a, b) for a, b in zip(sp, p)):
                continue
            if len(sp) <= len(p):
                out |= self.ev(d, p[len(sp):], mode)
            elif mode == "src":
                out |= self.ev(d, (), mode)
            else:
                out.add(("kid", sp[n]))
        return out

    def solve_d(self, d):
        if d[0] == "op":
            return self.solve_op(d[1], ())
        return set()

    def gop(self, o, p, mode):
        if o[0] not in ("c", "m"):
            return {(self.konst(o), frozenset())} if mode == "src" else set()
        if self.dead_variant(o[1][1]):
            return set()
        return self.get((o[1][0], self.path(o[1][1]) + p, mode))

    def tag(self, rs, *ops):
        return {(s, o | frozenset(ops)) for s, o in rs}

    def ev(self, d, p, mode):
        if d[0] == "op":
            return self.gop(d[1], p, mode)
        if d[0] == "mix":
            t = d[1]
            if mode != "src":
                return set()
            out = set()
            for a in t["a"]:
                out |= self.tag(self.gop(a, (), mode), ("call", self.short(t)))
            return out
        if d[0] == "rv":
            return self.ev_rv(d[1], p, mode, d[2])
        return self.ev_call(d[1], d[2], p, mode)

    def ev_rv(self, rv, p, mode, bb):
        k = rv[0]
        if k == "use":
            return self.gop(rv[1], p, mode)
        if k in ("ref", "rawptr"):
            return self.gop(["c", rv[1]], p, mode)
        if k == "cast":
            r = self.gop(rv[1], p, mode)
            if mode == "src":
                to = rv[2]
                frm = rv[4] if len(rv) > 4 else None
                if to in WIDTH and frm in WIDTH:
                    return self.tag(r, ("cast", frm, to))
            return r
        if k == "item":
            return self.gop(rv[1], (("*",) if rv[2].startswith("next") else ()) + p, mode)
        if k == "agg":
            a = rv[1]
            if a[0] == "adt" and strip_gen(a[1]) in TRANSP:
                if a[-1] in ("Err", "Break", "None", "Null"):
                    return {(("const", a[-1]), frozenset())} if mode == "src" and a[-1] in ("None", "Null") else set()
                out = set()
                for o in rv[2]:
                    out |= self.gop(o, p, mode)
                return out
            if a[0] in ("array", "tuple", "closure") or a[0] == "adt":
                names = self.names(a, len(rv[2]))
                if a[0] == "adt" and a[1] in self.F.adts and len(self.F.adts[a[1]]["variants"]) > 1:
                    v = "<%s>" % a[-1]
                    if mode == "kids" and not p:
                        return {("kid", v)} if names else set()
                    if p:
                        if p[0] != v:
                            return set()
                        p = p[1:]
                if mode == "kids" and not p:
                    return {("kid", n) for n in names}
                out = set()
                for n, o in zip(names, rv[2]):
                    if not p:
                        out |= self.gop(o, (), mode)
                    elif compat(n, p[0]):
                        out |= self.gop(o, p[1:], mode)
                return out
            return set()
        if k == "repeat":
            return self.gop(rv[1], p[1:], mode)
        if k in ("bin", "un"):
            if mode != "src":
                return set()
            out = set()
            for o in rv[2:] if k == "bin" else rv[2:]:
                if isinstance(o, list) and o and o[0] in ("c", "m", "k"):
                    r = self.gop(o, (), mode)
                    if rv[1] in ARITH or (k == "un" and rv[1] == "Neg"):
                        r = self.tag(r, ("arith", rv[1]))
                    else:
                        r = self.tag(r, ("cmp", rv[1]))
                    out |= r
            return out
        if k == "discr":
            return self.tag(self.gop(["c", rv[1]], (), mode), ("cmp", "discr")) if mode == "src" else set()
        return set()

    def names(self, a, n):
        if a[0] == "adt":
            info = self.F.adts.get(a[1])
            if info:
                vs = info["variants"]
                v = vs[a[2]] if len(a) > 2 and isinstance(a[2], int) and a[2] < len(vs) else vs[0]
                fs = [f["name"] if isinstance(f, dict) else f[0] for f in v["fields"]]
                if len(fs) == n:
                    return [step(f) for f in fs]
        return list(range(n))

    def short(self, t):
        if "f" not in t:
            return "?"
        p = strip_gen(t["f"].get("resolved") or t["f"]["path"]).split("::")
        return "::".join(p[-2:])

    def ev_call(self, i, t, p, mode):
        n = self.name(t)
        a = t["a"]
        if n == "from_residual":
            return set()
        if not a:
            return set()
        if "res" in t and n in ("map", "and_then", "map_or", "filter_map", "flat_map", "map_or_else", "unwrap_or_else", "or_else", "map_while", "find_map"):
            tr = t["f"].get("trait") or ""
            isit = "Iterator" in tr or "::iter::" in t["f"]["path"]
            out = set()
            q = p
            if isit and n != "find_map":
                q = p[1:]
                if not p and mode == "kids":
                    return {("kid", "*")}
            for r in t["res"]:
                out |= self.get((r, q, mode))
            if n in ("unwrap_or_else", "or_else"):
                out |= self.gop(a[0], p, mode)
            if n == "map_or":
                out |= self.gop(a[1], p, mode)
            if n in ("filter_map", "flat_map", "map_while") and mode == "src":
                out = self.tag(out, ("select", n))
            return out
        if n in ("index", "index_mut", "get", "get_mut", "get_unchecked") and len(a) == 2:
            ty = self.b.locals[a[1][1][0]][0] if a[1][0] in ("c", "m") else ""
            if "Range" in ty:
                return self.tag(self.gop(a[0], p, mode), ("select", "range")) if mode == "src" else self.gop(a[0], p, mode)
            k = self.key_in(a[1])
            return self.gop(a[0], (k,) + p, mode)
        if n in ("next", "next_back", "last", "first", "nth", "last_mut", "first_mut", "min", "max") and len(a) == 1:
            return self.gop(a[0], ("*",) + p, mode)
        if n == "nth":
            return self.gop(a[0], ("*",) + p, mode)
        if n == "enumerate":
            if len(p) >= 2:
                if compat(p[1], 1) and p[1] != 0:
                    return self.gop(a[0], (p[0],) + p[2:], mode)
                return {(("idx",), frozenset())} if mode == "src" else set()
            return self.gop(a[0], p, mode)
        if n == "zip" and len(a) == 2:
            if len(p) >= 2:
                return self.gop(a[0] if p[1] == 0 else a[1], (p[0],) + p[2:], mode)
            return self.gop(a[0], p, mode) | self.gop(a[1], p, mode)
        if n == "chain" and len(a) == 2:
            return self.gop(a[0], p, mode) | self.gop(a[1], p, mode)
        if n == "keys" or n == "into_keys":
            return self.gop(a[0], p[:1] + (0,) + p[1:] if p else p, mode)
        if n in ("values", "into_values", "values_mut"):
            return self.gop(a[0], p[:1] + (1,) + p[1:] if p else p, mode)
        if n in ("unwrap_or", "or"):
            r = self.gop(a[1], p, mode)
            if mode == "src":
                r = self.tag(r, ("default",))
            return self.gop(a[0], p, mode) | r
        if n in ("take", "skip", "step_by", "rev") and "iter" in (t["f"].get("trait") or t["f"]["path"]).lower():
            r = self.gop(a[0], p, mode)
            if mode != "src":
                return r
            if n == "rev":
                ty = self.b.locals[a[0][1][0]][0] if a[0][0] in ("c", "m") else "Enumerate"
                return r if "Enumerate" in ty or "Zip" in ty else self.tag(r, ("rev",))
            k = self.keyval(a[1]) if len(a) > 1 else None
            return self.tag(r, (n, k, list(p).count("*")))
        if n in ("filter", "take_while", "skip_while"):
            r = self.gop(a[0], p, mode)
            return self.tag(r, ("select", n)) if mode == "src" else r
        if n == "from_elem":
            return self.gop(a[0], p[1:], mode)
        if n in ("min", "max", "clamp") and len(a) >= 2:
            out = set()
            if mode == "src":
                for x in a:
                    out |= self.tag(self.gop(x, (), mode), ("clamp", n))
            return out
        if n in IDENT and not self.local(t):
            r = self.gop(a[0], p, mode)
            if mode == "src":
                if n in ACC and "serde_json" in (t["f"].get("resolved") or t["f"]["path"]):
                    r = self.tag(r, ("acc", n))
                elif n == "to_value":
                    ty = self.b.locals[a[0][1][0]][0] if a[0][0] in ("c", "m") else "?"
                    r = self.tag(r, ("ser", ty.replace("&", "").replace("mut ", "").strip()))
            return r
        # anything else: a mix of everything it got
        if mode != "src":
            return set()
        out = set()
        for x in a:
            out |= self.tag(self.gop(x, (), mode), ("call", self.short(t)))
        for r in t.get("res", ()):
            out |= self.tag(self.get((r, (), mode)), ("call", self.short(t)))
        return out

    def local(self, t):
        p = t["f"].get("resolved") or t["f"]["path"]
        return p in self.F.fns

    def keyval(self, o):
        rs = {x for x, _ in self.gop(o, (), "src")}
        ks = {r[1] for r in rs if r[0] == "const"}
        return ks.pop() if len(ks) == 1 and len(rs) == 1 else None

    def key_in(self, o):
        if o[0] not in ("c", "m"):
            k = self.konst(o)[1]
            return k if k is not None else "*"
        rs = {x for x, _ in self.gop(o, (), "src")}
        ks = {r[1] for r in rs if r[0] == "const"}
        if len(ks) == 1 and len(rs) == 1:
            return ks.pop()
        return "*"

    # ---- trees -------------------------------------------------------------
    def leaves(self, l, p=(), dep=0):
        ks = {k for _, k in self.solve(l, p, "kids")}
        if not ks or dep > 9:
            return [p]
        out = []
        for k in sorted(ks, key=str):
            out += self.leaves(l, p + (k,), dep + 1)
        return out
