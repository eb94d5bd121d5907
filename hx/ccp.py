"""Conditional constant propagation over a (flattened) body: a forward dataflow
to a fixpoint whose facts are the abstract values of locals and of the memory
behind reference arguments.  A value is a constant, an aggregate of values, a
reference to a tracked place, an integer of known parity, an opaque expression
over the inputs, or a small set of alternatives; branches on known values prune
the edges not taken, branches on opaque values partition the paths (up to a cap,
then they are joined).  Running it once per
element of a finite input domain (an enum argument) tabulates what the function
does for each element without executing it."""
from .val import strip_gen

TOP = ("top",)
MAXALT = 14
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64,
         "u128": 128, "i128": 128, "bool": 1, "char": 32}


def wrap(n, ty):
    w = WIDTH.get(ty)
    if not w:
        return n
    n &= (1 << w) - 1
    if ty.startswith("i") and n >> (w - 1):
        n -= 1 << w
    return n


def depth(e, d=0):
    if d > 24:
        return 99
    if not isinstance(e, tuple):
        return 0
    m = 0
    for x in e:
        if isinstance(x, tuple):
            m = max(m, depth(x, d + 1))
            if m > 40:
                return m
    return m + 1


def sym(*e):
    return TOP if any(x == TOP for x in e) or depth(e) > 16 else ("sym", e)


def alts(v):
    return list(v[1]) if v[0] == "alt" else [v]


def mkalt(vs):
    s = set()
    for v in vs:
        if v == TOP:
            return TOP
        s.update(alts(v))
    if len(s) == 1:
        return next(iter(s))
    if not s or len(s) > MAXALT:
        return TOP
    return ("alt", frozenset(s))


def join(a, b):
    if a == b:
        return a
    if a is None or b is None or a == TOP or b == TOP:
        return TOP
    if a[0] == "agg" and b[0] == "agg" and a[1:3] == b[1:3] and len(a[3]) == len(b[3]) and (a[1] == "tuple" or a[2] is None):
        return ("agg", a[1], a[2], tuple(join(x, y) for x, y in zip(a[3], b[3])))
    if a[0] == "ov" and b[0] == "ov" and a[1] == b[1]:
        d1, d2 = dict(a[2]), dict(b[2])
        out = {}
        for k in set(d1) | set(d2):
            out[k] = join(d1.get(k, fld_sym(a[1], k)), d2.get(k, fld_sym(a[1], k)))
        return ("ov", a[1], tuple(sorted(out.items(), key=lambda z: z[0])))
    if a[0] == "ov" and b == ("sym", a[1]):
        return join(a, ("ov", a[1], ()))
    if b[0] == "ov" and a == ("sym", b[1]):
        return join(("ov", b[1], ()), b)
    return mkalt([a, b])


def fld_sym(base, name):
    return ("sym", ("fld", base, name))


def expr(v):
    """expression inside an opaque value"""
    if v[0] == "sym":
        return v[1]
    if v[0] == "ov":
        return ("ovx", v[1], v[2])
    return v


class CCP:
    def __init__(self, body, decide=None, force=None):
        """decide(e): constant an opaque expression is assumed to have (an input
        partition), or None; force: {type: value} of opaque locals"""
        self.b = body
        self.F = body.facts
        self.calls = {}    # bb -> [(argument values, state)]
        self.aggs = {}     # (bb, statement) -> [(aggregate built there, facts, fuzzy)]
        self.at = {}       # bb -> entry states
        self.decide = decide
        self.force = force or {}
        self.cur = None

    # ---- places -----------------------------------------------------------
    def root(self, st, l):
        if l in st:
            return st[l]
        return TOP

    def read(self, st, p):
        v, _ = self.walk(st, p)
        return v

    def walk(self, st, p):
        """-> (value, (root, path) or None) of a place"""
        loc = (p[0], ())
        v = self.root(st, p[0])
        var = None
        for x in p[1]:
            if x == "*":
                v, loc = self.deref(st, v)
                var = None
            elif isinstance(x, list) and x[0] == "dc":
                var = x[2]
                v = self.down(v, var)
            elif isinstance(x, list) and x[0] == "f":
                v = self.field(v, x[1], x[2], var)
                if loc:
                    loc = (loc[0], loc[1] + ((x[1], x[2], var),))
                var = None
            elif isinstance(x, list) and x[0] == "i":
                v = self.index(v, self.root(st, x[1]))
                loc = None
            elif isinstance(x, list) and x[0] == "ci":
                v = self.index(v, ("k", x[1])) if not x[2] else TOP
                loc = None
            else:
                return TOP, None
        return v, loc

    def deref(self, st, v):
        if v[0] == "ref":
            return self.load(st, v[1], v[2]), (v[1], v[2])
        if v[0] == "refv":
            return v[1], None
        if v[0] == "alt":
            rs = [self.deref(st, x) for x in v[1]]
            return mkalt([r[0] for r in rs]), None
        if v[0] in ("sym", "str"):
            return v, None      # references are transparent in expressions and for string constants
        return TOP, None

    def load(self, st, root, path):
        v = self.root(st, root)
        for n, name, var in path:
            if var:
                v = self.down(v, var)
            v = self.field(v, n, name, var)
        return v

    def down(self, v, var):
        if v[0] == "alt":
            xs = [x for x in v[1] if not (x[0] == "agg" and x[2] not in (None, var))]
            return mkalt(xs) if xs else TOP
        return v

    def field(self, v, n, name, var=None):
        if v[0] == "agg":
            if var and v[2] not in (None, var):
                return TOP
            return v[3][n] if n < len(v[3]) else TOP
        if v[0] == "ov":
            d = dict(v[2])
            return d.get(name, fld_sym(v[1], name))
        if v[0] == "sym":
            e = v[1]
            return sym("fld", ("dc", e, var) if var else e, name)
        if v[0] == "alt":
            return mkalt([self.field(x, n, name, var) for x in v[1]])
        return TOP

    def index(self, v, i):
        if v == TOP or i == TOP:
            return TOP
        if v[0] == "agg" and v[1] == "array" and i[0] == "k" and 0 <= i[1] < len(v[3]):
            return v[3][i[1]]
        if v[0] == "alt":
            return mkalt([self.index(x, i) for x in v[1]])
        if v[0] in ("sym", "ov"):
            return sym("idx", expr(v), i)
        return TOP

    def write(self, st, p, val):
        _, loc = self.walk(st, p)
        if loc is None:
            if p[1]:
                # a write through something untracked: forget memory behind arguments
                if "*" in p[1]:
                    base, _ = self.walk(st, [p[0], p[1][:p[1].index("*")]])
                    if base[0] == "ref":
                        self.store(st, base[1], base[2], TOP)
                        return
                    if base[0] == "sym":
                        st.setdefault("writes", frozenset())
                        st["writes"] = st["writes"] | {(base, self.names(p[1]), val)}
                        return
                else:
                    st[p[0]] = TOP
                    return
            return
        self.store(st, loc[0], loc[1], val)

    @staticmethod
    def names(pr):
        return tuple(x[2] for x in pr if isinstance(x, list) and x[0] == "f")

    def store(self, st, root, path, val):
        st[root] = self.upd(self.root(st, root), list(path), val)

    def upd(self, v, path, val):
        if not path:
            return val
        (n, name, var), rest = path[0], path[1:]
        if v[0] == "agg":
            fs = list(v[3])
            if n < len(fs):
                fs[n] = self.upd(fs[n], rest, val)
                return ("agg", v[1], v[2], tuple(fs))
            return TOP
        if v[0] == "sym" and not var:
            v = ("ov", v[1], ())
        if v[0] == "ov" and not var:
            d = dict(v[2])
            d[name] = self.upd(d.get(name, fld_sym(v[1], name)), rest, val)
            return ("ov", v[1], tuple(sorted(d.items(), key=lambda z: z[0])))
        return TOP

    # ---- values -----------------------------------------------------------
    def op(self, st, o):
        if o[0] in ("c", "m"):
            return self.read(st, o[1])
        k = o[1] if o[0] == "k" else {}
        if "v" in k and isinstance(k["v"], (int, bool)):
            return ("k", int(k["v"]))
        if "f" in k:
            return ("kf", k["f"])
        if "str" in k:
            return ("str", k["str"])
        if "fn" in k:
            return ("fn", k["fn"].get("resolved") or k["fn"]["path"])
        for n in ("static", "item"):
            if n in k:
                return ("sym", (n, k[n]))
        if "promoted" in k:
            v = self.promoted(k)
            if v is not None:
                return v
            return ("sym", ("prom", k["promoted"], k["ty"]))
        if k.get("ty") == "()":
            return ("agg", "tuple", None, ())
        return ("sym", ("kz", k.get("ty", "?")))

    def promoted(self, k):
        pid = "%s::promoted[%s]" % (k.get("owner"), k["promoted"])
        if pid not in self.F.fns:
            return None
        memo = self.F.__dict__.setdefault("_prom", {})
        if pid not in memo:
            memo[pid] = None
            c = CCP(self.F.body(pid))
            rets = c.run({})
            if len(rets) == 1:
                v = rets[0].get(0, TOP)
                if v[0] == "ref":
                    v = ("refv", c.load(rets[0], v[1], v[2]))
                if v[0] == "refv" and not concrete(v[1]):
                    v = TOP
                if v[0] in ("refv", "k", "agg", "str"):
                    memo[pid] = v
        return memo[pid]

    def binop(self, o, a, b, ty):
        if a == TOP or b == TOP:
            return TOP
        if a[0] == "alt" or b[0] == "alt":
            r = []
            for x in alts(a):
                for y in alts(b):
                    r.append(self.binop(o, x, y, ty))
            return mkalt(r)
        if a[0] == "k" and b[0] == "k":
            x, y = a[1], b[1]
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                     "Div": lambda: int(x / y) if y else None, "Rem": lambda: abs(x) % abs(y) * (1 if x >= 0 else -1) if y else None,
                     "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: x << y if y < 128 else None, "Shr": lambda: x >> y,
                     "Eq": lambda: int(x == y), "Ne": lambda: int(x != y), "Lt": lambda: int(x < y), "Le": lambda: int(x <= y),
                     "Gt": lambda: int(x > y), "Ge": lambda: int(x >= y)}.get(o.replace("Unchecked", ""), lambda: None)()
            except Exception:
                r = None
            if r is None:
                return TOP
            return ("k", r if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") else wrap(r, ty or ""))
        if a[0] == "par" or b[0] == "par":
            c = b if a[0] == "par" else a
            p = a if a[0] == "par" else b
            if c[0] == "k":
                if o == "Rem" and p is a and c[1] == 2 or o == "BitAnd" and c[1] == 1:
                    return ("k", p[1])
                if o in ("Add", "Sub"):
                    l = lin(("sym", p[2]), c, o, p is a)
                    return ("par", (p[1] + c[1]) % 2, l[1]) if l[0] == "sym" else TOP
                if o == "Mul" and c[1] % 2 == 0:
                    return TOP
            a = ("sym", a[2]) if a[0] == "par" else a
            b = ("sym", b[2]) if b[0] == "par" else b
        if o in ("Add", "Sub"):
            if b[0] == "k" and a[0] in ("sym", "ov"):
                return lin(a, b, o, True)
            if a[0] == "k" and b[0] in ("sym", "ov") and o == "Add":
                return lin(b, a, o, True)
        return sym("bin", o, expr(a), expr(b))

    def cast(self, v, ty, kind):
        if "PointerCoercion" in kind or kind in ("PtrToPtr", "Transmute", "Subtype"):
            return v
        if v[0] == "k":
            return ("k", wrap(v[1], ty)) if ty in WIDTH else TOP
        if v[0] == "alt":
            return mkalt([self.cast(x, ty, kind) for x in v[1]])
        if v[0] == "agg" and not v[3] and isinstance(v[1], tuple):
            return self.discr(v)
        if v[0] == "par":
            return v
        if v[0] == "sym" and kind == "IntToInt":
            return v          # integer casts are transparent in opaque expressions
        return sym("cast", ty, expr(v))

    def discr(self, v, ty=None):
        if v[0] == "alt":
            return mkalt([self.discr(x, ty) for x in v[1]])
        if v[0] == "agg" and isinstance(v[1], tuple):
            info = self.F.adts.get(v[1][1])
            if info:
                for i, x in enumerate(info["variants"]):
                    if x["name"] == v[2]:
                        return ("k", info["discr"][i] if info.get("discr") else i)
            return ("k", {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1, "Less": -1, "Equal": 0, "Greater": 1}.get(v[2], 0))
        if v[0] in ("sym", "ov"):
            r = sym("discr", expr(v))
            if self.decide and r != TOP:
                k = self.decide(r[1])
                if k is not None:
                    return ("k", k)
            return r
        return TOP

    def rv(self, st, r, ty):
        k = r[0]
        if k == "use":
            return self.op(st, r[1])
        if k in ("ref", "rawptr"):
            v, loc = self.walk(st, r[1])
            if loc is not None:
                return ("ref", loc[0], loc[1])
            return v if v[0] in ("sym", "str") else ("refv", v)
        if k == "cast":
            return self.cast(self.op(st, r[1]), r[2], r[3])
        if k == "bin":
            o = r[1]
            a, b = self.op(st, r[2]), self.op(st, r[3])
            if o.endswith("WithOverflow"):
                return ("agg", "tuple", None, (self.binop(o[:-12], a, b, None), ("sym", ("ovf",))))
            return self.binop(o, a, b, ty)
        if k == "un":
            v = self.op(st, r[2])
            if r[1] == "Not":
                return self.nott(v, ty)
            if r[1] == "Neg" and v[0] == "k":
                return ("k", -v[1])
            return sym("un", r[1], expr(v))
        if k == "discr":
            return self.discr(self.read(st, r[1]))
        if k == "item":
            v = self.op(st, r[1])
            m = r[2]
            if m.startswith("next"):
                return sym("next", expr(v)) if v != TOP else TOP
            g = m.replace("ref", "")
            w = self.field(self.down(v, g), 0, "0", g)
            return ("refv", w) if m.endswith("ref") and w != TOP and w[0] != "sym" else w
        if k == "agg":
            a = r[1]
            fs = tuple(self.op(st, o) for o in r[2])
            if a[0] == "adt" and len(a) > 3:
                return ("agg", ("adt", strip_gen(a[1])), a[3], fs)
            if a[0] in ("tuple", "array"):
                return ("agg", a[0], None, fs)
            return ("agg", tuple(str(x) for x in a), None, fs)
        return TOP

    def nott(self, v, ty):
        if v[0] == "k":
            return ("k", 1 - v[1]) if ty == "bool" or v[1] in (0, 1) and ty is None else ("k", wrap(~v[1], ty or "i64"))
        if v[0] == "alt":
            return mkalt([self.nott(x, ty) for x in v[1]])
        if v[0] == "sym" and v[1][0] == "not":
            return ("sym", v[1][1])
        return sym("not", expr(v)) if v != TOP else TOP

    # ---- calls --------------------------------------------------------------
    def call(self, st, i, t):
        """-> list of states after the call"""
        vs = [self.op(st, a) for a in t["a"]]
        self.calls.setdefault(i, []).append((vs, st))
        dty = self.b.locals[t["d"][0]][0] if not t["d"][1] else None
        p = t["f"]["path"] if "f" in t else "<fnptr>"
        n = strip_gen(p).split("::")[-1]
        r = self.known(st, p, n, vs, t, dty)
        if r is None:
            # an unknown function: what it may write through a reference is forgotten
            for a, v in zip(t["a"], vs):
                if a[0] in ("c", "m"):
                    ty = self.b.locals[a[1][0]][0] if not a[1][1] else ""
                    if v[0] == "ref" and ty.startswith("&mut"):
                        self.store(st, v[1], v[2], TOP)
            ev = []
            for v in vs:
                if v[0] == "ref":
                    v = self.load(st, v[1], v[2])
                elif v[0] == "refv":
                    v = v[1]
                ev.append(expr(v))
            r = sym("call", strip_gen(t["f"].get("resolved") or p) if "f" in t else p, tuple(ev)) if TOP not in ev else TOP
        if r[0] == "split":
            out = []
            for v, f in r[1]:
                s2 = self.learn(dict(st), f)
                if s2 is not None:
                    self.write(s2, t["d"], self.forced(dty, v))
                    out.append(s2)
            return out
        self.write(st, t["d"], self.forced(dty, r))
        return [st]

    def learn(self, st, f):
        """state with an added fact; None if it contradicts"""
        if f is None:
            return st
        if self.decide:
            k = self.decide(f[0])
            if k is not None:
                return st if k == f[1] else None
        for g in st["facts"]:
            if g[0] == f[0] and g[1] != f[1]:
                return None
        st["facts"] = st["facts"] | {f}
        return st

    def split_opt(self, st, v):
        """[(is the first payload variant (Some / Err), value, fact)] of an Option/Result value"""
        if v == TOP:
            return None
        out = []
        for x in alts(v):
            if x[0] == "agg":
                out.append((x[2] in ("Some", "Err"), x, None))
            elif x[0] in ("sym", "ov"):
                e = ("discr", expr(x))
                out.append((True, x, (e, 1)))
                out.append((False, x, (e, 0)))
            else:
                return None
        return out

    def val_of(self, st, v):
        return self.deref(st, v)[0] if v[0] in ("ref", "refv") else v

    def known(self, st, p, n, vs, t, dty):
        if p in ("std::convert::From::from", "std::convert::Into::into") and len(vs) == 1:
            return vs[0]
        if p == "std::clone::Clone::clone":
            return self.val_of(st, vs[0])
        if n in ("next", "next_back") and p.startswith("std::iter::") and len(vs) == 1:
            # an unknown element per round of the loop
            e = ("iter", self.cur)
            st["facts"] = frozenset(f for f in st["facts"] if not mentions(f[0], e))
            if vs[0][0] == "ref":
                self.store(st, vs[0][1], vs[0][2], ("sym", ("itstate", self.cur)))
            return ("sym", e)
        if p in ("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut"):
            v = self.val_of(st, vs[0])
            return v if v[0] == "sym" else None
        if p in ("std::ops::Index::index", "std::ops::IndexMut::index_mut"):
            v = self.index(self.val_of(st, vs[0]), vs[1])
            return v if v[0] == "sym" else (("refv", v) if v != TOP else TOP)
        if n in ("discriminant_value",):
            return self.discr(self.val_of(st, vs[0]))
        if n in ("eq", "ne") and p.startswith("std::cmp::PartialEq") and len(vs) == 2:
            a, b = self.val_of(st, vs[0]), self.val_of(st, vs[1])
            a, b = self.val_of(st, a), self.val_of(st, b)
            ka, kb = const_of(a), const_of(b)
            if ka is not None and kb is not None:
                return ("k", int((ka == kb) == (n == "eq")))
            if a == TOP or b == TOP:
                return TOP
            e = sym("bin", "Eq", expr(a), expr(b))
            return e if n == "eq" else self.nott(e, "bool")
        O = p.startswith("std::option::Option")
        R = p.startswith("std::result::Result")
        if O or R:
            v = self.val_of(st, vs[0]) if vs else TOP
            good, bad = ("Some", "None") if O else ("Ok", "Err")
            if n in ("is_some", "is_none", "is_ok", "is_err"):
                one = n in ("is_some", "is_err")
                d = self.discr(v)
                if d == TOP:
                    return TOP
                if d[0] == "k":
                    return ("k", int(d[1] == int(one)))
                if d[0] == "sym":
                    return sym("bin", "Eq", d[1], ("k", int(one)))
                return self.binop("Eq", d, ("k", int(one)), "bool")
            if "spliced" in t:
                ran = st.pop(("ran", t["spliced"]), None)
                res = st.get(t["res"][0], TOP) if len(t.get("res", ())) == 1 else TOP
                wrap_ = lambda x, g: ("agg", ("adt", "std::option::Option" if O else "std::result::Result"), g, (x,))
                none = ("agg", ("adt", "std::option::Option"), "None", ())
                if ran is None:
                    return TOP
                if ran:
                    if n == "map":
                        return wrap_(res, good)
                    if n == "map_err":
                        return wrap_(res, "Err")
                    if n in ("and_then", "or_else", "map_or", "is_some_and", "is_ok_and", "unwrap_or_else", "map_or_else"):
                        return res
                    if n in ("inspect", "inspect_err"):
                        return vs[0]
                    return TOP
                if n in ("map", "and_then", "inspect") and O:
                    return none
                if n in ("map", "and_then", "inspect"):
                    return vs[0] if vs[0][0] == "agg" else wrap_(self.field(vs[0], 0, "0", "Err"), "Err")
                if n in ("or_else", "map_err", "inspect_err"):
                    return vs[0] if vs[0][0] == "agg" else wrap_(self.field(vs[0], 0, "0", good), good)
                if n in ("is_some_and", "is_ok_and"):
                    return ("k", 0)
                if n == "map_or":
                    return vs[1]
                if n == "unwrap_or_else":
                    return self.field(self.down(vs[0], good), 0, "0", good)
                return TOP
            if n in ("copied", "cloned", "as_ref", "as_mut", "as_deref"):
                return v if v[0] in ("sym", "agg", "alt") else None
            if n in ("unwrap", "expect", "unwrap_unchecked"):
                return self.field(self.down(v, good), 0, "0", good)
            if O and n in ("or", "and") and len(vs) == 2:
                sp = self.split_opt(st, v)
                if sp is None:
                    return TOP
                none = ("agg", ("adt", "std::option::Option"), "None", ())
                return ("split", [((x if n == "or" else vs[1]) if pay else (vs[1] if n == "or" else none), f) for pay, x, f in sp])
            if n in ("unwrap_or", "unwrap_or_default", "ok_or", "ok"):
                sp = self.split_opt(st, v)
                if sp is None:
                    return TOP
                out = []
                for pay, x, f in sp:
                    isgood = pay if O else not pay
                    if n == "ok_or":
                        r = ("agg", ("adt", "std::result::Result"), "Ok", (self.field(x, 0, "0", good),)) if isgood else ("agg", ("adt", "std::result::Result"), "Err", (vs[1],))
                    elif n == "ok":
                        r = ("agg", ("adt", "std::option::Option"), "Some", (self.field(x, 0, "0", good),)) if isgood else ("agg", ("adt", "std::option::Option"), "None", ())
                    elif isgood:
                        r = self.field(x, 0, "0", good)
                    elif n == "unwrap_or":
                        r = vs[1]
                    else:
                        r = ("k", 0) if dty in WIDTH else TOP
                    out.append((r, f))
                return ("split", out)
        if p == "std::ops::Try::branch":
            v = vs[0]
            o = "Option" in self.b.locals[t["a"][0][1][0]][0].split("<")[0] if t["a"][0][0] in ("c", "m") else True
            good = "Some" if o else "Ok"
            sp = self.split_opt(st, v)
            if sp is None:
                return TOP
            out = []
            for pay, x, f in sp:
                if pay == o:
                    out.append((("agg", ("adt", "std::ops::ControlFlow"), "Continue", (self.field(x, 0, "0", good),)), f))
                else:
                    out.append((("agg", ("adt", "std::ops::ControlFlow"), "Break", (("sym", ("residual", expr(x))),)), f))
            return ("split", out)
        if p == "std::ops::FromResidual::from_residual":
            if dty and strip_gen(dty).endswith("Option"):
                return ("agg", ("adt", "std::option::Option"), "None", ())
            e = vs[0] if vs else TOP
            if e[0] == "sym" and e[1][0] == "residual" and isinstance(e[1][1], tuple) and e[1][1][:1] == ("agg",):
                e = e[1][1][3][0] if e[1][1][3] else TOP
            elif e[0] == "sym" and e[1][0] == "residual":
                e = sym("fld", ("dc", e[1][1], "Err"), "0")
            return ("agg", ("adt", "std::result::Result"), "Err", (e,))
        return None

    # ---- solver -----------------------------------------------------------
    def key(self, st):
        return frozenset(st.items())

    def prune(self, j, st):
        lv = self.live[j]
        return {k: v for k, v in st.items() if not isinstance(k, int) or (lv >> k) & 1 or k <= self.b.argc}

    def run(self, init, mark=(), cap=48):
        """init: local -> value of the arguments.  States of a block are kept apart
        (path partitions) up to `cap`, then joined.  A state whose path branched on
        an unknown value is marked `fuzzy`."""
        from .flow import Flow
        b = self.b
        if not hasattr(b, "_live"):
            b._live = Flow(b).live
        self.live = b._live
        self.mark = set(mark)
        self.coarse = False
        st = dict(init)
        st["facts"] = frozenset()
        st["fuzzy"] = False
        st["seen"] = frozenset()
        self.at = {0: [st]}
        seen = {0: {self.key(st)}}
        joined = {}
        work = [(0, st)]
        n = 0
        self.rets = []
        while work:
            i, st = work.pop()
            n += 1
            if n > 60000:
                raise RuntimeError("ccp: no fixpoint in " + b.fid)
            if i in joined and st is not joined[i]:
                continue
            if i in self.mark:
                st = dict(st)
                st["seen"] = st["seen"] | {i}
            for j, s2 in self.step(i, dict(st)):
                s2 = self.prune(j, s2)
                if j in joined:
                    new = self.join_state(joined[j], s2)
                    if new != joined[j]:
                        joined[j] = new
                        self.at[j] = [new]
                        work.append((j, new))
                    continue
                k = self.key(s2)
                q = seen.setdefault(j, set())
                if k in q:
                    continue
                q.add(k)
                self.at.setdefault(j, []).append(s2)
                if len(self.at[j]) > cap:
                    self.coarse = True
                    new = self.at[j][0]
                    for x in self.at[j][1:]:
                        new = self.join_state(new, x)
                    joined[j] = new
                    self.at[j] = [new]
                    work.append((j, new))
                else:
                    work.append((j, s2))
        for i in self.at:
            if b.blocks[i]["t"]["k"] == "return":
                for st in self.at[i]:
                    s2 = dict(st)
                    self.cur = None
                    for s in b.blocks[i]["s"]:
                        self.stmt(s2, s)
                    if i in self.mark:
                        s2["seen"] = s2["seen"] | {i}
                    self.rets.append(s2)
        return self.rets

    def retvals(self):
        """[(value, state)] of the returns"""
        out = []
        for st in self.rets:
            for v in alts(st.get(0, TOP)):
                out.append((v, st))
        return out

    def join_state(self, a, b):
        out = {}
        for k in a:
            if k in ("facts", "seen"):
                out[k] = a[k] & b[k]
            elif k == "fuzzy":
                out[k] = True
            elif k == "writes":
                out[k] = a[k] | b.get(k, frozenset())
            elif k in b:
                out[k] = join(a[k], b[k])
        if "writes" in b and "writes" not in a:
            out["writes"] = b["writes"]
        return out

    def forced(self, ty, v):
        if ty in self.force and v[0] in ("top", "sym"):
            return self.force[ty]
        return v

    def stmt(self, st, s, n=-1):
        if s[0] == "dead":
            st.pop(s[1], None)
        elif s[0] == "=":
            ty = self.b.locals[s[1][0]][0] if not s[1][1] else None
            v = self.rv(st, s[2], ty)
            if s[2][0] == "agg" and self.cur is not None:
                self.aggs.setdefault((self.cur, n), []).append((v, st["facts"], st["fuzzy"]))
            self.write(st, s[1], self.forced(ty, v))
        elif s[0] == "sd":
            self.write(st, s[1], TOP)

    def step(self, i, st):
        blk = self.b.blocks[i]
        self.cur = i
        for n, s in enumerate(blk["s"]):
            self.stmt(st, s, n)
        t = blk["t"]
        k = t["k"]
        if k in ("goto", "drop", "assert"):
            return [(t["t"], st)]
        if k == "nondet":
            return self.hub(i, st, t)
        if k == "call":
            r = self.call(st, i, t)
            return [] if t["t"] is None else [(t["t"], x) for x in r]
        if k == "switch":
            v = self.op(st, t["d"])
            if v[0] == "sym" and self.decide:
                x = self.decide(v[1])
                if x is not None:
                    v = ("k", x)
            out = []
            ks = [x for x, _ in t["v"]]
            known = [x[1] for x in alts(v) if x[0] == "k"] if all(x[0] == "k" for x in alts(v)) else None
            for x, j in t["v"] + [[None, t["o"]]]:
                if self.b.blocks[j]["t"]["k"] == "unreachable" and not self.b.blocks[j]["s"]:
                    continue
                if known is not None:
                    if x is None and all(y in ks for y in known):
                        continue
                    if x is not None and x not in known:
                        continue
                s2 = dict(st)
                if known is None and v[0] == "sym":
                    f = self.fact(v[1], x, ks)
                    s2 = self.learn(s2, f)
                    if s2 is None:
                        continue
                    if f is None and x is not None or has_call_expr(v[1]):
                        s2["fuzzy"] = True
                elif known is None or len(known) > 1:
                    s2["fuzzy"] = True
                out.append((j, s2))
            return out
        return []

    def hub(self, i, st, t):
        ct = self.b.blocks[t["ts"][0]]["t"]
        p = ct["f"]["path"] if "f" in ct else ""
        n = strip_gen(p).split("::")[-1]
        O = p.startswith("std::option::Option")
        R = p.startswith("std::result::Result")
        hk = ("ran", i)
        one = n in ("map", "and_then", "map_or", "is_some_and", "is_ok_and", "inspect", "filter")
        other = n in ("map_err", "or_else", "unwrap_or_else", "inspect_err", "ok_or_else")
        if (O or R) and (one or other) and ct["a"]:
            if hk in st:
                return [(t["ts"][0], st)]
            v = self.val_of(st, self.op(st, ct["a"][0]))
            sp = self.split_opt(st, v)
            if sp is not None:
                out = []
                for pay, x, f in sp:
                    s2 = self.learn(dict(st), f)
                    if s2 is None:
                        continue
                    good = pay if O else not pay
                    runs = good if one else not good
                    s2[hk] = runs
                    for j in (t["ts"][1:] if runs else t["ts"][:1]):
                        out.append((j, dict(s2)))
                return out
        out = []
        for j in t["ts"]:
            s2 = dict(st)
            s2["fuzzy"] = True
            out.append((j, s2))
        return out

    def fact(self, e, x, ks):
        if x is None:
            if ks == [0]:
                x = 1
            elif ks == [1]:
                x = 0
            else:
                return None
        return canon(e, x)


def canon(e, x):
    while e[0] == "not" and x in (0, 1):
        e = e[1]
        x = 1 - x
    if e[0] == "bin" and x in (0, 1):
        o, a, b = e[1], e[2], e[3]
        if o in ("Eq", "Ne") and b in (("k", 0), ("k", 1)) and isinstance(a, tuple) and a and a[0] == "discr":
            # is_some()-style tests and matches on the discriminant are the same fact
            return (a, b[1] if (x == 1) == (o == "Eq") else 1 - b[1])
        if o == "Ge":
            return (("bin", "Lt", a, b), 1 - x)
        if o == "Gt":
            return (("bin", "Lt", b, a), x)
        if o == "Le":
            return (("bin", "Lt", b, a), 1 - x)
        if o == "Ne":
            return (("bin", "Eq", a, b), 1 - x)
    return (e, x)


def mentions(e, x):
    return e == x or isinstance(e, tuple) and any(mentions(y, x) for y in e if isinstance(y, tuple))


def has_call_expr(e):
    if not isinstance(e, tuple):
        return False
    if e[:1] == ("call",):
        return True
    return any(has_call_expr(x) for x in e if isinstance(x, tuple))


def lin(a, b, o, left):
    """a + constant in a normal form"""
    e = expr(a)
    c = b[1] if o == "Add" else -b[1]
    if e[0] == "lin":
        e, c = e[1], e[2] + c
    return ("sym", e) if c == 0 else sym("lin", e, c)


def const_of(v):
    """hashable constant, or None"""
    if v[0] == "k":
        return v
    if v[0] == "agg":
        fs = [const_of(x) for x in v[3]]
        return None if None in fs else (v[1], v[2], tuple(fs))
    return None


def concrete(v):
    if v[0] in ("k", "kf", "str", "fn"):
        return True
    if v[0] == "refv":
        return concrete(v[1])
    return v[0] == "agg" and all(concrete(x) for x in v[3])


def enum(F, adt, variant):
    return ("agg", ("adt", adt), variant, ())
