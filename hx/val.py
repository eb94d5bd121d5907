"""Value tracing over a (flattened) MIR body: every operand is turned into an
expression tree over constants, arguments, field paths, arithmetic and calls.
References, derefs, moves, copies, reborrows, Deref/Index/len calls are
normalised away so that `self.prog.params[i]` is the same tree no matter how
many temporaries or helper functions it went through."""
import re

DEREF = {
    "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut",
    "std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice",
    "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut",
    "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut",
    "std::boxed::Box::<T>::as_ref",
    "std::string::String::as_str", "core::array::<impl [T; N]>::as_slice",
    "std::array::<impl [T; N]>::as_slice",
}
IDENT = {"std::convert::Into::into", "std::convert::From::from", "std::iter::IntoIterator::into_iter",
         "std::clone::Clone::clone"}
INDEX = {"std::ops::Index::index", "std::ops::IndexMut::index_mut"}


def strip_gen(p):
    """drop turbofish-like generic segments from a path"""
    out = ""
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and not (i > 0 and p[i - 1] == "-"):
            d -= 1
        elif d == 0:
            out += c
        i += 1
    return out.replace("::::", "::")


class Val:
    def __init__(self, body, max_depth=60, ident_calls=True):
        self.b = body
        self.d = body.defs()
        self.mutb = body.mut_borrowed()
        self.max_depth = max_depth
        self.memo = {}
        self.ident_calls = ident_calls

    # operand / place at any point (flow-insensitive per local, exact for
    # single-assignment locals which is what MIR temporaries are)
    def op(self, o, dep=0):
        if o[0] in ("c", "m"):
            return self.place(o[1], dep)
        if o[0] == "k":
            return self.konst(o[1])
        return ("?",)

    def konst(self, k):
        if "fn" in k:
            return ("fn", k["fn"].get("resolved") or k["fn"]["path"])
        if "v" in k:
            return ("k", k["v"], k["ty"])
        if "f" in k:
            return ("kf", k["f"], k["ty"])
        if "str" in k:
            return ("str", k["str"])
        if "static" in k:
            return ("static", k["static"])
        if "promoted" in k:
            return ("prom", k["promoted"], k["ty"])
        if "item" in k:
            return ("item", k["item"])
        return ("kz", k["ty"])

    def place(self, p, dep=0):
        e = self.local(p[0], dep)
        for pr in p[1]:
            e = self.proj(e, pr, dep)
        return e

    def proj(self, e, pr, dep):
        if pr == "*":
            if e[0] == "ref":
                return e[1]
            if e[0] == "callref":
                return e[1]
            return ("deref", e)
        if isinstance(pr, list):
            k = pr[0]
            if k == "f":
                if e[0] == "agg" and pr[1] < len(e[2]):
                    return e[2][pr[1]]
                if e[0] == "ovf" and pr[1] == 0:
                    return ("bin", e[1], e[2], e[3])
                if e[0] == "dc" and e[1][0] == "agg" and pr[1] < len(e[1][2]) and e[1][1][0] == "adt" and e[1][1][3] == e[2]:
                    return e[1][2][pr[1]]
                return ("fld", e, pr[2])
            if k == "i":
                return ("idx", e, self.local(pr[1], dep))
            if k == "ci":
                return ("idx", e, ("k", pr[1], "usize") if not pr[2] else ("fromend", pr[1]))
            if k == "sub":
                return ("sub", e, pr[1], pr[2], pr[3])
            if k == "dc":
                return ("dc", e, pr[2])
        return ("?",)

    def local(self, l, dep=0):
        if l in self.memo:
            return self.memo[l]
        if dep > self.max_depth:
            return ("?",)
        if 1 <= l <= self.b.argc:
            ds = [x for x in self.d.get(l, []) if x[2] != "part"]
            if not ds:
                return ("arg", l)
            return ("var", l)
        ds = self.d.get(l, [])
        whole = [x for x in ds if x[2] != "part"]
        if len(whole) != 1 or len(ds) != 1:
            # partial initialisation / several definitions
            if len(whole) == 1 and len(ds) > 1:
                r = ("var", l)
            else:
                r = ("var", l)
            self.memo[l] = r
            return r
        i, j, kind, s = whole[0]
        self.memo[l] = ("var", l)  # cut cycles
        if kind == "assign":
            r = self.rv(s[2], dep + 1)
        else:
            r = self.call(i, s, dep + 1)
        self.memo[l] = r
        return r

    def rv(self, r, dep):
        k = r[0]
        if k == "use":
            return self.op(r[1], dep)
        if k == "ref" or k == "rawptr":
            return ("ref", self.place(r[1], dep))
        if k == "cast":
            e = self.op(r[1], dep)
            if "PointerCoercion" in r[3] or r[3] in ("PtrToPtr", "Transmute", "Subtype"):
                return e
            return ("cast", r[2], e, r[4] if len(r) > 4 else "?")
        if k == "bin":
            op = r[1]
            a, b = self.op(r[2], dep), self.op(r[3], dep)
            if op.endswith("WithOverflow"):
                return ("ovf", op[:-12], a, b)
            return ("bin", op, a, b)
        if k == "un":
            if r[1] == "PtrMetadata":
                e = self.op(r[2], dep)
                return ("len", e[1] if e[0] == "ref" else ("deref", e))
            return ("un", r[1], self.op(r[2], dep))
        if k == "discr":
            return ("discr", self.place(r[1], dep), r[2] if len(r) > 2 else "?")
        if k == "agg":
            return ("agg", tuple(r[1]), tuple(self.op(o, dep) for o in r[2]))
        if k == "item":
            e = self.op(r[1], dep)
            m = r[2]
            if m.startswith("next"):
                e = ("fld", ("dc", ("call", "std::iter::Iterator::next", (("ref", e),), -1), "Some"), "0")
            else:
                e = ("fld", ("dc", e, m.replace("ref", "")), "0")
            return ("ref", e) if m.endswith("ref") else e
        if k == "repeat":
            return ("repeat", self.op(r[1], dep), r[2])
        return ("?",)

    def call(self, bb, t, dep):
        if "f" not in t:
            return ("call", "<fnptr>", (), bb)
        p = t["f"]["path"]
        args = tuple(self.op(a, dep) for a in t["a"])
        if p in DEREF:
            a = args[0]
            inner = a[1] if a[0] == "ref" else ("deref", a)
            # auto-deref of owning pointers is transparent
            return ("ref", inner)
        if p in INDEX:
            a = args[0]
            inner = a[1] if a[0] == "ref" else ("deref", a)
            return ("ref", ("idx", inner, args[1]))
        if p.endswith("::len") and len(args) == 1:
            a = args[0]
            return ("len", a[1] if a[0] == "ref" else ("deref", a))
        if self.ident_calls and p in IDENT and len(args) == 1:
            a = args[0]
            if p.endswith("clone"):
                return a[1] if a[0] == "ref" else ("deref", a)
            return a
        rp = t["f"].get("resolved") or p
        return ("call", rp, args, bb)

    def var_defs(self, l, dep=0):
        """expressions of all whole definitions of a multiply-assigned local, or
        None when it is also written in parts / through a borrow"""
        ds = self.d.get(l, [])
        if any(x[2] == "part" for x in ds) or l in self.mutb or (1 <= l <= self.b.argc):
            return None
        out = []
        for i, j, kind, s in ds:
            out.append((i, self.rv(s[2], dep + 1) if kind == "assign" else self.call(i, s, dep + 1)))
        return out

    def var_interval(self, l, dep=0):
        from .interval import interval
        busy = self.memo.setdefault("busy", set())
        if l in busy or dep > 20:
            return None, None
        ds = self.var_defs(l, dep)
        if not ds:
            return None, None
        busy.add(l)
        try:
            lo = hi = None
            first = True
            for bb, e in ds:
                l2, h2 = interval(e, self.conds(bb), dep + 2, self)
                if first:
                    lo, hi = l2, h2
                    first = False
                else:
                    lo = None if lo is None or l2 is None else min(lo, l2)
                    hi = None if hi is None or h2 is None else max(hi, h2)
            return lo, hi
        finally:
            busy.discard(l)

    # ---- conditions ------------------------------------------------------
    def conds(self, bb, asserts=True):
        """conditions that hold on every path to bb: list of (expr, value|('not', vals))"""
        out = []
        b = self.b
        idom, _, _ = b.dom()
        sc, pr = b.cfg()
        x = bb
        while x in idom and x != 0:
            p = idom[x]
            t = b.blocks[p]["t"]
            if t["k"] == "switch":
                # edges p->s such that s dominates bb and is only entered from p
                tg = {}
                for v, s in t["v"]:
                    tg.setdefault(s, []).append(v)
                oth = t["o"]
                for s in set(list(tg) + [oth]):
                    if s == x or b.dominates(s, bb):
                        if all(q == p for q in pr[s]):
                            e = self.op(t["d"])
                            if s in tg and s != oth:
                                out.append((e, tuple(tg[s])))
                            elif s == oth and s not in tg:
                                out.append((e, ("not", tuple(v for v, _ in t["v"]))))
                # otherwise: all other edges diverge
                live = [s for s in dict.fromkeys([s for _, s in t["v"]] + [oth])]
            elif t["k"] == "assert" and asserts:
                if t["t"] == x or b.dominates(t["t"], bb):
                    out.append((self.op(t["c"]), (1 if t["e"] else 0,)))
            x = p
        return out


def walk(e):
    """every distinct (shared) sub-expression once"""
    st = [e]
    seen = {}
    while st:
        x = st.pop()
        if isinstance(x, tuple) and id(x) not in seen:
            seen[id(x)] = x
            yield x
            st.extend(y for y in x if isinstance(y, tuple))


def fmt(e, d=0):
    if not isinstance(e, tuple):
        return str(e)
    if d > 14:
        return ".."
    if not e:
        return "()"
    k = e[0]
    if isinstance(k, tuple):
        return "(" + ", ".join(fmt(x, d + 1) for x in e) + ")"
    if k == "agg":
        return "%s(%s)" % ("::".join(str(x) for x in e[1]), ", ".join(fmt(x, d + 1) for x in e[2]))
    if k == "arg":
        return "arg%d" % e[1]
    if k == "var":
        return "v%d" % e[1]
    if k == "k":
        return str(e[1])
    if k == "kf":
        return str(e[1])
    if k == "str":
        return repr(e[1])
    if k == "fld":
        return fmt(e[1], d + 1) + "." + str(e[2])
    if k == "idx":
        return fmt(e[1], d + 1) + "[" + fmt(e[2], d + 1) + "]"
    if k == "deref":
        return "*" + fmt(e[1], d + 1)
    if k == "ref":
        return "&" + fmt(e[1], d + 1)
    if k == "dc":
        return "(" + fmt(e[1], d + 1) + " as " + e[2] + ")"
    if k == "len":
        return "len(" + fmt(e[1], d + 1) + ")"
    if k == "bin":
        return "(%s %s %s)" % (fmt(e[2], d + 1), e[1], fmt(e[3], d + 1))
    if k == "cast":
        return "(%s as %s)" % (fmt(e[2], d + 1), e[1])
    if k == "call":
        return "%s(%s)" % (strip_gen(e[1]).split("::")[-1], ", ".join(fmt(a, d + 1) for a in e[2]))
    return "%s{%s}" % (k, ", ".join(fmt(x, d + 1) for x in e[1:]))


def noloc(e):
    """the tree without call-site ids (for structural comparison)"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == "call":
        return ("call", e[1], tuple(noloc(a) for a in e[2]))
    return tuple(noloc(x) for x in e)


def norm(e):
    """comparison normal form: no refs/derefs/downcasts/call ids/int casts"""
    if not isinstance(e, tuple) or not e:
        return e
    k = e[0]
    if k in ("ref", "deref"):
        return norm(e[1])
    if k == "dc":
        return norm(e[1])
    if k == "cast":
        return norm(e[2])
    if k == "call":
        return ("call", e[1], tuple(norm(a) for a in e[2]))
    if k == "k":
        return ("k", e[1])
    return tuple(norm(x) for x in e)


def self_path(e):
    """('arg1', 'field', 'field2', ...) of a place expression rooted in an
    argument, or None.  Derefs/refs/downcasts are transparent, an index shows
    up as '[]'."""
    out = []
    while True:
        if not isinstance(e, tuple) or not e:
            return None
        k = e[0]
        if k in ("ref", "deref", "dc"):
            e = e[1]
        elif k == "fld":
            out.append(str(e[2]))
            e = e[1]
        elif k == "idx" or k == "sub":
            out.append("[]")
            e = e[1]
        elif k == "arg":
            out.append("arg%d" % e[1])
            return tuple(reversed(out))
        elif k == "var":
            out.append("v%d" % e[1])
            return tuple(reversed(out))
        else:
            return None


def deep_walk(V, e, seen=None):
    """like walk, but also looks through multiply-assigned locals"""
    if seen is None:
        seen = set()
    st = [e]
    done = {}
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x or id(x) in done:
            continue
        done[id(x)] = x
        yield x
        if x[0] == "var" and x[1] not in seen:
            seen.add(x[1])
            for d in V.d.get(x[1], []):
                if d[2] == "assign":
                    st.append(V.rv(d[3][2], 1))
                elif d[2] == "call":
                    st.append(V.call(d[0], d[3], 1))
        st.extend(y for y in x if isinstance(y, tuple))
