"""P04-P06: rules about every node implementation."""
import re
from .common import *
from hx.report import Report
from hx.interval import interval

NODE = "dsp::DspNode"
INTS = ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "u128", "i128")


def node_process(F):
    return sorted(F.impl_methods(NODE, "process"))


def arg_of_type(body, pred):
    for i in range(1, body.argc + 1):
        if pred(body.locals[i][0]):
            return i
    return None


class Taint:
    """values a host, user or patch controls: atoms (settings), MIDI data,
    integers converted from floating point parameters/signals, and node state
    those were stored in"""

    def __init__(self, body, V):
        self.b, self.V = body, V
        self.atoms = arg_of_type(body, lambda t: "SAtom" in t)
        self.ectx = arg_of_type(body, lambda t: "NodeExecContext" in t)
        self.fields = {}
        self.memo = {}
        for _ in range(3):
            n = len(self.fields)
            self.memo = {}
            for i, j, p, rv in field_writes(body, V):
                if p[0] != "arg1" or rv is None:
                    continue
                e = V.rv(rv, 1)
                if accumulates(V, e, p):
                    self.fields.setdefault(p, "an accumulating counter")
                    continue
                t = self.t(e)
                if t and not self.san(e, V.conds(i)):
                    self.fields.setdefault(p, t)
            if len(self.fields) == n:
                break

    def t(self, e, seen=()):
        if not isinstance(e, tuple) or not e:
            return None
        k = e[0]
        V = self.V
        if k in ("k", "kf", "str", "len", "arg", "discr"):
            return None
        if k == "cast":
            if e[1] in INTS and len(e) > 3 and e[3] in ("f32", "f64"):
                if const_float(e[2]):
                    return None
                return "an integer made from a floating point value"
            return self.t(e[2], seen)
        if k in ("fld", "dc", "deref", "ref", "idx", "sub"):
            p = self_path(e)
            if p:
                if self.atoms and p[0] == "arg%d" % self.atoms and len(p) > 2:
                    return "a setting"
                if self.ectx and p[0] == "arg%d" % self.ectx and len(p) > 2:
                    return "external event data"
                if p in self.fields:
                    return self.fields[p]
                if p[0] == "arg1":
                    return None
            return self.t(e[1], seen)
        if k == "var":
            if e[1] in seen:
                return None
            if e[1] in self.memo:
                return self.memo[e[1]]
            r = None
            for d in V.d.get(e[1], []):
                x = V.rv(d[3][2], 1) if d[2] == "assign" else (V.call(d[0], d[3], 1) if d[2] == "call" else (V.rv(d[3][2], 1) if d[3][0] == "=" else None) if isinstance(d[3], list) else None)
                if x:
                    r = self.t(x, seen + (e[1],))
                    if r:
                        break
            if not seen:
                self.memo[e[1]] = r
            return r
        if k == "call":
            if last(e[1]) in ("len", "nframes"):
                return None
            for a in e[2]:
                r = self.t(a, seen)
                if r:
                    return r
            return None
        if k in ("bin", "ovf"):
            if e[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return None
            return self.t(e[2], seen) or self.t(e[3], seen)
        if k == "un":
            return self.t(e[2], seen)
        if k == "agg":
            for a in e[2]:
                r = self.t(a, seen)
                if r:
                    return r
        return None

    def lsan(self, e, conds, dep=0):
        """the user cannot make it arbitrarily small"""
        if dep > 8 or not self.t(e):
            return True
        lo, _ = interval(e, conds, V=self.V)
        if lo is not None and lo >= 0:
            return True
        if e[0] == "call":
            n = last(e[1])
            if n == "max":
                return any(self.lsan(x, conds, dep + 1) for x in e[2])
            if n == "clamp":
                return self.lsan(e[2][1], conds, dep + 1)
            if n == "min":
                return all(self.lsan(x, conds, dep + 1) for x in e[2])
            if n in ("rem_euclid", "abs", "unsigned_abs"):
                return True
        if e[0] in ("ref", "deref"):
            return self.lsan(e[1], conds, dep + 1)
        if e[0] == "var":
            ds = self.V.var_defs(e[1])
            return bool(ds) and all(self.lsan(x, self.V.conds(bb), dep + 1) for bb, x in ds)
        return False

    def san(self, e, conds, seen=()):
        """bounded by something that is not user controlled"""
        if not self.t(e):
            return True
        k = e[0]
        V = self.V
        if k == "cast":
            ok = self.san(e[2], conds, seen)
            if len(e) > 3 and e[3] in ("f32", "f64"):
                return fsan(self, e[2], seen)
            if e[1].startswith("u") and len(e) > 3 and e[3].startswith("i"):
                return ok and self.lsan(e[2], conds)
            return ok
        if k in ("ref", "deref"):
            return self.san(e[1], conds, seen)
        if k == "call":
            n = last(e[1])
            a = e[2]
            if n == "min" and len(a) == 2:
                return self.san(a[0], conds, seen) or self.san(a[1], conds, seen)
            if n == "clamp" and len(a) == 3:
                return self.san(a[2], conds, seen)
            if n == "rem_euclid":
                return self.san(a[1], conds, seen)
            if n in ("max", "saturating_add", "wrapping_add"):
                return all(self.san(x, conds, seen) for x in a)
            if n in ("saturating_sub",):
                return self.san(a[0], conds, seen)
            return False
        if k == "bin":
            if e[1] == "Rem":
                return self.san(e[3], conds, seen)
            if e[1] == "BitAnd":
                return self.san(e[2], conds, seen) or self.san(e[3], conds, seen)
            if e[1] in ("Add", "Sub", "Mul", "BitOr"):
                r = self.san(e[2], conds, seen) and self.san(e[3], conds, seen)
                if r:
                    return True
            if e[1] in ("Shr", "Div"):
                if self.san(e[2], conds, seen):
                    return True
        if k == "var" and e[1] not in seen:
            ds = V.var_defs(e[1])
            if ds and all(self.san(x, V.conds(bb), seen + (e[1],)) for bb, x in ds):
                return True
        for E in bounds.upper(e, conds, V) + incl_upper(e, V):
            if self.san(E, conds, seen):
                return True
        lo, hi = interval(e, conds, V=V)
        return lo is not None and hi is not None and lo >= 0 and hi < 2**31 and hi not in (127, 255, 32767, 65535)


def incl_upper(e, V):
    """end of an inclusive range whose item e is"""
    x = e
    while x[0] in ("ref", "deref", "cast", "fld", "dc"):
        x = x[2] if x[0] == "cast" else x[1]
    if x[0] == "call" and last(x[1]) == "next" and x[2]:
        it = x[2][0]
        while it[0] in ("ref", "deref"):
            it = it[1]
        if it[0] == "var":
            ds = [d for d in V.d.get(it[1], []) if d[2] != "part"]
            if len(ds) == 1:
                it = V.rv(ds[0][3][2], 1) if ds[0][2] == "assign" else V.call(ds[0][0], ds[0][3], 1)
        if it[0] == "call" and last(it[1]) == "new" and "RangeInclusive" in it[1]:
            return [it[2][1]]
    return []


def accumulates(V, e, p):
    """e = p + something, not wrapped by %, min, clamp, &"""
    if e[0] == "bin" and e[1] in ("Add", "AddUnchecked"):
        return any(self_path(x) == p for x in (e[2], e[3]))
    if e[0] == "ovf" and e[1] == "Add":
        return any(self_path(x) == p for x in (e[2], e[3]))
    if e[0] == "call" and last(e[1]) in ("saturating_add", "wrapping_add", "add"):
        return any(self_path(x) == p for x in e[2])
    return False


def fsan(T, e, seen):
    """a float value bounded by something not user controlled (NaN casts to 0)"""
    k = e[0]
    if k == "kf":
        return True
    if k == "call":
        n = last(e[1])
        if n in ("min",):
            return any(fsan(T, x, seen) for x in e[2])
        if n == "clamp":
            return fsan(T, e[2][2], seen)
        if n in ("floor", "ceil", "round", "trunc", "sqrt"):
            return fsan(T, e[2][0], seen)
        if n == "fract":
            return True
        return False
    if k == "cast":
        if len(e) > 3 and e[3] in ("f32", "f64"):
            return fsan(T, e[2], seen)
        return not T.t(e[2]) or T.san(e[2], (), seen)
    if k in ("ref", "deref"):
        return fsan(T, e[1], seen)
    if k == "bin" and e[1] in ("Mul", "Add", "Sub"):
        return fsan(T, e[2], seen) and fsan(T, e[3], seen)
    if k == "var" and e[1] not in seen:
        ds = T.V.var_defs(e[1])
        return bool(ds) and all(fsan(T, x, seen + (e[1],)) for _, x in ds)
    return False


def const_float(e):
    return all(x[0] not in ("arg", "var", "call", "fld", "idx", "deref") for x in walk(e) if isinstance(x[0], str))


def nonzero(e, conds, V, dep=0):
    lo, hi = interval(e, conds, V=V)
    if lo is not None and lo >= 1:
        return True
    n = norm(e)
    for c, v in conds:
        neg = False
        while c[0] == "un" and c[1] == "Not":
            c = c[2]
            neg = not neg
        if c[0] == "bin":
            truth = True if (v == (1,) or v == ("not", (0,))) else False if (v == (0,) or v == ("not", (1,))) else None
            if truth is None:
                continue
            if neg:
                truth = not truth
            for a, b, op in ((c[2], c[3], c[1]), (c[3], c[2], {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(c[1], c[1]))):
                if norm(a) == n and b[0] == "k":
                    z = b[1]
                    if (op == "Eq" and z == 0 and not truth) or (op == "Ne" and z == 0 and truth):
                        return True
                    if op == "Gt" and truth and z >= 0 or op == "Ge" and truth and z >= 1:
                        return True
                    if op == "Lt" and not truth and z >= 1 or op == "Le" and not truth and z >= 0:
                        return True
        elif norm(c) == n and v and v[0] == "not" and 0 in v[1]:
            return True
    if e[0] == "var" and dep < 3:
        ds = V.var_defs(e[1])
        if ds and all(nonzero(x, V.conds(bb), V, dep + 1) for bb, x in ds):
            return True
    return False


PANICS = ("panic", "panic_fmt", "panic_display", "unreachable_display", "panic_explicit", "begin_panic", "assert_failed", "unwrap_failed", "expect_failed", "panic_str", "panic_nounwind")
# foreign functions that crash / hang outside these argument ranges (synfx-dsp 0.5.6)
PRE = {"synfx_dsp::CtrlPitchQuantizer::update_keys": {1: (0, 0xFFF), 2: (0, 10), 3: (0, 10)}}


def field_nonzero(F, name, seen=()):
    """every value ever stored in a struct field of that name is non-zero"""
    if name in seen:
        return True
    vals = []
    for fid, rec in F.fns.items():
        hit = False
        for b in rec["blocks"]:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                if s[1][1] and isinstance(s[1][1][-1], list) and s[1][1][-1][0] == "f" and s[1][1][-1][2] == name:
                    hit = True
                if s[2][0] == "agg" and s[2][1][0] == "adt" and name in adt_fields(F, s[2][1][1], s[2][1][3] if len(s[2][1]) > 3 else None):
                    hit = True
        if not hit:
            continue
        body = F.body(fid)
        V = Val(body)
        for i, b in enumerate(body.blocks):
            if b["cl"]:
                continue
            for s in b["s"]:
                if s[0] != "=":
                    continue
                if s[1][1] and isinstance(s[1][1][-1], list) and s[1][1][-1][0] == "f" and s[1][1][-1][2] == name:
                    vals.append((body, V, i, V.rv(s[2], 1)))
                elif s[2][0] == "agg" and s[2][1][0] == "adt":
                    fs = adt_fields(F, s[2][1][1], s[2][1][3] if len(s[2][1]) > 3 else None)
                    if name in fs and fs.index(name) < len(s[2][2]):
                        vals.append((body, V, i, V.op(s[2][2][fs.index(name)])))
    if not vals:
        return False
    for body, V, i, e in vals:
        if nonzero(e, V.conds(i), V):
            continue
        x = e
        while x[0] in ("ref", "deref"):
            x = x[1]
        if x[0] == "fld" and isinstance(x[2], str) and (x[2] == name or field_nonzero(F, x[2], seen + (name,))):
            continue
        return False
    return True


def adt_fields(F, adt, variant=None):
    info = F.adts.get(adt)
    if not info:
        return []
    for v in info["variants"]:
        if variant is None or v["name"] == variant or len(info["variants"]) == 1:
            return [f[0] for f in v["fields"]]
    return []


def p04(F, tier):
    rep = Report("P04", "other")
    rep.rule("in every node's flattened processing code, an index, slice bound, subtraction/addition or divisor computed from a setting, from MIDI/host data, from a float-to-integer conversion or from accumulated node state must be limited (min, clamp, %, mask, comparison against the length) before it is used; divisors must be provably non-zero; sample data is only indexed after its length was checked")
    rep.rule("no panic depends on a setting or input value; f32::clamp never gets limits computed from signals (NaN or swapped limits panic)")
    rep.rule("foreign quantizer functions only get key masks and octaves in the range they accept")
    procs = node_process(F)
    for ty, p in procs:
        nm = ty.split("::")[-1]
        body = flat(F, p, depth=8)
        V = Val(body)
        T = Taint(body, V)
        rep.count("node implementations")
        rep.count("blocks analysed", len(body.blocks))
        ain = T.atoms
        for i, k, base, ix, cl in bounds.obligations(body, V):
            rep.count("index operations")
            exprs = [ix] if k != "range" else list(ix[2])
            bn = field_name(base)
            bp = self_path(base) if base is not None else None
            payload = bp and ain and bp[0] == "arg%d" % ain and len(bp) > 2
            conds = None
            for x in exprs:
                t = T.t(x)
                if not t and not payload:
                    continue
                conds = V.conds(i)
                if not t:
                    # fixed index into user supplied data: needs a length check
                    if x[0] == "k" and k == "range" and x[1] == 0:
                        continue
                    if len_checked(V, base, x, conds, k == "range"):
                        rep.count("sample data accesses checked")
                        continue
                    if x[0] == "k":
                        rep.violate("sample:%s:%s" % (nm, bn), "%s accesses element %s of user supplied sample data without checking its length" % (nm, fmt(x)), body.where(i))
                    continue
                rep.count("user controlled index uses")
                if k != "range" and bounds.proved(body, V, i, base, x, cl):
                    rep.sample("proved", "%s %s[%s]" % (nm, bn, fmt(x)[:60]))
                    continue
                if not T.san(x, conds):
                    rep.violate("index:%s:%s" % (nm, bn), "%s: index/bound into %s is computed from %s and nothing limits it: %s" % (nm, bn, t, fmt(x)[:100]), body.where(i))
                elif cl is not None and k != "range":
                    lo, hi = interval(x, conds, V=V)
                    if hi is not None and hi >= cl:
                        rep.violate("index:%s:%s" % (nm, bn), "%s: index into %s (length %d) is limited to %s only" % (nm, bn, cl, hi), body.where(i))
                else:
                    n = const_len(F, base)
                    if n is not None and k != "range":
                        lo, hi = interval(x, conds, V=V)
                        if hi is not None and n <= hi < 2**31:
                            rep.violate("index:%s:%s" % (nm, bn), "%s: index into %s (length %d) is limited to %s only" % (nm, bn, n, hi), body.where(i))
                    rep.sample("limited", "%s %s[%s]" % (nm, bn, fmt(x)[:60]))
        for i, b in enumerate(body.blocks):
            t = b["t"]
            if b["cl"]:
                continue
            if t["k"] == "assert" and t["m"][0] in ("rem0", "div0"):
                c = V.op(t["c"])
                d = c[2] if c[0] == "bin" else None
                rep.count("integer divisions")
                if d is None:
                    continue
                if nonzero(d, V.conds(i), V):
                    continue
                x = d
                while x[0] in ("ref", "deref"):
                    x = x[1]
                if x[0] == "fld" and isinstance(x[2], str) and field_nonzero(F, x[2]):
                    rep.sample("divisor invariants", x[2])
                    continue
                if x[0] == "len" and len_checked(V, x[1], ("k", 0, "usize"), V.conds(i), False):
                    continue
                rep.violate("div0:%s:%s" % (nm, b["fn"]), "%s: division/remainder by %s which may be zero" % (nm, fmt(d)[:100]), body.where(i))
            elif t["k"] == "assert" and t["m"][0] == "overflow":
                for a in t["m"][2:]:
                    e = V.op(a)
                    tn = T.t(e)
                    if tn and tn != "an accumulating counter":
                        rep.count("user controlled arithmetic")
                        if not T.san(e, V.conds(i)):
                            rep.violate("overflow:%s:%s" % (nm, b["fn"]), "%s: %s with %s, which is computed from %s and not limited, can overflow" % (nm, t["m"][1], fmt(e)[:100], tn), body.where(i))
            elif t["k"] == "assert" and t["m"][0] == "neg" or t["k"] == "call" and callname(t) in ("core::num::abs", "core::num::pow"):
                e = V.op(t["m"][1] if t["k"] == "assert" else t["a"][0])
                tn = T.t(e)
                if tn and tn != "an accumulating counter":
                    rep.count("user controlled arithmetic")
                    if not T.lsan(e, V.conds(i)) or (last(callname(t)) if t["k"] == "call" else "") == "pow" and not T.san(e, V.conds(i)):
                        rep.violate("overflow:%s:%s" % (nm, b["fn"]), "%s: negation, abs or pow of %s, which is computed from %s and not limited, can overflow" % (nm, fmt(e)[:100], tn), body.where(i))
            elif t["k"] == "call":
                cn = callname(t)
                ln = last(cn)
                if t["t"] is None and ln in PANICS or ln in PANICS:
                    for c, v in V.conds(i):
                        tn = T.t(c) or cond_taint(T, c)
                        if tn:
                            rep.violate("panic:%s:%s" % (nm, b["fn"]), "%s panics depending on %s" % (nm, tn), body.where(i))
                            break
                elif ln in ("unwrap", "expect") and t["a"]:
                    e = V.op(t["a"][0])
                    tn = T.t(e)
                    if tn and not opt_checked(V, e, V.conds(i)):
                        rep.violate("unwrap:%s:%s" % (nm, b["fn"]), "%s unwraps a value that depends on %s" % (nm, tn), body.where(i))
                elif ln == "clamp" and "f32" in cn or ln == "clamp" and "f64" in cn:
                    rep.count("float clamps")
                    lo, hi = V.op(t["a"][1]), V.op(t["a"][2])
                    for x in (lo, hi):
                        s = signal_dep(V, x)
                        if s:
                            rep.violate("clamp:%s" % nm, "%s: limits of a float clamp are computed from %s: NaN or swapped limits panic" % (nm, s), body.where(i))
                    if lo[0] == "kf" and hi[0] == "kf" and not float(lo[1]) <= float(hi[1]):
                        rep.violate("clamp-order:%s" % nm, "%s: clamp(%s, %s) always panics" % (nm, lo[1], hi[1]), body.where(i))
                elif cn in PRE:
                    for ai, (lo, hi) in PRE[cn].items():
                        rep.count("foreign preconditions")
                        l2, h2 = interval(V.op(t["a"][ai]), V.conds(i), V=V)
                        if l2 is None or h2 is None or l2 < lo or h2 > hi:
                            rep.violate("pre:%s:%d" % (ln, ai), "%s: argument %d of %s must lie in %d..=%d but is only known to be in %s..%s" % (nm, ai, ln, lo, hi, l2, h2), body.where(i))
    rep.floor("node implementations", 40)
    rep.floor("index operations", 300)
    rep.floor("user controlled index uses", 3)
    rep.floor("float clamps", 20)
    rep.assume("the slices of settings, inputs and outputs handed to a node have the lengths its declaration says (P03, P23)")
    rep.assume("DSP primitives of the synfx-dsp crate accept every float value; blocks have 1..=128 frames")
    return rep


def signal_dep(V, e):
    for x in deep_walk(V, e):
        if x and x[0] in ("idx", "fld"):
            p = self_path(x)
            if p and p[0] in ("arg5", "arg6") and len(p) > 1:
                return "an input signal or setting"
    return None


def cond_taint(T, c):
    if c[0] == "bin":
        return T.t(c[2]) or T.t(c[3])
    if c[0] == "un":
        return cond_taint(T, c[2])
    if c[0] == "discr":
        p = self_path(c[1])
        if p and T.atoms and p[0] == "arg%d" % T.atoms:
            return "the kind of a setting"
    if c[0] == "call":
        for a in c[2]:
            r = T.t(a)
            if r:
                return r
    return None


def opt_checked(V, e, conds):
    n = norm(e)
    for c, v in conds:
        for x in walk(c):
            if x and x[0] == "call" and last(x[1]) in ("is_some", "is_ok", "is_none", "is_err") and norm(x[2][0]) == n:
                return True
            if x and x[0] == "discr" and norm(x[1]) == n:
                return True
    return False


def len_checked(V, base, x, conds, rng):
    """some dominating comparison involves the length of (a prefix of) base"""
    want, off = data_root(base)
    need0 = (x[1] if rng else x[1] + 1) if x[0] == "k" else 1
    for c, v in conds:
        for y in walk(c):
            if y and y[0] == "len" and data_root(y[1])[0] == want:
                # the comparison must exclude small lengths: len < N false / len > N true
                need = need0 + off - data_root(y[1])[1]
                k = interval(y, [(c, v)], V=V)[0]
                if k is not None and k >= need:
                    return True
                if nonzero(y, [(c, v)], V) and need <= 1:
                    return True
            if y and y[0] == "call" and last(y[1]) == "is_empty" and data_root(y[2][0])[0] == want and need0 + off <= 1:
                return True
    return False


def data_root(e):
    """(underlying data, offset) of a chain of full / open ended sub slices"""
    off = 0
    while isinstance(e, tuple) and e:
        if e[0] in ("ref", "deref"):
            e = e[1]
        elif e[0] == "idx" and e[2][0] == "agg" and "RangeFull" in str(e[2][1]):
            e = e[1]
        elif e[0] == "idx" and e[2][0] == "agg" and "RangeFrom" in str(e[2][1]) and e[2][2][0][0] == "k":
            off += e[2][2][0][1]
            e = e[1]
        else:
            break
    return norm(e), off


def field_name(e):
    if e is None:
        return "?"
    p = self_path(e)
    if p:
        q = [x for x in p if x != "[]"]
        return q[-1]
    for x in walk(e):
        if x and x[0] == "fld":
            return str(x[2])
    return "?"


GROW = ("push", "pop", "insert", "remove", "swap_remove", "truncate", "clear", "resize", "resize_with", "extend", "extend_from_slice", "append", "drain", "split_off", "retain", "dedup", "push_back", "set_len")


def const_len(F, base):
    """constant length of a Vec field: the same constant in every constructor and
    never changed afterwards"""
    while base and base[0] in ("ref", "deref"):
        base = base[1]
    if not base or base[0] != "fld" or not isinstance(base[2], str):
        return None
    name = base[2]
    memo = F.__dict__.setdefault("_constlen", {})
    if name not in memo:
        memo[name] = _const_len(F, name)
    return memo[name]


def _const_len(F, name):
    from .execu import vec_size
    owners = [a for a, inf in F.adts.items() for v in inf["variants"] for f in v["fields"] if f[0] == name]
    if len(owners) != 1:
        return None
    owner = owners[0]
    sizes = set()
    for fid, rec in F.fns.items():
        agg = any(s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == owner for b in rec["blocks"] for s in b["s"])
        touch = any(isinstance(pr, list) and pr[0] == "f" and pr[2] == name for b in rec["blocks"] for s in b["s"] if s[0] == "=" and s[2][0] in ("ref", "rawptr") for pr in s[2][1][1])
        if not agg and not touch:
            continue
        body = F.body(fid)
        V = Val(body)
        if agg:
            names = [f[0] for f in F.adts[owner]["variants"][0]["fields"]]
            for b in body.blocks:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == owner:
                        z = vec_size(body, V, V.op(s[2][2][names.index(name)]))
                        sizes.add(z[1] if z and z[0] == "k" else None)
        for i, t in body.calls():
            if "f" in t and t["a"] and last(callname(t)) in GROW:
                p = self_path(V.op(t["a"][0]))
                if p and p[-1] == name:
                    return None
    if len(sizes) == 1:
        return sizes.pop()
    return None


# ---------------------------------------------------------------- P05
PB = "dsp::ProcBuf::"


def stop_procbuf(p):
    return p.startswith(PB)


def slice_offset(V, e, outs, dep=0):
    """offset of slice expression e within the outputs argument, or None"""
    if dep > 12 or not isinstance(e, tuple) or not e:
        return None
    while e[0] in ("ref", "deref"):
        e = e[1]
    if e[0] == "arg":
        return 0 if e[1] == outs else None
    if e[0] == "fld" and e[1][0] == "call":
        c = e[1]
        n = last(c[1])
        if n in ("split_at_mut", "split_at") and len(c[2]) == 2:
            o = slice_offset(V, c[2][0], outs, dep + 1)
            k = interval(c[2][1], (), V=V)
            if o is None or k[0] is None or k[0] != k[1]:
                return None
            return o if str(e[2]) == "0" else o + k[0]
    if e[0] == "fld" and e[1][0] in ("dc", "fld"):
        x = e
        fl = []
        while x[0] in ("fld", "dc", "ref", "deref"):
            if x[0] == "fld":
                fl.append(str(x[2]))
            x = x[1]
        if x[0] == "call" and last(x[1]) in ("split_first_mut", "split_first") and fl and fl[0] == "1":
            o = slice_offset(V, x[2][0], outs, dep + 1)
            return None if o is None else o + 1
    if e[0] == "idx" and e[2][0] == "agg" and "Range" in str(e[2][1]):
        o = slice_offset(V, e[1], outs, dep + 1)
        if o is None:
            return None
        if "RangeFull" in str(e[2][1]) or "RangeTo" in str(e[2][1]):
            return o
        k = interval(e[2][2][0], (), V=V)
        return o + k[0] if k[0] is not None and k[0] == k[1] else None
    if e[0] == "var":
        ds = V.d.get(e[1], [])
        if len(ds) == 1 and ds[0][2] != "part":
            pass
    return None


def out_index(V, e, outs, dep=0):
    """index of the output buffer expression e denotes; 'all' if it is some
    element of the outputs; None if unrelated"""
    while isinstance(e, tuple) and e and e[0] in ("ref", "deref"):
        e = e[1]
    if not isinstance(e, tuple) or not e:
        return None
    if e[0] == "idx":
        o = slice_offset(V, e[1], outs)
        k = interval(e[2], (), V=V)
        if o is not None and k[0] is not None and k[0] == k[1]:
            return o + k[0]
        if mentions_arg(V, e[1], outs):
            return "all"
        return None
    if e[0] in ("fld", "dc"):
        x = e
        fl = []
        while x[0] in ("fld", "dc", "ref", "deref"):
            if x[0] == "fld":
                fl.append(str(x[2]))
            x = x[1]
        if x[0] == "call" and last(x[1]) in ("split_first_mut", "first_mut", "split_first") and (fl[0] == "0"):
            o = slice_offset(V, x[2][0], outs)
            return o if o is not None else ("all" if mentions_arg(V, x, outs) else None)
        if x[0] == "call" and last(x[1]) in ("get_mut", "get_unchecked_mut") and len(x[2]) > 1:
            o = slice_offset(V, x[2][0], outs)
            k = interval(x[2][1], (), V=V)
            if o is not None and k[0] is not None and k[0] == k[1]:
                return o + k[0]
    if mentions_arg(V, e, outs):
        return "all"
    return None


def mentions_arg(V, e, a):
    return any(x == ("arg", a) for x in deep_walk(V, e))


def loop_of_item(body, V, e):
    """(iterator expr, projections) when e is an item produced by a `next` call"""
    x = e
    proj = []
    while x[0] in ("ref", "deref", "cast", "fld", "dc"):
        if x[0] == "fld":
            proj.append(str(x[2]))
        x = x[2] if x[0] == "cast" else x[1]
    if x[0] != "call" or last(x[1]) not in ("next", "next_back"):
        return None
    it = x[2][0]
    for _ in range(6):
        while it[0] in ("ref", "deref"):
            it = it[1]
        if it[0] == "var":
            ds = [d for d in V.d.get(it[1], []) if d[2] != "part"]
            if len(ds) != 1:
                return None
            it = V.rv(ds[0][3][2], 1) if ds[0][2] == "assign" else V.call(ds[0][0], ds[0][3], 1)
        else:
            break
    return it, list(reversed(proj))


def partial_range(V, it):
    """a reason why iterator `it` certainly does not visit every frame"""
    dep = 0
    while it[0] in ("call",) and dep < 8:
        n = last(it[1])
        if n in ("skip", "step_by") and len(it[2]) > 1:
            k = interval(it[2][1], (), V=V)
            if k[0] is not None and k[0] >= (1 if n == "skip" else 2):
                return "the loop uses %s(%d)" % (n, k[0])
        if n in ("into_iter", "rev", "enumerate", "skip", "step_by", "by_ref") and it[2]:
            it = it[2][0]
            while it[0] in ("ref", "deref"):
                it = it[1]
            dep += 1
            continue
        break
    if it[0] == "agg" and "Range" in str(it[1]):
        lo = interval(it[2][0], (), V=V) if it[2] else (None, None)
        if lo[0] is not None and lo[0] >= 1:
            return "the loop starts at frame %d" % lo[0]
        if len(it[2]) > 1:
            hi = it[2][1]
            if hi[0] == "bin" and hi[1] in ("Sub", "Div") and hi[3][0] == "k" and any(x and x[0] == "call" and last(x[1]) == "nframes" for x in walk(hi)):
                return "the loop ends at %s" % fmt(hi)
            k = interval(hi, (), V=V)
            if hi[0] == "k" and hi[1] < 128:
                return "the loop ends at the fixed frame %d" % hi[1]
    return None


WR_FULL = ("fill", "write_from", "slice_mut")


def p05(F, tier):
    rep = Report("P05", "other")
    rep.rule("on every path through a node's processing code, every declared output is written for every frame: the path runs through a frame loop in which each iteration writes that output, or a whole buffer write")
    rep.rule("the main output node hands both host channels a value for every frame on every path")
    outs_of = {}
    for fid in F.fns:
        if fid.startswith("dsp::out_idx::"):
            seg = fid.split("::")
            if len(seg) == 4:
                outs_of.setdefault(seg[2], {})[seg[3]] = fid
    idx_of = {}
    for ty, m in outs_of.items():
        for name, fid in m.items():
            k = const_return(F, fid)
            if k is not None:
                idx_of.setdefault(ty, {})[k] = name
    for ty, p in node_process(F):
        nm = ty.split("::")[-1]
        # the out4 port of the development-only Test node is a placeholder without signal
        decl = {k: n for k, n in idx_of.get(nm, {}).items() if (nm, n) != ("Test", "out4")}
        body = flat(F, p, depth=8, stop=stop_procbuf)
        V = Val(body)
        outs = arg_of_type(body, lambda t: "&mut [" in t and "ProcBuf" in t)
        rep.count("node implementations")
        writes = {}  # block -> index|'all', full?, frame expr
        for i, t in body.calls():
            cn = callname(t)
            if cn.startswith(PB):
                m = last(cn)
                if m in ("write",) + WR_FULL:
                    k = out_index(V, V.op(t["a"][0]), outs)
                    if k is None:
                        k = "?"
                    writes[i] = (k, m in WR_FULL, V.op(t["a"][1]) if m == "write" else None)
        rep.count("output writes", len(writes))
        if nm == "Out":
            host_out(F, rep, body, V)
        if not decl:
            continue
        if any(k == "?" for k, _, _ in writes.values()):
            rep.note("%s: a buffer write could not be attributed to an output" % nm)
        check_outputs(rep, nm, body, V, decl, writes, "output")
    rep.floor("node implementations", 40)
    rep.floor("declared outputs", 60)
    rep.assume("a frame loop is recognised as a natural loop of the flattened control flow graph; hosts pass at least one frame")
    return rep


def const_return(F, fid):
    b = F.body(fid)
    V = Val(b)
    k = interval(V.local(0), (), V=V)
    return k[0] if k[0] is not None and k[0] == k[1] else None


def check_outputs(rep, nm, body, V, decl, writes, what):
    loops = body.loops()
    sc, pr = body.cfg()
    for k, name in sorted(decl.items()):
        rep.count("declared outputs")
        mine = {b: w for b, w in writes.items() if w[0] in (k, "all", "?")}
        if not mine:
            rep.violate("unwritten:%s:%s" % (nm, name), "%s never writes its %s '%s'" % (nm, what, name))
            continue
        full = set(b for b, w in mine.items() if w[1])
        for b in list(full):
            # a whole-buffer write inside a loop over the outputs
            for h, lb in loops.items():
                if b in lb and mine[b][0] in ("all", "?"):
                    full.add(h)
        partial = []
        cand = []
        wb = set(mine)
        for h, lb in loops.items():
            inl = wb & lb
            if not inl:
                continue
            # every iteration writes: no cycle through h avoiding the writes,
            # and not through an inner loop only
            ok = True
            for s in sc[h]:
                if s in lb and s not in wb:
                    r = reach_in(body, s, lb, wb | {h})
                    if any(h in sc[x] for x in r):
                        ok = False
                elif s == h and h not in wb:
                    ok = False
            if not ok:
                if mine and any(mine[b][0] in ("all", "?") for b in inl):
                    ok = True  # nested loop over outputs
            if ok:
                why = None
                for b in inl:
                    fe = mine[b][2]
                    if fe is None:
                        continue
                    li = loop_of_item(body, V, fe)
                    if li:
                        why = why or partial_range(V, li[0])
                    elif fe[0] == "k":
                        why = why or "only frame %s is written" % fe[1]
                    elif scaled(V, fe):
                        why = why or scaled(V, fe)
                    else:
                        why = None
                        break
                if why:
                    partial.append(why)
                else:
                    full.add(h)
                    cand.append((h, lb))
            else:
                partial.append("some iterations do not write it")
        odd = [h for h, lb in cand if odd_exit(body, V, h, lb, full)]
        if odd:
            full -= set(odd)
            partial.append("the loop can be left before the last frame")
        w = must_pass(body, 0, full)
        if w is not None:
            # nested: an iteration condition handled by an enclosing writer is fine
            rep.violate("incomplete:%s:%s" % (nm, name), "%s: a path through its processing code does not write the %s '%s' for every frame%s: the output keeps stale data" % (nm, what, name, (" (" + "; ".join(sorted(set(partial))) + ")") if partial else ""), body.where(w))
        else:
            rep.sample("complete", "%s.%s" % (nm, name), cap=200)


def scaled(V, fe):
    """a reason why the frame index fe, computed from a loop's item, does not
    take every value up to the last frame"""
    while fe[0] == "cast":
        fe = fe[2]
    if not any(x and x[0] == "call" and last(x[1]) in ("next", "next_back") for x in walk(fe)):
        return None
    hi = interval(fe, (), V=V)[1]
    if hi is not None and hi < 127:
        return "no frame behind %d is written" % hi
    if fe[0] == "bin" and fe[3][0] == "k" and loop_item(fe[2]):
        k = fe[3][1]
        if fe[1].startswith(("Div", "Mul")) and k >= 2 or fe[1].startswith(("Shl", "Shr")) and k >= 1:
            return "the written frame is %s" % fmt(fe)
        if fe[1] == "BitAnd" and k & 127 != 127 or fe[1] == "BitOr" and k & 127:
            return "the written frame is %s" % fmt(fe)
    return None


def loop_item(e):
    while e[0] in ("ref", "deref", "cast", "fld", "dc"):
        e = e[2] if e[0] == "cast" else e[1]
    return e[0] == "call" and last(e[1]) in ("next", "next_back")


def odd_exit(body, V, h, lb, full):
    """the loop is left on a condition that does not have to do with the number
    of frames, and the function returns without a complete write afterwards"""
    sc, _ = body.cfg()
    for b in lb:
        outs = [s for s in sc[b] if s not in lb]
        if not outs:
            continue
        t = body.blocks[b]["t"]
        if t["k"] not in ("switch", "goto"):
            continue
        if t["k"] == "switch":
            c = V.op(t["d"])
            if any(x and (x[0] == "call" and last(x[1]) in ("next", "next_back", "nframes", "len", "is_empty") or x[0] in ("len", "var", "phi")) for x in deep_walk(V, c)):
                # the count of frames (or a variable) decides
                if not data_cond(V, c):
                    continue
        for s in outs:
            if must_pass(body, s, full) is not None:
                return b
    return None


def data_cond(V, c):
    """a comparison of the loop's item with a constant"""
    return c[0] == "bin" and c[1] in ("Eq", "Ge", "Gt", "Lt", "Le", "Ne") and (c[3][0] == "k" and loop_item(c[2]) or c[2][0] == "k" and loop_item(c[3]))


def reach_in(body, s, region, avoid):
    sc, _ = body.cfg()
    seen = set()
    st = [s] if s not in avoid else []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in sc[x]:
            if y in region and y not in avoid:
                st.append(y)
    return seen


def host_out(F, rep, body, V):
    writes = {}
    for i, t in body.calls():
        if last(callname(t)) == "output" and "NodeAudioContext" in callname(t) or ("f" in t and t["f"]["path"].endswith("NodeAudioContext::output")):
            k = interval(V.op(t["a"][1]), V.conds(i), V=V)
            writes[i] = (k[0] if k[0] is not None and k[0] == k[1] else "all", False, V.op(t["a"][2]))
    rep.count("host channel writes", len(writes))
    check_outputs(rep, "Out", body, V, {0: "left", 1: "right"}, writes, "host channel")
