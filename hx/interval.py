"""Integer interval of a value-trace expression.  Knows constants, min/max/clamp,
masks, remainders, casts, additions; narrows by the conditions that dominate the
use.  (lo, hi) with None = unbounded."""
from .val import norm, strip_gen

TY = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767),
      "u32": (0, 2**32 - 1), "i32": (-2**31, 2**31 - 1), "u64": (0, 2**64 - 1),
      "i64": (-2**63, 2**63 - 1), "usize": (0, 2**64 - 1), "isize": (-2**63, 2**63 - 1), "bool": (0, 1),
      "char": (0, 0x10FFFF)}


def kval(e):
    if e[0] == "k":
        v = e[1]
        t = e[2] if len(e) > 2 else ""
        if t in ("i64", "i32", "i8", "i16", "isize"):
            lo, hi = TY[t]
            if v > hi:
                v -= (hi - lo + 1)
        return v
    return None


def mn(a, b):
    if a is None or b is None:
        return None
    return min(a, b)


def mx(a, b):
    if a is None or b is None:
        return None
    return max(a, b)


def tighten(lo, hi, l2, h2):
    if l2 is not None:
        lo = l2 if lo is None else max(lo, l2)
    if h2 is not None:
        hi = h2 if hi is None else min(hi, h2)
    return lo, hi


def interval(e, conds=(), dep=0, V=None):
    lo, hi = _iv(e, conds, dep, V)
    n = norm(e)
    for c, v in conds:
        l2, h2 = cond_bound(c, v, n, conds, dep, V)
        lo, hi = tighten(lo, hi, l2, h2)
    return lo, hi


def cond_bound(c, v, n, conds, dep, V):
    """bounds on expression n (normal form) implied by cond c having value(s) v"""
    if dep > 6:
        return None, None
    if c[0] == "un" and c[1] == "Not":
        if v == (0,):
            return cond_bound(c[2], (1,), n, conds, dep, V)
        if v == (1,) or v == ("not", (0,)):
            return cond_bound(c[2], (0,), n, conds, dep, V)
    if c[0] != "bin":
        if norm(c) == n and isinstance(v, tuple) and v and v[0] != "not":
            vv = [x for x in v if isinstance(x, int)]
            if vv:
                return min(vv), max(vv)
        return None, None
    op = c[1]
    truth = None
    if v == (1,) or (v and v[0] == "not" and v[1] == (0,)):
        truth = True
    elif v == (0,) or (v and v[0] == "not" and v[1] == (1,)):
        truth = False
    if truth is None:
        return None, None
    a, b = c[2], c[3]
    if norm(a) == n:
        o = b
    elif norm(b) == n:
        o = a
        op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
    else:
        return None, None
    if not truth:
        op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}.get(op)
    ol, oh = interval(o, (), dep + 1, V) if norm(o) != n else (None, None)
    if op == "Lt":
        return None, None if oh is None else oh - 1
    if op == "Le":
        return None, oh
    if op == "Gt":
        return None if ol is None else ol + 1, None
    if op == "Ge":
        return ol, None
    if op == "Eq":
        return ol, oh
    return None, None


def _iv(e, conds, dep, V):
    if dep > 25 or not isinstance(e, tuple) or not e:
        return None, None
    k = e[0]
    if k == "k":
        v = kval(e)
        return v, v
    if k in ("ref", "deref"):
        return interval(e[1], conds, dep + 1, V)
    if k == "cast":
        lo, hi = interval(e[2], conds, dep + 1, V)
        if e[1] in TY:
            tl, th = TY[e[1]]
            if lo is not None and hi is not None and tl <= lo and hi <= th:
                return lo, hi
            # float -> int casts saturate
            if len(e) > 3 and e[3] in ("f32", "f64"):
                if lo is not None:
                    lo = min(max(lo, tl), th)
                else:
                    lo = tl
                if hi is not None:
                    hi = min(max(hi, tl), th)
                else:
                    hi = th
                return lo, hi
            return tl, th
        return None, None
    if k == "kf":
        try:
            import math
            return math.floor(e[1]), math.ceil(e[1])
        except Exception:
            return None, None
    if k == "len":
        return 0, None
    if k == "bin":
        op, a, b = e[1], e[2], e[3]
        al, ah = interval(a, conds, dep + 1, V)
        bl, bh = interval(b, conds, dep + 1, V)
        if op == "BitAnd":
            c = None
            for l, h in ((al, ah), (bl, bh)):
                if l is not None and l == h and l >= 0:
                    c = l if c is None else min(c, l)
            if c is not None:
                return 0, c
            if al is not None and bl is not None and al >= 0 and bl >= 0:
                return 0, mn(ah, bh) if ah is not None and bh is not None else (ah if bh is None else bh)
            return None, None
        if op == "Rem":
            if bl is not None and bl == bh and bl > 0:
                if al is not None and al >= 0:
                    return 0, bl - 1
                return -(bl - 1), bl - 1
            return (0 if al is not None and al >= 0 else None), (None if bh is None else bh - 1)
        if op in ("Add", "AddUnchecked"):
            return (None if al is None or bl is None else al + bl), (None if ah is None or bh is None else ah + bh)
        if op in ("Sub", "SubUnchecked"):
            return (None if al is None or bh is None else al - bh), (None if ah is None or bl is None else ah - bl)
        if op in ("Mul", "MulUnchecked"):
            if None in (al, ah, bl, bh):
                if al is not None and bl is not None and al >= 0 and bl >= 0:
                    return al * bl, None
                return None, None
            xs = [al * bl, al * bh, ah * bl, ah * bh]
            return min(xs), max(xs)
        if op == "Div":
            if None not in (al, ah, bl, bh) and bl > 0 and al >= 0:
                return al // bh, ah // bl
            return None, None
        if op in ("Shr", "ShrUnchecked"):
            if None not in (al, ah, bl, bh) and al >= 0 and 0 <= bl and bh < 64:
                return al >> bh, ah >> bl
            return None, None
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return 0, 1
        return None, None
    if k == "call":
        n = strip_gen(e[1]).split("::")[-1]
        a = e[2]
        if n == "clamp" and len(a) == 3:
            return interval(a[1], conds, dep + 1, V)[0], interval(a[2], conds, dep + 1, V)[1]
        if n == "min" and len(a) == 2:
            l1, h1 = interval(a[0], conds, dep + 1, V)
            l2, h2 = interval(a[1], conds, dep + 1, V)
            hi = h1 if h2 is None else (h2 if h1 is None else min(h1, h2))
            return mn(l1, l2), hi
        if n == "max" and len(a) == 2:
            l1, h1 = interval(a[0], conds, dep + 1, V)
            l2, h2 = interval(a[1], conds, dep + 1, V)
            lo = l1 if l2 is None else (l2 if l1 is None else max(l1, l2))
            return lo, mx(h1, h2)
        if n == "rem_euclid" and len(a) == 2:
            l, h = interval(a[1], conds, dep + 1, V)
            return 0, None if h is None else h - 1
        if n in ("abs", "floor", "round", "ceil", "trunc") and len(a) == 1:
            l, h = interval(a[0], conds, dep + 1, V)
            if n == "abs":
                if l is not None and h is not None:
                    return 0, max(abs(l), abs(h))
                return 0, None
            return l, h
        return None, None
    if k == "var" and V is not None:
        # join over all definitions
        return V.var_interval(e[1], dep)
    return None, None
