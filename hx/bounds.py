"""Index obligations (places where an out-of-range index panics) and a small
prover: constant intervals, dominating comparisons, loop ranges, min/clamp."""
from .val import norm, strip_gen, self_path, fmt
from .interval import interval

IDX_CALLS = ("std::ops::Index::index", "std::ops::IndexMut::index_mut")


def obligations(body, V):
    """yield (bb, kind, base_expr, index_expr, const_len|None)"""
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        t = b["t"]
        if t["k"] == "assert" and t["m"][0] == "bounds":
            ln = V.op(t["m"][1])
            ix = V.op(t["m"][2])
            clen = interval(ln)[1] if ln[0] == "k" else None
            base = ln[1] if ln[0] == "len" else None
            yield i, "bounds", base, ix, clen
        elif t["k"] == "call" and "f" in t and t["f"]["path"] in IDX_CALLS and len(t["a"]) == 2:
            a0 = V.op(t["a"][0])
            base = a0[1] if a0[0] == "ref" else ("deref", a0)
            sty = ""
            if t["a"][0][0] in ("c", "m"):
                sty = body.locals[t["a"][0][1][0]][0]
            if "HashMap" in sty or "BTreeMap" in sty:
                continue
            ix = V.op(t["a"][1])
            if ix[0] == "agg" and ix[1][0] == "adt" and "Range" in ix[1][1]:
                yield i, "range", base, ix, None
            elif ix[0] in ("kz",):
                continue
            else:
                yield i, "index", base, ix, arr_len(sty)


def arr_len(ty):
    ty = ty.replace("&mut ", "").replace("&", "").strip()
    if ty.startswith("[") and ";" in ty and ty.endswith("]"):
        try:
            return int(ty[:-1].split(";")[-1].strip().replace("_usize", ""))
        except ValueError:
            return None
    return None


def upper(e, conds, V, dep=0):
    """expressions E such that e < E holds: list"""
    out = []
    n = norm(e)
    for c, v in conds:
        out += cond_upper(c, v, n)
    x = e
    while x[0] in ("ref", "deref", "cast"):
        x = x[2] if x[0] == "cast" else x[1]
    # loop variable of a range / enumerate
    r = loop_upper(x, V)
    out += r
    if x[0] == "call":
        nm = strip_gen(x[1]).split("::")[-1]
        if nm == "min" and dep < 4:
            for a in x[2]:
                out += upper(a, conds, V, dep + 1)
                # min(a, len-1)
                if a[0] == "bin" and a[1] in ("Sub",) and a[3][0] == "k" and a[3][1] >= 1:
                    out.append(a[2])
            # saturating_sub
                if a[0] == "call" and strip_gen(a[1]).endswith("saturating_sub"):
                    pass
        if nm == "rem_euclid":
            out.append(x[2][1])
    if x[0] == "bin" and x[1] == "Rem":
        out.append(x[3])
    if x[0] == "bin" and x[1] == "Sub" and x[3][0] == "k" and dep < 4:
        # (a - c) with a <= E  => a - c < E for c >= 1
        if x[3][1] >= 1:
            out.append(x[2])
        out += upper(x[2], conds, V, dep + 1)
    return out


def cond_upper(c, v, n):
    neg = False
    while c[0] == "un" and c[1] == "Not":
        c = c[2]
        neg = not neg
    if c[0] != "bin":
        return []
    truth = None
    if v == (1,) or (v and v[0] == "not" and v[1] == (0,)):
        truth = True
    elif v == (0,) or (v and v[0] == "not" and v[1] == (1,)):
        truth = False
    if truth is None:
        return []
    if neg:
        truth = not truth
    op, a, b = c[1], c[2], c[3]
    if not truth:
        op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}.get(op)
    if op == "Lt" and norm(a) == n:
        return [b]
    if op == "Gt" and norm(b) == n:
        return [a]
    return []


def loop_upper(x, V):
    """x = <item of an iterator>: bound from the iterator's construction"""
    # strip Some-payload projections: fld(dc(call next), '0') [ . '0' for enumerate]
    proj = []
    y = x
    while y[0] in ("fld", "dc", "deref", "ref"):
        if y[0] == "fld":
            proj.append(str(y[2]))
        y = y[1]
    if y[0] != "call" or not strip_gen(y[1]).endswith("::next"):
        return []
    proj = list(reversed(proj))[1:]  # drop the Some payload
    it = y[2][0]
    while it[0] in ("ref", "deref"):
        it = it[1]
    if it[0] == "var":
        ds = [d for d in V.d.get(it[1], []) if d[2] != "part"]
        if len(ds) == 1:
            d = ds[0]
            it = V.rv(d[3][2], 1) if d[2] == "assign" else V.call(d[0], d[3], 1)
    return iter_upper(it, proj, V)


def iter_upper(it, proj, V, dep=0):
    while it[0] in ("ref", "deref"):
        it = it[1]
    if dep > 8:
        return []
    if it[0] == "agg" and it[1][0] == "adt" and it[1][1].endswith("ops::Range") and not proj:
        return [it[2][1]]
    if it[0] == "call":
        nm = strip_gen(it[1]).split("::")[-1]
        if nm == "new" and "RangeInclusive" in it[1] and not proj:
            hi = it[2][1]
            if hi[0] == "bin" and hi[1] == "Sub" and hi[3][0] == "k" and hi[3][1] >= 1:
                return [hi[2]]
            if hi[0] == "k":
                return [("k", hi[1] + 1, "usize")]
            return []
        if nm in ("rev", "skip", "step_by", "take_while", "filter", "into_iter", "peekable", "by_ref", "skip_while"):
            return iter_upper(it[2][0], proj, V, dep + 1)
        if nm == "take":
            return iter_upper(it[2][0], proj, V, dep + 1) + ([it[2][1]] if proj and proj[0] == "0" and it[2][0][0] == "call" and strip_gen(it[2][0][1]).endswith("enumerate") else [])
        if nm == "enumerate" and proj and proj[0] == "0":
            return iter_count(it[2][0], V)
        if nm == "zip" and proj:
            return iter_upper(it[2][int(proj[0])], proj[1:], V, dep + 1) if proj[0] in "01" else []
    return []


def iter_count(it, V, dep=0):
    """expressions bounding the number of items"""
    while it[0] in ("ref", "deref"):
        it = it[1]
    if dep > 8 or it[0] != "call":
        if it[0] == "agg" and it[1][0] == "adt" and it[1][1].endswith("ops::Range") and it[2][0][:2] == ("k", 0):
            return [it[2][1]]
        return []
    nm = strip_gen(it[1]).split("::")[-1]
    if nm in ("iter", "iter_mut", "chars", "bytes"):
        a = it[2][0]
        return [("len", a[1] if a[0] == "ref" else ("deref", a))]
    if nm in ("filter", "map", "skip", "step_by", "rev", "copied", "cloned", "into_iter", "take_while"):
        return iter_count(it[2][0], V, dep + 1)
    if nm == "take":
        return [it[2][1]] + iter_count(it[2][0], V, dep + 1)
    if nm == "zip":
        return iter_count(it[2][0], V, dep + 1) + iter_count(it[2][1], V, dep + 1)
    return []


def same_len(e, base, equal_groups):
    """is expression e == len(base) (or len of something of equal length)"""
    if e[0] != "len":
        return False
    a, b = norm(e[1]), norm(base)
    if a == b:
        return True
    pa, pb = self_path(e[1]), self_path(base)
    if pa and pb and pa[:-1] == pb[:-1]:
        for g in equal_groups:
            if pa[-1] in g and pb[-1] in g:
                return True
    return False


def proved(body, V, bb, base, ix, clen, groups=()):
    conds = V.conds(bb)
    lo, hi = interval(ix, conds, V=V)
    if clen is not None and hi is not None and hi < clen and (lo is None or lo >= 0):
        return "constant range [%s..%s] < %d" % (lo, hi, clen)
    for E in upper(ix, conds, V):
        if base is not None and same_len(E, base, groups):
            return "guard index < len"
        if E[0] == "call" and strip_gen(E[1]).split("::")[-1] == "min":
            if base is not None and any(same_len(a, base, groups) for a in E[2]):
                return "guard index < min(len, ..)"
        if clen is not None:
            l2, h2 = interval(E, conds, V=V)
            if h2 is not None and h2 <= clen:
                return "guard index < %d" % clen
    return None
