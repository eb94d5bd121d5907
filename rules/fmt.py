"""P13: what is written into a saved patch is what is read back out of it."""
import re
from hx.report import Report
from hx.prov import Prov, WIDTH, compat
from rules.common import *
from rules.matrix import strip

MR = "matrix_repr::MatrixRepr"
PD = "dsp::tracker::pattern::PatternData"
PRIM = set(WIDTH) | {"std::string::String", "&str", "char"}
OPAQUE = {"dsp::NodeId", "dsp::ParamId"}
INT = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize"}
CHANGE = {"abs", "trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "strip_prefix", "strip_suffix", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "round", "floor", "ceil", "trunc", "fract", "sqrt", "signum", "recip", "powi", "powf", "exp", "exp2", "ln", "log2", "log10", "sin", "cos", "tan", "tanh", "wrapping_neg", "wrapping_add", "wrapping_sub", "wrapping_mul", "saturating_add", "saturating_sub", "saturating_mul", "checked_add", "checked_sub", "rem_euclid", "div_euclid", "rotate_left", "rotate_right", "swap_bytes", "to_degrees", "to_radians", "neg", "not", "mul_add", "copysign", "truncate_utf8", "escape_default", "escape_debug"}
WSEL = ("select", "take", "skip", "step_by", "clamp", "arith")


def keep(p):
    """conversions of node and parameter ids stay opaque"""
    return (p.startswith("dsp::") or p.startswith("<dsp::")) and "satom" not in p and "tracker" not in p


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def leaves(F, ty, dep=0):
    """[(path, leaf type)] of a type's content"""
    ty = ty.strip()
    if ty in PRIM or ty in OPAQUE or dep > 12:
        return [((), ty)]
    if ty.startswith("(") and ty.endswith(")"):
        return [((n,) + p, t) for n, x in enumerate(split_args(ty[1:-1])) for p, t in leaves(F, x, dep + 1)]
    if ty.startswith("["):
        inner = ty[1:-1].rsplit(";", 1)
        n = inner[1].strip() if len(inner) > 1 else ""
        if n.isdigit() and int(n) <= 3:
            return [((k,) + p, t) for k in range(int(n)) for p, t in leaves(F, inner[0], dep + 1)]
        return [(("*",) + p, t) for p, t in leaves(F, inner[0], dep + 1)]
    h = ty.split("<")[0]
    if "<" in ty:
        args = split_args(ty[ty.index("<") + 1:ty.rindex(">")])
        if h in ("std::option::Option", "std::boxed::Box", "std::rc::Rc", "std::sync::Arc"):
            return leaves(F, args[0], dep + 1)
        if h in ("std::vec::Vec", "std::collections::VecDeque"):
            return [(("*",) + p, t) for p, t in leaves(F, args[0], dep + 1)]
        if h.endswith("Map"):
            return [(("*", 0) + p, t) for p, t in leaves(F, args[0], dep + 1)] + [(("*", 1) + p, t) for p, t in leaves(F, args[1], dep + 1)]
    info = F.adts.get(ty)
    if info:
        out = []
        many = len(info["variants"]) > 1
        for v in info["variants"]:
            for f in v["fields"]:
                n = int(f[0]) if f[0].isdigit() else f[0]
                pre = ("<%s>" % v["name"], n) if many else (n,)
                out += [(pre + p, t) for p, t in leaves(F, f[1], dep + 1)]
        return out
    return [((), ty)]


def same(a, b):
    return len(a) == len(b) and all(compat(x, y) for x, y in zip(a, b))


def dot(p):
    return ".".join(str(x) for x in p)


def calls_in(ops):
    return {o[1] for o in ops if o[0] == "call"}


def p13(F, tier):
    rep = Report("P13", "other")
    pair(F, rep)
    version(F, rep)
    tags(F, rep)
    patterns(F, rep)
    saving(F, rep)
    slots(F, rep)
    return rep


def ser_kind(t):
    t = t.replace("std::option::Option<", "").rstrip(">").strip()
    if t in INT:
        return "int"
    if t in ("f32", "f64"):
        return "float"
    if t == "bool":
        return "bool"
    if t in ("str", "std::string::String"):
        return "str"
    return None


ACC = {"as_i64": ("int",), "as_u64": ("int",), "as_f64": ("float", "int"), "as_bool": ("bool",), "as_str": ("str",)}


def pair(F, rep):
    w = flat_or_miss(F, rep, MR + "::serialize", stop=keep)
    r = flat_or_miss(F, rep, MR + "::deserialize", stop=keep)
    if w is None or r is None:
        return
    PW, PR = Prov(w), Prov(r)
    tree = PW.leaves(0)
    W = {}  # struct path -> [(json path, ops)]
    for q in tree:
        for s, ops in PW.solve(0, q):
            if s[0] == "src" and s[1] == 1:
                W.setdefault(s[2], []).append((q, ops))
    rep.count("places in the saved text", len(tree))
    n = 0
    for f, ty in leaves(F, MR):
        if "origin_map" in f or (f[-3:-1] == ("<AudioSample>", 0) and f[-1] == 1) or (len(f) > 3 and f[-4] == "<AudioSample>" and f[-2] == 1) or "<AudioSample>" in f and not (f[-2:] == (0, 0)):
            continue
        n += 1
        ws = [(q, o) for g, l in W.items() if same(g, f) for q, o in l]
        rs = [(s[2], o) for s, o in PR.solve(0, f) if s[0] == "src"]
        name = dot(f)
        if not ws:
            # something this field was mixed into?
            rep.violate("lost:" + name, "MatrixRepr::serialize does not write '%s'" % name, F.fn_loc(MR + "::serialize"))
            continue
        hits = [(q, wo, p, ro) for q, wo in ws for p, ro in rs if same(q, p)]
        if not hits:
            rep.violate("pair:" + name, "'%s' is written to %s but read from %s" % (name, ", ".join(sorted({dot(q) for q, _ in ws})), ", ".join(sorted({dot(p) for p, _ in rs})) or "nothing"), F.fn_loc(MR + "::deserialize"))
            continue
        if ty in OPAQUE or (f[0] == "cells" and f[-2] in ("inp", "out")):
            ids(F, rep, name, ty, f, hits)
            continue
        # the plain copies: at least one unaltered way
        prob = None
        for q, wo, p, ro in hits:
            x = altered(f, wo, ro, ty, PR.solve(0, f))
            if x is None:
                prob = None
                break
            prob = x
        if prob:
            rep.violate("value:" + name, "'%s' does not come back as it was saved: %s" % (name, prob), F.fn_loc(MR + "::serialize"))
        # nothing else may end up in it
        for p, ro in rs:
            if not any(same(p, q) for q, _ in ws) and not any(len(q) > len(p) and same(q[:len(p)], p) for q, _ in ws):
                rep.violate("extra:" + name, "'%s' is also read from %s, where something else is saved" % (name, dot(p)), F.fn_loc(MR + "::deserialize"))
    rep.count("saved fields", n)
    rep.floor("saved fields", 40)
    # the lookup table of the blocks is rebuilt
    om = [f for f, _ in leaves(F, MR) if "origin_map" in f]
    for f in om:
        rep.count("derived fields")
        rs = [s[2] for s, o in PR.solve(0, f) if s[0] == "src"]
        if not any(len(p) > 1 and p[-1] in ("x", "y") for p in rs):
            rep.violate("origin:" + dot(f), "deserialisation does not rebuild the block lookup table ('%s')" % dot(f), F.fn_loc(MR + "::deserialize"))
    # elements are not left out
    for P, fid in ((PW, MR + "::serialize"), (PR, MR + "::deserialize")):
        skips(F, rep, P, fid, fid.endswith("::serialize"))
        for i, t in P.b.calls():
            if last(callname(t)) in ("dedup", "dedup_by", "dedup_by_key", "retain", "retain_mut", "truncate") and t["a"] and re.search(r"Vec|Map|Set|\[", P.b.locals[t["a"][0][1][0]][0]) and t["a"][0][0] in ("c", "m"):
                rep.violate("drop:%s:%s" % (last(fid), last(callname(t))), "%s removes elements (%s)" % (fid, last(callname(t))), P.b.where(i))
    micro(F, rep, w, r)


def micro(F, rep, w, r):
    """the elements of a list with a fixed number of entries keep their places"""
    from .fb import lin
    from .track import it_range
    V = Val(r)
    PW = Prov(w)
    Wo = {}
    for i, b in enumerate(w.blocks):
        for s in b["s"]:
            if b["cl"] or s[0] != "=" or s[2][0] != "agg" or s[2][1][0] != "array" or len(s[2][2]) < 6:
                continue
            t = {x[1] for x, _ in PW.solve_op(s[2][2][0], ()) if x[0] == "const"}
            if len(t) != 1 or not isinstance(list(t)[0], str):
                continue
            offs = set()
            VW = PW.V
            for k, o in enumerate(s[2][2][1:], 1):
                e = [x for x in deep_walk(VW, VW.op(o)) if x and x[0] == "idx" and strip(x[2])[0] == "k"]
                offs |= {k - strip(x[2])[1] for x in e}
            Wo[list(t)[0]] = (offs, len(s[2][2]) - 1)
    for i, b in enumerate(r.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] != "=" or not s[1][1] or not isinstance(s[1][1][-1], list) or s[1][1][-1][0] != "i":
                continue
            m = re.match(r"^\[f32; (\d+)\]$", r.locals[s[1][0]][0])
            if not m or len(s[1][1]) != 1:
                continue
            I = lin(V, V.local(s[1][1][-1][1]))
            src = [x for x in deep_walk(V, V.rv(s[2], 0)) if x and x[0] == "idx" and any(y and y[0] == "call" for y in walk(x[2]))]
            for x in src:
                J = lin(V, x[2])
                at = (set(I) | set(J)) - {1}
                if len(at) != 1 or I.get(list(at)[0]) is None:
                    continue
                rep.count("lists of fixed length read")
                a = list(at)[0]
                for tag, (offs, n) in Wo.items():
                    if n != int(m.group(1)) or len(offs) > 1:
                        continue
                    off = list(offs)[0] if offs else 1
                    if J.get(a, 0) != I.get(a, 0) or J.get(1, 0) - I.get(1, 0) != off:
                        rep.violate("micro:place", "the elements of a list tagged '%s' are read back into other places than they were saved from" % tag, r.where(i))
                    for y in walk(a):
                        if y and y[0] == "call" and last(strip_gen(y[1])) == "next" and y[2]:
                            rg = it_range(V, y[2][0])
                            if isinstance(rg, tuple) and I.get(a) == 1 and (rg[0] + I.get(1, 0), rg[1] + I.get(1, 0)) != (0, n):
                                rep.violate("micro:count", "only some elements of a list tagged '%s' are read back" % tag, r.where(i))


SIZES = {("patterns", "*", "data", "*"): 256, ("patterns", "*", "data", "*", "*"): 6, ("patterns", "*", "col_types", "*"): 6, ("patterns", "*"): 128, ("block_funs", "*"): 32}


def altered(f, wo, ro, ty, allsrc):
    for o in wo:
        if o[0] in WSEL:
            return "'%s' is applied when it is written" % (o[1] if o[0] in ("select", "arith", "clamp") else o[0])
        if o[0] == "cast" and not calls_in(wo) and o[2] in WIDTH and WIDTH[o[2]] < WIDTH.get(ty, 0):
            return "it is cut down to %s when it is written" % o[2]
        if o[0] == "cast" and (o[1] in INT) != (o[2] in INT):
            return "it is converted to %s when it is written" % o[2]
        if o[0] == "cmp":
            return "only a comparison of it is written"
    for o in ro:
        if o[0] in ("arith", "select", "skip", "step_by"):
            return "'%s' is applied when it is read" % (o[1] if o[0] in ("select", "arith") else o[0])
        if o[0] == "cast" and o[2] in WIDTH and WIDTH[o[2]] < WIDTH.get(ty, 0):
            return "it is cut down to %s when it is read" % o[2]
        if o[0] == "cast" and ty in INT and o[2] in ("f32",):
            return "it is converted to %s when it is read" % o[2]
        if o[0] == "cmp":
            return "only a comparison of it is used when it is read"
        if o[0] == "take" and isinstance(o[1], int) and len(o) > 2:
            lv = [k for k, x in enumerate(f) if x == "*"]
            lv = f[:lv[-o[2]] + 1] if 0 < o[2] <= len(lv) else None
            if lv is not None and o[1] < SIZES.get(lv, 1 << 16):
                return "only %d elements are read" % o[1]
    for ops, what in ((wo, "written"), (ro, "read")):
        for o in ops:
            if o[0] == "call" and last(o[1]) in CHANGE:
                return "'%s' is applied when it is %s" % (last(o[1]), what)
    if f[0] in ("patterns", "block_funs") or "<MicroSample>" in f:
        if any(o[0] == "rev" for o in wo) != any(o[0] == "rev" for o in ro):
            return "the order of the elements is reversed"
    if any(o[0] == "clamp" for o in ro):
        ks = [s[1] for s, o in allsrc if s[0] == "const" and isinstance(s[1], int) and any(x[0] == "clamp" for x in o) and not any(x[0] == "default" for x in o)]
        if any(0 < k < 256 for k in ks):
            return "it is limited to %s when it is read" % [k for k in ks if 0 < k < 256][0]
    sk = {ser_kind(o[1]) for o in wo if o[0] == "ser"} - {None}
    ac = {o[1] for o in ro if o[0] == "acc"}
    if len(sk) == 1 and ac and not any(k in ACC[a] for a in ac for k in sk):
        return "it is written as %s but read with %s" % (sk.pop(), "/".join(sorted(ac)))
    return None


WAY = {
    "NodeId::name": lambda c: "NodeId::from_str" in c,
    "NodeId::instance": lambda c: "NodeId::to_instance" in c and "NodeId::from_str" not in c,
    "ParamId::name": lambda c: "NodeId::inp_param" in c and "NodeId::from_str" not in c and "NodeId::to_instance" not in c,
    "NodeId::inp_name_by_idx": lambda c: "NodeId::inp" in c and "NodeId::from_str" not in c and "NodeId::to_instance" not in c,
    "NodeId::out_name_by_idx": lambda c: "NodeId::out" in c and "NodeId::from_str" not in c and "NodeId::to_instance" not in c,
}


def ids(F, rep, name, ty, f, hits):
    """names and instances go through the matching pair of conversions"""
    if ty == "dsp::NodeId":
        need = ["NodeId::name", "NodeId::instance"]
    elif ty == "dsp::ParamId":
        need = ["NodeId::name", "NodeId::instance", "ParamId::name"]
    elif f[-2] == "inp":
        need = ["NodeId::inp_name_by_idx"]
    else:
        need = ["NodeId::out_name_by_idx"]
    for c in need:
        rep.count("identifier conversions")
        w = [h for h in hits if c in calls_in(h[1]) and not (c == "NodeId::name" and False)]
        if not w:
            # written by other means (an index, say): leave it to the pairing
            if not any(calls_in(h[1]) for h in hits):
                continue
            rep.violate("id:%s:%s" % (name, c), "'%s' is saved without %s" % (name, c), F.fn_loc(MR + "::serialize"))
            continue
        if not any(WAY[c](calls_in(h[3])) for h in w):
            rep.violate("id:%s:%s" % (name, c), "'%s' is written with %s but not read back with its inverse" % (name, c), F.fn_loc(MR + "::deserialize"))
            continue
        for h in w:
            if any(o[0] == "arith" for o in h[1]):
                rep.violate("id:%s:%s:arith" % (name, c), "arithmetic on '%s' when it is saved" % name, F.fn_loc(MR + "::serialize"))
            if WAY[c](calls_in(h[3])) and any(o[0] in ("arith", "clamp") or (o[0] == "cast" and o[2] in ("u8", "i8") and c == "NodeId::instance") for o in h[3]):
                rep.violate("id:%s:%s:arith" % (name, c), "'%s' is changed when it is read" % name, F.fn_loc(MR + "::deserialize"))


FREE = ("serde_json::Value", "std::option::Option", "std::result::Result", "std::ops::ControlFlow")


def plain(V, e):
    """a condition that only follows the shape of the data"""
    e = strip(e) if e else e
    if e[0] == "discr":
        ty = e[2].replace("&mut ", "").replace("&", "")
        return any(ty.startswith(x) for x in FREE) or enum_shape(ty)
    return False


def enum_shape(ty):
    return strip_gen(ty).endswith("SAtom")


def carries(P, d):
    if d[0] == "rv":
        o = d[1][1]
        return o[0] in ("c", "m") and not o[1][1] and "serde_json::Value" in P.b.locals[o[1][0]][0]
    return any(s[0] == "src" for s, _ in P.solve_d(d))


def skips(F, rep, P, fid, writer):
    b, V = P.b, P.V
    seen = set()
    for root, l in P.stores.items():
        for sp, d, i in l:
            if not sp or i in seen or d[0] != "op" and not (d[0] == "rv" and d[1][0] == "use"):
                continue
            if not carries(P, d):
                continue
            seen.add(i)
            rep.count("stores of elements")
            for e, vs, at in dev_conds(b, V, i):
                if plain(V, e):
                    continue
                if not writer and not inner(b, i, at):
                    continue
                if not writer and skips_only_err(b, at, i):
                    continue
                if isnext(V, e) and leaves_loop(b, i, at):
                    continue
                rep.violate("skip:%s:%s" % (last(fid), dot(sp)), "%s leaves elements out depending on %s" % (fid, fmt(e)[:90]), b.where(i))


def isnext(V, e):
    """range / counter loops"""
    return e[0] == "bin" and e[1] in ("Lt", "Ge", "Gt", "Le", "Ne", "Eq") and any(x and x[0] in ("len",) or (x[0] == "call" and strip_gen(x[1]).endswith("::len")) for x in walk(e))


def leaves_loop(b, i, at):
    for h, bl in b.loops().items():
        if at in bl and i in bl and any(x not in bl for x in b.succ(at)):
            return True
    return False


def inner(b, i, at):
    """the branch lies in the innermost loop around block i"""
    ls = [(len(bl), h) for h, bl in b.loops().items() if i in bl]
    return bool(ls) and at in b.loops()[min(ls)[1]]


def skips_only_err(b, at, i):
    """the other side leaves the loop (an early error)"""
    ls = [(len(bl), h) for h, bl in b.loops().items() if i in bl]
    if not ls:
        return True
    bl = b.loops()[min(ls)[1]]
    h = min(ls)[1]
    for s in b.succ(at):
        if s in bl and (s == h or h in b.reachable(s, avoid=[i])) and s != i:
            if i not in b.reachable(s, avoid=[h]) or s == h:
                return False
    return True


def version(F, rep):
    r = flat_or_miss(F, rep, MR + "::deserialize", stop=keep)
    written = set()
    for fid in (MR + "::empty", "matrix::Matrix::to_repr"):
        b = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith("dsp::") or p.startswith("nodes::") or p.startswith("wblockdsp::"))
        if b is None:
            return
        vs = {s[1] for s, _ in Prov(b).solve(0, ("version",)) if s[0] == "const"}
        written |= {v for v in vs if isinstance(v, int)}
    if r is None or not written:
        return
    rep.count("versions written", len(written))
    V = Val(r)
    for i, b in enumerate(r.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == "matrix_repr::MatrixDeserError" and s[2][1][-1] == "BadVersion":
                for e, vs in V.conds(i):
                    lim = limit(e, vs)
                    if lim is None:
                        continue
                    rep.count("version limits")
                    if lim < max(written):
                        rep.violate("version:low", "a patch of the version %d that is written is refused (largest accepted: %d)" % (max(written), lim), r.where(i))
                    elif lim > max(written):
                        rep.violate("version:high", "patches of versions newer than the one written (%d) are accepted up to %d" % (max(written), lim), r.where(i))


def limit(e, vs):
    """largest accepted version under a condition that leads to the refusal"""
    e = strip(e)
    if e[0] != "bin":
        return None
    truth = None
    if vs == (1,) or vs == ("not", (0,)):
        truth = True
    elif vs == (0,):
        truth = False
    if truth is None:
        return None
    op, a, b = e[1], e[2], e[3]
    if a[0] == "k" and b[0] != "k":
        a, b = b, a
        op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
    if b[0] != "k" or not isinstance(b[1], int):
        return None
    if not truth:
        op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}.get(op)
    return {"Gt": b[1], "Ge": b[1] - 1}.get(op)


def tags(F, rep):
    """each kind of value is written under the tag it is read from"""
    w = flat_or_miss(F, rep, MR + "::serialize", stop=keep)
    r = flat_or_miss(F, rep, MR + "::deserialize", stop=keep)
    if w is None or r is None:
        return
    PW = Prov(w)
    out = {}
    for i, b in enumerate(w.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] != "=" or s[2][0] != "agg" or s[2][1][0] != "array" or len(s[2][2]) < 2:
                continue
            t = {x[1] for x, _ in PW.solve_op(s[2][2][0], ()) if x[0] == "const"}
            src = set()
            for o in s[2][2][1:]:
                for x, _ in PW.solve_op(o, ()):
                    if x[0] == "src":
                        src |= {y for y in x[2] if isinstance(y, str) and y.startswith("<")}
            if len(t) == 1 and isinstance(list(t)[0], str) and len(src) == 1:
                out.setdefault(src.pop(), set()).add(list(t)[0])
    V = Val(r)
    inn = {}
    for i, b in enumerate(r.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith("SAtom"):
                for e, vs in V.conds(i):
                    e = strip(e)
                    if e[0] == "call" and strip_gen(e[1]).endswith("::eq") and vs in ((1,), ("not", (0,))):
                        for a in e[2]:
                            a = strip(a)
                            if a[0] == "str":
                                inn.setdefault("<%s>" % s[2][1][-1], set()).add(a[1])
    rep.count("value kinds written", len(out))
    rep.count("value kinds read", len(inn))
    for v in out:
        if v in inn and out[v] and not out[v] <= inn[v]:
            rep.violate("tag:" + v, "values of the kind %s are written with the tag '%s' but read with '%s'" % (v, "/".join(sorted(out[v])), "/".join(sorted(inn[v]))), F.fn_loc(MR + "::serialize"))
        for u in out:
            if u != v and out[u] & out[v]:
                rep.violate("tag-dup:" + v, "values of the kinds %s and %s are written with the same tag" % tuple(sorted((u, v))), F.fn_loc(MR + "::serialize"))


def patterns(F, rep):
    w = flat_or_miss(F, rep, PD + "::to_repr")
    r = flat_or_miss(F, rep, PD + "::from_repr")
    if w is None or r is None:
        return
    PW, PR = Prov(w), Prov(r)
    for f in (("rows",), ("edit_step",), ("cursor", 0), ("cursor", 1), ("data", "*", "*")):
        rep.count("pattern fields")
        ws = [(s[2], o) for s, o in PW.solve(0, f) if s[0] == "src"]
        if not any(same(p, f) for p, _ in ws):
            rep.violate("pat-save:" + dot(f), "PatternData::to_repr does not save '%s' in its own place" % dot(f), F.fn_loc(PD + "::to_repr"))
        for p, o in ws:
            if same(p, f) and any(x[0] in ("arith", "clamp", "select", "skip", "take", "step_by") or (x[0] == "cast" and WIDTH.get(x[2], 99) < 16) for x in o):
                rep.violate("pat-value:" + dot(f), "PatternData::to_repr changes '%s' (%s)" % (dot(f), sorted(map(str, o))), F.fn_loc(PD + "::to_repr"))
        rs = [(s[2], o) for s, o in PR.solve(1, f) if s[0] == "src" and s[1] == 2]
        if not any(same(p, f) for p, _ in rs):
            rep.violate("pat-load:" + dot(f), "PatternData::from_repr does not take '%s' from its own place" % dot(f), F.fn_loc(PD + "::from_repr"))
        for p, o in rs:
            if same(p, f) and any(x[0] in ("arith", "select", "skip", "step_by") or (x[0] == "cast" and WIDTH.get(x[2], 99) < 16) for x in o):
                rep.violate("pat-lvalue:" + dot(f), "PatternData::from_repr changes '%s' (%s)" % (dot(f), sorted(map(str, o))), F.fn_loc(PD + "::from_repr"))
    # column types
    ct = "dsp::tracker::pattern::PatternColType"
    info = F.adts.get(ct)
    if not info:
        ct = [k for k in F.adts if k.endswith("::PatternColType")]
        ct = ct[0] if ct else None
    if not ct:
        return
    V = Val(w)
    sv = {}
    for i, b in enumerate(w.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "use" and s[2][1][0] == "k" and isinstance(s[2][1][1].get("v"), int) and s[2][1][1].get("ty") == "u8":
                for e, vs in V.conds(i):
                    e = strip(e)
                    if e[0] == "discr" and strip_gen(e[2].replace("&", "")) == ct and len(vs) == 1:
                        sv.setdefault(vs[0], set()).add(s[2][1][1]["v"])
    V = Val(r)
    ld = {}
    for i, b in enumerate(r.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == ct:
                for e, vs in V.conds(i):
                    e2 = strip(e)
                    if e2[0] != "discr" and e2[0] != "bin" and isinstance(vs[0], int):
                        for v in vs:
                            ld.setdefault(v, set()).add(s[2][1][2])
    rep.count("column types saved", len(sv))
    rep.count("column types loaded", len(ld))
    for d, ks in sv.items():
        n = F.adts[ct]["variants"][d]["name"]
        for k in ks:
            if ld and k in ld and d not in ld[k]:
                rep.violate("coltype:" + n, "the column type %s is saved as %d, which is loaded as %s" % (n, k, [F.adts[ct]["variants"][x]["name"] for x in ld[k]]), F.fn_loc(PD + "::from_repr"))
        for d2, k2 in sv.items():
            if d2 != d and ks & k2:
                rep.violate("coltype-dup:" + n, "two column types are saved as the same number", F.fn_loc(PD + "::to_repr"))
    skips(F, rep, PW, PD + "::to_repr", True)


def saving(F, rep):
    """Matrix::to_repr and the dump of the parameters"""
    M = "matrix::Matrix::to_repr"
    b = flat_or_miss(F, rep, M, stop=lambda p: keep(p) or p.startswith("wblockdsp::definition"))
    if b is None:
        return
    P = Prov(b)
    want = {
        ("params", "*", 0): ("config", "param_values", "*", 0),
        ("params", "*", 1): ("config", "param_values", "*", 1),
        ("params", "*", 2): ("config", "param_modamt", "*"),
        ("atoms", "*", 0): ("config", "atom_values", "*", 0),
        ("atoms", "*", 1): ("config", "atom_values", "*", 1),
        ("properties", "*", 0): ("properties", "*", 0),
        ("properties", "*", 1): ("properties", "*", 1),
        ("cells", "*", "node_id"): ("matrix", "*", "node_id"),
        ("cells", "*", "x"): ("matrix", "*", "x"),
        ("cells", "*", "y"): ("matrix", "*", "y"),
        ("block_funs", "*", "areas"): ("config", "node_global", "block_functions", "*", 1, "areas"),
        ("block_funs", "*", "cur_id"): ("config", "node_global", "block_functions", "*", 1, "id_gen", "counter"),
    }
    for k in range(3):
        want[("cells", "*", "inp", k)] = ("matrix", "*", "in%d" % (k + 1))
        want[("cells", "*", "out", k)] = ("matrix", "*", "out%d" % (k + 1))
    for f, g in want.items():
        rep.count("captured state")
        rs = [(s[2], o) for s, o in P.solve(0, f) if s[0] == "src"]
        if not rs:
            rep.violate("dump:" + dot(f), "Matrix::to_repr does not save '%s'" % dot(g), F.fn_loc(M))
            continue
        tail = lambda p: tuple(x for x in p if not isinstance(x, str) or x not in ("config", "node_global"))
        hit = [(p, o) for p, o in rs if pre(tail(p), tail(g))]
        if not hit:
            rep.violate("dump:" + dot(f), "Matrix::to_repr fills '%s' from '%s' instead of '%s'" % (dot(f), "/".join(sorted({dot(p) for p, _ in rs})), dot(g)), F.fn_loc(M))
            continue
        if f == ("params", "*", 1) and not any("ParamId::denorm" in calls_in(o) for _, o in hit):
            rep.violate("dump:denorm", "parameter values are saved without being denormalised (they are normalised when loaded)", F.fn_loc(M))
        for p, o in hit:
            bad = [x for x in o if x[0] in ("arith", "clamp", "select", "take", "skip", "step_by")]
            if bad and not (f[0] == "block_funs"):
                rep.violate("dump-value:" + dot(f), "Matrix::to_repr changes or leaves out some of '%s' (%s)" % (dot(g), bad[0][-1]), F.fn_loc(M))
        if f[0] == "cells" and len(f) == 3 or f[0] == "cells":
            for p, o in rs:
                if not pre(tail(p), tail(g)) and "matrix" in p and p[-1] != "*":
                    rep.violate("dump-mix:" + dot(f), "Matrix::to_repr fills '%s' from '%s'" % (dot(f), dot(p)), F.fn_loc(M))
    rep.floor("captured state", 10)


def pre(a, b):
    n = min(len(a), len(b))
    return n and all(compat(x, y) for x, y in zip(a[:n], b[:n])) and (len(a) <= len(b) + 2)


SLOTS = (("pattern", "::PatternData::to_repr", 128), ("block program", "::BlockFun::save_snapshot", 32), ("cell", "matrix::Cell::to_repr", None))


def slots(F, rep):
    """every slot is visited, and lands at its own index"""
    M = "matrix::Matrix::to_repr"
    b = flat_or_miss(F, rep, M, stop=lambda p: (p.endswith("::to_repr") and p != M) or p.endswith("::save_snapshot") or p.endswith("::is_unset") or keep(p) or p.startswith("nodes::"))
    if b is None:
        return
    V = Val(b)
    for what, fn, lim in SLOTS:
        sites = [i for i, t in b.calls() if callname(t).endswith(fn)]
        for i in sites:
            rep.count("saving sites")
            ls = sorted((len(bl), h) for h, bl in b.loops().items() if i in bl)
            if not ls:
                continue
            h = ls[0][1]
            bl = b.loops()[h]
            for e, vs, at in dev_conds(b, V, i):
                if at not in bl:
                    continue
                t = strip(e)
                if t[0] == "call" and last(t[1]) == "is_unset":
                    if vs == (0,):
                        rep.violate("slot-cond:" + what, "to_repr saves only the %ss that are unset" % what, b.where(i))
                    continue
                if what == "cell" and t[0] == "call" and last(t[1]) in ("eq", "ne", "is_empty"):
                    nop = any(x and x[0] == "agg" and x[1][0] == "adt" and x[1][-1] == "Nop" for x in deep_walk(V, t))
                    other = any(x and x[0] == "agg" and x[1][0] == "adt" and x[1][1].endswith("NodeId") and x[1][-1] != "Nop" for x in deep_walk(V, t))
                    if other and not nop:
                        rep.violate("slot-cond:" + what, "to_repr leaves out cells with a node (%s)" % fmt(t)[:80], b.where(at))
                    continue
                if t[0] == "call" and last(t[1]) in ("eq", "ne") and what != "cell":
                    rep.violate("slot-cond:" + what, "to_repr leaves out %ss depending on %s" % (what, fmt(t)[:80]), b.where(at))
                if what == "cell" and t[0] == "call" and any(x and x[0] == "fld" and x[2] in ("in1", "in2", "in3", "out1", "out2", "out3", "x", "y") for x in walk(t)):
                    rep.violate("slot-cond:" + what, "to_repr leaves out cells depending on %s" % fmt(t)[:80], b.where(at))
                if what == "cell" and t[0] == "bin" and t[1] in ("Gt", "Lt", "Ge", "Le", "Eq", "Ne") and any(x and x[0] == "fld" and x[2] in ("in1", "in2", "in3", "out1", "out2", "out3", "x", "y") for x in walk(t)):
                    rep.violate("slot-cond:" + what, "to_repr leaves out cells depending on %s" % fmt(t)[:80], b.where(at))
                if what == "cell" and t[0] == "discr" and any(x and x[0] == "fld" and x[2] in ("in1", "in2", "in3", "out1", "out2", "out3") for x in walk(t)):
                    rep.violate("slot-cond:" + what, "to_repr leaves out cells depending on %s" % fmt(t)[:80], b.where(at))
            if lim is None:
                continue
            ks = set()
            start = set()
            for x in bl:
                for y in b.succ(x):
                    if y in bl or b.blocks[y]["cl"]:
                        continue
                    for e, vs in V.conds(y):
                        t = strip(e)
                        if t[0] == "bin" and vs == (0,) and t[1] in ("Lt", "Le") and t[3][0] == "k":
                            if defined_in(b, V, t[2], bl):
                                ks.add(t[3][1] + (t[1] == "Le"))
                        if t[0] == "discr" and vs == (0,):
                            for r in walk(t):
                                if r and r[0] == "agg" and r[1][0] == "adt" and r[1][1] == "std::ops::Range" and all(z[0] == "k" for z in r[2]) and x in bl and next_in(b, bl, r, V):
                                    ks.add(r[2][1][1])
                                    start.add(r[2][0][1])
            if len(ks) == 1:
                rep.count("slot limits")
                k = ks.pop()
                if k < lim:
                    rep.violate("slot-limit:" + what, "to_repr saves only %d %ss (there are %d)" % (k, what, lim), b.where(i))
            if start - {0}:
                rep.violate("slot-start:" + what, "to_repr does not save the first %ss" % what, b.where(i))
            pushes = [x for x in bl if b.blocks[x]["t"]["k"] == "call" and last(callname(b.blocks[x]["t"])) == "push" and "std::option::Option<" in str(b.blocks[x]["t"].get("f"))]
            if pushes:
                rep.count("slot pushes", len(pushes))
                cut = none_edges(b, V, bl)
                seen, todo = set(), [y for y in b.succ(h) if y in bl and (h, y) not in cut and y not in pushes]
                while todo:
                    y = todo.pop()
                    if y in seen:
                        continue
                    seen.add(y)
                    for z in b.succ(y):
                        if z == h:
                            rep.violate("slot-shift:" + what, "to_repr can leave out the entry of a %s, so that the following ones are saved under other numbers" % what, b.where(i))
                            todo = []
                            break
                        if z in bl and z not in pushes and (y, z) not in cut:
                            todo.append(z)
    rep.floor("saving sites", 3)


def next_in(b, bl, r, V):
    return any(b.blocks[x]["t"]["k"] == "call" and last(trait_call(b.blocks[x]["t"]) or callname(b.blocks[x]["t"])) == "next" and any(y == r for y in walk(V.op(b.blocks[x]["t"]["a"][0]))) for x in bl if b.blocks[x]["t"].get("a"))


def defined_in(b, V, e, bl):
    """the counter is advanced inside of the loop"""
    e = strip(e)
    if e[0] != "var":
        return False
    return any(s[0] == "=" and s[1][0] == e[1] for x in bl for s in b.blocks[x]["s"])


def none_edges(b, V, bl):
    out = set()
    for x in bl:
        t = b.blocks[x]["t"]
        if t["k"] != "switch":
            continue
        e = strip(V.op(t["d"]))
        if e[0] != "discr":
            continue
        ty = e[2].replace("&", "")
        tm = dict((v, s) for v, s in t["v"])
        if ty.startswith("std::option::Option<std::sync::Arc"):
            out.add((x, tm.get(0, t["o"])))
        elif ty.startswith("std::result::Result<std::sync::MutexGuard"):
            out.add((x, tm.get(1, t["o"])))
    return out
