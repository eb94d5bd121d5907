"""P06: a change of the sample rate reaches everything that depends on it."""
from hx.report import Report
from .common import *

DSPNODE = "dsp::DspNode"
# methods of synfx_dsp::DelayBuffer that count in samples, not in milliseconds
SAMPLE_UNIT = {"synfx_dsp::DelayBuffer": {"feed", "reset", "at", "cubic_interpolate_at_s", "linear_interpolate_at_s", "set_sample_rate"}}
RATES = [44100.0, 48000.0, 22050.0, 96000.0]
# NodeExecContext::set_sample_rate is an empty hook for later use
SMOOTH = "util::Smoother"


def is_setter(n):
    return n.startswith("set_") and ("sample_rate" in n or "srate" in n)


def setters(F):
    """local ADT -> fid of its set_sample_rate"""
    out = {}
    for im in F.impls:
        for n, p in im["items"]:
            if n == "set_sample_rate" and p in F.fns:
                out[strip_gen(im["self_ty"]).replace("&mut ", "")] = p
    return out


def rooted_fields(V, e):
    """names of the fields of argument 1 the expression is derived from"""
    out = set()
    for x in deep_walk(V, e):
        if x and x[0] == "fld":
            y = x[1]
            while y[0] in ("deref", "ref", "dc"):
                y = y[1]
            if y == ("arg", 1):
                out.add(str(x[2]))
    return out


def comb_args(body, closure):
    """argument operands of the combinator call a closure was spliced into"""
    out = []
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if t["k"] == "goto" and t.get("inl") == closure and t.get("comb"):
            for b2 in body.blocks:
                if b2["t"]["k"] == "nondet" and i in b2["t"]["ts"]:
                    ct = body.blocks[b2["t"]["ts"][0]]["t"]
                    if ct["k"] == "call":
                        out += ct["a"]
    return out


def recv_fields(body, V, i, op):
    f = rooted_fields(V, V.op(op))
    b = body.blocks[i]
    if "{closure" in b["fn"]:
        seen = set()
        st = b.get("stack") or (b["fn"],)
        for c in st:
            if "{closure" in c and c not in seen:
                seen.add(c)
                for a in comb_args(body, c):
                    f |= rooted_fields(V, V.op(a))
    return f


ARITH = {"Add", "Sub", "Mul", "Div"}


def exact_rate(V, e, arg=2, dep=0):
    """True: a plain arithmetic function of the sample rate argument; False: it
    is not derived from it, or is limited/selected on the way"""
    if dep > 25:
        return False
    k = e[0]
    if k == "arg":
        return e[1] == arg
    if k in ("cast",):
        return exact_rate(V, e[2], arg, dep + 1)
    if k in ("deref", "ref"):
        return exact_rate(V, e[1], arg, dep + 1)
    if k == "bin" and e[1] in ARITH:
        a, b = e[2], e[3]
        ca, cb = is_const(a), is_const(b)
        if ca and cb:
            return False
        if ca:
            return exact_rate(V, b, arg, dep + 1)
        if cb:
            return exact_rate(V, a, arg, dep + 1)
        return exact_rate(V, a, arg, dep + 1) and exact_rate(V, b, arg, dep + 1)
    if k == "un":
        return exact_rate(V, e[2], arg, dep + 1)
    if k == "call":
        n = last(e[1])
        if n in ("recip", "into", "from", "clone", "ceil", "round", "floor", "f", "to_owned") and e[2]:
            return exact_rate(V, e[2][0], arg, dep + 1)
        if n in ("div", "mul", "add", "sub") and len(e[2]) == 2:
            return exact_rate(V, ("bin", n.capitalize(), e[2][0], e[2][1]), arg, dep + 1)
        return False
    if k == "var":
        ds = V.var_defs(e[1])
        return bool(ds) and len(set(norm(x) for _, x in ds)) == 1 and exact_rate(V, ds[0][1], arg, dep + 1)
    return False


def is_const(e):
    return e[0] in ("k", "kf", "item", "kz", "prom") or (e[0] == "cast" and is_const(e[2])) or (e[0] == "bin" and is_const(e[2]) and is_const(e[3])) or (e[0] == "un" and is_const(e[2])) or (e[0] == "call" and last(e[1]) in ("f", "from", "into") and e[2] and all(is_const(a) for a in e[2]))


def opt_filtered(e):
    """an Option that was emptied under a condition: filter, then, ..."""
    x = e
    while x and x[0] in ("discr", "ref", "deref", "fld", "dc", "call"):
        if x[0] == "call":
            n = strip_gen(x[1])
            if last(n) in ("filter", "take_if", "xor", "then", "then_some", "is_some_and", "is_none_or") and ("option" in n.lower() or "bool" in n):
                return True
            if last(n) not in ("as_ref", "as_mut", "map", "copied", "cloned", "as_deref", "as_deref_mut", "inspect", "is_some", "is_none", "branch", "ok_or", "and_then") or not x[2]:
                return False
            x = x[2][0]
        else:
            x = x[1]
    return False


def structural(c):
    """a condition that only unwraps an Option/iterator/lock"""
    e = c[0]
    if e[0] == "discr":
        return not opt_filtered(e)
    while e[0] == "un":
        e = e[2]
    if opt_filtered(e):
        return False
    return e[0] == "call" and last(e[1]) in ("is_some", "is_none", "is_ok", "is_err", "is_null")


def unconditional(V, i):
    return all(structural(c) for c in dev_conds(V.b, V, i))


def init_consts(F, adt):
    """field -> constant float it is initialised with in a constructor"""
    out = {}
    info = F.adts[adt]
    names = [f[0] for f in info["variants"][0]["fields"]]
    for fid, r in F.fns.items():
        if not (fid.startswith(adt + "::") or (" as " in fid and fid.startswith("<" + adt + " as"))):
            continue
        b = F.body(fid)
        V = None
        for i, blk in enumerate(b.blocks):
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == adt:
                    V = V or Val(b)
                    for n, o in zip(names, s[2][2]):
                        v = const_val(V.op(o))
                        if v is not None:
                            out.setdefault(n, set()).add(v)
    return out


def const_val(e):
    k = e[0]
    if k == "kf":
        try:
            return float(e[1])
        except (TypeError, ValueError):
            return None
    if k == "k" and isinstance(e[1], (int, float)) and not isinstance(e[1], bool):
        return float(e[1])
    if k == "cast":
        return const_val(e[2])
    if k == "bin":
        a, b = const_val(e[2]), const_val(e[3])
        if a is None or b is None:
            return None
        try:
            return {"Add": a + b, "Sub": a - b, "Mul": a * b, "Div": a / b if b else None}.get(e[1])
        except ZeroDivisionError:
            return None
    if k == "call" and last(e[1]) in ("f", "from", "into") and e[2]:
        return const_val(e[2][0])
    return None


def rate_like(v):
    for r in RATES:
        for c in (r, 1.0 / r, r / 1000.0, 1000.0 / r, 2 * r, 0.5 / r):
            if abs(v - c) <= 2e-6 * abs(c):
                return True
    return False


def field_reads(F, adt, name):
    """functions that read the field (other than constructors / setter)"""
    out = []
    for fid in F.fns:
        b = F.body(fid)
        if adt.split("::")[-1] not in fid and fid.rsplit("::", 1)[0] != adt:
            continue
        out.append(fid)
    return out


def p06(F, tier):
    rep = Report("P06", "other")
    rep.rule("NodeExecutor::set_sample_rate unconditionally hands the new rate, unlimited, to every node of the running program, to every parameter smoother and to the cell the frontend reads when it creates nodes; NodeConfigurator::create_node sets that rate on every node before it is registered")
    rep.rule("every node (and every local DSP building block with a set_sample_rate) hands the rate to each of its members that has a sample rate setter of its own, on every path, and recomputes each number that its constructor derives from a default sample rate")
    rep.rule("state that is computed from the sample rate and cached behind a 'parameter changed' comparison is invalidated by the sample rate setter")
    S = setters(F)
    for adt, fid in sorted(S.items()):
        if adt not in F.adts or adt in ("dsp::Node", "nodes::node_exec::NodeExecutor"):
            continue
        rep.count("types with a sample rate setter")
        body = flat(F, fid)
        V = Val(body)
        calls = []
        for i, t in body.calls():
            n = last(callname(t) or trait_call(t))
            if is_setter(n) and t["a"]:
                calls.append((i, t, recv_fields(body, V, i, t["a"][0])))
        # calls into local setters are inlined: remember their entry blocks
        for i, b in enumerate(body.blocks):
            t = b["t"]
            if t["k"] == "goto" and t.get("inl") and is_setter(last(t["inl"])) and not t.get("comb"):
                calls.append((i, None, inl_recv(body, V, i)))
        info = F.adts[adt]
        need = {}
        for f, ty, ms in info["field_adts"]:
            if any(is_setter(m) for m in ms):
                need.setdefault(f, ty)
        for v in info["variants"]:
            for f, ty, _ in v["fields"]:
                if "dyn dsp::node_rust::DynamicNode1x1" in ty:
                    need.setdefault(f, "dyn DynamicNode1x1")
        for f, ty in sorted(need.items()):
            if ty in SAMPLE_UNIT:
                used = methods_on(F, adt, f)
                if used and used <= SAMPLE_UNIT[ty]:
                    rep.count("members used in sample units only")
                    continue
            rep.count("members with a sample rate setter")
            cs = [c for c in calls if f in c[2]]
            key = "%s.%s" % (last(adt), f)
            if not cs:
                rep.violate("member:" + key, "%s::set_sample_rate does not pass the sample rate on to its member '%s' (%s)" % (last(adt), f, ty), F.fn_loc(fid))
                continue
            if not any(unconditional(V, c[0]) for c in cs):
                rep.violate("member-cond:" + key, "%s::set_sample_rate passes the sample rate to its member '%s' only under a condition" % (last(adt), f), body.where(cs[0][0]))
                continue
            for i, t, _ in cs:
                if t is None:
                    a = inl_arg(body, V, i, 1)
                else:
                    a = V.op(t["a"][1]) if len(t["a"]) > 1 else ("?",)
                if not exact_rate(V, a):
                    rep.violate("member-value:" + key, "%s::set_sample_rate hands its member '%s' %s instead of the new sample rate" % (last(adt), f, fmt(a)[:80]), body.where(i))
            arr = array_len(info, f)
            idxs = set()
            free = False
            for i, t, _ in cs:
                e = V.op(t["a"][0]) if t is not None else inl_arg(body, V, i, 0)
                ks = [x[2][1] for x in deep_walk(V, e) if x and x[0] == "idx" and x[2][0] == "k"]
                if ks:
                    idxs |= set(ks)
                else:
                    free = True
            if arr and idxs and not free and len(idxs) < arr:
                rep.violate("member-part:" + key, "%s::set_sample_rate reaches only %d of the %d elements of '%s'" % (last(adt), len(idxs), arr, f), F.fn_loc(fid))
        # numbers derived from a default rate
        ic = init_consts(F, adt)
        wr = {}
        for i, j, p, rv in field_writes(body, V):
            if p[0] == "arg1" and len(p) == 2:
                wr.setdefault(p[1], []).append((i, rv))
        rate_fields = set()
        for f, vals in sorted(ic.items()):
            if not any(rate_like(v) for v in vals):
                continue
            if not used_field(F, adt, f):
                continue
            rep.count("numbers initialised from a default rate")
            key = "%s.%s" % (last(adt), f)
            ws = wr.get(f, [])
            if not ws:
                rep.violate("number:" + key, "%s.%s starts out for %s but is not recomputed by set_sample_rate" % (last(adt), f, sorted(vals)), F.fn_loc(fid))
                continue
            if not any(unconditional(V, i) for i, _ in ws):
                rep.violate("number-cond:" + key, "%s.%s is recomputed by set_sample_rate only under a condition" % (last(adt), f), body.where(ws[0][0]))
            for i, rv in ws:
                e = V.rv(rv, 0) if rv is not None else V.call(i, body.blocks[i]["t"], 0)
                if not exact_rate(V, e):
                    rep.violate("number-value:" + key, "set_sample_rate sets %s.%s to %s, which is not the new sample rate's value" % (last(adt), f, fmt(e)[:80]), body.where(i))
                else:
                    rate_fields.add(f)
        for f, ws in wr.items():
            for i, rv in ws:
                e = V.rv(rv, 0) if rv is not None else V.call(i, body.blocks[i]["t"], 0)
                if any(x == ("arg", 2) for x in deep_walk(V, e)):
                    rate_fields.add(f)
        if adt == SMOOTH and not any(exact_rate(V, V.rv(rv, 0) if rv is not None else V.call(i, body.blocks[i]["t"], 0)) and unconditional(V, i) for ws in wr.values() for i, rv in ws):
            rep.violate("smoother", "the smoother's ramp length does not follow the sample rate", F.fn_loc(fid))
        cached(F, rep, adt, fid, rate_fields, set(wr))
    literals(F, rep)
    rep.floor("types with a sample rate setter", 40)
    rep.floor("members with a sample rate setter", 25)
    rep.floor("numbers initialised from a default rate", 6)
    executor(F, rep)
    creation(F, rep)
    late(F, rep)
    rep.assume("synfx-dsp's and synfx-dsp-jit's set_sample_rate methods do what they say; the fixed delay of the FbWr/FbRd pair does not follow the sample rate")
    return rep


def literals(F, rep):
    """no fixed sample rate in processing code"""
    import json
    for im in F.impls:
        if im["trait"] != DSPNODE:
            continue
        for n, p in im["items"]:
            if n != "process" or p not in F.fns:
                continue
            adt = strip_gen(im["self_ty"])
            body = flat(F, p, stop=lambda q: "ProcBuf" in q)
            rep.count("processing functions scanned for fixed rates")
            for i, b in enumerate(body.blocks):
                if b["cl"]:
                    continue
                ops = []
                for s in b["s"]:
                    if s[0] == "=":
                        rv = s[2]
                        ops += [o for o in (rv[1:] if rv[0] in ("use", "cast") else rv[2:] if rv[0] == "bin" else rv[2] if rv[0] == "agg" else []) if isinstance(o, list)]
                if b["t"]["k"] == "call":
                    ops += b["t"]["a"]
                for o in ops:
                    if o and o[0] == "k":
                        v = kf(o[1])
                        if v is not None and any(abs(v - c) <= 2e-6 * c for r in RATES[:2] for c in (r, 1.0 / r, r / 1000.0)):
                            rep.violate("literal:%s:%s" % (last(adt), b["fn"]), "%s computes with the fixed sample rate %s while it processes" % (last(adt), v), body.where(i))


def kf(k):
    if "f" in k:
        try:
            return float(k["f"])
        except (TypeError, ValueError):
            return None
    if "v" in k and isinstance(k["v"], (int, float)):
        return float(k["v"])
    return None


def inl_recv(body, V, i):
    return rooted_fields(V, inl_arg(body, V, i, 0))


def inl_arg(body, V, i, n):
    """n-th argument of a call that was inlined at block i"""
    t = body.blocks[i]["t"]
    # parameters are assigned in block i's trailing statements, in order
    ps = t.get("params")
    if ps:
        return V.local(ps + n)
    r = body.facts.fns[t["inl"]]
    ss = [s for s in body.blocks[i]["s"] if s[0] == "="][-r["argc"]:]
    if n < len(ss):
        return V.rv(ss[n][2], 0)
    return ("?",)


def array_len(info, f):
    import re
    for v in info["variants"]:
        for n, ty, _ in v["fields"]:
            if n == f:
                m = re.search(r"; (\d+)\]", ty)
                return int(m.group(1)) if m else None
    return None


def methods_on(F, adt, f):
    out = set()
    pre = adt.rsplit("::", 1)[0]
    for fid in F.fns:
        if not (fid.startswith(pre + "::") or fid.startswith("<" + pre + "::")):
            continue
        b = F.body(fid)
        V = Val(b)
        for i, t in b.calls():
            if "f" not in t or not t["a"]:
                continue
            n = callname(t)
            if not n.startswith("synfx_dsp::"):
                continue
            for x in deep_walk(V, V.op(t["a"][0])):
                if x and x[0] == "fld" and x[2] == f:
                    out.add(last(n))
    return out


def used_field(F, adt, f):
    """is the field read anywhere outside set_sample_rate?"""
    pre = adt.rsplit("::", 1)[0]
    for fid, r in F.fns.items():
        if not (fid.startswith(pre + "::") or fid.startswith("<" + pre + "::")) or last(fid) in ("set_sample_rate", "fmt", "clone"):
            continue
        txt = r.get("_json")
        b = F.body(fid)
        for blk in b.blocks:
            for s in blk["s"]:
                if s[0] == "=" and reads_field(s[2], f):
                    return True
            t = blk["t"]
            if t["k"] == "call":
                for a in t["a"]:
                    if a[0] in ("c", "m") and any(isinstance(p, list) and p[0] == "f" and p[2] == f for p in a[1][1]):
                        return True
            if t["k"] == "switch" and t["d"][0] in ("c", "m") and any(isinstance(p, list) and p[0] == "f" and p[2] == f for p in t["d"][1][1]):
                return True
    return False


def reads_field(rv, f):
    def pl(p):
        return any(isinstance(x, list) and x[0] == "f" and x[2] == f for x in p[1])
    def op(o):
        return o[0] in ("c", "m") and pl(o[1])
    k = rv[0]
    if k in ("use", "repeat", "cast"):
        return op(rv[1])
    if k in ("ref", "rawptr", "discr"):
        return pl(rv[1])
    if k == "bin":
        return op(rv[2]) or op(rv[3])
    if k == "un":
        return op(rv[2])
    if k == "agg":
        return any(op(o) for o in rv[2])
    return False


def fields_in(V, e):
    return rooted_fields(V, e)


def cached(F, rep, adt, fid, rate_fields, written):
    """`if param != self.key { self.key = param; self.state = f(self.rate) }`"""
    pr = "<%s as dsp::DspNode>::process" % adt
    if pr not in F.fns or not rate_fields:
        return
    body = flat(F, pr, stop=lambda p: "ProcBuf" in p or "denorm" in p)
    V = Val(body)
    # blocks that compute something from a rate field under a comparison with a key field
    for i, t in body.calls():
        if not any(rooted_fields(V, V.op(a)) & rate_fields for a in t["a"]):
            continue
        keys = key_conditions(body, V, i)
        if not keys:
            continue
        rep.count("rate dependent state behind a change comparison")
        if not keys & written:
            rep.violate("cache:%s" % last(adt), "%s recomputes rate dependent state only when %s change, and set_sample_rate invalidates none of them" % (last(adt), sorted(keys)), body.where(i))


def key_conditions(body, V, i):
    """fields K of self such that block i only runs when some K differs from its
    current value, K being updated in the same region"""
    sc, pr = body.cfg()
    idom, _, _ = body.dom()
    out = set()
    for h in body.dominators_of(i):
        if h == 0:
            continue
        ps = []
        for p in pr[h]:
            while p in idom and body.blocks[p]["t"]["k"] == "goto" and not any(s[0] == "=" for s in body.blocks[p]["s"]) and len(pr[p]) == 1:
                p = pr[p][0]
            if p in idom:
                ps.append(p)
        sw = [p for p in ps if body.blocks[p]["t"]["k"] == "switch"]
        if not sw or len(sw) != len(ps):
            continue
        fs = set()
        cs = []
        for p in sw:
            c = V.op(body.blocks[p]["t"]["d"])
            if any(x and ((x[0] == "bin" and x[1] in ("Ne", "Eq", "Gt", "Lt", "Ge", "Le")) or (x[0] == "call" and last(x[1]) in ("ne", "eq"))) for x in walk(c)):
                fs |= rooted_fields(V, c)
                cs.append(c)
        if not fs:
            continue
        for k, _, p, rv in field_writes(body, V):
            if p[0] == "arg1" and len(p) == 2 and p[1] in fs and body.dominates(h, k) and rv is not None:
                e = norm(V.rv(rv, 0))
                if e[0] not in ("k", "kf") and any(norm(x) == e for c in cs for x in walk(c)):
                    out.add(p[1])
    return out


def executor(F, rep):
    body = flat_or_miss(F, rep, EXE + "set_sample_rate")
    if body is None:
        return
    V = Val(body)
    tgt = {}
    for i, t in body.calls():
        n = last(callname(t) or trait_call(t))
        if n == "set_sample_rate" or n == "set" or n == "store":
            fs = recv_fields(body, V, i, t["a"][0])
            for f in fs:
                tgt.setdefault((f, n), []).append((i, V.op(t["a"][1]) if len(t["a"]) > 1 else ("?",)))
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if t["k"] == "goto" and t.get("inl") and last(t["inl"]) in ("set_sample_rate", "set") and not t.get("comb"):
            for f in inl_recv(body, V, i) or set():
                tgt.setdefault((f, last(t["inl"])), []).append((i, inl_arg(body, V, i, 1)))
            if "{closure" in body.blocks[i]["fn"]:
                for c in (body.blocks[i].get("stack") or ()):
                    for a in comb_args(body, c):
                        for f in rooted_fields(V, V.op(a)):
                            tgt.setdefault((f, last(t["inl"])), []).append((i, inl_arg(body, V, i, 1)))
    from .nodes import partial_range, loop_of_item
    for f, n, what in (("prog", "set_sample_rate", "the nodes of the running program"), ("smoothers", "set_sample_rate", "the parameter smoothers"), ("shared", "set", "the rate the frontend uses for new nodes")):
        rep.count("executor obligations")
        cs = tgt.get((f, n), []) + (tgt.get((f, "store"), []) if n == "set" else [])
        if not cs:
            rep.violate("exec:" + f, "NodeExecutor::set_sample_rate does not update %s" % what, F.fn_loc(EXE + "set_sample_rate"))
            continue
        if not any(unconditional(V, i) for i, _ in cs):
            rep.violate("exec-cond:" + f, "NodeExecutor::set_sample_rate updates %s only under a condition" % what, body.where(cs[0][0]))
        for i, a in cs:
            if not exact_rate(V, a):
                rep.violate("exec-value:" + f, "NodeExecutor::set_sample_rate gives %s %s instead of the new rate" % (what, fmt(a)[:60]), body.where(i))
    # whole iteration
    for i, t in body.calls():
        n = last(callname(t) or trait_call(t))
        if n in ("take", "skip", "step_by", "filter", "take_while", "skip_while", "filter_map", "nth", "first", "last") and any(rooted_fields(V, V.op(a)) & {"prog", "smoothers"} for a in t["a"]):
            rep.violate("exec-part:" + n, "NodeExecutor::set_sample_rate reaches only a part of the nodes or smoothers (%s)" % n, body.where(i))
        if n == "iter" or n == "iter_mut":
            e = V.op(t["a"][0])
            for x in walk(e):
                if x and x[0] == "idx" and x[2][0] == "agg" and "Range" in str(x[2][1]) and "RangeFull" not in str(x[2][1]):
                    rep.violate("exec-part:slice", "NodeExecutor::set_sample_rate reaches only a part of the nodes or smoothers", body.where(i))


def creation(F, rep):
    fid = CONF + "create_node"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.endswith("::set_sample_rate") or p.endswith("node_factory"))
    if body is None:
        return
    V = Val(body)
    sets = []
    for i, t in body.calls():
        if last(callname(t) or trait_call(t)) == "set_sample_rate":
            a = V.op(t["a"][1])
            ok = any(x and x[0] == "fld" and x[2] == "sample_rate" for x in deep_walk(V, a)) and not any(x and x[0] == "call" and last(x[1]) in ("min", "max", "clamp") for x in deep_walk(V, a))
            if ok:
                sets.append(i)
    pushes = []
    for i, t in body.calls():
        n = last(callname(t) or trait_call(t))
        if n in ("push", "insert") and t["a"] and "nodes" in rooted_fields(V, V.op(t["a"][0])):
            pushes.append(i)
    rep.count("node registration sites", len(pushes))
    if not pushes:
        rep.violate("create:register", "NodeConfigurator::create_node does not register the node", F.fn_loc(fid))
    for p in pushes:
        # the setter runs before or after registration on every path through it
        if sets and (any(body.dominates(s, p) for s in sets) or must_pass(body, p, sets) is None):
            continue
        rep.violate("create:rate", "NodeConfigurator::create_node registers a node without giving it the current sample rate", body.where(p))
    # the rate cell is shared between both halves
    cell_shared(F, rep)


def bare(e):
    while e[0] in ("ref", "deref"):
        e = e[1]
    return e


def cell_shared(F, rep):
    for fid in F.fns:
        b = F.body(fid)
        have = {}
        V = None
        for i, blk in enumerate(b.blocks):
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and last(s[2][1][1]) in ("SharedNodeExec", "SharedNodeConf"):
                    V = V or Val(b)
                    adt = F.adts.get(s[2][1][1])
                    names = [f[0] for f in adt["variants"][0]["fields"]]
                    if "sample_rate" in names:
                        have[last(s[2][1][1])] = (i, V.op(s[2][2][names.index("sample_rate")]))
        if len(have) == 2:
            rep.count("shared rate cells")
            a, c = [bare(x[1]) for x in have.values()]
            if a != c:
                rep.violate("cell", "the frontend and the audio thread do not share the sample rate cell", b.where(list(have.values())[0][0]))
    rep.floor("shared rate cells", 1)


def late(F, rep):
    """Rust1x1: a node object that arrives later gets the current rate"""
    pr = "<dsp::node_rust::Rust1x1 as dsp::DspNode>::process"
    if pr not in F.fns:
        return
    body = flat(F, pr, stop=lambda p: "ProcBuf" in p or "denorm" in p)
    V = Val(body)
    n = 0
    for i, t in body.calls():
        if is_setter(last(callname(t) or trait_call(t))):
            n += 1
            a = V.op(t["a"][1])
            if "srate" not in rooted_fields(V, a):
                rep.violate("late:value", "Rust1x1 hands a newly received node object something else than the current sample rate", body.where(i))
    rep.count("late receivers of the rate", n)
    if n == 0:
        rep.violate("late:Rust1x1", "Rust1x1 does not tell a newly received node object the sample rate", F.fn_loc(pr))
