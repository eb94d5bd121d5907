"""P23: the tables of node kinds, inputs, settings and outputs agree with each other."""
from hx.report import Report
from hx.ccp import TOP, alts, enum
from hx.val import Val
from .common import *
from .geom import run, vals, flat, flat_or_miss

N = "dsp::NodeId"
PI = "dsp::ParamId"
NI = "dsp::NodeInfo"
MAXIDX = 40
OPT = ("adt", "std::option::Option")
STOP = ("norm_v", "denorm_v", "round", "norm_def", "ni")


def stop(p):
    return any(p.startswith("dsp::%s::" % m) for m in STOP)


class Tab:
    def __init__(self, F, rep):
        self.F, self.rep = F, rep
        self.bodies = {}
        self.vars = [v["name"] for v in F.adts[N]["variants"]] if N in F.adts else []
        self.has = {v["name"]: len(v["fields"]) for v in F.adts[N]["variants"]} if N in F.adts else {}
        self.pf = [(f[0], f[1]) for f in F.adts[PI]["variants"][0]["fields"]] if PI in F.adts else []

    def nid(self, v, inst=("sym", ("inst",))):
        return ("agg", ("adt", N), v, (inst,) if self.has[v] else ())

    def pid(self, v, idx, name=("sym", ("nm",))):
        out = []
        for f, t in self.pf:
            out.append(self.nid(v) if t.endswith("NodeId") else ("k", idx) if t == "u8" else name)
        return ("agg", ("adt", PI), "ParamId", tuple(out))

    def body(self, fid):
        if fid not in self.bodies:
            self.bodies[fid] = flat_or_miss(self.F, self.rep, fid, stop=stop)
        return self.bodies[fid]

    def ev(self, fid, init, name=None):
        """the only value returned for these arguments, or None if unknown"""
        b = self.body(fid)
        if b is None:
            return None

        def decide(e):
            if e and e[0] == "bin" and e[1] in ("Eq", "Ne"):
                x = [y for y in e[2:4] if isinstance(y, tuple) and y and y[0] == "str"]
                if len(x) == 1 and name is not None:
                    return int((x[0][1] == name) == (e[1] == "Eq"))
            return None
        c = run(self.F, b, init, decide=decide)
        if c is None or c.coarse or not c.rets:
            return None
        r = {v for v, s in c.retvals()}
        self.rep.count("table entries")
        if len(r) != 1:
            return None
        v = next(iter(r))
        return None if v == TOP else v

    def loc(self, fid):
        return self.F.fn_loc(fid)


def opt(v):
    """("None",) / ("Some", payload) / None = unknown"""
    if v is None or v[0] != "agg" or v[1] != OPT:
        return None
    if v[2] == "None":
        return ("None",)
    p = v[3][0]
    return ("Some", unref(p))


def unref(p):
    while p[0] == "refv":
        p = p[1]
    return p


def param(T, o):
    """(node, idx, name) of an optional ParamId"""
    if o is None or o[0] == "None":
        return o
    p = o[1]
    if p[0] != "agg" or p[1] != ("adt", PI):
        return None
    d = {}
    for (f, t), x in zip(T.pf, p[3]):
        d["node" if t.endswith("NodeId") else "idx" if t == "u8" else "name"] = unref(x)
    return d


def p23(F, tier):
    rep = Report("P23", "proof")
    rep.rule("constant propagation tabulates every lookup for every node kind, index and name; the complete tables must agree with each other")
    rep.rule("accessors of inputs, settings, outputs and connection flags use the index of the table; the conversions of one parameter are the same formula everywhere")
    T = Tab(F, rep)
    if not T.vars or not T.pf:
        rep.violate("anchor:NodeId", "NodeId or ParamId is gone")
        return rep
    rep.count("node kinds", len(T.vars))
    tabs = {}
    for v in T.vars:
        tabs[v] = kind(T, v)
    names(T)
    for v in T.vars:
        if tabs[v]:
            accessors(T, v, tabs[v])
            info(T, v, tabs[v])
            conversions(T, v, tabs[v])
    queries(T)
    lists(T)
    factory(T)
    rep.floor("table entries", 3000)
    rep.floor("accessors", 800)
    rep.floor("parameters", 150)
    rep.floor("settings", 30)
    rep.floor("outputs", 40)
    return rep


def kind(T, v):
    """tables of one node kind -> (inputs, settings, outputs)"""
    rep = T.rep
    me = {1: ("refv", T.nid(v))}
    ins, ats, outs = [], [], []

    def at(fid, i, name=None):
        a = dict(me)
        a[2] = ("k", i) if i is not None else ("sym", ("a2",))
        return opt(T.ev(fid, a, name))

    def same(p, idx, name, fid, what):
        """p must be the ParamId (self, idx, name)"""
        if p is None:
            return
        if p == ("None",):
            rep.violate("miss:%s:%s:%s" % (fid.split("::")[-1], v, what), "%s does not know %s of %s" % (fid.split("::")[-1], what, v), T.loc(fid))
        elif (p["idx"][0] == "k" and p["idx"] != ("k", idx)) or (p["name"][0] == "str" and p["name"] != ("str", name)):
            rep.violate("other:%s:%s:%s" % (fid.split("::")[-1], v, what), "%s answers %s (index %s) for %s of %s" % (fid.split("::")[-1], p["name"][1], p["idx"][1], what, v), T.loc(fid))
        elif p["node"][0] == "agg" and p["node"] != T.nid(v):
            rep.violate("node:%s:%s:%s" % (fid.split("::")[-1], v, what), "%s answers for another node than %s" % (fid.split("::")[-1], v), T.loc(fid))

    def fill(fid, out, conv):
        gap = 0
        for i in range(MAXIDX):
            o = at(fid, i)
            if o is None:
                return False
            if o[0] == "None":
                gap += 1
                if gap > 2:
                    return True
                continue
            if gap:
                rep.violate("gap:%s:%s" % (fid.split("::")[-1], v), "%s knows index %d of %s, but not the one before" % (fid.split("::")[-1], i, v), T.loc(fid))
                return True
            r = conv(o, i)
            if r is None:
                return False
            out.append(r)
        return True

    def pconv(o, i):
        p = param(T, o)
        if p is None or p["idx"][0] != "k" or p["name"][0] != "str":
            return None
        if p["node"][0] == "agg" and p["node"] != T.nid(v):
            rep.violate("node:%s:%d" % (v, i), "the parameter %d of %s belongs to another node" % (i, v), T.loc(N + "::inp_param_by_idx"))
        return (p["idx"][1], p["name"][1])

    oconv = lambda o, i: (i, o[1][1]) if o[1][0] == "str" else None
    ok = fill(N + "::inp_param_by_idx", ins, pconv) and fill(N + "::atom_param_by_idx", ats, pconv) and fill(N + "::out_name_by_idx", outs, oconv)
    if not ok:
        rep.count("node kinds not tabulated")
        return None
    rep.count("parameters", len(ins))
    rep.count("settings", len(ats))
    rep.count("outputs", len(outs))
    for i, (idx, n) in enumerate(ins):
        if idx != i:
            rep.violate("inp-index:%s:%s" % (v, n), "the input %s of %s is found at index %d, but its ParamId has index %d" % (n, v, i, idx), T.loc(N + "::inp_param_by_idx"))
    want = list(range(len(ins), len(ins) + len(ats)))
    if sorted(x for x, _ in ats) != want:
        rep.violate("atom-index:" + v, "the settings of %s do not have the indices behind the inputs (%s instead of %s)" % (v, [x for x, _ in ats], want), T.loc(N + "::atom_param_by_idx"))
    allp = {}
    for idx, n in ins + ats:
        if n in allp:
            rep.violate("dup:%s:%s" % (v, n), "%s has two parameters named %s" % (v, n), T.loc(N + "::inp_param"))
        allp[n] = idx
    if len({n for _, n in outs}) != len(outs):
        rep.violate("dupout:" + v, "%s has two outputs of the same name" % v, T.loc(N + "::out"))
    isat = {idx for idx, _ in ats}
    byidx = {i: n for n, i in allp.items()}
    top = len(ins) + len(ats)
    for i in list(range(top + 2)):
        n = byidx.get(i)
        p = param(T, at(N + "::param_by_idx", i))
        o = at(N + "::inp_name_by_idx", i)
        if n is None:
            for q, fid in ((p, "param_by_idx"), (o, "inp_name_by_idx")):
                if q is not None and q != ("None",):
                    rep.violate("extra:%s:%s:%d" % (fid, v, i), "%s answers for index %d, which %s does not have" % (fid, i, v), T.loc(N + "::" + fid))
        else:
            same(p, i, n, N + "::param_by_idx", "index %d" % i)
            if o == ("None",) or (o and o[1][0] == "str" and o[1][1] != n):
                rep.violate("name:%s:%d" % (v, i), "inp_name_by_idx(%d) of %s is %s, not %s" % (i, v, o[1][1] if o != ("None",) else None, n), T.loc(N + "::inp_name_by_idx"))
            same(param(T, at(N + "::inp_param", None, n)), i, n, N + "::inp_param", n)
            o = at(N + "::inp", None, n)
            if o is not None:
                if i in isat and o != ("None",):
                    rep.violate("inp-atom:%s:%s" % (v, n), "inp() answers for the setting %s of %s, which is no input" % (n, v), T.loc(N + "::inp"))
                elif i not in isat and (o == ("None",) or (o[1][0] == "k" and o[1] != ("k", i))):
                    rep.violate("inp:%s:%s" % (v, n), "inp(%s) of %s is %s, not %d" % (n, v, o[1] if len(o) > 1 else None, i), T.loc(N + "::inp"))
        # what a ParamId says about itself
        me_p = {1: ("refv", T.pid(v, i))}
        a = T.ev(PI + "::is_atom", me_p)
        if a is not None and a[0] == "k" and bool(a[1]) != (i in isat):
            rep.violate("is_atom:%s:%d" % (v, i), "is_atom is wrong for parameter %d of %s" % (i, v), T.loc(PI + "::is_atom"))
        ui = opt(T.ev(PI + "::atom_ui", me_p))
        mm = opt(T.ev(PI + "::setting_min_max", me_p))
        st = opt(T.ev(PI + "::param_steps", me_p))
        pm = opt(T.ev(PI + "::param_min_max", me_p))
        for q, yes, fn in ((ui, i in isat, "atom_ui"), (mm, i in isat, "setting_min_max"), (st, n is not None and i not in isat, "param_steps"), (pm, n is not None and i not in isat, "param_min_max")):
            if q is not None and (q != ("None",)) != yes:
                rep.violate("%s:%s:%d" % (fn, v, i), "%s %s for parameter %d of %s" % (fn, "has no answer" if yes else "answers", i, v), T.loc(PI + "::" + fn))
        if st and pm and st[0] == "Some" and pm[0] == "Some" and st[1][0] == "agg" and pm[1][0] == "agg" and pm[1][3][0][0] == "agg" and st[1] != pm[1][3][0]:
            rep.violate("range:%s:%d" % (v, i), "param_steps and param_min_max disagree about the range of parameter %d of %s" % (i, v), T.loc(PI + "::param_min_max"))
        d = T.ev(PI + "::as_atom_def", me_p)
        if d is not None and d[0] == "agg" and n is not None:
            if i not in isat and d[2] != "Param":
                rep.violate("default:%s:%d" % (v, i), "the default of the input %s of %s is not a parameter value" % (n, v), T.loc(PI + "::as_atom_def"))
            if d[2] == "Setting" and mm and mm[0] == "Some" and mm[1][0] == "agg":
                lo, hi = mm[1][3]
                k = d[3][0]
                if all(x[0] == "k" for x in (lo, hi, k)) and not (lo[1] <= k[1] <= hi[1]) and (lo[1], hi[1]) != (0, 0):
                    rep.violate("default-range:%s:%s" % (v, n), "the default %d of the setting %s of %s is outside of %d..%d" % (k[1], n, v, lo[1], hi[1]), T.loc(PI + "::as_atom_def"))
        if n is not None and i not in isat:
            for fn, mod, val in (("norm_def", "norm_def", None), ("as_atom_def", "norm_def", d), ("round", "round", None), ("norm", "norm_v", None), ("denorm", "denorm_v", None)):
                r = val if fn == "as_atom_def" else T.ev(PI + "::" + fn, me_p)
                for c in called(r):
                    if c.startswith("dsp::%s::" % mod) or (c.startswith("dsp::") and c.split("::")[1] in STOP):
                        rep.count("conversions dispatched")
                        if c != "dsp::%s::%s::%s" % (mod, v, n):
                            rep.violate("conv:%s:%s:%d" % (fn, v, i), "%s of the parameter %s of %s uses the conversion %s" % (fn, n, v, c), T.loc(PI + "::" + fn))
    for i, n in outs:
        o = at(N + "::out", None, n)
        if o is not None and (o == ("None",) or (o[1][0] == "k" and o[1] != ("k", i))):
            rep.violate("out:%s:%s" % (v, n), "out(%s) of %s is %s, but output %d has this name" % (n, v, o[1] if len(o) > 1 else None, i), T.loc(N + "::out"))
    for fid, base in (("inp_param", allp), ("inp", allp), ("out", {n for _, n in outs})):
        o = at(N + "::" + fid, None, "\0no such name")
        if o is not None and o != ("None",):
            rep.violate("unknown:%s:%s" % (fid, v), "%s of %s answers for an unknown name" % (fid, v), T.loc(N + "::" + fid))
    return ins, ats, outs


def called(v, out=None):
    out = [] if out is None else out
    if isinstance(v, tuple):
        if len(v) > 1 and v[0] == "call" and isinstance(v[1], str):
            out.append(v[1])
        for x in v:
            called(x, out)
    return out


def names(T):
    """names and kinds"""
    rep = T.rep
    seen = {}
    for v in T.vars:
        me = {1: ("refv", T.nid(v))}
        nm = T.ev(N + "::name", me)
        lb = T.ev(N + "::label", me)
        if nm is not None and nm[0] == "str":
            rep.count("node names")
            if nm[1] in seen:
                rep.violate("name:" + v, "%s and %s have the same name" % (v, seen[nm[1]]), T.loc(N + "::name"))
            seen[nm[1]] = v
            for fid in (N + "::from_str", NI + "::from"):
                r = T.ev(fid, {}, nm[1])
                k = node_of(r)
                if k is not None and k != v:
                    rep.violate("from:%s:%s" % (fid.split("::")[-2], v), "%s makes %s of the name of %s" % (fid, k, v), T.loc(fid))
        if lb is not None and lb[0] == "str" and lb[1] != v:
            rep.violate("label:" + v, "the label of %s is %s" % (v, lb[1]), T.loc(N + "::label"))
        r = T.ev(NI + "::from_node_id", {1: T.nid(v)})
        k = node_of(r)
        if k is not None and k != v:
            rep.violate("info:" + v, "from_node_id describes %s when asked for %s" % (k, v), T.loc(NI + "::from_node_id"))
        elif r is not None and r[0] == "sym" and r[1][0] == "call" and stop(r[1][1]):
            if r[1][2] and r[1][2][0][0] == "agg" and r[1][2][0] != T.nid(v):
                rep.violate("info-id:" + v, "from_node_id does not pass the id of %s on" % v, T.loc(NI + "::from_node_id"))
        # instances
        r = T.ev(N + "::to_instance", {1: ("refv", T.nid(v)), 2: ("k", 5)})
        if r is not None and r[0] == "agg" and r != T.nid(v, ("k", 5)):
            rep.violate("to_instance:" + v, "to_instance(5) of %s is %s" % (v, r[2:]), T.loc(N + "::to_instance"))
        if T.has[v]:
            r = T.ev(N + "::instance", {1: ("refv", T.nid(v, ("k", 7)))})
            if r is not None and r[0] == "k" and r != ("k", 7):
                rep.violate("instance:" + v, "instance() of %s(7) is %s" % (v, r[1]), T.loc(N + "::instance"))
        # kinds are compared without the instance
        for w in T.vars:
            if w == v or T.vars.index(w) % 7 == T.vars.index(v) % 7:
                for a, c in ((1, 2), (2, 1), (1, 1)):
                    r = T.ev(N + "::eq_variant", {1: ("refv", T.nid(v, ("k", a))), 2: ("refv", T.nid(w, ("k", c)))})
                    if r is not None and r[0] == "k" and bool(r[1]) != (v == w):
                        rep.violate("eq_variant:" + v, "eq_variant says %s for %s(%d) and %s(%d)" % (bool(r[1]), v, a, w, c), T.loc(N + "::eq_variant"))
    r = T.ev(N + "::from_str", {}, "\0no such name")
    if r is not None and r[0] == "agg" and r[2] != "Nop":
        rep.violate("from:unknown", "from_str makes %s of an unknown name" % r[2], T.loc(N + "::from_str"))


def node_of(r):
    """node kind a NodeId or NodeInfo value belongs to"""
    if r is None:
        return None
    r = unref(r)
    if r[0] == "agg" and r[1] == ("adt", N):
        return r[2]
    if r[0] == "agg" and r[1] == ("adt", NI):
        for x in r[3]:
            if x[0] == "agg" and x[1] == ("adt", N):
                return x[2]
    if r[0] == "sym" and r[1][0] == "call" and r[1][1].startswith("dsp::ni::"):
        return r[1][1].split("::")[2]
    return None


def reach(body):
    seen, todo = set(), [0]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo.extend(body.succ(i))
    return seen


def indices(body, skip=()):
    """constant indices an accessor uses"""
    V = Val(body)
    out = set()
    for i in reach(body):
        t = body.blocks[i]["t"]
        if t["k"] == "assert" and t["m"] and t["m"][0] == "bounds":
            out.add(V.op(t["m"][2]))
        elif t["k"] == "call" and last(callname(t)) in ("index", "index_mut", "get", "get_mut", "get_unchecked", "get_unchecked_mut") and len(t["a"]) > 1:
            out.add(V.op(t["a"][1]))
    return out


def fold(e):
    if isinstance(e, tuple) and len(e) == 4 and e[0] == "bin":
        a, b = fold(e[2]), fold(e[3])
        if a[0] == b[0] == "k":
            r = {"BitAnd": a[1] & b[1], "BitOr": a[1] | b[1], "Add": a[1] + b[1], "Sub": a[1] - b[1], "Mul": a[1] * b[1]}
            if e[1] == "Rem" and b[1]:
                r["Rem"] = a[1] % b[1]
            if e[1] in r:
                return ("k", r[e[1]])
    return e


def accessors(T, v, tab):
    F, rep = T.F, T.rep
    ins, ats, outs = tab
    jobs = []
    for i, n in ins:
        jobs += [("inp", n, i), ("inp_buf", n, i), ("is_in_con", n, i)]
    for i, (_, n) in enumerate(ats):
        jobs += [("at", n, i)]
    for i, n in outs:
        jobs += [("out_dir", n, i), ("out", n, i), ("out_buf", n, i), ("out_idx", n, i), ("is_out_con", n, i)]
    for mod, n, i in jobs:
        fid = "dsp::%s::%s::%s" % (mod, v, n)
        if fid not in F.fns:
            continue
        rep.count("accessors")
        body = flat(F, fid)
        if mod == "out_idx":
            r = T.ev(fid, {})
            if r is not None and r[0] == "k" and r[1] != i:
                rep.violate("acc:%s:%s:%s" % (mod, v, n), "%s of the output %s of %s is %d, but its index is %d" % (mod, n, v, r[1], i), T.loc(fid))
        elif mod.startswith("is_"):
            r = T.ev(fid, {})
            if r is None or r[0] != "sym":
                continue
            fl = [x[2] for x in walk(r[1]) if x and x[0] == "fld" and x[1] == ("a1",)]
            want = "in_connected" if mod == "is_in_con" else "out_connected"
            if fl and fl != [want] and set(fl) <= {"in_connected", "out_connected"}:
                rep.violate("acc:%s:%s:%s" % (mod, v, n), "%s of %s of %s looks at %s" % (mod, n, v, fl[0]), T.loc(fid))
            ks = {x[3][1] for x in walk(r[1]) if x and x[0] == "bin" and x[1] == "BitAnd" and x[3][0] == "k"} | {x[2][1] for x in walk(r[1]) if x and x[0] == "bin" and x[1] == "BitAnd" and x[2][0] == "k"}
            if len(ks) == 1 and ks not in ({1 << i}, {1}):
                rep.violate("acc:%s:%s:%s" % (mod, v, n), "%s of %s of %s looks at bit mask %s instead of bit %d" % (mod, n, v, sorted(ks), i), T.loc(fid))
        else:
            ix = indices(body)
            if len(ix) == 1:
                k = fold(next(iter(ix)))
                if k[0] == "k" and k[1] != i:
                    rep.violate("acc:%s:%s:%s" % (mod, v, n), "%s of %s of %s uses index %d, but the index is %d" % (mod, n, v, k[1], i), T.loc(fid))


def walk(e):
    if isinstance(e, tuple):
        yield e
        for x in e:
            yield from walk(x)


# --- descriptions ----------------------------------------------------------

FOLLOW = ("into_vec", "to_vec", "into", "from", "box_assume_init_into_vec_unsafe", "write_box_via_move", "to_owned", "new", "clone", "assume_init", "into_boxed_slice")


def info(T, v, tab):
    """NodeInfo lists the same names in the same order"""
    F, rep = T.F, T.rep
    ins, ats, outs = tab
    fid = "dsp::ni::" + v
    if fid not in F.fns:
        return
    body = flat(F, fid, stop=stop)
    fields = [f[0] for f in F.adts[NI]["variants"][0]["fields"]]
    agg = None
    for b in body.blocks:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == NI:
                agg = s[2][2]
    if agg is None:
        return
    by = dict(zip(fields, agg))
    defs = {}
    stores = []
    for i, b in enumerate(body.blocks):
        for s in b["s"]:
            if s[0] == "=":
                if not s[1][1]:
                    defs.setdefault(s[1][0], []).append(("s", s[2]))
                if s[2][0] == "agg" and s[2][1][0] == "array":
                    stores.append((s[1][0], s[2][2]))
        t = b["t"]
        if t["k"] == "call" and not t["d"][1]:
            defs.setdefault(t["d"][0], []).append(("c", t))

    def origin(l, seen=()):
        if l in seen:
            return l
        ds = [d for d in defs.get(l, ())]
        if len(ds) != 1:
            return l
        k, d = ds[0]
        src = None
        if k == "s":
            if d[0] in ("use", "cast") and d[1][0] in ("c", "m"):
                src = d[1][1][0]
            elif d[0] in ("ref", "rawptr"):
                src = d[1][0]
        elif last(callname(d)) in FOLLOW and d["a"] and d["a"][0][0] in ("c", "m"):
            src = d["a"][0][1][0]
        return origin(src, seen + (l,)) if src is not None else l

    def text(op):
        for _ in range(8):
            if op[0] == "k":
                return op[1].get("str"), op[1].get("item")
            ds = defs.get(op[1][0], ())
            if len(ds) != 1 or ds[0][0] != "s":
                return None, None
            d = ds[0][1]
            if d[0] in ("use", "cast"):
                op = d[1]
            elif d[0] == "ref":
                op = ["c", [d[1][0], []]]
            else:
                return None, None
        return None, None

    def items(field):
        op = by.get(field)
        if op is None or op[0] == "k":
            return None
        o = origin(op[1][0])
        got = [ops for l, ops in stores if origin(l) == o]
        if len(got) > 1:
            return None
        out = [text(x) for x in got[0]] if got else []
        if not got:
            ds = defs.get(o, ())
            if not (len(ds) == 1 and ds[0][0] == "c" and last(callname(ds[0][1])) in ("new", "with_capacity")):
                return None
        for i in sorted(reach(body), key=lambda j: order.get(j, 0)):
            t = body.blocks[i]["t"]
            if t["k"] == "call" and last(callname(t)) == "push" and t["a"][0][0] in ("c", "m") and origin(t["a"][0][1][0]) == o:
                out.append(text(t["a"][1]))
        return out

    order = {}
    todo, k = [0], 0
    while todo:
        i = todo.pop()
        if i in order:
            continue
        order[i] = k
        k += 1
        todo.extend(reversed(body.succ(i)))
    allp = [n for _, n in sorted(ins + ats)]
    for field, want in (("inputs", [n for _, n in ins]), ("atoms", [n for _, n in ats]), ("outputs", [n for _, n in outs])):
        got = items(field)
        if got is None or any(x is None for x, _ in got):
            continue
        rep.count("described ports", len(got))
        if [x for x, _ in got] != want:
            rep.violate("info:%s:%s" % (field, v), "NodeInfo lists the %s of %s as %s, but their indices say %s" % (field, v, [x for x, _ in got], want), T.loc(fid))
    for field, want in (("input_help", allp), ("output_help", [n for _, n in outs])):
        got = items(field)
        if got is None:
            continue
        nm = [it.split("::")[-1] if it else None for _, it in got]
        if any(x is None for x in nm):
            continue
        rep.count("help texts", len(got))
        if nm != want:
            rep.violate("info:%s:%s" % (field, v), "the help texts of %s belong to %s, but the ports are %s" % (v, nm, want), T.loc(fid))
    c = run(F, body, {1: T.nid(v)})
    r = vals(c) if c else None
    if c and not c.coarse and c.rets:
        for x, _ in c.retvals():
            if x[0] != "agg":
                continue
            d = dict(zip(fields, x[3]))
            if d.get("node_id", TOP)[0] == "agg" and d["node_id"] != T.nid(v):
                rep.violate("info:id:" + v, "the NodeInfo of %s has another node id" % v, T.loc(fid))
            if d.get("node_name", TOP)[0] == "str" and d["node_name"][1] != v:
                rep.violate("info:name:" + v, "the NodeInfo of %s has the name %s" % (v, d["node_name"][1]), T.loc(fid))
            for f, mod in (("norm_v", "norm_v"), ("denorm_v", "denorm_v")):
                cl = [y[1] for y in walk(d.get(f, TOP)) if len(y) == 2 and y[0] == "closure"]
                if len(cl) != 1 or cl[0] not in F.fns:
                    continue
                cb = flat(F, cl[0], stop=stop)
                for i, n in ins:
                    cc = run(F, cb, {2: ("k", i)})
                    if cc is None or cc.coarse or not cc.rets:
                        continue
                    for y, _ in cc.retvals():
                        for p in called(y):
                            if p.startswith("dsp::") and p.split("::")[1] in STOP:
                                rep.count("conversions dispatched")
                                if p != "dsp::%s::%s::%s" % (mod, v, n):
                                    rep.violate("info:%s:%s:%s" % (f, v, n), "NodeInfo's %s of the input %s of %s uses %s" % (f, n, v, p), T.loc(fid))


def ingredients(F, fid):
    """callees and numbers of a conversion formula"""
    if fid not in F.fns:
        return None
    body = flat(F, fid, stop=lambda p: last(p) == "read")
    calls, ks = [], []
    for i in reach(body):
        b = body.blocks[i]
        t = b["t"]
        if t["k"] == "call" and last(callname(t)) not in ("read", "read_unchecked", "deref", "index"):
            calls.append(callname(t))
        for s in b["s"]:
            if s[0] != "=":
                continue
            for op in ops_of(s[2]):
                if op[0] == "k" and op[1].get("ty") in ("f32", "f64"):
                    ks.append(str(op[1].get("f", op[1].get("v"))))
        if t["k"] == "call":
            for op in t["a"]:
                if op[0] == "k" and op[1].get("ty") in ("f32", "f64"):
                    ks.append(str(op[1].get("f", op[1].get("v"))))
    return sorted(calls), sorted(ks)


def parents(e, x):
    """heads of the expressions directly around x"""
    if isinstance(e, tuple):
        for y in e:
            if y == x:
                yield e[:2]
            else:
                yield from parents(y, x)


def ops_of(r):
    if r[0] in ("use", "cast"):
        return [r[1]]
    if r[0] == "bin":
        return [r[2], r[3]]
    if r[0] == "un":
        return [r[2]]
    if r[0] == "agg":
        return r[2]
    return []


def conversions(T, v, tab):
    F, rep = T.F, T.rep
    for i, n in tab[0]:
        base = ingredients(F, "dsp::denorm_v::%s::%s" % (v, n))
        for mod in ("denorm", "denorm_offs"):
            o = ingredients(F, "dsp::%s::%s::%s" % (mod, v, n))
            if base is None or o is None:
                continue
            rep.count("formulas compared")
            if base != o:
                rep.violate("formula:%s:%s:%s" % (mod, v, n), "the node reads the parameter %s of %s with another conversion than it is shown with" % (n, v), T.loc("dsp::%s::%s::%s" % (mod, v, n)))
        fid = "dsp::denorm_offs::%s::%s" % (v, n)
        if fid in F.fns:
            c = run(F, flat(F, fid, stop=lambda p: last(p) == "read"), {})
            for r, _ in (c.retvals() if c and not c.coarse and c.rets else []):
                if any(e != ("bin", "Add") for e in parents(r, ("a2",))):
                    rep.violate("offs:%s:%s" % (v, n), "the offset of %s of %s is not added to the input before the conversion" % (n, v), T.loc(fid))
                elif any(x[0] == "bin" and x[1] == "Add" and ("a2",) in x[2:] and not any(y[0] == "call" and last(y[1]) == "read" for y in x[2:] if y) for x in walk(r) if x and len(x) == 4):
                    rep.violate("offs:%s:%s" % (v, n), "the offset of %s of %s is not added to the input before the conversion" % (n, v), T.loc(fid))
        nv = ingredients(F, "dsp::norm_v::%s::%s" % (v, n))
        nd = ingredients(F, "dsp::norm_def::%s::%s" % (v, n))
        if nv and nd:
            rep.count("formulas compared")
            if nv[0] != nd[0]:
                rep.violate("formula:norm_def:%s:%s" % (v, n), "the default of %s of %s is normalised with another formula than its values" % (n, v), T.loc("dsp::norm_def::%s::%s" % (v, n)))
        # rounding stays inside the range
        fid = "dsp::round::%s::%s" % (v, n)
        if fid in F.fns:
            body = flat(F, fid)
            V = Val(body)
            pm = opt(T.ev(PI + "::param_min_max", {1: ("refv", T.pid(v, i))}))
            if not (pm and pm[0] == "Some" and pm[1][0] == "agg" and pm[1][3][0][0] == "agg"):
                continue
            want = tuple(num(x) for x in pm[1][3][0][3])
            # only a clamp whose result is what is returned
            lim = []
            for j, t in body.calls():
                if last(callname(t)) == "clamp" and len(t["a"]) == 3 and not t["d"][1]:
                    d, ok = t["d"][0], set()
                    for _ in range(6):
                        ok.add(d)
                        nxt = [s2[1][0] for j2 in reach(body) for s2 in body.blocks[j2]["s"] if s2[0] == "=" and not s2[1][1] and s2[2][0] == "use" and s2[2][1][0] in ("c", "m") and s2[2][1][1][0] == d and not s2[2][1][1][1]]
                        if len(nxt) != 1:
                            break
                        d = nxt[0]
                    if d == 0 or 0 in ok:
                        lim.append(tuple(num(V.op(x)) for x in t["a"][1:]))
            if lim and not any(None in x for x in lim + [want]):
                rep.count("ranges compared")
                if want not in lim:
                    rep.violate("round:%s:%s" % (v, n), "rounding of %s of %s limits to %s..%s, but the range is %s..%s" % ((n, v) + lim[-1] + want), T.loc(fid))


def num(e):
    try:
        if e[0] in ("k", "kf"):
            return float(e[1])
        if e[0] == "un" and e[1] == "Neg":
            return -num(e[2])
    except (TypeError, ValueError):
        pass
    return None


def queries(T):
    """the accessors of NodeInfo use the right list and index"""
    F, rep = T.F, T.rep
    want = {"in_name": {"inputs", "atoms"}, "at_name": {"atoms"}, "out_name": {"outputs"}, "in_help": {"input_help"}, "out_help": {"output_help"},
            "in_count": {"inputs"}, "at_count": {"atoms"}, "out_count": {"outputs"}, "to_id": {"node_id"}, "name": {"node_name"}, "desc": {"node_desc"}, "help": {"node_help"},
            "norm": {"norm_v"}, "denorm": {"denorm_v"}}
    fields = {f[0] for f in F.adts[NI]["variants"][0]["fields"]}
    for fn, ok in want.items():
        b = T.body(NI + "::" + fn)
        if b is None:
            continue
        c = run(F, b, {})
        if c is None or c.coarse or not c.rets:
            continue
        rep.count("queries of the description")
        used = set()
        for r, _ in c.retvals():
            for x in walk(r):
                if len(x) == 3 and x[0] == "fld" and x[1] == ("a1",) and x[2] in fields:
                    used.add(x[2])
                if len(x) == 3 and x[0] == "call" and last(x[1]) == "get" and len(x[2]) == 2:
                    l, i = x[2]
                    off = [y for y in walk(i) if len(y) == 3 and y[0] == "fld"]
                    if l == ("fld", ("a1",), "atoms") and fn == "in_name" and i == ("a2",):
                        rep.violate("in_name:atom", "in_name looks a setting up with its index among the inputs and settings, but the list of settings starts at 0", T.loc(NI + "::" + fn))
                    elif fn != "in_name" and i != ("a2",) and isinstance(i, tuple) and i and i[0] in ("bin", "k", "lin"):
                        rep.violate("query:index:" + fn, "%s does not look up the index it was given" % fn, T.loc(NI + "::" + fn))
        if used and not used <= ok:
            rep.violate("query:" + fn, "%s answers with %s" % (fn, sorted(used - ok)), T.loc(NI + "::" + fn))


def lists(T):
    """the list of all node ids, and of those of a category"""
    F, rep = T.F, T.rep
    cats = {}
    for v in T.vars:
        r = T.ev(N + "::ui_category", {1: ("refv", T.nid(v))})
        if r is not None and r[0] == "agg":
            cats[v] = r[2]
    fid = "dsp::UICategory::get_node_ids"
    b = T.body(fid)
    if b is None or "dsp::UICategory" not in F.adts:
        return
    for cat in [x["name"] for x in F.adts["dsp::UICategory"]["variants"]]:
        got = None
        c = run(F, b, {1: ("refv", enum(F, "dsp::UICategory", cat)), 2: ("k", 0)}, decide=lambda e: dec_cat(e, cat))
        if c is None or c.coarse:
            continue
        got = set()
        ok = True
        for i, l in c.calls.items():
            t = b.blocks[i]["t"]
            if t["k"] != "call" or "call_mut" != last(callname(t)):
                continue
            for a, _ in l:
                k = None
                for x in a:
                    for y in walk(x):
                        if len(y) == 4 and y[0] == "agg" and y[1] == ("adt", N):
                            k = y[2]
                if k is None:
                    ok = False
                else:
                    got.add(k)
        if not ok or not got and cat != "None":
            continue
        rep.count("categories listed")
        want = {v for v, x in cats.items() if x == cat and v != "Nop"}
        if got - {"Nop"} != want:
            rep.violate("category:" + cat, "get_node_ids of %s: %s" % (cat, ", ".join(sorted("missing " + x for x in want - got) + sorted("extra " + x for x in got - want - {"Nop"}))), T.loc(fid))


def dec_cat(e, cat):
    """comparison of a category constant with the one asked for"""
    if e and e[0] == "bin" and e[1] in ("Eq", "Ne"):
        ks = [y[1:3] for y in map(unref, e[2:4]) if isinstance(y, tuple) and len(y) == 4 and y[0] == "agg" and y[1][0] == "adt" and not y[3]]
        if len(ks) == 2:
            return int((ks[0] == ks[1]) == (e[1] == "Eq"))
    return None


def factory(T):
    """the factory makes the node of the kind and its description"""
    F, rep = T.F, T.rep
    fid = "dsp::node_factory"
    if fid not in F.fns:
        rep.violate("anchor:" + fid, "node_factory is gone")
        return
    b = flat(F, fid, stop=lambda p: p.startswith("dsp::") and (last(p) == "new" or p.startswith("dsp::NodeInfo::") or stop(p)))
    for v in T.vars:
        c = run(F, b, {1: T.nid(v)})
        if c is None or c.coarse:
            continue
        made, desc = set(), set()
        for i, l in c.calls.items():
            t = b.blocks[i]["t"]
            if t["k"] != "call":
                continue
            p = callname(t)
            full = str(t["f"].get("resolved") or p) + " " + str(t["f"].get("args"))
            if last(p) == "new" and "dsp::node_" in full:
                for m in T.vars:
                    if "::%s " % m in full or "::%s as" % m in full or "::%s'" % m in full or "::%s::" % m in full or "::%s>" % m in full:
                        made.add(m)
            if p.startswith("dsp::NodeInfo::from_node_id"):
                for a, _ in l:
                    if a and a[0][0] == "agg" and a[0][1] == ("adt", N):
                        desc.add(a[0][2] if a[0] == T.nid(v) else "another instance")
            elif p.startswith("dsp::ni::"):
                desc.add(p.split("::")[2])
        if made:
            rep.count("nodes made")
            if made != {v}:
                rep.violate("factory:" + v, "node_factory makes a %s for %s" % ("/".join(sorted(made)), v), T.loc(fid))
        if desc and desc != {v}:
            rep.violate("factory-info:" + v, "node_factory describes a %s for %s" % ("/".join(sorted(desc)), v), T.loc(fid))
        if v != "Nop" and not made and c.rets:
            r = {opt(x) for x, _ in c.retvals()}
            if r == {("None",)}:
                rep.violate("factory-none:" + v, "node_factory does not know %s" % v, T.loc(fid))
