from hx import mir, val, interval, bounds
from hx.val import Val, norm, strip_gen, self_path, fmt, walk, deep_walk

EXE = "nodes::node_exec::NodeExecutor::"
CONF = "nodes::node_conf::NodeConfigurator::"


def last(p):
    return strip_gen(p).split("::")[-1]


def callname(t):
    if t["k"] != "call" or "f" not in t:
        return ""
    return strip_gen(t["f"].get("resolved") or t["f"]["path"])


def trait_call(t):
    return strip_gen(t["f"]["path"]) if t["k"] == "call" and "f" in t else ""


def flat(F, fid, stop=None, depth=8, follow=None, max_blocks=60000):
    key = ("flat", fid, depth, stop.__code__.co_code if stop else None, getattr(stop, "__defaults__", None))
    inl = mir.Inliner(F, stop=stop or (lambda p: False), depth=depth, follow=follow, max_blocks=max_blocks)
    return inl.run(fid)


def flat_or_miss(F, rep, fid, **kw):
    if fid not in F.fns:
        rep.violate("anchor:" + fid, "the function %s is gone: the property's anchor cannot be found" % fid)
        return None
    return flat(F, fid, **kw)


def contains(e, pred):
    return any(pred(x) for x in walk(e))


def has_call(e, name):
    return contains(e, lambda x: x and x[0] == "call" and strip_gen(x[1]).endswith(name))


def expand(V, e, dep=0):
    """set of alternative expressions of a multiply assigned local"""
    if e[0] == "var" and dep < 4:
        ds = V.var_defs(e[1])
        if ds:
            out = []
            for _, x in ds:
                if x != e:
                    out += expand(V, x, dep + 1)
            return out
    return [e]


def must_pass(body, start, targets, ends=None, avoid_edges=()):
    """every path from block `start` to an end (default: returns) runs through a
    target block; -> None if so, else a witness end block"""
    ends = set(body.returns() if ends is None else ends)
    targets = set(targets)
    if start in targets:
        return None
    r = body.reachable(start, avoid=targets, avoid_edges=avoid_edges)
    bad = sorted(r & ends)
    return bad[0] if bad else None


def variant_entry(body, V, ty, idx):
    """blocks entered when the discriminant of a value of enum type `ty` equals idx"""
    out = []
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"] or t["k"] != "switch":
            continue
        e = V.op(t["d"])
        if e[0] == "discr" and enum_is(e[2], ty):
            for v, s in t["v"]:
                if v == idx:
                    out.append((i, s))
            if idx not in [v for v, _ in t["v"]]:
                # an `otherwise` edge that can only mean this variant
                if body.blocks[t["o"]]["t"]["k"] != "unreachable" and n_variants(body.facts, ty) == len(t["v"]) + 1:
                    out.append((i, t["o"]))
    return out


def enum_is(ty, want):
    ty = ty.replace("&mut ", "").replace("&", "")
    return strip_gen(ty) == want


def n_variants(F, ty):
    return len(F.adts[ty]["variants"]) if ty in F.adts else -1


def variant_index(F, adt, name):
    info = F.adts.get(adt)
    if not info:
        return None
    for i, v in enumerate(info["variants"]):
        if v["name"] == name:
            return info["discr"][i] if info.get("discr") else i
    return None


def field_writes(body, V):
    """yield (bb, stmt index, path, value expr|None) of assignments to places
    rooted in arguments"""
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for j, s in enumerate(b["s"]):
            if s[0] == "=" and s[1][1]:
                p = self_path(V.place(s[1]))
                if p:
                    yield i, j, p, s[2]
        t = b["t"]
        if t["k"] == "call" and t["d"][1]:
            p = self_path(V.place(t["d"]))
            if p:
                yield i, -1, p, None


def callers(F):
    c = getattr(F, "_callers", None)
    if c is None:
        c = {}
        for fid in F.fns:
            for i, t in F.body(fid).calls():
                p = F.callee(t)
                if p:
                    c.setdefault(p, []).append((fid, i))
        F._callers = c
    return c


def deviations(body, site):
    """edges (b, s) on which an execution that could still reach `site` in this
    round (of the innermost loop around it, then of the loop around that, then
    of the function) gives up doing so without diverging: what `site` is control
    dependent on, disjunctions and early exits included"""
    out = []
    loops = body.loops()
    sc, pr = body.cfg()
    rets = set(body.returns())
    # blocks from which a return can be reached
    fin = set(rets)
    st = list(rets)
    while st:
        for p in pr[st.pop()]:
            if p not in fin:
                fin.add(p)
                st.append(p)
    live = body.reachable(0)
    cur = site
    done = set()
    while True:
        cand = [(len(bl), h) for h, bl in loops.items() if cur in bl and h not in done and h != cur]
        if cand:
            _, h = min(cand)
            region = set(loops[h])
            start = h
        else:
            region = live
            start = 0
            h = None
        first = body.reachable(start, avoid=[cur]) if start != cur else set()
        R = {cur}
        st = [cur]
        while st:
            x = st.pop()
            if x == start:
                continue
            for p in pr[x]:
                if p in region and p not in R and p in live and p in first:
                    R.add(p)
                    st.append(p)
        for b in R:
            if b == cur:
                continue
            for s in sc[b]:
                if (s not in R or (s == start and h is not None)) and s in fin:
                    out.append((b, s))
        if h is None:
            return out
        done.add(h)
        cur = h


def dev_conds(body, V, site, asserts=False):
    """[(condition expression, values)] of the deviations of a site"""
    out = []
    for b, s in deviations(body, site):
        t = body.blocks[b]["t"]
        if t["k"] == "switch":
            vs = tuple(v for v, x in t["v"] if x == s)
            out.append((V.op(t["d"]), vs if vs else ("not", tuple(v for v, x in t["v"])), b))
    return out


def with_heads(body, sites):
    """the sites and the heads of the loops around them (a loop over all
    elements counts as done when its head was passed)"""
    out = set(sites)
    for h, bl in body.loops().items():
        if any(i in bl for i in sites):
            out.add(h)
    return out


def conds_x(V, bb, dep=0):
    """V.conds plus what a boolean local that was tested stands for: `a && b`
    (also when computed by a helper) gives both"""
    out = list(V.conds(bb))
    work = [(c, v, 0) for c, v in out]
    while work:
        c, v, d = work.pop()
        neg = False
        while c[0] == "un" and c[1] == "Not":
            c, neg = c[2], not neg
        if c[0] != "var" or d > 4:
            continue
        truth = True if v in ((1,), ("not", (0,))) else False if v in ((0,), ("not", (1,))) else None
        if truth is None:
            continue
        truth = truth != neg
        ds = V.var_defs(c[1])
        if not ds:
            continue
        ds = [(b, x) for b, x in ds if not (x[0] == "k" and bool(x[1]) != truth)]
        if len(ds) != 1:
            continue
        b, x = ds[0]
        new = list(V.conds(b))
        if x[0] != "k":
            new.append((x, (1,) if truth else (0,)))
        for y in new:
            if y not in out:
                out.append(y)
                work.append((y[0], y[1], d + 1))
    return out


def lin(V, e, dep=0):
    """linear combination {atom: factor, 1: constant} of an expression, atoms normalised"""
    e = strip(e)
    if e[0] == "k" and isinstance(e[1], int):
        return {1: e[1]}
    if e[0] == "ovf":
        e = ("bin",) + e[1:]
    if e[0] == "bin" and dep < 30:
        if e[1] in ("Add", "Sub", "AddUnchecked", "SubUnchecked", "AddWithOverflow", "SubWithOverflow"):
            a, b = lin(V, e[2], dep + 1), lin(V, e[3], dep + 1)
            s = -1 if e[1].startswith("Sub") else 1
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + s * v
            return {k: v for k, v in r.items() if v or k == 1}
        if e[1] in ("Mul", "Shl", "MulUnchecked", "Div"):
            a, b = lin(V, e[2], dep + 1), lin(V, e[3], dep + 1)
            if e[1] == "Div":
                if set(a) <= {1} and set(b) <= {1} and b.get(1):
                    return {1: a.get(1, 0) // b[1]}
            elif e[1] == "Shl":
                if set(b) <= {1}:
                    return {k: v << b.get(1, 0) for k, v in a.items()}
            else:
                if set(a) <= {1}:
                    a, b = b, a
                if set(b) <= {1}:
                    return {k: v * b.get(1, 0) for k, v in a.items()}
    return {norm(e): 1}


def unnot(e):
    neg = False
    while e[0] == "un" and e[1] == "Not":
        e, neg = e[2], not neg
    return e, neg


def strip(e):
    while e[0] in ("ref", "deref", "cast"):
        e = e[2] if e[0] == "cast" else e[1]
    return e
