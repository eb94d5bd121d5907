"""P01 (no allocation / deallocation on the audio thread) and
P02 (no lock, no blocking call, no I/O on the audio thread).

Rule: in the monomorphised call graph from the audio-thread entry points
(through every dependency and through the drop glue of every value that is
dropped), every edge that leaves the crate is labelled with the effects
reachable behind it without re-entering the crate.  An alloc/free/block effect
is a violation unless one of the discharge rules proves this site harmless."""
import collections, sys
from hx import mir, val, interval
from hx.report import Report
from hx.val import Val, norm, strip_gen, self_path, fmt
from rules.common import expand

ALLOC = {"alloc::alloc::__rust_alloc", "alloc::alloc::__rust_alloc_zeroed", "alloc::alloc::__rust_realloc"}
FREE = {"alloc::alloc::__rust_dealloc"}
LOGINIT = "log::init_thread_logger"
ROOTS = ("nodes::node_exec::NodeExecutor::process", "nodes::node_exec::NodeExecutor::process_graph_updates",
         "nodes::node_exec::NodeExecutor::feed_midi_events_from")


def base_effect(r):
    p = r["path"]
    if p in ALLOC:
        return "alloc"
    if p in FREE:
        return "free"
    if r["kind"] in ("nomir", "foreign"):
        k = r["krate"]
        if k == "core":
            return None
        if any(x in p for x in ("panic", "unwrap_failed", "__rust_no_alloc", "_fail", "handle_error", "capacity_overflow", "begin_unwind", "abort")):
            return None
        if p.startswith("std::sys::cmath") or "BufGuard" in p or "clock_gettime" in p or "Timespec::now" in p or "Instant::now" in p or "Timespec::sub_timespec" in p:
            return None
        if "thread_local" in p or "errno" in p:
            return None
        if k == "alloc":
            return "alloc"
        if p in ("libc::malloc", "libc::calloc", "libc::realloc", "libc::posix_memalign"):
            return "alloc"
        if p == "libc::free":
            return "free"
        return "block:" + p
    return None


class Scan:
    def __init__(self, F):
        self.F = F
        self.I = F.insts
        self.memo = {}

    def is_local(self, r):
        return r["krate"] == "hexodsp" and r["kind"] == "item"

    def eff(self, n):
        if n in self.memo:
            return self.memo[n]
        seen = set()
        st = [n]
        out = {}
        par = {n: None}
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            r = self.I[x]
            if self.is_local(r):
                continue
            b = base_effect(r)
            if b and b not in out:
                path = []
                y = x
                while y is not None:
                    path.append(self.I[y]["path"])
                    y = par[y]
                out[b] = list(reversed(path))
            for e in r["e"]:
                if e[0] >= 0 and e[2] != "diverge" and e[0] not in seen:
                    par.setdefault(e[0], x)
                    st.append(e[0])
        self.memo[n] = out
        return out


def bodies(F):
    """the flattened entry points (nodes and the logger are not inlined)"""
    out = {}
    for r in ROOTS:
        inl = mir.Inliner(F, stop=lambda p: p.startswith("log::") or p == "dsp::Node::process" or p.endswith("as dsp::DspNode>::process"), depth=6)
        out[r] = inl.run(r)
    return out


# ---------------------------------------------------------------- capacities
def field_capacity(F, adt, field):
    """minimum capacity the Vec in adt.field is created with, over all places
    that construct the ADT or assign the field; None if not known"""
    best = None
    info = F.adts.get(adt)
    if not info:
        return None
    fields = [f[0] for f in info["variants"][0]["fields"]]
    if field not in fields:
        return None
    fi = fields.index(field)
    for fid, rec in F.fns.items():
        hit = False
        for b in rec["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == adt:
                    hit = True
        if not hit:
            continue
        body = mir.Inliner(F, depth=4, stop=lambda p: False).run(fid)
        V = Val(body)
        for i, b in enumerate(body.blocks):
            if b["cl"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == adt and len(s[2][2]) == len(fields):
                    op = s[2][2][fi]
                    c = vec_capacity(body, V, op, i)
                    if c is None:
                        return None
                    best = c if best is None else min(best, c)
    return best


def vec_capacity(body, V, op, at):
    e = V.op(op)
    if e[0] == "call":
        n = strip_gen(e[1])
        if n == "std::vec::Vec::with_capacity":
            return interval.interval(e[2][0], V=V)[0]
        if n in ("std::vec::Vec::new", "std::default::Default::default"):
            # grown afterwards? look for resize/resize_with/reserve on the same local
            return grown_capacity(body, V, op, 0)
        if n == "std::iter::Iterator::collect":
            return None
        return None
    if e[0] == "var":
        l = e[1]
        ds = V.var_defs(l)
        c = None
        # `let mut v = Vec::with_capacity(..)`: single def that is &mut borrowed is still "call"
        for d in body.defs().get(l, []):
            if d[2] == "call":
                n = strip_gen(d[3]["f"]["path"]) if "f" in d[3] else ""
                if n == "std::vec::Vec::with_capacity":
                    x = interval.interval(V.op(d[3]["a"][0]), V=V)[0]
                elif n == "std::vec::Vec::new":
                    x = 0
                else:
                    return None
                c = x if c is None else min(c, x)
            else:
                return None
        return c
    return None


def grown_capacity(body, V, op, base):
    tgt = norm(V.op(op))
    best = base
    for i, t in body.calls():
        if "f" not in t or not t["a"]:
            continue
        n = strip_gen(t["f"]["path"])
        if n in ("std::vec::Vec::resize_with", "std::vec::Vec::resize", "std::vec::Vec::reserve"):
            if norm(V.op(t["a"][0])) == tgt:
                x = interval.interval(V.op(t["a"][1]), V=V)[0]
                if x is not None:
                    best = max(best, x)
    return best


def field_max_len(F, adt, field):
    """largest length a Vec field can have, when it is only sized by its
    constructors (Vec::new + resize/resize_with) and never grown elsewhere"""
    info = F.adts.get(adt)
    if not info:
        return None
    fields = [f[0] for f in info["variants"][0]["fields"]]
    if field not in fields:
        return None
    fi = fields.index(field)
    best = 0
    for fid, rec in F.fns.items():
        # grown anywhere else?
        for b in rec["blocks"]:
            t = b["t"]
            if t["k"] == "call" and "f" in t and t["a"] and strip_gen(t["f"]["path"]) in GROW:
                p = self_path(Val(F.body(fid)).op(t["a"][0]))
                if p and p[-1] == field and len(p) > 1:
                    return None
        if not any(s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == adt for b in rec["blocks"] for s in b["s"]):
            continue
        body = F.body(fid)
        V = Val(body)
        for b in body.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == adt and len(s[2][2]) == len(fields):
                    e = norm(V.op(s[2][2][fi]))
                    n = 0
                    if not (e[0] == "call" and strip_gen(e[1]) in ("std::vec::Vec::new", "std::vec::Vec::with_capacity")):
                        return None
                    for i, t in body.calls():
                        if "f" in t and t["a"] and strip_gen(t["f"]["path"]) in GROW and norm(V.op(t["a"][0])) == e:
                            if strip_gen(t["f"]["path"]) in ("std::vec::Vec::resize_with", "std::vec::Vec::resize"):
                                hi = interval.interval(V.op(t["a"][1]), V=V)[1]
                                if hi is None:
                                    return None
                                n = max(n, hi)
                            else:
                                return None
                    best = max(best, n)
    return best


GROW = {"std::vec::Vec::" + x for x in ("push", "insert", "resize", "resize_with", "extend_from_slice", "append")} | {"std::iter::Extend::extend"}


# ------------------------------------------------------- vector length bounds
class LenFlow:
    """upper bound of the length of every Vec reachable from `self`, per block
    of a flattened entry point; bound at entry = capacity (induction)."""

    def __init__(self, F, body, caps):
        self.F = F
        self.b = body
        self.V = Val(body)
        self.caps = caps  # path -> capacity
        self.push_ok = {}
        self.run()

    def vec_of(self, op):
        return self_path(self.V.op(op))

    def vecs_of(self, op):
        """the vectors a (possibly selected at run time) reference may mean"""
        e = self.V.op(op)
        p = self_path(e)
        if p is not None and str(p[0]).startswith("arg"):
            return (p,)
        out = []
        x = e
        while x[0] in ("ref", "deref"):
            x = x[1]
        for y in expand(self.V, x):
            q = self_path(y)
            if q is None:
                return ()
            out.append(q)
        return tuple(dict.fromkeys(out))

    def loop_trip(self, h, body_blocks):
        """(upper bound of iterations) of a `for` loop over a known vec/range/array"""
        best = None
        for x in body_blocks:
            t = self.b.blocks[x]["t"]
            if t["k"] == "call" and "f" in t and t["f"]["path"] == "std::iter::Iterator::next":
                if not self.b.dominates(x, x) or not all(self.b.dominates(x, l) for l in self.latches(h, body_blocks)):
                    continue
                e = self.V.op(t["a"][0])
                n = self.iter_len(e)
                if n is not None:
                    best = n if best is None else min(best, n)
        ht = self.b.blocks[h]["t"]
        if ht["k"] == "nondet":
            ct = self.b.blocks[ht["ts"][0]]["t"]
            if "f" in ct and ct["a"] and ct["f"].get("trait") == "std::iter::Iterator":
                n = self.iter_len(self.V.op(ct["a"][0]))
                if n is not None:
                    best = n if best is None else min(best, n)
        return best

    def latches(self, h, bl):
        sc, pr = self.b.cfg()
        return [p for p in pr[h] if p in bl]

    def iter_len(self, e, dep=0):
        if dep > 12:
            return None
        if e[0] in ("ref", "deref"):
            return self.iter_len(e[1], dep + 1)
        if e[0] == "var":
            ds = [d for d in self.b.defs().get(e[1], []) if d[2] != "part"]
            if len(ds) != 1:
                return None
            d = ds[0]
            x = self.V.rv(d[3][2], 1) if d[2] == "assign" else self.V.call(d[0], d[3], 1)
            if x == e:
                return None
            return self.iter_len(x, dep + 1)
        if e[0] == "call":
            n = strip_gen(e[1]).split("::")[-1]
            if n in ("iter", "iter_mut", "drain", "into_iter"):
                p = self_path(e[2][0])
                if p in self.caps:
                    return self.caps[p]
                if p and p[0] == "arg1":
                    x = resolve_field_adt(self.F, "nodes::node_exec::NodeExecutor", p)
                    if x:
                        return field_max_len(self.F, x[0], x[1])
                return None
            if n in ("enumerate", "filter", "take_while", "rev", "copied", "cloned", "map", "skip", "peekable"):
                return self.iter_len(e[2][0], dep + 1)
            if n == "take":
                hi = interval.interval(e[2][1], V=self.V)[1]
                x = self.iter_len(e[2][0], dep + 1)
                return hi if x is None else (x if hi is None else min(x, hi))
            if n == "zip":
                a, b = self.iter_len(e[2][0], dep + 1), self.iter_len(e[2][1], dep + 1)
                return a if b is None else (b if a is None else min(a, b))
        if e[0] == "agg" and e[1][0] == "adt" and "Range" in e[1][1]:
            lo = interval.interval(e[2][0], V=self.V)[0]
            hi = interval.interval(e[2][1], V=self.V)[1]
            if lo is not None and hi is not None:
                return max(0, hi - lo)
        return None

    def run(self):
        b = self.b
        sc, pr = b.cfg()
        paths = list(self.caps)
        loops = b.loops()
        # loops with a known trip count; growth inside is accelerated
        trip = {}
        for h, bl in loops.items():
            n = self.loop_trip(h, bl)
            if n is not None:
                trip[h] = (n, bl)
        reach = b.reachable(0)
        INF = 10 ** 9
        st = {0: {p: self.caps[p] for p in paths}}
        work = [0]
        it = 0
        # for accelerated loops remember the bound on entry from outside
        entry = {}
        pushes = collections.defaultdict(list)
        for i, t in b.calls():
            if "f" in t and strip_gen(t["f"]["path"]) in ("std::vec::Vec::push", "std::vec::Vec::insert", "std::vec::Vec::push_within_capacity"):
                pushes[i] = self.vecs_of(t["a"][0])
        while work:
            it += 1
            if it > 400000:
                self.failed = True
                break
            x = work.pop()
            cur = dict(st[x])
            t = b.blocks[x]["t"]
            if t["k"] == "call" and "f" in t and t["a"]:
                n = strip_gen(t["f"]["path"]).split("::")[-1]
                full = strip_gen(t["f"]["path"])
                if full.startswith("std::vec::Vec::") or full.startswith("std::mem::"):
                    p = self.vec_of(t["a"][0])
                    ps = pushes[x] if x in pushes else ()
                    if len(ps) > 1:
                        for q in ps:
                            if q in cur:
                                cur[q] = max(cur[q], self.after_push(x, q, cur[q], trip, entry, loops, pushes))
                    elif p in cur:
                        if n == "clear":
                            cur[p] = 0
                        elif n == "pop" or n == "swap_remove" or n == "remove":
                            pass
                        elif n == "truncate":
                            hi = interval.interval(self.V.op(t["a"][1]), V=self.V)[1]
                            if hi is not None:
                                cur[p] = min(cur[p], hi)
                        elif n in ("push", "insert"):
                            v = self.after_push(x, p, cur[p], trip, entry, loops, pushes)
                            cur[p] = v
                        elif n in ("extend", "extend_from_slice", "append", "resize", "replace", "swap", "take"):
                            cur[p] = INF
            for y in sc[x]:
                c2 = cur
                if t["k"] == "switch":
                    c2 = self.refine(cur, x, y, t)
                    if c2 is None:
                        continue
                for h, (cnt, bl) in trip.items():
                    if y == h and x not in bl:
                        en = entry.setdefault(h, {})
                        for p in paths:
                            if c2[p] > en.get(p, -1):
                                en[p] = c2[p]
                old = st.get(y)
                if old is None:
                    st[y] = dict(c2)
                    work.append(y)
                else:
                    ch = False
                    for p in paths:
                        if c2[p] > old[p]:
                            # jump straight past the capacity once exceeded
                            old[p] = c2[p] if c2[p] <= self.caps[p] else INF
                            ch = True
                    if ch:
                        work.append(y)
        self.state = st
        for i, ps in pushes.items():
            if i in st:
                if not ps:
                    self.push_ok[i] = (False, None, None)
                for p in ps:
                    if p in st[i]:
                        v = self.after_push(i, p, st[i][p], trip, entry, loops, pushes)
                        r = (v <= self.caps[p], p, v)
                    else:
                        r = (False, p, None)
                    if i not in self.push_ok or not r[0]:
                        self.push_ok[i] = r

    def after_push(self, x, p, before, trip, entry, loops, pushes):
        """bound of the length after the push at block x"""
        v = before + 1
        for h, (cnt, bl) in trip.items():
            if x in bl and h in entry:
                sites = [q for q, pp in pushes.items() if p in pp and q in bl]
                # a push inside a nested loop may happen more than once per iteration
                nested = any(h2 != h and h2 in bl and q in bl2 for h2, bl2 in loops.items() for q in sites)
                if not nested:
                    v = min(v, entry[h].get(p, 10 ** 9) + cnt * len(sites))
        return v

    def refine(self, cur, x, y, t):
        e = self.V.op(t["d"])
        vals = [v for v, s in t["v"] if s == y]
        truth = None
        if y == t["o"] and not vals:
            # otherwise edge
            if [v for v, _ in t["v"]] == [0]:
                truth = True
            elif [v for v, _ in t["v"]] == [1]:
                truth = False
        elif y != t["o"] and vals == [0]:
            truth = False
        elif y != t["o"] and vals == [1]:
            truth = True
        neg = 0
        while e[0] == "un" and e[1] == "Not":
            e = e[2]
            neg ^= 1
        if truth is not None and neg:
            truth = not truth
        if truth is None:
            return cur
        c2 = cur
        if e[0] == "call" and strip_gen(e[1]).endswith("::is_empty"):
            p = self_path(e[2][0])
            if p in cur and truth:
                c2 = dict(cur)
                c2[p] = 0
            return c2
        if e[0] == "discr" and e[1][0] == "call" and strip_gen(e[1][1]) == "std::vec::Vec::pop" and not truth:
            # pop() returned None
            p = self_path(e[1][2][0])
            if p in cur:
                c2 = dict(cur)
                c2[p] = 0
            return c2
        if e[0] != "bin":
            return cur
        op, a, b2 = e[1], e[2], e[3]
        if a[0] == "len":
            L, o = a, b2
        elif b2[0] == "len":
            L, o = b2, a
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        else:
            return cur
        p = self_path(L[1])
        if p not in cur:
            return cur
        if not truth:
            op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}.get(op)
        if o[0] == "call" and strip_gen(o[1]).endswith("::capacity") and self_path(o[2][0]) == p:
            lo = hi = self.caps[p]
        else:
            lo, hi = interval.interval(o, V=self.V)
        c2 = dict(cur)
        if op == "Lt" and hi is not None:
            c2[p] = min(c2[p], hi - 1)
        elif op == "Le" and hi is not None:
            c2[p] = min(c2[p], hi)
        elif op == "Eq" and hi is not None:
            c2[p] = min(c2[p], hi)
        elif op == "Ne" and lo is not None and lo == hi and c2[p] == lo:
            c2[p] = lo - 1
        elif op == "Gt" and lo is not None and c2[p] <= lo:
            return None
        elif op == "Ge" and lo is not None and c2[p] < lo:
            return None
        if c2[p] < 0:
            return None
        return c2


def resolve_field_adt(F, root_adt, path):
    """walk ('arg1','a','b') from root_adt through field types; -> (adt, field)"""
    adt = root_adt
    for f in path[1:-1]:
        info = F.adts.get(adt)
        if not info:
            return None
        nxt = None
        for fd in info["variants"][0]["fields"]:
            if fd[0] == f:
                nxt = fd[1]
        if nxt is None:
            return None
        adt = nxt
    return adt, path[-1]


def capacity_checks(F, rep, bods):
    """LenFlow over every entry point; -> dict (fn, orig bb) -> ok"""
    ok = {}
    for r, body in bods.items():
        V = Val(body)
        paths = set()
        for i, t in body.calls():
            if "f" in t and t["a"] and strip_gen(t["f"]["path"]).startswith("std::vec::Vec::"):
                p = self_path(V.op(t["a"][0]))
                if p and p[0] == "arg1" and "[]" not in p:
                    paths.add(p)
        caps = {}
        for p in paths:
            x = resolve_field_adt(F, "nodes::node_exec::NodeExecutor", p)
            if not x:
                continue
            c = field_capacity(F, x[0], x[1])
            if c is not None:
                caps[p] = c
        lf = LenFlow(F, body, caps)
        for i, (good, p, ub) in lf.push_ok.items():
            b = body.blocks[i]
            k = (b["fn"], b["ob"])
            rep.sample("bounded pushes" if good else "unproven pushes",
                       "%s in %s: len after push <= %s, capacity %s" % (".".join(p[1:]) if p else "?", b["fn"], ub, caps.get(p)))
            cap = caps.get(p)
            if k in ok:
                ok[k] = (ok[k][0] and good, ok[k][1], ub, cap)
            else:
                ok[k] = (good, p, ub, cap)
    return ok


# ------------------------------------------------------------------ discharge
def arc_clone_agg(F, fid, bb):
    """drop of a local whose only droppable parts are Arc clones of values that
    outlive it (the clones' sources are borrowed arguments)"""
    body = F.body(fid)
    V = Val(body)
    t = body.blocks[bb]["t"]
    if t["k"] != "drop":
        return False
    e = V.place(t["p"])
    def borrowed(x):
        p = self_path(x)
        return p is not None and p[0].startswith("arg")
    if e[0] != "agg":
        # plain Arc clone of a borrowed value
        return e[0] in ("fld", "idx", "deref", "arg") and borrowed(e) and "std::sync::Arc<" in str(body.locals[t["p"][0]][0])
    # every operand: Copy scalars or values cloned from places rooted in args
    l = t["p"][0]
    src = None
    for d in body.defs().get(l, []):
        if d[2] == "assign" and d[3][2][0] == "agg":
            src = d[3][2]
    if src is None:
        return False
    for o in src[2]:
        if o[0] == "m" or o[0] == "c":
            ty = body.locals[o[1][0]][0]
            if ty in interval.TY or ty in ("f32", "f64", "usize") or ty.startswith("&"):
                continue
            if ty.startswith("std::sync::Arc<"):
                if not borrowed(V.op(o)):
                    return False
                # must come from a clone call, not from moving the borrowed thing
                continue
            if F.adts.get(ty):
                # plain local ADT without drop significance
                continue
            return False
    return True


def zero_bufwriter(F):
    """all BufWriters constructed by functions of the audio thread get capacity 0"""
    audio = {r["path"] for r in F.insts.values() if r["krate"] == "hexodsp" and r["kind"] == "item"}
    for fid, rec in F.fns.items():
        if fid not in audio:
            continue
        for b in rec["blocks"]:
            t = b["t"]
            if t["k"] == "call" and "f" in t and strip_gen(t["f"]["path"]).startswith("std::io::BufWriter::"):
                n = strip_gen(t["f"]["path"]).split("::")[-1]
                if n == "new":
                    return False
                if n == "with_capacity":
                    body = F.body(fid)
                    lo, hi = interval.interval(Val(body).op(t["a"][0]))
                    if hi != 0:
                        return False
    return True


def conserved_monitor(F):
    """monitor buffers are created once, into a vector of sufficient capacity"""
    makers = []
    for fid, rec in F.fns.items():
        for i, b in enumerate(rec["blocks"]):
            t = b["t"]
            if t["k"] == "call" and "f" in t:
                p = t["f"].get("resolved") or t["f"]["path"]
                if strip_gen(p) == "std::boxed::Box::new" and any("MonitorBuf" in str(a) for a in t["f"].get("args", [])):
                    makers.append((fid, i))
    return makers


def scan(F, want):
    rep = Report("P01" if want == "mem" else "P02", "other")
    sc = Scan(F)
    I = F.insts
    if len(F.roots) < 3 or F.generic_roots:
        rep.violate("roots", "audio-thread entry points not found: have %s" % sorted(F.roots))
        return rep, None
    if F.overflow:
        rep.violate("overflow", "call graph too large to enumerate")
    bods = bodies(F)
    # --- one-time logger initialisation guard
    logok = logger_guard(F, rep, want)
    okpush = capacity_checks(F, rep, bods) if want == "mem" else {}
    zbw = zero_bufwriter(F)
    seen = set()
    st = list(F.roots.values())
    par = {}
    sites = 0
    flagged = []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        r = I[x]
        if logok and r["path"] == LOGINIT:
            continue
        for e in r["e"]:
            if e[0] < 0:
                if e[2] not in ("diverge",):
                    rep.count("opaque edges")
                continue
            if e[2] == "diverge":
                continue
            t = I[e[0]]
            if sc.is_local(r) and not sc.is_local(t):
                ef = sc.eff(e[0])
                bad = {k: v for k, v in ef.items() if (k in ("alloc", "free")) == (want == "mem")}
                sites += 1
                if bad:
                    why = discharge(F, r, e, t, bad, okpush, zbw, want)
                    if why:
                        rep.sample("discharged", "%s:%s %s: %s" % (r["loc"].split(":")[0], e[3], t["path"], why))
                        rep.count("discharged sites")
                    else:
                        flagged.append((r, e, t, bad, x))
                        continue  # do not descend behind a reported site
            if e[0] not in par:
                par[e[0]] = x
            st.append(e[0])
    rep.count("instances reached from the audio entry points", len(seen))
    rep.count("crate functions reached", len({I[n]["path"] for n in seen if sc.is_local(I[n])}))
    rep.count("calls and drops that leave the crate", sites)
    rep.floor("crate functions reached", 250)
    for r, e, t, bad, x in flagged:
        chain = [I[x]["path"]]
        y = x
        while y in par:
            y = par[y]
            chain.append(I[y]["path"])
        what = t.get("dropty") or t["path"]
        kind = sorted(bad)[0]
        kk = kind.split(":")[0]
        if e[2] == "drop":
            key = "%s:drop %s" % (kk, what)
        else:
            key = "%s:%s in %s" % (kk, strip_gen(what), r["path"])
        rep.violate(key, "%s on the audio thread: %s %s; reached by %s; effect path %s" % (
            {"alloc": "heap allocation", "free": "heap deallocation", "block": "blocking/locking/I-O call"}[kk],
            "drop of" if e[2] == "drop" else "call of", what, " <- ".join(chain[:6]), " -> ".join(list(bad.values())[0][:8])),
            "%s:%s" % (r["loc"].split(":")[0], e[3]))
    return rep, bods


def discharge(F, r, e, t, bad, okpush, zbw, want):
    tp = strip_gen(t["path"])
    fid = r["path"]
    bb = e[1]
    if want == "mem":
        if tp == "std::vec::Vec::push":
            k = (fid, bb)
            if k in okpush:
                good, p, ub, cap = okpush[k]
                if good:
                    return "push on %s with length bound %s <= capacity %s" % (".".join(p[1:]), ub, cap)
            # conserved tokens
            if any("MonitorBuf" in a for a in t.get("args", [])) and monitor_conserved(F):
                return "monitor buffers are created once and only move; capacity covers all of them"
            return None
        if tp == "synfx_dsp::CtrlPitchQuantizer::update_keys":
            if fid in F.fns:
                body = F.body(fid)
                V = Val(body)
                tt = body.blocks[bb]["t"]
                cd = V.conds(bb)
                iv = [interval.interval(V.op(a), cd, V=V) for a in tt["a"][1:4]]
                if iv[0][1] is not None and iv[0][1] <= 0xFFF and all(x[1] is not None and x[1] <= 4 and x[0] is not None and x[0] >= 0 for x in iv[1:]):
                    return "key mask <= 0xFFF and octaves in 0..4 fit the 120 preallocated keys"
            return None
        if e[2] == "drop" and fid in F.fns and arc_clone_agg(F, fid, bb):
            return "only drops Arc clones of values borrowed for the whole call"
        if tp == "std::io::BufWriter::with_capacity" and zbw:
            return "capacity 0: Vec::with_capacity(0) does not allocate"
        if e[2] == "drop" and "std::io::BufWriter<&mut [u8]>" == (t.get("dropty") or "") and zbw:
            return "BufWriter with capacity 0 owns no heap memory"
    if t["krate"] == "synfx_dsp_jit" and tp == "synfx_dsp_jit::engine::CodeEngineBackend::process_updates":
        return "trusted dependency (JIT engine hand-over; moves old code back to the frontend)"
    return None


_mc = {}


def monitor_conserved(F):
    if "r" in _mc:
        return _mc["r"]
    # functions that create a MonitorBuf
    mk = set()
    for fid, rec in F.fns.items():
        for b in rec["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == "monitor::MonitorBuf":
                    mk.add(fid)
    audio = {r["path"] for r in F.insts.values() if r["krate"] == "hexodsp"}
    ok = bool(mk) and not (mk & audio)
    # capacity of the vector at construction >= number of buffers
    if ok:
        c = field_capacity(F, "monitor::MonitorBackend", "unused_monitor_buffers")
        n = None
        for fid, rec in F.fns.items():
            if any(s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == "monitor::MonitorBackend" for b in rec["blocks"] for s in b["s"]):
                body = mir.Inliner(F, depth=3).run(fid)
                V = Val(body)
                sites = [i for i in range(len(body.blocks)) if any(s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == "monitor::MonitorBuf" for s in body.blocks[i]["s"])]
                for i in sites:
                    lp = [(h, bl) for h, bl in body.loops().items() if i in bl]
                    if not lp:
                        k = 1
                    else:
                        lf = LenFlow.__new__(LenFlow)
                        lf.F, lf.b, lf.V, lf.caps = F, body, V, {}
                        ks = [lf.loop_trip(h, bl) for h, bl in lp]
                        k = None if any(q is None for q in ks) else 1
                        if k:
                            for q in ks:
                                k *= q
                    n = None if k is None else (n or 0) + k
        # `vec![..; n]`/resize_with style creation gives capacity >= n by construction
        if n is not None:
            ok = c is not None and c >= n
        _mc["detail"] = (c, n)
    _mc["r"] = ok
    return ok


def logger_guard(F, rep, want):
    """init_thread_logger may only be reached from the audio thread under a
    test of an executor flag that is set after success"""
    callers = [(fid, i, t) for fid, rec in F.fns.items() for i, t in F.body(fid).calls() if F.callee(t) == LOGINIT]
    audio = {r["path"] for r in F.insts.values() if r["krate"] == "hexodsp" and r["kind"] == "item"}
    good = True
    for fid, i, t in callers:
        if fid not in audio:
            continue
        body = mir.Inliner(F, stop=lambda p: p.startswith("log::") or p == "dsp::Node::process", depth=5)
        # evaluate in the flattened entry point so that a helper may hold the call
        found = False
        for r in ROOTS:
            b = body.run(r)
            V = Val(b)
            for j, tt in b.calls():
                if F.callee(tt) != LOGINIT:
                    continue
                found = True
                flags = set()
                for e, v in V.conds(j):
                    p = self_path(e)
                    if p and p[0] == "arg1" and v == (0,):
                        flags.add(p)
                # set to true afterwards
                after = b.reachable(j)
                sets = set()
                for x in after:
                    for s in b.blocks[x]["s"]:
                        if s[0] == "=" and s[2][0] == "use" and V.op(s[2][1])[:2] == ("k", 1):
                            p = self_path(V.place(s[1]))
                            if p:
                                sets.add(p)
                if not (flags & sets):
                    good = False
                    rep.violate("logger-init-guard", "the thread logger initialisation (locks, allocates) is not restricted to the first block by an executor flag", b.where(j))
        if not found:
            good = False
    # the logger init itself must not relock once the thread has a logger
    rep.count("logger initialisation call sites", len(callers))
    return good


def p01(F, tier):
    rep, bods = scan(F, "mem")
    rep.rule("no path in the monomorphised call/drop graph from NodeExecutor::process, process_graph_updates and feed_midi_events_from to the allocator, except sites proven not to allocate (length < capacity dataflow; capacity-0 writers; Arc clones of borrowed values; conserved monitor buffers; bounded key tables)")
    rep.assume("user supplied code on the audio thread (DynamicNode1x1, ExternalParams, NodeAudioContext) and the JIT engine hand-over (synfx-dsp-jit process_updates) are not part of HexoDSP and are trusted")
    rep.assume("the one-time initialisation of the thread's logger in the first block is exempt")
    if bods:
        rep.floor("discharged sites", 8)
    return rep


def p02(F, tier):
    rep, bods = scan(F, "block")
    rep.rule("no path in the monomorphised call/drop graph from the audio entry points to an OS, lock, wait, wake or I/O primitive (foreign functions and std functions without available MIR are denied by default)")
    rep.assume("user supplied code on the audio thread and the JIT engine hand-over are trusted; one-time logger initialisation is exempt")
    return rep
