"""Path sensitive reachability over a (flattened) body: a forward dataflow whose
facts are the known enum variants / constants of locals.  Results that are
built in one place and tested in another (`?`, `if let Err(e) = ..`, `is_err()`,
`map_err(..)`, a bool returned by a helper) do not mix their paths."""
from .val import strip_gen

FLIP = {"ok", "ok_or", "ok_or_else"}
SAME = {"map", "map_err", "as_ref", "as_mut", "copied", "cloned", "inspect", "inspect_err", "as_deref", "as_deref_mut", "clone"}
ON_ONE = {"map", "and_then", "map_or", "is_some_and", "is_ok_and", "inspect", "filter"}  # closure runs for Some / Ok
ON_OTHER = {"map_err", "or_else", "unwrap_or_else", "inspect_err", "ok_or_else", "get_or_insert_with"}
RESULT = {"and_then", "or_else", "is_some_and", "is_ok_and", "map_or", "unwrap_or_else"}  # the closure's result is the result


def opt_res(p):
    p = strip_gen(p)
    if p.startswith("std::option::Option"):
        return "o"
    if p.startswith("std::result::Result"):
        return "r"
    return None


class TooMany(Exception):
    pass


class Flow:
    def __init__(self, body, cap=60000):
        self.b = body
        self.F = body.facts
        self.cap = cap
        self.d = body.defs()
        self.mutb = body.mut_borrowed()
        self.live = None
        self.memo_states = None
        self.post = {}  # block -> [(key, fact)]: facts that hold after the call in that block
        self._liveness()

    # ---- places ----------------------------------------------------------
    def key(self, p, dep=0):
        l, pr = p
        path = []
        for n, x in enumerate(pr):
            if x == "*":
                if path:
                    return None
                ds = self.d.get(l, [])
                if len(ds) == 1 and ds[0][2] == "assign" and dep < 8 and not (1 <= l <= self.b.argc):
                    rv = ds[0][3][2]
                    if rv[0] == "ref":
                        return self.key([rv[1][0], rv[1][1] + pr[n + 1:]], dep + 1)
                    if rv[0] == "use" and rv[1][0] in ("c", "m"):
                        return self.key([rv[1][1][0], rv[1][1][1] + ["*"] + pr[n + 1:]], dep + 1)
                return None
            if isinstance(x, list) and x[0] == "f":
                path.append(x[1])
            elif isinstance(x, list) and x[0] == "dc":
                continue
            else:
                return None
        return (l, tuple(path))

    def refkey(self, o):
        """key of the place an operand refers to / is"""
        if o[0] not in ("c", "m"):
            return None
        k = self.key([o[1][0], o[1][1] + ["*"]])
        return k or self.key(o[1])

    def mutkey(self, o):
        if o[0] not in ("c", "m") or o[1][1]:
            return None
        l = o[1][0]
        for _ in range(8):
            ds = self.d.get(l, [])
            if len(ds) != 1 or ds[0][2] != "assign":
                return None
            rv = ds[0][3][2]
            if rv[0] == "ref" and rv[2] == "mut":
                return self.key(rv[1])
            if rv[0] == "use" and rv[1][0] in ("c", "m") and not rv[1][1][1]:
                l = rv[1][1][0]
                continue
            return None
        return None

    # ---- liveness of locals -----------------------------------------------
    def _liveness(self):
        b = self.b
        n = len(b.blocks)
        use = [0] * n
        de = [0] * n
        taken = 0

        def pl(p):
            return 1 << p[0]
        for i, x in enumerate(b.blocks):
            if x["cl"]:
                continue
            u = d = 0

            def opu(o):
                return pl(o[1]) if o[0] in ("c", "m") else 0
            for s in x["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                m = 0
                if rv[0] in ("ref", "rawptr"):
                    m |= pl(rv[1])
                    if "*" not in rv[1][1]:
                        taken |= pl(rv[1])
                elif rv[0] == "discr":
                    m |= pl(rv[1])
                else:
                    for o in rv[1:]:
                        if isinstance(o, list) and o and o[0] in ("c", "m") and len(o) == 2:
                            m |= opu(o)
                        elif isinstance(o, list) and rv[0] == "agg" and o is rv[2]:
                            for q in o:
                                m |= opu(q)
                u |= m & ~d
                if s[1][1]:
                    u |= pl(s[1]) & ~d
                else:
                    d |= pl(s[1])
            t = x["t"]
            m = 0
            for o in t.get("a", []):
                m |= opu(o)
            for o in t.get("res", []):
                m |= 1 << o
            if t["k"] == "switch":
                m |= opu(t["d"])
            if t["k"] == "assert":
                m |= opu(t["c"])
            if t["k"] == "return":
                m |= 1
            u |= m & ~d
            if t["k"] == "call" and not t["d"][1]:
                d |= pl(t["d"])
            use[i], de[i] = u, d
        sc, pr = b.cfg()
        live = [0] * n
        wl = list(range(n))
        while wl:
            i = wl.pop()
            o = 0
            for j in sc[i]:
                o |= live[j]
            v = use[i] | (o & ~de[i])
            if v != live[i]:
                live[i] = v
                wl.extend(pr[i])
        self.live = [x | taken for x in live]

    # ---- state -------------------------------------------------------------
    @staticmethod
    def kill(st, key):
        if key is None:
            return
        l, p = key
        n = len(p)
        for k in [k for k, v in st.items() if (k[0] == l and k[1][:n] == p) or (v[0] in ("is", "disc") and v[1][0] == l and v[1][1][:n] == p)]:
            del st[k]

    def copy(self, st, dst, src):
        sub = [(k, v) for k, v in st.items() if k[0] == src[0] and k[1][: len(src[1])] == src[1]]
        self.kill(st, dst)
        for k, v in sub:
            np = dst[1] + k[1][len(src[1]):]
            if len(np) <= 4:
                st[(dst[0], np)] = v

    def discr_of(self, agg):
        info = self.F.adts.get(agg[1])
        if info and info.get("discr"):
            return info["discr"][agg[2]]
        return agg[2]

    def stmt(self, st, s):
        if s[0] == "dead":
            self.kill(st, (s[1], ()))
            return
        if s[0] == "sd":
            k = self.key(s[1])
            self.kill(st, k)
            return
        if s[0] != "=":
            return
        dst = self.key(s[1])
        if dst is None:
            if "*" in s[1][1]:
                for k in [k for k in st if k[0] in self.mutb]:
                    self.kill(st, k)
            return
        rv = s[2]
        k = rv[0]
        if k == "use":
            self.assign_op(st, dst, rv[1])
        elif k == "agg":
            vals = []
            for n, o in enumerate(rv[2]):
                vals.append((n, o))
            tmp = (-1, ())
            self.kill(st, tmp)
            for n, o in vals:
                self.assign_op(st, (-1, (n,)), o)
            if rv[1][0] == "adt" and len(rv[1]) > 3:
                st[tmp] = ("v", self.discr_of(rv[1]))
            self.copy(st, dst, tmp)
            self.kill(st, tmp)
        elif k == "discr":
            src = self.key(rv[1])
            v = st.get(src) if src else None
            self.kill(st, dst)
            if v and v[0] == "v":
                st[dst] = ("k", v[1])
            elif src:
                st[dst] = ("disc", src)
        elif k == "un" and rv[1] == "Not" and rv[2][0] in ("c", "m"):
            src = self.key(rv[2][1])
            v = st.get(src) if src else None
            self.kill(st, dst)
            if v and v[0] == "k" and v[1] in (0, 1):
                st[dst] = ("k", 1 - v[1])
            elif v and v[0] == "is":
                st[dst] = ("is", v[1], v[2], not v[3])
        elif k == "bin" and rv[1] in ("Eq", "Ne"):
            a, b = self.opv(st, rv[2]), self.opv(st, rv[3])
            self.kill(st, dst)
            if a and b and a[0] == "k" and b[0] == "k":
                st[dst] = ("k", int((a[1] == b[1]) == (rv[1] == "Eq")))
            elif a and b and "k" in (a[0], b[0]) and "disc" in (a[0], b[0]):
                c, s2 = (a, b) if a[0] == "k" else (b, a)
                st[dst] = ("is", s2[1], c[1], rv[1] == "Ne")
        elif k == "bin" and rv[1] in ("BitOr", "BitAnd"):
            a, b = self.opv(st, rv[2]), self.opv(st, rv[3])
            self.kill(st, dst)
            if "bool" == (self.b.locals[s[1][0]][0] if not s[1][1] else ""):
                fix = ("k", 1 if rv[1] == "BitOr" else 0)
                if fix in (a, b):
                    st[dst] = fix
                elif a and b and a[0] == "k" and b[0] == "k":
                    st[dst] = ("k", (a[1] | b[1]) if rv[1] == "BitOr" else (a[1] & b[1]))
        else:
            self.kill(st, dst)

    def opv(self, st, o):
        if o[0] == "k":
            return ("k", o[1]["v"]) if "v" in o[1] and isinstance(o[1]["v"], int) else None
        k = self.key(o[1]) if o[0] in ("c", "m") else None
        return st.get(k) if k else None

    def assign_op(self, st, dst, o):
        if o[0] == "k":
            self.kill(st, dst)
            v = o[1].get("v")
            if isinstance(v, (int, bool)):
                st[dst] = ("k", int(v))
            return
        src = self.key(o[1]) if o[0] in ("c", "m") else None
        if src is None:
            self.kill(st, dst)
        elif src != dst:
            self.copy(st, dst, src)

    def call(self, st, t):
        dst = self.key(t["d"])
        new = None
        extra = []
        if "f" in t and t["a"]:
            p = t["f"]["path"]
            rp = t["f"].get("resolved") or p
            n = strip_gen(p).split("::")[-1]
            ty = self.b.locals[t["a"][0][1][0]][0] if t["a"][0][0] in ("c", "m") else ""
            a0 = self.refkey(t["a"][0])
            v = st.get(a0) if a0 else None
            if p == "std::ops::Try::branch":
                if v and v[0] == "v":
                    o = "Option" in ty.split("<")[0]
                    new = ("v", (1 - v[1]) if o else v[1])
                pay = st.get((a0[0], a0[1] + (0,))) if a0 else None
                if pay and dst:
                    extra.append(((dst[0], dst[1] + (0,)), pay))
            elif n in ("is_some", "is_none", "is_ok", "is_err") and opt_res(p):
                want = 1 if n in ("is_some", "is_err") else 0
                if v and v[0] == "v":
                    new = ("k", int(v[1] == want))
                elif a0:
                    new = ("is", a0, want, False)
            elif "spliced" in t and len(t.get("res", ())) == 1 and opt_res(p) and n in RESULT:
                ran = st.pop((-2 - t["spliced"], ()), None)
                if ran:
                    new = st.get((t["res"][0], ()))
                elif n in ("and_then", "or_else") and v and v[0] == "v":
                    new = v
                elif n in ("is_some_and", "is_ok_and"):
                    new = ("k", 0)
                elif n == "map_or":
                    new = self.opv(st, t["a"][1])
            elif n in SAME and (opt_res(p) or p == "std::clone::Clone::clone"):
                if v and v[0] == "v":
                    new = v
            elif n in FLIP and opt_res(p):
                if v and v[0] == "v":
                    new = ("v", 1 - v[1])
            elif n == "take" and opt_res(p) and v and v[0] == "v":
                new = v
                extra.append((a0, ("v", 0)))
            if p == "std::ops::FromResidual::from_residual":
                dt = self.b.locals[t["d"][0]][0].split("<")[0]
                new = ("v", 0 if dt.endswith("Option") else 1)
        elif "f" in t and t["f"]["path"] == "std::ops::FromResidual::from_residual":
            dt = self.b.locals[t["d"][0]][0].split("<")[0]
            new = ("v", 0 if dt.endswith("Option") else 1)
        if "spliced" in t:
            st.pop((-2 - t["spliced"], ()), None)
        for a in t["a"]:
            self.kill(st, self.mutkey(a))
        self.kill(st, dst)
        if dst and new:
            st[dst] = new
        for k, v in extra:
            st[k] = v
        if dst is None and "*" in t["d"][1]:
            for k in [k for k in st if k[0] in self.mutb]:
                self.kill(st, k)

    def nvar(self, key):
        try:
            ty = self.b.locals[key[0]][0]
        except IndexError:
            return None
        if key[1]:
            return None
        h = strip_gen(ty.replace("&mut ", "").replace("&", ""))
        if h in ("std::option::Option", "std::result::Result", "std::ops::ControlFlow"):
            return 2
        if h in self.F.adts:
            return len(self.F.adts[h]["variants"])
        return None

    def learn(self, st, key, val, eq, two=False):
        """the variant at key is (eq) / is not val"""
        cur = st.get(key)
        if cur and cur[0] == "v":
            return (cur[1] == val) == eq
        if eq:
            st[key] = ("v", val)
        elif (two or self.nvar(key) == 2) and val in (0, 1):
            st[key] = ("v", 1 - val)
        return True

    def edges(self, i, st):
        """[(successor, state)] after block i"""
        t = self.b.blocks[i]["t"]
        k = t["k"]
        if k == "switch":
            o = t["d"]
            out = []
            key = self.key(o[1]) if o[0] in ("c", "m") else None
            v = self.opv(st, o)
            vals = [x for x, _ in t["v"]]
            if v and v[0] == "k":
                for x, s in t["v"]:
                    if x == v[1]:
                        return [(s, st)]
                return [(t["o"], st)]
            for x, s in t["v"]:
                n = dict(st)
                ok = True
                if v and v[0] == "disc":
                    ok = self.learn(n, v[1], x, True)
                elif v and v[0] == "is":
                    ok = self.learn(n, v[1], v[2], (x == 1) != v[3], True)
                if ok and key:
                    n[key] = ("k", x)
                if ok:
                    out.append((s, n))
            if self.b.blocks[t["o"]]["t"]["k"] != "unreachable":
                n = dict(st)
                ok = True
                if v and v[0] == "disc":
                    cur = n.get(v[1])
                    if cur and cur[0] == "v" and cur[1] in vals:
                        ok = False
                    elif len(vals) == 1:
                        ok = self.learn(n, v[1], vals[0], False)
                elif v and v[0] == "is" and len(vals) == 1:
                    ok = self.learn(n, v[1], v[2], (vals[0] == 0) != v[3], True)
                if ok and key and vals == [0] and self.b.locals[key[0]][0] == "bool":
                    n[key] = ("k", 1)
                if ok:
                    out.append((t["o"], n))
            return out
        if k == "call":
            if t["t"] is None:
                return []
            n = dict(st)
            self.call(n, t)
            for kk, vv in self.post.get(i, ()):
                n[kk] = vv
            return [(t["t"], n)]
        if k == "nondet":
            ct = self.b.blocks[t["ts"][0]]["t"]
            nm = strip_gen(ct["f"]["path"]).split("::")[-1] if "f" in ct else ""
            kind = opt_res(ct["f"]["path"]) if "f" in ct else None
            hk = (-2 - i, ())
            if kind and (nm in ON_ONE or nm in ON_OTHER):
                src = self.refkey(ct["a"][0])
                runs = (1 if kind == "o" else 0) if nm in ON_ONE else (0 if kind == "o" else 1)
                ran = hk in st
                out = []
                for n_, s in enumerate(t["ts"]):
                    n = dict(st)
                    ok = True
                    if n_ == 0:
                        if not ran and src:
                            ok = self.learn(n, src, runs, False, True)
                    else:
                        if ran:
                            ok = False
                        elif src:
                            ok = self.learn(n, src, runs, True)
                        n[hk] = ("k", 1)
                    if ok:
                        out.append((s, n))
                return out
            return [(s, dict(st)) for s in t["ts"]]
        return [(s, st) for s in self.b.succ(i)]

    def prune(self, i, st):
        lv = self.live[i]
        return {k: v for k, v in st.items() if k[0] < 0 or (lv >> k[0]) & 1}

    def run(self, starts, avoid=(), avoid_edges=(), stop_at=()):
        """starts: [(block, state)] -> {block: set of entry states}; blocks in
        `avoid` are not entered, `stop_at` are entered but not left"""
        avoid = set(avoid)
        ae = set(avoid_edges)
        stop_at = set(stop_at)
        seen = {}
        wl = []
        n = 0
        for b, st in starts:
            if b in avoid:
                continue
            st = self.prune(b, st)
            fs = frozenset(st.items())
            if fs not in seen.setdefault(b, set()):
                seen[b].add(fs)
                wl.append((b, st))
        while wl:
            i, st = wl.pop()
            n += 1
            if n > self.cap:
                raise TooMany()
            if i in stop_at:
                continue
            st = dict(st)
            for s in self.b.blocks[i]["s"]:
                self.stmt(st, s)
            for j, s2 in self.edges(i, st):
                if j in avoid or (i, j) in ae or self.b.blocks[j]["cl"]:
                    continue
                s2 = self.prune(j, s2)
                fs = frozenset(s2.items())
                q = seen.setdefault(j, set())
                if fs not in q:
                    q.add(fs)
                    wl.append((j, s2))
        return seen

    def all_states(self):
        if self.memo_states is None:
            self.memo_states = self.run([(0, {})])
        return self.memo_states

    def at(self, blk):
        return [(blk, dict(s)) for s in self.all_states().get(blk, ())]

    def after(self, blk):
        """states on leaving block blk"""
        out = []
        for _, st in self.at(blk):
            for s in self.b.blocks[blk]["s"]:
                self.stmt(st, s)
            out += self.edges(blk, st)
        return out

    def edge(self, i, j):
        """states on the edge i -> j"""
        return [(k, s) for k, s in self.after(i) if k == j]

    def result(self, blk, fs):
        """variant of the return value at a return block entered with state fs
        (None: unknown)"""
        st = dict(fs)
        for s in self.b.blocks[blk]["s"]:
            self.stmt(st, s)
        v = st.get((0, ()))
        if not v:
            return None
        return v[1] if v[0] in ("v", "k") else None

    def payload(self, blk, fs):
        """constant carried by the returned Some/Ok/Err (None: unknown)"""
        st = dict(fs)
        for s in self.b.blocks[blk]["s"]:
            self.stmt(st, s)
        v = st.get((0, (0,)))
        return v[1] if v and v[0] == "k" else None

    def returns(self, seen):
        """[(block, result variant|None)] of reached returns"""
        out = []
        for r in self.b.returns():
            for fs in seen.get(r, ()):
                out.append((r, self.result(r, fs)))
        return out


def plain_flow(body):
    return Flow(body)
