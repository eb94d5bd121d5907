"""In-memory model of the extracted facts plus the MIR inliner and the generic
flow analyses (dominators, loops, reachability, value tracing) the rules use."""
import json, re, collections

IGN = object()
REFOP = re.compile(r"<(&)?([iu](?:8|16|32|64|128|size)) as std::ops::(Add|Sub|Mul)<(&)?\2>>::(?:add|sub|mul)$")


class Facts:
    def __init__(self, path):
        self.fns = {}
        self.adts = {}
        self.ntys = {}
        self.impls = []
        self.consts = {}
        self.insts = {}
        self.roots = {}
        self.generic_roots = []
        self.overflow = False
        end = None
        with open(path) as f:
            for l in f:
                r = json.loads(l)
                k = r["rec"]
                if k == "fn":
                    self.fns[r["id"]] = r
                elif k == "adt":
                    self.adts[r["id"]] = r
                    for v in r["variants"]:
                        for f in v["fields"]:
                            if len(f) > 3:  # field type with constants evaluated
                                self.ntys[(r["id"], f[0])] = f.pop()
                elif k == "impl":
                    self.impls.append(r)
                elif k == "const":
                    self.consts[r["id"]] = r
                elif k == "inst":
                    self.insts[r["n"]] = r
                elif k == "root":
                    self.roots[r["id"]] = r["n"]
                elif k == "root_generic":
                    self.generic_roots.append(r["id"])
                elif k == "overflow":
                    self.overflow = True
                elif k == "end":
                    end = r
        if end is None:
            raise RuntimeError("facts file is truncated")
        for r in self.fns.values():
            self._exhaustive(r)
            self._refops(r)
        self._bodies = {}
        self.closures_of = collections.defaultdict(list)
        for i in self.fns:
            m = re.match(r"(.*)::\{closure#\d+\}$", i)
            if m:
                self.closures_of[m.group(1)].append(i)
        self.by_name = collections.defaultdict(list)
        for i, r in self.fns.items():
            if r["kind"] in ("fn", "method"):
                self.by_name[r["name"]].append(i)

    def _exhaustive(self, r):
        """a switch over the discriminant that lists every variant never takes
        its otherwise edge"""
        dead = None
        for b in r["blocks"]:
            t = b["t"]
            if t["k"] != "switch" or t["d"][0] not in ("c", "m") or t["d"][1][1]:
                continue
            for s in b["s"]:
                if s[0] == "=" and s[1] == [t["d"][1][0], []] and s[2][0] == "discr" and len(s[2]) > 2:
                    n = self._nvar(s[2][2])
                    if n is not None and len(t["v"]) == n and r["blocks"][t["o"]]["t"]["k"] != "unreachable":
                        if dead is None:
                            dead = len(r["blocks"])
                        t["o"] = dead
        if dead is not None:
            x = dict(r["blocks"][0])
            x["s"], x["t"], x["cl"] = [], {"k": "unreachable"}, False
            r["blocks"].append(x)

    def _refops(self, r):
        """`&a + b` on integers is a call of core's forwarding operator, which
        overflows like the plain operation: write it as that"""
        for i in range(len(r["blocks"])):
            b = r["blocks"][i]
            t = b["t"]
            if t["k"] != "call" or "f" not in t or t["t"] is None:
                continue
            m = REFOP.match(t["f"].get("resolved") or "")
            if not m or any(x[0] not in ("c", "m") for x, y in zip(t["a"], m.group(1, 4)) if y):
                continue
            ty, op = m.group(2), m.group(3)
            a = [["c", [x[1][0], x[1][1] + ["*"]]] if y else x for x, y in zip(t["a"], m.group(1, 4))]
            tmp = len(r["locals"])
            r["locals"].append(["(%s, bool)" % ty])
            nb = dict(b)
            nb["s"] = [["=", t["d"], ["use", ["m", [tmp, [["f", 0, "0", "", ty]]]]], t["ln"]]]
            nb["t"] = {"k": "goto", "t": t["t"], "ln": t["ln"]}
            b["s"] = b["s"] + [["=", [tmp, []], ["bin", op + "WithOverflow", a[0], a[1]], t["ln"]]]
            b["t"] = {"k": "assert", "c": ["m", [tmp, [["f", 1, "1", "", "bool"]]]], "e": False, "m": ["overflow", op, a[0], a[1]], "t": len(r["blocks"]), "ln": t["ln"]}
            r["blocks"].append(nb)

    def _nvar(self, ty):
        ty = ty.replace("&mut ", "").replace("&", "")
        if ty.startswith("std::option::Option<") or ty.startswith("std::result::Result<"):
            return 2
        a = self.adts.get(ty)
        return len(a["variants"]) if a else None

    def body(self, fid):
        b = self._bodies.get(fid)
        if b is None:
            b = self._bodies[fid] = Body.from_rec(self, self.fns[fid])
        return b

    def callee(self, t):
        """path of the local function a call terminator invokes, or None"""
        if t["k"] != "call" or "f" not in t:
            return None
        f = t["f"]
        if f.get("trait") and not f.get("resolved"):
            return None  # dynamically dispatched: the default body is not the callee
        p = f.get("resolved") or f["path"]
        return p if p in self.fns else None

    def impl_methods(self, trait, name):
        out = []
        for im in self.impls:
            if im["trait"] == trait:
                for n, p in im["items"]:
                    if n == name:
                        out.append((im["self_ty"], p))
        return out

    def fn_loc(self, fid):
        return self.fns[fid]["loc"]


def succs(t):
    k = t["k"]
    if k in ("goto", "drop", "assert"):
        return [t["t"]]
    if k == "switch":
        return [b for _, b in t["v"]] + [t["o"]]
    if k == "call":
        return [] if t["t"] is None else [t["t"]]
    if k == "nondet":
        return list(t["ts"])
    return []


class Body:
    """A (possibly inlined) function body.  blocks[i] = {s, t, fn, ob, cl}"""

    def __init__(self, facts, fid):
        self.facts = facts
        self.fid = fid
        self.locals = []  # (ty, name, owner fn)
        self.blocks = []
        self.argc = 0
        self._cache = {}

    @staticmethod
    def from_rec(facts, r):
        b = Body(facts, r["id"])
        b.argc = r["argc"]
        b.locals = [(l[0], l[1] if len(l) > 1 else None, r["id"]) for l in r["locals"]]
        for i, x in enumerate(r["blocks"]):
            b.blocks.append({"s": x["s"], "t": x["t"], "cl": x.get("cl", False), "fn": r["id"], "ob": i})
        return b

    # ---- CFG -----------------------------------------------------------
    def succ(self, i):
        return succs(self.blocks[i]["t"])

    def cfg(self):
        if "cfg" in self._cache:
            return self._cache["cfg"]
        n = len(self.blocks)
        sc = [[] for _ in range(n)]
        pr = [[] for _ in range(n)]
        for i in range(n):
            if self.blocks[i]["cl"]:
                continue
            for j in dict.fromkeys(self.succ(i)):
                if self.blocks[j]["cl"]:
                    continue
                sc[i].append(j)
                pr[j].append(i)
        self._cache["cfg"] = (sc, pr)
        return sc, pr

    def reachable(self, start=0, avoid=(), avoid_edges=()):
        """blocks reachable from `start` without *entering* a block in avoid"""
        sc, _ = self.cfg()
        avoid = set(avoid)
        ae = set(avoid_edges)
        seen = set()
        st = [start] if isinstance(start, int) else list(start)
        st = [x for x in st if x not in avoid]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in sc[x]:
                if y not in avoid and y not in seen and (x, y) not in ae:
                    st.append(y)
        return seen

    def returns(self):
        return [i for i, b in enumerate(self.blocks) if b["t"]["k"] == "return" and not b["cl"]]

    def dom(self):
        if "dom" in self._cache:
            return self._cache["dom"]
        sc, pr = self.cfg()
        order = []
        seen = set()
        st = [(0, iter(sc[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(sc[y])))
                    break
            else:
                order.append(x)
                st.pop()
        rpo = order[::-1]
        num = {x: i for i, x in enumerate(rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in rpo[1:]:
                new = None
                for p in pr[x]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while num[a] > num[b]:
                                    a = idom[a]
                                while num[b] > num[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(x) != new:
                    idom[x] = new
                    ch = True
        self._cache["dom"] = (idom, rpo, num)
        return self._cache["dom"]

    def dominates(self, a, b):
        idom, _, _ = self.dom()
        if b not in idom:
            return True
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    def dominators_of(self, b):
        idom, _, _ = self.dom()
        out = []
        if b not in idom:
            return out
        while True:
            out.append(b)
            if b == 0:
                return out
            b = idom[b]

    def loops(self):
        """natural loops: header -> set of blocks"""
        if "loops" in self._cache:
            return self._cache["loops"]
        sc, pr = self.cfg()
        idom, rpo, num = self.dom()
        out = {}
        for x in rpo:
            for h in sc[x]:
                if h in idom and self.dominates(h, x):
                    body = out.setdefault(h, {h})
                    st = [x]
                    while st:
                        y = st.pop()
                        if y in body:
                            continue
                        body.add(y)
                        st.extend(p for p in pr[y] if p in idom)
        self._cache["loops"] = out
        return out

    def calls(self):
        for i, b in enumerate(self.blocks):
            if not b["cl"] and b["t"]["k"] == "call":
                yield i, b["t"]

    def where(self, i):
        b = self.blocks[i]
        loc = self.facts.fns[b["fn"]]["loc"] if b["fn"] in self.facts.fns else "?"
        return "%s:%s (in %s)" % (loc.split(":")[0], b["t"].get("ln", "?"), b["fn"])

    # ---- values --------------------------------------------------------
    def defs(self):
        """local -> list of (bb, idx, kind, payload); kinds: assign(whole), call, part"""
        if "defs" in self._cache:
            return self._cache["defs"]
        d = collections.defaultdict(list)
        mutb = set()
        for i, b in enumerate(self.blocks):
            if b["cl"]:
                continue
            for j, s in enumerate(b["s"]):
                if s[0] == "=":
                    loc, pr = s[1]
                    if not (pr and pr[0] == "*"):  # a store through a pointer does not define the pointer
                        d[loc].append((i, j, "part" if pr else "assign", s))
                    rv = s[2]
                    if rv[0] == "ref" and rv[2] == "mut" and not any(p == "*" for p in rv[1][1]):
                        mutb.add(rv[1][0])
                    if rv[0] == "rawptr" and not any(p == "*" for p in rv[1][1]):
                        mutb.add(rv[1][0])
                elif s[0] == "sd":
                    d[s[1][0]].append((i, j, "part", s))
            t = b["t"]
            if t["k"] == "call":
                loc, pr = t["d"]
                if not (pr and pr[0] == "*"):
                    d[loc].append((i, -1, "part" if pr else "call", t))
        self._cache["defs"] = d
        self._cache["mutb"] = mutb
        return d

    def mut_borrowed(self):
        self.defs()
        return self._cache["mutb"]


def remap_place(p, lo):
    return [p[0] + lo, [(["i", e[1] + lo] if (isinstance(e, list) and e[0] == "i") else e) for e in p[1]]]


def remap_op(o, lo):
    if o[0] in ("c", "m"):
        return [o[0], remap_place(o[1], lo)]
    return o


def remap_rv(r, lo):
    k = r[0]
    if k in ("use", "repeat"):
        return [k, remap_op(r[1], lo)] + r[2:]
    if k in ("ref", "rawptr", "discr"):
        return [k, remap_place(r[1], lo)] + r[2:]
    if k == "cast":
        return [k, remap_op(r[1], lo)] + r[2:]
    if k == "bin":
        return [k, r[1], remap_op(r[2], lo), remap_op(r[3], lo)]
    if k == "un":
        return [k, r[1], remap_op(r[2], lo)]
    if k == "agg":
        return [k, r[1], [remap_op(o, lo) for o in r[2]]]
    return r


def remap_term(t, lo, bo):
    n = dict(t)
    k = t["k"]
    if k in ("goto", "drop", "assert"):
        n["t"] = t["t"] + bo
    if k == "drop":
        n["p"] = remap_place(t["p"], lo)
    if k == "assert":
        n["c"] = remap_op(t["c"], lo)
        n["m"] = [t["m"][0]] + [remap_op(x, lo) if isinstance(x, list) else x for x in t["m"][1:]]
    if k == "switch":
        n["d"] = remap_op(t["d"], lo)
        n["v"] = [[v, b + bo] for v, b in t["v"]]
        n["o"] = t["o"] + bo
    if k == "call":
        n["a"] = [remap_op(x, lo) for x in t["a"]]
        n["d"] = remap_place(t["d"], lo)
        n["t"] = None if t["t"] is None else t["t"] + bo
        if "fp" in t:
            n["fp"] = remap_op(t["fp"], lo)
    if k == "nondet":
        n["ts"] = [x + bo for x in t["ts"]]
    return n


def remap_stmt(s, lo):
    if s[0] == "=":
        return ["=", remap_place(s[1], lo), remap_rv(s[2], lo)] + s[3:]
    if s[0] == "sd":
        return ["sd", remap_place(s[1], lo), s[2]]
    if s[0] == "dead":
        return ["dead", s[1] + lo]
    return s


ITEM_VAL = {"for_each", "map", "any", "all", "flat_map", "filter_map", "position", "rposition", "try_for_each", "find_map", "map_while", "min_by_key_val", "partition_map"}
ITEM_REF = {"filter", "find", "skip_while", "take_while", "inspect", "max_by_key", "min_by_key", "partition", "retain", "retain_mut"}
OPT_VAL = {"map", "and_then", "map_or", "map_or_else", "is_some_and", "is_none_or", "is_ok_and", "zip_with", "unwrap_or_else_err"}
OPT_REF = {"filter", "inspect"}


def item_mode(t, a):
    """(parameter number, kind) of the closure parameter that receives an
    element of the combinator's receiver"""
    if "f" not in t or not t["a"] or t["a"][0] is a:
        return None
    p = t["f"]["path"]
    n = p.rsplit("::", 1)[-1]
    if p.startswith("std::iter::") or t["f"].get("trait") in ("std::iter::Iterator", "std::iter::DoubleEndedIterator"):
        if n in ITEM_VAL:
            return 2, "next"
        if n in ITEM_REF:
            return 2, "nextref"
        if n in ("fold", "rfold", "try_fold"):
            return 3, "next"
    if p.startswith("std::option::Option") or p.startswith("std::result::Result"):
        if n in OPT_VAL:
            return 2, "Some" if "option" in p else "Ok"
        if n in OPT_REF:
            return 2, "Someref"
    return None


FN_TRAITS = ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn")


class Inliner:
    """Builds the flattened body of a root: calls to local functions are replaced
    by the callee's blocks (to a depth / size bound, never recursively), closures
    that are called directly or handed to a std combinator are spliced in at the
    call (the latter as a `zero or more times` branch)."""

    def __init__(self, facts, stop=lambda p: False, depth=8, max_blocks=60000, follow=None):
        self.facts = facts
        self.stop = stop
        self.depth = depth
        self.max_blocks = max_blocks
        self.follow = follow
        self.inlined = set()
        self.truncated = []
        self._asg = {}
        self._asg_n = 0

    def run(self, fid):
        f = self.facts
        rec = f.fns[fid]
        out = Body(f, fid)
        out.argc = rec["argc"]
        self._splice(out, fid, (fid,))
        # worklist over blocks
        i = 0
        depth_of = {}
        stack_of = {}
        for k in range(len(out.blocks)):
            depth_of[k] = 0
            stack_of[k] = (fid,)
        while i < len(out.blocks):
            b = out.blocks[i]
            t = b["t"]
            if not b["cl"] and t["k"] == "call":
                st = stack_of[i]
                tgt = None
                mode = None
                p = f.callee(t)
                if p and f.fns[p]["kind"] in ("fn", "method"):
                    tgt, mode = p, "direct"
                elif "f" in t and t["f"].get("trait") in FN_TRAITS and t["a"]:
                    c = self._closure_origin(out, t["a"][0])
                    if c:
                        tgt, mode = c, "closure"
                if tgt is None:
                    # closures handed to a foreign (std) combinator
                    cl = []
                    for a in t["a"]:
                        c = self._closure_origin(out, a)
                        if c and c not in st:
                            cl.append((c, a))
                    if cl and len(st) <= self.depth and len(out.blocks) < self.max_blocks:
                        self._splice_combinator(out, i, cl, st, stack_of)
                elif tgt in st or self.stop(tgt) or (self.follow and not self.follow(tgt)):
                    pass
                elif len(st) > self.depth or len(out.blocks) > self.max_blocks:
                    self.truncated.append(tgt)
                else:
                    self._inline_call(out, i, tgt, mode, st, stack_of)
            i += 1
        return out

    def _splice(self, out, fid, stack):
        r = self.facts.fns[fid]
        lo = len(out.locals)
        bo = len(out.blocks)
        for l in r["locals"]:
            out.locals.append((l[0], l[1] if len(l) > 1 else None, fid))
        for i, x in enumerate(r["blocks"]):
            out.blocks.append(
                {
                    "s": [remap_stmt(s, lo) for s in x["s"]],
                    "t": remap_term(x["t"], lo, bo),
                    "cl": x.get("cl", False),
                    "fn": fid,
                    "ob": i,
                    "stack": stack,
                }
            )
        self.inlined.add(fid)
        out._cache.clear()
        return lo, bo, len(r["blocks"])

    def _closure_origin(self, body, op, depth=0):
        """closure def path the operand's value originates from"""
        if depth > 12 or op[0] not in ("c", "m"):
            return None
        loc, pr = op[1]
        if any(p != "*" for p in pr):
            # closure captured in another closure's environment: give up
            return None
        found = None
        # assignments per local, extended as blocks get appended or rewritten
        idx = self._asg
        while self._asg_n < len(body.blocks):
            b = body.blocks[self._asg_n]
            self._asg_n += 1
            if b["cl"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and not s[1][1]:
                    idx.setdefault(s[1][0], []).append(s[2])
        for rv in idx.get(loc, ()):
            if rv[0] == "agg" and rv[1][0] == "closure":
                c = rv[1][1]
            elif rv[0] in ("use", "cast"):
                c = self._closure_origin(body, rv[1], depth + 1)
            elif rv[0] == "ref":
                c = self._closure_origin(body, ["c", rv[1]], depth + 1)
            else:
                c = None
            if c:
                if found and found != c:
                    return None
                found = c
        return found if found in self.facts.fns else None

    def _inline_call(self, out, i, tgt, mode, st, stack_of):
        t = out.blocks[i]["t"]
        argc = self.facts.fns[tgt]["argc"]
        nst = st + (tgt,)
        lo, bo, n = self._splice(out, tgt, nst)
        for k in range(bo, bo + n):
            stack_of[k] = nst
        ln = t.get("ln", 0)
        pre = []
        if mode == "direct":
            for ai, a in enumerate(t["a"][:argc]):
                pre.append(["=", [lo + 1 + ai, []], ["use", a], ln])
        else:
            # closure call: (closure, (args...))
            pre.append(["=", [lo + 1, []], ["use", t["a"][0]], ln])
            if len(t["a"]) > 1 and t["a"][1][0] in ("c", "m"):
                tp = t["a"][1][1]
                for ai in range(argc - 1):
                    pre.append(
                        ["=", [lo + 2 + ai, []], ["use", ["c", [tp[0], tp[1] + [["f", ai, str(ai), "", "?"]]]]], ln]
                    )
        out.blocks[i] = dict(out.blocks[i])
        out.blocks[i]["s"] = out.blocks[i]["s"] + pre
        if i < self._asg_n:
            for s in pre:
                self._asg.setdefault(s[1][0], []).append(s[2])
        out.blocks[i]["t"] = {"k": "goto", "t": bo, "ln": ln, "inl": tgt}
        # returns
        for k in range(bo, bo + n):
            if out.blocks[k]["t"]["k"] == "return":
                if t["t"] is None:
                    out.blocks[k]["t"] = {"k": "unreachable", "ln": ln}
                else:
                    rs = ["=", t["d"], ["use", ["m", [lo, []]]], ln]
                    out.blocks[k]["s"] = out.blocks[k]["s"] + [rs]
                    if k < self._asg_n and not rs[1][1]:
                        self._asg.setdefault(rs[1][0], []).append(rs[2])
                    out.blocks[k]["t"] = {"k": "goto", "t": t["t"], "ln": out.blocks[k]["t"].get("ln", 0), "ret": tgt}
        out._cache.clear()

    def _splice_combinator(self, out, i, cl, st, stack_of):
        """call C(.., closure) -> hub: nondet{ after-call | closure body -> hub }"""
        t = out.blocks[i]["t"]
        ln = t.get("ln", 0)
        hub = len(out.blocks)
        callb = hub + 1
        out.blocks.append({"s": [], "t": {"k": "nondet", "ts": [callb], "ln": ln}, "cl": False, "fn": out.blocks[i]["fn"], "ob": out.blocks[i]["ob"], "stack": st})
        ct = dict(t)
        ct["spliced"] = hub
        out.blocks.append({"s": [], "t": ct, "cl": False, "fn": out.blocks[i]["fn"], "ob": out.blocks[i]["ob"], "stack": st})
        # the copied call must not be expanded again
        stack_of[hub] = st + tuple(c for c, _ in cl)
        stack_of[callb] = st + tuple(c for c, _ in cl)
        out.blocks[i] = dict(out.blocks[i])
        out.blocks[i]["t"] = {"k": "goto", "t": hub, "ln": ln}
        for c, a in cl:
            nst = st + (c,)
            lo, bo, n = self._splice(out, c, nst)
            for k in range(bo, bo + n):
                stack_of[k] = nst
            e = len(out.blocks)
            selfty = out.locals[lo + 1][0] if len(out.locals) > lo + 1 else ""
            if a[0] in ("c", "m"):
                if selfty.startswith("&"):
                    rv = ["ref", a[1], "mut" if selfty.startswith("&mut") else "shared"]
                else:
                    rv = ["use", ["c", a[1]]]
            else:
                rv = ["use", a]
            pre = [["=", [lo + 1, []], rv, ln]]
            m = item_mode(t, a)
            if m and lo + m[0] < len(out.locals) and m[0] <= self.facts.fns[c]["argc"]:
                pre.append(["=", [lo + m[0], []], ["item", t["a"][0], m[1]], ln])
            out.blocks.append({"s": pre, "t": {"k": "goto", "t": bo, "ln": ln, "inl": c, "comb": True}, "cl": False, "fn": out.blocks[i]["fn"], "ob": out.blocks[i]["ob"], "stack": st})
            stack_of[e] = nst
            out.blocks[hub]["t"]["ts"].append(e)
            res = len(out.locals)
            out.locals.append((out.locals[lo][0], None, c))
            out.blocks[callb]["t"].setdefault("res", []).append(res)
            for k in range(bo, bo + n):
                if out.blocks[k]["t"]["k"] == "return":
                    out.blocks[k]["s"] = out.blocks[k]["s"] + [["=", [res, []], ["use", ["c", [lo, []]]], ln]]
                    out.blocks[k]["t"] = {"k": "goto", "t": hub, "ln": ln, "ret": c}
        out._cache.clear()
