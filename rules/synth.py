"""P29: SynthConstructor and the graph builder put exactly the described graph
in place."""
import re
from hx.report import Report
from hx.flow import Flow
from hx.prov import Prov
from .common import *
from .srate import structural
from .matrix import calls_of, forced, adaptors, partial, before, loop_heads, clears, size_cond, ORD

SC = "synth_constructor::SynthConstructor::"
OP = "build::ConstructorOp"
VARS = ("SetDenorm", "SetDenormModAmt", "SetSetting", "Input")
FILTERS = ("select", "skip", "take", "step_by", "clamp", "arith")


def p29(F, tier):
    rep = Report("P29", "other")
    rep.rule("each builder function records exactly one operation with its own port or setting name and its own arguments, and hands back the same node; node functions make a reference to their own node kind with the given instance")
    rep.rule("every recorded operation of every reached node is taken over: parameters normalised once and with their own modulation amount, settings as they are, connections with their own source node and output; all source nodes are visited; unknown names and failures of a source node are returned as errors")
    rep.rule("upload orders the graph of all known nodes and connections collected from scratch, returns CycleDetected and uploads nothing if it has a cycle, creates missing nodes and applies parameters before handing out the indices, adds all nodes (sources first) before connecting all edges with their own ends and ports, and uploads that program on every successful path")
    rep.rule("a parameter that differs from the current one is always applied; a change of the modulators leads to a new upload; the feedback functions ask for the node and output they are given")
    builder(F, rep)
    w = walker(F)
    p = applier(F, w)
    rep.count("operation walkers", 1 if w else 0)
    ops(F, rep, w, p)
    upload(F, rep, w, p)
    params(F, rep, p)
    update(F, rep, w)
    clear(F, rep)
    forward(F, rep)
    return rep


# ------------------------------------------------------------------ builder

METHOD = re.compile(r"^build::(input_port|set_param|set_param_mod|output_port)::(\w+)::(\w+)$")


def srcs(P, r):
    """[(source path or const, ops)]"""
    return list(r)


def consts(rs):
    return {x[1] for x, _ in rs if x[0] == "const"}


def pure(rs, allow=()):
    """the sources that arrive without having gone through other functions"""
    return {(x, os) for x, os in rs if not any(o[0] == "call" and last(o[1]) not in allow for o in os)}


def paths(rs, arg=None):
    return {x[2] for x, _ in rs if x[0] == "src" and (arg is None or x[1] == arg)}


def ops_of(rs):
    return {o for _, os in rs for o in os}


def touched(rs):
    return sorted({str(o[-1]) for o in ops_of(rs) if o[0] in FILTERS})


def builder(F, rep):
    kinds = {}
    seen = {}
    for fid in sorted(F.fns):
        m = METHOD.match(fid)
        if not m:
            continue
        mod, node, name = m.groups()
        kinds.setdefault(mod, []).append(fid)
        seen.setdefault(node, {}).setdefault(mod, set()).add(name)
        body = flat(F, fid)
        P = Prov(body)
        V = P.V
        W = lambda k, d, fid=fid: rep.violate("build:%s:%s" % (mod, k), "%s %s" % (fid, d), F.fn_loc(fid))
        rep.count("builder functions")
        if mod == "output_port":
            if consts(P.solve(0, ("port",))) - {"None"} != {name}:
                W("name", "selects another output than its own")
            if [c for b in range(len(body.blocks)) if any(s[0] == "=" and s[1][1] and s[1][1][-1] not in ("*",) for s in body.blocks[b]["s"]) for c in dev_conds(body, V, b)]:
                W("cond", "selects its output only under a condition")
            for f in (("node_id",), ("node", "node_id"), ("node", "ops")):
                if paths(P.solve(0, f)) - {f}:
                    W("node", "does not hand back the node it was called on")
            continue
        for f in (("node_id",), ("ops",)):
            r = P.solve(0, f)
            if paths(r) - {("node",) + f} or ops_of(r) - {o for o in ops_of(r) if o[0] == "call"}:
                W("node", "does not hand back the node it was called on")
        rec = []
        for i, t in body.calls():
            if len(t["a"]) < 2 or t["a"][-1][0] not in ("c", "m"):
                continue
            if strip_gen(body.locals[t["a"][-1][1][0]][0]) == OP and not t["a"][-1][1][1] and last(callname(t)) in ("push", "insert", "push_back", "push_front"):
                rec.append(i)
                if last(callname(t)) in ("insert", "push_front"):
                    W("front", "does not record its operation behind the others")
        if not rec:
            # operations may be collected by other means: nothing to judge
            rep.count("builder functions in another form")
            if not any(s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == OP for b in body.blocks for s in b["s"]):
                W("none", "records no operation")
            continue
        want = {"input_port": ("Input",), "set_param": ("SetDenorm", "SetSetting"), "set_param_mod": ("SetDenormModAmt",)}[mod]
        for i in rec:
            o = body.blocks[i]["t"]["a"][-1]
            got = {k for _, k in P.solve_op(o, (), "kids")}
            bad = got - {"<%s>" % v for v in want}
            if bad:
                W("kind", "records the operation %s" % "/".join(sorted(map(str, bad))))
            for g in got - bad:
                nm = P.solve_op(o, (g, 0))
                if consts(nm) != {name} or paths(nm):
                    W("name", "records another name than its own (%s)" % "/".join(map(str, sorted(map(str, consts(nm))))))
                if g == "<Input>":
                    nd, out = P.solve_op(o, (g, 1)), P.solve_op(o, (g, 2))
                    if 2 not in {x[1] for x, _ in nd if x[0] == "src"} or 1 in {x[1] for x, _ in nd if x[0] == "src"}:
                        W("source", "does not connect the node it was given")
                    if 2 not in {x[1] for x, _ in out if x[0] == "src"} or consts(out) - {""}:
                        W("output", "does not use the output it was given")
                else:
                    for k in range(1, 3 if g == "<SetDenormModAmt>" else 2):
                        v = P.solve_op(o, (g, k))
                        if {x[1] for x, _ in v if x[0] == "src"} != {k + 1} or consts(v) or touched(v) or any(o[0] == "cast" and WIDTH.get(o[2], 64) < WIDTH.get(o[1], 64) for o in ops_of(v)):
                            W("value", "does not record its own %s" % ("value" if k == 1 else "modulation amount"))
            for c in dev_conds(body, V, i):
                if is_err_cond(V, c) or any(x and x[0] == "call" and "borrow" in last(x[1]) for x in deep_walk(V, c[0])):
                    continue
                e = c[0]
                neg = False
                while e[0] == "un" and e[1] == "Not":
                    e, neg = e[2], not neg
                if mod == "input_port" and any(x and x[0] == "call" and last(x[1]) == "port" for x in deep_walk(V, e)):
                    if e[0] == "call" and last(e[1]) == "is_empty":
                        # deviating edges are those that skip the push
                        skip_if_empty = (c[1] in ((1,), ("not", (0,)))) != neg
                        if not skip_if_empty:
                            W("empty", "records a connection only if no output was selected")
                    if any(q[:1] in ((0,), ("0",)) for q in portpaths(e)):
                        W("cond", "records its operation only under a condition on the other node")
                    continue
                W("cond", "records its operation only under a condition: %s" % fmt(c[0])[:80])
            if any(j in body.reachable(body.succ(i)) for j in rec):
                W("twice", "can record its operation twice")
    rep.floor("builder functions", 300)
    for node, d in seen.items():
        miss = d.get("set_param_mod", set()) ^ d.get("input_port", set())
        if miss:
            rep.violate("build:ports:" + node, "%s can be modulated or set, but not connected (or the other way round) at: %s" % (node, ", ".join(sorted(miss))))
        miss = d.get("set_param_mod", set()) - d.get("set_param", set())
        if miss:
            rep.violate("build:params:" + node, "%s has no setter for: %s" % (node, ", ".join(sorted(miss))))
    # node functions and the small steps in between
    for fid, r in sorted(F.fns.items()):
        if fid.startswith("build::") and fid.count("::") == 1 and "{" not in fid:
            ret = strip_gen(r["locals"][0][0])
            if not ret.startswith("build::") or ret not in F.adts or not any(f[0] == "node_id" for f in F.adts[ret]["variants"][0]["fields"]):
                continue
            rep.count("node functions")
            P = Prov(flat(F, fid))
            v = "<%s>" % last(ret)
            ks = {k for _, k in P.solve(0, ("node_id",), "kids")}
            if ks != {v} or {x for x in paths(P.solve(0, ("node_id", v, 0)), 1)} != {()} or touched(P.solve(0, ("node_id", v, 0))):
                rep.violate("build:node:id", "%s does not make a reference to the node %s with the given instance" % (fid, last(ret)), F.fn_loc(fid))
            continue
        m = re.match(r"^build::(\w+)::(set|set_mod|input|output)$", fid) or re.match(r"^<build::(\w+) as build::ConstructorNodeBuilder>::(build|id)$", fid) or re.match(r"^<build::output_port::(\w+) as build::(?:ConstructorNodeBuilder|ConstructorNodeOutputPort)>::(build|id|port)$", fid)
        if not m:
            continue
        rep.count("node steps")
        P = Prov(flat(F, fid))
        k = m.group(2)
        inner = "output_port" in fid
        pre = ("node",) if inner else ()
        if k == "id":
            qs = [((), ("node_id",), None)]
        elif k == "build":
            qs = [((f,), pre + (f,), None) for f in ("node_id", "ops")]
        elif k == "port":
            qs = [((0, f), pre + (f,), None) for f in ("node_id", "ops")] + [((1,), ("port",), {""})]
        elif k == "output":
            qs = [(("node", f), (f,), None) for f in ("node_id", "ops")] + [(("node_id",), ("node_id",), None)]
        else:
            qs = [(("node", f), (f,), None) for f in ("node_id", "ops")]
        for q, want, cs in qs:
            rs = P.solve(0, q)
            got = paths(rs, 1)
            if not any(compatible(g, want) for g in got):
                rep.violate("build:step:%s%s" % ("output." if inner else "", k), "%s does not pass on '%s'" % (fid, ".".join(map(str, want))), F.fn_loc(fid))
            elif consts(rs) - (cs or set()) - {"None"} and not inner:
                rep.violate("build:step:%s%s" % ("output." if inner else "", k), "%s replaces '%s' by a constant" % (fid, ".".join(map(str, want))), F.fn_loc(fid))
    rep.floor("node functions", 40)
    rep.floor("node steps", 200)


WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "f32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "f64": 64}


def portpaths(e):
    """field paths read from the result of port()"""
    out = []

    def go(x, path):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == "call" and last(x[1]) == "port":
            out.append(tuple(path))
            return
        if x[0] == "fld":
            go(x[1], [x[2]] + path)
            return
        if x[0] in ("ref", "deref"):
            go(x[1], path)
            return
        for y in x[1:]:
            if isinstance(y, tuple) and y and isinstance(y[0], str):
                go(y, [])
            elif isinstance(y, (tuple, list)):
                for z in y:
                    if isinstance(z, tuple):
                        go(z, [])
    go(e, [])
    return out


def compatible(a, b):
    n = min(len(a), len(b))
    return all(x == y or "*" in (x, y) for x, y in zip(a, b)) and len(a) <= len(b)


# ------------------------------------------------------------------- walker

def sc_fns(F):
    return [f for f in F.fns if f.startswith("synth_constructor::") and "{" not in f]


def reach_calls(F, fid):
    out, todo = set(), [fid]
    while todo:
        f = todo.pop()
        for i, t in F.body(f).calls():
            c = F.callee(t)
            if c and c.startswith("synth_constructor::") and c not in out:
                out.add(c)
                todo.append(c)
    return out


def handles_ops(F, fid):
    body = F.body(fid)
    for b in body.blocks:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "discr" and any(strip_gen(x.replace("&", "").replace("mut ", "")) == OP for x in [str(s[2][2]) if len(s[2]) > 2 else ""]):
                return True
    V = Val(body)
    for b in body.blocks:
        t = b["t"]
        if t["k"] == "switch" and not b["cl"]:
            e = V.op(t["d"])
            if e[0] == "discr" and enum_is(e[2], OP):
                return True
    return False


def walker(F):
    """the function that visits a node and, by itself, its sources"""
    hs = [f for f in sc_fns(F) if handles_ops(F, f)]
    for f in sc_fns(F):
        rc = reach_calls(F, f)
        if f in rc and (f in hs or any(h in rc for h in hs)) and last(f) not in ("upload", "update_params"):
            # entered from outside
            if any(f in [F.callee(t) for _, t in F.body(g).calls()] for g in (SC + "upload", SC + "update_params") if g in F.fns):
                return f
    return hs[0] if len(hs) == 1 and last(hs[0]) not in ("upload", "update_params") else None


def applier(F, w):
    c = []
    for f in sc_fns(F):
        if last(f) in ("upload", "update_params") or f == w:
            continue
        b = flat(F, f, stop=keep)
        if calls_of(b, CONF + "set_param"):
            c.append((len(b.blocks), f))
    # the one that works through all parameters of a node
    c = [x for x in c if F.body(x[1]).loops()] or c
    return min(c)[1] if c else None


def keep(p):
    return p.startswith("nodes::") or p.startswith("dsp::") or "std::clone" in p


def stop_at(*names):
    ns = [n for n in names if n]

    def stop(p, ns=tuple(ns)):
        return p.startswith("nodes::") or p.startswith("dsp::") or p in ns or "as std::clone" in p or "as std::cmp" in p or "std::fmt" in p
    return stop


def arg_ty(body, o):
    return body.locals[o[1][0]][0] if o[0] in ("c", "m") else ""


def map_inserts(body, V, what):
    """blocks that store a parameter ('p') or connection ('e') of a node"""
    out = []
    for i, t in body.calls():
        if last(callname(t) or trait_call(t)) not in ("insert",) or len(t["a"]) != 3:
            continue
        ty = strip_ws(arg_ty(body, t["a"][2]))
        if what == "p" and ty.startswith("(") and "SAtom" in ty and "f32" in ty:
            out.append(i)
        if what == "e" and ty.startswith("(") and "NodeId" in ty and "String" in ty:
            out.append(i)
    return out


def strip_ws(s):
    return s.replace(" ", "")


def bool_arg(F, w):
    ls = F.fns[w]["locals"]
    b = [i for i in range(1, F.fns[w]["argc"] + 1) if ls[i][0] == "bool"]
    return b[0] if len(b) == 1 else None


def call_flag(F, caller, w, n):
    """constant the caller passes for the mode"""
    if caller not in F.fns:
        return None
    b = flat(F, caller, stop=stop_at(w, SC + "upload" if caller != SC + "upload" else None))
    V = Val(b)
    vs = set()
    for i in calls_of(b, w):
        e = V.op(b.blocks[i]["t"]["a"][n - 1])
        vs.add(int(e[1]) if e[0] == "k" else None)
    return list(vs)[0] if len(vs) == 1 else None


def ops(F, rep, w, p):
    if not w:
        return
    body = flat(F, w, stop=stop_at(w, p))
    V = Val(body)
    fl = Flow(body)
    P = Prov(body, engine_call)
    node = [i for i in range(1, body.argc + 1) if strip_gen(body.locals[i][0].replace("&", "")) == "build::ConstructorNode"]
    if not node:
        return
    node = node[0]
    PI, EI = map_inserts(body, V, "p"), map_inserts(body, V, "e")
    rec = calls_of(body, w)
    for i in rec:
        rep.count("walks on")
        for c in dev_conds(body, V, i):
            e, neg = unnot(c[0])
            if e[0] == "bin" and e[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and any(x[0] == "k" and x[1] not in (0, None) for x in e[2:4]) and any(x and (x[0] == "len" or x[0] == "call" and last(x[1]) == "len") for x in walk(e)):
                rep.violate("ops:walk-cond", "the nodes behind an input are looked at only under a condition (%s)" % fmt(e)[:80], body.where(i))
    if not PI:
        rep.violate("ops:noparam", "no parameter of a node is recorded", F.fn_loc(w))
    if not EI:
        rep.violate("ops:noedge", "no connection of a node is recorded", F.fn_loc(w))
    if not (PI and EI):
        return
    n = bool_arg(F, w)
    modes = {}
    if n:
        for c in ("upload", "update_params"):
            f = call_flag(F, SC + c, w, n)
            if f is not None:
                modes[c] = {(n, ()): ("k", f)}
        if len(modes) == 2 and modes["upload"] == modes["update_params"]:
            rep.count("walks of one mode only")
    runs = dict(modes) or {"upload": {}}
    for mode, init in sorted(runs.items()):
        allst = fl.run([(0, dict(init))])
        for v in VARS:
            idx = variant_index(F, OP, v)
            ent = variant_entry(body, V, OP, idx)
            ent = [(a, b) for a, b in ent if a in allst]
            if not ent:
                rep.violate("ops:unhandled:" + v, "operations of the kind %s are ignored" % v, F.fn_loc(w))
                continue
            for a, b in ent:
                rep.count("operation kinds followed")
                hs = loop_heads(body, a)
                tg = PI if v != "Input" else EI
                if v == "Input" and mode != "upload":
                    continue
                starts = []
                for fs in allst.get(a, ()):
                    st = dict(fs)
                    for s in body.blocks[a]["s"]:
                        fl.stmt(st, s)
                    starts += [(j, s2) for j, s2 in fl.edges(a, st) if j == b]
                if v != "Input":
                    reach = fl.run(starts, stop_at=hs)
                    for i in PI:
                        o = body.blocks[i]["t"]["a"][2]
                        for fs in reach.get(i, ()):
                            st = dict(fs)
                            for s in body.blocks[i]["s"]:
                                fl.stmt(st, s)
                            kk = fl.key(o[1]) if o[0] in ("c", "m") else None
                            g = st.get((kk[0], kk[1] + (1,))) if kk else None
                            if g == ("v", 0) and v == "SetDenormModAmt":
                                rep.violate("ops:modamt-none", "the modulation amount of a parameter is dropped", body.where(i))
                            if g == ("v", 1) and v != "SetDenormModAmt":
                                rep.violate("ops:modamt-const", "a parameter without modulation gets a modulation amount", body.where(i))
                seen = fl.run(starts, avoid=tg, stop_at=hs)
                if any(h in seen for h in hs) or any(r != 1 for _, r in fl.returns(seen)):
                    rep.violate("ops:lost:" + v, "an operation of the kind %s can be skipped without an error (%s)" % (v, mode), body.where(b))
    # what is recorded
    allp = set()
    for i in PI:
        t = body.blocks[i]["t"]
        rep.count("recorded parameters")
        key = P.solve_op(t["a"][1], ())
        val = P.solve_op(t["a"][2], (0,))
        ma = P.solve_op(t["a"][2], (1,))
        for v, f, nm in opsrc(key):
            if f != 0:
                rep.violate("ops:key:" + v, "a parameter is recorded under something else than its name", body.where(i))
        ks = {v for v, f, _ in opsrc(key)}
        if not ks and key:
            rep.violate("ops:key", "a parameter is recorded under something else than its name", body.where(i))
        for v, f, os in opsrc(val):
            allp.add((v, f))
            if f not in (1,):
                # the name takes part in looking up the parameter: fine
                if f == 0:
                    continue
                rep.violate("ops:value:" + v, "the value recorded for %s is not the given one" % v, body.where(i))
                continue
            nrm = [o for o in os if o[0] == "call" and o[1].endswith("ParamId::norm")]
            if v != "SetSetting" and not nrm:
                rep.violate("ops:norm:" + v, "the value of %s is recorded without being normalised" % v, body.where(i))
            if v == "SetSetting" and nrm:
                rep.violate("ops:norm:" + v, "a setting is normalised like a parameter", body.where(i))
            if any(o[0] in ("arith", "clamp") for o in os):
                rep.violate("ops:changed:" + v, "the value of %s is changed before it is recorded" % v, body.where(i))
            if v == "SetSetting" and any(o[0] == "cast" and o[2] in ("u8", "i8", "u16", "i16", "i32", "u32") for o in os):
                rep.violate("ops:narrow", "the value of a setting is narrowed", body.where(i))
        if sum(1 for x in walk(V.op(t["a"][2])) if x and x[0] == "call" and last(x[1]) == "norm") > 1 and nested_norm(V.op(t["a"][2])):
            rep.violate("ops:norm2", "a value is normalised twice", body.where(i))
        for v, f, os in opsrc(ma):
            allp.add((v, f))
            if (v, f) != ("SetDenormModAmt", 2) or any(o[0] in ("arith", "clamp") for o in os):
                rep.violate("ops:modamt:" + v, "the modulation amount recorded for %s is not the given one" % v, body.where(i))
        if any(isinstance(c, float) or (isinstance(c, int) and not isinstance(c, bool)) for c in consts(ma)):
            rep.violate("ops:modamt-const", "a parameter without modulation gets a constant modulation amount", body.where(i))
    for need, what in ((("SetDenorm", 1), "value"), (("SetDenormModAmt", 1), "value"), (("SetDenormModAmt", 2), "modulation amount"), (("SetSetting", 1), "value")):
        if need not in allp:
            rep.violate("ops:ignored:%s:%d" % need, "the %s of %s is not recorded" % (what, need[0]), F.fn_loc(w))
    for i in EI:
        t = body.blocks[i]["t"]
        rep.count("recorded connections")
        for what, o, pth, want in (("input name", t["a"][1], (), 0), ("source node", t["a"][2], (0,), 1), ("output name", t["a"][2], (1,), 2)):
            fs = {f for v, f, _ in opsrc(P.solve_op(o, pth)) if v == "Input"}
            if fs != {want}:
                rep.violate("ops:edge:" + what, "the %s recorded for a connection is not its own" % what, body.where(i))
    # the record of the node itself
    for i, t in body.calls():
        if last(callname(t)) in ("get_mut", "entry", "get", "contains_key", "insert") and len(t["a"]) >= 2 and self_path(V.op(t["a"][0])) and self_path(V.op(t["a"][0]))[-1] == "nodes":
            rep.count("node record accesses")
            ps = {x[2] for x, _ in P.solve_op(t["a"][1], ()) if x[0] == "src" and x[1] == node}
            if ps and not any(q[:1] == ("node_id",) or q == () for q in ps):
                rep.violate("ops:record", "operations are recorded for another node", body.where(i))
            if last(callname(t)) == "insert":
                absent = [c for c in V.conds(i, asserts=False) if any(x and x[0] == "call" and last(x[1]) in ("contains_key", "get", "get_mut") for x in walk(c[0]))]
                if not absent:
                    rep.violate("ops:reset", "what is known of a node is thrown away whenever it is visited", body.where(i))
    # sources are visited
    if not rec:
        if w in reach_calls(F, w):
            return
        rep.violate("ops:rec", "the source nodes of a node are not visited", F.fn_loc(w))
        return
    for i in rec:
        t = body.blocks[i]["t"]
        rep.count("source node visits")
        k = [j for j in range(1, body.argc + 1) if j == node][0]
        rs = P.solve_op(t["a"][k - 1], ("node_id",)) | P.solve_op(t["a"][k - 1], ())
        if not any(v == "Input" and f == 1 for v, f, _ in opsrc(rs)):
            rep.violate("ops:rec-node", "another node than the source of the connection is visited", body.where(i))
        if touched([x for x in rs]) and any(o[0] in ("select", "skip", "take", "step_by") for o in ops_of(rs)):
            rep.violate("ops:rec-part", "only a part of the source nodes is visited", body.where(i))
        if n:
            e = V.op(t["a"][n - 1])
            if e != ("arg", n):
                rep.violate("ops:rec-mode", "source nodes are visited in another mode than the node itself", body.where(i))
        for mode, init in sorted(runs.items()):
            st0 = fl.run([(0, dict(init))])
            if i not in st0:
                rep.violate("ops:rec:" + mode, "the source nodes of a node are not visited (%s)" % mode, body.where(i))
        seen = fl.run(forced(fl, i, ("v", 1)))
        if any(r != 1 for _, r in fl.returns(seen)):
            rep.violate("ops:rec-err", "an error in a source node is ignored", body.where(i))
        tail_true(F, rep, body, V, fl, i, "ops:rec-result", "a source node asks for a new upload, but the result says that none is needed")
    # the collected sources: from the operation to the collection without a condition
    coll = []
    for i, t in body.calls():
        if last(callname(t)) in ("push", "push_back", "extend") and len(t["a"]) == 2 and strip_gen(arg_ty(body, t["a"][1]).replace("&", "")) == "build::ConstructorNode":
            coll.append(i)
    direct = [i for i in rec if any(i in body.reachable(b) for _, b in variant_entry(body, V, OP, variant_index(F, OP, "Input"))) and loop_heads(body, i) & set(h for a, _ in variant_entry(body, V, OP, variant_index(F, OP, "Input")) for h in loop_heads(body, a))]
    tg = coll or direct
    for a, b in variant_entry(body, V, OP, variant_index(F, OP, "Input")):
        hs = loop_heads(body, a)
        if tg:
            seen = fl.run([(b, {})], avoid=tg, stop_at=hs)
            if any(h in seen for h in hs) or any(r != 1 for _, r in fl.returns(seen)):
                rep.violate("ops:rec-cond", "the source of a connection is visited only under a condition", body.where(b))
    if coll:
        for i in rec:
            for c in dev_conds(body, V, i):
                if structural(c) or size_cond(V, c) or is_err_cond(V, c):
                    continue
                if any(x and x[0] == "call" and x[1] == p for x in deep_walk(V, c[0])):
                    continue
                if only_flags(V, c[0], n):
                    continue
                rep.violate("ops:rec-cond", "source nodes are visited only under the condition %s" % fmt(c[0])[:80], body.where(i))
    # changed parameters are applied in update mode
    ap = calls_of(body, p) if p else []
    up = modes.get("update_params")
    if p and up is not None:
        if not ap and not calls_of(body, CONF + "set_param"):
            rep.violate("ops:apply", "update_params does not apply the parameters of a node", F.fn_loc(w))
        ends = set(body.returns()) | set(rec)
        if ap:
            allst = fl.run([(0, dict(up))])
            for i in PI:
                if i not in allst:
                    continue
                starts = []
                for fs in allst[i]:
                    st = dict(fs)
                    for s in body.blocks[i]["s"]:
                        fl.stmt(st, s)
                    starts += fl.edges(i, st)
                seen = fl.run(starts, avoid=ap)
                rep.count("parameter applications")
                if any(r != 1 for _, r in fl.returns(seen)):
                    rep.violate("ops:apply", "update_params can return without having applied a recorded parameter", body.where(i))
            for i in ap:
                t = body.blocks[i]["t"]
                q = P.solve_op(t["a"][1], ()) | P.solve_op(t["a"][1], ("node_id",))
                if paths(q, node) and ("node_id",) not in paths(q, node):
                    rep.violate("ops:apply-node", "update_params applies the parameters of another node", body.where(i))
                tail_true(F, rep, body, V, fl, i, "ops:apply-result", "a change of the modulators is found, but the result says that no upload is needed")
                seen = fl.run(forced(fl, i, ("v", 1)))
                if any(r != 1 for _, r in fl.returns(seen)):
                    rep.violate("ops:apply-err", "an unknown parameter is ignored", body.where(i))
    rep.floor("recorded parameters", 1)
    rep.floor("recorded connections", 1)


def only_flags(V, e, n):
    return e == ("arg", n)


def is_err_cond(V, c):
    return any(x and x[0] == "call" and last(x[1]) in ("branch", "next") for x in walk(c[0]))


def nested_norm(e):
    for x in walk(e):
        if x and x[0] == "call" and last(x[1]) == "norm" and len(x[2]) > 1:
            if any(y and y[0] == "call" and last(y[1]) == "norm" for y in walk(x[2][1])):
                return True
    return False


def opsrc(rs):
    """[(operation kind, field, operations)] of sources inside an operation"""
    out = []
    for x, os in rs:
        if x[0] != "src":
            continue
        for v in VARS:
            if "<%s>" % v in x[2]:
                k = x[2].index("<%s>" % v)
                if len(x[2]) > k + 1:
                    out.append((v, x[2][k + 1], os))
                break
    return out


def tail_true(F, rep, body, V, fl, i, key, text):
    """when the call at i returns Ok(true) the function does not return Ok(false)"""
    starts = []
    k = fl.key(body.blocks[i]["t"]["d"])
    if not k:
        return
    for j, st in forced(fl, i, ("v", 0)):
        st = dict(st)
        st[(k[0], k[1] + (0,))] = ("k", 1)
        starts.append((j, st))
    # whatever comes later needs no upload
    fl.post = {i: [(k, ("v", 0)), ((k[0], k[1] + (0,)), ("k", 0))]}
    seen = fl.run(starts)
    fl.post = {}
    for r in body.returns():
        for fs in seen.get(r, ()):
            if fl.result(r, fs) == 0 and fl.payload(r, fs) == 0:
                rep.violate(key, text, body.where(i))
                return


# ------------------------------------------------------------------- upload

def upload(F, rep, w, p):
    fid = SC + "upload"
    body = flat_or_miss(F, rep, fid, stop=stop_at(w, p))
    if body is None:
        return
    V = Val(body)
    fl = Flow(body)
    P = Prov(body, engine_call)
    U = calls_of(body, CONF + "upload_prog")
    O = calls_of(body, ORD + "calculate_order")
    R = calls_of(body, CONF + "rebuild_node_ports")
    A = calls_of(body, CONF + "add_prog_node")
    X = calls_of(body, CONF + "set_prog_node_exec_connection")
    C = calls_of(body, CONF + "create_node")
    N = calls_of(body, ORD + "add_node")
    E = calls_of(body, ORD + "add_edge")
    Wk = calls_of(body, w) if w else []
    AP = (calls_of(body, p) if p else []) or calls_of(body, CONF + "set_param")
    for nme, l in (("upload_prog", U), ("calculate_order", O), ("rebuild_node_ports", R), ("add_prog_node", A), ("set_prog_node_exec_connection", X), ("create_node", C), ("add_node", N), ("add_edge", E)):
        if not l:
            rep.violate("up:no:" + nme, "upload never calls %s" % nme, F.fn_loc(fid))
    if not (U and O and R and A and X and C and N and E):
        return
    if w and not Wk:
        rep.violate("up:walk", "upload does not take over the given graph", F.fn_loc(fid))
    for i in Wk:
        for o in O:
            if not body.dominates(i, o) and not any(body.dominates(x, o) for x in Wk):
                rep.violate("up:walk", "upload orders the graph without having taken over the given one", body.where(o))
        seen = fl.run(forced(fl, i, ("v", 1)))
        if any(r != 1 for _, r in fl.returns(seen)) or any(u in seen for u in U):
            rep.violate("up:walk-err", "upload ignores an error in the given graph", body.where(i))
    seen = fl.run([(0, {})], avoid=O)
    if any(u in seen for u in U):
        rep.violate("up:unordered", "upload can upload a program without having ordered the graph", F.fn_loc(fid))
    cyc = variant_index(F, "synth_constructor::SynthError", "CycleDetected")
    for o in O:
        rep.count("orderings before an upload")
        seen = fl.run(forced(fl, o, ("k", 0)))
        if any(u in seen for u in U):
            rep.violate("up:cyclic", "upload uploads a program although the graph has a cycle", body.where(o))
        if any(r != 1 for _, r in fl.returns(seen)):
            rep.violate("up:silent", "upload does not return an error although the graph has a cycle", body.where(o))
        seen = fl.run(forced(fl, o, ("k", 1)), avoid=U)
        if any(r != 1 for _, r in fl.returns(seen)):
            rep.violate("up:noupload", "upload can return success without having uploaded the graph", body.where(o))
        # fresh ordering
        cl = [i for i, t in body.calls() if callname(t) == ORD + "clear" or (last(callname(t)) == "new" and "NodeGraphOrdering" in callname(t))]
        adds = N + E
        if not cl or any(must_pass(body, 0, cl, [a]) is not None for a in adds):
            rep.violate("up:stale", "upload adds to the ordering of an earlier graph", body.where(o))
        for c in cl:
            if any(before(body, c, a) for a in adds):
                rep.violate("up:clear-late", "upload clears the ordering after it has added to it", body.where(c))
        for a in adds:
            if before(body, a, o):
                rep.violate("up:add-late", "upload adds to the ordering after having ordered it", body.where(a))
    if cyc is not None:
        mk = set()
        for i, b in enumerate(body.blocks):
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == "synth_constructor::SynthError" and s[2][1][2] == cyc:
                    mk.add(i)
        for o in O:
            seen = fl.run(forced(fl, o, ("k", 0)), avoid=mk)
            if fl.returns(seen):
                rep.violate("up:cycle-kind", "upload does not report a cycle as CycleDetected", body.where(o))
    # every node, every edge
    parity = set()
    role = lambda o: role_of(P, o)
    for a in N:
        rep.count("ordered nodes")
        if role(body.blocks[a]["t"]["a"][1]) not in ({"dest"}, set()):
            rep.violate("up:node", "upload orders something else than the known nodes", body.where(a))
        whole(rep, body, V, P, a, body.blocks[a]["t"]["a"][1], "node")
    for e in E:
        rep.count("ordered edges")
        t = body.blocks[e]["t"]
        r1, r2 = role(t["a"][1]), role(t["a"][2])
        if r1 == {"dest"} and r2 == {"source"}:
            parity.add("reverse")
        elif r1 == {"source"} and r2 == {"dest"}:
            parity.add("forward")
        elif r1 and r2:
            rep.violate("up:edge", "upload orders an edge between other nodes than its ends", body.where(e))
        whole(rep, body, V, P, e, t["a"][2], "edge")
    outv = {body_root(body, body.blocks[o]["t"]["a"][1]) for o in O}
    for i, t in body.calls():
        c = last(callname(t) or trait_call(t))
        if (c.startswith("sort") or c.startswith("dedup") or c in ("retain", "truncate", "swap", "swap_remove", "rotate_left", "rotate_right", "split_off")) and t["a"]:
            oe = [V.op(body.blocks[o]["t"]["a"][1]) for o in O]
            root = lambda e: next((x for x in walk(e) if x and (x[0] == "var" or x[0] == "call" and last(x[1]) in ("new", "with_capacity", "from_elem", "default"))), None)
            r = root(V.op(t["a"][0]))
            if r is not None and any(root(x) == r for x in oe) and any(before(body, i, o) for o in O):
                rep.violate("up:reorder", "upload changes the order of the nodes after having calculated it (%s)" % c, body.where(i))
    for l, what, arg in ((A, "nodes added to the program", 2), (C, "created nodes", 1)):
        for a in l:
            rep.count(what)
            e = V.op(body.blocks[a]["t"]["a"][arg])
            ad = adaptors(V, e)
            if what.startswith("nodes") and ad.count("rev") < 9:
                rv = ad.count("rev") % 2 == 1 or rev_called(body, outv)
                if parity == {"reverse"} and not rv or parity == {"forward"} and rv:
                    rep.violate("up:direction", "the nodes are added to the program before their sources", body.where(a))
            pt = partial(V, e)
            if pt:
                rep.violate("up:part:" + what, "upload leaves out some of the %s (%s)" % (what, pt[0]), body.where(a))
            bad = []
            for c in dev_conds(body, V, a):
                if structural(c) or size_cond(V, c) or is_err_cond(V, c):
                    continue
                if any(x and x[0] == "call" and (last(x[1]) in ("calculate_order", "unique_index_for") or x[1] == p or x[1] == w) for x in deep_walk(V, c[0])):
                    continue
                bad.append(c)
            if bad and not (what.startswith("created") and False):
                rep.violate("up:cond:" + what, "upload has %s only under the condition %s" % (what, fmt(bad[0][0])[:80]), body.where(a))
    for c in C:
        for k in V.conds(c, asserts=False):
            e = k[0]
            if e[0] == "call" and last(e[1]) in ("is_none", "is_some") and any(x and x[0] == "call" and last(x[1]) == "unique_index_for" for x in walk(e)):
                t = k[1] in ((1,), ("not", (0,)))
                if (last(e[1]) == "is_none") != t:
                    rep.violate("up:create", "upload creates the nodes that exist and not those that do not", body.where(c))
        for r in R:
            if before(body, c, r):
                rep.violate("up:create-late", "upload creates nodes after it has handed out the indices", body.where(c))
    for r in R:
        for nme, l in (("node", A), ("connection", X)):
            for x in l:
                if not body.dominates(r, x):
                    rep.violate("up:ports", "upload adds a %s to a program without fresh indices" % nme, body.where(x))
        for a in AP:
            if before(body, a, r) and not before(body, r, a):
                rep.violate("up:params-late", "upload applies the parameters after it has handed out the indices of the modulators", body.where(a))
        if not AP:
            rep.violate("up:params", "upload does not apply the parameters of the nodes", F.fn_loc(fid))
    if p:
        for a in calls_of(body, p):
            rep.count("nodes whose parameters are applied")
            e = V.op(body.blocks[a]["t"]["a"][1])
            pt = partial(V, e)
            bad = [c for c in dev_conds(body, V, a) if not (structural(c) or size_cond(V, c) or is_err_cond(V, c) or any(x and x[0] == "call" and (last(x[1]) == "calculate_order" or x[1] == w) for x in deep_walk(V, c[0])))]
            bad += [c for c in dev_conds(body, V, a) if any(x and x[0] == "call" and last(x[1]) in ("unique_index_for", "get_param") for x in deep_walk(V, c[0]))]
            if pt or bad:
                rep.violate("up:params-part", "upload applies the parameters of some nodes only", body.where(a))
            for c in C:
                # a node has to exist before its parameters are set
                pass
            seen = fl.run(forced(fl, a, ("v", 1)))
            if any(r != 1 for _, r in fl.returns(seen)):
                rep.violate("up:params-err", "upload ignores an unknown parameter", body.where(a))
    for x in X:
        rep.count("connections")
        for a in A:
            if before(body, a, x):
                rep.violate("up:order", "upload connects an edge before all nodes were added to the program", body.where(x))
        t = body.blocks[x]["t"]
        to, frm = t["a"][2], t["a"][3]
        rt, rf = role_at(P, to, (0,)), role_at(P, frm, (0,))
        if rt == {"source"} or rf == {"dest"}:
            rep.violate("up:roles", "upload connects an edge the wrong way round", body.where(x))
        e1, e2 = V.op(to), V.op(frm)
        for e, want, fn in ((P.solve_op(to, (1,)), "inp", "input"), (P.solve_op(frm, (1,)), "out", "output")):
            cs = {o[1].split("::")[-1] for o in ops_of(pure(e, ("inp", "out"))) if o[0] == "call"}
            other = "out" if want == "inp" else "inp"
            if other in cs and want not in cs:
                rep.violate("up:port", "upload uses the index of an %s port as that of an %s" % ("output" if other == "out" else "input", fn), body.where(x))
            pp = paths(pure(e, ("inp", "out")))
            keys = {"name" for q in pp if q and q[-1] == 0 and "edges" in q} | {"out" for q in pp if len(q) > 1 and q[-2:] == (1, 1) and "edges" in q}
            if want == "inp" and keys == {"out"} or want == "out" and keys == {"name"}:
                rep.violate("up:port-name", "upload looks up the %s port under the name of the other end" % fn, body.where(x))
            if any(o[0] in ("arith", "clamp") for o in ops_of(pure(e, ("inp", "out")))):
                rep.violate("up:port-changed", "upload changes the index of a port", body.where(x))
        pt = partial(V, e1) + partial(V, e2)
        bad = [c for c in dev_conds(body, V, x) if not (structural(c) or size_cond(V, c) or is_err_cond(V, c) or any(y and y[0] == "call" and (last(y[1]) == "calculate_order" or y[1] in (w, p)) for y in deep_walk(V, c[0])))]
        if pt or bad:
            rep.violate("up:connect-part", "upload connects some edges only%s" % (": " + fmt(bad[0][0])[:80] if bad else ""), body.where(x))
        # names that do not exist end in an error
        for nme in ("dsp::NodeId::inp", "dsp::NodeId::out"):
            for i in calls_of(body, nme):
                seen = fl.run(forced(fl, i, ("v", 0)))
                if any(r != 1 for _, r in fl.returns(seen)):
                    rep.violate("up:unknown:" + last(nme), "upload leaves out a connection whose %s does not exist without an error" % ("input" if last(nme) == "inp" else "output"), body.where(i))
    for u in U:
        rep.count("uploads")
        t = body.blocks[u]["t"]
        e = V.op(t["a"][1])
        if not any(y and y[0] == "call" and strip_gen(y[1]) == CONF + "rebuild_node_ports" for y in deep_walk(V, e)):
            rep.violate("up:prog", "upload uploads another program than the one it built", body.where(u))
        for l in (A, X):
            for x in l:
                if before(body, x, u):
                    rep.violate("up:late", "upload adds to the program after its upload", body.where(x))
        k = V.op(t["a"][2]) if len(t["a"]) > 2 else None
        if k is not None and k[0] == "k" and not k[1]:
            rep.violate("up:copy", "upload does not keep the output values of the running nodes", body.where(u))
    rep.floor("uploads", 1)
    rep.floor("connections", 1)


def engine_call(p):
    """calls that hand nothing over to other parts of the constructor"""
    return p.startswith("nodes::") or p.startswith("dsp::") or p.startswith(SC)


def role_of(P, o):
    return role_at(P, o, ())


def role_at(P, o, p):
    out = set()
    for q in paths(pure(P.solve_op(o, p)), 1):
        if "edges" in q:
            k = q.index("edges")
            tl = q[k + 1:]
            out.add("source" if tl[:3] == ("*", 1, 0) else "name" if tl[:2] == ("*", 0) else "?")
        elif "nodes" in q:
            tl = q[q.index("nodes") + 1:]
            out.add("dest" if tl[:2] == ("*", 0) else "?")
    return out


def body_root(body, o):
    return o[1][0] if o[0] in ("c", "m") else None


def rev_called(body, outv):
    return any(last(callname(t)) == "reverse" for _, t in body.calls())


def whole(rep, body, V, P, i, o, what):
    pt = partial(V, V.op(o))
    if pt:
        rep.violate("up:part:" + what, "upload leaves out some %ss (%s)" % (what, pt[0]), body.where(i))
    bad = [c for c in dev_conds(body, V, i) if not (structural(c) or size_cond(V, c) or is_err_cond(V, c))]
    if bad:
        rep.violate("up:cond:" + what, "upload orders a %s only under the condition %s" % (what, fmt(bad[0][0])[:80]), body.where(i))


# ------------------------------------------------------------------- params

def params(F, rep, p):
    if not p:
        rep.violate("par:none", "SynthConstructor never sets a parameter")
        return
    body = flat(F, p, stop=stop_at())
    V = Val(body)
    fl = Flow(body)
    P = Prov(body, engine_call)
    S = calls_of(body, CONF + "set_param")
    M = calls_of(body, CONF + "set_param_modamt")
    if not M:
        rep.violate("par:modamt", "the modulation amount of a parameter is never set", F.fn_loc(p))
    for i, b in enumerate(body.blocks):
        if b["cl"] or b["t"]["k"] != "switch":
            continue
        e, neg = unnot(V.op(b["t"]["d"]))
        if e[0] == "bin" and e[1] in ("Lt", "Le", "Gt", "Ge") and any(x and x[0] == "call" and last(x[1]) in ("get_param", "get_param_modamt") for x in deep_walk(V, e)):
            rep.violate("par:tolerance", "a changed value is recognised only when it differs enough", body.where(i))
    for i in S + M:
        t = body.blocks[i]["t"]
        rep.count("parameter stores")
        heads = loop_heads(body, i)
        key = paths(pure(P.solve_op(t["a"][1], ()), ("inp_param",)))
        if key and not any(k and k[-1] == 0 and "params" in k for k in key):
            rep.violate("par:key", "a value is set for another parameter than its own", body.where(i))
        v = pure(P.solve_op(t["a"][2], ()), ("clone",))
        want = (1, 0) if i in S else (1, 1)
        vp = {q for q in paths(v) if "params" in q}
        bad = [q for q in vp if q[q.index("params") + 2:][:2] != want]
        if bad or touched(v) and any(o[0] in ("arith", "clamp") for o in ops_of(v)):
            rep.violate("par:value", "%s is set to something else than the recorded one" % ("a parameter" if i in S else "a modulation amount"), body.where(i))
        if partial(V, V.op(t["a"][1])):
            rep.violate("par:part", "only some of the parameters are set", body.where(i))
    # a difference leads to a store
    for i, t in body.calls():
        n = last(callname(t) or trait_call(t))
        if n not in ("ne", "eq") or len(t["a"]) != 2:
            continue
        c = {last(x[1]) for a in t["a"] for x in deep_walk(V, V.op(a)) if x and x[0] == "call"}
        diff = ("k", 1 if n == "ne" else 0)
        if "get_param_modamt" in c:
            tg, what = M, "modulation amount"
        elif "get_param" in c:
            tg, what = S, "value"
        else:
            continue
        hs = loop_heads(body, i)
        rep.count("differences applied")
        atom = set()
        for j, u in body.calls():
            if last(callname(u)) == "is_atom" and what == "modulation amount":
                atom.add(j)
        seen = fl.run(forced_na(fl, V, i, diff, atom), avoid=tg, stop_at=hs, avoid_edges=atom_edges(body, V) if what == "modulation amount" else ())
        if any(h in seen for h in hs) or any(r == 0 for _, r in fl.returns(seen)):
            rep.violate("par:skip:" + what, "a %s that differs from the current one is not always applied" % what, body.where(i))
    for i in calls_of(body, CONF + "get_param"):
        hs = loop_heads(body, i)
        seen = fl.run(forced(fl, i, ("v", 0)), avoid=S, stop_at=hs)
        if any(h in seen for h in hs) or any(r == 0 for _, r in fl.returns(seen)):
            rep.violate("par:skip-new", "a parameter that was never set is not set", body.where(i))
    for i in calls_of(body, "dsp::NodeId::inp_param"):
        hs = loop_heads(body, i)
        seen = fl.run(forced(fl, i, ("v", 0)))
        if any(r != 1 for _, r in fl.returns(seen)):
            rep.violate("par:unknown", "an unknown parameter is ignored", body.where(i))
    # result
    rt = body.locals[0][0]
    if "bool" in rt:
        for i in M:
            k = fl.key(body.blocks[i]["t"]["d"])
            starts = []
            for j, st in forced(fl, i, ("k", 1)):
                starts.append((j, st))
            if k:
                fl.post = {i: [(k, ("k", 0))]}
            seen = fl.run(starts)
            fl.post = {}
            rep.count("rebuild requests passed on")
            for r in body.returns():
                for fs in seen.get(r, ()):
                    if (fl.result(r, fs) == 0 and fl.payload(r, fs) == 0) or ("Result" not in rt and fl.result(r, fs) == 0):
                        rep.violate("par:rebuild", "a change of the modulators is not reported", body.where(i))
                        break
    rep.floor("parameter stores", 2)


def atom_edges(body, V):
    """edges taken for a setting"""
    out = set()
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"] or t["k"] != "switch":
            continue
        e, neg = V.op(t["d"]), False
        while e[0] == "un" and e[1] == "Not":
            e, neg = e[2], not neg
        if e[0] == "call" and last(e[1]) == "is_atom":
            v = 0 if neg else 1
            tm = dict((x, s) for x, s in t["v"])
            out.add((i, tm.get(v, t["o"])))
    return out


def forced_na(fl, V, i, val, atom):
    return forced(fl, i, val)


# ------------------------------------------------------------ update, clear

def update(F, rep, w):
    fid = SC + "update_params"
    up = SC + "upload"
    body = flat_or_miss(F, rep, fid, stop=stop_at(w, up))
    if body is None or not w:
        return
    V = Val(body)
    fl = Flow(body)
    W = calls_of(body, w)
    U = calls_of(body, up) or calls_of(body, CONF + "upload_prog")
    if not W:
        rep.violate("upd:walk", "update_params does not look at the given graph", F.fn_loc(fid))
    for i in W:
        rep.count("parameter updates")
        k = fl.key(body.blocks[i]["t"]["d"])
        for val in (1, 0):
            starts = []
            for j, st in forced(fl, i, ("v", 0)):
                st = dict(st)
                if k:
                    st[(k[0], k[1] + (0,))] = ("k", val)
                starts.append((j, st))
            if val:
                seen = fl.run(starts, avoid=U)
                if any(r != 1 for _, r in fl.returns(seen)):
                    rep.violate("upd:upload", "update_params does not upload the graph although the modulators changed", body.where(i))
            seen = fl.run(starts)
            for r in body.returns():
                for fs in seen.get(r, ()):
                    pl = fl.payload(r, fs)
                    if fl.result(r, fs) == 0 and pl is not None and pl != val:
                        rep.violate("upd:result:%d" % val, "update_params returns %s although the graph was %suploaded" % (bool(pl), "" if val else "not "), body.where(i))
        seen = fl.run(forced(fl, i, ("v", 1)))
        if any(r != 1 for _, r in fl.returns(seen)):
            rep.violate("upd:err", "update_params ignores an error in the given graph", body.where(i))
    for i in calls_of(body, up):
        e = V.op(body.blocks[i]["t"]["a"][1])
        if not any(x == ("arg", 2) for x in deep_walk(V, e)):
            rep.violate("upd:graph", "update_params uploads another graph than the given one", body.where(i))
        seen = fl.run(forced(fl, i, ("v", 1)))
        if any(r != 1 for _, r in fl.returns(seen)):
            rep.violate("upd:err", "update_params ignores an error of the upload", body.where(i))


def clear(F, rep):
    fid = SC + "clear"
    body = flat_or_miss(F, rep, fid, stop=keep)
    if body is None:
        return
    V = Val(body)
    d = calls_of(body, CONF + "delete_nodes")
    c = clears(body, V, "nodes")
    rep.count("resets")
    if must_pass(body, 0, d) is not None:
        rep.violate("clear:nodes", "clear does not always delete the nodes", F.fn_loc(fid))
    if must_pass(body, 0, c) is not None:
        rep.violate("clear:graph", "clear does not always forget the graph", F.fn_loc(fid))


FWD = {
    "phase_value": ("phase_value_for", {1: 2}),
    "led_value": ("led_value_for", {1: 2}),
    "output_feedback": ("out_fb_for", {1: 2, 2: 3}),
    "output_feedback_minmax": ("filtered_out_fb_for", {1: 2, 2: 3}),
    "poll": ("update_filters", {}),
}


def forward(F, rep):
    for n, (tgt, args) in FWD.items():
        fid = SC + n
        body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith("nodes::"))
        if body is None:
            continue
        V = Val(body)
        cs = calls_of(body, CONF + tgt)
        rep.count("queries passed on")
        if must_pass(body, 0, cs) is not None:
            rep.violate("fwd:" + n, "%s does not ask the engine (%s)" % (n, tgt), F.fn_loc(fid))
            continue
        for i in cs:
            a = body.blocks[i]["t"]["a"]
            for k, v in args.items():
                e = V.op(a[k])
                while e[0] in ("ref", "deref"):
                    e = e[1]
                if e != ("arg", v):
                    rep.violate("fwd-arg:" + n, "%s asks for something else than it was given" % n, body.where(i))
        if n != "poll":
            P = Prov(body)
            rs = P.solve(0, ()) | P.solve(0, (0,)) | P.solve(0, (1,))
            if rs and not any(o[0] == "call" and o[1].endswith(tgt) for o in ops_of(rs)):
                rep.violate("fwd-res:" + n, "%s does not return the engine's answer" % n, F.fn_loc(fid))
            if any(o[0] in ("arith", "clamp") for o in ops_of(rs)):
                rep.violate("fwd-res:" + n, "%s changes the engine's answer" % n, F.fn_loc(fid))
    fid = SC + "set_dynamic_node1x1"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith("nodes::") or p.startswith("global::"))
    if body is not None:
        V = Val(body)
        cs = [i for i, t in body.calls() if last(callname(t)) == "send_dynamic_node1x1"]
        rep.count("queries passed on")
        if not cs:
            rep.violate("fwd:dyn", "set_dynamic_node1x1 does not hand over the node", F.fn_loc(fid))
        for i in cs:
            a = body.blocks[i]["t"]["a"]
            if V.op(a[1]) != ("arg", 2):
                rep.violate("fwd-arg:dyn", "set_dynamic_node1x1 hands over the node for another instance", body.where(i))
            bad = [c for c in dev_conds(body, V, i) if not structural(c)]
            if bad:
                rep.violate("fwd-cond:dyn", "set_dynamic_node1x1 hands over the node only under a condition", body.where(i))
