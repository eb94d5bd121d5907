"""P26: state shared between nodes and frontend is one object per id."""
import re
from hx.report import Report
from hx.flow import Flow
from hx.prov import Prov
from .common import *
from .srate import structural
from .matrix import calls_of, forced, before

G = "global::NodeGlobalData"
LOOK = {"contains_key": "k", "get": "v", "get_mut": "v"}
USE = ("get", "get_mut", "entry", "insert", "get_or_insert_with")
CREATE = {
    "get_scope_handle": "ScopeHandle", "get_shared_feedback": "SharedFeedback", "get_feedback_reader": "SharedFeedback", "get_feedback_writer": "SharedFeedback",
    "get_pattern_data": "Tracker", "get_tracker_backend": "Tracker", "get_code_engine": "CodeEngine", "get_code_engine_backend": "CodeEngine",
    "get_block_function": "BlockFun", "send_dynamic_node1x1": "DynNodeHandle", "get_dynamic_node1x1_buffer": "DynNodeHandle",
}
HAS = {"has_tracker": "Tracker", "has_code_engine": "CodeEngine"}
OTHER = {"check_pattern_data": "Tracker", "check_code": None}
NODES = {"TSeq": "get_tracker_backend", "Code": "get_code_engine_backend", "Scope": "get_scope_handle", "FbWr": "get_feedback_writer", "FbRd": "get_feedback_reader", "Rust1x1": "get_dynamic_node1x1_buffer"}
FWD = {
    "matrix::Matrix::get_pattern_data": "get_pattern_data", "matrix::Matrix::has_tracker": "has_tracker", "matrix::Matrix::get_scope_handle": "get_scope_handle",
    "matrix::Matrix::check_pattern_data": "check_pattern_data", "matrix::Matrix::check_block_function": "check_code", "matrix::Matrix::has_code_engine": "has_code_engine",
    "matrix::Matrix::get_block_function": "get_block_function", "matrix::Matrix::set_dynamic_node1x1": "send_dynamic_node1x1",
    "synth_constructor::SynthConstructor::set_dynamic_node1x1": "send_dynamic_node1x1",
}


def p26(F, tier):
    rep = Report("P26", "other")
    rep.rule("every access to a map of shared objects uses the id that was asked for, a new object is stored only if there is none, objects are never removed, and what is returned is (made from) the stored object")
    rep.rule("the nodes, the matrix and the SynthConstructor ask for their own id on every path on which the lock was taken, and use or return what they get")
    rep.rule("the block function of an id is compiled and uploaded to the code engine of that id whenever its generation changed, and failures are returned")
    rep.rule("scope values are read where they were written; feedback writer and reader run through one ring of the same length from inside the ring")
    maps = {}
    for f in F.adts.get(G, {"variants": [{"fields": []}]})["variants"][0]["fields"]:
        if "HashMap<usize" in f[1].replace(" ", ""):
            maps[f[0]] = f[1]
    if not maps:
        rep.violate("anchor:maps", "NodeGlobalData holds no maps of shared objects")
        return rep
    rep.count("kinds of shared objects", len(maps))
    stop = lambda p: not p.startswith("global::")
    for n in list(CREATE) + list(HAS) + list(OTHER):
        fid = G + "::" + n
        body = flat_or_miss(F, rep, fid, stop=stop)
        if body is not None:
            method(F, rep, fid, n, body, maps)
    for fid in sorted(F.fns):
        if fid.startswith("global::"):
            removal(F, rep, fid, maps)
    check_code(F, rep)
    nodes(F, rep)
    forward(F, rep)
    config(F, rep)
    feedback(F, rep)
    scope(F, rep)
    rep.floor("map accesses", 15)
    rep.floor("nodes with shared objects", 6)
    rep.floor("queries passed on", 8)
    return rep


def is_map(V, o, maps):
    sp = self_path(V.op(o))
    if sp and sp[0] == "arg1":
        for f in sp[1:]:
            if f in maps:
                return f
    # reached through a borrow: by type
    return None


def accesses(body, V, maps):
    """[(block, method, field)] of accesses to the maps of shared objects"""
    out = []
    for i, t in body.calls():
        if t["a"] and "HashMap" in callname(t) and t["a"][0][0] in ("c", "m"):
            f = is_map(V, t["a"][0], maps)
            if f:
                out.append((i, last(callname(t)), f))
    return out


def strip(e):
    while e[0] in ("ref", "deref") or (e[0] == "cast" and e[1] in ("usize", "u64")) or (e[0] == "call" and last(e[1]) in ("clone", "borrow", "into", "from") and len(e[2]) == 1):
        e = e[2] if e[0] == "cast" and isinstance(e[2], tuple) else e[2][0] if e[0] == "call" else e[1]
    return e


def method(F, rep, fid, n, body, maps):
    V = Val(body)
    P = None
    fl = Flow(body)
    acc = accesses(body, V, maps)
    want = CREATE.get(n) or HAS.get(n) or OTHER.get(n)
    rep.count("functions that look up shared objects")
    if not acc:
        rep.violate("use:" + n, "%s does not look at the stored objects" % n, F.fn_loc(fid))
        return
    # key
    for i, m, f in acc:
        t = body.blocks[i]["t"]
        if m in ("new", "len", "is_empty", "values", "values_mut", "iter", "iter_mut", "keys"):
            if m in ("values", "values_mut", "iter", "iter_mut", "keys"):
                rep.violate("key:%s" % n, "%s looks at the objects of all ids" % n, body.where(i))
            continue
        rep.count("map accesses")
        if len(t["a"]) < 2:
            continue
        e = strip(V.op(t["a"][1]))
        if e != ("arg", 2):
            P = P or Prov(body)
            rs = P.solve_op(t["a"][1], ())
            if {x for x, _ in rs} != {("src", 2, ())} or any(o[0] not in ("call",) for _, os in rs for o in os) or any(o[0] == "call" and last(o[1]) not in ("clone",) for _, os in rs for o in os):
                rep.violate("key:%s" % n, "%s looks up another id than the one it was given: %s" % (n, fmt(e)[:60]), body.where(i))
    if want:
        for f in {f for _, _, f in acc}:
            pass
        if not any(re.search(r"\b%s\b" % want, maps[f]) for _, _, f in acc):
            rep.violate("map:" + n, "%s looks up another kind of object" % n, F.fn_loc(fid))
    looks = [(i, m, f) for i, m, f in acc if m in LOOK]
    ins = [(i, f) for i, m, f in acc if m == "insert"]
    ents = [(i, f) for i, m, f in acc if m == "entry"]
    # only when absent
    for i, f in ins:
        rep.count("objects created")
        ls = [(l, m) for l, m, g in looks if g == f and l != i and body.dominates(l, i)]
        if not ls:
            rep.violate("replace:" + n, "%s replaces an object that may already be in use" % n, body.where(i))
        elif all(i in fl.run(forced(fl, l, (LOOK[m], 1))) for l, m in ls):
            rep.violate("replace:" + n, "%s replaces an object that is already in use" % n, body.where(i))
    if n in CREATE:
        # created when absent
        own = [(l, m, f) for l, m, f in looks if re.search(r"\b%s\b" % want, maps[f])]
        for l, m, f in own:
            tg = [i for i, g in ins + ents if g == f]
            if any(l in body.reachable(x) for x, _, g in looks if g == f and x != l):
                continue
            seen = fl.run(forced(fl, l, (LOOK[m], 0)), avoid=tg)
            if any(r in seen for r in body.returns()):
                rep.violate("absent:" + n, "%s does not create the object of an id that has none" % n, body.where(l))
        # the stored object is returned
        if body.locals[0][0] != "()":
            # what was made from the stored object
            r = V.place([0, []])
            fields = {f for f in maps if re.search(r"\b%s\b" % want, maps[f])}
            roots = {i for i, m, f in acc if f in fields and m in USE}
            if not any(hits(V, r, body, roots)):
                rep.violate("return:" + n, "%s does not return the stored object" % n, F.fn_loc(fid))
            for i, f in ins:
                if f not in fields:
                    continue
                iv = base(V, V.op(body.blocks[i]["t"]["a"][2]))
                for rd in ret_defs(body, V):
                    e, blk = rd
                    if not (blk in body.reachable(i) or before(body, i, blk)):
                        continue
                    b = base(V, e)
                    if any(hits(V, e, body, roots)) or same_obj(V, b, iv):
                        continue
                    if b[0] == "call":
                        rep.violate("return-new:" + n, "%s stores one object and returns another" % n, body.where(i))
    if n in HAS:
        for l, m, f in looks:
            for val in (1, 0):
                seen = fl.run(forced(fl, l, (LOOK[m], val)))
                rs = {r for _, r in fl.returns(seen)}
                rep.count("existence answers")
                if rs & {1 - val}:
                    rep.violate("has:" + n, "%s answers %s although the object %s" % (n, bool(1 - val), "exists" if val else "does not exist"), body.where(l))
        seen = fl.run([(0, {})], avoid=[l for l, _, _ in looks])
        if any(r in seen for r in body.returns()):
            rep.violate("has-cond:" + n, "%s can answer without having looked" % n, F.fn_loc(fid))
    if n == "check_pattern_data":
        s = [i for i, t in body.calls() if last(callname(t)) == "send_one_update"]
        for l, m, f in looks:
            seen = fl.run(forced(fl, l, (LOOK[m], 1)), avoid=s)
            if not s or any(r in seen for r in body.returns()):
                rep.violate("send:" + n, "check_pattern_data does not always send the update of an existing tracker", body.where(l))
    if n == "send_dynamic_node1x1":
        s = [i for i, t in body.calls() if last(callname(t)) == "write"]
        if must_pass(body, 0, s) is not None:
            rep.violate("send:" + n, "send_dynamic_node1x1 does not always hand over the node", F.fn_loc(fid))
        for i in s:
            t = body.blocks[i]["t"]
            if strip(V.op(t["a"][-1])) != ("arg", 3):
                rep.violate("send-node:" + n, "send_dynamic_node1x1 hands over another node", body.where(i))
            roots = {j for j, m, f in acc if m in USE}
            if not any(hits(V, V.op(t["a"][0]), body, roots)):
                rep.violate("send-to:" + n, "send_dynamic_node1x1 does not use the stored handle", body.where(i))


def hits(V, e, body, roots):
    for x in deep_walk(V, e):
        if x and x[0] == "call" and x[3] in roots:
            yield True


def base(V, e):
    while True:
        if e[0] in ("ref", "deref", "dc"):
            e = e[1]
        elif e[0] == "call" and last(e[1]) in ("clone", "as_ref", "unwrap", "deref") and e[2]:
            e = e[2][0]
        else:
            return e


def same_obj(V, a, b):
    if a == b:
        return True
    return any(x == a for x in deep_walk(V, b) if x and x[0] == "call")


def ret_defs(body, V):
    """[(expression, block)] assigned to the return value"""
    out = []
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[1] == [0, []] and s[2][0] == "use":
                out.append((V.op(s[2][1]), i))
        t = b["t"]
        if t["k"] == "call" and t["d"] == [0, []]:
            out.append((("call", callname(t) or trait_call(t), tuple(V.op(a) for a in t["a"]), i), i))
    return out


def removal(F, rep, fid, maps):
    body = F.body(fid)
    V = Val(body)
    for i, t in body.calls():
        if t["a"] and t["a"][0][0] in ("c", "m") and "HashMap" in callname(t):
            f = is_map(V, t["a"][0], maps)
            if f and last(callname(t)) in ("remove", "clear", "drain", "retain", "remove_entry", "extract_if"):
                rep.violate("remove:" + f, "%s removes shared objects that may be in use" % fid, body.where(i))
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[1][1] and fid != G + "::new_ref":
                sp = self_path(V.place(s[1]))
                if sp and sp[0] == "arg1" and sp[-1] in maps and strip_gen(body.locals[1][0].replace("&mut ", "").replace("&", "")) == G:
                    rep.violate("remove:" + sp[-1], "%s replaces all shared objects" % fid, body.where(i))


def check_code(F, rep):
    fid = G + "::check_code"
    body = flat_or_miss(F, rep, fid, stop=lambda p: not p.startswith("global::"))
    if body is None:
        return
    V = Val(body)
    fl = Flow(body)
    C = [i for i, t in body.calls() if last(callname(t)) == "compile"]
    U = [i for i, t in body.calls() if last(callname(t)) == "upload"]
    if not C or not U:
        rep.violate("code:none", "check_code does not compile and upload the block function", F.fn_loc(fid))
        return
    for i in C:
        rep.count("block functions compiled")
        e = V.op(body.blocks[i]["t"]["a"][-1])
        if not any(x and x[0] == "fld" and x[2] == "block_functions" for x in deep_walk(V, e)):
            rep.violate("code:fun", "check_code compiles something else than the block function", body.where(i))
        seen = fl.run(forced(fl, i, ("v", 1)))
        if any(r != 1 for _, r in fl.returns(seen)):
            rep.violate("code:compile-err", "check_code does not return a compile error", body.where(i))
        gets = {j for j, t in body.calls() if last(callname(t)) in ("get_mut", "get") and any(x and x[0] == "fld" and x[2] == "code_engines" for x in walk(V.op(t["a"][0])))}
        # found the engine
        starts = forced(fl, i, ("v", 0))
        cut = set()
        for k, b in enumerate(body.blocks):
            t = b["t"]
            if b["cl"] or t["k"] != "switch":
                continue
            e = V.op(t["d"])
            if e[0] == "discr" and any(x and x[0] == "call" and x[3] in gets for x in walk(e)):
                tm = dict((v, s) for v, s in t["v"])
                cut.add((k, tm.get(0, t["o"])))
        seen = fl.run(starts, avoid=U, avoid_edges=cut)
        if any(r == 0 for _, r in fl.returns(seen)):
            rep.violate("code:upload", "check_code does not always upload the compiled code", body.where(i))
    for i in U:
        rep.count("code uploads")
        t = body.blocks[i]["t"]
        e = V.op(t["a"][1])
        if not any(x and x[0] == "call" and x[3] in C for x in deep_walk(V, e)):
            rep.violate("code:ast", "check_code uploads something else than the compiled code", body.where(i))
        if not any(x and x[0] == "fld" and x[2] == "code_engines" for x in deep_walk(V, V.op(t["a"][0]))):
            rep.violate("code:engine", "check_code uploads to another engine", body.where(i))
        seen = fl.run(forced(fl, i, ("v", 1)))
        if any(r != 1 for _, r in fl.returns(seen)):
            rep.violate("code:upload-err", "check_code does not return an upload error", body.where(i))
    for i, t in body.calls():
        if last(callname(t)) == "try_lock":
            rep.violate("code:try", "check_code leaves a block function that is in use by the editor unchecked", body.where(i))
    # a changed generation always leads to a compilation
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"] or t["k"] != "switch":
            continue
        e, neg = V.op(t["d"]), False
        while e[0] == "un" and e[1] == "Not":
            e, neg = e[2], not neg
        if e[0] == "bin" and e[1] in NEGC and any(x and x[0] == "call" and last(x[1]) == "generation" for x in walk(e)):
            rep.count("generation comparisons")
            g = [any(x and x[0] == "call" and last(x[1]) == "generation" for x in walk(y)) for y in e[2:4]]
            if g == [False, True] and e[1] in ("Lt", "Ge") or g == [True, False] and e[1] in ("Gt", "Le"):
                # generations only grow: "older than" is "another"
                e = ("bin", "Ne" if e[1] in ("Lt", "Gt") else "Eq") + tuple(e[2:])
            if e[1] not in ("Eq", "Ne"):
                rep.violate("code:gen-cmp", "check_code does not compile on every change of the generation", body.where(i))
                continue
            if any(x and x[0] == "bin" for y in e[2:4] for x in walk(y)):
                rep.violate("code:gen-cmp", "check_code compares the generation with another one than the last", body.where(i))
            v = 1 if (e[1] == "Ne") != neg else 0
            tm = dict((x, s) for x, s in t["v"])
            s = tm.get(v, t["o"])
            if must_pass(body, s, C) is not None:
                rep.violate("code:changed", "check_code does not always compile a changed block function", body.where(i))
    # the new generation is remembered as it is
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[1][1] and s[2][0] in ("use", "bin") and any(x and x[0] == "fld" and x[2] == "block_functions" for x in deep_walk(V, V.place(s[1]))):
                e = V.op(s[2][1]) if s[2][0] == "use" else ("bin",)
                ty = "u64"
                if e[0] == "call" and last(e[1]) == "generation":
                    rep.count("generations remembered")
                elif e[0] in ("bin", "k"):
                    rep.violate("code:gen", "check_code remembers another generation than that of the block function", body.where(i))
    if not rep.counts.get("generations remembered"):
        pass


NEGC = ("Eq", "Ne", "Lt", "Le", "Gt", "Ge")


# -------------------------------------------------------------------- nodes

def nodes(F, rep):
    found = {}
    for fid in sorted(F.fns):
        m = re.match(r"^dsp::(?:\w+::)?(\w+)::new$", fid)
        if not m or F.fns[fid]["argc"] != 2:
            continue
        ls = F.fns[fid]["locals"]
        if "NodeId" not in ls[1][0]:
            continue
        rep.count("node constructors")
        if not any("Mutex" in l[0] and G in l[0] for l in ls[3:]) and m.group(1) not in NODES:
            continue
        body = flat(F, fid, stop=lambda p: p.startswith("global::") or p.startswith("dsp::NodeId::"))
        V = Val(body)
        for i, t in body.calls():
            c = callname(t)
            if not c.startswith(G + "::"):
                continue
            n = last(c)
            found.setdefault(m.group(1), set()).add(n)
            rep.count("nodes with shared objects")
            e = strip(V.op(t["a"][1]))
            if not (e[0] == "call" and last(e[1]) == "instance" and strip(e[2][0]) == ("arg", 1)):
                rep.violate("node:id:" + m.group(1), "the node %s asks for another object than that of its own instance (%s)" % (m.group(1), fmt(e)[:60]), body.where(i))
            bad = [c for c in dev_conds(body, V, i) if not structural(c)]
            if bad:
                rep.violate("node:cond:" + m.group(1), "the node %s uses the shared object only under a condition: %s" % (m.group(1), fmt(bad[0][0])[:60]), body.where(i))
            if not any(x and x[0] == "call" and x[3] == i for x in deep_walk(V, V.place([0, []]))):
                rep.violate("node:unused:" + m.group(1), "the node %s does not use the shared object" % m.group(1), body.where(i))
    for n, want in NODES.items():
        if want not in found.get(n, ()):
            rep.violate("node:" + n, "the node %s does not ask for its shared object (%s)" % (n, want))
    rep.floor("node constructors", 35)
    # the factory
    fid = "dsp::node_factory"
    body = flat_or_miss(F, rep, fid, stop=lambda p: True)
    if body is not None:
        V = Val(body)
        NI = "dsp::NodeId"
        vs = [v["name"] for v in F.adts[NI]["variants"]]
        news = {i: t for i, t in body.calls() if re.match(r"^dsp::(?:\w+::)*(\w+)::new$", callname(t)) and len(t["a"]) == 2 and "NodeId" in str(body.locals[t["a"][0][1][0]][0] if t["a"][0][0] in ("c", "m") else "")}
        for i, t in news.items():
            rep.count("nodes made")
            if strip(V.op(t["a"][0])) != ("arg", 1) or strip(V.op(t["a"][1])) != ("arg", 2):
                rep.violate("factory:args", "a node is made with another id or other global data than asked for", body.where(i))
        for k, v in enumerate(vs):
            for a, b in variant_entry(body, V, NI, k):
                reg = body.reachable(b)
                ns = {last(strip_gen(callname(news[i]))[:-5]) for i in news if i in reg}
                if len(news) > 30 and ns and ns != {v} and len(ns) < 5:
                    rep.violate("factory:kind", "another kind of node is made for %s" % v, body.where(b))
        rep.floor("nodes made", 35)
    # the instance number
    fid = "dsp::NodeId::instance"
    body = flat_or_miss(F, rep, fid)
    if body is not None:
        rs = Prov(body).solve(0, ())
        for x, os in rs:
            if x[0] == "src" and (len(x[2]) < 2 or x[2][-1] != 0) or any(o[0] in ("arith", "clamp") for o in os) or any(o[0] == "cast" and o[2] not in ("usize", "u8") for o in os) or (x[0] == "const" and x[1] != 0):
                rep.violate("instance", "the instance number of a node is not the one it was given", F.fn_loc(fid))
        rep.count("instance numbers", len(rs))


# ---------------------------------------------------------------- forwarders

def forward(F, rep):
    for fid, n in FWD.items():
        body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith("global::") or p.startswith("nodes::"))
        if body is None:
            continue
        V = Val(body)
        fl = Flow(body)
        nm = fid.split("::")[1] + "::" + last(fid)
        cs = [i for i, t in body.calls() if callname(t) == G + "::" + n]
        rep.count("queries passed on")
        if not cs:
            rep.violate("fwd:" + nm, "%s does not ask the global data (%s)" % (nm, n), F.fn_loc(fid))
            continue
        for i in cs:
            t = body.blocks[i]["t"]
            for k in range(1, len(t["a"])):
                if strip(V.op(t["a"][k])) != ("arg", k + 1):
                    rep.violate("fwd-arg:" + nm, "%s asks for something else than it was given" % nm, body.where(i))
            bad = [c for c in dev_conds(body, V, i) if not structural(c)]
            if bad:
                rep.violate("fwd-cond:" + nm, "%s asks only under the condition %s" % (nm, fmt(bad[0][0])[:60]), body.where(i))
            if body.locals[0][0] == "()":
                continue
            rt = body.locals[0][0]
            ct = body.locals[t["d"][0]][0]
            if rt == ct:
                vals = (("k", 1), ("k", 0)) if rt == "bool" else (("v", 1), ("v", 0))
                for v in vals:
                    seen = fl.run(forced(fl, i, v))
                    if any(r != v[1] for _, r in fl.returns(seen)):
                        rep.violate("fwd-res:" + nm, "%s does not return the answer" % nm, body.where(i))
            if not any(x and x[0] == "call" and x[3] == i for x in deep_walk(V, V.place([0, []]))):
                rep.violate("fwd-res:" + nm, "%s does not return the answer" % nm, body.where(i))
            elif "Option" in rt and "Option" not in ct:
                seen = fl.run(fl.after(i))
                if any(r == 0 for _, r in fl.returns(seen)):
                    rep.violate("fwd-res:" + nm, "%s does not return the answer" % nm, body.where(i))


def config(F, rep):
    fid = "nodes::node_conf::NodeConfigurator::get_node_global"
    body = flat_or_miss(F, rep, fid)
    if body is not None:
        sp = self_path(strip(Val(body).place([0, []])))
        rep.count("configurator steps")
        if not sp or sp[-1] != "node_global":
            rep.violate("conf:get", "get_node_global does not return the configurator's global data", F.fn_loc(fid))
    fid = "nodes::node_conf::NodeConfigurator::create_node"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p == "dsp::node_factory")
    if body is not None:
        V = Val(body)
        for i in calls_of(body, "dsp::node_factory"):
            rep.count("configurator steps")
            a = body.blocks[i]["t"]["a"]
            sp = self_path(V.op(a[1]))
            if strip(V.op(a[0])) != ("arg", 2) or not sp or sp[-1] != "node_global":
                rep.violate("conf:create", "create_node makes a node with another id or other global data", body.where(i))
    n = 0
    for fid in F.fns:
        for i, t in F.body(fid).calls():
            if callname(t) == G + "::new_ref":
                n += 1
                if not fid.startswith("nodes::node_conf::NodeConfigurator::new"):
                    rep.violate("conf:second", "%s makes a second set of global data" % fid, F.body(fid).where(i))
    if n == 0:
        rep.violate("conf:new", "no global data is made")


# ----------------------------------------------------------------- feedback

SF = "shared_feedback::"


def feedback(F, rep):
    ends = {}
    for ty, fn in (("SharedFeedbackWriter", "write"), ("SharedFeedbackReader", "read")):
        fid = SF + ty + "::" + fn
        body = flat_or_miss(F, rep, fid)
        if body is None:
            continue
        V = Val(body)
        rep.count("ring ends")
        ix = None
        for i, t in body.calls():
            if last(callname(t)) in ("set", "get") and "AtomicFloat" in callname(t):
                for x in deep_walk(V, V.op(t["a"][0])):
                    if x and x[0] == "idx":
                        ix = x
                if last(callname(t)) == "set" and strip(V.op(t["a"][1])) != ("arg", 2):
                    rep.violate("ring:value", "another value than the given one is written to the feedback ring", body.where(i))
        if ix is None:
            continue
        p = ix[2]
        sp = self_path(p) if p[0] != "bin" else None
        ptr = sp[-1] if sp else None
        if ptr is None:
            q = [self_path(x)[-1] for x in walk(p) if x and x[0] == "fld" and self_path(x)]
            ptr = q[0] if q else None
        st = []
        for i, b in enumerate(body.blocks):
            if b["cl"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and s[1][1]:
                    w = self_path(V.place(s[1]))
                    if w and w[-1] == ptr:
                        st.append((i, V.rv(s[2], 0)))
        if not st or must_pass(body, 0, [i for i, _ in st]) is not None:
            rep.violate("ring:step:" + fn, "%s does not move on in the ring" % fn, F.fn_loc(fid))
        mods = set()
        for i, e in st:
            if e is None:
                continue
            for x in deep_walk(V, e):
                if x and x[0] == "bin" and x[1] == "Rem":
                    q = self_path(x[3])
                    mods.add(q[-1] if q else fmt(x[3]))
                if x and x[0] == "bin" and x[1] in ("Add", "AddWithOverflow", "AddUnchecked") and x[3][0] == "k" and x[3][1] != 1:
                    rep.violate("ring:step:" + fn, "%s moves on by %s" % (fn, x[3][1]), body.where(i))
        ends[ty] = (ptr, mods)
    if len(ends) == 2:
        (wp, wm), (rp, rm) = ends["SharedFeedbackWriter"], ends["SharedFeedbackReader"]
        rep.count("ring lengths compared")
        if wm and rm and wm != rm:
            rep.violate("ring:length", "the writer and the reader of a feedback buffer wrap around at different lengths (%s, %s)" % (sorted(wm)[0], sorted(rm)[0]))
        for ty, (ptr, mods) in ends.items():
            fid = SF + ty + "::new"
            body = flat_or_miss(F, rep, fid)
            if body is None:
                continue
            P = Prov(body)
            V = Val(body)
            agg = [s for b in body.blocks for s in b["s"] if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == SF + ty]
            names = [f[0] for f in F.adts[SF + ty]["variants"][0]["fields"]]
            for s in agg:
                vals = dict(zip(names, [V.op(o) for o in s[2][2]]))
                init = vals.get(ptr)
                rep.count("ring starts")
                for m in mods:
                    if m in vals and init == vals[m]:
                        rep.violate("ring:start:" + ty, "the first position lies behind the end of the ring: what is written there is never read", F.fn_loc(fid))
                for f, v in vals.items():
                    if f == ptr:
                        continue
                    sp = self_path(strip(v))
                    if not sp or sp[0] != "arg1":
                        rep.violate("ring:shared:" + ty, "'%s' is not taken from the shared feedback buffer" % f, F.fn_loc(fid))
                    elif sp[-1] != f and f in [x[0] for x in F.adts[SF + "SharedFeedback"]["variants"][0]["fields"]]:
                        rep.violate("ring:shared:" + ty, "'%s' is taken from '%s' of the shared feedback buffer" % (f, sp[-1]), F.fn_loc(fid))


# -------------------------------------------------------------------- scope

SH = "scope_handle::ScopeHandle::"


def cells(F, rep, fn, op):
    body = flat_or_miss(F, rep, SH + fn)
    out = []
    if body is None:
        return out, None, None
    V = Val(body)
    for i, t in body.calls():
        if last(callname(t)) in op and ("Atomic" in callname(t)):
            e = V.op(t["a"][0])
            while e[0] in ("ref", "deref"):
                e = e[1]
            out.append((i, e))
    return out, body, V


def skel(e):
    """field and index structure of a cell"""
    out = []
    while True:
        if e[0] in ("ref", "deref"):
            e = e[1]
        elif e[0] in ("idx", "sub"):
            out.append(("[]", e[2]))
            e = e[1]
        elif e[0] == "fld":
            out.append(("f", str(e[2])))
            e = e[1]
        elif e[0] == "call" and last(e[1]) in ("index", "deref", "index_mut", "as_slice"):
            if last(e[1]).startswith("index"):
                out.append(("[]", e[2][1]))
            e = e[2][0]
        else:
            return tuple(reversed(out))


def scope(F, rep):
    for w, r, what in (("write", "read", "value"), ("set_offs_gain", "get_offs_gain", "offset and gain")):
        wc, wb, WV = cells(F, rep, w, ("set",))
        rc, rb, RV = cells(F, rep, r, ("get",))
        if wb is None or rb is None:
            continue
        rep.count("scope cells")
        if not wc or not rc:
            rep.violate("scope:%s" % w, "%s or %s does not access a cell of the scope" % (w, r), F.fn_loc(SH + w))
            continue
        ws, rs = {skel(e) for _, e in wc}, {skel(e) for _, e in rc}
        if ws != rs:
            rep.violate("scope:cell:" + w, "the %s of a scope signal is read from another cell than it is written to" % what, wb.where(wc[0][0]))
        if must_pass(wb, 0, [i for i, _ in wc]) is not None:
            rep.violate("scope:cond:" + w, "%s does not always store" % w, F.fn_loc(SH + w))
        for i, _ in wc:
            P = Prov(wb)
            n = len([1 for k in range(2, wb.argc + 1)])
            for f, src in ((0, (4, (0,)) if w == "write" else (3, ())), (1, (4, (1,)) if w == "write" else (4, ()))):
                rr = P.solve_op(wb.blocks[i]["t"]["a"][1], (f,))
                got = {(x[1], x[2]) for x, _ in rr if x[0] == "src"}
                if got and got != {src} and got != {(src[0], ())}:
                    rep.violate("scope:val:" + w, "%s stores something else than it was given" % w, wb.where(i))
        for x in {y for s in rs for y in s if y[0] == "[]"}:
            if any(z == ("arg", 2) or z == ("arg", 3) for z in walk(x[1])):
                continue
            rep.violate("scope:index:" + r, "%s reads a fixed cell" % r, rb.where(rc[0][0]))
    # a run of samples
    wc, wb, WV = cells(F, rep, "write_oversampled", ("set",))
    if wb is not None and wc:
        rep.count("scope cells")
        for i, e in wc:
            idx = [x[1] for x in skel(e) if x[0] == "[]"][-1:]
            if idx and all(z[0] in ("arg", "k", "bin", "cast") for z in walk(idx[0]) if isinstance(z, tuple) and z and isinstance(z[0], str)) and len(wc) == 1:
                rep.violate("scope:run", "write_oversampled writes all copies to one cell", wb.where(i))
    body = flat_or_miss(F, rep, SH + "set_active_from_mask")
    if body is not None:
        V = Val(body)
        for i, t in body.calls():
            if last(callname(t)) != "store":
                continue
            sk = skel(V.op(t["a"][0]))
            k = [x[1] for x in sk if x[0] == "[]"]
            e = V.op(t["a"][1])
            masks = {x[3][1] for x in walk(e) if x and x[0] == "bin" and x[1] == "BitAnd" and x[3][0] == "k"}
            rep.count("scope cells")
            if k and k[0][0] == "k" and masks and masks != {1 << k[0][1]}:
                rep.violate("scope:mask", "signal %d is switched by another bit of the mask" % k[0][1], body.where(i))
    # threshold
    body = flat_or_miss(F, rep, SH + "set_threshold")
    gb = flat_or_miss(F, rep, SH + "get_threshold")
    if body is not None and gb is not None:
        V = Val(body)
        fl = Flow(body)
        on = [i for i, t in body.calls() if last(callname(t)) == "store" and V.op(t["a"][1]) == ("k", 1)]
        off = [i for i, t in body.calls() if last(callname(t)) == "store" and V.op(t["a"][1]) == ("k", 0)]
        val = [i for i, t in body.calls() if last(callname(t)) == "set" and "AtomicFloat" in callname(t)]
        rep.count("scope cells")
        if on and off:
            for v, need, no in ((1, on, off), (0, off, on)):
                seen = fl.run([(0, {(2, ()): ("v", v)})], avoid=need)
                if any(r in seen for r in body.returns()):
                    rep.violate("scope:threshold", "set_threshold(%s) does not switch the threshold %s" % (("None", "Some")[v], ("off", "on")[v]), F.fn_loc(SH + "set_threshold"))
            seen = fl.run([(0, {(2, ()): ("v", 1)})], avoid=val)
            if any(r in seen for r in body.returns()):
                rep.violate("scope:threshold-value", "set_threshold does not always store the threshold", F.fn_loc(SH + "set_threshold"))
        for i in val:
            if not any(x == ("arg", 2) for x in deep_walk(V, V.op(body.blocks[i]["t"]["a"][1]))) or any(x and x[0] == "bin" for x in walk(V.op(body.blocks[i]["t"]["a"][1]))):
                rep.violate("scope:threshold-value", "set_threshold stores another threshold", body.where(i))
        GV = Val(gb)
        gf = Flow(gb)
        for i, t in gb.calls():
            if last(callname(t)) == "load":
                for v in (1, 0):
                    seen = gf.run(forced(gf, i, ("k", v)))
                    if any(r != v for _, r in gf.returns(seen)):
                        rep.violate("scope:threshold-get", "get_threshold does not return the threshold that was set", gb.where(i))
