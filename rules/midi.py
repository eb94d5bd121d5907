"""P09: MIDI events reach the nodes exactly once, in order and in their block."""
from hx.report import Report
from .common import *
from .srate import rooted_fields, structural
from .engine import plain, some_edges, pop_blocks, handler, range_edges, PGU, is_arg, has_len

FEED = EXE + "feed_midi_events_from"
LISTS = {"midi_ccs": True, "midi_notes": False}
TE = "nodes::midi::HxTimedEvent"
WIN = "nodes::midi::EventWindowing"
PTR = "nodes::midi::MidiEventPointer"
HME = "nodes::midi::HxMidiEvent"


def chain_field(V, e):
    for x in deep_walk(V, e):
        if x and x[0] == "fld" and x[2] in LISTS:
            return x[2]
    return None


def list_targets(body, V, i, op):
    """[(list name, conditions)] a push at block i may go to"""
    e = V.op(op)
    while e[0] in ("ref", "deref"):
        e = e[1]
    if e[0] == "var":
        out = []
        for bb, x in V.var_defs(e[1]) or []:
            f = chain_field(V, x)
            if f:
                out.append((f, V.conds(bb, asserts=False)))
        return out
    p = self_path(e)
    f = p[-1] if p and p[-1] in LISTS else None
    return [(f, V.conds(i, asserts=False))] if f else []


def is_cc_cond(V, conds):
    """True/False when the conditions say the event is (no) CC, None unknown"""
    for e, v in conds:
        neg = False
        while e[0] == "un" and e[1] == "Not":
            e = e[2]
            neg = not neg
        if e[0] == "call" and last(e[1]) == "is_cc":
            tr = v == (1,) or v == ("not", (0,))
            return tr != neg
        if e[0] == "discr" and strip_gen(e[2]).endswith("HxMidiEvent"):
            idx = variant_index(V.b.facts, HME, "CC")
            if v == (idx,):
                return True
            if v and v[0] == "not" and idx in v[1]:
                return False
            if v and v[0] != "not" and idx not in v:
                return False
    return None


def p09(F, tier):
    rep = Report("P09", "other")
    rep.rule("every event obtained from the host or injected is appended to exactly one of the two per-block lists (controllers / notes) and forwarded to the frontend, on every path; both lists are emptied first, injected events are consumed in order and once")
    rep.rule("the event cursor and the block windowing neither skip, repeat nor drop an event: each hands out an event when its time has come, advances exactly by it, and keeps it otherwise; nodes drain the cursor at every frame")
    feed(F, rep)
    inject(F, rep)
    frontend(F, rep)
    cursor(F, rep)
    windowing(F, rep)
    nodes(F, rep)
    kinds(F, rep)
    rep.assume("hosts deliver events sorted by time with times inside the block; events beyond the documented per-block capacities are left to the host")
    return rep


def feed(F, rep):
    body = flat_or_miss(F, rep, FEED, stop=lambda p: p.startswith(TE + "::"))
    if body is None:
        return
    V = Val(body)
    pushes = {}
    fwd = []
    for i, t in body.calls():
        n = last(callname(t) or trait_call(t))
        if n in ("push", "insert", "extend", "extend_from_slice", "append") and t["a"]:
            tg = list_targets(body, V, i, t["a"][0])
            if tg:
                pushes[i] = tg
                rep.count("list appends")
                if n == "insert":
                    rep.violate("feed:insert", "events are inserted into the block's lists instead of being appended: their order changes", body.where(i))
            if "graph_event_prod" in str(V.op(t["a"][0])):
                fwd.append(i)
    rep.floor("list appends", 2)
    # emptied first
    for f in LISTS:
        clr = [i for i, t in body.calls() if last(callname(t)) in ("clear", "truncate", "drain") and t["a"] and self_path(V.op(t["a"][0])) and self_path(V.op(t["a"][0]))[-1] == f]
        if not clr or must_pass(body, 0, clr) is not None:
            rep.violate("feed:clear:" + f, "the events of the previous block are not always removed from %s" % f, F.fn_loc(FEED))
        for p, tg in pushes.items():
            if any(x == f for x, _ in tg):
                if any(c in body.reachable(body.succ(p)) for c in clr):
                    rep.violate("feed:clear-late:" + f, "%s is emptied after events were added" % f, body.where(p))
    # routing
    for p, tg in pushes.items():
        for f, cs in tg:
            cc = is_cc_cond(V, cs)
            if cc is not None and cc != LISTS[f]:
                rep.violate("feed:route:" + f, "%s events are put into %s" % ("controller" if cc else "note", f), body.where(p))
            if cc is None:
                rep.count("unclassified appends")
    # sources
    src = []
    for i, t in body.calls():
        n = last(callname(t) or trait_call(t))
        if n in ("call_mut", "call", "call_once") and t["a"] and any(x == ("arg", 2) for x in deep_walk(V, V.op(t["a"][0]))):
            src.append((i, "the host"))
        if n in ("next", "next_back", "pop", "remove", "swap_remove") and t["a"] and "injected_midi" in rooted_fields(V, V.op(t["a"][0])):
            src.append((i, "the injected events"))
            e = V.op(t["a"][0])
            rev = n in ("next_back", "pop", "swap_remove")
            for x in deep_walk(V, e):
                if x and x[0] == "call" and last(x[1]) == "rev":
                    rev = not rev
                if x and x[0] == "call" and last(x[1]) in ("skip", "take", "step_by", "filter", "skip_while", "take_while"):
                    rep.violate("feed:part", "only a part of the injected events is processed", body.where(i))
            if rev:
                rep.violate("feed:reverse", "injected events are processed in reverse order", body.where(i))
    # combinators (for_each over the injected events)
    comb = []
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if t["k"] == "goto" and t.get("comb"):
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "item" and "injected_midi" in rooted_fields(V, V.op(s[2][1])):
                    comb.append((i, t["t"]))
    kinds_ = set(k for _, k in src) | ({"the injected events"} if comb else set())
    for k in ("the host", "the injected events"):
        if k not in kinds_:
            rep.violate("feed:source:" + k, "events of %s are not processed any more" % k, F.fn_loc(FEED))
    ends = set(body.returns()) | set(i for i, _ in src)
    starts = [(z, k, i) for i, k in src for q, z in some_edges(body, V, [i])]
    for i, b in comb:
        hubs = [h for h, blk in enumerate(body.blocks) if blk["t"]["k"] == "nondet" and i in blk["t"]["ts"]]
        ends |= set(hubs)
        starts.append((b, "the injected events", i))
    for z, k, i in starts:
        rep.count("event sources")
        if must_pass(body, z, pushes, ends) is not None:
            rep.violate("feed:lost:" + k, "there is a path on which an event of %s is taken but put into no list: it is lost" % k, body.where(z))
        if must_pass(body, z, fwd, ends) is not None:
            rep.violate("feed:forward:" + k, "there is a path on which an event of %s is not forwarded to the frontend" % k, body.where(z))
        for p in pushes:
            if p in body.reachable(z, avoid=ends):
                nxt = body.reachable(body.succ(p), avoid=ends)
                if any(q in nxt for q in pushes):
                    rep.violate("feed:twice:" + k, "an event of %s can be put into the lists twice" % k, body.where(p))
    # injected events happen at the beginning of the block
    for i, t in body.calls():
        if callname(t) == TE + "::new_timed" and any("injected_midi" in rooted_fields(V, x) for x in [V.op(t["a"][1])]):
            e = V.op(t["a"][0])
            rep.count("injected events timed")
            if e[0] == "k" and e[1] != 0 or e[0] in ("bin", "ovf", "len") or e[0] == "call" and last(e[1]) in ("len", "max", "min", "timing"):
                rep.violate("feed:injected-time", "injected events do not happen at the beginning of the block", body.where(i))
    # the host is asked until one of the lists is full
    lens = lambda e: set(self_path(x[2][0] if x[0] == "call" else x[1])[-1] for x in walk(e) if x and (x[0] == "len" or x[0] == "call" and last(x[1]) == "len") and self_path(x[2][0] if x[0] == "call" else x[1]))
    for i, b in enumerate(body.blocks):
        if b["cl"] or b["t"]["k"] != "switch":
            continue
        e, neg = unnot(V.op(b["t"]["d"]))
        if e[0] == "bin" and e[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            for x in e[2:4]:
                ls = lens(x) & set(LISTS)
                if ls:
                    rep.count("capacity tests")
                    l = lin(V, x)
                    if len(ls) > 1 or any(v != 1 for k, v in l.items() if k != 1):
                        rep.violate("feed:full", "feed_midi_events stops taking events although there is room for more", body.where(i))
    # injected events are consumed
    inj = [i for i, k in src if k != "the host"] + [i for i, _ in comb]
    drained = any(last(callname(t)) in ("drain", "pop", "take", "remove", "replace") and t["a"] and "injected_midi" in rooted_fields(V, V.op(t["a"][0])) for _, t in body.calls())
    clr = [i for i, t in body.calls() if last(callname(t)) in ("clear", "truncate") and t["a"] and (self_path(V.op(t["a"][0])) or ("",))[-1] == "injected_midi"]
    if inj and not drained:
        if not clr or any(must_pass(body, z, clr, body.returns()) is not None for z, k, i in starts if k != "the host"):
            rep.violate("feed:injected-clear", "injected events are not removed after they were processed: they repeat in every block", F.fn_loc(FEED))
        for c in clr:
            if any(i in body.reachable(body.succ(c)) for i in inj):
                rep.violate("feed:injected-early", "injected events are removed before they are processed", body.where(c))
    rep.floor("event sources", 2)


def inject(F, rep):
    body = flat_or_miss(F, rep, PGU, stop=lambda p: p.startswith("log"))
    if body is None:
        return
    V = Val(body)
    ends = set(body.returns()) | set(pop_blocks(body, V))
    for sw, s in handler(body, V, F, rep, "InjectMidi"):
        rep.count("injection handlers")
        reg = body.reachable(s, avoid=ends)
        ps = [i for i in reg if body.blocks[i]["t"]["k"] == "call" and last(callname(body.blocks[i]["t"])) in ("push", "push_within_capacity") and (self_path(V.op(body.blocks[i]["t"]["a"][0])) or ("",))[-1] == "injected_midi"]
        if not ps:
            rep.violate("inject:lost", "injected MIDI events are not queued for the next block", body.where(s))
        for i in ps:
            for c in V.conds(i, asserts=False):
                if structural(c) or has_len(c[0]):
                    continue
                if i in reg and any(x and x[0] == "fld" and x[2] == "midi_ev" for x in deep_walk(V, c[0])):
                    rep.violate("inject:cond", "injected MIDI events are queued only under a condition", body.where(i))
    # the frontend sends them unconditionally
    for fid in (CONF + "inject_midi_event",):
        b = flat_or_miss(F, rep, fid)
        if b is None:
            continue
        BV = Val(b)
        ps = [i for i, t in b.calls() if last(callname(t)) == "push"]
        if must_pass(b, 0, ps) is not None:
            rep.violate("inject:send", "inject_midi_event does not always send the event", F.fn_loc(fid))


def frontend(F, rep):
    fid = "matrix::Matrix::handle_graph_events"
    body = flat_or_miss(F, rep, fid)
    if body is None:
        return
    V = Val(body)
    pops = [i for i, t in body.calls() if last(callname(t)) == "pop" and "graph_event_cons" in str(V.op(t["a"][0]))]
    obs = [i for i, t in body.calls() if last(callname(t) or trait_call(t)) == "midi_event" or "midi_event" in t.get("f", {}).get("path", "")]
    if not pops:
        rep.violate("front:pop", "handle_graph_events does not fetch the events of the audio thread", F.fn_loc(fid))
        return
    noobs = set()
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"] or t["k"] != "switch":
            continue
        e = V.op(t["d"])
        if e[0] == "discr" and any(x and x[0] == "fld" and x[2] == "observer" for x in walk(e[1])):
            for s in [x for v, x in t["v"] if v == 0] or ([t["o"]] if 0 not in [v for v, _ in t["v"]] else []):
                noobs.add((i, s))
        if e[0] == "discr" and e[2].endswith("GraphEvent") and n_variants(F, "nodes::GraphEvent") > 1:
            idx = variant_index(F, "nodes::GraphEvent", "MIDI")
            for v, s in t["v"]:
                if v != idx:
                    noobs.add((i, s))
    for q, z in some_edges(body, V, pops):
        rep.count("frontend event deliveries")
        if must_pass(body, z, obs, set(body.returns()) | set(pops), avoid_edges=noobs) is not None:
            rep.violate("front:lost", "handle_graph_events fetches an event without telling the observer on some path", body.where(z))


def ret_values(body, V):
    """[(block, variant name, payload)] of Option values assigned to the result"""
    out = []
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[1] == [0, []]:
                e = V.rv(s[2], 0)
                for a in expand(V, e):
                    if a[0] == "agg" and a[1][0] == "adt" and len(a[1]) > 3:
                        out.append((i, a[1][3], a[2][0] if a[2] else None))
    return out


CMPN = {"Le": "Le", "Lt": "Lt", "Ge": "Ge", "Gt": "Gt"}
MIRROR = {"Le": "Ge", "Lt": "Gt", "Ge": "Le", "Gt": "Lt"}


def time_cmps(body, V):
    """comparisons of an event's timing with something: (block, op with timing
    on the left, other side)"""
    out = []
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "bin" and s[2][1] in CMPN:
                e = V.rv(s[2], 0)
                l = timing(e[2])
                r = timing(e[3])
                if l and not r:
                    out.append((i, e[1], e[3]))
                elif r and not l:
                    out.append((i, MIRROR[e[1]], e[2]))
    return out


TRUTH = {"Le": (1, 1, 0), "Lt": (1, 0, 0), "Ge": (0, 1, 1), "Gt": (0, 0, 1), "Eq": (0, 1, 0), "Ne": (1, 0, 1)}


def case_reach(body, V, other, case):
    """blocks reachable when the event's time is smaller than (0), equal to (1)
    or greater than (2) the other side; None if no branch compares them"""
    cut = set()
    for i, b in enumerate(body.blocks):
        t = b["t"]
        if b["cl"] or t["k"] != "switch":
            continue
        e, neg = V.op(t["d"]), False
        while e[0] == "un" and e[1] == "Not":
            e, neg = e[2], not neg
        if e[0] != "bin" or e[1] not in TRUTH:
            continue
        if timing(e[2]) and other(e[3]):
            tr = TRUTH[e[1]][case]
        elif timing(e[3]) and other(e[2]):
            tr = TRUTH[e[1]][2 - case]
        else:
            continue
        tr = int(bool(tr) != neg)
        tg = dict((v, s) for v, s in t["v"])
        take = tg.get(tr, t["o"])
        cut |= {(i, s) for s in list(tg.values()) + [t["o"]] if s != take}
    if not cut:
        return None
    seen, todo = set(), [0]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += [s for s in body.succ(x) if (x, s) not in cut]
    return seen


def timing(e):
    while e[0] in ("ref", "deref"):
        e = e[1]
    return e[0] == "fld" and e[2] == "timing"


def cursor(F, rep):
    fid = PTR + "::next_at"
    if fid not in F.fns:
        cand = [f for f in F.fns if f.startswith("nodes::midi::") and last(f) == "next_at"]
        if not cand:
            rep.violate("anchor:next_at", "MidiEventPointer::next_at is gone")
            return
        fid = cand[0]
    body = flat(F, fid)
    V = Val(body)
    for i, op, other in time_cmps(body, V):
        rep.count("event time comparisons")
        if plain(V, other, is_arg(2)) and op not in ("Le", "Gt"):
            rep.violate("cursor:time", "the event cursor holds back events that are due at the current frame", body.where(i))
    inc = []
    for i, j, p, rv in field_writes(body, V):
        if p == ("arg1", "idx") and rv is not None:
            e = V.rv(rv, 0)
            inc.append(i)
            if not (e[0] == "bin" and e[1] == "Add" and e[3][0] == "k" and e[3][1] == 1 and self_path(e[2]) == ("arg1", "idx")):
                rep.violate("cursor:step", "the event cursor advances by something else than one event", body.where(i))
    rv = ret_values(body, V)
    for case, name in ((0, "late"), (1, "due"), (2, "future")):
        r = case_reach(body, V, lambda e: plain(V, e, is_arg(2)), case)
        if r is None or not rv:
            continue
        rep.count("event time cases")
        got = any(var == "Some" and i in r for i, var, _ in rv)
        if got != (case < 2):
            rep.violate("cursor:" + name, "the event cursor hands out events before their time" if got else "the event cursor never hands out an event that is %s: it blocks all events behind it" % ("due" if case else "behind the current frame"), F.fn_loc(fid))
    for i, var, pay in rv:
        rep.count("cursor results")
        dom = [k for k in inc if body.dominates(k, i)]
        aft = [k for k in inc if must_pass(body, i, [k]) is None and k != i]
        if var == "Some":
            if not dom and not aft and i not in inc:
                rep.violate("cursor:stuck", "the event cursor hands out an event without advancing: the event repeats forever", body.where(i))
            if len(set(dom + aft)) > 1:
                rep.violate("cursor:skip", "the event cursor advances by more than one event", body.where(i))
        elif var == "None" and (dom or i in inc):
            rep.violate("cursor:drop", "the event cursor skips an event without handing it out", body.where(i))


def windowing(F, rep):
    fid = WIN + "::next_event_in_range"
    body = flat_or_miss(F, rep, fid)
    if body is None:
        return
    V = Val(body)
    for i, op, other in time_cmps(body, V):
        if other[0] == "bin" and other[1] == "Add" and {other[2], other[3]} == {("arg", 2), ("arg", 3)}:
            rep.count("event time comparisons")
            if op not in ("Lt", "Ge"):
                rep.violate("window:edge", "the first frame behind the block counts as part of it (or the last frame does not)", body.where(i))
    takes = [i for i, t in body.calls() if last(callname(t)) in ("take", "replace") and t["a"] and self_path(V.op(t["a"][0])) == ("arg1", "event")]
    st_some, st_none = [], []
    for i, j, p, rv in field_writes(body, V):
        if p == ("arg1", "event"):
            e = V.rv(rv, 0) if rv is not None else ("?",)
            for a in expand(V, e):
                if a[0] == "agg" and a[1][0] == "adt" and a[1][3] == "None":
                    st_none.append(i)
                else:
                    st_some.append(i)
    rv = ret_values(body, V)
    isend = lambda e: e[0] == "bin" and e[1] == "Add" and {e[2], e[3]} == {("arg", 2), ("arg", 3)}
    for case in (0, 1, 2):
        r = case_reach(body, V, isend, case)
        if r is None or not rv:
            continue
        rep.count("event time cases")
        got = any(var == "Some" and i in r for i, var, _ in rv)
        if got != (case == 0):
            rep.violate("window:case%d" % case, "an event behind the end of the block is handed out" if got else "an event inside the block is not handed out", F.fn_loc(fid))
    if not rv:
        rep.count("windowing not in a recognised form")
    held = some_edges(body, V, takes)
    for i, var, pay in rv:
        rep.count("windowing results")
        if var == "None":
            for q, z in held:
                if i in body.reachable(z, avoid=set(st_some)):
                    rep.violate("window:drop", "an event that is not due in this block is dropped", body.where(i))
        elif var == "Some":
            consumed = bool(takes) and any(body.dominates(k, i) for k in takes) or any(body.dominates(k, i) or must_pass(body, i, [k]) is None for k in st_none)
            if not consumed:
                rep.violate("window:repeat", "an event is handed out but kept: it repeats in the next block", body.where(i))
            elif any(body.dominates(k, i) or k == i for k in st_some):
                rep.violate("window:repeat", "an event is handed out but kept: it repeats in the next block", body.where(i))
            for c, v, _ in dev_conds(body, V, i):
                while c[0] == "un":
                    c = c[2]
                if c[0] == "bin" and c[1] in CMPN and any(x and x[0] == "fld" and x[2] == "timing" for x in deep_walk(V, c)) and not any(x == ("arg", 3) for x in deep_walk(V, c)):
                    rep.violate("window:late", "an event is only handed out under a further condition on its time: one that does not meet it is never handed out and blocks those behind it", body.where(i))
            if pay is not None and pay[0] == "agg" and len(pay[2]) == 2:
                t = pay[2][0]
                if not any(x and x[0] == "fld" and x[2] == "timing" for x in deep_walk(V, t)) or not any(x == ("arg", 2) for x in deep_walk(V, t)):
                    rep.violate("window:timing", "the time of an event is not made relative to its block", body.where(i))
    # feed_me/feed
    f = WIN + "::feed"
    if f in F.fns:
        b = flat(F, f)
        BV = Val(b)
        w = [i for i, j, p, r in field_writes(b, BV) if p == ("arg1", "event")]
        if must_pass(b, 0, w) is not None:
            rep.violate("window:feed", "EventWindowing::feed does not always keep the event", F.fn_loc(f))


def nodes(F, rep):
    for im in F.impls:
        if im["trait"] != "dsp::DspNode":
            continue
        for n, p in im["items"]:
            if n != "process" or p not in F.fns:
                continue
            body = flat(F, p, stop=lambda q: "ProcBuf" in q or q.startswith("nodes::midi::"))
            V = Val(body)
            nx = [i for i, t in body.calls() if last(callname(t)) == "next_at" and "midi" in callname(t)]
            if not nx:
                continue
            adt = last(strip_gen(im["self_ty"]))
            rep.count("nodes that read MIDI events")
            wr = set()
            for i, t in body.calls():
                if callname(t) == "dsp::ProcBuf::write":
                    wr.add(i)
            for q, z in some_edges(body, V, nx):
                bad = body.reachable(z, avoid=set(nx)) & (wr | set(body.returns()))
                if bad:
                    rep.violate("node:drain:" + adt, "%s goes on to the next frame without having fetched all events of this one" % adt, body.where(z))
            if not any(j in body.reachable(body.succ(i), avoid=wr) for i in nx for j in nx):
                rep.violate("node:drain:" + adt, "%s fetches at most one event per frame" % adt, body.where(nx[0]))
            # every frame asks for its events
            for i in nx:
                t = body.blocks[i]["t"]
                fr = V.op(t["a"][1])
                if fr[0] in ("k",):
                    rep.violate("node:frame:" + adt, "%s always fetches the events of frame %s" % (adt, fr[1]), body.where(i))
                cs = [c for c in V.conds(i, asserts=False) if not structural(c)]
                cs = [c for c in cs if not loop_bound(c)]
                if cs:
                    rep.violate("node:cond:" + adt, "%s fetches its MIDI events only under a condition (%s)" % (adt, fmt(cs[0][0])[:60]), body.where(i))
            # which list
            for i, t in body.calls():
                if callname(t).startswith(PTR) and last(callname(t)) == "new":
                    f = [x[2] for x in deep_walk(V, V.op(t["a"][0])) if x and x[0] == "fld" and x[2] in LISTS]
                    wantcc = any(v[0] == "discr" for v in [V.op(b["t"]["d"]) for b in body.blocks if b["t"]["k"] == "switch"] if v[0] == "discr" and strip_gen(v[2]).endswith("HxMidiEvent")) and handles_cc(F, body, V)
                    if f:
                        rep.count("event cursors")
                        if wantcc is not None and LISTS[f[0]] != wantcc:
                            rep.violate("node:list:" + adt, "%s reads %s although it handles %s events" % (adt, f[0], "controller" if wantcc else "note"), body.where(i))
    rep.floor("nodes that read MIDI events", 2)


def handles_cc(F, body, V):
    idx = variant_index(F, HME, "CC")
    uses_cc = uses_note = False
    for blk in body.blocks:
        for s in blk["s"]:
            if s[0] == "=":
                txt = str(s[2])
                if "'dc'" in txt:
                    if "'CC'" in txt:
                        uses_cc = True
                    if "'NoteOn'" in txt or "'NoteOff'" in txt:
                        uses_note = True
    if uses_cc and not uses_note:
        return True
    if uses_note and not uses_cc:
        return False
    return None


def loop_bound(c):
    return any(x and x[0] == "call" and last(x[1]) in ("nframes", "next") for x in walk(c[0]))


def kinds(F, rep):
    fid = TE + "::is_cc"
    if fid not in F.fns:
        rep.violate("anchor:is_cc", "HxTimedEvent::is_cc is gone")
        return
    body = flat(F, fid)
    V = Val(body)
    idx = variant_index(F, HME, "CC")
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[1] == [0, []] and s[2][0] == "use" and s[2][1][0] == "k":
                val = bool(s[2][1][1].get("v"))
                for e, v in V.conds(i, asserts=False):
                    if e[0] == "discr" and strip_gen(e[2]).endswith("HxMidiEvent"):
                        rep.count("event classifications")
                        is_cc = v == (idx,)
                        may = is_cc or (v and v[0] == "not" and idx not in v[1]) or (v and v[0] != "not" and idx in v)
                        if val and not is_cc or (not val and may):
                            rep.violate("kind:is_cc", "HxTimedEvent::is_cc misclassifies an event kind", body.where(i))
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "bin":
                e = V.rv(s[2], 0)
                if e[0] == "bin" and any(x and x[0] == "fld" and x[1][0] == "dc" for x in walk(e)):
                    rep.violate("kind:contents", "HxTimedEvent::is_cc depends on the contents of the event", body.where(i))
    # constructors keep what they are given
    for m, var in (("cc", "CC"), ("note_on", "NoteOn"), ("note_off", "NoteOff"), ("new_timed", None)):
        f = TE + "::" + m
        if f not in F.fns:
            rep.violate("anchor:" + f, "HxTimedEvent::%s is gone" % m)
            continue
        b = flat(F, f)
        BV = Val(b)
        for i, blk in enumerate(b.blocks):
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == TE:
                    e = BV.rv(s[2], 0)
                    rep.count("event constructors")
                    if e[2][0] != ("arg", 1):
                        rep.violate("kind:time:" + m, "HxTimedEvent::%s does not keep the given time" % m, b.where(i))
                    k = e[2][1]
                    if var and k[0] == "agg":
                        if k[1][3] != var:
                            rep.violate("kind:variant:" + m, "HxTimedEvent::%s creates a %s event" % (m, k[1][3]), b.where(i))
                        elif any(a[0] == "arg" and b.locals[a[1]][1] and b.locals[a[1]][1] != fn and b.locals[a[1]][1] in [g[0] for g in [v for v in F.adts[HME]["variants"] if v["name"] == var][0]["fields"]] for a, (fn, _, _) in zip(k[2], [v for v in F.adts[HME]["variants"] if v["name"] == var][0]["fields"])) or len(set(k[2])) != len(k[2]):
                            rep.violate("kind:fields:" + m, "HxTimedEvent::%s mixes up its arguments" % m, b.where(i))
