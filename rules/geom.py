"""P22: the hexagonal grid.  Every function that interprets a direction is
tabulated by conditional constant propagation, once per direction (and per
parity of the column); the tables are compared with each other and with the
layout."""
from hx.report import Report
from hx.ccp import CCP, enum, alts, TOP, const_of
from .common import *
from . import common

CD = "cell_dir::CellDir"
EDGES = ["TR", "BR", "B", "BL", "TL", "T"]
OPP = {"TR": "BL", "BL": "TR", "BR": "TL", "TL": "BR", "B": "T", "T": "B"}
PORT = {"TR": "out1", "BR": "out2", "B": "out3", "BL": "in3", "TL": "in2", "T": "in1"}
PORTS = ["in1", "in2", "in3", "out1", "out2", "out3"]
OFFS = [{"TR": (1, -1), "BR": (1, 0), "B": (0, 1), "BL": (-1, 0), "TL": (-1, -1), "T": (0, -1)},
        {"TR": (1, 0), "BR": (1, 1), "B": (0, 1), "BL": (-1, 1), "TL": (-1, 0), "T": (0, -1)}]
CELL = "matrix::Cell::"
M = "matrix::Matrix::"
NEG = {"Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le", "Eq": "Ne", "Ne": "Eq"}
SWAP = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}


def rel(f):
    """fact -> set of (op, a, b) that hold"""
    e, x = f
    if e[0] == "bin" and e[1] in NEG and x in (0, 1):
        o = e[1] if x else NEG[e[1]]
        return [(o, e[2], e[3]), (SWAP[o], e[3], e[2])]
    return []


def rels(facts):
    return {r for f in facts for r in rel(f)}


def at_least_zero(rs, e):
    return any(r[1] == e and (r[0] == "Ge" and r[2] == ("k", 0) or r[0] == "Gt" and r[2] in (("k", -1),)) for r in rs)


def below(rs, e, b):
    return any(r[1] == e and r[0] == "Lt" and r[2] == b for r in rs)


def is_eq(p):
    return "as std::cmp::Partial" in p or "as std::cmp::Ord" in p


def flat(F, fid, stop=None, **kw):
    return common.flat(F, fid, stop=(lambda p: is_eq(p) or stop(p)) if stop else is_eq, **kw)


def flat_or_miss(F, rep, fid, **kw):
    if fid not in F.fns:
        rep.violate("anchor:" + fid, "the function %s is gone: the property's anchor cannot be found" % fid)
        return None
    return flat(F, fid, **kw)


def run(F, body, init, mark=(), **kw):
    c = CCP(body, **kw)
    try:
        st = {}
        for l in range(1, body.argc + 1):
            st[l] = ("sym", ("a%d" % l,))
        st.update(init)
        c.run(st, mark=mark)
    except RuntimeError:
        return None
    return c


def vals(c):
    """[(returned value, state)], or None if not everything is known exactly"""
    if c is None or c.coarse or not c.rets:
        return None
    r = c.retvals()
    if any(v == TOP or st["fuzzy"] for v, st in r):
        return None
    return r


def linx(name, d):
    return ("lin", (name,), d) if d else (name,)


def raw(v):
    return v[2] if v[0] == "par" else v[1] if v[0] == "sym" else v


def opts(c):
    """[(payload or None, state)] of a returned Option"""
    r = vals(c)
    if r is None:
        return None
    out = []
    for v, st in r:
        if v[0] == "agg" and v[2] == "Some":
            out.append((v[3][0], st))
        elif v[0] == "agg" and v[2] == "None":
            out.append((None, st))
        else:
            return None
    return out


def outside(rs, X, Y, W=None, H=None):
    """the facts say that the position lies outside the grid"""
    for r in rs:
        if r[0] == "Lt" and r[1] in (X, Y) and r[2] == ("k", 0) or r[0] == "Le" and r[1] in (X, Y) and r[2] == ("k", -1):
            return True
        if r[0] == "Ge" and W and (r[1], r[2]) in ((X, W), (Y, H)):
            return True
    return False


def p22(F, tier):
    rep = Report("P22", "other")
    rep.rule("for every direction and column parity, the functions that interpret a direction (number, opposite, in/out, offset, neighbour position, adjacency) agree with one hexagonal layout: opposite is an involution that turns outputs into inputs, the neighbour's neighbour in the opposite direction is the cell itself, and positions left of or above the grid are refused")
    rep.rule("for every direction, testing, reading, setting and clearing the port of an edge, the label of an edge, the neighbour's output, the neighbour's input and the list of connections use the same port of the cell and the facing port of the neighbour")
    rep.rule("the grid is only accessed inside its size: get, get_copy, place and get_adjacent refuse every position outside of it, and only those")
    for d in EDGES + ["C"]:
        if not any(v["name"] == d for v in F.adts.get(CD, {"variants": []})["variants"]):
            rep.violate("anchor:CellDir::" + d, "the direction %s is gone" % d)
            return rep
    simple(F, rep)
    offsets(F, rep)
    ports(F, rep)
    neighbours(F, rep)
    connections(F, rep)
    grid(F, rep)
    rep.floor("table entries", 120)
    return rep


def dirname(v):
    return v[2] if v[0] == "agg" and v[1] == ("adt", CD) else None


def expect(F, rep, body, what, d, got, want, msg):
    rep.count("table entries")
    rep.sample("tables", "%s(%s) = %s" % (what, d, got))
    if got != want:
        rep.violate("%s:%s" % (what, d), "%s is %s for the direction %s, %s expected: %s" % (what, got, d, want, msg), F.fn_loc(body.fid))


def one(c):
    """the single returned value"""
    r = vals(c)
    if r is None:
        return None
    s = {v for v, _ in r}
    return s.pop() if len(s) == 1 else ("many", tuple(sorted(s, key=repr)))


def simple(F, rep):
    for fn, tab, msg in (("flip", lambda d: OPP[d], "the opposite of an edge is the edge it faces"),
                         ("is_output", lambda d: int(PORT[d].startswith("out")), "the three edges to the right and below are outputs"),
                         ("is_input", lambda d: int(PORT[d].startswith("in")), "the three edges to the left and above are inputs"),
                         ("as_edge", lambda d: EDGES.index(d), "edges are numbered TR, BR, B, BL, TL, T")):
        body = flat_or_miss(F, rep, CD + "::" + fn)
        if body is None:
            continue
        for d in EDGES:
            v = one(run(F, body, {1: ("refv", enum(F, CD, d))}))
            if v is None:
                continue
            got = dirname(v) or (v[1] if v[0] == "k" else None)
            if got is None:
                continue
            expect(F, rep, body, fn, d, got, tab(d), msg)
    body = flat_or_miss(F, rep, CD + "::from")
    if body:
        for n in range(0, 9):
            v = one(run(F, body, {1: ("k", n)}))
            if v and dirname(v):
                expect(F, rep, body, "from", n, dirname(v), EDGES[n] if n < 6 else "C", "edge numbers and directions correspond")


def offsets(F, rep):
    body = flat_or_miss(F, rep, CD + "::as_offs")
    if body:
        for par in (0, 1):
            for d in EDGES:
                v = one(run(F, body, {1: ("refv", enum(F, CD, d)), 2: ("par", par, ("x",))}))
                k = const_of(v) if v and v[0] == "agg" else None
                if k:
                    expect(F, rep, body, "as_offs", "%s in an %s column" % (d, "odd" if par else "even"), tuple(x[1] for x in k[2]), OFFS[par][d], "odd columns sit half a cell lower than even ones")
    body = flat_or_miss(F, rep, CD + "::offs_pos")
    for par in (0, 1):
        for d in EDGES if body else ():
            o = opts(run(F, body, {1: ("refv", enum(F, CD, d)), 2: ("agg", "tuple", None, (("par", par, ("x",)), ("sym", ("y",))))}))
            if o is None:
                continue
            w = OFFS[par][d]
            want = (linx("x", w[0]), linx("y", w[1]))
            dn = "%s in an %s column" % (d, "odd" if par else "even")
            if not any(p for p, _ in o):
                rep.violate("offs_pos:none:" + dn, "there is never a neighbour for %s" % dn, F.fn_loc(body.fid))
            for pay, st in o:
                rs = rels(st["facts"])
                if pay is None:
                    if not outside(rs, *want):
                        rep.violate("offs_pos:refused:" + dn, "a position that is not negative is refused for %s" % dn, F.fn_loc(body.fid))
                    continue
                if pay[0] != "agg" or any(x == TOP for x in pay[3]):
                    continue
                expect(F, rep, body, "offs_pos", dn, tuple(raw(x) for x in pay[3]), want, "the neighbour's position is the position plus the direction's offset")
                for e, off in zip(want, w):
                    if off < 0 and not at_least_zero(rs, e):
                        rep.violate("offs_pos:neg:" + dn, "a position left of or above the grid is returned for %s" % dn, F.fn_loc(body.fid))
    body = flat_or_miss(F, rep, CD + "::are_adjacent")
    for par in (0, 1) if body else ():
        a = ("agg", "tuple", None, (("par", par, ("x",)), ("sym", ("y",))))
        b = ("agg", "tuple", None, (("sym", ("bx",)), ("sym", ("by",))))
        o = opts(run(F, body, {1: a, 2: b}))
        if o is None or any(p is not None and not dirname(p) for p, _ in o):
            continue
        names = {dirname(p) for p, _ in o if p}
        col = "odd" if par else "even"
        for d in EDGES:
            if d not in names:
                rep.violate("are_adjacent:missing:" + d, "neighbours in direction %s are not recognised (%s column)" % (d, col), F.fn_loc(body.fid))
        for p, st in o:
            if p is None or dirname(p) == "C":
                continue
            d = dirname(p)
            w = OFFS[par][d]
            eqs = [r for r in rels(st["facts"]) if r[0] == "Eq"]
            got = None
            for r in eqs:
                if r[1] == b and isinstance(r[2], tuple) and r[2][0] == "agg":
                    got = tuple(raw(z) for z in r[2][3])
            if got is None:
                gx = [r[2] for r in eqs if r[1] == ("bx",)]
                gy = [r[2] for r in eqs if r[1] == ("by",)]
                if gx and gy:
                    got = (gx[0], gy[0])
            if got is not None:
                expect(F, rep, body, "are_adjacent", "%s in an %s column" % (d, col), got, (linx("x", w[0]), linx("y", w[1])), "two cells are adjacent in a direction exactly if the second lies at the direction's offset")


def port_names(e):
    return {x[2] for x in subs(e) if len(x) == 3 and x[0] == "fld" and x[2] in PORTS}


def ports(F, rep):
    cell = ("sym", ("self",))
    body = flat_or_miss(F, rep, CELL + "has_dir_set")
    for d in EDGES if body else ():
        for p in PORTS:
            # exactly the port p of the cell is assigned
            v = one(run(F, body, {1: ("ref", "M", ()), "M": cell, 2: enum(F, CD, d)}, decide=lambda e, p=p: port_decide(e, {p: 1}, None)))
            if v is None:
                continue
            got = v[1] if v[0] == "k" else port_bool(v[1], {p: 1}) if v[0] == "sym" else None
            if got is not None:
                expect(F, rep, body, "has_dir_set", "%s with %s assigned" % (d, p), got, int(PORT[d] == p), "an edge is assigned if and only if its own port is")
    body = flat_or_miss(F, rep, CELL + "local_port_idx")
    for d in EDGES if body else ():
        r = vals(run(F, body, {1: ("ref", "M", ()), "M": cell, 2: enum(F, CD, d)}))
        if r is None:
            continue
        got = set()
        for v, st in r:
            got |= port_names(v)
        if got or all(v[0] == "agg" and v[2] == "None" for v, _ in r):
            expect(F, rep, body, "local_port_idx", d, tuple(sorted(got)), (PORT[d],), "an edge belongs to one port")
    for fn in ("set_io_dir", "clear_io_dir"):
        body = flat_or_miss(F, rep, CELL + fn)
        for d in EDGES + ["C"] if body else ():
            c = run(F, body, {1: ("ref", "M", ()), "M": cell, 2: enum(F, CD, d), 3: ("sym", ("idx",))})
            if not c or c.coarse:
                continue
            for st in c.rets:
                m = st.get("M", TOP)
                if st["fuzzy"] or m[0] not in ("ov", "sym"):
                    continue
                ch = {k: v for k, v in m[2] if v != ("sym", ("fld", ("self",), k))} if m[0] == "ov" else {}
                if any(v == TOP or v[0] == "alt" for v in ch.values()):
                    continue
                if fn == "set_io_dir":
                    want = {} if d == "C" else {PORT[d]: "Some"}
                else:
                    want = {p: "None" for p in PORTS} if d == "C" else {PORT[d]: "None"}
                got = {k: (v[2] if v[0] == "agg" else "?") for k, v in ch.items()}
                expect(F, rep, body, fn, d, sorted(got.items()), sorted(want.items()), "the edge's own port, and no other, is changed")


def port_of(e):
    """(base, port) of the discriminant of a cell's port"""
    if e[0] == "discr" and isinstance(e[1], tuple) and e[1][0] == "fld" and e[1][2] in PORTS:
        return e[1][1], e[1][2]
    return None


def is_grid_cell(b):
    return isinstance(b, tuple) and any(isinstance(x, tuple) and x and x[0] == "idx" for x in subs(b))


def subs(e):
    yield e
    if isinstance(e, tuple):
        for x in e:
            if isinstance(x, tuple):
                yield from subs(x)


def port_decide(e, mine, other):
    """an input partition: which ports of the cell itself / of a grid cell are assigned"""
    r = port_of(e)
    if not r:
        return None
    if r[0] == ("self",):
        return None if mine is None else mine.get(r[1], 0)
    if is_grid_cell(r[0]):
        return None if other is None else other.get(r[1], 0)
    return None


def port_bool(e, mine):
    if e[0] == "bin" and e[1] in ("Eq", "Ne") and e[3][0] == "k":
        r = port_decide(e[2], mine, None)
        if r is not None:
            return int((r == e[3][1]) == (e[1] == "Eq"))
    return None


def neighbours(F, rep):
    # the output of the neighbour an input edge faces
    body = flat_or_miss(F, rep, M + "get_adjacent_output")
    for par in (0, 1) if body else ():
        for d in EDGES:
            o = opts(run(F, body, {2: ("par", par, ("x",)), 3: ("sym", ("y",)), 4: enum(F, CD, d)}))
            if o is None:
                continue
            dn = "%s in an %s column" % (d, "odd" if par else "even")
            some = [p for p, _ in o if p is not None]
            if PORT[d].startswith("out"):
                expect(F, rep, body, "get_adjacent_output", dn, bool(some), False, "an output edge has no incoming signal")
                continue
            if not some:
                expect(F, rep, body, "get_adjacent_output", dn, "None", PORT[OPP[d]], "an input edge receives the facing output of the neighbour")
            for pay in some:
                if pay[0] != "agg" or len(pay[3]) != 2 or TOP in pay[3]:
                    continue
                node, out = raw(pay[3][0]), raw(pay[3][1])
                ps = port_names(out)
                if len(ps) == 1:
                    expect(F, rep, body, "get_adjacent_output", dn, ps.pop(), PORT[OPP[d]], "an input edge receives the facing output of the neighbour")
                cells = {x for x in subs(out) if x[0] == "idx"}
                if node[0] == "fld" and is_grid_cell(node) and cells and not any(x in cells for x in subs(node)):
                    rep.violate("get_adjacent_output:cell:" + dn, "the node and the output number come from different cells", F.fn_loc(body.fid))
                check_cell_pos(F, rep, body, "get_adjacent_output", dn, cells, OFFS[par][d])
    adjacent_output_cond(F, rep)
    body = flat_or_miss(F, rep, M + "adjacent_edge_has_input")
    for par in (0, 1) if body else ():
        for d in EDGES:
            dn = "%s in an %s column" % (d, "odd" if par else "even")
            for p in PORTS:
                r = vals(run(F, body, {2: ("par", par, ("x",)), 3: ("sym", ("y",)), 4: enum(F, CD, d)},
                             decide=lambda e, p=p: port_decide(e, None, {p: 1})))
                if r is None:
                    continue
                bs = [v[1] if v[0] == "k" else None for v, _ in r]
                if None in bs:
                    bs = [x if x is not None else grid_bool(v, {p: 1}) for x, (v, _) in zip(bs, r)]
                if None in bs:
                    continue
                expect(F, rep, body, "adjacent_edge_has_input", "%s with the neighbour's %s assigned" % (dn, p), 1 in bs, PORT[d].startswith("out") and p == PORT[OPP[d]], "an output edge is taken up by the facing input of the neighbour")
    # labels
    body = flat_or_miss(F, rep, M + "edge_label", stop=lambda p: p.startswith("dsp::") or last(p) in ("info_for",))
    for d in EDGES if body else ():
        c = run(F, body, {3: enum(F, CD, d), 2: ("ref", "M", ()), "M": ("sym", ("self",))})
        if not c:
            continue
        for bb, cs in c.calls.items():
            n = last(callname(body.blocks[bb]["t"]))
            if n not in ("out_name", "in_name"):
                continue
            for vs, st in cs:
                if len(vs) == 2 and vs[1] != TOP and not st["fuzzy"]:
                    ps = port_names(vs[1])
                    if ps:
                        expect(F, rep, body, "edge_label", d, (n, tuple(sorted(ps))), ("out_name" if PORT[d].startswith("out") else "in_name", (PORT[d],)), "the label of an edge names the edge's own port")


def adjacent_output_cond(F, rep):
    """whether there is an incoming signal depends on the facing port and the
    neighbour's node only"""
    body = flat_or_miss(F, rep, M + "get_adjacent_output")
    for par in (0, 1) if body else ():
        for d in ("T", "TL", "BL"):
            dn = "%s in an %s column" % (d, "odd" if par else "even")
            for free in (0, 1):
                other = {p: 1 - free for p in PORTS}
                other[PORT[OPP[d]]] = free
                o = opts(run(F, body, {2: ("par", par, ("x",)), 3: ("sym", ("y",)), 4: enum(F, CD, d)}, decide=lambda e: port_decide(e, None, other)))
                if o is None:
                    continue
                for pay, st in o:
                    fs = {x[2] for f in st["facts"] for x in subs(f[0]) if len(x) == 3 and x[0] == "fld" and is_grid_cell(x[1]) and isinstance(x[2], str)}
                    odd = {x for x in fs if x in ("x", "y") or x in PORTS and x != PORT[OPP[d]]}
                    if pay is not None and odd_bound(st["facts"], OFFS[par][d]):
                        rep.violate("get_adjacent_output:bound:" + dn, "an input edge receives a signal only under another condition than that the neighbour lies inside the grid", F.fn_loc(body.fid))
                    if odd:
                        rep.violate("get_adjacent_output:cond:" + dn, "whether an input edge receives a signal depends on '%s' of the neighbour" % sorted(odd)[0], F.fn_loc(body.fid))
                if not free:
                    expect(F, rep, body, "get_adjacent_output", dn + ", facing output not assigned", any(p is not None for p, _ in o), False, "an input edge receives the facing output of the neighbour only")
                elif not any(p is not None for p, _ in o):
                    expect(F, rep, body, "get_adjacent_output", dn + ", only the facing output assigned", False, True, "an input edge receives the facing output of the neighbour")


def grid_bool(v, other):
    if v[0] == "sym" and v[1][0] == "bin" and v[1][1] in ("Eq", "Ne") and v[1][3][0] == "k":
        r = port_decide(v[1][2], None, other)
        if r is not None:
            return int((r == v[1][3][1]) == (v[1][1] == "Eq"))
    return None


def check_cell_pos(F, rep, body, fn, dn, cells, w):
    for x in cells:
        i = raw(x[2])
        xs = {y for y in subs(i) if y == ("x",) or y[0] == "lin" and y[1] == ("x",)}
        ys = {y for y in subs(i) if y == ("y",) or y[0] == "lin" and y[1] == ("y",)}
        xs = {y for y in xs if y[0] == "lin"} or xs
        ys = {y for y in ys if y[0] == "lin"} or ys
        if len(xs) == 1 and len(ys) == 1:
            expect(F, rep, body, fn + " position", dn, (xs.pop(), ys.pop()), (linx("x", w[0]), linx("y", w[1])), "the neighbour in a direction lies at the direction's offset")


def odd_bound(facts, w):
    """a fact that ties a coordinate to the size of the grid in another way
    than 'column below width' or 'row below height'"""
    X0, Y0, W, H = ("x",), ("y",), "w", "h"
    for e, x in facts:
        sub = list(subs(e))
        if any(y and (y[0] == "idx" or y[0] == "bin" and y[1] == "Mul") for y in sub):
            continue
        cs = {"x" for y in sub if y == X0 or y and y[0] == "lin" and y[1] == X0} | {"y" for y in sub if y == Y0 or y and y[0] == "lin" and y[1] == Y0}
        ds = {y[2] for y in sub if len(y) == 3 and y[0] == "fld" and y[2] in (W, H)}
        if not cs or not ds:
            continue
        if (cs, ds) not in (({"x"}, {W}), ({"y"}, {H})):
            return e
        if e[0] == "bin" and e[1] in NEG:
            a, b = e[2], e[3]
            coord = lambda v: v in (X0, Y0) or v[0] == "lin" and v[1] == X0 and v[2] in (0, w[0]) or v[0] == "lin" and v[1] == Y0 and v[2] in (0, w[1]) or v == ("bin", "Add", X0, ("k", 0))
            dim = lambda v: v[0] == "fld" and v[2] in (W, H)
            less1 = lambda v: v[0] == "bin" and v[1] == "Sub" and dim(v[2]) and v[3] == ("k", 1) or v[0] == "lin" and v[2] == -1
            if coord(b):
                a, b, o = b, a, SWAP[e[1]]
            else:
                o = e[1]
            if coord(a) and (dim(b) and o in ("Lt", "Ge") or less1(b) and o in ("Le", "Gt")):
                continue
            return e
    return None


def connections(F, rep):
    body = flat_or_miss(F, rep, CELL + "is_port_dir_connected")
    for d in EDGES if body else ():
        for mine in (1, 0):
            for p in PORTS:
                o = opts(run(F, body, {1: ("ref", "M", ()), "M": ("sym", ("self",)), 3: enum(F, CD, d)},
                             decide=lambda e, p=p, mine=mine: port_decide(e, {PORT[d]: mine}, {p: 1})))
                if o is None:
                    continue
                expect(F, rep, body, "is_port_dir_connected", "%s, own port %s, neighbour's %s assigned" % (d, "assigned" if mine else "free", p), any(x for x, _ in o), bool(mine and p == PORT[OPP[d]]), "an edge is connected exactly if its port and the facing port of the neighbour are assigned")
    body = flat_or_miss(F, rep, M + "get_connections", stop=lambda p: p == CD + "::from")
    if body:
        pushes = [i for i, t in body.calls() if last(callname(t)) == "push"]
        for d in EDGES if pushes else ():
            res = {}
            for mine in (1, 0):
                for p in PORTS:
                    def dec(e, p=p, mine=mine):
                        r = port_of(e)
                        if not r or not is_grid_cell(r[0]):
                            return None
                        ix = next(x for x in subs(r[0]) if x[0] == "idx")
                        # the centre cell is the one whose position has no offset
                        centre = not any(y[0] == "lin" for y in subs(ix) if y)
                        return ({PORT[d]: mine} if centre else {p: 1}).get(r[1], 0)
                    c = run(F, body, {2: ("par", 0, ("x",)), 3: ("sym", ("y",))}, decide=dec, force={CD: enum(F, CD, d)})
                    if not c or c.coarse:
                        continue
                    for i in pushes:
                        for vs, st in c.calls.get(i, ()):
                            odd = odd_bound(st["facts"], OFFS[0][d])
                            if odd:
                                rep.violate("get_connections:bound:" + d, "a connection at %s is listed only under another condition than that the neighbour lies inside the grid" % d, body.where(i))
                    hits = [(vs, i) for i in pushes for vs, st in c.calls.get(i, ()) if not st["fuzzy"]]
                    if not hits and any(i in c.calls for i in pushes):
                        continue
                    if not hits and any(st["fuzzy"] for ss in c.at.values() for st in ss):
                        continue
                    expect(F, rep, body, "get_connections", "%s, own port %s, neighbour's %s assigned" % (d, "assigned" if mine else "free", p), bool(hits), bool(mine and p == PORT[OPP[d]]), "a connection is listed exactly if the edge's port and the facing port of the neighbour are assigned")
                    for vs, i in hits:
                        ds = [dirname(x) for x in subs(vs[1]) if isinstance(x, tuple) and x and x[0] == "agg" and dirname(x)]
                        if len(ds) == 2 and ds != [d, OPP[d]]:
                            rep.violate("get_connections:dirs:" + d, "the connection at %s is listed as %s -> %s" % (d, ds[0], ds[1]), body.where(i))
        V = Val(body)
        for i, t in body.calls():
            if callname(t) == CD + "::from":
                e = V.op(t["a"][0])
                for x in deep_walk(V, e):
                    if x[0] == "agg" and len(x[1]) > 1 and str(x[1][1]).endswith("Range") and all(y[0] == "k" for y in x[2]):
                        rep.count("direction loops")
                        if (x[2][0][1], x[2][1][1]) != (0, 6):
                            rep.violate("get_connections:range", "only the edges %s..%s are looked at" % (x[2][0][1], x[2][1][1]), body.where(i))


INDEX = ("std::ops::Index::index", "std::ops::IndexMut::index_mut")


def grid(F, rep):
    """index sites of the grid inside the public accessors"""
    W, H = ("fld", ("m",), "w"), ("fld", ("m",), "h")
    for fn in ("get", "get_copy", "place", "get_adjacent"):
        body = flat_or_miss(F, rep, M + fn)
        if body is None:
            continue
        marks = [i for i, t in body.calls() if trait_call(t) in INDEX]
        for d in ([None] if fn != "get_adjacent" else EDGES):
            for par in (0, 1):
                init = {1: ("ref", "M", ()), "M": ("sym", ("m",)), 2: ("par", par, ("x",)), 3: ("sym", ("y",))}
                if d:
                    init[4] = enum(F, CD, d)
                c = run(F, body, init, mark=marks)
                if not c or c.coarse:
                    continue
                w = OFFS[par][d] if d else (0, 0)
                X, Y = linx("x", w[0]), linx("y", w[1])
                name = fn + (":" + d if d else "")
                sites = set()
                for bb in marks:
                    for vs, st in c.calls.get(bb, ()):
                        if len(vs) != 2 or raw(c.val_of(st, vs[0])) != ("fld", ("m",), "matrix"):
                            continue
                        sites.add(bb)
                        rep.count("grid accesses")
                        ix = raw(vs[1])
                        rs = rels(st["facts"])
                        if ix == TOP or ix[0] != "bin" or st["fuzzy"]:
                            continue
                        forms = {("bin", "Add", ("bin", "Mul", X, H), Y), ("bin", "Add", Y, ("bin", "Mul", X, H)), ("bin", "Add", ("bin", "Mul", H, X), Y), ("bin", "Add", Y, ("bin", "Mul", H, X)),
                                 ("bin", "Add", ("bin", "Mul", Y, W), X), ("bin", "Add", X, ("bin", "Mul", Y, W)), ("bin", "Add", ("bin", "Mul", W, Y), X), ("bin", "Add", X, ("bin", "Mul", W, Y))}
                        if ix not in forms:
                            rep.violate("grid:index:" + name, "the cell accessed is not the one at column x and row y", body.where(bb))
                            continue
                        for e, lim, off, ax in ((X, W, w[0], "column"), (Y, H, w[1], "row")):
                            if not below(rs, e, lim):
                                rep.violate("grid:bound:%s:%s" % (name, ax), "%s accesses the grid with a %s that was not checked against the grid's size" % (fn, ax), body.where(bb))
                            if off < 0 and not at_least_zero(rs, e):
                                rep.violate("grid:neg:%s:%s" % (name, ax), "%s accesses the grid with a %s that may be negative" % (fn, ax), body.where(bb))
                for v, st in c.retvals():
                    if st["fuzzy"] or st["seen"] & sites:
                        continue
                    refused = v[0] == "agg" and v[2] == "None" if fn != "place" else bool(sites)
                    if refused and not outside(rels(st["facts"]), X, Y, W, H):
                        rep.violate("grid:refused:" + name, "%s refuses a position inside the grid" % fn, F.fn_loc(body.fid))
    rep.floor("grid accesses", 10)
