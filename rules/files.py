"""P15: saving a patch never damages the file that is being replaced."""
import re
from .matrix import *
from .midi import ret_values

MR = "matrix_repr::MatrixRepr::"
OPENERS = {"open", "create", "create_new", "write", "copy", "remove_file", "rename", "hard_link", "set_len", "options", "truncate"}
TRANSP = {"as_ref", "new", "to_path_buf", "clone", "into", "deref", "borrow", "as_path", "to_owned", "to_string", "from", "as_os_str", "as_str", "must_use", "to_string_lossy", "into_owned", "as_os_string"}
PATHISH = re.compile(r"Path|String|str\b|AsRef|Clone|Borrow|ToOwned|Into|From|Deref|hint|convert|OsStr")


PUSHES = {"push", "push_str", "set_extension", "set_file_name", "insert_str", "insert", "truncate", "pop", "write_fmt", "write_str", "add_assign", "extend", "replace_range"}


def grown(body):
    """locals that are changed in place by string/path operations"""
    ref = {}
    for b in body.blocks:
        for s in b["s"]:
            if s[0] == "=" and not s[1][1] and s[2][0] == "ref" and s[2][2] == "mut":
                ref[s[1][0]] = ref.get(s[2][1][0], s[2][1][0]) if s[2][1][1] == ["*"] else s[2][1][0]
    out = set()
    for i, t in body.calls():
        if last(callname(t) or trait_call(t)) in PUSHES and t["a"]:
            l = oplocal(t["a"][0])
            if l in ref:
                out.add(ref[l])
    return out


def oplocal(o):
    p = o[1] if o and o[0] in ("c", "m") else None
    return p[0] if p else None


def path_of(V, e, dep=0):
    """("arg", n) when the expression is the path argument itself, a derived
    expression otherwise"""
    while dep < 40:
        dep += 1
        e = strip(e)
        if e[0] in ("ref", "deref", "cast"):
            e = e[1] if e[0] != "cast" else e[2]
            continue
        if e[0] == "call" and last(e[1]) in TRANSP and len(e[2]) == 1 and (PATHISH.search(e[1]) or e[1].startswith("::")):
            e = e[2][0]
            continue
        break
    return e


def path_op(body, V, o):
    """path_of for an operand, but a string changed in place is derived"""
    g = grown(body)
    if g:
        defs = {}
        for b in body.blocks:
            for s in b["s"]:
                if s[0] == "=" and not s[1][1]:
                    defs.setdefault(s[1][0], []).append(s[2])
            t = b["t"]
            if t["k"] == "call" and not t["d"][1] and last(callname(t) or trait_call(t)) in TRANSP:
                defs.setdefault(t["d"][0], []).extend(["use", a] for a in t["a"])
        wl, seen = [], set()

        def push(pl, k):
            f = next((q[1] for q in pl[1] if isinstance(q, list) and q[0] == "f"), None)
            wl.append((pl[0], f if f is not None else k))

        if o[0] in ("c", "m"):
            push(o[1], None)
        while wl:
            l, k = wl.pop()
            if (l, k) in seen:
                continue
            seen.add((l, k))
            if l in g:
                return ("changed", l, V.op(o))
            for rv in defs.get(l, ()):
                if rv[0] == "agg":
                    ops = rv[2]
                    for q in ([ops[k]] if isinstance(k, int) and k < len(ops) else []):
                        if q[0] in ("c", "m"):
                            push(q[1], None)
                elif rv[0] == "ref":
                    push(rv[1], k)
                else:
                    for q in rv[1:]:
                        if isinstance(q, list) and q and q[0] in ("c", "m"):
                            push(q[1], k)
    return path_of(V, V.op(o))


def opt_flags(V, e):
    """OpenOptions flags set in a builder chain"""
    out = {}
    for x in deep_walk(V, e):
        if x and x[0] == "call" and "OpenOptions" in x[1] and len(x[2]) == 2 and last(x[1]) in ("read", "write", "append", "create", "truncate", "create_new"):
            v = x[2][1]
            out.setdefault(last(x[1]), v[1] if v[0] == "k" else 1)
            if v[0] in ("call", "bin", "un", "arg", "ovf"):
                out["?" + last(x[1])] = 1
    return out


def file_ops(body, V):
    """(block, kind, path expression) of everything that changes or opens a file"""
    out = []
    for i, t in body.calls():
        c = callname(t)
        n = last(c)
        if "fs::" not in c:
            continue
        a = [path_op(body, V, x) if k or "OpenOptions" not in c else V.op(x) for k, x in enumerate(t["a"])]
        if "OpenOptions" in c:
            if n == "open":
                fl = dict(builder_flags(body, V, a[0]))
                w = any(fl.get(k) for k in ("write", "append", "create", "truncate", "create_new"))
                out.append((i, "open-write" if w else "open-read", a[1], fl))
        elif n in ("create", "create_new") and "File" in c:
            out.append((i, "open-write", a[0], {"truncate": 1, "write": 1, "create": 1}))
        elif n == "open" and "File" in c:
            out.append((i, "open-read", a[0], {}))
        elif n == "write" and "File" not in c:
            out.append((i, "write-file", a[0], {"truncate": 1}))
        elif n in ("remove_file", "rename", "copy", "hard_link", "remove_dir_all"):
            out.append((i, n, a[0], {"to": a[1] if len(a) > 1 else None}))
        elif n == "set_len":
            out.append((i, "set_len", a[0], {}))
    return out


def builder_flags(body, V, e):
    """flags of the builder, chained or set one call after the other"""
    fl = opt_flags(V, e)
    root = [x for x in deep_walk(V, e) if x and x[0] == "call" and "OpenOptions" in x[1] and last(x[1]) in ("new", "options")]
    ids = set(x[3] for x in root if len(x) > 3)
    for i, t in body.calls():
        n = last(callname(t))
        if "OpenOptions" in callname(t) and n in ("read", "write", "append", "create", "truncate", "create_new"):
            r = [x for x in deep_walk(V, V.op(t["a"][0])) if x and x[0] == "call" and "OpenOptions" in x[1] and last(x[1]) in ("new", "options")]
            if not ids or any(len(x) > 3 and x[3] in ids for x in r):
                v = V.op(t["a"][1])
                fl.setdefault(n, v[1] if v[0] == "k" else 1)
                if v[0] in ("call", "bin", "un", "arg"):
                    fl["?" + n] = 1
    return fl.items()


def p15(F, tier):
    rep = Report("P15", "other")
    rep.rule("write_to_file opens for writing only another file than the target, next to it; it writes the complete text there with a call that does not stop half way, and replaces the target by renaming that file only after opening and writing succeeded; every failure is returned, and success only after the rename")
    rep.rule("read_from_file opens its file read-only, reads it to the end and passes exactly these bytes on; save_patch_to_file saves the representation of the given matrix under the given path, load_patch_from_file loads the file's representation into the given matrix; both return every error")
    write(F, rep)
    read(F, rep)
    mem(F, rep)
    wrappers(F, rep)
    rep.assume("rename() replaces the target atomically (POSIX); durability across a power failure (fsync) is not claimed")
    return rep


def err_reach(fl, i, stop_at=()):
    return fl.run(forced(fl, i, ("v", 1)), stop_at=stop_at)


def write(F, rep):
    fid = MR + "write_to_file"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p == MR + "serialize" or p == MR + "write_to_mem")
    if body is None:
        return
    V = Val(body)
    fl = Flow(body)
    ops = file_ops(body, V)
    T = ("arg", 2)
    opens, ren, writes = [], [], []
    for i, k, e, x in ops:
        rep.count("file operations of saving")
        p = e if e[0] == "changed" else path_of(V, e)
        if k in ("open-write", "write-file", "set_len", "copy-to"):
            if p == T:
                rep.violate("target:" + k, "saving opens the existing patch file for writing: an interrupted or failed save destroys it", body.where(i))
            else:
                deps = set(y for y in deep_walk(V, p) if y and y[0] == "arg")
                if T not in deps:
                    rep.violate("tmp:where", "the temporary file does not lie next to the patch file: saves collide, or the rename crosses a file system", body.where(i))
                if any(y and y[0] == "call" and last(y[1]) in ("temp_dir", "file_name", "file_stem", "canonicalize") and "env" in y[1] + "env" and last(y[1]) == "temp_dir" for y in deep_walk(V, p)):
                    rep.violate("tmp:where", "the temporary file lies in another directory: the rename can cross a file system", body.where(i))
                if any(y and y[0] == "call" and (last(y[1]).startswith("trim") or last(y[1]) in ("with_extension", "strip_suffix", "replace", "replacen", "to_lowercase", "to_uppercase", "file_stem", "to_ascii_lowercase")) for y in deep_walk(V, p)):
                    rep.violate("tmp:same", "the temporary file can be the patch file itself: its name does not always differ from the given one", body.where(i))
                if k == "open-write" and (not x.get("truncate") or x.get("?truncate")) and not x.get("create_new"):
                    rep.violate("tmp:truncate", "left over content of an older temporary file stays behind the new text", body.where(i))
                if x.get("append"):
                    rep.violate("tmp:truncate", "the text is appended to an older temporary file", body.where(i))
            (writes if k == "write-file" else opens).append((i, p))
        elif k == "remove_file":
            if p == T:
                rep.violate("target:remove", "saving removes the existing patch file first", body.where(i))
        elif k == "copy" or k == "hard_link":
            if path_of(V, x["to"]) == T:
                rep.violate("target:copy", "saving copies over the existing patch file: an interrupted save destroys it", body.where(i))
        elif k == "rename":
            if p == T:
                # the old file moved away: a crash leaves no patch file
                rep.violate("target:move", "saving moves the existing patch file away first", body.where(i))
            if path_of(V, x["to"]) == T:
                ren.append((i, p))
            else:
                rep.violate("rename:to", "saving renames the new file to something else than the given path", body.where(i))
    if not ren:
        if not opens and not writes:
            rep.violate("write:none", "write_to_file writes no file", F.fn_loc(fid))
        elif all(p != T for _, p in opens + writes):
            rep.violate("rename:none", "write_to_file never puts the new file in the place of the old one", F.fn_loc(fid))
        return
    R = [i for i, _ in ren]
    for i, p in ren:
        rep.count("replacements of the patch file")
        src = set(norm(q) for _, q in opens + writes)
        if src and norm(p) not in src:
            rep.violate("rename:from", "saving renames another file than the one it wrote", body.where(i))
    W = []
    for i, t in body.calls():
        n = last(callname(t) or trait_call(t))
        tr = trait_call(t) or callname(t)
        if n in ("write_all", "write_fmt") and "Write" in tr or n in ("write_all", "write_fmt") and "io" in tr:
            W.append(i)
            if n == "write_all":
                whole(F, rep, body, V, i, V.op(t["a"][1]), "write_to_file")
        elif n == "write" and "io::Write" in tr:
            rep.violate("write:part", "write_to_file uses write(), which may write only a part", body.where(i))
            W.append(i)
    for i, _ in writes:
        W.append(i)
        whole(F, rep, body, V, i, V.op(body.blocks[i]["t"]["a"][1]), "write_to_file")
    rep.count("writes of the text", len(W))
    if not W:
        rep.violate("write:none", "write_to_file writes nothing", F.fn_loc(fid))
    for r in R:
        if W and r in fl.run([(0, {})], avoid=W):
            rep.violate("write:late", "write_to_file can replace the patch file before the new text was written", body.where(r))
        for w in W:
            if w in body.reachable(body.succ(r)):
                rep.violate("write:late", "write_to_file writes after it replaced the patch file", body.where(w))
    # failures
    for i in sorted(set(W + R + [i for i, _ in opens])):
        rep.count("failures followed")
        seen = err_reach(fl, i)
        if i not in R and any(r in seen for r in R):
            rep.violate("fail:replace:" + last(callname(body.blocks[i]["t"])), "write_to_file replaces the patch file although %s() failed" % last(callname(body.blocks[i]["t"]) or trait_call(body.blocks[i]["t"])), body.where(i))
        for _, r in fl.returns(seen):
            if r == 0:
                rep.violate("fail:hidden:" + last(callname(body.blocks[i]["t"])), "write_to_file reports success although %s() failed" % last(callname(body.blocks[i]["t"]) or trait_call(body.blocks[i]["t"])), body.where(i))
    for _, r in fl.returns(fl.run([(0, {})], avoid=R)):
        if r == 0:
            rep.violate("success:early", "write_to_file reports success without having replaced the patch file", F.fn_loc(fid))
    # buffered writers have to be flushed, with the error seen, before the rename
    bw = [i for i, t in body.calls() if last(callname(t)) in ("new", "with_capacity") and ("BufWriter" in callname(t) or "LineWriter" in callname(t))]
    fls = [i for i, t in body.calls() if last(callname(t) or trait_call(t)) in ("flush", "into_inner", "into_parts")]
    for i in bw:
        rep.count("buffered writers")
        for r in R:
            if must_pass(body, i, fls, [r]) is not None:
                rep.violate("buffer:flush", "write_to_file replaces the patch file while text is still in the buffer", body.where(i))
    for i in fls:
        seen = err_reach(fl, i)
        if any(r in seen for r in R):
            rep.violate("fail:replace:flush", "write_to_file replaces the patch file although flush() failed", body.where(i))


CUT = {"take", "skip", "trim", "trim_end", "trim_start", "split_at", "get", "lines", "chars", "truncate", "replace", "split", "chunks", "first", "filter", "step_by", "pop"}


def whole(F, rep, body, V, i, e, who):
    """the complete result of serialize (and nothing else before it) is written"""
    cs = [x for x in deep_walk(V, e) if x and x[0] == "call" and last(x[1]) in ("serialize", "write_to_mem")]
    if not cs:
        # written in pieces: one of them has to be the text
        return
    rep.count("texts written")
    for x in deep_walk(V, e):
        if x and x[0] == "call" and last(x[1]) in CUT and any(y and y[0] == "call" and last(y[1]) in ("serialize", "write_to_mem") for y in walk(("t",) + tuple(x[2]))):
            rep.violate("text:cut:" + who, "%s writes only a part of the text (%s)" % (who, last(x[1])), body.where(i))
        if x and x[0] == "idx" and x[2][0] == "agg" and "Range" in str(x[2][1]) and "RangeFull" not in str(x[2][1]):
            rep.violate("text:cut:" + who, "%s writes only a part of the text" % who, body.where(i))
    for j, t in body.calls():
        if last(callname(t)) in ("truncate", "pop", "clear", "remove", "drain", "split_off", "retain", "insert", "insert_str", "replace_range") and t["a"] and any(x and x[0] == "call" and last(x[1]) in ("serialize", "write_to_mem") for x in walk(V.op(t["a"][0]))):
            rep.violate("text:cut:" + who, "%s changes the text before writing it (%s)" % (who, last(callname(t))), body.where(j))


def read(F, rep):
    fid = MR + "read_from_file"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p in (MR + "deserialize", MR + "read_from_mem"))
    if body is None:
        return
    V = Val(body)
    fl = Flow(body)
    D = calls_of(body, MR + "deserialize") + calls_of(body, MR + "read_from_mem")
    src = []
    for i, k, e, x in file_ops(body, V):
        rep.count("file operations of loading")
        if k != "open-read":
            rep.violate("read:write", "loading a patch can change the file (%s)" % k, body.where(i))
        elif path_of(V, e) != ("arg", 1):
            if path_of(V, e)[0] in ("k", "call", "arg"):
                rep.violate("read:path", "loading reads another file than the given one", body.where(i))
        src.append(i)
    rd = []
    for i, t in body.calls():
        c = trait_call(t) or callname(t)
        n = last(callname(t)) or last(c)
        if n in ("read_to_end", "read_to_string") or n == "read" and "fs::read" in callname(t):
            rd.append(i)
            if n == "read" and path_of(V, V.op(t["a"][0])) != ("arg", 1):
                rep.violate("read:path", "loading reads another file than the given one", body.where(i))
            if any(x and x[0] == "call" and last(x[1]) == "take" for x in deep_walk(V, V.op(t["a"][0]))):
                rep.violate("read:part", "loading reads only a part of the file", body.where(i))
        elif n in ("read", "read_exact", "read_buf", "read_line", "read_until") and "OpenOptions" not in c and re.search(r"\bio::|BufRead|Read>?::", c):
            rd.append(i)
            if i not in body.reachable(body.succ(i)):
                rep.violate("read:part", "loading reads only a part of the file (%s)" % n, body.where(i))
    rep.count("file contents read", len(rd))
    if not D:
        rep.violate("read:none", "read_from_file does not interpret the file", F.fn_loc(fid))
    for i in rd + src:
        for _, r in fl.returns(err_reach(fl, i)):
            if r == 0:
                rep.violate("read:hidden", "read_from_file hides that reading failed", body.where(i))
        if any(d in err_reach(fl, i) for d in D):
            rep.violate("read:hidden", "read_from_file interprets the file although reading it failed", body.where(i))
    for d in D:
        if rd and must_pass(body, 0, rd, [d]) is not None:
            rep.violate("read:skip", "read_from_file can interpret something it has not read", body.where(d))
        cutread(rep, body, V, d, "read_from_file")
    utf8(rep, body, V, fl, D, "read_from_file")


def utf8(rep, body, V, fl, D, who):
    for i, t in body.calls():
        if last(callname(t)) in ("from_utf8_lossy", "from_utf8_unchecked"):
            rep.violate("read:utf8:" + who, "%s accepts text that is not valid UTF-8" % who, body.where(i))
        if last(callname(t)) == "from_utf8":
            seen = err_reach(fl, i)
            if any(d in seen for d in D):
                rep.violate("read:utf8:" + who, "%s interprets invalid text" % who, body.where(i))


def cutread(rep, body, V, d, who):
    e = V.op(body.blocks[d]["t"]["a"][0])
    for x in deep_walk(V, e):
        if x and (x[0] == "call" and last(x[1]) in CUT - {"trim", "trim_end", "trim_start"} and "str" in x[1] + "str" and last(x[1]) not in ("get",) or x[0] == "idx" and x[2][0] == "agg" and "Range" in str(x[2][1]) and "RangeFull" not in str(x[2][1])):
            rep.violate("read:cut:" + who, "%s interprets only a part of the text" % who, body.where(d))


def mem(F, rep):
    fid = MR + "write_to_mem"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p == MR + "serialize")
    if body is not None:
        V = Val(body)
        rep.count("memory functions")
        S = calls_of(body, MR + "serialize")
        if must_pass(body, 0, S) is not None:
            rep.violate("mem:text", "write_to_mem can return something else than the text", F.fn_loc(fid))
        whole_ret(F, rep, body, V, "write_to_mem")
    fid = MR + "read_from_mem"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p == MR + "deserialize")
    if body is not None:
        V = Val(body)
        fl = Flow(body)
        rep.count("memory functions")
        D = calls_of(body, MR + "deserialize")
        if not D:
            rep.violate("mem:read", "read_from_mem does not interpret the text", F.fn_loc(fid))
        for d in D:
            e = V.op(body.blocks[d]["t"]["a"][0])
            if not any(x == ("arg", 1) for x in deep_walk(V, e)):
                rep.violate("mem:read", "read_from_mem interprets something else than the given text", body.where(d))
            cutread(rep, body, V, d, "read_from_mem")
        utf8(rep, body, V, fl, D, "read_from_mem")


def whole_ret(F, rep, body, V, who):
    for i, b in enumerate(body.blocks):
        if b["cl"]:
            continue
        for s in b["s"]:
            if s[0] == "=" and s[1] == [0, []]:
                whole(F, rep, body, V, i, V.rv(s[2], 0), who)
        if b["t"]["k"] == "call" and b["t"]["d"] == [0, []]:
            whole(F, rep, body, V, i, V.call(i, b["t"], 0), who)


def wrappers(F, rep):
    TO, FR = "matrix::Matrix::to_repr", "matrix::Matrix::from_repr"
    fid = "matrix_repr::save_patch_to_file"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith("matrix::Matrix::") or p.startswith(MR))
    if body is not None:
        V = Val(body)
        fl = Flow(body)
        W = calls_of(body, MR + "write_to_file")
        rep.count("wrappers")
        if must_pass(body, 0, W) is not None:
            rep.violate("save:skip", "save_patch_to_file can return without saving", F.fn_loc(fid))
        for w in W:
            a = [V.op(x) for x in body.blocks[w]["t"]["a"]]
            if path_of(V, a[1]) != ("arg", 2):
                rep.violate("save:path", "save_patch_to_file saves to another path", body.where(w))
            if not any(x and x[0] == "call" and strip_gen(x[1]) == TO for x in deep_walk(V, a[0])):
                rep.violate("save:what", "save_patch_to_file saves something else than the matrix", body.where(w))
            for _, r in fl.returns(err_reach(fl, w)):
                if r == 0:
                    rep.violate("save:hidden", "save_patch_to_file hides that saving failed", body.where(w))
    for fid, rdr, src in (("matrix_repr::load_patch_from_file", "read_from_file", "path"), ("matrix_repr::load_patch_from_mem", "read_from_mem", "text")):
        who = last(fid)
        body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith("matrix::Matrix::") or p.startswith(MR))
        if body is None:
            continue
        V = Val(body)
        fl = Flow(body)
        R, L = calls_of(body, MR + rdr), calls_of(body, FR)
        rep.count("wrappers")
        # everything that can change the matrix
        C = [i for i, t in body.calls() if F.callee(t) and F.callee(t).startswith("matrix::Matrix::") and mut_self(F, F.callee(t))]
        for n, l in ((rdr, R), ("from_repr", L)):
            if not l:
                rep.violate("load:none:%s:%s" % (who, n), "%s does not call %s" % (who, n), F.fn_loc(fid))
            for i in l:
                for _, r in fl.returns(err_reach(fl, i)):
                    if r == 0:
                        rep.violate("load:hidden:%s:%s" % (who, n), "%s hides that %s failed" % (who, n), body.where(i))
        for i in R:
            e = V.op(body.blocks[i]["t"]["a"][0])
            if path_of(V, e) != ("arg", 2) and ("arg", 2) not in set(x for x in deep_walk(V, e) if x and x[0] == "arg"):
                rep.violate("load:path:" + who, "%s loads another %s than the given one" % (who, src), body.where(i))
            if any(x in err_reach(fl, i) for x in C):
                rep.violate("load:half:" + who, "%s changes the matrix although the %s could not be read" % (who, src), body.where(i))
        for _, r in fl.returns(fl.run([(0, {})], avoid=L)):
            if r == 0:
                rep.violate("load:skip:" + who, "%s can report success without loading" % who, F.fn_loc(fid))
        for i in C:
            if i in fl.run([(0, {})], avoid=R):
                rep.violate("load:early:" + who, "%s changes the matrix before the %s was read and checked" % (who, src), body.where(i))
    fid = "matrix_repr::save_patch_to_mem"
    body = flat_or_miss(F, rep, fid, stop=lambda p: p.startswith("matrix::Matrix::") or p.startswith(MR))
    if body is not None:
        V = Val(body)
        rep.count("wrappers")
        W = calls_of(body, MR + "write_to_mem")
        if must_pass(body, 0, W) is not None:
            rep.violate("save:mem", "save_patch_to_mem can return something else than the patch", F.fn_loc(fid))
        for w in W:
            if not any(x and x[0] == "call" and strip_gen(x[1]) == TO for x in deep_walk(V, V.op(body.blocks[w]["t"]["a"][0]))):
                rep.violate("save:mem", "save_patch_to_mem saves something else than the matrix", body.where(w))
