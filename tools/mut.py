#!/usr/bin/env python3
"""Self-test of the checkers: applies small edits to scratch copies of /repo and
compares which checks fire with the expectation.
usage: mut.py [-j N] [-p P04,P05] [name substring ...]   (catalogue: tools/mutants.py)
An entry is (name, expected property id or '' for behaviour preserving, [(file, old, new), ...])."""
import os, subprocess, sys, queue, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(V + "/tools/mutants.py").read(), ns)
args = sys.argv[1:]
props = None
jobs = 1
while args and args[0] in ("-p", "-j"):
    if args[0] == "-p":
        props = args[1].split(",")
    else:
        jobs = int(args[1])
    args = args[2:]
todo = queue.Queue()
for m in ns["M"]:
    if args and not any(a in m[0] for a in args):
        continue
    if props and m[1] and m[1] not in props:
        continue
    todo.put(m)
bad = []
lock = threading.Lock()
BASE = "/tmp/hxmut.%d" % os.getpid()


def worker(k):
    S = "%s/%d" % (BASE, k)
    os.makedirs(S + "/repo")
    subprocess.check_call("cd %s && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C %s/repo && cp -a %s/.work %s/work" % (os.environ.get("MUT_BASE", "/repo"), S, V, S), shell=True)
    env = dict(os.environ, HX_REPO=S + "/repo", HX_WORK=S + "/work", HX_EVID=S + "/evidence")
    while True:
        try:
            name, exp, edits = todo.get_nowait()
        except queue.Empty:
            return
        save = {}
        ok = True
        out = ""
        for f, old, new in edits:
            p = S + "/repo/" + f
            s = open(p).read()
            save.setdefault(p, s)
            if old is None:
                open(p, "a").write(new)
                continue
            if s.count(old) < 1:
                out = "STALE  %s: text not found in %s: %s" % (name, f, old[:60])
                ok = False
                break
            open(p, "w").write(s.replace(old, new, 1))
        if ok:
            ids = [exp] if exp and not os.environ.get("ALL") else (props or ["all"])
            r = subprocess.run(["python3", V + "/check.py"] + ids, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            viol = [l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            good = (exp in viol) if exp else not viol
            if r.returncode not in (0, 1):
                good = False
            out = "%s %-45s expected=%s got=%s" % ("ok    " if good else "WRONG ", name, exp or "-", ",".join(viol) or "-")
            if not good or os.environ.get("VERBOSE"):
                out += "\n" + "\n".join("      " + l for l in r.stdout.splitlines() if not l.startswith("OK"))[-1500:]
            ok = good
        if not ok:
            bad.append(name)
        for p, s in save.items():
            open(p, "w").write(s)
        with lock:
            print(out, flush=True)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(jobs)]
[t.start() for t in ts]
[t.join() for t in ts]
subprocess.call(["rm", "-rf", BASE])
print("%d wrong: %s" % (len(bad), bad))
sys.exit(1 if bad else 0)
