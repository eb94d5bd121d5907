#!/usr/bin/env python3
"""seed.py new <id>   : patch.diff from the edits in /tmp/seedwt (a copy of /repo), demo.sh from the template
seed.py test <id>  : demo on clean and patched scratch copy, build + stable tests of the patched one, and the checks
The scratch copy is /tmp/seedwt."""
import os, subprocess, sys, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def sync():
    if not os.path.exists(W):
        sh("git clone -q /repo %s; cp /repo/Cargo.lock %s/; cp -a /repo/target %s/target" % (W, W, W))
    sh("cd %s && git checkout -q -- . && git pull -q --ff-only; git clean -fdq src" % W)
def envsh():
    # env.sh cds to /repo: redirect
    s = open("/opt/vp/env.sh").read().replace("cd /repo || exit 1", "cd %s || exit 1" % W)
    open("/tmp/seedenv.sh", "w").write(s)
def demo(i):
    return sh("cd %s && sed 's#/opt/vp/env.sh#/tmp/seedenv.sh#' %s/seeded/%s/demo.sh > %s/seeded/%s/.d.sh; bash %s/seeded/%s/.d.sh; rc=$?; rm -f %s/seeded/%s/.d.sh; exit $rc" % (W, V, i, V, i, V, i, V, i))
cmd, i = sys.argv[1], sys.argv[2]
D = V + "/seeded/" + i
envsh()
if cmd == "mk":  # seed.py mk <id> <spec.py>: spec defines prop, needs, breaks, edits, demo
    ns = {}
    exec(open(sys.argv[3]).read(), ns)
    sync()
    for f, o, n in ns["edits"]:
        p = W + "/" + f
        s = open(p).read()
        assert s.count(o) == 1, (f, s.count(o), o)
        open(p, "w").write(s.replace(o, n))
    os.makedirs(D, exist_ok=True)
    open(D + "/patch.diff", "w").write(sh("git -C %s diff" % W).stdout)
    for h in sh("git -C %s diff -U0" % W).stdout.splitlines():  # only lines of the original repository may change
        import re
        if h.startswith("--- a/"): fn = h[6:]
        mm = re.match(r"@@ -(\d+)(?:,(\d+))?", h)
        if mm and mm.group(2) != "0":
            a = int(mm.group(1)); n = int(mm.group(2) or 1)
            for b in sh("git -C %s blame -s -L %d,+%d HEAD -- %s" % (W, a, n, fn)).stdout.splitlines():
                if not b.startswith("^"): print("NOT ORIGINAL:", b)
    if "demo" in ns:
        open(D + "/demo.rs", "w").write(ns["demo"])
    shutil.copy(V + "/tools/demo_template.sh", D + "/demo.sh")
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(D + "/meta.json", "w"), indent=1)
    cmd = "test"
if cmd == "test":
    sync()
    r = demo(i)
    print("clean demo rc", r.returncode)
    if r.returncode: print(r.stdout[-3000:])
    a = sh("git -C %s apply %s/patch.diff" % (W, D))
    print("apply", a.returncode, a.stdout)
    r2 = demo(i)
    print("patched demo rc", r2.returncode, r2.stdout[-600:])
    p = json.load(open(D + "/meta.json"))["property"]
    c = sh("HX_REPO=%s python3 %s/check.py %s" % (W, V, os.environ.get("P", p)))
    print("check rc", c.returncode, c.stdout[-1200:])
    if "-t" in sys.argv:
        sh("cd %s; rm -f check_matrix_serialize.hxy check_matrix_sine.wav check_sample_lib_test.wav hexosynth_test_patch.hxy hexosynth_test_patch_2.hxy" % W)
        t = sh(". /tmp/seedenv.sh; timeout -k 10 720 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 --skip check_matrix_tseq_perf > /tmp/seedtest.log 2>&1; python3 /opt/vp/results.py /tmp/seedout.json cargo:/tmp/seedtest.log")
        b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o = json.load(open("/tmp/seedout.json"))
        print("stable not passed:", sorted(x for x in b - set(o["passed"]) if "tseq_perf" not in x))
    sync()
