"""Builds the fact-extraction driver, runs it over /repo's current working tree
and loads the facts.  Facts are cached by a hash of everything they depend on
(the tree under /repo/src, Cargo.toml, Cargo.lock, the driver's own source)."""
import glob, hashlib, json, os, shutil, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HX_REPO", "/repo")
WORK = os.environ.get("HX_WORK", os.path.join(VERIF, ".work"))
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"

# The audio-thread entry points (the methods a host calls from its callback).
ROOTS = [
    "nodes::node_exec::NodeExecutor::process",
    "nodes::node_exec::NodeExecutor::process_graph_updates",
    "nodes::node_exec::NodeExecutor::feed_midi_events_from",
]


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    sysroot = subprocess.check_output(["rustc", "--print", "sysroot"], env=e, text=True).strip()
    e["LD_LIBRARY_PATH"] = sysroot + "/lib"
    return e


def tree_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + [REPO + "/Cargo.toml", REPO + "/Cargo.lock", REPO + "/build.rs"]
    files += sorted(glob.glob(VERIF + "/driver/src/*.rs"))
    for f in files:
        if os.path.isfile(f):
            h.update(f.replace(REPO, "R").replace(VERIF, "V").encode())
            h.update(open(f, "rb").read())
    h.update(",".join(ROOTS).encode())
    return h.hexdigest()[:20]


def build_driver(env=None):
    env = env or _env()
    e = dict(env)
    e["CARGO_TARGET_DIR"] = WORK + "/driver"
    r = subprocess.run(["cargo", "build", "--offline"], cwd=VERIF + "/driver", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ExtractError("driver build failed:\n" + r.stdout[-4000:])
    return WORK + "/driver/debug/hxfacts"


def extract():
    os.makedirs(WORK, exist_ok=True)
    lock = open(WORK + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(REPO + "/Cargo.lock") and os.path.exists("/opt/vp/Cargo.lock.saved"):
            shutil.copy("/opt/vp/Cargo.lock.saved", REPO + "/Cargo.lock")
        out = "%s/facts-%s.jsonl" % (WORK, tree_hash())
        if os.path.exists(out):
            return out
        env = _env()
        drv = build_driver(env)
        e = dict(env)
        e["RUSTFLAGS"] = "-A dangerous_implicit_autorefs -Zalways-encode-mir"
        e["CARGO_TARGET_DIR"] = WORK + "/target"
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["HX_FACTS_OUT"] = out
        e["HX_ROOTS"] = ",".join(ROOTS)
        # cargo's freshness cache would skip the wrapper on a warm target dir
        for d in glob.glob(WORK + "/target/debug/.fingerprint/hexodsp-*") + glob.glob(WORK + "/target/debug/build/hexodsp*"):
            shutil.rmtree(d)
        r = subprocess.run(["cargo", "check", "--lib", "--offline"], cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ExtractError("cargo check of /repo failed:\n" + r.stdout[-6000:])
        if not os.path.exists(out):
            raise ExtractError("the driver was not run for hexodsp (no facts written)\n" + r.stdout[-2000:])
        old = sorted(glob.glob(WORK + "/facts-*.jsonl"), key=os.path.getmtime)
        for f in old[:-4]:
            os.remove(f)
        return out
    finally:
        lock.close()
