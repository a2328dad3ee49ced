"""Machinery shared by the checks: building the harness, running its shards,
running TLC, collecting what TLC rejected."""
import fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPECS = os.path.join(ROOT, "specs")
HARNESS = os.path.join(ROOT, "harness")
BIN = os.path.join(HARNESS, "target", "release", "vh")
TLA = ("/opt/veriftools/tla/tla2tools.jar:"
       "/opt/veriftools/tla/CommunityModules-deps.jar")
NCPU = 8


class ToolError(Exception):
    pass


def repo_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def build():
    """Builds the harness against /repo's current working tree."""
    os.makedirs(os.path.join(HARNESS, "target"), exist_ok=True)
    env = dict(os.environ)
    env.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    stamp = os.path.join(HARNESS, "target", "repo.sha256")
    with open(os.path.join(HARNESS, "target", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h:
            # file times say nothing in a copied tree
            subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "congee"],
                           cwd=HARNESS, env=env, capture_output=True)
            if os.path.exists(stamp):
                os.remove(stamp)
        # The last attempt leaves the hooks out, in case one of them no longer
        # compiles: schedules then change threads between operations only, but
        # everything recorded is as real as before.
        for extra in ({}, {}, {"RUSTFLAGS": "--cfg congee_verif --cfg congee_verif_silent"}):
            p = subprocess.run(["cargo", "build", "--release", "--offline"],
                               cwd=HARNESS, env=dict(env, **extra), capture_output=True, text=True)
            if p.returncode == 0:
                break
        if extra and p.returncode == 0:
            print("note: built without the hooks, which do not compile here", flush=True)
        if p.returncode != 0:
            raise ToolError("harness build failed:\n" + p.stderr[-4000:])
        open(stamp, "w").write(h)


def big_stack():
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass


def run_vh(args, timeout):
    """Runs one harness process.  Exit codes 70/71 mean that the library
    crashed or hung the process; its trace so far is in <out>.crash."""
    p = subprocess.Popen([BIN] + [str(a) for a in args], stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, preexec_fn=big_stack)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        return {"rc": -1, "out": o, "err": e}
    return {"rc": p.returncode, "out": o, "err": e}


REJ = re.compile(r'^<<"REJECT", (\d+), ')
DONE = re.compile(r'^<<"DONE", (\d+)(.*)>>$')
GEN = re.compile(r'^(\d+) states generated, (\d+) distinct states found')


def tlc(spec, cfg, meta, env=None, workers=1, heap="3g", timeout=600, extra=()):
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss128m",
           "-Djava.io.tmpdir=" + meta,
           "-cp", TLA, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-config", cfg, *extra, spec]
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        o, _ = p.communicate()
        rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    r = {"rc": rc, "out": o, "rejects": [], "done": None, "states": 0, "distinct": 0,
         "secs": time.time() - t0, "violated": None, "info": []}
    for l in o.splitlines():
        m = REJ.match(l)
        if m:
            r["rejects"].append(int(m.group(1)))
        m = DONE.match(l)
        if m:
            r["done"] = int(m.group(1))
            r["info"].append(m.group(2))
        m = GEN.match(l)
        if m:
            r["states"], r["distinct"] = int(m.group(1)), int(m.group(2))
        if "is violated" in l or "Temporal properties were violated" in l or "Deadlock reached" in l:
            r["violated"] = l
    return r


def segments(path):
    """Line numbers (1-based) where histories start."""
    starts = []
    with open(path) as f:
        for i, l in enumerate(f, 1):
            if l.startswith('{"o":"new"'):
                starts.append(i)
    return starts


def segment_of(path, line):
    """The history holding the given line, as text, and its start line."""
    buf, start = [], 1
    with open(path) as f:
        for i, l in enumerate(f, 1):
            if l.startswith('{"o":"new"'):
                if i > line:
                    break
                buf, start = [], i
            buf.append(l)
    return buf, start


def validate(paths, spec, cfg, env, outdir, timeout=600, heap="3g"):
    """Runs the trace specification over the files; returns totals and rejects
    as (path, line)."""
    paths = [p for p in paths if os.path.exists(p) and os.path.getsize(p) > 0]

    def one(p):
        meta = os.path.join(outdir, "tlc_" + os.path.basename(p))
        r = tlc(spec, cfg, meta, dict(env, TRACE=p), timeout=timeout, heap=heap)
        r["path"] = p
        return r
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(one, paths))
    tot = {"events": 0, "states": 0, "histories": 0, "rejects": [], "info": []}
    for r in rs:
        n = sum(1 for _ in open(r["path"]))
        if r["done"] is None or r["done"] != n:
            raise ToolError("TLC did not finish %s (rc %s, done %s of %s):\n%s" % (
                r["path"], r["rc"], r["done"], n, r["out"][-3000:]))
        tot["events"] += n
        tot["states"] += r["distinct"]
        tot["histories"] += len(segments(r["path"]))
        tot["rejects"] += [(r["path"], l) for l in r["rejects"]]
        tot["info"] += r["info"]
    return tot


def fix_crash(path):
    """Makes a crash dump a complete trace file (its header lacks 'next')."""
    ls = [l for l in open(path, errors="replace").read().splitlines() if l.strip()]
    out, heads = [], [i for i, l in enumerate(ls) if l.startswith('{"o":"new"')]
    if not heads:
        return False
    ls = ls[heads[-1]:]
    h = json.loads(ls[0])
    h["next"] = len(ls) + 1
    out = [json.dumps(h, separators=(",", ":"))]
    for l in ls[1:]:
        try:
            json.loads(l)
            out.append(l)
        except ValueError:
            pass
    h["next"] = len(out) + 1
    out[0] = json.dumps(h, separators=(",", ":"))
    open(path, "w").write("\n".join(out) + "\n")
    return True
