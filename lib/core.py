"""Common machinery: build the harness against /repo, drive it, validate traces with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time, atexit, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
NCPU = max(2, min(8, os.cpu_count() or 2))

class Inconclusive(Exception):
    pass

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        if not os.environ.get("VERIF_KEEP"):
            atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def go_env():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GO111MODULE="on", TZ="UTC", GOWORK="off")
    e.setdefault("HOME", "/root")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    return e

_bin = None
def build_harness():
    """Compile the driver against the current working tree of /repo."""
    global _bin
    if _bin:
        return _bin
    d = os.path.join(scratch(), "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), d)
    if REPO != "/repo":
        p = os.path.join(d, "go.mod")
        s = open(p).read().replace("=> /repo", "=> " + REPO)
        open(p, "w").write(s)
    out = os.path.join(scratch(), "h.test")
    r = subprocess.run(["go", "test", "-c", "-vet=off", "-o", out, "."], cwd=d, env=go_env(), capture_output=True, text=True, timeout=700)
    if r.returncode != 0:
        raise Inconclusive("the driver does not build against /repo:\n" + r.stderr[-4000:])
    _bin = out
    return out

# ------------------------------------------------------------------ driver

def _run_shard(k, scens, timeout, tag):
    """Runs one driver process; returns (traces, leftover scenarios, note)."""
    d = os.path.join(scratch(), "%s-%d-%d" % (tag, k, time.monotonic_ns()))
    os.makedirs(d)
    job, out = os.path.join(d, "job"), os.path.join(d, "out")
    with open(job, "w") as f:
        for s in scens:
            f.write(json.dumps(s) + "\n")
    e = go_env()
    e.update(VERIF_JOB=job, VERIF_OUT=out, VERIF_DIR=d, TMPDIR=d, GOMAXPROCS="1")
    note = ""
    try:
        r = subprocess.run([_bin, "-test.run", "TestJob", "-test.timeout", "%ds" % (timeout + 30)], cwd=d, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        if r.returncode != 0:
            note = "exit %d: %s" % (r.returncode, r.stdout[-3000:])
    except subprocess.TimeoutExpired as x:
        note = "timeout"
    traces, done = [], -1
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            if not line.endswith("\n"):
                break
            try:
                t = json.loads(line)
            except ValueError:
                break
            if t.get("done"):
                done = max(done, t["i"])
                continue
            traces.append(t)
    shutil.rmtree(d, ignore_errors=True)
    return traces, done, note

def drive(scens, per_proc=None, timeout=300, tag="job"):
    """Runs all scenarios on the real code. Returns (traces, crashes) where crashes
    lists (scenario, note) for scenarios during which the driver process died."""
    build_harness()
    n = len(scens)
    if n == 0:
        return [], []
    per = per_proc or max(1, (n + NCPU - 1) // NCPU)
    shards = [scens[i:i + per] for i in range(0, n, per)]
    traces, crashes, total = [], [], []
    def work(a):
        k, sh = a
        got, crashed = [], []
        while sh and len(total) < 4:
            t, done, note = _run_shard(k, sh, timeout, tag)
            got += t
            if done + 1 >= len(sh):
                break
            bad = sh[done + 1]
            # confirm on its own
            t2, done2, note2 = _run_shard(k, [bad], timeout, tag)
            if done2 < 0:
                crashed.append((bad, note2 or note))
                total.append(1)
            else:
                got += [x for x in t2 if x["id"] not in {y["id"] for y in got}]
            sh = sh[done + 2:]
        return got, crashed
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for t, c in ex.map(work, list(enumerate(shards))):
            traces += t
            crashes += c
    return traces, crashes

# ------------------------------------------------------------------ TLC

def tlc(module, cfg, env=None, args=(), timeout=600, cwd=None, mem="3g", jit=True):
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + mem, "-XX:+UseSerialGC", "-Xss64m"] + ([] if jit else ["-XX:TieredStopAtLevel=1"]) + ["-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-noGenerateSpecTE", "-metadir", d, "-config", cfg] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=cwd or SPEC, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        out, rc = (o.decode(errors="replace") if isinstance(o, bytes) else o), -9
    shutil.rmtree(d, ignore_errors=True)
    return rc, out

def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        m2 = re.findall(r"The number of states generated: (\d+)", out)
        return (int(m2[-1]), int(m2[-1])) if m2 else (0, 0)
    return int(m[-1][0]), int(m[-1][1])

def write_cfg(name, text):
    p = os.path.join(scratch(), name)
    open(p, "w").write(text)
    return p

TRACE_CFG = """SPECIFICATION TraceSpec
CONSTRAINT Track
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANT Check = {%s}
CONSTANT Loud = TRUE
%s
"""

class Validation:
    def __init__(self):
        self.states = self.distinct = self.ok = 0
        self.rejected = []   # (trace, line number, reason)

def _validate_shard(module, cfg, traces, timeout):
    f = os.path.join(scratch(), "tr-%d-%d.json" % (os.getpid(), time.monotonic_ns()))
    with open(f, "w") as o:
        for t in traces:
            o.write(json.dumps({"id": t["id"], "trace": t["trace"]}) + "\n")
    rc, out = tlc(module + ".tla", cfg, env={"VERIF_TRACES": f}, args=["-workers", "1", "-nowarning"], timeout=timeout, jit=len(traces) > 4000)
    os.unlink(f)
    return rc, out

def validate(module, prop, traces, extra="", timeout=800, shards=None):
    """Checks recorded traces against a *Trace module, guards of prop enforced."""
    v = Validation()
    if not traces:
        return v
    cfg = write_cfg("%s-%s.cfg" % (module, prop), TRACE_CFG % ('"%s"' % prop, extra))
    n = shards or min(NCPU, max(1, len(traces) // 40 + 1))
    order = sorted(traces, key=lambda t: -len(t["trace"]))
    parts = [order[i::n] for i in range(n)]
    def one(part):
        return part, _validate_shard(module, cfg, part, timeout)
    todo = list(parts)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        while todo:
            nxt = []
            for part, (rc, out) in ex.map(one, todo):
                if '<<"TRACES", %d>>' % len(part) in out:
                    rej = {}
                    for m in re.finditer(r'<<"REJECTED", (\d+), .*?, (\d+)>>', out):
                        rej[int(m.group(1)) - 1] = int(m.group(2))
                    g, ds = stats(out)
                    v.states += g
                    v.distinct += ds
                    v.ok += len(part) - len(rej)
                    for i, line in rej.items():
                        v.rejected.append((part[i], line, ""))
                elif rc == -9:
                    raise Inconclusive("TLC ran out of time validating traces")
                elif len(part) > 1:
                    h = (len(part) + 3) // 4
                    nxt += [part[i:i + h] for i in range(0, len(part), h)]
                else:
                    if "Exception" in out and "OutOfMemory" in out:
                        raise Inconclusive("TLC: " + out[-2000:])
                    v.rejected.append((part[0], -1, tlc_error(out)))
                if len(v.rejected) > 20 and nxt:
                    nxt = []
            todo = nxt
    return v

def tlc_error(out):
    i = out.find("Error:")
    return out[i:i + 1500] if i >= 0 else out[-1500:]

def diagnose(module, prop, trace, extra=""):
    """Which guard refuses the trace, and at which line?"""
    cfg = write_cfg("%s-%s-diag.cfg" % (module, prop), TRACE_CFG % ('"%s"' % prop, extra))
    rc, out = _validate_shard(module, cfg, [trace], 300)
    guards = list(dict.fromkeys(re.findall(r'<<"GUARD", "(.*?)">>', out)))
    m = re.search(r'<<"REJECTED", 1, .*?, (\d+)>>', out)
    line = int(m.group(1)) if m else -1
    note = "" if m else tlc_error(out)
    return line, guards, note
