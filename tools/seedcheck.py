#!/usr/bin/env python3
"""seedcheck.py ID [--no-check] : confirm a planted bug in a scratch copy of /repo and run its property's check on it.
With --new ID < patch: nothing. Layout: /verif/seeded/<ID>/{patch.diff,demo.sh,meta.json}"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, errors="replace", **k)
ENV = ". /opt/vp/env.sh; "
def stable(cwd):
    r = sh(ENV + "go test -json -vet=off -count=1 -timeout 5m . ./lock/... ./eventbus/mem/... ./logger/... ./testsuit/... ./example/...", cwd)
    ok = set()
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("Action") == "pass" and d.get("Test"):
            ok.add(d["Package"] + "/" + d["Test"])
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in want if t not in ok]
for sid in [a for a in sys.argv[1:] if not a.startswith("-")]:
    sd = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        r = os.path.join(t, "repo"); d = os.path.join(t, "demo")
        shutil.copytree("/repo", r); shutil.copytree(sd, d)
        clean = sh("bash %s/demo.sh" % d, r, timeout=300)
        a = sh("git apply %s/patch.diff" % sd, r)
        if a.returncode: print(sid, "PATCH DOES NOT APPLY", a.stderr); continue
        b = sh(ENV + "go build ./...", r)
        if b.returncode: print(sid, "DOES NOT BUILD", b.stderr[-800:]); continue
        bad = stable(r)
        dirty = sh("bash %s/demo.sh" % d, r, timeout=300)
        line = "%s [%s] demo clean=%d patched=%d failing-tests=%s" % (sid, meta["property"], clean.returncode, dirty.returncode, bad)
        if clean.returncode: line += "\n   clean: " + (clean.stdout + clean.stderr)[-1500:]
        if dirty.returncode == 0: line += "\n   patched: " + (dirty.stdout + dirty.stderr)[-600:]
        elif "-v" in sys.argv: line += "\n   patched: " + (dirty.stdout + dirty.stderr)[-900:]
        print(line, flush=True)
        if "--no-check" not in sys.argv:
            props = [meta["property"]]
            for a in sys.argv:
                if a.startswith("--also="): props += a[7:].split(",")
            for p in props:
                c = sh("VERIF_REPO=%s VERIF_SEED=1 python3 %s/check.py %s" % (r, V, p), V, timeout=900)
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION") or "refused at" in l]
                print("   check %s -> exit %d %s" % (p, c.returncode, "; ".join(x.strip() for x in v[:4])[:300] if v else (c.stdout + c.stderr)[-300:]), flush=True)
    finally:
        shutil.rmtree(t)
