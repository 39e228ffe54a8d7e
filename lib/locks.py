"""Lock family: scenarios for contenders of database and Redis locks."""
import core, engine

def setup(p, what):
    p.module, p.fam = "LeaseTrace", "lock"
    p.assumptions = [what, "all processes read the same clock, single statements take a bounded time, and the caller's own context outlives the work where its lock is to be released"]
    p.timeout = 500
    p.per_proc = 40

DBSIM = "the database behind the lock is a simulation of MySQL (row locks, changed-row counts, error codes) on SQLite; the SQL text is the one gorm's MySQL dialect produces"
REDISSIM = "the Redis server is a simulation that speaks the protocol to the real client library (SET NX PX, the scripts of redislock, expiry, lost connections)"

KEYS = ["k", "k", "k", "m"]
PROCS = ["p1", "p2", "p3", "p4"]

def base(r, kind, **kw):
    ri = r.choice([100, 200, 300])
    d = dict(fam="lock", kind=kind, seed=r.randrange(1 << 30), ri=ri, ttl=r.choice([ri + 50, ri * 2, ri * 3, 1000]), retry=r.random() < .5,
             trans=r.random() < .3, sched=r.choice(["", "rnd", "rnd"]), steps=[])
    if kind == "redis":
        d["ttl"] = r.choice([300, 1000, 2500, 5000])
    d.update(kw)
    return d

class G:
    def __init__(self, r, s):
        self.r, self.s, self.n, self.held = r, s, 0, []
    def put(self, *a):
        self.s["steps"].append(list(a))
    def name(self):
        self.n += 1
        return "h%d" % self.n
    def wait(self, *a):
        t = self.s["ttl"]
        self.put("wait", self.r.choice(a or (0, 30, 100, t - 1, t, t + 1, t // 2, t * 2)))
    def lock(self, p=None, k=None):
        h = self.name()
        p = p or self.r.choice(PROCS[:3])
        self.held.append((p, h))
        return ["lock", p, h, k or self.r.choice(KEYS)]
    def unlock(self):
        p, h = self.r.choice(self.held)
        return ["unlock", p, h]

def contend(r, n, kind, **kw):
    """Several processes ask for, hold, lose, release and ask again for the same keys."""
    out = []
    for _ in range(n):
        s = base(r, kind, **kw)
        g = G(r, s)
        for _ in range(r.randint(3, 9)):
            x = r.random()
            if x < .3:
                ps = r.sample(PROCS, r.randint(2, 4))
                k = r.choice(KEYS)
                g.put("par", *[g.lock(p, k) for p in ps])
            elif x < .55 or not g.held:
                g.put(*g.lock())
            elif x < .85:
                a = g.unlock()
                if r.random() < .3:
                    g.put("par", a, r.choice([g.unlock(), g.lock()]))
                else:
                    g.put(*a)
                    if r.random() < .15:
                        g.put(*a)
            elif x < .9:
                g.put(r.choice(["steal", "take"]), r.choice(KEYS))
            elif x < .94:
                g.put("crash", r.choice(PROCS))
            else:
                g.put("cancel", *r.choice(g.held))
            if r.random() < .6:
                g.wait()
        g.put("wait", 4500 if kind == "redis" else 600)
        k = r.choice(KEYS)
        g.put("wait", s["ttl"])
        g.put("lock", "q", "hq", k)       # the key can be acquired again
        g.put("wait", 50)
        g.put("unlock", "q", "hq")
        g.put("wait", 50)
        g.put("end", 300)
        out.append(s)
    return out

FAULTS = dict(kinds=["err", "errafter", "crash", "crashafter", "stall"])

def explore(profile, depth, variant="", timeout=800):
    """Every interleaving of statements up to a depth: the specification accepts it; a script for each situation."""
    rc, out = core.tlc("MCLease.tla", "MCLease.cfg", env={"MC_PROFILE": profile, "MC_DEPTH": str(depth), "MC_VARIANT": variant},
                       args=["-workers", "4" if variant else "1", "-nowarning"], timeout=timeout, mem="4g")
    done = "Model checking completed. No error" in out
    if variant:
        if "Invariant Accepted2 is violated" not in out:
            raise core.Inconclusive("Lease does not refuse the broken lock %s/%s: %s" % (profile, variant, core.tlc_error(out)))
    elif not done:
        raise core.Inconclusive("design check MCLease/%s failed: %s" % (profile, core.tlc_error(out)))
    return engine.parse_sc(out), core.stats(out)

MODEL = {"lock": dict(kind="db", ttl=100, ri=50, retry=False), "lock3": dict(kind="db", ttl=100, ri=50, retry=False), "run": dict(kind="db", ttl=100, ri=50, retry=False),
         "late": dict(kind="db", ttl=100, ri=50, retry=False, slack=100), "redis": dict(kind="redis", ttl=250, ri=50, retry=False)}

def scripts(p, profile, depth, num, variants=()):
    """Scenarios that take the real lock through the specification's interleavings, statement by statement."""
    if p.recording:
        p.explored = getattr(p, "explored", {})
        p.explored[profile] = p.pool.submit(explore, profile, depth)
        for v, d in variants:
            p.later("MCLease/%s refuses the broken lock '%s'" % (profile, v), lambda v=v, d=d: explore(profile, d, v)[1])
        return []
    scs, st = p.explored[profile].result()
    p.design.append(("MCLease/%s depth %d" % (profile, depth), st[0], st[1]))
    # longer scripts first, no script that another one begins with
    scs.sort(key=lambda s: (-len(s["steps"]), str(s["steps"])))
    seen, keep = set(), []
    for s in scs:
        k = str(s["steps"])[:-1]
        if k in seen:
            continue
        keep.append(s)
        for i in range(1, len(s["steps"])):
            seen.add(str(s["steps"][:i])[:-1])
    out = []
    m = MODEL[profile]
    unit = 60 if profile.startswith("lock") else 50
    for s in engine.pick(p.rnd, keep, num):
        steps = s["steps"] + [["wait", 0]]
        for q in ("p1", "p2", "p3"):
            steps = steps + [["go", q]] * 3
        # what is under way gets done; then the key can be had again
        if profile in ("run", "late"):
            steps = steps + [["done", "p1", x[2]] for x in s["steps"] if x[0] == "run"] + [["go", "p1"]] * 3
        steps = steps + [["wait", unit]] * 5 + [["lock", "q", "hq", "k"], ["go", "q"], ["go", "q"], ["unlock", "q", "hq"], ["go", "q"], ["end", 600]]
        out.append(dict(m, fam="lock", seed=1, sched="man", trans=False, steps=steps))
    return out

def plan_P30(p):
    setup(p, DBSIM)
    r = p.rnd
    L = scripts(p, "lock", p.n(9, 12), p.n(500, 12000), [("replace", 9), ("anyone", 9)])
    L += scripts(p, "lock3", p.n(7, 9), p.n(500, 12000), [("nocas", 12)] if p.thorough else [])
    L += scripts(p, "late", p.n(9, 11), p.n(400, 8000), [("stale", 11)])
    L += contend(r, p.n(700, 9000), "db")
    for s in contend(r, p.n(60, 800), "db"):
        s["enum"] = dict(FAULTS, max=p.n(3, 8), ms=[s["ttl"] // 2, s["ttl"] + 20, s["ttl"] * 2])
        L.append(s)
    for i in range(p.n(120, 1500)):      # work that renews beside contenders
        L.append(work(r, theft=False, contenders=True))
    p.add("lease", L)

def work(r, theft=True, contenders=True, **kw):
    s = base(r, "db", **kw)
    if s["ttl"] <= s["ri"] + 20:
        s["ttl"] = s["ri"] + 50
    g = G(r, s)
    names = []
    for i in range(r.randint(1, 4)):
        p = r.choice(PROCS[:3])
        h = g.name()
        names.append((p, h))
        d = r.choice([0, 10, s["ri"] - 10, s["ri"], s["ri"] + 10, s["ri"] * 3 + 5, s["ttl"] + 10, s["ttl"] * 3, s["ttl"] * 5])
        g.put("run", p, h, r.choice(KEYS), d, r.choice(["", "", "obey", "obey", "panic"]))
        if r.random() < .5:
            g.wait(0, 50, s["ri"], s["ri"] * 2, s["ttl"])
        if contenders and r.random() < .6:
            g.put(*g.lock(r.choice(PROCS[2:])))
            g.wait(0, 20, 300)
            if r.random() < .6:
                g.put(*g.unlock())
        if theft and r.random() < .3:
            g.put(r.choice(["steal", "take"]), r.choice(KEYS))
            g.wait(10, s["ri"], s["ri"] * 2)
        if theft and r.random() < .15:
            g.put("cancel", *r.choice(names))
        if r.random() < .08:
            g.put("crash", r.choice(PROCS[:3]))
    for _ in range(8):
        g.put("wait", s["ri"] * 2)
    g.put("wait", s["ttl"] * 5 + 600)
    g.put("wait", s["ri"])
    g.put("wait", s["ri"])
    g.put("end", 300)
    return s

def plan_P31(p):
    setup(p, DBSIM)
    r = p.rnd
    L = scripts(p, "run", p.n(9, 12), p.n(600, 12000), [("deaf", 9)])
    L += scripts(p, "late", p.n(9, 11), p.n(300, 8000))
    L += [work(r) for _ in range(p.n(700, 9000))]
    for i in range(p.n(70, 900)):        # one run, every statement failing
        s = base(r, "db", sched="", retry=r.random() < .3)
        g = G(r, s)
        g.put("run", "p1", "h1", "k", r.choice([s["ri"] * 2 + 10, s["ri"] * 4 + 7, s["ttl"] * 2]), r.choice(["", "obey"]))
        g.wait(s["ri"] + 10)
        if i % 3 == 0:
            g.put(*g.lock("p2", "k"))
        for _ in range(4):
            g.put("wait", s["ri"] * 2 + 1)
        g.put("wait", s["ttl"] * 3)
        g.put("run", "p1", "h2", "k", s["ri"], "")
        g.put("wait", s["ttl"] * 2 + 700)
        g.put("wait", s["ttl"] * 2)
        g.put("end", 300)
        s["enum"] = dict(kinds=["err", "errafter", "crash", "crashafter"], max=p.n(6, 40), a="p1")
        L.append(s)
    p.add("run", L)

def plan_P32(p):
    setup(p, REDISSIM)
    r = p.rnd
    L = scripts(p, "redis", p.n(7, 8), p.n(800, 15000))
    L += contend(r, p.n(600, 8000), "redis")
    for s in contend(r, p.n(60, 800), "redis"):
        s["enum"] = dict(kinds=["err", "errafter", "drop", "dropafter", "crash", "crashafter", "stall"], max=p.n(3, 10), ms=[s["ttl"] // 2, s["ttl"] + 20, 120])
        L.append(s)
    p.add("redis", L)
