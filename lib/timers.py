"""Timers: scenarios for instances that poll a table of jobs."""
import engine
from small import model

#          schedule: valid, period, offset, delay after the moment
CRON = {"* * * * * ?": [1, 1000, 0, 0], "0/5 * * * * ?": [1, 5000, 0, 0], "*/2 * * * * *": [1, 2000, 0, 0], "0/2 * * * * ?": [1, 2000, 0, 0],
        "5/10 * * * * *": [1, 10000, 5000, 0], "30 * * * * ?": [1, 60000, 30000, 0], "0 0/2 * * * ?": [1, 120000, 0, 0], "@every 3s": [1, 1000, 0, 3000],
        "@every 1500ms": [1, 1000, 0, 1000], "@every 7s": [1, 1000, 0, 7000], "@hourly": [1, 3600000, 0, 0]}
GOOD = list(CRON)
FAST = [c for c in GOOD if c not in ("@hourly", "0 0/2 * * * ?", "30 * * * * ?")]
BAD = ["bad", "* * *", "61 * * * * *"]
for _c in ("", "0 0 0 31 2 ?", "0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15 * * * * *"):     # understood, but the table refuses them
    CRON[_c] = [2, 1000, 0, 0]
    BAD.append(_c)
KEYS = ["k", "m", "n", "o"]
LONG = "k" * 31

def setup(p):
    p.module, p.fam = "TimerTrace", "timer"
    p.timeout = 500
    p.per_proc = 60
    p.assumptions = ["the table is a simulation of MySQL (row locks, NOWAIT, DATETIME rounded to the second, error codes) on SQLite; the SQL text is the one gorm's MySQL dialect produces",
                     "all processes read the same clock; callbacks end, do not panic and do not cancel their own key"]

def base(r, **kw):
    d = dict(fam="timer", seed=r.randrange(1 << 30), ri=r.choice([200, 500, 1000, 1000, 3000]), sched=r.choice(["", "rnd", "rnd"]), cron=CRON, cb={}, steps=[])
    d.update(kw)
    return d

def scripts(p, profile, depth, num, variants=()):
    scs = model(p, "MCTimer", dict(MC_PROFILE=profile, MC_DEPTH=str(depth)), "MCTimer/%s depth %d" % (profile, depth),
                [v for v in variants])
    scs = sorted(scs, key=lambda s: (-len(s["steps"]), str(s["steps"])))
    seen, keep = set(), []
    for s in scs:
        k = str(s["steps"])[:-1]
        if k in seen:
            continue
        keep.append(s)
        for i in range(1, len(s["steps"])):
            seen.add(str(s["steps"][:i])[:-1])
    out = []
    for s in engine.pick(p.rnd, keep, num):
        steps = s["steps"] + [["end"], ["wait", 2300], ["wait", 3000]]
        out.append(dict(fam="timer", seed=1, ri=1000, sched="man", cron=CRON, cb={"k": [[-1, "ok"]], "m": [[-1, "ok"]]}, steps=steps))
    return out

class G:
    def __init__(self, r, s):
        self.r, self.s, self.alive, self.k = r, s, [], 0
    def put(self, *a):
        self.s["steps"].append(list(a))
    def boot(self, svc="s"):
        self.k += 1
        i = "i%d" % self.k
        self.alive.append((i, svc))
        return ["boot", i, svc] + ([1] if self.r.random() < .1 else [])
    def who(self, svc="s"):
        r = self.r
        own = [i for i, v in self.alive if v == svc]
        return (r.choice(own) if own and r.random() < .5 else "c%s%d" % (svc, r.randint(1, 2))), svc
    def register(self, svc="s", key=None, bad=0, data=True):
        r = self.r
        i, v = self.who(svc)
        key = key or r.choice(KEYS)
        d = "d%d" % r.randint(1, 9) if data or r.random() < .8 else ""
        if r.random() < .5:
            return ["cron", i, v, key, r.choice(BAD) if r.random() < bad else r.choice(FAST if r.random() < .8 else GOOD), d]
        x = r.choice([-1, -1000, -400, -3600000]) if r.random() < bad else r.choice([0, 1, 200, 499, 500, 501, 999, 1000, 1300, 2000, 2600, 3700, 5001, 12000, 61000])
        return ["once", i, v, key, x, d]
    def crash(self):
        if self.alive:
            i, v = self.alive.pop(self.r.randrange(len(self.alive)))
            self.put("crash", i)
            return v
    def wait(self, *a):
        self.put("wait", self.r.choice(a or (0, 100, 700, 1000, 1001, 2500, 4000, 6000)))

def firing(r, n, **kw):
    """Jobs of one or two services, fired by several instances that come and go, with callbacks of any length and outcome."""
    out = []
    for _ in range(n):
        s = base(r, **kw)
        for k in KEYS:
            if r.random() < .5:
                s["cb"][k] = [[r.choice([0, 0, 30, 250, 999, 1200, 2500, 5500]), r.choice(["ok", "ok", "err"])] for _ in range(r.randint(1, 3))]
        g = G(r, s)
        two = r.random() < .25
        boots = [g.boot() for _ in range(r.randint(1, 3))] + ([g.boot("s2")] if two else [])
        late = r.random() < .2      # the jobs are there before anyone polls
        if late:
            g.alive = []
        else:
            for b in boots:
                g.put(*b)
                if r.random() < .4:
                    g.wait(100, 333, 500)
        for k in KEYS[:r.randint(1, 4)]:
            g.put(*g.register("s2" if two and k in "no" else "s", k))
        if late:
            g.wait(0, 500, 4000, 20000)
            for b in boots:
                g.put(*b)
                g.alive.append((b[1], b[2]))
        for _ in range(r.randint(1, 5)):
            x = r.random()
            if x < .2:
                v = g.crash()
                if v and r.random() < .8:
                    g.wait(0, 500, 2000)
                    g.put(*g.boot(v))
            elif x < .35:
                g.put(*g.boot("s"))
            elif x < .5:
                i, v = g.who()
                g.put("cancel", i, v, r.choice(KEYS[:2] if two else KEYS))
            elif x < .65:
                g.put(*g.register("s", r.choice(KEYS[:2] if two else KEYS)))
            g.wait()
        g.wait(3000, 8000, 15000, 62000)
        out.append(s)
    return out

def asking(r, n, **kw):
    """Registrations and cancellations from several processes, at once and one after the other, before, while and after jobs fire."""
    out = []
    for _ in range(n):
        s = base(r, **kw)
        ks = r.sample(KEYS, r.choice([1, 1, 2, 3]))
        for k in ks:
            if r.random() < .4:
                s["cb"][k] = [[r.choice([0, 250, 1200, 2500]), r.choice(["ok", "err"])]]
        g = G(r, s)
        two = r.random() < .3
        for _ in range(r.randint(0, 2)):
            g.put(*g.boot())
        if two and r.random() < .5:
            g.put(*g.boot("s2"))
        def one():
            x = r.random()
            v = "s2" if two and r.random() < .4 else "s"
            k = r.choice(ks) if r.random() < .97 else LONG
            if x < .7:
                return g.register(v, k, bad=.15, data=False)
            i, v = g.who(v)
            return ["cancel", i, v, k]
        for _ in range(r.randint(3, 9)):
            x = r.random()
            if x < .35:
                g.put("par", *[one() for _ in range(r.randint(2, 4))])
            elif x < .9:
                g.put(*one())
            else:
                v = g.crash()
                if v:
                    g.put(*g.boot(v))
            if r.random() < .6:
                g.wait()
        g.wait(2000, 6000)
        if r.random() < .5:       # once more, after everything
            for k in ks:
                i, v = g.who()
                g.put("cancel", i, v, k)
                g.wait(0, 100, 3000)
                if r.random() < .5:
                    g.put(*g.register("s", k))
            g.wait(4000)
        out.append(s)
    return out

FAULTS = dict(kinds=["err", "errafter", "crash", "crashafter", "stall"], ms=[100, 700, 2500])

def plan_P33(p):
    setup(p)
    r = p.rnd
    d = p.n(15, 17)
    L = scripts(p, "poll", d, p.n(1200, 20000), ["blind", "nolock", "first"] + (["drift"] if p.thorough else []))
    L += firing(r, p.n(900, 10000))
    for s in firing(r, p.n(40, 500)):
        s["enum"] = dict(FAULTS, max=p.n(5, 12))
        L.append(s)
    for s in firing(r, p.n(60, 600)):     # trouble with one job while others are due
        s["enum"] = dict(kinds=["err", "errafter"], mod=True, max=p.n(4, 12))
        L.append(s)
    p.add("timer", L)

def plan_P34(p):
    setup(p)
    r = p.rnd
    d = p.n(8, 9)
    L = scripts(p, "api", d, p.n(1500, 30000), ["deaf", "over", "dup"])
    L += asking(r, p.n(1000, 12000))
    for s in asking(r, p.n(40, 500)):
        s["enum"] = dict(FAULTS, max=p.n(5, 12))
        L.append(s)
    p.add("timer", L)
