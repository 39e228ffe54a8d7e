"""Persisted event bus family: scenarios for services, instances, events, messages and faults."""
import random
from small import model
import engine

RETRIES = [
    dict(retry="int", ms=300, limit=1), dict(retry="int", ms=700, limit=3), dict(retry="ints", ms=250, limit=2), dict(retry="ints", ms=400, limit=0),
    dict(retry="lim", limit=2), dict(retry="lim", limit=0), dict(retry="cus", list=[200, 900, 400]), dict(retry="cus", list=[500]),
    dict(retry="cusopt", list=[300, 300]), dict(retry="own", ms=200, limit=3), dict(retry="own", ms=150, limit=0), dict(retry="def")]

def horizon(c):
    """How long retrying a delivery of service c may take at most."""
    k = c.get("retry", "def")
    if k == "def":
        return 3000 * 8
    if k in ("int", "ints"):
        return (c["limit"] + 3) * c.get("ms", 0)
    if k == "lim":
        return 0
    if k in ("cus", "cusopt"):
        return sum(c["list"])
    return sum((i + 1) * c["ms"] for i in range(c["limit"]))

def tries(c):
    k = c.get("retry", "def")
    return {"def": 7, "int": c.get("limit", 0) + 2, "ints": c.get("limit", 0) + 2, "lim": c.get("limit", 0) + 2,
            "cus": len(c.get("list", [])) + 1, "cusopt": len(c.get("list", [])) + 1, "own": c.get("limit", 0) + 1}[k]

def svc(r, n, **kw):
    d = dict(n=n, run=r.choice([50, 100, 100, 250]), conc=r.choice([0, 0, 2, 3]), batch=0)
    d.update(r.choice(RETRIES[:-1]))
    d.update(kw)
    return d

class Gen:
    """One scenario under construction."""
    def __init__(self, r, nsvc=2, **kw):
        self.r = r
        self.svcs = [svc(r, n, **kw) for n in ["A", "B", "C"][:nsvc]]
        self.steps, self.res, self.ans = [], {}, {}
        self.nev = self.nx = 0
        self.insts, self.holds, self.names, self.extra = [], 0, [], {}
        self.order = {}

    def up(self, i, s):
        self.insts.append((i, s))
        self.steps.append(["up", i, s])

    def ups(self, per=(1, 2), par=.3):
        grp = []
        for c in self.svcs:
            for k in range(self.r.choice(per)):
                i = c["n"].lower() + str(k + 1)
                self.insts.append((i, c["n"]))
                grp.append(["up", i, c["n"]])
        # services register one after the other, further instances may come at once
        first = [g for g in grp if g[1].endswith("1")]
        rest = [g for g in grp if not g[1].endswith("1")]
        self.steps += first
        if rest and self.r.random() < par:
            self.steps.append(["par"] + rest)
        else:
            self.steps += rest

    def ev(self, st="", snd="", **kw):
        self.nev += 1
        n = "e%d" % self.nev
        self.names.append(n)
        d = dict(n=n, st=st, snd=snd)
        d.update(kw)
        return d

    def evs(self, n, order=.4, senders=("s", "s", "u"), ties=True):
        out = []
        for _ in range(n):
            x = self.r.random()
            if x < order:
                out.append(self.ev(self.r.choice(["fifo", "fifo", "lax"]), self.r.choice(senders)))
            else:
                out.append(self.ev("", self.r.choice(["", "s", "u"])))
        if ties and self.r.random() < .5:     # identifiers do not follow the order of sending
            ids = ["%02d-%d" % (self.r.randrange(90), self.nev + k) for k in range(len(out))]
            for d, i in zip(out, ids):
                d["id"] = i
        return out

    def inst(self, s=None):
        c = [i for i, x in self.insts if s is None or x == s]
        return self.r.choice(c)

    def disp(self, evs, i=None):
        return ["disp", i or self.inst(), evs]

    def outcome(self, n, s, kinds=("ok", "ok", "err", "pan"), hold=.2, most=4):
        l = []
        for _ in range(self.r.randint(1, most)):
            k = self.r.choice(kinds)
            if self.r.random() < hold:
                h = self.r.choice([30, 120, 400])
                self.holds += h
                k += ":%d" % h
            l.append(k)
            if k.startswith("ok"):
                break
        self.res["%s/%s" % (s, n)] = l

    def outcomes(self, p=.6, **kw):
        for n in self.names:
            for c in self.svcs:
                if self.r.random() < p:
                    self.outcome(n, c["n"], **kw)

    def wait(self, *a):
        self.steps.append(["wait", self.r.choice(a or (20, 110, 350, 900))])

    def fresh(self):
        """New instances, for when the old ones may have died."""
        for c in self.svcs:
            self.up("z" + c["n"].lower(), c["n"])

    def drain(self, clean=False, more=0):
        run = max(c["run"] for c in self.svcs)
        rounds = sum(self.nev // (c["batch"] or 100) + 1 for c in self.svcs) + 4
        g = run * rounds + self.holds + 300 + more
        hz = max([horizon(c) for c in self.svcs])
        depth = max(1, min(self.nev, 4))
        self.steps.append(["drain", g + hz * depth + run * self.nev * (1 if self.nev < 8 else 0) + 500, g] + ([True] if clean else []))

    def scen(self, **kw):
        d = dict(fam="bus", svcs=self.svcs, steps=self.steps, res=self.res, ans=self.ans, seed=self.r.randrange(1 << 30))
        if self.r.random() < .6:
            d["sched"] = "rnd"
        d.update(self.extra)
        d.update(kw)
        return d

def mix(r, n, faults=None, **kw):
    """Ordinary life: events come in, are handled, fail, are retried; instances come and go."""
    out = []
    for _ in range(n):
        g = Gen(r, r.choice([1, 2, 2, 3]), **kw)
        g.ups()
        for _ in range(r.randint(1, 3)):
            ds = [g.disp(g.evs(r.randint(1, 3))) for _ in range(r.choice([1, 1, 2]))]
            g.steps += [["par"] + ds] if len(ds) > 1 else ds
            if r.random() < .5:
                g.steps.append(["poke", g.inst()])
            g.wait()
            if r.random() < .15:
                g.steps.append(["crash", g.inst()])
        g.outcomes()
        if r.random() < .12:
            n = r.choice(g.names)
            g.res["%s/%s" % (r.choice(g.svcs)["n"], n)] = ["crash", "ok"]
        g.fresh()
        g.drain()
        out.append(g.scen(**(faults(r) if faults else {})))
    return out

# ------------------------------------------------------------------ scripts of the design model

VARIANTS = {"deliver": ["nolock", "stale", "hasty", "starves", "anyorder", "laxfifo", "amnesia", "giveup", "forever", "atonce"],
            "send": ["halfway", "selfish", "late", "rest", "lies"],
            "tx": ["shortfuse", "twice", "revives", "ignored", "racing", "curious", "deaf", "impatient", "guesses"],
            "clean": ["early", "everybody", "failedtoo", "eager", "keepsevents", "never"]}

def scripts(p, profile, depth, num, variants=None, conc=0):
    """Histories MCBus reaches, as scenarios: who sends, dies, confirms and when; how long each handling or answer takes and how it ends."""
    scs = model(p, "MCBus", dict(MC_PROFILE=profile, MC_DEPTH=str(depth)), "MCBus/%s depth %d" % (profile, depth), VARIANTS[profile] if variants is None else variants)
    r, out, seen = p.rnd, [], set()
    scale = 10 if profile == "clean" else 1
    for s in scs:
        g = Gen(r, 0)
        names = sorted({x[2] for x in s["steps"] if x[0] == "up"})
        g.svcs = [dict(n=n, run=100, conc=conc, batch=0, retry="int", ms=200 * scale, limit=0, tx=200 if profile == "tx" else 0, retain=300 * scale, clean="* * * * * *" if profile == "clean" else "") for n in names]
        kinds, actor = set(), None
        for x in s["steps"]:
            if x[0] == "up":
                g.up(x[1], x[2])
            elif x[0] == "disp":
                evs = [g.ev(e[1], e[2]) for e in x[2]]
                g.steps.append(["disp", x[1], evs])
                if x[3] != "ok":
                    kinds |= {dict(err="err", errafter="errafter", dies="crash", dieslate="crashafter")[x[3]]}
                    actor = x[1]
            elif x[0] == "begin":
                g.steps.append(["begin", x[1], x[2], [g.ev(e[1], e[2]) for e in x[3]]])
            elif x[0] in ("commit", "rollback", "crash"):
                g.steps.append(list(x))
            elif x[0] == "wait":
                g.steps.append(["wait", x[1] * scale])
            elif x[0] == "fin":
                g.res.setdefault("%s/%s" % ("B" if x[1] == "b1" else "A", x[2]), []).append(x[3] + (":%d" % x[4] if x[4] else ""))
                g.holds += x[4]
            elif x[0] == "ans":
                g.ans.setdefault("e1", []).append(x[2] + (":%d" % x[3] if x[3] else ""))
                g.holds += x[3]
            elif x[0] == "savefails":
                kinds, actor = {"err"}, None
        if not g.nev:
            continue
        while g.steps and g.steps[-1][0] == "wait":
            g.steps.pop()
        key = str((g.steps, sorted(g.res.items()), sorted(g.ans.items()), sorted(kinds)))
        if key in seen:
            continue
        seen.add(key)
        out.append((g, kinds, actor))
    keep = engine.pick(r, out, num)
    L = []
    for g, kinds, actor in keep:
        g.fresh()
        g.drain(clean=profile == "clean", more=5500 if profile == "clean" else 300 if profile == "tx" else 0)
        if profile == "clean":
            g.steps[-1][1] = max(g.steps[-1][1], g.steps[-1][2] + 6000)
        kw = {}
        if kinds:
            kw = dict(enum=dict(kinds=sorted(kinds), max=2, mod=True, **({"a": actor} if actor else {})))
        L.append(g.scen(**kw))
    return L

# ------------------------------------------------------------------ plans

def setup(p):
    p.module, p.fam = "EventBusTrace", "bus"
    p.assumptions = ["the database behind the bus is a simulation of MySQL (row locks, NOWAIT, snapshot reads, changed-row counts, error codes) on SQLite; the SQL text is the one gorm's MySQL dialect produces",
                     "events are sent with non-decreasing creation times per database, services register before messages are confirmed, and no event stays pending for 24 hours"]
    p.timeout = 700
    p.per_proc = 5

def plan_P20(p):
    setup(p)
    r = p.rnd
    L = []
    for i in range(p.n(60, 600)):
        g = Gen(r, r.choice([1, 2, 3]), retry="int", ms=300, limit=1)
        g.ups((1,))
        g.steps.append(g.disp(g.evs(r.choice([1, 2, 3, 5]), ties=i % 2), "a1"))
        if r.random() < .3:
            g.steps.append(g.disp(g.evs(2), "a1"))
        g.fresh()
        g.drain()
        L.append(g.scen(enum=dict(kinds=["err", "errafter", "crash", "crashafter"], max=12, a="a1"), sched=""))
    for i in range(p.n(120, 1500)):     # concurrent senders, some of what is sent cannot be stored
        g = Gen(r, r.choice([1, 2, 3]), retry="int", ms=300, limit=0)
        g.ups()
        ds = []
        for _ in range(r.randint(1, 4)):
            evs = g.evs(r.randint(1, 4))
            x = r.random()
            if x < .25:
                r.choice(evs)["pad"] = r.choice([60000, 66000, 70000])
            elif x < .4:
                r.choice(evs)["id"] = "i" * 65
            ds.append(g.disp(evs))
        g.steps.append(["par"] + ds)
        g.wait()
        g.steps.append(g.disp(g.evs(2)))
        g.fresh()
        g.drain()
        L.append(g.scen())
    for i in range(p.n(60, 600)):       # a service that comes later gets only what is sent later; sending through messages
        g = Gen(r, 2, retry="int", ms=300, limit=0)
        g.up("a1", "A")
        g.steps.append(g.disp(g.evs(2), "a1"))
        g.steps.append(["begin", "a1", "x1", g.evs(r.choice([1, 3]), order=0)])
        g.wait(150)
        g.up("b1", "B")
        g.steps.append(["commit", "a1", "x1"])
        g.steps.append(g.disp(g.evs(2), r.choice(["a1", "b1"])))
        g.fresh()
        g.drain()
        L.append(g.scen(enum=dict(kinds=["err", "errafter", "crash"], max=6, a="a1", mod=True), sched=""))
    L += scripts(p, "send", p.n(6, 8), p.n(90, 900))
    p.add("disp", L)

def anyfault(r, a=None, mod=False, max=6):
    e = dict(kinds=["err", "errafter", "crash", "crashafter", "stall"], max=max, ms=[150, 600], mod=mod)
    if a:
        e["a"] = a
    return dict(enum=e)

def plan_P21(p):
    setup(p)
    r = p.rnd
    L = mix(r, p.n(250, 3000))
    for s in mix(r, p.n(45, 600)):
        L.append(dict(s, **anyfault(r)))
    for i in range(p.n(30, 300)):       # more events than a round takes, failing for long; nothing overtakes or starves
        g = Gen(r, r.choice([1, 2]), retry="int", ms=r.choice([100, 400]), limit=2, batch=r.choice([2, 3, 5]))
        g.ups()
        for _ in range(r.randint(1, 3)):
            g.steps.append(g.disp(g.evs(r.randint(3, 7), order=0)))
        g.outcomes(p=.5, kinds=("err", "pan", "ok"), hold=.05)
        g.wait()
        g.fresh()
        g.drain()
        L.append(g.scen(**(anyfault(r, max=2) if i % 3 == 0 else {})))
    for i in range(p.n(16, 160)):       # while one instance waits for an answer about a message, the others go on delivering
        g = Gen(r, r.choice([1, 2]), retry="int", ms=200, limit=1, run=100, tx=r.choice([200, 400]))
        for c in g.svcs:
            for k in range(r.choice([2, 2, 3])):
                g.up(c["n"].lower() + str(k + 1), c["n"])
        s = r.choice(g.svcs)["n"]
        g.steps.append(["begin", g.inst(s), "x1", g.evs(r.choice([1, 2]), order=0)])
        hold = r.choice([6000, 9000])
        g.ans[g.names[0]] = ["%s:%d" % (r.choice(["commit", "rollback", "unknown"]), hold), "commit"]
        g.wait(700, 900)
        for _ in range(r.randint(1, 2)):
            g.steps.append(g.disp(g.evs(r.randint(1, 2), order=.3)))
            g.wait(20, 150)
        g.steps.append(["drain", 4000, 1600])
        g.holds += hold
        g.fresh()
        g.drain(more=800)
        L.append(g.scen())
    for i in range(p.n(3, 24)):         # an instance is slow while what it found is handled and cleaned by another, which then dies
        g = Gen(r, 1, retry="int", ms=1000, limit=12, run=500, retain=r.choice([1500, 2000]), clean="* * * * * *", conc=r.choice([0, 0, 2]))
        g.up("a1", "A")
        g.up("a2", "A")
        n, k = r.choice([3, 4, 5]), r.choice([2, 3])
        g.steps.append(["disp", "a1", g.evs(n, order=0)])
        for e in g.names:
            g.res["A/" + e] = ["err"] * (6 if e != g.names[0] and r.random() < .8 else k) + ["ok"]
        g.steps += [["wait", 500 + 1000 * k + 700], ["crash", "a1"], ["wait", 1300]]
        g.up("za", "A")
        g.drain(more=3000)
        L.append(g.scen(sched=r.choice(["", "rnd"]), enum=dict(kinds=["stall"], ms=[1200], a="a2", stmt="select", max=p.n(100, 300))))
    # blocked events at the head of the queue fill the round
    g = Gen(r, 1, retry="int", ms=100, limit=0, batch=2, run=100)
    g.up("a1", "A")
    g.steps.append(["disp", "a1", [g.ev("fifo", "s"), g.ev("fifo", "s"), g.ev("fifo", "s"), g.ev("", "")]])
    g.res["A/e1"] = ["err", "..."]
    g.drain()
    L.append(g.scen(case="blocked-fill-round", sched=""))
    L += scripts(p, "deliver", p.n(12, 15), p.n(150, 3000), ["starves", "amnesia"], conc=p.rnd.choice([0, 2]))
    p.add("deliver", L)

def plan_P22(p):
    setup(p)
    r = p.rnd
    L = []
    for i in range(p.n(350, 5000)):
        g = Gen(r, r.choice([1, 1, 2]), run=r.choice([20, 50, 100]), conc=r.choice([0, 2, 4]))
        g.ups((2, 3), par=.7)
        for _ in range(r.randint(1, 3)):
            g.steps.append(g.disp(g.evs(r.randint(1, 3), order=.2)))
            pokes = [["poke", g.inst()] for _ in range(r.randint(0, 4))]
            if pokes:
                g.steps.append(["par"] + pokes)
            g.wait(0, 20, 60, 130)
        g.outcomes(p=.7, hold=.6)
        if r.random() < .2:
            g.steps.append(["crash", g.inst()])
        g.fresh()
        g.drain()
        L.append(g.scen(sched="rnd"))
    for i in range(p.n(45, 600)):       # instances that stand still between reading the queue and acting
        g = Gen(r, 1, run=50, conc=r.choice([0, 2]))
        g.ups((2, 3))
        g.steps.append(g.disp(g.evs(r.randint(1, 3), order=.2)))
        g.wait(60, 200, 500)
        g.outcomes(p=.7, hold=.4)
        g.fresh()
        g.drain(more=900)
        L.append(g.scen(enum=dict(kinds=["stall", "errafter", "crashafter"], ms=[120, 300, 800], max=8), sched=r.choice(["", "rnd"])))
    L += scripts(p, "deliver", p.n(12, 15), p.n(150, 3000), ["nolock", "stale"])
    p.add("once", L)

def plan_P23(p):
    setup(p)
    r = p.rnd
    L = []
    BAD = ("err", "err", "pan", "panerr", "errlong", "errwide", "errbytes")
    for c in RETRIES:                   # every configuration, every number of failures before success
        for k in range(tries(c) + 1):
            for kind in (BAD if k < 2 else [r.choice(BAD)]):
                for s in ("", "rnd"):
                    g = Gen(r, 1, **c)
                    g.up("a1", "A")
                    g.steps.append(g.disp([g.ev(), g.ev()]))
                    g.res["A/e1"] = [kind] * k + ["ok"]
                    g.fresh()
                    g.drain()
                    L.append(g.scen(sched=s))
        g = Gen(r, 1, **c)
        g.up("a1", "A")
        g.steps.append(g.disp([g.ev(), g.ev()]))
        g.res["A/e1"] = ["err", "..."]
        g.fresh()
        g.drain()
        L.append(g.scen(enum=dict(kinds=["err", "errafter", "crash", "stall"], ms=[250], max=p.n(3, 12)), sched=""))
    for i in range(p.n(160, 2500)):
        g = Gen(r, r.choice([1, 2]))
        g.ups()
        g.steps.append(g.disp(g.evs(r.randint(1, 4), order=.25)))
        g.wait()
        g.steps.append(g.disp(g.evs(r.randint(1, 2), order=.25)))
        g.outcomes(p=.9, kinds=BAD + ("ok",), most=5, hold=.1)
        if r.random() < .3:
            g.steps.append(["crash", g.inst()])
        g.fresh()
        g.drain()
        L.append(g.scen())
    L += scripts(p, "deliver", p.n(12, 15), p.n(120, 2500), ["hasty", "giveup", "forever", "atonce"])
    p.add("retry", L)

def plan_P24(p):
    setup(p)
    r = p.rnd
    L = []
    for i in range(p.n(420, 6000)):
        g = Gen(r, r.choice([1, 2, 2]), conc=r.choice([0, 2, 4]), run=r.choice([50, 100]))
        g.ups()
        snd = r.choice([("s",), ("s", "u"), ("s", "s", "u")])
        for _ in range(r.randint(1, 3)):
            g.steps.append(g.disp(g.evs(r.randint(2, 3), order=r.choice([.8, .95]), senders=snd)))
            if r.random() < .5:
                g.wait(0, 20, 130, 400)
            if r.random() < .3:
                g.steps.append(["poke", g.inst()])
        g.outcomes(p=.6, kinds=("ok", "err", "pan", "ok"), hold=.3)
        if r.random() < .25:
            n = r.choice(g.names)
            c = r.choice(g.svcs)
            g.res["%s/%s" % (c["n"], n)] = ["err", "..."]
            g.wait(900)
            g.steps.append(["wait", horizon(c) + 500])
            g.steps.append(["expire", c["n"], n])
            if r.random() < .5:
                g.steps.append(g.disp(g.evs(2, order=.9, senders=snd)))
        g.fresh()
        g.drain()
        L.append(g.scen(**(anyfault(r, max=2) if i % 12 == 0 else {})))
    L += scripts(p, "deliver", p.n(12, 15), p.n(150, 3000), ["anyorder", "laxfifo"], conc=2)
    p.add("order", L)

def plan_P25(p):
    setup(p)
    r = p.rnd
    L = []
    def one(faulty):
        g = Gen(r, r.choice([1, 2, 2]), retry="int", ms=200, limit=1, tx=r.choice([400, 1000]), run=r.choice([50, 100, 200]))
        g.ups((1, 2))
        todo = []
        slow = 0
        for k in range(1 if faulty else r.randint(1, 3)):
            i = g.inst()
            x = "x%d" % (k + 1)
            evs = g.evs(r.choice([1, 1, 2, 3]), order=.2)
            g.steps.append(["begin", i, x, evs])
            todo.append((i, x, evs[0]["n"]))
            a = [r.choice(["commit", "rollback", "unknown"]) for _ in range(r.randint(1, 3))]
            if r.random() < .4:
                h = r.choice([50, 300, 700])
                slow += h
                a[-1] += ":%d" % h
            if a[-1].startswith("unknown") and r.random() < .7:
                a.append(r.choice(["commit", "rollback"]))
            g.ans[evs[0]["n"]] = a
            if r.random() < .5:
                g.wait(0, 50, 350, 410, 1000)
        r.shuffle(todo)
        for i, x, n in todo:
            z = r.random()
            ends = ["commit"] if z < .35 else ["rollback"] if z < .55 else ["commit", "commit"] if z < .65 else ["commit", "rollback"] if z < .75 else ["rollback", "commit"] if z < .82 else []
            if r.random() < .3:
                g.wait(380, 400, 430, 900, 1050)
            if len(ends) > 1 and r.random() < .5:
                g.steps.append(["par"] + [[e, i, x] for e in ends])
            else:
                for e in ends:
                    g.steps.append([e, i, x])
                    if r.random() < .4:
                        g.wait(0, 100, 500, 1100)
            if r.random() < .15 and not faulty:
                g.steps.append(["crash", i])
        if r.random() < .4:
            g.steps.append(g.disp(g.evs(2, order=.2)))
        g.outcomes(p=.2)
        g.fresh()
        g.drain(more=slow * 2 + 200)
        g.steps.append(["drain", 1600, g.steps[-1][2]])
        return g
    for i in range(p.n(420, 6000)):
        L.append(one(False).scen())
    for i in range(p.n(45, 700)):
        L.append(one(True).scen(**anyfault(r, max=5)))
    for i in range(p.n(36, 400)):       # the process that asks, or confirms, fails at each of its statements that change something
        g = Gen(r, r.choice([1, 2]), retry="int", ms=200, limit=0, tx=r.choice([400, 1000]), run=r.choice([50, 100]))
        g.ups((1,))
        evs = g.evs(r.choice([1, 2, 3]), order=0)
        g.steps.append(["begin", "a1", "x1", evs])
        g.ans[evs[0]["n"]] = [["commit"], ["rollback"], ["unknown", "commit"], ["commit", "rollback"], ["rollback", "commit"]][r.choice([0, 0, 0, 1, 2, 3, 4])]
        e = [[], [], ["commit"], ["commit"], ["rollback"], ["commit", "rollback"]][i % 6]
        for x in e:
            g.steps.append([x, "a1", "x1"])
        g.fresh()
        g.drain(more=200)
        g.steps.append(["drain", 1600, g.steps[-1][2]])
        L.append(g.scen(enum=dict(kinds=["err", "errafter", "crash", "crashafter"], max=8, a=r.choice(["a1", "a1", "za"]), mod=True), sched=""))
    L += scripts(p, "tx", p.n(14, 17), p.n(220, 3000))
    p.add("txmsg", L)

def plan_P26(p):
    setup(p)
    p.per_proc = 8
    r = p.rnd
    L = []
    for i in range(p.n(150, 1600)):
        g = Gen(r, r.choice([1, 2, 3]), retain=r.choice([1500, 2000, 4000]), clean=r.choice(["*/3 * * * * *", "*/5 * * * * *"]), run=250, conc=0,
                retry="int", ms=300, limit=r.choice([0, 1]))
        g.ups()
        big = r.random() < .4
        for _ in range(r.randint(1, 3)):
            g.steps.append(g.disp(g.evs(r.choice([11, 14, 23]) if big else r.randint(1, 4), order=.15)))
            g.wait(200, 900, 2600)
        g.outcomes(p=.25 if big else .5, kinds=("ok", "err", "err", "pan"), hold=.05)
        for c in g.svcs:
            if r.random() < .4:
                g.res["%s/%s" % (c["n"], r.choice(g.names))] = ["err", "..."]
        if r.random() < .3:
            g.steps.append(["crash", g.inst()])
        g.fresh()
        g.drain(clean=True, more=5500)
        g.steps[-1][1] = max(g.steps[-1][1], g.steps[-1][2] + 6000)
        kw = dict(sched=r.choice(["", "rnd"]))
        if i % 12 == 0 and not big:
            kw.update(enum=dict(kinds=["err", "crash", "crashafter", "errafter"], max=3, mod=True))
        L.append(g.scen(**kw))
    L += scripts(p, "clean", p.n(8, 9), p.n(90, 1500))
    p.add("clean", L)
