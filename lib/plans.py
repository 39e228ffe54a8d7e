"""What is explored for each property: design checks on the specification, and the
scenarios the real code is driven through."""
import random
from concurrent import futures
import core, engine
from engine import scen, pick, kinds, rename, LOCKING

STORE = {"r1": dict(t="node", p="", s="", v=1), "a": dict(t="node", p="r1", s="kids", v=2), "b": dict(t="node", p="r1", s="kids", v=3),
         "s": dict(t="single", p="r1", s="one", v=4), "g": dict(t="node", p="a", s="kids", v=5), "r2": dict(t="node", p="", s="", v=6),
         "d": dict(t="node", p="r2", s="map", v=7), "r3": dict(t="node", p="", s="", v=8)}

class Plan:
    """Collects what a check is going to run."""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rnd = random.Random("%s/%s/%d" % (prop, tier, seed))
        self.design = []        # (name, generated, distinct)
        self.scens = []
        self.module = "CommandTrace"
        self.notes = []
        self.assumptions = []
        self.per_proc = None
        self.timeout = 600
        self.extra_cfg = ""
        self.jobs = []
        self.pool = futures.ThreadPoolExecutor(4)
        self.recording, self.wanted, self.pre = False, [], {}

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def _gen(self, kind, profile, depth, num):
        key = (kind, profile, depth, num)
        if self.recording:
            self.wanted.append(key)
            return [DUMMY] * 3
        if key not in self.pre:
            self._submit(key)
        scs, (g, d) = self.pre[key].result()
        name = "MCAgg/%s depth %d" % (profile, depth) if kind == "bfs" else "MCAgg/%s walks of %d" % (profile, depth)
        if not any(x[0] == name for x in self.design):
            self.design.append((name, g, d))
        return scs

    def _submit(self, key):
        kind, profile, depth, num = key
        if kind == "bfs":
            self.pre[key] = self.pool.submit(engine.gen_bfs, profile, depth, 1800 if self.thorough else 500)
        else:
            self.pre[key] = self.pool.submit(engine.gen_sim, profile, depth, num, self.seed, 1800 if self.thorough else 500)

    def bfs(self, profile, quick, thorough):
        return self._gen("bfs", profile, self.n(quick, thorough), 0)

    def sim(self, profile, depth, quick, thorough):
        return self._gen("sim", profile, depth, self.n(quick, thorough))

    def run(self, f):
        """One pass to find out what is needed from TLC, so that it runs in parallel, then the real one."""
        state = self.rnd.getstate()
        self.recording = True
        f(self)
        self.recording, self.scens = False, []
        self.rnd.setstate(state)
        for key in self.wanted:
            if key not in self.pre:
                self._submit(key)
        f(self)
        self.join()

    def later(self, name, f, *a):
        """A design check that runs beside the generation of scenarios."""
        if self.recording:
            self.jobs.append((name, self.pool.submit(f, *a)))

    def join(self):
        for name, j in self.jobs:
            g, d = j.result()
            self.design.append((name, g, d))
        self.jobs = []
        self.pool.shutdown()

    def life(self, profile):
        self.later("MCLife/" + profile, engine.life, profile)

    def splices(self, scs, n, save=.3):
        """Longer bodies: two bodies of the specification one after the other."""
        groups = {}
        for s in scs:
            groups.setdefault((s["rec"], tuple(sorted(s["store"]))), []).append(s)
        ks = sorted(groups, key=str)
        out = []
        for _ in range(n):
            g = groups[self.rnd.choice(ks)]
            a, b = self.rnd.choice(g), self.rnd.choice(g)
            if "dup" in kinds(a) or "dup" in kinds(b):
                continue
            tail = [["new" if o[0] == "new" else o[0]] + [x + "x" if x in ("n1", "n2", "e1", "e2", "e3") else x for x in o[1:]] for o in b["ops"]]
            tail = [o[:2] + [o[2] + 7] if o[0] == "set" else o for o in tail]
            mid = [["save"]] if self.rnd.random() < save else []
            out.append(dict(a, ops=[list(o) for o in a["ops"]] + mid + tail))
        return out

    def add(self, tag, scs):
        for s in scs:
            if s.get("fam") == "eng" and "case" not in s and self.rnd.random() < .35:
                with_twins(self.rnd, s)
            s["id"] = "%s-%s-%d" % (self.prop, tag, len(self.scens))
            self.scens.append(s)

DUMMY = {"rec": False, "store": STORE, "ops": [["load", "get", "r1"], ["add", "n1", "node", 9, 0], ["new", "n2", "node", 9, 1, "a", "kids"],
         ["ev", "a", "e1", "tx"], ["mov", "a", "b", "kids"], ["dup", "a", "r1", "oth"], ["save"], ["rm", "r1"]]}

def with_twins(rnd, s):
    """Identities are unique within a type only: entities of other types share the identity of a node."""
    typ = {e["id"]: e["t"] for e in s["init"]}
    for c in s["cmds"]:
        for o in c["ops"]:
            if o[0] in ("add", "new") and o[4]:
                typ.setdefault(o[1], o[2])
    nodes = sorted(x for x in typ if typ[x] == "node")
    out = []
    for t in ("single", "alt"):
        free = list(nodes)
        for x in sorted(x for x in typ if typ[x] == t):
            if free and rnd.random() < .8:
                out.append({"id": x, "t": t, "real": free.pop(rnd.randrange(len(free)))})
    if out:
        s["twins"] = out

def options(rnd, **fixed):
    o = dict(bus=rnd.choice(["", "plain", "tx", "tx"]), persist=rnd.random() < .4, dry=rnd.random() < .12,
             notx=rnd.random() < .12, shape=rnd.choice(["func", "func", "mainfunc", "main", "mainonly", "stage", "icmd"]),
             own=rnd.random() < .5, call=rnd.choice([0, 0, 1, 2]))
    o.update(fixed)
    if o["shape"] in LOCKING and "keys" not in o:
        o["keys"] = rnd.choice([[], ["r1"], ["r1", "r2"], ["r2", "r1"], ["z", "a", "m"]])
    return o

def ending(rnd, ops, p=.35):
    """Some bodies end early: by an error, a break or a panic at some point."""
    ops = [list(o) for o in ops]
    if rnd.random() < p:
        ops.insert(rnd.randint(0, len(ops)), [rnd.choice(["err", "brk", "brkwrap", "pan"])])
    elif rnd.random() < .15:
        ops.insert(rnd.randint(0, len(ops)), ["cxl"])
    return ops

def with_events(rnd, ops, p=.6):
    """Sprinkles events over the entities a body works on."""
    if "ev" in kinds({"ops": ops}):
        return ops
    out, known, n = [], [], 0
    for o in ops:
        out.append(list(o))
        if o[0] == "load":
            known.append(o[2])
        elif o[0] in ("add", "new"):
            known.append(o[1])
        if known and o[0] != "save" and n < 3 and rnd.random() < p:
            n += 1
            out.append(["ev", rnd.choice(known), "e%d" % n, rnd.choice(["", "tx", "fifo", "lax"])])
    return out

def with_hookset(rnd, ops, p=.4):
    """The before-hooks of some entities change their data."""
    out = []
    for i, o in enumerate(ops):
        out.append(list(o))
        if o[0] in ("new", "add", "set", "mov", "det", "rm") and rnd.random() < p:
            out.append(["hookset", o[1], 70 + i])
    return out

# ------------------------------------------------------------------ engine

def plan_P01(p):
    p.life("one")
    r = p.rnd
    base = p.bfs("multi", 3, 4) + p.bfs("events", 3, 4)
    base = [s for s in base if len(s["ops"]) > 1]
    diff = p.sim("diff", 6, 240, 1200)
    L = []
    for s in pick(r, base, p.n(90, 1200)) + pick(r, diff, p.n(40, 400)):
        L.append(scen("", dict(s, ops=ending(r, with_events(r, s["ops"]) if "ev" not in kinds(s) else s["ops"])), hooks=1, faults="both", **options(r)))
    for s in pick(r, base, p.n(600, 6000)):
        L.append(scen("", dict(s, ops=ending(r, s["ops"], .6)), hooks=r.randint(0, 2), **options(r)))
    # containers of ICommand: adding a root twice, removing one that is not there, builder failures, initialisation
    for o in (["dupadd", "r1"], ["rmnone"], ["builderr"]):
        for ex in ([], [["set", "a", 9]], [["save"]], [["set", "a", 8], ["save"], ["set", "a", 9]]):
            for keys in ([], ["r1"]):
                L.append(scen("", {"store": STORE, "rec": False, "ops": [["load", "get", "r1"], o] + ex}, shape="icmd", bus="tx", keys=keys, faults="both"))
    for o in ("initerr", "initbrk", "initpan"):
        for sh in ("icmd", "main"):
            L.append(scen("", {"store": STORE, "rec": False, "ops": [[o], ["load", "get", "r1"], ["set", "a", 9]]}, shape=sh, keys=["r1"], bus="plain"))
    for sh in ("create", "delete"):
        for s in simple_shapes(sh):
            L.append(dict(s, faults="both"))
    p.add("life", L)

def simple_shapes(sh):
    if sh == "create":
        bodies = [[["add", "x", "node", 3, 1], ["new", "n2", "node", 2, 0, "x", "kids"]],
                  [["add", "n1", "node", 3, 0]],
                  [["add", "n1", "node", 3, 0], ["add", "n2", "node", 4, 1], ["new", "n3", "single", 2, 0, "n1", "one"], ["new", "n4", "node", 2, 0, "n3", "kids"]],
                  [["add", "n1", "alt", 3, 0], ["new", "n3", "node", 2, 0, "n1", "a"], ["new", "n4", "node", 2, 1, "n1", "b"]],
                  []]
    else:
        bodies = [[["rmid", "r1"]], [["rmid", "r1"], ["rmid", "r2"]], [["rmid", "r3"]], []]
    return [scen("", {"store": STORE, "rec": False, "ops": b}, shape=sh) for b in bodies]

def plan_P02(p):
    r = p.rnd
    base = p.bfs("diff", 2, 2)
    L = []
    for s in pick(r, base, p.n(5000, 40000)):
        L.append(scen("", s, shape=r.choice(["func", "func", "func", "main", "stage"]), notx=r.random() < .05))
    for s in p.splices(base, p.n(3000, 20000)) + p.sim("diff", 9, 400, 16000):
        L.append(scen("", s, notx=r.random() < .05))
    for s in p.sim("multi", 7, 400, 8000):
        L.append(scen("", s, shape=r.choice(["func", "icmd", "icmd", "stage"])))
    L += simple_shapes("create") + simple_shapes("delete")
    p.add("diff", L)

def plan_P03(p):
    r = p.rnd
    base = p.bfs("move3", 2, 3)
    diff = [s for s in p.sim("diff", 7, 400, 16000) if "mov" in kinds(s)]
    walks = p.sim("move3", 6, 600, 20000) + p.splices(base, p.n(4000, 20000))
    L = [scen("", s) for s in pick(r, base, p.n(6000, 50000)) + diff + walks]
    for s in pick(r, [s for s in base if "dup" in kinds(s)], p.n(300, 3000)):
        L.append(scen("", s, shape="main", notx=True))
    p.add("move", L)

def plan_P04(p):
    r = p.rnd
    base = [s for s in p.bfs("diff", 2, 2) if s["rec"] or kinds(s) & {"rm", "det"}]
    L = [scen("", s) for s in pick(r, base, p.n(5000, 40000))]
    for s in p.splices(base, p.n(4000, 20000)) + p.sim("diff", 6, 500, 20000) + p.sim("multi", 7, 300, 6000):
        L.append(scen("", s))
    p.add("rec", L)

def plan_P05(p):
    r = p.rnd
    base = [s for s in p.bfs("diff", 2, 2) if kinds(s) & {"new", "add"}]
    walks = [s for s in p.splices(base, p.n(3000, 20000)) + p.sim("diff", 7, 500, 20000) + p.sim("multi", 7, 300, 6000) if kinds(s) & {"new", "add"}]
    L = [scen("", s) for s in pick(r, base, p.n(3000, 30000)) + walks]
    for s in pick(r, walks, p.n(150, 1500)):
        L.append(scen("", s, faults="err", shape=r.choice(["func", "icmd", "stage"])))
    deep = [["add", "n1", "node", 1, 0]] + [["new", "n%d" % (i + 1), "node", i, i % 3 == 0, "n%d" % i, "kids"] for i in range(1, 9)]
    wide = [["add", "n1", "node", 1, 0]] + [["new", "m%d" % i, "node", i, 0, "n1", ["kids", "map", "oth"][i % 3]] for i in range(12)]
    for b in (deep, wide, deep + wide[1:]):
        for sh in ("func", "icmd", "create"):
            L.append(scen("", {"store": STORE, "rec": False, "ops": b}, shape=sh, faults="" if sh == "create" else "err"))
    L += simple_shapes("create")
    p.add("ids", L)

def plan_P06(p):
    r = p.rnd
    base = p.bfs("diff", 2, 2)
    L = [scen("", dict(s, ops=with_hookset(r, s["ops"]))) for s in pick(r, base, p.n(3000, 30000))]
    walks = p.splices(base, p.n(2000, 20000)) + p.sim("diff", 7, 400, 16000) + p.sim("multi", 7, 300, 12000)
    for s in walks:
        L.append(scen("", dict(s, ops=with_hookset(r, s["ops"])), shape=r.choice(["func", "icmd", "stage"]), dry=r.random() < .05))
    for s in pick(r, walks, p.n(120, 1200)):
        L.append(scen("", dict(s, ops=with_hookset(r, s["ops"])), faults="both", notx=r.random() < .1))
    p.add("hooks", L)

def plan_P07(p):
    r = p.rnd
    p.life("one")
    base = [s for s in p.bfs("events", 4, 4) if "ev" in kinds(s)]
    walks = [dict(s, ops=with_events(r, s["ops"])) for s in p.splices(base, p.n(1500, 10000)) + p.sim("diff", 7, 300, 8000)]
    L = []
    for s in pick(r, base, p.n(4000, 30000)) + walks:
        L.append(scen("", s, **options(r, own=False, call=0, dry=r.random() < .03)))
    for s in pick(r, base, p.n(120, 1500)) + pick(r, walks, p.n(40, 400)):
        L.append(scen("", dict(s, ops=ending(r, s["ops"], .15)), faults="both", **options(r, dry=False)))
    p.add("events", L)

def plan_P08(p):
    r = p.rnd
    p.life("one")
    base = [s for s in p.bfs("events", 4, 4) if any(o[0] == "ev" and o[3] == "tx" for o in s["ops"])]
    L = []
    for s in pick(r, base, p.n(3000, 20000)):
        L.append(scen("", s, **options(r, bus=r.choice(["tx", "tx", "tx", "plain"]), call=0)))
    for s in pick(r, base, p.n(180, 2500)):
        L.append(scen("", dict(s, ops=ending(r, s["ops"], .2)), faults="both", **options(r, bus="tx", dry=False, notx=r.random() < .05)))
    p.add("txev", L)

def lock_cmds(r, n, body, keysets, **kw):
    cmds = []
    for i in range(n):
        shape = r.choice(LOCKING)
        s = body(i)
        d = {"name": "c%d" % (i + 1), "shape": shape, "rec": False, "keys": r.choice(keysets), "own": r.random() < .6,
             "call": r.choice([0, 1]), "bus": r.choice(["", "plain", "tx"]), "ops": engine.for_shape(s, shape)}
        d.update(kw)
        cmds.append(d)
    return cmds

KEYS = [["k1"], ["k2"], ["k1", "k2"], ["k2", "k1"], ["k3", "k1", "k2"], ["k2", "k3"], ["k1", "k1"], ["k2", "k1", "k2"], []]

def conc_body(r):
    def f(i):
        own = "n%d" % (i + 1)
        root = ["r1", "r2", "r3"][i % 3]
        b = [["load", "get", root], ["set", root, 60 + i], ["add", own, "node", 9, 1]]
        if r.random() < .3:
            b.insert(2, ["save"])
        if r.random() < .3:
            b.append(["ev", own, "e%d" % (i + 1), r.choice(["", "tx"])])
            # events need a bus
        return ending(r, b, .25)
    return f

def plan_P09(p):
    r = p.rnd
    p.life("two")
    L = []
    for i in range(p.n(900, 12000)):
        n = r.choice([2, 2, 3, 4])
        c = lock_cmds(r, n, conc_body(r), KEYS, bus=r.choice(["plain", "tx"]))
        L.append({"fam": "eng", "init": engine._init(STORE), "cmds": c, "hooks": r.randint(0, 1), "conc": True, "seed": r.randrange(1 << 30)})
    for i in range(p.n(60, 800)):
        c = lock_cmds(r, r.choice([1, 2]), conc_body(r), KEYS, bus=r.choice(["plain", "tx"]))
        L.append({"fam": "eng", "init": engine._init(STORE), "cmds": c, "hooks": 1, "conc": r.random() < .7, "seed": r.randrange(1 << 30), "faults": "both"})
    for keys in KEYS:
        for sh in LOCKING:
            for end in ([], [["err"]], [["brk"]], [["pan"]], [["cxl"]], [["cxl"], ["err"]], [["cxl"], ["pan"]]):
                L.append(scen("", {"store": STORE, "rec": False, "ops": [["load", "get", "r1"], ["set", "a", 9]] + end}, shape=sh, keys=keys, own=True, hooks=1,
                              notx=r.random() < .2, faults="both"))
    p.add("lock", L)

def plan_P10(p):
    r = p.rnd
    p.life("two")
    L = []
    for i in range(p.n(700, 9000)):
        n = r.choice([2, 3, 4])
        c = lock_cmds(r, n, conc_body(r), [[], ["k1"], ["k2", "k1"], ["k1", "k1"]], own=True, bus=r.choice(["plain", "tx"]))
        for d in c:
            d["call"] = r.choice([0, 1, 2, 3])
        L.append({"fam": "eng", "init": engine._init(STORE), "cmds": c, "hooks": r.choice([0, 1, 2, 3, 4, 5]), "conc": True, "seed": r.randrange(1 << 30)})
    for i in range(p.n(500, 6000)):   # nested: a command runs another one from its logic
        n = r.choice([2, 3])
        c = lock_cmds(r, n, conc_body(r), [[]], bus=r.choice(["plain", "tx"]))
        for k in range(1, n):
            c[k]["nested"] = True
            ops = c[k - 1]["ops"]
            at = [j for j, o in enumerate(ops) if o[0] == "load"]
            ops.insert(r.randint((at[-1] + 1) if at else 0, len(ops)), ["run", "c%d" % (k + 1)])
        for d in c:
            d["own"], d["call"] = r.random() < .8, r.choice([0, 1, 2])
        L.append({"fam": "eng", "init": engine._init(STORE), "cmds": c, "hooks": r.choice([0, 1, 2, 3, 4, 5]), "conc": False, "seed": 0})
    for i in range(p.n(60, 700)):
        c = lock_cmds(r, r.choice([1, 2]), conc_body(r), [[], ["k1"]], bus=r.choice(["plain", "tx"]), own=True)
        L.append({"fam": "eng", "init": engine._init(STORE), "cmds": c, "hooks": r.choice([1, 3, 5]), "conc": False, "seed": 1, "faults": "both"})
    p.add("post", L)

def plan_P11(p):
    r = p.rnd
    p.life("one")
    base = p.bfs("multi", 4, 4) + p.bfs("events", 4, 4)
    walks = p.splices(base, p.n(1000, 10000)) + p.sim("diff", 6, 300, 8000)
    L = []
    for s in pick(r, base, p.n(3500, 26000)) + walks:
        ops = with_events(r, s["ops"], .3) if "ev" not in kinds(s) else s["ops"]
        L.append(scen("", dict(s, ops=ending(r, ops, .25)), hooks=r.randint(0, 1), **options(r, dry=True)))
    for s in pick(r, base, p.n(120, 1200)):
        L.append(scen("", s, faults="both", **options(r, dry=True)))
    p.add("dry", L)

def plan_P12(p):
    r = p.rnd
    base = p.bfs("multi", 4, 4)
    L = []
    for s in pick(r, base, p.n(5000, 26000)):
        L.append(scen("", s, shape=r.choice(["func", "func", "icmd", "stage"])))
    for s in p.splices(base, p.n(3000, 20000)) + p.sim("multi", 8, 400, 12000) + p.sim("multi", 11, 300, 12000):
        L.append(scen("", dict(s, ops=with_events(r, s["ops"], .3)), bus=r.choice(["plain", "tx"]), shape=r.choice(["func", "func", "icmd"]), persist=r.random() < .3))
    for s in pick(r, [x for x in base if "save" in kinds(x)], p.n(120, 1500)):
        L.append(scen("", s, faults="both", notx=r.random() < .1))
    # known finding: an entity below one removed by an earlier save is inserted again when it is re-attached
    for split in (False, True):
        kf = scen("", {"store": STORE, "rec": False, "ops": [["load", "custom", "r1"], ["load", "custom", "r2"], ["det", "a"]] + ([["save"]] if split else []) + [["mov", "g", "r2", "kids"]]})
        kf["orphans"] = True
        if split:
            kf["case"] = "orphan-after-save"
        L.append(kf)
    p.add("multi", L)

def plan_P13(p):
    r = p.rnd
    L = []
    modes = ["get", "getkids", "getone", "getroot", "getval", "custom", "noid", "badarg", "badarg2"]
    base = p.bfs("multi", 3, 4)
    for m in modes:
        for st in (STORE, {k: v for k, v in STORE.items() if k not in ("s", "a", "b", "g")}, {}):
            for root in ("r1", "r2", "r3", "zz"):
                for ex in ([], [["set", root, 9]], [["new", "n1", "node", 1, 0, root, "kids"], ["new", "n2", "single", 1, 0, root, "one"]]):
                    L.append(scen("", {"store": st, "rec": False, "ops": [["load", m, root]] + ex}, faults="err", notx=r.random() < .2))
    # edit, then load the result in the same and in a later command
    walks = p.splices(base, p.n(1200, 10000)) + p.sim("diff", 6, 300, 12000)
    for s in walks + pick(r, base, p.n(1500, 15000)):
        again = [["load", r.choice(["get", "getkids", "getone"]), x] for x in ("r1", "r2", "r3")]
        sc = scen("", s, shape=r.choice(["func", "icmd", "stage"]))
        sc["cmds"] += [{"name": "c2", "shape": "func", "rec": False, "ops": again[:2]},
                       {"name": "c3", "shape": "icmd", "rec": False, "ops": [["load", "build", r.choice(["r1", "r2"])]]}]
        L.append(sc)
    for s in p.sim("multi", 8, 300, 8000):
        L.append(scen("", s))
    p.add("load", L)

PLANS = {k[5:]: v for k, v in globals().items() if k.startswith("plan_P")}

TECHNIQUE = {"default": "TLA+ specification (Command.tla) checked with TLC (MCAgg, MCLife); TLC-generated scenarios replayed into the real engine, every recorded trace validated against the specification by TLC"}
LEVEL_NOTE = {"default": "exhaustive on the specification within the stated bounds; the implementation is bound by trace validation of every generated scenario, with every port call failing and panicking for a sample of them"}

import bus
PLANS.update({k[5:]: v for k, v in vars(bus).items() if k.startswith("plan_P")})
BUSTECH = "TLA+ specification of the persisted event bus (EventBus.tla) explored with TLC (MCBus: instances, senders, confirmations, cleaning and deaths a transaction at a time, broken variants refused); every generated history and further scenarios run on the real bus over a simulated MySQL in virtual time, every recorded trace of commits, handler calls and API calls validated against the specification by TLC"
for _p in ("P20", "P21", "P22", "P23", "P24", "P25", "P26"):
    TECHNIQUE[_p] = BUSTECH
import locks
PLANS.update({k[5:]: v for k, v in vars(locks).items() if k.startswith("plan_P")})
LOCKTECH = "TLA+ specification of a lease lock (Lease.tla); scenarios run on the real lock over a simulated %s in virtual time, every recorded trace of calls, store changes and work under the lock validated against the specification by TLC"
for _p in ("P30", "P31", "P32"):
    TECHNIQUE[_p] = LOCKTECH % ("Redis server" if _p == "P32" else "MySQL")
import small
PLANS.update({k[5:]: v for k, v in vars(small).items() if k.startswith("plan_P")})
TECHNIQUE["P14"] = "TLA+ specification of event routing (Router.tla) explored with TLC (MCRouter: every table of registrations and every outcome up to a size, broken routers refused); every generated history replayed through the callbacks the library registers, every recorded trace validated against the specification by TLC"
TECHNIQUE["P35"] = "TLA+ specification of the in-memory bus (MemBus.tla) explored with TLC (MCMemBus: every use of a channel-like bus up to a depth, broken variants refused); every generated script run on the real bus in virtual time, every recorded trace validated against the specification by TLC"
import timers
PLANS.update({k[5:]: v for k, v in vars(timers).items() if k.startswith("plan_P")})
for _p in ("P33", "P34"):
    TECHNIQUE[_p] = "TLA+ specification of a polled timer table (Timer.tla) explored with TLC (MCTimer: instances and clients a statement at a time, broken variants refused); every generated script and further scenarios run on the real timer over a simulated MySQL in virtual time, every recorded trace of calls, row changes and callbacks validated against the specification by TLC"
import rows
PLANS.update({k[5:]: v for k, v in vars(rows).items() if k.startswith("plan_P")})
for _p in ("P16", "P17"):
    TECHNIQUE[_p] = "TLA+ specification of rows, actions and transactions in contexts (Rows.tla) explored with TLC (MCRows: two executors, derived contexts, every action, broken variants refused); every generated script, every pair of loaded and saved column values and random histories with failing statements run on the real SQL executor over a simulated MySQL, every recorded trace of calls, results and committed row changes validated against the specification by TLC"
import flow
PLANS.update({k[5:]: v for k, v in vars(flow).items() if k.startswith("plan_P")})
TECHNIQUE["P36"] = "TLA+ specification of the whole stack at work (Flow.tla) explored with TLC (MCFlow: two commands a statement at a time, with failing statements, crashes and check-backs, broken variants refused); contending commands of several processes with the real engine, SQL executor, SQL event bus and database lock run over a simulated MySQL in virtual time, with a failure or crash at every statement enumerated, every recorded trace of calls, committed changes and deliveries validated against the specification by TLC"
