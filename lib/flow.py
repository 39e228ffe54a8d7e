"""The whole stack: P36."""
import small

SVCS = ["s1", "s2"]
FAULTS = dict(kinds=["err", "errafter", "crash", "crashafter", "stall"], ms=[100, 700, 2500], lives="z")

def command(r, name, accs, inside=False, calm=False):
    n = r.choice([1, 1, 1, 2, 2, 3])
    ks = r.sample(accs, min(n, len(accs)))
    c = dict(c=name, shape=r.choice(["func", "main"]), ds={k: r.choice([1, 2, 5, 10, -3]) for k in ks}, items=r.choice([0, 0, 1, 2]),
             drop=r.random() < .2, save=r.random() < .25, wait=r.choice([0, 0, 0, 30, 200]))
    pre = "" if inside else name + "."
    k = r.choice([0, 1, 1, 2])
    j = r.choice([0, 1, 1, 2]) if not inside else r.choice([0, 0, 1])
    c["evs"] = [pre + "e%d" % (x + 1) for x in range(k)]
    c["txs"] = [pre + "t%d" % (x + 1) for x in range(j)]
    if not calm and not inside:
        c["fail"] = r.choice([""] * 6 + ["err", "brk", "pan"])
        if r.random() < .08:
            c["dl"] = r.choice([10, 60, 150, 400])
    return c

def names(c):
    return c["evs"] + c["txs"]

def scene(r, crash=.3, calm=False, most=5):
    accs = ["a", "b", "c"][:r.randint(1, 3)]
    insts = [("i1", "s1"), ("i2", r.choice(SVCS)), ("i3", "s2")][:r.choice([2, 3])]
    svcs = sorted({s for _, s in insts})
    s = dict(fam="flow", seed=r.randrange(1 << 30), sched=r.choice(["", "rnd", "rnd"]), run=r.choice([500, 1000, 1000]), tx=5000, ttl=r.choice([10000, 15000]), lat=r.choice([0, 0, 5, 20, 60]),
             init={k: r.randint(0, 9) for k in accs}, chain={}, res={})
    st = [["up", i, v] for i, v in insts] + [["wait", 1500]]
    alive, k, todo = [i for i, _ in insts], 0, []
    while k < r.randint(1, most):
        batch = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            k += 1
            c = command(r, "c%d" % k, accs, calm=calm)
            todo += names(c)
            batch.append(["cmd", r.choice(alive), c])
        if len(batch) == 1:
            st.append(batch[0])
        elif r.random() < .7:
            st.append(["par"] + batch)
        else:
            for b in batch:
                st += [b, ["wait", r.choice([1, 20, 100])]]
        st.append(["wait", r.choice([0, 10, 50, 300, 1200, 2500])])
        if r.random() < crash and len(alive) > 1:
            st.append(["crash", alive.pop(r.randrange(len(alive)))])
    for e in todo:
        for v in svcs:
            if r.random() < .12:
                s["chain"][v + "/" + e] = command(r, "", accs, inside=True)
            if r.random() < .15:
                s["res"][v + "/" + e] = [r.choice(["err", "ok", "ok:150", "err:150"]) for _ in range(r.randint(1, 3))]
    st += [["up", "z%d" % (j + 1), v] for j, v in enumerate(svcs)] + [["drain", 7000, 90000]]
    s["steps"] = st
    return s

def contended(r):
    """Commands that need the same lock, a little after each other."""
    s = dict(fam="flow", seed=r.randrange(1 << 30), sched=r.choice(["", "rnd"]), run=1000, tx=5000, ttl=10000, lat=r.choice([0, 5, 20, 40]),
             init={"a": 1, "b": 2}, chain={}, res={})
    st = [["up", "i1", "s1"], ["up", "i2", "s1"], ["wait", 1500]]
    for k in range(r.randint(2, 4)):
        c = command(r, "c%d" % (k + 1), ["a", "b"], calm=True)
        c["ds"].setdefault("a", 3)
        st += [["cmd", r.choice(["i1", "i2"]), c], ["wait", r.choice([0, 1, 20, 60, 110])]]
    s["steps"] = st + [["wait", 2000], ["up", "z1", "s1"], ["drain", 7000, 90000]]
    return s

def plan_P36(p):
    p.module, p.fam = "FlowTrace", "flow"
    p.timeout = 600
    p.per_proc = p.n(60, 12)
    p.assumptions = ["a command and a stalled statement are shorter than the check-back timeout of the bus and the life of its locks",
                     "the check-back handler answers by what is stored",
                     "the tables of the bus and of the lock are in databases of their own (the simulated MySQL lets one transaction write to a database at a time)"]
    r = p.rnd
    fl = p.n("1", "4")
    small.model(p, "MCFlow", dict(MC_FAULTS=fl), "MCFlow, faults up to " + fl, ["nolock", "early", "late", "eager", "forget", "believe", "withdraw", "outside", "parts", "once"])
    L = [scene(r) for _ in range(p.n(500, 8000))]
    for _ in range(p.n(14, 160)):
        s = scene(r, crash=.1, most=3)
        s["enum"] = dict(FAULTS, max=p.n(12, 40))
        L.append(s)
    L += [contended(r) for _ in range(p.n(200, 3000))]
    for _ in range(p.n(8, 80)):
        s = contended(r)
        s["enum"] = dict(kinds=["stall"], ms=[120, 250, 700], mod=True, max=p.n(25, 60))
        L.append(s)
    p.add("flow", L)
