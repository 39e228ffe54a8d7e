"""Small families: the in-memory bus."""
import core, engine

def explore(module, env, variant="", timeout=800, inv="Fine", workers="4"):
    e = dict(env, MC_VARIANT=variant)
    rc, out = core.tlc(module + ".tla", module + ".cfg", env=e, args=["-workers", workers if variant else "1", "-nowarning"], timeout=timeout, mem="4g")
    done = "Model checking completed. No error" in out
    if variant:
        if "Invariant %s is violated" % inv not in out:
            raise core.Inconclusive("the specification does not refuse the broken %s '%s': %s" % (module, variant, core.tlc_error(out)))
    elif not done:
        raise core.Inconclusive("design check %s failed: %s" % (module, core.tlc_error(out)))
    return engine.parse_sc(out), core.stats(out)

def model(p, module, env, name, variants=()):
    """Explores a model while the plan is recorded; its scripts when it runs."""
    p.explored = getattr(p, "explored", {})
    if p.recording:
        p.explored[name] = p.pool.submit(explore, module, env)
        for v in variants:
            p.later("%s refuses '%s'" % (module, v), lambda v=v: explore(module, env, v)[1])
        return []
    scs, st = p.explored[name].result()
    p.design.append((name, st[0], st[1]))
    return scs

def plan_P35(p):
    p.module, p.fam = "MemBusTrace", "mem"
    p.timeout = 40
    p.per_proc = 120
    p.assumptions = ["the end of the bus's context does not coincide to the instant with a hand-over", "the handler does not panic"]
    r = p.rnd
    d = p.n(7, 8)
    scs = model(p, "MCMemBus", dict(MC_DEPTH=str(d)), "MCMemBus depth %d" % d, ["drop", "lifo", "twice", "deaf", "stays", "quits"])
    L = [dict(fam="mem", steps=s["steps"], auto=False, par=False, ms=0) for s in engine.pick(r, scs, p.n(4000, 40000))]
    for i in range(p.n(1500, 20000)):       # many senders at once, handlers of any duration
        cap = r.choice([0, 1, 1, 2, 3, 8])
        st = [["cap", cap]]
        k, par = 0, r.random() < .6
        auto = par or r.random() < .6
        n = r.randint(3, 14)
        begin = r.randrange(n)
        for j in range(n):
            if j == begin:
                st.append(["start"])
            x = r.random()
            if x < .65:
                m = r.randint(1, 4)
                st.append(["send", 0] + ["e%d" % (k + q + 1) for q in range(m)])
                k += m
            elif x < .72 and j > begin:
                st.append(["start"])
            elif x < .95 or j < begin:
                st.append(["wait", r.choice([0, 5, 7, 20])] if auto else ["fin", r.choice(["ok", "err"])])
            else:
                st.append(["stop"])
                break
        st += [] if auto else [["fin", "ok"]] * r.randint(0, k)
        L.append(dict(fam="mem", steps=st, auto=auto, par=par, ms=r.choice([0, 0, 5])))
    p.add("mem", L)

ARGS = ["raw", "data", "some", "map"]
def plan_P14(p):
    p.module, p.fam = "RouterTrace", "router"
    p.assumptions = ["handlers do not change a raw event they are given", "nothing is registered for a type while an event of it is being delivered"]
    r = p.rnd
    L = []
    for mode, vs, q, th in (("ev", ["reverse", "first", "goeson", "swallow", "zero", "lazy"], 2500, 32000), ("two", ["all"], 800, 3000), ("chk", ["commits"], 800, 7000)):
        scs = model(p, "MCRouter", dict(MC_MODE=mode), "MCRouter " + mode, []) if not p.recording else model(p, "MCRouter", dict(MC_MODE=mode), "MCRouter " + mode, vs)
        L += [dict(fam="router", seed=r.randrange(1 << 30), steps=s["steps"]) for s in engine.pick(r, scs, p.n(q, th))]
    pls = ["full", "full", "part", "more", "null", "mis", "bad", "none"]
    def outs(n, nest=True):
        return [r.choice(["ok"] * 8 + ["err", "break", "save", "init"] + ([["t%d" % r.randint(1, 3), r.choice(["full", "part"]), outs(2, False)]] if nest else [])) for _ in range(n)]
    for i in range(p.n(2500, 30000)):       # larger tables, other payloads, timers, nesting, deliveries at the same time
        st, n = [], 0
        free = {"t1", "t2", "t3"}
        for t in ("k1", "k2"):
            if r.random() < .4:
                n += 1
                st.append(["cron", t, "h%d" % n, int(r.random() < .5)])
        for _ in range(r.randint(0, 6)):
            n += 1
            t = r.choice(["t1", "t1", "t2", "t3", "k1", "k2"])
            st.append(["reg", t, "h%d" % n, r.choice(["timer", "timer", "raw"] if t[0] == "k" else ARGS), int(r.random() < .4)])
        for t in ("t1", "t2", "t3"):
            if r.random() < .4:
                n += 1
                st.append(["regchk", t, "h%d" % n, r.choice(ARGS), r.randint(0, 2)])
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < .5:
                st.append(["ev", r.choice(["t1", "t1", "t2", "t3"]), r.choice(pls), outs(4)])
            elif x < .65:
                st.append(["timer", r.choice(["k1", "k2"]), "full", outs(4, False)])
            elif x < .8:
                st.append(["ask", r.choice(["t1", "t2", "t3"]), r.choice(pls)])
            else:
                st.append(["par"] + [r.choice([["ev", r.choice(["t1", "t2"]), r.choice(["full", "part", "more"]), outs(4, False)], ["ask", r.choice(["t1", "t2", "t3"]), "full"]]) for _ in range(r.randint(2, 4))])
            if r.random() < .2:
                n += 1
                st.append(["reg", r.choice(["t1", "t2"]), "h%d" % n, r.choice(ARGS), 0])
        L.append(dict(fam="router", seed=r.randrange(1 << 30), steps=st))
    p.add("route", L)
