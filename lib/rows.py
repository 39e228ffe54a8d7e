"""SQL executor: P16 (updates), P17 (actions and transactions)."""
import engine, small

ITEM = dict(name=3, n=3, f=3, b=2, u=3, d=3, sort=3, p=3, s=3, t=3, pt=3, tags=5, m=4, j=3, raw=4, pos_x=3, pos_y=3, title=3, num=3,
            deep_in_q=3, deep_in_w=3, deep_z=2, st=3, p_st=3, any=4, arr=3, ns=3)
TABS = dict(item=ITEM, twin=dict(l_x=3, l_y=3, r_x=3, r_y=3, x=3), pair=dict(name=3, n=3), num=dict(name=3, n=3), soft=dict(name=3, n=3))
KEYS = dict(item=["k1", "k2", "k3", "k 4'"], twin=["k1", "k2", "k3"], pair=["a|1", "a|2", "b|1", "b|2"], num=["1", "2", "3", "11"], soft=["k1", "k2", "k3"])
ASK = dict(item=["name", "n", "f", "b", "u", "d", "sort", "p", "s", "t", "pt", "pos_x", "pos_y", "title", "num", "deep_in_q", "deep_in_w", "deep_z", "ns"],
           twin=["l_x", "l_y", "r_x", "r_y", "x"], pair=["name", "n"], num=["name", "n"], soft=["name", "n"])

def setup(p):
    p.module, p.fam = "RowsTrace", "rows"
    p.timeout = 60
    p.per_proc = 150
    p.assumptions = ["the database behaves as the simulated MySQL: one writing transaction at a time, read committed",
                     "a command whose action failed is rolled back, as the engine does",
                     "values before and after an update that differ only in time zone, and models with embedded pointers to structures, are left out"]

def vals(r, t, zero=.4):
    return [0 if r.random() < zero else r.randrange(k) for k in TABS[t].values()]

def query(r, t):
    q = {}
    for c in r.sample(ASK[t], r.choice([0, 1, 1, 2])):
        q[c] = r.randrange(0 if c in ("t", "deep_in_w") else 1, TABS[t][c])
    return q

def changed(r, t, row, cols=None):
    """A row saved after it was loaded as given."""
    new = list(row)
    names = list(TABS[t])
    for c in cols or r.sample(names, min(len(names), r.choice([0, 1, 1, 2, 3]))):
        new[names.index(c)] = r.randrange(TABS[t][c])
    return new

def pairs(p, per):
    """Every value of every column loaded and every value saved, while somebody else changes another column."""
    r = p.rnd
    todo = [(t, c, a, b) for t in TABS for c in TABS[t] for a in range(TABS[t][c]) for b in range(TABS[t][c])]
    out = []
    for _ in range(per):
        r.shuffle(todo)
        by = {t: [x for x in todo if x[0] == t] for t in TABS}
        for t in TABS:
            names = list(TABS[t])
            nk = len(KEYS[t])
            for i in range(0, len(by[t]), nk):
                part = by[t][i:i + nk]
                prev, cur = [], []
                for (_, c, a, b), k in zip(part, KEYS[t]):
                    v = vals(r, t)
                    v[names.index(c)] = a
                    w = list(v)
                    w[names.index(c)] = b
                    prev.append([k] + v)
                    cur.append([k] + w)
                st = [["exec", "x", "", "ins", t, prev]]
                tx = r.random() < .5
                c = "c1" if tx else ""
                early = r.random() < .5
                if tx and early:
                    st.append(["begin", "x", "", "c1"])
                for k in KEYS[t][:len(part)]:
                    if r.random() < .5:
                        o = r.choice(names)
                        st.append(["sys", t, k, {o: r.randrange(TABS[t][o])}])
                if tx and not early:
                    st.append(["begin", "x", "", "c1"])
                if r.random() < .4:
                    st.append(["exec", "x", c, "upd", t, cur, prev])
                else:
                    st += [["exec", "x", c, "upd", t, [cur[j]], [prev[j]]] for j in range(len(cur))]
                if tx:
                    st.append(["commit", "x", "c1"])
                out.append(dict(fam="rows", seed=r.randrange(1 << 30), sched="", tabs=[t], steps=st))
    return out

def both(r, n):
    """Commands that loaded the same rows and change what they like at the same time."""
    out = []
    for _ in range(n):
        t = r.choice(["item", "item", "item", "twin", "soft", "pair", "num"])
        ks = KEYS[t][:r.randint(1, 3)]
        rows = {k: vals(r, t) for k in ks}
        st = [["exec", "x", "", "ins", t, [[k] + rows[k] for k in ks]]]
        m = r.randint(2, 4)
        prog = []
        for i in range(m):
            x = r.choice(["x", "y"])
            tx = r.random() < .7
            c = "c%d" % i if tx else ""
            seq = [["begin", x, "", c]] if tx else []
            for _ in range(r.randint(1, 2)):
                some = r.sample(ks, r.randint(1, len(ks)))
                cur = [[k] + changed(r, t, rows[k]) for k in some]
                prev = [[k] + rows[k] for k in some]
                if r.random() < .15:
                    prev = prev[:-1]
                seq.append(["exec", x, c, "upd", t, cur, prev])
            if tx:
                seq.append([r.choice(["commit"] * 4 + ["rollback"]), x, c])
            prog.append(seq)
        while any(prog):
            n_ = r.choice([1, 1, 1, 2, 3])
            now = []
            for q in r.sample([q for q in prog if q], min(n_, len([q for q in prog if q]))):
                now.append(q.pop(0))
            st.append(["par"] + now if len(now) > 1 else now[0])
            if r.random() < .15:
                k, o = r.choice(ks), r.choice(list(TABS[t]))
                st.append(["sys", t, k, {o: r.randrange(TABS[t][o])}])
        out.append(dict(fam="rows", seed=r.randrange(1 << 30), sched=r.choice(["", "rand", "rand"]), tabs=[t], steps=st))
    return out

def histories(r, n):
    """Anything, in contexts derived from each other, by several executors."""
    out = []
    for _ in range(n):
        tabs = r.sample(list(TABS), r.choice([1, 1, 2]))
        st = []
        ctxs = [("", {})]      # name, executors with a transaction in it
        gone = set()
        made = 0
        for t in tabs:
            if r.random() < .7:
                st.append(["exec", "x", "", "ins", t, [[k] + vals(r, t) for k in r.sample(KEYS[t], r.randint(1, len(KEYS[t])))]])
        def act(x, c):
            t = r.choice(tabs)
            o = r.choice(["ins", "ins", "upd", "upd", "upd", "del", "del", "qry", "qry", "qry"])
            if o == "qry":
                return ["exec", x, c, o, t, query(r, t)]
            ks = [k for k in KEYS[t] if not (o == "ins" and (t, k) in gone)]
            ks = r.sample(ks, min(len(ks), r.choice([1, 1, 2, 2, 3, 4])))
            if not ks:
                return ["exec", x, c, "qry", t, {}]
            cur = [[k] + vals(r, t) for k in ks]
            if o == "del":
                if t == "soft":
                    gone.update((t, k) for k in ks)
                return ["exec", x, c, o, t, [[k] for k in ks]]
            if o == "ins":
                return ["exec", x, c, o, t, cur]
            prev = [[k[0]] + changed(r, t, k[1:]) for k in cur]
            return ["exec", x, c, o, t, cur, prev[:r.choice([len(prev)] * 6 + [0, max(0, len(prev) - 1)])]]
        def one():
            nonlocal made
            z = r.random()
            x = r.choice(["x", "x", "y", "z"])
            if z < .2 and made < 5:
                made += 1
                c, have = r.choice(ctxs)
                nc = "c%d" % made
                ctxs.append((nc, dict(have, **{x: nc})))
                return ["begin", x, c, nc]
            c, have = r.choice(ctxs[-3:] + ctxs)
            if z < .4:
                own = [k for k in have]
                if own and r.random() < .9:
                    x = r.choice(own)
                return [r.choice(["commit", "commit", "rollback"]), x, c]
            if have and r.random() < .75:
                x = r.choice(list(have))
            return act(x, c)
        for _ in range(r.randint(5, 14)):
            if r.random() < .15:
                st.append(["par"] + [one() for _ in range(r.randint(2, 3))])
            else:
                st.append(one())
            if r.random() < .06:
                t = r.choice(tabs)
                o = r.choice(list(TABS[t]))
                st.append(["sys", t, r.choice(KEYS[t]), {o: r.randrange(TABS[t][o])}])
        out.append(dict(fam="rows", seed=r.randrange(1 << 30), sched=r.choice(["", "", "rand"]), tabs=tabs, steps=st))
    return out

FAULTS = dict(kinds=["err", "errafter", "stall"], ms=[10, 100])

def scripts(p, depth, n, variants):
    scs = small.model(p, "MCRows", dict(MC_DEPTH=str(depth)), "MCRows depth %d" % depth, variants)
    return [dict(fam="rows", seed=1, sched="", tabs=["num"], steps=s["steps"]) for s in engine.pick(p.rnd, scs, n)]

def plan_P16(p):
    setup(p)
    r = p.rnd
    L = scripts(p, p.n(4, 5), p.n(800, 20000), ["full", "zero", "touch"])
    L += pairs(p, p.n(4, 60))
    L += both(r, p.n(1500, 30000))
    for s in both(r, p.n(40, 600)):
        s["enum"] = dict(FAULTS, max=p.n(4, 10))
        L.append(s)
    p.add("upd", L)

def plan_P17(p):
    setup(p)
    r = p.rnd
    L = scripts(p, p.n(4, 5), p.n(2500, 60000), ["shared", "keeps", "lenient", "first", "outside"])
    L += histories(r, p.n(2000, 40000))
    for s in histories(r, p.n(60, 800)):
        s["enum"] = dict(FAULTS, max=p.n(5, 12))
        L.append(s)
    p.add("rows", L)
