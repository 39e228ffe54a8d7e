"""Engine family: scenarios for commands, generated from the specification."""
import json
from concurrent import futures
import core

def _init(store):
    return [dict(id=i, **r) for i, r in sorted(store.items())]

def parse_sc(out):
    res = []
    for line in out.splitlines():
        if line.startswith('"SC '):
            res.append(json.loads(json.loads(line)[3:]))
    return res

def _tlc_parts(cfg, profile, depth, parts, args, timeout):
    """One single-worker TLC per share of the initial situations: parallel and deterministic."""
    def one(k):
        return core.tlc("MCAgg.tla", cfg, env={"MC_PROFILE": profile, "MC_DEPTH": str(depth), "MC_PART": str(k), "MC_PARTS": str(parts)},
                        args=["-workers", "1", "-nowarning"] + args, timeout=timeout)
    with futures.ThreadPoolExecutor(parts) as ex:
        return list(ex.map(one, range(parts)))

PARTS = {"diff": 6, "multi": 4, "events": 2, "move3": 1}

def gen_bfs(profile, depth, timeout=600):
    """Every situation the specification reaches within depth operations; design invariants checked on the way."""
    sc, g, d = [], 0, 0
    for rc, out in _tlc_parts("MCAgg.cfg", profile, depth, PARTS[profile], [], timeout):
        if "Model checking completed. No error" not in out:
            raise core.Inconclusive("design check MCAgg/%s failed: %s" % (profile, core.tlc_error(out)))
        sc += parse_sc(out)
        x = core.stats(out)
        g, d = g + x[0], d + x[1]
    return sc, (g, d)

def gen_sim(profile, depth, num, seed, timeout=600):
    """Seeded random walks of the specification (longer bodies than BFS reaches)."""
    sc, g, d = [], 0, 0
    parts = min(PARTS[profile], 4)
    for rc, out in _tlc_parts("MCAggSim.cfg", profile, depth, parts,
                              ["-simulate", "num=%d" % max(1, num // parts), "-depth", str(depth + 4), "-seed", str(seed)], timeout):
        if "Error:" in out:
            raise core.Inconclusive("design simulation MCAgg/%s failed: %s" % (profile, core.tlc_error(out)))
        sc += parse_sc(out)
        x = core.stats(out)
        g, d = g + x[0], d + x[1]
    return sc, (g, d)

def life(profile, timeout=600):
    """Exhaustive check of the command life cycle: the guards imply the guarantees."""
    rc, out = core.tlc("MCLife.tla", "MCLife.cfg", env={"MC_PROFILE": profile},
                       args=["-workers", str(core.NCPU), "-nowarning"], timeout=timeout)
    if "Model checking completed. No error" not in out:
        raise core.Inconclusive("design check MCLife/%s failed: %s" % (profile, core.tlc_error(out)))
    return core.stats(out)

LOCKING = ("icmd", "main", "stage")

def for_shape(ops, shape):
    """Adapts a body to the way a command of this shape is written."""
    if shape == "icmd":          # loading happens in Build, once per root
        loads, rest, seen = [], [], set()
        for o in ops:
            if o[0] == "load":
                if o[2] not in seen:
                    seen.add(o[2])
                    loads.append(["load", "build", o[2]])
            else:
                rest.append(o)
        return loads + rest
    return [list(o) for o in ops]

def scen(i, sc, name="c1", hooks=0, faults="", **cmd):
    d = {"name": name, "shape": "func", "rec": sc["rec"], "ops": sc["ops"]}
    d.update(cmd)
    d["ops"] = for_shape(d["ops"], d["shape"])
    s = {"fam": "eng", "id": i, "init": _init(sc["store"]), "cmds": [d], "hooks": hooks}
    if faults:
        s["faults"] = faults
    return s

def pick(rnd, scs, n):
    return list(scs) if len(scs) <= n else rnd.sample(scs, n)

def kinds(sc):
    return {o[0] for o in sc["ops"]}

def rename(ops, suffix):
    """Bodies of several commands in one scenario use different names for what they create."""
    def f(x):
        return x + suffix if isinstance(x, str) and x in ("n1", "n2", "e1", "e2", "e3") else x
    return [[f(x) for x in o] for o in ops]
