"""B04: looking up depths."""
import copy
import math
from core import *
import models
import structure

MC = """SPECIFICATION Spec
CONSTANTS
    MaxLayers = %d
    MaxDepth = %d
INVARIANTS NotLost Found Right Same Thick
PROPERTY Ends1
CHECK_DEADLOCK FALSE
"""
CLAUSES = ("turning-depth-invented turning-depth-not-found turning-depth "
           "outside-accepted inside-refused layer-above layer-below branch "
           "fluid low-velocity-zone")


def near(d):
    return [math.nextafter(d, -1.0), d, math.nextafter(d, 1e5)]


def ask(job):
    """One model: tables, and answers with floats still in them."""
    use_repo()
    path, params, seed, size = job
    rng = random.Random(seed)
    tm = attempt(build, path, limit=180.0, **params)
    if isinstance(tm, Raised):
        return None
    sm, vm = tm.sMod, tm.sMod.vMod
    ls = {"P": sm.PLayers, "S": sm.SLayers}
    zs = {"P": sm.highSlownessLayerDepthsP, "S": sm.highSlownessLayerDepthsS}
    ends = {w: [(l.topDepth, l.botDepth) for l in ls[w]] for w in "PS"}
    vend = [(l.topDepth, l.botDepth) for l in vm.layers]
    bend = [(b.topDepth, b.botDepth) for b in tm.tauBranches[0]]
    fend = [(z.topDepth, z.botDepth) for z in sm.fluidLayerDepths]
    zend = {w: [(z.topDepth, z.botDepth, z.rayParam) for z in zs[w]]
            for w in "PS"}
    out = []

    def rec(k, d, fn, *a, **kw):
        r = attempt(fn, *a)
        bad = isinstance(r, Raised)
        e = dict(k=k, d=d, out="refused" if bad else "ok", n=0, w="P", up=True,
                 p=0.0, a=0, b=0, dd=0.0)
        e.update(kw)
        if not bad:
            if k in ("turn", "turndepth"):
                e["dd"] = float(r)
            elif k in ("fluid", "zone"):
                e["n"] = 1 if r else 0
            else:
                e["n"] = int(r) + 1
        out.append(e)

    def pick(xs, n):
        xs = sorted(set(xs))
        return xs if len(xs) <= n else rng.sample(xs, n)

    radius = models.radius(tm)
    outside = [-1e-9, -5.0, -math.ulp(0.0), math.nextafter(radius, 1e9),
               radius + 0.1, 7000.0]
    special = {0.0, radius} | {d for b in bend for d in b} | {
        d for f in fend for d in f} | {z[i] for w in "PS" for z in zend[w]
                                       for i in (0, 1)}
    spots = [x for d in special for x in near(d) if 0 <= x <= radius]
    for w in "PS":
        deps = [d for l in ends[w] for d in l]
        mids = [(a + b) / 2 for a, b in ends[w] if a < b]
        for d in spots + outside + [x for y in pick(deps, size) for x in near(
                y) if 0 <= x <= radius] + pick(mids, size):
            for up in (True, False):
                rec("slow", d, sm.layerNumberAbove if up else
                    sm.layerNumberBelow, d, w == "P", w=w, up=up)
    vspots = [x for l in vend for d in l for x in near(d) if 0 <= x <= radius]
    for d in pick(vspots, size * 2) + outside + [
            (a + b) / 2 for a, b in vend][:size]:
        for up in (True, False):
            rec("vel", d, vm.layerNumberAbove if up else vm.layerNumberBelow,
                d, up=up)
    mid = [(a + b) / 2 for a, b in bend]
    for d in spots + outside + mid:
        rec("branch", d, tm.findBranch, d)
    for d in spots + mid + pick(vspots, size // 2):
        rec("fluid", d, sm.depthInFluid, d)
        for w in "PS":
            for t, b, p in zend[w]:
                for q in near(p) + [p * 0.9, p * 1.1, 0.0]:
                    if rng.random() < 0.5 or d in (t, b):
                        rec("zone", d, sm.depthInHighSlowness, d, q, w == "P",
                            p=q, w=w)
    # where rays turn
    us, ns = {}, {}
    for w in "PS":
        us[w], ns[w] = [], []
        for i, l in enumerate(vm.layers):
            v = (l.evaluateAtTop(w), l.evaluateAtBottom(w))
            us[w].append((sm.toSlowness(v[0], l.topDepth),
                          sm.toSlowness(v[1], l.botDepth))
                         if min(v) > 0 else (0.0, 0.0))
            if i + 1 == len(vm.layers):
                ns[w].append(None)
            else:
                m = vm.layers[i + 1]
                ww = "P" if m.evaluateAtTop("S") == 0 else w
                ns[w].append(sm.toSlowness(m.evaluateAtTop(ww), m.topDepth))
    for k in range(size * 2):
        w = rng.choice("PS")
        a = rng.randrange(len(vend))
        b = min(len(vend) - 1, a + rng.choice([0, 0, 1, 1, 2, 3, 8, 40]))
        if any(us[w][i] == (0.0, 0.0) for i in range(a, b + 1)):
            continue
        inner = sorted({x for i in range(a, b + 1) for x in us[w][i]})
        if ns[w][b]:
            inner = sorted(set(inner + [ns[w][b]]))
        i = rng.randrange(max(1, len(inner) - 1))
        lo, hi = inner[i], inner[min(i + 1, len(inner) - 1)]
        qs = [lo + (hi - lo) * rng.random(), (lo + hi) / 2, inner[0] * 0.97,
              inner[-1] * 1.03] + [x for x in inner[1:-1] if lo <= x <= hi]
        for p in qs:
            if rng.random() < 0.5:
                rec("turn", 0.0, sm.findDepth, p, a, b, w == "P", p=p, w=w,
                    a=a + 1, b=b + 1)
            else:
                fn = rng.choice([sm.findDepth_from_depths, sm.findDepth])
                t = rng.choice([vend[a][0], (vend[a][0] + vend[a][1]) / 2])
                e = rng.choice([vend[b][1], (vend[b][0] + vend[b][1]) / 2])
                if t < e:
                    rec("turndepth", 0.0, fn, p, float(t), float(e), w == "P",
                        p=p, w=w, a=a + 1, b=b + 1)
    # order exact ranks
    dr = Ranks([d for w in "PS" for l in ends[w] for d in l] +
               [d for l in vend + bend + fend for d in l] +
               [z[i] for w in "PS" for z in zend[w] for i in (0, 1)] +
               [e["d"] for e in out])
    pr = Ranks([e["p"] for e in out] + [z[2] for w in "PS" for z in zend[w]] +
               [x for w in "PS" for u in us[w] for x in u] +
               [x for w in "PS" for x in ns[w] if x])

    def dd(xs):
        return [[dr(x) for x in l] for l in xs]
    m = {"P": dd(ends["P"]), "S": dd(ends["S"]), "V": dd(vend), "B": dd(bend),
         "F": dd(fend), "R": structure.units(vm.radiusOfEarth),
         "vel": [[structure.units(x) for x in (
             l.topDepth, l.botDepth, l.topPVelocity, l.botPVelocity,
             l.topSVelocity, l.botSVelocity)] for l in vm.layers]}
    for w in "PS":
        m["Z" + w] = [[dr(t), dr(b), pr(p)] for t, b, p in zend[w]]
        m["U" + w] = [[pr(x) for x in u] for u in us[w]]
        m["N" + w] = [pr(x) if x else 0 for x in ns[w]]
    shown = []
    for e in out:
        shown.append({k: e[k] for k in ("k", "d", "out", "n", "w", "up", "p",
                                        "a", "b", "dd")})
        e.update(d=dr(e["d"]), p=pr(e["p"]), pp=wide(e["p"], 10**9),
                 dd=wide(e["dd"], 10**9))
    return m, out, shown


def main():
    use_repo()
    c = Check("B04", "model_checking")
    c.ran(tlc("LookupMC", MC % ((5, 4) if THOROUGH else (4, 3)), workers=8))
    names = sorted(models.SYN) + sorted(models.EXTRA)
    specs = [(n, models.COARSE) for n in names] + [
        ("iasp91", models.MIDDLE), ("ak135", models.MIDDLE)]
    if THOROUGH:
        specs += [(n, models.MIDDLE) for n in names] + [
            ("iasp91", {}), ("ak135", {})]
    jobs = [(models.path_of(n), p, c.rng.getrandbits(40),
             200 if THOROUGH else 30) for n, p in specs]
    for k in range(60 if THOROUGH else 12):
        rows = structure.random_rows(c.rng)
        specs.append(("random%d" % k, rows))
        jobs.append((models.syn_path("random%d" % k, rows), models.COARSE,
                     c.rng.getrandbits(40), 60 if THOROUGH else 25))
    ms, recs, info = [], [], []
    for sp, got in zip(specs, pool_map(ask, jobs)):
        if got is None:
            if sp[0].startswith("random"):
                continue                    # whether it may: B02
            raise CodeFailed("model " + sp[0])
        m, out, shown = got
        ms.append(m)
        for e, s in zip(out, shown):
            e["m"] = len(ms)
            recs.append(e)
            info.append(dict(s, model=sp[0] if isinstance(sp[1], dict) else
                             sp))
    can = []

    @canaries_made()
    def canary(k, cl, want, **kw):
        r = next(copy.deepcopy(r) for r in recs if r["k"] == k and want(r))
        for x, y in kw.items():
            r[x] = y(r) if callable(y) else y
        can.append((r, cl))
    ok = (lambda r: r["out"] == "ok")
    canary("slow", "layer-above", lambda r: r["out"] == "ok" and r["up"],
           n=lambda r: r["n"] + 1)
    canary("slow", "layer-below", lambda r: r["out"] == "ok" and not r["up"]
           and r["n"] > 1, n=lambda r: r["n"] - 1)
    canary("slow", "inside-refused", ok, out="refused")
    canary("slow", "outside-accepted", lambda r: r["out"] != "ok", out="ok",
           n=1)
    canary("branch", "branch", lambda r: ok(r) and r["n"] > 1,
           n=lambda r: r["n"] - 1)
    canary("fluid", "fluid", ok, n=lambda r: 1 - r["n"])
    canary("zone", "low-velocity-zone", ok, n=lambda r: 1 - r["n"])
    canary("turn", "turning-depth", ok, dd=wide(3.33, 10**9))
    canary("turn", "turning-depth-not-found", ok, out="refused")
    canary("turn", "turning-depth-invented", lambda r: r["out"] != "ok",
           out="ok", dd=wide(1000.0, 10**9))
    fails = run_records(c, "LookupTrace", recs, canaries=can,
                        data={"models": ms})
    for i, cl in sorted(fails.items()):
        for f in sorted(cl):
            c.violation(f, info[i - 1])
    c.note(models=len(ms), lookups=len(recs))
    for i in (10, len(info) // 2, len(info) - 10):
        c.sample(info[i])
    return c.finish()
