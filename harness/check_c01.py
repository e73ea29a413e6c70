"""C01: the source at depth."""
import copy
import math
import pickle
from core import *
import branches
import models
import structure

MC = """SPECIFICATION Spec
CONSTANTS
    MaxCuts = %d
    N = %d
    Emit = %d
INVARIANTS Conserved OnBoundary OldStay
CHECK_DEADLOCK FALSE
"""
CLAUSES = ("branches ray-parameters split-model-changed source-depth "
           "source-branch new-discontinuity moho-cmb-iocb refused gap "
           "negative-thickness layers-changed layers-and-branches "
           "ray-parameter-limits other-branch-changed parts-do-not-add-up "
           "part-not-its-layers")
CLIFF = [(0, 3.0, 1.7), (10, 6.5, 3.8), (35, 7, 4), (35, 8.0, 4.5),
         (100, 4, 2.2), (120, 8.5, 4.7), (2889, 13.7, 7.2)] + models.CORE


def depth_of(cls, tm, rng):
    """A depth of the class in this model, or None if it has none."""
    sm = tm.sMod
    tops = [b.topDepth for b in tm.tauBranches[0][1:]]
    lay = {w: sorted({l.botDepth for l in ls} - set(tops) - {models.radius(tm)})
           for w, ls in (("P", sm.PLayers), ("S", sm.SLayers))}

    def within(a, b):
        return a + (b - a) * rng.uniform(0.02, 0.98)
    if cls == "surface":
        return 0.0
    if cls == "bottom":
        return models.radius(tm) - rng.choice([0.5, 0.1, 0.001])
    if cls in ("branch", "branch+", "branch-", "near+", "near-", "close+",
               "close-"):
        d = rng.choice(tops)
        return {"branch": d, "branch+": math.nextafter(d, 1e5),
                "branch-": math.nextafter(d, 0), "near+": d + 4e-7,
                "near-": d - 4e-7, "close+": d + 2e-6,
                "close-": d - 2e-6}[cls]
    if cls.startswith("layer"):
        if not lay[cls[5]]:
            return None
        d = rng.choice(lay[cls[5]])
        return {"": d, "+": rng.choice([d + 3e-7, math.nextafter(d, 1e5),
                                        d + 3e-6]),
                "-": rng.choice([d - 3e-7, math.nextafter(d, 0),
                                 d - 3e-6])}[cls[6:]]
    if cls == "inside":
        b = rng.choice(tm.tauBranches[0])
        return within(b.topDepth, b.botDepth)
    if cls == "fluid":
        z = rng.choice(sm.fluidLayerDepths) if sm.fluidLayerDepths else None
        return within(z.topDepth, z.botDepth) if z else None
    if cls == "zone":
        zs = sm.highSlownessLayerDepthsP + sm.highSlownessLayerDepthsS
        z = rng.choice(zs) if zs else None
        return within(z.topDepth, z.botDepth) if z else None
    r = models.radius(tm)
    return within(r - 1171.0, r - 71.0)       # inner


def snap(tm):
    return pickle.dumps([
        (b.topDepth, b.botDepth, b.maxRayParam, b.minRayParam,
         b.minTurnRayParam, list(b.time), list(b.dist), list(b.tau))
        for bs in tm.tauBranches for b in bs]) + pickle.dumps(
            [(l.topP, l.botP, l.topDepth, l.botDepth)
             for l in tm.sMod.PLayers + tm.sMod.SLayers]) + pickle.dumps(
            (tm.rayParams, tm.noDisconDepths, tm.sourceDepth,
             tm.sourceBranch, tm.mohoBranch, tm.cmbBranch, tm.iocbBranch,
             tm.mohoDepth, tm.cmbDepth, tm.iocbDepth,
             [(c.depth, c.pLayerNum, c.sLayerNum)
              for c in tm.sMod.criticalDepths]))


def layers(sm, w):
    return sm.PLayers if w == "P" else sm.SLayers


def ends(tm):
    return {(w, l.botDepth) for w in "PS" for l in layers(tm.sMod, w)}


def table(tm, w, dr, pr, keep):
    i = "PS".index(w)
    brs = []
    for k, b in enumerate(tm.tauBranches[i]):
        x = {"top": dr.index.get(b.topDepth, -1),
             "bot": dr.index.get(b.botDepth, -1),
             "max": pr.index.get(b.maxRayParam, -1),
             "turn": pr.index.get(b.minTurnRayParam, -1),
             "min": pr.index.get(b.minRayParam, -1), "T": [], "D": [],
             "tau": [], "dif": [0, 0]}
        if k in keep:
            x["T"] = [wide(t + 1, 10**9) for t in b.time]
            x["D"] = [wide(d + 1, 10**12) for d in b.dist]
            x["tau"] = [wide(t + 1, 10**9) for t in b.tau]
        brs.append(x)
    t0 = tm.tauBranches[0]

    def top(n):
        return dr.index.get(t0[n].topDepth, -1) if 0 <= n < len(t0) else -1
    return {"layers": [{"t": dr(l.topDepth), "b": dr(l.botDepth),
                        "p": pr(l.topP), "q": pr(l.botP)}
                       for l in layers(tm.sMod, w)],
            "br": brs, "rays": [pr(p) for p in tm.rayParams],
            "src": dr.index.get(tm.sourceDepth, -1),
            "srcTop": top(tm.sourceBranch),
            "nodis": [dr.index.get(d, -1) for d in tm.noDisconDepths],
            "marks": [[dr.index.get(d, -1), top(n)] for d, n in (
                (tm.mohoDepth, tm.mohoBranch), (tm.cmbDepth, tm.cmbBranch),
                (tm.iocbDepth, tm.iocbBranch))]}


def far(b, c):
    """largest difference between two branches"""
    if len(b.time) != len(c.time) or len(b.dist) != len(c.dist) or \
            len(b.tau) != len(c.tau):
        return I32
    m = [abs(x - y) * s for u, v, s in ((b.time, c.time, 1e9),
                                        (b.dist, c.dist, 1e12),
                                        (b.tau, c.tau, 1e9))
         for x, y in zip(u, v)]
    m = max(m) if m else 0
    return int(min(m, I32)) if m == m else I32


BLANK = {"out": "refused", "h": 1, "D": [[]], "other": [], "same": True, "stale": False,
         "first": True, "lt": []}


def split_records(old, new, h, same, first, stale):
    if isinstance(new, Raised):
        e = {"layers": [], "br": [], "rays": [], "src": 0, "srcTop": 0,
             "nodis": [], "marks": []}
        return [dict(BLANK, old=e, new=e)]
    both = [l for m in (old, new) for w in "PS" for l in layers(m.sMod, w)]
    dr = Ranks([h, 0.0, old.sourceDepth, new.sourceDepth] +
               [d for l in both for d in (l.topDepth, l.botDepth)])
    pr = Ranks(list(old.rayParams) + list(new.rayParams) +
               [p for l in both for p in (l.topP, l.botP)])
    at = next((k for k, b in enumerate(old.tauBranches[0])
               if b.topDepth < h < b.botDepth), -1)
    out = []
    for i, w in enumerate("PS"):
        ot = table(old, w, dr, pr, {at})
        nt = table(new, w, dr, pr, {at, at + 1} if at >= 0 else set())
        for k, b in enumerate(new.tauBranches[i]):
            obs = old.tauBranches[i]
            nt["br"][k]["dif"] = [
                far(b, obs[k]) if k < len(obs) else I32,
                far(b, obs[k - 1]) if 0 < k <= len(obs) else I32]
        lt = []
        for n, l in enumerate(layers(new.sMod, w)):
            b = old.tauBranches[0][at] if at >= 0 else None
            if b is None or l.topDepth == l.botDepth or \
                    l.botDepth <= b.topDepth or l.topDepth >= b.botDepth:
                lt.append([])
                continue
            f = next((k for k, p in enumerate(new.rayParams)
                      if p <= min(l.topP, l.botP)), None)
            if f is None:
                lt.append([])
                continue
            e = []
            for p in new.rayParams[f:]:
                td = attempt(new.sMod.layerTimeDist, p, n, w == "P")
                e.append([[9999] * 9, [9999] * 9] if isinstance(td, Raised)
                         else [wide(td.time, 10**9),
                               wide(td.distRadian, 10**12)])
            lt.append([f + 1, e])
        other = {p for l in layers(new.sMod, "S" if w == "P" else "P")
                 for d, p in ((l.topDepth, l.topP), (l.botDepth, l.botP))
                 if d == h}
        out.append({"out": "ok", "h": dr(h), "w": w, "first": first,
                    "D": [wide(d, 10**9) for d in dr.values], "lt": lt,
                    "other": [pr(p) for p in sorted(other)], "same": same,
                    "stale": stale,
                    "old": ot, "new": nt})
    return out


def life(job):
    """The splits of one history on one model."""
    use_repo()
    data, name, hist, seed = job
    rng = random.Random(seed)
    tm = pickle.loads(data)
    recs, info, depths, stale = [], [], [], False
    for k, cls in enumerate(hist):
        h = depth_of(cls, tm, rng)
        # A branch begun by an earlier split is no discontinuity of the model.
        if h is None or any(0 < abs(h - d) < 1e-3 for d in depths):
            break
        depths.append(h)
        before = snap(tm)
        new = attempt(tm.depthCorrect if k == 0 else tm.splitBranch, h)
        same = snap(tm) == before
        for r in split_records(tm, new, h, same, k == 0, stale):
            recs.append(r)
            info.append({"model": name, "depths": [repr(d) for d in depths],
                         "classes": hist, "wave": r.get("w", "-"),
                         "raised": repr(new) if isinstance(new, Raised)
                         else None})
        if isinstance(new, Raised):
            break
        stale = stale or not ends(tm) <= ends(new) or any(
            0 < l.botDepth - l.topDepth < 1e-6
            for w in "PS" for l in layers(new.sMod, w))
        tm = new
    return recs, info


def main():
    use_repo()
    c = Check("C01", "model_checking")
    rng = c.rng
    res = tlc("SplitMC", MC % ((4, 4, 2) if THOROUGH else (3, 4, 2)),
              workers=8)
    c.ran(res)
    hists = [h[0] for h in res.tuples("HIST")]
    singles = sorted({h[0] for h in hists})
    names = sorted(models.SYN) + ["melt", "noinner", "jumpy"]
    specs = [(n, models.COARSE) for n in names]
    specs += [("lvz", dict(models.COARSE, allow_inner_core_s=False)),
              ("iasp91", models.COARSE)]
    if THOROUGH:
        specs += [("ak135", models.MIDDLE), ("lid", models.MIDDLE)]
    tms = models.get(specs)
    tms += build_many([(models.syn_path("cliff", CLIFF), models.COARSE)],
                      True)
    specs.append(("cliff", CLIFF))
    data = [pickle.dumps(t, protocol=-1) for t in tms]
    jobs = []
    for s, d in zip(specs, data):
        big = s[0] in ("iasp91", "ak135")
        for cls in singles:
            if not THOROUGH and rng.random() < (0.7 if big else 0.4):
                continue
            for k in range(8 if THOROUGH else 1):
                jobs.append((d, s[0], [cls], rng.getrandbits(40)))
        if not big:
            for h in rng.sample(hists, 120 if THOROUGH else 4):
                jobs.append((d, s[0], h, rng.getrandbits(40)))
    recs, info = [], []
    for r, i in pool_map(life, jobs):
        recs += r
        info += i
    can = []

    @canaries_made()
    def canary(cl, change, want=lambda r: True):
        for r, i in zip(recs, info):
            if i["classes"][0] == "inside" and r["out"] == "ok" and len(r["new"]["br"]) > len(
                    r["old"]["br"]) and r["first"] and want(r) and \
                    len(r["new"]["rays"]) < 150:
                break
        r = copy.deepcopy(r)
        change(r)
        can.append((r, cl))

    def part(r):
        return next(b for b in r["new"]["br"] if b["T"])

    def bump(r, f):
        x = part(r)[f][-5]
        x[0] = (x[0] + 3000) % 10000
        x[1] = (x[1] + 30) % 10000
    canary("branches", lambda r: part(r).update(top=2))
    canary("ray-parameters", lambda r: r["new"]["rays"].pop(4))
    canary("split-model-changed", lambda r: r.update(same=False))
    canary("source-depth", lambda r: r["new"].update(src=3))
    canary("source-branch", lambda r: r["new"].update(srcTop=1))
    canary("new-discontinuity", lambda r: r["new"].update(nodis=[]))
    canary("moho-cmb-iocb", lambda r: r["new"]["marks"][1].reverse() or
           r["new"]["marks"].reverse())
    canary("refused", lambda r: r.update(out="refused"))
    canary("gap", lambda r: r["new"]["layers"][3].update(t=1))
    canary("layers-changed", lambda r: r["new"]["layers"].pop())
    canary("ray-parameter-limits", lambda r: part(r).update(max=2))
    canary("other-branch-changed",
           lambda r: r["new"]["br"][-1].update(dif=[50, 50]),
           lambda r: not r["new"]["br"][-1]["T"])
    canary("parts-do-not-add-up", lambda r: bump(r, "T"))
    canary("part-not-its-layers", lambda r: bump(r, "D"))
    fails = {}
    step = 400                          # limit memory
    for k in range(0, len(recs), step):
        got = run_records(c, "SplitTrace", recs[k:k + step],
                          canaries=can if k == 0 else ())
        fails.update({i + k: v for i, v in got.items()})
    for i, cl in sorted(fails.items()):
        for f in sorted(cl):
            c.violation(f, info[i - 1])
    c.note(histories=len(jobs), splits=len(recs))
    c.sample(info[3])
    c.sample(info[-3])
    return c.finish()
