"""Tables of tau models, for B05 and C01."""
import copy
from core import *
import structure


def rank(r, v):
    return r.index.get(float(v), -1)


def tables(tm, layers_too=True):
    """-> [P record, S record]"""
    sm = tm.sMod
    dr = Ranks([d for l in sm.PLayers + sm.SLayers
                for d in (l.topDepth, l.botDepth)])
    pr = Ranks([0.0] + [p for l in sm.PLayers + sm.SLayers
                        for p in (l.topP, l.botP)])
    crit = [rank(dr, c.depth) for c in sm.criticalDepths]
    v = sm.vMod
    marks = []
    tops = {b.topDepth for b in tm.tauBranches[0]}
    for d, b, bd in ((v.mohoDepth, tm.mohoBranch, tm.mohoDepth),
                     (v.cmbDepth, tm.cmbBranch, tm.cmbDepth),
                     (v.iocbDepth, tm.iocbBranch, tm.iocbDepth)):
        if d in tops:
            t = tm.tauBranches[0][b].topDepth
            marks.append([rank(dr, d), rank(dr, t)])
            marks.append([rank(dr, d), rank(dr, bd)])
    rays = [rank(pr, p) for p in tm.rayParams]
    u = [wide(p, 10**9) for p in tm.rayParams]
    out = []
    for i, w in enumerate("PS"):
        layers = sm.PLayers if w == "P" else sm.SLayers
        brs = []
        for b in tm.tauBranches[i]:
            vals = list(b.time) + list(b.dist) + list(b.tau)
            brs.append({
                "top": rank(dr, b.topDepth), "bot": rank(dr, b.botDepth),
                "max": rank(pr, b.maxRayParam),
                "turn": rank(pr, b.minTurnRayParam),
                "min": rank(pr, b.minRayParam),
                "T": [wide(t, 10**9) for t in b.time],
                "D": [wide(d, 10**12) for d in b.dist],
                "tau": [wide(t, 10**9) for t in b.tau],
                "neg": sum(1 for x in vals if not x >= -1e-9)})
        lt = []
        if layers_too:
            for n, l in enumerate(layers):
                if l.topDepth == l.botDepth:
                    lt.append([])
                    continue
                least = min(l.topP, l.botP)
                first = next((k for k, p in enumerate(tm.rayParams)
                              if p <= least), None)
                if first is None:
                    lt.append([])
                    continue
                e = []
                for p in tm.rayParams[first:]:
                    td = attempt(sm.layerTimeDist, p, n, w == "P")
                    e.append([[9999] * 9, [9999] * 9]
                             if isinstance(td, Raised) else
                             [wide(td.time, 10**9),
                              wide(td.distRadian, 10**12)])
                lt.append([first + 1, e])
        out.append({"w": w, "rays": rays, "U": u, "crit": crit, "br": brs,
                    "marks": marks, "lt": lt,
                    "layers": [{"t": dr(l.topDepth), "b": dr(l.botDepth),
                                "p": pr(l.topP), "q": pr(l.botP)}
                               for l in layers]})
    return out
