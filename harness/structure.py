"""Slowness models for B02 and B03."""
import copy
import math
from core import *
import models


def units(x):
    """ten-thousandths, if it is a whole number of them"""
    n = round(float(x) * 10000)
    return n if abs(float(x) * 10000 - n) < 1e-6 and abs(n) < I32 else -I32


def tvel_lines(path):
    lines = []
    with open(path) as f:
        for line in f.read().splitlines()[2:]:
            if line.split("#")[0].strip():
                lines.append([[units(x)] for x in line.split("#")[0].split()])
    return lines


BLANK = {"crit": [], "fluid": [], "zP": [], "zS": [], "P": [], "S": [],
         "D": [[]], "U": [[]], "inS": [False], "ray": [False],
         "lim": {"dp": [], "dmin": [], "depth": [], "range": 0, "err": []}}


def record(path, params, sm, deep=True):
    """sm: a slowness model or Raised."""
    r = dict(copy.deepcopy(BLANK), lines=tvel_lines(path),
             jok=bool(params.get("allow_inner_core_s", True)),
             made=sm.kind if isinstance(sm, Raised) else "yes")
    if isinstance(sm, Raised):
        return r
    dr = Ranks([d for l in sm.PLayers + sm.SLayers
                for d in (l.topDepth, l.botDepth)])
    pr = Ranks([p for l in sm.PLayers + sm.SLayers for p in (l.topP, l.botP)])
    r["D"] = [wide(d, 10**9) for d in dr.values]
    r["U"] = [wide(p, 10**7) for p in pr.values]
    for w, layers in (("P", sm.PLayers), ("S", sm.SLayers)):
        isp = w == "P"
        out = []
        for j, l in enumerate(layers):
            x = {"t": dr(l.topDepth), "b": dr(l.botDepth), "p": pr(l.topP),
                 "q": pr(l.botP), "jump": 0, "td": [], "pd": []}
            if deep and l.botP <= l.topP:
                a = attempt_plain(sm.approxDistance, j - 1, l.topP, isp)
                b = attempt_plain(sm.approxDistance, j, l.botP, isp)
                if a is not None and b is not None:
                    x["jump"] = fix(abs(a.distRadian - b.distRadian), DIST)
                    c = halfway(sm, j, l, isp)
                    if c is not None:
                        tds = ((a.time, a.distRadian), c,
                               (b.time, b.distRadian))
                        x["td"] = [wide(t, 10**6) for t, _ in tds]
                        x["pd"] = [wide(d, 10**9) for _, d in tds]
            out.append(x)
        r[w] = out
        r["z" + w] = [{"top": units(z.topDepth), "bot": wide(z.botDepth, 10**9),
                       "p": wide(z.rayParam, 10**7)} for z in (
            sm.highSlownessLayerDepthsP if isp else
            sm.highSlownessLayerDepthsS)]
    used = {p for l in sm.SLayers for p in (l.topP, l.botP)}
    turn, least = set(), math.inf
    for l in sm.SLayers:
        if l.topP <= least:
            turn.add(l.topP)
        if l.botP <= min(least, l.topP):
            turn.add(l.botP)
        least = min(least, l.topP, l.botP)
    r["ray"] = [p in turn for p in pr.values]
    r["inS"] = [p in used for p in pr.values]
    r["crit"] = [units(c.depth) for c in sm.criticalDepths]
    r["fluid"] = [[units(z.topDepth), units(z.botDepth)]
                  for z in sm.fluidLayerDepths]
    r["lim"] = {"dp": wide(params.get("max_delta_p", 11.0) + 2e-7, 10**7),
                "dmin": wide(params.get("min_delta_p", 0.1), 10**7),
                "depth": wide(params.get("max_depth_interval", 115.0), 10**9),
                "range": fix(params.get("max_range_interval", 2.5) *
                             math.pi / 180, DIST),
                "err": wide(params.get("max_interp_error", 0.05), 10**6)}
    return r


def attempt_plain(fn, *args):
    try:
        return fn(*args)
    except Exception:
        return None


def halfway(sm, j, l, isp):
    """Time and distance of the ray half way between those that turn at the
    top and at the bottom of layer j."""
    from taupy.SlownessLayer import SlownessLayer
    if l.topDepth == l.botDepth:
        return None
    p = (l.topP + l.botP) / 2
    try:
        c = sm.approxDistance(j - 1, p, isp)
        d = SlownessLayer(l.topP, l.topDepth, p, l.bullenDepthFor(
            p, sm.radiusOfEarth)).bullenRadialSlowness(p, sm.radiusOfEarth)
    except Exception:
        return None
    return c.time + 2 * d.time, c.distRadian + 2 * d.distRadian


def random_rows(rng, n=None):
    """An Earth with accidents: rows (depth, vp, vs)."""
    depths = sorted(rng.sample([10, 15, 20, 24, 35, 50, 77, 120, 200, 220, 310,
                                410, 500, 660, 900, 1500, 2000, 2500],
                               n or rng.randint(2, 7)))
    vp, rows = rng.uniform(4.5, 6.5), []
    ratio = rng.uniform(0.5, 0.62)
    grow = rng.uniform(0.0, 0.004)
    last = 0

    def row(d):
        rows.append((d, round(vp, 3), round(vp * ratio, 3)))
    row(0)
    for d in depths:
        vp += (d - last) * grow * rng.choice([1, 1, 1, 0, -0.6])
        vp = min(max(vp, 4.0), 13.6)
        row(d)
        kind = rng.choice(["jump", "jump", "kink", "drop", "s", "same"])
        if kind == "jump":
            vp += rng.uniform(0.1, 1.6)
            row(d)
        elif kind == "drop":
            vp -= rng.uniform(0.05, 0.8)
            row(d)
        elif kind == "s":
            ratio = rng.uniform(0.5, 0.62)
            row(d)
        last = d
    vp = max(vp, 13.0)
    row(2889)
    return rows + [(2889, 8.0, 0.0), (5153.9, 10.2, 0.0), (5153.9, 11.0, 3.5),
                   (rng.choice([6371, 6371, 6371.25, 6178.5, 6378.137]), 11.3,
                    3.7)]


def sample_model(job):
    """(path, params) -> a record; runs in a worker"""
    use_repo()
    path, params, deep = job
    from taupy.VelocityModel import VelocityModel
    from taupy.SlownessModel import SlownessModel

    def make():
        v = VelocityModel.readVelocityFile(path)
        kw = {"minDeltaP": params.get("min_delta_p", 0.1),
              "maxDeltaP": params.get("max_delta_p", 11.0),
              "maxDepthInterval": params.get("max_depth_interval", 115.0),
              "maxRangeInterval": params.get("max_range_interval", 2.5) *
              math.pi / 180,
              "maxInterpError": params.get("max_interp_error", 0.05),
              "allowInnerCoreS": params.get("allow_inner_core_s", True)}
        return SlownessModel(v, **kw)
    return record(path, params, attempt(make), deep)
