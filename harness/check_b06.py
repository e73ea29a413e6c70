"""B06: time and distance through a layer."""
import copy
import math
from core import *
import models

MC = """SPECIFICATION Spec
CONSTANTS
    MaxCuts = %d
    Tenths = {%s}
INVARIANTS Counted Out
CHECK_DEADLOCK FALSE
"""
CLAUSES = ("refused no-thickness centre-distance centre-time micro witness "
           "distance-too-large distance-too-small time-too-large "
           "time-too-small cut-changes-time cut-changes-distance "
           "depth-not-found depth-outside depth-slowness")
RADIUS = 6371.0
POWER = {"falling": 3.0, "steep": 35.0, "cliff": 600.0, "flat": 0.0, "rising": -2.0,
         "velocity": 1.0}
PLACE = {"surface": (0.0, 5.8), "crust": (20.0, 6.5), "mantle": (1000.0, 11.4),
         "core": (3500.0, 9.0), "inner": (5300.0, 11.0),
         "centre": (6171.0, 11.2)}
THICK = {"none": 0.0, "micro": 1e-10, "metre": 1e-3, "km": 1.0, "lots": 200.0}


def steepness(l, radius):
    """The power of the radius that the slowness goes with."""
    if l.topP <= 0 or l.botP <= 0 or l.topP == l.botP or \
            l.botDepth >= radius or l.topDepth >= l.botDepth:
        return 0.0
    r = math.log((radius - l.topDepth) / (radius - l.botDepth))
    return abs(math.log(l.topP / l.botP) / r) if r else math.inf


def shape(x, jig):
    from taupy.SlownessLayer import SlownessLayer
    top, v = PLACE[x["place"]]
    top += jig if x["place"] not in ("surface", "centre") else 0
    bot = top + THICK[x["thick"]] if x["place"] != "centre" else RADIUS
    r1, r2 = RADIUS - top, RADIUS - bot
    u1 = r1 / v
    if x["shape"] == "slight":
        u2 = u1 * (1 - 1e-5)
    elif x["shape"] == "velocity":
        u2 = r2 / v
    else:
        k = POWER[x["shape"]]
        if k > 10 and x["thick"] == "none":
            u2 = u1 * 0.9
        else:
            if k > 100 and x["thick"] == "lots":
                bot = top + 20.0
                r2 = RADIUS - bot
            u2 = u1 * (r2 / r1) ** k if k else u1
    if x["place"] == "centre":
        u2 = 0.0
    return SlownessLayer(u1, top, u2, bot)


def ray(x, l):
    m = min(l.topP, l.botP)
    return {"zero": 0.0, "small": 0.01 * m, "half": 0.6 * m,
            "near": m * (1 - 1e-6), "turning": m}[x]


class Run(object):
    """The life of one layer."""

    def __init__(self, layer, p, sm, rng, radius=RADIUS):
        self.radius = radius
        self.sm, self.rng, self.p = sm, rng, p
        self.pieces, self.stages, self.finds = [], [], []
        self.parts = [(layer, self.add(layer))]
        self.stages.append([n for _, n in self.parts])

    def add(self, l):
        p, sm = self.p, self.sm
        from taupy.SlownessLayer import SlownessLayer
        centre = l.botDepth == self.radius
        if centre or self.rng.random() < 0.6:
            sm.radiusOfEarth = self.radius
            sm.PLayers = [SlownessLayer(l.topP, 0.0, l.topP, 0.0), l]
            td = attempt(sm.layerTimeDist, p, 1, True)
        else:
            td = attempt(l.bullenRadialSlowness, p, self.radius)
        bad = isinstance(td, Raised)
        r1, r2 = self.radius - l.topDepth, self.radius - l.botDepth
        self.pieces.append({
            "u1": wide(l.topP, 10**9), "u2": wide(l.botP, 10**9),
            "r1": wide(r1, 10**9), "r2": wide(r2, 10**9),
            "L": wide(math.log(r1 / r2), 10**12) if r2 > 0 else [],
            "ok": not bad, "T": [] if bad else wide(td.time, 10**9),
            "D": [] if bad else wide(td.distRadian, 10**12),
            "zero": l.topDepth == l.botDepth,
            "micro": l.botDepth - l.topDepth < 1e-9, "centre": centre})
        return len(self.pieces)

    def find(self, l, q, d):
        back = attempt(l.evaluateAtBullen, d, self.radius)
        self.finds.append({
            "q": wide(q, 10**9), "r": wide(self.radius - d, 10**9),
            "back": [] if isinstance(back, Raised) else wide(back, 10**9),
            "r1": wide(self.radius - l.topDepth, 10**9), "tol": [1000],
            "r2": wide(self.radius - l.botDepth, 10**9),
            "ok": not isinstance(back, Raised)})

    def missing(self, q):
        self.finds.append({"q": wide(q, 10**9), "r": [], "back": [], "r1": [],
                           "r2": [], "tol": [], "ok": False})

    def cut(self, k, how, f):
        from taupy.SlownessLayer import SlownessLayer
        l, _ = self.parts[k]
        f = min(0.98, max(0.02, f + self.rng.uniform(-0.05, 0.05)))
        if how == "p":
            q = l.topP + f * (l.botP - l.topP)
            d = attempt(l.bullenDepthFor, q, self.radius)
            if isinstance(d, Raised):
                self.missing(q)
                return False
            self.find(l, q, d)
        else:
            d = l.topDepth + f * (l.botDepth - l.topDepth)
            q = attempt(l.evaluateAtBullen, d, self.radius)
            if isinstance(q, Raised):
                self.missing(0.0)
                return False
            if l.topP != l.botP:
                e = attempt(l.bullenDepthFor, q, self.radius)
                if isinstance(e, Raised):
                    self.missing(q)
                    return False
                self.find(l, q, e)
        if not l.topDepth <= d <= l.botDepth or not q >= self.p:
            return False
        parts = [SlownessLayer(l.topP, l.topDepth, q, d),
                 SlownessLayer(q, d, l.botP, l.botDepth)]
        self.parts[k:k + 1] = [(x, self.add(x)) for x in parts]
        self.stages.append([n for _, n in self.parts])
        return True

    def record(self):
        return {"pieces": self.pieces, "stages": self.stages,
                "finds": self.finds, "p": wide(self.p, 10**9),
                "dtol": [1000]}


def main():
    use_repo()
    c = Check("B06", "model_checking")
    rng = c.rng
    res = tlc("LayerMC", MC % ((2, "2, 5, 8") if not THOROUGH else
                               (3, "1, 5, 9")), workers=8)
    c.ran(res)
    tms = models.get([(n, models.COARSE) for n in sorted(models.SYN)] +
                     [("iasp91", models.COARSE)])
    sm = copy.deepcopy(tms[0].sMod)
    recs, info = [], []
    cuts = res.tuples("CUT")
    most = 40000 if THOROUGH else 4000
    c.note(histories_of_the_specification=len(cuts))
    if len(cuts) > most:
        cuts = [x for x in cuts if not x[4]] + rng.sample(
            [x for x in cuts if x[4]], most)
    for sh, pl, th, ra, cs in cuts:
        x = {"shape": sh, "place": pl, "thick": th}
        l = shape(x, rng.uniform(-1, 1))
        run = Run(l, ray(ra, l), sm, rng)
        for k, how, f in cs:
            if not run.cut(k - 1, how, f / 10.0):
                break
        recs.append(run.record())
        info.append(dict(x, ray=ra, cuts=cs, layer=str(l)))
    n0 = len(recs)
    # the layers of real models
    for tm in tms:
        radius = models.radius(tm)
        for w, ls in (("P", tm.sMod.PLayers), ("S", tm.sMod.SLayers)):
            for l in ls:
                if not THOROUGH and rng.random() < 0.5:
                    continue
                if l.topP != l.botP and abs(l.topP / max(l.botP, 1e-9) - 1) \
                        < 1e-6 or steepness(l, radius) > 2000:
                    continue
                ra = rng.choice(["zero", "small", "half", "near"])
                if l.botDepth == radius:
                    ra = "zero"
                run = Run(l, ray(ra, l), sm, rng, radius)
                if l.topDepth + 1e-3 < l.botDepth < radius:
                    run.cut(0, "d" if l.topP == l.botP else
                            rng.choice("pd"), rng.random())
                recs.append(run.record())
                info.append({"layer": str(l), "wave": w, "ray": ra})
    can = []

    @canaries_made()
    def canary(cl, want, change):
        r = next(copy.deepcopy(r) for r in recs if want(r))
        change(r)
        can.append((r, cl))

    def add(f, k, by):
        def ch(r):
            x = r["pieces"][k][f]
            n = sum(d * 10000**i for i, d in enumerate(x))
            n = int(n * (1 + by))
            out = []
            while n:
                n, d = divmod(n, 10000)
                out.append(d)
            r["pieces"][k][f] = out
        return ch

    def plain(r):
        p, x = r["pieces"][0], info[recs.index(r)]
        if (x.get("shape"), x.get("thick"), x["ray"]) != (
                "falling", "km", "half"):
            return False
        return p["ok"] and len(r["stages"]) > 1 and len(p["T"]) > 2 and \
            len(p["D"]) > 2
    canary("distance-too-large", plain, add("D", 1, 0.5))
    canary("distance-too-small", plain, add("D", 1, -0.5))
    canary("time-too-large", plain, add("T", 1, 0.5))
    canary("time-too-small", plain, add("T", 1, -0.5))
    canary("cut-changes-time", plain, add("T", 1, 1e-3))
    canary("cut-changes-distance", plain, add("D", 1, 1e-2))
    canary("witness", plain, add("L", 0, 1e-2))
    canary("refused", plain, lambda r: r["pieces"][0].update(ok=False))
    canary("no-thickness", plain, lambda r: r["pieces"][0].update(zero=True))
    canary("centre-distance", lambda r: r["pieces"][0]["centre"],
           lambda r: r["pieces"][0].update(D=wide(3.14, 10**12)))
    canary("depth-not-found", lambda r: r["finds"],
           lambda r: r["finds"][0].update(ok=False))
    canary("depth-slowness", lambda r: r["finds"],
           lambda r: r["finds"][0].update(back=[1, 2, 3]))
    canary("depth-outside", lambda r: r["finds"],
           lambda r: r["finds"][0].update(r=[1, 2]))
    hp = wide(math.pi / 2, 10**12)
    for r in recs:
        r["halfpi"] = hp
    for r, _ in can:
        r["halfpi"] = hp
    fails = run_records(c, "LayerTrace", recs, canaries=can)
    for i, cl in sorted(fails.items()):
        for f in sorted(cl):
            c.violation(f, info[i - 1])
    c.note(cut_histories=n0, model_layers=len(recs) - n0,
           pieces=sum(len(r["pieces"]) for r in recs))
    c.sample(info[5])
    c.sample(info[-5])
    return c.finish()
