"""A05: what an arrival says about its ray."""
import copy
import math
from core import *
import arrivals as arr
import models
import rays

_ctx = {}


def legs_of(name):
    if re.fullmatch(r"[\d.]+kmps", name):
        return [["kmps"], ["END"]]
    return rays.legs_json(rays.tokens(name))


def sine(deg):
    return [deg < 0, wide(abs(math.sin(math.radians(deg))), 10**12),
            abs(deg) <= 90 + 1e-9]


def witness(ph, x, p, t):
    """The samples of the curve around an arrival."""
    best, res = None, []
    for k in range(len(ph.dist) - 1):
        a, b = ph.dist[k], ph.dist[k + 1]
        if not min(a, b) - 1e-11 <= x <= max(a, b) + 1e-11:
            continue
        f = (x - a) / (b - a) if a != b else 0.0
        off = abs(ph.rayParams[k] + f * (ph.rayParams[k + 1] -
                                         ph.rayParams[k]) - p) + \
            abs(ph.time[k] + f * (ph.time[k + 1] - ph.time[k]) - t)
        if best is None or off < best:
            best = off
            res = [k + 1] + [
                w for j in (k, k + 1) for w in (
                    wide(arr.degrees(ph.dist[j]), 10**12),
                    wide(ph.time[j], 10**9), wide(ph.rayParams[j], 10**9))]
    return res


def job(j):
    ei, lists, seed = j
    base, m, (label, h) = _ctx["earths"][ei]
    rng = random.Random(seed)
    from taupy.TauP_Time import TauP_Time
    from taupy.SeismicPhase import SeismicPhase
    out = []
    for names in lists:
        one = rng.choice(names)
        ph = attempt(SeismicPhase, one, m)
        if isinstance(ph, Raised) or not len(ph.dist):
            q = rng.uniform(0, 180)
        else:
            q = rng.choice(arr.queries(list(ph.dist), rng, 3))
        tt = TauP_Time(base, list(names), h, q)
        r = attempt(tt.run)
        info = {"model": label, "depth": h, "names": names, "q": repr(q)}
        if isinstance(r, Raised):
            out.append(({"kind": "raised", "what": repr(r)}, info))
            continue
        ts = Ranks([a.time for a in tt.arrivals])
        out.append(({"kind": "list",
                     "times": [ts(a.time) for a in tt.arrivals]}, info))
        for a in tt.arrivals:
            nm = a.name
            ph = a.phase
            out.append(({
                "kind": "arrival", "e": ei + 1, "legs": legs_of(nm),
                "q": arr.pair(abs(q)), "x": arr.rpair(a.dist),
                "xw": wide(arr.degrees(a.dist), 10**12),
                "mod": arr.pair(a.getModuloDistDeg()),
                "deg": [arr.pair(a.getDistDeg()),
                        arr.pair(a.purist_distance)],
                "seg": witness(ph, a.dist, a.rayParam, a.time),
                "t": wide(a.time, 10**9), "p": wide(a.rayParam, 10**9),
                "pd": wide(a.rayParam_sec_degree, 10**9),
                "take": sine(a.takeoffAngle), "inc": sine(a.incidentAngle),
                "h": fix(h, DEPTH), "hw": wide(h, 10**9),
                "src": fix(a.sourceDepth, DEPTH),
                "names": nm in names and ph.name == nm,
                "purist": legs_of(a.puristName)},
                dict(info, name=nm)))
    return out


def main():
    use_repo()
    c = Check("A05", "model_checking")
    names = rays.spec_names(c, 3, 9)
    specs = [(n, models.COARSE) for n in sorted(models.SYN)] + [
        ("iasp91", models.COARSE)]
    if THOROUGH:
        specs += [(n, models.MIDDLE) for n in ("lid", "soft", "ak135")]
    es = arr.earths(c, specs, 12 if THOROUGH else 5)
    _ctx["earths"] = es
    files = {}
    velocities = []
    for name, _ in specs:
        if name not in files:
            files[name] = len(velocities) + 1
            rows = []
            for line in open(models.path_of(name)).read().split("\n")[2:]:
                v = line.split("#")[0].split()
                if len(v) == 4:
                    rows.append([wide(float(x), 10**9) for x in v[:3]])
            velocities.append(rows)
    jobs = []
    for ei, (base, m, label) in enumerate(es):
        toks = arr.pick_names(c, base, names, 60 if THOROUGH else 20)
        all_ = [rays.spell(t) for t in toks]
        # upgoing phases, too
        all_ += [x for x in "p s pP sS sP pS pPKP sSKS p^mP".split()
                 if label[1] > 0] + ["3kmps", "p", "s", "S"]
        lists = [["ttall"]]
        lists[0] = c.rng.sample(rays.STANDARD, 20)
        for _ in range(60 if THOROUGH else 12):
            lists.append(sorted(set(c.rng.choice(all_) for _ in range(5))))
        for k in range(0, len(lists), 6):
            jobs.append((ei, lists[k:k + 6], c.rng.getrandbits(40)))
    recs, info = [], []
    for out in pool_map(job, jobs):
        for r, i in out:
            if r["kind"] == "raised":
                c.violation("raised", dict(i, raised=r["what"]))
            else:
                recs.append(r)
                info.append(i)
    earths = []
    for base, m, (label, h) in es:
        e = rays.earth(base, m, curves=False)
        e["vm"] = files[label]
        e["radius"] = wide(models.radius(base), 10**9)
        earths.append(e)
    can = []

    @canaries_made()
    def canary(cl, change, want=lambda r: True):
        r = copy.deepcopy(next(
            r for r in recs if r["kind"] == "arrival" and len(r["seg"]) and
            r["x"][0] > 30000 and r["legs"][0][0] in "PS" and
            r["seg"][2] != r["seg"][5] and min(len(r[f]) for f in (
                "p", "t", "pd")) > 1 and want(r)))
        change(r)
        can.append((r, cl))

    def bump(ws, n=1):
        ws[n] = (ws[n] + 100) % 10000
    canary("distance-not-asked", lambda r: r["q"].__setitem__(0, 7))
    canary("off-the-curve", lambda r: r.update(seg=[]))
    canary("time-off-the-curve", lambda r: bump(r["t"]))
    canary("ray-parameter-off-the-curve", lambda r: bump(r["p"]))
    canary("modulo-distance", lambda r: r["mod"].__setitem__(0, 7))
    canary("distance-in-degrees", lambda r: r["deg"][1].__setitem__(0, 7))
    canary("ray-parameter-per-degree", lambda r: bump(r["pd"]))
    canary("name", lambda r: r.update(names=False))
    canary("purist-name", lambda r: r["purist"].pop(0))
    canary("source-depth", lambda r: r.update(src=r["src"] + 1))
    canary("take-off-angle", lambda r: bump(r["take"][1]))
    canary("take-off-angle",
           lambda r: r["take"].__setitem__(0, not r["take"][0]))
    canary("incident-angle", lambda r: bump(r["inc"][1]))
    can.append(({"kind": "list", "times": [1, 3, 2]}, "unsorted"))
    fails = run_records(c, "ValuesTrace", recs, canaries=can, heap="8g",
                        data={"earths": earths, "velocities": velocities})
    for i, cl in sorted(fails.items()):
        for f in sorted(cl):
            c.violation(f, info[i - 1])
    c.note(arrivals=sum(r["kind"] == "arrival" for r in recs),
           answers=sum(r["kind"] == "list" for r in recs))
    c.sample(info[7])
    c.sample(info[-3])
    return c.finish()
