"""A06: pierce points."""
import copy
from core import *
import arrivals as arr
import models
import rays

_ctx = {}


def points(pts):
    return [[fix(x.depth, DEPTH), fix(x.time, 1e4), fix(x.distRadian, 1e7),
             fix(x.p, 1e5)] for x in pts]


def legs_of(name):
    if re.fullmatch(r"[\d.]+kmps", name):
        return [["kmps"], ["END"]]
    return rays.legs_json(rays.tokens(name))


def is_close(p, rp):
    """Very near to a sample, but not equal to it."""
    for a, b in zip(rp, rp[1:]):
        if a > p > b:
            f = (p - b) / (a - b)
            return min(f, 1 - f) < 1e-5
    return False


def record(a, ei, rk, model, h, pts, p, twice):
    return {"e": ei + 1, "legs": legs_of(a.name), "p2": rk.double(p),
            "j": max(1, sum(1 for x in model.rayParams if x >= p)),
            "close": is_close(p, model.rayParams), "twice": twice,
            "x": fix(a.dist, 1e7), "t": fix(a.time, 1e4),
            "p": fix(a.rayParam, 1e5), "src": fix(h, DEPTH),
            "pts": points(pts)}


def phase_twice(ph, p):
    """The ray at the edge of a shadow zone: there are two of them."""
    return int(len(ph.rayParams) > 2 and list(ph.rayParams).count(p) > 1)


def exact_distances(ph):
    """Distances (degrees) which are exactly those of a sample."""
    out = []
    for x in (ph.dist[0], ph.dist[-1], ph.dist[len(ph.dist) // 2]):
        d = x * 180 / math.pi
        for y in (d, math.nextafter(d, 0), math.nextafter(d, 999)):
            if 0 <= y <= 180 and y * math.pi / 180 == x:
                out.append(y)
                break
    return out


def collect(j, kind):
    """Arrivals of some phases, with pierce points or paths."""
    ei, names, seed = j
    base, m, (label, h, add) = _ctx["earths"][ei]
    rk = _ctx["ranks"][ei]
    rng = random.Random(seed)
    from taupy.SeismicPhase import SeismicPhase
    out = []
    for name in names:
        info = {"model": label, "depth": h, "add": add, "name": name}
        ph = attempt(SeismicPhase, name, m)
        if isinstance(ph, Raised) or not len(ph.dist):
            continue
        qs = arr.queries(list(ph.dist), rng, 5)[:7] if name[-4:] != "kmps" \
            else [rng.uniform(0, 180)]
        if len(ph.dist) > 2:
            qs += [math.degrees(x + (y - x) * rng.random()) for x, y in rng.sample(
                list(zip(ph.dist, ph.dist[1:])), 2)] + exact_distances(ph)
        seen = 0
        for q in qs:
            if add and kind == "pierce" and rng.random() < 0.3:
                from taupy.TauP_Pierce import TauP_Pierce
                t = TauP_Pierce(base, [name], h, q)
                t.addDepth = list(add)
                r = attempt(t.run)
                got = r if isinstance(r, Raised) else t.arrivals
            else:
                got = attempt(ph.calcPierce if kind == "pierce"
                              else ph.calcPath, q)
            if isinstance(got, Raised):
                out.append(("raised", repr(got), dict(info, q=q)))
                continue
            for a in got:
                pts = a.pierce if kind == "pierce" else a.path
                p = pts[0].p if len(pts) else a.rayParam
                out.append(("arrival", (record if kind == "pierce" else
                                        _ctx["record"])(
                    a, ei, rk, m, h, pts, p, phase_twice(ph, p)), dict(info, q=repr(q),
                                                   dist=repr(a.dist))))
                seen += 1
            if seen >= _ctx["per_name"]:
                break
    return out


def job(j):
    return collect(j, "pierce")


def prepare(c, specs, ndepths, added):
    """Earths, some of them with extra boundaries."""
    es = [(b, m, lab + ([],)) for b, m, lab in arr.earths(c, specs, ndepths)]
    out = []
    for k, (b, m, (nm, h, _)) in enumerate(es):
        out.append((b, m, (nm, h, [])))
        if k % 3 == added % 3:
            add = sorted(round(c.rng.uniform(1, models.radius(b) - 71), 1)
                         for _ in range(c.rng.choice([1, 2])))
            z = b
            for d in add:
                z = attempt(z.splitBranch, d) if not isinstance(z, Raised) \
                    else z
            z = attempt(z.depthCorrect, h) if not isinstance(z, Raised) else z
            if isinstance(z, Raised):
                c.violation("split", {"model": nm, "depth": h, "add": add,
                                      "raised": repr(z)})
            else:
                out.append((b, z, (nm, h, add)))
    return out


def jobs_for(c, es, names, count, extra):
    jobs = []
    for ei, (base, m, label) in enumerate(es):
        toks = arr.pick_names(c, base, names, count)
        all_ = [rays.spell(t) for t in toks] + extra
        if label[1] > 0:
            all_ += "p s pP sS sP pS pPKP sSKS p^mP pPn sPn sSn".split()
        all_ = sorted(set(all_))
        for k in range(0, len(all_), 15):
            jobs.append((ei, all_[k:k + 15], c.rng.getrandbits(40)))
    return jobs


EXTRA = """3kmps PnPn SPn PdiffPdiff SnSn Pdiff Sdiff PKiKP PKIKP PKJKP SKIKS
PKKP P S PcP ScS SPdiff""".split()


def specs_for(tier):
    specs = [(n, models.COARSE) for n in sorted(models.SYN)] + [
        ("iasp91", models.COARSE)]
    if tier:
        specs += [(n, models.MIDDLE) for n in ("lid", "soft", "ak135")]
    return specs


def main():
    use_repo()
    c = Check("A06", "model_checking")
    names = rays.spec_names(c, 3, 9)
    es = prepare(c, specs_for(THOROUGH), 12 if THOROUGH else 5, 1)
    earths, ranks = [], []
    for base, m, _ in es:
        e, rk = rays.earth(base, m, layers=True)
        earths.append(e)
        ranks.append(rk)
    _ctx.update(earths=es, ranks=ranks, per_name=12 if THOROUGH else 4)
    jobs = jobs_for(c, es, names, 60 if THOROUGH else 14, EXTRA)
    recs, info = [], []
    for out in pool_map(job, jobs):
        for kind, r, i in out:
            if kind == "raised":
                c.violation("raised", dict(i, raised=r))
            else:
                recs.append(r)
                info.append(i)
    can = canaries(recs)
    fails = run_records(c, "PierceTrace", recs, canaries=can, any_of=True, heap="10g",
                        data={"earths": earths})
    for i, cl in sorted(fails.items()):
        for f in sorted(cl):
            c.violation(f, dict(info[i - 1], pts=recs[i - 1]["pts"][:40]))
    c.note(arrivals=len(recs), points=sum(len(r["pts"]) for r in recs))
    c.sample(dict(info[7], pts=recs[7]["pts"]))
    return c.finish()


@canaries_made()
def canaries(recs):
    ks = [k for k, r in enumerate(recs) if r["legs"] == [["P"], ["END"]]
          and len(r["pts"]) > 5 and r["src"] and not r["close"]]
    ks = ks[::len(ks) // 12 + 1]
    hks = [k for k, r in enumerate(recs) if r["legs"] == [["Pn"], ["Pn"], [
        "END"]] and any(a[0] == b[0] and b[1] > a[1] + 50 for a, b in zip(
            r["pts"], r["pts"][1:]))]
    hks = hks[::len(hks) // 12 + 1]
    res = []

    def can(cl, ks, fn):
        for k in ks:
            r = copy.deepcopy(recs[k])
            fn(r)
            res.append((r, cl))
    can("first-point", ks, lambda r: r["pts"][0].__setitem__(0, 0))
    can("last-point", ks, lambda r: r["pts"][-1].__setitem__(1, r["t"] + 9))
    can("backwards", ks, lambda r: r["pts"][2].__setitem__(1, 0))
    can("ray-parameter", ks, lambda r: r["pts"][2].__setitem__(3, 5))
    can("wrong-depth", ks, lambda r: r["pts"].pop(1))
    can("wrong-depth", ks, lambda r: r["pts"].insert(2, r["pts"][1]))
    can("extra-points", ks, lambda r: r["pts"].append(r["pts"][-1]))

    def late(r):
        for p in r["pts"][2:-1]:
            p[1] = r["pts"][-1][1]
    can("wrong-time", ks, late)

    def far(r):
        for p in r["pts"][2:-1]:
            p[2] = r["pts"][-1][2]
    can("wrong-distance", ks, far)

    def norun(r):
        q = r["pts"]
        k = next(k for k in range(1, len(q)) if q[k][0] == q[k - 1][0] and
                 q[k][1] > q[k - 1][1])
        q.pop(k)
    can("run-at-wrong-depth", hks, norun)
    return res
