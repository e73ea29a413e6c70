"""A07: ray paths."""
import copy
from core import *
import math
import check_a06 as p6
import models
import rays


def means(x, y, r0):
    """p * dt / dx and (p * ln(r1 / r2) / dx)^2 of the way between points."""
    dx, dt = y.distRadian - x.distRadian, y.time - x.time
    r1, r2 = sorted((r0 - x.depth, r0 - y.depth))
    if dx < 1e-6 or dt < 1e-4 or r1 <= 0 or r2 - r1 < 1e-3:
        return [-1, -1]
    p = y.p
    v = (p * math.log(r2 / r1) / dx) ** 2
    return [min(fix(p * dt / dx, 10), 2 * 10**9), min(fix(v, 10), 2 * 10**9)]


def without_repeats(pts):
    """Points with the one before them, less those that repeat it."""
    out = [(None, x) for x in pts[:1]]
    for y, x in zip(pts, pts[1:]):
        z = out[-1][1]
        if abs(x.depth - z.depth) > 1e-7 or abs(x.time - z.time) > 1e-6 or \
                abs(x.distRadian - z.distRadian) > 1e-9:
            out.append((y, x))
    return out


def record(a, ei, rk, model, h, pts, p, twice):
    r = p6.record(a, ei, rk, model, h, [], p, twice)
    pts = without_repeats(pts)
    r["pp"] = min(fix(p * p, 10), 2 * 10**9)
    r["pts"] = q = p6.points([x for _, x in pts])
    for k, (y, x) in enumerate(pts):
        q[k].append(fix(x.time - p * x.distRadian, 1e4))
        q[k] += means(y, x, models.radius(model)) if y else [-1, -1]
    return r


def job(j):
    return p6.collect(j, "path")


def main():
    use_repo()
    c = Check("A07", "model_checking")
    names = rays.spec_names(c, 3, 9)
    es = p6.prepare(c, p6.specs_for(THOROUGH), 12 if THOROUGH else 4, 2)
    earths, ranks = [], []
    for base, m, _ in es:
        e, rk = rays.earth(base, m, layers=True)
        earths.append(e)
        ranks.append(rk)
    p6._ctx.update(earths=es, ranks=ranks, record=record,
                   per_name=10 if THOROUGH else 3)
    jobs = p6.jobs_for(c, es, names, 50 if THOROUGH else 8, p6.EXTRA)
    recs, info = [], []
    for out in pool_map(job, jobs):
        for kind, r, i in out:
            if kind == "raised":
                c.violation("raised", dict(i, raised=r))
            else:
                recs.append(r)
                info.append(i)
    can = canaries(recs)
    fails = run_records(c, "PathTrace", recs, canaries=can, any_of=True,
                        heap="12g", data={"earths": earths})
    for i, cl in sorted(fails.items()):
        for f in sorted(cl):
            c.violation(f, dict(info[i - 1], pts=recs[i - 1]["pts"][:60]))
    c.note(arrivals=len(recs), points=sum(len(r["pts"]) for r in recs))
    c.sample(dict(info[7], pts=recs[7]["pts"][:30]))
    return c.finish()


@canaries_made()
def canaries(recs):
    ks = [k for k, r in enumerate(recs) if r["legs"] == [["P"], ["END"]]
          and len(r["pts"]) > 12 and r["src"]]
    ks = ks[::len(ks) // 12 + 1]
    hks = [k for k, r in enumerate(recs) if r["legs"] == [["Pn"], ["Pn"], [
        "END"]] and any(a[0] == b[0] and b[1] > a[1] + 50 for a, b in zip(
            r["pts"], r["pts"][1:]))]
    hks = hks[::len(hks) // 12 + 1]
    res = []

    def can(cl, ks, fn):
        for k in ks:
            r = copy.deepcopy(recs[k])
            fn(r)
            res.append((r, cl))
    can("first-point", ks, lambda r: r["pts"][0].__setitem__(0, 0))
    can("last-point", [k for k, r in enumerate(recs) if not r["p2"] % 2][
        :200:10], lambda r: r.__setitem__("t", r["t"] + 9))
    can("not-at-surface", ks, lambda r: r["pts"][-1].__setitem__(0, 9))
    can("backwards", ks, lambda r: r["pts"][2].__setitem__(1, 0))
    can("ray-parameter", ks, lambda r: r["pts"][2].__setitem__(3, 5))
    can("wrong-depth", ks, lambda r: r["pts"].pop(1))
    can("wrong-depth", ks, lambda r: r["pts"].insert(2, r["pts"][1]))
    can("extra-points", ks, lambda r: r["pts"].append(r["pts"][-1]))
    can("snell", ks, lambda r: r["pts"][4].__setitem__(5, 11))
    can("snell", ks, lambda r: r["pts"][4].__setitem__(6, 2 * 10**9))

    def late(r, c):
        for p in r["pts"][4:]:
            p[c] += 10
    can("wrong-time", ks, lambda r: late(r, 1))
    can("wrong-distance", ks, lambda r: late(r, 2))
    can("wrong-tau", ks, lambda r: late(r, 4))

    def norun(r):
        q = r["pts"]
        k = next(k for k in range(1, len(q)) if q[k][0] == q[k - 1][0] and
                 q[k][1] > q[k - 1][1])
        q[k][0] += 99
    can("run-at-wrong-depth", hks, norun)
    return res
