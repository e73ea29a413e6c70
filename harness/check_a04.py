"""A04: exactly the arrivals that come up at a distance."""
import bisect
import copy
from core import *
import arrivals as arr
import models
import rays

MC = """SPECIFICATION Spec
CONSTANTS
    M = 1
    Circle = %d
    MaxLen = %d
    MaxD = %d
INVARIANTS Complete Bounds
PROPERTY InOrder
CHECK_DEADLOCK FALSE
"""
_ctx = {}


def record(job):
    ei, toks, seed, count = job
    base, m, label = _ctx["earths"][ei]
    rng = random.Random(seed)
    from taupy.SeismicPhase import SeismicPhase
    out = []
    for t in toks:
        name = t if isinstance(t, str) else rays.spell(t)
        ph = attempt(SeismicPhase, name, m)
        if isinstance(ph, Raised):
            continue                    # A02
        dist, ps = list(ph.dist), list(ph.rayParams)
        asc = sorted(set(ps))
        rk = {p: k + 1 for k, p in enumerate(asc)}
        r = {"d": [arr.rpair(d) for d in dist], "p": [rk[p] for p in ps],
             "qs": []}
        asked = arr.queries(dist, rng, count)
        for q in asked:
            got = attempt(ph.calcTime, q)
            x = {"q": arr.pair(abs(q)), "out": "ok", "got": [],
                 "exact": arr.exact(dist, q)}
            if isinstance(got, Raised):
                x["out"] = repr(got)[:60]
            else:
                for a in got:
                    if a.dist != a.dist or a.rayParam != a.rayParam:
                        x["got"].append([0, 0, 0, 0])
                        continue
                    lo = bisect.bisect_right(asc, a.rayParam + 1e-7)
                    hi = bisect.bisect_left(asc, a.rayParam - 1e-7) + 1
                    x["got"].append(arr.rpair(a.dist) + [
                        lo, hi if hi <= len(asc) else 10**6])
            r["qs"].append(x)
        out.append((r, {"model": label[0], "depth": label[1], "name": name,
                        "asked": asked}))
    return out


def main():
    use_repo()
    c = Check("A04", "model_checking")
    c.ran(tlc("ArrivalsMC", MC % ((4, 5, 7) if THOROUGH else (4, 4, 6)),
              workers=8))
    names = rays.spec_names(c, 3, 9)
    specs = [(n, models.COARSE) for n in sorted(models.SYN)] + [
        ("iasp91", models.COARSE),
        ("lvz", dict(models.COARSE, allow_inner_core_s=False))]
    if THOROUGH:
        specs += [(n, models.MIDDLE) for n in ("lid", "soft", "ak135")]
    es = arr.earths(c, specs, 8 if THOROUGH else 3)
    _ctx["earths"] = es
    jobs = []
    for ei, (base, m, label) in enumerate(es):
        toks = arr.pick_names(c, base, names, 80 if THOROUGH else 16)
        toks += ["2kmps", "4.2kmps"]
        for k in range(0, len(toks), 12):
            jobs.append((ei, toks[k:k + 12], c.rng.getrandbits(40),
                         20 if THOROUGH else 8))
    recs, info = [], []
    for out in pool_map(record, jobs):
        for r, i in out:
            recs.append(r)
            info.append(i)
    can = []
    with canaries_made():
        k = next(k for k, r in enumerate(recs)
                 if len(r["d"]) > 20 and any(q["got"] for q in r["qs"]) and
                 len(set(r["p"])) == len(r["p"]))
        at = next(j for j, q in enumerate(recs[k]["qs"])
                  if q["got"] and not q["exact"] and all(
                      g[2] != g[3] for g in q["got"]))
        for cl, change in (
                ("missed", lambda g: g.pop()),
                ("twice", lambda g: g.append(g[0])),
                ("invented", lambda g: g.append([g[0][0] + 3, 5, 3, 3])),
                ("missed", lambda g: g[0].__setitem__(slice(2, 4), [1, 1])),
                ("raised", None)):
            r = copy.deepcopy(recs[k])
            r["qs"] = r["qs"][at:at + 1]
            if change:
                change(r["qs"][0]["got"])
            else:
                r["qs"][0]["out"] = "ValueError"
            can.append((r, cl))
    fails = run_records(c, "ArrivalsTrace", recs, canaries=can, heap="8g")
    for i, cl in sorted(fails.items()):
        for f in sorted(cl):
            c.violation(f, dict(info[i - 1], outs=[q["out"] for q in recs[i - 1]["qs"]]))
    c.note(curves=len(recs), queries=sum(len(r["qs"]) for r in recs),
           arrivals=sum(len(q["got"]) for r in recs for q in r["qs"]))
    c.sample(info[5])
    c.sample(info[-5])
    return c.finish()
