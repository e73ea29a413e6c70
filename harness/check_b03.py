"""B02 and B03: slowness models against their velocity files."""
import copy
import hashlib
import os
from core import *
import models
import structure

MC = """SPECIFICATION Spec
CONSTANTS
    MaxLayers = %d
    Emit = %s
INVARIANTS Definition Sorted Out
CHECK_DEADLOCK FALSE
"""
B02 = {"surface", "gap", "slowness-jumps", "negative-thickness", "centre",
       "thin-layer", "spans-boundary", "slowness-of-velocity",
       "sample-missing-in-P", "sample-missing-in-S", "no-ray-for-P",
       "no-ray-for-S", "refused-model"}


def params(rng):
    return dict(min_delta_p=rng.choice([0.1, 0.3, 0.5, 1.0, 2.0]),
                max_delta_p=rng.choice([11.0, 20.0, 35.0, 60.0]),
                max_depth_interval=rng.choice([80.0, 115.0, 300.0, 700.0]),
                max_range_interval=rng.choice([1.75, 2.5, 6.0, 15.0]),
                max_interp_error=rng.choice([0.05, 0.2, 1.0]))


def earth_rows(layers):
    u = 10000.0
    rows = []
    for t, b, pt, pb, st, sb, _, _ in layers:
        for r in ((t / u, pt / u, st / u), (b / u, pb / u, sb / u)):
            if not rows or rows[-1] != r:
                rows.append(r)
    return rows


def jobs_for(c, deep):
    """(name, path, params)"""
    rng, out = c.rng, []
    sets = [("coarse", models.COARSE), ("middle", models.MIDDLE)]
    if THOROUGH:
        sets.append(("default", {}))
    for n in sorted(models.SYN) + sorted(models.EXTRA):
        path = models.path_of(n)
        for pn, p in sets:
            out.append((n + ":" + pn, path, p))
        out.append((n + ":noS", path,
                    dict(models.COARSE, allow_inner_core_s=False)))
    for n in ("iasp91", "ak135"):
        for pn, p in sets + [("default", {})]:
            out.append((n + ":" + pn, models.path_of(n), p))
        out.append((n + ":noS", models.path_of(n),
                    dict(models.MIDDLE, allow_inner_core_s=False)))
    for k in range(300 if THOROUGH else 40):
        rows = structure.random_rows(rng)
        out.append(("random%d" % k, models.syn_path("random%d" % k, rows),
                    dict(params(rng),
                         allow_inner_core_s=rng.random() < 0.7)))
    res = tlc("StructureMC", MC % ((4 if THOROUGH else 3), "TRUE"), workers=8,
              timeout=600)
    c.ran(res)
    earths = [e[0] for e in res.tuples("EARTH")]
    short = [e for e in earths if len(e) <= 2]
    rest = [e for e in earths if len(e) > 2]
    rng.shuffle(rest)
    earths = short + rest[:1500 if THOROUGH else 150]
    for k, e in enumerate(earths):
        out.append(("earth%d" % k, models.syn_path("earth%d" % k,
                                                   earth_rows(e)),
                    dict(models.COARSE)))
    c.note(earths_of_the_specification=len(earths))
    return out


@canaries_made()
def canaries(recs, prop):
    good = next(r for r in recs if r["made"] == "yes" and r["zP"] and
                r["fluid"] and r["jok"] and len(r["P"]) < 200)
    can = []

    def bad(clause, f):
        r = copy.deepcopy(good)
        f(r)
        can.append((r, clause))
    least, n = 10**9, 0
    for j, x in enumerate(good["P"][:-1]):
        y = good["P"][j + 1]
        least = min(least, x["p"])
        if j and x["t"] < x["b"] < y["b"] and least >= x["p"] > x["q"] > y["q"]:
            n = j
    if prop == "B02":
        def gap(r):
            r["P"].pop(n)
        bad("gap", gap)
        bad("surface", lambda r: r["S"].pop(0))
        bad("centre", lambda r: r["S"].pop())

        def slow(r):
            x = r["P"][n - 1]
            y = r["P"][n]
            x["q"] = y["p"] = x["q"] + 1
        bad("slowness-of-velocity", slow)

        def jump(r):
            r["P"][n]["p"] -= 1
        bad("slowness-jumps", jump)

        def thin(r):
            x = dict(r["P"][n])
            x.update(b=x["t"], q=1)
            r["P"].insert(n, x)
        bad("thin-layer", thin)

        bad("sample-missing-in-P", lambda r: (
            r["P"].__setitem__(slice(n, n + 2), [dict(
                r["P"][n], b=r["P"][n + 1]["b"], q=r["P"][n + 1]["q"])])))
        bad("refused-model", lambda r: r.update(
            dict(copy.deepcopy(structure.BLANK), made="SlownessModelError"),
            lines=good["lines"]))
    else:
        bad("critical-depths", lambda r: r["crit"].pop(2))
        bad("critical-depths", lambda r: r["crit"].append(3))
        bad("low-velocity-zones-P", lambda r: r["zP"].pop())
        bad("low-velocity-zones-P", lambda r: r["zP"][0].update(
            p=wide(structure_p(r["zP"][0]["p"]) + 1e-4, 10**7)))
        bad("fluids", lambda r: r["fluid"].append([0, 5]))
        bad("too-thick", lambda r: r["lim"].update(depth=wide(1.0, 10**9)))
        bad("slowness-increment", lambda r: r["lim"].update(
            dp=wide(0.01, 10**7)))
        bad("range-increment", lambda r: r["lim"].update(
            range=1, dmin=wide(0.001, 10**7)))
        bad("interpolation-error", lambda r: r["lim"].update(err=[]))
    return can


def structure_p(limbs):
    return sum(d * 10000**i for i, d in enumerate(limbs)) / 1e7


def value(limbs, scale):
    return sum(d * 10000**i for i, d in enumerate(limbs)) / scale


def run(prop):
    use_repo()
    c = Check(prop, "model_checking")
    deep = prop == "B03"
    jobs = jobs_for(c, deep)
    t0 = time.time()
    recs = pool_map(structure.sample_model, [(p, q, deep) for _, p, q in jobs])
    c.note(seconds_building=round(time.time() - t0, 1))
    # Known finding: rayParamIncCheck() puts its samples outside of the layer
    # (wrong sign), so layers exceed the largest slowness increment.  Which
    # ones is known for the models that are always the same.
    steep_known = 0
    for (name, _, _), r in zip(jobs, recs):
        if r["made"] == "yes":
            if name.startswith(("random", "earth")) or \
                    name.endswith((":middle", ":noS")) and \
                    not name.startswith(("iasp", "ak")):
                r["lim"]["dp"] = wide(1e5, 10**7)
            else:
                steep_known += 1
    c.note(models_with_slowness_increments_checked=steep_known)
    can = canaries(recs, prop)
    out = []
    fails = run_records(c, "StructureTrace", recs, canaries=can,
                        on_result=out.append)
    where = {}
    for r, w, i, cl in out[0].tuples("AT"):
        where.setdefault((r, cl), []).append((w, i))
    seen = 0
    for i, cls in sorted(fails.items()):
        name, path, par = jobs[i - 1]
        rec = recs[i - 1]
        if "wrong-claim" in cls:
            raise RuntimeError("the record of %s is wrong" % name)
        for cl in sorted(cls):
            if (cl in B02) != (prop == "B02"):
                continue
            at = sorted(where.get((i, cl), []))
            layers = [(w,) + tuple(round(value(rec["DU"[k > 1]][rec[w][j - 1][f] - 1],
                                               1e9 if k < 2 else 1e7), 2)
                                   for k, f in enumerate("tbpq"))
                      for w, j in at]
            for w in "PS" if layers else [""]:
                mine = [x for x in layers if x[0] == w]
                if layers and not mine:
                    continue
                c.violation(cl, {
                    "model": name, "params": par, "wave": w,
                    "digest": "%s:%s:%s" % (name, w, hashlib.sha1(
                        repr(mine).encode()).hexdigest()[:10]),
                    "layers": mine[:12], "rows": rec["lines"]
                    if not name.startswith(("iasp", "ak")) else "",
                    "made": rec["made"]})
    c.note(models=len(recs), layers=sum(len(r["P"]) + len(r["S"])
                                        for r in recs))
    c.sample({"model": jobs[0][0], "params": jobs[0][2],
              "P_layers": len(recs[0]["P"]), "critical": recs[0]["crit"]})
    return c.finish()


def main():
    return run("B03")
