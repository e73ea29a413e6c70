"""B05: tau branches."""
import copy
from core import *
import branches
import models
import structure

MC = """SPECIFICATION Spec
CONSTANTS
    MaxLayers = %d
    MaxP = %d
INVARIANTS Right Complete Ordered
CHECK_DEADLOCK FALSE
"""
CLAUSES = ("branch-depths moho-cmb-iocb first-ray rays-not-decreasing "
           "ray-missing-or-odd largest-ray-parameter "
           "smallest-turning-ray-parameter smallest-ray-parameter "
           "not-entering tau tau-increases time-of-layers distance-of-layers "
           "slope-of-tau negative")


def make(job):
    use_repo()
    path, params, layers = job
    tm = attempt(build, path, limit=180.0, **params)
    if isinstance(tm, Raised):
        return tm
    return branches.tables(tm, layers)


def main():
    use_repo()
    c = Check("B05", "model_checking")
    c.ran(tlc("BranchesMC", MC % ((5, 3) if THOROUGH else (4, 2)), workers=8))
    names = sorted(models.SYN) + sorted(models.EXTRA)
    specs = [(n, models.COARSE, True) for n in names] + [
        ("iasp91", models.COARSE, False), ("ak135", models.MIDDLE, False),
        ("lvz", dict(models.COARSE, allow_inner_core_s=False), True)]
    if THOROUGH:
        specs += [(n, models.MIDDLE, True) for n in names] + [
            ("iasp91", {}, False), ("ak135", {}, False)]
    jobs = [(models.path_of(n), p, l) for n, p, l in specs]
    for k in range(100 if THOROUGH else 12):
        rows = structure.random_rows(c.rng)
        specs.append(("random%d" % k, rows))
        jobs.append((models.syn_path("random%d" % k, rows),
                     dict(models.COARSE,
                          allow_inner_core_s=c.rng.random() < 0.7), True))
    recs, info = [], []
    for sp, got in zip(specs, pool_map(make, jobs)):
        if isinstance(got, Raised):
            if sp[0].startswith("random"):
                continue                    # whether it may: B02
            raise CodeFailed("model %s: %r" % (sp[0], got))
        for r in got:
            recs.append(r)
            info.append({"model": sp[:2], "wave": r["w"]})
    can = []
    with canaries_made():
        base = next(r for r in recs if r["w"] == "S" and r["lt"])

        def canary(cl, change):
            r = copy.deepcopy(base)
            change(r)
            can.append((r, cl))

        def bump(ws, n=900):
            ws[:] = [n] + ws[1:] if len(ws) > 1 else ws + [1, 1]
        k = len(base["rays"]) - 5

        def setb(f, v):
            def ch(r):
                r["br"][1][f] = v
            return ch
        canary("branch-depths", setb("top", 1))
        canary("largest-ray-parameter", setb("max", 2))
        canary("smallest-turning-ray-parameter", setb("turn", 2))
        canary("smallest-ray-parameter", setb("min", 2))
        canary("negative", setb("neg", 1))

        def add(f, j, kk, n):
            def ch(r):
                x = r["br"][j][f][kk]
                x.extend([0] * (4 - len(x)))
                x[n] = (x[n] + 17) % 10000
            return ch
        canary("tau", add("tau", 0, k, 1))
        canary("time-of-layers", add("T", 0, k, 1))
        canary("distance-of-layers", add("D", 0, k, 2))
        canary("not-entering", add("T", len(base["br"]) - 1, 2, 1))

        def slope(r):
            for kk in range(len(r["rays"])):
                add("D", 0, kk, 2)(r)
                add("D", 0, kk, 2)(r)
            r["lt"] = []
        canary("slope-of-tau", slope)

        def ray(r):
            del r["rays"][7], r["U"][7]
            for b in r["br"]:
                for f in ("T", "D", "tau"):
                    del b[f][7]
            r["lt"] = []
        canary("ray-missing-or-odd", ray)
    fails = run_records(c, "BranchesTrace", recs, canaries=can)
    for i, cl in sorted(fails.items()):
        for f in sorted(cl):
            c.violation(f, info[i - 1])
    c.note(models=len(recs) // 2, rays=sum(len(r["rays"]) * len(r["br"])
                                           for r in recs))
    c.sample(info[0])
    c.sample(info[-1])
    return c.finish()
