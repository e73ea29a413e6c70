"""A02: which rays a phase has (and A03: its curve)."""
from core import *
import copy
import models
import rays

MINE = {"raised", "refused", "impossible-rays", "no-rays", "rays",
        "J-accepted", "surface-wave-refused", "depth-correction"}


def specs():
    names = sorted(models.SYN) + ["iasp91"]
    par = [models.COARSE] * len(names)
    out = list(zip(names, par))
    out.append(("lvz", dict(models.COARSE, allow_inner_core_s=False)))
    if THOROUGH:
        out += [(n, models.MIDDLE) for n in names] + [("ak135", models.MIDDLE)]
    else:
        out += [("soft", models.MIDDLE)]
    return out


@canaries_made()
def canaries(recs):
    k = next(i for i, r in enumerate(recs) if r["out"] == "curve" and r["d"]
             and len(r["runs"]) == 1 and r["runs"][0][1] > 5)
    res = []
    for field, clause in (("runs", "rays"), ("empty", "no-rays"),
                          ("out", "refused"), ("exc", "raised"),
                          ("d", "distances"), ("t", "times")):
        r = copy.deepcopy(recs[k])
        if field == "runs":
            r["runs"][0][1] -= 1
            r["d"], r["t"] = [], []
        elif field == "empty":
            r.update(runs=[], d=[], t=[])
        elif field == "out":
            r.update(out="refused", runs=[], d=[], t=[])
        elif field == "exc":
            r.update(out="KeyError:x", runs=[], d=[], t=[])
        else:
            r[field][3] += 200
        res.append((r, clause))
    r = copy.deepcopy(recs[k])
    r["legs"] = [["P"], ["c"], ["p"], ["END"]]
    r["legs"] = [["K"], ["END"]]
    res.append((r, "impossible-rays"))
    return res


def run(prop, mine):
    use_repo()
    c = Check(prop, "model_checking")
    names = rays.spec_names(c, 4 if not THOROUGH else 5, 9)
    c.note(names_generated=len(names))
    earths, recs, info = rays.gather(
        c, specs(), 5 if not THOROUGH else 12, names,
        350 if not THOROUGH else 1500,
        (0.02 if prop == "A02" else 0.35))
    fails = run_records(c, "RayTrace", recs, canaries=canaries(recs),
                        data={"earths": earths}, heap="8g")
    verdicts = {}
    for i, cl in sorted(fails.items()):
        for f in sorted(cl & mine):
            c.violation(f, dict(info[i - 1], got=recs[i - 1]["runs"],
                                out=recs[i - 1]["out"]))
    c.note(earths=len(earths), phases=len(recs),
           with_rays=sum(1 for r in recs if r["runs"]),
           with_curves=sum(1 for r in recs if r["d"]))
    for k in (10, len(recs) // 2, len(recs) - 3):
        c.sample(dict(info[k], out=recs[k]["out"], runs=recs[k]["runs"]))
    return c.finish()


def main():
    return run("A02", MINE)
