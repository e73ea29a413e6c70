"""B01: velocity files."""
import copy
import os
from core import *
import models

MC = """SPECIFICATION Spec
CONSTANT MaxLines = %d
INVARIANT Inv
CONSTRAINT Out
CHECK_DEADLOCK FALSE
"""


def spell(n, rng):
    """n ten-thousandths, written in one of the usual ways."""
    x = n / 10000.0
    k = rng.randrange(5)
    if k == 0:
        return "%.4f" % x
    if k == 1 and n % 10000 == 0:
        return "%d" % (n // 10000)
    if k == 2:
        return "%.8e" % x
    if k == 3:
        return "%r" % x
    return ("%09.4f" % x)


def write(path, lines, rng, plain=False):
    sep = ["  ", "\t", " ", "      "]
    with open(path, "w") as f:
        f.write("model - P # 1 2 3 4\n0.0 1 2 3\n" if rng.random() < 0.5 else
                "x - P\nx - S\n")
        for i, l in enumerate(lines):
            cols = [spell(c[0], rng) if c else rng.choice(
                ["abc", "1.2.3", "--", "1,5"]) for c in l]
            s = "" if plain else rng.choice(["", " ", "   ", "\t"])
            s += rng.choice(sep).join(cols)
            if rng.random() < 0.3:
                s += rng.choice(["#", " # 7 8 9", "  #comment", "#1 2 3 4"])
            s += rng.choice(["", " ", "   "])
            last = i == len(lines) - 1
            f.write(s + ("" if last and rng.random() < 0.3 else "\n"))


def units(x):
    n = round(float(x) * 10000)
    return n if abs(float(x) * 10000 - n) < 1e-6 and abs(n) < I32 else -I32


def read(path):
    from taupy.VelocityModel import VelocityModel
    return attempt(VelocityModel.readVelocityFile, path)


def file_rec(lines, ending, v):
    r = {"k": "file", "lines": lines, "ending": ending, "out": "refused",
         "layers": [], "dis": [], "moho": 0, "cmb": 0, "iocb": 0, "radius": 0}
    if isinstance(v, Raised):
        return r
    r["out"] = "ok"
    r["layers"] = [[units(x) for x in (
        l.topDepth, l.botDepth, l.topPVelocity, l.botPVelocity,
        l.topSVelocity, l.botSVelocity, l.topDensity, l.botDensity)]
        for l in v.layers]
    d = attempt(v.getDisconDepths) if v.layers else []
    r["dis"] = [] if isinstance(d, Raised) else [units(x) for x in d]
    r.update(moho=units(v.mohoDepth), cmb=units(v.cmbDepth),
             iocb=units(v.iocbDepth), radius=units(v.radiusOfEarth))
    return r


def lines_of(rows):
    return [[[units(x)] for x in row] for row in rows]


def random_rows(rng):
    """A plausible earth, sometimes with odd spots."""
    depths = [0.0]
    while depths[-1] < 6371:
        depths.append(round(min(6371.0, depths[-1] + rng.choice(
            [5, 20, 35, 90, 300, 700, 1500]) * rng.uniform(0.2, 1.3)), 3))
    p, rows = rng.uniform(3, 7), []
    fluid = False
    for d in depths:
        p = round(max(0.5, p + rng.uniform(-0.5, 1)), 3)
        s = 0.0 if fluid else round(p * rng.uniform(0.4, 1.0), 3)
        rows.append((d, p, s, round(p * 0.45, 3)))
        if rng.random() < 0.4 and 0 < d < 6371:
            fluid = rng.random() < 0.3
            p = round(max(0.5, p + rng.choice([0, -1, 1.5, 0.001])), 3)
            s = 0.0 if fluid else round(p * rng.uniform(0.4, 0.7), 3)
            if rng.random() < 0.15:
                p, s = rows[-1][1], rows[-1][2]        # density only
            rows.append((d, p, s, round(p * 0.5, 3)))
            if rng.random() < 0.1:          # the same depth three times
                rows.append((d, p + 0.5, s, 3.0))
    return rows


def main():
    use_repo()
    c = Check("B01", "model_checking")
    rng = c.rng
    res = tlc("VelocityMC", MC % (3 if not THOROUGH else 4), workers=8)
    c.ran(res)
    recs, info, evals = [], [], []
    d = os.path.join(scratch(), "files")
    os.makedirs(d)

    def add(lines, name, ending=True, plain=False, suffix=".tvel"):
        path = os.path.join(d, "m%d%s" % (len(recs), suffix))
        write(path, lines, rng, plain)
        v = read(path)
        os.unlink(path)
        recs.append(file_rec(lines, ending, v))
        info.append({"file": name, "lines": lines if len(lines) < 6 else
                     "...", "suffix": suffix})
        return v

    def ask(v, fi, depths):
        for dep in depths:
            for up in (True, False):
                for prop in "psd":
                    if rng.random() < 0.4 and len(depths) > 100:
                        continue
                    fn = v.evaluateAbove if up else v.evaluateBelow
                    r = attempt(fn, dep, rng.choice([prop, prop.upper()]))
                    bad = isinstance(r, Raised)
                    evals.append({"k": "eval", "f": fi, "prop": prop,
                                  "up": up, "d": wide(dep, 10**6),
                                  "out": "refused" if bad else "ok",
                                  "v": [] if bad else wide(r, 10**9)})

    for st, lines in res.tuples("FILE"):
        v = add(lines, "generated by the specification")
        if st == "reading" and not isinstance(v, Raised) and len(v.layers) > 1 \
                and rng.random() < 0.15:
            ask(v, len(recs), [0.0, 7.5, 20.0, 33.0, 40.0, 60.0, 90.0, 100.])
    base = [(0, 5.8, 3.4, 2.7), (35, 6.5, 3.8, 2.9), (35, 8.0, 4.5, 3.3),
            (6371, 13, 7, 5)]
    for suffix in (".txt", ".nd", ".tve", "", ".TVEL", ".tvel.bak", "tvel"):
        add(lines_of(base), "wrong ending", False, suffix=suffix)
    rows = {k: [r + (3.0,) for r in v] for k, v in
            list(models.SYN.items()) + list(models.EXTRA.items())}
    for k in range(60 if not THOROUGH else 600):
        rows["random%d" % k] = random_rows(rng)
    # where moho, cmb and inner core boundary are looked for
    for shift in (-60, -29.5, -3, 3, 29.5, 64.9, 65, 70):
        rows["moho%s" % shift] = [(0, 5, 3, 3), (35 + shift, 6, 3.5, 3),
                                  (35 + shift, 7, 4, 3),
                                  (6371, 9, 5, 3)] if shift > -35 else [
            (0, 5, 3, 3), (1, 6, 3.5, 3), (1, 7, 4, 3), (99.9, 7, 4, 3),
            (99.9, 8, 4, 3), (6371, 9, 5, 3)]
    rows["tie"] = [(0, 5, 3, 3), (25, 6, 3.5, 3), (25, 7, 4, 3), (45, 7, 4, 3),
                   (45, 8, 4, 3), (6371, 9, 5, 3)]
    rows["onlyfluid"] = [(0, 5, 3, 3), (35, 6, 3.5, 3), (35, 7, 4, 3),
                         (3000, 7, 4, 3), (3000, 8, 0, 3), (6371, 9, 0, 3)]
    rows["ocean"] = [(0, 5, 3, 3), (4, 5, 3, 3), (4, 1.5, 0, 3),
                     (10, 1.5, 0, 3), (10, 6, 3.5, 3), (2889, 9, 5, 3),
                     (2889, 8, 0, 3), (6300, 9, 0, 3), (6300, 9, 2, 3),
                     (6371, 9, 3, 3)]
    for name, rr in sorted(rows.items()):
        v = add(lines_of(rr), name)
        if isinstance(v, Raised):
            continue
        ds = sorted({r[0] for r in rr})
        q = []
        for a, b in zip(ds[:-1], ds[1:]):
            q += [a, round((a + b) / 2, 6), round(a + (b - a) * rng.random(), 6),
                  round(a + 1e-6, 6), round(b - 1e-6, 6)]
        q += [6371.0, 6371.5, 7000.0]
        if len(q) > 60 and not THOROUGH:
            q = rng.sample(q, 60)
        ask(v, len(recs), q)
    # the files that come with the package
    for name in ("iasp91", "ak135"):
        lines = []
        with open(tvel_path(name)) as f:
            for line in f.read().splitlines()[2:]:
                if line.split("#")[0].strip():
                    lines.append([[units(x)] for x in
                                  line.split("#")[0].split()])
        v = read(tvel_path(name))
        recs.append(file_rec(lines, True, v))
        info.append({"file": name})
        if not isinstance(v, Raised):
            ask(v, len(recs), [l[0][0] / 10000.0 for l in lines][:40])
    nfiles = len(recs)
    recs += evals
    can = []
    with canaries_made():
        good = next(r for r in recs
                    if r["out"] == "ok" and len(r["layers"]) > 3)
        for field, cl in (("layers", "layers"), ("dis", "discontinuities"),
                          ("moho", "moho"), ("cmb", "cmb"), ("iocb", "iocb"),
                          ("radius", "radius"), ("out", "refused-good-file")):
            r = copy.deepcopy(good)
            if field == "layers":
                r["layers"][1][2] += 1
            elif field == "dis":
                r["dis"].pop(1)
            elif field == "out":
                r["out"] = "refused"
            else:
                r[field] += 5
            can.append((r, cl))
        r = copy.deepcopy(good)
        r["ending"] = False
        can.append((r, "accepted-bad-file"))
        e = next(r for r in evals if r["out"] == "ok" and len(r["v"]) > 2)
        r = copy.deepcopy(e)
        r["v"][0] = (r["v"][0] + 40) % 10000
        can.append((r, "value"))
        r = copy.deepcopy(e)
        r.update(out="refused", v=[])
        can.append((r, "not-evaluated"))
        r = copy.deepcopy(e)
        r["d"] = wide(9000.0, 10**6)
        can.append((r, "evaluated-outside"))
    fails = run_records(c, "VelocityTrace", recs, canaries=can)
    for i, cl in sorted(fails.items()):
        r = recs[i - 1]
        for f in sorted(cl):
            c.violation(f, dict(r) if r["k"] == "eval" else dict(
                info[i - 1], got={k: v for k, v in r.items()
                                  if k not in ("lines",)}))
    c.note(files=nfiles, evaluations=len(evals))
    c.sample(info[40])
    c.sample(evals[100])
    return c.finish()
