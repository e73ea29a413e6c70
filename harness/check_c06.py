"""C06: what is printed."""
import contextlib
import copy
import io
import math
from core import *
import check_c02 as c02
import check_c04 as c04
import models
import rays

_ctx = {}
FLAGS = {"turn": "onlyTurnPoints", "rev": "onlyRevPoints",
         "under": "onlyUnderPoints", "add": "onlyAddPoints"}
HEAD = re.compile(r"^>\s*(\S+?)(?:\((\S*)\))?\s+at\s+(\S+)\s+seconds at\s+"
                  r"(\S+)\s+degrees for a\s+(\S+)\s+km deep source in the\s+"
                  r"(\S+)\s+model with rayParam\s+(\S+)\s+s/deg\.\s*$")

LONG = ["S" * 7, "P" * 9, "SKS" * 4, "PKPPKP" * 3, "PKIKP" * 3, "3kmps"]


def shifted(x):
    return wide(x + 10000, 10**6)


def numbers(words):
    try:
        v = [float(w) for w in words]
    except ValueError:
        return None
    return [shifted(x) for x in v] if all(map(math.isfinite, v)) else None


def read_table(text):
    """-> lines, of words"""
    out, model, body = [], "", False
    for line in text.splitlines():
        if not line.strip():
            continue
        if line.startswith("Model:"):
            model = line.split(":", 1)[1].strip()
        elif set(line.strip()) == {"-"}:
            body = True
        elif body:
            w = line.split()
            v = numbers(w[:2] + w[3:8]) if len(w) == 10 else None
            out.append(["bad"] if v is None or w[8] not in "=*" else
                       ["head", v, [w[2], w[9], w[8], model]])
    return out


def read_points(text):
    out = []
    for line in text.splitlines():
        if not line.strip():
            continue
        m = HEAD.match(line)
        if m:
            v = numbers([m.group(k) for k in (3, 4, 5, 7)])
            out.append(["bad"] if v is None else
                       ["head", v, [m.group(1), m.group(2) or m.group(1),
                                    m.group(6)]])
        else:
            v = numbers(line.split())
            out.append(["bad"] if v is None else ["point", v])
    return out


def blocks(text, kind):
    """The same for the same arrivals in another order."""
    if kind == "time":
        return text
    return ">".join(sorted(text.split(">")))


def show(fn):
    out = io.StringIO()

    def go():
        with contextlib.redirect_stdout(out):
            return fn()
    r = attempt(go)
    # warnings are not part of the report
    return r, "".join(l for l in out.getvalue().splitlines(True)
                      if not l.startswith("Error with this phase"))


def around(a):
    """Did it go the long way round?  2: just half."""
    d = math.degrees(a.dist) % 360
    return 2 if abs(d - 180) < 1e-6 or d < 1e-6 or d > 360 - 1e-6 else \
        int(d > 180)


def job(j):
    mi, kind, names, h, x, flt, adds, limit, cut = j
    tau = _ctx["taus"][mi]
    where = {"coordinate_list": x} if isinstance(x, list) else \
        {"distance_in_degree": x}
    t = attempt(c04.tool_of(kind), tau.model, names, h,
                where.get("distance_in_degree"), where.get("coordinate_list"))
    if isinstance(t, Raised):
        raise CodeFailed("%r for %r" % (t, j))
    if kind != "time":
        t.addDepth = list(adds)
        if flt != "all":
            setattr(t, FLAGS[flt], True)
    if kind == "path":
        t.maxPathInc = limit
        t.maxPathTime = cut
    # what is asked for must be answered is for C03 to say
    if isinstance(attempt(t.run), Raised):
        return None
    r, text = show(lambda: t.run(True))
    got = list(t.arrivals)
    name = tau.model.sMod.vMod.modelName
    rec = {"type": kind, "raised": repr(r) if isinstance(r, Raised) else "",
           "filter": flt, "limit": wide(limit, 10**6),
           "cut": shifted(min(cut, 1e9)), "half": [], "halfhead": []}
    rs = []
    if kind == "time":
        rec["lines"] = read_table(text)
        rec["halfhead"] = [wide(v, 10**6) for v in (
            .005, .05, .005, .0005, .005, .005, .005)]
        for a in got:
            rs.append({"head": [shifted(v) for v in (
                a.getModuloDistDeg(), h, a.time, math.radians(a.rayParam),
                a.takeoffAngle, a.incidentAngle, math.degrees(a.dist))],
                "words": [a.name, a.puristName,
                          "=" if a.name == a.puristName else "*", name]})
    else:
        rec["lines"] = read_points(text)
        rec["halfhead"] = [wide(v, 10**6) for v in (.005, .005, 0, .0005)]
        for a in got:
            pts = getattr(a, kind)
            flip = 1 if kind == "pierce" else 0
            d = [math.degrees(p.distRadian) for p in pts]
            rs.append({
                "head": [shifted(v) for v in (
                    a.time, math.degrees(a.dist), a.sourceDepth,
                    math.radians(a.rayParam))],
                "words": [a.name, a.puristName, name], "long": around(a),
                "added": [int(p.depth in adds) for p in pts],
                "straight": int(a.rayParam == 0),
                "steps": [max(1, math.ceil(round((d1 - d0) / limit, 7)))
                          for d0, d1 in zip(d, d[1:])] + [1],
                "points": [[shifted(x), shifted(
                    p.depth if flip else
                    models.radius(tau.model) - p.depth), shifted(p.time)]
                    for x, p in zip(d, pts)]})
        rec["half"] = [wide(v, 10**6) for v in (
            (.005, .05, .05) if kind == "pierce" else (.005, .05))]
    rec["rays"] = rs
    other = None
    if flt == "all" and not adds and limit == 1 and cut > 1e200:
        f = {"time": tau.get_travel_times, "pierce": tau.get_pierce_points,
             "path": tau.get_ray_paths}[kind]
        r2, text2 = show(lambda: f(h, phase_list=names, print_output=True,
                                   **where))
        other = (blocks(text, kind), blocks(text2, kind) if not isinstance(
            r2, Raised) else repr(r2))
    return rec, other, text[:300]


def specification(c):
    mc = "SPECIFICATION Spec\nCONSTANTS\n  Flaw = \"%s\"\n  Points = %d\n" \
        "INVARIANTS Whole NoLargeSteps AllPoints Onward Kinds Alternate\n"
    c.ran(tlc("PrintMC", mc % ("none", 5 if THOROUGH else 4), workers=NPROC))
    for flaw in ("far", "short"):
        bad = tlc("PrintMC", mc % (flaw, 3), workers=NPROC, ok_codes=(12,))
        if "is violated" not in bad.out:
            raise TLCError("PrintMC accepts a path that is " + flaw)
    c.count(canaries_rejected=2)


def main():
    use_repo()
    c = Check("C06", "model_checking")
    specification(c)
    _ctx["taus"] = c02.load([("venus", models.COARSE), ("lvz", models.COARSE),
                             ("lid", models.MIDDLE),
                             ("iasp91", models.MIDDLE)])
    rng = c.rng
    names = rays.spec_names(c, 3, 9)
    gram = sorted(k for k, v in names.items() if v == "go")
    jobs = []
    for k in range(1200 if THOROUGH else 240):
        mi = rng.randrange(4)
        m = _ctx["taus"][mi].model
        kind = ("time", "pierce", "path")[k % 3]
        if rng.random() < 0.6:
            nl = list(rng.choice(c04.NAMES))
        else:
            nl = [rays.spell(rays.place(rng.choice(gram), m, rng))
                  for _ in range(5)]
        if rng.random() < 0.2:
            nl = nl[:1]
        if rng.random() < 0.12:     # more than once around the Earth
            nl = rng.sample(LONG, 2)
        h = c04.depth_at(rng, m)
        x = rng.choice([rng.uniform(0, 180), rng.uniform(0, 180),
                        rng.uniform(180, 700), rng.randint(0, 180),
                        [rng.uniform(-90, 90), rng.uniform(-180, 180),
                         rng.uniform(-90, 90), rng.uniform(-180, 180)]])
        flt, adds, limit, cut = "all", [], 1, 1e300
        if kind == "pierce":
            flt = rng.choice(["all", "all", "turn", "rev", "under", "add"])
            if flt == "add" or rng.random() < 0.3:
                adds = [round(rng.uniform(5, 2700), 1)
                        for _ in range(rng.choice([1, 2]))]
        if kind == "path":
            limit = rng.choice([1, 1, 1, 0.25, 3, 10])
            cut = rng.choice([1e300, 1e300, 1e300, rng.uniform(1, 2000),
                              rng.uniform(1, 300)])
        jobs.append((mi, kind, nl, h, x, flt, adds, limit, cut))
    out = pool_map(job, jobs)
    ids, recs, infos = {}, [], []

    def word(w):
        return ids.setdefault(w, len(ids))
    for j, o in zip(jobs, out):
        if o is None:
            continue
        r, other, text = o
        info = {"asked": j[1:], "model": j[0], "printed": text}
        for x in r["rays"]:
            x["words"] = [word(w) for w in x["words"]]
        for l in r["lines"]:
            if l[0] == "head":
                l[2] = [word(w) for w in l[2]]
        if r.pop("raised"):
            r["lines"] = [["bad"]] + r["lines"]
        recs.append(r)
        infos.append(info)
        if other:
            recs.append({"type": "same", "text": word(other[0]),
                         "other": word(other[1])})
            infos.append(dict(info, printed=list(other)
                              if other[0] != other[1] else ""))
    fails = run_records(c, "PrintTrace", recs, any_of=True,
                        canaries=make_canaries(c, recs))
    for i, clauses in sorted(fails.items()):
        for clause in sorted(clauses):
            c.violation(clause, dict(infos[i - 1], type=recs[i - 1]["type"]))
    c.count(reports=len(recs), lines=sum(len(r.get("lines", []))
                                         for r in recs))
    c.sample(infos[0])
    c.assumptions = ["whether the ends of a ray, or points next to one of "
                     "the same depth, are turning points is left open"]
    return c.finish()


@canaries_made()
def make_canaries(c, recs):
    res = []
    by = {}
    for r in recs:
        if r["type"] != "same" and len(r["lines"]) > 2:
            by.setdefault((r["type"], r.get("filter") == "all"), []).append(r)
    for kind, rs in sorted(by.items()):
        for r in c.rng.sample(rs, min(4, len(rs))):
            def can(clause, fn):
                x = copy.deepcopy(r)
                fn(x["lines"])
                res.append((x, clause))
            heads = [k for k, l in enumerate(r["lines"]) if l[0] == "head"]
            k = c.rng.choice(heads)
            can("head", lambda ls: ls[k][1].__setitem__(
                c.rng.randrange(4), shifted(777.7)))
            can("head", lambda ls: ls[k][2].__setitem__(1, 10**6))
            can("unreadable", lambda ls: ls.__setitem__(k, ["bad"]))
            can("more", lambda ls: ls.append(ls[k]))
            if kind[0] == "time":
                can("missing", lambda ls: ls.pop())
                continue
            pts = [k for k, l in enumerate(r["lines"]) if l[0] == "point"]
            if not pts or not kind[1]:
                continue
            p = c.rng.choice(pts)
            clause = "point" if kind[0] == "pierce" else "path-point"
            can(clause, lambda ls: ls[p][1].__setitem__(0, shifted(777.7)))
            can(clause, lambda ls: ls[p][1].__setitem__(1, shifted(777.7)))
            can(clause, lambda ls: ls.pop(p))
    res.append(({"type": "same", "text": 1, "other": 2}, "interface"))
    return res
