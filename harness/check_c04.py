"""C04: one question, asked in many ways."""
import copy
import math
from core import *
import check_c02 as c02
import check_c03 as c03
import models
import rays

_ctx = {}
NAMES = [["P", "S"], ["ttall"], ["p", "s", "P", "S", "PcP", "ScS", "PKiKP"],
         ["Pn", "Sn", "Pdiff", "Sdiff", "PKKP", "SKSSKS"],
         ["2kmps", "4.5kmps", "P"], ["pP", "sS", "PcS", "no^phase", "PKP"],
         ["S^220S", "Pv410P", "PmP", "p660s", "S660P", "PP", "SSS"],
         ["PKIKP", "PKIIKP", "SKJKS", "PKPPcP", "ttp+"]]
TOL = [1, 2000, 2000, 200000, 20000, 20000]


# ------------------------------------------------------------ asking

def tool_of(kind):
    from taupy.TauP_Time import TauP_Time
    from taupy.TauP_Pierce import TauP_Pierce
    from taupy.TauP_Path import TauP_Path
    return {"time": TauP_Time, "pierce": TauP_Pierce,
            "path": TauP_Path}[kind]


def ask(tau, kind, form, names, h, x=None, coords=None, adds=None):
    """-> arrivals, or Raised"""
    if form == "model":
        f = {"time": tau.get_travel_times, "pierce": tau.get_pierce_points,
             "path": tau.get_ray_paths}[kind]
        w = {} if names is None else {"phase_list": names}
        return attempt(f, h, distance_in_degree=x, coordinate_list=coords, **w)

    def go():
        t = tool_of(kind)(tau.model, names if names is not None else
                          ["ttall"], h, x, coords)
        if adds:
            t.addDepth = list(adds)
        t.run()
        return t.arrivals
    return attempt(go)


def typed(v, how):
    """A number, or a list of them, as of a type."""
    if isinstance(v, (list, tuple)):
        return [typed(x, how) for x in v]
    if v is None or how == "float":
        return v if v is None else float(v)
    if how == "whole":
        return int(v) if v == int(v) else float(v)
    import numpy as np
    return np.float64(v)


def named(names, how):
    if how == "reversed":
        return list(reversed(names))
    if how == "doubled":
        return [n for n in names for _ in (1, 2)]
    return list(names)


def points_of(a, what):
    return getattr(a, what)


def order(arrivals):
    return sorted(arrivals, key=lambda a: (a.name, a.time, a.rayParam,
                                           a.dist, a.puristName))


def ident(arrivals):
    return c02.canonical(arrivals, "time")


def points_token(lists):
    out = [[[c02.num(v) for v in (p.depth, p.time, p.distRadian, p.p)]
            for p in pts] for pts in lists]
    return hashlib.sha1(repr(out).encode()).hexdigest()


def behave(tau, way, ops, names, h, x, other):
    kind, form, place, lst, typ = way
    seen, gave = [], []
    got = ask(tau, kind, form, named(names, lst), typed(h, typ),
              typed(-x if place == "negative" else x, typ),
              typed(other, typ) if place == "both" else None)
    if isinstance(got, Raised):
        return 1, [], [], repr(got)
    got = order(got)
    seen.append(ident(got))
    gave.append("none" if kind == "time" else
                points_token([points_of(a, kind) for a in got]))
    for op in ops:
        r = [attempt(getattr(a, op)) for a in got]
        bad = [y for y in r if isinstance(y, Raised)]
        if bad:
            return 1, seen, gave, repr(bad[0])
        seen.append(ident(got))
        gave.append(points_token(r))
    return 0, seen, gave, ""


def ways_job(j):
    mi, names, h, x, other, bs = j
    return [behave(_ctx["taus"][mi], w, ops, names, h, x, other)
            for w, ops in bs]


# ------------------------------------------------------------ coordinates

def angle(a, b):
    """Between two points, in degrees: by the vectors."""
    def vec(p):
        la, lo = map(math.radians, p)
        return (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo),
                math.sin(la))
    u, v = vec(a), vec(b)
    cross = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2],
             u[0] * v[1] - u[1] * v[0])
    return math.degrees(math.atan2(math.sqrt(sum(c * c for c in cross)),
                                   sum(p * q for p, q in zip(u, v))))


def compact(arrivals, ids):
    return [[ids.setdefault(a.name + "|" + a.puristName, len(ids))] + [
        wide(v, 10**6) for v in (a.time, a.dist * 1000, a.rayParam,
                                 a.takeoffAngle + 200, a.incidentAngle + 200)]
            for a in arrivals]


def coordinates_job(j):
    mi, kind, form, names, h, a, b, typ = j
    tau = _ctx["taus"][mi]
    d = angle(a, b)
    ids = {}
    got = ask(tau, kind, form, names, typed(h, typ), None,
              typed(list(a) + list(b), typ))
    near = []
    for e in (0, -2e-6, 2e-6):
        r = ask(tau, kind, form, names, h, min(180, max(0, d + e)))
        if isinstance(r, Raised):
            return None             # whether it is answered is for C03
        near.append(compact(r, ids))
    if isinstance(got, Raised):
        return {"type": "coordinates", "raised": 1, "got": [], "near": near,
                "tol": TOL}, repr(got), d
    return {"type": "coordinates", "raised": 0, "got": compact(got, ids),
            "near": near, "tol": TOL}, "", d


def distance(tau, kind, a, b):
    """As the code has it: the distance of a surface wave, in degrees."""
    got = ask(tau, kind, "model", ["2kmps"], 0, None, list(a) + list(b))
    if isinstance(got, Raised):
        return got
    if not got:
        return None
    return attempt(got[0].getModuloDistDeg)


def point(rng, grid):
    if grid:
        la = rng.choice([0, 180, -180, 90, -90, rng.randint(-180, 180),
                         rng.randint(-180, 180), rng.randint(-180, 180)])
        lo = rng.choice([0, 360, -360, 180, 720, rng.randint(-360, 720),
                         rng.randint(-360, 720), rng.randint(-360, 720)])
        return la, lo
    la = rng.choice([0, 90, -90, rng.uniform(-90, 90), rng.uniform(-90, 90),
                     rng.uniform(-90, 90)])
    lo = rng.choice([0, 180, -180, 360, rng.uniform(-180, 360),
                     rng.uniform(-180, 360), rng.uniform(-180, 360)])
    return la, lo


def sphere_job(j):
    typ, kind, seed = j
    rng = random.Random(seed)
    tau = _ctx["taus"][0]

    def d(a, b):
        return distance(tau, kind, a, b)
    if typ == "grid":
        a, b = point(rng, True), point(rng, True)
        k = rng.randrange(8)
        if k == 0:
            b = (-a[0], a[1] + 360)
        elif k == 1:
            b = a
        elif k == 2:
            b = (max(-180, min(180, a[0] + rng.randint(-2, 2))),
                 a[1] + rng.randint(-2, 2))
        x = d((a[0] / 2, a[1] / 2), (b[0] / 2, b[1] / 2))
        bad = x is None or isinstance(x, Raised)
        c = 0 if bad else math.cos(math.radians(x))
        # closer to 0 and 180 degrees the cosine says little
        return {"type": "grid", "a": list(a), "b": list(b),
                "raised": int(bad), "cos": [-1 if c < 0 else 1,
                                            wide(abs(c), 10**16)]}, \
            [[a[0] / 2, a[1] / 2], [b[0] / 2, b[1] / 2], str(x)]
    a, b = point(rng, False), point(rng, False)
    k = rng.randrange(8)
    if k == 0:
        b = (rng.uniform(-90, 90), a[1])
    elif k == 1:
        a, b = (0, a[1]), (0.0, b[1])
    elif k == 2:
        b = a
    elif k == 3:
        b = (-a[0] + rng.uniform(-1e-3, 1e-3) if abs(a[0]) < 89 else -a[0],
             a[1] + 180)
    elif k == 4 and abs(a[0]) < 89:
        b = (a[0] + rng.uniform(-1, 1) * 10 ** rng.uniform(-8, 0),
             a[1] + rng.uniform(-1, 1) * 10 ** rng.uniform(-8, 0))
    if typ == "triangle":
        c = point(rng, False)
        v = [d(a, b), d(b, c), d(c, a)]
        bad = any(y is None or isinstance(y, Raised) for y in v)
        w = [[] if bad else wide(y, 10**9) for y in v]
        return {"type": typ, "raised": int(bad), "x": w[0], "y": w[1],
                "z": w[2]}, [a, b, c, repr(v)]
    t = rng.choice([90, rng.uniform(-300, 300)])
    v = {"d": d(a, b), "back": d(b, a),
         "turned": d((a[0], a[1] + t), (b[0], b[1] + t)),
         "around": d((a[0], a[1] + rng.choice([-360, 360])), b),
         "mirror": d((-a[0], a[1]), (-b[0], b[1])),
         "opposite": d(a, (-b[0], b[1] + 180))}
    bad = any(y is None or isinstance(y, Raised) for y in v.values())
    lon = math.fmod(abs(a[1] - b[1]), 360)
    lon = min(lon, 360 - lon)
    rec = {k: [] if bad else wide(y, 10**9) for k, y in v.items()}
    rec.update(type=typ, raised=int(bad), lat=wide(abs(a[0] - b[0]), 10**9),
               lon=wide(lon, 10**9), equator=int(a[0] == 0 == b[0]))
    return rec, [a, b, repr(v)]


# ------------------------------------------------------------ further depths

def more_job(j):
    mi, kind, names, h, x, adds = j
    tau = _ctx["taus"][mi]
    base = ask(tau, "pierce", "tool", names, h, x)
    if isinstance(base, Raised):
        return []
    more = ask(tau, "pierce", "tool", names, typed(h, kind),
               typed(x, kind), adds=typed(adds, kind))
    if isinstance(more, Raised):
        return [({"type": "more", "raised": 1}, repr(more))]
    base, more = order(base), order(more)
    ok = [a.name for a in base] == [a.name for a in more] and all(
        abs(a.time - b.time) < 1e-6 and abs(a.rayParam - b.rayParam) < 1e-6
        for a, b in zip(base, more))
    if not ok:
        return [({"type": "more", "raised": 1}, "other arrivals: %s and %s" % (
            [(a.name, a.time) for a in base],
            [(a.name, a.time) for a in more]))]

    def pts(a):
        return [[wide(p.depth, 10**6), wide(p.time, 10**6),
                 wide(p.distRadian, 10**9)] for p in a.pierce]
    out = []
    for a, b in zip(base, more):
        if a.name.endswith("kmps"):
            continue
        z = [p.depth for p in a.pierce]
        turns = [z[k] for k in range(1, len(z) - 1)
                 if z[k] >= max(z[k - 1], z[k + 1])]
        p0, p1 = [a.phase.rayParams[i] for i in (
            a.rayParamIndex, min(a.rayParamIndex + 1,
                                 len(a.phase.rayParams) - 1))]
        out.append(({"type": "more", "raised": 0, "base": pts(a),
                     "more": pts(b), "depths": [wide(d, 10**6) for d in adds],
                     "blurred": [int(any(abs(d - t) < blur(tau.model, p0, p1)
                                         for t in turns)) for d in adds],
                     "tol": [1000, 1000, 1000]},
                    "%s %.3f: %s" % (a.name, a.time, [
                        (p.depth, p.time) for p in b.pierce])))
    return out


def blur(m, p0, p1):
    """How far apart in depth rays of these ray parameters turn, at most."""
    far = 30.0
    for w in (m.sMod.PLayers, m.sMod.SLayers):
        zs = [l.botDepth for l in w if min(p0, p1) <= max(l.topP, l.botP) and
              max(p0, p1) >= min(l.topP, l.botP)]
        tops = [l.topDepth for l in w if min(p0, p1) <= max(l.topP, l.botP)
                and max(p0, p1) >= min(l.topP, l.botP)]
        for t, b in zip(tops, zs):
            far = max(far, b - t)
        # layers in one piece
        if zs:
            k = 0
            start = tops[0]
            for t, b, nt in zip(tops, zs, tops[1:] + [None]):
                if nt != b:
                    far = max(far, b - start)
                    start = nt
    return far


# ------------------------------------------------------------ the check

def specification(c, table):
    mc = "SPECIFICATION Spec\nCONSTANTS\n  MaxOps = %d\n  Emit = %s\n" \
        "  Flaw = \"%s\"\nINVARIANTS Same Out\n"
    c.ran(tlc("WaysMC", mc % (6, "FALSE", "none"), workers=NPROC))
    res = tlc("WaysMC", mc % (3, "TRUE", "none"), workers=NPROC)
    c.ran(res)
    for flaw in ("keeps one", "adds"):
        bad = tlc("WaysMC", mc % (3, "FALSE", flaw), workers=NPROC,
                  ok_codes=(12,))
        if "Same is violated" not in bad.out:
            raise TLCError("WaysMC accepts an arrival that " + flaw)
    path = write_json("sines.json", dict(
        sin=[wide(math.sin(math.radians(k / 2)), 10**8) for k in range(181)],
        one=wide(1, 10**8), digits=4))
    laws = "Range Symmetric Rotation Mirror Itself Antipode Meridian " \
        "Equator Pole Triangle"
    sp = "SPECIFICATION Spec\nCONSTANTS\n  StepLat = %d\n  StepLon = %d\n" \
        "  Table <- Sines\n  One <- Unit\n  Flaw = \"%s\"\nINVARIANTS " + laws + "\n"
    grid = (30, 90) if THOROUGH else (60, 180)
    r2 = tlc("SphereMC", sp % (grid + ("none",)), workers=NPROC,
             env={"SINES": path})
    c.ran(r2)
    for flaw in ("flat", "north"):
        bad = tlc("SphereMC", sp % (60, 180, flaw), workers=NPROC,
                  env={"SINES": path}, ok_codes=(12,))
        if "is violated" not in bad.out:
            raise TLCError("SphereMC accepts a distance that is " + flaw)
    c.count(canaries_rejected=4)
    return [(list(w), list(o)) for w, o in res.tuples("WAY")]


def depth_at(rng, m):
    return rng.choice([0, rng.uniform(1, 60), rng.uniform(60, 700),
                       rng.choice([b.topDepth for b in m.tauBranches[0][:-3]
                                   if b.topDepth < 2800]),
                       rng.randint(5, 650)])


def main():
    use_repo()
    c = Check("C04", "model_checking")
    table = [wide(math.sin(math.radians(k / 2)), 10**16) for k in range(181)]
    ways = specification(c, table)
    _ctx["taus"] = c02.load([("venus", models.COARSE), ("lvz", models.COARSE),
                             ("lid", models.MIDDLE),
                             ("iasp91", models.MIDDLE)])
    rng = c.rng
    n = len(_ctx["taus"])
    names = rays.spec_names(c, 3, 9)
    gram = sorted(k for k, v in names.items() if v == "go")

    def some(m):
        if rng.random() < 0.6:
            return list(rng.choice(NAMES))
        return [rays.spell(rays.place(rng.choice(gram), m, rng))
                for _ in range(5)]
    # --- one question, many ways
    jobs, many = [], 400 if THOROUGH else 80
    for k in range(many):
        mi = rng.randrange(n)
        m = _ctx["taus"][mi].model
        x = rng.choice([rng.uniform(0, 180), rng.uniform(0, 180),
                        rng.randint(1, 179), rng.uniform(180, 700), 0, 180])
        other = [rng.uniform(-90, 90), rng.uniform(-180, 180),
                 rng.uniform(-90, 90), rng.uniform(-180, 180)]
        nl = some(m)
        jobs.append((mi, nl, depth_at(rng, m), x, other,
                     [ways[i] for i in rng.sample(
                         range(len(ways)), 8 if nl == ["ttall"] else 24)]))
    # by the number of questions and phases, the longest first
    jobs.sort(key=lambda j: -len(j[5]) * (40 if "ttall" in j[1] else
                                          len(j[1])))
    out = pool_map(ways_job, jobs)
    tokens, recs, infos = {"none": 0}, [], []
    for j, bs in zip(jobs, out):
        b = []
        for (w, ops), (bad, seen, gave, _) in zip(j[5], bs):
            b.append(w + [ops, bad] + [[tokens.setdefault(t, len(tokens))
                                        for t in ts] for ts in (seen, gave)])
        recs.append({"type": "ways", "b": b})
        infos.append({"model": j[0], "names": j[1], "depth": j[2],
                      "dist": j[3], "raised": [y[3] for y in bs if y[0]][:2]})
    # --- coordinates
    cj = []
    for k in range(1000 if THOROUGH else 200):
        mi = rng.randrange(n)
        m = _ctx["taus"][mi].model
        a, b = point(rng, False), point(rng, False)
        if k % 10 == 0:
            b = a
        if k % 10 == 1:
            b = (-a[0], a[1] + 180)
        if k % 10 in (2, 3):
            a, b = map(round, a), map(round, b)
            a, b = tuple(a), tuple(b)
        cj.append((mi, rng.choice(["time", "pierce", "path"]),
                   rng.choice(["model", "tool"]), some(m), depth_at(rng, m),
                   a, b, rng.choice(["float", "whole", "numpy"])))
    for j, r in zip(cj, pool_map(coordinates_job, cj)):
        if r:
            recs.append(r[0])
            infos.append({"asked": j[1:], "model": j[0], "raised": r[1],
                          "distance": r[2]})
    # --- further depths
    mj = []
    for k in range(900 if THOROUGH else 150):
        mi = rng.randrange(n)
        m = _ctx["taus"][mi].model
        walls = [b.topDepth for b in m.tauBranches[0]] + [models.radius(m)]
        adds = []
        while len(adds) < rng.choice([1, 1, 2, 3]):
            d = round(rng.choice([rng.uniform(5, 700), rng.uniform(
                5, models.radius(m) - 71)]),
                      rng.choice([0, 2]))
            if all(abs(d - w) > 2 for w in walls + adds):
                adds.append(d)
        h = depth_at(rng, m)
        if any(abs(h - d) < 2 for d in adds):
            h = 0
        mj.append((mi, rng.choice(["float", "whole", "numpy"]), some(m),
                   rng.choice([h, round(h)]), rng.uniform(1, 179), adds))
    for j, rs in zip(mj, pool_map(more_job, mj)):
        for r, note in rs:
            recs.append(r)
            infos.append({"asked": j[2:], "model": j[0], "what": note})
    # --- neither distance nor coordinates
    for kind in ("time", "pierce", "path"):
        for co in (None, [1, 2, 3, None], [None, 2, 3, 4]):
            g = ask(_ctx["taus"][0], kind, "model", ["P"], 10, None, co)
            recs.append({"type": "neither",
                         "refused": int(isinstance(g, Raised) and
                                        g.kind == "ValueError")})
            infos.append({"kind": kind, "coordinates": co, "got": repr(g)[:200]})
    fails = run_records(c, "WaysTrace", recs, any_of=True,
                        canaries=ways_canaries(c, recs, len(tokens)))
    for i, clauses in sorted(fails.items()):
        for clause in sorted(clauses):
            c.violation(clause, dict(infos[i - 1], type=recs[i - 1]["type"]))
    # --- the sphere
    sj = [(t, rng.choice(["time", "pierce", "path"]), rng.getrandbits(32))
          for t, k in (("grid", 400), ("laws", 250), ("triangle", 250))
          for _ in range(k * (8 if THOROUGH else 1))]
    got = pool_map(sphere_job, sj)
    srecs = [r for r, _ in got]
    fails = run_records(c, "SphereTrace", srecs, any_of=True,
                        consts={"Table": "<- Sines", "One": "<- Unit"},
                        canaries=sphere_canaries(c, srecs), data={
                            "sin": table, "one": wide(1, 10**16),
                            "tol": 2000, "half": wide(180 + 1e-9, 10**9),
                            "costol": wide(4e34, 1)})
    for i, clauses in sorted(fails.items()):
        for clause in sorted(clauses):
            c.violation(clause, {"type": srecs[i - 1]["type"],
                                 "points": got[i - 1][1]})
    for t in ("ways", "coordinates", "more", "neither"):
        c.count(**{t: sum(r["type"] == t for r in recs)})
    c.count(sphere=len(srecs))
    c.sample(infos[0])
    c.assumptions = [
        "arrivals asked with coordinates are those at the distance between "
        "them up to 2e-6 degrees",
        "further pierced depths closer to a turning point than the sampled "
        "rays next to it are apart may be missing"]
    return c.finish()


@canaries_made()
def ways_canaries(c, recs, big):
    res = []
    by = {}
    for r in recs:
        by.setdefault(r["type"], []).append(r)
    for r in c.rng.sample(by["ways"], min(3, len(by["ways"]))):
        good = [k for k, b in enumerate(r["b"]) if b[6] == 0 and b[5]]
        if len(good) < 3:
            continue
        for clause, fn in (
                ("raised", lambda b: b.__setitem__(6, 1)),
                ("arrivals", lambda b: b[7].__setitem__(-1, big + 1)),
                (None, lambda b: b[8].__setitem__(-1, big + 2))):
            x = copy.deepcopy(r)
            b = x["b"][c.rng.choice(good)]
            fn(b)
            if clause is None:
                clause = "pierce" if b[5][-1] == "getPierce" else "path"
            res.append((x, clause))
    full = [r for r in by["coordinates"] if len(r["got"]) > 1]
    for r in c.rng.sample(full, min(3, len(full))):
        x = copy.deepcopy(r)
        x["got"].pop()
        res.append((x, "coordinates"))
        x = copy.deepcopy(r)
        a = c.rng.choice(x["got"])
        k = c.rng.randint(1, 5)
        a[k] = [9999] * 5
        res.append((x, "coordinates"))
        x = copy.deepcopy(r)
        x["got"].append(x["got"][0])
        res.append((x, "coordinates"))
    full = [r for r in by.get("more", []) if not r["raised"] and
            len(r["more"]) > len(r["base"]) and 1 not in r["blurred"]]
    for r in c.rng.sample(full, min(4, len(full))):
        extra = [k for k, p in enumerate(r["more"])
                 if p[0] in r["depths"]]
        if not extra:
            continue
        k = c.rng.choice(extra)
        x = copy.deepcopy(r)
        x["more"].pop(k)
        res.append((x, "further-depths"))
        x = copy.deepcopy(r)
        x["more"].insert(k, x["more"][k])
        res.append((x, "further-depths"))
        x = copy.deepcopy(r)
        x["more"][k][1] = x["more"][-1][1]
        x["more"][k][2] = x["more"][0][2]
        res.append((x, "further-depths"))
    res.append(({"type": "neither", "refused": 0}, "neither"))
    return res


@canaries_made()
def sphere_canaries(c, recs):
    res = []
    by = {}
    for r in recs:
        if not r["raised"]:
            by.setdefault(r["type"], []).append(r)
    for r in c.rng.sample(by["grid"], 4):
        x = copy.deepcopy(r)
        x["cos"] = [x["cos"][0], wide(0.123456, 10**16)]
        res.append((x, "great-circle"))
        res.append((dict(r, raised=1), "raised"))
    far = wide(181, 10**9)
    for r in c.rng.sample(by["laws"], 6):
        for k, clause in (("back", "symmetry"), ("turned", "rotation"),
                          ("around", "around"), ("mirror", "mirror"),
                          ("opposite", "opposite"),
                          ("lat", "closer-than-latitudes")):
            res.append((dict(r, **{k: far}), clause))
        res.append((dict(r, d=far), "range"))
        res.append((dict(r, lat=[], lon=[], d=wide(1, 10**9)),
                    "farther-than-both"))
        res.append((dict(r, lat=[], lon=[], d=wide(1, 10**9)), "meridian"))
        res.append((dict(r, lon=wide(3, 10**9), equator=1, d=wide(1, 10**9)),
                    "equator"))
    for r in c.rng.sample(by["triangle"], 3):
        res.append((dict(r, x=wide(170, 10**9), y=wide(3, 10**9), z=[]),
                    "triangle"))
        x = wide(150, 10**9)
        res.append((dict(r, x=x, y=x, z=x), "around-the-sphere"))
    return res
