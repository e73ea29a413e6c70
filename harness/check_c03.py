"""C03: every query is answered."""
import copy
import math
import pickle
from core import *
import check_c02 as c02
import models
import rays
import structure

_ctx = {}
CLIFF = [(0, 3.0, 1.7), (10, 6.5, 3.8), (35, 7, 4), (35, 8.0, 4.5),
         (100, 4, 2.2), (120, 8.5, 4.7), (2889, 13.7, 7.2)] + models.CORE
ALPHABET = ("p s P S K k I i J m c Pg Sb Pn Sn Pdiff Sdiff g b n diff ^ v 410 "
            "35 660 220.0 2889 5153.9 6371 0 . v35 ^410 ^m vc ^i E END").split()
# Names that no reading makes a phase with arrivals of.
STRANGE = ["", " ", "P ", " P", "\n", "\x00", "\u00e9", "\u03a9\u00b2", ".kmps",
           "1..2kmps", "kmps", "nankmps", "123", "P0P", "P6371P", "P.P",
           "P1e3P", "^", "v", "P^", "Pv", "P^^410P", "TT P", "ttP,S", "ALL",
           "P\u0661P", "PP\tS", "p" * 400, "0kmps", "-3kmps",
           "infkmps", "1e400kmps", "1e-320kmps", "Kdiff", "None", "-", "^-1P",
           "P,S", "%s", "{}", "END", "P_END", "tt", "ttX", "diff", "kmpsP"]
# For the file of known findings.
SITES = {"too-early-first-sample": "splitBranch-inserts-no-ray-parameter"}
SHORT = "ttp ttp+ tts tts+ ttbasic ttall TTall TTP".split()


# ------------------------------------------------------------ making queries

def depth_of(cls, m, rng):
    tops = [b.topDepth for b in m.tauBranches[0][1:]]
    cmb = m.cmbDepth
    radius = models.radius(m)
    lay = [l.botDepth for ls in (m.sMod.PLayers, m.sMod.SLayers)
           for l in ls if 0 < l.botDepth < radius]
    if cls == "surface":
        return rng.choice([0, 0.0, 0, 0.0, -0.0])
    if cls == "shallow":
        return 10 ** rng.uniform(-9, 0.3)
    if cls == "crust":
        return rng.uniform(0, 60)
    if cls == "mantle":
        return rng.uniform(0, cmb)
    if cls == "core":
        return rng.uniform(cmb, radius)
    if cls == "centre":
        return min(radius - 10 ** rng.uniform(-8, 1), radius - 1e-8)
    if cls == "whole":
        return rng.choice([d for d in (10, 35, 100, 410, 660, 2889, 5154,
                                       6370, 300) if d < radius])
    d = rng.choice(tops if cls.startswith("b") else lay)
    return {"": d, "+": math.nextafter(d, 1e5) if rng.random() < .3 else
            d + 10 ** rng.uniform(-9, -2), "-": math.nextafter(d, 0)
            if rng.random() < .3 else d - 10 ** rng.uniform(-9, -2),
            "~": d + rng.uniform(-1, 1)}[cls[-1] if cls[-1] in "+-~" else ""]


def dist_of(cls, m, names, h, rng):
    if cls == "zero":
        return rng.choice([0, 0.0, -0.0, 360, -720.0])
    if cls == "half":
        return rng.choice([180, 180.0, -180, 540])
    if cls == "round":
        return rng.choice([10, 35, 60, 90, 120, 145, 270, 30, 100.0])
    if cls == "short":
        return 10 ** rng.uniform(-6, 1)
    if cls == "any":
        return rng.uniform(0, 180)
    if cls == "negative":
        return -rng.uniform(0, 400)
    if cls == "laps":
        return rng.uniform(180, 2000)
    if cls == "huge":
        return rng.choice([1e5, -1e7, 1e9 + 0.5, 2.0 ** 40])
    if cls == "endless":
        return rng.choice([1e300, -1.7e308, 1e17, 1e100])
    if cls == "tiny":
        return rng.choice([1e-300, 5e-324, 1e-12, -1e-9])
    if cls == "nearly":
        return rng.choice([180, 360]) + rng.choice([-1, 1]) * 10 ** rng.uniform(
            -13, -3)
    if cls == "coordinates":
        lat = [rng.choice([0, 90, -90, rng.uniform(-90, 90)])
               for _ in range(2)]
        lon = [rng.choice([0, 180, -180, 360, rng.uniform(-180, 360)])
               for _ in range(2)]
        k = rng.randrange(4)
        if k == 0:
            lat[1], lon[1] = lat[0], lon[0]
        elif k == 1:
            lat[1], lon[1] = -lat[0], lon[0] + 180
        return [lat[0], lon[0], lat[1], lon[1]]
    # exactly at a sample of the curve of one of the names
    from taupy.SeismicPhase import SeismicPhase
    c = attempt(m.depthCorrect, h)
    for n in names:
        ph = None if isinstance(c, Raised) else attempt(SeismicPhase, n, c)
        if ph is not None and not isinstance(ph, Raised) and len(ph.dist):
            return math.degrees(rng.choice([ph.dist[0], ph.dist[-1],
                                            rng.choice(list(ph.dist))]))
    return rng.uniform(0, 180)


def name_of(cls, m, rng):
    if cls == "standard":
        return rng.choice(rays.STANDARD)
    if cls in ("grammar", "elsewhere"):
        toks = rng.choice(_ctx["names"][cls])
        return rays.spell(rays.place(toks, m, rng))
    if cls == "alphabet":
        return "".join(rng.choice(ALPHABET)
                       for _ in range(rng.randint(1, 7)))
    if cls == "strange":
        return rng.choice(STRANGE)
    if cls == "shorthand":
        return rng.choice(SHORT)
    if cls == "kmps":
        return rng.choice(["2kmps", "4.4kmps", "3.kmps", "1e1kmps", ".5kmps",
                           "1e200kmps", "0.001kmps", "007kmps", "\u0662kmps"])
    return rng.choice(["P" * rng.randint(5, 40), "PKIKP" * rng.randint(2, 9),
                       "PcS" * 7, "S^220S" * 6, "pP" + "SKS" * 9,
                       "PKKKKKKKKKKKKKP", "Pn" * 9, "PcP" * 9 + "diff",
                       "K" * 30, "m" * 20, "P" * 20 + "x"])


# ------------------------------------------------------------ observing

def ask(tau, kind, h, x, names):
    f = {"time": tau.get_travel_times, "pierce": tau.get_pierce_points,
         "path": tau.get_ray_paths}[kind]
    w = dict(coordinate_list=list(x)) if isinstance(x, list) else \
        dict(distance_in_degree=x)
    r = attempt(f, h, phase_list=list(names), **w)
    if isinstance(r, Raised):
        return repr(r), []
    try:
        return "list", list(r)
    except TypeError:
        return "no list", []


def finite(*v):
    try:
        return all(math.isfinite(x) for x in v)
    except TypeError:
        return False


def describe(a, vmax, first, radius):
    num = finite(a.time, a.dist, a.rayParam, a.takeoffAngle, a.incidentAngle,
                 a.sourceDepth)
    pts = list(a.pierce) + list(a.path)
    ok = all(finite(q.time, q.distRadian, q.depth, q.p) and q.time >= 0 and
             q.distRadian >= 0 and -1e-9 <= q.depth <= radius + 1e-9 and
             q.p >= 0 for q in pts)
    least = 0.0
    if num:
        d = abs(math.fmod(a.dist, 2 * math.pi))
        d = min(d, 2 * math.pi - d)
        # straight through the Earth from the depth of the source; the
        # samples between which times are interpolated can be far apart
        r = radius - a.sourceDepth
        c = math.sqrt(max(0, radius ** 2 + r * r - 2 * radius * r * math.cos(d)))
        least = max(0, 0.9 * c / vmax - 0.001)
    else:
        return {"num": False, "t": [], "x": [], "p": [], "least": [],
                "free": False, "pts": ok, "stand": False}
    return {"num": num, "t": wide(a.time, 10**6), "x": wide(a.dist, 10**9),
            "p": wide(a.rayParam, 10**6), "least": wide(least, 10**6),
            "free": a.name.endswith("kmps"), "pts": ok,
            "stand": not a.name.endswith("kmps") and
            a.rayParam > first[a.name[0] in "sS"]}


def slowness(rows, h):
    """Of P and S at the source, the larger one of the two sides."""
    out = []
    for w in (1, 2):
        u = 0.0
        for a, b in zip(rows, rows[1:]):
            if a[0] <= h <= b[0] and a[0] < b[0]:
                v = [x[w] or x[1] for x in (a, b)]
                v = v[0] + (v[1] - v[0]) * (h - a[0]) / (b[0] - a[0])
                u = max(u, (rows[-1][0] - h) / v)
        out.append(u)
    return out


def first_rays(m, rows, h):
    """The largest ray parameters sampled which leave from the source."""
    return [max([p for p in m.rayParams if p <= u * (1 + 1e-9)] + [0])
            for u in slowness(rows, h)]


def token(arrivals, kind):
    """Equal arrivals together, with their number: [(key, arrival)]"""
    out = {}
    for a in arrivals:
        key = c02.canonical([a], kind)
        out.setdefault(key, []).append(a)
    return [("%s*%d" % (k, len(v)), v[0]) for k, v in sorted(out.items())]


def job(j):
    mi, kind, dcls, xcls, classes, seed = j
    rng = random.Random(seed)
    tau = _ctx["taus"][mi]
    m = tau.model
    names = [name_of(cl, m, rng) for cl in classes]
    h = depth_of(dcls, m, rng)
    x = dist_of(xcls, m, names, h, rng)
    rows = _ctx["rows"][mi]
    vmax = max(r[1] for r in rows)
    first = first_rays(m, rows, h)
    out, whole = ask(tau, kind, h, x, names)
    arr = {}

    def keys(arrivals):
        ks = []
        for k, a in token(arrivals, kind):
            if k not in arr:
                arr[k] = describe(a, vmax, first, models.radius(m))
            ks.append(k)
        return ks
    rec = {"out": out if out == "list" else "raised", "whole": keys(whole),
           "alone": []}
    raised = [] if out == "list" else [out]
    for cl, n in zip(classes, names):
        o, got = ask(tau, kind, h, x, [n])
        if o != "list":
            raised.append("%r: %s" % (n, o))
        rec["alone"].append([cl, o if o == "list" else "raised", keys(got)])
    info = {"model": _ctx["labels"][mi], "kind": kind, "depth": repr(h),
            "dist": repr(x), "names": names, "raised": raised}
    return rec, arr, info


def taus(c):
    """Earths of all kinds, as a user has them."""
    from taupy.tau import TauPyModel
    coarse = dict(models.COARSE)
    specs = [(n, coarse) for n in sorted(models.SYN) + sorted(models.EXTRA)]
    models.syn_path("cliff", CLIFF)
    jobs = [(n, models.path_of(n), p) for n, p in specs]
    jobs.append(("cliff", models.syn_path("cliff", CLIFF), coarse))
    jobs.append(("iasp91", models.path_of("iasp91"), models.MIDDLE))
    jobs.append(("lvz-noS", models.path_of("lvz"),
                 dict(coarse, allow_inner_core_s=False)))
    for k in range(40 if THOROUGH else 8):
        jobs.append(("random%d" % k, models.syn_path(
            "random%d" % k, structure.random_rows(c.rng)), dict(
                coarse, max_depth_interval=c.rng.choice([115.0, 300.0, 700.0]),
                allow_inner_core_s=c.rng.random() < 0.7)))
    res, labels, rows, refused = [], [], [], 0
    built = build_many([(p, par) for _, p, par in jobs])
    for (label, path, _), m in zip(jobs, built):
        if isinstance(m, Raised):
            # which models may be refused is for B02 to say
            refused += 1
            continue
        p = os.path.join(scratch(), "model-" + label)
        r = attempt(m.writeModel, p)
        t = r if isinstance(r, Raised) else attempt(TauPyModel, p)
        if isinstance(t, Raised):
            raise CodeFailed("writing and loading %s: %r" % (label, t))
        res.append(t)
        labels.append(label)
        with open(path) as f:
            rows.append([[float(x) for x in l.split("#")[0].split()]
                         for l in f.read().splitlines()[2:] if l.strip()])
    c.note(models=len(res), models_refused=refused)
    return res, labels, rows


def main():
    use_repo()
    c = Check("C03", "model_checking")
    mc = "SPECIFICATION Spec\nCONSTANTS\n  MaxNames = %d\n  Emit = %s\n" \
        "  Flaw = \"%s\"\nINVARIANTS Total Isolation Out\n"
    res = tlc("QueryMC", mc % (3, "TRUE", "none"), workers=NPROC)
    c.ran(res)
    for flaw in ("gives up", "forgets"):
        bad = tlc("QueryMC", mc % (2, "FALSE", flaw), workers=NPROC,
                  ok_codes=(12,))
        if "is violated" not in bad.out:
            raise TLCError("QueryMC accepts a tool that " + flaw)
    c.count(canaries_rejected=2)
    lists = [list(x[0]) for x in res.tuples("LIST")]
    depths, dists = [sorted(res.tuples(t)[0][0]) for t in ("DEPTHS", "DISTS")]
    names = rays.spec_names(c, 3, 9)
    _ctx["names"] = {"grammar": sorted(k for k, v in names.items()
                                       if v == "go"),
                     "elsewhere": sorted(k for k, v in names.items()
                                         if v == "none")}
    _ctx["taus"], _ctx["labels"], _ctx["rows"] = taus(c)
    # every depth with every distance, every list of names
    jobs = []
    n = len(_ctx["taus"])
    pairs = [(d, x) for d in depths for x in dists]
    c.rng.shuffle(lists)
    want = len(pairs) * (30 if THOROUGH else 5)
    k = 0
    while len(jobs) < want:
        d, x = pairs[k % len(pairs)]
        jobs.append((c.rng.randrange(n),
                     c.rng.choice(["time", "pierce", "path"]), d, x,
                     lists[k % len(lists)], c.rng.getrandbits(32)))
        k += 1
    out = pool_map(job, jobs)
    index, arr = {}, []

    def number(k, a):
        if k not in index:
            arr.append(a[k])
            index[k] = len(arr)
        return index[k]
    recs = []
    for r, a, _ in out:
        r["whole"] = [number(k, a) for k in r["whole"]]
        for al in r["alone"]:
            al[2] = [number(k, a) for k in al[2]]
        recs.append(r)
    canaries = make_canaries(c, recs, arr)
    fails = run_records(c, "QueryTrace", recs, canaries=canaries,
                        data={"arr": arr}, any_of=True)
    for i, clauses in sorted(fails.items()):
        for clause in sorted(clauses):
            c.violation(clause, dict(out[i - 1][2], site=SITES.get(clause)))
    c.count(queries=len(recs), arrivals=len(arr),
            depth_classes=len(depths), distance_classes=len(dists))
    c.sample(out[0][2])
    c.assumptions = [
        "arrivals are the same if all their fields and points are, bit by bit",
        "times are no shorter than 0.9 times that of a straight line at the "
        "highest velocity (times are interpolated)"]
    return c.finish()


@canaries_made()
def make_canaries(c, recs, arr):
    res = []
    ks = [k for k, r in enumerate(recs) if r["whole"] and len(r["alone"]) > 1]
    for k in c.rng.sample(ks, min(len(ks), 6)):
        def can(clause, fn, field=None):
            r = copy.deepcopy(recs[k])
            if field:
                a = copy.deepcopy(arr[r["whole"][0] - 1])
                a.update(field)
                arr.append(a)
                r["whole"][0] = len(arr)
            else:
                fn(r)
            res.append((r, clause))
        can("raised", lambda r: r.update(out="raised"))
        can("raised-alone", lambda r: r["alone"][0].__setitem__(1, "raised"))
        can("names-not-independent", lambda r: r["whole"].pop())
        can("names-not-independent", lambda r: r["alone"][0][2].append(
            max(r["whole"]) + 1))
        can("arrivals-of-no-phase", lambda r: r["alone"].append(
            ["strange", "list", r["whole"][:1]]))
        can("no-number", None, {"num": False})
        can("points", None, {"pts": False})
        can("negative", None, {"t": wide(-1, 1)})
        can("too-early", None, {"t": [], "least": [1], "free": False,
                                "stand": False})
    return res
