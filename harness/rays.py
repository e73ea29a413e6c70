"""Phases for A02 and A03: earths as the ray walker sees them, names from the
specification, and what the code makes of them."""
import os
import random
import re
from core import *
import models

SP_D, SP_T = 1e7, 1e4


def boundaries(base):
    """(depth, P up, P lo, S up, S lo) of the branch boundaries of an
    uncorrected model, from its slowness layers."""
    return [tb.topDepth for tb in base.tauBranches[0]]


def square(u):
    return min(fix(u * u, 10), 2 * 10**9)


def earth(base, model, curves=True, layers=False):
    """What spec/Ray.tla calls an Earth (with its slowness layers, and how to
    rank a ray parameter, if asked for)."""
    sm = model.sMod
    tops = [tb.topDepth for tb in model.tauBranches[0]]
    ends = tops[1:] + [models.radius(base)]
    known = set(tb.topDepth for tb in base.tauBranches[0])
    vals = [0.0] + list(model.rayParams)
    per = {}
    within = {}
    for w, lays in (("P", sm.PLayers), ("S", sm.SLayers)):
        lo, mid, up = [], [], []
        within[w] = []
        for top, bot in zip(tops, ends):
            inside = [l for l in lays if l.topDepth >= top and
                      l.botDepth <= bot and l.botDepth > l.topDepth]
            within[w].append(inside)
            if layers:
                vals += [l.topP for l in inside] + [l.botP for l in inside]
            first, last = inside[0], inside[-1]
            lo.append(first.topP)
            up.append(last.botP)
            mid.append(min([l.botP for l in inside] +
                           [l.topP for l in inside]))
        per[w] = (lo, mid, up)
        vals += lo + mid + up
    zones = {"P": sm.highSlownessLayerDepthsP,
             "S": sm.highSlownessLayerDepthsS}
    for w in zones:
        vals += [z.rayParam for z in zones[w]]
    rk = Ranks(vals)

    def near(depth):
        best = min(range(len(tops)), key=lambda k: (
            tops[k] not in known, abs(tops[k] - depth)))
        return best
    vm = base.sMod.vMod
    e = {"n": len(tops), "zero": rk(0.0),
         "src": tops.index(model.sourceDepth) if model.sourceDepth in tops
         else -1,
         "moho": near(vm.mohoDepth), "cmb": near(vm.cmbDepth),
         "iocb": near(vm.iocbDepth), "jok": bool(sm.allowInnerCoreS),
         "top": [fix(t, DEPTH) for t in tops],
         "bottom": fix(ends[-1], DEPTH),
         "nodis": [t not in known for t in tops],
         "rp": [rk(p) for p in model.rayParams],
         "p4": [fix(p, 1e4) for p in model.rayParams]}
    for w in "PS":
        e[w] = {k: [rk(x) for x in v]
                for k, v in zip(("lo", "mid", "up"), per[w])}
        e["z" + w] = [{"b": tops.index(z.topDepth) if z.topDepth in tops
                       else -1, "p": rk(z.rayParam)} for z in zones[w]]
    e["D"] = {w: [[fix(x, SP_D) for x in tb.dist] if curves else []
                  for tb in model.tauBranches[k]] for k, w in enumerate("PS")}
    e["T"] = {w: [[fix(x, SP_T) for x in tb.time] if curves else []
                  for tb in model.tauBranches[k]] for k, w in enumerate("PS")}
    if layers:
        e["layers"] = {w: [[[fix(l.topDepth, DEPTH), fix(l.botDepth, DEPTH),
                             rk(l.topP), rk(l.botP), square(l.topP),
                             square(l.botP)] for l in inside]
                           for inside in within[w]] for w in "PS"}
        e["tau"] = {w: [[fix(x, SP_T) for x in tb.tau]
                        for tb in model.tauBranches[k]]
                    for k, w in enumerate("PS")}
        return e, rk
    return e


# --- names -----------------------------------------------------------------

MC_CFG = """SPECIFICATION Spec
CONSTANTS
  MaxLegs = %d
  Emit = %s
INVARIANT Inv
CONSTRAINT Out
CHECK_DEADLOCK FALSE
"""


def spec_names(check, legs, extra_depth=None):
    """Names out of the specification: (status, tokens)."""
    res = tlc("RayMC", MC_CFG % (legs, "TRUE"), workers=8, heap="6g")
    check.ran(res)
    names = {}
    for st, toks in res.tuples("NAME"):
        key = tuple(tuple(t) for t in toks)
        if names.get(key) != "go":
            names[key] = st
    if extra_depth:
        res = tlc("RayMC", MC_CFG % (extra_depth, "TRUE"), workers=8,
                  heap="6g", extra=["-simulate", "num=%d" % (
                      20000 if not THOROUGH else 200000), "-depth", "14",
                      "-seed", str(SEED)])
        for st, toks in res.tuples("NAME"):
            key = tuple(tuple(t) for t in toks)
            if names.get(key) != "go":
                names[key] = st
    return names


STANDARD = """P PcP PP PKP PKiKP PKIKP PKKP pP sP pPKIKP S ScS SS SKS SKiKS
SKIKS sS pS PS SP ScP PcS PKS SKP SKKS PKPPKP SKSSKS pPdiff sPdiff PKIKKIKP
SKIKKIKS PKIKPPKIKP PnPn SnSn PgPg PgS SgP P410s P660s S410p P^410P P^660P PvmP
SvmS Pvm S^220S P410S S660P pPcP sScS PPP SSS PPPP PKKKP PKJKP SKJKS PKIIKP
PKJJKP PKIJKP PcPPcP ScSScS p^410P s^mS p^mP P^mP SKPPKS pSKS PmS Pms SmP Smp
PcPP PcPS ScPP PKPP P2.5S P35s S35p pPn sPn sSn SPn PSn""".split()


def tokens(name):
    """A name as legs of the specification, by our own reading of it (names
    here are simple: no blanks, well-formed)."""
    out = []
    for t in re.findall(r"[\^v](?:[mci]|[\d.]+)|[\d.]+|[PS]diff|[PS][gnb]|.",
                        name):
        if t[0] in "^v" and len(t) > 1:
            out.append((t[0], t[1]) if t[1] in "mci" else
                       (t[0], "#", float(t[1:])))
        elif t[0].isdigit() or t[0] == ".":
            out.append(("d", "#", float(t)))
        else:
            out.append((t,))
    return tuple(out) + (("END",),)


MC_DEPTHS = (15, 80, 410, 660)


def place(toks, base, rng):
    """Give the abstract depths of a name a place in a real model."""
    cmb = base.cmbDepth
    disc = [b for b in boundaries(base) if 0 < b < cmb]
    spot = {}
    for k, d in enumerate(MC_DEPTHS):
        spot[d] = disc[min(len(disc) - 1, (k * len(disc)) // len(MC_DEPTHS))] \
            if disc else 100.0
    res = []
    for t in toks:
        if len(t) == 3 and t[2] in spot:
            d = spot[t[2]]
            d += rng.choice([0, 0, 0, 3, -2, 7.5, 0.3, -0.2, 0.01])
            d = max(1.0, min(cmb - 30.0, d))
            res.append((t[0], t[1], round(d, 2)))
        else:
            res.append(t)
    return tuple(res)


def fmt(x):
    s = ("%.2f" % x).rstrip("0").rstrip(".")
    return s


def spell(toks):
    out = ""
    for t in toks:
        if t[0] == "END":
            continue
        if len(t) == 3:
            out += ("" if t[0] == "d" else t[0]) + fmt(t[2])
        elif len(t) == 2:
            out += t[0] + t[1]
        else:
            out += t[0]
    return out


def legs_json(toks):
    return [[t[0], t[1], fix(t[2], DEPTH)] if len(t) == 3 else list(t)
            for t in toks]


def runs_of(ix):
    res = []
    for i in ix:
        if res and res[-1][0] + res[-1][1] == i:
            res[-1][1] += 1
        else:
            res.append([i, 1])
    return res


def observe(model, name, curves):
    from taupy.SeismicPhase import SeismicPhase
    r = attempt(SeismicPhase, name, model)
    if isinstance(r, Raised):
        out = "refused" if r.kind == "TauModelError" else r.kind + ":" + r.where
        return {"out": out, "runs": [], "d": [], "t": []}
    where = {p: i + 1 for i, p in enumerate(model.rayParams)}
    ix = [where.get(p, -1) for p in r.rayParams]
    return {"out": "curve", "runs": runs_of(ix),
            "d": [fix(x, SP_D) for x in r.dist] if curves else [],
            "t": [fix(x, SP_T) for x in r.time] if curves else []}


_ctx = {}


def _job(job):
    ei, names, curves = job
    base, model = _ctx["earths"][ei]
    return [observe(model, n, c) for n, c in zip(names, curves)]


def source_depths(base, rng, count):
    b = boundaries(base)
    mantle = [x for x in b if x < base.cmbDepth]
    out = [0.0]
    out += rng.sample(mantle[1:], min(len(mantle) - 1, max(1, count // 3)))
    if count > 3:       # some metres above or below a boundary
        out.append(round(rng.choice(mantle[1:]) + rng.choice([-1, 1]) *
                         10 ** rng.uniform(-2.4, -1), 4))
    while len(out) < count:
        k = rng.randrange(len(mantle))
        top = mantle[k]
        bot = (mantle + [base.cmbDepth])[k + 1]
        out.append(round(top + (bot - top) * rng.random(), 3))
    return out


def gather(check, specs, ndepths, names, per_earth, curve_share):
    """-> earths (json), records"""
    rng = check.rng
    bases = models.get(specs)
    earths = []
    labels = []
    for (nm, par), base in zip(specs, bases):
        if isinstance(base, Raised):
            raise RuntimeError("cannot build %s: %r" % (nm, base))
        for h in source_depths(base, rng, ndepths):
            m = attempt(base.depthCorrect, h)
            if isinstance(m, Raised):
                check.violation("depth-correction", {
                    "model": nm, "depth": h, "raised": repr(m)})
                continue
            earths.append((base, m))
            labels.append((nm, h))
    _ctx["earths"] = earths
    good = sorted(k for k, v in names.items() if v == "go")
    none = sorted(k for k, v in names.items() if v == "none")
    std = [tokens(n) for n in STANDARD]
    jobs, meta = [], []
    for ei, (base, m) in enumerate(earths):
        pick = list(std)
        pick += rng.sample(good, min(len(good), per_earth))
        pick += rng.sample(none, min(len(none), per_earth // 4))
        toks = [place(t, base, rng) for t in pick]
        # Written down, a name may read differently: P + n.
        toks = [t for t in toks if tokens(spell(t)) == t]
        curves = [k < len(std) // 2 or rng.random() < curve_share
                  for k in range(len(toks))]
        for a in range(0, len(toks), 400):
            jobs.append((ei, [spell(t) for t in toks[a:a + 400]],
                         curves[a:a + 400]))
            meta.append((ei, toks[a:a + 400]))
    recs, info = [], []
    for (ei, toks), outs in zip(meta, pool_map(_job, jobs)):
        for t, o in zip(toks, outs):
            o = dict(o)
            o["e"] = ei + 1
            o["legs"] = legs_json(t)
            recs.append(o)
            info.append({"model": labels[ei][0], "depth": labels[ei][1],
                         "name": spell(t)})
    ejson = [earth(b, m) for b, m in earths]
    # surface waves
    from taupy.SeismicPhase import SeismicPhase
    for ei in sorted({0, len(earths) - 1} | set(next(
            ([k] for k, (b, _) in enumerate(earths) if models.radius(b) != 6371),
            []))):
        for v in (1.0, 2.0, 2.5, 3.27, 4.0, 8.15, 0.9):
            name = "%skmps" % fmt(v)
            r = attempt(SeismicPhase, name, earths[ei][1])
            o = {"e": ei + 1, "legs": [["kmps"], ["END"]], "v": fix(v, 100),
                 "out": "curve", "runs": [], "d": [], "t": [], "same": False}
            if isinstance(r, Raised):
                o["out"] = r.kind
            else:
                o["d"] = [fix(x, SP_D) for x in r.dist]
                o["t"] = [fix(x, 100) for x in r.time]
                o["same"] = len(r.rayParams) == 2 and all(
                    abs(p * v - models.radius(
                        earths[ei][0])) < 1e-6 for p in r.rayParams)
            recs.append(o)
            info.append({"model": labels[ei][0], "name": name})
    return ejson, recs, info
