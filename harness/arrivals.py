"""Arrivals of phases, for A04 to A07."""
import math
from core import *
import models
import rays

DEG = 180.0 / math.pi
# Names with long ways around, with shadow zones, with loops.
MORE = """PPPPP SSSSSS PKPPKPPKP SKSSKSSKS PKIKPPKIKPPKIKP SSSSSSSSS PKKKKP PnPn
PcPPcPPcP PKP SKS P S PKIKP Pdiff Sdiff pPdiff Pn Sn sSn SKiKP PPP""".split()


def pair(x):
    """degrees -> <<1e-4 degrees, 1e-12 degrees>>"""
    n = round(fractions.Fraction(x) * 10**12)
    return list(divmod(n, 10**8))


def degrees(rad):
    return fractions.Fraction(rad) * fractions.Fraction(DEG_EXACT)


# 180/pi to 40 digits
DEG_EXACT = fractions.Fraction(
    "57.295779513082320876798154814105170332405472")


def rpair(rad):
    return pair(degrees(rad))


def earths(check, specs, ndepths):
    """-> [(base, model, label)]"""
    rng = check.rng
    out = []
    for (nm, par), base in zip(specs, models.get(specs)):
        for h in rays.source_depths(base, rng, ndepths):
            m = attempt(base.depthCorrect, h)
            if isinstance(m, Raised):
                check.violation("depth-correction", {
                    "model": nm, "depth": h, "raised": repr(m)})
            else:
                out.append((base, m, (nm, h)))
    return out


def pick_names(check, base, names, count):
    """Names out of the specification and standard ones, in one model."""
    rng = check.rng
    good = sorted(k for k, v in names.items() if v == "go")
    toks = [rays.tokens(n) for n in rng.sample(rays.STANDARD, count)]
    toks += [rays.tokens(n) for n in rng.sample(MORE, min(len(MORE), count))]
    toks += rng.sample(good, count)
    toks = [rays.place(t, base, rng) for t in toks]
    toks = [t for t in toks if rays.tokens(rays.spell(t)) == t]
    return list(dict.fromkeys(toks))


def queries(dist, rng, count):
    """Distances (degrees) to ask a curve for."""
    qs = []
    n = len(dist)
    for _ in range(count if n > 1 else 0):
        k = rng.randrange(n - 1)
        a, b = dist[k] * DEG, dist[k + 1] * DEG
        kind = rng.randrange(4)
        if kind == 0:
            x = a + (b - a) * rng.random()
        elif kind == 1:
            x = a
        elif kind == 2:
            x = a + rng.choice([1e-7, -1e-7, 1e-10, -1e-10])
        else:
            x = rng.choice([dist[0], dist[-1], max(dist), min(dist)]) * DEG
            x += rng.choice([0, 0, 1e-6, -1e-6])
        x = max(x, 0.0)
        y = math.fmod(x, 360)
        y = rng.choice([y, y, -y, 360 - y, y + 360, y - 360, 720 - y,
                        y - 1080, x])
        # Very near to 0 or 180 degrees the two ways around are not one.
        if 0 < min(y % 180, 180 - y % 180) < 1e-5:
            y = 180.0 * round(y / 180)
        qs.append(y)
    qs += [0.0, 180.0, rng.choice([360.0, -180.0, 540.0, 720.0, -360.0]),
           round(rng.uniform(-900, 900), rng.choice([0, 3, 9]))]
    return qs


def exact(dist, q):
    """Samples at exactly the asked distance in any reasonable arithmetic."""
    if not 0 <= q <= 180:
        return []
    x = {q * math.pi / 180, math.radians(q), q / 180 * math.pi}
    return [k + 1 for k, d in enumerate(dist) if x == {d}]
