"""A01: names of phases."""
import itertools
from core import *


SHORT = ["ttp", "tts", "ttp+", "tts+", "ttbasic", "ttall"]
TOKENS = ["P", "S", "p", "s", "K", "k", "I", "i", "J", "m", "c", "Pg", "Sg",
          "Pb", "Sb", "Pn", "Sn", "Pdiff", "Sdiff", "^m", "^c", "^i", "vm",
          "vc", "vi", "^410", "v660", "^5.5", "v0", "410", "660.", "35", "2.5",
          "120", "kmps", "2kmps", "3.5kmps"]
JUNK = ["x", "g", "n", "d", "diff", "^", "v", " ", "-", "+", "P ", "D", "e",
        "Pdif", "inf", "nan", "v-5", "END", "b", "kmp", "j", "PKPab"]


def names(rng, thorough):
    small = "PSKkIiJpsmcgnb^v4.0dx"
    out = [""]
    for n in (1, 2, 3):
        out += ["".join(t) for t in itertools.product(small, repeat=n)]
    for t in itertools.product("PSKpcv^m4n." if not thorough else
                               "PSKIipscv^m4n.", repeat=4):
        out.append("".join(t))
    for k in range(4000 if not thorough else 40000):
        n = rng.randint(1, 9)
        toks = [rng.choice(TOKENS) if rng.random() < 0.93 else
                rng.choice(JUNK) for _ in range(n)]
        if rng.random() < 0.5:
            # mostly sensible: no kmps in the middle
            toks = [t for t in toks if "kmps" not in t] or ["P"]
        out.append("".join(toks))
    return sorted(set(out))


def lists(rng):
    out = [[s] for s in SHORT]
    for s in SHORT:
        out.append([s.upper()])
        out.append([s.capitalize()])
        out.append([s.replace("tt", "Tt")])
    out += [[], ["P"], ["P", "P"], ["ttx"], ["tt"], ["ttp++"], ["ttall "],
            ["ttP", "PcP", "PP"], ["ttp+", "tts+"], ["", "P"]]
    for _ in range(300):
        out.append([rng.choice(SHORT + ["TTALL", "TTbasic", "P", "PcP", "S",
                                        "PKIKP", "junk", "p", "SKS", "2kmps"])
                    for _ in range(rng.randint(0, 6))])
    return out


def main():
    use_repo()
    c = Check("A01", "model_checking")
    from taupy.SeismicPhase import legPuller
    from taupy.TauP_Time import parsePhaseList, getPhaseNames
    if THOROUGH:
        res = tlc("PhaseNameMC", open(os.path.join(
            SPEC, "PhaseNameMC.cfg")).read().replace("MaxLen = 4",
                                                     "MaxLen = 5"), workers=8)
    else:
        res = tlc("PhaseNameMC", open(os.path.join(
            SPEC, "PhaseNameMC.cfg")).read().replace("MaxLen = 4",
                                                     "MaxLen = 3"), workers=8)
    c.ran(res)
    # A smaller alphabet for the liveness property: every name is read.
    res = tlc("PhaseNameMC", """SPECIFICATION Spec
CONSTANTS
  Alphabet = {"P", "i", "p", "v", "n", "4", "x"}
  MaxLen = 3
PROPERTY Terminates
CHECK_DEADLOCK FALSE
""", workers=4)
    c.ran(res)
    recs = []
    for n in names(c.rng, THOROUGH):
        r = attempt(legPuller, n)
        bad = isinstance(r, Raised)
        recs.append({"k": "name", "n": n, "err": r.kind if bad else "",
                     "legs": [] if bad else [str(x) for x in r]})
    nn = len(recs)
    for ns in lists(c.rng):
        r = attempt(parsePhaseList, list(ns))
        bad = isinstance(r, Raised)
        recs.append({"k": "list", "ns": ns, "err": r.kind if bad else "",
                     "once": True, "out": [] if bad else
                     [str(x) for x in r]})
        if len(ns) == 1:
            r = attempt(getPhaseNames, ns[0])
            bad = isinstance(r, Raised)
            recs.append({"k": "list", "ns": ns, "err": r.kind if bad else "",
                         "once": False, "out": [] if bad else
                         [str(x) for x in r]})
    canaries = [
        ({"k": "name", "n": "P^410P", "err": "", "legs":
          ["P", "^4", "10", "P", "END"]}, "legs"),
        ({"k": "name", "n": "PcP", "err": "ValueError", "legs": []},
         "refusal-kind"),
        ({"k": "name", "n": "PcP", "err": "TauModelError", "legs": []},
         "refused-good-name"),
        ({"k": "name", "n": "Px", "err": "", "legs": ["P", "x", "END"]},
         "accepted-bad-name"),
        ({"k": "list", "ns": ["tts"], "err": "", "once": True,
          "out": ["s", "S", "Sn", "Sdiff", "SKS"]}, "list-expansion"),
        ({"k": "list", "ns": ["P", "P"], "err": "", "once": True,
          "out": ["P", "P"]}, "list-duplicates")]
    fails = run_records(c, "PhaseNameTrace", recs, canaries=canaries)
    for i, cl in sorted(fails.items()):
        for f in sorted(cl):
            c.violation(f, recs[i - 1])
    c.note(names=nn, refused=sum(1 for r in recs[:nn] if r["err"]),
           lists=len(recs) - nn)
    for r in (recs[5000], recs[nn - 7], recs[nn + 3]):
        c.sample(r)
    return c.finish()
