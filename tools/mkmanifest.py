"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "A01": ("TLA+ lexer state machine (TLC, all names up to a bound) + trace validation of legPuller and parsePhaseList",
  "Every name up to 4 characters over the critical alphabet and thousands of long ones, each recorded split or refusal compared by TLC with the specification's reading; alphabet and lengths are bounded."),
 "A02": ("TLA+ ray machine (PlusCal-style walk of legs over an abstract Earth, checked with TLC) + trace validation of SeismicPhase.rayParams",
  "Names generated by the specification's grammar (bounded length), all replayed on 9+ Earth models and many source depths; the set of rays is compared exactly (order-exact ranks)."),
 "A03": ("TLA+ ray machine gives the crossings of each leg; TLC checks the recorded curves as sums over them",
  "Same names, models and depths as A02; sums compared per ray with exact integer arithmetic and a tolerance of rounding size. Branch tables are B05's/B06's matter."),
 "A04": ("TLA+ crossing semantics evaluated by TLC on recorded searches (trace validation) and an abstract curve explored exhaustively",
  "All arrivals of synthetic and real curves over designed distances (ends, samples, multiples of 180/360); complete set compared."),
 "A05": ("trace validation: TLC recomputes each arrival from the curve, angles against slowness in integer arithmetic",
  "Every arrival of the queries made is checked; bounded by the queries."),
 "A06": ("TLA+ ray machine generates the expected boundary visits; TLC checks the recorded pierce points against them",
  "Names restricted to those whose itinerary is unambiguous; order, ends, monotony and turning depths."),
 "A07": ("TLA+ ray machine generates the expected layer walk; TLC checks the recorded paths against it",
  "As A06, on the layers; end point to sampling error."),
 "B01": ("TLA+ specification of the file reader and layer evaluation; trace validation on generated files",
  "Generated and malformed files; order-exact and fixed point comparison."),
 "B02": ("TLA+ invariants of the slowness layers over recorded models (order-exact rank abstraction)",
  "All layers of the models built (standard, synthetic, randomised); every boundary."),
 "B03": ("TLA+ scan machine for critical, low velocity and fluid depths + TLC check of sampling limits on recorded models",
  "Machine explored exhaustively on small abstract models, replayed into the real code, and compared on every model built."),
 "B04": ("TLA+ lookup semantics checked by TLC on recorded answers, all boundaries and neighbours",
  "Every boundary depth, its float neighbours and midpoints of all models built."),
 "B05": ("TLA+ branch invariants with exact limb arithmetic on recorded tau branches",
  "Every branch and ray of the models built; tolerance of rounding size."),
 "B06": ("TLA+ integer bounds for layer integrals; TLC checks recorded layer queries",
  "Layer shapes and ray parameters enumerated by class; mean value bounds, splitting additivity; not accuracy of quadrature beyond that."),
 "C01": ("TLA+ split machine; TLC checks recorded depth corrections for conservation",
  "Many depths including float neighbours of boundaries on all models."),
 "C02": ("TLA+ machine of tool objects and models (TLC, statelessness for histories of any length); simulated histories replayed into the real objects, answers compared with those of fresh processes",
  "Histories of up to 30 operations over a palette of depths, distances, names and boundaries; answers and models compared bit for bit."),
 "C03": ("TLA+ query contract (TLC); recorded answers to queries of every class of depth, distance and list of names checked against it",
  "Every depth class with every distance class; names from the grammar, the alphabet and a list of odd strings; bounded by the queries made."),
 "C04": ("TLA+ machines of the ways of asking and of distances on a sphere (TLC); their behaviours replayed, recorded answers and distances checked against them",
  "All ways of asking up to three follow-ups; great circle distances against the cosine law in exact arithmetic at half degrees and by metric laws elsewhere."),
 "C05": ("TLA+ lifecycle machine of model files (TLC); enumerated histories replayed in a scratch directory, answers checked by trace validation",
  "All histories up to a bound over names and directories, random longer ones."),
 "C06": ("TLA+ printer machine (TLC on all small rays); printed reports read back line by line by the machine (trace validation)",
  "Reports of the queries made, with all filters and several step and time limits; columns are read, their widths and headings are not judged."),
}
LEVEL = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "harness", "check_%s.py" % p.lower())):
        checks.append({"property": p, "quick_cmd": "./check " + p,
                       "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                       "technique": T[p][0], "level": LEVEL.get(p, "model_checking"),
                       "level_note": T[p][1]})
    else:
        na.append({"property": p, "reason": "check not built yet (planned, see DESIGN.md)"})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks,
           "not_applicable": na,
           "notes": "TLA+ checked with TLC. No hooks in /repo: the API exposes the state."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
