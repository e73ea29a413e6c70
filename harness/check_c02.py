"""C02: sessions."""
import copy
import pickle
from core import *
import models

_ctx = {}
BAD_DEPTH = 7000.0
KINDS = ["time", "pierce", "path", "later pierce", "later path"]


# ------------------------------------------------------------ the palettes

def palettes(rng, bases):
    inner = sorted({b.topDepth for m in bases for b in m.tauBranches[0][1:]
                    if b.topDepth < 2800})
    h = round(rng.uniform(40, 700), 3)
    depths = [0.0, h, h + 1e-9, rng.choice(inner), BAD_DEPTH]
    co = [round(rng.uniform(-80, 80), 2), round(rng.uniform(-170, 170), 2),
          round(rng.uniform(-80, 80), 2), round(rng.uniform(-170, 170), 2)]
    co2 = [co[0], co[1], co[2], round(rng.uniform(-170, 170), 2)]
    x = round(rng.uniform(20, 95), 2)
    dists = [x, x + 1e-6, round(rng.uniform(100, 800), 2), co, co2]
    names = [["P", "S"],
             rng.sample("P pP sP PcP ScS PKiKP PKP SKS PS SP".split(), 5),
             ["S", "no such^phase", "PKIKP", "P9", "P"],
             rng.sample("Pn Sn Pdiff Sdiff PP SS pS PKKP 4kmps".split(), 3)
             + ["ttp"]]
    a = round(rng.uniform(50, 2500), 1)
    adds = [[], [a], [a, round(rng.uniform(50, 2500), 1)], [8000.0]]
    return depths, dists, names, adds


# ------------------------------------------------------------ what is seen

def num(x):
    x = float(x)
    return repr(x + 0.0 if x else 0.0)


def canonical(arrivals, kind):
    out = []
    for a in arrivals:
        pts = {"pierce": a.pierce, "path": a.path}.get(kind, [])
        out.append([a.name, a.puristName] + [num(x) for x in (
            a.time, a.dist, a.rayParam, a.sourceDepth, a.takeoffAngle,
            a.incidentAngle)] + [[num(p.depth), num(p.time),
                                  num(p.distRadian), num(p.p)] for p in pts])
    return hashlib.sha1(repr(sorted(out, key=repr)).encode()).hexdigest()


LAYER = "topP topDepth botP botDepth".split()
VLAYER = ("topDepth botDepth topPVelocity botPVelocity topSVelocity "
          "botSVelocity topDensity botDensity").split()
BRANCH = ("topDepth botDepth maxRayParam minTurnRayParam minRayParam "
          "isPWave tau time dist").split()
TAU = ("radiusOfEarth sourceDepth sourceBranch mohoBranch mohoDepth cmbBranch "
       "cmbDepth iocbBranch iocbDepth rayParams noDisconDepths spherical"
       ).split()
SLOW = ("radiusOfEarth minDeltaP maxDeltaP maxDepthInterval maxRangeInterval "
        "maxInterpError allowInnerCoreS slownessTolerance").split()
CRIT = "depth velLayerNum PLayerNum SLayerNum".split()
ZONE = "topDepth botDepth rayParam".split()
VEL = ("modelName radiusOfEarth mohoDepth cmbDepth iocbDepth minRadius "
       "maxRadius isSpherical").split()


def fields(o, names):
    r = []
    for n in names:
        v = getattr(o, n, "absent")
        r.append(repr(list(v)) if hasattr(v, "__len__") and
                 not isinstance(v, str) else repr(v))
    return r


def digest(m):
    s = m.sMod
    v = s.vMod
    out = [fields(m, TAU), fields(s, SLOW), fields(v, VEL)]
    out += [fields(b, BRANCH) for w in m.tauBranches for b in w]
    for nm, f in (("PLayers", LAYER), ("SLayers", LAYER),
                  ("criticalDepths", CRIT), ("fluidLayerDepths", ZONE),
                  ("highSlownessLayerDepthsP", ZONE),
                  ("highSlownessLayerDepthsS", ZONE)):
        out += [fields(x, f) for x in getattr(s, nm, [])]
    out += [fields(x, VLAYER) for x in v.layers]
    return hashlib.sha1(repr(out).encode()).hexdigest()


# ------------------------------------------------------------ what is done

class Session(object):
    def __init__(self):
        """The models of the parent process, loaded and never touched."""
        self.taus = _ctx["taus"]
        self.depths, self.dists, self.names, self.adds = copy.deepcopy(
            _ctx["palettes"])
        self.args = (self.dists, self.names, self.adds)
        self.tools, self.gave = [], {}

    def where(self, x):
        d = self.dists[x]
        return dict(coordinate_list=d) if isinstance(d, list) else \
            dict(distance_in_degree=d)

    def state(self):
        return all(digest(t.model) == d for t, d in
                   zip(self.taus, _ctx["digests"])) and \
            repr(self.args) == _ctx["args"]

    def interface(self, kind, m, d, x, n, show=False):
        f = {"time": "get_travel_times", "pierce": "get_pierce_points",
             "path": "get_ray_paths"}[kind]
        return attempt(getattr(self.taus[m], f), self.depths[d],
                       phase_list=self.names[n], print_output=show,
                       **self.where(x))

    def tool(self, kind, m, d, x, n):
        from taupy.TauP_Time import TauP_Time
        from taupy.TauP_Pierce import TauP_Pierce
        from taupy.TauP_Path import TauP_Path
        cls = {"time": TauP_Time, "pierce": TauP_Pierce,
               "path": TauP_Path}[kind]
        w = self.where(x)
        return cls(self.taus[m].model, self.names[n], self.depths[d],
                   w.get("distance_in_degree"), w.get("coordinate_list"))

    def set(self, t, field, v):
        if field == "depth":
            t.depth = self.depths[v]
        elif field == "names":
            t.phaseList = self.names[v]
        elif field == "add":
            t.addDepth = self.adds[v]
        elif isinstance(self.dists[v], list):
            (t.eventLat, t.eventLon, t.stationLat,
             t.stationLon) = self.dists[v]
            if not t.was_coord:
                t.degrees = None
            t.was_coord = True
        else:
            t.degrees = self.dists[v]
            t.was_coord = False

    def answer(self, got, kind):
        if isinstance(got, Raised):
            return "refused"
        return canonical(got, kind)

    def later(self, arrivals, kind):
        if isinstance(arrivals, Raised):
            return "refused"
        for a in arrivals:
            r = attempt(a.getPierce if kind == "pierce" else a.getPath)
            if isinstance(r, Raised):
                return "refused"
        return canonical(arrivals, kind)

    def do(self, k, op):
        """-> what is to be compared: an answer, "none" or "raised" """
        o = op[0]
        if o == "ask":
            r = self.interface(*op[1:])
            self.gave[k] = r
            return self.answer(r, op[1])
        if o == "show":
            # Whether it is refused is for "ask" to say.
            self.interface(*op[1:], show=True)
        elif o == "new":
            t = attempt(self.tool, *op[1:])
            if isinstance(t, Raised):
                return "raised"
            t.was_coord = isinstance(self.dists[op[4]], list)
            t.kind_ = op[1]
            self.tools.append(t)
        elif o == "set":
            self.set(self.tools[op[1] - 1], op[2], op[3])
        elif o == "run":
            t = self.tools[op[1] - 1]
            r = attempt(t.run)
            self.gave[k] = r if isinstance(r, Raised) else list(t.arrivals)
            return self.answer(self.gave[k], t.kind_)
        elif o == "later":
            return self.later(self.gave[op[1]], op[2])
        elif o == "correct":
            r = attempt(self.taus[op[1]].model.depthCorrect,
                        self.depths[op[2]])
            return "refused" if isinstance(r, Raised) else digest(r)
        return "none"


def session(hist):
    s = Session()
    got, mods = [], []
    for k, op in enumerate(hist):
        got.append(s.do(k + 1, op))
        mods.append(int(s.state()))
    return got, mods


def first(q):
    """The answer to a question nothing was asked before."""
    if q[0] == "correct":
        return Session().do(1, q)
    kind, m, d, x, n, a = q
    s = Session()
    if kind.startswith("later"):
        return s.later(s.interface("time", m, d, x, n), kind.split()[1])
    if a == 0:
        return s.do(1, ["ask", kind, m, d, x, n])
    t = s.tool(kind, m, d, x, n)
    t.addDepth = s.adds[a]
    r = attempt(t.run)
    return s.answer(r if isinstance(r, Raised) else t.arrivals, kind)


def alone(fn, job):
    """In a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(fn(job)))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("no answer from the process for %r" % (job,))
    return pickle.loads(data)


def alone_session(hist):
    return alone(session, hist)


def alone_first(q):
    return alone(first, q)


# ------------------------------------------------------------ which questions

def asked(hist):
    """The questions a session asks, as they are at that time."""
    tools, out, qs = [], [], {}
    for k, op in enumerate(hist):
        q = None
        if op[0] == "ask":
            q = list(op[1:]) + [0]
        elif op[0] == "new":
            tools.append(list(op[1:]) + [0])
        elif op[0] == "set":
            tools[op[1] - 1][{"depth": 2, "dist": 3, "names": 4,
                              "add": 5}[op[2]]] = op[3]
        elif op[0] == "run":
            q = list(tools[op[1] - 1])
        elif op[0] == "later":
            q = ["later " + op[2]] + qs[op[1]][1:]
        elif op[0] == "correct":
            q = list(op)
        if q:
            qs[k + 1] = q
            out.append(tuple(q))
    return out


def number(q, sizes):
    i = KINDS.index(q[0])
    for v, n in zip(q[1:], sizes):
        i = i * n + v
    return i


def upto(n):
    return "{%s}" % ", ".join(str(k) for k in range(n))


def config(consts, inv):
    return "SPECIFICATION Spec\nCONSTANTS\n" + "".join(
        "  %s = %s\n" % kv for kv in consts.items()) + inv


def specification(c):
    """Stateless, for all histories of any length, and two flawed tools."""
    small = dict(Models="{0}", Depths="{0, 1, 2}", Dists="{0, 1}",
                 NameLists="{0, 1}", Adds="{0, 1, 2}", BadDepth=2, BadAdd=2,
                 MaxOps=1000000, MaxTools=1, Emit="FALSE",
                 Picks='{"new", "set", "run"}', Flaw='"none"')
    if THOROUGH:
        small.update(MaxTools=2, Depths="{0, 1}", BadDepth=1, Dists="{0}")
    inv = "INVARIANT Stateless\nVIEW View\n"
    res = tlc("SessionMC", config(small, inv), workers=NPROC)
    c.ran(res)
    c.note(session_states=res.distinct)
    for flaw in ("depth", "boundaries"):
        small["Flaw"] = '"%s"' % flaw
        bad = tlc("SessionMC", config(small, inv), workers=NPROC,
                  ok_codes=(12,))
        if "Invariant Stateless is violated" not in bad.out:
            raise TLCError("SessionMC accepts a tool that forgets " + flaw)
    c.count(canaries_rejected=2)


def histories(c, sizes, ops, num_, tools=2):
    consts = dict(Models=upto(sizes[0]),
                  Depths=upto(sizes[1]),
                  Dists=upto(sizes[2]),
                  NameLists=upto(sizes[3]),
                  Adds=upto(sizes[4]), BadDepth=sizes[1] - 1,
                  BadAdd=sizes[4] - 1, MaxOps=ops, MaxTools=tools,
                  Emit="TRUE", Flaw='"none"',
                  Picks='{"ask", "show", "new", "set", "set2", "run", "run2",'
                        ' "run3", "later", "correct"}')
    res = tlc("SessionMC", config(consts, "INVARIANTS Stateless Out\n"),
              workers=1, extra=["-simulate", "num=%d" % num_, "-depth",
                                str(2 * ops + 2), "-seed", str(SEED * 77 + ops)])
    hs = [h[0] for h in res.tuples("HIST")]
    c.ran(res)
    # TLC prints all the last steps a random history could take.
    groups = {}
    for h in hs:
        groups.setdefault(repr(h[:-1]), []).append(h)
    return [c.rng.choice(g) for g in groups.values()]


def load(specs):
    """The models as a user has them: written to files and loaded."""
    from taupy.tau import TauPyModel
    out = []
    for k, m in enumerate(models.get(specs)):
        path = os.path.join(scratch(), "session%d" % k)
        r = attempt(m.writeModel, path)
        t = r if isinstance(r, Raised) else attempt(TauPyModel, path)
        if isinstance(t, Raised):
            raise CodeFailed("writing and loading: %r" % t)
        out.append(t)
    return out


def run(c):
    specification(c)
    pairs = [[("lvz", models.COARSE), ("simple", models.COARSE)]]
    if THOROUGH:
        pairs += [[("lid", models.COARSE), ("soft", models.COARSE)],
                  [("steps", models.COARSE), ("iasp91", models.COARSE)]]
    for specs in pairs:
        one(c, specs)


def one(c, specs):
    _ctx["taus"] = load(specs)
    _ctx["digests"] = [digest(t.model) for t in _ctx["taus"]]
    _ctx["palettes"] = palettes(c.rng, [t.model for t in _ctx["taus"]])
    _ctx["args"] = repr(tuple(_ctx["palettes"][1:]))
    sizes = [len(_ctx["taus"])] + [len(p) for p in _ctx["palettes"]]
    hists = histories(c, sizes, 14, 900 if THOROUGH else 220)
    hists += histories(c, sizes, 30, 300 if THOROUGH else 50, 3)
    hists += histories(c, [1] + sizes[1:], 9, 400 if THOROUGH else 120, 1)
    qs = list(dict.fromkeys(q for h in hists for q in asked(h)))
    refs = dict(zip(qs, pool_map(alone_first, qs)))
    runs = pool_map(alone_session, hists)
    tokens = {"none": 0, "raised": -1}

    def token(x):
        return tokens.setdefault(x, len(tokens))
    n = len(KINDS)
    for s in sizes:
        n *= s
    ref = [0] * n
    corrected = [0] * (sizes[0] * sizes[1])
    for q, x in refs.items():
        if q[0] == "correct":
            corrected[q[1] * sizes[1] + q[2]] = token(x)
        else:
            ref[number(q, sizes)] = token(x)
    recs = [{"ops": h, "got": [token(x) for x in got], "mods": mods}
            for h, (got, mods) in zip(hists, runs)]
    canaries = []
    good = [r for r in recs if 1 < r["got"][-1] or 1 < r["got"][-2]]
    for r in c.rng.sample(good, min(3, len(good))):
        b = copy.deepcopy(r)
        k = max(i for i, g in enumerate(b["got"]) if g > 1)
        b["got"][k] = token("wrong")
        canaries.append((b, "answer"))
        b = copy.deepcopy(r)
        b["mods"][c.rng.randrange(len(b["mods"]))] = 0
        canaries.append((b, "changed"))
        b = copy.deepcopy(r)
        b["got"][0] = -1
        canaries.append((b, "raised"))
    fails = run_records(c, "SessionTrace", recs, canaries=canaries, data={
        "ref": ref, "sizes": sizes, "corrected": corrected},
        consts=dict(Models=upto(sizes[0]),
                    Depths=upto(sizes[1]),
                    Dists=upto(sizes[2]),
                    NameLists=upto(sizes[3]),
                    Adds=upto(sizes[4]), BadDepth=sizes[1] - 1,
                    BadAdd=sizes[4] - 1, Flaw='"none"'))
    for i, clauses in sorted(fails.items()):
        h, (got, mods) = hists[i - 1], runs[i - 1]
        bad = [k for k in range(len(h)) if not mods[k]]
        for clause in sorted(clauses):
            c.violation(clause, {
                "models": [s[0] for s in specs], "ops": h[:12],
                "changed_at": bad[:1], "palettes": repr(_ctx["palettes"])})
    c.count(sessions=len(hists), questions=len(refs),
            refused=sum(1 for x in refs.values() if x == "refused"),
            answers=len(set(refs.values())))
    c.sample({"session": hists[0][:6], "palettes": repr(_ctx["palettes"])})
    c.assumptions = ["a reference answer is the one given as the first "
                     "question in a process that has only loaded the models",
                     "answers are compared bit for bit, in no particular "
                     "order"]


def main():
    c = Check("C02", "model_checking")
    use_repo()
    run(c)
    return c.finish()
