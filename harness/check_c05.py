"""C05: models in files."""
import copy
import pickle
import numpy        # before the processes part
import core
from core import *
import check_c02 as c02
import models

_ctx = {}
QUERIES = [("time", 0, 43.1, ["P", "S", "PcP", "SKS"]),
           ("pierce", 120.25, 71.7, ["P", "sS", "PKiKP"]),
           ("path", 410.3, 30.2, ["S", "pP", "P"])]
KINDS = ("create create2 write copy load load2 remove chdir install").split()


def seen(model):
    """Fields and answers of a model."""
    from taupy.TauP_Time import TauP_Time
    from taupy.TauP_Pierce import TauP_Pierce
    from taupy.TauP_Path import TauP_Path
    out = [c02.digest(model)]
    for kind, h, x, names in QUERIES:
        t = attempt({"time": TauP_Time, "pierce": TauP_Pierce,
                     "path": TauP_Path}[kind], model, names, h, x)
        r = t if isinstance(t, Raised) else attempt(t.run)
        out.append("refused" if isinstance(r, Raised)
                   else c02.canonical(t.arrivals, kind))
    return hashlib.sha1(repr(out).encode()).hexdigest()


def token(model):
    try:
        return _ctx["tokens"].get(seen(model), -2)
    except Exception:
        return -2


class Tree(object):
    """A scratch directory, with a copy of the package in it."""

    def __init__(self, top):
        self.top = top
        for d in ("w1", "w2"):
            os.makedirs(os.path.join(top, d))
        self.package = os.path.join(core.REPO, "taupy", "data", "models")
        os.makedirs(self.package, exist_ok=True)
        for f in os.listdir(self.package):
            os.unlink(os.path.join(self.package, f))
        self.cwd = ["w1"]
        self.clock = 0
        self.known, self.times = {}, {}
        for b, m in (("syn", 1), ("std", 2)):
            r = attempt(self.create, m, self.builtin(b))
            if isinstance(r, Raised):
                raise CodeFailed("making a built-in model: %r" % r)
        with open(os.path.join(top, "w1", "junk"), "wb") as f:
            f.write(b"this is no model\n")

    def builtin(self, stem):
        from taupy.utils import _get_model_filename
        # as setup.py does
        return _get_model_filename(os.path.join(core.REPO, "taupy", "data",
                                                stem + ".tvel"))

    def name(self, n):
        return os.path.join(self.top, *n[1]) if n[0] == "abs" \
            else os.path.join(*n[1])

    def full(self, n):
        return os.path.normpath(os.path.join(
            self.top, *(n[1] if n[0] == "abs" else self.cwd + n[1])))

    def stamp(self):
        """The files are written one after another, all within a second, as
        far as their times can tell."""
        for top in (self.top, self.package):
            for d, _, fs in sorted(os.walk(top)):
                for p in sorted(os.path.join(d, f) for f in fs):
                    if os.stat(p).st_mtime_ns != self.times.get(p):
                        self.times[p] = 1577836800 * 10**9 + \
                            10**5 * self.clock
                        self.clock += 1
                        os.utime(p, ns=(self.times[p],) * 2)

    def create(self, m, name, verbose=False):
        from taupy.TauP_Create import TauP_Create
        path, par = _ctx["sources"][m - 1]
        tc = TauP_Create(path, name, verbose=verbose, **par)
        tc.loadVMod()
        tc.run()

    def load(self, name, way=0):
        if way % 2:
            from taupy.tau import TauPyModel
            return TauPyModel(name).model
        from taupy.TauModelLoader import load
        return load(name)

    def do(self, op, way):
        """-> model loaded (0: none, -1: refused), whether it went well"""
        o = op[0]
        if o == "create":
            return 0, attempt(self.create, op[1], self.name(op[2]),
                              way % 3 == 1)
        if o == "write":
            return 0, attempt(_ctx["models"][op[1] - 1].writeModel,
                              self.name(op[2]))
        if o in ("load", "copy"):
            m = attempt(self.load, self.name(op[1]), way)
            if isinstance(m, Raised):
                return -1, 0
            t = token(m)
            if o == "copy":
                attempt(m.writeModel, self.name(op[2]))
            return t, 0
        if o == "install":
            return 0, attempt(self.create, op[1], self.builtin(op[2]))
        if o == "remove":
            os.unlink(self.full(op[1]))
        elif o == "chdir":
            self.cwd = op[1]
            os.chdir(os.path.join(self.top, *op[1]))
        return 0, 0

    def content(self, path):
        """Which model is in this file?"""
        with open(path, "rb") as f:
            data = hashlib.sha1(f.read()).hexdigest()
        if data not in self.known:
            # An absolute path of a file that is there is that file.
            m = attempt(self.load, path)
            self.known[data] = 99 if isinstance(m, Raised) else token(m)
        return self.known[data]

    def listing(self):
        out = []
        stems = {os.path.basename(self.builtin(b)): b
                 for b in ("syn", "std")}
        for top, head in ((self.top, []), (self.package, ["package"])):
            for d, _, fs in sorted(os.walk(top)):
                rel = [] if d == top else os.path.relpath(d, top).split(os.sep)
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    if head:
                        f = stems.get(f, f)
                    out.append([head + rel + [f], self.content(p)])
        # The rest of the package must stay as it is.
        if package_files(core.REPO) != _ctx["package_files"]:
            out.append([["package", "..", "changed"], 99])
        return out


def package_files(repo):
    top = os.path.join(repo, "taupy")
    out = []
    for d, _, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            if not p.startswith(os.path.join(top, "data", "models")):
                out.append((os.path.relpath(p, top), os.path.getsize(p)))
    return sorted(out)


def package(top):
    """A copy of the package for this process alone: what it writes among its
    built-in models must not get into the repository."""
    shutil.copytree(os.path.join(REPO, "taupy"), os.path.join(
        top, "repo", "taupy"), ignore=shutil.ignore_patterns(
            "__pycache__", "tests", "models"))
    core.REPO = os.path.join(top, "repo")
    use_repo()


def sources(_):
    """The models of the histories, built in a process of its own."""
    top = tempfile.mkdtemp(prefix="store-", dir=scratch())
    package(top)
    ms = models.get(_ctx["specs"])
    # One that TauP_Create does not make.
    ms.append(ms[0].splitBranch(410.3))
    # Others whose files are as large as those of models that are there.
    for k, by in ((0, 0.5), (0, 0.75), (3, 0.25)):
        twin = copy.deepcopy(ms[k])
        twin.sMod.vMod.layers[0].topDensity += by
        ms.append(twin)
    out = [(pickle.dumps(m, protocol=-1), seen(m)) for m in ms]
    files = package_files(core.REPO)
    shutil.rmtree(top)
    return out, files


def history(ops):
    top = tempfile.mkdtemp(prefix="store-", dir=scratch())
    rec = {"ops": ops, "got": [], "done": [], "after": []}
    raised = {}
    try:
        package(top)
        _ctx["models"] = [pickle.loads(m) for m, _ in _ctx["built"]]
        t = Tree(os.path.join(top, "t"))
        os.chdir(os.path.join(top, "t", "w1"))
        for k, op in enumerate(ops):
            got, r = t.do(op, k)
            t.stamp()
            if isinstance(r, Raised):
                raised[k] = repr(r)
            rec["got"].append(got)
            rec["done"].append(0 if isinstance(r, Raised) else 1)
            rec["after"].append(t.listing())
    finally:
        os.chdir("/")
        shutil.rmtree(top)
    return rec, raised


def alone_history(ops):
    return c02.alone(history, ops)


def config(ops, emit, kinds, some, inv):
    return c02.config(dict(
        Built="{1, 2}" if some else "{1, 2, 3}", Others="{4, 5, 6, 7}", MaxOps=ops,
        Emit=str(emit).upper(), SomeNames=str(some).upper(),
        Kinds="{%s}" % ", ".join('"%s"' % k for k in kinds)), inv)


def main():
    c = Check("C05", "model_checking")
    inv = "INVARIANTS LastWritten NotThere Tree\n"
    res = tlc("FileStoreMC", config(
        4 if THOROUGH else 3, False, [k for k in KINDS if k[-1] != "2"],
        True, inv), workers=NPROC)
    c.ran(res)
    hists = []
    for ops, n, some in ((12, 70, False), (25, 20, False), (20, 30, True)):
        res = tlc("FileStoreMC", config(ops, True, KINDS, some,
                                        "INVARIANTS LastWritten Tree Out\n"),
                  workers=1, extra=["-simulate", "num=%d" % (
                      n * (6 if THOROUGH else 1)), "-depth", str(2 * ops + 2),
                      "-seed", str(SEED * 31 + ops)])
        c.ran(res)
        groups = {}
        for h in res.tuples("HIST"):
            groups.setdefault(repr(h[0][:-1]), []).append(h[0])
        hists += [c.rng.choice(g) for g in groups.values()]
    coarse = dict(models.COARSE)
    _ctx["specs"] = [("simple", coarse), ("lvz", coarse),
                     ("simple", dict(coarse, max_depth_interval=77.0))]
    _ctx["sources"] = [(models.path_of(nm), par) for nm, par in _ctx["specs"]]
    _ctx["built"], _ctx["package_files"] = c02.alone(sources, 0)
    _ctx["tokens"] = {d: k + 1 for k, (_, d) in enumerate(_ctx["built"])}
    if len(_ctx["tokens"]) != 7:
        raise RuntimeError("models that cannot be told apart")
    runs = pool_map(alone_history, hists)
    recs = [r for r, _ in runs]
    canaries = []
    for r in c.rng.sample(recs, 4):
        b = copy.deepcopy(r)
        k = c.rng.randrange(len(b["ops"]))
        b["after"][k][-1][1] = 7
        canaries.append((b, "contents"))
        b = copy.deepcopy(r)
        b["after"][k].append([["w1", "surplus"], 1])
        canaries.append((b, "files"))
        b = copy.deepcopy(r)
        for k, o in enumerate(b["ops"]):
            if o[0] in ("load", "copy"):
                b["got"][k] = 3 if b["got"][k] != 3 else 1
        canaries.append((b, "loaded"))
        b = copy.deepcopy(r)
        b["done"] = [0] * len(b["done"])
        canaries.append((b, "raised"))
    fails = run_records(c, "FileStoreTrace", recs, canaries=canaries,
                        any_of=True)
    for i, clauses in sorted(fails.items()):
        rec, raised = runs[i - 1]
        for clause in sorted(clauses):
            c.violation(clause, {"ops": rec["ops"], "got": rec["got"],
                                 "raised": raised,
                                 "after": rec["after"][-1]})
    c.count(histories=len(hists))
    c.sample({"history": hists[0]})
    c.assumptions = [
        "the operating system's files behave as the specification's",
        "a model is known by its fields and by the answers to %d queries"
        % len(QUERIES)]
    return c.finish()
