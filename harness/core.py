"""
Shared machinery of the checks: scratch space, the code under test, earth
models, the TLC runner, verdicts and evidence.

Nothing here decides a property.  The deciding step is always TLC evaluating a
specification in /verif/spec against what was recorded from the real code (or
enumerating behaviours which are then replayed into the real code).
"""
import atexit
import contextlib
import fractions
import hashlib
import io
import json
import math
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA_JARS = ("/opt/veriftools/tla/tla2tools.jar:"
            "/opt/veriftools/tla/CommunityModules-deps.jar")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NPROC = 8
LIMIT = 60.0      # seconds for one call of the code under test

_scratch = None


def scratch():
    """A private directory, removed when the check ends."""
    global _scratch
    if _scratch is None:
        owner = os.getpid()
        _scratch = tempfile.mkdtemp(prefix="taupy-verif-")

        def cleanup():
            if os.getpid() == owner:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(cleanup)
    return _scratch


def use_repo():
    """Make `import taupy` take the code of /repo's working tree."""
    sys.dont_write_bytecode = True
    # Never read a stale .pyc, never write one into the repository.
    sys.pycache_prefix = os.path.join(scratch(), "no-pycache")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import taupy
    real = os.path.realpath(os.path.dirname(taupy.__file__))
    if real != os.path.realpath(os.path.join(REPO, "taupy")):
        raise RuntimeError("imported taupy from " + real)


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out


class Raised(object):
    """An exception that came out of the code under test."""

    def __init__(self, exc):
        self.kind = type(exc).__name__
        self.text = str(exc)[:200]
        tb = traceback.extract_tb(exc.__traceback__)
        self.where = "%s:%s" % (os.path.basename(tb[-1].filename),
                                tb[-1].name) if tb else "?"

    def __repr__(self):
        return "%s(%s) in %s" % (self.kind, self.text, self.where)


class TookTooLong(Exception):
    pass


def _alarm(signum, frame):
    raise TookTooLong("no answer in time")


def attempt(fn, *args, limit=LIMIT, **kw):
    """Call the code under test; an exception is a result like any other, and
    so is no answer within the limit."""
    try:
        with quiet():
            old = signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, limit)
            try:
                return fn(*args, **kw)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:      # SystemExit included: a library must not
        return Raised(e)


class CodeFailed(Exception):
    """The code under test failed at something it must be able to do."""


# --------------------------------------------------------------------------
# fixed point

# One unit of distance is 1e-8 rad (2**31 units: 21.4 rad), one unit of time
# 1e-5 s (21474 s), one unit of ray parameter 1e-5 s/rad, of depth 1e-5 km.
I32 = 2 ** 31 - 1
DIST, TIME, RAYP, DEPTH = 1e8, 1e5, 1e5, 1e5


def fix(x, scale):
    """x as an integer number of units, clamped into TLC's integers."""
    if x != x:
        return -I32
    v = x * scale
    if v >= I32:
        return I32
    if v <= -I32:
        return -I32
    return int(round(v))


def wide(x, scale):
    """x >= 0 in units of 1/scale, for spec/Wide.tla.  What is no such number
    becomes an absurdly large one, which no clause accepts."""
    x = float(x)
    if -1e-9 < x < 0:               # rounding
        x = 0.0
    if x != x or x < 0 or x == math.inf:
        return [9999] * 10
    n = round(fractions.Fraction(x) * scale)
    out = []
    while n:
        n, d = divmod(n, 10000)
        out.append(d)
    return out[:24]


class Ranks(object):
    """Order-exact abstraction of floats: equal floats get equal ranks."""

    def __init__(self, values):
        self.values = sorted(set(float(v) for v in values))
        self.index = {v: i + 1 for i, v in enumerate(self.values)}

    def __call__(self, v):
        return self.index[float(v)]

    def double(self, v):
        """Twice the rank, and odd between two values."""
        import bisect
        k = self.index.get(float(v))
        return 2 * k if k else 2 * bisect.bisect(self.values, float(v)) + 1


# --------------------------------------------------------------------------
# TLC

class TLCError(Exception):
    pass


class TLCResult(object):
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found",
                       out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) \
            if m else (0, 0)
        self.prints = [ln for ln in out.splitlines()]

    def tuples(self, tag):
        """The tuples printed by PrintT(<<"tag", ...>>), as lists."""
        res = []
        for m in re.finditer(r'<<\s*"%s"((?:[^<>]|<<|>>)*?)>>\s*$' % tag,
                             self.out, re.M):
            res.append(parse_tla("<<\"%s\"%s>>" % (tag, m.group(1)))[1:])
        return res


def parse_tla(text):
    """Parse a printed TLA+ value made of tuples, sets, strings, integers and
    booleans."""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(text) and text[pos] in " \n\t\r":
            pos += 1

    def val():
        nonlocal pos
        ws()
        if text.startswith("<<", pos):
            pos += 2
            return seq(">>")
        if text[pos] == "{":
            pos += 1
            return seq("}")
        if text[pos] == '"':
            end = pos + 1
            while text[end] != '"':
                end += 2 if text[end] == "\\" else 1
            s = text[pos + 1:end]
            pos = end + 1
            return s
        m = re.compile(r"-?\d+|TRUE|FALSE").match(text, pos)
        if not m:
            raise TLCError("cannot parse %r" % text[pos:pos + 40])
        pos = m.end()
        t = m.group(0)
        return {"TRUE": True, "FALSE": False}.get(t) if t in (
            "TRUE", "FALSE") else int(t)

    def seq(close):
        nonlocal pos
        items = []
        ws()
        while not text.startswith(close, pos):
            items.append(val())
            ws()
            if text[pos] == ",":
                pos += 1
                ws()
        pos += len(close)
        return items
    return val()


_run_count = 0


def tlc(module, cfg, env=None, workers=4, heap="3g", timeout=800, extra=(),
        ok_codes=(0,)):
    """Run TLC on /verif/spec/<module>.tla with the given configuration file
    (a name in /verif/spec, or the text of one)."""
    global _run_count
    _run_count += 1
    work = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            os.symlink(os.path.join(SPEC, f), os.path.join(work, f))
    if "\n" in cfg:
        with open(os.path.join(work, "run.cfg"), "w") as f:
            f.write(cfg)
        cfg = "run.cfg"
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + work, "-cp", TLA_JARS, "tlc2.TLC",
           "-workers", str(workers), "-deadlock", "-metadir",
           os.path.join(work, "states"), "-noGenerateSpecTE",
           "-config", cfg] + list(extra) + [module]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TLCError("TLC timed out on %s after %d s" % (module, timeout))
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode not in ok_codes:
        raise TLCError("TLC failed on %s/%s (rc %d):\n%s" % (
            module, cfg, p.returncode, out[-4000:]))
    res = TLCResult(out, p.returncode, time.time() - t0)
    shutil.rmtree(work, ignore_errors=True)
    return res


def check_ints(obj, path="$"):
    """TLC mangles integers outside 32 bits and knows no floats."""
    if isinstance(obj, bool) or isinstance(obj, str):
        return
    if isinstance(obj, int):
        if not -I32 <= obj <= I32:
            raise ValueError("integer out of range at %s: %r" % (path, obj))
    elif isinstance(obj, dict):
        for k, v in obj.items():
            check_ints(v, path + "." + k)
    elif isinstance(obj, (list, tuple)):
        for i, v in enumerate(obj):
            check_ints(v, "%s[%d]" % (path, i))
    else:
        raise ValueError("not for TLC at %s: %r" % (path, obj))


def write_json(name, obj):
    check_ints(obj)
    path = os.path.join(scratch(), name)
    with open(path, "w") as f:
        json.dump(obj, f)
    return path


# --------------------------------------------------------------------------
# earth models

def tvel_path(name):
    return os.path.join(REPO, "taupy", "data", name + ".tvel")


def build(path, **params):
    """A tau model built by the code under test from a .tvel file."""
    from taupy.TauP_Create import TauP_Create
    with quiet():
        tc = TauP_Create(path, os.path.join(scratch(), "unused"), **params)
        return tc.createTauModel(tc.loadVMod())


def _build_job(job):
    use_repo()
    import pickle
    path, params = job
    r = attempt(build, path, limit=180.0, **params)
    if isinstance(r, Raised):
        return r
    return pickle.dumps(r, protocol=-1)


def pool_map(fn, jobs, nproc=NPROC):
    """Map in forked workers, in order."""
    import multiprocessing
    jobs = list(jobs)
    if len(jobs) <= 1 or nproc <= 1:
        return [fn(j) for j in jobs]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(nproc, len(jobs))) as p:
        return p.map(fn, jobs, chunksize=1)


def build_many(jobs, strict=False):
    """jobs: list of (path, params).  Built in parallel."""
    import pickle
    out = pool_map(_build_job, jobs)
    for (path, params), o in zip(jobs, out):
        if isinstance(o, Raised) and strict:
            raise CodeFailed("building %s: %r" % (os.path.basename(path), o))
    return [o if isinstance(o, Raised) else pickle.loads(o) for o in out]


# --------------------------------------------------------------------------
# verdicts

class Check(object):
    """One run of the check of one property."""

    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.violations = []
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.rng = random.Random(SEED)

    def ran(self, res, traces=0):
        self.cov["states"] += res.distinct
        self.cov["transitions"] += max(res.generated, res.distinct)
        self.cov["traces_validated_against_impl"] += traces

    def note(self, **kw):
        self.cov.update(kw)

    def count(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def violation(self, what, case):
        """what: the failing clause; case: how to see it."""
        self.violations.append((what, case))

    def finish(self):
        known = []
        fresh = []
        for what, case in self.violations:
            k = known_finding(self.prop, what, case)
            (known if k else fresh).append((what, case, k))
        for k in sorted({k for _, _, k in known}):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if _problems:
            # (records of broken code cannot be made into canaries)
            if not fresh:
                raise TLCError("; ".join(_problems))
            self.note(canaries_missed=list(_problems))
        ev = {"property": self.prop, "tier": TIER if TIER in (
            "quick", "thorough") else "quick", "seed": SEED,
            "level": self.level, "coverage": self.cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if not fresh:
            print("OK property=%s states=%d traces=%d wall=%.1fs" % (
                self.prop, self.cov["states"],
                self.cov["traces_validated_against_impl"],
                time.time() - self.t0))
            return 0
        rdir = os.path.join(VERIF, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, self.prop + ".json")
        with open(path, "w") as f:
            json.dump([{"clause": w, "case": c} for w, c, _ in fresh[:200]],
                      f, indent=1, default=str)
        seen = {}
        for what, case, _ in fresh:
            seen.setdefault(what, []).append(case)
        for what in sorted(seen):
            print("  clause %s: %d case(s), e.g. %s" % (
                what, len(seen[what]),
                json.dumps(seen[what][0], default=str)[:600]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def load_known():
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                m = re.match(r"known: property=(\S+) clause=(\S+) "
                             r"match=(\S+) (.*)", line)
                if m:
                    res.append(m.groups())
    return res


def known_finding(prop, what, case):
    text = json.dumps(case, default=str)
    for p, clause, match, desc in load_known():
        if p == prop and clause == what and match in text:
            return desc
    return None


_problems = []


class canaries_made(object):
    """Makes canaries out of good records, in a with statement or as a
    decorator.  Where the code under test is so wrong that there are none to
    make them of, the run only counts if it finds that."""

    def __enter__(self):
        return self

    def __exit__(self, kind, e, _):
        if kind and issubclass(kind, (StopIteration, LookupError, ValueError,
                                      TypeError, ArithmeticError)):
            _problems.append("making canaries: %r" % e)
            return True

    def __call__(self, fn):
        def tried(*args, **kw):
            got = []
            with canaries_made():
                got = fn(*args, **kw)
            return got
        return tried


def run_records(check, module, records, env=None, canaries=(), chunk=None,
                workers=None, heap="4g", timeout=800, data=None,
                on_result=None, any_of=False, consts=None):
    """
    Validate records against the trace specification `module`.

    The module reads IOEnv.TRACE (a JSON object {"recs": [...], ...}), has one
    behaviour per record and prints <<"FAIL", record number, clause>> for every
    clause of the specification that a record does not satisfy.  `canaries` are
    (record, clause) pairs of deliberately wrong records: the specification
    must reject each with that clause (at least one of those of a clause, if
    any_of), or the run is worth nothing.
    """
    recs = list(records) + [c[0] for c in canaries]
    if not records:
        raise RuntimeError("no records for " + module)
    obj = dict(data or {})
    obj["recs"] = recs
    path = write_json("%s-%d.json" % (module, random.getrandbits(40)), obj)
    cfg = "SPECIFICATION TraceSpec\n"
    if consts:
        cfg += "CONSTANTS\n" + "".join(
            "  %s %s%s\n" % (k, "" if str(v).startswith("<-") else "= ", v)
            for k, v in consts.items())
    e = {"TRACE": path}
    e.update(env or {})
    res = tlc(module, cfg, env=e, workers=workers or NPROC, heap=heap,
              timeout=timeout)
    os.unlink(path)
    if res.distinct < 2 * len(recs):
        raise TLCError("TLC looked at %d states for %d records of %s:\n%s" % (
            res.distinct, len(recs), module, res.out[-3000:]))
    fails = {}
    for t in res.tuples("FAIL"):
        fails.setdefault(t[0], set()).add(t[1])
    caught, missed = set(), {}
    for j, (_, clause) in enumerate(canaries):
        got = fails.pop(len(records) + j + 1, set())
        if clause in got:
            caught.add(clause)
        else:
            missed[clause] = sorted(got)
    for clause in missed:
        if not any_of or clause not in caught:
            _problems.append("%s accepted a corrupted record (%s; got %s)" % (
                module, clause, missed[clause]))
    check.ran(res, len(records))
    if on_result:
        on_result(res)
    verdicts = check.cov.setdefault("verdicts", {})
    for m in re.finditer(r'^<<"V", "([^"]*)">>$', res.out, re.M):
        verdicts[m.group(1)] = verdicts.get(m.group(1), 0) + 1
    check.count(canaries_rejected=len(canaries))
    return fails
