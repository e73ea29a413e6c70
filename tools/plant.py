#!/usr/bin/env python3
"""Confirm planted bugs: plant.py confirm ID... | plant.py check ID[:PROP]...

confirm: in a scratch copy of /repo, the patch applies, builds, passes the
stable tests, and the demonstration fails with it and passes without it.
check: run the quick check of the bug's property (or PROP) against the copy.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return p.returncode, p.stdout.decode("utf-8", "replace")


def copy():
    d = tempfile.mkdtemp(prefix="plant-")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    os.mkdir(d + "/vp")
    for f in ("build.sh", "test.sh", "results.py"):
        t = open("/opt/vp/" + f).read()
        t = t.replace("/repo", d + "/repo").replace("/opt/vp", d + "/vp")
        open(d + "/vp/" + f, "w").write(t)
    return d


def demo(d, bug):
    return sh(["bash", os.path.join(SEEDED, bug, "demo.sh")], cwd=d + "/repo",
              timeout=300)


def confirm(bug):
    d = copy()
    try:
        rc, out = demo(d, bug)
        if rc:
            return "demo fails on the unchanged tree: " + out[-600:]
        rc, out = sh(["git", "apply", os.path.join(SEEDED, bug, "patch.diff")],
                     cwd=d + "/repo")
        if rc:
            return "does not apply: " + out
        rc, out = sh(["bash", d + "/vp/test.sh", d + "/out.json"])
        res = json.load(open(d + "/out.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        text = json.dumps(res)
        passed = res.get("passed", res)
        bad = [t for t in stable if t not in passed] if isinstance(
            passed, list) else [t for t in stable if passed.get(t) not in (
                "passed", "pass", True)]
        if bad:
            return "tests fail: %s\n%s" % (bad, text[:300])
        rc, out = demo(d, bug)
        if rc == 0:
            return "demo passes with the patch"
        return "ok (demo: %s)" % out.strip().split("\n")[-1][:150]
    finally:
        shutil.rmtree(d)


def check(bug, prop=None):
    meta = json.load(open(os.path.join(SEEDED, bug, "meta.json")))
    prop = prop or meta["property"]
    d = copy()
    try:
        rc, out = sh(["git", "apply", os.path.join(SEEDED, bug, "patch.diff")],
                     cwd=d + "/repo")
        if rc:
            return "does not apply: " + out
        rc, out = sh([os.path.join(HERE, "check"), prop], cwd=HERE, env={
            "VERIF_REPO": d + "/repo"})
        return "rc %d %s" % (rc, out.strip()[-900:])
    finally:
        shutil.rmtree(d)


def main():
    for b in sys.argv[2:]:
        bug, _, prop = b.partition(":")
        if sys.argv[1] == "confirm":
            print(bug, confirm(bug), flush=True)
        else:
            print(bug, check(bug, prop or None), flush=True)


main()
