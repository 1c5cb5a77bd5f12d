"""Validates planted bugs: python3 tools/seed.py [--no-check] [ID ...]

Each runs in a scratch copy of /repo: the patch applies, changes an original
line, the stable tests pass with it, demo.sh exits 0 without and nonzero with
it; then the property's quick check is run against the patched copy.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
ORIG = "4e8a077844c7639117042c9593fc23fc6a05a301"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=1000):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return p.returncode, (p.stdout + p.stderr).decode("utf-8", "replace")


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests", "pass"):
        if k in b:
            v = b[k]
            return set(v if isinstance(v, list) else
                       [t for t, s in v.items() if s in ("passed", "pass", True)])
    raise SystemExit(list(b))


def tests(copy):
    x = os.path.join(copy, "junit.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--junitxml=" + x,
        "-o", "junit_family=xunit2", "tests"], copy,
       {"PYTHONPATH": os.path.join(copy, "src"), "PYTHONHASHSEED": "0"})
    res = {}
    for tc in ET.parse(x).getroot().iter("testcase"):
        ok = not any(c.tag in ("failure", "error", "skipped") for c in tc)
        res[(tc.get("classname"), tc.get("name"))] = ok
    os.unlink(x)
    return res


BASE = None


def original_line(diff):
    """Is one of the lines the patch removes an original one?"""
    f, ln, found = None, 0, False
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m:
            ln = int(m.group(1)) - 1
            continue
        if l.startswith("-") and not l.startswith("---"):
            ln += 1
            rc, out = sh(["git", "blame", "-s", "-L%d,%d" % (ln, ln),
                          ORIG + "..HEAD", "--", f], "/repo")
            if out.startswith("^"):
                found = True
        elif l.startswith(" "):
            ln += 1
    return found


def validate(i, check=True):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    diff = open(os.path.join(d, "patch.diff")).read()
    w = tempfile.mkdtemp(prefix="seed-")
    copy = os.path.join(w, "r")
    try:
        shutil.copytree("/repo", copy, symlinks=True,
                        ignore=shutil.ignore_patterns(".git", "__pycache__"))
        dd = os.path.join(w, "d")
        shutil.copytree(d, dd, ignore=shutil.ignore_patterns(
            "*.diff", "meta.json"))
        env = {"PYTHONPATH": os.path.join(copy, "src")}
        if "--any" not in sys.argv and not original_line(diff):
            return i, "BAD: no original line"
        rc, out = sh(["bash", os.path.join(dd, "demo.sh")], copy, env, 300)
        if rc:
            return i, "BAD: demo fails without: " + out[-600:]
        rc, out = sh(["git", "apply", "--unsafe-paths", "--directory=" + copy,
                      os.path.join(d, "patch.diff")], "/")
        if rc:
            rc, out = sh(["patch", "-p1", "-s", "-i",
                          os.path.join(d, "patch.diff")], copy)
        if rc:
            return i, "BAD: does not apply " + out
        rc, out = sh(["bash", os.path.join(dd, "demo.sh")], copy, env, 300)
        if not rc:
            return i, "BAD: demo passes with the patch"
        r = tests(copy)
        lost = [t for t, ok in BASE.items() if ok and not r.get(t)]
        if lost:
            return i, "BAD: tests fail: %s" % lost[:3]
        if not check:
            return i, "valid (%s)" % meta["property"]
        rc, out = sh(["./check.sh", meta["property"], "quick"], ROOT,
                     {"MC_REPO": copy, "VERIF_TIER": "quick",
                      "VERIF_SEED": "1"}, 900)
        v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
        if rc == 1 and v:
            return i, "caught by %s: %s" % (meta["property"], v[0][:60])
        return i, "MISSED by %s (rc %s) %s" % (meta["property"], rc,
                                               out[-300:] if rc else "")
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    global BASE
    a = sys.argv[1:]
    check = "--no-check" not in a
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(SEEDED))
    w = tempfile.mkdtemp(prefix="seed-")
    shutil.copytree("/repo", w + "/r", symlinks=True,
                    ignore=shutil.ignore_patterns(".git", "__pycache__"))
    BASE = tests(w + "/r")
    shutil.rmtree(w)
    with ThreadPoolExecutor(3 if check else 6) as ex:
        for i, r in ex.map(lambda i: validate(i, check), ids):
            print(i, r, flush=True)


if __name__ == "__main__":
    main()
