"""C52: decisions do not depend on how the interpreter was started."""
import functools
import itertools
import json
import os
import subprocess
import sys

from mc.core import Scope, check, Prune, HarnessError, ROOT
from mc import battery

FLAGS = [(), ("-O",), ("-OO",), ("-b",),
         ("-X", "dev"), ("-X", "utf8=0"), ("-E", "-s")]
SEEDS = ["0", "1", "2", "7", "random"]
LOCALES = [{}, {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0"}]


@functools.lru_cache(None)
def outcomes(flags, seed, loc):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(("PYTHON", "LC_", "LANG"))}
    env.update(LOCALES[loc])
    env.update(PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE="1",
               PYTHONIOENCODING="utf-8",
               MC_REPO=os.environ.get("MC_REPO", "/repo"))
    p = subprocess.run(
        [sys.executable, "-B", "-X", "pycache_prefix=/nonexistent-pycache"] +
        list(flags) + ["-c", "import sys; sys.path.insert(0, %r); "
                       "import runpy; runpy.run_module('mc.battery', "
                       "run_name='__main__')" % ROOT],
        env=env, cwd=ROOT, capture_output=True, timeout=300)
    try:
        d = json.loads(p.stdout.decode("utf-8"))
    except ValueError:
        check(not p.returncode or not (flags or loc), "python %s, "
              "PYTHONHASHSEED=%s: %s" % (" ".join(flags), seed,
                                         p.stderr.decode()[-500:]))
        raise HarnessError("%r: %s" % (flags, p.stderr.decode()[-2000:]))
    if "-O" in flags or "-OO" in flags:
        if d["debug"]:
            raise HarnessError("not optimized")
    return d["out"]


@functools.lru_cache(None)
def expected():
    return battery.expected()


def decide(c, flags, seeds, locs):
    f = c.choose("flags", flags)
    s = c.choose("hash seed", seeds)
    l = c.choose("locale", locs)
    want = expected()
    case = c.choose("case", sorted(want))
    got = outcomes(f, s, l)[case]
    check(got[0] == want[case], "%s under python %s, PYTHONHASHSEED=%s: %s, "
          "not %s" % (case, " ".join(f), s, got[1][:300], want[case][:300]))
    c.done("rejected" if want[case] == "rejected" else "result")


def scopes(tier):
    n = len(expected())
    if tier == "thorough":
        return [Scope("configurations", lambda c: decide(
            c, FLAGS, SEEDS, [0, 1]), 3, "%d cases x 7 sets of flags x 5 hash "
            "seeds x 2 locales" % n)]
    return [
        Scope("flags", lambda c: decide(c, FLAGS, ["0"], [0]), 3,
              "%d cases x 7 sets of flags" % n),
        Scope("hash seeds", lambda c: decide(
            c, [(), ("-O",)], ["1", "2", "random"], [0]), 3,
              "%d cases x 3 hash seeds" % n),
        Scope("locale", lambda c: decide(c, [(), ("-X", "utf8=0")], ["0"],
                                         [1]), 3,
              "%d cases in the C locale" % n),
    ]
