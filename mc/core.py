"""Explicit enumeration of executions (stateless model checking of the real
code) and breadth-first search over canonical states (for histories).

A *scope* is a bounded space.  Its body is a function of a `Choices` object;
every nondeterministic decision (which operation, which key, which octet to
corrupt, what the attacker substitutes, what the RNG returns, which thread runs
next) goes through `c.choose(label, options)`.  The explorer runs the body once
per path through the tree of choices until the tree is exhausted: there is no
sampling.  Each path drives the implementation in /repo and compares what it
does with the specification model in the body.
"""
from __future__ import annotations

import collections
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from mc.rng import RNG

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
HANG_S = 100 if TIER != "thorough" else 900
MAX_VIOL = 3


class Violation(Exception):
    """The property is broken on this execution.

    `sig` identifies the failing input / call site / history for the
    known-findings file."""

    def __init__(self, msg, sig=None):
        Exception.__init__(self, msg)
        self.msg = msg
        self.sig = sig or msg


class Prune(Exception):
    """This path is outside the scope (a meaningless combination)."""


class _Probe(Exception):
    pass


class HarnessError(Exception):
    """The machinery itself is at fault: exit 2, never a VIOLATION."""


class Choices(object):
    def __init__(self, prefix=(), stop_at=None):
        self.prefix = prefix
        self.trace = []      # (label, index, number of options)
        self.stop_at = stop_at
        self.outcome = None
        self.notes = []
        self.evals = 0

    def choose(self, label, options):
        n = len(options)
        if n == 0:
            raise Prune()
        d = len(self.trace)
        if d < len(self.prefix):
            i = self.prefix[d]
            if i >= n:
                raise HarnessError("nondeterministic replay at %r" % (label,))
        else:
            i = 0
        self.trace.append((label, i, n))
        if self.stop_at is not None and d + 1 >= self.stop_at:
            raise _Probe()      # before anything is executed for it
        return options[i]

    def flag(self, label):
        return self.choose(label, (False, True))

    def note(self, what):
        self.notes.append(what)

    def done(self, outcome):
        """The class of result, for the histogram in the evidence."""
        self.outcome = outcome

    def path(self):
        return [t[1] for t in self.trace]


def check(cond, msg, sig=None):
    if not cond:
        raise Violation(msg, sig)


class Scope(object):
    """split: number of leading choices used to distribute over processes."""

    def __init__(self, name, body, split=1, bounds="", init=None):
        self.name = name
        self.body = body
        self.split = split
        self.bounds = bounds
        self.init = init

    kind = "stateless"


class Result(object):
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.leaves = 0
        self.pruned = 0
        self.evals = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []    # dict(scope, choices, labels, msg, sig)
        self.errors = []
        self.known = collections.Counter()

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.leaves += o.leaves
        self.pruned += o.pruned
        self.evals += o.evals
        self.outcomes.update(o.outcomes)
        self.known.update(o.known)
        if len(self.samples) < 4:
            self.samples.extend(o.samples[:4 - len(self.samples)])
        self.violations.extend(o.violations)
        self.errors.extend(o.errors)


def _alarm(signum, frame):
    raise Violation("the execution does not terminate (%d s)" % HANG_S,
                    "hang")


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    with open(p) as f:
        return json.load(f)


_KNOWN = None


def known_sigs(prop):
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = known_findings()
    return {e["sig"]: e for e in _KNOWN["findings"] if e["property"] == prop}


def run_path(scope, prefix, stop_at=None):
    """One execution. -> (choices, error or None)"""
    c = Choices(tuple(prefix), stop_at)
    RNG.reset("%d|%s" % (SEED, scope.name))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG_S)
    try:
        try:
            scope.body(c)
        finally:
            signal.alarm(0)
    except (_Probe, Prune, HarnessError) as e:
        return c, e
    except Violation as e:
        return c, e
    except Exception as e:      # the code under test crashed where it mustn't
        tb = traceback.format_exc(limit=-6)
        return c, Violation("unexpected %s: %s\n%s" % (
            type(e).__name__, e, tb),
            "unexpected %s at %s" % (type(e).__name__, scope.name))
    return c, None


def describe(c):
    return ["%s#%d/%d" % t for t in c.trace]


def explore(scope, prop, prefix=()):
    """Exhaust the subtree below `prefix`."""
    res = Result()
    known = known_sigs(prop)
    base = len(prefix)
    cur = list(prefix)
    last = None
    while True:
        c, err = run_path(scope, cur)
        path = c.path()
        # nodes not shared with the previous path are new states
        common = 0
        if last is not None:
            for a, b in zip(last, path):
                if a != b:
                    break
                common += 1
            new = len(path) - common
        else:
            new = len(path) - base + 1
        res.states += new
        res.transitions += new      # one edge into each of them
        last = path
        if isinstance(err, HarnessError):
            res.errors.append("%s: %s" % (scope.name, err))
            return res
        if isinstance(err, Prune):
            res.pruned += 1
        else:
            res.leaves += 1
            res.evals += c.evals or 1
            if isinstance(err, Violation):
                if err.sig in known:
                    res.known[err.sig] += 1
                    res.outcomes["known-finding"] += 1
                else:
                    res.violations.append(dict(
                        scope=scope.name, choices=path, labels=describe(c),
                        notes=[str(n) for n in c.notes], msg=err.msg,
                        sig=err.sig))
                    if len(res.violations) >= MAX_VIOL:
                        return res
            else:
                res.outcomes[c.outcome or "ok"] += 1
                if len(res.samples) < 1:
                    res.samples.append(dict(
                        scope=scope.name, choices=describe(c),
                        notes=[str(n)[:300] for n in c.notes],
                        outcome=c.outcome or "ok"))
        # next path
        trace = c.trace
        d = len(trace) - 1
        while d >= base and trace[d][1] + 1 >= trace[d][2]:
            d -= 1
        if d < base:
            return res
        cur = [t[1] for t in trace[:d]] + [trace[d][1] + 1]


def prefixes(scope):
    """All prefixes of length scope.split (or shorter complete paths)."""
    out = []
    if scope.split == 0:
        return [()]
    cur = []
    while True:
        c, err = run_path(scope, cur, stop_at=scope.split)
        if isinstance(err, HarnessError):
            raise err
        out.append(tuple(c.path()))
        trace = c.trace
        d = len(trace) - 1
        while d >= 0 and trace[d][1] + 1 >= trace[d][2]:
            d -= 1
        if d < 0:
            return out
        cur = [t[1] for t in trace[:d]] + [trace[d][1] + 1]


_SCOPES = []
_PROP = None


def _work(job):
    si, prefix = job
    scope = _SCOPES[si]
    t0 = time.time()
    try:
        r = explore(scope, _PROP, prefix)
    except BaseException as e:
        r = Result()
        r.errors.append("%s: %s" % (scope.name, traceback.format_exc()))
    if "MC_PROFILE" in os.environ:
        sys.stderr.write("%8.2f %8.2f %s %s\n" % (
            t0 % 10000, time.time() - t0, scope.name, str(prefix)[:60]))
    return si, r


def run_scopes(prop, scopes, jobs=None):
    global _SCOPES, _PROP
    _SCOPES, _PROP = scopes, prop
    per = collections.OrderedDict((s.name, Result()) for s in scopes)
    if len(per) != len(scopes):
        raise HarnessError("duplicate scope names")
    jobs = jobs or int(os.environ.get("MC_JOBS", "0")) or \
        min(8, os.cpu_count() or 1)
    work = []
    extra = {}
    for i, s in enumerate(scopes):
        if s.init:
            s.init()
        t0 = time.time()
        for p in prefixes(s):
            work.append((i, p))
        if "MC_PROFILE" in os.environ:
            sys.stderr.write("PREFIX %8.2f %s\n" % (time.time() - t0,
                                                    s.name))
    # deterministic order, longest-looking first is not known: interleave
    t0 = time.time()
    ctx = multiprocessing.get_context("fork")
    nviol = 0
    if jobs == 1:
        it = map(_work, work)
        pool = None
    else:
        pool = ctx.Pool(jobs)
        it = pool.imap_unordered(_work, work, chunksize=1)
    try:
        for si, r in it:
            per[scopes[si].name].merge(r)
            nviol += len(r.violations)
            if nviol >= 10 or r.errors:
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    return per, extra, time.time() - t0
