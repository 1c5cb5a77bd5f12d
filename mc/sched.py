"""A controlled scheduler for threads that run the real code.

Two real threads run one operation each under `sys.settrace`.  Only one of them
runs at a time; at every *scheduling point* (before a source line of jwkest in a
frame that can reach shared state) the scheduler may hand over to the other.
A schedule is the list of scheduling points at which the running thread is
preempted: [] is "first thread, then second", [k] is "first thread up to its
k-th point, the second completely, the rest of the first", [k, j] also
preempts the second at its j-th point, and so on.

Partial-order reduction.  At every point the *shared state* (everything
reachable from jwkest's modules and classes and from the objects the threads
share) is fingerprinted, so that the writes of each thread are known.  Two
preemption points of a thread are equivalent if the thread wrote nothing
between them and the other thread writes nothing; `explore_pair` runs one
representative of each class.  A frame none of whose variables, globals or
closure reaches shared mutable state (the integer arithmetic of elliptic.py,
for example) has no scheduling points.
"""
import dis
import os
import sys
import threading
import time
import types

from mc.core import Violation, HarnessError

BLOCK_S = 0.02      # how often to look whether a thread is blocked
BLOCKED = 6         # so many looks in a row: it is

_IMMUTABLE = (int, str, bytes, float, complex, type(None), bool,
              types.BuiltinFunctionType, types.BuiltinMethodType,
              types.CodeType, type(Ellipsis), type(NotImplemented), range,
              types.MethodDescriptorType, types.WrapperDescriptorType,
              types.GetSetDescriptorType, types.MemberDescriptorType)


def _leaf_ok(v):
    """not walked, but known not to carry state that operations share"""
    m = type(v).__module__ or ""
    n = type(v).__name__
    if m.split(".")[0] in ("logging", "re", "_thread", "threading", "enum",
                           "functools", "abc", "typing", "datetime"):
        return True
    if m.startswith("Cryptodome.Math") or "PublicKey" in m:
        return True
    if n in ("SystemRandom", "Random", "Pattern", "module", "type", "_lru_cache_wrapper",
             "property", "classmethod", "staticmethod", "wrapper_descriptor",
             "ABCMeta", "EnumType", "SafeConfigParser", "struct", "Struct",
             "mappingproxy", "weakref", "ReferenceType", "_Feature"):
        return True
    if n in ("generator", "list_iterator", "BytesIO", "StringIO"):
        return False
    if m.startswith(("Cryptodome.Hash", "Cryptodome.Cipher", "hmac",
                     "_hashlib", "zlib", "hashlib", "_sha", "_md5",
                     "random", "_random", "itertools")):
        return False
    return True


def _is_ours(m):
    return bool(m) and m.split(".")[0] == "jwkest"


ANY = ("*", None)
_DYNAMIC = {"__dict__", "getattr", "vars", "dir", "setattr", "hasattr",
            "copy", "deepcopy", "dumps", "__getattribute__", "attrgetter",
            "__reduce__", "__getstate__"}


class NeedFull(Exception):
    """something was written to a module, class or function: look at these
    at every scheduling point, too"""


class Shared(object):
    """The mutable containers reachable from the roots."""

    full = False

    def __init__(self, roots):
        self.roots = [vars(r) for r in roots]
        self.walk()

    def walk(self):
        self.conts = []         # (object, kind, path)
        self.ids = set()        # of mutable objects, other than classes
        self.cls = set()
        self.opaque = {}
        seen = set()
        stack = [(r, "shared%d" % i) for i, r in enumerate(self.roots)]
        for name, m in sorted(sys.modules.items()):
            if _is_ours(name) and m is not None:
                stack.append((m, name))
        self.keep = []
        while stack:
            o, path = stack.pop()
            if isinstance(o, _IMMUTABLE) or id(o) in seen:
                continue
            seen.add(id(o))
            self.keep.append(o)

            def add(vals, sep="."):
                for i, v in enumerate(vals):
                    stack.append((v, "%s%s%d" % (path, sep, i)))

            def attrs(d):
                for k, v in d.items():
                    if k != "__builtins__":
                        stack.append((v, "%s.%s" % (path, k)))
            if isinstance(o, types.ModuleType):
                if _is_ours(o.__name__):
                    self.conts.append((vars(o), "dict", path))
                    attrs(vars(o))
            elif isinstance(o, type):
                if _is_ours(o.__module__):
                    self.conts.append((o, "class", path))
                    self.cls.add(id(o))
                    attrs(vars(o))
                    add(o.__mro__, "<")
            elif isinstance(o, dict):
                self.ids.add(id(o))
                self.conts.append((o, "dict", path))
                add(o.values(), "[")
                add(o.keys(), "]")
                if type(o) is not dict and hasattr(o, "__dict__"):
                    self.conts.append((o, "inst", path))
                    attrs(vars(o))
            elif isinstance(o, (list, set)) or \
                    type(o).__name__ in ("deque", "bytearray"):
                self.ids.add(id(o))
                self.conts.append((o, "seq", path))
                add(o, "[")
            elif isinstance(o, (tuple, frozenset)):
                add(o, "[")
            elif isinstance(o, types.FunctionType):
                if _is_ours(o.__module__):
                    self.conts.append((o, "inst", path))
                    add(o.__defaults__ or (), "=")
                    add((o.__kwdefaults__ or {}).values(), "==")
                    for i, c in enumerate(o.__closure__ or ()):
                        self.conts.append((c, "cell", "%s^%d" % (path, i)))
                        try:
                            add([c.cell_contents], "^%d" % i)
                        except ValueError:
                            pass
                    attrs(vars(o))
            elif isinstance(o, types.MethodType):
                add([o.__self__, o.__func__], "()")
            elif isinstance(o, (property, classmethod, staticmethod)):
                add([x for x in (
                    getattr(o, "fget", None), getattr(o, "fset", None),
                    getattr(o, "__func__", None)) if x is not None], "@")
            elif hasattr(o, "__dict__") and (
                    _is_ours(type(o).__module__) or
                    "PublicKey" in type(o).__module__):
                self.ids.add(id(o))
                self.conts.append((o, "inst", path))
                attrs(vars(o))
                add([type(o)], ":")
            elif not _leaf_ok(o):
                # its state can't be seen: a line that can reach it counts
                # as writing it
                self.ids.add(id(o))
                self.opaque[id(o)] = path
        # modules, classes and functions are looked at in the end, and only
        # if they changed at every point
        mods = set(id(vars(m)) for m in sys.modules.values()
                   if isinstance(m, types.ModuleType))
        light = [x for x in self.conts if not (
            x[1] in ("class", "cell") or id(x[0]) in mods or
            isinstance(x[0], types.FunctionType))]
        ids = set(map(id, light))
        self.heavy = [x for x in self.conts if id(x) not in ids]
        self.light = self.conts if self.full else light
        self.fp = self.quick(self.light)
        self.fph = self.quick(self.heavy)
        self.snap = {}
        for x in self.conts:
            if x[1] in ("inst", "class"):
                v = {k: id(y) for k, y in vars(x[0]).items()}
            else:
                v = self.quick([x])
            self.snap[x[2]] = (id(x[0]), x[1], v)
        for i, path in self.opaque.items():
            self.snap[path] = (i, "opaque", None)

    def diff(self, old):
        """(path, attribute or None) of what changed"""
        out = set()
        for p, (i, kind, v) in self.snap.items():
            if p not in old or old[p][1] != kind:
                continue
            w = old[p][2]
            if v == w:
                continue
            if kind in ("inst", "class"):
                out.update((p, k) for k in set(v) | set(w)
                           if v.get(k) != w.get(k))
            else:
                out.add((p, None))
        return out

    def quick(self, conts):
        out = []
        ext = out.extend
        for o, kind, _ in conts:
            if kind == "dict":
                ext(map(id, o.values()))
                out.append(len(o))
            elif kind == "seq":
                ext(map(id, o))
                out.append(len(o))
            elif kind == "cell":
                try:
                    out.append(id(o.cell_contents))
                except ValueError:
                    out.append(0)
            else:
                d = vars(o)
                ext(map(id, d.values()))
                out.append(len(d))
        return out

    def changed(self):
        """what was written since the last time"""
        if self.quick(self.light) != self.fp:
            self.look_heavy()
            old = self.snap
            self.walk()
            return self.diff(old) or {ANY}
        return ()

    def look_heavy(self):
        if not self.full and self.quick(self.heavy) != self.fph:
            Shared.full = True
            raise NeedFull()

    def save(self):
        out = []
        for o, kind, _ in self.conts:
            if kind == "dict" or kind == "inst" or kind == "class":
                d = o if kind == "dict" else vars(o)
                out.append((o, kind, dict(d)))
            elif kind == "seq":
                out.append((o, kind, list(o)))
            else:
                try:
                    out.append((o, kind, o.cell_contents))
                except ValueError:
                    pass
        return out


def restore(saved):
    for o, kind, v in saved:
        if kind == "dict":
            if len(o) != len(v) or any(
                    o.get(k, saved) is not x for k, x in v.items()):
                o.clear()
                o.update(v)
        elif kind == "inst":
            d = vars(o)
            if len(d) != len(v) or any(
                    d.get(k, saved) is not x for k, x in v.items()):
                d.clear()
                d.update(v)
        elif kind == "class":
            d = vars(o)
            for k in list(d):
                if k not in v:
                    delattr(o, k)
            for k, x in v.items():
                if d.get(k, saved) is not x:
                    setattr(o, k, x)
        elif kind == "seq":
            if list(o) != v:
                if isinstance(o, (list, bytearray)):
                    o[:] = v
                else:
                    o.clear()
                    (o.update if isinstance(o, set) else o.extend)(v)
        else:
            if o.cell_contents is not v:
                o.cell_contents = v


_CODE = {}


def _code_open(code, glob, shared):
    """can the code reach shared mutable state without its arguments?"""
    key = (code, id(shared))
    r = _CODE.get(code)
    if r is None:
        r = False
        if code.co_freevars:
            r = True
        stores = False
        for i in dis.get_instructions(code):
            if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                r = True
            if i.opname in ("STORE_ATTR", "DELETE_ATTR"):
                stores = True
            if i.opname in ("LOAD_GLOBAL", "LOAD_NAME") and \
                    i.argval in ("globals", "setattr", "vars", "delattr"):
                r = True
        _CODE[code] = r = (r, stores)
    if r[0]:
        return True
    for n in code.co_names:
        if n == "__class__":
            return True
        v = glob.get(n)
        if v is None or isinstance(v, _IMMUTABLE):
            continue
        if id(v) in shared.ids:
            return True
        if r[1] and id(v) in shared.cls:
            return True
    return False


_LINES = {}


def _names(code, lineno):
    """attributes and globals that the source line uses"""
    t = _LINES.get(code)
    if t is None:
        t = _LINES[code] = {}
        for i in dis.get_instructions(code):
            if i.positions and i.positions.lineno and isinstance(
                    i.argval, str):
                for n in range(i.positions.lineno,
                               (i.positions.end_lineno or 0) + 1):
                    t.setdefault(n, set()).add(i.argval)
    return t.get(lineno, ())


def _reaches(v, shared, memo, target=None):
    stack = [v]
    target = shared.ids if target is None else target
    seen = set()
    n = 0
    while stack:
        o = stack.pop()
        if isinstance(o, _IMMUTABLE) or id(o) in seen:
            continue
        if id(o) in target:
            return True
        if id(o) in memo:
            continue
        seen.add(id(o))
        n += 1
        if n > 400:
            return True
        if isinstance(o, (list, tuple, set, frozenset)):
            if len(o) > 400:
                return True
            stack.extend(o)
        elif isinstance(o, dict):
            if len(o) > 400:
                return True
            stack.extend(o.values())
        elif isinstance(o, types.MethodType):
            stack.append(o.__self__)
        elif isinstance(o, types.FunctionType):
            if o.__closure__:
                return True
        elif isinstance(o, type):
            # a class: its own mutable attributes
            if id(o) in shared.cls and any(
                    id(x) in target for c in o.__mro__
                    for x in vars(c).values()):
                return True
        elif hasattr(o, "__dict__"):
            stack.extend(vars(o).values())
            stack.append(type(o))
    return False


class _Thread(object):
    def __init__(self, sched, i, fn):
        self.sched = sched
        self.i = i
        self.fn = fn
        self.n = 0              # scheduling points passed
        self.writes = []        # points before which this thread had written
        self.wrote = set()      # what
        self.maybe = ()
        self.rel = []           # points before lines that may depend on that
        self.stop = None
        self.go = threading.Semaphore(0)
        self.done = False
        self.result = None
        self.beat = 0
        self.memo = {}

    def main(self):
        self.go.acquire()
        sys.settrace(self.glob)
        try:
            self.result = self.fn()
        except BaseException as e:
            self.result = ("raised", type(e).__name__, str(e)[:200])
        finally:
            sys.settrace(None)
        try:
            self.look()
            self.sched.shared.look_heavy()
        except NeedFull:
            self.sched.needfull = True
        self.done = True
        self.sched.ctl.release()

    def look(self):
        try:
            if not self.sched.free:
                w = self.sched.shared.changed()
                if w:
                    self.writes.append(self.n)
                    self.wrote |= w
        except NeedFull:
            self.sched.needfull = True

    def glob(self, frame, event, arg):
        self.beat += 1
        if not _is_ours(frame.f_globals.get("__name__")):
            return None
        sh = self.sched.shared
        code = frame.f_code
        if not _code_open(code, frame.f_globals, sh):
            memo = self.memo
            for v in frame.f_locals.values():
                if isinstance(v, _IMMUTABLE):
                    continue
                if _reaches(v, sh, memo):
                    break
            else:
                return None     # closed
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.point(frame)
        elif event == "return":
            # what a function returns can open the frame it returns to
            if arg is not None and id(arg) in self.sched.shared.ids:
                b = frame.f_back
                if b is not None and b.f_trace is None and _is_ours(
                        b.f_globals.get("__name__")):
                    b.f_trace = self.line
        return self.line

    def relevant(self, frame):
        watch, sh = self.sched.watch, self.sched.shared
        if not watch:
            return False
        if ANY in watch:
            return True
        names = _names(frame.f_code, frame.f_lineno)
        if any(a in names for p, a in watch if a) or \
                not _DYNAMIC.isdisjoint(names):
            return True
        ids = set(sh.snap[p][0] for p, a in watch
                  if a is None and p in sh.snap)
        if not ids:
            return False
        if any(id(frame.f_globals.get(n)) in ids for n in names):
            return True
        return any(_reaches(v, sh, (), ids)
                   for v in frame.f_locals.values()
                   if not isinstance(v, _IMMUTABLE))

    def point(self, frame):
        self.beat += 1
        if self.sched.free:
            return
        self.n += 1
        self.look()
        if self.relevant(frame):
            self.rel.append(self.n)
        sh = self.sched.shared
        if self.maybe:
            self.writes.append(self.n)
            self.wrote |= self.maybe
        self.maybe = ()
        if sh.opaque:
            ids = set(sh.opaque)
            if any(id(frame.f_globals.get(n)) in ids for n in _names(
                    frame.f_code, frame.f_lineno)) or any(
                        _reaches(v, sh, (), ids)
                        for v in frame.f_locals.values()
                        if not isinstance(v, _IMMUTABLE)):
                self.maybe = set((p, None) for p in sh.opaque.values())
        if self.stop is not None and self.n >= self.stop:
            self.stop = None
            self.sched.ctl.release()
            self.go.acquire()
            # what the other one wrote meanwhile isn't ours
            try:
                self.sched.shared.changed()
            except NeedFull:
                self.sched.needfull = True


class Run(object):
    """One execution of two operations under a schedule."""

    def __init__(self, fns, schedule, roots, watch=()):
        self.watch = watch
        self.shared = Shared(roots)
        self.ctl = threading.Semaphore(0)
        self.needfull = False
        self.free = False   # a thread was blocked: let both run to the end
        self.t = [_Thread(self, i, f) for i, f in enumerate(fns)]
        ths = [threading.Thread(target=t.main, daemon=True) for t in self.t]
        for t, th in zip(self.t, ths):
            t.th = th
            th.start()
        self.trace = []         # (thread, points passed, wrote)
        cur = 0
        for k in list(schedule) + [None]:
            t = self.t[cur]
            if not t.done:
                self.step(t, k)
            cur = 1 - cur
        for patience in (1, 1, 50):     # longer before it's a deadlock
            for t in self.t:
                if not t.done:
                    self.step(t, None, patience)
        if not all(t.done for t in self.t):
            raise Violation("the threads wait for each other", "deadlock")
        for th in ths:
            th.join(10)
        self.results = [t.result for t in self.t]

    @staticmethod
    def asleep(t):
        """the processor time it has used, if it sleeps; else None"""
        d = "/proc/self/task/%d/" % t.th.native_id
        try:
            with open(d + "stat") as f:
                state = f.read().rsplit(")", 1)[1].split()
            if state[0] != "S":
                return None
            try:
                with open(d + "schedstat") as f:
                    return f.read().split()[:1] + state[11:13]
            except OSError:
                return state[11:13]
        except OSError:
            return None

    def step(self, t, k, patience=1):
        """let t run up to its k-th point; give up if it is blocked"""
        w = len(t.writes)
        n0 = t.n
        if k is not None and k <= t.n:
            return
        t.stop = k
        if not getattr(t, "blocked", False):
            t.go.release()
        t.blocked = False
        seen, idle = None, 0
        while not self.ctl.acquire(timeout=BLOCK_S):
            # blocked on a lock: asleep, and no processor time spent.  How
            # long something takes says nothing, the machine may be busy.
            now = (t.beat, self.asleep(t))
            idle = idle + 1 if now == seen and now[1] else 0
            seen = now
            if idle >= BLOCKED * patience:
                t.blocked = True    # it waits for the other one
                self.free = True
                break
        self.trace.append((t.i, n0, t.n, [x for x in t.writes[w:]],
                           [x for x in t.rel if x > n0]))


class _Grow(Exception):
    pass


def explore(make, bound, judge):
    """All schedules of a pair with at most `bound` preemptions, up to
    equivalence.  make() -> (fns, roots), with the same initial state every
    time; judge(run, schedule) raises Violation.  -> statistics"""
    watch = set()
    while True:
        try:
            return _explore(make, bound, judge, watch)
        except (NeedFull, _Grow):
            pass


def _explore(make, bound, judge, watch):
    stat = dict(schedules=0, points=0)

    def run(schedule):
        fns, roots = make()
        r = Run(fns, schedule, roots, watch)
        if r.needfull:
            raise NeedFull()
        stat["schedules"] += 1
        stat["points"] += sum(t.n for t in r.t)
        judge(r, schedule)
        w = r.t[0].wrote | r.t[1].wrote
        if not w <= watch:
            watch.update(w)
            raise _Grow()
        return r

    def expand(schedule, r, left):
        """preempt the last thread that ran under `schedule` earlier"""
        i = len(schedule)
        if not left or i >= len(r.trace):
            return
        th, lo, hi, writes, rel = r.trace[i]

        def others(run):
            return any(t[3] for t in run.trace[i + 1:] if t[0] != th)
        todo = [lo + 1]
        for w in writes:
            todo += [w - 1, w]
        dependent = others(r)
        if dependent:
            todo += rel
        todo = [k for k in todo if lo < k <= hi]
        done = set()
        while todo:
            k = todo.pop(0)
            if k in done:
                continue
            done.add(k)
            r2 = run(list(schedule) + [k])
            if not dependent and others(r2):
                dependent = True
                todo += [x for x in rel if lo < x <= hi]
            expand(list(schedule) + [k], r2, left - 1)
    expand([], run([]), bound)
    return stat


def writes(make):
    """does the one operation of make() write to the shared state?"""
    for _ in range(2):
        fns, roots = make()
        r = Run(fns + [int], [], roots)
        if not r.needfull:
            break
    return bool(r.t[0].writes) or r.needfull
