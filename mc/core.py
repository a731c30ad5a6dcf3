"""Explorer core: counters, violations, sharded exhaustive execution, evidence.

Every check enumerates a finite space completely (no sampling).  A check module
in mc.checks exports

    PROPERTY   the property id
    cases(tier)            generator of JSON-able cases (the bounded space)
    run(case, rec)         executes one case on the real code, in lock-step with
                           a reference model, and reports disagreements on rec
    BOUNDS     {tier: text}   the bounds completed
    ASSUMPTIONS  list of strings
"""
import hashlib
import json
import logging
import os
import resource
import signal
import sys
import time
import traceback


FAILFAST = bool(os.environ.get("MC_FAILFAST"))   # development only: stop at the first violation
COVER = os.environ.get("MC_COVER")               # development only: file of the library lines executed


def start_cover(root, lines):
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "mc")

    def line(code, n):
        if code.co_filename.startswith(root):
            lines.add((code.co_filename[len(root):], n))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def canon(obj):
    return json.dumps(obj, sort_keys=True, ensure_ascii=False, default=str)


def h64(s):
    return hashlib.blake2b(s.encode("utf-8", "surrogatepass"), digest_size=8).digest()


class Diverged(BaseException):
    """The case ran over its CPU budget: the code under test does not terminate."""


class Stop(Exception):
    """Raised by a check to abandon the current case after a violation."""


class Rec(object):
    """Counters of one worker."""
    MAX_VIOLATIONS = 40
    diverged = False

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []   # dicts: key, case, message
        self.case = None
        self.extra = {}

    def state(self, key):
        k = h64(key if isinstance(key, str) else canon(key))
        new = k not in self.states
        self.states.add(k)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        self.outcomes.add(h64(key if isinstance(key, str) else canon(key)))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def violation(self, message, key=None, case=None):
        case = self.case if case is None else case
        key = canon(case) if key is None else key
        if len(self.violations) < self.MAX_VIOLATIONS:
            self.violations.append({"key": key, "case": case, "message": str(message)[:3000]})

    def check(self, got, want, what, key=None, case=None):
        """One observation of the implementation compared with the model."""
        self.transitions += 1
        if got != want:
            self.violation("%s: got %r, expected %r" % (what, got, want), key=key, case=case)
            return False
        return True


def observe(f, *args, **kwargs):
    """Outcome of a call as a comparable value; exceptions become values."""
    try:
        return ("ok", f(*args, **kwargs))
    except (KeyboardInterrupt, Diverged, MemoryError):
        raise
    except BaseException as e:
        return ("err", type(e).__name__)


def in_library(tb):
    while tb is not None:
        if "/MyCapytain/" in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def run_case(module, case, rec, cpu_limit):
    rec.case = case

    def onalarm(signum, frame):
        raise Diverged()
    signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, cpu_limit)
    try:
        if hasattr(module, "reset"):
            module.reset()
        module.run(case, rec)
    except Stop:
        pass
    except KeyboardInterrupt:
        raise
    except Diverged:
        rec.diverged = True
        rec.violation("no answer after %d s of CPU time" % cpu_limit)
    except BaseException as e:
        rec.violation("unexpected %s: %s\n%s" % (
            type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-6:])))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def worker(module, tier, index, total, wfd):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    logging.disable(logging.CRITICAL)
    rec = Rec()
    lines = set()
    if COVER:
        start_cover(os.environ.get("MC_REPO", "/repo") + "/", lines)
    n = 0
    limit = getattr(module, "CPU_LIMIT", 120)
    err = None
    try:
        for i, case in enumerate(module.cases(tier)):
            if i % total != index:
                continue
            n += 1
            run_case(module, case, rec, limit)
            if rec.diverged or len(rec.violations) >= rec.MAX_VIOLATIONS:
                break
            if FAILFAST and rec.violations:
                break
    except BaseException:
        err = traceback.format_exc()
    if COVER:
        with open("%s.%d" % (COVER, index), "w") as f:
            json.dump(sorted(lines), f)
    import pickle
    with os.fdopen(wfd, "wb") as f:
        pickle.dump({
            "states": rec.states, "transitions": rec.transitions, "traces": rec.traces,
            "outcomes": rec.outcomes, "samples": rec.samples, "violations": rec.violations,
            "extra": rec.extra, "cases": n, "error": err,
        }, f)


def explore(module, tier, jobs):
    """Run every case of the module, sharded round robin over `jobs` processes."""
    import pickle
    import select
    sys.stdout.flush()
    sys.stderr.flush()
    readers = {}
    for i in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                worker(module, tier, i, jobs, w)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        readers[r] = (pid, [])
    results = []
    open_fds = set(readers)
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [])
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                readers[fd][1].append(chunk)
            else:
                open_fds.discard(fd)
                os.close(fd)
    died = 0
    for fd, (pid, chunks) in readers.items():
        os.waitpid(pid, 0)
        data = b"".join(chunks)
        if not data:
            died += 1
            continue
        results.append(pickle.loads(data))
    total = {"states": set(), "outcomes": set(), "transitions": 0, "traces": 0, "samples": [],
             "violations": [], "extra": {}, "cases": 0, "errors": [], "died": died}
    for r in results:
        total["states"] |= r["states"]
        total["outcomes"] |= r["outcomes"]
        total["transitions"] += r["transitions"]
        total["traces"] += r["traces"]
        total["cases"] += r["cases"]
        total["samples"] += r["samples"]
        total["violations"] += r["violations"]
        for k, v in r["extra"].items():
            total["extra"][k] = total["extra"].get(k, 0) + v
        if r["error"]:
            total["errors"].append(r["error"])
    total["violations"].sort(key=lambda v: (len(canon(v["case"])), v["key"], v["message"]))
    return total


# ---------------------------------------------------------------- searches

def sequences(alphabet, depth, minimum=0):
    """Every sequence over alphabet, shortest first."""
    layer = [[]]
    for d in range(depth + 1):
        if d >= minimum:
            for s in layer:
                yield list(s)
        if d < depth:
            layer = [s + [a] for s in layer for a in alphabet]


def bfs(build, enabled, key, invariant, rec, max_depth):
    """Explicit-state search on the real objects; a state is the history reaching it.

    build(history) -> fresh object with the history replayed
    """
    import collections
    root = build([])
    invariant([], root)
    seen = {key(root)}
    rec.state(key(root))
    frontier = collections.deque([[]])
    while frontier:
        hist = frontier.popleft()
        if len(hist) >= max_depth:
            continue
        for ev in enabled(hist):
            nxt = build(hist + [ev])
            rec.step()
            invariant(hist + [ev], nxt)
            k = key(nxt)
            rec.state(k)
            if k not in seen:
                seen.add(k)
                frontier.append(hist + [ev])
    return len(seen)
