"""C45: a read that is cut short leaves nothing behind."""
import sys
from mc import http, repos
from mc.core import observe
from mc.checks import c44_interleaving as two

PROPERTY = "C45"
BOUNDS = {
    "quick": "the worlds and reads of C44; each read cut by an interruption at every distinct line of the library it executes (first visit), then every read of that world",
    "thorough": "the same, cut at every executed line (every visit)"}
ASSUMPTIONS = ["an interruption arrives between two lines of the library (Ctrl-C, a time limit) and is not caught by it"]
LIB = two.LIB


class Interruption(BaseException):
    pass


def cut(read, at, visits):
    """read, cut at its at-th point; how many points were met"""
    seen, n = {}, [0]

    def line(frame, event, arg):
        if event == "line":
            if visits:
                k = (frame.f_code, frame.f_lineno)
                seen[k] = seen.get(k, 0) + 1
                if seen[k] > visits:
                    return line
            n[0] += 1
            if n[0] == at:
                raise Interruption()
        return line

    def call(frame, event, arg):
        return line if LIB in frame.f_code.co_filename else None
    sys.settrace(call)
    try:
        observe(read)
    except Interruption:
        pass
    finally:
        sys.settrace(None)
    return n[0]


def cases(tier):
    for name, world in two.WORLDS.items():
        for a in world()[1]:
            yield {"world": name, "read": a, "visits": 1 if tier == "quick" else 0}


def run(case, rec):
    if case["world"] == "resolver":
        with repos.scratch() as base:
            two.PATHS[:] = repos.write_all([two.GROUPS], base)
            play(case, rec)
    else:
        play(case, rec)


def play(case, rec):
    make, ops, server = two.WORLDS[case["world"]]()
    if server:
        with http.network(server()):
            explore(case, make, ops, rec)
    else:
        explore(case, make, ops, rec)


def explore(case, make, ops, rec):
    alone = {k: observe(f, make()) for k, f in ops.items()}
    order = [case["read"]] + [k for k in ops if k != case["read"]]
    k = 0
    while True:
        k += 1
        w = make()
        if cut(lambda: ops[case["read"]](w), k, case["visits"]) < k:
            break
        rec.state([case["world"], case["read"], k])
        for name in order:
            rec.check(observe(ops[name], w), alone[name], "%s, after %s was cut at its step %d" % (name, case["read"], k))
        if rec.violations:
            return
    rec.count("cuts", k - 1)
    rec.trace()
    rec.sample(case)
