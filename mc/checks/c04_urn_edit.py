"""C04: a URN edited in place is the URN parsed from the edited text."""
import copy
from mc.core import bfs
from MyCapytain.common.reference import URN, CtsReference
from mc.checks.c03_urn import compare, text

PROPERTY = "C04"
BOUNDS = {"quick": "breadth-first over every sequence of <=4 edits/reads from 4 initial URNs (alphabet of 15 operations), states merged on components + last operation + read-since-edit",
          "thorough": "same to depth 7"}
ASSUMPTIONS = ["edits keep the URN well formed: a version or reference only on a work, a work only on a textgroup"]

INIT = ["urn:cts:latinLit", "urn:cts:latinLit:phi1294", "urn:cts:latinLit:phi1294.phi002:1.1", "urn:cts:latinLit:phi1294.phi002.perseus-lat2:1.1-1.2"]
FIELDS = ["urn_namespace", "namespace", "textgroup", "work", "version", "reference"]
OPS = [("urn_namespace", "x"), ("namespace", "greekLit"), ("namespace", "latinLit"),
       ("textgroup", "tlg1"), ("work", "w1"), ("work", "w2"), ("work", None), ("version", "v1"), ("version", None),
       ("reference", "1.1"), ("reference", "2-3"), ("reference", None), ("refobj", "4@x"), ("read", None), ("copy", None)]


def components(t):
    p = t.split(":")
    m = (p[3].split(".") if len(p) > 3 else []) + [None, None, None]
    return [p[1], p[2], m[0], m[1], m[2], p[4] if len(p) > 4 else None]


def apply_model(c, op):
    f, v = op
    if f in ("read", "copy"):
        return c
    if f == "refobj":
        f = "reference"
    n = list(c)
    n[FIELDS.index(f)] = v
    if n[3] and not n[2] or (n[4] or n[5]) and not n[3]:
        return None
    return n


def model(init, hist):
    c = components(init)
    for op in hist:
        c = apply_model(c, op)
        if c is None:
            return None
    return c


def cases(tier):
    for i in INIT:
        for op in OPS:
            if model(i, [op]) is not None:
                yield {"init": i, "first": op, "depth": 4 if tier == "quick" else 7}


def build(init, hist):
    u = URN(init)
    for f, v in hist:
        if f == "read":
            str(u)
            u.upTo(URN.NAMESPACE)
        elif f == "copy":
            old, u = u, copy.copy(u)
            u = copy.deepcopy(old)
        elif f == "refobj":
            u.reference = CtsReference(v)
        else:
            setattr(u, f, v)
    return u


def run(case, rec):
    init, first = case["init"], tuple(case["first"])
    if "history" in case:
        hist = [tuple(o) for o in case["history"]]
        compare(rec, build(init, hist), model(init, hist), "%s after %r" % (init, hist))
        return

    def tail(hist):
        hist = [first] + hist
        read = False
        for f, v in hist:
            read = f == "read" or (read and f == "copy")
        return [model(init, hist), hist[-1], read]

    last = [None]

    def build_(hist):
        return (hist, build(init, [first] + hist))

    def inv(hist, obj):
        rec.case = {"init": init, "first": first, "history": [first] + hist}
        c = model(init, [first] + hist)
        compare(rec, obj[1], c, "%s after %r" % (init, [first] + hist))
        u = URN(text(c))
        rec.check((obj[1] == u, u == obj[1]), (True, True), "edited URN %s equals the parsed one" % text(c))
        rec.trace()

    def enabled(hist):
        return [op for op in OPS if model(init, [first] + hist + [op]) is not None]

    bfs(build_, enabled, lambda o: "%r" % (tail(o[0]),), inv, rec, case["depth"] - 1)
    rec.sample({"init": init, "history": [first] + [("work", "w1")]})
