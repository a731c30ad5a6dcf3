"""C03: URN parsing, printing, truncation and comparison."""
import copy
import itertools
import pickle
from mc.core import observe
from MyCapytain.common.reference import URN

PROPERTY = "C03"
TG = [None, "phi1294", "tlg-1_a"]
WK = ["phi002", "Phi002"]
VS = ["perseus-lat2", "Perseus-Lat2"]
REFS = [None, "1", "1.1", "1.pr-2.10", "1.1@Sic[1]-2.3@et", "2@a"]
BOUNDS = {"quick": "2 URN namespaces x 2 CTS namespaces x 3 textgroups x 3 works x 3 versions x 6 references (references only on works), with and without a fragment; all pairs for comparison",
          "thorough": "same, with all pairs over both fragment forms"}


def urns(uns=("cts", "x-cts")):
    for un in uns:
        for ns in ("latinLit", "g"):
            for tg in TG:
                for wk in ([None] + WK if tg else [None]):
                    for vs in ([None] + VS if wk else [None]):
                        for ref in (REFS if wk else [None]):
                            yield [un, ns, tg, wk, vs, ref]


def text(c):
    s = "urn:%s:%s" % (c[0], c[1])
    if c[2]:
        s += ":" + ".".join(x for x in c[2:5] if x)
        if c[5]:
            s += ":" + c[5]
    return s


KEYS = ["NAMESPACE", "TEXTGROUP", "WORK", "VERSION", "PASSAGE", "PASSAGE_START", "PASSAGE_END", "NO_PASSAGE", "COMPLETE"]


def upto(c, key):
    base = ":".join(["urn", c[0], c[1]])
    middle = ".".join(x for x in c[2:5] if x)
    if key == "COMPLETE":
        return ("ok", text(c))
    if key == "NAMESPACE":
        return ("ok", base)
    if key == "TEXTGROUP" and c[2]:
        return ("ok", base + ":" + c[2])
    if key == "WORK" and c[3]:
        return ("ok", base + ":" + c[2] + "." + c[3])
    if key == "VERSION" and c[4]:
        return ("ok", base + ":" + middle)
    if key == "NO_PASSAGE" and c[3]:
        return ("ok", base + ":" + middle)
    if key == "PASSAGE" and c[5]:
        return ("ok", base + ":" + middle + ":" + c[5])
    if key == "PASSAGE_START" and c[5]:
        return ("ok", base + ":" + middle + ":" + c[5].split("-")[0])
    if key == "PASSAGE_END" and c[5] and "-" in c[5]:
        return ("ok", base + ":" + middle + ":" + c[5].split("-")[1])
    return ("err", "KeyError")


def size(c):
    return len([x for x in c[:5] if x])


def compare(rec, u, c, what):
    rec.check(str(u), text(c), what + " as text")
    rec.check([u.urn_namespace, u.namespace, u.textgroup, u.work, u.version], c[:5], what + " components")
    rec.check(None if u.reference is None else str(u.reference), c[5], what + " reference")
    rec.check(len(u), size(c), what + " length")
    for k in KEYS:
        rec.check(observe(u.upTo, getattr(URN, k)), upto(c, k), "%s up to %s" % (what, k))


def cases(tier):
    for c in urns():
        yield {"urn": c, "tier": tier}


BAD = ["", "urn", "urn:cts", "x"]


def run(case, rec):
    c = case["urn"]
    t = text(c)
    rec.state(t)
    for frag in ("", "#f", "#a:b"):
        u = URN(t + frag)
        compare(rec, u, c, "URN %s%s" % (t, frag))
        rec.check((u == URN(t), u != URN(t)), (True, False), "equality of %s%s and itself" % (t, frag))
    rec.check(u == t, False, "URN %s compared with a plain string" % t)
    for name, f in (("pickle", lambda o: pickle.loads(pickle.dumps(o))), ("copy", copy.copy), ("deepcopy", copy.deepcopy)):
        compare(rec, f(u), c, "%s of URN %s" % (name, t))
    u = URN(t)
    for other in urns(("cts",) if case["tier"] == "quick" else ("cts", "x-cts")):
        o = URN(text(other))
        same = text(other) == t
        rec.check((u == o, u != o, u > o, u < o), (same, not same, size(c) > size(other), size(c) < size(other)),
                  "comparison of %s with %s" % (t, text(other)))
    for b in BAD:
        rec.check(observe(URN, b)[0], "err", "parsing %r" % b)
    rec.trace()
    rec.sample(case)
