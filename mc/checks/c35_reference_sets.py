"""C35: sets of references against plain lists of their texts."""
import copy
import itertools
import pickle
from rdflib import Literal
from mc.core import observe
from MyCapytain.common.constants import bind_graph, set_graph
from MyCapytain.common.reference import (BaseReference, BaseReferenceSet, Citation, CtsReference, CtsReferenceSet,
                                         DtsCitation, DtsReference, DtsReferenceSet)

PROPERTY = "C35"
BOUNDS = {"quick": "every list of <=3 out of 6 CTS references (units, ranges, subreferences) and 6 DTS references (two types or none, ranges), 2 levels, with and without citation, 4 ways to build; every query by object and text; every pair of sets of <=2; copies and pickles of references and sets",
          "thorough": "lists of <=4"}

CTS = ["1", "1.1", "2", "1.1-2", "1@word[2]", "10"]
DTS = [("1", None, None), ("1", None, "line"), ("1", None, "verse"), ("2", None, "line"), ("1", "2", "line"), ("1", "2", None)]
ABSENT = ["3", "1.", "1-2.1"]


def cts(x):
    return CtsReference(x)


def dts(x):
    a, b, t = x
    return DtsReference(a, b, type_=t) if b else DtsReference(a, type_=t)


def build(kind, refs, way, level, cite):
    make, cls = (cts, CtsReferenceSet) if kind == "cts" else (dts, DtsReferenceSet)
    objs = [make(r) for r in refs]
    c = (Citation(name=cite) if kind == "cts" else DtsCitation(name=cite)) if cite else None
    kw = {"citation": c, "level": level}
    if way == "args":
        return objs, cls(*objs, **kw), c
    if way == "list":
        return objs, cls(objs, **kw), c
    if way == "generator":
        return objs, cls((o for o in objs), **kw), c
    return objs, cls(tuple(objs), **kw), c


def pos(l, x):
    return l.index(x) if x in l else None


def cases(tier):
    n = 3 if tier == "quick" else 4
    for kind, pool in (("cts", CTS), ("dts", DTS)):
        for first in range(len(pool)):
            yield {"kind": kind, "first": first, "n": n}
        yield {"kind": kind, "pairs": True}
    yield {"kind": "reference"}


def clones(x):
    yield "copy", copy.copy(x)
    yield "deepcopy", copy.deepcopy(x)
    for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
        yield "pickle %d" % p, pickle.loads(pickle.dumps(x, p))


def run(case, rec):
    set_graph(bind_graph())
    if case["kind"] == "reference":
        return references(rec)
    kind = case["kind"]
    pool = CTS if kind == "cts" else DTS
    make = cts if kind == "cts" else dts
    if "pairs" in case:
        return pairs(kind, pool, rec)
    lists = [[pool[case["first"]]] + [pool[i] for i in c] for k in range(case["n"]) for c in itertools.product(range(len(pool)), repeat=k)]
    if case["first"] == 0:
        lists.append([])
    for refs in lists:
        for way in ("args", "list", "generator", "tuple"):
            for level, cite in ((1, None), (2, "line")):
                if len(refs) > 2 and (way, level) not in (("args", 2), ("list", 1)):
                    continue
                objs, s, c = build(kind, refs, way, level, cite)
                rec.state([kind, refs, way, level])
                what = "%s set %s built by %s" % (kind, refs, way)
                rec.check((len(s), s.level, s.citation is c), (len(refs), level, True), what + ": length, level, citation")
                rec.check(all(a is b for a, b in zip(s, objs)), True, what + ": its references, in order")
                if kind == "cts":
                    rec.check([str(x) for x in s], refs, what + ": texts")
                    for x in CTS + ABSENT:
                        for given in (x, cts(x)):
                            w = "%r (%s) in the %s" % (x, type(given).__name__, what)
                            rec.check(given in s, x in refs, w)
                            rec.check(observe(s.index, given), ("ok", refs.index(x)) if x in refs else ("err", "ValueError"), "position of " + w)
                        rec.check(s.count(cts(x)), refs.count(x), "number of %s in the %s" % (x, what))
                        for start in range(len(refs) + 1):
                            p = next((i for i in range(start, len(refs)) if refs[i] == x), None)
                            rec.check(observe(s.index, x, start), ("err", "ValueError") if p is None else ("ok", p), "position of %s from %d in the %s" % (x, start, what))
                else:
                    for x in DTS + [("1", None, "other"), ("3", None, None), ("2", "3", "line"), ("2", None, None)]:
                        w = "%r in the %s" % (x, what)
                        rec.check(dts(x) in s, x in refs, w)
                        rec.check(s.count(dts(x)), refs.count(x), "number of " + w)
                        rec.check(observe(s.index, dts(x)), ("ok", refs.index(x)) if x in refs else ("err", "ValueError"), "position of " + w)
                        if x[1] is None:
                            rec.check(x[0] in s, any(r[:2] == x[:2] for r in refs), "%r, whatever its type, in the %s" % (x[0], what))
                        rec.check((x[0], x[1]) in s, any(r[:2] == x[:2] for r in refs), "%r, whatever its type, in the %s" % (x[:2], what))
                for name, o in clones(s) if len(refs) <= 2 else ():
                    rec.check((type(o) is type(s), list(o) == list(s), o.level, o.citation is None or o.citation.name),
                              (True, True, level, cite is None or cite), "%s of the %s" % (name, what))
                    rec.check((o == s, o != s), (True, False), "%s of the %s is equal to it" % (name, what))
                rec.check(repr(s).count("level:%d" % level), 1, "repr shows the level")
        rec.outcome([kind, len(set(map(str, refs)))])
    rec.trace()
    rec.sample(case)


def pairs(kind, pool, rec):
    sets = []
    for k in range(3):
        for c in itertools.product(pool, repeat=k):
            for level, cite in ((1, None), (2, None), (2, "line"), (2, "verse")):
                if kind == "cts" and cite:
                    continue
                sets.append(((list(c), level, cite), build(kind, list(c), "args", level, cite)[1]))
    for (ka, a), (kb, b) in itertools.product(sets, repeat=2):
        same = ka[0] == kb[0] if kind == "cts" else ka == kb
        rec.state([kind, ka, kb])
        rec.check((a == b, a != b), (same, not same), "equality of %s sets %s and %s" % (kind, ka, kb))
        if same:
            rec.check(hash(a) == hash(b), True, "equal sets %s have the same hash" % (ka,))
    if kind == "dts":
        for k, s in sets:
            rec.check((s == tuple(s), s == list(s), s == "1"), (False, False, False), "the set %s is no tuple" % (k,))
    rec.trace()


def references(rec):
    """references themselves"""
    objs = [(("base", a, b), BaseReference(a, b) if b else BaseReference(a)) for a, b in (("1", None), ("2", None), ("1", "2"), ("2", "1"))]
    dobjs = [(("dts",) + x, dts(x)) for x in DTS]
    for k, o in objs + dobjs:
        rec.state(k)
        rec.check((o.start, o.end, o.is_range()), (k[1], k[2], k[2] is not None), "parts of %s" % (k,))
        if k[0] == "dts":
            rec.check(str(o.type) if o.type else None, k[3], "type of %s" % (k,))
        for name, c in clones(o):
            rec.check((type(c) is type(o), c.start, c.end, c.is_range(), c == o, c != o, hash(c) == hash(o)),
                      (True, k[1], k[2], k[2] is not None, True, False, True), "%s of %s" % (name, k))
            if k[0] == "dts":
                rec.check(str(c.type) if c.type else None, k[3], "type of the %s of %s" % (name, k))
        same = type(o)((k[1], k[2]))
        rec.check((same.start, same.end), (k[1], k[2]), "%s made from the tuple of its ends" % (k,))
    for group in (objs, dobjs):
        for (ka, a), (kb, b) in itertools.product(group, repeat=2):
            rec.check((a == b, a != b), (ka == kb, ka != kb), "equality of %s and %s" % (ka, kb))
            if ka == kb:
                rec.check((hash(a) == hash(b), len({a, b})), (True, 1), "hash of %s" % (ka,))
        rec.check(len({o for k, o in group}), len(group), "all different in a set")
    # setting the type of one reference leaves another alone
    for first, second in itertools.product(("line", "verse", None), repeat=2):
        a, b = dts(("1", None, first)), dts(("1", None, "book"))
        if second:
            a.type = second
        rec.check(str(a.type) if a.type else None, second or first, "type %s set to %s" % (first, second))
        rec.check(str(b.type), "book", "type of another reference")
        a.metadata.add(Literal("x") and a.metadata.graph.namespace_manager.expand_curie("dc:title"), "title", "eng")
        rec.check(len(list(b.metadata.graph.predicate_objects(b.metadata.asNode()))), 1, "metadata of another reference")
    for refs in (["1"], ["1", "2"], [], ["1", "1"]):
        s = BaseReferenceSet(*refs, level=3)
        rec.check((list(s), s.level, s.citation), (refs, 3, None), "plain set of %s" % refs)
    rec.trace()
