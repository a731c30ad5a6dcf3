"""C13: reading a text never alters it, whatever the order of the reads."""
import itertools
from mc import docs
from mc.core import observe, sequences
from mc.docs import dot
from mc.checks.c07_reffs import reset, URN
from MyCapytain.common.constants import Mimetypes
from MyCapytain.common.reference import CtsReference
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

PROPERTY = "C13"
BOUNDS = {"quick": "3 documents (1, 2 and 3 citation levels, mixed content, comments, text between the units); every history of <=2 out of 40-60 reads on one text object, of <=3 out of 14 reads of distinct kinds, every read compared with the same read on a fresh text and the source document compared after each read; every pair of texts read alternately",
          "thorough": "<=3 out of all reads on the smallest documents, <=4 of the 14 kinds"}

SPECS = [
    {"shape": [[], [], []], "scheme": "child", "labels": "seq", "content": "mixed", "noise": "tail comment between head", "wrap": 0},
    {"shape": [[[], []], [[]]], "scheme": "typed", "labels": "odd", "content": "mixed", "noise": "tail head", "wrap": 2},
    {"shape": [[[[], []]], [[[]]]], "scheme": "alldeep", "labels": "seq", "content": "alt", "noise": "tail comment between", "wrap": 0},
]
EXPORTS = [Mimetypes.PLAINTEXT, Mimetypes.XML.Std, Mimetypes.XML.TEI, Mimetypes.PYTHON.NestedDict, Mimetypes.PYTHON.ETREE]


def reads(m):
    """every read, as a JSON-able operation"""
    ops = [["reffs", l, None] for l in range(1, m.depth + 1)]
    some = [m.units[0], m.leaves()[-1], m.level(1)[-1], m.leaves()[0]]
    some = [r for i, r in enumerate(some) if r not in some[:i]]
    lv = m.leaves()
    rng = [[dot(lv[0]), dot(lv[-1])], [dot(lv[0]), dot(lv[1])], [dot(lv[1]), dot(lv[-1])]]
    if m.depth > 1:
        ops += [["reffs", m.depth, dot(some[0])]]
        rng.append([dot(m.level(1)[0]), dot(m.level(1)[-1])])
    ops += [["reffs", m.depth, "-".join(x)] for x in rng[:2]]
    for r in some:
        for simple in (False, True):
            ops.append(["passage", dot(r), simple])
        for e in range(len(EXPORTS)):
            ops.append(["export", dot(r), e, None])
        ops.append(["walk", dot(r)])
    for x in rng:
        ops.append(["passage", "-".join(x), False])
        ops.append(["walk", "-".join(x)])
    ops += [["export", None, e, None] for e in range(len(EXPORTS))]
    ops += [["export", dot(some[0]), 0, ["tei:note"]], ["export", None, 0, ["tei:note", "tei:head"]], ["export", None, 3, ["tei:note"]]]
    ops += [["passage", "zz", False], ["passage", "zz", True], ["reffs", m.depth + 1, None], ["all"], ["children", dot(some[0])], ["tostring"], ["test"]]
    return ops


def kinds(ops):
    seen, out = set(), []
    for o in ops:
        k = tuple([o[0], str(o[2:]), "-" in str(o[1:2])]) if o[0] != "reffs" else ("reffs", o[2] is None, "-" in str(o[2]))
        if o[0] == "export":
            k = ("export", o[1] is None, o[2], o[3] is None)
            if o[2] in (2, 4) or (o[1] is None and o[3] is None):
                continue
        if k not in seen:
            seen.add(k)
            out.append(o)
    return out


def text_of(spec):
    return CapitainsCtsText(resource=docs.xml(spec), urn=URN)


def value(x):
    if isinstance(x, docs.etree._Element):
        return docs.etree.tostring(x, with_tail=False).decode("utf-8")
    if isinstance(x, dict):
        return [[k, value(v)] for k, v in x.items()]
    return x


def perform(text, op):
    if op[0] == "reffs":
        return [str(r) for r in text.getReffs(level=op[1], subreference=op[2])]
    if op[0] == "passage":
        p = text.getTextualNode(CtsReference(op[1]), simple=op[2])
        return value(p.resource), str(p.reference), str(p.urn)
    if op[0] == "export":
        p = text if op[1] is None else text.getTextualNode(op[1])
        return value(p.export(EXPORTS[op[2]], exclude=op[3]))
    if op[0] == "walk":
        p = text.getTextualNode(op[1])
        return [str(r) for r in p.siblingsId] + [str(x and x.export()) for x in (p.next, p.prev, p.first, p.last)]
    if op[0] == "children":
        return [c.export(Mimetypes.XML.Std) for c in text.getTextualNode(op[1]).children]
    if op[0] == "all":
        return [str(r) for r in text.reffs]
    if op[0] == "tostring":
        return text.tostring(encoding=str)
    if op[0] == "test":
        return text.test()
    raise KeyError(op[0])


def cases(tier):
    for i, spec in enumerate(SPECS):
        ops = reads(docs.Model(spec))
        for j in range(len(ops)):
            yield {"spec": i, "first": j, "depth": 3 if tier != "quick" and i == 0 else 2, "kinds": False}
        ks = kinds(ops)
        for j in range(len(ks)):
            yield {"spec": i, "first": j, "depth": 3 if tier == "quick" else 4, "kinds": True}


ALONE = {}


def alone(i, op):
    k = (i, str(op))
    if k not in ALONE:
        ALONE[k] = observe(perform, text_of(SPECS[i]), op)
    return ALONE[k]


def run(case, rec):
    i = case["spec"]
    spec = SPECS[i]
    ops = reads(docs.Model(spec))
    if case["kinds"]:
        ops = kinds(ops)
    other = text_of(SPECS[(i + 1) % 3])
    otherop = reads(docs.Model(SPECS[(i + 1) % 3]))[case["first"] % 20]
    prints = {}
    rec.count("reads", len(ops))
    for tail in itertools.product(range(len(ops)), repeat=case["depth"] - 1):
        text = text_of(spec)
        before = text.tostring(encoding=str)
        hist = []
        for j in (case["first"],) + tail:
            op = ops[j]
            rec.state([i, case["kinds"], hist, op])
            rec.check(observe(perform, text, op), alone(i, op), "%s after %s" % (op, hist), key=None)
            after = text.tostring(encoding=str)
            if not rec.check(after == before, True, "source unchanged by %s after %s" % (op, hist)):
                break
            hist.append(op)
    # two texts do not disturb each other
    text = text_of(spec)
    for j in range(len(ops)):
        rec.check(observe(perform, other, otherop), alone((i + 1) % 3, otherop), "read of a second text")
        rec.check(observe(perform, text, ops[j]), alone(i, ops[j]), "%s while a second text is read" % ops[j])
    rec.trace()
    rec.sample(case)
