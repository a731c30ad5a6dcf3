"""C09: extraction of a passage range."""
from mc import docs
from mc.core import observe
from mc.docs import dot
from mc.checks.c07_reffs import specs, special, reset, URN
from mc.checks.c08_single import CONTENTS, NOISES, read
from MyCapytain.common.constants import Mimetypes
from MyCapytain.common.reference import CtsReference
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

PROPERTY = "C09"
BOUNDS = {"quick": "every document of <=4 | <=3x<=3 | <=2x<=2x<=2 units, (4 levels for a few) 7 citation schemes, flat or wrapped, 6 contents, 6 kinds of surrounding markup (full cross product up to 6 units, selected combinations above); every pair start<=end of units of the same or of different levels, neither containing the other; every range with one unknown end",
          "thorough": "<=6 | <=3x<=4 | <=3x<=2x<=2 units, every combination"}


def cases(tier):
    yield from special(tier, contents=("alt",) if tier == "quick" else ("alt", "mixed"))
    if tier == "quick":
        for i, noise in enumerate(NOISES):
            for c in CONTENTS:
                for spec in specs(tier, contents=(c,), labels=("odd",) if c == "mixed" else ("seq",), noises=(noise,), wraps=(2,) if i % 2 else (0, 2)):
                    n = len(docs.Model(spec).units)
                    if n <= 6 or c == "alt" and i == 5 and (n < 10 or spec["scheme"] in ("typed", "child")):
                        yield spec
    else:
        for i, noise in enumerate(NOISES):
            for c in CONTENTS:
                for spec in specs(tier, contents=(c,), labels=("odd",) if c == "mixed" else ("seq",), noises=(noise,)):
                    n = len(docs.Model(spec).units)
                    if n <= 9 or i == 5 and c == "alt" or c == "same" and i == 0:
                        yield spec


def run(spec, rec):
    m = docs.Model(spec)
    src = docs.Source(spec)
    text = CapitainsCtsText(resource=docs.xml(spec), urn=URN)
    for i, (a, b) in enumerate(m.ranges()):
        ref = dot(a) + "-" + dot(b)
        rec.state([spec, ref])
        p = text.getTextualNode(CtsReference(ref) if i % 2 else ref)
        rec.check(read(p), src.window(a, b), "content of %s" % ref)
        rec.check((str(p.urn), str(p.reference), p.depth), (URN + ":" + ref, ref, len(a)), "identity of %s" % ref)
    for a in m.units:
        for bad in (a[:-1] + ("zz",), ("zz",) + a[1:]):
            for ref in (dot(a) + "-" + dot(bad), dot(bad) + "-" + dot(a), dot(bad) + "-" + dot(bad)):
                rec.check(observe(text.getTextualNode, ref)[0], "err", "range %s with an unknown end" % ref)
    rec.trace()
    if len(m.units) > 3:
        rec.sample(spec)
