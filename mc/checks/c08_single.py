"""C08: extraction of a single citable unit."""
from mc import docs
from mc.core import observe
from mc.docs import dot
from mc.checks.c07_reffs import specs, special, reset, URN
from MyCapytain.common.constants import Mimetypes
from MyCapytain.common.reference import CtsReference
from MyCapytain.errors import CitationDepthError
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

PROPERTY = "C08"
BOUNDS = {"quick": "every document of <=4 | <=3x<=3 | <=2x<=2x<=2 units, (4 levels for a few) 7 citation schemes, flat or wrapped in layers without reference, 3 label sets, 6 contents, 6 kinds of surrounding markup (full cross product up to 8 units, selected combinations above); every unit of every level, full and simple extraction, 3 ways of writing the reference; every unknown reference one label away and every depth",
          "thorough": "the same with documents of <=6 | <=3x<=4 | <=3x<=2x<=2 units and every combination of content and markup"}

CONTENTS = ("unique", "same", "empty", "number", "mixed", "alt")
NOISES = ("", "head between", "comment", "tail", "nest head tail", "tail comment between head space")


def cases(tier):
    yield from special(tier, contents=("alt", "mixed"))
    if tier == "quick":
        for i, noise in enumerate(NOISES):
            for c in CONTENTS:
                labels = ("odd",) if c == "mixed" else ("seq",)
                for spec in specs(tier, contents=(c,), labels=labels, noises=(noise,), wraps=(2,) if i % 2 else (0, 2)):
                    if len(docs.Model(spec).units) <= 8 or c == "alt" and i in (1, 5):
                        yield spec
        yield from specs(tier, contents=("alt",), labels=("odd", "rev"), noises=(NOISES[-1],), wraps=(0,))
    else:
        yield from specs(tier, contents=CONTENTS, noises=NOISES)


def read(node):
    x = docs.plain(node.resource)
    return docs.elements(x), docs.ordered_texts(x)


def run(spec, rec):
    m = docs.Model(spec)
    src = docs.Source(spec)
    text = CapitainsCtsText(resource=docs.xml(spec), urn=URN)
    for i, r in enumerate(m.units):
        ref = dot(r)
        rec.state([spec, ref])
        form = (ref, CtsReference(ref), list(r))[i % 3]
        p = text.getTextualNode(form)
        rec.check(read(p), src.window(r, r), "content of %s" % ref)
        rec.check((str(p.urn), str(p.reference), p.depth, p.citation.name),
                  (URN + ":" + ref, ref, len(r), docs.names(spec)[len(r) - 1]), "identity of passage %s" % ref)
        s = text.getTextualNode(form, simple=True)
        unit = docs.etree.fromstring(docs.etree.tostring(src.node[r], with_tail=False))
        rec.check(read(s), (docs.elements(unit), docs.ordered_texts(unit)), "content of the simple passage %s" % ref)
        rec.check((str(s.urn), str(s.reference), s.depth, s.citation.name), (URN + ":" + ref, ref, len(r), docs.names(spec)[len(r) - 1]), "identity of simple passage %s" % ref)
        for simple in (False, True):
            q = p if not simple else s
            x = docs.etree.fromstring(q.export(Mimetypes.XML.Std))
            rec.check((docs.elements(x), docs.ordered_texts(x)), read(q), "XML export of %s" % ref)
        for bad in {r[:-1] + ("zz",), r[:-1] + (r[-1] + "0",), ("zz",) + r[1:]} - set(m.units):
            for simple in (False, True):
                got = observe(text.getTextualNode, dot(bad), simple=simple)
                rec.check(got[0], "err", "unknown reference %s (simple=%s)" % (dot(bad), simple))
        if len(r) == m.depth:
            for simple in (False, True):
                rec.check(observe(text.getTextualNode, ref + ".1", simple=simple), ("err", CitationDepthError.__name__),
                          "reference deeper than the scheme")
    whole = text.getTextualNode()
    rec.check(read(whole), (docs.elements(src.root), docs.ordered_texts(src.root)), "the whole text")
    rec.trace()
    if len(m.units) > 3:
        rec.sample(spec)
