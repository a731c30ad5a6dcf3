"""C14: text, nested dictionary and XML exports of texts and passages."""
import re
from mc import docs
from mc.core import observe
from mc.docs import dot
from mc.checks.c07_reffs import specs, special, reset, URN
from mc.checks.c08_single import CONTENTS, NOISES
from MyCapytain.common.constants import Mimetypes
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

PROPERTY = "C14"
BOUNDS = {"quick": "documents of <=3 | <=2x<=2 | <=2x<=2x<=2 units (4 levels for a few), 7 schemes, 6 contents, 6 kinds of markup; the whole text, every unit (full and simple) and every range; 7 sets of excluded elements; 4 joining strings; plain text exactly, nested dictionary exactly, XML and etree exports",
          "thorough": "<=4 | <=3x<=2 | <=2x<=2x<=2 units"}
EXCLUDES = [None, [], ["tei:note"], ["tei:hi"], ["tei:note", "tei:head"], ["tei:head", "tei:hi", "tei:note"], ["tei:absent"]]
JOINS = [" ", "", "|", "\n"]


def cases(tier):
    for spec in special(tier, contents=("mixed",)):
        if tier != "quick" or "otherdecl" in spec["noise"]:
            yield spec
    lim = 7 if tier == "quick" else 9
    for i, noise in enumerate(NOISES):
        for c in CONTENTS:
            for spec in specs("quick", contents=(c,), labels=("odd",) if i % 2 else ("seq",), noises=(noise,), wraps=(0,)):
                n = len(docs.Model(spec).units)
                small = 5 if c in ("mixed", "alt") and spec["scheme"] != "deep" else 4
                big = c == "mixed" and i == 5 and spec["scheme"] in ("typed", "same")
                if n <= (small if tier == "quick" and not big else lim):
                    yield spec


def texts(root, excluded):
    """text nodes in document order (comments and PIs excluded) outside the excluded elements"""
    out = []

    def walk(e, on):
        el = isinstance(e.tag, str)
        on = on and not (el and e.tag in excluded)
        if el:
            if on and e.text:
                out.append(e.text)
            for c in e:
                walk(c, on)
                if on and c.tail:
                    out.append(c.tail)
    walk(root, True)
    return out


def plaintext(root, exclude, join=" "):
    ex = {"{%s}%s" % (docs.TEI, x.split(":")[1]) for x in exclude or ()}
    return re.sub(" {2,}", " ", join.join(texts(root, ex)))


def nested(d):
    return {k: nested(v) for k, v in d.items()} if isinstance(d, dict) else d


def order(d):
    return [[k, order(v)] for k, v in d.items()] if isinstance(d, dict) else None


def run(spec, rec):
    m = docs.Model(spec)
    src = docs.Source(spec)
    text = CapitainsCtsText(resource=docs.xml(spec), urn=URN)
    unit = {r: docs.plain(src.node[r]) for r in m.units}
    nodes = [((), "text", m.leaves())]
    nodes += [(r, k, m.leaves(r)) for r in m.units for k in ("full", "simple")]
    nodes += [((a, b), "range", m.between(a, b, m.depth)) for a, b in m.ranges() if a != b and len(a) == len(b)]
    for r, kind, leaves in nodes:
        def make():
            if kind == "text":
                return text
            if kind == "range":
                return text.getTextualNode(dot(r[0]) + "-" + dot(r[1]))
            return text.getTextualNode(dot(r), simple=kind == "simple")
        p = make()
        what = "%s %s" % (kind, r)
        own = src.root if kind == "text" else unit[r] if kind == "simple" else docs.plain(p.resource)
        if kind in ("full", "simple"):
            # the plain text of a unit is the text of its element, nothing from around it
            rec.check(p.export(Mimetypes.PLAINTEXT), plaintext(unit[r], None), "plain text of " + what)
            rec.check(p.text, plaintext(unit[r], None), "text property of " + what)
        if kind == "range" and "tail" not in spec["noise"] and "between" not in spec["noise"] and "head" not in spec["noise"]:
            rec.check(p.export(Mimetypes.PLAINTEXT).split(), [t for l in leaves for t in plaintext(unit[l], None).split()], "plain text of " + what)
        for ex in EXCLUDES:
            rec.state([spec, r, kind, ex])
            rec.check(p.export(Mimetypes.PLAINTEXT, exclude=ex), plaintext(own, ex), "plain text of %s without %s" % (what, ex))
            rec.check(p.export(exclude=ex), plaintext(own, ex), "default export of %s without %s" % (what, ex))
        for j in JOINS:
            q = make()
            old = q.plaintext_string_join
            q.plaintext_string_join = j
            rec.check(q.export(Mimetypes.PLAINTEXT, exclude=["tei:note"]), plaintext(own, ["tei:note"], j), "plain text of %s joined by %r" % (what, j))
            q.plaintext_string_join = old
        for ex in (None, ["tei:note"], ["tei:hi", "tei:note"]):
            d = p.export(Mimetypes.PYTHON.NestedDict, exclude=ex)
            w = {}
            for l in leaves:
                x = w
                for k in l[:-1]:
                    x = x.setdefault(k, {})
                x[l[-1]] = plaintext(unit[l], ex)
            rec.check(nested(d), w, "nested dictionary of %s without %s" % (what, ex))
            rec.check(order(d), order(w), "order of the nested dictionary of %s" % what)
        for mt in (Mimetypes.XML.Std, Mimetypes.XML.TEI):
            x = docs.etree.fromstring(p.export(mt))
            rec.check((docs.elements(x), docs.ordered_texts(x)), (docs.elements(own), docs.ordered_texts(own)), "%s of %s" % (mt, what))
        rec.check(p.export(Mimetypes.PYTHON.ETREE) is p.resource, True, "etree export of " + what)
        rec.check(observe(p.export, Mimetypes.JSON.LD), ("err", "NotImplementedError"), "export of %s to a format it does not offer" % what)
    rec.trace()
    if len(m.units) > 3:
        rec.sample(spec)
