"""C10: an extracted passage is itself a text of the same citation scheme."""
import io
from lxml import objectify
from mc import docs
from mc.core import observe
from mc.docs import dot
from mc.checks.c07_reffs import specs, special, reset, refs, want, URN
from mc.checks.c08_single import NOISES, read
from MyCapytain.common.constants import Mimetypes
from MyCapytain.common.reference import CtsReference
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

PROPERTY = "C10"
BOUNDS = {"quick": "documents of <=4 | <=3x<=2 | <=2x<=2x<=2 units (4 levels for a few), 7 schemes, flat or wrapped, 2 kinds of markup; every unit and every range extracted, its XML read back as a text, every unit of it listed and extracted again, directly and through the passage; 9 input forms of the source",
          "thorough": "<=5 | <=3x<=3 | <=2x<=2x<=2 units, 6 kinds of markup"}


def cases(tier):
    for spec in special(tier):
        yield dict(spec, kind="reparse")
    q = tier == "quick"
    for spec in specs("quick", contents=("alt", "mixed") if not q else ("alt",), labels=("odd",), noises=(NOISES[0], NOISES[5]) if q else NOISES):
        n = len(docs.Model(spec).units)
        if n <= (8 if q else 10):
            yield dict(spec, kind="reparse")
    for c in ("mixed", "unique"):
        for scheme in docs.SCHEMES:
            for shape in ([[], []], [[[], []], [[]]]):
                for noise in NOISES:
                    yield {"shape": shape, "scheme": scheme, "labels": "seq", "content": c, "noise": noise, "wrap": 0, "kind": "forms"}


def inputs(spec):
    s = docs.xml(spec)
    return [
        ("str", s), ("str-decl", "<?xml version=\"1.0\"?>\n" + s),
        ("file", io.BytesIO(s.encode("utf-8"))), ("textfile", io.StringIO(s)),
        ("file-decl", io.BytesIO(("<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n" + s).encode("latin-1"))),
        ("element", docs.etree.fromstring(s)), ("tree", docs.etree.ElementTree(docs.etree.fromstring(s))),
        ("objectified", objectify.fromstring(s)), ("objecttree", objectify.parse(io.BytesIO(s.encode("utf-8")))),
    ]


def run(spec, rec):
    m = docs.Model(spec)
    src = docs.Source(spec)
    if spec["kind"] == "forms":
        for name, source in inputs(spec):
            text = CapitainsCtsText(resource=source, urn=URN)
            rec.state([spec, name])
            rec.check(refs(text.getReffs(level=m.depth)), want(m.level(m.depth)), "references of a text given as %s" % name)
            for r in m.units:
                rec.check(read(text.getTextualNode(dot(r))), src.window(r, r), "content of %s of a text given as %s" % (dot(r), name))
        rec.trace()
        return
    text = CapitainsCtsText(resource=docs.xml(spec), urn=URN)
    for a, b in [(r, None) for r in m.units] + [x for x in m.ranges() if x[0] != x[1]]:
        ref = dot(a) + ("-" + dot(b) if b else "")
        p = text.getTextualNode(ref)
        again = CapitainsCtsText(resource=p.export(Mimetypes.XML.Std), urn=URN, citation=text.citation)
        e = b or a
        inside = set()
        for level in range(1, m.depth + 1):
            n = max(level, len(a), len(e))
            down = m.between(a, e, n)
            w, seen = [], set()
            for r in down:
                if r[:level] not in seen:
                    seen.add(r[:level])
                    w.append(r[:level])
            if level >= max(len(a), len(e)):
                inside |= set(w)
            rec.state([spec, ref, level])
            rec.check(refs(again.getReffs(level=level)), want(w), "references of level %d in the extracted %s" % (level, ref))
        for r in sorted(inside):
            rec.check(read(again.getTextualNode(dot(r))), src.window(r, r), "%s extracted out of %s read back" % (dot(r), ref))
            q = p.getTextualNode(dot(r))
            rec.check(read(q), src.window(r, r), "%s extracted out of passage %s" % (dot(r), ref))
            rec.check((str(q.reference), q.depth), (dot(r), len(r)), "identity of %s extracted out of passage %s" % (dot(r), ref))
    # the lowest units cover the text of every unit above them
    if spec["noise"] == "" :
        for r in [()] + m.units:
            joined = [t for l in m.leaves(r) for t in read(text.getTextualNode(dot(l)))[1]]
            whole = read(text.getTextualNode(dot(r)))[1] if r else src.window(m.level(1)[0], m.level(1)[-1])[1]
            rec.check(joined, whole, "text of the lowest units of %s" % dot(r))
    rec.trace()
    if len(m.units) > 3:
        rec.sample(spec)
