"""C12: walking from passage range to passage range."""
import itertools
from mc import docs
from mc.core import observe
from mc.docs import dot
from mc.checks.c07_reffs import specs, special, reset, URN
from mc.checks.c08_single import read
from MyCapytain.common.reference import CtsReference
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

PROPERTY = "C12"
BOUNDS = {"quick": "documents of <=6 | <=3x<=3 | <=2x<=2x<=2, 7x1x2 and 2x3x2 units, 3 schemes; every range between two units of one level, every order of reading prev/next/siblings/children/first/last twice, the passages reached and one further step; words pointed at in either end; every range between units of different levels",
          "thorough": "<=8 | <=3x<=4 | <=3x<=2x<=2 units (4 levels for a few), 7 schemes"}
READS = ("prevId", "nextId", "siblingsId", "childIds", "firstId", "lastId", "prev", "next")


def cases(tier):
    for spec in special(tier):
        yield dict(spec, all=False)
    q = tier == "quick"
    sh = docs.shapes(1, [6 if q else 8]) + docs.shapes(2, [3, 3 if q else 4]) + docs.shapes(3, [2 if q else 3, 2, 2])
    # three levels with many units of the middle one: neither the level above nor below counts as many
    sh += [[[[[], []]] for _ in range(7)], [[[[], []] for _ in range(3)] for _ in range(2)]]
    for shape in sh:
        for scheme in ("child", "typed", "same") if q else docs.SCHEMES:
            spec = {"shape": shape, "scheme": scheme, "labels": "odd", "content": "unique", "noise": "between", "wrap": 0}
            n = len(docs.Model(spec).units)
            if n <= 8 or scheme == "typed" and (n <= 12 or not q) or scheme == "child" and n > 16:
                yield dict(spec, all=not q)


def expand(m, ref, n):
    """units of level n a reference stands for"""
    if ref is None:
        return None
    ref = str(ref)
    a, _, b = ref.partition("-")
    return m.between(tuple(a.split(".")), tuple((b or a).split(".")), n)


def around(level, a, b):
    i, j = level.index(a), level.index(b)
    n = j - i + 1
    return level[max(0, i - n):i] or None, level[j + 1:j + 1 + n] or None


def run(spec, rec):
    m = docs.Model(spec)
    src = docs.Source(spec)
    big = spec.get("all", False)
    text = CapitainsCtsText(resource=docs.xml(spec), urn=URN)
    for n in range(1, m.depth + 1):
        level = m.level(n)
        for a, b in itertools.combinations_with_replacement(level, 2):
            ref = dot(a) + "-" + dot(b)
            prev, nxt = around(level, a, b)
            kids = [dot(r) for r in m.between(a, b, n + 1)] if n < m.depth else []
            # words pointed at in the ends change nothing of what lies around
            for x, y in (("@w", "@v[2]"), ("", "@v"), ("@w[3]", "")) if len(m.units) <= 6 else ():
                for name in ("siblingsId", "childIds", "next", "prev"):
                    wref = dot(a) + x + "-" + dot(b) + y
                    at = text.getTextualNode(wref)
                    rec.state([spec, wref, name])
                    what = "%s of %s" % (name, wref)
                    rec.check((str(at.reference), str(at.urn), at.depth), (wref, URN + ":" + wref, n), what + ": identity")
                    rec.check(read(at), src.window(a, b), what + ": content")
                    v = getattr(at, name)
                    if name == "siblingsId":
                        rec.check([expand(m, o, n) for o in v], [prev, nxt], what)
                    elif name == "childIds":
                        rec.check([str(o) for o in v], kids, what)
                    else:
                        w = nxt if name == "next" else prev
                        if rec.check(v is None, w is None, what) and w:
                            rec.check((expand(m, v.reference, n), read(v)), (w, src.window(w[0], w[-1])), what)
            p = text.getTextualNode(ref)
            up = p.parent
            if n == 1:
                rec.check((p.parentId, up is text), (None, True), "parent of %s" % ref)
            else:
                w = dot(a[:-1]) if a[:-1] == b[:-1] else dot(a[:-1]) + "-" + dot(b[:-1])
                rec.check((str(p.parentId), str(up.reference), str(up.urn)), (w, w, URN + ":" + w), "parent of %s" % ref)
                rec.check(read(up), src.window(a[:-1], b[:-1]), "content of the parent of %s" % ref)
            firsts = READS if len(m.units) <= 5 or big else ("next", "prev")
            for seq in itertools.product(firsts, READS if len(m.units) <= 5 or big else ("next", "prev", "siblingsId", "childIds", "lastId")):
                p = text.getTextualNode(ref)
                rec.state([spec, ref, seq])
                for i, name in enumerate(seq):
                    v = getattr(p, name)
                    what = "%s of %s after %s" % (name, ref, list(seq[:i]))
                    if name == "siblingsId":
                        rec.check([expand(m, x, n) for x in v], [prev, nxt], what)
                    elif name in ("prevId", "nextId"):
                        rec.check(expand(m, v, n), prev if name == "prevId" else nxt, what)
                    elif name == "childIds":
                        rec.check([str(x) for x in v], kids, what)
                    elif name in ("firstId", "lastId"):
                        rec.check(None if v is None else str(v), kids[0 if name == "firstId" else -1] if kids else None, what)
                    else:
                        w = prev if name == "prev" else nxt
                        if rec.check(v is None, w is None, what) and w and i == 0:
                            rec.check(expand(m, v.reference, n), w, what)
                            rec.check(read(v), src.window(w[0], w[-1]), what + ": content")
                            rec.check(str(v.urn).startswith(URN + ":") and expand(m, str(v.urn)[len(URN) + 1:], n), w, what + ": urn")
                            if seq[1] == name:
                                p2, n2 = around(level, w[0], w[-1])
                                rec.check([expand(m, x, n) for x in v.siblingsId], [p2, n2], what + ": its own siblings")
    for a, b in m.ranges():
        if len(a) != len(b):
            ref = dot(a) + "-" + dot(b)
            for name in READS:
                rec.check(observe(getattr, text.getTextualNode(ref), name), ("err", "InvalidSiblingRequest"), "%s of %s" % (name, ref))
    rec.trace()
    rec.sample(spec)
