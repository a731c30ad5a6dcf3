"""C11: walking from passage to passage."""
import itertools
from mc import docs
from mc.core import observe
from mc.docs import dot
from mc.checks.c07_reffs import specs, special, reset, URN
from mc.checks.c08_single import read
from MyCapytain.common.reference import CtsReference
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

PROPERTY = "C11"
BOUNDS = {"quick": "documents of <=4 | <=3x<=2 | <=2x<=2x<=2 units (4 levels for a few), 7 schemes, 2 label sets; from every unit (full and simple passages) every sequence of <=2 reads of {prev,next,siblings,children,first,last,parent: ids and passages} on one object, every walk of <=3 moves over {prev,next,first,last,parent}; passages extracted out of other passages; units in which a word is pointed at; every level read end to end forwards and backwards",
          "thorough": "<=5 | <=3x<=3 | <=2x<=2x<=2 units; 3 reads; walks of <=4 moves"}

READS = ("prevId", "nextId", "siblingsId", "childIds", "firstId", "lastId", "prev", "next", "first", "last", "children", "parentId", "parent")


def cases(tier):
    for spec in special(tier):
        yield dict(spec, reads=2, moves=2)
    q = tier == "quick"
    for spec in specs(tier, contents=("unique",), labels=("odd",) if q else ("odd", "seq"), noises=("head between",), wraps=(0, 2)):
        n = len(docs.Model(spec).units)
        main = spec["scheme"] in ("typed", "child") and not spec["wrap"]
        if n <= (5 if q else 11) or (n <= 6 and spec["scheme"] != "deep") or main and n <= (10 if q else 14):
            yield dict(spec, reads=2 if q or n > 6 else 3, moves=(3 if n <= 5 else 2) if q or n > 6 else 4)


def s(x):
    return None if x is None else str(x)


class Oracle(object):
    def __init__(self, m):
        self.m = m

    def siblings(self, r):
        level = self.m.level(len(r))
        i = level.index(r)
        return (level[i - 1] if i else None, level[i + 1] if i + 1 < len(level) else None)

    def value(self, name, r):
        """expected answer: ('id', ref) ('ids', refs)"""
        if r == ():
            prev, nxt, kids = None, None, self.m.level(1)
        else:
            prev, nxt = self.siblings(r)
            kids = self.m.children(r)
        d = {"prevId": prev, "nextId": nxt, "firstId": kids[0] if kids else None, "lastId": kids[-1] if kids else None,
             "siblingsId": [prev, nxt], "childIds": kids, "children": kids}
        d["parentId"] = d["parent"] = r[:-1] if len(r) > 1 else None
        d.update(prev=d["prevId"], next=d["nextId"], first=d["firstId"], last=d["lastId"])
        return d[name]


def dots(v):
    if v is None:
        return None
    return [dots(x) for x in v] if isinstance(v, list) else dot(v)


def run(spec, rec):
    m = docs.Model(spec)
    src = docs.Source(spec)
    o = Oracle(m)
    text = CapitainsCtsText(resource=docs.xml(spec), urn=URN)

    def passage(x, r, what):
        """a passage object standing for r"""
        rec.check((str(x.reference), x.depth, str(x.urn)), (dot(r), len(r), URN + ":" + dot(r)), what + ": identity")

    def read_one(p, name, r, what):
        v = getattr(p, name)
        w = o.value(name, r)
        if name in ("siblingsId", "childIds"):
            rec.check([s(x) for x in v], dots(w), what)
        elif name == "children":
            v = list(v)
            if rec.check([str(x.reference) for x in v], dots(w), what):
                for x, c in zip(v, w):
                    passage(x, c, what)
        elif name == "parent" and len(r) == 1:
            rec.check(v is text, True, what + " is the text")
        elif name.endswith("Id"):
            rec.check(s(v), dots(w), what)
        else:
            if rec.check(v is None, w is None, what) and v is not None:
                passage(v, w, what)
        return v

    starts = [(r, simple) for r in m.units for simple in (False, True)]
    for r, simple in starts:
        firsts = READS if spec["reads"] > 2 or len(m.units) <= 5 else ("siblingsId", "childIds", "next", "first")
        for seq in itertools.product(*[firsts] + [READS] * (spec["reads"] - 1)):
            p = text.getTextualNode(dot(r), simple=simple)
            rec.state([spec, r, simple, seq])
            for i, name in enumerate(seq):
                read_one(p, name, r, "%s of %s%s after %s" % (name, "simple " if simple else "", dot(r), list(seq[:i])))
    # passages reached through another passage, and not from the text
    if len(m.units) <= 6:
        for r in m.units:
            for via in [r[:k] for k in range(1, len(r))] + [m.level(1)[-1]]:
                for simple in (False, True):
                    for seq in itertools.product(("siblingsId", "childIds", "next", "prev"), ("prevId", "next", "children")):
                        p = text.getTextualNode(dot(via), simple=simple)
                        if not simple and r[:len(via)] != via:
                            continue
                        p = p.getTextualNode(dot(r))
                        rec.state([spec, r, via, simple, "through", seq])
                        for i, name in enumerate(seq):
                            read_one(p, name, r, "%s of %s extracted from %s%s, after %s" % (name, dot(r), "simple " if simple else "", dot(via), list(seq[:i])))
    # a unit in which a word is pointed at has the relatives of the unit
    if len(m.units) <= 4 or (len(m.units) <= 6 and spec["labels"] == "marks"):
        for (r, simple), word in itertools.product(starts, ("@w[2]",) if len(m.units) > 3 else ("@w", "@w[2]")):
            for name in READS:
                p = text.getTextualNode(dot(r) + word, simple=simple)
                what = "%s of %s%s%s" % (name, "simple " if simple else "", dot(r), word)
                rec.state([spec, r, simple, word, name])
                rec.check((str(p.reference), p.depth, str(p.urn)), (dot(r) + word, len(r), URN + ":" + dot(r) + word), what + ": identity")
                rec.check(docs.ordered_texts(docs.plain(p.resource)), src.window(r, r)[1], what + ": text")
                if name == "parentId" and len(r) > 1:
                    rec.check(s(p.parentId), dot(r[:-1]) + word, what)
                elif name == "parent" and len(r) > 1:
                    rec.check(docs.ordered_texts(docs.plain(p.parent.resource)), src.window(r[:-1], r[:-1])[1], what)
                else:
                    read_one(p, name, r, what)
            if len(r) < m.depth:
                rec.check([str(x) for x in text.getReffs(level=len(r) + 1, subreference=dot(r) + word)], [dot(x) for x in m.children(r)], "references under %s%s" % (dot(r), word))
    # the whole text offers its children
    for simple in (False, True):
        whole = text.getTextualNode() if simple else text
        for seq in itertools.product(("childIds", "firstId", "lastId", "first", "last", "children") + (("prevId", "nextId", "siblingsId", "parentId", "parent") if simple else ()), repeat=2):
            for i, name in enumerate(seq):
                read_one(whole, name, (), "%s of the text after %s" % (name, list(seq[:i])))

    # every walk
    seen = set()
    frontier = [(r, simple, text.getTextualNode(dot(r), simple=simple), 0, ()) for r, simple in starts]
    while frontier:
        r, simple, p, d, hist = frontier.pop()
        if d == spec["moves"]:
            x = docs.plain(p.resource)
            k = (r, simple, hist[:1])
            if k not in seen:
                seen.add(k)
                rec.check(docs.ordered_texts(x), src.window(r, r)[1], "text of %s reached by %s" % (dot(r), hist))
            continue
        for name in ("prev", "next", "first", "last", "parent"):
            w = o.value(name, r)
            h = hist + (name,)
            v = getattr(p, name)
            rec.state([spec, r, simple, h])
            if name == "parent" and len(r) == 1:
                rec.check(v is text, True, "parent after %s is the text" % (h,))
                continue
            if rec.check(v is None, w is None, "%s from %s after %s" % (name, dot(r), hist)) and v is not None:
                passage(v, w, "after %s" % (h,))
                frontier.append((w, simple, v, d + 1, h))
    # reading a level end to end
    for n in range(1, m.depth + 1):
        for name, order in (("next", m.level(n)), ("prev", m.level(n)[::-1])):
            for simple in (False, True):
                p, got = text.getTextualNode(dot(order[0]), simple=simple), []
                while p is not None and len(got) <= len(order):
                    got.append((str(p.reference), docs.ordered_texts(docs.plain(p.resource))))
                    p = getattr(p, name)
                rec.check(got, [(dot(r), src.window(r, r)[1]) for r in order], "level %d read by %s" % (n, name))
    rec.trace()
    if len(m.units) > 3:
        rec.sample(spec)
