"""C42: texts of one's own built on the prototypes navigate the tree they are given."""
import itertools
from mc import docs
from mc.core import observe
from MyCapytain.common.constants import bind_graph, set_graph
from MyCapytain.common.reference import BaseReference, BaseReferenceSet, Citation, CtsReference, CtsReferenceSet, NodeId
from MyCapytain.resources.prototypes.cts.text import PrototypeCtsNode, PrototypeCtsPassage, PrototypeCtsText
from MyCapytain.resources.prototypes.text import InteractiveTextualNode, TextualGraph, TextualNode

PROPERTY = "C42"
BOUNDS = {"quick": "every tree of <=3 levels and <=3x2x2 units, 4 ways of naming units (strings, reference objects, numbers and empty strings in two places); 3 base classes x 2 ways of saying the tree (given when made; told by the class); every sequence of <=3 of the 6 moves from every node, with all 11 readings, before and after the moves; reading orders of two readings on one node; the bare identifiers NodeId with every subset of its parts",
          "thorough": "trees of <=4x3x2 units, sequences of <=4 moves"}

MOVES = ("first", "last", "next", "prev", "parent", "child")


class Tree(object):
    def __init__(self, shape, ids):
        self.ids, self.kids, self.up, self.level = ids, {}, {}, {}
        n = itertools.count()

        def walk(s, depth, up):
            k = next(n)
            self.up[k], self.level[k] = up, depth
            self.kids[k] = [walk(c, depth + 1, k) for c in s]
            return k
        walk(shape, 0, None)
        self.all = sorted(self.kids)

    def id(self, k):
        return None if k is None else NAMES[self.ids](k)

    def node(self, ident):
        return [k for k in self.all if self.id(k) == ident and type(self.id(k)) is type(ident)][0]

    def sibling(self, k, step):
        same = [x for x in self.all if self.level[x] == self.level[k]]
        i = same.index(k) + step
        return same[i] if 0 <= i < len(same) else None

    def move(self, k, name):
        if name in ("next", "prev"):
            return self.sibling(k, 1 if name == "next" else -1)
        if name == "parent":
            return self.up[k]
        if not self.kids[k]:
            return None
        return self.kids[k][{"first": 0, "last": -1, "child": len(self.kids[k]) // 2}[name]]


NAMES = {"text": lambda k: "n%d" % k, "reference": lambda k: CtsReference("%d.1" % k) if k % 2 else BaseReference("r%d" % k), "odd": lambda k: ["", 0, "None", "-", "a b"][k] if k < 5 else k,
         "odd later": lambda k: ["a", " ", "", 0, "0"][k] if k < 5 else k}
BASES = {"node": InteractiveTextualNode, "cts": PrototypeCtsNode, "passage": PrototypeCtsPassage}


def given(tree, base):
    """the tree is told to the constructor"""
    class Given(BASES[base]):
        def getTextualNode(self, subreference):
            return make(tree.node(subreference))

    def make(k):
        args = {"identifier" if base == "node" else "urn": "urn:cts:a:b.c.d:%d" % k}
        if tree.kids[k] or k % 2:
            args["children"] = [tree.id(x) for x in tree.kids[k]]
        else:
            args["children"] = []
        if tree.up[k] is not None:
            args["parent"] = tree.id(tree.up[k])
        sib = tuple(tree.id(tree.sibling(k, s)) for s in (-1, 1))
        if sib != (None, None) or k % 2:
            args["siblings"] = sib
        return Given(depth=tree.level[k], **args)
    return make


def told(tree, base):
    """the class answers itself, its children being looked for"""
    class Told(BASES[base]):
        k = None

        def getTextualNode(self, subreference):
            return make(tree.node(subreference))

        def getReffs(self, level=1, subreference=None):
            here = [self.k if subreference is None else tree.node(subreference)]
            for _ in range(level):
                here = [c for x in here for c in tree.kids[x]]
            return BaseReferenceSet([tree.id(x) for x in here], level=level)
        prevId = property(lambda self: tree.id(tree.sibling(self.k, -1)))
        nextId = property(lambda self: tree.id(tree.sibling(self.k, 1)))
        parentId = property(lambda self: tree.id(tree.up[self.k]))
        depth = property(lambda self: tree.level[self.k])

    def make(k):
        o = Told(**{"identifier" if base == "node" else "urn": "urn:cts:a:b.c.d:%d" % k})
        o.k = k
        return o
    return make


def same(x):
    return [type(x).__name__, list(x) if isinstance(x, tuple) else x]


READ = {
    "id": lambda o: o.id, "depth": lambda o: o.depth, "childIds": lambda o: [same(x) for x in o.childIds], "firstId": lambda o: same(o.firstId), "lastId": lambda o: same(o.lastId),
    "nextId": lambda o: same(o.nextId), "prevId": lambda o: same(o.prevId), "siblingsId": lambda o: [same(x) for x in o.siblingsId], "parentId": lambda o: same(o.parentId),
    "children": lambda o: [x.id for x in o.children],
    "neighbours": lambda o: [x.id if x is not None else None for x in (o.first, o.last, o.next, o.prev)],
}


def urn(k):
    return None if k is None else "urn:cts:a:b.c.d:%d" % k


def want(tree, k):
    kids = tree.kids[k]
    i = tree.id
    return {"id": urn(k), "depth": tree.level[k], "childIds": [same(i(x)) for x in kids], "firstId": same(i(kids[0]) if kids else None), "lastId": same(i(kids[-1]) if kids else None),
            "nextId": same(i(tree.sibling(k, 1))), "prevId": same(i(tree.sibling(k, -1))), "siblingsId": [same(i(tree.sibling(k, s))) for s in (-1, 1)], "parentId": same(i(tree.up[k])),
            "children": [urn(x) for x in kids], "neighbours": [urn(tree.move(k, m)) for m in ("first", "last", "next", "prev")]}


def cases(tier):
    q = tier == "quick"
    shapes = [[]]
    for d in (1, 2, 3):
        shapes += docs.shapes(d, [3, 2, 2] if q else [4, 3, 2])
    shapes += [[[], [[], [[]]]], [[[[[]]]], [], [[]]]]        # leaves at several depths
    if q:
        shapes = [s for s in shapes if count(s) < 13]
    for ids in NAMES:
        for base in BASES:
            for how in ("given", "told"):
                for s in shapes:
                    yield {"m": "walk", "ids": ids, "base": base, "how": how, "shape": s, "n": 3 if q else 4}
    for s in shapes:
        yield {"m": "reffs", "shape": s}
    yield {"m": "ids"}


def count(shape):
    return 1 + sum(count(s) for s in shape)


def move(o, name):
    if name == "child":
        c = list(o.children)
        return c[len(c) // 2] if c else None
    if name == "parent" and o.parentId is None:
        return None
    return getattr(o, name)


def reset():
    set_graph(bind_graph())


def run(case, rec):
    if case["m"] == "ids":
        return ids(rec)
    if case["m"] == "reffs":
        return reffs(case, rec)
    tree = Tree(case["shape"], case["ids"])
    make = (given if case["how"] == "given" else told)(tree, case["base"])
    wants = [want(tree, k) for k in tree.all]
    for k in tree.all:
        rec.state([case, k])
        for a, b in itertools.product(READ, repeat=2):
            o = make(k)
            for r in (a, b, a):
                rec.check(observe(READ[r], o), ("ok", wants[k][r]), "%s of unit %d after %s" % (r, k, a))
    # moves, the node and what it says being read at each step
    frontier = [(make(0), 0, ())]
    for step in range(case["n"]):
        new = []
        for o, k, hist in frontier:
            for m in MOVES:
                got = observe(move, o, m)
                to = tree.move(k, m)
                h = hist + (m,)
                if not rec.check((got[0], None if got[1] is None else getattr(got[1], "id", got[1])), ("ok", urn(to)), "unit reached by %r" % (h,)):
                    return
                rec.step()
                if to is not None:
                    rec.check({r: observe(READ[r], got[1]) for r in READ}, {r: ("ok", v) for r, v in wants[to].items()}, "what is read of the unit reached by %r" % (h,))
                    new.append((got[1], to, h))
        # what was read and moved from stays as it is
        for o, k, hist in frontier:
            rec.check({r: observe(READ[r], o) for r in READ}, {r: ("ok", v) for r, v in wants[k].items()}, "what is read at %r after moving on" % (hist,))
        rec.trace()
        seen = set()
        frontier = [x for x in new if (x[1], x[2][-1]) not in seen and not seen.add((x[1], x[2][-1]))]
    rec.sample(case)


def reffs(case, rec):
    """references of every level of a CTS text"""
    tree = Tree(case["shape"], "text")
    deep = max(tree.level.values())

    class Text(PrototypeCtsText):
        def getReffs(self, level=1, subreference=None):
            if level > len(self.citation):
                raise ValueError
            return CtsReferenceSet([CtsReference(str(k)) for k in tree.all if tree.level[k] == level], level=level)

    for n in range(1, deep + 1):
        c = None
        for i in reversed(range(n)):
            c = Citation(name="l%d" % i, refsDecl="/tei:TEI" + "".join("/tei:div[@n='$%d']" % (j + 1) for j in range(i + 1)), child=c)
        t = Text(urn="urn:cts:a:b.c.d", citation=c)
        w = [str(k) for level in range(1, n + 1) for k in tree.all if tree.level[k] == level]
        for _ in (1, 2):
            rec.check([str(r) for r in t.reffs], w, "references of %d levels" % n)
        rec.check([str(r) for r in t.childIds], [str(k) for k in tree.kids[0]], "children of the text")
        rec.state([case, n])
    rec.trace()


def ids(rec):
    """identifiers of a node: what it was told, or nothing"""
    parts = {"identifier": ("x", "id", None), "children": (["a", "", "c"], "childIds", []), "parent": ("p", "parentId", None), "siblings": (("u", "v"), "siblingsId", (None, None)), "depth": (3, "depth", None)}
    for cls in (NodeId, TextualNode, TextualGraph):
        for n in range(len(parts) + 1):
            for some in itertools.combinations(parts, n):
                if cls is not NodeId and "identifier" not in some:
                    continue
                args = {p: parts[p][0] for p in some}
                o = observe(lambda: cls(**args))
                rec.state([cls.__name__, some])
                if not rec.check(o[0], "ok", "%s made with %r" % (cls.__name__, args)):
                    return
                o = o[1]
                for p, (value, attr, none) in parts.items():
                    rec.check(getattr(o, attr), value if p in some else none, "%s of a %s made with %r" % (attr, cls.__name__, args))
                kids = args.get("children", [])
                rec.check((o.firstId, o.lastId), (kids[0], kids[-1]) if kids else (None, None), "first and last identifiers of %s made with %r" % (cls.__name__, args))
                rec.check((o.prevId, o.nextId), args.get("siblings", (None, None)), "neighbours of %s made with %r" % (cls.__name__, args))
                rec.trace()
