"""C15: operations on the tree of collections."""
from mc.core import observe
from MyCapytain.common.constants import bind_graph, set_graph, RDF_NAMESPACES
from MyCapytain.resources.collections.cts import (
    XmlCtsCommentaryMetadata, XmlCtsEditionMetadata, XmlCtsTextgroupMetadata, XmlCtsTextInventoryMetadata,
    XmlCtsTranslationMetadata, XmlCtsWorkMetadata)
from MyCapytain.resources.prototypes.metadata import Collection
from rdflib import Literal, RDFS, URIRef
from rdflib.namespace import DC

PROPERTY = "C15"
BOUNDS = {"quick": "a root and 3 generic collections (identifiers sharing prefixes): every history of <=5 operations among attach (top-down and bottom-up), attach a second collection with an identifier already taken, delete through the collection itself or any of its ancestors (direct or through a descendant key), add a label, create anew what was deleted; CTS trees of an inventory, 2 textgroups, 3 works, 5 texts: every order of attaching the 11 nodes of 2 trees up to depth 3 followed by every pair of deletions, and the nodes made under their parents with and without a language; the whole observable state compared after every history",
          "thorough": "a root and 4 collections, histories of <=6 operations; every triple of deletions"}
IDS = ["http://x/r", "http://x/a", "http://x/a1", "urn:b", "http://x/c"]


class World(object):
    """real objects and model side by side"""

    def __init__(self, ids, make):
        set_graph(bind_graph())
        self.make = make
        self.obj, self.kids, self.parent, self.meta = {}, {}, {}, {}
        self.gone, self.buried = set(), {}
        self.lang = {}
        for i in ids:
            self.new(i)

    def new(self, i):
        o = self.make(i)
        o.set_label("label " + i, "eng")
        o.metadata.add(DC.title, Literal("title " + i, lang="lat"))
        self.obj[i], self.kids[i], self.parent[i] = o, [], None
        self.meta[i] = {("label", "eng"): "label " + i, ("title", "lat"): "title " + i}
        self.gone.discard(i)

    def under(self, i):
        out = list(self.kids[i])
        for k in self.kids[i]:
            out += self.under(k)
        return out

    def up(self, i):
        out = []
        while self.parent[i] is not None:
            i = self.parent[i]
            out.append(i)
        return out

    def enabled(self, ids):
        ev = []
        alive = [i for i in ids if i in self.obj]
        for x in alive:
            if x != ids[0] and self.parent[x] is None:
                for p in alive:
                    if p != x and p not in self.under(x):
                        ev.append(("attach", x, p))
            if self.parent[x] is not None:
                ev.append(("dup", x, self.parent[x]))
                for h in self.up(x) + [x]:
                    ev.append(("delete", h, x))
            if ("label", "fre") not in self.meta[x]:
                ev.append(("label", x))
        for x in ids:
            if x in self.gone:
                ev.append(("new", x))
        return ev

    def do(self, ev):
        k = ev[0]
        if k == "attach":
            self.obj[ev[1]].parent = self.obj[ev[2]]
            self.parent[ev[1]] = ev[2]
            self.kids[ev[2]].append(ev[1])
        elif k == "dup":
            o = self.make(ev[1])
            o.parent = self.obj[ev[2]]
        elif k == "delete":
            h, x = ev[1], ev[2]
            del self.obj[h][x]
            self.kids[self.parent[x]].remove(x)
            for d in self.under(x):
                self.buried[d] = (self.obj[d], dict(self.meta[d]))
                del self.obj[d]
            del self.obj[x]
            self.gone.add(x)
        elif k == "label":
            self.obj[ev[1]].set_label("étiquette " + ev[1], "fre")
            self.meta[ev[1]]["label", "fre"] = "étiquette " + ev[1]
        elif k == "new":
            self.new(ev[1])

    def key(self):
        return [[i, self.kids[i], self.parent[i], sorted(map(str, self.meta[i].items()))] for i in sorted(self.obj)]


def compare(w, ids, rec, hist):
    for i in w.obj:
        o = w.obj[i]
        got = {
            "id": o.id, "members": [m.id for m in o.members], "size": o.size,
            "children": list(o.children), "descendants": [m.id for m in o.descendants],
            "parent": o.parent.id if o.parent is not None else None, "parents": [m.id for m in o.parents],
            "type": str(o.type), "model": str(o.model),
            "label": sorted((x.language, str(x)) for x in o.graph.objects(o.asNode(), RDFS.label)),
            "title": [(str(x), x.language) for x in o.metadata[DC.title]],
            "in": [j in o for j in ids + ["http://x", "zz"]],
            "same": [m is w.obj[m.id] for m in o.members] + [p is w.obj[p.id] for p in o.parents],
        }
        below = w.under(i)
        want = {
            "id": i, "members": w.kids[i], "size": len(w.kids[i]), "children": w.kids[i], "descendants": below,
            "parent": w.parent[i], "parents": w.up(i), "type": str(o.TYPE_URI), "model": str(o.MODEL_URI),
            "label": sorted((l, v) for (k, l), v in w.meta[i].items() if k == "label"),
            "title": [("title " + i, "lat")],
            "in": [j in below or j == i for j in ids + ["http://x", "zz"]],
            "same": [True] * (len(w.kids[i]) + len(w.up(i))),
        }
        for f in want:
            if got[f] != want[f]:
                rec.violation("%s of %s after %r: got %r, expected %r" % (f, i, hist, got[f], want[f]))
                return False
        for lang in ("eng", "fre"):
            v = w.meta[i].get(("label", lang))
            if v is not None and str(o.get_label(lang)) != v:
                rec.violation("label %s of %s after %r: %r" % (lang, i, hist, o.get_label(lang)))
                return False
        for j in ids + ["zz"]:
            r = observe(lambda: o[j])
            ok = r[0] == "ok" and r[1] is w.obj[j] if (j in below or j == i) else r == ("err", "UnknownCollection")
            if not ok:
                rec.violation("%s[%s] after %r: %r" % (i, j, hist, r))
                return False
        rec.step(len(want) + len(ids) + 3)
    for i, (o, meta) in w.buried.items():
        # members of a deleted collection: still there, with what was said of them
        rec.step()
        got = (sorted((x.language, str(x)) for x in o.graph.objects(o.asNode(), RDFS.label)),
               [(str(x), x.language) for x in o.metadata[DC.title]], str(o.type), str(o.model))
        want = (sorted((l, v) for (k, l), v in meta.items() if k == "label"), [("title " + i, "lat")], str(o.TYPE_URI), str(o.MODEL_URI))
        if got != want:
            rec.violation("%s, member of a deleted collection, after %r: got %r, expected %r" % (i, hist, got, want))
            return False
    for x in w.gone:
        g = next(iter(w.obj.values())).graph
        left = list(g.triples((URIRef(x), None, None))) + list(g.triples((None, None, URIRef(x))))
        if left:
            rec.violation("%s was deleted (%r) and the graph still says %r" % (x, hist, left))
            return False
    return True


# ------------------------------------------------------------------ CTS trees
U = "urn:cts:latinLit:"
TREES = [
    [("inv", None, None), (U + "phi1", "inv", "tg"), (U + "phi12", "inv", "tg"), (U + "phi1.a", U + "phi1", "work"),
     (U + "phi1.a1", U + "phi1", "work"), (U + "phi12.a", U + "phi12", "work"), (U + "phi1.a.e", U + "phi1.a", "edition"),
     (U + "phi1.a.t1", U + "phi1.a", "translation"), (U + "phi1.a.c", U + "phi1.a", "commentary"),
     (U + "phi12.a.t", U + "phi12.a", "translation"), (U + "phi1.a.t", U + "phi1.a", "translation")],
]
LANGS = ["grc", "ger", "eng", "gr"]     # one is the beginning of another
CLS = {"tg": XmlCtsTextgroupMetadata, "work": XmlCtsWorkMetadata, "edition": XmlCtsEditionMetadata,
       "translation": XmlCtsTranslationMetadata, "commentary": XmlCtsCommentaryMetadata}


def cts_world(tree, order, made=None):
    w = World([], None)
    if made is not None:
        # each node is made under its parent, every other text (or all) without a language
        for n, (i, p, kind) in enumerate(tree):
            if kind is None:
                o = XmlCtsTextInventoryMetadata(name=i)
            elif kind in ("tg", "work"):
                o = CLS[kind](urn=i, parent=w.obj[p])
            elif (n + made) % 2 or made == 2:
                o = CLS[kind](urn=i, parent=w.obj[p])
                w.lang[i] = w.lang[p]
            else:
                o = CLS[kind](i, w.obj[p], LANGS[n % 3])
                w.lang[i] = LANGS[n % 3]
            if kind == "work":
                o.lang = w.lang[i] = LANGS[(n + 2) % 4]
            w.obj[i], w.kids[i], w.parent[i] = o, [], p
            if p is not None:
                w.kids[p].append(i)
            o.set_label("label " + i, "eng")
            o.metadata.add(DC.title, Literal("title " + i, lang="lat"))
            w.meta[i] = {("label", "eng"): "label " + i}
        return w
    for n, (i, p, kind) in enumerate(tree):
        o = XmlCtsTextInventoryMetadata(name=i) if kind is None else CLS[kind](urn=i)
        if kind in ("work", "edition", "translation", "commentary"):
            o.lang = LANGS[(n + 2) % 4]
        w.obj[i], w.kids[i], w.parent[i] = o, [], None
        o.set_label("label " + i, "eng")
        o.metadata.add(DC.title, Literal("title " + i, lang="lat"))
        w.meta[i] = {("label", "eng"): "label " + i}
    for k in order:
        i, p, kind = tree[k]
        w.do(("attach", i, p))
    return w


def cts_compare(w, tree, rec, hist):
    ids = [t[0] for t in tree]
    compare(w, ids, rec, hist)
    kinds = {t[0]: t[2] for t in tree}
    leaf = ("edition", "translation", "commentary")
    for i, o in w.obj.items():
        k = kinds[i]
        if k is not None:
            # equal: same kind, same URN
            twin = CLS[k](urn=i)
            rec.check((o == twin, twin == o, o != twin, o == o, o == i), (True, True, False, True, False), "%s and another object for it" % i)
            for j, x in w.obj.items():
                if kinds[j] is not None:
                    rec.check((o == x, o != x), (i == j, i != j), "%s == %s" % (i, j))
            for c in leaf:
                if k in leaf and c != k:
                    rec.check(CLS[c](urn=i) == o, False, "another kind of text of the same URN as %s" % i)
        texts = [d for d in w.under(i) if kinds[d] in leaf]
        rec.check([x.id for x in o.readableDescendants], texts, "readable descendants of %s after %r" % (i, hist))
        rec.check(o.readable, k in leaf, "readable %s" % i)
        if k not in leaf:
            rec.check(len(o), len(texts), "len of %s after %r" % (i, hist))
        if k == "tg":
            rec.check(list(o.works), w.kids[i], "works of %s" % i)
        if k is None:
            rec.check(list(o.textgroups), w.kids[i], "textgroups of %s" % i)
        if k == "work":
            rec.check(list(o.texts), w.kids[i], "texts of %s" % i)
            tr = [d for d in w.kids[i] if kinds[d] == "translation"]
            rec.check([x.id for x in o.get_translation_in()], tr, "translations of %s after %r" % (i, hist))
            for lang in LANGS + ["zz"]:
                rec.check([x.id for x in o.get_translation_in(lang)], [d for d in tr if w.obj[d].lang == lang],
                          "translations of %s in %s after %r" % (i, lang, hist))
        if k in leaf and w.parent[i] is not None:
            sib = w.kids[w.parent[i]]
            if i in w.lang:
                rec.check(o.lang, w.lang[i], "language of %s, made under %s" % (i, w.parent[i]))
            rec.check([x.id for x in o.editions()], [d for d in sib if kinds[d] == "edition"], "editions of %s" % i)
            for lang in LANGS:
                rec.check([x.id for x in o.translations(lang)],
                          [d for d in sib if kinds[d] == "translation" and w.obj[d].lang == lang], "translations of %s in %s" % (i, lang))


def orders(n, tier):
    """attaching orders: rotations and reversals of the top-down and bottom-up orders"""
    base = list(range(1, n))
    for b in (base, base[::-1]):
        for r in range(0, len(b), 1 if tier != "quick" else 2):
            yield b[r:] + b[:r]


def cases(tier):
    n = 4 if tier == "quick" else 5
    ids = IDS[:n]
    w = World(ids, Collection)
    for e in w.enabled(ids):
        w = World(ids, Collection)
        w.do(e)
        for e2 in w.enabled(ids):
            yield {"g": [e, e2], "n": n, "depth": 5 if tier == "quick" else 6}
        yield {"g": [e], "n": n, "depth": 1}
    for t, tree in enumerate(TREES):
        for order in orders(len(tree), tier):
            yield {"t": t, "order": order, "del": 2 if tier == "quick" else 3}
        for made in (0, 1, 2):
            yield {"t": t, "order": [], "made": made, "del": 1}


def run(case, rec):
    if "g" in case:
        ids = IDS[:case["n"]]
        stack = [[tuple(e) for e in case["g"]]]
        seen = set()
        while stack:
            h = stack.pop()
            w = World(ids, Collection)
            for e in h:
                w.do(e)
            if not compare(w, ids, rec, h):
                return
            rec.trace()
            new = rec.state(w.key())
            rec.outcome([len(w.obj), h[-1][0]])
            if len(h) < case["depth"]:
                # two histories with the same model state and last operation are expanded once
                k = repr((w.key(), h[-1], sorted(w.gone)))
                if k in seen and len(h) >= 3:
                    continue
                seen.add(k)
                for e in w.enabled(ids):
                    stack.append(h + [e])
        rec.sample({"first": case["g"], "ids": ids})
        return
    tree = TREES[case["t"]]
    todo = [[]]
    while todo:
        dels = todo.pop()
        w = cts_world(tree, case["order"], case.get("made"))
        for d in dels:
            w.do(("delete", d[0], d[1]))
        cts_compare(w, tree, rec, dels)
        if rec.violations:
            return
        rec.trace()
        rec.state(["cts", case["order"], case.get("made"), sorted(w.obj)])
        if len(dels) < case["del"]:
            for i in w.obj:
                if w.parent[i] is not None:
                    # alternate the collection the deletion goes through, all of them for the first one
                    hs = w.up(i) if not dels else w.up(i)[-1:]
                    for h in hs:
                        todo.append(dels + [(h, i)])
