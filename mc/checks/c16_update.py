"""C16: merging works and textgroups coming from several sources."""
import itertools
from mc.core import observe
from MyCapytain.common.constants import bind_graph, get_graph, set_graph
from MyCapytain.common.reference import Citation
from MyCapytain.resources.collections import cts as X
from MyCapytain.resources.prototypes.cts import inventory as P
from rdflib import Literal
from rdflib.namespace import DC

PROPERTY = "C16"
BOUNDS = {"quick": "textgroups with every subset of 2 works x every subset of 2 texts (25 configurations): every pair (self, other) in 2 class families with and without an inventory, every merge chain of 3 textgroups, self-merge and repeated merge; works with every subset of 3 texts: every pair and triple; mismatched URNs and types",
          "thorough": "3 works x 2 texts (125 configurations), every pair; chains of 4 over 25 configurations"}
TG = "urn:cts:latinLit:phi1"
FAM = {
    "xml": (X.XmlCtsTextInventoryMetadata, X.XmlCtsTextgroupMetadata, X.XmlCtsWorkMetadata,
            (X.XmlCtsEditionMetadata, X.XmlCtsTranslationMetadata, X.XmlCtsCommentaryMetadata)),
    "proto": (P.CtsTextInventoryMetadata, P.CtsTextgroupMetadata, P.CtsWorkMetadata,
              (P.CtsEditionMetadata, P.CtsTranslationMetadata, P.CtsCommentaryMetadata)),
}
TXT = ["e", "t", "c"]


def build(conf, origin, fam, inv=None, urn=TG):
    """conf: per work None (absent) or the list of its texts"""
    _, T, W, L = FAM[fam]
    tg = T(urn=urn) if inv is None else T(urn=urn, parent=inv)
    tg.set_cts_property("groupname", "group", "eng")
    for i, texts in enumerate(conf):
        if texts is None:
            continue
        work(texts, origin, fam, "%s.w%d" % (urn, i), tg)
    return tg


def work(texts, origin, fam, urn, parent=None):
    _, T, W, L = FAM[fam]
    w = W(urn=urn) if parent is None else W(urn=urn, parent=parent)
    w.lang = "lat"
    w.set_cts_property("title", "work " + urn[-2:], "eng")
    for k in texts:
        t = L[k](urn="%s.%s" % (urn, TXT[k]), parent=w)
        t.lang = "lat"
        t.docname = "%s/%s" % (origin, t.id)
        t.citation = Citation(name="line", refsDecl="/tei:TEI//tei:l[@n='$1']")
        t.set_cts_property("label", "text " + t.id, "eng")
    return w


def shape(tg):
    """{work: {text: where it comes from}}"""
    return {w.id: {t.id: t.docname for t in w.texts.values()} for w in tg.works.values()}


def want_shape(conf, origin, urn=TG):
    return {"%s.w%d" % (urn, i): {"%s.w%d.%s" % (urn, i, TXT[k]): "%s/%s.w%d.%s" % (origin, urn, i, TXT[k]) for k in t}
            for i, t in enumerate(conf) if t is not None}


def merge(a, b):
    out = {w: dict(t) for w, t in a.items()}
    for w, t in b.items():
        out.setdefault(w, {}).update(t)
    return out


def wired(tg, rec, what, parent):
    """every work and text reachable from tg belongs to it, and is alive in the shared graph"""
    rec.check(tg.parent is parent, True, what + ": parent of the textgroup")
    for key, w in tg.works.items():
        rec.check((key, w.parent is tg), (w.id, True), what + ": work %s" % w.id)
        rec.check([p.id for p in w.parents], [tg.id] + ([parent.id] if parent is not None else []), what + ": ancestors of %s" % w.id)
        for k, t in w.texts.items():
            rec.check((k, t.parent is w), (t.id, True), what + ": text %s" % t.id)
            rec.check([p.id for p in t.parents], [w.id, tg.id] + ([parent.id] if parent is not None else []),
                      what + ": ancestors of %s" % t.id)
            rec.check((str(t.get_label("eng")), t.lang, t.citation.refsDecl, t.citation.name),
                      ("text " + t.id, "lat", "/tei:TEI//tei:l[@n='$1']", "line"), what + ": metadata of %s" % t.id)
        rec.check(str(w.get_label("eng")), "work " + w.id[-2:], what + ": title of %s" % w.id)
        rec.check(w.id in tg and tg[w.id] is w, True, what + ": lookup of %s" % w.id)


def live(tg, rec, what):
    """an edit made through the merged tree is made in the graph everyone shares"""
    for n in list(tg.descendants):
        n.metadata.add(DC.subject, Literal("edited"))
        rec.check((n.asNode(), DC.subject, Literal("edited")) in get_graph(), True, what + ": edit of %s visible" % n.id)
        n.metadata.remove(DC.subject)


def subsets(n):
    return [list(c) for k in range(n + 1) for c in itertools.combinations(range(n), k)]


def confs(works):
    return [list(c) for c in itertools.product([None] + subsets(2), repeat=works)]


def cases(tier):
    n = 2
    cs = confs(2)
    for fam in FAM:
        for a in cs if tier == "quick" else confs(3):
            yield {"m": "pairs", "a": a, "fam": fam, "works": 2 if tier == "quick" else 3}
    for a in cs:
        for b in cs:
            yield {"m": "chain", "a": a, "b": b, "len": 3 if tier == "quick" else 4}
    for fam in FAM:
        for a in subsets(3):
            yield {"m": "work", "a": a, "fam": fam}
    for fam in FAM:
        yield {"m": "refuse", "fam": fam}


def run(case, rec):
    m = case["m"]
    if m == "pairs":
        fam = case["fam"]
        for b in confs(case["works"]):
            for withinv in (False, True):
                set_graph(bind_graph())
                Inv = FAM[fam][0]
                i1 = Inv(name="one") if withinv else None
                i2 = Inv(name="two") if withinv else None
                A, B = build(case["a"], "A", fam, i1), build(b, "B", fam, i2)
                sa, sb = want_shape(case["a"], "A"), want_shape(b, "B")
                for again in (1, 2):
                    r = A.update(B)
                    what = "update number %d by %r" % (again, b)
                    rec.check(r is A, True, what + " returns the left object")
                    rec.check(shape(A), merge(sa, sb), what)
                    rec.check(shape(B), sb, what + " (right object)")
                    wired(A, rec, what, i1)
                    wired(B, rec, what + " (right object)", i2)
                live(A, rec, what)
                rec.check(len(A), sum(map(len, merge(sa, sb).values())), what + ": len")
                rec.state([sa, sb, fam, withinv])
                rec.outcome(merge(sa, sb))
                rec.trace()
        set_graph(bind_graph())
        A = build(case["a"], "A", fam)
        A.update(A)
        rec.check(shape(A), want_shape(case["a"], "A"), "merge with itself")
        wired(A, rec, "merge with itself", None)
        rec.sample({"self": case["a"], "family": fam})
    elif m == "chain":
        cs = confs(2)
        for rest in itertools.product(cs, repeat=case["len"] - 2):
            set_graph(bind_graph())
            seq = [case["a"], case["b"]] + list(rest)
            objs = [build(c, str(k), "xml") for k, c in enumerate(seq)]
            want = want_shape(seq[0], "0")
            for k in range(1, len(seq)):
                objs[0].update(objs[k])
                want = merge(want, want_shape(seq[k], str(k)))
            rec.check(shape(objs[0]), want, "merge of %r" % seq)
            wired(objs[0], rec, "merge of %r" % seq, None)
            for k in range(1, len(seq)):
                rec.check(shape(objs[k]), want_shape(seq[k], str(k)), "source %d of the merge of %r" % (k, seq))
            rec.state(seq)
            rec.trace()
    elif m == "work":
        fam = case["fam"]
        for b in subsets(3):
            for c in [None] + subsets(3):
                set_graph(bind_graph())
                tg = build([], "T", fam)
                A = work(case["a"], "A", fam, TG + ".w0", tg)
                want = {TXT[k]: "A" for k in case["a"]}
                for o, conf in (("B", b), ("C", c)):
                    if conf is None:
                        continue
                    r = A.update(work(conf, o, fam, TG + ".w0"))
                    rec.check(r is A, True, "update returns the left object")
                    want.update({TXT[k]: o for k in conf})
                    rec.check({t.id[-1]: t.docname[0] for t in A.texts.values()}, want, "work merge %r %r %r" % (case["a"], b, c))
                    rec.check([t.parent is A for t in A.texts.values()], [True] * len(want), "texts belong to the work")
                    rec.check([k == t.id for k, t in A.texts.items()], [True] * len(want), "texts are found by their URN")
                    rec.check(A.parent is tg and len(A) == len(want), True, "the left work keeps its parent")
                rec.check(sorted(t.id[-1] for t in A.get_translation_in()), ["t"] if "t" in want else [], "translations")
                rec.state([case["a"], b, c, fam])
                rec.trace()
    else:
        fam = case["fam"]
        set_graph(bind_graph())
        mk = {
            "tg": lambda: build([[0, 1]], "A", fam), "tg2": lambda: build([[0]], "B", fam, urn="urn:cts:latinLit:phi12"),
            "tg3": lambda: build([[0]], "B", fam, urn="urn:cts:greekLit:phi1"),
            "tg4": lambda: build([[0]], "B", fam, urn="urn:cts:latinLit:phi"),
            "work": lambda: work([0], "A", fam, TG + ".w0"), "work2": lambda: work([1], "A", fam, TG + ".w01"),
            "work3": lambda: work([1], "A", fam, "urn:cts:greekLit:phi1.w0"), "work4": lambda: work([1], "A", fam, "urn:cts:latinLit:phi12.w0"),
            "inv": lambda: FAM[fam][0](name="i"), "str": lambda: TG, "none": lambda: None,
        }
        for l in [k for k in mk if k[:2] in ("tg", "wo")]:
            for r in mk:
                A, B = mk[l](), mk[r]()
                before = [x.id for x in A.descendants]
                beforeB = [x.id for x in getattr(B, "descendants", [])]
                got = observe(A.update, B)
                if l == r:
                    want = "ok"
                elif l[:2] == r[:2]:
                    want = "InvalidURN"
                else:
                    want = "TypeError"
                rec.check(got[0] if got[0] == "ok" else got[1], want, "%s.update(%s)" % (l, r))
                if want != "ok":
                    rec.check([x.id for x in A.descendants], before, "a refused merge changes nothing")
                    rec.check([x.id for x in getattr(B, "descendants", [])], beforeB, "a refused merge changes nothing on the other side")
                rec.state([l, r, want])
