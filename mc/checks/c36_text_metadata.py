"""C36: what a text or passage says of itself."""
import itertools
from rdflib import Literal, URIRef
from rdflib.namespace import DC, DCTERMS
from mc import docs, repos
from mc.checks.c07_reffs import reset
from MyCapytain.common.constants import RDF_NAMESPACES, bind_graph, get_graph, set_graph
from MyCapytain.common.metadata import Metadata
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resources.collections.cts import (XmlCtsEditionMetadata, XmlCtsTextgroupMetadata, XmlCtsTextInventoryMetadata,
                                                  XmlCtsTranslationMetadata, XmlCtsWorkMetadata, XmlCtsCommentaryMetadata)
from MyCapytain.resources.texts.base.tei import TeiResource
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

PROPERTY = "C36"
BOUNDS = {"quick": "4 labels (textgroup, work, text, description) each in every subset of {eng, fre} and with or without a second value, 3 kinds of text; the whole text, a full and a simple passage; every getter in 4 languages; through a resolver with and without metadata; every sequence of <=2 edits (creator, title, subject, description; 3 languages) on two passages",
          "thorough": "every sequence of <=3 edits"}

CTS = RDF_NAMESPACES.CTS
KEYS = [("groupname", "creator", DC.creator), ("title", "title", DC.title), ("label", "subject", DC.subject), ("description", "description", DC.description)]
LANGS = [(), ("eng",), ("fre",), ("eng", "fre"), ("eng", "eng")]
ASK = [None, "eng", "fre", "lat"]
SPEC = {"shape": [[[], []], [[]]], "scheme": "typed", "labels": "seq", "content": "unique", "noise": "", "wrap": 0}


def cases(tier):
    for langs in itertools.product(range(len(LANGS)), repeat=4):
        if len([l for l in langs if l == 4]) <= 1:
            yield {"langs": list(langs)}
    yield {"resolver": True}
    ops = [(w, k, l) for w in range(2) for k in range(4) for l in ("eng", "fre", None)]
    for i in range(len(ops)):
        yield {"edits": i, "n": 2 if tier == "quick" else 3}


def values(langs, name):
    return [("%s <%s> %d" % (name, l, i), l) for i, l in enumerate(langs)]


def single(vals, lang):
    """what a single value asked in lang may be"""
    if lang is not None and any(l == lang for v, l in vals):
        return {v for v, l in vals if l == lang}
    return {v for v, l in vals} or {None}


def getters(rec, x, model, what):
    """model: {dc name: [(value, lang)]}"""
    for cts, name, dc in KEYS:
        for lang in ASK:
            got = getattr(x, "get_" + name)(lang)
            ok = single(model[name], lang)
            rec.check((str(got) if got is not None else None) in ok, True, "%s of %s in %s: %r not in %r" % (name, what, lang, got, sorted(map(str, ok))))
            if got is not None:
                rec.check((str(got), got.language) in model[name], True, "language of the %s of %s: %r" % (name, what, got.language))
        rec.check(sorted((str(v), v.language or "") for v in x.metadata.get(dc)), sorted((v, l or "") for v, l in model[name]), "every %s of %s" % (name, what))


def cts_getters(rec, x, model, what):
    for cts, name, dc in KEYS:
        for lang in ASK:
            got = x.get_cts_metadata(cts, lang)
            ok = single(model[name], lang)
            rec.check((str(got) if got is not None else None) in ok, True, "cts:%s of %s in %s: %r" % (cts, what, lang, got))


def run(case, rec):
    set_graph(bind_graph())
    reset()
    if "resolver" in case:
        return resolver(rec)
    if "edits" in case:
        return edits(case, rec)
    langs = [LANGS[i] for i in case["langs"]]
    model = {name: values(l, name) for (cts, name, dc), l in zip(KEYS, langs)}
    none = {name: [] for cts, name, dc in KEYS}
    for kind, cls in (("edition", XmlCtsEditionMetadata), ("translation", XmlCtsTranslationMetadata), ("commentary", XmlCtsCommentaryMetadata)):
        inv = XmlCtsTextInventoryMetadata("inv")
        tg = XmlCtsTextgroupMetadata("urn:cts:l:g", parent=inv)
        wk = XmlCtsWorkMetadata("urn:cts:l:g.w", parent=tg)
        tx = cls("urn:cts:l:g.w.t", parent=wk)
        tx2 = cls("urn:cts:l:g.w.u", parent=wk)
        for node, (cts, name, dc) in zip((tg, wk, tx, tx), KEYS):
            for v, l in model[name]:
                node.set_cts_property(cts, v, l)
        tx2.set_cts_property("label", "another", "eng")
        for cts, name, dc in KEYS:
            for lang in ASK:
                got = getattr(tx, "get_" + name)(lang)
                rec.check((str(got) if got is not None else None) in single(model[name], lang), True, "%s of the %s of the collection in %s: %r" % (name, kind, lang, got))
                got = getattr(tx2, "get_" + name)(lang)
                want = {"label": {"another"}, "description": {None}}.get(cts) or single(model[name], lang)
                rec.check((str(got) if got is not None else None) in want, True, "%s of its sibling in %s: %r" % (name, lang, got))
        before = set(get_graph())
        text = CapitainsCtsText(resource=docs.xml(SPEC), urn="urn:cts:l:g.w.t")
        objs = [("the text", text), ("a passage", text.getTextualNode("1.1")), ("a simple passage", text.getTextualNode("2", simple=True))]
        other = text.getTextualNode("1.2")
        cite = [[c.name for c in o.citation.root] for n, o in objs]
        for n, o in objs:
            rec.state([case, kind, n])
            getters(rec, o, none, n + " without metadata")
            o.set_metadata_from_collection(tx)
            getters(rec, o, model, "%s of %s with %s" % (n, kind, case["langs"]))
            cts_getters(rec, o, model, "%s of %s with %s" % (n, kind, case["langs"]))
        o.set_metadata_from_collection(tx)
        getters(rec, o, model, "given twice: " + n)
        getters(rec, other, none, "a passage not given metadata")
        rec.check([[c.name for c in o.citation.root] for n, o in objs], cite, "the citation of the text stays")
        rec.check(before - set(get_graph()), set(), "the collections keep their statements")
        rec.check({s for s in set(get_graph()) - before if s[0] in {n.asNode() for n in (inv, tg, wk, tx, tx2)}}, set(), "nothing is added to the collections")
        rec.check(tx.parents[-1] is inv, True, "the tree is the one given")
    rec.trace()
    rec.outcome(case["langs"])
    rec.sample(case)


def resolver(rec):
    T = lambda n, k, l, d: [n, k, l, "ok", "mark " + n, d]
    folder = {"a": {"labels": (("eng", "Group"), ("fre", "Groupe")), "works": {
        "w": {"texts": [T("e", "edition", None, 2), T("t", "translation", "eng", 1), T("c", "commentary", "eng", 3)], "lang": "grc"},
        "x": {"texts": [T("e", "edition", None, 1)]}}},
        "b": {"works": {"w": {"texts": [T("e", "edition", None, 2)]}}}}
    with repos.scratch() as base:
        paths = repos.write_all([folder], base)
        model = repos.model([folder], paths)
        r = CtsCapitainsLocalResolver(paths)
        ids = sorted(model)
        asked = [(u, ref) for u in ids for ref in (None, "1")]
        none = {name: [] for cts, name, dc in KEYS}

        def expected(u):
            m = model[u]
            tg, wk = m["tg"].split(":")[-1], m["work"].split(".")[-1]
            labels = folder[tg].get("labels", (("eng", "Group"),))
            return {"creator": [(v + " " + tg, l) for l, v in labels], "title": [("Work " + wk, "eng")],
                    "subject": [("Text " + m["text"][0], "eng")], "description": [("Desc " + m["text"][0], "fre")]}
        before = set(s for c in [r.inventory] + r.inventory.descendants for s in get_graph().triples((c.asNode(), None, None)))
        for first, second in itertools.product(asked, repeat=2):
            for m1, m2 in itertools.product((True, False), repeat=2):
                rec.state([first, second, m1, m2])
                a = r.getTextualNode(first[0], first[1], metadata=m1)
                b = r.getTextualNode(second[0], second[1], metadata=m2)
                getters(rec, b, expected(second[0]) if m2 else none, "%s asked %s metadata after %s" % (second, "with" if m2 else "without", first))
                getters(rec, a, expected(first[0]) if m1 else none, "%s asked %s metadata before %s" % (first, "with" if m1 else "without", second))
                rec.check(b.urn is not None and str(b.urn), second[0] + (":1" if second[1] else ""), "urn")
        after = set(s for c in [r.inventory] + r.inventory.descendants for s in get_graph().triples((c.asNode(), None, None)))
        rec.check(after == before, True, "the collections of the resolver are left as they are")
    rec.trace()


def edits(case, rec):
    ops = [(w, k, l) for w in range(2) for k in range(4) for l in ("eng", "fre", None)]
    text = CapitainsCtsText(resource=docs.xml(SPEC), urn="urn:cts:l:g.w.t")
    for n in range(1, case["n"] + 1):
        for rest in itertools.product(range(len(ops)), repeat=n - 1):
            seq = [ops[case["edits"]]] + [ops[i] for i in rest]
            objs = [TeiResource(identifier="urn:a", resource="<TEI xmlns='http://www.tei-c.org/ns/1.0'/>"), text.getTextualNode("1.1")]
            model = [{name: [] for c, name, dc in KEYS} for o in objs]
            for i, (w, k, l) in enumerate(seq):
                name = KEYS[k][1]
                v = "value %d" % i
                getattr(objs[w], "set_" + name)(v, l)
                model[w][name].append((v, l))
            rec.state([case["edits"], rest])
            for w in range(2):
                getters(rec, objs[w], model[w], "object %d after %s" % (w, seq))
    # a title may also be given in the terms namespace
    o = TeiResource(identifier="urn:a", resource="<TEI xmlns='http://www.tei-c.org/ns/1.0'/>")
    o.metadata.add(DCTERMS.title, "term title", "eng")
    rec.check(str(o.get_title("eng")), "term title", "title of the terms namespace")
    # metadata given to the constructor are used
    m = Metadata(node=URIRef("http://x/m"))
    m.add(DC.creator, "given", "eng")
    o = TeiResource(identifier="urn:a", metadata=m, resource="<TEI xmlns='http://www.tei-c.org/ns/1.0'/>")
    rec.check(str(o.get_creator()), "given", "creator of the metadata given")
    rec.trace()
