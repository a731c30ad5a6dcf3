"""C39: objects made while one graph is in use, read while another one is."""
import itertools
import json
from lxml import etree
from pyld import jsonld
from rdflib import BNode, Graph, Literal, Namespace, URIRef
from rdflib.compare import to_canonical_graph
from rdflib.namespace import DC
from mc import docs
from mc.checks import c17_inventory as inv
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, bind_graph, get_graph, set_graph
from MyCapytain.common.metadata import Metadata
from MyCapytain.resources.collections import cts as X
from MyCapytain.resources.collections.dts import DtsCollection
from MyCapytain.resources.prototypes.metadata import Collection
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

PROPERTY = "C39"
BOUNDS = {"quick": "3 graphs with different prefixes for the same namespaces and the same prefixes for different namespaces; 6 kinds of object (inventory, collection, DTS collection, metadata, text and passage, citation) with the same identifiers and other values in each graph; every history of <=4 operations (use a graph, make an object, edit an object, read and export it); after each, every graph, object and export compared",
          "thorough": "histories of <=5 operations"}
EX, FY = "http://example.org/ns#", "http://example.org/other#"
KINDS = ["inventory", "collection", "dts", "metadata", "text", "metadata-of"]
SPEC = {"shape": [[[], []], [[]]], "scheme": "typed", "labels": "seq", "content": "unique", "noise": "", "wrap": 0}


def graphs():
    a, b, c = bind_graph(), bind_graph(), bind_graph()
    a.bind("ex", EX)
    a.bind("fy", FY)
    b.bind("fy", EX)
    b.bind("ex", FY)
    b.bind("ti", str(RDF_NAMESPACES.CTS), True, True)
    # nothing more in c: prefixes are made up in the order the namespaces are met
    return [a, b, c]


def make(kind, g):
    """an object of this kind whose values tell the graph it was made in"""
    v = "graph %d" % g
    if kind == "inventory":
        i = inv.node("inv", "inv", labels=[])
        t = inv.node("tg", "urn:cts:latinLit:phi1", labels=[("eng", v)])
        w = inv.workspec("urn:cts:latinLit:phi1.a", ["edition", "translation"])
        w["labels"] = [["eng", "work " + v]]
        w["kids"][1]["meta"] = [["ex:note", g], ["dc:source", g]]
        t["kids"].append(w)
        i["kids"].append(t)
        doc = inv.to_xml(i)
        if g == 1:
            doc = doc.replace("ex:note", "fy:note").replace('xmlns:ex="http://example.org/ns#"', 'xmlns:fy="http://example.org/ns#"')
        o = X.XmlCtsTextInventoryMetadata.parse(doc)
        o["urn:cts:latinLit:phi1.a.v1"].metadata.add(URIRef(FY + "kind"), v)
        return o
    if kind == "collection":
        o = Collection("urn:root")
        k = Collection("urn:kid")
        k.parent = o
        o.set_label(v, "eng")
        k.metadata.add(URIRef(EX + "note"), v)
        k.metadata.add(URIRef(FY + "note"), v, "eng")
        return o
    if kind == "dts":
        return DtsCollection.parse({"@context": {"@vocab": "https://www.w3.org/ns/hydra/core#", "dts": "https://w3id.org/dts/api#", "ex": EX},
                                    "@id": "urn:dts", "@type": "Collection", "totalItems": 1, "title": v, "dts:extensions": {"ex:note": v},
                                    "member": [{"@id": "urn:dts:kid", "@type": "Resource", "title": "kid " + v, "totalItems": 0}]})
    if kind == "metadata":
        o = Metadata(node=URIRef("urn:md"))
        o.add(URIRef(EX + "note"), v)
        o.add(URIRef(FY + "note"), "other " + v, "eng")
        o.add(DC.title, v, "fre")
        return o
    if kind == "metadata-of":
        return Metadata.getOr(URIRef("urn:md"), URIRef(EX + "of"), node=URIRef("urn:new"))
    o = CapitainsCtsText(resource=docs.xml(SPEC), urn="urn:cts:l:g.w.t")
    o.set_title(v, "eng")
    p = o.getTextualNode("1.1")
    p.set_creator(v, "eng")
    return (o, p)


def edit(kind, o, n):
    v = "edit %d" % n
    if kind == "inventory":
        o["urn:cts:latinLit:phi1.a"].set_cts_property("title", v, "fre")
        o["urn:cts:latinLit:phi1.a.v0"].metadata.add(URIRef(FY + "note"), v)
    elif kind in ("collection", "dts"):
        o.set_label(v, "fre")
        list(o.children.values())[0].metadata.add(URIRef(FY + "kind"), v)
    elif kind in ("metadata", "metadata-of"):
        o.add(URIRef(FY + "kind"), v)
        o.remove(DC.title)
    else:
        o[0].set_description(v, "fre")
        o[1].getTextualNode(["1"], simple=True).set_subject(v) if False else o[1].set_subject(v)


def rdf(text, fmt):
    g = Graph()
    g.parse(data=text, format=fmt)
    return sorted(to_canonical_graph(g).serialize(format="nt").splitlines())


def xml(text):
    """namespaces resolved, values sorted: what an XML export says"""
    def go(e):
        return [e.tag, sorted(e.attrib.items()), (e.text or "").strip(), sorted((go(k) for k in e), key=repr)]
    return go(etree.fromstring(text))


def fragment(text, graph):
    decl = " ".join('xmlns:%s="%s"' % (p, str(ns).rstrip("/") if str(ns).startswith("http://chs") else ns) for p, ns in graph.namespaces() if p)
    return xml("<all %s>%s</all>" % (decl, text))


def expanded(e):
    return json.dumps(sort(jsonld.expand(json.loads(json.dumps(e)))), sort_keys=True)


def sort(x):
    if isinstance(x, list):
        return sorted((sort(y) for y in x), key=lambda y: json.dumps(y, sort_keys=True))
    if isinstance(x, dict):
        return {k: sort(v) for k, v in x.items()}
    return x


def exports(kind, o, graph):
    if kind == "inventory":
        for x in [o] + o.descendants:
            yield x.id + " CTS", xml(x.export(Mimetypes.XML.CTS))
            yield x.id + " CapiTainS", xml(x.export(Mimetypes.XML.CapiTainS.CTS))
            yield x.id + " DTS", expanded(x.export(Mimetypes.JSON.DTS.Std))
            yield x.id + " labels", [str(x.get_label(l)) for l in ("eng", "fre")] if x is not o else []
            yield x.id + " metadata", fragment(x.metadata.export(Mimetypes.XML.CapiTainS.CTS), graph)
        yield "tree RDF", rdf(o.export(Mimetypes.XML.RDF), "xml")
    elif kind in ("collection", "dts"):
        for x in [o] + list(o.children.values()):
            yield x.id + " DTS", expanded(x.export(Mimetypes.JSON.DTS.Std))
            yield x.id + " RDF", rdf(x.export(Mimetypes.XML.RDF), "xml")
            yield x.id + " LD", rdf(x.export(Mimetypes.JSON.LD), "json-ld")
    elif kind in ("metadata", "metadata-of"):
        yield "std", sort(json.loads(json.dumps({p: {str(l): t for l, t in v.items()} for p, v in o.export(Mimetypes.JSON.Std).items()})))
        yield "xml", fragment(o.export(Mimetypes.XML.CapiTainS.CTS), graph)
        yield "RDF", rdf(o.export(Mimetypes.XML.RDF), "xml")
        yield "LD", rdf(o.export(Mimetypes.JSON.LD), "json-ld")
        yield "only", rdf(o.export(Mimetypes.XML.RDF, only=[EX]), "xml")
        yield "exclude", rdf(o.export(Mimetypes.XML.RDF, exclude=[EX]), "xml")
    else:
        for x in o:
            for name in ("creator", "title", "subject", "description"):
                yield name, str(getattr(x, "get_" + name)())
            yield "std", sort(json.loads(json.dumps({p: {str(l): t for l, t in v.items()} for p, v in x.metadata.export(Mimetypes.JSON.Std).items()})))
            yield "cts", [str(v) for v in x.metadata.get(DC.title)]


def parts(kind, o):
    """everything in an object that has a graph"""
    if kind in ("metadata", "metadata-of"):
        return [o]
    xs = [o] + list(o.descendants) if kind in ("inventory", "collection", "dts") else list(o)
    return xs + [x.metadata for x in xs]


def content(g):
    return sorted(to_canonical_graph(g).serialize(format="nt").splitlines())


def alphabet(kinds):
    return [("use", 0), ("use", 1), ("use", 2)] + [("make", k) for k in kinds] + [("edit", 0), ("edit", 1), ("read", 0), ("read", 1)]


def enabled(hist, op):
    if op[0] in ("edit", "read"):
        return op[1] < len([h for h in hist if h[0] == "make"])
    if op[0] == "use":
        return not hist or hist[-1] != op
    return True


def cases(tier):
    n = 4 if tier == "quick" else 5
    for k in range(len(KINDS)):
        others = [k] if tier == "quick" else sorted({k, (k + 1) % len(KINDS)})
        ops = alphabet([KINDS[i] for i in others])
        for first in ops:
            for second in ops:
                if enabled([], first) and enabled([first], second):
                    yield {"kinds": others, "first": [first, second], "n": n}


def run(case, rec):
    ops = alphabet([KINDS[i] for i in case["kinds"]])
    todo = [[tuple(x) for x in case["first"]]]
    while todo:
        hist = todo.pop()
        if any(h[0] == "make" for h in hist):
            play(hist, rec)
        if len(hist) < case["n"]:
            todo += [hist + [op] for op in ops if enabled(hist, op)]
    rec.trace()
    rec.sample(case)


def play(hist, rec):
    rec.state(hist)
    gs = graphs()
    set_graph(gs[0])
    cur, objs = 0, []
    for i, (op, arg) in enumerate(hist):
        if op == "use":
            cur = arg
            set_graph(gs[cur])
        elif op == "make":
            objs.append((arg, cur, make(arg, cur)))
        elif op == "edit":
            edit(objs[arg][0], objs[arg][2], i)
        else:
            list(exports(objs[arg][0], objs[arg][2], gs[objs[arg][1]]))
        rec.check(get_graph() is gs[cur], True, "the graph in use after %s" % hist[:i + 1])
    # the same, each graph alone: what concerns the others is left out
    for g in range(3):
        alone = graphs()
        set_graph(alone[g])
        k, mine = -1, []
        for i, (op, arg) in enumerate(hist):
            if op == "make":
                k += 1
            if op == "make" and objs[k][1] == g:
                mine.append((k, make(arg, g)))
            elif op == "edit" and objs[arg][1] == g:
                edit(objs[arg][0], dict(mine)[arg], i)
        rec.check(content(gs[g]), content(alone[g]), "graph %d after %s" % (g, hist))
        for k, o in mine:
            want = list(exports(objs[k][0], o, alone[g]))
            for now in range(3):
                set_graph(gs[now])
                for x in parts(objs[k][0], objs[k][2]):
                    rec.check(x.graph is gs[g], True, "the graph of object %d of %s, made in graph %d, read in graph %d" % (k, hist, g, now))
                try:
                    got = list(exports(objs[k][0], objs[k][2], gs[g]))
                except etree.XMLSyntaxError as error:
                    rec.violation("object %d of %s, made in graph %d, has an export that is not XML when read in graph %d: %s" % (k, hist, g, now, error))
                    continue
                finally:
                    set_graph(alone[g])
                if rec.check([n for n, v in got], [n for n, v in want], "exports of object %d of %s" % (k, hist)):
                    for (n, v), (_, w) in zip(got, want):
                        rec.check(v, w, "%s of object %d of %s, made in graph %d, read in graph %d" % (n, k, hist, g, now))
