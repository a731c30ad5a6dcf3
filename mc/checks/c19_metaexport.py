"""C19: exporting metadata gives exactly the statements selected."""
import itertools
import json
from mc.core import observe
from lxml import etree
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, bind_graph, get_graph, set_graph
from MyCapytain.common.metadata import Metadata
from rdflib import Graph, Literal, RDF, URIRef, XSD
from rdflib.namespace import DC, DCTERMS

PROPERTY = "C19"
BOUNDS = {"quick": "every subset of 9 statements (5 namespaces, 2 languages of one property, several values, numbers, markup, URIs) x no filter, every filter of 1 or 2 of 9 namespaces and properties, as `only` and as `exclude` x 4 formats; another node in the same graph",
          "thorough": "filters of <=3"}
NODE, OTHER = URIRef("urn:cts:a:b"), URIRef("urn:cts:a:bc")
EX = "http://example.org/ns#"
T = [(DC.title, Literal("the title", lang="eng")), (DC.title, Literal("le titre", lang="fre")), (DC.title, Literal("second title", lang="eng")),
     (DCTERMS.created, Literal(12)), (URIRef(EX + "link"), URIRef("http://example.org/a?b=1&c=2")), (URIRef(EX + "note"), Literal("a < b & c")),
     (RDF_NAMESPACES.CTS.label, Literal("label", lang="eng")), (RDF.type, RDF_NAMESPACES.CTS.edition),
     (URIRef(EX + "notes"), Literal("another property whose name begins the same"))]
F = [DC, DCTERMS, RDF_NAMESPACES.CTS, RDF, EX, DC.title, DCTERMS.created, URIRef(EX + "note"), URIRef("http://nothing/")]
FORMATS = [Mimetypes.JSON.Std, Mimetypes.JSON.LD, Mimetypes.XML.RDF, Mimetypes.XML.CapiTainS.CTS]


def split(p):
    p = str(p)
    i = max(p.rfind("/"), p.rfind("#")) + 1
    return p[:i]


def selected(triples, only, exclude):
    def inside(p, f):
        return str(p) in f or split(p) in f
    if only is not None:
        f = [str(x) for x in only]
        return [t for t in triples if inside(t[0], f)]
    if exclude is not None:
        f = [str(x) for x in exclude]
        return [t for t in triples if not inside(t[0], f)]
    return list(triples)


def term(o):
    if isinstance(o, URIRef):
        return ("uri", str(o))
    return ("lit", str(o), str(o.language), str(o.datatype or ""))


def read(fmt, out):
    """the statements of an export, as comparable values"""
    if fmt == Mimetypes.JSON.Std:
        return sorted((p, str(l), v) for p, d in out.items() for l, vs in d.items() for v in (vs if isinstance(vs, list) else [vs]))
    if fmt in (Mimetypes.JSON.LD, Mimetypes.XML.RDF):
        g = Graph()
        g.parse(data=out, format="json-ld" if fmt == Mimetypes.JSON.LD else "xml")
        return sorted((str(s), str(p), term(o)) for s, p, o in g)
    ns = " ".join('xmlns%s="%s"' % (":" + p if p else "", n) for p, n in get_graph().namespaces() if p != "xml")
    root = etree.fromstring("<root %s>%s</root>" % (ns, out))
    got = []
    for e in root:
        lang = e.get("{http://www.w3.org/XML/1998/namespace}lang")
        dt = e.get("{http://www.w3.org/1999/02/22-rdf-syntax-ns#}datatype")
        got.append((e.tag.replace("{", "").replace("}", ""), e.text or "", str(lang), dt or ""))
    return sorted(got)


def expected(fmt, triples):
    if fmt == Mimetypes.JSON.Std:
        return sorted((str(p), str(o.language), str(o).title()) for p, o in triples if isinstance(o, Literal))
    if fmt in (Mimetypes.JSON.LD, Mimetypes.XML.RDF):
        return sorted((str(NODE), str(p), term(o)) for p, o in triples)
    return sorted((str(p), str(o), str(getattr(o, "language", None)), str(getattr(o, "datatype", None) or "")) for p, o in triples)


def cases(tier):
    for k in range(len(T) + 1):
        for c in itertools.combinations(range(len(T)), k):
            if k <= 3 or k >= 8 or tier == "thorough" or sum(c) % 4 == 0:
                yield {"t": list(c), "filters": 2 if tier == "quick" else 3}


def run(case, rec):
    set_graph(bind_graph())
    g = get_graph()
    g.bind("ex", EX)
    g.bind("dct", DCTERMS)
    md, other = Metadata(node=NODE), Metadata(node=OTHER)
    triples = [T[i] for i in case["t"]]
    for p, o in triples:
        md.add(p, o)
    other.add(DC.title, "of another node", "eng")
    other.add(URIRef(EX + "link"), NODE)
    before = set(g)
    nf = case["filters"]
    filters = [None] + [list(f) for k in range(1, nf + 1) for f in itertools.combinations(F, k)]
    for f in filters:
        for mode in ("only", "exclude"):
            if f is None and mode == "exclude":
                continue
            kw = {} if f is None else {mode: list(f)}
            want = selected(triples, kw.get("only"), kw.get("exclude"))
            for fmt in FORMATS:
                given = dict((k, list(v)) for k, v in kw.items())
                out = md.export(fmt, **given)
                what = "%s of %r with %s %s" % (fmt, case["t"], mode if f else "no filter", f)
                rec.check(read(fmt, out), expected(fmt, want), what)
                rec.check(given == kw, True, what + ": the filter given by the caller is left alone")
            rec.state([case["t"], mode, f])
            rec.outcome([case["t"], len(want)])
            rec.trace()
    rec.check(set(g) == before, True, "exports leave the graph as it is")
    rec.check(md.export() == md.export(Mimetypes.JSON.Std), True, "the default export is JSON")
    rec.check(observe(md.export, "text/unknown"), ("err", "NotImplementedError"), "unknown format")
    rec.sample(case)
