"""C17: CTS inventories are read and written without loss."""
import io
import itertools
from xml.sax.saxutils import escape, quoteattr
from mc.core import observe
from lxml import etree, objectify
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, bind_graph, get_graph, set_graph
from MyCapytain.resources.collections import cts as X
from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection
from rdflib import Literal, RDFS, URIRef

PROPERTY = "C17"
BOUNDS = {"quick": "every inventory of <=2 textgroups x <=2 works x 8 lists of texts (editions, translations, commentaries in every relative order); every label text of a 9 value alphabet at every level, languages alone and in pairs, repeated; citation depth 0 to 3; every structured metadata value of 19 (text, language, datatype, URI, numbers) at every level, alone and in pairs under one property; each read from text, file and element, exported whole, node by node and together with another inventory as CTS and CapiTainS XML and read back in an empty graph",
          "thorough": "<=3 textgroups, all pairs of structured metadata at all pairs of levels"}
NS = ('xmlns:ti="http://chs.harvard.edu/xmlns/cts" xmlns:cpt="http://purl.org/capitains/ns/1.0#" '
      'xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:dct="http://purl.org/dc/terms/" xmlns:ex="http://example.org/ns#" '
      'xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:xsd="http://www.w3.org/2001/XMLSchema#" '
      'xmlns:xs="http://www.w3.org/2001/XMLSchema#"')
XSD = "http://www.w3.org/2001/XMLSchema#"
PFX = {"dc": "http://purl.org/dc/elements/1.1/", "dct": "http://purl.org/dc/terms/", "ex": "http://example.org/ns#"}
PROPS = {"tg": "groupname", "work": "title", "edition": "label", "translation": "label", "commentary": "label"}
CLS = {"tg": X.XmlCtsTextgroupMetadata, "work": X.XmlCtsWorkMetadata, "edition": X.XmlCtsEditionMetadata,
       "translation": X.XmlCtsTranslationMetadata, "commentary": X.XmlCtsCommentaryMetadata}
TEXTS = ["Martial", "Épigrammes", "Ἰλιάς", "a & b", "<b>", "\"quoted\" 'q'", "12", "true", "a  b"]
# (text, lang, datatype attribute) -> (value, lang, datatype) or URI
META = [
    (("plain", None, None), ("plain", None, None)), (("plein", "fre", None), ("plein", "fre", None)),
    (("a & <b>", None, None), ("a & <b>", None, None)), (("true", None, None), ("true", None, None)),
    (("007", "eng", None), ("007", "eng", None)), (("1.10", "eng", None), ("1.10", "eng", None)),
    (("12", None, None), ("12", None, XSD + "integer")), (("-3", None, None), ("-3", None, XSD + "integer")),
    (("1.5", None, None), ("1.5", None, XSD + "float")), (("2010-01-01", None, "xsd:date"), ("2010-01-01", None, XSD + "date")),
    (("007", None, "xsd:string"), ("007", None, XSD + "string")), (("a", None, "xs:token"), ("a", None, XSD + "token")),
    (("5", None, XSD + "positiveInteger"), ("5", None, XSD + "positiveInteger")),
    (("3 < 4", None, "http://example.org/types#unit"), ("3 < 4", None, "http://example.org/types#unit")),
    (("1999", None, "xsd:gYear"), ("1999", None, XSD + "gYear")), (("many", None, "xsd:integer"), ("many", None, XSD + "integer")),
    (("http://example.org/a?b=1&c=2", None, None), "http://example.org/a?b=1&c=2"),
    (("urn:cts:latinLit:phi1294", None, None), "urn:cts:latinLit:phi1294"), (("hdl:11858/00-1", None, None), "hdl:11858/00-1"),
]
CIT = [("book", "/tei:TEI/tei:text/tei:body", "/tei:div[@n='?']"), ("poem & co", "/tei:TEI/tei:text/tei:body/tei:div[@n='?']", "//tei:div[@n='?']"),
       ("line", "/tei:TEI/tei:text/tei:body/tei:div[@n='?']//tei:div[@n='?']", "//tei:l[@n='?' and @type='x']")]


# ---------------------------------------------------------------- the spec and its XML
def node(kind, urn, labels=(("eng", "Label"),), **kw):
    return dict({"kind": kind, "urn": urn, "labels": [list(x) for x in labels], "kids": [], "lang": None, "desc": [], "about": [],
                 "cit": 0, "meta": []}, **kw)


def to_xml(n):
    kind = n["kind"]
    if kind == "inv":
        tiid = " tiid=%s" % quoteattr(n["urn"]) if n["urn"] else ""
        return "<ti:TextInventory%s %s>%s</ti:TextInventory>" % (tiid, NS, "\n".join(map(to_xml, n["kids"])))
    tag = "textgroup" if kind == "tg" else kind
    out = ["<ti:%s urn=%s%s>" % (tag, quoteattr(n["urn"]), " xml:lang=%s" % quoteattr(n["lang"]) if n["lang"] else "")]
    for lang, v in n["labels"]:
        out.append("<ti:%s%s>%s</ti:%s>" % (PROPS[kind], " xml:lang=\"%s\"" % lang if lang else "", escape(v), PROPS[kind]))
    for lang, v in n["desc"]:
        out.append("<ti:description xml:lang=\"%s\">%s</ti:description>" % (lang, escape(v)))
    for u in n["about"]:
        out.append("<ti:about urn=%s/>" % quoteattr(u))
    if n["cit"]:
        inner = ""
        for name, scope, xpath in reversed(CIT[:n["cit"]]):
            inner = "<ti:citation label=%s xpath=%s scope=%s>%s</ti:citation>" % (quoteattr(name), quoteattr(xpath), quoteattr(scope), inner)
        out.append("<ti:online docname=\"x.xml\"><ti:citationMapping>%s</ti:citationMapping></ti:online>" % inner)
    if n["meta"]:
        out.append("<cpt:structured-metadata>")
        for prop, k in n["meta"]:
            text, lang, dt = META[k][0]
            out.append("<%s%s%s>%s</%s>" % (prop, " xml:lang=\"%s\"" % lang if lang else "", " rdf:datatype=\"%s\"" % dt if dt else "", escape(text), prop))
        out.append("</cpt:structured-metadata>")
    out += map(to_xml, n["kids"])
    out.append("</ti:%s>" % tag)
    return "\n".join(out)


# ---------------------------------------------------------------- observation and model
def expand(prop):
    p, l = prop.split(":")
    return PFX[p] + l


def values(n, prop):
    """structured values of one property: distinct triples"""
    out = set()
    for p, k in n["meta"]:
        if p == prop:
            w = META[k][1]
            out.add((w, "uri") if isinstance(w, str) else tuple(str(x) for x in w))
    return sorted(out)


def model(n, parents=(), worklang=None):
    """the whole expected tree; texts of a work in the order editions, translations, commentaries"""
    kids = n["kids"]
    if n["kind"] == "work":
        kids = [k for kind in ("edition", "translation", "commentary") for k in kids if k["kind"] == kind]
    lang = n["lang"]
    if n["kind"] == "edition" or (n["kind"] in ("translation", "commentary") and lang is None):
        lang = worklang
    d = {"id": n["urn"], "kind": n["kind"], "parents": list(parents), "kids": [model(k, (n["urn"],) + tuple(parents), lang) for k in kids]}
    if n["kind"] != "inv":
        # a label that does not say its language is not read
        d["labels"] = sorted({(l, v) for l, v in n["labels"] if l})
        d["meta"] = {p: values(n, p) for p in sorted({p for p, _ in n["meta"]})}
    if n["kind"] in ("work", "edition", "translation", "commentary"):
        d["lang"] = lang
    if n["kind"] in ("edition", "translation", "commentary"):
        d["desc"] = sorted(set(map(tuple, n["desc"])))
        d["about"] = sorted(set(n["about"]))
        d["cit"] = [[a, s, x] for a, s, x in CIT[:n["cit"]]]
    return d


def strip(m):
    """without structured metadata, which CTS XML does not carry"""
    m = dict(m, kids=[strip(k) for k in m["kids"]])
    if "meta" in m:
        m["meta"] = {}
    return m


def term(o):
    if isinstance(o, URIRef):
        return (str(o), "uri")
    return (str(o), str(o.language), str(o.datatype) if o.datatype is not None else "None")


PROBES = sorted({expand(p) for p in ("dc:source", "dct:created", "ex:note", "dc:title")})
BACK = {expand(p): p for p in ("dc:source", "dct:created", "ex:note", "dc:title")}


def snapshot(o, kind):
    d = {"id": o.id, "kind": kind, "parents": [p.id for p in o.parents]}
    if kind == "inv":
        d["kids"] = [snapshot(k, "tg") for k in o.members]
        if list(o.textgroups) != [k.id for k in o.members]:
            d["kids"].append("textgroups out of step")
        return d
    P = RDF_NAMESPACES.CTS.term(PROPS[kind])
    d["labels"] = sorted((x.language, str(x)) for x in o.metadata.get(P))
    lab = sorted((x.language, str(x)) for x in o.metadata.get(RDFS.label))
    if lab != d["labels"]:
        d["labels"] = ["labels", lab, "differ from", d["labels"]]
    d["meta"] = {}
    for p in PROBES:
        v = sorted(term(x) for x in o.metadata.get(URIRef(p)))
        if v:
            d["meta"][BACK[p]] = v
    if kind == "tg":
        d["kids"] = [snapshot(k, "work") for k in o.members]
    elif kind == "work":
        d["lang"] = o.lang
        d["kids"] = [snapshot(k, k.subtype) for k in o.members]
    else:
        d["kids"] = []
        d["lang"] = o.lang
        d["desc"] = sorted((x.language, str(x)) for x in o.metadata.get(RDF_NAMESPACES.CTS.description))
        d["about"] = sorted(map(str, o.get_link(RDF_NAMESPACES.CTS.about)))
        d["cit"] = []
        c = o.citation
        while c is not None:
            d["cit"].append([c.name, c.scope, c.xpath])
            c = c.child
        if type(o) is not CLS[kind]:
            d["kind"] = type(o).__name__
    return d


# ---------------------------------------------------------------- the space
U = "urn:cts:latinLit:"
LISTS = [[], ["edition"], ["translation"], ["edition", "edition"], ["edition", "translation"], ["translation", "edition"],
         ["commentary", "edition", "translation"], ["edition", "commentary", "translation", "edition"]]


def workspec(urn, kinds, langs=("lat", "eng")):
    w = node("work", urn, lang=langs[0], labels=[("eng", "W " + urn)])
    for i, k in enumerate(kinds):
        t = node(k, "%s.v%d" % (urn, i), lang=langs[1] if k != "edition" else None, labels=[("eng", "T%d" % i)], cit=i % 3,
                 desc=[["fre", "d%d" % i]] if i % 2 else [])
        if k == "commentary":
            t["about"] = [urn + ".v0", U + "phi9.x"]
        w["kids"].append(t)
    return w


def structures(tier):
    works = [[]] + [[a] for a in range(len(LISTS))] + [[a, (a + 3) % len(LISTS)] for a in range(len(LISTS))]
    tgs = [[]] + [[w] for w in works] + [[w, v] for w in works for v in works[::1 if tier == "thorough" else 3]]
    for n, tg in enumerate(tgs):
        inv = node("inv", ["annotsrc", "urn:inv", ""][n % 3], labels=[])
        for i, ws in enumerate(tg):
            t = node("tg", U + ["phi1", "phi12"][i], labels=[("eng", "G%d" % i), ("lat", "H")])
            for j, k in enumerate(ws):
                t["kids"].append(workspec(t["urn"] + [".a", ".a1"][j], LISTS[k]))
            inv["kids"].append(t)
        yield inv


def fields(tier):
    def base():
        inv = node("inv", "i", labels=[])
        tg = node("tg", U + "phi1")
        tg["kids"].append(workspec(U + "phi1.a", ["edition", "translation", "commentary"]))
        inv["kids"].append(tg)
        return inv, [tg, tg["kids"][0]] + tg["kids"][0]["kids"]
    for lvl in range(5):
        for a in TEXTS:
            inv, ns = base()
            ns[lvl]["labels"] = [["eng", a]]
            yield inv
            inv, ns = base()
            ns[lvl]["labels"] = [["eng", a], ["eng", "other"], ["fre", a], ["x-y", "z"]]
            if lvl % 2:
                ns[lvl]["labels"].insert(1, [None, "of no language"])
            if lvl > 1:
                ns[lvl]["desc"] = [["eng", a], ["fre", a]]
                ns[lvl]["about"] = [U + "phi1.a?" + a.replace(" ", "_").replace("<", "").replace(">", "").replace('"', "").replace("'", "")]
            yield inv
        inv, ns = base()
        ns[lvl]["labels"] = []
        # a translation or commentary that does not say its language has that of its work
        ns[lvl]["lang"] = ns[lvl]["lang"] if lvl == 1 else None
        yield inv
        for around in ([], [["eng", "a"]]):
            inv, ns = base()
            ns[lvl]["labels"] = around + [[None, "of no language"]] + around
            yield inv
        for depth in range(4):
            if lvl > 1:
                inv, ns = base()
                ns[lvl]["cit"] = depth
                yield inv
    for lvl in range(5):
        for k in range(len(META)):
            inv, ns = base()
            ns[lvl]["meta"] = [["dc:source", k]]
            yield inv
        for a, b in itertools.combinations(range(len(META)), 2):
            inv, ns = base()
            ns[lvl]["meta"] = [["ex:note", a], ["ex:note", b], ["dct:created", a]]
            if lvl:
                ns[0]["meta"] = [["dc:title", b]]
            yield inv
    if tier == "thorough":
        for l1, l2 in itertools.combinations(range(5), 2):
            for a, b in itertools.product(range(len(META)), repeat=2):
                inv, ns = base()
                ns[l1]["meta"] = [["ex:note", a], ["dct:created", b]]
                ns[l2]["meta"] = [["ex:note", b], ["dc:title", a]]
                yield inv


def cases(tier):
    for s in structures(tier):
        yield s
    for s in fields(tier):
        yield s


def run(inv, rec):
    doc = to_xml(inv)
    want = model(inv)
    flat = [(want, "inv")]
    for o, k in flat:
        flat += [(x, x["kind"]) for x in o["kids"]]
    for form in ("text", "file", "element", "objectified"):
        set_graph(bind_graph())
        src = {"text": lambda: doc, "file": lambda: io.StringIO(doc), "element": lambda: objectify.fromstring(doc.encode("utf-8")),
               "objectified": lambda: objectify.parse(io.StringIO(doc)).getroot()}[form]()
        o = X.XmlCtsTextInventoryMetadata.parse(src)
        if not rec.check(snapshot(o, "inv"), want, "reading the inventory from " + form):
            return
    rec.state(want)
    rec.trace()
    objs = {d["id"]: (n, k) for n, k in flat for d in [n]}
    todo = [(o, "inv", want)]
    i = 0
    while i < len(todo):
        x, k, w = todo[i]
        i += 1
        todo += [(c, m["kind"], m) for c, m in zip(x.members, w["kids"])]
    exports = []
    for x, k, w in todo:
        for fmt, pick in ((Mimetypes.XML.CTS, strip), (Mimetypes.XML.CapiTainS.CTS, lambda m: m)):
            exports.append((k, fmt, pick(w), x.export(fmt)))
    rec.check(snapshot(o, "inv"), want, "exports leave the inventory as it is")
    for k, fmt, w, out in exports:
        set_graph(bind_graph())
        cls = X.XmlCtsTextInventoryMetadata if k == "inv" else CLS[k]
        back = cls.parse(out)
        if k == "edition":
            # an edition takes the language of its work, which a lone edition does not have
            w = dict(w, lang=back.lang)
        w = relative(w, [])
        got = relative(snapshot(back, k), [])
        if not rec.check(got, w, "%s %s read back" % (k, fmt)):
            return
        rec.outcome(w)
        again = back.export(fmt)
        set_graph(bind_graph())
        rec.check(relative(snapshot(cls.parse(again), k), []) if k != "edition" else w, w, "%s %s written and read twice" % (k, fmt))
    # several inventories written as one
    second = node("inv", "urn:second", labels=[])
    second["kids"].append(node("tg", U + "phi99", labels=[("eng", "Last")]))
    second["kids"][0]["kids"].append(workspec(U + "phi99.a", ["edition", "translation"]))
    for docs, names in (([inv], ["alone"]), ([inv, second], ["first"]), ([second, inv], ["last"])):
        set_graph(bind_graph())
        col = CtsTextInventoryCollection("urn:all")
        for d in docs:
            X.XmlCtsTextInventoryMetadata.parse(to_xml(d)).parent = col
        outs = [(f, p, col.export(f)) for f, p in ((Mimetypes.XML.CTS, strip), (Mimetypes.XML.CapiTainS.CTS, lambda m: m))]
        for f, pick, out in outs:
            set_graph(bind_graph())
            w = dict(want, id="urn:all", kids=[k for d in docs for k in model(d)["kids"]])
            if not rec.check(snapshot(X.XmlCtsTextInventoryMetadata.parse(out), "inv"), relative(pick(w), []), "%s %s among inventories written together" % (names[0], f)):
                return
    rec.sample(doc[:600])


def relative(m, parents):
    return dict(m, parents=list(parents), kids=[relative(k, [m["id"]] + list(parents)) if isinstance(k, dict) else k for k in m["kids"]])
