"""C34: every kind of object exports to exactly the formats it offers, in any order."""
import itertools
import json
from lxml import etree
from rdflib import Graph, Literal, URIRef
from rdflib.namespace import DC
from mc import docs
from mc.core import observe
from mc.http import network
from mc.checks.c07_reffs import reset as reset_docs
from MyCapytain.common.base import Exportable
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, bind_graph, get_graph, set_graph
from MyCapytain.common.metadata import Metadata
from MyCapytain.common.reference import Citation, DtsCitation, DtsCitationSet
from MyCapytain.resources.collections.cts import XmlCtsTextInventoryMetadata
from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection
from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
from MyCapytain.resources.texts.base.tei import TeiResource
from MyCapytain.resources.texts.remote.cts import CtsText
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
from MyCapytain.retrievers.cts5 import HttpCtsRetriever

PROPERTY = "C34"
BOUNDS = {"quick": "27 objects of every exportable kind; the formats offered; every one of the library's formats, unknown formats and no format; every sequence of <=3 exports of an object compared with fresh objects; classes defined over it with every combination of formats on 3 levels, and over several classes in 5 ways",
          "thorough": "every sequence of <=4 exports"}

M = Mimetypes
ALL = sorted({v for c in (M, M.JSON, M.JSON.DTS, M.XML, M.XML.CapiTainS, M.PYTHON, M.PYTHON.MyCapytain)
              for k, v in vars(c).items() if isinstance(v, str) and not k.startswith("__")})
UNKNOWN = ["", "text/unknown", "application/ld", "text/xm"]

CITE = {M.XML.CTS, M.XML.TEI, M.JSON.DTS.Std}
META = {M.JSON.Std, M.XML.RDF, M.JSON.LD, M.XML.CapiTainS.CTS}
COLL = {M.JSON.LD, M.JSON.DTS.Std, M.XML.RDF}
CTS = COLL | {M.XML.CTS, M.XML.CapiTainS.CTS, M.PYTHON.ETREE}
TEXT = {M.PYTHON.ETREE, M.XML.Std, M.PYTHON.NestedDict, M.PLAINTEXT, M.XML.TEI}
# object: (formats offered, default format)
OBJECTS = {
    "citation": (CITE, M.XML.CTS), "citation level 2": (CITE, M.XML.CTS),
    "dts citation set": ({M.JSON.DTS.Std}, None), "dts citation": ({M.JSON.DTS.Std}, None),
    "metadata": (META, M.JSON.Std),
    "collection": (COLL, None), "leaf collection": (COLL, None), "resource": (COLL, None),
    "inventory": (CTS, M.PYTHON.ETREE), "textgroup": (CTS, M.PYTHON.ETREE), "work": (CTS, M.PYTHON.ETREE),
    "edition": (CTS, M.PYTHON.ETREE), "translation": (CTS, M.PYTHON.ETREE), "commentary": (CTS, M.PYTHON.ETREE),
    "inventories 0": (CTS, M.PYTHON.ETREE), "inventories 1": (CTS, M.PYTHON.ETREE), "inventories 2": (CTS, M.PYTHON.ETREE),
    "text": (TEXT, M.PLAINTEXT), "whole": (TEXT, M.PLAINTEXT), "unit": (TEXT, M.PLAINTEXT), "leaf": (TEXT, M.PLAINTEXT),
    "simple": (TEXT, M.PLAINTEXT), "range": (TEXT, M.PLAINTEXT), "tei": (TEXT - {M.PYTHON.NestedDict}, M.PLAINTEXT),
    "cts passage": (TEXT - {M.PYTHON.NestedDict}, M.PLAINTEXT), "dts document": (TEXT - {M.PYTHON.NestedDict}, M.PLAINTEXT),
    "dts collection": (COLL, None),
}
INV = '''<ti:TextInventory %s tiid="http://x/inv" xmlns:ti="http://chs.harvard.edu/xmlns/cts" xmlns:cpt="http://purl.org/capitains/ns/1.0#" xmlns:dc="http://purl.org/dc/elements/1.1/">
<ti:textgroup urn="urn:cts:l:g"><ti:groupname xml:lang="eng">G &amp; h</ti:groupname>
 <ti:work urn="urn:cts:l:g.w" xml:lang="lat"><ti:title xml:lang="eng">W</ti:title>
  <ti:edition urn="urn:cts:l:g.w.e"><ti:label xml:lang="eng">E</ti:label><ti:description xml:lang="fre">D &amp; d</ti:description>
   <ti:online><ti:citationMapping><ti:citation label="line" xpath="/tei:l[@n='?']" scope="/tei:TEI/tei:text/tei:body"/></ti:citationMapping></ti:online>
   <cpt:structured-metadata><dc:creator xml:lang="eng">C</dc:creator></cpt:structured-metadata></ti:edition>
  <ti:translation urn="urn:cts:l:g.w.t" xml:lang="eng"><ti:label xml:lang="eng">T</ti:label></ti:translation>
  <ti:commentary urn="urn:cts:l:g.w.c" xml:lang="eng"><ti:label xml:lang="eng">M</ti:label></ti:commentary>
 </ti:work></ti:textgroup></ti:TextInventory>'''
DTSCOLL = {"@context": {"@vocab": "https://www.w3.org/ns/hydra/core#", "dts": "https://w3id.org/dts/api#", "dct": "http://purl.org/dc/terms/"},
           "@id": "http://x/c", "@type": "Collection", "title": "A collection", "totalItems": 1,
           "dts:dublincore": {"dct:creator": [{"@language": "en", "@value": "X"}]},
           "member": [{"@id": "http://x/t", "@type": "Resource", "title": "A text", "totalItems": 0}]}
SPEC = {"shape": [[[], []], [[]]], "scheme": "typed", "labels": "seq", "content": "mixed", "noise": "tail head", "wrap": 0}


def build(name):
    set_graph(bind_graph())
    g = get_graph()
    if name.startswith("citation"):
        two = Citation(name="line", scope="/tei:TEI/tei:text/tei:body//tei:div[@n='?']", xpath="//tei:l[@n='?']")
        one = Citation(name="book", scope="/tei:TEI/tei:text/tei:body", xpath="//tei:div[@n='?']", child=two)
        return two if "2" in name else one
    if name.startswith("dts citation"):
        one = DtsCitation(name="book", children=[DtsCitation(name="line"), DtsCitation(name="p", children=[DtsCitation(name="w")])])
        whole = DtsCitationSet(children=[one, DtsCitation(name="letter")])
        return whole if "set" in name else one
    if name == "metadata":
        m = Metadata(node=URIRef("http://x/node"))
        m.add(DC.title, "a title", "eng")
        m.add(DC.title, "un titre", "fre")
        m.add(DC.relation, URIRef("http://x/other"))
        return m
    if name in ("collection", "leaf collection", "resource"):
        a, b, c = Collection("http://x/a"), Collection("http://x/b"), ResourceCollection("http://x/c")
        b.parent = a
        c.parent = a
        c.lang = "lat"
        for x in (a, b, c):
            x.set_label("the " + x.id, "eng")
            g.add((x.asNode(), URIRef("http://purl.org/dc/terms/creator"), Literal("someone", lang="eng")))
        return {"collection": a, "leaf collection": b, "resource": c}[name]
    if name == "dts collection":
        server = lambda req: (200, {"Content-Type": "application/ld+json"}, json.dumps(
            {"collections": "/c", "documents": "/d", "navigation": "/n"} if req.where.endswith("/dts") else DTSCOLL).encode())
        with network(server):
            c = HttpDtsResolver("http://h/dts").getMetadata("http://x/c")
            c.members
        return c
    if name.startswith("inventories"):
        col = CtsTextInventoryCollection("http://x/all")
        for i in range(int(name[-1])):
            s = INV % ""
            if i:
                s = s.replace("http://x/inv", "http://x/inv2").replace("urn:cts:l:g", "urn:cts:l:h")
            XmlCtsTextInventoryMetadata.parse(s).parent = col
        return col
    if name in ("inventory", "textgroup", "work", "edition", "translation", "commentary"):
        inv = XmlCtsTextInventoryMetadata.parse(INV % "")
        return {"inventory": lambda: inv, "textgroup": lambda: inv["urn:cts:l:g"], "work": lambda: inv["urn:cts:l:g.w"],
                "edition": lambda: inv["urn:cts:l:g.w.e"], "translation": lambda: inv["urn:cts:l:g.w.t"],
                "commentary": lambda: inv["urn:cts:l:g.w.c"]}[name]()
    if name == "tei":
        return TeiResource(identifier="x", resource=docs.xml(SPEC))
    if name == "cts passage":
        body = '''<GetPassage xmlns="http://chs.harvard.edu/xmlns/cts" xmlns:tei="http://www.tei-c.org/ns/1.0"><request/><reply><urn>urn:cts:l:g.w.e:1</urn>
<passage><tei:TEI><tei:text><tei:body><tei:div n="1">one <tei:note>n</tei:note> two</tei:div></tei:body></tei:text></tei:TEI></passage></reply></GetPassage>'''
        with network(lambda req: (200, {"Content-Type": "text/xml; charset=utf-8"}, body.encode())):
            return CtsText(urn="urn:cts:l:g.w.e", retriever=HttpCtsRetriever("http://h/cts")).getTextualNode("1")
    if name == "dts document":
        body = '<TEI xmlns="http://www.tei-c.org/ns/1.0" xmlns:dts="https://w3id.org/dts/api#"><dts:fragment><div n="1">one <note>n</note> two</div></dts:fragment></TEI>'

        def server(req):
            if req.where.endswith("/dts"):
                return (200, {}, json.dumps({"collections": "/c", "documents": "/d", "navigation": "/n"}).encode())
            return (200, {"Content-Type": "application/tei+xml; charset=utf-8"}, body.encode())
        with network(server):
            return HttpDtsResolver("http://h/dts").getTextualNode("http://x/t", "1")
    text = CapitainsCtsText(resource=docs.xml(SPEC), urn="urn:cts:l:g.w.e")
    return {"text": lambda: text, "whole": lambda: text.getTextualNode(), "unit": lambda: text.getTextualNode("1"),
            "leaf": lambda: text.getTextualNode("1.2"), "simple": lambda: text.getTextualNode("1", simple=True),
            "range": lambda: text.getTextualNode("1.2-2.1")}[name]()


def value(fmt, v):
    """an export as a comparable value"""
    if isinstance(v, etree._Element):
        return etree.tostring(v, encoding=str)
    if isinstance(v, dict):
        return json.dumps(v, default=str)
    if fmt in (M.JSON.LD, M.XML.RDF):
        g = Graph()
        g.parse(data=v, format="json-ld" if fmt == M.JSON.LD else "xml")
        return sorted("%r %r %r" % s for s in g)
    return v


def canonical(s):
    """XML without the spaces between elements"""
    root = etree.fromstring(s)
    for e in root.iter():
        if not (e.text or "").strip():
            e.text = None
        if not (e.tail or "").strip():
            e.tail = None
    return etree.tostring(root, method="c14n")


def export(x, fmt):
    r = observe(lambda: value(fmt, x.export(fmt)))
    return r


def cases(tier):
    for o in OBJECTS:
        yield {"object": o, "length": 3 if tier == "quick" else 4}
    for part in range(8):
        yield {"classes": part}
    for part in range(len(SHAPES)):
        yield {"mixed": part}


def run(case, rec):
    if "classes" in case:
        return classes(case["classes"], rec)
    if "mixed" in case:
        return mixed(case["mixed"], rec)

    reset_docs()
    name = case["object"]
    offered, default = OBJECTS[name]
    if name == "tei":
        offered = offered | {M.PYTHON.NestedDict}
    x = build(name)
    if name not in ("tei", "cts passage", "dts document"):
        rec.check(set(x.export_capacities), offered, "formats offered by the " + name)
    made = [f for f in sorted(offered) if not (f == M.PYTHON.NestedDict and name in ("tei", "cts passage", "dts document"))]
    fresh = {}
    for f in made:
        fresh[f] = export(build(name), f)
        ok = fresh[f][0] == "ok" and fresh[f][1] is not None
        rec.check(ok, True, "%s exported as %s: %r" % (name, f, fresh[f]))
    if offered == CTS:
        from_text = etree.tostring(etree.fromstring(build(name).export(M.XML.CTS)), encoding=str)
        rec.check(canonical(fresh[M.PYTHON.ETREE][1]), canonical(from_text), "%s as etree is the %s parsed" % (name, M.XML.CTS))
    if name.startswith("inventories"):
        n = int(name[-1])
        x = build(name)
        rec.check(len(x), 3 * n, "number of texts in %s" % name)
        for f in (M.XML.CTS, M.XML.CapiTainS.CTS):
            root = etree.fromstring(x.export(f))
            rec.check([e.get("urn") for e in root if e.tag.endswith("}textgroup")], ["urn:cts:l:g", "urn:cts:l:h"][:n], "textgroups of %s as %s" % (name, f))
            rec.check(len(root.findall(".//{*}edition")), n, "editions of %s as %s" % (name, f))
        d = x.export(M.JSON.DTS.Std)
        if n == 1:
            rec.check(value(M.JSON.DTS.Std, d), value(M.JSON.DTS.Std, build("inventory").export(M.JSON.DTS.Std)), "one inventory as DTS")
        else:
            rec.check((d["@id"], d["totalItems"], [m["@id"] for m in d.get("member", [])]), ("http://x/all", n, ["http://x/inv", "http://x/inv2"][:n]), "%s as DTS" % name)
    for f in ALL + UNKNOWN:
        if f not in offered and f not in x.export_capacities:
            rec.state([name, f])
            rec.check(observe(build(name).export, f), ("err", "NotImplementedError"), "%s exported as %r, which is not offered" % (name, f))
    if default is None:
        rec.check(observe(build(name).export), ("err", "NotImplementedError"), "%s exported without format" % name)
    else:
        rec.check(observe(lambda: value(default, build(name).export())), fresh[default], "%s exported without format" % name)
    todo = made + [M.PLAINTEXT if M.PLAINTEXT not in offered else M.JSON.CTS]
    for seq in itertools.product(todo, repeat=case["length"]):
        x = build(name)
        before = set(get_graph())
        rec.state([name, seq])
        for i, f in enumerate(seq):
            got = export(x, f)
            if not rec.check(got, fresh.get(f, ("err", "NotImplementedError")), "%s as %s after %s" % (name, f, list(seq[:i]))):
                return
        if TEXT - offered:   # passages made to be exported have statements of their own
            rec.check(set(get_graph()) == before, True, "exporting %s leaves the graph as it is" % name)
        rec.trace()
    rec.outcome(name)
    rec.sample(case)


def classes(part, rec):
    """the format asked is made by the nearest class which offers it"""
    fs = ["a", "b"]
    offers = [None] + [list(c) for k in range(3) for c in itertools.combinations(fs, k)]
    n = 0
    for o1, o2, o3 in itertools.product(offers, repeat=3):
        for makes in itertools.product((True, False), repeat=3):
            n += 1
            if n % 8 != part:
                continue

            def make(name, base, offer, mk):
                d = {}
                if offer is not None:
                    d["EXPORT_TO"] = list(offer)
                if mk:
                    d["__export__"] = lambda self, output=None, **kw: (name, output, kw)
                return type(name, (base,), d)
            k1 = make("one", Exportable, o1, makes[0])
            k2 = make("two", k1, o2, makes[1])
            k3 = make("three", k2, o3, makes[2])
            x = k3()
            chain = [("three", o3, makes[2]), ("two", o2, makes[1]), ("one", o1, makes[0])]
            got = set(x.export_capacities)
            want = set(o1 or []) | set(o2 or []) | set(o3 or [])
            rec.state([o1, o2, o3, makes])
            rec.check(got, want, "formats offered by classes offering %s" % [o1, o2, o3])
            for f in fs + ["c"]:
                if f not in want:
                    rec.check(observe(x.export, f), ("err", "NotImplementedError"), "%s of %s" % (f, [o1, o2, o3]))
                    continue
                # a class without list has the list of the class above
                for i, (name, offer, mk) in enumerate(chain):
                    eff = next((c[1] for c in chain[i:] if c[1] is not None), [])
                    if f in eff:
                        maker = next((c[0] for c in chain[i:] if c[2]), None)
                        break
                rec.check(x.export(f, key=1), (maker, f, {"key": 1}) if maker else None, "%s made by the nearest class offering it: %s %s" % (f, [o1, o2, o3], makes))
    rec.trace()


# classes over several others: name -> what it is made over, in order of definition, the last one being exported; and the classes from the nearest on
SHAPES = [
    ([("a", []), ("b0", []), ("b", ["b0"]), ("j", ["a", "b"])], ["j", "a", "b", "b0"]),
    ([("a", []), ("b0", []), ("b", ["b0"]), ("j", ["b", "a"])], ["j", "b", "b0", "a"]),
    ([("z", []), ("x", ["z"]), ("y", ["z"]), ("j", ["x", "y"])], ["j", "x", "y", "z"]),
    ([("z", []), ("x", ["z"]), ("y", ["z"]), ("j", ["y", "x"])], ["j", "y", "x", "z"]),
    ([("a", []), ("b", []), ("c", []), ("j", ["a", "b", "c"])], ["j", "a", "b", "c"]),
]


def mixed(part, rec):
    """the same over several classes: those named first are nearer"""
    defs, order = SHAPES[part]
    offers = [list(c) for k in range(3) for c in itertools.combinations(["a", "b"], k)]
    for choice in itertools.product(offers, repeat=len(order)):
        offer = dict(zip(order, choice))
        made = {}
        for name, over in defs:
            made[name] = type(name, tuple(made[o] for o in over) or (Exportable,),
                              {"EXPORT_TO": offer[name], "__export__": lambda self, output=None, name=name, **kw: (name, output, kw)})
        x = made["j"]()
        for f in "a", "b", "c":
            near = [n for n in order if f in offer[n]]
            want = ("ok", (near[0], f, {"key": 1})) if near else ("err", "NotImplementedError")
            rec.check(observe(lambda: x.export(f, key=1)), want, "%s of a class over others, %s" % (f, offer))
        rec.check(set(x.export_capacities), {f for o in choice for f in o}, "formats of a class over others, %s" % offer)
        rec.state([part, choice])
    rec.trace()
