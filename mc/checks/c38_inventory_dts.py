"""C38: the DTS form of CTS collections."""
import json
from pyld import jsonld
from rdflib import RDF, RDFS
from rdflib.namespace import DC, DCTERMS, SKOS
from mc.checks import c17_inventory as inv
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, bind_graph, get_graph, set_graph
from MyCapytain.resources.collections import cts as X

PROPERTY = "C38"
BOUNDS = {"quick": "the inventories of C17 (every structure of <=2 textgroups x <=2 works x 8 lists of texts; every label, citation depth and structured metadata value and pair at every level); every node of each exported as DTS JSON, twice and in both orders (inventory first, texts first), written as JSON and expanded",
          "thorough": "the thorough inventories of C17"}
ASSUMPTIONS = ["pyld expands JSON-LD correctly", "collections without label are not compared on their title"]
CTS, DTS, HYD = str(RDF_NAMESPACES.CTS), str(RDF_NAMESPACES.DTS), str(RDF_NAMESPACES.HYDRA)
TYPE = {"inv": "TextInventory", "tg": "textgroup", "work": "work", "edition": "edition", "translation": "translation", "commentary": "commentary"}


def cases(tier):
    return inv.cases(tier)


def value(t):
    """a term of the model -> what JSON-LD may say of it"""
    if t[1] == "uri":
        return ("@id", t[0])
    if len(t) > 2 and t[2].split("#")[-1] in ("date", "gYear", "unit") or t[0] == "many":
        # JSON has no type for it
        return ("@value", t[0], t[2])
    return ("@value", t[0], t[1] if t[1] != "None" else None)


def said(x):
    if "@id" in x:
        return ("@id", x["@id"])
    v = x["@value"]
    return ("@value", {True: "true", False: "false"}[v] if isinstance(v, bool) else str(v), x.get("@language") or x.get("@type"))


def same(got, want):
    """values compared as text, numbers by value (1.5 may be written 1.5E0)"""
    def norm(v):
        if v[0] == "@value":
            try:
                return (v[0], float(v[1]), v[2])
            except ValueError:
                pass
        return v
    return {norm(v) for v in got} == {norm(v) for v in want}


def statements(m):
    """{property: values} the DTS form carries, in its two containers"""
    ext, dct = {}, {}
    if m["kind"] == "inv":
        return ext, dct
    labels = [(v, l) for l, v in m["labels"]]
    for p in (CTS + inv.PROPS[m["kind"]], str(SKOS.prefLabel)):
        if labels:
            ext.setdefault(p, set()).update(("@value", v, l) for v, l in labels)
    if m.get("lang"):
        ext.setdefault(str(DC.language), set()).add(("@value", m["lang"], None))
    for l, v in m.get("desc", []):
        ext.setdefault(CTS + "description", set()).add(("@value", v, l))
    for u in m.get("about", []):
        ext.setdefault(CTS + "about", set()).add(("@id", u))
    for p, vs in m["meta"].items():
        p = inv.expand(p)
        box = dct if p.startswith(str(DCTERMS)) else ext
        box.setdefault(p, set()).update(value(v) for v in vs)
    return ext, dct


def base(rec, x, m, what):
    if m["kind"] != "inv":
        rec.check(x.get("@id"), m["id"], "@id of " + what)
    rec.check(x.get("@type"), [CTS + TYPE[m["kind"]]], "@type of " + what)
    rec.check([v["@value"] for v in x.get(HYD + "totalItems", [])], [len(m["kids"])], "totalItems of " + what)
    titles = [v["@value"] for v in x.get(HYD + "title", [])]
    if m.get("labels"):
        rec.check(len(titles) == 1 and titles[0] in [v for l, v in m["labels"]], True, "title of %s: %r" % (what, titles))


def cite(x):
    out = []
    while x.get(DTS + "citeStructure"):
        if len(x[DTS + "citeStructure"]) != 1:
            return "several"
        x = x[DTS + "citeStructure"][0]
        out.append([v["@value"] for v in x.get(DTS + "citeType", [])])
    return out


def look(rec, e, m, what):
    try:
        text = json.dumps(e)
    except TypeError as error:
        rec.violation("%s is not JSON: %s" % (what, error))
        return
    back = jsonld.expand(json.loads(text))
    if not rec.check(len(back), 1, "one object in " + what):
        return
    x = back[0]
    rec.check(e["@id"], m["id"], "identifier of " + what)
    base(rec, x, m, what)
    ext, dct = statements(m)
    for key, want in (("extensions", ext), ("dublincore", dct)):
        box = x.get(DTS + key, [{}])
        got = {p: {said(v) for v in vs} for p, vs in box[0].items()}
        rec.check(sorted(got), sorted(want), "properties in the %s of %s" % (key, what))
        for p in want:
            rec.check(same(got.get(p, set()), want[p]), True, "%s of %s: %r, expected %r" % (p, what, got.get(p), want[p]))
    kids = x.get(HYD + "member", [])
    if rec.check([k.get("@id") for k in kids], [k["id"] for k in m["kids"]], "members of " + what):
        for k, km in zip(kids, m["kids"]):
            base(rec, k, km, "member %s of %s" % (km["id"], what))
    if "cit" in m:
        rec.check([v["@value"] for v in x.get(DTS + "citeDepth", [])], [len(m["cit"])] if m["cit"] else [], "citeDepth of " + what)
        rec.check(cite(x), [[c[0]] for c in m["cit"]], "citeStructure of " + what)
    rec.outcome([m["kind"], sorted(ext), sorted(dct), len(m.get("cit", []))])


def run(spec, rec):
    doc = inv.to_xml(spec)
    want = inv.model(spec)
    for order in (1, -1):
        set_graph(bind_graph())
        o = X.XmlCtsTextInventoryMetadata.parse(doc)
        todo = [(o, want)]
        for x, m in todo:
            todo += list(zip(x.members, m["kids"]))
        before = set(get_graph())
        rec.state([want, order])
        for turn in (1, 2):
            for x, m in todo[::order]:
                what = "%s (export %d, order %d)" % (m["id"], turn, order)
                look(rec, x.export(Mimetypes.JSON.DTS.Std), m, what)
        rec.check(set(get_graph()), before, "exports leave the graph as it is")
    rec.trace()
    rec.sample(doc[:300])
