"""C44: two readers of the same things."""
import sys
from lxml.etree import fromstring
from mc import docs, http, repos
from mc.core import observe
from mc.checks import c17_inventory as inv
from mc.checks import c27_dts_collections as dtsc
from mc.checks import c31_dts_document as dtsd
from mc.checks import c32_cts_remote as ctsr
from MyCapytain.common.constants import Mimetypes, bind_graph, set_graph
from MyCapytain.common.reference import CtsReference, DtsReference, URN
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
from MyCapytain.resources.collections.cts import XmlCtsTextInventoryMetadata
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText
from MyCapytain.retrievers.cts5 import HttpCtsRetriever

PROPERTY = "C44"
BOUNDS = {
    "quick": "12 worlds (a text, its passages, simple passages and ranges, two texts, names and citations, an inventory, a local resolver, remote CTS and DTS texts, DTS collections in pages or not), 5-9 reads each; every ordered pair of reads, the second made whole at every distinct line of the library the first executes (first visit)",
    "thorough": "6-13 reads per world; every ordered pair, the second made whole at every executed line (every visit)"}
ASSUMPTIONS = ["a switch happens between two lines of the library and the second read runs to its end before the first goes on (two context switches); both readers share the objects and the process"]
SPEC = {"shape": [[[], []], [[]]], "scheme": "typed", "labels": "odd", "content": "mixed", "noise": "tail head", "wrap": 0}
OTHER = {"shape": [[], [], []], "scheme": "child", "labels": "seq", "content": "unique", "noise": "", "wrap": 0}
URN1 = "urn:cts:latinLit:phi1.a.e"


def ids(xs):
    return [None if x is None else str(x) for x in xs]


def plain(x):
    return x.export(Mimetypes.PLAINTEXT)


def shown(p):
    return None if p is None else (str(getattr(p, "reference", None)), plain(p))


def nested(d):
    return [[k, nested(v)] for k, v in d.items()] if isinstance(d, dict) else d


def passage_ops(get):
    return {
        "ids": lambda w: (ids(get(w).siblingsId), ids(get(w).childIds), str(get(w).firstId), str(get(w).lastId), str(get(w).parentId)),
        "next": lambda w: shown(get(w).next),
        "prev": lambda w: shown(get(w).prev),
        "children": lambda w: [shown(x) for x in get(w).children],
        "parent": lambda w: shown(get(w).parent),
        "xml": lambda w: get(w).export(Mimetypes.XML.Std),
    }


def text_ops(get):
    return {
        "references": lambda w: [ids(get(w).getReffs(level=n)) for n in (1, 2)],
        "under": lambda w: ids(get(w).getReffs(level=2, subreference=CtsReference("1"))),
        "unit": lambda w: shown(get(w).getTextualNode("1.10")),
        "simple": lambda w: shown(get(w).getTextualNode("10", simple=True)),
        "range": lambda w: get(w).getTextualNode("1.10-10.1").export(Mimetypes.XML.Std),
        "plain": lambda w: get(w).export(Mimetypes.PLAINTEXT, exclude=["tei:note"]),
        "dictionary": lambda w: nested(get(w).export(Mimetypes.PYTHON.NestedDict)),
        "unknown": lambda w: observe(get(w).getTextualNode, "9.9"),
        "citation": lambda w: [(c.name, c.refsDecl, c.fill("1.1")) for c in get(w).citation],
    }


def local(spec=SPEC):
    return CapitainsCtsText(resource=docs.xml(spec), urn=URN1)


# each world: make() -> the things read; reads: name -> function of them
def two(w, i):
    return w[i]


def world_text():
    return local, text_ops(lambda w: w), None


def world_passage(ref, simple):
    return lambda: local().getTextualNode(ref, simple=simple), passage_ops(lambda w: w), None


def world_texts():
    """a text and another one, with a reference system of its own"""
    a = {"one: " + k: f for k, f in text_ops(lambda w: w[0]).items() if k in ("references", "unit", "range", "plain", "citation")}
    b = {"two: references": lambda w: ids(w[1].getReffs(level=1)), "two: unit": lambda w: shown(w[1].getTextualNode("2")), "two: range": lambda w: shown(w[1].getTextualNode("1-2")),
         "two: around": lambda w: ids(w[1].getTextualNode("2").siblingsId), "two: plain": lambda w: plain(w[1]), "two: citation": lambda w: [(c.name, c.scope, c.xpath, c.fill("1")) for c in w[1].citation],
         "new: text": lambda w: ids(local(OTHER).getReffs(level=1)), "new: passage": lambda w: shown(local().getTextualNode("1.10"))}
    return lambda: (local(), local(OTHER)), dict(a, **b), None


def world_names():
    ops = {
        "urn": lambda w: (str(URN("urn:cts:a:b.c.d:1.1-1.2").upTo(URN.NO_PASSAGE)), ids(URN("urn:cts:a:b.c.d:1.1@x").reference.start.list), str(URN("urn:cts:a:b.c"))),
        "range": lambda w: (str(CtsReference("1.1@a-2.1").start), str(CtsReference("1.1-1.2").parent), CtsReference("1.1-1.2").depth, str(CtsReference("1.2-1").highest)),
        "kept urn": lambda w: (str(w[0].reference), w[0].upTo(URN.WORK), str(w[0].reference.end), len(w[0])),
        "kept citation": lambda w: [(c.name, c.scope, c.xpath, c.fill("3.4" if i else "3"), len(c)) for i, c in enumerate(w[1])],
        "match": lambda w: (w[1].match("1.2").name, w[1].match("1").name, w[1][-1].name, w[1].export(Mimetypes.XML.CTS)),
        "new citation": lambda w: local(OTHER).citation.export(Mimetypes.XML.TEI),
    }
    return lambda: (URN("urn:cts:latinLit:phi1.a.e:1.1-1.2"), local().citation), ops, None


def tree_ops(get):
    keys = lambda x: sorted(str(i) for i in x)
    return {
        "members": lambda w: keys(m.id for m in get(w).members),
        "descendants": lambda w: keys(m.id for m in get(w).descendants),
        "texts": lambda w: keys(m.id for m in get(w).readableDescendants),
        "item": lambda w: [get(w)[k].id for k in ("urn:cts:latinLit:phi1", "urn:cts:latinLit:phi1.a")],
        "labels": lambda w: [str(m.get_label("eng")) for m in sorted(get(w).descendants, key=lambda x: x.id)],
        "said": lambda w: [sorted((str(v), str(getattr(v, "language", None))) for v in m.metadata.get(inv.RDF_NAMESPACES.CTS.label)) for m in sorted(get(w).readableDescendants, key=lambda x: x.id)],
        "xml": lambda w: sorted((n.tag, sorted(n.attrib.items()), (n.text or "").strip()) for n in fromstring(get(w).export(Mimetypes.XML.CTS)).iter()),
        "dts": lambda w: canon(get(w).export(Mimetypes.JSON.DTS.Std)),
    }


def canon(x):
    if isinstance(x, dict):
        return sorted((k, canon(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return sorted((canon(v) for v in x), key=repr)
    return x


def inventory_xml():
    n = inv.node("inv", "main", labels=[])
    t = inv.node("tg", "urn:cts:latinLit:phi1", labels=[("eng", "G"), ("lat", "H")])
    t["kids"].append(inv.workspec(t["urn"] + ".a", inv.LISTS[6]))
    n["kids"].append(t)
    return inv.to_xml(n)


def world_inventory():
    xml = inventory_xml()

    def make():
        set_graph(bind_graph())
        return XmlCtsTextInventoryMetadata.parse(xml)
    ops = tree_ops(lambda w: w)
    ops["new"] = lambda w: sorted(x.id for x in XmlCtsTextInventoryMetadata.parse(xml.replace("phi1", "phi2")).readableDescendants)
    return make, ops, None


GROUPS = {"phi1": {"works": {"a": {"texts": [["e", "edition", None, "ok", "m", 2], ["t", "translation", "eng", "ok", "n", 1]]}}}}


def world_resolver(base):
    def make():
        set_graph(bind_graph())
        return CtsCapitainsLocalResolver(PATHS)
    said = lambda p: [str(g("eng")) for g in (p.get_creator, p.get_title, p.get_subject)]
    ops = {
        "unit": lambda r: shown(r.getTextualNode(URN1, "1.2")),
        "with metadata": lambda r: said(r.getTextualNode(URN1, "1", metadata=True)),
        "other text": lambda r: shown(r.getTextualNode("urn:cts:latinLit:phi1.a.t", "2")),
        "references": lambda r: [ids(r.getReffs(URN1, level=n)) for n in (1, 2)] + [ids(r.getReffs(URN1, 2, "1"))],
        "siblings": lambda r: ids(r.getSiblings(URN1, "1.2")),
        "work": lambda r: sorted(x.id for x in r.getMetadata("urn:cts:latinLit:phi1.a").readableDescendants),
        "branch": lambda r: [r.getMetadata(URN1).id] + [x.id for x in r.getMetadata(URN1).parents],
        "everything": lambda r: canon(r.getMetadata().export(Mimetypes.JSON.DTS.Std)),
        "unknown": lambda r: observe(r.getTextualNode, "urn:cts:latinLit:phi1.a.x"),
    }
    return make, ops, None


def world_cts():
    t = ctsr.text_of({"t": 1, "urn": 0})

    def make():
        set_graph(bind_graph())
        r = HttpCtsResolver(HttpCtsRetriever(ctsr.ROOT))
        return r, r.getTextualNode(t.urn, "1.pr")
    g = lambda w: w[1]
    ops = {
        "ids": lambda w: (ids(g(w).siblingsId), ids(g(w).childIds), str(g(w).firstId), str(g(w).lastId), str(g(w).parentId), str(g(w).prevId), str(g(w).nextId)),
        "next": lambda w: (str(g(w).next.urn), plain(g(w).next)),
        "children": lambda w: [str(x.urn) for x in g(w).children],
        "parent": lambda w: str(g(w).parent.urn),
        "references": lambda w: [ids(g(w).getReffs(level=1)), ids(w[0].getReffs(t.urn, 1))],
        "other": lambda w: plain(w[0].getTextualNode(t.urn, "10.1.1")),
        "said": lambda w: ctsr.said(w[0].getTextualNode(t.urn, "2", metadata=True)),
        "siblings": lambda w: ids(w[0].getSiblings(t.urn, "1.2")),
    }
    return make, ops, lambda: ctsr.Server(t, "prefix")


def world_dts_text():
    t = dtsd.Text(dtsd.TEXTS[1])

    def make():
        set_graph(bind_graph())
        r = HttpDtsResolver(dtsd.ROOT)
        return r, r.getTextualNode("urn:t", DtsReference("a b.1"))
    g = lambda w: w[1]
    ops = {
        "ids": lambda w: [dtsd.ref(x) for x in (g(w).prevId, g(w).nextId, g(w).parentId, g(w).firstId, g(w).lastId)] + [dtsd.ref(x) for x in g(w).childIds],
        "next": lambda w: plain(g(w).next),
        "children": lambda w: [plain(x) for x in g(w).children],
        "parent": lambda w: plain(g(w).parent),
        "references": lambda w: [[dtsd.ref(x) for x in w[0].getReffs("urn:t", level=n)] for n in (1, 2)],
        "collection": lambda w: (g(w).collection.id, g(w).depth, str(g(w).get_title("lat"))),
        "other": lambda w: plain(w[0].getTextualNode("urn:t", DtsReference("2"))),
    }
    return make, ops, lambda: dtsd.Server(t, "absolute")


def world_dts_collection(size):
    w0 = dtsc.WORLDS[0]

    def make():
        set_graph(bind_graph())
        return HttpDtsResolver(dtsc.ROOT).getMetadata()
    ops = {k: dtsc.READS[k] for k in ("children", "members", "parents", "retrieve", "child")}
    ops["below"] = lambda o: sorted(x.id for x in o.children["urn:a"].members)
    return make, ops, lambda: dtsc.Server(w0, dtsc.SIZES[size])


WORLDS = {"text": world_text, "passage": lambda: world_passage("1", False), "simple passage": lambda: world_passage("1", True), "range": lambda: world_passage("1.10-10.1", False),
          "two texts": world_texts, "names": world_names, "inventory": world_inventory, "resolver": lambda: world_resolver(None),
          "cts": world_cts, "dts text": world_dts_text, "dts collection": lambda: world_dts_collection(0), "dts collection, one page": lambda: world_dts_collection(2)}
PATHS = []


class Stop(BaseException):
    pass


def interleaved(first, then, at, visits):
    """first, with then (a whole read) made at its at-th point; None if there is no such point.
    A point is a line of the library, at one of its first visits (visits=0: any)."""
    seen, n, result = {}, [0], []

    def line(frame, event, arg):
        if result:
            return None
        if event == "line":
            if visits:
                k = (frame.f_code, frame.f_lineno)
                seen[k] = seen.get(k, 0) + 1
                if seen[k] > visits:
                    return line
            n[0] += 1
            if n[0] == at:
                result.append(observe(then))
                sys.settrace(None)
        return line

    def call(frame, event, arg):
        return None if result or LIB not in frame.f_code.co_filename else line
    sys.settrace(call)
    try:
        got = observe(first)
    finally:
        sys.settrace(None)
    return got, (result[0] if result else None), n[0]


LIB = "/MyCapytain/"


# reads left to the thorough tier
LATER = {"resolver": ("branch", "siblings", "unknown", "other text"), "cts": ("children", "siblings", "other"), "two texts": ("one: citation", "one: plain", "two: around", "two: range"),
         "dts collection": ("parents", "retrieve"), "dts collection, one page": ("retrieve", "child"), "range": ("prev", "parent"), "text": ("unknown", "under"), "simple passage": ("prev", "xml"), "passage": ("xml",), "dts text": ("other", "parent")}


def cases(tier):
    for name, world in WORLDS.items():
        ops = [op for op in world()[1] if tier != "quick" or op not in LATER.get(name, ())]
        for a in ops:
            for b in ops:
                yield {"world": name, "first": a, "then": b, "visits": 1 if tier == "quick" else 0}


def run(case, rec):
    if case["world"] == "resolver":
        with repos.scratch() as base:
            PATHS[:] = repos.write_all([GROUPS], base)
            play(case, rec)
    else:
        play(case, rec)


def play(case, rec):
    make, ops, server = WORLDS[case["world"]]()
    if server:
        with http.network(server()):
            explore(case, make, ops, rec)
    else:
        explore(case, make, ops, rec)


def explore(case, make, ops, rec):
    a, b = ops[case["first"]], ops[case["then"]]
    alone = {k: observe(ops[k], make()) for k in (case["first"], case["then"])}
    k = 0
    while True:
        k += 1
        w = make()
        got, other, n = interleaved(lambda: a(w), lambda: b(w), k, case["visits"])
        if n < k:
            break
        rec.state([case["world"], case["first"], case["then"], k])
        rec.check(other, alone[case["then"]], "%s read at step %d of %s" % (case["then"], k, case["first"]))
        rec.check(got, alone[case["first"]], "%s with %s read at its step %d" % (case["first"], case["then"], k))
        if rec.violations:
            return
    # read again afterwards
    w = make()
    interleaved(lambda: a(w), lambda: b(w), k // 2, case["visits"])
    for name in (case["first"], case["then"]):
        rec.check(observe(ops[name], w), alone[name], "%s after both" % name)
    rec.count("steps", k - 1)
    rec.trace()
    rec.sample(case)
