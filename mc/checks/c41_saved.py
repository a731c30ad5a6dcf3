"""C41: objects saved with pickle and loaded, here or in another process, or deep-copied."""
import copy
import itertools
import json
import os
import pickle
import subprocess
import sys
from mc import docs
from mc.checks import c39_graphs as g39
from mc.core import observe
from MyCapytain.common.constants import Mimetypes, bind_graph, get_graph, set_graph
from MyCapytain.common.reference import Citation, CtsReference, DtsCitationSet, DtsReference, DtsReferenceSet, URN
from MyCapytain.resources.collections import cts as X
from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection
from MyCapytain.resources.prototypes.metadata import Collection
from MyCapytain.common.metadata import Metadata
from rdflib import Literal, URIRef
from rdflib.namespace import DC

PROPERTY = "C41"
BOUNDS = {"quick": "16 kinds of object (inventory, a textgroup, work and text of it, collection of inventories, collection, DTS collection, metadata, text, passage, simple passage, CTS and DTS citation schemes, references, reference sets, URN); every history of <=3 operations among: save one of the objects and load it (4 pickle protocols) or deep-copy it, edit one of them in 2 ways, clear the graph of the first one; after each, everything each object says compared with an object that was never saved; each kind loaded in another process, with and without its own graph there",
          "thorough": "histories of <=4 operations"}
DTS = "https://w3id.org/dts/api#"
HOW = {"p0": lambda o: pickle.loads(pickle.dumps(o, 0)), "p2": lambda o: pickle.loads(pickle.dumps(o, 2)),
       "p4": lambda o: pickle.loads(pickle.dumps(o, 4)), "p5": lambda o: pickle.loads(pickle.dumps(o, 5)), "deepcopy": copy.deepcopy}


def text():
    return g39.make("text", 0)[0]


def dts_scheme():
    return DtsCitationSet.ingest([{DTS + "citeType": [{"@value": "book"}], DTS + "citeStructure": [
        {DTS + "citeType": [{"@value": "poem"}], DTS + "citeStructure": [{DTS + "citeType": [{"@value": "line"}]}]}, {DTS + "citeType": [{"@value": "preface"}]}]}])


def tic():
    o = CtsTextInventoryCollection("tic")
    o.set_label("all", "eng")
    g39.make("inventory", 0).parent = o
    X.XmlCtsTextInventoryMetadata("urn:two", parent=o).set_label("two", "fre")
    return o


def tic_edit(o, n):
    o["urn:cts:latinLit:phi1.a"].set_label("edit %d" % n, "fre")
    return o


def dts_ref():
    r = DtsReference("1", "2", type_="x")
    r.metadata.add(DC.title, "first", "eng")
    return r


# kind: how it is made
KINDS = {
    "inventory": lambda: g39.make("inventory", 0), "textgroup": lambda: g39.make("inventory", 0)["urn:cts:latinLit:phi1"],
    "work": lambda: g39.make("inventory", 0)["urn:cts:latinLit:phi1.a"], "edition": lambda: g39.make("inventory", 0)["urn:cts:latinLit:phi1.a.v0"],
    "inventories": tic, "collection": lambda: g39.make("collection", 0), "dts": lambda: g39.make("dts", 0), "metadata": lambda: g39.make("metadata", 0),
    "text": text, "passage": lambda: text().getTextualNode("1.1-2.1"), "simple": lambda: text().getTextualNode("1", simple=True),
    "citation": lambda: text().citation, "scheme": dts_scheme,
    "references": lambda: [CtsReference("1.1@a[2]-1.2"), CtsReference("1"), text().getReffs(level=2), URN("urn:cts:a:b.c.d:1-2@x"), URN("urn:cts:a:b")],
    "dts references": lambda: [DtsReferenceSet(dts_ref(), DtsReference("3"), level=2, citation=dts_scheme().children[0]), dts_ref()],
    "level": lambda: list(text().citation)[-1],
}
CTS = ("inventory", "textgroup", "work", "edition", "inventories")
FY = "http://example.org/other#"


def members(kind, o):
    return [o] + [x for x in o.descendants] + list(reversed(o.parents)) if kind != "metadata" else []


def edit(kind, o, e, n):
    """two ways of editing each kind of object; those that cannot be edited stay as they are"""
    v = "edit %d" % n
    if kind in CTS:
        root = o.parents[-1] if o.parents else o
        if e == 0:
            root["urn:cts:latinLit:phi1.a"].set_cts_property("title", v, "fre")
            root["urn:cts:latinLit:phi1.a.v0"].metadata.add(URIRef(FY + "note"), v)
        elif kind == "edition":
            o.citation = Citation(name=v, refsDecl="/tei:TEI//tei:div[@n='$1']")
        else:
            up = root["urn:cts:latinLit:phi1.a"]
            X.XmlCtsEditionMetadata("urn:cts:latinLit:phi1.a.n%d" % n, parent=up).set_label(v, "eng")
    elif kind in ("collection", "dts"):
        if e == 0:
            list(o.children.values())[0].metadata.add(URIRef(FY + "kind"), v)
            o.set_label(v, "fre")
        elif kind == "dts":
            o.children["urn:new:%d" % n] = type(o)("urn:new:%d" % n)
        else:
            type(o)("urn:new:%d" % n).parent = o
    elif kind == "metadata":
        o.add(URIRef(FY + "kind"), v) if e == 0 else o.remove(DC.title)
    elif kind in ("text", "passage", "simple"):
        if e == 0:
            o.set_description(v, "fre")
        elif kind == "simple":
            o.set_title(v, "eng")       # its element is shared with its text
        else:
            l = (o.resource.xpath(".//*[local-name()='l']") or [o.resource])[0]
            l.set("ana", v)
    elif kind in ("citation", "level"):
        if e == 0:
            o.name = v
        else:
            o.xpath = o.xpath.replace("@n=", "@xml:id=")
    elif kind == "scheme":
        o.children[0].name = v
    elif kind == "dts references":
        if e == 0:
            o[1].metadata.add(DC.title, v)
            o[0][0].metadata.add(DC.title, "in set " + v)


def tree(c):
    return [getattr(c, "name", None), [tree(k) for k in c.children]]


def ref(r):
    if r is None:
        return None
    if isinstance(r, (CtsReference,)):
        return [str(r), r.depth, str(r.start), r.start.list, r.start.subreference and list(r.start.subreference), str(r.end), r.is_range(), str(r.parent), hash(r) == hash(CtsReference(str(r))), r == CtsReference(str(r))]
    return [str(r), r.start, r.end, r.type, r.is_range(), sorted([str(o), o.language or ""] for o in r.metadata.get(DC.title))]


def words(x):
    return x.export(Mimetypes.XML.Std)


def readings(kind, o):
    """everything an object says, as JSON"""
    out = []
    if kind in CTS:
        for x in [o] + o.descendants + o.parents:
            out.append([x.id, type(x).__name__, [m.id for m in x.members], [d.id for d in x.descendants], [p.id for p in x.parents], x.size,
                        [m.parent is x for m in x.members], [m.id in x and x[m.id] is m for m in x.members], [str(x.get_label(l)) for l in ("eng", "fre")],
                        str(x.type), str(x.model)])
            if isinstance(x, X.XmlCtsTextInventoryMetadata):
                out.append([sorted(x.textgroups), sorted(t.id for t in x.readableDescendants)])
            if hasattr(x, "citation") and not isinstance(x, CtsTextInventoryCollection):
                out.append([x.lang, str(x.urn), x.subtype, [str(c) for c in x.citation or []], str(x.get_title("eng")), str(x.get_creator("eng"))])
            if not isinstance(x, CtsTextInventoryCollection):
                out.append([g39.xml(x.export(Mimetypes.XML.CTS)), g39.xml(x.export(Mimetypes.XML.CapiTainS.CTS))])
            out.append([g39.expanded(x.export(Mimetypes.JSON.DTS.Std)), g39.rdf(x.export(Mimetypes.XML.RDF), "xml"), sorted(x.metadata.export(Mimetypes.JSON.Std)),
                        x.graph is o.graph])
    elif kind in ("collection", "dts"):
        for x in [o] + list(o.children.values()):
            out.append([x.id, x.size, [m.id for m in x.members], [p.id for p in x.parents], str(x.get_label()), g39.expanded(x.export(Mimetypes.JSON.DTS.Std)),
                        g39.rdf(x.export(Mimetypes.XML.RDF), "xml"), g39.rdf(x.export(Mimetypes.JSON.LD), "json-ld"), x.graph is o.graph])
    elif kind == "metadata":
        out.append(list(map(list, g39.exports("metadata", o, o.graph))))
    elif kind in ("text", "passage", "simple"):
        out.append([str(o.urn), o.id, words(o), o.export(Mimetypes.PLAINTEXT), [str(c) for c in o.citation.root], str(o.citation), [str(o.get_title("eng")), str(o.get_description())]])
        for level in (1, 2):
            out.append(observe(lambda: list(map(str, o.getReffs(level=level)))))
        if kind == "text":
            out.append([[r, words(o.getTextualNode(r)), words(o.getTextualNode(r, simple=True))] for r in ("1", "1.2", "1-2", "2.1")])
            out.append(o.export(Mimetypes.PYTHON.NestedDict))
        else:
            out.append([str(o.reference), o.depth, list(map(str, o.childIds)), str(o.prevId), str(o.nextId), str(o.parentId)])
            out.append([observe(lambda: words(o.next)) if kind == "passage" else None, observe(lambda: [words(c) for c in o.children]), observe(lambda: words(o.parent) if o.parentId else None)])
    elif kind in ("citation", "level"):
        out.append([o.name, o.refsDecl, o.scope, o.xpath, o.attribute, o.is_root(), o.is_set(), o.root.name, o.depth, len(o), [c.name for c in o], [c.name for c in o.root],
                    o.child is not None and o.child.root is o.root, o.export(Mimetypes.XML.CTS), o.export(Mimetypes.XML.TEI), g39.sort(o.export(Mimetypes.JSON.DTS.Std) if o.is_root() else [])])
        out.append([o.root.match(r).name if o.root.is_set() else None for r in ("1", "1.2")])
        out.append(o.fill(["1", "2"][:max(1, list(o.root).index(o) + 1)] if o in list(o.root) else None))
    elif kind == "scheme":
        out.append([tree(o), o.depth, len(o), [c.name for c in o], [sorted(x.name for x in o[i]) for i in range(o.depth)],
                    o.is_root(), o.is_empty(), [c.root is o for c in o], [c.is_root() for c in o], g39.sort(o.export(Mimetypes.JSON.DTS.Std, context={"@vocab": DTS}) if False else [])])
        out.append(observe(lambda: json.loads(json.dumps(o.export(Mimetypes.JSON.DTS.Std)))))
    elif kind == "references":
        a, b, s, u, v = o
        out.append([ref(a), ref(b), type(a).__name__, type(s).__name__])
        out.append([[ref(r) for r in s], s.level, s.citation and s.citation.name, len(s), "1.2" in s, CtsReference("1.2") in s, s.index(CtsReference("1.2")), s.count("1.1"),
                    [type(r).__name__ for r in s]])
        for x in (u, v):
            out.append([str(x), x.namespace, x.textgroup, x.work, x.version, str(x.reference), len(x), x == URN(str(x)), observe(x.upTo, URN.NO_PASSAGE)])
    else:
        s, r = o
        out.append([[ref(x) for x in s], s.level, s.citation and s.citation.name, len(s), "3" in s, DtsReference("3") in s, ref(r), r == dts_ref(), type(s).__name__, [type(x).__name__ for x in s]])
    return json.loads(json.dumps(out, default=str))


def ops(n):
    out = []
    for i in range(n):
        out += [("save", i, h) for h in HOW] + [("edit", i, e) for e in (0, 1)]
    return out + [("clear",)]


def play(kind, hist, rec):
    """returns the number of objects, or None on a violation"""
    rec.state([kind, hist])
    set_graph(bind_graph())
    objs = [(KINDS[kind](), [])]       # with the edits made since it was made, those of what it was saved from included
    cleared = False
    other = bind_graph()
    other.add((URIRef("urn:o"), DC.title, Literal("o")))
    before = set(other)
    set_graph(other)
    for n, op in enumerate(hist):
        if op[0] == "save":
            o, edits = objs[op[1]]
            if cleared and op[1] == 0:
                return len(objs)
            new = observe(HOW[op[2]], o)
            if new[0] != "ok":
                rec.violation("%s, %r: %r" % (kind, hist[:n + 1], new))
                return None
            objs.append((new[1], list(edits)))
        elif op[0] == "edit":
            o, edits = objs[op[1]]
            keep = get_graph()
            set_graph(o[1].metadata.graph if kind == "dts references" else o.graph if hasattr(o, "graph") else keep)      # new members are made in the graph of what they are added to
            edit(kind, o, op[2], n)
            set_graph(keep)
            edits.append((op[2], n))
        elif not cleared and hasattr(objs[0][0], "graph"):
            objs[0][0].graph.remove((None, None, None))
            cleared = True
    rec.check(get_graph() is other and set(other) == before, True, "%s, %r: the graph in use is left alone" % (kind, hist))
    for i, (o, edits) in enumerate(objs):
        if i == 0 and cleared:
            continue
        if hist[-1][0] == "save" and i < len(objs) - 1 and not edits and i:
            continue    # compared already in a shorter history
        k = json.dumps([kind, edits])
        if k not in CACHE:
            set_graph(bind_graph())
            never = KINDS[kind]()
            for e, n in edits:
                edit(kind, never, e, n)
            CACHE[k] = readings(kind, never)
            set_graph(other)
        got = observe(readings, kind, o)
        if got[0] != "ok":
            rec.violation("%s, %r: reading object %d: %r" % (kind, hist, i, got))
            return None
        if not rec.check(got[1], CACHE[k], "object %d of %s after %r" % (i, kind, hist)):
            return None
    return len(objs)


CACHE = {}


def reset():
    CACHE.clear()
    set_graph(bind_graph())


def cases(tier):
    for k in KINDS:
        yield {"m": "process", "kind": k}
        for first in [("save", 0, h) for h in HOW] + [("edit", 0, 0), ("edit", 0, 1)]:
            yield {"m": "history", "kind": k, "first": first, "n": 3 if tier == "quick" else 4}


def useful(hist):
    """histories with something saved, each protocol in one place at most"""
    saves = [h[2] for h in hist if h[0] == "save"]
    if len(saves) > 1 and saves[1] not in ("p2", "deepcopy") or len(saves) > 2:
        return False
    clears = [n for n, h in enumerate(hist) if h[0] == "clear"]
    if len(clears) > 1 or clears and not saves:
        return False
    return True


def run(case, rec):
    if case["m"] == "process":
        return process(case["kind"], rec)
    kind = case["kind"]
    first = tuple(case["first"])
    todo = [[first]]
    while todo:
        hist = todo.pop()
        count = play(kind, hist, rec)
        if count is None:
            return
        if len(hist) < case["n"]:
            todo += [hist + [op] for op in ops(count) if useful(hist + [op])]
        rec.trace()
    rec.outcome(case)
    rec.sample(case)


CHILD = """
import sys, pickle, json
sys.path[:0] = json.loads(sys.argv[1])
from MyCapytain.common.constants import set_graph, get_graph, bind_graph
data = sys.stdin.buffer.read()
import io
src = io.BytesIO(data)
out = []
from mc.checks import c41_saved as c
for n in range(int(sys.argv[3])):
    if n % 2:
        g = bind_graph()
        g.bind("zz", "http://example.org/ns#")
        set_graph(g)
        c.KINDS[sys.argv[2]]()
    before = set(get_graph())
    o = pickle.load(src)
    same = set(get_graph()) == before
    out.append([c.readings(sys.argv[2], o), same])
json.dump(out, sys.stdout)
"""


def process(kind, rec):
    set_graph(bind_graph())
    o = KINDS[kind]()
    want = readings(kind, o)
    protocols = [0, 0, 2, 2, 4, 4, 5, 5]
    data = b"".join(pickle.dumps(o, p) for p in protocols)
    for seed in "1", "2":
        env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONWARNINGS="ignore", PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-B", "-c", CHILD, json.dumps([x for x in sys.path if x]), kind, str(len(protocols))], input=data, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if p.returncode:
            rec.violation("%s loaded in another process: %s" % (kind, p.stderr.decode("utf-8", "replace")[-300:]))
            return
        for (got, same), proto in zip(json.loads(p.stdout.decode("utf-8")), protocols):
            rec.check(got, want, "%s saved with protocol %d and loaded in another process" % (kind, proto))
            rec.check(same, True, "%s: loading adds nothing to the graph in use" % kind)
            rec.state([kind, proto, seed])
    rec.trace()
