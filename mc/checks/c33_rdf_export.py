"""C33: RDF exports of collections against a closure over plain sets of statements."""
import itertools
from rdflib import BNode, Graph, Literal, URIRef
from rdflib.compare import isomorphic
from rdflib.namespace import XSD
from mc.core import observe
from MyCapytain.common.constants import Mimetypes, bind_graph, get_graph, set_graph
from MyCapytain.common.utils import Subgraph
from MyCapytain.resources.collections.cts import XmlCtsTextInventoryMetadata
from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection

PROPERTY = "C33"
BOUNDS = {"quick": "6 trees of <=3 collections, every subset of <=3 (and all) of 11 further statements (links out, chains, cycles, blank nodes, literals written as identifiers, languages, datatypes); every collection exported as JSON-LD and RDF/XML; subgraphs around one or two nodes with limits (asc,desc) in 6 combinations; every node of an inventory",
          "thorough": "every subset of <=6 statements (and all)"}
ASSUMPTIONS = ["rdflib parses JSON-LD and RDF/XML correctly"]

EX = "http://ex.org/ns/"
ROOT, A, B = "http://x/root", "urn:cts:x:a", "http://x/b#1"
EXT, OTHER = URIRef("http://ext/1"), URIRef("http://ext/2")
N1, N2, N3 = BNode(), BNode(), BNode()


def p(name):
    return URIRef(EX + name)


POOL = [
    (URIRef(A), p("link"), EXT),
    (EXT, p("note"), Literal("<b> & c", lang="eng")),
    (EXT, p("back"), URIRef(ROOT)),
    (URIRef(A), p("name"), Literal("http://ext/1")),
    (URIRef(A), p("part"), N1),
    (N1, p("part"), N2),
    (N2, p("year"), Literal("12", datatype=XSD.integer)),
    (N3, p("about"), URIRef(A)),
    (OTHER, p("cites"), URIRef(A)),
    (OTHER, p("note"), Literal("of another")),
    (URIRef(ROOT), p("link"), OTHER),
]
TREES = [[], [(A, ROOT)], [(B, ROOT)], [(A, ROOT), (B, ROOT)], [(A, ROOT), (B, A)], [(B, A), (A, ROOT)]]
LIMITS = [(0, 1), (1, 1), (1, 0), (0, -1), (1, -1), (0, 0)]
FORMATS = {Mimetypes.JSON.LD: "json-ld", Mimetypes.XML.RDF: "xml"}
INVENTORY = '''<ti:TextInventory tiid="http://x/inv" xmlns:ti="http://chs.harvard.edu/xmlns/cts" xmlns:cpt="http://purl.org/capitains/ns/1.0#" xmlns:dc="http://purl.org/dc/elements/1.1/">
<ti:textgroup urn="urn:cts:l:g"><ti:groupname xml:lang="eng">G</ti:groupname>
 <ti:work urn="urn:cts:l:g.w" xml:lang="lat"><ti:title xml:lang="eng">W</ti:title>
  <ti:edition urn="urn:cts:l:g.w.e"><ti:label xml:lang="eng">E</ti:label><ti:description xml:lang="fre">D &amp; d</ti:description>
   <cpt:structured-metadata><dc:creator xml:lang="eng">C</dc:creator></cpt:structured-metadata></ti:edition>
  <ti:translation urn="urn:cts:l:g.w.t" xml:lang="eng"><ti:label xml:lang="eng">T</ti:label></ti:translation>
 </ti:work></ti:textgroup></ti:TextInventory>'''


def closure(stmts, targets, asc=1, desc=-1):
    """statements connected to the targets: what they (and, without limit, what they name) say,
    and what is said of them"""
    out = set()
    for t in targets:
        if desc:
            todo, seen = [t], set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                for s in stmts:
                    if s[0] == x and not (desc == 1 and isinstance(s[2], BNode)):
                        out.add(s)
                        if desc == -1:
                            todo.append(s[2])
        if asc:
            for s in stmts:
                # blank nodes are followed only when something else is
                if s[2] == t and not (desc in (0, 1) and isinstance(s[0], BNode)):
                    out.add(s)
    return out


def graph(stmts):
    g = Graph()
    for s in stmts:
        g.add(s)
    return g


def same(a, b):
    a, b = graph(a), graph(b)
    if not any(isinstance(x, BNode) for s in list(a) + list(b) for x in s):
        return set(a) == set(b)
    return len(a) == len(b) and isomorphic(a, b)


def cases(tier):
    n = 3 if tier == "quick" else 6
    subsets = [c for k in range(n + 1) for c in itertools.combinations(range(len(POOL)), k)] + [tuple(range(len(POOL)))]
    for t in range(len(TREES)):
        for part in range(4):
            yield {"tree": t, "subsets": [list(c) for c in subsets[part::4]]}
    yield {"inventory": True}


def export_checks(rec, c, before, what):
    want = closure(before, [c.asNode()])
    for fmt, name in FORMATS.items():
        out = c.export(fmt)
        g = Graph()
        got = observe(lambda: set(g.parse(data=out, format=name)))
        if got[0] != "ok":
            rec.violation("%s %s: cannot be read back: %r" % (what, fmt, got))
            continue
        rec.check(same(got[1], want), True, "%s %s: %d statements instead of %d: %s" % (
            what, fmt, len(got[1]), len(want), sorted(map(str, want ^ got[1]))[:4]))
    rec.trace()


def run(case, rec):
    if "inventory" in case:
        set_graph(bind_graph())
        inv = XmlCtsTextInventoryMetadata.parse(INVENTORY)
        before = set(get_graph())
        for c in [inv] + inv.descendants:
            rec.state(str(c.id))
            export_checks(rec, c, before, "inventory node %s" % c.id)
        rec.check(set(get_graph()) == before, True, "exports leave the graph as it is")
        return
    for subset in case["subsets"]:
        set_graph(bind_graph())
        g = get_graph()
        nodes = {i: (ResourceCollection if i == B else Collection)(i) for i in (ROOT, A, B)}
        nodes[ROOT].set_label("the root", "eng")
        nodes[A].set_label("urn:cts:x:a", "lat")
        nodes[B].set_label(ROOT, None)
        for child, parent in TREES[case["tree"]]:
            nodes[child].parent = nodes[parent]
        for i in subset:
            g.add(POOL[i])
        before = set(g)
        ns = sorted(map(str, g.namespaces()))
        for i in (ROOT, A, B):
            rec.state([case["tree"], subset, i])
            export_checks(rec, nodes[i], before, "tree %d with %s, %s" % (case["tree"], subset, i))
        for asc, desc in LIMITS:
            for targets in ([A], [ROOT], [A, B], [ROOT, A]):
                if len(targets) > 1 and (asc, desc) not in ((1, 1), (0, -1), (1, -1), (0, 1)):
                    continue
                s = Subgraph(dict(g.namespaces()))
                for t in targets:
                    s.graphiter(g, URIRef(t), ascendants=asc, descendants=desc)
                rec.check(set(s.graph) == closure(before, [URIRef(t) for t in targets], asc, desc), True,
                          "subgraph (%d,%d) around %s, tree %d with %s" % (asc, desc, targets, case["tree"], subset))
        rec.check((set(g) == before, sorted(map(str, g.namespaces()))), (True, ns), "exports leave the graph as it is")
        rec.outcome(len(before))
    rec.sample({"tree": case["tree"], "subset": case["subsets"][-1]})
