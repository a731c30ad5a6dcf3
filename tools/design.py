"""DESIGN.md: python3 tools/design.py (after tools/props.py); costs are those of the evidence files present."""
import glob
import importlib
import json
import os
import sys
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("MC_REPO", "/repo"))
sys.dont_write_bytecode = True

# what the model / oracle is, and what it reaches
N = {
 "C01": ("a grammar: the parts are chosen first, the text is composed from them, and the parsed object must give the parts back",
         "the grammar is a product (depth x subreference x range on two ends); a slip in one combination is invisible to twenty samples"),
 "C02": ("dropping the last element of a list of units, iterated to the top", "whole ancestor chains, both ends of ranges, subreferences that must travel with their end"),
 "C03": ("the URN as a tuple of optional components; each truncation is a prefix of the tuple", "all truncations of all shapes, all pairs for equality"),
 "C04": ("the tuple again, edited; breadth-first over edit/read histories with states merged on what the object may remember (components, last operation, read or not since)",
         "staleness of a cached text shows only after read-edit-read sequences"),
 "C05": ("the refsDecl as a list of steps; scope, xpath and filled xpath are joins of it, and a filled xpath must select exactly the units it names",
         "placeholders interact with quotes, attribute tests, and replacement patterns"),
 "C06": ("a list of (name, scope, xpath) levels; every way of building, copying, exporting and reading it back must present this list and one root", "orders of linking and round trips are never tested together"),
 "C07": ("the document generator knows the tree of units it wrote; the listing is a walk of that tree", "irregular trees, ranges whose ends have different depths, levels counted from a range"),
 "C08": ("the generator's tree: the text of the unit, verbatim, with its ancestors and their attributes; nothing else", "mixed content, comments, white space, wrappers, equal units"),
 "C09": ("the generator's tree cut between two nodes in document order, with the text between the units", "the copying algorithm walks two paths at once; every pair of ends is a different run"),
 "C10": ("the extracted XML, read as a text of its own, lists and extracts the same units as the original (self-composition of the real code, plus the generator's tree)", "an extraction that lost structure only fails on the second reading"),
 "C11": ("the flattened list of units of each level; next/prev are +1/-1, parent is the prefix", "objects cache siblings and children: reads in a different order, and passages reached from passages, must agree"),
 "C12": ("the list of units of one level cut in windows of the range's length; parents of both ends for the parent", "window arithmetic at both edges of every list"),
 "C13": ("a fresh text object per read (differential) and the bytes of the source tree", "annotation left in the shared tree shows only after a particular earlier read"),
 "C14": ("an interpreter of the export rules (spaces joined, excluded elements skipped) over the generator's document", "exclusions, joins and tails interact"),
 "C15": ("a plain tree of Python lists with a statement set beside it", "deletion through ancestors, re-creation, replacement of an identifier already taken: the graph, members, children, parents must stay in step after every history"),
 "C16": ("union of dictionaries of works and texts", "merges of three sources, merges with themselves, shared graph"),
 "C17": ("the specification the XML was written from", "the whole observable tree compared after reading from 4 kinds of source and after writing and reading back"),
 "C18": ("a set of (subject, property, value) triples with set operations", "removal and unlinking must touch one node's statements only; needs histories over two nodes"),
 "C19": ("filters over the same set", "namespace prefixes that start one another, only/exclude, four formats"),
 "C20": ("the folders written to disk by the check", "several folders, unreadable files and texts in every relative order, and both orders in which the system may list a directory"),
 "C21": ("the text read directly from its file (differential)", "the resolver adds identification, caching and URN handling on top of the text"),
 "C22": ("the tree written to disk, and its filters as list comprehensions", "answers must not share or alter the resolver's tree"),
 "C23": ("list slicing", "page arithmetic at every boundary"),
 "C24": ("last matching rule wins, over a list of rules", "rule order and default interact"),
 "C25": ("the URI template of the entry point expanded by hand; the server is a function from requests to answers", "every optional argument, quoting, relative routes, header orders"),
 "C26": ("the list of references of the simulated server; the answer must be that list whatever the page size and link style", "lazy paging: position of the page boundary and form of the last page"),
 "C27": ("the server's tree", "proxies that are completed as they are read: every order of reading, and one failure anywhere"),
 "C28": ("the JSON document the check composed; round trip", "value sets, vocabularies, parents as well as children, documents that name each other in one graph"),
 "C29": ("ordered forests of names", "six ways of building must agree; equality is structural and terminates"),
 "C30": ("the query parameters composed by hand", "defaults (inventory, level, context) and encodings in every combination"),
 "C31": ("the tree of units of the simulated server's text", "links given or absent, moves from any spot, failures in the middle"),
 "C32": ("the tree of units of the simulated server's text", "as C31, with ranges, levels counted from the passage, and labels"),
 "C33": ("reachability over a Python set of triples (no graph code shared with the library)", "cycles, blank nodes, literals that look like nodes, limits"),
 "C34": ("the list of formats each object offers, and the output of a fresh object; a mirror of the class hierarchy for dispatch", "exports that consume or alter shared state show only in the second export"),
 "C35": ("Python lists of the texts / (start, end, type) tuples", "membership, position, equality and hash must agree for every pair"),
 "C36": ("a dictionary property -> [(value, language)]", "language fallback for every subset of languages; isolation between passages"),
 "C37": ("the specification the server's inventory is written from", "server forms x questions x order, and failures followed by the same question"),
 "C38": ("the specification each inventory is written from, compared with the expansion of the export by pyld", "prefixes missing from the context, values JSON cannot hold and one-level citations show only after expansion"),
 "C39": ("the operations that concern one graph, replayed with that graph alone", "an object that reads the graph in use instead of its own is only visible after a switch, with conflicting prefixes"),
 "C40": ("what is read from the plain UTF-8 text without prologue", "the parser behaves differently per vehicle: decoded text that still declares an encoding, streams, trees instead of roots"),
    "C41": ("everything the same kind of object says when it was never saved and had the same edits", "state that pickling loses or shares (tuples with attributes, back references, graphs, caches, lambdas) shows only for particular kinds, protocols, nesting, edits afterwards, or in a process that never saw the original"),
    "C42": ("a plain tree the derived class is written from", "the prototypes are abstract: which of the given parts are kept, what is cached and what is None shows only on concrete trees and after several reads"),
    "C43": ("the files as plain trees; and the local resolver, for what two resolvers must agree on", "three readings of one text by three implementations are compared with one another after every move: no test does this for one passage"),
    "C44": ("the answer each read gives when it is made alone on things made anew", "a test runs one read after another: no schedule of two is ever tried, and a shared buffer or a value parked on a shared object answers right in every sequence"),
    "C45": ("the answer each read gives on things made anew", "tests let every read end: a flag or a cache filled before what it speaks of shows only when something falls between the two"),
}
FALSE = """- C15: my first model gave a replaced member a place at the end; the code keeps the place of the identifier. The documentation does not say; the property now only demands the members, not where a replacement lands.
- C19: the model first expected values verbatim; the JSON metadata export title-cases text, which a test pins. The oracle models it (`.title()`), the statement speaks of the statements selected.
- C14/C08: white-space-only text nodes are dropped when a text is loaded (`objectify`), and runs of spaces become one in the plain text export; both are pinned by tests and are part of the model.
- C17/C28: DTS exports drop the language of titles and descriptions and extensions in the dts:/rdf: namespaces. That is a documented simplification of the format; not claimed.
- C26: a JSON-LD string `"view": "..."` reaches the library as a relative link; only forms a JSON-LD processor keeps are claimed.
- C06: the TEI export of a citation whose refsDecl uses double quotes is not well formed. This is a genuine defect, but the output is pinned verbatim by an existing test, so it is a known finding and not repaired."""
UNCLAIMED = """- `siblingsId` of a single unit with a subreference (`1.1@word`) raises ValueError; `CapitainsCtsText.prevId/nextId` raise AttributeError; `CtsText.next/prev` raise NotImplementedError (pinned by tests).
- `Subgraph.graphiter` with a finite number of descendant levels >1 depends on the order of visit.
- `URN`, `DtsCitation` are unhashable; `CtsReferenceSet` equality ignores its level.
- `HttpResolverDtsCollection.retrieve()` asks again on each call; a paginated proxy has no length and `==` compares what is loaded (pinned).
- `getMetadata` ignores its filters; a unit split over two containers is listed twice; a label without language is not read from an inventory (pinned).
- `URN.upTo` and the remote texts forget the exemplar of `work.version.exemplar`: the class documents up to the version only.
- `MyCapytainException` itself derives from BaseException; every error of the library now also derives from Exception."""


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json"), encoding="utf-8"))
    tech = {c["property"]: c["technique"] for c in man["checks"]}
    mods = {}
    for f in sorted(glob.glob(os.path.join(HERE, "mc", "checks", "c[0-9]*.py"))):
        m = importlib.import_module("mc.checks." + os.path.basename(f)[:-3])
        mods[m.PROPERTY] = m
    out = ["# Model checking MyCapytain", ""]
    out.append(open(os.path.join(HERE, "tools", "design_intro.md"), encoding="utf-8").read())
    out.append("## The properties\n")
    for p in props:
        i = p["id"]
        m = mods[i]
        ev = {}
        try:
            ev = json.load(open(os.path.join(HERE, "evidence", i + ".json")))
        except OSError:
            pass
        cov = ev.get("coverage", {})
        out.append("### %s — %s\n" % (i, p["title"]))
        out.append("- *Method*: %s (`mc/checks/%s`)." % (tech[i].replace("model checking: ", ""), os.path.basename(m.__file__)))
        out.append("- *Model and oracle*: %s." % N[i][0])
        out.append("- *Bounds, quick*: %s." % m.BOUNDS["quick"])
        out.append("- *Bounds, thorough*: %s." % m.BOUNDS["thorough"])
        for a in getattr(m, "ASSUMPTIONS", []):
            out.append("- *Assumption*: %s." % a)
        out.append("- *Why it reaches further than tests*: %s." % N[i][1])
        if cov and not ev.get("violations"):
            out.append("- *Cost (%s, 8 cores)*: %s cases, %s states, %s comparisons, %.0f s." % (ev["tier"], cov.get("cases"), cov.get("states"), cov.get("transitions"), ev["wall_s"]))
        out.append("")
    out.append("## Alarms that were false, and what was done\n\n" + FALSE + "\n")
    out.append("## Behaviour seen and not claimed\n\n" + UNCLAIMED + "\n")
    fixed = [l for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt"), encoding="utf-8") if l.startswith("fixed:")]
    out.append("## Defects found\n\n%d repairs (`fix:` commits in /repo) are listed with their property in KNOWN_FINDINGS.txt; one finding (C06, above) is recorded and not repaired.\n" % len({l.split()[2] for l in fixed}))
    out.append("## Planted bugs (seeded/) and the checks that catch them\n")
    out.append("Each is rechecked with `python3 tools/seed.py --recheck`. Caught means: exit 1 and a VIOLATION line of the quick check of its own property.\n")
    out.append("| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(d, encoding="utf-8"))
        out.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m.get("caught", m["property"])))
    out.append("")
    out.append(open(os.path.join(HERE, "tools", "design_end.md"), encoding="utf-8").read())
    open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8").write("\n".join(out))


main()
