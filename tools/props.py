"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # claimed properties
NA = []         # (id, reason)


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert len(re.findall(r"[.!?](?:\s|$)", statement)) <= 4, id
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, observe=observe or []))


R = "MyCapytain/common/reference/"
L = "MyCapytain/resources/texts/local/capitains/cts.py"
TEI = "MyCapytain/resources/texts/base/tei.py"
XML = "MyCapytain/common/utils/xml.py"
BOUNDED = "Complete within the bounds printed in the evidence file; nothing is sampled. Trusted: CPython, lxml, rdflib, and the reference model in the check, which is written from the documentation and run in lock-step with the real code."

prop("C01", "CTS passage references are read and written without loss",
     "Every well-formed CTS passage reference (single or range, any depth, with or without an @word[n] subreference on either end) reads into exactly its parts: start and end, each with its list of units, depth, and subreference word and occurrence. Writing it back gives the same text, and equality, hashing, copying and pickling agree with that text. Text that is not a string is not turned into a reference.",
     ["inputs"], "all single references and ranges over the token alphabet, depths and subreference forms of the bounds",
     "Tests sample about twenty references; the grammar is a product of depth, range and subreference on either end.",
     [R + "_capitains_cts.py"], [("CtsReference.__new__ / CtsSinglePassageId", R + "_capitains_cts.py")],
     "exhaustive enumeration of a bounded grammar on the real code against a grammar model", BOUNDED)
prop("C02", "The parent of a passage reference is the enclosing unit",
     "The parent of a single reference of depth n is the reference of its first n-1 units (no parent at depth 1); the parent of a range is the range of the parents of its ends, collapsed to one reference when both are the same unit and neither has a subreference, and none as soon as one end has no parent. Subreferences stay on their end, and following parents always reaches the top in depth-1 steps.",
     ["inputs"], "all singles and ranges of the bounds, and their whole ancestor chains",
     "Tests check nine examples of the parent.", [R + "_capitains_cts.py"], [("CtsReference.parent", R + "_capitains_cts.py")],
     "exhaustive enumeration with iterated application (ancestor chains) against a model", BOUNDED)
prop("C03", "A CTS URN is read, written, truncated and compared consistently",
     "Reading a CTS URN gives exactly its namespace, textgroup, work, version and passage reference, and writing it gives the same text back (a fragment after # is dropped). Truncation to any documented level gives exactly the prefix of that level and raises KeyError when the URN does not reach it. Equality is equality of the text, length counts the components, and an ill-formed URN is refused.",
     ["inputs"], "all URNs over the component alphabet of the bounds, all truncation keys, all pairs",
     "Tests sample about ten URNs and never compare all truncations of all shapes.", [R + "_capitains_cts.py"],
     [("URN.__parse__, URN.upTo", R + "_capitains_cts.py")], "exhaustive enumeration of a bounded grammar against a model", BOUNDED)
prop("C04", "An edited URN equals the URN read from the edited text",
     "After any sequence of component assignments to a URN (namespace, textgroup, work, version, reference, set or cleared, interleaved with reads and copies), its text, components, length, truncations and comparisons are those of a fresh URN read from the resulting text. Editing a copy never changes the original.",
     ["histories"], "every sequence of edits and reads up to the depth of the bounds",
     "Tests assign each component once on one URN; stale text can only show after an edit that follows a read.", [R + "_capitains_cts.py"],
     [("URN setters and cached text", R + "_capitains_cts.py")], "explicit-state breadth-first search over operation histories of the real object in lock-step with a model", BOUNDED)
prop("C05", "A citation level's declaration, scope, xpath and filled xpath agree",
     "For every citation level the reference declaration equals its scope followed by its xpath, whichever of them was given or edited last. Filling it with known values yields the declaration with exactly those values in place, in order, whatever marks (quotes, slashes, brackets) they hold, an unknown value selecting every unit of that level, and no other part of the declaration changed.",
     ["inputs", "histories"], "all prefixes x chains of xpath steps of the bounds, all partial fills, all scope/xpath edits",
     "Tests use two reference declarations, both with @n only and no further predicates.", [R + "_capitains_cts.py"],
     [("Citation._parseXpathScope, _fromScopeXpathToRefsDecl, fill", R + "_capitains_cts.py")], "exhaustive enumeration of declarations, fills and edits against a string model", BOUNDED)
prop("C06", "A citation hierarchy is the same however built, copied or exchanged",
     "A hierarchy of citation levels has the same root, depth, length, order of levels, level at each index and matching level for a reference, however it was built (nested construction, children, linking in any order, TEI or CTS XML), copied or pickled. Its TEI and CTS XML exports are well formed and read back into the same hierarchy, including names and declarations with markup characters.",
     ["inputs", "histories"], "all chains, construction ways and linking orders of the bounds",
     "Tests build two hierarchies in one way and never read an export back.", [R + "_capitains_cts.py", R + "_base.py", "MyCapytain/resources/collections/cts.py"],
     [("BaseCitation.root/children, Citation.ingest/export", R + "_base.py")], "exhaustive enumeration of construction histories with round trips, against a list model",
     BOUNDED + " One known finding (double quotes in the TEI export) is listed in KNOWN_FINDINGS.txt.")
prop("C07", "The reference listing of a local text is exactly its citable units",
     "Listing the references of a TEI text at a level returns every unit of that level once, in document order, with that level and its citation, whatever its label (quotes and slashes included); under a reference it returns exactly the units below it, and within a range exactly the units from its start to its end. A level deeper than the citation scheme, or a reference that does not exist, is an error and never a wrong or empty list.",
     ["inputs"], "all documents of the bounds (shapes, citation schemes, labels, surrounding markup) x all levels x all references and ranges",
     "Tests list three fixed documents with numeric labels; label order, shape and xpath form are not varied.", [L, R + "_capitains_cts.py"],
     [("getReffs / getValidReff", L)], "exhaustive enumeration of small documents and queries against a document-order model", BOUNDED)
prop("C08", "A single passage is exactly the cited unit inside its ancestors",
     "Extracting a single unit of a TEI text returns the unit with all its elements, attributes, text, comments and order, inside the bare chain of its ancestors and nothing else; the simple form returns the unit alone. The passage carries the requested reference, URN, depth and citation level, and an unknown or too deep reference is an error.",
     ["inputs"], "all documents of the bounds x all units x full/simple extraction",
     "Tests extract a handful of passages and compare their text only.", [L, XML], [("getTextualNode, passageLoop, copyNode", XML)],
     "exhaustive enumeration of small documents and references against a document-order window model", BOUNDED)
prop("C09", "A range passage is exactly the text between its two ends",
     "Extracting a range of a TEI text returns exactly what lies in document order from the first element of its start to the last element of its end: elements, attributes, text between units, comments, each once and in order, inside the ancestors of these. This holds whatever the depth of either end, however far apart they lie, whatever repeated or empty content the units have, and an unknown end is an error.",
     ["inputs"], "all documents of the bounds x all ranges between units of equal or different levels",
     "Tests extract six ranges and check their text contains some words.", [L, XML], [("passageLoop, performXpath, copyNode", XML)],
     "exhaustive enumeration of small documents and ranges against a document-order window model", BOUNDED)
prop("C10", "Passage extraction composes and does not depend on how the text is given",
     "An extracted passage, exported as XML and read back as a text, lists exactly the units it covers and yields each of them with the same content as the whole text does; extracting a unit through a passage object gives the same result. The lowest units together carry all the text of each unit above, and the same text given as string, file, element or tree behaves the same.",
     ["inputs"], "all documents, passages, nested passages and input forms of the bounds",
     "Tests never extract from an extraction.", [L, XML, TEI], [("getTextualNode on passages", L), ("xmlparser", XML)],
     "exhaustive enumeration of two-step extractions with round trip", BOUNDED)
prop("C11", "Moving between passages follows the text, in any order of reads",
     "From every unit of a local text, previous and next are its neighbours of the same level in document order across parent boundaries (none at the ends), children are its units one level below, first and last their ends, parent the unit above (the text at the first level). This holds for full and simple passages, for identifiers and passage objects alike, after any sequence of moves and whatever was read before on the same object, so a level can be read end to end both ways.",
     ["inputs", "histories"], "all documents of the bounds x all units x all sequences of reads and moves of the bounds",
     "Tests read one neighbour of a few passages and never move twice.", [L, "MyCapytain/resources/prototypes/text.py"],
     [("siblingsId, childIds caches; next/prev", L)], "explicit-state exploration of read/move histories of the real objects against a tree model", BOUNDED)
prop("C12", "Ranges move by contiguous ranges of their own length",
     "The previous (next) range of a range of N units of one level is the N units immediately before (after) it, fewer at the ends of the text and none when nothing is left; its children are all the units below its units, in order, its parent the range of their parents. The range objects reached have exactly that content, whatever was read before, and a range between units of different levels refuses to move.",
     ["inputs", "histories"], "all documents and same-level ranges of the bounds x pairs of reads",
     "Tests check five ranges of one document.", [L], [("CapitainsCtsPassage.siblingsId", L)], "exhaustive enumeration of ranges and read histories against an interval model", BOUNDED)
prop("C13", "Reading a text never alters it",
     "Whatever sequence of reads is made on a local text (listing, extraction full, simple or by range, navigation, every export with or without exclusions, failing requests), the text serialises unchanged and every read returns what it returns on a freshly loaded text, also while other texts are being read.",
     ["histories"], "every history of reads up to the depth of the bounds on three documents",
     "Tests start each read on a fresh text.", [L, XML, TEI], [("copyNode copies, exports", XML)], "stateless exploration of all read histories, differential against fresh objects", BOUNDED)
prop("C14", "Text and dictionary exports contain exactly the passage's text",
     "The plain text of a text or passage is exactly its text nodes in document order joined by the chosen string (runs of spaces then made one), without those inside excluded elements, and nothing from around the passage. The nested dictionary maps each lowest unit of the resource, in order under its units, to that plain text; the XML exports are the passage itself, and a format not offered is refused.",
     ["inputs"], "all documents, units, ranges, exclusion sets and joining strings of the bounds",
     "Tests compare the exports of a few passages of two documents.", [TEI, "MyCapytain/common/utils/_generic.py", "MyCapytain/common/base.py"],
     [("TeiResource.__export__", TEI)], "exhaustive enumeration of documents x export options against a text-node model", BOUNDED)


prop("C15", "The tree of collections stays consistent under every edit",
     "After any sequence of attaching nodes (top-down or bottom-up, a second node under an identifier already taken does not replace the first) and deleting members through any ancestor, each collection's members, descendants, readable descendants, parents, size, lookup and containment describe the same tree, in the order of attachment. Deleting removes exactly the named member with its own statements and leaves the labels, type and model of every other collection alone; an identifier outside the tree raises UnknownCollection. On a CTS tree, texts, works, textgroups, editions and translations by language list exactly what it holds, and two nodes below the inventory are equal exactly when they are of the same kind and URN. A text made under a work has the language it is given, or else that of the work.",
     ["histories"], "every history of operations of the bounds on small trees",
     "Tests build one fixed tree and delete once.", ["MyCapytain/resources/prototypes/metadata.py", "MyCapytain/resources/prototypes/cts/inventory.py"],
     [("Collection.__getitem__/__delitem__/descendants/parent", "MyCapytain/resources/prototypes/metadata.py")],
     "explicit-state exploration of operation histories of the real objects in lock-step with a tree model", BOUNDED)
prop("C16", "Merging works and textgroups is a union that keeps the tree connected",
     "Updating a textgroup (or a work) with another of the same URN gives the union of their works and texts, a text present in both being the later one; members are reachable, point to their parents and show in the graph, the other side keeps what it had, and merging again changes nothing. Chains of merges give the union of all. A different URN raises InvalidURN, another kind of object TypeError, and both sides stay as they were.",
     ["histories"], "every pair and chain of configurations of the bounds, in both class families, with and without an inventory",
     "Tests merge one pair of textgroups.", ["MyCapytain/resources/prototypes/cts/inventory.py", "MyCapytain/resources/collections/cts.py"],
     [("CtsWorkMetadata.update, CtsTextgroupMetadata.update", "MyCapytain/resources/prototypes/cts/inventory.py")],
     "exhaustive enumeration of merge histories against a set-union model", BOUNDED)
prop("C17", "CTS inventories are read and written without loss",
     "Reading a CTS inventory gives exactly the declared tree: textgroups, works and texts under their URNs with their kinds, languages (an edition takes its work's), labels in each language, citation hierarchy and structured metadata (value with its language, datatype or URI); a label that does not say its language is not read. Texts of a work are listed editions first, then translations, then commentaries. Exporting the inventory, any node, or several inventories as one, in CTS or CapiTainS XML and reading it back gives the same tree; the plain CTS export has no structured metadata.",
     ["inputs"], "all inventories, label texts and metadata values of the bounds, whole and node by node, in both formats",
     "Tests read three fixed inventories and compare a few strings of the export.", ["MyCapytain/resources/collections/cts.py", "MyCapytain/resources/prototypes/cts/inventory.py", "MyCapytain/common/utils/_graph.py"],
     [("XmlCts*Metadata.parse", "MyCapytain/resources/collections/cts.py"), ("CtsCollection.__export__", "MyCapytain/resources/prototypes/cts/inventory.py")],
     "exhaustive enumeration of declared inventories with export/parse round trips against the declaration", BOUNDED)
prop("C18", "Metadata of a node is a set of statements, edited one node at a time",
     "After any sequence of add, set, remove and unlink on nodes of one graph, every reading (get, get_single with or without language, direct access) returns exactly the statements left for that node and property: set replaces, add accumulates, remove takes exactly what it names, and a literal keeps the language it was made with. A single value asked in a language is in that language when there is one, and operations on one node never change another. Labels, versions, types, models and languages of resources set through their setters are what their getters return.",
     ["histories"], "every history of operations of the bounds on two nodes sharing one graph",
     "Tests add a few values once.", ["MyCapytain/common/metadata.py", "MyCapytain/resources/prototypes/metadata.py"],
     [("Metadata.add/set/get/get_single/remove/unlink", "MyCapytain/common/metadata.py")],
     "explicit-state exploration of operation histories in lock-step with a set-of-statements model", BOUNDED)
prop("C19", "Exporting metadata gives exactly the statements selected",
     "Exporting the metadata of a node as JSON-LD, RDF/XML, CapiTainS XML or plain JSON contains exactly the statements of that node which the filter selects: only those in the given namespaces or properties, or all but those, or all. Values keep their text, language, datatype or URI in the formats that carry them, and neither the filters given nor the graph are changed.",
     ["inputs"], "every subset of a set of statements x every filter of the bounds x every format",
     "Tests export one node with two filters and do not parse the result.", ["MyCapytain/common/metadata.py", "MyCapytain/common/utils/_graph.py"],
     [("Metadata.export / __export__", "MyCapytain/common/metadata.py")],
     "exhaustive enumeration of statement sets x filters x formats against a selection model", BOUNDED)
RES = "MyCapytain/resolvers/cts/local.py"
prop("C20", "A local resolver finds exactly what its folders declare",
     "Parsing a list of CapiTainS folders gives the union of the textgroups, works and texts they declare, a text declared again by a later folder replacing the earlier one, whatever the names and paths of the folders and the order in which the system lists directories. A text is readable exactly when its file exists and declares its citation scheme; otherwise it is listed but not offered as readable. An unreadable metadata file raises, or is skipped alone when the resolver is tolerant, and other files in the folders have no effect.",
     ["inputs", "fault_sequences"], "all small repositories of the bounds, every position of an unreadable or missing file, both listing orders",
     "Tests read two fixed repositories.", [RES], [("CtsCapitainsLocalResolver.parse and _parse_*", RES)],
     "exhaustive enumeration of directory contents and single faults on real directories against a union model", BOUNDED)
prop("C21", "A local resolver answers for a text exactly as the text itself does",
     "For every text and reference, the passage, siblings and reference lists given by a local resolver are those of the text read from its file, whether identifiers and references are given as text or as objects, and whatever was asked before on the same resolver. The URN of a work is answered by an edition of exactly that work and raises UnknownObjectError when it has none. An unknown text raises UnknownCollection, the URN of a textgroup or namespace InvalidURN, and an unknown reference is an error.",
     ["inputs", "histories"], "all texts x references x requests of the bounds, and all pairs of requests on one resolver",
     "Tests ask a few passages of one repository.", [RES], [("getTextualNode, getSiblings, getReffs, __getText__", RES)],
     "exhaustive enumeration of requests and request histories, differential against the text object", BOUNDED)
prop("C22", "Asking for metadata gives the right branch and changes nothing",
     "Metadata of a collection of a local resolver is that collection with its ancestors and, below it, exactly the readable texts and the works and textgroups holding them, with the same labels, languages and types; without identifier it is the whole inventory. An unknown identifier raises UnknownCollection, the resolver's own inventory and graph are left as they were, and answers do not depend on earlier requests. Filtering texts by URN, language, category and page returns exactly the matching texts of that page.",
     ["inputs", "histories"], "every identifier of the repositories of the bounds, every pair of requests, every filter combination",
     "Tests compare a few answers of one repository.", [RES, "MyCapytain/resources/prototypes/cts/inventory.py"], [("getMetadata, __getTextMetadata__", RES)],
     "exhaustive enumeration of requests and histories against a tree model", BOUNDED)
prop("C23", "The pages of a list are the list",
     "For every number of items, page size and page number, pagination gives the slice of that page, its number and its size: the pages from first to last partition the list in order. A size outside 1 to 100 is the default of 10, no page is the first and a page past the end is the last.",
     ["inputs"], "every length, size and page of the bounds",
     "Tests check five combinations.", [RES], [("CtsCapitainsLocalResolver.pagination", RES)],
     "exhaustive enumeration of the input space against integer arithmetic", BOUNDED)
prop("C24", "A textgroup goes to the inventory of the last rule that accepts it",
     "A dispatcher puts a collection in the inventory of the last registered rule answering True for it, else in the default inventory, and raises UndispatchedTextError when there is neither. Behind a local resolver each textgroup, with all its works and texts, is found in exactly that inventory; an undispatched one raises or is left out when the resolver is told not to raise, without affecting the others. Sending one to an inventory that does not exist is an error.",
     ["inputs", "histories"], "every sequence of rules of the bounds x targets x default x textgroups",
     "Tests register three rules in one order.", ["MyCapytain/resolvers/utils.py", RES], [("CollectionDispatcher.add/dispatch", "MyCapytain/resolvers/utils.py")],
     "exhaustive enumeration of rule sequences against a last-match model", BOUNDED)

DTSR = "MyCapytain/retrievers/dts/__init__.py"
HTTP = "MyCapytain/common/utils/_http.py"
prop("C25", "A DTS retriever asks exactly what it is told, where the server says",
     "Every request on collections, navigation or documents goes to the route the entry point declares (absolute, relative, another host, with a query string of its own) with exactly the arguments given, a reference as ref, a range or pair as start and end, what equals the default (children, page 1) left out. The entry point is read once, and an error status raises whatever was asked before. Pagination links are read whatever the order of their parameters, and the text is decoded as the server or else the document declares, UTF-8 by default.",
     ["inputs", "histories", "fault_sequences"], "every combination of arguments x forms of entry point, every order of 2 requests, every status at both requests",
     "Tests make three requests on two forms of entry point.", [DTSR, HTTP], [("HttpDtsRetriever.call, parse_uri, parse_pagination", DTSR)],
     "exhaustive enumeration of requests and failures on the real client against a simulated HTTP server", BOUNDED)
prop("C26", "References behind a paginated DTS navigation are all listed, once, in order",
     "Listing the references of a text behind a DTS server gives every reference the server has, single or range, once and in order, however they are split into pages and however the next page is linked; each with its own type or the default one and its own metadata, the set with the level and citation the server states. Every page is asked once with the same arguments. A failing, empty or malformed page is an error, never a shorter list.",
     ["inputs", "fault_sequences"], "every list of references and page size of the bounds, every way of linking pages, a fault on every page",
     "Tests read one list of three pages of three references.", ["MyCapytain/resolvers/dts/api_v1.py", "MyCapytain/common/reference/_dts_1.py", "MyCapytain/common/reference/_base.py"],
     [("HttpDtsResolver.getReffs", "MyCapytain/resolvers/dts/api_v1.py")],
     "exhaustive enumeration of server answers and faults against a list model", BOUNDED)
prop("C27", "A DTS collection reads the same whatever was retrieved before",
     "Children, parents, members, lookup by identifier, readable descendants, size, label and retrieved metadata of a DTS collection are those the server has, each member and parent once, whatever was read before on it or on related collections and however the server splits its answers into pages. Members already read are not asked again. After a failed request an error is raised, and reading again gives the complete answer.",
     ["histories", "fault_sequences"], "every history of reads of the bounds on 3 servers, one failing answer at every position",
     "Tests read each of children and parents once on a fresh object.", ["MyCapytain/resources/collections/dts/_resolver.py", "MyCapytain/resources/collections/dts/_base.py"],
     [("HttpResolverDtsCollection, PaginatedProxy", "MyCapytain/resources/collections/dts/_resolver.py")],
     "stateless exploration of all read histories and single faults on the real objects against the server's model", BOUNDED)
prop("C28", "A DTS collection document is read, exported and read back without loss",
     "A collection read from a DTS document has exactly its identifier, type, title, description, number of items, citation depth and tree, and its Dublin Core and extension statements with their languages, numbers and links, however the same JSON-LD is written; its members (or parents) have theirs, in order. Its DTS export is serialisable JSON with exactly these facts, does not change it, and reads back into an equal collection. Other collections read in the same graph, even ones it links to, add nothing to it.",
     ["inputs", "histories"], "all documents of the bounds in three equivalent forms, every order of reading linked documents",
     "Tests read and export a handful of fixed documents, one at a time.", ["MyCapytain/resources/collections/dts/_base.py", "MyCapytain/resources/prototypes/metadata.py", "MyCapytain/common/utils/dts.py", "MyCapytain/common/utils/_json_ld.py", "MyCapytain/common/utils/_graph.py"],
     [("DtsCollection.parse", "MyCapytain/resources/collections/dts/_base.py"), ("Collection.__export__ (DTS)", "MyCapytain/resources/prototypes/metadata.py"), ("literal_to_dict, dict_to_literal", "MyCapytain/common/utils/_json_ld.py")],
     "exhaustive enumeration of documents and reading orders with round trips, read by an independent reader of the export", BOUNDED)
prop("C29", "A DTS citation scheme is the same tree however it is built or exchanged",
     "A DTS citation scheme has the same levels, depth (its longest branch), length, document order and level at each index, counted from the top or, negative, from the deepest level, whether built by constructor, children, add_child in any order, DTS JSON, copy or pickle; too small an index raises CitationDepthError. Every level knows the scheme it belongs to. The DTS JSON export reads back into the same scheme, and two levels are equal exactly when their names, what is below them and their schemes are.",
     ["inputs", "histories"], "all schemes of the bounds x ways of building, all pairs, all orders of linking",
     "Tests read three fixed schemes and compare none.", [R + "_base.py", R + "_dts_1.py"],
     [("BaseCitationSet.__getitem__, add_child, children", R + "_base.py"), ("DtsCitation.ingest, __eq__", R + "_dts_1.py")],
     "exhaustive enumeration of trees and construction histories against a tree model", BOUNDED)
prop("C30", "A CTS retriever asks exactly what it is told",
     "Every CTS request is sent to the endpoint with its request name and exactly the arguments given: the URN, level, context and inventory, the retriever's own inventory only where none is given. The common methods compose URN and reference (text or object, single or range) and choose the CTS request documented for them, references below a passage being asked at its depth plus the level. An error status raises, and the text is decoded as the server or else the document declares, UTF-8 by default.",
     ["inputs", "histories", "fault_sequences"], "every combination of arguments of the bounds, every order of 2 requests, every status",
     "Tests make about fifteen requests.", ["MyCapytain/retrievers/cts5.py"], [("HttpCtsRetriever.call, getReffs, getTextualNode", "MyCapytain/retrievers/cts5.py")],
     "exhaustive enumeration of requests and failures on the real client against a simulated HTTP server", BOUNDED)

prop("C31", "Moving in a DTS text reaches the units the server links",
     "From a document or passage of a DTS server, next, previous, parent, first, last and children are exactly the units the server's links and navigation give (ranges included), each with its own text and reference, whatever path of moves led there and however the links are written; where there is no such unit they are None or empty. References are listed at the level and under the reference asked, and depth, title and collection are those of the text. A failed request raises and never gives a text, and asking again works.",
     ["histories", "fault_sequences"], "every history of moves of the bounds on 3 texts and 3 ways of writing links, one failing answer at every position",
     "Tests walk two texts of three passages forward only; parents, levels and failures are never tried.", ["MyCapytain/resources/texts/remote/dts/_resolver_v1.py", "MyCapytain/resources/prototypes/text.py", "MyCapytain/resolvers/dts/api_v1.py"],
     [("DtsResolverDocument.parse, getReffs, getTextualNode", "MyCapytain/resources/texts/remote/dts/_resolver_v1.py"), ("InteractiveTextualNode", "MyCapytain/resources/prototypes/text.py")],
     "stateless exploration of all move histories and single faults on the real objects against a simulated server's model", BOUNDED)

prop("C32", "Moving in a CTS server's text reaches the units the server gives",
     "From a text or passage of a CTS server, next, previous, parent (the whole text for a first-level unit), first, last and children are exactly the server's units, as is a unit or range asked by reference, text, list or URN, at whatever passage it is asked and whatever path led there; where there is none, None or an empty list. References are those of the level asked, counted from the unit they are asked under. The text, labels (each in its language) and citation are the server's, and a failed request raises, after which asking again works.",
     ["histories", "fault_sequences", "inputs"], "every history of moves of the bounds, every question on every unit and range, all label languages, one failing answer at every position",
     "Tests mock one fixed answer per request, so a wrong unit or level cannot show.", ["MyCapytain/resources/texts/remote/cts.py", "MyCapytain/resolvers/cts/api.py", "MyCapytain/resources/prototypes/text.py", XML],
     [("_SharedMethod, CtsPassage", "MyCapytain/resources/texts/remote/cts.py"), ("HttpCtsResolver", "MyCapytain/resolvers/cts/api.py")],
     "stateless exploration of all move histories and single faults on the real objects against a simulated server's model", BOUNDED)


prop("C33", "The RDF exports of a collection hold exactly the statements around it",
     "Exporting any collection as JSON-LD or RDF/XML gives a document that reads back into exactly these statements of its graph: what is said of it, of what it points to and so on without limit (through blank nodes and cycles, values keeping language and datatype), and what points directly at it. A literal that looks like an identifier hides nothing, and the graph and its namespaces are left as they are. A subgraph gathered around several nodes is the union of theirs, and limited to one level it holds their own statements only.",
     ["inputs"], "all trees and subsets of statements of the bounds, every collection, both formats, all limits",
     "No test exports a collection as RDF.", ["MyCapytain/common/utils/_graph.py", "MyCapytain/resources/prototypes/metadata.py"],
     [("Subgraph.graphiter", "MyCapytain/common/utils/_graph.py"), ("Collection.__export__", "MyCapytain/resources/prototypes/metadata.py")],
     "exhaustive enumeration of graphs against a closure over plain sets", BOUNDED)
prop("C34", "Every object exports to exactly the formats it offers, in any order",
     "Every exportable object (citation, reference scheme, metadata, collection, inventory and its nodes, text, passage) gives an export in each format it offers, its default one when none is asked, and refuses any other with NotImplementedError. An export is the same whatever was exported before from the same object, and exporting metadata or collections changes no statement. A format is made by the nearest class of the object that offers it. The etree of a CTS node is its CTS XML parsed, and a collection of inventories exports the textgroups of all of them, as DTS itself or its only inventory.",
     ["histories", "inputs"], "every object kind x every format x every sequence of exports of the bounds; all class hierarchies of the bounds",
     "Tests export a few objects to a few formats, once each.", ["MyCapytain/common/base.py", "MyCapytain/resources/prototypes/cts/inventory.py", "MyCapytain/common/metadata.py", TEI],
     [("Exportable.export", "MyCapytain/common/base.py")], "stateless exploration of all export histories, differential against fresh objects", BOUNDED)
prop("C35", "A set of references is the list of its references, by object or text",
     "A set of CTS or DTS references, however built, holds exactly the references given, in order and with repetitions, with its level and citation. Membership, position (from a given start) and count are those of that list, for a reference given as object or, for CTS, as text; a DTS reference given by its identifier is in the set whatever its type. References and sets are equal exactly when their ends (for DTS: type, and for DTS sets level and citation) are, different otherwise, with equal hashes; copies and pickles are equal to the original, with its type, level and citation.",
     ["inputs"], "all lists of references, queries and pairs of sets of the bounds",
     "Tests only compare whole sets they expect.", [R + "_base.py", R + "_capitains_cts.py", R + "_dts_1.py"],
     [("BaseReferenceSet, CtsReferenceSet, DtsReferenceSet", R + "_base.py")], "exhaustive enumeration of sets and queries against lists of texts", BOUNDED)
prop("C36", "A text tells its author, title, label and description in each language",
     "The creator, title, subject and description of a text in a collection are the labels of its textgroup, of its work, its own, and its own description, in the language asked when they exist in it, in some language otherwise, none when there are none. A text or passage given the metadata of its collection (or asked with metadata from a local resolver) answers the same, holds every value with its language, and one asked without metadata holds none. Its own setters add to it alone: no other passage, text or collection changes, and its citation stays.",
     ["inputs", "histories"], "all subsets of labels and languages of the bounds, every pair of questions to a resolver, all sequences of edits",
     "Tests read one text in one language.", [TEI, "MyCapytain/resources/prototypes/text.py", "MyCapytain/resources/prototypes/cts/inventory.py", "MyCapytain/resolvers/cts/local.py"],
     [("InteractiveTextualNode get_/set_", "MyCapytain/resources/prototypes/text.py"), ("CtsTextMetadata.get_creator", "MyCapytain/resources/prototypes/cts/inventory.py")],
     "exhaustive enumeration of label sets and edit histories against a dictionary model", BOUNDED)
prop("C37", "The collections of a CTS server are those of its inventory",
     "Asking a CTS server's resolver for its collections sends one GetCapabilities request, for the identifier given (text or URN) and the inventory asked or, failing that, the default one. The answer is the inventory the server sent, bare or in a reply, whole or restricted, or its collection of this identifier within the whole tree: same kinds, ancestors, children, labels, languages, citations and descriptions. An identifier that is not in the answer raises UnknownCollection, a failing or unreadable answer raises, and asking again then works; collections obtained earlier stay as they are.",
     ["inputs", "histories", "fault_sequences"], "all inventories x server forms x questions and sequences of questions of the bounds, each failing answer",
     "Tests ask two identifiers of one stored inventory.", ["MyCapytain/resolvers/cts/api.py", "MyCapytain/retrievers/cts5.py", "MyCapytain/resources/collections/cts.py"],
     [("HttpCtsResolver.getMetadata", "MyCapytain/resolvers/cts/api.py")],
     "stateless exploration of question histories with faults on the real resolver against a simulated server's model", BOUNDED)

prop("C38", "The DTS form of a CTS collection says what the collection says",
     "Every inventory, textgroup, work, edition, translation or commentary, exported as DTS JSON and expanded as JSON-LD, says its identifier, its type, its number of members, one of its labels as title, its labels, language, descriptions and structured metadata with their languages and datatypes (dates and others JSON has no type for), and its members in their order, each with the same. A text also tells the depth of its citation scheme and the type of each of its levels, one level included. The export can be written as JSON, leaves the graph as it was, and is the same the second time and whatever was exported before.",
     ["inputs", "histories"], "all inventories of the bounds, every node of each, exported twice in two orders",
     "Tests compare two exports of two stored inventories.", ["MyCapytain/resources/prototypes/metadata.py", "MyCapytain/common/utils/_json_ld.py", "MyCapytain/resources/prototypes/cts/inventory.py"],
     [("Collection.__export__", "MyCapytain/resources/prototypes/metadata.py"), ("literal_to_dict", "MyCapytain/common/utils/_json_ld.py")],
     "exhaustive enumeration of inventories on the real code against the specification they are written from", BOUNDED)

prop("C39", "Objects keep to the graph that was in use when they were made",
     "After set_graph(), collections, inventories, DTS collections, metadata, texts and passages made before go on reading, editing and exporting the graph they were made in: what they and their children say does not depend on the graph now in use, and prefixes of exports are those of their own graph. Objects made afterwards, with the same identifiers or not, read and write the graph now in use only. No graph receives a statement that concerns objects of another one, and no read or export changes a graph or the graph in use.",
     ["histories"], "all histories of the bounds over three graphs with conflicting prefixes",
     "Tests use one graph per test class and never come back to an earlier one.", ["MyCapytain/common/constants.py", "MyCapytain/common/metadata.py", "MyCapytain/resources/prototypes/metadata.py", "MyCapytain/resources/prototypes/cts/inventory.py", "MyCapytain/resources/prototypes/text.py"],
     [("set_graph", "MyCapytain/common/constants.py"), ("Metadata.__init__", "MyCapytain/common/metadata.py")],
     "exhaustive enumeration of operation histories over several graphs on the real code, each compared with the same operations in one graph alone", BOUNDED)

prop("C40", "An XML document is read the same whatever it comes in",
     "A text, an inventory, a textgroup or a work is read the same from text, from a stream or file opened as text or as bytes, or from an already parsed element or tree: same references, passages, metadata and exports. This does not depend on the encoding, on how or whether the XML declaration states it, nor on comments, instructions or a document type before the root, in documents given to the classes as well as in the files a local resolver finds. Characters written as references or internal entities are the characters, comments inside a label or value are no part of it and cut nothing, and an entity or document type never makes another file part of what is read.",
     ["inputs"], "all documents x encodings x declarations x prologues x vehicles of the bounds that XML allows",
     "Tests read UTF-8 files in one or two of the vehicles.", ["MyCapytain/common/utils/xml.py", "MyCapytain/resolvers/cts/local.py", TEI, "MyCapytain/resources/collections/cts.py"],
     [("xmlparser", "MyCapytain/common/utils/xml.py"), ("CtsCapitainsLocalResolver.read", "MyCapytain/resolvers/cts/local.py")],
     "exhaustive enumeration of documents and of the forms they come in on the real code, each compared with the plainest form", BOUNDED)

prop("C41", "What is saved with pickle or deep-copied is the same when it is back",
     "An inventory or any node of it, a collection, DTS collection, metadata, citation scheme or level, reference, set of references, URN, local text or passage that is pickled (with any protocol) and loaded, or deep-copied, says exactly what the original says: same tree, statements, readings, navigation and exports. This holds in another process and when the original and its graph are gone, and again for what is saved a second time. Loading adds nothing to the graph in use, and afterwards editing one (labels, statements, citation, members) changes nothing of the other.",
     ["histories", "inputs"], "all histories of saving, copying, editing and clearing of the bounds over the kinds of object; every kind loaded in other processes",
     "One test pickles an inventory and reads two statements of it.", ["MyCapytain/common/reference/_base.py", "MyCapytain/common/reference/_capitains_cts.py", "MyCapytain/common/metadata.py", "MyCapytain/resources/prototypes/metadata.py", TEI],
     [("BaseCitationSet.__setstate__", "MyCapytain/common/reference/_base.py"), ("CtsReference.__new__", "MyCapytain/common/reference/_capitains_cts.py")],
     "exhaustive enumeration of histories of saving, copying and editing on the real code, each object compared with one never saved that had the same edits", BOUNDED)

prop("C42", "A text of one's own built on the prototypes navigates its tree",
     "A node class derived from the text prototypes (InteractiveTextualNode, PrototypeCtsNode, PrototypeCtsPassage) navigates exactly the tree it is given, whether children, parent, siblings and depth are given when it is made or answered by its own getReffs and properties: identifiers of children, first, last, previous, next, siblings and parent, and the nodes reached by them, in any order of reads and moves. A node without such a relative answers None (no children: an empty list), whatever identifiers are used, falsy ones included. The references of a prototype text are those of every level of its citation, level by level.",
     ["inputs", "histories"], "all trees, ways of naming and telling them, and histories of reads and moves of the bounds",
     "Tests make prototypes without a tree and check that their methods are not implemented.", ["MyCapytain/resources/prototypes/text.py", "MyCapytain/resources/prototypes/cts/text.py", R + "_base.py"],
     [("InteractiveTextualNode", "MyCapytain/resources/prototypes/text.py"), ("NodeId", R + "_base.py")],
     "exhaustive enumeration of trees and histories on classes derived from the real prototypes, in lock-step with a plain tree", BOUNDED)

prop("C43", "A repository reads the same locally, over CTS and over DTS",
     "When CTS and DTS servers give what a local CapiTainS resolver gives, HttpCtsResolver and HttpDtsResolver read of every unit and same-level range what the local resolver reads, which is what the files hold: reference, plain text, previous, next, siblings, parent, children, first and last child, the references of every level, and what is said of the text (over CTS). Every walk by next, previous, parent, first, last and children reaches the same passages in the three, labels that need escaping in requests included (above the first level, a local passage has no parent where the others have the whole text). Their collections have the same identifiers, members, sizes and labels, and over CTS the same ancestors, texts, kinds, languages and citations as locally.",
     ["inputs", "histories"], "all units, ranges, walks and collections of the repository in the bounds",
     "Tests read one answer saved from a server at a time and never compare resolvers.", ["MyCapytain/resolvers/cts/local.py", "MyCapytain/resolvers/cts/api.py", "MyCapytain/resolvers/dts/api_v1.py", "MyCapytain/resources/texts/remote/cts.py", "MyCapytain/resources/texts/local/capitains/cts.py"],
     [("CtsCapitainsLocalResolver", "MyCapytain/resolvers/cts/local.py"), ("CtsPassage", "MyCapytain/resources/texts/remote/cts.py"), ("DtsResolverDocument", "MyCapytain/resources/texts/remote/dts/_resolver_v1.py")],
     "exhaustive enumeration of units and walks on the three real resolvers in lock-step, remote ones against simulated servers publishing the local one, and on a plain model of the files", BOUNDED)

prop("C44", "Two readers of the same things do not disturb one another",
     "When a reader is interrupted between any two lines of the library by another that makes a whole read of its own and lets it go on, both are answered what each is answered alone, and so are the reads made afterwards. This holds for reads of the same local text, passage or range, of two texts with different citation schemes, of names and citations, of an inventory (and while another is parsed), of one resolver, and of the texts and collections one CTS or DTS resolver reads from its server: what a read is in the middle of is kept nowhere another could meet it.",
     ["schedules"], "all places where a read can be interrupted and all pairs of reads of the bounds: two context switches, the second read made whole",
     "Tests make one read after another.", ["MyCapytain/resources/texts/local/capitains/cts.py", "MyCapytain/common/utils/xml.py", "MyCapytain/common/reference/_capitains_cts.py", "MyCapytain/resolvers/cts/local.py", "MyCapytain/resolvers/dts/api_v1.py", "MyCapytain/resources/texts/remote/cts.py"],
     [("CapitainsCtsText", "MyCapytain/resources/texts/local/capitains/cts.py"), ("passageLoop", "MyCapytain/common/utils/xml.py"), ("PaginatedProxy", "MyCapytain/resources/collections/dts/_resolver.py")],
     "stateless exploration of the real code under a controlled scheduler (a trace function): every interruption point of every pair of reads within two context switches, answers compared with those of each read alone", BOUNDED)

prop("C45", "A read that is cut short leaves nothing behind",
     "When a read is cut between any two lines of the library by an interruption it does not catch (Ctrl-C, a time limit), every later read of the same objects, itself included, is answered what it would have been had the first never begun: nothing half found is kept as an answer. This holds for reads of a local text, passage or range, of names and citations, of an inventory, of a resolver, and of the texts and collections a CTS or DTS resolver reads from its server, answered in pages or not.",
     ["crash_points", "histories"], "every point of every read of the bounds, followed by every read",
     "Tests let every read end.", ["MyCapytain/resources/collections/dts/_resolver.py", "MyCapytain/resources/texts/remote/cts.py", "MyCapytain/resources/texts/remote/dts/_resolver_v1.py", "MyCapytain/resources/texts/local/capitains/cts.py", "MyCapytain/resolvers/cts/local.py"],
     [("HttpResolverDtsCollection._parse_paginated_members", "MyCapytain/resources/collections/dts/_resolver.py"), ("CapitainsCtsPassage.siblingsId", "MyCapytain/resources/texts/local/capitains/cts.py")],
     "exhaustive enumeration of the crash points of every read on the real code (an interruption raised from a trace function), all reads compared afterwards with those of objects never interrupted", BOUNDED)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                            "observe_at": p["observe"] or ["public API"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B -c 'import lxml, rdflib, requests, pyld, sys; sys.path.insert(0, \"/verif\"); import mc.core'",
        "checks": [{
            "property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"],
            "thorough_cmd": "bash check.sh %s thorough" % p["id"], "technique": "model checking: " + p["technique"],
            "level": "model_checking", "level_note": p["note"]} for p in P],
        "not_applicable": [{"property": a, "reason": b} for a, b in NA],
        "notes": "No hooks: every check drives the public API of the code in /repo's working tree. Known findings and repaired defects: KNOWN_FINDINGS.txt.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
