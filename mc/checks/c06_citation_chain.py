"""C06: a citation hierarchy is the same hierarchy however it was built, copied or exchanged."""
import copy
import itertools
import pickle
from mc.core import observe
from lxml import etree
from MyCapytain.common.constants import Mimetypes, XPATH_NAMESPACES
from MyCapytain.common.reference import Citation, CtsReference
from MyCapytain.resources.collections.cts import XmlCtsCitation

PROPERTY = "C06"
BOUNDS = {"quick": "chains of 1..4 levels over 6 step kinds (both quote styles) and 5 names; built by every order of child links, by constructor nesting, children lists, TEI and CTS XML ingestion; pickled/copied",
          "thorough": "chains of 1..5 levels"}

NAMES = ["book", "poem", "line", "a&b", "l<\"'>"]
PREFIX = "/tei:TEI/tei:text/tei:body/tei:div[@type='edition']"
STEPS = ["/tei:div[@n=Q?Q]", "//tei:l[@n=Q?Q]", "/tei:div[@type='textpart'][@n=Q?Q]", "/tei:ab[@xml:id=Q?Q]",
         "//tei:lb[@n=Q?Q and @ed='12']", "/tei:seg[@n=Q?Q and position()<9]"]
ASSUMPTIONS = ["TEI exchange is explored for reference declarations written with single quotes (double quotes: known finding)"]
WAYS = ["constructor", "children", "tei", "cts", "links"]


def cases(tier):
    top = 4 if tier == "quick" else 5
    for n in range(1, top + 1):
        for last in range(len(STEPS)):
            for q in "'\"":
                for rot in range(len(NAMES)):
                    for way in WAYS:
                        if way == "tei" and q == '"':
                            continue
                        if way == "links":
                            for order in itertools.permutations(range(n - 1)):
                                yield {"n": n, "last": last, "quote": q, "rot": rot, "way": way, "order": list(order)}
                        else:
                            yield {"n": n, "last": last, "quote": q, "rot": rot, "way": way}


def levels(case):
    """[(name, refsDecl, scope, xpath)] top to deepest"""
    out, decl = [], PREFIX
    for i in range(case["n"]):
        step = STEPS[(case["last"] + case["n"] - 1 - i) % len(STEPS)].replace("Q", case["quote"])
        scope = decl
        decl = decl + step.replace("?", "$%d" % (i + 1))
        ms = scope
        for j in range(i):
            ms = ms.replace("$%d" % (j + 1), "?")
        out.append((NAMES[(i + case["rot"]) % len(NAMES)], decl, ms, step))
    return out


def build(case, lv, way, order=None):
    if way == "constructor":
        c = None
        for name, decl, scope, xpath in reversed(lv):
            c = Citation(name=name, refsDecl=decl, child=c)
        return c
    if way == "children":
        cs = [Citation(name=l[0], scope=l[2], xpath=l[3]) for l in lv]
        for i in reversed(range(len(cs) - 1)):
            cs[i].children = [cs[i + 1]]
        return cs[0]
    if way == "links":
        cs = [Citation(name=l[0], refsDecl=l[1]) for l in lv]
        for i in order:
            cs[i].child = cs[i + 1]
        return cs[0]
    base = build(case, lv, "children")
    return via_xml(base, lv, way)


def tei_doc(c):
    pats = [x.export(Mimetypes.XML.TEI) for x in c]
    return etree.fromstring(
        '<tei:refsDecl xmlns:tei="http://www.tei-c.org/ns/1.0" n="CTS">' + "".join(reversed(pats)) + "</tei:refsDecl>")


def cts_doc(c):
    return etree.fromstring(
        '<citationMapping xmlns="http://chs.harvard.edu/xmlns/cts">' + c.export(Mimetypes.XML.CTS) + "</citationMapping>")


def via_xml(c, lv, way):
    if way == "tei":
        return Citation.ingest(tei_doc(c))
    return XmlCtsCitation.ingest(cts_doc(c))


def norm(s):
    return s.replace('"', "'")


def compare(rec, c, lv, what, exact):
    f = (lambda s: s) if exact else norm
    n = len(lv)
    chain = list(c)
    if not rec.check([(x.name, f(x.refsDecl), f(x.scope), f(x.xpath)) for x in chain],
                     [(l[0], f(l[1]), f(l[2]), f(l[3])) for l in lv], what + " levels"):
        return
    rec.check((len(c), c.depth), (n, n), what + " length and depth")
    for i in range(n):
        x = chain[i]
        rec.check((len(x), x.depth), (n - i, n - i), "%s length/depth from level %d" % (what, i + 1))
        rec.check(x.root is chain[0], True, "%s root of level %d is the top level" % (what, i + 1))
        rec.check(bool(x.is_root()), i == 0, "%s is_root of level %d" % (what, i + 1))
        rec.check(x.child is (chain[i + 1] if i + 1 < n else None), True, "%s child of level %d" % (what, i + 1))
        rec.check(list(x.children) == chain[i + 1:i + 2], True, "%s children of level %d" % (what, i + 1))
        rec.check(bool(x.is_empty()), i == n - 1, "%s is_empty of level %d" % (what, i + 1))
        for j in range(i, n):
            rec.check(x[j - i] is chain[j], True, "%s item %d of level %d" % (what, j - i, i + 1))
            rec.check(x[j - n] is chain[j], True, "%s item %d of level %d" % (what, j - n, i + 1))
        rec.check(observe(lambda: x[n - i])[0], "err", "%s item beyond the deepest level" % what)
        for j in range(n):
            for tail in ("", "-" + ".".join(["2"] * (j + 1)), "-" + ".".join(["2"] * n), "@w[1]"):
                ref = ".".join(["1"] * (j + 1)) + tail
                got = x.match(ref)
                rec.check(got is chain[j], True, "%s match(%s) from level %d" % (what, ref, i + 1))
                rec.check(x.match(CtsReference(ref)) is chain[j], True, "%s match(%s) from level %d" % (what, ref, i + 1))
        rec.check(observe(x.match, ".".join(["1"] * (n + 1)))[0], "err", "%s match deeper than the scheme" % what)


def run(case, rec):
    lv = levels(case)
    rec.state([case["way"], case.get("order"), lv])
    c = build(case, lv, case["way"], case.get("order"))
    compare(rec, c, lv, "built by %s" % case["way"], case["way"] not in ("cts",))
    for name, f in (("pickle", lambda o: pickle.loads(pickle.dumps(o))), ("deepcopy", copy.deepcopy)):
        d = f(c)
        compare(rec, d, lv, "%s of %s" % (name, case["way"]), case["way"] not in ("cts",))
        rec.check(d is not c and list(d)[-1] is not list(c)[-1], True, "copies are distinct objects")
    # exchange through both XML formats and back
    if case["quote"] == '"' and case["way"] != "cts":
        # the TEI export does not quote a refsDecl written with double quotes: see KNOWN_FINDINGS.txt
        if case["n"] == 1 and case["last"] == 0 and case["rot"] == 0 and case["way"] == "children":
            got = observe(lambda: [x.refsDecl for x in via_xml(c, lv, "tei")])
            rec.check(got, ("ok", [l[1] for l in lv]), "TEI round trip of %s" % lv[0][1], key="tei-export-of " + lv[0][1])
        compare(rec, via_xml(c, lv, "cts"), lv, "CTS export of %s, ingested" % case["way"], False)
        compare(rec, via_xml(via_xml(c, lv, "cts"), lv, "tei"), lv, "TEI export of the CTS round trip", False)
        rec.trace()
        return
    t = via_xml(c, lv, "tei")
    compare(rec, t, lv, "TEI export of %s, ingested" % case["way"], case["way"] not in ("cts",))
    compare(rec, via_xml(c, lv, "cts"), lv, "CTS export of %s, ingested" % case["way"], False)
    compare(rec, via_xml(t, lv, "cts"), lv, "CTS export of the TEI round trip", False)
    if case["quote"] == "'":
        compare(rec, via_xml(via_xml(c, lv, "cts"), lv, "tei"), lv, "TEI export of the CTS round trip", False)
    # the match pattern of each TEI pattern accepts exactly references of its depth
    import re
    for i, node in enumerate(reversed(tei_doc(c).xpath("//tei:cRefPattern", namespaces=XPATH_NAMESPACES))):
        for j in range(case["n"] + 1):
            ref = ".".join(["1a"] * (j + 1))
            rec.check(re.match("^" + node.get("matchPattern") + "$", ref) is not None, i == j,
                      "TEI match pattern of level %d on %s" % (i + 1, ref))
    rec.trace()
    rec.sample(case)
