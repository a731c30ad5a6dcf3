"""C05: a citation level's reference declaration, scope, xpath and filled xpath agree."""
import itertools
from lxml import etree
from mc.core import observe
from MyCapytain.common.reference import Citation, CtsReference

PROPERTY = "C05"
BOUNDS = {"quick": "4 fixed prefixes x all 1..3-level chains of 12 placeholder steps, both quote styles; every fill with 0..n known values; every scope/xpath edit of 2 replacement values; 17 x 17 values with quotes, slashes and the like, evaluated on a document",
          "thorough": "same with 4-level chains"}
ASSUMPTIONS = ["attribute names are alphanumeric; values with quotes, slashes, brackets or question marks are judged by the elements the filled declaration selects", "one xpath step per citation level, one placeholder per step"]

PREFIX = ["/tei:TEI/tei:text/tei:body",
          "/tei:TEI/tei:text/tei:body/tei:div[@type='edition']",
          "/tei:TEI/tei:text[@xml:lang='lat']/tei:body//tei:div[@n='7'][@subtype='x-y']",
          "//tei:body"]
STEPS = ["/tei:div[@n=Q?Q]", "//tei:l[@n=Q?Q]", "/tei:div[@type='textpart'][@n=Q?Q]", "//tei:*[@n=Q?Q]",
         "/tei:div[@n=Q?Q][@subtype='a-b']", "/tei:ab[@xml:id=Q?Q]", "//tei:lb[@n=Q?Q and @ed='12']",
         "/*[self::tei:p|self::tei:ab][@n=Q?Q]", "//tei:seg[@n=Q?Q and not(@type='1')]", "/tei:div[@n2=Q?Q]",
         "/tei:div[@type=Qa/bQ][@n=Q?Q]", "//tei:div[tei:head/tei:hi or .//tei:p[tei:q/@ana=Q/Q]][@n=Q?Q]"]
ATTRS = ["n", "n", "n", "n", "n", "xml:id", "n", "n", "n", "n2", "n", "n"]


def cases(tier):
    for q in "'\"":
        yield {"odd": q}
    for p in range(len(PREFIX)):
        for n in range(1, 4 if tier == "quick" else 5):
            if n < 3:
                for steps in itertools.product(range(len(STEPS)), repeat=n):
                    for q in "'\"":
                        yield {"prefix": p, "steps": list(steps), "quote": q}
            else:
                # batch by first step to keep cases coarse
                for first in itertools.product(range(len(STEPS)), repeat=n - 2):
                    for q in "'\"":
                        yield {"prefix": p, "first": list(first), "quote": q}


ODD = ["1", "1'", '1"', "o'n\"e'", "'", '"', "1/2", "a//b", "[x]", "1' or '1'='1", "?", "$1", "\\1", "{0}", "a b", "\u00e9", "%s"]
NS = {"tei": "http://www.tei-c.org/ns/1.0"}


def odd(case, rec):
    """values with quotes and the like: the filled declaration selects exactly the elements bearing these values"""
    q = case["odd"]
    root = etree.Element("{%s}body" % NS["tei"], nsmap={None: NS["tei"]})
    nodes = {}
    for a in ODD:
        div = etree.SubElement(root, "{%s}div" % NS["tei"], n=a)
        nodes[a] = div
        for b in ODD:
            nodes[a, b] = etree.SubElement(div, "{%s}l" % NS["tei"], n=b)
    order = list(root.iter())

    def select(xpath):
        return observe(lambda: [order.index(e) for e in root.xpath(xpath, namespaces=NS)])

    def index(keep):
        return [order.index(e) for k, e in nodes.items() if keep(k)]

    for first, second in (("/tei:body/tei:div[@n=Q?Q]", "/tei:l[@n=Q?Q]"), ("//tei:div[@n=Q?Q]", "//tei:l[@n=Q?Q]"),
                          ("/tei:body/*[self::tei:div][@n=Q?Q]", "/tei:l[@n=Q?Q and not(@type='a/b')]")):
        first, second = first.replace("Q", q), second.replace("Q", q)
        one_ = Citation(name="a", refsDecl=number([first]))
        two = Citation(name="b", refsDecl=number([first, second]))
        rec.state((first, second, "odd"))
        for a in ODD:
            rec.check(select(one_.fill([a])), ("ok", [order.index(nodes[a])]), "elements selected by fill([%r])" % a)
            rec.check(select(two.fill([a, None])), ("ok", sorted(index(lambda k: isinstance(k, tuple) and k[0] == a))),
                      "elements selected by fill([%r, None])" % a)
            rec.check(select("//*" + two.fill(a, xpath=True)), ("ok", sorted(index(lambda k: isinstance(k, tuple) and k[1] == a))),
                      "elements selected by fill(%r, xpath)" % a)
            if not set(a) & set("?"):
                rec.check(select(one_.fill(CtsReference(a))), ("ok", [order.index(nodes[a])]), "elements selected by fill(%s)" % a)
            for b in ODD:
                rec.check(select(two.fill([a, b])), ("ok", [order.index(nodes[a, b])]), "elements selected by fill([%r, %r])" % (a, b))
            rec.trace()
    rec.sample(case)


def norm(s):
    return s.replace('"', "'")


def number(parts):
    out, i = "", 1
    for part in parts:
        while "?" in part:
            part = part.replace("?", "$%d" % i, 1)
            i += 1
        out += part
    return out


def filled(text, values):
    """values: list of str or None, one per placeholder, in order"""
    vals = list(values)
    while "='?'" in text:
        v = vals.pop(0)
        text = text.replace("='?'", "" if v is None else "='%s'" % v, 1)
    return text


def run(case, rec):
    if "odd" in case:
        return odd(case, rec)
    if "first" in case:
        for rest in itertools.product(range(len(STEPS)), repeat=2):
            one({"prefix": case["prefix"], "steps": case["first"] + list(rest), "quote": case["quote"]}, rec)
    else:
        one(case, rec)
    rec.sample(case)


VALUES = ["1", "pr", "12a", "10"]


def one(case, rec):
    rec.case = case
    q = case["quote"]
    steps = [STEPS[i].replace("Q", q) for i in case["steps"]]
    scope = PREFIX[case["prefix"]] + "".join(steps[:-1])
    xpath = steps[-1]
    decl = number([scope, xpath])
    rec.state(decl)

    def agrees(c, scope, xpath, attr, what):
        rec.check(c.refsDecl, number([scope, xpath]), what + " refsDecl")
        rec.check((c.scope, c.xpath), (scope, xpath), what + " scope and xpath")
        rec.check(c.attribute, attr, what + " attribute")
        rec.check(c.is_set(), True, what + " is_set")
        n = (scope + xpath).count("?")
        full = norm(scope + xpath)
        rec.check(norm(c.fill(None)), filled(full, [None] * n), what + " fill(None)")
        for k in range(n + 1):
            vals = VALUES[:k] + [None] * (n - k)
            rec.check(norm(c.fill(vals)), filled(full, vals), what + " fill(%r)" % vals)
        ref = ".".join(VALUES[:n])
        rec.check(norm(c.fill(CtsReference(ref))), filled(full, VALUES[:n]), what + " fill(%s)" % ref)
        rec.check(norm(c.fill(CtsReference(ref + "-" + ref + "x"))), filled(full, VALUES[:n]), what + " fill(range)")
        rec.check(norm(c.fill("pr", xpath=True)), filled(norm(xpath), ["pr"] * n), what + " fill('pr', xpath)")
        rec.check(norm(c.fill(None, xpath=True)), filled(norm(xpath), [None] * n), what + " fill(None, xpath)")
        rec.trace()

    attr = ATTRS[case["steps"][-1]]
    a = Citation(name="x", refsDecl=decl)
    agrees(a, scope, xpath, attr, "from refsDecl")
    b = Citation(name="x", scope=scope, xpath=xpath)
    agrees(b, scope, xpath, attr, "from scope+xpath")
    # edits, in both orders
    new_scope = "/tei:TEI/tei:text/tei:body/tei:div[@n=%s?%s]" % (q, q)
    new_xpath = "//tei:l[@corresp=%s?%s]" % (q, q)
    for c in (a, b):
        c.xpath = new_xpath
        agrees(c, scope, new_xpath, "corresp", "after xpath edit")
        c.scope = new_scope
        agrees(c, new_scope, new_xpath, "corresp", "after xpath and scope edits")
        c.xpath = xpath
        agrees(c, new_scope, xpath, attr, "after scope edit")
        c.refsDecl = decl
        agrees(c, scope, xpath, attr, "after refsDecl edit")
        c.scope = new_scope
        agrees(c, new_scope, xpath, attr, "after second scope edit")
        c.scope = ""
        agrees(c, "", xpath, attr, "after removing the scope")
        c.xpath = new_xpath
        agrees(c, "", new_xpath, "corresp", "after an xpath edit without scope")
