"""Small TEI documents and a plain-Python model of them.

A document spec is JSON: {"shape": nested list, "scheme": str, "labels": str, "content": str,
"wrap": int, "noise": str}.  shape is a list with one item per top unit: an int n stands for a
bottom unit list is not used; a unit is a list of its sub-units and a bottom unit is [] .
"""
import itertools
from xml.sax.saxutils import escape
from lxml import etree

TEI = "http://www.tei-c.org/ns/1.0"
NS = {"tei": TEI}

LABELS = {
    "seq": ["1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12"],
    "odd": ["1", "10", "pr", "1a", "11", "2", "01", "b", "c", "d", "e", "f"],
    "marks": ["1'", "1/2", "1''", 'a"b', "b'\"", "a//b", "\u00e9 [x]", "(1)", "1", "$1", "\\1", "?"],
    "web": ["a&b", "1+1", "50%25", "a b", "\u00e9", "=", "1;2", "~<>", ",", '"', "%", "&amp;"],
    "rev": ["9", "8", "7", "6", "5", "4", "3", "2", "1", "0", "01", "02"],
}

# step templates per scheme: (xpath step, tag, extra attributes) per level counted from the bottom
SCHEMES = {
    "child": lambda depth, i: ("/tei:l[@n='$%d']", "l", {}) if i == depth - 1 else ("/tei:div[@n='$%d']", "div", {}),
    "deep": lambda depth, i: ("//tei:l[@n='$%d']", "l", {}) if i == depth - 1 else ("/tei:div[@n='$%d']", "div", {}),
    "typed": lambda depth, i: ("//tei:l[@n='$%d']", "l", {}) if i == depth - 1 else
             ("/tei:div[@type='textpart' and @n='$%d']", "div", {"type": "textpart", "subtype": "s%d" % i}),
    "alldeep": lambda depth, i: ("//tei:l[@n='$%d']", "l", {}) if i == depth - 1 else
             ("//tei:div[@subtype='s" + str(i) + "'][@n='$%d']", "div", {"type": "textpart", "subtype": "s%d" % i}),
    "same": lambda depth, i: ("/tei:div[@n='$%d']", "div", {}),
    # each level numbered by an attribute of its own
    "attrs": lambda depth, i: ("//tei:l[@xml:base='$%d']", "l", {}) if i == depth - 1 else ("/tei:div[@" + ["n", "facs2", "corresp", "sameAs"][i] + "='$%d']", "div", {}),
    # the fixed part of the declaration matches several elements: each top unit lies in its own
    "split": lambda depth, i: ("/tei:l[@n='$%d']", "l", {}) if i == depth - 1 else ("/tei:div[@n='$%d']", "div", {}),
}
# used by a few documents only: predicates and strings with slashes, several predicates
RARE = {
    "slash": lambda depth, i: ("//tei:l[not(tei:head/tei:p)][@n='$%d']", "l", {}) if i == depth - 1 else
             ("/tei:div[@subtype='a/" + str(i) + "'][@n='$%d' and not(tei:a//tei:b[tei:c/@n='1'])]", "div", {"subtype": "a/%d" % i}),
    "slash2": lambda depth, i: ("//tei:l[@rend='//'][@n='$%d']", "l", {"rend": "//"}) if i == depth - 1 else
              ("//tei:div[@subtype='/" + str(i) + "/'][@n='$%d']", "div", {"subtype": "/%d/" % i}),
}
BASE = "/tei:TEI/tei:text/tei:body"
NAMES = ["book", "poem", "line", "word"]


def scheme(spec):
    return SCHEMES.get(spec["scheme"]) or RARE[spec["scheme"]]


def decls(spec):
    depth = spec_depth(spec)
    out, s = [], BASE + "/tei:div[@type='edition']"
    for i in range(depth):
        s += scheme(spec)(depth, i)[0] % (i + 1)
        out.append(s)
    return out


def names(spec):
    d = spec_depth(spec)
    return NAMES[:d] if d > 1 else ["line"]


def spec_depth(spec):
    d, s = 0, spec["shape"]
    while s:
        d += 1
        s = s[0]
    return d


def shapes(depth, width):
    """every ordered tree whose leaves are all at `depth`, 1..width[i] units per node at level i"""
    if depth == 0:
        return [[]]
    subs = shapes(depth - 1, width[1:])
    out = []
    for n in range(1, width[0] + 1):
        out += [list(c) for c in itertools.product(subs, repeat=n)]
    return out


def content(spec, ref, index):
    c = spec.get("content", "unique")
    t = escape(".".join(ref))
    if c == "unique":
        return "t%s" % t
    if c == "same":
        return "same words"
    if c == "empty":
        return ""
    if c == "number":
        return "12"
    if c == "mixed":
        return "a%s<note>n%s <hi>h</hi></note> b%s<hi>c</hi>  d\u00a0\u00a0e\n\tf%s" % (t, t, t, t)
    if c == "alt":
        return ["same words", "", "3", "<hi>same</hi> words"][index % 4]
    raise KeyError(c)


class Model(object):
    def __init__(self, spec):
        self.spec = spec
        self.depth = spec_depth(spec)
        self.labels = LABELS[spec.get("labels", "seq")]
        self.units = []          # every ref (tuple) in document order, all levels
        self._walk(spec["shape"], ())

    def _walk(self, shape, prefix):
        for i, sub in enumerate(shape):
            ref = prefix + (self.labels[i],)
            self.units.append(ref)
            self._walk(sub, ref)

    def level(self, n):
        return [r for r in self.units if len(r) == n]

    def under(self, ref, n):
        return [r for r in self.level(n) if r[:len(ref)] == tuple(ref)]

    def children(self, ref):
        return self.under(ref, len(ref) + 1)

    def leaves(self, ref=()):
        return self.under(ref, self.depth)

    def between(self, start, end, n):
        """refs of level n (>= depth of both ends) from start to end inclusive"""
        all_ = self.level(n)
        a = [i for i, r in enumerate(all_) if r[:len(start)] == tuple(start)][0]
        b = [i for i, r in enumerate(all_) if r[:len(end)] == tuple(end)][-1]
        return all_[a:b + 1]

    def ordered(self, start, end):
        """start does not lie after end, and neither contains the other unless equal"""
        if start == end:
            return True
        k = min(len(start), len(end))
        if start[:k] == end[:k]:
            return False
        return self.units.index(start) < self.units.index(end)

    def ranges(self):
        return [(a, b) for a in self.units for b in self.units if self.ordered(a, b)]


def dot(ref):
    return ".".join(ref)


def quoted(s):
    return escape(s, {'"': "&quot;"})


def xml(spec):
    """Serialised TEI document of the spec."""
    m = Model(spec)
    depth = m.depth
    counter = [0]
    noise = spec.get("noise", "")

    def unit(shape, ref):
        i = len(ref) - 1
        step, tag, attrs = scheme(spec)(depth, i)
        number = step.split("='$")[0].split("@")[-1]
        a = "".join(' %s="%s"' % kv for kv in sorted(attrs.items()))
        head = "<%s%s %s=\"%s\" ana=\"u%s\">" % (tag, a, number, quoted(ref[-1]), quoted("-".join(ref)))
        if not shape:
            counter[0] += 1
            return head + content(spec, ref, counter[0] - 1) + "</%s>" % tag
        body = children(shape, ref)
        return head + body + "</%s>" % tag

    def children(shape, prefix):
        items = [unit(sub, prefix + (m.labels[i],)) for i, sub in enumerate(shape)]
        if spec["scheme"] == "split" and not prefix:
            items = [it + "</div><div type=\"edition\" n=\"urn:y%d\">" % k for k, it in enumerate(items[:-1])] + items[-1:]
        if "head" in noise:
            items = ["<head>head%s</head>" % escape("-".join(prefix))] + items
        if "between" in noise:
            items = [x for it in items for x in (it, "<note>btw%d</note>" % len(it))]
        if "comment" in noise:
            items = [x for it in items for x in ("<!-- c -->", it, "<?pi x?>")]
        if "tail" in noise:
            items = ["lead%s " % escape("-".join(prefix))] + [x for k, it in enumerate(items) for x in (it, " tail%s%d " % (escape("-".join(prefix)), k))]
        w = spec.get("wrap", 0)
        bottom = shape and not shape[0]
        if w and (bottom or spec["scheme"] == "alldeep"):
            groups = [items[i:i + w] for i in range(0, len(items), w)]
            if "partial" in noise:
                # only every other group lies in a layer without reference
                items = [x for k, g in enumerate(groups) for x in (["<lg rend=\"g%d\">" % k + "".join(g) + "</lg>"] if k % 2 == ("second" in noise) else g)]
            elif "nest" in noise:
                items = ["<sp><lg rend=\"g%d\">" % k + "".join(g) + "</lg></sp>" for k, g in enumerate(groups)]
            else:
                items = ["<lg rend=\"g%d\">" % k + "".join(g) + "</lg>" for k, g in enumerate(groups)]
        sep = "\n  " if "space" in noise else ""
        return sep + sep.join(items) + sep

    body = children(spec["shape"], ())
    patterns = ""
    if spec.get("refsdecl", True):
        pats = []
        for i, d in enumerate(decls(spec)):
            pats.append('<cRefPattern n="%s" matchPattern="%s" replacementPattern="#xpath(%s)"><p>x</p></cRefPattern>' % (
                names(spec)[i], "\\.".join(["(\\w+)"] * (i + 1)), d))
        other = ""
        if "otherdecl" in noise:
            # declarations of other systems of reference
            other = "".join('<refsDecl%s><cRefPattern n="page" matchPattern="(.+)" replacementPattern="#xpath(%s)"/></refsDecl>' % (
                n, BASE + "/tei:pb[@n='$1']") for n in ("", ' n="PAGES"'))
        patterns = "<encodingDesc>" + other + '<refsDecl n="CTS">' + "".join(reversed(pats)) + "</refsDecl></encodingDesc>"
    return ('<TEI xmlns="%s"><teiHeader><fileDesc><titleStmt><title>T</title></titleStmt></fileDesc>%s</teiHeader>'
            '<text xml:lang="lat"><body><div type="edition" n="urn:x">%s</div></body></text></TEI>') % (TEI, patterns, body)


class Source(object):
    """Independent document-order view of the source document (plain etree)."""

    def __init__(self, spec):
        self.model = Model(spec)
        self.root = etree.fromstring(xml(spec))
        self.order = [e for e in self.root.iter() if isinstance(e.tag, str)]
        self.pos = {e: i for i, e in enumerate(self.order)}
        self.node = {}
        for e in self.order:
            ana = e.get("ana")
            if ana:
                self.node[tuple(ana[1:].split("-"))] = e

    def window(self, start, end):
        """(elements kept, text tokens) of the passage start..end"""
        a, b = self.node[tuple(start)], self.node[tuple(end)]
        last = self.pos[[e for e in b.iter() if isinstance(e.tag, str)][-1]]
        anc = set(a.iterancestors())
        kept = [e for e in self.order if e in anc or self.pos[a] <= self.pos[e] <= last]
        return [nested_sig(e) for e in kept], self.tokens(a, b)

    def tokens(self, a, b):
        out, on = [], [False]

        def walk(e):
            if e is a:
                on[0] = True
            if on[0]:
                out.extend(said(e))
            for c in e:
                if walk(c):
                    return True
                if on[0]:
                    out.extend(piece(c.tail))
            return e is b
        walk(self.root)
        return out


def sig(e):
    return (e.tag, tuple(sorted((k, v) for k, v in e.attrib.items() if "objectify" not in k)))


def plain(resource):
    """an independent, non-objectified copy of an element"""
    return etree.fromstring(etree.tostring(resource, with_tail=False))


def nested_sig(e):
    """an element with its depth"""
    return (sum(1 for _ in e.iterancestors()),) + sig(e)


def elements(root):
    return [nested_sig(e) for e in root.iter() if isinstance(e.tag, str)]


def piece(t):
    """a text node, unless it is nothing but white space (which the library drops on loading)"""
    return [t] if t and t.strip() else []


def said(e):
    """the text an element starts with; a comment or processing instruction as itself"""
    return piece(e.text) if isinstance(e.tag, str) else ["<!%s>" % etree.tostring(e, with_tail=False).decode()]


def ordered_texts(root):
    """text nodes, comments and processing instructions in document order"""
    out = []

    def walk(e):
        out.extend(said(e))
        for c in e:
            walk(c)
            out.extend(piece(c.tail))
    walk(root)
    return out
