"""C43: a repository read locally, over CTS and over DTS."""
import itertools
import json
from xml.sax.saxutils import escape
from urllib.parse import quote
from lxml import etree
from mc import docs, http, repos
from mc.core import observe
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, bind_graph, get_graph, set_graph
from mc.docs import dot
from MyCapytain.common.reference import CtsReference, DtsReference, URN
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
from MyCapytain.retrievers.cts5 import HttpCtsRetriever

PROPERTY = "C43"
BOUNDS = {"quick": "one repository of 2 textgroups, 3 works, 5 texts (1 to 3 levels, irregular, 3 declarations, labels that need escaping) served over CTS and over DTS with what the local resolver gives: every collection, every unit and range of each text, and every history of 3 moves among 6 from the text and from every unit, in lock-step locally, over CTS, over DTS and on the model",
          "thorough": "histories of 4 moves"}
CTS, DTS = "http://a.org/api/cts", "http://a.org/api/dts"
N = repos.NSP


def T(name, kind, depth):
    return [name, kind, None if kind == "edition" else "eng", "ok", "m", depth]


GROUPS = {"phi1": {"works": {"a": {"texts": [T("e", "edition", 2), T("t", "translation", 1)]},
                             "a1": {"texts": [T("e", "edition", 3)], "lang": "grc"}}, "labels": (("eng", "Épi & <co>"), ("lat", "Ep"))},
          "phi12": {"works": {"a": {"texts": [T("e1", "edition", 2), T("c", "commentary", 1)]}}}}
SPECS = {
    "phi1.a.e": {"shape": [[[], []], [[]], [[], []]], "scheme": "typed", "labels": "odd", "noise": "head"},
    "phi1.a.t": {"shape": [[]] * 12, "scheme": "child", "labels": "web", "noise": ""},
    "phi1.a1.e": {"shape": [[[[]], [[], []]], [[[], []]]], "scheme": "deep", "labels": "seq", "noise": ""},
    "phi12.a.e1": {"shape": [[[], [], [], [], [], [], [], []], [[], []], [[]], [[]], [[]]], "scheme": "same", "labels": "marks", "noise": "space"},
    "phi12.a.c": {"shape": [[]], "scheme": "child", "labels": "seq", "noise": ""},
}
for v in SPECS.values():
    v.update(content="mixed", wrap=0)
MOVES = ["next", "prev", "parent", "first", "last", "second"]
LABELLED = {"groupname": "get_label", "title": "get_label", "label": "get_label", "description": "get_description"}


def write(base):
    path = repos.write_all([GROUPS], base)
    for k, spec in SPECS.items():
        tg, wk, _ = k.split(".")
        with open("%s/data/%s/%s/%s.xml" % (path[0], tg, wk, k), "w", encoding="utf-8") as f:
            f.write(docs.xml(spec))
    return CtsCapitainsLocalResolver(path)


def bare(xml):
    """an element without what the parser of the publisher added, and without the declaration"""
    e = etree.fromstring(xml)
    for x in e.iter():
        for a in [a for a in x.attrib if "objectify" in a]:
            del x.attrib[a]
    etree.cleanup_namespaces(e)
    return etree.tostring(e, encoding=str, with_tail=False)


class Publisher(object):
    """a CTS and a DTS server which give what a local resolver gives"""
    def __init__(self, resolver):
        self.r = resolver
        self.inventory = resolver.inventory.export(Mimetypes.XML.CTS)
        self.cache = {}

    def __call__(self, req):
        k = req.url
        if k not in self.cache:
            try:
                if req.where == CTS:
                    self.cache[k] = 200, {"Content-Type": "application/xml; charset=utf-8"}, self.cts(req.params).encode("utf-8")
                else:
                    status, headers, body = self.dts(req.where[len(DTS):].strip("/"), req.params)
                    self.cache[k] = status, headers, body.encode("utf-8")
            except Exception as e:
                self.cache[k] = 500, {}, repr(e).encode("utf-8")
        return self.cache[k]

    def cts(self, q):
        name = q["request"]
        out = ""
        if name == "GetCapabilities":
            out = self.inventory
        else:
            urn, ref = split(q["urn"])
            one = lambda k, r: "<%s>%s</%s>" % (k, "" if r is None else "<urn>%s:%s</urn>" % (urn, escape(str(r))), k)
            node = self.r.getTextualNode(urn, ref or None)
            if name == "GetValidReff":
                level = int(q.get("level", 1))
                refs = self.refs(urn, node, level, ref)
                out = "<reff>%s</reff>" % "".join("<urn>%s:%s</urn>" % (urn, escape(str(r))) for r in refs)
            elif name in ("GetPassage", "GetPassagePlus"):
                out = "<urn>%s</urn><passage>%s</passage>" % (escape(q["urn"]), bare(node.export(Mimetypes.XML.Std)))
                if name == "GetPassagePlus":
                    out = self.label(urn) + out + self.around(node, ref, one)
            elif name == "GetPrevNextUrn":
                out = self.around(node, ref, one)
            elif name == "GetFirstUrn":
                out = one("first", node.firstId)[7:-8]
            elif name == "GetLabel":
                out = "<urn>%s</urn>" % escape(q["urn"]) + self.label(urn)
        return '<%s xmlns="http://chs.harvard.edu/xmlns/cts"><request><requestName>%s</requestName></request><reply>%s</reply></%s>' % (name, name, out, name)

    def refs(self, urn, node, level, ref):
        if level > len(self.r.getMetadata(urn).citation):
            return []
        return node.getReffs(level=level) if not ref else node.getReffs(level=level, subreference=CtsReference(ref))

    def around(self, node, ref, one):
        prev, nxt = node.siblingsId if ref else (None, None)
        return "<prevnext>%s%s</prevnext>" % (one("prev", prev), one("next", nxt))

    def label(self, urn):
        t = self.r.getMetadata(urn)
        out = ""
        for tag, o, p in (("groupname", t.parent.parent, "groupname"), ("title", t.parent, "title"), ("label", t, "label"), ("description", t, "description")):
            for x in o.metadata.get(RDF_NAMESPACES.CTS.term(p)):
                out += '<%s xml:lang="%s">%s</%s>' % (tag, x.language, escape(str(x)), tag)
        return "<label>%s%s</label>" % (out, t.citation.export(Mimetypes.XML.CTS))

    def dts(self, where, q):
        if where == "":
            return 200, {}, json.dumps({"collections": "/api/dts/c", "documents": "/api/dts/d", "navigation": "/api/dts/n"})
        if where == "c":
            return 200, {}, json.dumps(self.r.getMetadata(q.get("id")).export(Mimetypes.JSON.DTS.Std))
        urn = q["id"]
        ref = q.get("ref") or ("%s-%s" % (q["start"], q["end"]) if "start" in q else None)
        node = self.r.getTextualNode(urn, ref)
        if where == "d":
            prev, nxt = node.siblingsId if ref else (None, None)
            links = [("prev", prev), ("next", nxt), ("collection", "")] + ([("up", node.parentId or "")] if ref else [])
            head = ", ".join('</api/dts/%s?id=%s%s>; rel="%s"' % ("c" if rel == "collection" else "d", urn, asked(r), rel) for rel, r in links if r is not None)
            return 200, {"Link": head, "Content-Type": "application/tei+xml; charset=utf-8"}, bare(node.export(Mimetypes.XML.Std))
        n = (len(ref.split("-")[0].split(".")) if ref else 0) + int(q.get("level", 1))
        refs = self.refs(urn, node, n, ref)
        return 200, {}, json.dumps({"@context": {"@vocab": "https://www.w3.org/ns/hydra/core#", "dts": "https://w3id.org/dts/api#"}, "@id": "x", "dts:level": n,
                                    "member": [{"dts:ref": str(r)} for r in refs]})


def split(urn):
    parts = urn.split(":")
    return ":".join(parts[:4]), ":".join(parts[4:])


def asked(r):
    if not r:
        return ""
    ends = str(r).split("-")
    return "&" + "&".join("%s=%s" % (k, quote(e)) for k, e in zip(("ref",) if len(ends) == 1 else ("start", "end"), ends))


def s(r):
    """any reference of any resolver as text, None for no reference"""
    if r is None:
        return None
    if isinstance(r, DtsReference):
        return "-".join(x for x in r if x)
    return str(r) or None


def words(text):
    return " ".join(text.split())


def content(src, m, a, b):
    return words(" ".join(t for t in src.window(a, b)[1] if not t.startswith("<!")))


class Worlds(object):
    """the three resolvers, each with a graph of its own"""
    def __init__(self, base):
        self.graphs = [bind_graph() for _ in range(3)]
        self.here(0)
        local = write(base)
        self.server = Publisher(local)
        self.r = [local, HttpCtsResolver(HttpCtsRetriever(CTS)), HttpDtsResolver(DTS)]

    def here(self, i):
        set_graph(self.graphs[i])

    def serve(self, req):
        now = get_graph()
        self.here(0)
        try:
            return self.server(req)
        finally:
            set_graph(now)

    def every(self, f):
        """f(index, resolver) in each world"""
        out = []
        for i, r in enumerate(self.r):
            self.here(i)
            out.append(f(i, r))
        return out


def reference(i, r):
    if r is None:
        return None
    return DtsReference(*r.split("-")) if i == 2 else r


def view(d):
    return {"text": words(d.export(Mimetypes.PLAINTEXT)), "children": [s(x) for x in d.childIds], "first": s(d.firstId), "last": s(d.lastId)}


def place(d):
    """where a passage is, among the others"""
    return {"prev": s(d.prevId), "next": s(d.nextId), "siblings": [s(x) for x in d.siblingsId], "parent": s(d.parentId)}


def where(d):
    r = getattr(d, "reference", None) if not isinstance(getattr(d, "urn", None), URN) else d.urn.reference
    return s(r)


def move(d, name):
    if name == "second":
        return (list(d.children)[1:] or [None])[0]
    return getattr(d, name)


def cases(tier):
    for k in SPECS:
        m = docs.Model(SPECS[k])
        yield {"m": "units", "text": k}
        starts = [None] + [dot(u) for u in m.units] + ["%s-%s" % (dot(m.level(n)[0]), dot(m.level(n)[-2])) for n in range(1, m.depth + 1) if len(m.level(n)) > 2]
        for st in starts:
            yield {"m": "walk", "text": k, "start": st, "n": 4 if tier == "thorough" else 3}
    yield {"m": "collections"}


def run(case, rec):
    with repos.scratch() as base:
        w = Worlds(base)
        with http.network(w.serve):
            {"units": units, "walk": walks, "collections": collections}[case["m"]](case, w, rec)
    rec.sample(case)


def units(case, w, rec):
    urn, spec = N + case["text"], SPECS[case["text"]]
    m, src = docs.Model(spec), docs.Source(spec)
    for n in range(1, m.depth + 1):
        got = w.every(lambda i, r: [s(x) for x in (r.getReffs(urn, level=n) if n > 1 else r.getReffs(urn))])     # one level unless said
        for i, g in enumerate(got):
            rec.check(g, [dot(u) for u in m.level(n)], "%s: references of level %d (%s)" % (urn, n, KINDS[i]))
    same = [(a, b) for a, b in m.ranges() if len(a) == len(b)]
    for a, b in same:
        ref = dot(a) if a == b else dot(a) + "-" + dot(b)
        got = w.every(lambda i, r: one(r.getTextualNode(urn, reference(i, ref))))
        text = content(src, m, a, b)
        for i, g in enumerate(got):
            rec.check((g["where"], g["text"]), (ref, text), "%s %s (%s)" % (urn, ref, KINDS[i]))
            rec.check(g, got[0], "%s %s: %s as locally" % (urn, ref, KINDS[i]))
            if a == b:
                level = m.level(len(a))
                j = level.index(a)
                p, x = (dot(level[j - 1]) if j else None), (dot(level[j + 1]) if j + 1 < len(level) else None)
                rec.check((g["prev"], g["next"], g["siblings"], g["parent"], g["children"]),
                          (p, x, [p, x], dot(a[:-1]) or None, [dot(c) for c in m.children(a)]), "%s %s: around it (%s)" % (urn, ref, KINDS[i]))
        kids = w.every(lambda i, r: [s(x) for x in r.getReffs(urn, 1, reference(i, ref))] if len(a) < m.depth else [])
        for i, g in enumerate(kids):
            rec.check(g, [dot(c) for c in m.between(a, b, len(a) + 1)] if len(a) < m.depth else [], "%s %s: references under it (%s)" % (urn, ref, KINDS[i]))
        rec.state([urn, ref])
    for flags in itertools.product((False, True), repeat=2):
        for ref in (None, dot(m.units[-1])):
            got = w.every(lambda i, r: words(r.getTextualNode(urn, reference(i, ref), prevnext=flags[0], metadata=flags[1]).export(Mimetypes.PLAINTEXT)))
            rec.check(got[1:], got[:1] * 2, "%s %s with prevnext and metadata %s" % (urn, ref, flags))
            labels = [said(w, i, r.getTextualNode(urn, reference(i, ref), prevnext=flags[0], metadata=True)) for i, r in enumerate(w.r[:2]) if w.here(i) is None]
            rec.check(labels, [wanted(case["text"])] * 2, "%s %s: what is said of the text, locally and over CTS" % (urn, ref))
    rec.trace()


def one(d):
    return dict(view(d), where=where(d), **place(d))


def said(w, i, d):
    out = []
    for get, langs in ((d.get_creator, ("eng", "lat")), (d.get_title, ("eng",)), (d.get_subject, ("eng",)), (d.get_description, ("fre",))):
        out.append([str(get(l)) for l in langs])
    return out


def wanted(k):
    tg, wk, tx = k.split(".")
    names = [v + " " + tg for _, v in GROUPS[tg].get("labels", (("eng", "Group"),))]
    return [(names * 2)[:2], ["Work " + wk], ["Text " + tx], ["Desc " + tx]]


def walks(case, w, rec):
    urn, spec = N + case["text"], SPECS[case["text"]]
    m, src = docs.Model(spec), docs.Source(spec)
    for moves in itertools.product(MOVES, repeat=case["n"]):
        ds = w.every(lambda i, r: r.getTextualNode(urn, reference(i, case["start"])))
        for k, name in enumerate(moves):
            what = "%s from %s: %s" % (urn, case["start"], " ".join(moves[:k + 1]))
            here = where(ds[0])
            if here is None and name in ("prev", "next", "parent"):
                break   # around the whole text there is nothing
            ds = w.every(lambda i, r: move(ds[i], name))
            if name == "parent" and ds[0] is None:
                # above the first level lies the text, which a local passage does not offer
                rec.check([where(d) for d in ds[1:]], [None, None], what)
                w.here(0)
                ds[0] = w.r[0].getTextualNode(urn)
            if None in ds:
                rec.check(ds, [None] * 3, what)
                break
            light = k + 1 < case["n"]
            got = [dict(where=where(d)) if light else (one(d) if where(d) else dict(view(d), where=None)) for d in ds]
            rec.check(got[1:], got[:1] * 2, what)
            if not light and got[0]["where"]:
                ends = [tuple(e.split(".")) for e in got[0]["where"].split("-")]
                rec.check(got[0]["text"], content(src, m, ends[0], ends[-1]), what + ": text")
            rec.step()
        rec.state([case, moves])
    rec.trace()


def collections(case, w, rec):
    tree = {"": list(GROUPS)}
    for tg in GROUPS:
        tree[tg] = ["%s.%s" % (tg, wk) for wk in GROUPS[tg]["works"]]
        for wk in GROUPS[tg]["works"]:
            tree["%s.%s" % (tg, wk)] = ["%s.%s.%s" % (tg, wk, t[0]) for t in GROUPS[tg]["works"][wk]["texts"]]
    for k in list(tree) + list(SPECS):
        ask = lambda n, r: r.getMetadata(N + k if k else ("default" if n == 0 else None))
        kids = sorted(N + x for x in tree.get(k, []))
        for n, c in enumerate(w.every(ask)):
            what = "%s (%s)" % (k or "the inventory", KINDS[n])
            rec.check((sorted(x.id for x in c.members), c.size), (kids, len(kids)), what + ": members")
            if not k:
                continue
            rec.check(c.id, N + k, what)
            parts = k.split(".")
            label = wanted(k + ".x.x"[:2 * (3 - len(parts))])[len(parts) - 1][0]
            rec.check(str(c.get_label("eng") if n < 2 else c.get_label()), label, what + ": label")
            if n < 2:
                rec.check(sorted(x.id for x in c.readableDescendants), sorted(N + x for x in SPECS if x.startswith(k + ".")), what + ": texts")
                rec.check([x.id for x in c.parents][:len(parts) - 1], [N + ".".join(parts[:j]) for j in range(len(parts) - 1, 0, -1)], what + ": ancestors")
                rec.check((c.parent.id == N + ".".join(parts[:-1])) if len(parts) > 1 else True, True, what + ": parent")
            if k in SPECS:
                if n < 2:
                    rec.check([(x.name, ) + tuple(str(y).replace(chr(34), chr(39)) for y in (x.refsDecl, x.scope, x.xpath)) for x in c.citation], [(x, ) + y for x, y in zip(docs.names(SPECS[k]), levels(SPECS[k]))], what + ": citation")
                    wk = GROUPS[parts[0]]["works"][parts[1]]
                    t = [t for t in wk["texts"] if t[0] == parts[2]][0]
                    rec.check((c.lang, c.subtype), (t[2] or wk.get("lang", "lat"), t[1]), what + ": language and kind")
            rec.state([k, n])
    rec.trace()


def levels(spec):
    """(declaration, scope, xpath) of each level"""
    out = []
    for i, d in enumerate(docs.decls(spec)):
        step = docs.scheme(spec)(docs.spec_depth(spec), i)[0] % (i + 1)
        scope = d[:-len(step)]
        out.append((d, hide(scope), hide(step)))
    return out


def hide(x):
    for i in range(1, 5):
        x = x.replace("'$%d'" % i, "'?'")
    return x


KINDS = ["locally", "over CTS", "over DTS"]
