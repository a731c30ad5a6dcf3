"""C32: moving in the text of a CTS server, and what the server says of it."""
import itertools
from xml.sax.saxutils import escape
from mc.core import observe
from mc.http import network
from mc.checks.c31_dts_document import Text
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, bind_graph, set_graph
from MyCapytain.common.reference import CtsReference, URN
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.resources.texts.remote.cts import CtsText
from MyCapytain.retrievers.cts5 import HttpCtsRetriever

PROPERTY = "C32"
BOUNDS = {"quick": "3 texts (flat; 3 levels, irregular; 1 unit) x 3 ways of writing answers x the text named by its version, or its work: every history of 3 moves (2 on the smaller texts, and where the text object itself is the starting point or the text is not named by its version) among 12 (next, previous, parent, first, last, child, and a unit or range asked in 6 forms), everything observed after each; one failing answer (404, 500) at every position of every history of 2 moves; every question of the resolver on every unit and range of each text; labels in every combination of 3 languages or none",
          "thorough": "one move more in every history"}
ROOT = "http://a.org/api/cts"
URNS = ["urn:cts:latinLit:phi1294.phi002.perseus-lat2", "urn:cts:latinLit:phi1294.phi002"]
NAMES = ["book", "poem", "line"]
TEXTS = [
    [("1", []), ("pr", []), ("3a", []), ("10", [])],
    [("1", [("1.pr", [("1.pr.2", []), ("1.pr.10", [])]), ("1.2", [])]), ("2", []), ("10", [("10.1", [("10.1.1", [])]), ("10.b", [])])],
    [("1", [])],
]
FORMS = ["prefix", "default", "plain"]
LABELS = [("groupname", [("eng", "Martial"), ("fre", "Martïal & co")]), ("title", [("lat", "Epigrammata")]), ("label", [("fre", "Epigrammes <1>"), (None, "no language")]), ("description", [("ger", "Ein Text")])]
XMLDECL = '<?xml version="1.0" encoding="UTF-8"?>\n'


def label_xml(labels, p):
    return "".join("<%s%s%s>%s</%s%s>" % (p, k, ' xml:lang="%s"' % lang if lang else "", escape(v[:3]) + ("<!-- c -->" if p else "") + escape(v[3:]), p, k) for k, vs in labels for lang, v in vs)


def citation_xml(n, p):
    out = ""
    for i in range(n, 0, -1):
        scope = "/tei:TEI/tei:text/tei:body" + "/tei:div[@n='?']" * (i - 1)
        out = "<%scitation label=\"%s\" xpath=\"/tei:div[@n='?']\" scope=\"%s\">%s</%scitation>" % (p, NAMES[i - 1], scope, out, p)
    return out


def text_of(case):
    t = Text(TEXTS[case["t"]])
    t.urn = URNS[case["urn"]]
    return t


class Server(object):
    def __init__(self, text, form, fail=None, labels=LABELS):
        self.t, self.form, self.fail, self.count, self.labels = text, form, fail, 0, labels

    def refs(self, ref, level):
        """the units of an (absolute) level under a reference"""
        t = self.t
        if not ref:
            return list(t.levels.get(level, []))
        d = level - t.level[ref[0]]
        return kids(t, ref, d) if d >= 0 else []

    def __call__(self, req):
        self.count += 1
        if self.fail and self.count == self.fail[0]:
            return self.fail[1], {}, b"<CTSError/>"
        q = req.params
        t = self.t
        p = "" if self.form == "default" else "ti:"
        ref = ()
        if q["urn"] != t.urn:
            if not q["urn"].startswith(t.urn + ":"):
                return 404, {}, b"<CTSError/>"
            ref = tuple(q["urn"][len(t.urn) + 1:].split("-"))
        name = q["request"]
        if req.where != ROOT or not t.known(ref):
            return 404, {}, b"<CTSError/>"
        u = lambda r: t.urn + (":" + "-".join(r) if r else "")
        request = "<%srequestName>%s</%srequestName><%srequestUrn>%s</%srequestUrn>" % (p, name, p, p, q["urn"], p)
        reply = ""
        if name in ("GetPassage", "GetPassagePlus"):
            passage = "<%spassage><tei:TEI><tei:text><tei:body>%s</tei:body></tei:text></tei:TEI></%spassage>" % (p, escape(t.content(ref)), p)
            reply = "<%surn>%s</%surn>" % (p, q["urn"], p)
            if name == "GetPassagePlus":
                reply += "<%slabel>%s%s</%slabel>" % (p, label_xml(self.labels, p), citation_xml(t.depth, p), p) + passage + self.prevnext(ref, p, u)
            else:
                request += label_xml(self.labels, p) + citation_xml(t.depth, p)
                reply += passage
        elif name == "GetPrevNextUrn":
            reply = self.prevnext(ref, p, u)
        elif name == "GetFirstUrn":
            ks = kids(t, ref, 1)
            reply = "<%surn>%s</%surn>" % (p, u((ks[0],)), p) if ks else ("<%surn/>" % p if self.form == "prefix" else "")
        elif name == "GetLabel":
            reply = "<%surn>%s</%surn><%slabel>%s%s</%slabel>" % (p, q["urn"], p, p, label_xml(self.labels, p), citation_xml(t.depth, p), p)
        elif name == "GetValidReff":
            level = int(q.get("level", 1))
            request += citation_xml(t.depth, p)
            reply = "<%sreff level=\"%d\">%s</%sreff>" % (p, level, "".join("<%surn>%s</%surn>" % (p, u((r,)), p) for r in self.refs(ref, level)), p)
        body = "<%s%s xmlns%s=\"http://chs.harvard.edu/xmlns/cts\" xmlns:tei=\"http://www.tei-c.org/ns/1.0\"><%srequest>%s</%srequest><%sreply>%s</%sreply></%s%s>" % (
            p, name, ":ti" if p else "", p, request, p, p, reply, p, p, name)
        if self.form == "plain":
            body = body.replace("><ti:", ">\n  <ti:")
        return 200, {"Content-Type": "application/xml"}, ((XMLDECL if self.form != "default" else "") + body).encode("utf-8")

    def prevnext(self, ref, p, u):
        prev, nxt, _ = self.t.links(ref)
        one = lambda k, r: "<%s%s><%surn>%s</%surn></%s%s>" % (p, k, p, u(r), p, p, k) if r else ("<%s%s/>" % (p, k) if self.form != "plain" else "")
        return "<%sprevnext>%s%s</%sprevnext>" % (p, one("prev", prev), one("next", nxt), p)


def kids(t, r, n):
    if len(r) == 2:
        us = t.levels[t.level[r[0]]]
        return [x for u in us[us.index(r[0]):us.index(r[1]) + 1] for x in t.below(u, n)]
    return t.below(r[0] if r else None, n)


def s(r):
    return "-".join(r) if r else None


def spots(t):
    us, low = t.levels[t.depth], t.levels[1]
    return (us[0], us[-1]) if len(us) > 1 else (us[0],), (low[len(low) // 2],)


def child(t, r, i):
    ks = kids(t, r, 1)
    return (ks[i],) if ks else None


def parent(t, r):
    """CTS parents are read from the reference: a range of one unit and its parents"""
    if not r:
        return None
    a, b = r[0].split(".")[:-1], r[-1].split(".")[:-1]
    if not a:
        return ()
    return (".".join(a),) if a == b else (".".join(a), ".".join(b))


MOVES = {
    "next": (lambda d: d.next, lambda t, r: t.links(r)[1]),
    "prev": (lambda d: d.prev, lambda t, r: t.links(r)[0]),
    "parent": (lambda d: d.parent, parent),
    "first": (lambda d: d.first, lambda t, r: child(t, r, 0)),
    "last": (lambda d: d.last, lambda t, r: child(t, r, -1)),
    "child": (lambda d: (list(d.children)[1:] or [None])[0], lambda t, r: child(t, r, 1) if len(kids(t, r, 1)) > 1 else None),
}
ASK = {
    "reference": lambda d, r, urn: d.getTextualNode(CtsReference(s(r))),
    "text": lambda d, r, urn: d.getTextualNode(s(r)),
    "urn": lambda d, r, urn: d.getTextualNode(URN(urn + ":" + s(r))),
    "urn text": lambda d, r, urn: d.getTextualNode(urn + ":" + s(r)),
    "list": lambda d, r, urn: d.getTextualNode(s(r).split(".")),
    "plus": lambda d, r, urn: d.getPassagePlus(s(r)),
}
EVENTS = list(MOVES) + list(ASK)


def step(d, t, here, move):
    if move in MOVES:
        do, go = MOVES[move]
        return (lambda: do(d)), go(t, here)
    rng, mid = spots(t)
    to = mid if move in ("text", "list") else rng
    return (lambda: ASK[move](d, to, t.urn)), to


def look(d, t, r, rec, what, light):
    prev, nxt, _ = t.links(r)
    rec.check((str(d.urn), str(d.urn.reference) if r else None, d.depth), (t.urn + (":" + s(r) if r else ""), s(r), t.level[r[0]] if r else None), "%s: what was asked" % what)
    rec.check(d.export(Mimetypes.PLAINTEXT).strip(), t.content(r), "%s: text" % what)
    rec.check((d.prevId, d.nextId, d.siblingsId), (s(prev), s(nxt), (s(prev), s(nxt))), "%s: previous and next" % what)
    rec.check(d.parentId, s(parent(t, r)), "%s: parent" % what)
    if light:
        return
    ks = kids(t, r, 1)
    rec.check((d.firstId, d.lastId, list(d.childIds)), (ks[0] if ks else None, ks[-1] if ks else None, ks), "%s: children" % what)
    questions(d, t, r, rec, what)
    rec.check([c.name for c in d.citation], NAMES[:t.depth], "%s: citation" % what)


def questions(d, t, r, rec, what):
    base = t.level[r[0]] if r else 0
    for n in (1, 2, 3):
        rec.check(list(d.getReffs(level=n)), kids(t, r, n), "%s: references %d levels below" % (what, n))
        rec.check(list(d.getValidReff(level=n)), (kids(t, r, n - base) if n >= base else []) if r else t.levels.get(n, []), "%s: references of level %d" % (what, n))
    u = t.levels[1][0]
    for ref in (u, CtsReference(u)):
        rec.check(list(d.getReffs(1, ref)), t.below(u, 1), "%s: references under %r" % (what, ref))
        rec.check(list(d.getValidReff(2, ref)), t.below(u, 1), "%s: references of level 2 under %r" % (what, ref))


def said(o):
    """what an object knows of its text"""
    out = {}
    for k, get in (("groupname", o.get_creator), ("title", o.get_title), ("label", o.get_subject), ("description", o.get_description)):
        seen = sorted((x.language or "", str(x)) for x in o.metadata.get(RDF_NAMESPACES.CTS.term(k)))
        out[k] = (seen, [str(get(lang)) for lang, _ in seen if lang], [str(o.get_cts_metadata(k, lang)) for lang, _ in seen if lang])
    return out


def said_wanted(labels):
    out = {}
    for k in ("groupname", "title", "label", "description"):
        vs = sorted((lang or "eng", v) for x, y in labels if x == k for lang, v in y)
        out[k] = (vs, [v for _, v in vs], [v for _, v in vs])
    return out


def cases(tier):
    top = 4 if tier == "thorough" else 3
    for ti in (1, 0, 2):
        for form in FORMS:
            for start in ("resolver", "text"):
                n = top if ti == 1 and start == "resolver" else top - 1
                for first in itertools.product(EVENTS, repeat=n - 2):
                    yield {"m": "moves", "t": ti, "form": form, "urn": 0, "start": start, "first": list(first), "n": n}
                for urn in (1,):
                    for first in itertools.product(EVENTS, repeat=top - 3):
                        yield {"m": "moves", "t": ti, "form": form, "urn": urn, "start": start, "first": list(first), "n": top - 1}
    for ti in range(len(TEXTS)):
        for form in FORMS:
            for status in (404, 500):
                for first in EVENTS:
                    yield {"m": "faults", "t": ti, "form": form, "urn": 0, "start": "resolver", "status": status, "first": first, "n": top - 1}
            for urn in range(len(URNS)):
                yield {"m": "resolver", "t": ti, "form": form, "urn": urn}
                yield {"m": "labels", "t": ti, "form": form, "urn": urn}


def begin(case, t, again):
    endpoint = HttpCtsRetriever(ROOT)
    if case["start"] == "resolver":
        r = HttpCtsResolver(endpoint)
        return again(lambda: r.getTextualNode(t.urn), "the text")
    return "ok", CtsText(t.urn, endpoint)


def play(case, moves, rec, fail=None, light=False):
    t = text_of(case)
    set_graph(bind_graph())
    srv = Server(t, case["form"], fail)
    failed = []
    with network(srv):
        def again(f, what):
            before = srv.count
            got = observe(f)
            if fail and before < fail[0] <= srv.count and not failed:
                failed.append(what)
                rec.check(got, ("err", "HTTPError"), "%s when the server answers %d" % (what, fail[1]))
                got = observe(f)
            return got
        got, here = begin(case, t, again), ()
        if got[0] != "ok":
            rec.violation("start: %r" % (got,))
            return None
        d = got[1]
        for n, move in enumerate(moves):
            what = "text %d, %s, %s then %s" % (case["t"], case["form"], case["start"], " ".join(moves[:n + 1]))
            if isinstance(d, CtsText) and move in ("next", "prev", "parent"):
                return None     # a text has no place among others: NotImplementedError, as documented by the tests
            do, to = step(d, t, here, move)
            got = again(do, what)
            if to is None:
                rec.check(got, ("ok", None), what)
                return srv.count
            if got[0] != "ok" or got[1] is None:
                rec.violation("%s: %r, expected %r" % (what, got, to))
                return None
            d, here = got[1], to
            if light:
                rec.check((str(d.urn), again(lambda: d.export(Mimetypes.PLAINTEXT).strip(), what), again(lambda: d.siblingsId, what + " siblings")),
                          (t.urn + (":" + s(to) if to else ""), ("ok", t.content(to)), ("ok", tuple(s(x) for x in t.links(to)[:2]))), what)
            else:
                look(d, t, here, rec, what, False)
        return srv.count


def run(case, rec):
    m = case["m"]
    if m == "moves":
        for more in itertools.product(EVENTS, repeat=case["n"] - len(case["first"])):
            moves = case["first"] + list(more)
            play(case, moves, rec)
            rec.state([case["t"], case["form"], case["start"], moves])
            rec.trace()
        rec.sample(case)
    elif m == "faults":
        for more in itertools.product(EVENTS, repeat=case["n"] - 1):
            moves = [case["first"]] + list(more)
            n = play(case, moves, rec, light=True)
            if n is None:
                continue
            for k in range(1, n + 1):
                play(case, moves, rec, fail=(k, case["status"]), light=True)
                rec.state([case["t"], case["form"], moves, k, case["status"]])
            rec.outcome([case["t"], n])
            rec.trace()
    elif m == "resolver":
        t = text_of(case)
        refs = [(u,) for us in t.levels.values() for u in us] + [p for us in t.levels.values() for p in itertools.combinations(us, 2)]
        with network(Server(t, case["form"])) as log:
            r = HttpCtsResolver(HttpCtsRetriever(ROOT))
            text = CtsText(t.urn, HttpCtsRetriever(ROOT))
            questions(text, t, (), rec, "the text")
            rec.check(list(text.reffs), [u for n in sorted(t.levels) for u in t.levels[n]], "all the references")
            rec.check(list(text.getValidReff(-1)), t.levels[t.depth], "references of the deepest level")
            rec.check((text.firstId, text.lastId, list(text.childIds)), (t.levels[1][0], t.levels[1][-1], t.levels[1]), "children of the text")
            rec.check(text.export(Mimetypes.PLAINTEXT).strip(), "whole text", "text exported")
            for ref in [()] + refs:
                given = [None] if not ref else [s(ref), CtsReference(s(ref))]
                prev, nxt, _ = t.links(ref)
                for g in given:
                    set_graph(bind_graph())
                    for flags in itertools.product((False, True), repeat=2):
                        p = r.getTextualNode(t.urn, subreference=g, prevnext=flags[0], metadata=flags[1])
                        what = "%r, prevnext %r, metadata %r" % (g, flags[0], flags[1])
                        look(p, t, ref, rec, what, True)
                        if any(flags):
                            rec.check(said(p), said_wanted(LABELS), "%s: labels" % what)
                            q = r.getTextualNode(t.urn, subreference=g, prevnext=flags[0], metadata=flags[1])
                            before = len(log)
                            q.siblingsId, q.prevId, q.nextId
                            rec.check(len(log), before, "%s: what the answer said of the siblings is not asked again" % what)
                    if ref:
                        rec.check(r.getSiblings(t.urn, g), (s(prev), s(nxt)), "siblings of %r" % (g,))
                        direct = CtsText(t.urn + ":" + s(ref), HttpCtsRetriever(ROOT))
                        rec.check((direct.depth, list(direct.childIds), direct.firstId), (t.level[ref[0]], kids(t, ref, 1), (kids(t, ref, 1) or [None])[0]), "%r asked as a text" % (g,))
                    rec.check(list(r.getReffs(t.urn, subreference=g)), kids(t, ref, 1), "one level below %r unless said" % (g,))
                    for n in (1, 2):
                        rec.check(list(r.getReffs(t.urn, n, g)), kids(t, ref, n), "%d levels below %r" % (n, g))
                        if ref:
                            rec.check(list(r.getReffs(t.urn + ":" + s(ref), n)), kids(t, ref, n), "%d levels below the urn of %r" % (n, g))
                rec.state([case["t"], case["form"], ref])
            rec.check(observe(r.getTextualNode, t.urn, "none"), ("err", "HTTPError"), "unknown unit")
            rec.check(observe(r.getTextualNode, t.urn + "x"), ("err", "HTTPError"), "unknown text")
        rec.trace()
        rec.sample(case)
    else:
        t = text_of(case)
        options = []
        for k in ("groupname", "title", "label", "description"):
            options.append([(k, [(lang, "%s in %s" % (k, lang)) for lang in langs]) for langs in ((), ("eng",), ("fre", "lat"), (None, "fre"))])
        for labels in itertools.product(*options):
            set_graph(bind_graph())
            with network(Server(t, case["form"], labels=list(labels))):
                text = CtsText(t.urn, HttpCtsRetriever(ROOT))
                meta = text.getLabel()
                rec.check((said(text), meta is text.metadata), (said_wanted(labels), True), "labels %r" % (labels,))
                rec.check([c.name for c in text.citation], NAMES[:t.depth], "citation of the label")
                other = CtsText(t.urn, HttpCtsRetriever(ROOT))
                other.getTextualNode(t.levels[1][0])
                rec.check(said(other), said_wanted(labels), "labels of a passage answer %r" % (labels,))
                p = HttpCtsResolver(HttpCtsRetriever(ROOT)).getTextualNode(t.urn, t.levels[1][0], metadata=True)
                rec.check(said(p), said_wanted(labels), "labels of a passage asked with metadata %r" % (labels,))
            rec.state([case["t"], case["form"], labels])
        rec.trace()
