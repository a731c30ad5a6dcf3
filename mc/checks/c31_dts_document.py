"""C31: moving in the text of a DTS server."""
import itertools
import json
from urllib.parse import quote, urlencode
from xml.sax.saxutils import escape
from mc.core import observe
from mc.http import network
from MyCapytain.common.constants import Mimetypes, bind_graph, set_graph
from MyCapytain.common.reference import DtsReference
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver

PROPERTY = "C31"
BOUNDS = {"quick": "3 texts (flat with 4 units; 3 levels, irregular, with labels needing escapes; 1 unit) x 4 ways of writing links (absolute, relative, reordered, only a query with a fragment): every history of 3 moves (9 moves, asked at the document or at a passage, and ranges), everything observed after each; one failing answer (404, 500) at every position of every history of 2 moves",
          "thorough": "histories of 4 moves, faults in histories of 3"}
ROOT = "http://a.org/api/dts"
HYDRA, DTS, DCT = "https://www.w3.org/ns/hydra/core#", "https://w3id.org/dts/api#", "http://purl.org/dc/terms/"
TEXTS = [
    [("1", []), ("2", []), ("3", []), ("4", [])],
    [("a b", [("a b.1", [("a b.1.x", []), ("a b.1.y", [])]), ("a b.2", [])]), ("é&c", []), ("2", [("2.é", [("2.é.10", [])]), ("2.b", [])])],
    [("only", [])],
]
LINKS = ["absolute", "relative", "reordered", "query"]


class Text(object):
    """the model of one text: order of the units of every level, and the tree"""
    def __init__(self, tree):
        self.kids, self.up, self.levels = {None: []}, {}, {}

        def walk(parent, units, n):
            for label, below in units:
                self.kids[parent].append(label)
                self.kids[label] = []
                self.up[label] = parent
                self.levels.setdefault(n, []).append(label)
                walk(label, below, n + 1)
        walk(None, tree, 1)
        self.depth = max(self.levels)
        self.level = {u: n for n, us in self.levels.items() for u in us}

    def below(self, ref, n):
        """units n levels below"""
        if n == 0:
            return [ref]
        return [u for k in self.kids[ref] for u in self.below(k, n - 1)]

    def known(self, ref):
        if ref == ():
            return True
        if any(u not in self.level for u in ref):
            return False
        if len(ref) == 2:
            us = self.levels[self.level[ref[0]]]
            return self.level[ref[1]] == self.level[ref[0]] and us.index(ref[0]) <= us.index(ref[1])
        return True

    def links(self, ref):
        """prev, next, parent of a reference: () is the document, None nothing"""
        if ref == ():
            return None, None, None
        us = self.levels[self.level[ref[0]]]
        i, j = us.index(ref[0]), us.index(ref[-1])
        n = j - i + 1
        one = lambda a, b: () if a > b else ((us[a],) if a == b and len(ref) == 1 else (us[a], us[b]))
        prev = one(max(0, i - n), i - 1) if i > 0 else None
        nxt = one(j + 1, min(len(us) - 1, j + n)) if j + 1 < len(us) else None
        up = self.up[ref[0]]
        same = up == self.up[ref[-1]]
        return prev, nxt, (() if up is None or not same else (up,))

    def content(self, ref):
        if ref == ():
            return "whole text"
        return "text of " + " to ".join(ref)


class Server(object):
    def __init__(self, text, links, fail=None):
        self.t, self.how, self.fail, self.count = text, links, fail, 0

    def href(self, rel, ref):
        q = [("id", "urn:t")] + list(zip(("ref",) if len(ref) == 1 else ("start", "end"), ref))
        if self.how == "reordered":
            q.reverse()
        if self.how == "query" and rel != "collection":
            return "?" + urlencode([("exclude", "")] + q) + "#here"
        if rel == "collection":
            return "/api/dts/collections?id=urn:t"
        return ("" if self.how == "relative" else "http://a.org") + "/api/dts/documents?" + "&".join("%s=%s" % (k, quote(v)) for k, v in q)

    def __call__(self, req):
        if req.where == ROOT:
            return 200, {}, json.dumps({"collections": "/api/dts/collections", "documents": "/api/dts/documents", "navigation": "/api/dts/navigation"}).encode()
        self.count += 1
        if self.fail and self.count == self.fail[0]:
            return self.fail[1], {}, b"<error><text>an error</text></error>"
        q = req.params
        where = req.where.split("/")[-1]
        ref = (q["ref"],) if "ref" in q else ((q["start"], q["end"]) if "start" in q else ())
        if q.get("id") != "urn:t" or not self.t.known(ref):
            return 404, {}, b"<error><text>nothing here</text></error>"
        if where == "collections":
            return 200, {}, json.dumps({"@context": {"@vocab": HYDRA, "dts": DTS, "dct": DCT}, "@id": "urn:t", "@type": "Resource", "title": "A text", "totalItems": 0,
                                        "dts:citeDepth": self.t.depth, "dts:dublincore": {"dct:title": {"@value": "Titulus", "@language": "lat"}}}).encode()
        if where == "documents":
            prev, nxt, up = self.t.links(ref)
            links = [("collection", ())] + [(rel, r) for rel, r in (("prev", prev), ("next", nxt), ("up", up)) if r is not None]
            if ref and self.how != "absolute":
                links += [("first", (self.t.levels[self.t.level[ref[0]]][0],)), ("last", (self.t.levels[self.t.level[ref[0]]][-1],))]
            if self.how == "reordered":
                links.reverse()
            head = ", ".join('<%s>; rel="%s"' % (self.href(rel, r), rel) if self.how != "reordered" else '<%s>; title="a, b"; rel=%s' % (self.href(rel, r), rel)
                             for rel, r in links)
            body = '<?xml version="1.0" encoding="UTF-8"?><TEI xmlns="http://www.tei-c.org/ns/1.0"><text>%s</text></TEI>' % escape(self.t.content(ref))
            return 200, {"Content-Type": "application/tei+xml", "Link": head}, body.encode("utf-8")
        n = int(q.get("level", 1))
        if len(ref) == 2:
            us = self.t.levels[self.t.level[ref[0]]]
            refs = [x for u in us[us.index(ref[0]):us.index(ref[1]) + 1] for x in self.t.below(u, n)]
        else:
            refs = self.t.below(ref[0] if ref else None, n)
        level = n + (self.t.level[ref[0]] if ref else 0)
        return 200, {}, json.dumps({"@context": {"@vocab": HYDRA, "dts": DTS}, "@id": "/x", "dts:level": level, "dts:citeType": "l%d" % level,
                                    "member": [{"dts:ref": r} for r in refs]}).encode()


def ref(r):
    """a reference as a model value"""
    if r is None:
        return None
    if isinstance(r, str):
        return (r,)
    return tuple(x for x in r if x)


def parts(r):
    return None if r is None or r == () else DtsReference(*r)


def kids(t, r, n):
    if len(r) == 2:
        us = t.levels[t.level[r[0]]]
        return [x for u in us[us.index(r[0]):us.index(r[1]) + 1] for x in t.below(u, n)]
    return t.below(r[0] if r else None, n)


# the name of a move, what it does on a document, where the model goes (None: nowhere)
def child(t, r, i):
    ks = kids(t, r, 1)
    return (ks[i],) if ks else None


MOVES = {
    "next": (lambda d: d.next, lambda t, r: t.links(r)[1]),
    "prev": (lambda d: d.prev, lambda t, r: t.links(r)[0]),
    "parent": (lambda d: d.parent, lambda t, r: t.links(r)[2]),
    "first": (lambda d: d.first, lambda t, r: child(t, r, 0)),
    "last": (lambda d: d.last, lambda t, r: child(t, r, -1)),
    "child": (lambda d: list(d.children)[1], lambda t, r: child(t, r, 1)),
    "range": (lambda d: d.getTextualNode(DtsReference(*RANGE(d))), None),
    "text": (lambda d: d.getTextualNode("MIDDLE"), None),
    "unknown": (lambda d: d.getTextualNode(DtsReference("none")), None),
}


def spots(t):
    """a range and a single reference that exist in the text"""
    us = t.levels[t.depth]
    low = t.levels[1]
    return (us[0], us[1]) if len(us) > 1 else None, (low[len(low) // 2],)


def look(d, t, r, rec, what, light):
    prev, nxt, up = t.links(r)
    rec.check((d.id, ref(d.reference) or ()), ("urn:t", r), "%s: what was asked" % what)
    rec.check(d.export(Mimetypes.PLAINTEXT).strip(), t.content(r), "%s: text" % what)
    rec.check((ref(d.prevId), ref(d.nextId), ref(d.parentId)), (prev, nxt, up or None), "%s: previous, next, parent" % what)
    rec.check(tuple(ref(x) for x in d.siblingsId), (prev, nxt), "%s: siblings" % what)
    if light:
        return
    ks = [(k,) for k in kids(t, r, 1)]
    rec.check([ref(x) for x in d.childIds], ks, "%s: children" % what)
    rec.check((ref(d.firstId), ref(d.lastId)), (ks[0], ks[-1]) if ks else (None, None), "%s: first and last child" % what)
    base = t.level[r[0]] if r else 0
    for n in (1, 2, 3):
        got = d.getReffs(level=n)
        rec.check(([ref(x) for x in got], got.level, str(got.citation.name)), ([(k,) for k in kids(t, r, n)], base + n, "l%d" % (base + n)), "%s: references %d levels below" % (what, n))
    u = t.levels[1][0]
    rec.check([ref(x) for x in d.getReffs(1, DtsReference(u))], [(k,) for k in t.below(u, 1)], "%s: references under %s" % (what, u))
    rec.check((d.depth, str(d.get_title("lat")), d.collection.id, str(d.collection.get_label())), (t.depth, "Titulus", "urn:t", "A text"), "%s: collection" % what)


def cases(tier):
    n = 4 if tier == "thorough" else 3
    for ti in range(len(TEXTS)):
        for how in LINKS:
            for first in itertools.product(MOVES, repeat=n - 2):
                yield {"m": "moves", "t": ti, "how": how, "first": list(first), "n": n}
    for ti in range(len(TEXTS)):
        for how in LINKS:
            for status in (404, 500):
                for first in MOVES:
                    yield {"m": "faults", "t": ti, "how": how, "status": status, "first": first, "n": n - 1}


def step(d, t, r, move):
    """the document after the move, and where the model is"""
    rng, mid = spots(t)
    if move == "range":
        return (lambda: d.getTextualNode(DtsReference(*rng))) if rng else None, rng
    if move == "text":
        return lambda: d.getTextualNode(mid[0]), mid
    if move == "unknown":
        return lambda: d.getTextualNode(DtsReference("none")), "HTTPError"
    do, go = MOVES[move]
    to = go(t, r) if not (move == "child" and len(kids(t, r, 1)) < 2) else "IndexError"
    if move == "parent" and r == ():
        return None, None
    return (lambda: do(d)), to


def play(case, moves, rec, fail=None, light=False):
    t = Text(TEXTS[case["t"]])
    set_graph(bind_graph())
    srv = Server(t, case["how"], fail)
    failed = []
    with network(srv):
        def again(f, what):
            """f, tried once more when the server failed (and only then)"""
            before = srv.count
            got = observe(f)
            if fail and before < fail[0] <= srv.count and not failed:
                failed.append(what)
                rec.check(got, ("err", "HTTPError"), "%s when the server answers %d" % (what, fail[1]))
                got = observe(f)
            return got
        r, here = HttpDtsResolver(ROOT), ()
        d = again(lambda: r.getTextualNode("urn:t"), "the document")
        if d[0] != "ok":
            rec.violation("the document: %r" % (d,))
            return None
        d = d[1]
        for n, move in enumerate(moves):
            what = "text %d, links %s, %s" % (case["t"], case["how"], " ".join(moves[:n + 1]))
            do, to = step(d, t, here, move)
            if do is None:
                return None
            got = again(do, what)
            if isinstance(to, str):
                rec.check(got, ("err", to), what)
                return srv.count
            if to is None:
                rec.check(got, ("ok", None), what)
                return srv.count
            if got[0] != "ok" or got[1] is None:
                rec.violation("%s: %r, expected %r" % (what, got, to))
                return None
            d, here = got[1], to
            look(d, t, here, rec, what, light)
        return srv.count


def run(case, rec):
    if case["m"] == "moves":
        for more in itertools.product(MOVES, repeat=case["n"] - len(case["first"])):
            moves = case["first"] + list(more)
            play(case, moves, rec)
            rec.state([case["t"], case["how"], moves])
            rec.trace()
        # the document itself
        t = Text(TEXTS[case["t"]])
        set_graph(bind_graph())
        with network(Server(t, case["how"])):
            look(HttpDtsResolver(ROOT).getTextualNode("urn:t"), t, (), rec, "the document", False)
        rec.sample(case)
    else:
        for more in itertools.product(MOVES, repeat=case["n"] - 1):
            moves = [case["first"]] + list(more)
            n = play(case, moves, rec, light=True)
            if n is None:
                continue
            for k in range(1, n + 1):
                play(case, moves, rec, fail=(k, case["status"]), light=True)
                rec.state([case["t"], case["how"], moves, k, case["status"]])
            rec.outcome([case["t"], n])
            rec.trace()
