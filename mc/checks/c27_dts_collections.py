"""C27: collections of a DTS server, retrieved piece by piece as they are read."""
import itertools
import json
from mc.core import observe
from mc.http import network
from MyCapytain.common.constants import bind_graph, set_graph
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
from rdflib import URIRef

PROPERTY = "C27"
BOUNDS = {"quick": "3 servers (a collection in two collections, empty collections, texts at different depths; answers of 1, 2 or all members, last page with and without view, two forms of link): every history of 2 among 7 reads of 4 objects and, for one way of answering per server, of 3 among the reads of 3 objects, each answer compared with what the server has; one failing answer at every position of every history of 2 (one way of answering per server); every collection (of a fourth server too, with 12 pages) asked directly, with and without members left",
          "thorough": "every history of 3 reads of 4 objects, every server and way of answering"}
ROOT = "http://a.org/api/dts"
HYDRA, DTS, DCT = "https://www.w3.org/ns/hydra/core#", "https://w3id.org/dts/api#", "http://purl.org/dc/terms/"
# id: (children, is it a text)
WORLDS = [
    {"urn:r": ["urn:a", "urn:b", "urn:t0"], "urn:a": ["urn:t1", "urn:c"], "urn:b": ["urn:c", "urn:e"], "urn:c": ["urn:t2"], "urn:e": [],
     "urn:t0": None, "urn:t1": None, "urn:t2": None},
    {"urn:r": ["urn:a"], "urn:a": ["urn:aa"], "urn:aa": ["urn:t1", "urn:t2", "urn:t3"], "urn:t1": None, "urn:t2": None, "urn:t3": None},
    {"urn:r": ["urn:a", "urn:b"], "urn:b": ["urn:t1"], "urn:a": ["urn:t1"], "urn:t1": None},
    # two-digit page numbers
    dict({"urn:r": ["urn:a"] + ["urn:x%d" % i for i in range(11)], "urn:a": ["urn:t1"], "urn:t1": None}, **{"urn:x%d" % i: None if i % 2 else ["urn:t1"] for i in range(11)}),
]
HISTORIES = 3       # the worlds whose histories are explored
SIZES = [(1, "none", 0), (2, "view", 1), (9, "none", 0)]


def parents(w, i):
    return [p for p in w if w[p] and i in w[p]]


def below(w, i):
    out = list(w[i] or [])
    for c in w[i] or []:
        out += below(w, c)
    return out


class Server(object):
    def __init__(self, w, conf):
        self.w, (self.size, self.lastview, self.link) = w, conf
        self.fail_at, self.count = None, 0

    def member(self, i, full=False):
        kids = self.w[i]
        o = {"@id": i, "@type": "Resource" if kids is None else "Collection", "title": "title " + i, "totalItems": len(kids or []),
             "description": "about " + i}
        if full:
            o["dts:dublincore"] = {"dc:creator": [{"@value": "creator of " + i, "@language": "eng"}], "dc:date": 1879}
        return o

    def __call__(self, req):
        if req.where == ROOT:
            return 200, {}, json.dumps({"collections": "/api/dts/collections", "documents": "/d", "navigation": "/n"}).encode()
        self.count += 1
        if self.count == self.fail_at:
            return 503, {}, b"{}"
        q = req.params
        i = q.get("id", "urn:r")
        if i not in self.w:
            return 404, {}, b"{}"
        nav = q.get("nav", "children")
        ms = (self.w[i] or []) if nav == "children" else parents(self.w, i)
        p = int(q.get("page", 1))
        last = max(1, -(-len(ms) // self.size))
        o = self.member(i, True)
        o["@context"] = {"@vocab": HYDRA, "dc": DCT, "dts": DTS}
        o["member"] = [self.member(m) for m in ms[(p - 1) * self.size:p * self.size]]
        if not o["member"]:
            del o["member"]
        if last > 1 and p < last or self.lastview == "view":
            u = lambda k: ["/api/dts/collections?id=%s&nav=%s&page=%d", "?page=%d&id=%s&x=%s"][self.link] % ((i, nav, k) if not self.link else (k, i, nav))
            o["view"] = {"@id": u(p), "@type": "PartialCollectionView", "first": u(1), "last": u(last)}
            if p < last:
                o["view"]["next"] = u(p + 1)
        return 200, {"Content-Type": "application/ld+json"}, json.dumps(o).encode("utf-8")


READS = {
    "children": lambda o: (sorted(o.children.keys()), sorted(iter(o.children))),
    "members": lambda o: sorted((m.id, m.size, m.readable, str(m.get_label())) for m in o.members),
    "parents": lambda o: sorted(p.id for p in o.parents),
    "readable": lambda o: sorted({x.id for x in o.readableDescendants}),
    "lookup": lambda o: [observe(lambda: o[k].id) for k in LOOK],
    "child": lambda o: [observe(lambda: o.children[k].id) for k in LOOK],
    "retrieve": lambda o: (o.retrieve(), sorted((str(x), x.language) for x in o.metadata.get(URIRef(DCT + "creator"))), str(o.get_label()), o.size,
                           str(o.type), [str(x) for x in o.metadata.get(URIRef(HYDRA + "description"))]),
}
LOOK = ["urn:r", "urn:a", "urn:c", "urn:t2", "urn:t1", "urn:none"]


def truth(w, i, op):
    kids = w[i] or []
    if op == "children":
        return (sorted(kids), sorted(kids))
    if op == "members":
        return sorted((k, len(w[k] or []), w[k] is None, "title " + k) for k in kids)
    if op == "parents":
        return sorted(parents(w, i))
    if op == "readable":
        return sorted({k for k in below(w, i) if w[k] is None})
    if op == "lookup":
        return [("ok", k) if k == i or k in below(w, i) else ("err", "UnknownCollection") for k in LOOK]
    if op == "child":
        return [("ok", k) if k in kids else ("err", "KeyError") for k in LOOK]
    return (True, [("creator of " + i, "eng")], "title " + i, len(kids), HYDRA + ("Resource" if w[i] is None else "Collection"), ["about " + i])


def objects(w):
    """the objects whose reads are interleaved: the root, its first member, a member reached through it, another way to the same collection"""
    first = w["urn:r"][0]
    return ["root", "first", "deep", "direct"], {"root": "urn:r", "first": first, "deep": w[first][-1], "direct": first}


def build(srv, w, r):
    root = r.getMetadata()
    first = root.children[w["urn:r"][0]]
    return {"root": root, "first": first}


def get(objs, name, w, r):
    if name not in objs:
        if name == "deep":
            objs[name] = objs["first"].children[w[w["urn:r"][0]][-1]]
        else:
            objs[name] = r.getMetadata(w["urn:r"][0])
    return objs[name]


NAMES = ["root", "first", "deep", "direct"]


def cases(tier):
    for wi in range(HISTORIES):       # the longest first
        for ci in range(len(SIZES)):
            for a in NAMES:
                for op in READS:
                    if tier == "thorough":
                        yield {"m": "history", "w": wi, "c": ci, "first": [a, op], "depth": 3, "names": NAMES}
                    elif wi == ci and a != "direct":
                        yield {"m": "history", "w": wi, "c": ci, "first": [a, op], "depth": 3, "names": NAMES[:3]}
    for wi in range(len(WORLDS)):
        for ci in range(len(SIZES)):
            yield {"m": "direct", "w": wi, "c": ci}
            if wi >= HISTORIES:
                continue
            for a in NAMES:
                if a != "direct" and (tier == "thorough" or wi == ci):
                    for op in READS:
                        yield {"m": "faults", "w": wi, "c": ci, "first": [a, op]}
                for op in READS:
                    yield {"m": "history", "w": wi, "c": ci, "first": [a, op], "depth": 2, "names": NAMES}


def play(w, conf, hist, rec, fail_at=None):
    """one history on fresh objects; returns the number of answers the server gave"""
    set_graph(bind_graph())
    srv = Server(w, conf)
    srv.fail_at = fail_at
    ids = objects(w)[1]
    with network(srv) as log:
        r = HttpDtsResolver(ROOT)
        failed = 0
        objs = None
        done = {}
        for n, (name, op) in enumerate([("", "")] + hist):
            for attempt in (1, 2):
                try:
                    if objs is None:
                        objs = build(srv, w, r)
                    if name:
                        before = len(log)
                        got = READS[op](get(objs, name, w, r))
                    break
                except Exception as e:
                    if type(e).__name__ == "HTTPError" and fail_at is not None and attempt == 1:
                        failed += 1
                        continue
                    rec.violation("%r then %s of %s: %s: %s" % (hist[:n - 1], op, name, type(e).__name__, e))
                    return None
            if not name:
                continue
            i = ids[name]
            if fail_at is not None and op in ("lookup", "child") and any(g == ("err", "HTTPError") for g in got):
                # the failure was met inside the read: read again
                got = READS[op](objs[name])
            if not rec.check(got, truth(w, i, op), "%s of %s (%s) after %r, pages of %r, failure at %s" % (op, name, i, hist[:n - 1], conf, fail_at)):
                return None
            if (name, op) in done and fail_at is None and op != "retrieve":
                rec.check([q.url for q in log[before:]], [], "%s of %s read a second time asks nothing (%r)" % (op, name, hist[:n - 1]))
            done[name, op] = True
        return srv.count


def run(case, rec):
    w, conf = WORLDS[case["w"]], SIZES[case["c"]]
    m = case["m"]
    if m == "direct":
        for i in [None] + list(w):
            for op in READS:
                set_graph(bind_graph())
                with network(Server(w, conf)):
                    r = HttpDtsResolver(ROOT)
                    o = r.getMetadata(i) if i else r.getMetadata()
                    rec.check(o.id, i or "urn:r", "identifier")
                    rec.check(READS[op](o), truth(w, i or "urn:r", op), "%s of %s asked directly, %r" % (op, i, conf))
                    rec.check((str(o.get_label()), o.size, o.readable), ("title " + o.id, len(w[o.id] or []), w[o.id] is None), "label, size of %s" % i)
                    rec.state([case["w"], case["c"], i, op])
        with network(Server(w, conf)):
            rec.check(observe(HttpDtsResolver(ROOT).getMetadata, "urn:none"), ("err", "HTTPError"), "unknown collection")
        rec.trace()
    elif m == "history":
        alphabet = [(a, op) for a in case["names"] for op in READS]
        first = tuple(case["first"])
        for more in itertools.product(alphabet, repeat=case["depth"] - 1):
            n = play(w, conf, [first] + list(more), rec)
            if n is None:
                return
            rec.state([case["w"], case["c"], first, more])
            rec.outcome([case["w"], case["c"], n])
            rec.trace()
        rec.sample(case)
    else:
        alphabet = [(a, op) for a in ("root", "first", "deep") for op in READS]
        for hist in itertools.product(alphabet, repeat=2):
            if hist[0] != tuple(case["first"]):
                continue
            n = play(w, conf, list(hist), rec)
            if n is None:
                return
            for k in range(1, n + 1):
                if play(w, conf, list(hist), rec, fail_at=k) is None:
                    return
                rec.state([case["w"], case["c"], hist, k])
            rec.trace()
