"""C25: what a DTS retriever asks the server, and what it makes of the answer."""
import itertools
import json
from mc.core import observe
from mc.http import charsets, network
from MyCapytain import __version__
from MyCapytain.common.reference import BaseReference, CtsReference, DtsReference
from MyCapytain.common.utils._http import parse_pagination
from MyCapytain.common.constants import bind_graph, set_graph
from MyCapytain.retrievers.dts import HttpDtsRetriever

PROPERTY = "C25"
BOUNDS = {"quick": "10 forms of entry point (absolute path, relative, full URL on the same or another host, query string, both, repeated parameters, parameters without value, with and without final slash) x the product of every optional argument of the 3 requests (references as text, number, tuple, DTS and CTS reference, single or range, with characters that need quoting) ; every order of 2 requests on one retriever; statuses 200 to 503 at the entry point and at the route; every order of the parameters and relations of a pagination header; 5 character encodings told by 4 forms of header, a byte order mark, 4 forms of XML declaration or nothing, x 8 media types",
          "thorough": "every order of 3 requests"}
ENTRY = {
    "path": ("http://a.org/api/dts/", {"c": "/api/dts/collections", "d": "/api/dts/documents", "n": "/api/dts/navigation"},
             ("http://a.org/api/dts/collections", "http://a.org/api/dts/documents", "http://a.org/api/dts/navigation"), {}),
    "relative": ("http://a.org/api/dts/", {"c": "./collections/", "d": "documents", "n": "../nav"},
                 ("http://a.org/api/dts/collections/", "http://a.org/api/dts/documents", "http://a.org/api/nav"), {}),
    "noslash": ("http://a.org/api/dts", {"c": "dts/collections", "d": "/documents", "n": "./navigation"},
                ("http://a.org/api/dts/collections", "http://a.org/documents", "http://a.org/api/navigation"), {}),
    "full": ("https://a.org:8080/dts/", {"c": "https://a.org:8080/dts/c", "d": "https://a.org:8080/x/d", "n": "https://a.org:8080/dts/n"},
             ("https://a.org:8080/dts/c", "https://a.org:8080/x/d", "https://a.org:8080/dts/n"), {}),
    "other": ("http://a.org/dts/", {"c": "http://b.org/c", "d": "https://c.org:81/d", "n": "//d.org/n"},
              ("http://b.org/c", "https://c.org:81/d", "http://d.org/n"), {}),
    "query": ("http://a.org/dts/", {"c": "?api=collections", "d": "?api=documents&v=1", "n": "?api=navigation"},
              ("http://a.org/dts/",) * 3, {"c": {"api": "collections"}, "d": {"api": "documents", "v": "1"}, "n": {"api": "navigation"}}),
    "both": ("http://a.org/dts/", {"c": "/c?key=a%26b", "d": "/d?key=2", "n": "n/?key=3"},
             ("http://a.org/c", "http://a.org/d", "http://a.org/dts/n/"), {"c": {"key": "a&b"}, "d": {"key": "2"}, "n": {"key": "3"}}),
    "bothother": ("http://a.org/dts/", {"c": "http://b.org/c?key=1", "d": "http://b.org/d/?a=1&b=2", "n": "http://b.org/n?key=3"},
                  ("http://b.org/c", "http://b.org/d/", "http://b.org/n"), {"c": {"key": "1"}, "d": {"a": "1", "b": "2"}, "n": {"key": "3"}}),
    "repeated": ("http://a.org/dts/", {"c": "/c?key=1&key=2", "d": "?a=2&b=1&a=1", "n": "n?k=x%20y&k=%C3%A9&k=x+y"},
                 ("http://a.org/c", "http://a.org/dts/", "http://a.org/dts/n"), {"c": {"key": ["1", "2"]}, "d": {"a": ["2", "1"], "b": "1"}, "n": {"k": ["x y", "é", "x y"]}}),
    "empty": ("http://a.org/dts/", {"c": "/c?collections=", "d": "?documents&a=1", "n": "http://b.org/?navigation=&b="},
              ("http://a.org/c", "http://a.org/dts/", "http://b.org/"), {"c": {"collections": ""}, "d": {"documents": "", "a": "1"}, "n": {"navigation": "", "b": ""}}),
}
IDS = ["urn:cts:latinLit:phi1294.phi002.perseus-lat2", "http://data.bnf.fr/ark:/12148/cb1?x=1&y=2#z", "é à+%"]
REFS = {
    "none": (lambda: None, {}), "text": (lambda: "1.2", {"ref": "1.2"}), "odd": (lambda: "a&b=c é", {"ref": "a&b=c é"}),
    "int": (lambda: 12, {"ref": "12"}), "zero": (lambda: 0, {"ref": "0"}), "tuple": (lambda: ("1.1", "2.3"), {"start": "1.1", "end": "2.3"}),
    "inttuple": (lambda: (1, 3), {"start": "1", "end": "3"}), "dts": (lambda: DtsReference("Av"), {"ref": "Av"}),
    "dtsrange": (lambda: DtsReference("1", "10", type_="letter"), {"start": "1", "end": "10"}), "base": (lambda: BaseReference("5"), {"ref": "5"}),
    "baserange": (lambda: BaseReference("5", "6"), {"start": "5", "end": "6"}), "cts": (lambda: CtsReference("1.2@lux[2]"), {"ref": "1.2@lux[2]"}),
    "ctsrange": (lambda: CtsReference("1.2-3"), {"start": "1.2", "end": "3"}),
}
STATUS = [200, 201, 301, 304, 400, 401, 403, 404, 410, 500, 502, 503]


def entry(form, log=None):
    end, routes, _, _ = ENTRY[form]
    return end, json.dumps({"@context": "x", "@id": end, "@type": "EntryPoint", "collections": routes["c"],
                            "documents": routes["d"], "navigation": routes["n"]}).encode("utf-8")


def route(form, which):
    _, _, where, extra = ENTRY[form]
    return where["cdn".index(which)], extra.get(which, {})


class Server(object):
    def __init__(self, form, entry_status=200, status=200, headers=None, body=b"{}"):
        self.end, self.index = entry(form)
        self.es, self.s = entry_status, status
        self.headers = headers or {"Content-Type": "application/ld+json"}
        self.body = body

    def __call__(self, req):
        if req.url == self.end:
            return self.es, {"Content-Type": "application/ld+json"}, self.index
        return self.s, self.headers, self.body


def queries():
    """(which route, method, arguments, expected parameters, expected Accept)"""
    for i in [None] + IDS:
        for nav in (None, "children", "parents"):
            for page in (None, 1, 2, 19):
                kw = {}
                want = {}
                if i is not None:
                    want["id"] = i
                    kw["collection_id"] = i
                if nav:
                    kw["nav"] = nav
                if nav == "parents":
                    want["nav"] = nav
                if page is not None:
                    kw["page"] = page
                if page in (2, 19):
                    want["page"] = str(page)
                yield "c", "get_collection", kw, want, "application/ld+json"
    for i in IDS:
        for ref in REFS:
            yield "d", "get_document", {"collection_id": i, "ref": ref}, dict({"id": i}, **REFS[ref][1]), "application/tei+xml, application/xml"
            yield ("d", "get_document", {"collection_id": i, "ref": ref, "mimetype": "text/plain"}, dict({"id": i}, **REFS[ref][1]), "text/plain")
    opts = [("level", "level", [None, 0, 1, 2]), ("group_by", "groupBy", [None, 1, 10]), ("max_", "max", [None, 5]),
            ("exclude", "exclude", [None, "dublincore extensions"]), ("page", "page", [None, 1, 3])]
    for combo in itertools.product(*[o[2] for o in opts]):
        for n, ref in enumerate(REFS):
            kw, want = {"collection_id": IDS[n % 3], "ref": ref}, dict({"id": IDS[n % 3]}, **REFS[ref][1])
            for (arg, name, _), v in zip(opts, combo):
                if v is not None:
                    kw[arg] = v
                    want[name] = str(v)
            yield "n", "get_navigation", kw, want, "application/ld+json"


def call(r, method, kw):
    kw = dict(kw)
    if "ref" in kw:
        kw["ref"] = REFS[kw["ref"]][0]()
    return getattr(r, method)(**kw)


def cases(tier):
    for form in ENTRY:
        for which in "cdn":
            yield {"m": "product", "form": form, "which": which}
        yield {"m": "history", "form": form, "len": 2 if tier == "quick" else 3}
        yield {"m": "status", "form": form}
    yield {"m": "pages"}
    yield {"m": "charset"}


def checkreq(rec, req, form, which, want, accept, what):
    where, extra = route(form, which)
    rec.check((req.method, req.where), ("GET", where), what + ": where")
    pairs = [(k, v) for k, vs in dict(want, **extra).items() for v in (vs if isinstance(vs, list) else [vs])]
    rec.check(req.args, sorted(pairs), what + ": parameters")
    rec.check(req.headers.get("Accept"), accept, what + ": Accept")
    rec.check(req.headers.get("User-Agent", "").startswith("MyCapytain/" + __version__), True, what + ": User-Agent")


def run(case, rec):
    set_graph(bind_graph())
    m = case["m"]
    if m == "product":
        form = case["form"]
        srv = Server(form)
        with network(srv) as log:
            r = HttpDtsRetriever(srv.end)
            for which, method, kw, want, accept in queries():
                if which != case["which"]:
                    continue
                del log[:]
                got = call(r, method, kw)
                what = "%s %s(%r)" % (form, method, kw)
                asked = [q for q in log if q.url != srv.end or q.where == route(form, which)[0] and q.args]
                rec.check(len(asked), 1, what + ": one request")
                if asked:
                    checkreq(rec, asked[0], form, which, want, accept, what)
                rec.check((got.status_code, got.text), (200, "{}"), what + ": the response")
                rec.state([form, method, kw])
                rec.outcome([method, sorted(want)])
            rec.trace()
        rec.sample(case)
    elif m == "history":
        form = case["form"]
        some = [q for n, q in enumerate(queries()) if n % 37 == 0 or q[2].get("ref") in ("dtsrange", "tuple")][:14]
        for seq in itertools.product(some, repeat=case["len"]):
            srv = Server(form)
            with network(srv) as log:
                r = HttpDtsRetriever(srv.end)
                for which, method, kw, want, accept in seq:
                    call(r, method, kw)
                rec.check([q.url for q in log].count(srv.end), 1, "the entry point is read once")
                rec.check(len(log), 1 + len(seq), "requests made")
                for q, (which, method, kw, want, accept) in zip(log[1:], seq):
                    checkreq(rec, q, form, which, want, accept, "%s after others" % method)
            rec.state([form, [s[2] for s in seq]])
            rec.trace()
    elif m == "status":
        form = case["form"]
        for es, s in itertools.product(STATUS, repeat=2):
            srv = Server(form, es, s)
            with network(srv) as log:
                r = HttpDtsRetriever(srv.end)
                for which, method, kw in (("c", "get_collection", {}), ("d", "get_document", {"collection_id": "a"}), ("n", "get_navigation", {"collection_id": "a"})):
                    got = observe(call, r, method, kw)
                    want = "HTTPError" if es >= 400 or s >= 400 else "ok"
                    rec.check(got[0] if got[0] == "ok" else got[1], want, "%s, entry point %d, route %d" % (method, es, s))
                # the server recovers: so does the retriever
                srv.es = srv.s = 200
                rec.check(observe(lambda: r.get_collection().text), ("ok", "{}"), "after the server has recovered")
            rec.state([form, es, s])
            rec.trace()
    elif m == "charset":
        for headers, data, text in charsets():
            srv = Server("path", headers=headers, body=data)
            srv.headers = headers
            with network(srv):
                got = observe(lambda: HttpDtsRetriever(srv.end).get_document("a").text.lstrip("\ufeff"))
            rec.check(got, ("ok", text), "%r served as %r" % (data, headers))
            rec.state([headers, text, len(data)])
    else:
        rels = ["first", "previous", "next", "last", "current"]
        orders = [["page={p}"], ["id=a", "page={p}"], ["page={p}", "id=a"], ["per_page=7", "page={p}"], ["page={p}", "per_page=7"], ["x=page%3D9", "page={p}", "id=a"]]
        for base in ("/api/c/", "http://a.org/c", "?", "c"):
            for order in orders:
                for k in range(len(rels) + 1):
                    for sub in itertools.combinations(range(len(rels)), k):
                        for rev in (False, True):
                            links = ["<%s%s%s>; rel=\"%s\"" % (base.rstrip("?"), "?", "&".join(order).format(p=n + 3), rels[n]) for n in sub]
                            if rev:
                                links = links[::-1]
                            h = {"Link": ", ".join(links)} if links else {}
                            got = observe(parse_pagination, h)
                            want = tuple(str(rels.index(x) + 3) if rels.index(x) in sub else None for x in ("previous", "next", "last", "current", "first"))
                            rec.check(got, ("ok", want), "pagination of %r" % h)
                            rec.state(h)
        for h in ({"Link": "<http://a.org/c>; rel=\"next\""}, {"Link": "<http://a.org/c?id=1>; rel=\"last\", </x?page=2>; rel=\"next\""}):
            got = observe(parse_pagination, h)
            rec.check(got[0] == "ok" and got[1].last, None, "a link without page: %r" % h)
            rec.check(got[0] == "ok" and got[1].next, "2" if "page=2" in h["Link"] else None, "a link without page: %r" % h)
        rec.trace()
