"""C26: listing the references of a text behind a paginated DTS navigation endpoint."""
import itertools
import json
from mc.core import observe
from mc.http import network
from MyCapytain.common.constants import bind_graph, set_graph
from MyCapytain.common.reference import CtsReference, DtsCitation, DtsReference, DtsReferenceSet
from MyCapytain.resolvers.dts.api_v1 import HttpDtsResolver
from rdflib import Literal, URIRef

PROPERTY = "C26"
BOUNDS = {"quick": "every list of 0 to 6 references x every page size 1 to 7 (and 11 and 12 pages) x 8 ways of writing the link to the next page (last page with no link, without view, link given as text or as identifier) x 2 JSON-LD contexts; every sequence of <=4 members over 7 kinds (single, range, own type, metadata in 2 vocabularies, links, numbers) on pages of 1 or 2; every query argument; a failure (status, empty or malformed answer) on each page",
          "thorough": "<=9 references (and 101 pages), sequences of <=5 members"}
ROOT = "http://a.org/api/dts"
TEXT = "urn:cts:a:b.c.page=7"
DTS, HYDRA, DCT, EX = "https://w3id.org/dts/api#", "https://www.w3.org/ns/hydra/core#", "http://purl.org/dc/terms/", "http://example.org/ns#"
# how the link to a page is written
NEXT = ["/api/dts/navigation?id={id}&page={p}", "/api/dts/navigation?page={p}&id={id}", "http://a.org/api/dts/navigation?id={id}&per_page=2&page={p}",
        "?page={p}", "/nav?homepage=1&page={p}&level=1", "/nav?id=http://x/y&page={p}&per_page=3", "/nav?page={p}&last_page=99"]
# kinds of members: what the server says, what it means: (start, end, own type, {(property, value, language)})
KINDS = {
    "plain": (lambda n: {"ref": n}, lambda n: (n, None, None, set())),
    "range": (lambda n: {"start": n, "end": n + ".9"}, lambda n: (n, n + ".9", None, set())),
    "typed": (lambda n: {"ref": n, "citeType": "preface"}, lambda n: (n, None, "preface", set())),
    "typedrange": (lambda n: {"start": n, "end": "z", "citeType": "two"}, lambda n: (n, "z", "two", set())),
    "dc": (lambda n: {"ref": n, "dublincore": {"dc:title": [{"@value": "Titre " + n, "@language": "fr"}, "Plain"], "dc:date": 1879}},
           lambda n: (n, None, None, {(DCT + "title", "Titre " + n, "fr"), (DCT + "title", "Plain", None), (DCT + "date", "1879", None)})),
    "ext": (lambda n: {"ref": n, "citeType": "letter", "extensions": {"ex:sender": "A & <b>", "ex:count": [1, 2]}, "dublincore": {"dc:creator": "C"}},
            lambda n: (n, None, "letter", {(EX + "sender", "A & <b>", None), (EX + "count", "1", None), (EX + "count", "2", None), (DCT + "creator", "C", None)})),
    "link": (lambda n: {"ref": n, "dublincore": {"dc:source": {"@id": "http://x.org/a?b=1"}}},
             lambda n: (n, None, None, {(DCT + "source", "http://x.org/a?b=1", "uri")})),
}


def rename(o, style):
    """write the answer with the context of the draft (dts vocabulary) or with the one of hydra"""
    hyd = {"member", "view", "next", "first", "last", "previous"}
    if isinstance(o, list):
        return [rename(x, style) for x in o]
    if isinstance(o, dict):
        out = {}
        for k, v in o.items():
            if k.startswith("@") or ":" in k:
                out[k] = v if k.startswith("@") else rename(v, style)
            elif style == "dts":
                out["hydra:" + k if k in hyd else k] = rename(v, style)
            else:
                out[k if k in hyd else "dts:" + k] = rename(v, style)
        return out
    return o


CONTEXT = {"dts": {"hydra": HYDRA, "@vocab": DTS, "dc": DCT, "ex": EX}, "hydra": {"@vocab": HYDRA, "dts": DTS, "dc": DCT, "ex": EX}}


class Server(object):
    def __init__(self, members, size, link=0, style="dts", default=None, level=1, lastview="none", asid=False):
        self.pages = [members[i:i + size] for i in range(0, len(members), size)] or [[]]
        self.link, self.style, self.default, self.level, self.lastview, self.asid = link, style, default, level, lastview, asid
        self.fail = {}

    def answer(self, p):
        o = {"@id": "/api/dts/navigation?id=x", "citeDepth": 3, "level": self.level, "member": self.pages[p - 1]}
        if self.default:
            o["citeType"] = self.default if isinstance(self.default, str) else self.default[(p - 1) % len(self.default)]
        n = len(self.pages)
        if p < n or self.lastview == "view":
            u = lambda k: {"@id": NEXT[self.link].format(id=TEXT, p=k)} if self.asid else NEXT[self.link].format(id=TEXT, p=k)
            o["view"] = {"@id": "x", "@type": "PartialCollectionView", "first": u(1), "last": u(n)}
            if p > 1:
                o["view"]["previous"] = u(p - 1)
            if p < n:
                o["view"]["next"] = u(p + 1)
        o = rename(o, self.style)
        o["@context"] = CONTEXT[self.style]
        return o

    def __call__(self, req):
        if req.where == ROOT:
            return 200, {}, json.dumps({"collections": "/api/dts/collections", "documents": "/api/dts/documents", "navigation": "/api/dts/navigation"}).encode()
        p = int(req.params.get("page", 1))
        if p in self.fail:
            f = self.fail[p]
            return (f, {}, b"{}") if isinstance(f, int) else (200, {}, f.encode())
        if p > len(self.pages):
            return 404, {}, b"{}"
        return 200, {"Content-Type": "application/ld+json"}, json.dumps(self.answer(p)).encode("utf-8")


def meta(ref):
    out = set()
    g = ref.metadata.graph
    for p, o in g.predicate_objects(ref.metadata.asNode()):
        if str(p) != DTS + "citeType":
            out.add((str(p), str(o), "uri" if isinstance(o, URIRef) else o.language))
    return out


def seen(s):
    return [(r.start, r.end, r.type if r.type is None else str(r.type), meta(r)) for r in s]


def expect(kinds, default):
    out = []
    for n, k in enumerate(kinds):
        a, b, t, m = KINDS[k][1]("%d" % (n + 1))
        out.append((a, b, t or default, m))
    return out


def ask(srv, rec, want, default, lvl, what, **kw):
    set_graph(bind_graph())
    with network(srv) as log:
        r = HttpDtsResolver(ROOT)
        got = observe(r.getReffs, TEXT, **kw)
        if got[0] != "ok":
            rec.violation("%s: %r" % (what, got))
            return
        s = got[1]
        rec.check(isinstance(s, DtsReferenceSet), True, what + ": a reference set")
        rec.check(seen(s), want, what)
        rec.check([x.is_range() for x in s], [w[1] is not None for w in want], what + ": ranges")
        rec.check(s.level, lvl, what + ": level")
        rec.check(s.citation.name if s.citation is not None else None, default, what + ": citation")
        return log


def cases(tier):
    top = 6 if tier == "quick" else 9
    for n in range(top + 1):
        for size in range(1, top + 2):
            yield {"m": "pages", "n": n, "size": size}
    for n, size in ((11, 1), (24, 2)) if tier == "quick" else ((11, 1), (24, 2), (45, 4), (101, 1)):    # page numbers of more than one digit
        yield {"m": "pages", "n": n, "size": size}
    for k in range(0, (4 if tier == "quick" else 5) + 1):
        for first in KINDS if k else [None]:
            yield {"m": "kinds", "k": k, "first": first}
    yield {"m": "args"}
    yield {"m": "faults"}


ARGS = [("none", lambda: None, {}), ("text", lambda: "1.2", {"ref": "1.2"}), ("dts", lambda: DtsReference("1"), {"ref": "1"}),
        ("range", lambda: DtsReference("1", "3"), {"start": "1", "end": "3"}), ("int", lambda: 3, {"ref": "3"}),
        ("tuple", lambda: ("1", "2"), {"start": "1", "end": "2"}), ("cts", lambda: CtsReference("1.1-1.2"), {"start": "1.1", "end": "1.2"})]


def run(case, rec):
    m = case["m"]
    if m == "pages":
        n, size = case["n"], case["size"]
        kinds = ["plain", "range"] * n
        kinds = kinds[:n]
        members = [KINDS[k][0](str(i + 1)) for i, k in enumerate(kinds)]
        pages = max(1, -(-n // size))
        for link in range(len(NEXT)):
            for style in CONTEXT:
                for lastview in ("none", "view"):
                    for asid in (False, True):
                        srv = Server(members, size, link, style, "poem", 1, lastview, asid)
                        what = "%d references, %d to a page, link %s, %s, %s" % (n, size, NEXT[link], style, lastview)
                        log = ask(srv, rec, expect(kinds, "poem"), "poem", 1, what)
                        if log is None:
                            return
                        nav = [q.params for q in log if q.where != ROOT]
                        rec.check([q.get("page", "1") for q in nav], [str(p + 1) for p in range(pages)], what + ": pages asked once each, in order")
                        rec.check([{k: v for k, v in q.items() if k != "page"} for q in nav], [{"id": TEXT, "level": "1", "groupBy": "1"}] * pages, what + ": requests")
                        rec.state([n, size, link, style, lastview])
                        rec.outcome([n, pages])
            rec.trace()
        rec.sample(case)
    elif m == "kinds":
        rest = case["k"] - 1
        for more in itertools.product(KINDS, repeat=max(rest, 0)):
            kinds = ([case["first"]] if case["k"] else []) + list(more)
            members = [KINDS[k][0](str(i + 1)) for i, k in enumerate(kinds)]
            for default, size, style, level in (("poem", 1, "dts", 1), (None, 2, "hydra", 3)):
                srv = Server(members, size, 0, style, default, level)
                if ask(srv, rec, expect(kinds, default), default, level, "%r by %d (%s)" % (kinds, size, style), level=level) is None:
                    return
                rec.state([kinds, size])
            if kinds:
                # each page states the type of its own members
                set_graph(bind_graph())
                with network(Server(members, 1, 0, "dts", ["poem", "line"])):
                    s = HttpDtsResolver(ROOT).getReffs(TEXT)
                    rec.check([x[2] for x in seen(s)], [w[2] or ("poem", "line")[n % 2] for n, w in enumerate(expect(kinds, None))], "%r: pages of two types" % (kinds,))
            rec.outcome(sorted(kinds))
            rec.trace()
            if rec.violations:
                return
    elif m == "args":
        members = [KINDS["plain"][0](str(i)) for i in range(1, 4)]
        for name, ref, want in ARGS:
            for level in (None, 1, 2, 3):
                for extra in ({}, {"groupBy": 2}, {"exclude": "dublincore"}, {"groupBy": 3, "exclude": "extensions"}):
                    kw = {"subreference": ref()}
                    if level is not None:
                        kw["level"] = level
                    if extra:
                        kw["additional_parameters"] = dict(extra)
                    what = "%s %s %s" % (name, level, extra)
                    log = ask(Server(members, 2), rec, expect(["plain"] * 3, None), None, 1, what, **kw)
                    if log is None:
                        return
                    w = dict({"id": TEXT, "level": str(level or 1), "groupBy": str(extra.get("groupBy", 1))}, **want)
                    if "exclude" in extra:
                        w["exclude"] = extra["exclude"]
                    nav = [q.params for q in log if q.where != ROOT]
                    rec.check(nav, [w, dict(w, page="2")], what + ": every page is asked with the same arguments")
                    rec.check(kw.get("additional_parameters", extra), extra, what + ": arguments left alone")
                    rec.state([name, level, extra])
            rec.trace()
    else:
        for n, size in ((5, 2), (3, 1), (2, 2)):
            members = [KINDS["plain"][0](str(i)) for i in range(n)]
            for p in range(1, -(-n // size) + 1):
                for f, want in ((404, "HTTPError"), (500, "HTTPError"), ("{}", "PaginationBrowsingError"), ("not json", None), ("[]", "PaginationBrowsingError"),
                                (json.dumps({"@context": CONTEXT["dts"], "hydra:member": [{"citeType": "x"}], "level": 1}), "EmptyReference"),
                                (json.dumps({"@context": CONTEXT["dts"], "hydra:member": [{"start": "1"}], "level": 1}), "EmptyReference")):
                    set_graph(bind_graph())
                    srv = Server(members, size)
                    srv.fail[p] = f
                    with network(srv):
                        r = HttpDtsResolver(ROOT)
                        got = observe(r.getReffs, TEXT)
                        rec.check(got if want else got[0], ("err", want) if want else "err", "page %d answers %r" % (p, f))
                        try:
                            r.getReffs(TEXT)
                        except Exception:       # what applications catch
                            pass
                        except BaseException as e:
                            rec.violation("page %d answers %r: %s is no Exception" % (p, f, type(e).__name__))
                        srv.fail.clear()
                        rec.check(len(r.getReffs(TEXT)), n, "after the server has recovered from %r" % (f,))
                    rec.state([n, size, p, f])
            rec.trace()
