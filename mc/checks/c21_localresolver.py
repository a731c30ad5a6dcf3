"""C21: a local resolver answers for a text exactly as the text itself does."""
import itertools
from mc import docs, repos
from mc.core import observe
from mc.docs import dot
from MyCapytain.common.constants import Mimetypes, bind_graph, set_graph
from MyCapytain.common.reference import CtsReference
from MyCapytain.common.reference import URN
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

PROPERTY = "C21"
BOUNDS = {"quick": "one repository of 2 folders, 3 textgroups, 5 works with identifiers that are prefixes of one another, 9 texts of 1 to 3 citation levels; every text x every single reference and range x passage, siblings, references (every level), with and without metadata, references given as text and as objects, identifiers as text and URN; every work; unknown identifiers and references; every ordered pair of 40 requests on one resolver",
          "thorough": "every ordered pair of all requests of 4 texts"}


def T(name, kind, depth, mark):
    return [name, kind, None if kind == "edition" else "eng", "ok", mark, depth]


FOLDERS = [
    {"phi1": {"works": {"a1": {"texts": [T("e", "edition", 2, "m0"), T("e1", "edition", 1, "m1")]},
                        "a": {"texts": [T("t", "translation", 2, "m2"), T("e", "edition", 3, "m3")]},
                        "b": {"texts": [T("t", "translation", 1, "m4")]}}}},
    {"phi12": {"works": {"a": {"texts": [T("e", "edition", 2, "m5"), T("e1", "commentary", 2, "m6")]}}},
     "phi1": {"works": {"a": {"texts": [T("t", "translation", 1, "m7"), T("e2", "edition", 2, "m8")]}}},
     "phi": {"works": {"a": {"texts": [T("e", "edition", 1, "m9")]}}}},
]


def refs(m):
    out = [dot(r) for r in m.units]
    out += [dot(a) + "-" + dot(b) for a, b in m.ranges() if a != b]
    return out


def requests(u, text):
    m = docs.Model(repos.spec_of(text))
    out = [["node", u, None, False], ["node", u, None, True], ["reffs", u, 1, None]]
    for l in range(1, m.depth + 2):
        out.append(["reffs", u, l, None])
    for r in refs(m):
        out += [["node", u, r, False], ["node", u, r, True], ["siblings", u, r]]
        for l in range(1, m.depth + 1):
            out.append(["reffs", u, l, r])
    out += [["node", u, "zz", False], ["siblings", u, "zz"], ["reffs", u, 2, "zz"]]
    return out


def few(reqs):
    """requests of distinct kinds"""
    seen, out = set(), []
    for r in reqs:
        k = (r[0], r[1], str(r[2]).count("-"), str(r[2]).count("."), str(r[-1]))
        if k not in seen:
            seen.add(k)
            out.append(r)
    return out


def value(p):
    if isinstance(p, tuple):
        return [None if x is None else str(x) for x in p]
    if hasattr(p, "resource"):
        return [p.export(Mimetypes.PLAINTEXT), p.export(Mimetypes.XML.Std), str(p.urn), str(p.reference),
                p.citation.name if p.citation is not None else None]
    return [str(x) for x in p]


def ask(resolver, req, form):
    u = URN(req[1]) if form & 1 else req[1]
    r = req[3] if req[0] == "reffs" else req[2]
    if r is not None and form & 2:
        r = CtsReference(r)
    if req[0] == "node":
        p = resolver.getTextualNode(u, subreference=r, metadata=req[3], prevnext=bool(form & 4))
        v = value(p)
        if req[3]:
            v.append([str(p.get_creator("eng")), str(p.get_title("eng")), str(p.get_subject("eng")), str(p.get_description("fre"))])
        return v
    if req[0] == "siblings":
        return value(resolver.getSiblings(u, r))
    if req[2] == 1 and form & 1:
        return value(resolver.getReffs(u, subreference=r))     # one level unless said
    return value(resolver.getReffs(u, level=req[2], subreference=r))


def direct(req, info):
    text = CapitainsCtsText(urn=req[1], resource=repos_parse(info["text"]))
    if req[0] == "node":
        p = text.getTextualNode(None if req[2] is None else CtsReference(req[2]))
        v = value(p)
        if req[3]:
            tg, wk, tx = req[1].split(":")[3].split(".")
            v.append(["Group " + tg, "Work " + wk, "Text " + tx, "Desc " + tx])
        return v
    if req[0] == "siblings":
        return value(text.getTextualNode(CtsReference(req[2])).siblingsId)
    if req[3]:
        return value(text.getTextualNode(CtsReference(req[3])).getReffs(level=req[2], subreference=CtsReference(req[3])))
    return value(text.getReffs(level=req[2]))


def repos_parse(text):
    from lxml import objectify
    return objectify.fromstring(repos.tei(text))


def model():
    return repos.model(FOLDERS, ["/x0", "/x1"])


def cases(tier):
    ms = model()
    for u in ms:
        for order in (0, 1):
            yield {"m": "text", "u": u, "order": order}
    us = sorted(ms)
    for i, u in enumerate(us):
        yield {"m": "pairs", "us": [u, us[(i + 1) % len(us)]], "all": tier == "thorough"}
    for order in (0, 1):
        yield {"m": "work", "order": order}
        yield {"m": "unknown", "order": order}


def run(case, rec):
    set_graph(bind_graph())
    ms = model()
    with repos.scratch() as base:
        paths = repos.write_all(FOLDERS, base)
        with repos.directory_order(case.get("order", 0)):
            res = CtsCapitainsLocalResolver(paths)
        m = case["m"]
        if m == "text":
            u = case["u"]
            for i, req in enumerate(requests(u, ms[u]["text"])):
                want = observe(direct, req, ms[u])
                for form in (0, 7, 1 + i % 6):
                    got = observe(ask, res, req, form)
                    rec.check(got, want, "%r (form %d)" % (req, form))
                if want[0] == "ok" and req[0] == "node" and ms[u]["mark"] not in want[1][0]:
                    rec.violation("%r: the text of another file" % (req,))
                rec.state(req)
                rec.outcome(want)
            rec.trace()
            rec.sample(req)
        elif m == "pairs":
            reqs = [r for u in case["us"] for r in (requests(u, ms[u]["text"]) if case["all"] and len(requests(u, ms[u]["text"])) < 60 else few(requests(u, ms[u]["text"])))]
            want = {str(r): observe(direct, r, ms[r[1]]) for r in reqs}
            for a in reqs:
                # one resolver: the answers do not depend on what was asked before
                for b in reqs:
                    rec.check(observe(ask, res, a, 0), want[str(a)], "%r" % (a,))
                    rec.check(observe(ask, res, b, 2), want[str(b)], "%r after %r" % (b, a))
                    rec.state([a, b])
                if rec.violations:
                    return
                rec.trace()
        elif m == "work":
            for w in sorted({x["work"] for x in ms.values()}):
                eds = [u for u, x in ms.items() if x["work"] == w and x["kind"] == "edition"]
                for form in (0, 1):
                    for req in (["node", w, None, False], ["node", w, "1", False], ["reffs", w, 1, None], ["siblings", w, "1"]):
                        got = observe(ask, res, req, form)
                        if not eds:
                            rec.check(got, ("err", "UnknownObjectError"), "%r has no edition" % (req,))
                        else:
                            fits = [observe(direct, [req[0], e] + req[2:], ms[e]) for e in eds]
                            rec.check(got in fits, True, "%r: an edition of this work, got %r" % (req, got[1]))
                        rec.state([req, form])
            rec.trace()
        else:
            u0 = sorted(ms)[0]
            for u in (repos.NSP + "phi1.a.zz", repos.NSP + "phi1.a1.t", repos.NSP + "phi12.a.e2", repos.NSP + "phi9.a.e", "urn:cts:greekLit:phi1.a.e"):
                for req in (["node", u, None, False], ["node", u, "1", True], ["reffs", u, 1, None], ["siblings", u, "1"]):
                    rec.check(observe(ask, res, req, 0), ("err", "UnknownCollection"), "%r" % (req,))
                    rec.state(req)
            for u in (repos.NSP + "zz.a", repos.NSP + "phi1.c", repos.NSP + "phi12.a1", repos.NSP + "ph.a"):
                rec.check(observe(res.getTextualNode, u), ("err", "UnknownObjectError"), "unknown work %s" % u)
            for u in (repos.NSP + "phi1", "urn:cts:latinLit"):
                rec.check(observe(res.getTextualNode, u), ("err", "InvalidURN"), "%s is not a text" % u)
            for u in ("", "phi1"):
                rec.check(observe(res.getTextualNode, u), ("err", "ValueError"), "%r is not a URN" % u)
            rec.trace()
