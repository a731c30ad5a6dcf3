"""C30: what a CTS retriever asks the server, and what it makes of the answer."""
import itertools
from mc.core import observe
from mc.http import charsets, network
from MyCapytain.common.constants import bind_graph, set_graph
from MyCapytain.common.reference import CtsReference, URN
from MyCapytain.retrievers.cts5 import HttpCtsRetriever

PROPERTY = "C30"
BOUNDS = {"quick": "every CTS request x 5 URNs (as text and object) x inventory absent, of the retriever, given, both x level 0 to 3 or none x context x 10 references (single, range, subreference) for the common methods; every order of 2 requests; 12 statuses; 5 character encodings told by 4 forms of header, a byte order mark, 4 forms of XML declaration or nothing, x 8 media types",
          "thorough": "every order of 3 requests"}
END = "http://a.org:81/rest/cts"
URNS = ["urn:cts:latinLit:phi1294", "urn:cts:latinLit:phi1294.phi002.perseus-lat2", "urn:cts:latinLit:phi1294.phi002.perseus-lat2:1.pr",
        "urn:cts:latinLit:phi1294.phi002.perseus-lat2:1.2@a b[1]-1.3", "urn:cts:greekLit:tlg0012.tlg001:1"]
REFS = [None, "1", "1.1", "1.pr.2", "1.1-1.3", "1-2.3", "1.2@lux[2]", "1.a&b", "1.ä", "2.1-2"]
STATUS = [200, 201, 304, 400, 401, 403, 404, 410, 429, 500, 502, 503]


def depth(r):
    return min(p.split("@")[0].count(".") + 1 for p in r.split("-"))


def asref(r, how):
    return r if r is None or how == "text" else CtsReference(r)


def queries():
    """(method, positional arguments, keywords, expected parameters without inv); ref objects are ('ref', text)"""
    out = []
    for inv in (None, "given", "a b&c"):
        i = {} if inv is None else {"inventory": inv}
        e = {} if inv is None else {"inv": inv}
        out.append(("getCapabilities", (), i, dict(e, request="GetCapabilities")))
        for u in URNS:
            for obj in (False, True):
                urn = ("urn", u) if obj else u
                for m in ("getFirstUrn", "getPrevNextUrn", "getLabel"):
                    out.append((m, (urn,), i, dict(e, request="G" + m[1:], urn=u)))
                out.append(("getCapabilities", (), dict(i, urn=urn), dict(e, request="GetCapabilities", urn=u)))
                for level in (None, 0, 1, 3):
                    out.append(("getValidReff", (urn,), dict(i, **({} if level is None else {"level": level})),
                                dict(e, request="GetValidReff", urn=u, **({} if level is None else {"level": str(level)}))))
                for m in ("getPassage", "getPassagePlus"):
                    for ctx in (None, 0, 2):
                        out.append((m, (urn,), dict(i, **({} if ctx is None else {"context": ctx})),
                                    dict(e, request="G" + m[1:], urn=u, **({} if ctx is None else {"context": str(ctx)}))))
        for u in [None] + URNS:
            f = {} if inv is None else {"inventory": inv}
            out.append(("getMetadata", (u,), f, dict(e, request="GetCapabilities", **({} if u is None else {"urn": u}))))
    u = URNS[1]
    for r in REFS:
        full = u if r is None else "%s:%s" % (u, r)
        for how in ("text", "object"):
            ref = r if r is None or how == "text" else ("ref", r)
            for pn, md in itertools.product((False, True), repeat=2):
                out.append(("getTextualNode", (u,), {"subreference": ref, "prevnext": pn, "metadata": md},
                            {"request": "GetPassagePlus" if pn or md else "GetPassage", "urn": full}))
            if r is not None:
                out.append(("getSiblings", (u, ref), {}, {"request": "GetPrevNextUrn", "urn": full}))
            for level in (None, 1, 2, 3):
                want = {"request": "GetValidReff", "urn": full}
                if level is not None:
                    want["level"] = str(level + (depth(r) if r else 0))
                out.append(("getReffs", (u,), {"level": level, "subreference": ref}, want))
            out.append(("getReffs", (u,), {"subreference": ref}, {"request": "GetValidReff", "urn": full, "level": str(1 + (depth(r) if r else 0))}))
    return out


def real(x):
    if isinstance(x, tuple):
        return URN(x[1]) if x[0] == "urn" else CtsReference(x[1])
    return x


def call(r, q):
    return getattr(r, q[0])(*map(real, q[1]), **{k: real(v) for k, v in q[2].items()})


def cases(tier):
    for default in (None, "dflt", "é"):
        for k in range(8):
            yield {"m": "product", "default": default, "part": k}
        yield {"m": "history", "default": default, "len": 2 if tier == "quick" else 3}
    yield {"m": "status"}
    yield {"m": "charset"}


def checkreq(rec, req, q, default, what):
    want = dict(q[3])
    if default is not None:
        want.setdefault("inv", default)
    rec.check((req.method, req.where), ("GET", END), what + ": where")
    rec.check(req.args, sorted(want.items()), what)


def run(case, rec):
    set_graph(bind_graph())
    m = case["m"]
    body = "<GetX>é</GetX>".encode("utf-8")
    ok = lambda req: (200, {"Content-Type": "application/xml"}, body)
    if m == "product":
        with network(ok) as log:
            r = HttpCtsRetriever(END) if case["default"] is None else HttpCtsRetriever(END, inventory=case["default"])
            for q in queries()[case["part"]::8]:
                del log[:]
                got = observe(call, r, q)
                what = "%s%r %r" % q[:3]
                rec.check(got, ("ok", "<GetX>é</GetX>"), what + ": answer")
                rec.check(len(log), 1, what + ": one request")
                if log:
                    checkreq(rec, log[0], q, case["default"], what)
                rec.state([case["default"], q[:3]])
                rec.outcome(q[3]["request"])
            rec.trace()
        rec.sample(case)
    elif m == "history":
        qs = queries()
        some = qs[::len(qs) // (25 if case["len"] == 2 else 14)]
        for seq in itertools.product(some, repeat=case["len"]):
            with network(ok) as log:
                r = HttpCtsRetriever(END, case["default"])
                for q in seq:
                    call(r, q)
                rec.check(len(log), len(seq), "requests made")
                for req, q in zip(log, seq):
                    checkreq(rec, req, q, case["default"], "%s after others" % q[0])
            rec.state([case["default"], [q[:3] for q in seq]])
            rec.trace()
    elif m == "status":
        some = {q[0]: q for q in queries()}
        for s in STATUS:
            for q in some.values():
                with network(lambda req: (s, {"Content-Type": "application/xml"}, body)):
                    got = observe(call, HttpCtsRetriever(END), q)
                rec.check(got, ("err", "HTTPError") if s >= 400 else ("ok", "<GetX>é</GetX>"), "%s answered with %d" % (q[0], s))
                rec.state([s, q[0]])
        rec.trace()
    else:
        for headers, data, text in charsets():
            with network(lambda req: (200, headers, data)):
                got = observe(lambda: HttpCtsRetriever(END).getLabel("urn:x").lstrip("\ufeff"))
            rec.check(got, ("ok", text), "%r served as %r" % (data, headers))
            rec.state([headers, text, len(data)])
        rec.trace()
