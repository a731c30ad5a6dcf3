"""C18: the metadata of a node is a set of statements, edited and read one node at a time."""
import itertools
from mc.core import observe, sequences
from MyCapytain.common.constants import bind_graph, get_graph, set_graph
from MyCapytain.common.metadata import Metadata
from MyCapytain.resources.prototypes.metadata import Collection, ResourceCollection
from rdflib import Literal, RDF, RDFS, URIRef, BNode
from rdflib.namespace import DC, SKOS

PROPERTY = "C18"
BOUNDS = {"quick": "two nodes of one graph, 2 properties, 11 values (text with and without language, same text in two languages, numbers, zero, false, empty text, URI, the other node): every history of <=3 operations among add, set, remove (by property, by value, both, all) and unlink; every reading operation compared after every history; resources: every history of <=4 setter calls (label, version, type, model, language)",
          "thorough": "histories of <=4 operations (the last one from a reduced alphabet)"}
P = [DC.title, URIRef("http://example.org/ns#p")]
N = [URIRef("urn:n1"), URIRef("urn:n12")]
# value as given, language as given -> stored term
V = [("a", None, Literal("a")), ("a", "eng", Literal("a", lang="eng")), ("a", "fre", Literal("a", lang="fre")),
     (Literal("b", lang="eng"), None, Literal("b", lang="eng")), (3, None, Literal(3)), (URIRef("http://x/u"), None, URIRef("http://x/u")),
     (N[1], None, N[1]), (0, None, Literal(0)), ("", None, Literal("")), (False, None, Literal(False)),
     (Literal("c", lang="eng"), "fre", Literal("c", lang="eng"))]     # a literal keeps the language it was made with
LANGS = ["eng", "fre", "zz", "eng-x"]


def alphabet():
    ops = []
    for n in (0, 1):
        for p in (0, 1):
            for v in range(len(V)):
                if n == 1 and (v in (4, 5) or p == 1) or v > 6 and (n or p):
                    continue
                ops.append(("add", n, p, v))
                if v in (0, 1, 3, 5, 7, 10):
                    ops.append(("set", n, p, v))
        for p in (None, 0, 1):
            for v in (None, 0, 1, 6, 7, 8, 9):
                if n == 1 and v is not None or v in (7, 8, 9) and p:
                    continue
                ops.append(("remove", n, p, v))
        ops.append(("unlink", n, None, None))
    ops += [("unlink", 1, 0, None), ("unlink", 1, None, 0), ("unlink", 1, 1, 1)]
    return ops


def apply_model(s, op):
    k, n, p, v = op
    if k == "add":
        return s | {(N[n], P[p], V[v][2])}
    if k == "set":
        return {t for t in s if not (t[0] == N[n] and t[1] == P[p])} | {(N[n], P[p], V[v][2])}
    if k == "remove":
        return {t for t in s if not (t[0] == N[n] and (p is None or t[1] == P[p]) and (v is None or t[2] == V[v][2]))}
    # unlink: p is the property, v the subject
    return {t for t in s if not (t[2] == N[n] and (p is None or t[1] == P[p]) and (v is None or t[0] == N[v]))}


def apply_real(md, op):
    k, n, p, v = op
    if k in ("add", "set"):
        val, lang, _ = V[v]
        if lang is None:
            getattr(md[n], k)(P[p], val)
        else:
            getattr(md[n], k)(P[p], val, lang)
    elif k == "remove":
        md[n].remove(None if p is None else P[p], None if v is None else V[v][2])
    else:
        md[n].unlink(None if v is None else N[v], None if p is None else P[p])


def key(t):
    return (str(t), getattr(t, "language", None) or "", str(getattr(t, "datatype", None)), type(t).__name__)


def srt(it):
    return sorted(map(key, it))


def compare(md, want, rec, hist):
    g = get_graph()
    if set(g) != want:
        rec.violation("graph after %r: %r, expected %r" % (hist, sorted(set(g)), sorted(want)))
        return False
    for n in (0, 1):
        for p in P:
            vals = [t[2] for t in want if t[0] == N[n] and t[1] == p]
            m = md[n]
            rec.check(srt(m.get(p)), srt(vals), "get after %r" % (hist,))
            rec.check(srt(m[p]), srt(vals), "[property] after %r" % (hist,))
            one = m.get_single(p)
            rec.check(one in vals if vals else one is None, True, "get_single after %r" % (hist,))
            rec.check(m.get_single(str(p)) == one, True, "get_single by text")
            for lang in LANGS:
                inl = [x for x in vals if getattr(x, "language", None) == lang]
                rec.check(srt(m.get(p, lang)), srt(inl), "get in %s after %r" % (lang, hist))
                for one in (m.get_single(p, lang), m[p, lang]):
                    ok = one in inl if inl else (one in vals if vals else one is None)
                    rec.check(ok, True, "single value in %s after %r is %r" % (lang, hist, one))
    return not rec.violations


def res_ops():
    return [("label", "en", "x"), ("label", "en-gb", "v"), ("label", "eng", "x"), ("label", "fre", "y"), ("label", "eng", "z"), ("version", "1"), ("version", 2), ("type", "http://t/1"),
            ("type", URIRef("http://t/2")), ("model", "http://m/1"), ("lang", "lat"), ("lang", "grc"), ("creator", "fre"), ("title", "eng"),
            ("description", "eng"), ("subject", "fre"), ("other",)]


def cases(tier):
    for op in alphabet():
        yield {"h": [op], "depth": 3 if tier == "quick" else 4}
    ops = res_ops()
    for i in range(len(ops)):
        yield {"r": i, "depth": 3 if tier == "quick" else 4}
    yield {"getor": 1}


def run(case, rec):
    if "h" in case:
        ab = alphabet()
        red = [o for o in ab if o[1] == 0 and o[2] in (None, 0)]
        for d in range(case["depth"]):
            for rest in itertools.product(*([ab] * min(d, 2) + [red] * max(0, d - 2))):
                hist = [tuple(case["h"][0])] + list(rest)
                set_graph(bind_graph())
                md = [Metadata(node=n) for n in N]
                want = set()
                for op in hist:
                    apply_real(md, op)
                    want = apply_model(want, op)
                rec.state([sorted(map(str, t)) + [str(key(t[2]))] for t in sorted(want)])
                rec.trace()
                if not compare(md, want, rec, hist):
                    return
        rec.sample(case["h"])
    elif "r" in case:
        ops = res_ops()
        for d in range(case["depth"]):
            for rest in itertools.product(range(len(ops)), repeat=d):
                hist = [ops[case["r"]]] + [ops[i] for i in rest]
                set_graph(bind_graph())
                o, other = ResourceCollection("urn:r"), ResourceCollection("urn:r2")
                st = {"labels": set(), "version": None, "type": str(o.TYPE_URI), "model": str(o.MODEL_URI), "lang": None, "dc": {}}
                for op in hist:
                    if op[0] == "label":
                        o.set_label(op[2], op[1])
                        st["labels"].add((op[2], op[1]))
                    elif op[0] in ("version", "type", "model", "lang"):
                        setattr(o, op[0], op[1])
                        st[op[0]] = str(op[1])
                    elif op[0] == "other":
                        other.set_label("w", "ger")
                        other.version, other.type, other.model, other.lang = "9", "http://t/9", "http://m/9", "ger"
                        other.metadata.add(DC.title, "other title", "ger")
                    else:
                        o.metadata.add(getattr(DC, op[0]), op[0] + op[1], op[1])
                        st["dc"][op[0]] = (op[0] + op[1], op[1])
                rec.check(sorted((str(x), x.language) for x in o.graph.objects(o.asNode(), RDFS.label)), sorted(st["labels"]), "labels %r" % hist)
                rec.check(sorted((str(x), x.language) for x in o.metadata[SKOS.prefLabel]), sorted(st["labels"]), "prefLabel %r" % hist)
                for lang in (None, "en", "en-gb", "eng", "fre", "zz"):
                    x = o.get_label(lang)
                    got = None if x is None else (str(x), x.language)
                    fit = {l for l in st["labels"] if l[1] == lang} or st["labels"] or {None}
                    rec.check(got in fit, True, "get_label(%s) %r is %r" % (lang, hist, got))
                rec.check((None if o.version is None else str(o.version), str(o.type), str(o.model)),
                          (st["version"], st["type"], st["model"]), "version, type, model %r" % hist)
                if st["lang"]:
                    rec.check(o.lang, st["lang"], "language %r" % hist)
                for f in ("creator", "title", "description", "subject"):
                    for lang in (None, "eng", "fre"):
                        x = getattr(o, "get_" + f)(lang)
                        rec.check(None if x is None else (str(x), x.language), st["dc"].get(f), "get_%s(%s) %r" % (f, lang, hist))
                rec.state(["res", repr(sorted(st["labels"])), repr(st)])
                rec.trace()
                if rec.violations:
                    return
    else:
        set_graph(bind_graph())
        a = Metadata(node=N[0])
        a.add(P[0], N[1])
        rec.check(Metadata.getOr(N[0], P[0]).asNode(), N[1], "getOr of a known node")
        rec.check(Metadata.getOr(N[0], P[1], node=N[0]).asNode(), N[0], "getOr of an unknown node")
        b, c = Metadata(), Metadata()
        rec.check(isinstance(b.asNode(), BNode) and b.asNode() != c.asNode(), True, "anonymous nodes are distinct")
        rec.state("getor")
