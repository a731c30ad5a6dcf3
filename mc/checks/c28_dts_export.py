"""C28: a DTS collection document read, exported and read back."""
import itertools
import json
from mc.core import observe
from MyCapytain.common.constants import Mimetypes, bind_graph, set_graph
from MyCapytain.resources.collections.dts import DtsCollection
from rdflib import Literal, URIRef

PROPERTY = "C28"
BOUNDS = {"quick": "metadata: every pair of 2 value sets out of 16 (texts, languages, numbers, booleans, dates and other datatypes, URIs) on Dublin Core and extension properties (6 properties, 4 vocabularies), 3 forms of the same document; description: 2 types x 4 titles x 4 descriptions x 3 totals x 4 lists of members x 3 forms, as children and as parents; every order of reading (3 of 5 documents that name each other) before exporting each; citation trees of up to 4 levels in all, 3 depths",
          "thorough": "every combination of 3 value sets out of 16; every order of 4 of 5 documents; citation trees of up to 5 levels"}
HYDRA, DTS, DCT, EX, DEX, DC11 = ("https://www.w3.org/ns/hydra/core#", "https://w3id.org/dts/api#", "http://purl.org/dc/terms/", "http://ex.org/",
                                  "http://ex.org/deep#", "http://purl.org/dc/elements/1.1/")
XSD = "http://www.w3.org/2001/XMLSchema#"
SKOS = "http://www.w3.org/2004/02/skos/core#"
FULL = {"": HYDRA, "dts": DTS, "dc": DCT, "ex": EX, "dx": DEX, "el": DC11}
PARENTS_TEXT = "A & \"B\" <c>"

# (container, property, values); a value is int/str/bool/float, ("lang", text, code) or ("id", uri)
VALUES = [
    ("dc", "dc:creator", [("lang", "Cicéron", "fre"), ("lang", "Cicero", "lat")]),
    ("dc", "dc:creator", [("lang", "Cicero", "eng")]),
    ("dc", "dc:creator", ["Cicero"]),
    ("dc", "dc:date", [1879]),
    ("dc", "dc:date", [0, -43]),
    ("dc", "dc:relation", [("id", "http://z.org/r?a=b&c")]),
    ("dc", "dc:relation", [("id", "urn:m"), "urn:m"]),
    ("dc", "dc:type", ["a", "b", ("lang", "a", "eng"), 3]),
    ("ex", "ex:creator", [("lang", "other", "eng"), "other"]),
    ("ex", "dx:creator", [("id", "urn:a")]),
    ("ex", "el:creator", [("lang", "P", "gre"), ("lang", "P", "eng")]),
    ("ex", "el:creator", [1.5, True]),
    ("ex", "ex:other", ["", "  two\nlines ", "1"]),
    ("ex", "ex:other", [PARENTS_TEXT]),
    ("dc", "dc:date", [("type", "1999", XSD + "gYear"), "1999"]),
    ("ex", "dx:creator", [("type", "1999-01-02", XSD + "date"), ("type", "3 < 4", EX + "unit")]),
]
MEMBERS = [[], [("urn:m", "Resource", "M", 0, None)], [("urn:n", "Collection", "N & n", 3, "d"), ("urn:m", "Resource", "M", 0, None)],
           [("http://h.org/c?id=1", "Collection", "1", 0, "é"), ("urn:n", "Collection", "N", 0, None), ("urn:b", "Resource", "same", 1, "d")]]
TITLES = ["Title", PARENTS_TEXT, "1", "Ἰλιάς"]
DESCRIPTIONS = [None, "about", PARENTS_TEXT, "Title"]
FORMS = ["prefix", "full", "lists"]


def name(k, form):
    p, _, n = k.rpartition(":")
    return FULL[p] + n if form == "full" else k


def value(v, form):
    if isinstance(v, tuple):
        if v[0] == "type":
            return {"@value": v[1], "@type": v[2].replace(EX, "ex:") if form == "prefix" else v[2]}
        v = {"@value": v[1], "@language": v[2]} if v[0] == "lang" else {"@id": v[1]}
    elif form == "lists":
        v = {"@value": v}
    return v


def many(vs, form):
    vs = [value(v, form) for v in vs]
    return vs if len(vs) != 1 or form == "lists" else vs[0]


def one(v, form):
    return [{"@value": v}] if form == "lists" else v


def base(m, form):
    i, t, title, total, desc = m
    o = {"@id": i, "@type": name(t, form) if form != "lists" else [t], name("title", form): one(title, form), name("totalItems", form): one(total, form)}
    if desc is not None:
        o[name("description", form)] = one(desc, form)
    return o


def tree(t, form):
    out = []
    for label, below in t:
        o = {name("dts:citeType", form): one(label, form)}
        if below:
            o[name("dts:citeStructure", form)] = tree(below, form)
        out.append(o)
    return out


def document(spec, form):
    """the JSON-LD of a model collection, in one of the equivalent forms"""
    o = {}
    if form != "full":
        o["@context"] = {("@vocab" if not p else p): u for p, u in FULL.items()}
    o.update(base(spec["base"], form))
    dc, ex = {}, {}
    for c, p, vs in spec["meta"]:
        box = dc if c == "dc" else ex
        box.setdefault(name(p, form), []).extend(many(vs, form) if isinstance(many(vs, form), list) else [many(vs, form)])
    for k, box in (("dts:dublincore", dc), ("dts:extensions", ex)):
        if box:
            o[name(k, form)] = {p: v[0] if len(v) == 1 and form == "prefix" else v for p, v in box.items()} if form != "lists" else [box]
    if spec["members"]:
        o[name("member", form)] = [base(m, form) for m in spec["members"]]
    if spec.get("depth"):
        o[name("dts:citeDepth", form)] = one(spec["depth"], form)
    if spec.get("cite"):
        o[name("dts:citeStructure", form)] = tree(spec["cite"], form)
    return o


def norm(v):
    if isinstance(v, tuple):
        return v if v[0] in ("lang", "type") else ("id", v[1])
    return (type(v).__name__, v)


def statement(o):
    """an object of the graph as a model value"""
    if isinstance(o, Literal):
        if o.datatype and str(o.datatype).split("#")[-1] not in ("string", "integer", "double", "float", "boolean"):
            return ("type", str(o), str(o.datatype))
        return ("lang", str(o), o.language) if o.language else (type(o.toPython()).__name__, o.toPython())
    return ("id", str(o))


def wanted_meta(spec):
    out = {}
    for c, p, vs in spec["meta"]:
        out.setdefault(name(p, "full"), set()).update(norm(v) for v in vs)
    return {p: sorted(v, key=repr) for p, v in out.items()}


def cite_model(t):
    return [(label, cite_model(below)) for label, below in t]


def cite_seen(c):
    return [(x.name, cite_seen(x)) for x in c.children]


def levels(t):
    return 1 + max(levels(b) for _, b in t) if t else 0


def seen(c):
    """what a reader of the collection sees"""
    meta = {}
    for p in {name(p, "full") for _, p, _ in VALUES} | {EX + "seeAlso"}:
        vs = sorted((statement(o) for o in c.metadata.get(URIRef(p))), key=repr)
        if vs:
            meta[p] = vs
    return {"id": c.id, "type": str(c.type), "readable": c.readable, "title": str(c.get_label()), "size": c.size,
            "descriptions": [str(x) for x in c.metadata.get(URIRef(HYDRA + "description"))], "meta": meta,
            "depth": c.citation.depth, "cite": cite_seen(c.citation)}


def wanted(spec):
    i, t, title, total, desc = spec["base"]
    return {"id": i, "type": HYDRA + t, "readable": t == "Resource", "title": title, "size": total, "descriptions": [] if desc is None else [desc],
            "meta": wanted_meta(spec), "depth": spec.get("depth") or levels(spec.get("cite") or []), "cite": cite_model(spec.get("cite") or [])}


def basis(m):
    return {"id": m.id, "type": str(m.type), "title": str(m.get_label()), "size": m.size,
            "descriptions": [str(x) for x in m.metadata.get(URIRef(HYDRA + "description"))]}


def basis_wanted(m):
    w = wanted({"base": m, "meta": []})
    return {k: w[k] for k in ("id", "type", "title", "size", "descriptions")}


# ------------------------------------------------ an independent reader of the exported JSON-LD

def expand(k, ctx):
    if ":" in k and k.split(":")[0] in ctx:
        return ctx[k.split(":", 1)[0]] + k.split(":", 1)[1]
    return k if ":" in k or k.startswith("@") else ctx["@vocab"] + k


def items(v):
    return v if isinstance(v, list) else [v]


def plain(v):
    if isinstance(v, dict):
        if "@id" in v:
            return ("id", v["@id"])
        if "@type" in v:
            return ("type", v["@value"], v["@type"])
        return ("lang", v["@value"], v["@language"]) if "@language" in v else (type(v["@value"]).__name__, v["@value"])
    return (type(v).__name__, v)


def read(o, ctx):
    out = {}
    for k, v in o.items():
        if k == "@context":
            continue
        k = expand(k, ctx)
        assert k not in out, "%s given twice" % k
        out[k] = v
    return out


def read_base(o, ctx, extra=()):
    d = read(o, ctx)
    w = {"id": d.pop("@id"), "type": expand(d.pop("@type"), ctx), "title": d.pop(HYDRA + "title"), "size": d.pop(HYDRA + "totalItems"),
         "descriptions": [d.pop(HYDRA + "description")] if HYDRA + "description" in d else []}
    return w, d


def read_tree(o, ctx):
    out = []
    for x in items(o):
        d = read(x, ctx)
        out.append((d.pop(DTS + "citeType"), read_tree(d.pop(DTS + "citeStructure", []), ctx)))
        assert not d, d
    return out


def exported(o):
    """the exported document, read without the library"""
    ctx = o["@context"]
    assert ctx["@vocab"] == HYDRA
    w, d = read_base(o, ctx)
    meta = {}
    for key in ("dublincore", "extensions"):
        box = read(d.pop(DTS + key, {}), ctx)
        for p, vs in box.items():
            assert (p.startswith(DCT)) == (key == "dublincore"), "%s in %s" % (p, key)
            meta[p] = sorted((plain(v) for v in items(vs)), key=repr)
    label = meta.pop(SKOS + "prefLabel", None)
    assert label in (None, [("str", w["title"])]), label
    w["meta"] = meta
    w["members"] = []
    for m in items(d.pop(HYDRA + "member", [])):
        mw, rest = read_base(m, ctx)
        assert not rest, rest
        w["members"].append(mw)
    w["depth"] = d.pop(DTS + "citeDepth", 0)
    w["cite"] = read_tree(d.pop(DTS + "citeStructure", []), ctx)
    assert not d, "unknown keys %r" % list(d)
    return w


def export_wanted(spec):
    w = wanted(spec)
    w.pop("readable")
    w["members"] = [basis_wanted(m) for m in spec["members"]]
    return w


# ------------------------------------------------ the cases

A = ("urn:a", "Collection", "Title", 2, "about")
COMBOS = {"quick": 2, "thorough": 3}


def trees(n):
    """every ordered forest of n citation levels with names from two"""
    if n == 0:
        yield []
        return
    for below in range(n):
        for label in ("book", "l\"<&"):
            for a in trees(below):
                for rest in trees(n - 1 - below):
                    yield [(label, a)] + rest


LINKED = [
    {"base": ("urn:a", "Collection", "TA", 2, None), "meta": [VALUES[0], VALUES[9]], "members": [("urn:b", "Collection", "TB", 1, "b"), ("urn:n", "Resource", "TN", 0, None)]},
    {"base": ("urn:b", "Collection", "TB", 1, "b"), "meta": [VALUES[2], VALUES[5]], "members": [("urn:m", "Resource", "TM", 0, None)]},
    {"base": ("urn:m", "Resource", "TM", 0, None), "meta": [VALUES[7], VALUES[6]], "members": [], "cite": [("book", [("line", [])])]},
    {"base": ("urn:n", "Resource", "TN", 0, None), "meta": [VALUES[13]], "members": [], "depth": 4},
    {"base": ("urn:r", "Collection", "TR", 2, "r"), "meta": [("ex", "ex:seeAlso", [("id", "urn:b"), ("id", "urn:a")])], "members": [("urn:a", "Collection", "TA", 2, None), ("urn:n", "Resource", "TN", 0, None)]},
]


def cases(tier):
    for order in itertools.permutations(range(len(LINKED)), 4 if tier == "thorough" else 3):
        yield {"m": "order", "order": list(order)}
    for i in range(len(VALUES)):
        for form in FORMS:
            yield {"m": "meta", "first": i, "n": COMBOS[tier], "form": form}
    for t in ("Collection", "Resource"):
        for form in FORMS:
            for ti in range(len(TITLES)):
                yield {"m": "base", "type": t, "form": form, "title": ti}
    for n in range(0, (6 if tier == "thorough" else 5)):
        yield {"m": "cite", "n": n}


def exercise(spec, form, rec, what):
    set_graph(bind_graph())
    doc = document(spec, form)
    text = json.dumps(doc)
    c = DtsCollection.parse(doc)
    rec.check(seen(c), wanted(spec), "%s: read" % what)
    rec.check([basis(m) for m in c.members], [basis_wanted(m) for m in spec["members"]], "%s: members" % what)
    rec.check([[p.id for p in m.parents] for m in c.members], [[spec["base"][0]] for _ in spec["members"]], "%s: parents of the members" % what)
    rec.check(json.dumps(doc), text, "%s: the document given" % what)
    e = c.export(Mimetypes.JSON.DTS.Std)
    got = observe(lambda: exported(json.loads(json.dumps(e))))
    rec.check(got, ("ok", export_wanted(spec)), "%s: exported" % what)
    rec.check(seen(c), wanted(spec), "%s: after the export" % what)
    set_graph(bind_graph())
    b = DtsCollection.parse(json.loads(json.dumps(e)))
    rec.check(seen(b), wanted(spec), "%s: read back" % what)
    rec.check([basis(m) for m in b.members], [basis_wanted(m) for m in spec["members"]], "%s: members read back" % what)
    # exporting what was read back says the same again
    rec.check(observe(lambda: exported(b.export(Mimetypes.JSON.DTS.Std))), ("ok", export_wanted(spec)), "%s: exported again" % what)
    rec.state([spec, form])
    rec.outcome(got)
    rec.trace()
    return c


def run(case, rec):
    m = case["m"]
    if m == "meta":
        for more in itertools.combinations(range(case["first"] + 1, len(VALUES)), case["n"] - 1):
            for k in range(case["n"]):
                chosen = [case["first"]] + list(more[:k])
                exercise({"base": A, "meta": [VALUES[i] for i in chosen], "members": MEMBERS[2]}, case["form"], rec, "metadata %r as %s" % (chosen, case["form"]))
        exercise({"base": A, "meta": [VALUES[case["first"]]], "members": []}, case["form"], rec, "metadata %r" % case["first"])
    elif m == "base":
        for desc, total, ms in itertools.product(DESCRIPTIONS, (None, 0, 12), MEMBERS):
            if total == 0 and ms:
                continue
            total = len(ms) if total is None else total
            spec = {"base": ("urn:x:a?b=c", case["type"], TITLES[case["title"]], total, desc), "meta": [VALUES[1]], "members": ms}
            exercise(spec, case["form"], rec, "%r as %s" % (spec["base"], case["form"]))
            set_graph(bind_graph())
            p = DtsCollection.parse(document(spec, case["form"]), direction="parents")
            rec.check(seen(p), wanted(spec), "%r read with its parents" % (spec["base"],))
            rec.check(sorted([repr(basis(x)) for x in p.parents]), sorted(repr(basis_wanted(x)) for x in ms), "%r: its parents" % (spec["base"],))
            rec.check([x.id for x in p.members], [], "%r: no member" % (spec["base"],))
            rec.check([y.id for x in p.parents for y in x.parents], [], "%r: what its parents are members of is not told" % (spec["base"],))
        rec.sample(case)
    elif m == "cite":
        for t in trees(case["n"]):
            for depth in (None, 1, 7):
                for form in FORMS:
                    exercise({"base": ("urn:t", "Resource", "T", 0, None), "meta": [], "members": [], "cite": t, "depth": depth}, form, rec, "citation %r %r" % (t, depth))
    else:
        # several documents read one after the other in the same graph
        set_graph(bind_graph())
        done = []
        for n in case["order"]:
            c = DtsCollection.parse(document(LINKED[n], FORMS[n % 3]))
            done.append((n, c))
            for k, o in done:
                spec = LINKED[k]
                rec.check(observe(lambda: exported(o.export(Mimetypes.JSON.DTS.Std))), ("ok", export_wanted(spec)), "%s exported after reading %r" % (o.id, [LINKED[j]["base"][0] for j, _ in done]))
                rec.check(seen(o), wanted(spec), "%s after reading %r" % (o.id, [LINKED[j]["base"][0] for j, _ in done]))
                rec.check([basis(x) for x in o.members], [basis_wanted(x) for x in spec["members"]], "members of %s" % o.id)
        rec.state(case)
        rec.trace()
        rec.sample(case)

