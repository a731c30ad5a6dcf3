"""C22: asking a local resolver for metadata gives the right branch and changes nothing."""
import itertools
from mc import docs, repos
from mc.core import observe
from MyCapytain.common.constants import Mimetypes, bind_graph, get_graph, set_graph
from MyCapytain.common.reference import URN
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resolvers.utils import CollectionDispatcher
from MyCapytain.resources.collections.cts import XmlCtsTextInventoryMetadata
from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection
from mc.checks.c20_discovery import norm

PROPERTY = "C22"
BOUNDS = {"quick": "repositories of 3 textgroups, 5 works, 11 texts (3 of them unreadable) dispatched to 1 or 2 inventories; every identifier of the tree (and prefixes and extensions of them), the whole answer compared; every sequence of 2 requests; the inventory and the graph compared after each; the text filter: every combination of 15 identifiers (text and URN) x 4 languages x 5 categories x 7 pages",
          "thorough": "every sequence of 3 requests"}


def T(name, kind, lang, status, depth):
    return [name, kind, lang, status, "mark", depth]


FOLDERS = [
    {"phi1": {"works": {"a1": {"texts": [T("e", "edition", None, "ok", 2), T("e1", "edition", None, "missing", 1)], "lang": "grc"},
                        "a": {"texts": [T("t", "translation", "eng", "ok", 2), T("t1", "translation", "fre", "ok", 1), T("e", "edition", None, "ok", 3), T("c", "commentary", "eng", "ok", 1)]},
                        "b": {"texts": [T("t", "translation", "eng", "norefs", 1)]}}},
     "phi12": {"works": {"a": {"texts": [T("e", "edition", None, "ok", 2), T("e1", "commentary", "lat", "badxml", 2)]}}}},
    {"phi": {"works": {"a": {"texts": [T("e", "edition", None, "ok", 1), T("t", "translation", "fre", "ok", 1)], "lang": "grc"}}}},
]


def make(paths, two):
    if not two:
        return CtsCapitainsLocalResolver(paths)
    tic = CtsTextInventoryCollection("tic")
    one = XmlCtsTextInventoryMetadata("urn:one", parent=tic)
    XmlCtsTextInventoryMetadata("urn:two", parent=tic)
    d = CollectionDispatcher(tic, default_inventory_name="urn:one")

    @d.inventory("urn:two")
    def f(collection, **kw):
        return collection.id.endswith("phi12")
    return CtsCapitainsLocalResolver(paths, dispatcher=d)


def snap(o):
    kids = [snap(k) for k in o.members]
    d = [type(o).__name__, o.id, sorted((str(x.language), str(x)) for x in o.graph.objects(o.asNode(), __import__("rdflib").RDFS.label)),
         sorted(kids)]
    if o.readable:
        d += [o.lang, [(c.name, norm(c.refsDecl)) for c in o.citation] if o.citation is not None else None]
    return d


def expect(u, model):
    """expected branch: nested [type, id, labels, kids...] restricted to texts that can be read"""
    parts = u.split(":")[3].split(".")
    fit = {k: m for k, m in model.items() if m["ok"] and k.split(":")[3].split(".")[:len(parts)] == parts}
    if not fit:
        return None

    def textnode(k):
        m = fit[k]
        spec = repos.spec_of(m["text"])
        return ["XmlCts%sMetadata" % m["kind"].capitalize(), k, [("eng", "Text " + m["text"][0])], [], m["lang"],
                list(zip(docs.names(spec), map(norm, docs.decls(spec))))]

    def worknode(w):
        return ["XmlCtsWorkMetadata", w, [("eng", "Work " + w.split(".")[-1])], sorted(textnode(k) for k in fit if fit[k]["work"] == w)]

    def groupnode(t):
        return ["XmlCtsTextgroupMetadata", t, [("eng", "Group %s" % t.split(":")[-1])], sorted(worknode(w) for w in {fit[k]["work"] for k in fit if fit[k]["tg"] == t})]
    return [groupnode, worknode, textnode][len(parts) - 1](u)


def ids(model):
    out = set(model)
    for m in model.values():
        out |= {m["work"], m["tg"]}
    return sorted(out) + [repos.NSP + x for x in ("ph", "phi123", "phi1.aa", "phi1.a.e2", "phi12.a1", "phi12.a.t", "phi1.a1.t")]


def cases(tier):
    model = repos.model(FOLDERS, ["/a", "/b"])
    for two in (False, True):
        for u in ids(model):
            yield {"m": "get", "u": u, "two": two, "depth": 2 if tier == "quick" else 3}
        yield {"m": "inv", "two": two}
        for u in [None] + ids(model)[:13] + ["urn:cts:latinLit"]:
            yield {"m": "filter", "u": u, "two": two}


def run(case, rec):
    set_graph(bind_graph())
    with repos.scratch() as base:
        paths = repos.write_all(FOLDERS, base)
        res = make(paths, case["two"])
    model = repos.model(FOLDERS, paths)
    whole, graph = snap(res.inventory), set(get_graph())

    def still(what):
        rec.check(snap(res.inventory) == whole, True, what + ": the inventory is as before")
        rec.check(res.getMetadata() is res.inventory, True, what + ": the whole inventory is still served")
    if case["m"] == "get":
        u = case["u"]

        def ask(x, what, known=True):
            want = expect(x, model)
            got = observe(res.getMetadata, x)
            if want is None:
                rec.check(got, ("err", "UnknownCollection"), what)
            elif got[0] != "ok":
                rec.violation("%s: %r" % (what, got))
            else:
                o = got[1]
                rec.check(snap(o), want, what)
                parts = x.split(":")[3].split(".")
                chain = [repos.NSP + ".".join(parts[:k]) for k in range(len(parts) - 1, 0, -1)]
                inv = "default" if not case["two"] else "urn:two" if parts[0] == "phi12" else "urn:one"
                rec.check([p.id for p in o.parents], chain + [inv], what + ": ancestors")
                rec.check(len(o.readableDescendants), len(o.descendants) if len(parts) == 2 else len(o.readableDescendants), what)
                if known:
                    rec.check(set(get_graph()) == graph, True, what + ": the graph is as before")
            rec.state([case["two"], what])
            rec.outcome(want)
        others = ids(model)
        ask(u, u)
        still(u)
        for v in others:
            ask(v, "%s after %s" % (v, u), False)
            if case["depth"] > 2:
                for w in others[::2]:
                    ask(w, "%s after %s, %s" % (w, u, v), False)
        still(u)
        rec.trace()
        rec.sample(case)
    elif case["m"] == "inv":
        names = ["urn:one", "urn:two"] if case["two"] else ["default"]
        rec.check(sorted(m.id for m in res.getMetadata().members), names, "inventories")
        for n in names:
            o = res.getMetadata(n)
            mine = sorted(k for k, m in model.items() if not case["two"] or (m["tg"].endswith("phi12")) == (n == "urn:two"))
            rec.check((o.id, sorted(t.id for t in o.readableDescendants), o is res.inventory[n]), (n, mine, True), "inventory %s" % n)
            rec.state([case["two"], n])
        still("inventories")
    else:
        for lang in (None, "eng", "fre", "grc", "zz"):
            for cat in (None, "edition", "translation", "commentary", "other"):
                u = case["u"]
                parts = u.split(":")[3].split(".") if u and u.count(":") > 2 else []
                fit = sorted(k for k, m in model.items() if m["ok"] and (lang is None or m["lang"] == lang)
                             and (cat in (None, "other") or m["kind"] == cat)
                             and k.split(":")[3].split(".")[:len(parts)] == parts)
                for form in (lambda x: x, lambda x: URN(x) if x else x):
                    got, page, count = res.__getTextMetadata__(urn=form(u), lang=lang, category=cat)
                    rec.check((sorted(t.id for t in got), page, count), (fit, 0, len(fit)), "texts of %s in %s of %s" % (u, lang, cat))
                order = [t.id for t in got]
                for limit in (1, 2, 3):
                    seen = []
                    for page in range(1, len(fit) // limit + 3):
                        ts, p, count = res.__getTextMetadata__(urn=u, lang=lang, category=cat, page=page, limit=limit, pagination=True)
                        last = max(1, -(-len(fit) // limit))
                        pp = min(page, last)
                        rec.check(([t.id for t in ts], p, count), (order[(pp - 1) * limit:pp * limit], pp, len(order[(pp - 1) * limit:pp * limit])),
                                  "page %d of %d texts by %d" % (page, len(fit), limit))
                rec.state([case["two"], u, lang, cat])
                rec.outcome(fit)
        still("filters")
        rec.trace()
