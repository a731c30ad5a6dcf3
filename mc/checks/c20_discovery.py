"""C20: a local resolver finds exactly what its folders declare."""
import itertools
import os
from mc import docs, repos
from mc.core import observe
from MyCapytain.common.constants import Mimetypes, bind_graph, set_graph
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver

PROPERTY = "C20"
BOUNDS = {"quick": "real directories: every list of <=3 texts in one work x 4 states of their file (present, missing, without refsDecl, ill-formed); every pair of 25 one-folder repositories (2 works x subsets of 2 texts) of the same textgroup and of two textgroups whose names share a prefix, in both orders of the folders; every single unreadable __cts__.xml with and without tolerance; directories that are not texts; 10 names of textgroups, works and texts in repositories at 13 kinds of path; the operating system listing directories in ascending and descending order",
          "thorough": "lists of <=4 texts; every triple of 9 one-folder repositories"}
KINDS = ["edition", "translation", "commentary"]
STATUS = ["ok", "missing", "norefs", "badxml"]


class Quiet(object):
    """counts the errors logged"""
    def __init__(self):
        self.errors = 0

    def error(self, *a):
        self.errors += 1

    def info(self, *a):
        pass
    warning = debug = info


class Tolerant(CtsCapitainsLocalResolver):
    RAISE_ON_GENERIC_PARSING_ERROR = False


# names of folders: textgroups, works, texts, and where the repository lies (%d: which one)
NAMES = ["a", "A", "Zeno", "1", "0b", "tlg-0001", "x_y", "\u00e9t\u00e9", "a-b_C1", "_"]
PATHS = ["repo%d", "with space %d", "[old] texts %d", "star*%d", "what?%d", "a/b/../c%d", ".hidden%d", "\u00e9%d", "{x}%d", "repo%d/", "data%d", "./%d", "relative%d"]


def text(i, kind, status, mark, lang="eng"):
    return [["v0", "V1-Lat", "v_2", "v3"][i], kind, None if kind == "edition" else lang, status, mark, 1 + i % 3]


def folder(conf, mark, tg="phi1"):
    works = {}
    for i, texts in enumerate(conf):
        if texts is not None:
            works[["a", "a1"][i]] = {"texts": [text(k, KINDS[k], "ok", mark) for k in texts]}
    return {tg: {"works": works}}


def confs():
    subs = [[], [0], [1], [0, 1]]
    return [list(c) for c in itertools.product([None] + subs, repeat=2)]


def cases(tier):
    n = 3 if tier == "quick" else 4
    for k in range(n + 1):
        for c in itertools.product(STATUS, repeat=k):
            for shift in range(3 if k < 3 else 1):
                yield {"m": "status", "s": list(c), "shift": shift, "order": (k + shift) % 2}
    cs = confs()
    for i, a in enumerate(cs):
        for j, b in enumerate(cs):
            yield {"m": "two", "a": a, "b": b, "order": (i + j) % 2}
            yield {"m": "prefix", "a": a, "b": b, "order": (i + j + 1) % 2}
    for where in PATHS:
        for tg in NAMES if where == PATHS[0] or tier != "quick" else NAMES[1:4]:
            for shift in range(0, len(NAMES), 1 if tier != "quick" else 3):
                yield {"m": "names", "at": where, "tg": tg, "shift": shift, "order": shift % 2}
    if tier == "thorough":
        few = [c for c in cs if None not in c and [1] not in c]
        for a, b, c in itertools.product(few, repeat=3):
            yield {"m": "three", "a": a, "b": b, "c": c, "order": 0}
    for order in (0, 1):
        for where in range(6):
            for tol in (False, True):
                for kind in repos.BROKEN if where % 3 else [k for k in repos.BROKEN if not k.startswith("half")]:
                    yield {"m": "broken", "where": where, "tol": tol, "order": order, "kind": kind}
        yield {"m": "clutter", "order": order}


def tree(inv):
    """everything below the collection of inventories"""
    out = {}
    for d in inv.descendants:
        out.setdefault(d.id, []).append([type(d).__name__, d.parent.id if d.parent is not None else None, [p.id for p in d.parents]])
    return out


def want_tree(folders, model, tg_ids, wk_ids):
    out = {"default": [["XmlCtsTextInventoryMetadata", "defaultTic", ["defaultTic"]]]}
    for t in tg_ids:
        out[t] = [["XmlCtsTextgroupMetadata", "default", ["default", "defaultTic"]]]
    for w in wk_ids:
        tg = w.rsplit(".", 1)[0]
        out[w] = [["XmlCtsWorkMetadata", tg, [tg, "default", "defaultTic"]]]
    for u, m in model.items():
        out[u] = [["XmlCts%sMetadata" % m["kind"].capitalize(), m["work"], [m["work"], m["tg"], "default", "defaultTic"]]]
    return out


def declared(folders):
    tg, wk = [], []
    for f in folders:
        for t, d in f.items():
            if d.get("broken"):
                continue
            tg.append(repos.NSP + t)
            wk += ["%s%s.%s" % (repos.NSP, t, w) for w, x in d["works"].items() if not x.get("broken")]
    return sorted(set(tg)), sorted(set(wk))


def norm(s):
    return s.replace("'", '"') if s else s


def compare(resolver, folders, paths, rec, what):
    model = repos.model(folders, paths)
    tgs, wks = declared(folders)
    rec.check(tree(resolver.inventory), want_tree(folders, model, tgs, wks), what + ": the tree")
    rec.check(sorted(t.id for t in resolver.texts), sorted(model), what + ": the texts")
    rec.check(sorted(t.id for t in resolver.getMetadata().readableDescendants), sorted(model), what + ": getMetadata()")
    for t in resolver.texts:
        m = model.get(t.id)
        if m is None:
            continue
        rec.check(os.path.normpath(t.path), os.path.normpath(m["path"]), what + ": path of %s" % t.id)
        rec.check((t.lang, str(t.get_label("eng")), str(t.get_description("fre"))),
                  (m["lang"], "Text " + m["text"][0], "Desc " + m["text"][0]), what + ": metadata of %s" % t.id)
        if m["ok"]:
            spec = repos.spec_of(m["text"])
            if not rec.check(t.citation is not None, True, what + ": %s has a citation scheme" % t.id):
                continue
            rec.check([(c.name, norm(c.refsDecl)) for c in t.citation], list(zip(docs.names(spec), map(norm, docs.decls(spec)))), what + ": scheme of %s" % t.id)
            p = resolver.getTextualNode(t.id)
            rec.check(p.export(Mimetypes.PLAINTEXT).split().count(m["mark"]), len(docs.Model(spec).leaves()), what + ": content of %s" % t.id)
        else:
            rec.check(t.citation is None, True, what + ": %s has no citation scheme" % t.id)
            r = observe(resolver.getTextualNode, t.id)
            rec.check(r[0], "err", what + ": %s cannot be read" % t.id)
        rec.outcome([t.id, m["ok"], m["mark"]])
    ok = sorted(u for u, m in model.items() if m["ok"])
    matches, page, count = resolver.__getTextMetadata__()
    rec.check((sorted(t.id for t in matches), count), (ok, len(ok)), what + ": the texts that can be cited")


def run(case, rec):
    set_graph(bind_graph())
    m = case["m"]
    tol, broken = CtsCapitainsLocalResolver, False
    if m == "status":
        folders = [{"phi1": {"works": {"a": {"texts": [text(i, KINDS[(i + case["shift"]) % 3], s, "one") for i, s in enumerate(case["s"])]}}}}]
    elif m in ("two", "prefix"):
        folders = [folder(case["a"], "one"), folder(case["b"], "two", "phi1" if m == "two" else "phi12")]
    elif m == "three":
        folders = [folder(case["a"], "one"), folder(case["b"], "two"), folder(case["c"], "three")]
    elif m == "names":
        names = NAMES[case["shift"]:] + NAMES[:case["shift"]]
        folders = [{case["tg"]: {"works": {w: {"texts": [[names[k - 1] if k else "v", KINDS[k], None if k == 0 else "eng", "ok", "one", 1 + k] for k in range(3)]}
                                           for w in names[3:7]}}},
                   {names[0]: {"works": {w: {"texts": [["v", "edition", None, "ok", "two", 1]]} for w in names[:3]}}}]
    elif m == "broken":
        folders = [folder([[0, 1], [0]], "one"), folder([[0], [1]], "two", "phi12")]
        w = case["where"]
        f, tg = (folders[0], "phi1") if w < 3 else (folders[1], "phi12")
        if w % 3 == 0:
            f[tg]["broken"] = case["kind"]
        else:
            f[tg]["works"][["a", "a1"][w % 3 - 1]]["broken"] = case["kind"]
        broken = True
        if case["tol"]:
            tol = Tolerant
    else:
        folders = [folder([[0, 1], [0]], "one")]
    with repos.scratch() as base:
        paths = repos.write_all(folders, base, case.get("at", "repo%d"))
        if case.get("at", "").startswith("relative"):
            paths = [os.path.relpath(p) for p in paths]
        if m == "clutter":
            d = os.path.join(paths[0], "data")
            os.makedirs(os.path.join(d, "empty"))
            os.makedirs(os.path.join(d, "phi1", "b", "deep"))
            os.makedirs(os.path.join(paths[0], "other", "phi3"))
            for p, s in ((("data", "README.md"), "x"), (("data", "phi1", "a", "phi1.a.v9.xml"), "<TEI/>"), (("data", "phi1", "b", "deep", "__cts__.xml"), "<x/>"),
                         (("other", "phi3", "__cts__.xml"), repos.group_xml("phi3")), (("data", "__cts__.xml"), "<x/>"), (("__cts__.xml",), "<x/>")):
                with open(os.path.join(paths[0], *p), "w") as f:
                    f.write(s)
            paths.append(os.path.join(base, "nowhere"))
            folders.append({})
        log = Quiet()
        with repos.directory_order(case["order"]):
            got = observe(tol, paths, logger=log)
        rec.state(case)
        rec.trace()
        if broken and not case["tol"]:
            rec.check(got[0], "err", "an unreadable inventory file is reported")
            return
        if got[0] != "ok":
            rec.violation("building the resolver: %r" % (got,))
            return
        compare(got[1], folders, paths, rec, str(m))
        if broken or any(s != "ok" for s in case.get("s", [])):
            rec.check(log.errors > 0, True, "what could not be read is logged")
    rec.sample(case)
