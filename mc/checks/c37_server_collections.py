"""C37: the collections of a CTS server, through its resolver."""
import itertools
from mc import http
from mc.core import observe
from mc.checks import c17_inventory as inv
from MyCapytain.common.constants import bind_graph, get_graph, set_graph
from MyCapytain.common.reference import URN
from MyCapytain.resolvers.cts.api import HttpCtsResolver
from MyCapytain.retrievers.cts5 import HttpCtsRetriever

PROPERTY = "C37"
BOUNDS = {"quick": "7 inventories of <=2 textgroups x <=2 works x <=4 texts; server answering whole or restricted inventories, bare or in a reply; with and without default inventory; every sequence of <=2 questions (1 for the largest inventory and half of the server forms; nothing, every identifier as text or URN, unknown identifiers, another inventory); a failing answer (7 failures) to every question, alone and followed by the same question",
          "thorough": "every sequence of <=2 questions on every inventory and server form, <=3 on two inventories"}
END = "http://cts.example.org/api"
UNKNOWN = ["urn:cts:latinLit:phi99", "urn:cts:latinLit:phi1.zz", "urn:cts:latinLit:phi1.a.v99", "urn:cts:latinLit:phi"]
FAILS = [None, (404, b"nothing"), (500, b"<html/>"), (503, b""), (200, b"not xml <"), (200, b"<a/>"), (200, b""), ConnectionError("refused")]


def flat(n, out=None):
    out = [] if out is None else out
    for k in n["kids"]:
        out.append(k)
        flat(k, out)
    return out


def restrict(n, urn):
    """the part of an inventory a server gives for an identifier: the node, its ancestors and its descendants"""
    if n["urn"] == urn:
        return n
    kids = [x for x in (restrict(k, urn) for k in n["kids"]) if x is not None]
    return dict(n, kids=kids) if kids else None


class Server(object):
    def __init__(self, inventories, default, mode, reply):
        self.inventories, self.default, self.mode, self.reply = inventories, default, mode, reply
        self.count, self.fail = 0, {}

    def content(self, name, urn):
        tree = self.inventories.get(name or "main")
        if urn is not None and self.mode == "restricted":
            tree = restrict(tree, urn) or dict(tree, kids=[])
        return tree

    def __call__(self, req):
        i, self.count = self.count, self.count + 1
        if self.fail.get(i):
            f = self.fail[i]
            return f if isinstance(f, BaseException) else (f[0], {"Content-Type": "text/xml; charset=utf-8"}, f[1])
        a = dict(req.args)
        if req.where != END or a.get("request") != "GetCapabilities" or a.get("inv", "main") not in self.inventories:
            return 404, {}, b"bad request"
        xml = inv.to_xml(self.content(a.get("inv"), a.get("urn")))
        if self.reply:
            xml = '<CTS:GetCapabilities xmlns:CTS="http://chs.harvard.edu/xmlns/cts"><CTS:request><CTS:requestName>GetCapabilities</CTS:requestName></CTS:request><CTS:reply>%s</CTS:reply></CTS:GetCapabilities>' % xml
        if self.reply == 2:
            xml = '<?xml version="1.0" encoding="UTF-8"?>\n' + xml
        return 200, {"Content-Type": "text/xml; charset=utf-8"}, xml.encode("utf-8")


def inventories():
    W = inv.workspec
    u = inv.U
    out = []
    for tgs in ([], [[0]], [[4]], [[6, 1]], [[3], [5]], [[7, 0], [2, 6]], [[]]):
        n = inv.node("inv", ["main", "urn:inv", ""][len(tgs)], labels=[])
        for i, ws in enumerate(tgs):
            t = inv.node("tg", u + ["phi1", "phi12"][i], labels=[("eng", "Épi & Ἰλιάς %d" % i), ("lat", "H")])
            for j, k in enumerate(ws):
                t["kids"].append(W(t["urn"] + [".a", ".a1"][j], inv.LISTS[k]))
            n["kids"].append(t)
        out.append(n)
    return out


OTHER = inv.node("inv", "other", labels=[])
OTHER["kids"].append(inv.node("tg", "urn:cts:greekLit:tlg1", labels=[("eng", "Other")]))


def questions(tree):
    ids = [n["urn"] for n in flat(tree)] + UNKNOWN
    return [(None, "none", None)] + [(i, form, None) for i in ids for form in ("text", "urn")] + [(None, "none", "other"), ("urn:cts:greekLit:tlg1", "text", "other")] + [(ids[0], "text", "other")]


def cases(tier):
    for i, tree in sorted(enumerate(inventories()), key=lambda x: -len(flat(x[1]))):
        for mode in ("whole", "restricted"):
            for reply in (0, 1, 2):
                for default in (None, "main"):
                    for q in range(len(questions(tree))):
                        yield {"tree": i, "mode": mode, "reply": reply, "default": default, "q": q, "n": depth(tier, i, reply, default)}


def depth(tier, tree, reply, default):
    if tier == "thorough":
        return 3 if tree in (1, 4) else 2
    return 2 if (reply == 2) == (default is not None) and reply != 1 and tree != 5 else 1


def ask(r, q):
    i, form, other = q
    kw = {"inventory": other} if other else {}
    if i is None:
        return r.getMetadata(**kw)
    return r.getMetadata(URN(i) if form == "urn" else i, **kw)


def run(case, rec):
    tree = inventories()[case["tree"]]
    trees = {"main": tree, "other": OTHER}
    qs = questions(tree)
    for n in range(1, case["n"] + 1):
        for rest in itertools.product(qs, repeat=n - 1):
            hist = [qs[case["q"]]] + list(rest)
            for bad in [None] + [(p, f) for p in range(n) for f in FAILS[1:]]:
                if bad and n > 1 and (n > 2 or bad[0] != 0 or hist[0] != hist[1]):
                    continue    # a failure alone, and one followed by the same question
                play(case, trees, hist, bad, rec)
    rec.trace()
    rec.sample(case)


def play(case, trees, hist, bad, rec):
    set_graph(bind_graph())
    server = Server(trees, case["default"], case["mode"], case["reply"])
    if bad:
        server.fail[bad[0]] = bad[1]
    rec.state([case, hist, bad and [bad[0], FAILS.index(bad[1])]])
    with http.network(server) as log:
        r = HttpCtsResolver(HttpCtsRetriever(END, inventory=case["default"]))
        kept = []
        for pos, q in enumerate(hist):
            what = "%s after %s (%s)" % (q, hist[:pos], bad)
            i, form, other = q
            answer = observe(lambda: ask(r, q))
            rec.check(len(log), pos + 1, "one request: " + what)
            name = other or case["default"]
            want = [("inv", name)] if name else []
            want += [("request", "GetCapabilities")] + ([("urn", i)] if i else [])
            rec.check(log[-1].args, want, "the request of " + what)
            rec.check((log[-1].method, log[-1].body), ("GET", None), "the method of " + what)
            if bad and bad[0] == pos:
                rec.check(answer[0] != "ok", True, "a failing answer raises: %s gives %r" % (what, answer))
                continue
            full = server.content(name, i)
            m = inv.model(full)
            if i is None:
                if rec.check(answer[0], "ok", "%s: %r" % (what, answer)):
                    o = answer[1]
                    rec.check(inv.snapshot(o, "inv"), m, "the inventory of " + what)
                    kept.append((o, "inv", m))
                continue
            found = [x for x in models(m) if x["id"] == i]
            if not found:
                rec.check(answer, ("err", "UnknownCollection"), "unknown " + what)
                continue
            if rec.check(answer[0], "ok", "%s: %r" % (what, answer)):
                o, k = answer[1], found[0]["kind"]
                rec.check(inv.snapshot(o, k), found[0], "the collection of " + what)
                top = o.parents[-1]
                rec.check(inv.snapshot(top, "inv"), m, "the tree above " + what)
                kept.append((o, k, found[0]))
        for o, k, m in kept:
            rec.check(inv.snapshot(o, k), m, "a collection obtained earlier, after %s" % (hist,))
        rec.outcome([k for o, k, m in kept])


def models(m):
    yield m
    for k in m["kids"]:
        for x in models(k):
            yield x
