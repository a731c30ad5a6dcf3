"""C29: DTS citation schemes (trees of named levels)."""
import copy
import itertools
import json
import pickle
from mc.core import observe
from MyCapytain.common.constants import Mimetypes, RDF_NAMESPACES, bind_graph, get_graph, set_graph
from MyCapytain.common.reference import DtsCitation, DtsCitationSet
from pyld import jsonld

PROPERTY = "C29"
BOUNDS = {"quick": "every scheme of up to 5 levels (ordered forests, 2 names), built in 6 ways (constructors, .children, add_child top-down and bottom-up, reading DTS JSON, copies, pickles); every pair of schemes of up to 3 levels and every pair of levels in them for equality; every order of linking up to 4 citations into one scheme",
          "thorough": "every scheme of up to 6 levels, pairs up to 4 levels, orders of linking 5 citations"}
DTS = "https://w3id.org/dts/api#"
DATA = Mimetypes.JSON.DTS.Std


def forests(n, names):
    if n == 0:
        yield []
        return
    for below in range(n):
        for a in forests(below, names):
            for rest in forests(n - 1 - below, names):
                for label in names:
                    yield [(label, a)] + rest


def depth(t):
    return 1 + max(depth(b) for _, b in t) if t else 0


def preorder(t):
    out = []
    for label, b in t:
        out += [label] + preorder(b)
    return out


def at(t, n):
    return [label for label, _ in t] if n == 0 else [x for _, b in t for x in at(b, n - 1)]


def level(t, n):
    """names at a level, counted from the top or (negative) from the deepest"""
    if n < 0:
        n = depth(t) + n
        if n < 0:
            return ("err", "CitationDepthError")
    return ("ok", at(t, n))


# ------------------------------------------------ ways of building the same scheme

def by_constructor(t):
    def make(x):
        return DtsCitation(x[0], children=[make(b) for b in x[1]])
    return DtsCitationSet(children=[make(x) for x in t])


def by_children(t):
    def make(x):
        c = DtsCitation(name=x[0])
        c.children = [make(b) for b in x[1]] + [None]
        return c
    s = DtsCitationSet()
    s.children = [make(x) for x in t]
    return s


def add_down(t):
    def fill(o, t):
        for label, b in t:
            c = DtsCitation(label)
            o.add_child(c)
            fill(c, b)
    s = DtsCitationSet()
    fill(s, t)
    return s


def add_up(t):
    def make(x):
        c = DtsCitation(x[0])
        for b in x[1]:
            c.add_child(make(b))
        return c
    s = DtsCitationSet()
    for x in t:
        s.add_child(make(x))
    return s


def doc(t):
    out = []
    for label, b in t:
        o = {"dts:citeType": label}
        if b:
            o["dts:citeStructure"] = doc(b)
        out.append(o)
    return out


def ingest(o):
    data = jsonld.expand(o)
    return DtsCitationSet.ingest(data[0][DTS + "citeStructure"] if data else [])


def by_json(t):
    return ingest({"@context": {"dts": DTS}, "dts:citeStructure": doc(t)})


BUILD = {"constructor": by_constructor, "children": by_children, "add, from the top": add_down, "add, from below": add_up, "json": by_json,
         "copied": lambda t: copy.deepcopy(by_children(t)), "pickled": lambda t: pickle.loads(pickle.dumps(add_down(t)))}


def names(it):
    return [c.name for c in it]


def shape(o):
    return [(c.name, shape(c)) for c in o.children]


def plain(o):
    """a model scheme from exported JSON"""
    return [(x["dts:citeType"], plain(x.get("dts:citeStructure", []))) for x in o]


def inspect(s, t, rec, what):
    rec.check(shape(s), t, "%s: structure" % what)
    rec.check((s.depth, len(s), names(s), s.is_empty(), s.is_root()), (depth(t), len(preorder(t)), preorder(t), not t, True), "%s: depth, length, order" % what)
    for n in range(-depth(t) - 2, depth(t) + 2):
        rec.check(observe(lambda: names(s[n])), level(t, n), "%s: level %d" % (what, n))
    def go(o, t):
        for c, (label, b) in zip(o.children, t):
            rec.check((c.root is s, c.is_root(), c.is_set(), c.is_empty()), (True, False, True, not b), "%s: root of %s" % (what, label))
            rec.check((c.depth, len(c), names(c)), (1 + depth(b), len(preorder(b)), [label] + preorder(b)), "%s: %s: depth, length, order" % (what, label))
            for n in range(-depth(b) - 2, depth(b) + 2):
                rec.check(observe(lambda: names(c[n])), level(b, n), "%s: %s: level %d" % (what, label, n))
            go(c, b)
    go(s, t)


def exports(s, t, rec, what):
    set_graph(bind_graph())
    e = s.export(DATA)
    rec.check(observe(lambda: plain(json.loads(json.dumps(e)))), ("ok", t), "%s: exported" % what)
    rec.check(all(set(x) <= {"dts:citeType", "dts:citeStructure"} and (x.get("dts:citeStructure", 1)) for x in e), True, "%s: keys of the export" % what)
    back = ingest({"@context": {"dts": DTS}, "dts:citeStructure": e})
    inspect(back, t, rec, what + ", exported and read back")
    full = s.export(DATA, context=True)
    if t:
        back = ingest(json.loads(json.dumps(full)))
        inspect(back, t, rec, what + ", exported with its context and read back")
        for c, x in zip(s.children, t):
            one = c.export(DATA, context=True)
            rec.check((one["@context"], plain([one])), ({"dts": DTS}, [x]), "%s: level exported by itself" % what)


def cases(tier):
    top = 6 if tier == "thorough" else 5
    for n in range(top, -1, -1):
        fs = list(forests(n, ("book", "l <&\" é")))
        step = max(1, -(-len(fs) // 16))
        for i in range(0, len(fs), step):
            yield {"m": "scheme", "n": n, "from": i, "to": i + step}
    pair = 4 if tier == "thorough" else 3
    small = [t for n in range(pair + 1) for t in forests(n, ("a", "b"))]
    for i in range(len(small)):
        yield {"m": "pairs", "i": i, "pair": pair}
    for shape_ in link_shapes(5 if tier == "thorough" else 4):
        yield {"m": "link", "shape": shape_}


def link_shapes(n):
    """parent of each of n citations (-1: the set), every tree"""
    for p in itertools.product(*[range(-1, i) for i in range(n)]):
        yield list(p)


def nodes(s, t, root=True):
    """(citation, its scheme, is it a root) of a whole forest"""
    out = []
    for c, x in zip(s.children, t):
        out.append((c, x))
        out += nodes(c, x[1])
    return out


def run(case, rec):
    m = case["m"]
    if m == "scheme":
        fs = list(forests(case["n"], ("book", "l <&\" é")))
        for t in fs[case["from"]:case["to"]]:
            for way, build in BUILD.items():
                s = build(t)
                inspect(s, t, rec, "%s %r" % (way, t))
                if way in ("constructor", "json", "add, from below"):
                    exports(s, t, rec, "%s %r" % (way, t))
                    inspect(s, t, rec, "%s %r after the export" % (way, t))
                rec.state([way, t])
            rec.trace()
            rec.outcome([depth(t), len(preorder(t))])
        rec.sample(case)
    elif m == "pairs":
        small = [t for n in range(case["pair"] + 1) for t in forests(n, ("a", "b"))]
        t = small[case["i"]]
        a = by_children(t)
        for u in small:
            b = add_down(u)
            for (x, xt), (y, yt) in itertools.product(nodes(a, t), nodes(b, u)):
                want = xt == yt and t == u
                rec.check((observe(lambda: x == y), observe(lambda: x != y)), (("ok", want), ("ok", not want)), "%r in %r equals %r in %r" % (xt, t, yt, u))
            # the same levels, not in any set: the first level is the root
            for x, y in itertools.product(t, u):
                lone, other = by_children([x]).children[0], DtsCitation(y[0], children=[c for c in by_children(y[1]).children])
                alone = DtsCitation(x[0], children=[c for c in by_constructor(x[1]).children])
                rec.check((alone == other, alone != other, lone == other, other == lone), (x == y, x != y, False, False), "%r equals %r, not in a set" % (x, y))
            rec.state([t, u])
        rec.trace()
    else:
        p = case["shape"]
        n = len(p)
        for order in itertools.permutations(range(n)):
            for way in itertools.product((0, 1), repeat=n):
                s = DtsCitationSet()
                cs = [DtsCitation("c%d" % i) for i in range(n)]
                kids = {}
                for i in order:
                    parent = s if p[i] < 0 else cs[p[i]]
                    kids.setdefault(p[i], []).append(i)
                    if way[i]:
                        parent.children = [cs[k] for k in kids[p[i]]]
                    else:
                        parent.add_child(cs[i])

                def model(i):
                    return [("c%d" % k, model(k)) for k in kids.get(i, [])]
                inspect(s, model(-1), rec, "linked in the order %r, ways %r" % (order, way))
                rec.state([p, order, way])
            rec.trace()
