"""C24: every textgroup goes to the inventory of the last registered rule that accepts it."""
import itertools
from mc import repos
from mc.core import observe
from MyCapytain.common.constants import bind_graph, set_graph
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver
from MyCapytain.resolvers.utils import CollectionDispatcher
from MyCapytain.resources.collections.cts import XmlCtsTextInventoryMetadata, XmlCtsTextgroupMetadata
from MyCapytain.resources.prototypes.cts.inventory import CtsTextInventoryCollection

PROPERTY = "C24"
BOUNDS = {"quick": "3 inventories, every choice of default, every sequence of <=3 rules out of 10 (5 predicates x 2 ways of registering) over 3 targets, 3 textgroups; with and without a default; the same rules (<=2) behind a local resolver reading 2 folders, tolerant or not",
          "thorough": "<=4 rules"}
INV = ["urn:x:one", "urn:x:two", "urn:x:three"]
TGS = ["phi1", "phi12", "tlg1"]
# predicate name -> what it answers for a textgroup
PRED = {
    "phi": lambda i: i.startswith("phi"), "exact": lambda i: i == "phi1", "all": lambda i: True, "none": lambda i: False,
    "truthy": lambda i: False,      # answers 1, which is not True: it does not accept
}



# nobody made it; a textgroup of an inventory, which is no inventory; the collection of inventories itself
GHOSTS = ["urn:x:nobody", repos.NSP + "held", "tic"]


def rule(name):
    def f(collection, path=None, **kw):
        i = collection.id.split(":")[-1]
        if name == "truthy":
            return 1
        return PRED[name](i)
    return f


def expected(tg, rules, default):
    for pred, target in reversed(rules):
        if PRED[pred](tg):
            return INV[target]
    return default


def cases(tier):
    rs = [(p, t) for p in PRED for t in range(3)]
    for k in range(0, (3 if tier == "quick" else 4) + 1):
        if k == 0:
            yield {"m": "plain", "rules": []}
            continue
        for first in rs:
            yield {"m": "plain", "rules": [first], "more": k - 1}
    for a in rs:
        yield {"m": "resolver", "rules": [a]}
    yield {"m": "resolver", "rules": []}
    for a in rs:
        yield {"m": "unknown", "rules": [a]}


def build(rules, default, how):
    tic = CtsTextInventoryCollection("tic")
    for i in INV:
        XmlCtsTextInventoryMetadata(i, parent=tic)
    d = CollectionDispatcher(tic) if default == "first" else CollectionDispatcher(tic, default_inventory_name=default or INV[0])
    if default is None:
        d.__methods__ = []
    for n, (p, t) in enumerate(rules):
        if (n + how) % 2:
            d.add(rule(p), INV[t])
        else:
            f = rule(p)
            assert d.inventory(INV[t])(f) is f
    return tic, d


def where(tic):
    return {i: sorted(x.id.split(":")[-1] for x in tic[i].members) for i in INV}


def unknown(base, rec):
    """a rule that sends to an inventory nobody made: an error, before or after another rule, never a silent loss"""
    text = [["e", "edition", None, "ok", "m", 1]]
    with repos.scratch() as tmp:
        paths = repos.write_all([{tg: {"works": {"a": {"texts": text}}} for tg in TGS}], tmp)
        for pred in PRED:
            for after in (False, True):
                for raising, nobody in itertools.product((False, True), GHOSTS):
                    set_graph(bind_graph())
                    tic = CtsTextInventoryCollection("tic")
                    for i in INV:
                        XmlCtsTextInventoryMetadata(i, parent=tic)
                    XmlCtsTextgroupMetadata(GHOSTS[1], parent=tic[INV[0]])
                    d = CollectionDispatcher(tic)
                    ghost = (pred, nobody)
                    rules = [(p, INV[t]) for p, t in base]
                    rules = rules + [ghost] if after else [ghost] + rules
                    for p, t in rules:
                        d.add(rule(p), t)

                    def target(tg):
                        for p, t in reversed(rules):
                            if PRED[p](tg):
                                return t
                        return INV[0]
                    for tg in TGS:
                        o = XmlCtsTextgroupMetadata(urn=repos.NSP + tg)
                        got = observe(d.dispatch, o, path="x")
                        rec.check(got[0], "err" if target(tg) == nobody else "ok", "%s through %r: %r" % (tg, rules, got))
                    set_graph(bind_graph())
                    tic = CtsTextInventoryCollection("tic")
                    for i in INV:
                        XmlCtsTextInventoryMetadata(i, parent=tic)
                    d = CollectionDispatcher(tic)
                    for p, t in rules:
                        d.add(rule(p), t)
                    cls = type("R", (CtsCapitainsLocalResolver,), {"RAISE_ON_UNDISPATCHED": raising})
                    got = observe(cls, paths, dispatcher=d)
                    lost = any(target(tg) == nobody for tg in TGS)
                    rec.check(got[0], "err" if lost else "ok", "resolver, %r: %r" % (rules, got))
                    if not lost:
                        rec.check(where(tic), {i: sorted(t for t in TGS if target(t) == i) for i in INV}, "resolver with %r" % rules)
                    rec.state([rules, raising])
        rec.trace()


def run(case, rec):
    rs = [(p, t) for p in PRED for t in range(3)]
    base = [tuple(r) for r in case["rules"]]
    if case["m"] == "plain":
        for more in itertools.product(rs, repeat=case.get("more", 0)):
            rules = base + list(more)
            for default in ("first", INV[1], None):
                set_graph(bind_graph())
                tic, d = build(rules, default, len(rules))
                rec.check(len(d.methods), len(rules) + (default is not None), "rules known")
                want = {i: [] for i in INV}
                for tg in TGS:
                    o = XmlCtsTextgroupMetadata(urn=repos.NSP + tg)
                    got = observe(d.dispatch, o, path="x")
                    target = expected(tg, rules, INV[0] if default == "first" else default)
                    if target is None:
                        rec.check(got, ("err", "UndispatchedTextError"), "%s through %r" % (tg, rules))
                        rec.check(o.parent, None, "an undispatched textgroup has no parent")
                    else:
                        rec.check(got, ("ok", None), "%s through %r" % (tg, rules))
                        want[target].append(tg)
                        rec.check(o.parent is not None and o.parent.id, target, "parent of %s" % tg)
                rec.check(where(tic), {k: sorted(v) for k, v in want.items()}, "%r, default %s" % (rules, default))
                rec.state([rules, default])
                rec.outcome(want)
            rec.trace()
            if rec.violations:
                return
        rec.sample(case)
        return
    if case["m"] == "unknown":
        return unknown(base, rec)
    text = [["e", "edition", None, "ok", "m", 1]]
    folders = [{"phi1": {"works": {"a": {"texts": text}}}, "tlg1": {"works": {"a": {"texts": text}}}},
               {"phi12": {"works": {"a": {"texts": text}}}, "phi1": {"works": {"b": {"texts": text}}}}]
    with repos.scratch() as tmp:
        paths = repos.write_all(folders, tmp)
        for more in ([[]] if not base else [[]] + [[r] for r in rs]):
            rules = base + list(more)
            for default in ("first", None):
                for raising in (False, True):
                    set_graph(bind_graph())
                    tic, d = build(rules, default, 0)
                    cls = type("R", (CtsCapitainsLocalResolver,), {"RAISE_ON_UNDISPATCHED": raising})
                    import logging
                    log = logging.getLogger("quiet")
                    log.disabled = True
                    got = observe(cls, paths, dispatcher=d, logger=log)
                    want = {i: [] for i in INV}
                    lost = False
                    for tg in TGS:
                        t = expected(tg, rules, INV[0] if default == "first" else default)
                        if t is None:
                            lost = True
                        else:
                            want[t].append(tg)
                    if lost and raising:
                        rec.check(got, ("err", "UndispatchedTextError"), "%r" % rules)
                    else:
                        if got[0] != "ok":
                            rec.violation("%r: %r" % (rules, got))
                            return
                        rec.check(where(tic), {k: sorted(v) for k, v in want.items()}, "resolver with %r" % rules)
                        texts = {"phi1": 2, "phi12": 1, "tlg1": 1}
                        rec.check(len(got[1].texts), sum(texts[t] for v in want.values() for t in v), "texts with %r" % rules)
                        for i in INV:
                            m = got[1].getMetadata(i)
                            rec.check((m.id, len(m.readableDescendants)), (i, sum(texts[t] for t in want[i])), "inventory %s with %r" % (i, rules))
                    rec.state([rules, default, raising])
        rec.trace()
