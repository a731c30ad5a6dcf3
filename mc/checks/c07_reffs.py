"""C07: the reference listing of a text."""
from mc import docs
from mc.core import observe
from mc.docs import dot
from MyCapytain.common.constants import bind_graph, set_graph
from MyCapytain.common.reference import CtsReference
from MyCapytain.resources.texts.local.capitains.cts import CapitainsCtsText

PROPERTY = "C07"
BOUNDS = {"quick": "every document with 1 level (<=4 units), 2 levels (<=3 x <=3), 3 levels (<=2 x <=2 x <=2), 7 citation schemes, 3 label sets, 3 contents; documents of 4 levels, with units partly in layers without reference, with several refsDecl; every level x (no reference, every single reference, every range)",
          "thorough": "1 level <=6, 2 levels <=3x<=4, 3 levels <=3x<=2x<=2"}
URN = "urn:cts:latinLit:phi1294.phi002.perseus-lat2"


def specs(tier, contents=("unique",), labels=("seq", "odd", "rev"), noises=("",), wraps=(0, 2), schemes=None):
    if tier == "quick":
        sh = docs.shapes(1, [4]) + docs.shapes(2, [3, 3]) + docs.shapes(3, [2, 2, 2])
    else:
        sh = docs.shapes(1, [6]) + docs.shapes(2, [3, 4]) + docs.shapes(3, [3, 2, 2])
    for shape in sh:
        for scheme in (schemes or docs.SCHEMES):
            for lab in labels:
                for c in contents:
                    for n in noises:
                        for w in wraps:
                            if w and scheme in ("child", "same", "split"):
                                continue
                            yield {"shape": shape, "scheme": scheme, "labels": lab, "content": c, "noise": n, "wrap": w}


def special(tier, contents=("unique",)):
    """four levels, units only partly in layers without reference, declarations of other systems of reference"""
    # units of the fourth level are leaves
    deep = [[[[[[], []], [[]]], [[[]]]], [[[[]]]]], [[[[[]]]], [[[[], []]], [[[]], [[], []]]]]]
    flat = [[[], [], [], []], [[[], [], []], [[], []]]]
    for c in contents:
        for shape in deep[:1 if tier == "quick" else 2]:
            for scheme in ("child", "typed", "attrs") if tier == "quick" else docs.SCHEMES:
                for noise in ("", "head tail otherdecl")[tier == "quick":]:
                    yield {"shape": shape, "scheme": scheme, "labels": "odd", "content": c, "noise": noise, "wrap": 0}
        for shape in ([[[], []], [[], [], []], [[]]], [[], [], [], [], [], [], [], [], [], [], [], []])[:1 if tier == "quick" and c != "unique" else 2]:
            # labels with quotes, slashes, brackets and other marks
            for scheme in ("child", "alldeep", "slash"):
                yield {"shape": shape, "scheme": scheme, "labels": "marks", "content": c, "noise": "head", "wrap": 0}
        for scheme in docs.RARE:
            for wrap in (0, 2):
                yield {"shape": [[[], [], []], [[], []]], "scheme": scheme, "labels": "odd", "content": c, "noise": "between", "wrap": wrap}
        for shape in flat:
            for scheme in ("typed", "alldeep", "attrs"):
                for noise in ("partial otherdecl", "partial second head tail comment"):
                    for wrap in (1, 2):
                        yield {"shape": shape, "scheme": scheme, "labels": "seq", "content": c, "noise": noise, "wrap": wrap}


def cases(tier):
    for spec in special(tier):
        yield dict(spec, ranges=True)
    for spec in specs(tier, contents=("unique",), labels=("seq", "odd", "rev"), noises=("", "head between comment space")):
        # ranges are the expensive half: every range for one label set of each scheme
        ranged = spec["labels"] == "odd" and bool(spec["noise"]) != (spec["scheme"] in ("child", "alldeep"))
        if tier == "quick" and len(docs.Model(spec).units) > 9:
            ranged = ranged and spec["wrap"] == 0 and spec["scheme"] in ("child", "typed")
        if spec["labels"] == "rev" and tier == "quick" and spec["noise"]:
            continue
        yield dict(spec, ranges=ranged or tier != "quick")
    for spec in specs(tier, contents=("same",), labels=("seq",), schemes=("typed", "same"), wraps=(0,)):
        yield dict(spec, ranges=len(docs.Model(spec).units) < 9)


def reset():
    set_graph(bind_graph())


def refs(x):
    return [str(r) for r in x]


def want(list_):
    return [dot(r) for r in list_]


def run(spec, rec):
    m = docs.Model(spec)
    text = CapitainsCtsText(resource=docs.xml(spec), urn=URN)
    D = m.depth
    rec.check((len(text.citation), text.citation.depth), (D, D), "citation depth")
    for level in range(1, D + 1):
        got = text.getReffs(level=level)
        rec.state([spec, level])
        rec.check(refs(got), want(m.level(level)), "all references of level %d" % level)
        rec.check((got.level, got.citation.name), (level, docs.names(spec)[level - 1]), "level and citation of the listing")
        rec.check(all(isinstance(r, CtsReference) and not r.is_range() for r in got), True, "listed references are single CTS references")
        rec.check(refs(text.getValidReff(level=level)), want(m.level(level)), "all valid references of level %d" % level)
    rec.check(refs(text.getReffs()), want(m.level(1)), "default listing")
    rec.check(observe(text.getReffs, level=D + 1)[0], "err", "listing deeper than the citation scheme")
    rec.check(sorted(refs(text.reffs)), sorted(want(m.units)), "references of every level")
    for r in m.units:
        for form in (dot(r), CtsReference(dot(r))):
            for level in range(len(r) + 1, D + 1):
                got = text.getReffs(level=level, subreference=form)
                rec.state([spec, level, r])
                rec.check(refs(got), want(m.under(r, level)), "references of level %d under %s" % (level, dot(r)))
                rec.check((got.level, got.citation.name), (level, docs.names(spec)[level - 1]), "level and citation of the listing under %s" % dot(r))
            if len(r) < D:
                # a level not below the reference is corrected to the level just below it
                for level in range(1, len(r) + 1):
                    rec.check(refs(text.getReffs(level=level, subreference=form)), want(m.children(r)),
                              "references of level %d under %s" % (level, dot(r)))
        if len(r) < D:
            rec.check(observe(lambda: refs(text.getReffs(level=len(r) + 1, subreference=dot(r[:-1] + ("zz",)))))[0], "err",
                      "references under an unknown reference")
        rec.check(observe(text.getReffs, level=D + 1, subreference=dot(r))[0], "err", "references under %s deeper than the scheme" % dot(r))
    for a, b in (m.ranges() if spec["ranges"] else ()):
        r = dot(a) + "-" + dot(b)
        low = max(len(a), len(b))
        for level in range(0, D + 2):
            if level == 0 and len(a) == len(b):
                w = low
            elif level == 1:
                w = len(a) + 1
            else:
                w = level
            if w < low or level == 0 and len(a) != len(b):
                continue
            rec.state([spec, level, r])
            if w > D:
                rec.check(observe(text.getReffs, level=level, subreference=r)[0], "err", "references of %s deeper than the scheme" % r)
            else:
                got = text.getReffs(level=level, subreference=r)
                rec.check(refs(got), want(m.between(a, b, w)), "references of level %d in %s" % (level, r))
                rec.check((got.level, got.citation.name), (w, docs.names(spec)[w - 1]), "level and citation of the listing in %s" % r)
    rec.trace()
    if len(spec["shape"]) > 1:
        rec.sample(spec)


