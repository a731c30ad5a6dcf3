"""C02: the parent of a passage reference."""
import itertools
from MyCapytain.common.reference import CtsReference
from mc.checks.c01_reference import fmt, SUBS

PROPERTY = "C02"
BOUNDS = {"quick": "hierarchies of depth 1..4 over 2 tokens, 3 subreference forms, all singles and all ranges; ancestors chain to the top",
          "thorough": "depth 1..5 over 2 tokens, 3 subreference forms, all singles and ranges"}


def ends(tier):
    return [(list(h), list(s) if s else None)
            for d in range(1, 5 if tier == "quick" else 6) for h in itertools.product(["1", "10"], repeat=d)
            for s in (None, SUBS[1], SUBS[2])]


def cases(tier):
    for s in ends(tier):
        yield {"start": s, "ends": [None] + ends(tier)}


def parent(start, end):
    if len(start[0]) == 1 or (end is not None and len(end[0]) == 1):
        return None
    ps = (start[0][:-1], start[1])
    if end is None:
        return ps, None
    pe = (end[0][:-1], end[1])
    if ps[0] == pe[0] and ps[1] is None and pe[1] is None:
        return ps, None
    return ps, pe


def text(start, end):
    return fmt(start) + ("-" + fmt(end) if end else "")


def run(case, rec):
    start = case["start"]
    for end in case["ends"]:
        c = {"start": start, "ends": [end]}
        s, e = start, end
        ref = CtsReference(text(s, e))
        while True:
            rec.state(text(s, e))
            p = parent(s, e)
            got = ref.parent
            if p is None:
                rec.check(got, None, "parent of %s" % text(s, e), case=c)
                break
            if not rec.check(None if got is None else str(got), text(*p), "parent of %s" % text(s, e), case=c):
                break
            rec.check(got == CtsReference(text(*p)), True, "parent of %s as a reference" % text(s, e), case=c)
            s, e = p
            ref = got
        rec.trace()
    rec.sample({"start": start, "ends": case["ends"][:2]})
