"""C01: CTS passage references are parsed and written back without loss."""
import copy
import itertools
import pickle
from mc.core import observe
from MyCapytain.common.reference import CtsReference

PROPERTY = "C01"
BOUNDS = {
    "quick": "hierarchies of depth 1..3 over 2 tokens (+ depth 1 over 5 tokens), 5 subreference forms, all singles, all ranges of them",
    "thorough": "hierarchies of depth 1..3 over 5 tokens, 5 subreference forms, all singles, all ranges over depth<=2 (5 tokens) plus depth 3 (2 tokens)",
}
ASSUMPTIONS = ["tokens are alphanumeric (no '.', '-', '@' inside a token), as the CTS grammar requires"]

TOKENS = ["1", "a", "10", "1b", "\u03b1"]
SUBS = [None, ("w", None), ("w", 1), ("Ach", 120), ("\u03bc\u03b7", 2)]


def singles(tier):
    toks = TOKENS[:2] if tier == "quick" else TOKENS
    hier = [h for d in (1, 2, 3) for h in itertools.product(toks, repeat=d)]
    if tier == "quick":
        hier += [(t,) for t in TOKENS[2:]]
    return [(list(h), list(s) if s else None) for h in hier for s in SUBS]


def range_ends(tier):
    if tier == "quick":
        return [x for x in singles("quick") if len(x[0]) < 3 or x[1] is None or x[1][0] == "w"]
    return [(list(h), list(s) if s else None)
            for h in list(itertools.product(TOKENS, repeat=1)) + list(itertools.product(TOKENS, repeat=2)) +
            list(itertools.product(TOKENS[:2], repeat=3)) for s in SUBS]


def cases(tier):
    ss = singles(tier)
    for s in ss:
        yield {"start": s, "end": None}
    ends = range_ends(tier)
    for s in ends:
        yield {"start": s, "ends": ends}


def fmt_sub(s):
    return "" if s is None else "@" + s[0] + ("" if s[1] is None else "[%d]" % s[1])


def fmt(part):
    return ".".join(part[0]) + fmt_sub(part[1])


def check_part(rec, got, part, what, case):
    hier, sub = part
    rec.check(str.__str__(got), fmt(part), what + " text", case=case)
    rec.check(list(got.list), list(hier), what + " hierarchy", case=case)
    rec.check(list(iter(got)), list(hier), what + " iteration", case=case)
    rec.check(len(got), len(hier), what + " length", case=case)
    rec.check(got.depth, len(hier), what + " depth", case=case)
    check_sub(rec, got.subreference, sub, what, case)


def check_sub(rec, got, sub, what, case):
    if sub is None:
        rec.check(got, None, what + " subreference", case=case)
    else:
        rec.check((str.__str__(got), got.word, got.counter), (fmt_sub(sub), sub[0], sub[1] or 0),
                  what + " subreference", case=case)
        rec.check((tuple(got.tuple()), list(got)), ((sub[0], sub[1] or 0), [sub[0], sub[1] or 0]),
                  what + " subreference as tuple", case=case)


def check_reference(rec, ref, start, end, what, case):
    text = fmt(start) + ("-" + fmt(end) if end else "")
    rec.check(str(ref), text, what + " text", case=case)
    check_part(rec, ref.start, start, what + " start", case)
    rec.check(bool(ref.is_range()), end is not None, what + " is_range", case=case)
    if end:
        check_part(rec, ref.end, end, what + " end", case)
        hi = start if len(start[0]) <= len(end[0]) else end
    else:
        rec.check(ref.end, None, what + " end", case=case)
        check_sub(rec, ref.subreference, start[1], what, case)
        hi = start
    rec.check(str.__str__(ref.highest), fmt(hi), what + " highest", case=case)
    rec.check(ref.depth, len(hi[0]), what + " depth", case=case)


def one(start, end, rec, deep):
    case = {"start": start, "end": end}
    text = fmt(start) + ("-" + fmt(end) if end else "")
    rec.state(text)
    ref = CtsReference(text)
    check_reference(rec, ref, start, end, "reference %s" % text, case)
    again = CtsReference(str(ref))
    rec.check((again == ref, ref == again, again != ref, hash(again) == hash(ref)), (True, True, False, True),
              "equality of %s with its reparse" % text, case=case)
    if end:
        check_reference(rec, CtsReference(fmt(start), fmt(end)), start, end, "two-part construction of %s" % text, case)
        check_reference(rec, CtsReference((fmt(start), fmt(end))), start, end, "tuple construction of %s" % text, case)
        check_reference(rec, CtsReference(ref.start, ref.end), start, end, "construction of %s from its parts" % text, case)
    else:
        check_reference(rec, CtsReference((fmt(start), None)), start, end, "tuple construction of %s" % text, case)
    check_reference(rec, CtsReference((ref.start, ref.end)), start, end, "construction of %s from the tuple of its parts" % text, case)
    check_reference(rec, CtsReference(ref), start, end, "reference made of the reference %s" % text, case)
    if deep:
        for name, f in (("pickle", lambda o: pickle.loads(pickle.dumps(o))), ("pickle protocol 2", lambda o: pickle.loads(pickle.dumps(o, 2))),
                        ("copy", copy.copy), ("deepcopy", copy.deepcopy)):
            c = f(ref)
            rec.check(c == ref, True, "%s of %s equals it" % (name, text), case=case)
            check_reference(rec, c, start, end, "%s of %s" % (name, text), case)
            p = f(ref.start)
            check_part(rec, p, start, "%s of the start of %s" % (name, text), case)
            if start[1] and not end:
                check_sub(rec, f(ref.subreference), start[1], "%s of the subreference of %s" % (name, text), case)
    rec.trace()
    return ref


def run(case, rec):
    start = case["start"]
    if "ends" not in case:
        one(start, case["end"], rec, True)
        rec.sample(case)
        return
    refs = {}
    single = CtsReference(fmt(start))
    for end in case["ends"]:
        r = one(start, end, rec, len(start[0]) == 2 or len(end[0]) == 1)
        refs[str(r)] = r
        c = {"start": start, "end": end}
        rec.check(r == single, False, "range %s equals its start" % str(r), case=c)
        rec.check(CtsReference(fmt(end)) == single, fmt(end) == fmt(start), "equality of %s and %s" % (fmt(end), fmt(start)), case=c)
    # pairwise: the same start with two different ends is never equal
    vals = list(refs.items())
    for (a, ra), (b, rb) in zip(vals, vals[1:]):
        rec.check((ra == rb, ra != rb), (False, True), "equality of %s and %s" % (a, b), case={"start": start, "ends": case["ends"][:40]})
    rec.sample({"start": start, "ends": case["ends"][:2]})
