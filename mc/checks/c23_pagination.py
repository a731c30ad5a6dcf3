"""C23: the pages of a list of texts are the list."""
from mc.core import observe
from MyCapytain.resolvers.cts.local import CtsCapitainsLocalResolver

PROPERTY = "C23"
BOUNDS = {"quick": "every length 0 to 220, every limit -12 to 111 (0: default) and three larger ones, every page 0 (default) to the last, and past it; 7 lengths up to 123457 with their first, middle and last pages",
          "thorough": "every length 0 to 600"}


BIG = (999, 1000, 1001, 9999, 10000, 10001, 123457)


def cases(tier):
    for n in range(0, 221 if tier == "quick" else 601):
        yield {"n": n}
    for n in BIG:
        yield {"n": n}


def run(case, rec):
    n = case["n"]
    items = list(range(n))
    f = CtsCapitainsLocalResolver.pagination
    for limit in [None] + list(range(-12, 112)) + [200, 1000, 10 ** 6]:
        size = limit if limit and 1 <= limit <= 100 else 10
        last = max(1, -(-n // size))
        got = []
        pages = range(1, last + 1) if last <= 1000 else sorted(set(range(1, 40)) | set(range(last // 2 - 2, last // 2 + 3)) | set(range(last - 40, last + 1)))
        for page in list(pages) + [last + 1, last + 2, 2 * last + 1, None, 0]:
            want = min(page or 1, last)
            start, end, real, count = f(page, limit, n)
            rec.check((start, end, real, count), ((want - 1) * size, min(want * size, n), want, min(want * size, n) - (want - 1) * size),
                      "page %s of %d items by %s" % (page, n, limit))
            if page and page <= last:
                got += items[start:end]
        if last <= 1000:
            rec.check(got, items, "all the pages of %d items by %s" % (n, limit))
        rec.state([n, limit])
        rec.outcome([last, size])
        if rec.violations:
            return
    rec.trace()
    rec.sample(case)
