"""Authoring of planted bugs: python3 tools/seed.py FILE.py   (FILE defines BUGS)

Each bug: id, property, edits [(path, old, new)], demo (python source), needs, breaks.
Makes the patch in a scratch copy of /repo, checks demo both ways, stable tests and the
original-lines rule, writes seeded/<id>/, then runs the property's check on the copy.
Usage: seed.py FILE [id ...]; seed.py --recheck [id ...] re-runs existing seeds against the checks.
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "f71c118"


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def copy(tag):
    d = "/tmp/seed_%s" % tag
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    return d


def tests(d):
    des = " ".join("--deselect tests/resources/texts/local/%s.py::%s" % (m, c)
                   for m in ("test_capitains_xml_default", "test_capitains_xml_notObjectified")
                   for c in ("CapitainsXmlTextTest", "CapitainsXmlPassageTests", "CapitainsXMLRangePassageTests"))
    code, out = sh("/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider --timeout=120 %s tests 2>&1 | grep -E '^FAILED|^ERROR|passed' | grep -v headers_parsing_and_hit" % des,
                   cwd=d, env={"PYTHONPATH": d, "PYTHONHASHSEED": "0"})
    return out.strip().startswith("1 failed, 306 passed"), out


def demo(folder, d):
    return sh("bash %s/demo.sh" % folder, cwd=d, env={"PYTHONDONTWRITEBYTECODE": "1"}, timeout=300)


def check(prop, d):
    return sh("bash check.sh %s quick" % prop, cwd=HERE, env={"MC_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick"})


def original(path, old):
    code, base = sh("git -C /repo show %s:%s" % (BASE, path))
    lines = set(l.strip() for l in base.splitlines())
    return [l for l in old.splitlines() if l.strip() and l.strip() not in lines]


def make(b):
    d = copy(b["id"])
    try:
        for path, old, new in b["edits"]:
            p = os.path.join(d, path)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                return "edit matches %d times: %s %r" % (s.count(old), path, old[:80])
            bad = original(path, old)
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        code, diff = sh("git diff", cwd=d)
        for path, old, new in b["edits"]:
            pass
        removed = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
        allbase = set()
        for path, old, new in b["edits"]:
            allbase |= set(l.strip() for l in sh("git -C /repo show %s:%s" % (BASE, path))[1].splitlines())
        notorig = [l for l in removed if l not in allbase]
        if notorig or not removed:
            return "changes lines of our own: %r" % notorig
        f = os.path.join(HERE, "seeded", b["id"])
        shutil.rmtree(f, ignore_errors=True)
        os.makedirs(f)
        open(f + "/patch.diff", "w").write(diff)
        open(f + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(f + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo after build.sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py" 2>&1\n')
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f + "/meta.json", "w"), indent=1)
        c0, o0 = demo(f, "/repo")
        c1, o1 = demo(f, d)
        ok, out = (False, "skipped") if (c0 or not c1) else tests(d)
        if c0 or not c1 or not ok:
            shutil.rmtree(f)
            return "demo clean=%d patched=%d tests=%s\n%s\n%s\n%s" % (c0, c1, ok, o0[-800:] if c0 else "", o1[-400:], out[-1200:] if not ok else "")
        return run_check(b["id"], b["property"], d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_check(id, prop, d):
    code, out = check(prop, d)
    v = [l for l in out.splitlines() if l.startswith("VIOLATION property=%s" % prop)]
    return "CAUGHT" if code == 1 and v else "MISSED (exit %d) %s" % (code, out[-300:] if code not in (0, 1) else "")


def recheck(ids):
    for i in ids or sorted(os.listdir(HERE + "/seeded")):
        m = json.load(open("%s/seeded/%s/meta.json" % (HERE, i)))
        d = copy(i)
        try:
            c, o = sh("git apply %s/seeded/%s/patch.diff" % (HERE, i), cwd=d)
            if c:
                print(i, "DOES NOT APPLY", o); continue
            f = "%s/seeded/%s" % (HERE, i)
            c0, c1 = demo(f, "/repo")[0], demo(f, d)[0]
            print(i, m["property"], "demo %d/%d" % (c0, c1), run_check(i, m["property"], d), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--recheck":
        recheck(sys.argv[2:])
    else:
        g = {}
        exec(open(sys.argv[1]).read(), g)
        for b in g["BUGS"]:
            if len(sys.argv) < 3 or b["id"] in sys.argv[2:]:
                print(b["id"], b["property"], make(b), flush=True)
