"""python -m mc.run <property> [tier]  |  python -m mc.run --replay <file>"""
import importlib
import json
import os
import pkgutil
import re
import shutil
import sys
import tempfile
import time
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")


def load_library():
    warnings.simplefilter("ignore")
    # third-party modules may use their normal bytecode caches ...
    import lxml.etree, lxml.objectify, rdflib, requests, pyld, link_header, six  # noqa
    import rdflib.plugins.stores.memory, rdflib.plugins.serializers.jsonld  # noqa
    # ... but the code under test is always compiled from the current sources
    prefix = tempfile.mkdtemp(prefix="mcpyc")
    sys.pycache_prefix = prefix
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import MyCapytain
    assert os.path.abspath(MyCapytain.__file__).startswith(REPO + os.sep), MyCapytain.__file__
    shutil.rmtree(prefix, ignore_errors=True)
    sys.pycache_prefix = prefix + "-none"


def find(prop):
    import mc.checks
    for m in pkgutil.iter_modules(mc.checks.__path__):
        if m.name.split("_")[0].upper() == prop.upper():
            return importlib.import_module("mc.checks." + m.name)
    raise SystemExit("no check for " + prop)


def known_findings(prop):
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    out = {}
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=<<(.*?)>> (.*)$", line.rstrip("\n"))
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    return out


def main(argv):
    from mc import core
    if argv and argv[0] == "--replay":
        with open(argv[1], encoding="utf-8") as f:
            v = json.load(f)
        load_library()
        module = find(v["property"])
        rec = core.Rec()
        core.run_case(module, v["case"], rec, getattr(module, "CPU_LIMIT", 120))
        for x in rec.violations:
            print("REPRODUCED property=%s %s" % (v["property"], x["message"]))
        return 1 if rec.violations else 0

    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    jobs = int(os.environ.get("MC_JOBS", "8"))
    t0 = time.time()
    try:
        load_library()
        module = find(prop)
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        if not core.in_library(e.__traceback__):
            raise
        # the library itself no longer imports: nothing it promises holds
        traceback.print_exc()
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        path = os.path.join(HERE, "out", "%s-import.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "case": None, "message": repr(e)}, f)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    total = core.explore(module, tier, jobs)
    wall = time.time() - t0
    if total["errors"] or (total["died"] and not total["violations"]):
        for e in total["errors"]:
            print(e, file=sys.stderr)
        print("harness error: %d worker(s) died" % total["died"], file=sys.stderr)
        if not total["violations"]:
            return 2

    known = known_findings(prop)
    hit, new = {}, []
    for v in total["violations"]:
        if v["key"] in known:
            hit[v["key"]] = known[v["key"]]
        else:
            new.append(v)
    coverage = {
        "states": len(total["states"]),
        "transitions": total["transitions"],
        "traces_validated_against_impl": total["traces"],
        "distinct_observed_outcomes": len(total["outcomes"]),
        "cases": total["cases"],
        "exhaustive": not new and not total["errors"],
        "bounds": module.BOUNDS.get(tier, module.BOUNDS.get("quick")),
        "samples": total["samples"][:6],
    }
    coverage.update(total["extra"])
    evidence = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "model_checking", "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3), "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False, default=str)
    print("%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d %s wall=%.1fs" % (
        prop, tier, total["cases"], len(total["states"]), total["transitions"], total["traces"],
        len(total["outcomes"]), total["extra"] or "", wall))
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, hit[k]))
    if new:
        out = os.path.join(HERE, "out")
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, "%s-%s.json" % (prop, tier))
        first = new[0]
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "case": first["case"], "key": first["key"],
                       "message": first["message"],
                       "replay": "bash check.sh --replay " + path,
                       "others": [x["message"] for x in new[1:6]]}, f, indent=1, ensure_ascii=False, default=str)
        shown = int(os.environ.get("MC_SHOW", "3"))
        for v in new[:shown]:
            print("  counterexample: %s\n    case %s" % (v["message"][:900], core.canon(v["case"])[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if len(total["states"]) == 0 or total["transitions"] == 0:
        print("harness error: vacuous exploration", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
