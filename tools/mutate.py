"""Mutation of the library, to find what the checks do not see (development only, no check runs this).

  mutate.py list                      one line per mutant of the lines executed by some check
  mutate.py run OUT.jsonl N K [glob]  mutants number i with i % N == K: apply to a scratch copy, run the
                                      stable tests, then the checks covering the line (quick, fail fast)

Needs /tmp/cov/Cxx.* written by  MC_COVER=/tmp/cov/Cxx check.sh Cxx quick.
"""
import ast, copy as cp, glob, hashlib, json, os, shutil, subprocess, sys, time, warnings
warnings.simplefilter("ignore")

COV = "/tmp/cov"
BASE = "/tmp/mutbase"   # cp -a /repo
TIME = {}


def cover():
    m = {}
    for f in glob.glob(COV + "/C??.[0-9]*"):
        prop = os.path.basename(f)[:3]
        for path, n in json.load(open(f)):
            m.setdefault((path, n), set()).add(prop)
    for f in glob.glob(COV + "/C??.log"):
        t = open(f).read()
        TIME[os.path.basename(f)[:3]] = float(t.split("wall=")[1].split("s")[0]) if "wall=" in t else 50
    return m


CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def mutants(src):
    """(line, kind, mutated source)"""
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0])); doc.add(id(n.body[0].value))
    lines = src.splitlines(True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    raw = src.encode()

    def pos(l, c):
        return offs[l - 1] + c

    def rep(node, new):
        a, b = pos(node.lineno, node.col_offset), pos(node.end_lineno, node.end_col_offset)
        return (raw[:a] + new.encode() + raw[b:]).decode()

    def seg(node):
        return raw[pos(node.lineno, node.col_offset):pos(node.end_lineno, node.end_col_offset)].decode()
    out = []

    def add(node, kind, new):
        s = rep(node, new)
        try:
            ast.parse(s)
        except SyntaxError:
            return
        out.append((node.lineno, kind, s))
    infunc = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef,)):
            for n in ast.walk(f):
                if n is not f:
                    infunc.add(id(n))
            for a in ast.walk(f.args):
                infunc.discard(id(a))
            for d in f.args.defaults:
                infunc.add(id(d))
    for n in ast.walk(tree):
        if id(n) not in infunc or id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            m = cp.deepcopy(n); m.ops = [CMP[type(n.ops[0])]()]
            add(n, "cmp", "(" + ast.unparse(m) + ")")
        elif isinstance(n, ast.BoolOp):
            m = cp.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            add(n, "bool", "(" + ast.unparse(m) + ")")
            for i in range(len(n.values)):
                m = cp.deepcopy(n); del m.values[i]
                add(n, "drop", "(" + ast.unparse(m if len(m.values) > 1 else m.values[0]) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "not", "(" + seg(n.operand) + ")")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            m = cp.deepcopy(n); m.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
            add(n, "arith", "(" + ast.unparse(m) + ")")
        elif isinstance(n, ast.Constant) and n.value is not None:
            v = n.value
            if v is True or v is False:
                add(n, "const", str(not v))
            elif isinstance(v, int):
                add(n, "const", str(v + 1))
                if v > 0:
                    add(n, "const", str(v - 1))
            elif isinstance(v, str) and v:
                add(n, "str", repr(v + "x"))
        elif isinstance(n, ast.If):
            add(n.test, "iftrue", "(True)"); add(n.test, "iffalse", "(False)")
        elif isinstance(n, ast.IfExp):
            add(n, "ifexp", "(" + seg(n.body) + ")"); add(n, "ifexp", "(" + seg(n.orelse) + ")")
        elif isinstance(n, ast.While):
            pass
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)):
            add(n, "del", "pass")
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add(n, "ret", "return None")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "brk", "pass")
        elif isinstance(n, ast.For):
            add(n.iter, "iter", "list(" + seg(n.iter) + ")[:-1]"); add(n.iter, "iter", "list(" + seg(n.iter) + ")[1:]")
            add(n.iter, "iter", "list(" + seg(n.iter) + ")[::-1]")
        elif isinstance(n, ast.comprehension):
            if n.ifs:
                for i in n.ifs:
                    add(i, "compif", "True")
        elif isinstance(n, ast.Call) and n.keywords:
            for i, k in enumerate(n.keywords):
                if k.arg:
                    m = cp.deepcopy(n); del m.keywords[i]
                    add(n, "kw", ast.unparse(m))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, "slice", seg(n.value))
    seen = set(); res = []
    for x in out:
        if x[2] not in seen:
            seen.add(x[2]); res.append(x)
    return res


def everything(m, pattern=""):
    out = []
    for path in sorted({p for p, n in m}):
        if pattern and pattern not in path:
            continue
        src = open(BASE + "/" + path, encoding="utf-8").read()
        for line, kind, new in mutants(src):
            props = m.get((path, line))
            if props:
                out.append((path, line, kind, new, props))
    out.sort(key=lambda x: hashlib.md5(repr((x[0], x[1], x[2], len(x[3]))).encode()).digest())
    return out


def one(d, path, line, kind, new, props):
    src = open(BASE + "/" + path, encoding="utf-8").read()
    p = os.path.join(d, path)
    try:
        open(p, "w", encoding="utf-8").write(new)
        import difflib
        diff = "".join(l for l in difflib.unified_diff(src.splitlines(True), new.splitlines(True), n=0) if l[0] in "+-" and l[:3] not in ("+++", "---"))
        r = {"path": path, "line": line, "kind": kind, "diff": diff}
        r["ran"] = []
        e = dict(os.environ, MC_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", MC_FAILFAST="1", MC_JOBS="1")

        def checks(cs):
            for c in cs:
                try:
                    q = subprocess.run("bash check.sh %s quick" % c, shell=True, cwd=os.environ["MC_VERIF"], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=900)
                    code = q.returncode
                except subprocess.TimeoutExpired:
                    code = -9
                r["ran"].append([c, code])
                if code == 1:
                    r["caught"] = c
                    return True
            return False
        order = sorted(props, key=lambda c: TIME.get(c, 99))
        fast = [c for c in order if TIME.get(c, 99) < 4] or order[:1]
        if checks(fast):
            return r
        des = " ".join("--deselect tests/resources/texts/local/%s.py::%s" % (mm, c)
                   for mm in ("test_capitains_xml_default", "test_capitains_xml_notObjectified")
                   for c in ("CapitainsXmlTextTest", "CapitainsXmlPassageTests", "CapitainsXMLRangePassageTests"))
        e2 = dict(os.environ, PYTHONPATH=d, PYTHONHASHSEED="0")
        try:
            out = subprocess.run("/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider --maxfail=2 --timeout=60 %s tests 2>&1 | tail -3" % des, shell=True, cwd=d, env=e2, stdout=subprocess.PIPE, timeout=300).stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            out = "timeout"
        if "1 failed, 306 passed" not in out:
            r["tests"] = "fail"; r["caught"] = "tests"; return r
        r["tests"] = "pass"
        if checks([c for c in order if c not in fast]):
            return r
        r["caught"] = None
        return r
    finally:
        open(p, "w", encoding="utf-8").write(src)


if __name__ == "__main__":
    m = cover()
    if sys.argv[1] == "list":
        for x in everything(m, sys.argv[2] if len(sys.argv) > 2 else ""):
            print(x[0], x[1], x[2], ",".join(sorted(x[4])))
    else:
        out, n, k = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
        pattern = sys.argv[5] if len(sys.argv) > 5 else ""
        d = "/tmp/mut_%d" % k
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(BASE, d, symlinks=True)
        for i, x in enumerate(everything(m, pattern)):
            if i % n != k:
                continue
            r = one(d, *x)
            with open(out, "a") as f:
                f.write(json.dumps(r) + "\n")
        shutil.rmtree(d, ignore_errors=True)
