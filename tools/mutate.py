"""
Mutation testing of the checks: python3 tools/mutate.py OUT.jsonl [--lanes N] [--every K] [--tests] FILE...
For each mutant of each file: run the checks anchored to the file, cheapest first, in a scratch
copy, after the test suite. The ones that survive both are holes (or equivalent mutants) to look at.
"""
import ast, copy, concurrent.futures as cf, json, os, pathlib, queue, shutil, subprocess, sys, random, threading
sys.path.insert(0, str(pathlib.Path(__file__).parent))
import plant
COST = dict(C01=27, C02=8, C03=2, C04=13, C14=6, C15=3, C16=18, C17=7, C18=6, C19=13, C20=25, C21=11, C22=18, C23=10, C24=55, C25=5, C26=22, C27=12, C28=19, C29=4)
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.Mod: [ast.Mult], ast.FloorDiv: [ast.Div], ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr]}

def mutants(src):
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:  # annotations and docstrings
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                skip |= {id(x) for x in ast.walk(a)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            skip |= {id(n), id(n.value)}
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n) if x is not n}
        if isinstance(n, (ast.JoinedStr,)):
            skip |= {id(x) for x in ast.walk(n)}
    def emit(desc, node, apply):
        # deepcopy keeps the walk order
        i = nodes.index(node)
        t = copy.deepcopy(tree)
        m = list(ast.walk(t))[i]
        apply(m)
        ast.fix_missing_locations(t)
        return desc, getattr(node, "lineno", 0), ast.unparse(t)
    for n in nodes:
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    yield emit(f"{type(op).__name__}->{new.__name__}", n, lambda m, k=k, new=new: m.ops.__setitem__(k, new()))
        elif isinstance(n, ast.BinOp):
            for new in BIN.get(type(n.op), []):
                yield emit(f"{type(n.op).__name__}->{new.__name__}", n, lambda m, new=new: setattr(m, "op", new()))
        elif isinstance(n, ast.BoolOp):
            yield emit("and<->or", n, lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                yield emit(f"drop operand {k}", n, lambda m, k=k: m.values.pop(k) if len(m.values) > 2 else m.values.__setitem__(k, ast.Constant(isinstance(m.op, ast.And))))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield emit("drop unary", n, lambda m: setattr(m, "op", ast.UAdd()) if isinstance(m.op, ast.USub) else (setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand))))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                yield emit("flip bool", n, lambda m: setattr(m, "value", not m.value))
            elif isinstance(v, (int, float)):
                yield emit("const+1", n, lambda m: setattr(m, "value", m.value + 1))
                if v > 0:
                    yield emit("const-1", n, lambda m: setattr(m, "value", m.value - 1))
            elif isinstance(v, str) and v and len(v) < 40:
                yield emit("string", n, lambda m: setattr(m, "value", m.value + "X"))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            yield emit("cond True", n, lambda m: setattr(m, "test", ast.Constant(True)))
            yield emit("cond False", n, lambda m: setattr(m, "test", ast.Constant(False)))
        elif isinstance(n, (ast.For, ast.comprehension)):
            yield emit("skip first", n, _skip(slice_="1:"))
            yield emit("skip last", n, _skip(slice_=":-1"))
            yield emit("reverse", n, _skip(slice_="::-1"))
        elif isinstance(n, (ast.Continue, ast.Break)):
            pass
        elif isinstance(n, ast.Call):
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                yield emit("swap args", n, lambda m: m.args.reverse())
            for k in range(len(n.keywords)):
                yield emit(f"drop keyword {n.keywords[k].arg}", n, lambda m, k=k: m.keywords.pop(k))
        if hasattr(n, "body") and isinstance(n.body, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
            for field in ("body", "orelse"):
                for k, st in enumerate(getattr(n, field, []) or []):
                    if id(st) in skip or isinstance(st, (ast.Pass, ast.FunctionDef, ast.Import, ast.ImportFrom)):
                        continue
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.If, ast.Continue, ast.Break, ast.For, ast.Return)):
                        d, _, t = emit(f"delete {type(st).__name__}", n, lambda m, f=field, k=k: getattr(m, f).__setitem__(k, ast.Pass()))
                        yield d, st.lineno, t

def _skip(slice_):
    def ap(m):
        e = ast.parse(f"list(Z)[{slice_}]", mode="eval").body
        e.value.args[0] = m.iter
        m.iter = e
    return ap

def quick_tests(repo):
    """Whether some stable test fails"""
    code, out = plant.sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-o", "log_cli=false", "-W", "ignore",
        "--timeout=300", "--ignore=tests/pypsa_converter", "-k", "not test_model_behaviour"],
        repo, {"PYTHONPATH": f"{repo}/src", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "TZ": "UTC"})
    return code != 0

def main():
    args = sys.argv[1:]
    out = args.pop(0); lanes = 4; every = 1; offset = 0; only = None
    files = []
    while args:
        a = args.pop(0)
        if a == "--lanes": lanes = int(args.pop(0))
        elif a == "--every": every = int(args.pop(0))
        elif a == "--offset": offset = int(args.pop(0))
        elif a == "--checks": only = args.pop(0).split(",")
        else: files.append(a)
    props = [json.loads(l) for l in open("/verif/properties.jsonl")]
    jobs = []
    for f in files:
        src = pathlib.Path("/repo", f).read_text()
        base = ast.unparse(ast.parse(src))
        seen = set()
        cks = only or sorted((p["id"] for p in props if f in p["anchors"]["files"]), key=lambda c: COST.get(c, 6))
        ms = []
        for d, ln, t in mutants(src):
            if t != base and t not in seen:
                seen.add(t); ms.append((f, d, ln, t, cks))
        random.Random(1).shuffle(ms)
        jobs += ms[offset::every]
    random.Random(2).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    q = queue.Queue()
    for i in range(lanes):
        q.put(plant.lane(f"mut_{os.getpid()}_{i}"))
    lock = threading.Lock(); count = {}
    fo = open(out, "a")
    def log(f, ln, d, verdict):
        with lock:
            k = verdict.split()[0]; count[k] = count.get(k, 0) + 1
            fo.write(json.dumps(dict(file=f, line=ln, desc=d, verdict=verdict)) + "\n"); fo.flush()
    def do(job):
        f, d, ln, t, cks = job
        L = q.get()
        p = L / "repo" / f; orig = p.read_text()
        try:
            p.write_text(t)
            verdict = "?"
            if quick_tests(L / "repo"):
                return log(f, ln, d, "tests")
            for c in cks:
                code, v, o = plant.check(L, c)
                if code == 1 and v:
                    verdict = c; break
                if code not in (0, 1):
                    verdict = f"NOANSWER {c} {code} {o[-200:]}"; break
            else:
                verdict = "SURVIVED"
        except Exception as e:
            verdict = f"error {e!r}"
        finally:
            p.write_text(orig); q.put(L)
        log(f, ln, d, verdict)
    with cf.ThreadPoolExecutor(lanes) as ex:
        list(ex.map(do, jobs))
    print(count)
    while not q.empty():
        shutil.rmtree(q.get(), ignore_errors=True)
main()
