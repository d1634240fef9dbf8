"""Plant bugs: python3 tools/plant.py SPEC.py [ID...]
SPEC.py defines BUGS, a list of dicts: id, property, edits=[(file, old, new)...],
needs, breaks, demo (Python text, run with cwd = repository).
Each one is applied in a scratch copy of /repo, validated (tests pass, demo 0/nonzero),
written to /verif/seeded/<id> and the property's check is run against it there."""
import concurrent.futures as cf, json, os, pathlib, re, shutil, subprocess, sys, runpy
SCR = pathlib.Path("/tmp/w/plant"); SEED = pathlib.Path("/verif/seeded")
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD/src"\nexec /opt/venv/bin/python "$here/demo.py"\n'

def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def lane(name):
    d = SCR / name
    shutil.rmtree(d, ignore_errors=True); d.mkdir(parents=True)
    subprocess.run(["cp", "-a", "/repo", str(d / "repo")], check=True)
    shutil.copytree("/verif", d / "verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
    for f in [*(d / "verif").rglob("*.py"), *(d / "verif").rglob("*.sh")]:
        t = f.read_text()
        if "/repo" in t:
            f.write_text(t.replace("/repo", str(d / "repo")))
    return d

def tests(repo):
    x = repo.parent / "junit.xml"
    code, out = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-o", "log_cli=false", "-W", "ignore",
        "--timeout=300", "--continue-on-collection-errors", "--ignore=tests/pypsa_converter", "-o", "junit_family=xunit2", f"--junitxml={x}"],
        repo, {"PYTHONPATH": f"{repo}/src", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "TZ": "UTC"})
    o = repo.parent / "o.json"
    sh(["/opt/venv/bin/python", "/opt/vp/results.py", str(o), f"junit:{x}"], repo)
    return sorted(BASE - set(json.load(open(o))["passed"]))

def check(d, prop):
    code, out = sh(["bash", str(d / "verif/run.sh"), prop], d / "verif", {"VERIF_SEED": "1", "VERIF_TIER": "quick"})
    return code, [l for l in out.splitlines() if l.startswith("VIOLATION")][:2], out[-600:]

def one(b):
    d = lane(b["id"]); repo = d / "repo"
    try:
        for f, old, new in b["edits"]:
            p = repo / f; t = p.read_text()
            if t.count(old) != 1:
                return b["id"], f"EDIT {f}: {t.count(old)} matches"
            p.write_text(t.replace(old, new))
        diff = subprocess.run(["git", "-C", str(repo), "diff"], capture_output=True, text=True).stdout
        out = SEED / b["id"]; out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(diff)
        (out / "demo.sh").write_text(DEMO); (out / "demo.py").write_text(b["demo"].lstrip("\n"))
        (out / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        r0, o0 = sh(["bash", str(out / "demo.sh")], "/repo", timeout=300)
        r1, o1 = sh(["bash", str(out / "demo.sh")], repo, timeout=300)
        broken = tests(repo)
        res = [f"demo {r0}/{r1}", f"tests broken {broken}"]
        if r0: res.append(o0[-700:])
        if not r1: res.append("demo passes with patch: " + o1[-300:])
        for prop in [b["property"], *b.get("also", [])]:
            c, v, o = check(d, prop)
            res.append(f"{prop} exit {c} {'CAUGHT' if c == 1 and v else 'MISSED ' + o}")
        if r0 or not r1 or broken:
            shutil.rmtree(out); res.append("DROPPED")
        return b["id"], "; ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:]
    bugs = [b for b in bugs if not ids or b["id"] in ids]
    with cf.ThreadPoolExecutor(5) as ex:
        for i, r in ex.map(one, bugs):
            print(i, "->", r, flush=True)
