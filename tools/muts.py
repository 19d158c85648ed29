"""development helper: tools/muts.py <spec.py>   spec defines CHECK, FILE (default), MUTS=[(name, expect 0/1, [(file?, old, new), ...])], BASE=[(file, old,new)...] applied always"""
import sys, os, shutil, subprocess, tempfile, concurrent.futures as cf
ns = {}
exec(open(sys.argv[1]).read(), ns)
check, dfile, base = ns["CHECK"], ns.get("FILE"), ns.get("BASE", [])
only = set(sys.argv[2:])
def run(m):
    name, exp, edits = m
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        shutil.copytree(os.environ.get("BASE_REPO", "/repo") + "/returnn", d + "/returnn", ignore=shutil.ignore_patterns("__pycache__"))
        for e in list(base) + list(edits):
            f, old, new = e if len(e) == 3 else (dfile,) + tuple(e)
            s = open(f"{d}/{f}").read()
            if s.count(old) < 1:
                return name, exp, "PATTERN NOT FOUND " + old[:50]
            if s.count(old) > 1:
                name += f" (x{s.count(old)})"
            s = s.replace(old, new, 1)
            open(f"{d}/{f}", "w").write(s)
            compile(s, f, "exec")
        res = []
        for c in check.split():
            r = subprocess.run([sys.executable, "-m", "sa.run", c], cwd="/verif", env={**os.environ, "SA_REPO": d, "SA_EVID": d + "/ev"}, capture_output=True, text=True)
            res.append((c, r.returncode, [l for l in r.stdout.splitlines() if "[R" in l] + ([r.stderr[-800:]] if r.returncode not in (0, 1) else [])))
        return name, exp, res
    finally:
        shutil.rmtree(d)
with cf.ThreadPoolExecutor(6) as ex:
    for name, exp, res in ex.map(run, [m for m in ns["MUTS"] if not only or m[0] in only]):
        if isinstance(res, str):
            print("??", name, res); continue
        rc = max(r[1] for r in res) if all(r[1] in (0,1) for r in res) else 2
        print("OK " if rc == exp else "!! ", name, [r[1] for r in res])
        for c, r, ls in res:
            for l in ls[:3]: print("      ", l[:220])
