#!/usr/bin/env python3
"""development helper: tools/seed.py ID file 'old' 'new' ['file' 'old' 'new' ...]  -> seeded/ID/patch.diff ; then runs demo on both trees
   tools/seed.py --run ID   only re-runs demo + claimed check on a scratch copy"""
import sys, os, subprocess, shutil, tempfile, json
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, **kw)

def run(id_):
    d = f"{root}/seeded/{id_}"
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        sh(f"cp -a /repo {t}/repo")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        fd = tempfile.mkdtemp(prefix="sd.", dir="/tmp")
        sh(f"cp -a {d}/. {fd}/; rm -f {fd}/patch.diff {fd}/meta.json")
        r0 = sh(f"bash {fd}/demo.sh > {t}/o0 2>&1", cwd=f"{t}/repo", env=env, timeout=300).returncode
        if r0: print(open(f"{t}/o0").read()[-3000:])
        a = sh(f"git apply {d}/patch.diff", cwd=f"{t}/repo").returncode
        r1 = sh(f"bash {fd}/demo.sh > {t}/o1 2>&1", cwd=f"{t}/repo", env=env, timeout=300).returncode
        print(open(f"{t}/o1").read()[-700:])
        shutil.rmtree(fd)
        prop = json.load(open(f"{d}/meta.json"))["property"]
        c = "-"
        if os.path.exists(f"{root}/sa/checks/{prop.lower()}.py"):
            c = sh(f"python3 -m sa.run {prop}", cwd=root, env=dict(os.environ, SA_REPO=f"{t}/repo", SA_EVID=f"{t}/ev"), stdout=open(f"{t}/oc","w")).returncode
        print(f"SEED {id_}: demo clean={r0} apply={a} demo patched={r1} check({prop})={c}", "OK" if r0 == 0 and r1 and c == 1 and not a else "<<<<<")
    finally:
        shutil.rmtree(t)

def main():
    a = sys.argv[1:]
    if a[0] == "--run":
        for i in a[1:]: run(i)
        return
    id_ = a[0]
    d = f"{root}/seeded/{id_}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    sh(f"git -C /repo worktree prune; git clone -q /repo {t}/repo")
    for i in range(1, len(a), 3):
        f, old, new = a[i:i+3]
        p = f"{t}/repo/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old))
        s = s.replace(old, new)
        compile(s, p, "exec")
        open(p, "w").write(s)
    with open(f"{d}/patch.diff", "w") as o:
        sh("git diff", cwd=f"{t}/repo", stdout=o)
    shutil.rmtree(t)
    if os.path.exists(f"{d}/demo.sh"): run(id_)

main()
