"""Development aid: every behaviour-preserving mutant ('ok: ...') against every check."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import load, HERE, VERIF
repo = "/repo"
checks = os.environ.get("CHECKS", "").split() or sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "sa", "checks")) if f.startswith("c") and f.endswith(".py"))
jobs = []
for f in sorted(os.listdir(os.path.join(HERE, "mutants"))):
    if len(sys.argv) > 1 and f[:-4] not in sys.argv[1:]:
        continue
    for name, file, old, new in load(f[:-4]):
        if name.startswith("ok:"):
            jobs.append((f[:-4], name, file, old, new))


def run(j):
    prop, name, file, old, new = j
    tmp = tempfile.mkdtemp(prefix="oka")
    out = []
    try:
        shutil.copytree(os.path.join(repo, "thewalrus"), os.path.join(tmp, "thewalrus"), ignore=shutil.ignore_patterns("tests", "__pycache__"))
        shutil.copytree(VERIF, os.path.join(tmp, "verif"), ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
        p = os.path.join(tmp, "thewalrus", file)
        s = open(p, encoding="utf-8", newline="").read().replace("\r\n", "\n")
        if s.count(old) < 1:
            return [("STALE", prop, name)]
        open(p, "w", encoding="utf-8").write(s.replace(old, new, 1))
        for c in checks:
            if c == "C11" and "rejected later" in name:
                continue      # harmless only for the property it was written for
            r = subprocess.run([sys.executable, os.path.join(tmp, "verif", "check.py"), c], env=dict(os.environ, WALRUS_REPO=tmp), capture_output=True, text=True)
            if r.returncode:
                out.append((c, prop, name, r.returncode, r.stdout[-600:] + r.stderr[-300:]))
    finally:
        shutil.rmtree(tmp)
    return out


with ThreadPoolExecutor(7) as ex:
    n = 0
    for r in ex.map(run, jobs):
        for x in r:
            n += 1
            print(*x, sep="\n  ", flush=True)
print(len(jobs), "mutants,", n, "alarms")
