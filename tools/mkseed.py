"""Development aid: build seeded/<id>/ from a spec and confirm the demonstration flips.

usage: mkseed.py spec.py   -- spec defines SEEDS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=python text)}
"""
import json, os, shutil, subprocess, sys, tempfile, runpy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    for sid, s in seeds.items():
        if only and sid not in only:
            continue
        tmp = tempfile.mkdtemp(prefix="seed", dir="/tmp")
        w = os.path.join(tmp, "repo")
        try:
            run(["cp", "-a", REPO, w])
            bad = False
            for f, old, new in s["edits"]:
                p = os.path.join(w, "thewalrus", f)
                src = open(p, newline="").read()
                crlf = "\r\n" in src
                if crlf:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if src.count(old) != 1:
                    print(sid, "old text occurs", src.count(old), "times in", f)
                    bad = True
                    break
                open(p, "w", newline="").write(src.replace(old, new))
            if bad:
                continue
            d = os.path.join(HERE, "seeded", sid)
            os.makedirs(d, exist_ok=True)
            diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True).stdout
            open(os.path.join(d, "patch.diff"), "wb").write(diff)
            open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip())
            open(os.path.join(d, "demo.sh"), "w").write(
                '#!/bin/bash\n# run with cwd = the repository\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" NUMBA_CACHE_DIR="$(mktemp -d)"\n'
                'trap \'rm -rf "$NUMBA_CACHE_DIR"\' EXIT\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            a = run(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
            b = run(["bash", os.path.join(d, "demo.sh")], cwd=w)
            chk = {}
            for f in sorted(os.listdir(os.path.join(HERE, "sa", "checks"))):
                if f.startswith("c") and f.endswith(".py"):
                    pid = f[:-3].upper()
                    if pid != s["property"] and not os.environ.get("ALL"):
                        continue
                    ev = os.path.join(tmp, "verif")
                    if not os.path.exists(ev):
                        shutil.copytree(HERE, ev, ignore=shutil.ignore_patterns(".git", "evidence", "seeded", "__pycache__"))
                    r = run([sys.executable, "-B", "check.py", pid], cwd=ev, env=dict(os.environ, WALRUS_REPO=w))
                    chk[pid] = r.returncode
            print(sid, "unchanged", a.returncode, "patched", b.returncode, "checks", chk)
            if a.returncode:
                print(a.stdout[-800:], a.stderr[-1500:])
            if not b.returncode:
                print(b.stdout[-500:])
            elif os.environ.get("V"):
                print(b.stdout[-500:], b.stderr[-800:])
        finally:
            shutil.rmtree(tmp)


main()
