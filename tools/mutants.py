"""Development aid: textual mutants of the repository, and which of them each check reports.

usage: mutants.py <property> [substring]     (mutants are listed in tools/mutants/<property>.txt)
Format of a mutant: blocks separated by lines '==== name | file', old text, '----', new text.
"""
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load(prop):
    out = []
    cur = None
    with open(os.path.join(HERE, "mutants", prop + ".txt"), encoding="utf-8") as f:
        for line in f:
            if line.startswith("==== "):
                name, _, file = line[5:].strip().partition(" | ")
                cur = [name, file.strip(), [], []]
                part = 2
                out.append(cur)
            elif line.strip() == "----":
                part = 3
            elif cur is not None:
                cur[part].append(line)
    return [(a, b, "".join(c), "".join(d)) for a, b, c, d in out]


def run(job):
    prop, repo, name, file, old, new = job
    tmp = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(os.path.join(repo, "thewalrus"), os.path.join(tmp, "thewalrus"),
                        ignore=shutil.ignore_patterns("tests", "__pycache__"))
        p = os.path.join(tmp, "thewalrus", file)
        with open(p, encoding="utf-8", newline="") as f:
            s = f.read().replace("\r\n", "\n")
        if s.count(old) < 1:
            return False, "STALE " + name
        s = s.replace(old, new, 1)
        with open(p, "w", encoding="utf-8") as f:
            f.write(s)
        ev = os.path.join(tmp, "verif")
        shutil.copytree(VERIF, ev, ignore=shutil.ignore_patterns(".git", "evidence", "seeded", "__pycache__"))
        r = subprocess.run([sys.executable, "-B", "check.py", prop], cwd=ev, env=dict(os.environ, WALRUS_REPO=tmp),
                           capture_output=True, text=True)
        quiet = name.startswith("ok:")
        good = (r.returncode == 0) if quiet else (r.returncode == 1)
        lines = [x for x in r.stdout.splitlines() if x and not x.startswith("    ")]
        return good, " ".join(["PASS" if good else "FAIL", name, str(r.returncode)]) + (
            "" if good and not os.environ.get("V") else "\n   " + "\n   ".join(lines[:6] + r.stderr.splitlines()[-5:]))
    finally:
        shutil.rmtree(tmp)


def main():
    prop = sys.argv[1]
    sub = sys.argv[2] if len(sys.argv) > 2 else ""
    repo = os.environ.get("WALRUS_REPO", "/repo")
    jobs = [(prop, repo) + x for x in load(prop) if sub in x[0]]
    hit = 0
    with multiprocessing.Pool(int(os.environ.get("J", "6"))) as pool:
        for good, text in pool.imap(run, jobs):
            hit += good
            print(text, flush=True)
    print(prop, hit, "/", len(jobs))


if __name__ == "__main__":
    main()
