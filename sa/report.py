"""Evidence files, known findings and the verdict lines."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    """One violation: a rule broken by a construct.

    ``key`` identifies it by rule and construct, never by line number.
    """

    def __init__(self, key, where, message, path=None):
        self.key = key
        self.where = where
        self.message = message
        self.path = path or []

    def as_dict(self):
        return {"key": self.key, "where": self.where, "message": self.message, "path": self.path}


def known(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return out
    with open(p, encoding="utf-8") as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known: property="):
                continue
            rest = line[len("known: property="):]
            pid, _, rest = rest.partition(" ")
            key, _, text = rest.partition(" :: ")
            if pid == prop:
                out[key.strip()] = text.strip()
    return out


def finish(prop, findings, coverage, t0, assumptions=None, level="other"):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    kn = known(prop)
    uniq = {}
    for f in findings:
        uniq.setdefault(f.key, f)
    findings = [uniq[k] for k in sorted(uniq)]
    new = [f for f in findings if f.key not in kn]
    old = [f for f in findings if f.key in kn]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": assumptions or [],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
        "known_findings": [f.key for f in old],
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for f in old:
        print(f"KNOWN-FINDING: property={prop} {f.key} :: {f.message}")
    rdir = os.path.join(VERIF, "evidence", "replay")
    rfile = os.path.join(rdir, prop + ".json")
    if new:
        os.makedirs(rdir, exist_ok=True)
        with open(rfile, "w", encoding="utf-8") as fh:
            json.dump([f.as_dict() for f in new], fh, indent=1, default=str)
        for f in new:
            print(f"{f.where}: {f.message}  [{f.key}]")
            for step in f.path:
                print(f"    {step}")
        print(f"VIOLATION property={prop} replay={rfile}")
        sys.stdout.flush()
        return 1
    if os.path.exists(rfile):
        os.remove(rfile)
    brief = {k: v for k, v in coverage.items() if isinstance(v, (int, float))}
    print(f"{prop}: held on everything analysed {brief}")
    return 0
