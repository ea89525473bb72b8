"""Guards.  Every guarded public function is walked, path by path and for every combination of its options, with classes of
invalid arguments (non-square, asymmetric in the real or imaginary part, Hermitian, with a NaN, of the wrong type or length,
out of range by a little or a lot and at every position, unphysical, impure, non-classical, non-symplectic).  A class that
the function is known to reject must not reach a return statement."""
import copy
import json
import os

from .. import facts, guards
from ..api import API, roots
from ..facts import Arr, C, Evaluator, FALSE, Num, P, TRUE, bool_, pconst, pmod, sign
from ..report import Finding

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "guards_table.json")
FLOORS = {"guarded_functions": 32, "classes_of_arguments": 133, "cases_rejected": 1000}
ASSUMPTIONS = [
    "an invalid entry (NaN, asymmetric pair, negative number) can be anywhere in the array and is clear of the tolerances; rtol, atol and tol are at most 1e-3",
    "is_valid_cov, is_pure_cov, is_classical_cov and is_symplectic answer as documented where they are called (their own bodies are examined separately)",
    "an operation on the invalid argument that the analysis knows nothing about may reject it",
]
PRED = {"thewalrus.quantum.gaussian_checks.is_valid_cov": ("cov", {"unphysical", "indef"}, {"valid"}),
        "thewalrus.quantum.gaussian_checks.is_pure_cov": ("cov", {"unphysical", "impure", "indef"}, {"pure"}),
        "thewalrus.quantum.gaussian_checks.is_classical_cov": ("cov", {"unphysical", "nonclassical", "indef"}, {"classical"}),
        "thewalrus.quantum.gaussian_checks.is_symplectic": ("S", {"nonsymp"}, {"symp"}),
        "thewalrus.symplectic.is_symplectic": ("S", {"nonsymp"}, {"symp"})}


CONTENT = {"asym", "asymc", "asymim", "herm", "nan", "nanim", "nanc", "neg", "negative", "approx:complex", "approx:neg"}
STATES = {"unphysical", "impure", "nonclassical", "indefinite", "nonsymplectic", "negative"}
SHAPES = {"rect", "odd", "shape", "mean-shape", "tall", "A", "D", "reps", "mu1", "mu2", "cov1", "cov2"}


def predicate(param, bad, good):
    def f(ev, b, node):
        v = b.get(param)
        if ev.state_kind and param == "cov" and len(bad) == 2 and (not isinstance(v, Arr) or v.base is None):
            # part of a state that is mixed, entangled, ...: physical for some of them
            return bool_(None, False)
        if not isinstance(v, Arr) or v.dims is None or len(v.dims) != 2:
            return None
        p, q = v.dims
        if p is not None and q is not None and sign(p - q) in ("+", "-"):
            return FALSE
        if p is not None and pmod(p, 2) == 1:
            return FALSE
        for k in ("rtol", "atol"):
            if k in b and not facts.tol_ok(ev, b[k]):
                return None
        if v.fx & {"nan", "nanim"}:
            return FALSE
        if v.base is None or v.part != "full" or v.ops:
            return None
        if v.base.sym in ("asym", "asymim", "herm") and param == "cov" or v.base.states & bad:
            return FALSE
        if v.base.states & good:
            return TRUE
        return None
    return f


def sympmat(ev, b, node):
    n = ev.num(b.get("N", facts.Unk()))
    p = n.p * P(2) if n is not None and n.p is not None else None
    return Arr((p, p), "f", {"omega", "fin"})


def summaries():
    s = {k: predicate(*v) for k, v in PRED.items()}
    s["thewalrus.symplectic.sympmat"] = sympmat
    return s


def build(e, mk, opts, shape=False):
    def f():
        guards.reset()
        a = {k: v() for k, v in e.base.items()}
        a.update(mk())
        if shape:
            for k, v in a.items():
                if isinstance(v, Arr) and v.t:
                    a[k] = v.but(fx=v.fx | {"el"})
        for k, v in opts.items():
            if k not in a or k not in ("mu", "mean", "y"):
                a[k] = v(a) if callable(v) else copy.deepcopy(v)
        return a
    return f


def outcome(ev, info, e, mk, opts):
    """'reject', 'reject?', 'return', 'unknown'; a predicate must not answer True"""
    f = build(e, mk, opts, ev.kind == "shape")
    ev.predicate = info.full in PRED
    return ev.solve(info, f)


def named(prog):
    rs, _ = roots(prog)
    names = list(API)
    full = {}
    for n in names:
        mod, _, short = n.rpartition(".")
        for info, _k in rs:
            if info.full == "thewalrus." + n:
                full[n] = info
        if n not in full:
            c = [info for info, _k in rs if info.name == short and info.module.name.split(".")[-1] == mod.split(".")[-1]] or \
                [info for info, _k in rs if info.name == short]
            if c:
                full[n] = c[0]
    return [(i, n) for n, i in full.items()]


def cases(prog, keys=None):
    """(entry, function, class, instance, option label, outcome)"""
    ev = Evaluator(prog, summaries())
    where = {k: i for i, k in named(prog)}
    for e in guards.ENTRIES:
        info = where.get(e.name)
        if info is None:
            continue
        for cls, gen in e.classes.items():
            ev.kind = "content" if cls in CONTENT or cls in STATES else "shape" if cls in SHAPES or cls.endswith("-length") else None
            ev.state_kind, ev.nan_kind = cls in STATES, cls.startswith("nan")
            for lbl, mk in gen():
                for opts, ol in guards.combos(e.opts):
                    key = f"{e.name}|{cls}|{lbl}|{ol}"
                    if keys is not None and key not in keys:
                        continue
                    yield ev, e, info, cls, lbl, opts, ol, key, outcome(ev, info, e, mk, opts)


def optlabel(opts):
    return ", ".join(f"{k}={v.v!r}" if isinstance(v, C) else f"{k}=..." for k, v in sorted(opts.items()))


def check(prog):
    with open(TABLE) as f:
        keys = set(json.load(f))
    found = {}
    stats = {"guarded_functions": set(), "classes_of_arguments": set(), "cases_rejected": 0, "cases_undecided": 0, "functions_walked": set()}
    for ev, e, info, cls, lbl, opts, ol, key, r in cases(prog, keys):
        stats["guarded_functions"].add(e.name)
        stats["classes_of_arguments"].add((e.name, cls))
        stats["functions_walked"] |= ev.functions
        if r[0] in ("reject", "reject?"):
            stats["cases_rejected"] += 1
        elif r[0] == "unknown":
            stats["cases_undecided"] += 1
        else:
            k = (e.name, cls)
            if k not in found:
                where = r[1][0]
                found[k] = [info, where, cls, lbl, opts, r[2], 0]
            found[k][6] += 1
    out = []
    for (name, cls), (info, where, c, lbl, opts, dec, n) in sorted(found.items()):
        path = "; ".join(f"{w}: {'true' if b else 'false'}" for b, w in list(dec.values())[:6])
        short = name
        out.append(Finding(f"guard:{short}:{cls}", info.loc(),
                           f"{short} hands back a result (at {where}) for an invalid argument of the class '{cls}' [{lbl or 'any'}]"
                           + (f" with {optlabel(opts)}" if opts else "") + (f", when {path}" if path else "")
                           + f"; {n} of its cases do", [where]))
    for k in ("guarded_functions", "classes_of_arguments", "functions_walked"):
        stats[k] = len(stats[k])
    return out, stats
