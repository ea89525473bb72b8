"""Equality of the parallel and the serial computation.  Every public function with a parallel option is evaluated
symbolically twice, with parallel=True and parallel=False, over terms (value numbering; dask.delayed, executor.map and
similar apply the worker to the elements).  Compared: the library functions called and the terms of all their arguments,
the operations applied to the workers' results on the way to the returned value, and (samplers) the number of samples
returned.  Also: the workers' results must be assembled in submission order, and a worker that draws random numbers must
not be deduplicated (pure=True, a constant key)."""
import ast

from ..api import roots
from ..interp import D, Fn, Interp, K, Lst, NONE, TOP, U
from ..loader import AnalysisError
from ..npk import canon
from ..report import Finding
from ..sizes import ANY, Deficit, Poly, SizeDomain, SizeInterp, Sz, same
from ..terms import TermDomain, UNK, mk, num, subterms

FLOORS = {"functions_with_parallel": 2, "compared_calls": 5, "compared_result_flows": 3, "option_combinations": 3}
ASSUMPTIONS = ["dask.compute returns the results in the order of its arguments",
               "operations that only assemble results (lists, vstack, concatenate, array, reshape) do not change them"]

NEUTRAL = {"vstack", "concatenate", "array", "asarray", "seq", "listof", "reshape", "arr", "st", "compute", "elem", "phi", "row_stack",
           "squeeze", "tuple", "list", "atleast_1d", "atleast_2d", "py.list", "py.tuple", "fromiter", "dask.compute", "copy", "result",
           "asanyarray", "py.float", "float64", "ascontiguousarray", "py.iter", "gather"}
UNORDERED = ("as_completed", "imap_unordered", "as_completed_futures")


def label(t, child):
    n = t.name
    if n == "reshape":
        return "reshape order" if any(a.name == "kw:order" and a.args[0].name not in ("k:'C'",) for a in t.args) else None
    if n in NEUTRAL:
        return None
    others = [repr(a) for a in t.args if a is not child and not a.unk and a.size <= 6]
    if n == "clip" and others[:1] == ["k:0.0"]:
        return "maximum(k:0.0)"
    if n == "max" and len(t.args) == 2:
        n = "maximum"
    if n == "getitem":
        idx = t.args[1] if len(t.args) > 1 else UNK
        if any(x.name in ("elem", "range") for x in subterms(idx)):
            return None
    if n in ("real", "imag", "abs", "conj", "maximum", "minimum", "multiply", "add", "divide", "power", "square", "negative", "sum",
             "sqrt", "subtract", "prod", "mean", "getitem"):
        return f"{n}({', '.join(others)})" if others else n
    return n


def flows(t, cap=400):
    """(opaque call, operations applied to its result) pairs in a term; None when something is unknown"""
    out = set()
    n = [0]

    def go(x, ops):
        n[0] += 1
        if n[0] > cap:
            return False
        if x.name == "?" or x.name.startswith("v:"):
            return False
        if x.name.startswith("call:") or x.name.startswith("draw:"):
            out.add((x.name.split(":", 1)[1], frozenset(ops)))
            return True
        ok = True
        for a in x.args:
            if a.name.startswith(("k:", "p:")):
                continue
            if not any(y.name.startswith(("call:", "draw:", "?", "v:")) for y in subterms(a)):
                continue
            if x.name == "getitem" and a is not x.args[0] or x.name == "st" and a is x.args[0]:
                continue
            lab = label(x, a)
            ok = go(a, ops | {lab} if lab else ops) and ok
        return ok

    return out if go(t, frozenset()) else None


def draws(prog, names, info, seen=None):
    """does the function, or one it names, draw random numbers"""
    seen = seen if seen is not None else set()
    if id(info.node) in seen:
        return False
    seen.add(id(info.node))
    for n in ast.walk(info.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr == "random":
            return True
        if isinstance(n, ast.Name):
            r = prog.resolve(info.module, n.id)
            if r is not None and r[0] == "func" and draws(prog, names, r[1], seen):
                return True
            if r is not None and r[0] == "ext" and r[1].startswith("numpy.random."):
                return True
    return False


class Dom(TermDomain):
    def __init__(self, opaque):
        super().__init__(opaque)
        self.wrapped_fns = []

    def wrapped(self, name, f, kw, node):
        if name == "dask.delayed":
            self.wrapped_fns.append((f, kw, node, self.it.cur, self.it.call_path()))


def run(prog, info, kinds, par, cfg, api):
    def opaque(g):
        return g.parent is None and g.full in api and "parallel" not in g.params

    dom = Dom(opaque)
    it = Interp(prog, dom)
    b = {}
    for p in info.params:
        k = kinds.get(p)
        b[p] = cfg.get(p) if p in cfg else D(mk("p:" + p))
    b["parallel"] = K(par)
    ret = it.invoke(info, b, info.node)
    return dom, it, ret


def rowcount(prog, info, kinds, par, cfg):
    it = SizeInterp(prog, SizeDomain())
    b = {}
    for p in info.params:
        v = cfg.get(p)
        b[p] = v if isinstance(v, K) or v is NONE else D(ANY) if kinds.get(p) == "array" else D(Sz(val=Poly.var(p)))
    b["parallel"] = K(par)
    return it.size(it.invoke(info, b, info.node))


def check(prog):
    rs, missing = roots(prog)
    if len(missing) > 10:
        raise AnalysisError("public functions not found: " + ", ".join(missing))
    api = {info.full for info, _ in rs}
    st = {"functions_with_parallel": 0, "compared_calls": 0, "compared_result_flows": 0, "option_combinations": 0,
          "calls_with_unknown_arguments": 0, "unknown_result_flows": 0, "compared_counts": 0, "delayed_workers": 0}
    found = {}

    def add(key, where, msg, path=None):
        found.setdefault(key, Finding(key, where, msg, path))

    for info, kinds in rs:
        if "parallel" not in info.params or kinds.get("parallel") not in (None, "bool", "any", "num"):
            continue
        dfl = info.defaults()
        st["functions_with_parallel"] += 1
        opts = [p for p in info.params if p != "parallel" and isinstance(dfl.get(p), ast.Constant) and dfl[p].value is None]
        bools = [p for p in info.params if p != "parallel" and isinstance(dfl.get(p), ast.Constant) and isinstance(dfl[p].value, bool)]
        cfgs = [{}]
        for p in opts:
            cfgs = [dict(c, **{p: v}) for c in cfgs for v in (NONE, D(mk("p:" + p)))]
        for p in bools:
            cfgs = [dict(c, **{p: K(v)}) for c in cfgs for v in (True, False)]
        for cfg in cfgs[:16]:
            st["option_combinations"] += 1
            dp, ip, rp = run(prog, info, kinds, True, cfg, api)
            ds, is_, rser = run(prog, info, kinds, False, cfg, api)
            cn = ", ".join(f"{p}={'None' if v is NONE else v.v if isinstance(v, K) else 'given'}" for p, v in sorted(cfg.items()))
            cn = f" (with {cn})" if cn else ""
            # calls
            cp, cs = calls(dp), calls(ds)
            for g in sorted(set(cp) | set(cs)):
                if g not in cp or g not in cs:
                    have, other = ("serial", dp) if g in cs else ("parallel", ds)
                    if other.calls or g not in cp:
                        # the other computation must be understood for its silence to mean anything
                        fl = flows(dp.T(rp) if have == "serial" else ds.T(rser))
                        if fl:
                            w = (cs if g in cs else cp)[g]
                            _, (node, caller, path) = next(iter(w.items()))
                            add(f"only-{have}:{info.full}:{g}", caller.loc(node),
                                f"{info.full}: {g} is called only by the {have} computation{cn}", path)
                    continue
                a, b = cp[g], cs[g]
                ka = {k for k in a if not any(t.unk for _, t in k)}
                kb = {k for k in b if not any(t.unk for _, t in k)}
                if len(ka) < len(a) or len(kb) < len(b):
                    st["calls_with_unknown_arguments"] += 1
                    # arguments that are known on both sides still have to agree
                    for q in sorted({q for k in a for q, _ in k}):
                        ta = {dict(k).get(q) for k in a}
                        tb = {dict(k).get(q) for k in b}
                        if any(t is None or t.unk for t in ta | tb):
                            continue
                        st["compared_calls"] += 1
                        if ta != tb:
                            differ(add, info, g, q, ta, tb, a, cn)
                    continue
                st["compared_calls"] += 1
                if ka != kb:
                    qs = [q for q in sorted({q for k in a for q, _ in k})
                          if {dict(k).get(q) for k in ka} != {dict(k).get(q) for k in kb}]
                    for q in qs or ["?"]:
                        differ(add, info, g, q, {dict(k).get(q) for k in ka}, {dict(k).get(q) for k in kb}, a, cn)
            # results
            tp, ts = dp.T(rp), ds.T(rser)
            fp, fs = flows(tp), flows(ts)
            if fp is None or fs is None:
                st["unknown_result_flows"] += 1
            else:
                st["compared_result_flows"] += 1
                if fp != fs:
                    d = sorted(fp ^ fs, key=repr)
                    g, ops = d[0]
                    add(f"result:{info.full}:{g}", info.loc(), f"{info.full}: the results of {g} reach the returned value through "
                        f"{show(fp, g)} with parallel=True but through {show(fs, g)} with parallel=False{cn}")
            # number of results
            np_, ns = (rowcount(prog, info, kinds, par, cfg) for par in (True, False))
            if np_ is not None and ns is not None:
                st["compared_counts"] += 1
                if not (same(np_, ns) if isinstance(np_, Poly) and isinstance(ns, Poly) else np_ == ns):
                    add(f"count:{info.full}", info.loc(), f"{info.full} returns {np_} results with parallel=True but {ns} with parallel=False{cn}")
            for f, kw, node, caller, path in dp.wrapped_fns:
                for x in f.alts if isinstance(f, U) else [f]:
                    if not isinstance(x, Fn):
                        continue
                    st["delayed_workers"] += 1
                    dr = draws(prog, None, x.info)
                    pure = kw.get("pure")
                    if dr and isinstance(pure, K) and pure.v:
                        add(f"pure:{info.full}:{x.info.name}", caller.loc(node), f"{info.full}: the worker {x.info.name} draws random numbers but is "
                            "delayed with pure=True, so equal calls are computed once and all shots are the same", path)
            for c, args, kw, node, path, cur in dp.exts:
                if c.split(".")[-1] in UNORDERED:
                    add(f"unordered:{info.full}:{c.split('.')[-1]}", cur.loc(node) if cur else info.loc(),
                        f"{info.full}: results are collected in completion order ({c})", path)
    st["functions_not_found"] = missing
    return list(found.values()), st


def show(fl, g):
    o = sorted(", ".join(sorted(ops)) or "nothing" for c, ops in fl if c == g)
    return " / ".join(o) if o else "no path"


def differ(add, info, g, q, ta, tb, calls_, cn):
    _, (node, caller, path) = next(iter(calls_.items()))
    add(f"argument:{info.full}:{g}:{q}", caller.loc(node),
        f"{info.full}: {g} receives {q} = {', '.join(sorted(short(t) for t in ta))} with parallel=True but "
        f"{', '.join(sorted(short(t) for t in tb))} with parallel=False{cn}", path)


def short(t):
    s = "absent" if t is None else repr(t).replace("p:", "").replace("k:", "")
    return s if len(s) < 80 else s[:77] + "..."


def calls(dom):
    out = {}
    for info, bound, node, caller, path in dom.calls:
        k = tuple(sorted(((q, dom.T(v)) for q, v in bound.items()), key=lambda e: e[0]))
        out.setdefault(info.full, {}).setdefault(k, (node, caller, path))
    return out
