"""Option data flow.  Every public function is analysed with each of its options marked, once per combination of its
switches (booleans, names of methods, optional arguments given or left out).  Three rules: (influence) an option that
decides a branch, a loop or the returned value in the frozen table sa/options_table.json still does, per combination;
(forwarding) a repository function reached by the call that takes an option of the same name receives the caller's value
itself, not a constant, a default or an unrelated value; (tolerance) np.allclose/np.isclose in a function that takes a
tolerance uses it.  A violation names the call that loses the option."""
import ast
import itertools
import json
import os

from ..api import roots
from ..interp import BOT, D, Dct, Fn, Interp, K, Lst, NONE, TOP, Tup, U
from ..loader import AnalysisError
from ..options import NOTHING, Op, OptDomain
from ..report import Finding

FLOORS = {"public_functions": 107, "options": 129, "option_combinations": 202, "forwarded_options": 115,
          "influence_obligations": 325, "tolerance_comparisons": 5}
ASSUMPTIONS = ["an option is a parameter with a default value, or one named hbar, cutoff, rtol or atol",
               "values of unknown origin raise no alarm; the effect of an option is not measured, only that it reaches a decision or the result"]

ALWAYS = {"cutoff", "hbar", "rtol", "atol"}
# (function that makes the call, callee, option): the call is meant to use its own value
EXEMPT = {
    ("hermite_multidimensional", "hermite_multidimensional", "modified"): "recursion on the transformed vector",
    ("takagi", "takagi", "rtol"): "recursion on a block known to machine precision",
    ("photon_means_order", "photon_number_mean_vector", "hbar"): "the order of the means does not depend on hbar",
    ("photon_number_mean_vector", "photon_number_mean", "hbar"): "only below photon_means_order",
    ("entanglement_entropy", "vonneumann_entropy", "hbar"): "the covariance matrix was already divided by hbar/2",
    ("vonneumann_entropy", "is_valid_cov", "hbar"): "only below entanglement_entropy",
    ("state_vector", "pure_state_amplitude", "check_purity"): "purity was already checked",
    ("fock_tensor", "interferometer", "rtol"): "symmetric by construction", ("fock_tensor", "interferometer", "atol"): "same",
}
# options that take part in intermediate calls only through functions that do not take them
DIRECT = {"rtol", "atol"}
DATA_DEFAULT = {"y", "D", "reps", "mu", "mean", "modes_A", "alpha"}  # data that a function may transform before passing on
TABLE = os.path.join(os.path.dirname(os.path.dirname(__file__)), "options_table.json")


def options(info):
    dfl = info.defaults()
    return [p for p in info.params if p in dfl or p in ALWAYS]


def strings(info, p):
    """string constants a parameter is compared with in the function"""
    out = set()
    for n in ast.walk(info.node):
        if isinstance(n, ast.Compare) and any(isinstance(x, ast.Name) and x.id == p for x in [n.left] + n.comparators):
            for x in [n.left] + n.comparators:
                for c in ast.walk(x):
                    if isinstance(c, ast.Constant) and isinstance(c.value, str):
                        out.add(c.value)
    return out


def switches(info, kinds):
    """discrete options and their values"""
    dfl = info.defaults()
    out = {}
    for p in options(info):
        k = kinds.get(p)
        d = dfl.get(p)
        if k == "bool":
            out[p] = ["T", "F"]
        elif k == "str" and isinstance(d, ast.Constant) and isinstance(d.value, str):
            out[p] = sorted({"=" + s for s in strings(info, p)} | {"=" + d.value})
        elif isinstance(d, ast.Constant) and d.value is None:
            out[p] = ["none", "given"]
    return out


def combos(sw, cap=32):
    names = sorted(sw)
    n = 1
    for s in names:
        n *= len(sw[s])
    if n <= cap:
        for t in itertools.product(*[sw[s] for s in names]):
            yield dict(zip(names, t))
        return
    base = {s: sw[s][0] for s in names}
    seen = set()
    for a, b in itertools.combinations_with_replacement(names, 2):
        for va in sw[a]:
            for vb in sw[b]:
                c = dict(base, **{a: va, b: vb})
                k = tuple(sorted(c.items()))
                if k not in seen:
                    seen.add(k)
                    yield c


def bind(info, kinds, cfg, free=None):
    b = {}
    opts = set(options(info))
    for p in info.params:
        v = cfg.get(p)
        if p == free:
            v = None
        if v == "T" or v == "F":
            b[p] = K(v == "T")
        elif v == "none":
            b[p] = NONE
        elif isinstance(v, str) and v.startswith("="):
            b[p] = K(v[1:])
        else:
            x = D(Op(frozenset([p]), p)) if p in opts else D(NOTHING)
            if kinds.get(p) == "list":
                x = Lst(None, x, "list")
            elif kinds.get(p) == "dict":
                x = Dct(None, x, D(NOTHING))
            b[p] = x
    a = info.node.args
    if a.kwarg is not None:
        b[a.kwarg.arg] = Dct(None, D(NOTHING), D(NOTHING))
    if a.vararg is not None:
        b[a.vararg.arg] = Lst(None, D(NOTHING), "tuple")
    return b


def run(prog, info, kinds, cfg, free=None):
    dom = OptDomain()
    it = Interp(prog, dom)
    b = bind(info, kinds, cfg, free)
    ret = it.invoke(info, b, info.node)
    if info.is_gen:
        dom.sink(dom.L(ret), "return")
    return dom, it


def cfgname(c):
    return ",".join(f"{k}={v.lstrip('=')}" for k, v in sorted(c.items()))


def root_name(info):
    return ".".join(info.module.name.split(".")[1:]) + "." + info.name


def influences(prog, info, kinds, table=None):
    """(option, configuration) pairs for which the option reaches a sink; also the runs for the forwarding rule"""
    sw = switches(info, kinds)
    runs = []
    infl = {}
    opts = options(info)
    for c in combos(sw):
        dom, it = run(prog, info, kinds, c)
        runs.append((c, None, dom, it))
        for p in opts:
            if p in sw and c[p] != "given":
                continue
            infl[(p, cfgname({k: v for k, v in c.items() if k != p}))] = p in dom.sinks or dom.unknown_sink
    for p in sw:
        if "given" in sw[p]:
            continue
        rest = {k: v for k, v in sw.items() if k != p}
        for c in combos(rest):
            dom, it = run(prog, info, kinds, c, free=p)
            runs.append((c, p, dom, it))
            infl[(p, cfgname(c))] = p in dom.sinks or dom.unknown_sink
    return infl, runs


def flows(info, runs):
    """(callee, parameter) -> options whose exact value arrives at every call, over all runs"""
    opts = options(info)
    out = {}
    for c, free, dom, it in runs:
        if free is not None:
            continue
        for g, bd, node, caller, path, _ in dom.entered:
            for q in g.params:
                v = bd.get(q)
                if v is None or v is TOP or not isinstance(v, D):
                    s = set()
                else:
                    e = (v.p.e or "").lstrip("~")
                    s = {e} if e in opts and e != q and c.get(e) in (None, "given") else set()
                k = (g.name, q)
                out[k] = out[k] & s if k in out else s
    return {k: s for k, s in out.items() if s}


def tests_param(info, p):
    """does the function decide something on the option itself (``p is None``, ``p or default``)?"""
    for n in ast.walk(info.node):
        t = None
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            t = n.test
        elif isinstance(n, ast.BoolOp):
            t = n
        if t is not None and any(isinstance(x, ast.Name) and x.id == p for x in ast.walk(t)):
            return True
    return False


def compares_with(info, p, const):
    return const in strings(info, p)


def check(prog):
    rs, missing = roots(prog)
    if len(missing) > 10:
        raise AnalysisError("public functions not found: " + ", ".join(missing))
    with open(TABLE, encoding="utf-8") as f:
        tables = json.load(f)
    table, flow_table = tables["influence"], tables["flows"]
    st = {"public_functions": 0, "options": 0, "option_combinations": 0, "forwarded_options": 0, "influence_obligations": 0,
          "tolerance_comparisons": 0, "renamed_flow_obligations": 0, "exempt_calls": 0, "unknown_values_at_callees": 0}
    findings = {}
    seen_fwd = set()

    def add(key, where, msg, path=None):
        findings.setdefault(key, Finding(key, where, msg, path))

    OptDomain.public = public = frozenset(i.full for i, _ in rs)
    for info, kinds in rs:
        st["public_functions"] += 1
        opts = options(info)
        st["options"] += len(opts)
        if not opts:
            continue
        infl, runs = influences(prog, info, kinds)
        st["option_combinations"] += len(runs)
        rn = root_name(info)
        # influence
        for p, cfgs in table.get(rn, {}).items():
            if p not in info.params:
                continue
            for c in cfgs:
                got = infl.get((p, c))
                if got is None:
                    continue
                st["influence_obligations"] += 1
                if not got:
                    add(f"ignored:{info.full}:{p}", info.loc(), f"{info.full}: the option {p} no longer decides a branch, a loop or "
                        f"the result" + (f" (with {c})" if c else ""))
        # values that arrive under another name
        for gname, q, p in flow_table.get(rn, []):
            if p not in info.params:
                continue
            for c, free, dom, it in runs:
                if free is not None or c.get(p) not in (None, "given"):
                    continue
                for g, bd, node, caller, path, _ in dom.entered:
                    if g.name != gname or q not in g.params:
                        continue
                    st["renamed_flow_obligations"] += 1
                    v = bd.get(q)
                    pay = dom.L(v) if v is not None and v is not TOP else None
                    if pay is None or pay.u or p in pay.t:
                        continue
                    add(f"not-forwarded:{caller.full}:{gname}:{q}<-{p}", caller.loc(node),
                        f"{caller.full} calls {gname} with {q} = {v!r} which no longer comes from the option {p} of {info.full}", path)
        # forwarding
        for c, free, dom, it in runs:
            for g, bd, node, caller, path, above in dom.entered:
                for p in opts:
                    if p not in g.params:
                        continue
                    v = bd.get(p)
                    cv = c.get(p)
                    if p == free:
                        cv = None
                    if p in DIRECT and not (p in caller.params):
                        continue
                    if p in DATA_DEFAULT:
                        continue
                    # a private worker or helper below a caller that was itself given another value
                    chain = list(above) + [g.name]
                    if any((a, b, p) in EXEMPT for i, a in enumerate(chain) for b in chain[i + 1:]):
                        st["exempt_calls"] += 1
                        continue
                    if caller.node is not info.node and p in caller.params and (caller.full, p) in dom_lost(dom, p, cv, c):
                        continue
                    bad = None
                    if cv in ("T", "F"):
                        if isinstance(v, K) and v.v is not (cv == "T"):
                            bad = f"{v.v!r}"
                    elif cv == "none":
                        continue
                    elif cv is not None and cv.startswith("="):
                        if isinstance(v, K) and isinstance(v.v, str) and v.v != cv[1:] and not tests_param(caller, p):
                            bad = f"{v.v!r}"
                    elif p == free:
                        continue
                    else:
                        pay = dom.L(v) if v is not TOP else None
                        if pay is None or pay.u and p not in pay.t:
                            st["unknown_values_at_callees"] += 1
                            continue
                        if p not in pay.t:
                            if isinstance(v, K) and isinstance(v.v, str) and compares_with(caller, p, v.v):
                                continue
                            bad = repr(v.v) if isinstance(v, K) else "a value that does not depend on it"
                        elif pay.e == p or isinstance(v, (Lst, Tup, Dct)):
                            pass
                        elif pay.e == "~" + p:
                            if not any(tests_param(f, p) for f in (caller, info)):
                                bad = "the caller's value only on some paths"
                        elif p in ("hbar", "rtol", "atol"):
                            bad = "a modified value"
                    k = (info.full, caller.full, g.full, p)
                    if k not in seen_fwd:
                        seen_fwd.add(k)
                        st["forwarded_options"] += 1
                    if bad:
                        add(f"not-forwarded:{caller.full}:{g.name}:{p}", caller.loc(node),
                            f"{caller.full} calls {g.name} with {p} = {bad} although its caller {info.full} was given {p}"
                            + (f" (with {cfgname(c)})" if c else ""), path)
            # tolerances used by comparisons in the function itself
            for f, node, pos, kw in dom.ext_tol:
                if f is None or f.node is not info.node and f.full in public:
                    continue
                for i, p in ((2, "rtol"), (3, "atol")):
                    if p not in opts:
                        continue
                    if p == "rtol" and len(node.args) > 1 and isinstance(node.args[1], ast.Constant) and node.args[1].value == 0:
                        continue
                    st["tolerance_comparisons"] += 1
                    pay = kw.get(p) or (pos[i] if len(pos) > i else None)
                    if pay is None or p not in pay.t and not pay.u:
                        if "**" in kw:
                            continue
                        add(f"tolerance:{info.full}:{p}:{ast.unparse(node)[:60]}", info.loc(node),
                            f"{info.full} compares without its option {p}: `{ast.unparse(node)}`")
    st["functions_not_found"] = missing
    return list(findings.values()), st


def dom_lost(dom, p, cv, c):
    """functions that already received another value of the option (reported there)"""
    cache = getattr(dom, "_lost", None)
    if cache is None:
        cache = dom._lost = {}
    if (p, cv) in cache:
        return cache[(p, cv)]
    out = set()
    for g, bd, node, caller, path, _ in dom.entered:
        if p not in g.params:
            continue
        v = bd.get(p)
        if cv in ("T", "F"):
            if isinstance(v, K) and v.v is not (cv == "T"):
                out.add((g.full, p))
        else:
            pay = dom.L(v) if v is not TOP else None
            if pay is not None and p not in pay.t:
                out.add((g.full, p))
    cache[(p, cv)] = out
    return out
