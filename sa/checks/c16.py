"""Index provenance.  Every row, column and index is followed from the caller's mode arguments and the sizes of the state to
the array accesses: a selection from an (x, p)-ordered array must take the momentum of exactly the modes whose position it
takes, in the same order; the reduced states must come out in the order the caller listed the modes; a block of a gate must
be stored in the rows and columns of its own quadrature and of the caller's modes; single entries read or written for chosen
modes must be closed under exchanging positions and momenta.  A separate flow analysis shows for every argument that selects
modes that its entries, not only its length, reach the result."""
import ast

from ..api import roots
from ..content import Flow
from ..interp import D, K, Lst, NONE, TOP, Tup, U
from ..modes import (ANY, Md, ModeDomain, ModeInterp, ONE, RANKD, ZERO, allw, comparable, full, modes_of, pieces_len, root_of, split_off, swap)
from ..report import Finding
from ..sizes import Poly
from ..units import src

FLOORS = {"keyed_arguments": 1, "selecting_arguments": 12, "functions_with_modes": 15, "selections": 6,
          "element_labels": 20, "reduced_results": 2}
ASSUMPTIONS = [
    "an array with 2N rows is ordered (x1..xN, p1..pN); the number of modes is larger than the constants it is compared with",
    "an index whose provenance is unknown raises no alarm",
]
N = Poly.var("N")
M = Poly.var("M")
VECS = {"mu", "mean", "means"}
MATS = {"cov", "V", "O", "Q"}
LISTS = {"modes", "modes_A"}
INTS = {"mode", "j", "k"}
# functions whose single-entry accesses must treat both quadratures alike
CLOSED = {"photon_number_mean", "photon_number_mean_vector", "photon_number_covar", "photon_number_covmat", "photon_number_expectation",
          "mean_clicks", "variance_clicks", "loss", "squeezing", "expand", "mean_photon_number", "expand_vector", "s_ordered_expectation",
          "photon_number_squared_expectation", "normal_ordered_expectation", "photon_number_moment"}
# arguments whose entries, not only their number, select modes
SELECTING = ("modes", "modes_A", "mode", "j", "k", "indices", "ind", "det_pattern", "post_select", "rpt", "pattern")
ANYMODES = ("modes", "modes_A", "mode", "j", "k", "indices", "ind")


def state(info, kinds, mode):
    """abstract arguments; ``mode`` is 'list', 'array' or 'int'"""
    b = {}
    for p in info.params:
        if p in VECS:
            b[p] = D(Md(ax=(full(N),), base="mu"))
        elif p in MATS and kinds.get(p) == "array":
            b[p] = D(Md(ax=(full(N), full(N)), base="cov"))
        elif p in LISTS and kinds.get(p) in ("list", "array"):
            b[p] = D(Md(i=Poly.var("m:" + p), dep="E", cls="builtins.int")) if mode == "int" else \
                D(Md(vec=((ZERO, ("par", p)),), dep="E", cls="builtins.list" if mode == "list" else "numpy.ndarray"))
        elif p in INTS and kinds.get(p) == "int":
            b[p] = D(Md(i=Poly.var("m:" + p)))
        elif p == "N" and kinds.get(p) == "int":
            b[p] = D(Md(i=N))
        elif p == "rpt" and any(x in info.params for x in MATS):
            b[p] = D(Md(ax=(full(N),), base="rpt"))
        elif p in ("alpha",) and kinds.get(p) == "complex":
            b[p] = D(Md(part="cplx"))
        elif p in info.defaults():
            continue
        else:
            b[p] = D(ANY)
    return b


def describe(l, N):
    if l == "*":
        return "all"
    s = split_off(l, N) if isinstance(l, Poly) else None
    if s is None:
        return repr(l)
    return f"{'p' if s[0] else 'x'}[{s[1]!r}]".replace("m:", "")


class Run:
    def __init__(self, prog, info, b, **kw):
        self.dom = ModeDomain()
        self.dom.entry = info.full
        for k, v in kw.items():
            setattr(self.dom, k, v)
        self.it = ModeInterp(prog, self.dom)
        self.rets = []
        dom = self.dom
        top = info

        def on_return(frame, val, node):
            if frame.info is top:
                self.rets.append((val, node))
            elif frame.info.name == top.name:
                pass

        dom.on_return = on_return
        self.ret = self.it.invoke(info, b, info.node)


def justified(info, node, guards):
    """a return of the unreduced arrays is made under a test that depends on the order of the listed modes"""
    anc = []

    def find(stmts, up):
        for s in stmts:
            if s is node:
                anc.extend(up)
                return True
            for f in ("body", "orelse", "finalbody"):
                if find(getattr(s, f, []) or [], up + ([s] if isinstance(s, ast.If) else [])):
                    return True
            for h in getattr(s, "handlers", []) or []:
                if find(h.body, up):
                    return True
        return False

    find(info.node.body, [])
    pool = anc if anc else [s for s in ast.walk(info.node) if isinstance(s, (ast.If, ast.IfExp))]
    return any(RANKD[guards.get(id(s), "")] >= RANKD["?"] for s in pool) or \
        any(isinstance(x, ast.IfExp) and RANKD[guards.get(id(x), "")] >= RANKD["?"] for x in ast.walk(node))


def alts(v):
    return list(v.alts) if isinstance(v, U) else [v]


def results(info, run, kind, add, stats):
    """the reduced mean vector and covariance matrix"""
    for val, node in run.rets:
        for t in alts(val):
            if not isinstance(t, Tup) or len(t.items) != 2:
                continue
            stats["reduced_results"] += 1
            guards = run.dom.guards.get(info.full, {})
            for part, what in zip(t.items, ("means", "covariance matrix")):
                for v in alts(part):
                    if not isinstance(v, D) or v.p.ax is None:
                        continue
                    for ax in v.p.ax:
                        if ax is None:
                            continue
                        if modes_of(ax) is not None:
                            if kind != "int" and not justified(info, node, guards):
                                add(f"order:{info.full}:unreduced", info.loc(node), f"{info.full} returns the state without "
                                    f"selecting the modes, under no test that the modes are all modes in order: `{src(node)}`")
                            continue
                        if kind == "int" or len(ax) != 2:
                            if kind == "int" and len(ax) == 2 and all(w == ONE for _, w in ax):
                                a, b = split_off(ax[0][0], N), split_off(ax[1][0], N)
                                if a and b and (a[0], b[0]) != (0, 1):
                                    add(f"order:{info.full}:quadratures", info.loc(node), f"{info.full} returns the {what} with "
                                        f"the quadratures in the wrong places: `{src(node)}`")
                            if len(ax) == 1 and ax[0][1] != ONE and split_off(ax[0][0], N) is not None:
                                add(f"order:{info.full}:half", info.loc(node), f"{info.full} returns only one quadrature of the {what}: `{src(node)}`")
                            continue
                        offs = [split_off(o, N) for o, _ in ax]
                        if None in offs:
                            continue
                        if [o[0] for o in offs] != [0, 1]:
                            add(f"order:{info.full}:quadratures", info.loc(node), f"{info.full} returns the {what} with positions and "
                                f"momenta in the wrong places: `{src(node)}`")
                        for _, w in ax:
                            r, tr = root_of(w)
                            if r[0] == "all" and r[1] != N:
                                add(f"order:{info.full}:word", info.loc(node), f"{info.full} returns the {what} for the first modes "
                                    f"instead of the listed ones: `{src(node)}`")
                            if r == ("par", "modes") and tr and tr != ("perm",):
                                add(f"order:{info.full}:word", info.loc(node), f"{info.full} returns the {what} for the "
                                    f"{'/'.join(tr)} modes, not in the order the caller listed them: `{src(node)}`")
                        for o in offs:
                            if o[1] != ZERO:
                                add(f"order:{info.full}:offset", info.loc(node), f"{info.full} returns the {what} of modes shifted by "
                                    f"{o[1]!r}: `{src(node)}`")


def closure(run, add, stats, only, seen):
    for what, table in (("read", run.dom.gets), ("written", run.dom.sets)):
        for (fn, base), t in table.items():
            if t["bad"]:
                continue
            if not any(fn.split(".")[-1] == x for x in only):
                continue
            labs = t["labels"]
            norm = set()
            rec = []
            ok = True
            for ls, (where, text, path, ax) in labs.items():
                Ns = [modes_of(a) if a is not None else None for a in ax]
                if any(l != "*" and n is None for l, n in zip(ls, Ns)):
                    # entries of an array selected from the state before still say which quadrature they are
                    if what == "written" or base.startswith("new:"):
                        ok = False
                        break
                Ns = [N if n is None else n for n in Ns]
                if any(l != "*" and split_off(l, n) is None for l, n in zip(ls, Ns)):
                    ok = False
                    break
                norm.add(key(ls, what == "read"))
                rec.append((ls, where, text, path, Ns))
            if not ok or not rec:
                continue
            seen.add(fn)
            for ls, where, text, path, Ns in rec:
                sw = tuple(l if l == "*" else swap(l, n) for l, n in zip(ls, Ns))
                if key(sw, what == "read") not in norm:
                    add(f"quadratures:{fn}:{base.split(':')[0]}:{what}", where,
                        f"{fn}: ({', '.join(describe(l, n) for l, n in zip(ls, Ns))}) is {what} but ({', '.join(describe(l, n) for l, n in zip(sw, Ns))}) is not: `{text}`", path)
                    break
                if what == "written" and "*" in ls and tuple(ls[::-1]) not in labs:
                    add(f"rows:{fn}:{base.split(':')[0]}", where, f"{fn}: rows and columns of different entries are changed: `{text}`", path)
                    break


def key(ls, sym):
    return tuple(sorted(map(repr, ls))) if sym else tuple(map(repr, ls))


def dict_order(info):
    """places where the values of a {mode: number} argument are taken by the position at which the caller wrote them"""
    from ..setorder import FREE, loop_free
    names = {"post_select"}
    par = {}
    for x in ast.walk(info.node):
        for c in ast.iter_child_nodes(x):
            par[id(c)] = x
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            v = x.value
            if isinstance(v, ast.Call) and ast.unparse(v.func) in ("dict", "copy.copy", "post_select.copy") and v.args:
                v = v.args[0]
            if isinstance(v, ast.Name) and v.id in names:
                names.add(x.targets[0].id)
    seq = ("list", "tuple", "map", "iter", "array", "asarray", "fromiter", "reversed")
    pairs, bad = False, []
    for x in ast.walk(info.node):
        if not isinstance(x, ast.Name) or x.id not in names or not isinstance(x.ctx, ast.Load):
            continue
        top, p = x, par.get(id(x))
        kind = "keys"
        if isinstance(p, ast.Attribute):
            if p.attr not in ("values", "keys", "items"):
                continue
            kind = p.attr
            top = par.get(id(p))
            p = par.get(id(top))
            if not isinstance(top, ast.Call):
                continue
        elif isinstance(p, (ast.Subscript, ast.Compare, ast.IfExp, ast.Assign, ast.keyword, ast.Return, ast.If, ast.BoolOp, ast.UnaryOp)):
            continue
        elif isinstance(p, ast.Call) and ast.unparse(p.func).split(".")[-1] not in FREE and ast.unparse(p.func).split(".")[-1] not in seq + ("zip", "enumerate", "next"):
            continue
        while isinstance(p, (ast.Starred, ast.GeneratorExp, ast.comprehension)) or isinstance(p, ast.Call) and top is not p.func and \
                ast.unparse(p.func).split(".")[-1] in seq:
            top, p = p, par.get(id(p))
        if isinstance(p, ast.Call) and top is not p.func and ast.unparse(p.func).split(".")[-1] in FREE:
            continue
        if isinstance(p, ast.For) and top is p.iter and loop_free(p) or isinstance(p, ast.Compare):
            continue
        if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name):
            uses = [y for y in ast.walk(info.node) if isinstance(y, ast.Name) and y.id == p.targets[0].id and isinstance(y.ctx, ast.Load)]
            if uses and all(isinstance(par.get(id(y)), ast.Call) and ast.unparse(par[id(y)].func).split(".")[-1] in FREE for y in uses):
                continue
        if kind == "values":
            bad.append((x, p))
        else:
            pairs = True
    return [] if pairs else bad


def check(prog):
    findings = {}
    stats = {"functions_with_modes": 0, "runs": 0, "selecting_arguments": 0, "keyed_arguments": 0, "selections": 0, "stores": 0, "element_labels": 0, "axis_orders": 0, "reduced_results": 0,
             "closed_functions": 0}
    seen = set()
    analysed = set()

    def add(k, where, msg, path=None):
        if k not in findings:
            findings[k] = Finding(k, where, msg, path or [])

    flow = Flow(prog)
    for info, kinds in roots(prog)[0]:
        for p in info.params:
            if p in SELECTING and any(isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None)
                                        for x in ast.walk(info.node)):
                stats["selecting_arguments"] += 1
                if p not in flow.result(info):
                    add(f"content:{info.full}:{p}", info.loc(), f"the result of {info.full} depends on {p} at most through its length: "
                        "the modes listed are not the ones used")
    for info in prog.functions():
        if "post_select" in info.params:
            stats["keyed_arguments"] += 1
            for x, p in dict_order(info):
                add(f"keyed:{info.full}", info.loc(x), f"{info.full} takes the post-selected numbers in the order they were written in the dictionary, "
                    f"not by their modes: `{src(p)[:80]}`")
    for info, kinds in roots(prog)[0]:
        has = any(p in ANYMODES for p in info.params)
        st = any(p in VECS or p in MATS and kinds.get(p) == "array" for p in info.params)
        if not has and not st and info.name not in ("squeezing", "tor", "ltor", "numba_tor", "numba_ltor", "mtl", "lmtl"):
            continue
        stats["functions_with_modes"] += has
        todo = []
        if info.name == "expand":
            for m, big in ((M, {"M", "N"}), (Poly.const(1), {"N"})):
                for mode in ("list", "array", "int"):
                    if mode == "int" and m == M:
                        continue
                    b = state(info, kinds, mode)
                    b["S"] = D(Md(ax=(full(m), full(m)), base="S"))
                    todo.append((b, dict(src_modes=m, big=frozenset(big)), mode))
        else:
            for mode in ("list", "array", "int"):
                if mode != "list" and not any(p in LISTS for p in info.params):
                    continue
                b = state(info, kinds, mode)
                kw = dict(big=frozenset({"N"}))
                if info.name == "squeezing":
                    b["r"] = D(Md(ax=(((ZERO, allw(N)),),)))
                if info.name == "expand_passive":
                    b["T"] = D(Md(ax=(((ZERO, allw(M)),), ((ZERO, allw(M)),)), base="T"))
                    kw = dict(src_modes=None, big=frozenset({"N", "M"}))
                if info.module.name.endswith(("_torontonian", "_montrealer")) and info.params and kinds.get(info.params[0]) == "array":
                    b[info.params[0]] = D(Md(ax=(full(N), full(N)), base="cov"))
                todo.append((b, kw, mode))
        for b, kw, mode in todo:
            run = Run(prog, info, b, **kw)
            stats["runs"] += 1
            stats["selections"] += run.dom.nsel
            stats["stores"] += run.dom.nstore
            stats["axis_orders"] += run.dom.naxes
            stats["element_labels"] += run.dom.nlab
            analysed |= run.it.analysed
            for k, (where, msg, path) in run.dom.hits.items():
                add(k, where, msg, path)
            closure(run, add, stats, CLOSED, seen)
            if info.name in ("reduced_gaussian", "reduced_state"):
                results(info, run, mode, add, stats)
    stats["closed_functions"] = len(seen)
    stats["functions"] = len(analysed)
    stats["closed"] = sorted(seen)
    return list(findings.values()), stats
