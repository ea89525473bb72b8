"""Sampler protocol, by five data-flow analyses over every sampler and everything it calls: (rows) the number of returned
shots as a polynomial in the parameters, from an accounting of every way through the loops that collect shots, equals
the requested number; (abandoned) the sentinel a shot generator returns for an abandoned shot cannot reach the returned
collection; (order) the word of mode permutations applied to the data and undone on the outcome is the identity, and
permuted and unpermuted data are never combined; (limit) the photon/click limit is compared with the total of the shot,
strictly; (weights) every probability vector handed to a weighted draw is divided by its own sum (or completed to one)."""
import ast

from ..api import roots
from ..interp import D, Dct, Interp, K, Lst, NONE, TOP, Tup, U
from ..loader import AnalysisError
from ..orders import NEUT, Ord, OrdDomain
from ..report import Finding
from ..sizes import ANY, Deficit, Poly, SizeDomain, SizeInterp, Sz, same
from ..terms import TermDomain, UNK, mk, num, subterms
from .c04 import SAMPLERS

# documented to return -1 for an abandoned shot themselves
SINGLE_SHOT = {"generate_hafnian_sample", "generate_torontonian_sample"}
FLOORS = {"samplers": 7, "row_counts_proven": 6, "orders_checked": 4, "permutations_applied": 2,
          "weighted_draws": 2, "limit_tests": 1, "abandon_values_followed": 4}
ASSUMPTIONS = ["the number of requested shots is a non-negative integer", "photon_means_order and argsort return permutations",
               "weights whose origin is unknown raise no alarm"]
COUNT = ("samples", "num_samples", "n_samples")
STRIP = {"flatten", "ravel", "reshape", "asarray", "array", "real", "py.float", "astype", "copy", "squeeze", "ascontiguousarray", "tolist",
         "float64", "py.list"}
ARITH = {"multiply", "power", "abs", "add", "subtract", "exp", "square", "conj", "sqrt", "negative", "matmul", "maximum", "arr", "divide",
         "minimum", "clip", "imag", "cumsum", "sort", "sin", "cos"}


def sampler_roots(rs):
    out = []
    for info, kinds in rs:
        mod = ".".join(info.module.name.split(".")[1:])
        s = SAMPLERS.get(mod) or SAMPLERS.get(mod.split(".")[-1])
        if s and info.name in s:
            out.append((info, kinds))
    return out


def bools(info, kinds):
    sw = [p for p in info.params if kinds.get(p) == "bool"]
    nn = [p for p in info.params if isinstance(info.defaults().get(p), ast.Constant) and info.defaults()[p].value is None]
    cfgs = [{}]
    for p in sw:
        cfgs = [dict(c, **{p: v}) for c in cfgs for v in (K(False), K(True))]
    for p in nn:
        cfgs = [dict(c, **{p: v}) for c in cfgs for v in (NONE, None)]
    return cfgs[:16]


def name_cfg(c):
    s = ", ".join(f"{p}={'given' if v is None else v.v}" for p, v in sorted(c.items()))
    return f" (with {s})" if s else ""


# --------------------------------------------------------------------------- weights
def strip(t):
    while t.name in STRIP and t.args:
        t = t.args[0]
    return t


def base(t):
    t = strip(t)
    while t.name in ("getitem", "elem") and t.args:
        t = strip(t.args[0])
    return t


def sums(t):
    return [x for x in subterms(t) if x.name in ("sum", "nansum", "linalg.norm")]


def normalised(t, depth=0):
    """True: sums to one; False: certainly not normalised; None: unknown"""
    t = strip(t)
    if depth > 8 or t.name == "?" or t.name.startswith(("v:", "call:", "draw:", "ext:", "fn:")):
        return None
    if t.name == "phi":
        r = [normalised(a, depth + 1) for a in t.args]
        return False if False in r else None if None in r else True
    if t.name == "elem":
        x = strip(t.args[0])
        if x.name in ("listof", "seq") and x.args:
            r = [normalised(a, depth + 1) for a in x.args]
            return False if False in r else None if None in r else True
        return rows(x, depth)
    if t.name == "getitem":
        x = strip(t.args[0])
        if x.name in ("listof", "seq") and x.args:
            r = [normalised(a, depth + 1) for a in x.args]
            return False if False in r else None if None in r else True
        if x.name == "arr":
            r = [normalised(s.args[1], depth + 1) for s in x.args[1:]]
            return False if False in r else None if None in r else True
        return rows(x, depth)
    if t.name == "divide":
        a, b = strip(t.args[0]), t.args[1]
        ss = sums(b)
        if not ss:
            if b.unk and any(x.name.startswith(("v:", "?")) for x in subterms(b)):
                return None
            return False
        for s in ss:
            x = strip(s.args[0])
            if x is a:
                return True
            ax = len(s.args) > 1
            if base(x) is base(a):
                if x is base(a) and a.name in ("getitem", "elem") and not ax:
                    return False     # a row divided by the sum of the whole table
                return True
            if a.name in ARITH and any(y is x for z in a.args for y in [strip(z)]):
                return False         # divided by the sum of a value it had before another operation
        return None if a.unk or b.unk else False
    if t.name in ("append", "concatenate", "hstack"):
        parts = list(t.args[0].args) if t.name != "append" and t.args and t.args[0].name == "seq" else list(t.args)
        if len(parts) == 2:
            a, r = strip(parts[0]), strip(parts[1])
            if r.name == "seq" and len(r.args) == 1:
                r = r.args[0]
            if r.name == "subtract" and r.args[0].name == "k:1.0":
                ss = sums(r.args[1])
                if any(strip(s.args[0]) is a for s in ss):
                    return True
            return None if r.unk or a.unk else False
        return None
    if t.name.startswith("p:") or t.name in ARITH:
        return None if t.name in ("arr", "add", "subtract") and t.unk else False
    return None


def rows(x, depth):
    """are the rows of a table normalised"""
    if x.name == "divide":
        for s in sums(x.args[1]):
            if strip(s.args[0]) is strip(x.args[0]):
                return True if len(s.args) > 1 else False
        return None
    return None


class WDom(TermDomain):
    name_unknown = True
    unroll = 0

    def __init__(self, opaque):
        super().__init__(opaque)
        self.compares = []

    def compare(self, op, a, b, node):
        r = super().compare(op, a, b, node)
        self.compares.append((node, self.T(r), self.it.cur, self.it.call_path()))
        return r


class ODom(OrdDomain):
    pass


def check(prog):
    rs, missing = roots(prog)
    if len(missing) > 10:
        raise AnalysisError("public functions not found: " + ", ".join(missing))
    public = {info.full for info, _ in rs}
    st = {"samplers": 0, "option_combinations": 0, "row_counts_proven": 0, "row_counts_unknown": 0, "orders_checked": 0,
          "permutations_applied": 0, "weighted_draws": 0, "weights_unknown": 0, "limit_tests": 0, "limit_tests_unknown": 0,
          "abandon_values_followed": 0}
    found = {}

    def add(key, where, msg, path=None):
        found.setdefault(key, Finding(key, where, msg, path))

    perms, draws, limits, unkw = set(), set(), set(), set()
    for info, kinds in sampler_roots(rs):
        st["samplers"] += 1
        for cfg in bools(info, kinds):
            st["option_combinations"] += 1
            cn = name_cfg(cfg)
            rows_(prog, info, kinds, cfg, cn, st, add)
            order_(prog, info, kinds, cfg, cn, st, add, public, perms)
            terms_(prog, info, kinds, cfg, cn, st, add, public, draws, limits, unkw)
    st["permutations_applied"] = len(perms)
    st["weighted_draws"] = len(draws)
    st["weights_unknown"] = len(unkw)
    st["limit_tests"] = len(limits)
    st["functions_not_found"] = missing
    return list(found.values()), st


def rows_(prog, info, kinds, cfg, cn, st, add):
    want = next((p for p in info.params if p in COUNT), None)
    dom = SizeDomain()
    it = SizeInterp(prog, dom)
    b = {}
    for p in info.params:
        v = cfg.get(p)
        b[p] = v if v is not None else D(Sz(val=Poly.var(p)))
        if kinds.get(p) == "array" and v is None:
            b[p] = D(ANY)
    r = it.invoke(info, b, info.node)
    p = dom.L(r)
    for val, g in sorted(p.sent):
        if g == info.full or info.name in SINGLE_SHOT:
            continue
        add(f"abandoned:{info.full}:{g}", info.loc(), f"{info.full}: the value {val} that {g} returns for an abandoned shot can be among the "
            f"returned samples{cn}")
    st["abandon_values_followed"] += len(dom.sentinels)
    if want is None:
        return
    n = it.size(r)
    if n is None:
        st["row_counts_unknown"] += 1
    elif isinstance(n, Deficit):
        add(f"rows:{info.full}:{n.key}", n.where, f"{info.full} does not return {want} shots on every path: {n.why}{cn}")
    elif same(n, Poly.var(want)):
        st["row_counts_proven"] += 1
    else:
        add(f"rows:{info.full}", info.loc(), f"{info.full} returns {n} shots instead of {want}{cn}")


def order_(prog, info, kinds, cfg, cn, st, add, public, perms):
    ixmap = {}
    for _ in range(2):
        dom = OrdDomain(ixmap, public)
        it = Interp(prog, dom)
        b = {}
        for p in info.params:
            v = cfg.get(p)
            b[p] = v if v is not None else D(Ord(()) if kinds.get(p) == "array" else NEUT)
        r = it.invoke(info, b, info.node)
    if not dom.applied and not dom.conflicts:
        return
    for w in dom.applied:
        perms.add(w[0])
    for k, (where, text, ws, path) in sorted(dom.conflicts.items()):
        add(f"order-mixed:{k}", where, f"data in different mode orders are combined in `{text}`: {' and '.join(show(w) for w in ws)}{cn}", list(path))
    alts = r.alts if isinstance(r, U) else [r]
    for x in alts:
        if isinstance(x, K):
            continue
        p = dom.L(x)
        if p.perm is not None:
            continue
        st["orders_checked"] += 1
        if p.w is not None and p.w != "?" and p.w != ():
            add(f"order:{info.full}", info.loc(), f"{info.full} returns its modes in the order {show(p.w)}, not in the order of the input{cn}")


def show(w):
    if w == ():
        return "the input order"
    if w == "?":
        return "an unknown order"
    return " then ".join(("" if s == 1 else "inverse of ") + a.split(".")[-1] for a, s in w)


def terms_(prog, info, kinds, cfg, cn, st, add, public, draws, limits, unkw):
    dom = WDom(lambda g: g.parent is None and g.full in public and not g.module.name.endswith(("samples", "squeezers")))
    it = Interp(prog, dom)
    b = {}
    for p in info.params:
        v = cfg.get(p)
        b[p] = v if v is not None else D(mk("p:" + p))
    it.invoke(info, b, info.node)
    for c, args, kw, node, path, cur in dom.exts:
        if c not in ("random.choice", "random.multinomial", "choice", "multinomial"):
            continue
        v = kw.get("p") or kw.get("pvals") or (args[3] if c.endswith("choice") and len(args) > 3 else
                                             args[1] if c.endswith("multinomial") and len(args) > 1 else None)
        if v is None or isinstance(v, K):
            continue
        k = (cur.full, node.lineno, node.col_offset)
        draws.add(k)
        n = normalised(dom.T(v))
        if n is None:
            unkw.add(k)
        elif n is False:
            add(f"weights:{cur.full}:{ast.unparse(node)[:60]}", cur.loc(node), f"{cur.full}: the weights of `{ast.unparse(node)}` are not divided by "
                f"their own sum ({short(dom.T(v))}){cn}", path)
    for node, t, finfo, path in dom.compares:
        if t.name not in ("Gt", "GtE", "Lt", "LtE", "Eq", "NotEq") or len(t.args) != 2:
            continue
        for i, j in ((0, 1), (1, 0)):
            if t.args[i].name != "p:max_photons":
                continue
            x = strip(t.args[j])
            k = (finfo.full, getattr(node, "lineno", 0))
            limits.add(k)
            op = t.name
            if i == 0:
                op = {"Gt": "Lt", "Lt": "Gt", "GtE": "LtE", "LtE": "GtE"}.get(op, op)
            if op not in ("Gt", "LtE"):
                if not x.name.startswith(("v:", "?")) and x.name in ("sum", "count_nonzero", "matmul", "dot"):
                    add(f"limit-strict:{finfo.full}", finfo.loc(node), f"{finfo.full}: a shot with exactly max_photons is treated as exceeding "
                        f"the limit by `{ast.unparse(node)}`{cn}", path)
            elif x.name in ("max", "min", "getitem", "py.len", "size", "mean", "prod", "argmax"):
                add(f"limit-total:{finfo.full}", finfo.loc(node), f"{finfo.full}: max_photons is compared with {short(x)}, not with the total "
                    f"of the shot{cn}", path)


def short(t):
    s = repr(t).replace("p:", "").replace("k:", "")
    return s if len(s) < 120 else s[:117] + "..."
