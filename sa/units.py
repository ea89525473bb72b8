"""C01: dimension analysis.  hbar and covariances carry dimension 1, means 1/2.

A dimension is a frozenset of possible exponents, "Z" (zero, any dimension) or
"T" (unknown).  Adding, comparing or storing together quantities whose
dimensions certainly differ makes the result depend on the unit the caller
chose for hbar; the site is remembered in the value (``errs``) and reported
when the value reaches a result, a branch or a random draw.
"""
import ast
from fractions import Fraction as Fr

from .interp import (BOT, NONE, TOP, U, D, Dct, Domain, Ext, Fn, Interp, K, Lst, Slice, Tup)
from .npk import CAT, canon
from .report import Finding

H = Fr(1, 2)
ZERO = frozenset([Fr(0)])
NOERR = frozenset()
GENERIC = 1009


class Un:
    __slots__ = ("u", "e", "n")

    def __init__(self, u, e=NOERR, n=None):
        self.u, self.e, self.n = u, e, n

    def __repr__(self):
        return f"Un({self.u if isinstance(self.u, str) else [str(x) for x in self.u]},{set(self.e) or ''})"


def un(x, e=NOERR, n=None):
    return Un(frozenset([Fr(x)]), e, n)


T_ = Un("T")
Z_ = Un("Z")
ONE_ = un(0)

PARAM_UNITS = {
    "cov": 1, "cov1": 1, "cov2": 1, "V": None, "mu": H, "mu1": H, "mu2": H, "mean": H, "hbar": 1,
}
TOLS = {"atol", "rtol", "tol", "eps"}
# kernels whose result is meaningful only for dimensionless matrices
KERNELS = {
    "hafnian", "loop_hafnian", "hafnian_repeated", "hafnian_batched", "hermite_multidimensional", "perm", "tor", "ltor",
    "permanent_repeated", "loop_hafnian_batch", "loop_hafnian_batch_gamma", "mtl", "lmtl", "numba_tor", "numba_ltor",
    "rec_torontonian", "rec_ltorontonian", "low_rank_hafnian", "hafnian_banded", "hafnian_sparse", "interferometer_",
    "recursive_hafnian", "charpoly", "powertrace", "matched_reps",
}


class UnitDomain(Domain):
    max_depth = 18
    unroll = 4

    def __init__(self):
        self.errors = {}
        self.reported = {}
        self.unknown = {}
        self.ops = 0
        self.hbar_consts = {}
        self.root = None
        self.sinks = 0

    # -- lattice
    def top(self):
        return T_

    def const(self, v):
        if v is None or isinstance(v, str):
            return T_
        if isinstance(v, bool):
            return ONE_
        try:
            if v == 0 or v != v or v in (float("inf"), float("-inf")):
                return Z_
        except Exception:
            return T_
        return ONE_

    def key(self, p):
        return (p.u if isinstance(p.u, str) else tuple(sorted(p.u)), tuple(sorted(p.e)), p.n)

    def join(self, p, q):
        e = p.e | q.e
        n = p.n if p.n == q.n else None
        if p.u == "T" or q.u == "T":
            return Un("T", e, n)
        if p.u == "Z":
            return Un(q.u, e, n)
        if q.u == "Z":
            return Un(p.u, e, n)
        u = p.u | q.u
        return Un(u if len(u) <= 4 else "T", e, n)

    def lift_seq(self, ps):
        if not ps:
            return Z_
        r = ps[0]
        for q in ps[1:]:
            r = self.join(r, q)
        return Un(r.u, r.e, None)

    def index_value(self):
        return ONE_

    def iter_elem(self, p):
        return D(Un(p.u, p.e, None))

    # -- helpers
    def L(self, v):
        return self.it.lift(v)

    def err(self, node, rule, msg):
        f = self.it.cur
        key = f"{rule}:{f.full if f else '?'}"
        if key not in self.errors:
            self.errors[key] = Finding(key, self.it.where(node), f"{msg}: `{src(node)}`", self.it.call_path())
        return frozenset([key])

    def report(self, keys, how, node=None):
        for k in keys:
            if k in self.errors and k not in self.reported:
                f = self.errors[k]
                self.reported[k] = Finding(k, f.where, f"{f.message} (reaches {how})", f.path)

    def unify(self, ps, node, rule, what, exempt=()):
        r = ps[0]
        e = r.e
        for q in ps[1:]:
            e = e | q.e
            if r.u == "T" or q.u == "T":
                r = Un("T", e)
            elif r.u == "Z":
                r = Un(q.u, e)
            elif q.u == "Z":
                r = Un(r.u, e)
            else:
                u = r.u & q.u
                self.ops += 1
                if not u:
                    e = e | self.err(node, rule, f"{what} of quantities scaling as {show(r.u)} and {show(q.u)}")
                    r = Un("T", e)
                else:
                    r = Un(u, e)
        return Un(r.u, e, ps[0].n if all(p.n == ps[0].n for p in ps) else None)

    def mulu(self, a, b, sgn=1):
        if a.u == "Z" or (b.u == "Z" and sgn > 0):
            return "Z"
        if b.u == "Z":
            return a.u
        if a.u == "T" or b.u == "T":
            return "T"
        u = frozenset(x + sgn * y for x in a.u for y in b.u)
        return u if len(u) <= 4 else "T"

    def scale(self, p, k):
        if isinstance(p.u, str):
            return p.u
        return frozenset(x * k for x in p.u)

    def dimless(self, ps, node, what):
        e = NOERR
        for p in ps:
            e = e | p.e
            if not isinstance(p.u, str):
                self.ops += 1
                if Fr(0) not in p.u:
                    e = e | self.err(node, "dimensionful-argument", f"{what} of a quantity scaling as {show(p.u)}")
        return e

    # -- operations
    def binop(self, op, a, b, node):
        p, q = self.L(a), self.L(b)
        e = p.e | q.e
        if op in ("Add", "Sub"):
            return D(self.unify([p, q], node, "mixed-units", "sum"))
        if op in ("Mult", "MatMult"):
            n = p.n if op == "MatMult" and p.n == q.n else (p.n or q.n if op == "Mult" else None)
            return D(Un(self.mulu(p, q), e, n))
        if op == "Div":
            return D(Un(self.mulu(p, q, -1), e, p.n))
        if op == "FloorDiv":
            return D(Un(self.mulu(p, q, -1), e))
        if op == "Mod":
            return D(Un(p.u, e))
        if op == "Pow":
            return D(self.power(p, b, e, node))
        return D(Un(ZERO, e))

    def power(self, p, b, e, node):
        if p.u in ("T", "Z"):
            return Un(p.u, e, p.n)
        if p.u == ZERO:
            return Un(ZERO, e, p.n)
        if isinstance(b, K) and isinstance(b.v, (int, float)) and not isinstance(b.v, bool):
            k = Fr(b.v).limit_denominator(64)
            return Un(self.scale(p, k), e, p.n)
        return Un("T", e, p.n)

    def unop(self, op, a, node):
        p = self.L(a)
        if op == "Not":
            return D(Un(ZERO, p.e))
        return D(p)

    def compare(self, op, a, b, node):
        p, q = self.L(a), self.L(b)
        if op in ("In", "NotIn", "Is", "IsNot"):
            return D(Un(ZERO, p.e | q.e))
        for x, y in ((a, q), (b, p)):
            if isinstance(x, K) and isinstance(x.v, float) and abs(x.v) < 1e-3:
                return D(Un(ZERO, p.e | q.e))
        r = self.unify([p, q], node, "mixed-comparison", "comparison")
        return D(Un(ZERO, r.e))

    def attr(self, v, name, node):
        p = self.L(v)
        if name in ("T", "real", "imag", "flat", "H", "mT"):
            return D(p)
        if name in ("shape",):
            return Lst(None, D(ONE_), "tuple")
        if name in ("size", "ndim", "dtype", "itemsize", "nbytes"):
            return D(ONE_) if name != "dtype" else D(T_)
        return D(Un("T", p.e))

    def getitem(self, v, idx, node):
        p = self.L(v)
        e = p.e
        return D(Un(p.u, e, None))

    def setitem(self, v, idx, val, node, aug=False):
        p, q = self.L(v), self.L(val)
        r = self.unify([p, q], node, "mixed-units", "array store")
        if isinstance(v, D):
            return D(Un(r.u if r.u != "Z" else p.u, r.e, p.n))
        return v

    def select(self, t, a, b, node):
        return None

    def attr_ok(self):
        return True

    def method(self, v, name, args, kw, node):
        if name in ("shape",):
            return Lst(None, D(ONE_), "tuple")
        return self.call_ext("numpy." + name, [v] + list(args), kw, node)

    def inplace_method(self, obj, name, args, kw, n):
        return None

    def call_ext(self, name, args, kw, node):
        c = canon(name)
        cat = CAT.get(c)
        ps = [self.L(a) for a in args]
        alle = NOERR
        for p in ps:
            alle = alle | p.e
        p0 = ps[0] if ps else T_
        if c == "allclose" or c == "isclose":
            a, b = (args + [kw.get("b", TOP)])[:2] if len(args) < 2 else args[:2]
            q = self.L(b)
            r = self.unify([p0, q], node, "mixed-comparison", "comparison")
            return D(Un(ZERO, r.e))
        if c in ("random.multivariate_normal",):
            return self.multivariate(args, kw, node)
        if c.startswith("random.") or c.startswith("stats."):
            return self.random(c, args, kw, ps, node)
        if c in ("linalg.eigh", "linalg.eig"):
            if isinstance(kw.get("eigvals_only"), K) and kw["eigvals_only"].v:
                return D(Un(p0.u, p0.e))
            return Tup([D(Un(p0.u, p0.e)), D(Un(ZERO, p0.e))])
        if c == "linalg.svd":
            if isinstance(kw.get("compute_uv"), K) and not kw["compute_uv"].v:
                return D(Un(p0.u, p0.e))
            return Tup([D(Un(ZERO, p0.e)), D(Un(p0.u, p0.e)), D(Un(ZERO, p0.e))])
        if c == "linalg.qr":
            return Tup([D(Un(ZERO, p0.e)), D(Un(p0.u, p0.e))])
        if c == "linalg.rq":
            return Tup([D(Un(p0.u, p0.e)), D(Un(ZERO, p0.e))])
        if c == "linalg.schur":
            return Tup([D(Un(p0.u, p0.e)), D(Un(ZERO, p0.e))])
        if c == "linalg.polar":
            # left: u p or p u, the positive part carries the dimension
            return Tup([D(Un(ZERO, p0.e)), D(Un(p0.u, p0.e))])
        if c in ("linalg.solve", "linalg.cho_solve", "linalg.solve_triangular") and len(ps) >= 2:
            return D(Un(self.mulu(ps[1], ps[0], -1), alle))
        if c == "einsum":
            r = None
            for p in ps[1:]:
                r = p if r is None else Un(self.mulu(r, p), r.e | p.e)
            return D(Un(r.u, r.e) if r else T_)
        if c == "tensordot":
            return D(Un(self.mulu(ps[0], ps[1]), alle)) if len(ps) >= 2 else D(T_)
        if c == "divmod" or c == "py.divmod":
            return Tup([D(ONE_), D(ONE_)])
        if cat == "same":
            if c in ("max", "min") and name.startswith("builtins.") and len(ps) > 1:
                return D(self.unify(ps, node, "mixed-comparison", "maximum"))
            if c in ("sort", "unique"):
                return D(Un(p0.u, NOERR))
            return D(Un(p0.u, p0.e, p0.n if c in ("real", "transpose", "conj", "array", "asarray", "copy") else None))
        if cat == "add":
            return D(self.unify(ps[:2], node, "mixed-units", "sum")) if len(ps) >= 2 else D(T_)
        if cat == "concat":
            vals = ps
            if c != "append" and c != "block_diag" and args:
                its = self.it.items_of(args[0])
                if its is None:
                    vals = [p0]
                else:
                    vals = []
                    for x in its:
                        sub = self.it.items_of(x) if c == "block" else None
                        vals.extend(self.L(y) for y in (sub if sub is not None else [x]))
            return D(self.unify(vals, node, "mixed-units", "array") if vals else Z_)
        if cat == "mul":
            r = None
            for p in ps[: 2 if c != "multi_dot" else None]:
                r = p if r is None else Un(self.mulu(r, p), r.e | p.e, r.n if r.n == p.n else None)
            if c == "multi_dot":
                r = T_
            return D(Un(r.u, r.e | alle, r.n) if r else T_)
        if cat == "div":
            return D(Un(self.mulu(ps[0], ps[1], -1), alle)) if len(ps) >= 2 else D(T_)
        if cat == "sel":
            if c == "where" and len(ps) < 3:
                return Lst(None, D(Un(ZERO, alle)), "tuple")
            vals = ps[1:3] if c == "where" else ps[:2] if c != "clip" else ps[:3]
            vals = [v for v, a in zip(vals, args[1:] if c == "where" else args) if not (isinstance(a, K) and a.v is None)]
            r = self.unify(vals, node, "mixed-units", c)
            return D(Un(r.u, alle | r.e))
        if cat == "zeros":
            return D(Z_)
        if cat == "ones":
            return D(Un(ZERO))
        if cat == "full":
            return D(Un(ps[1].u, alle)) if len(ps) > 1 else D(T_)
        if cat == "bool":
            return D(Un(ZERO, alle))
        if cat == "index":
            if c in ("argsort", "lexsort", "argpartition"):
                return D(Un(ZERO, NOERR))  # the order is not affected by a common scale
            if c in ("nonzero", "unravel_index"):
                return Lst(None, D(Un(ZERO, alle)), "tuple")
            if c == "shape":
                return Lst(None, D(ONE_), "tuple")
            return D(Un(ZERO, alle))
        if cat == "trans":
            return D(Un(ZERO, self.dimless(ps[:2], node, c.split(".")[-1])))
        if cat == "sqrt":
            return D(Un(self.scale(p0, H), p0.e, p0.n))
        if cat == "square":
            return D(Un(self.scale(p0, 2), p0.e, p0.n))
        if cat == "var":
            return D(Un(self.scale(p0, 2), p0.e))
        if cat == "power":
            return D(self.power(p0, args[1] if len(args) > 1 else TOP, alle, node))
        if cat == "recip":
            return D(Un(self.scale(p0, -1), p0.e, p0.n))
        if cat == "prod":
            return D(Un(p0.u if p0.u in ("Z", "T") or p0.u == ZERO else "T", alle))
        if cat == "det":
            if p0.u == ZERO or isinstance(p0.u, str):
                return D(Un(p0.u, p0.e))
            # a determinant of unknown size scales like a generic power
            return D(Un(self.scale(p0, p0.n or GENERIC), p0.e))
        if cat == "norm":
            return D(Un(p0.u, p0.e))
        if cat == "number":
            return D(Un(p0.u, p0.e))
        if c == "linalg.slogdet":
            return Tup([D(ONE_), D(Un(ZERO if p0.u == ZERO else "T", p0.e))])
        if c.startswith("fft."):
            return D(Un(p0.u, p0.e))
        if c.startswith("py.") or name.startswith("numpy.dtype"):
            return D(Un("T", alle))
        self.unknown[name] = self.unknown.get(name, 0) + 1
        return D(Un("T", alle))

    def multivariate(self, args, kw, node):
        mean = args[0] if args else kw.get("mean", TOP)
        cov = args[1] if len(args) > 1 else kw.get("cov", TOP)
        m, c = self.L(mean), self.L(cov)
        e = m.e | c.e
        half = Un(self.scale(c, H), c.e)
        if not isinstance(half.u, str) and not isinstance(m.u, str):
            self.ops += 1
            if not (half.u & m.u):
                e = e | self.err(node, "mixed-units",
                                 f"normal distribution with mean scaling as {show(m.u)} and covariance as {show(c.u)}")
        self.sinks += 1
        self.report(e, "a random draw", node)
        u = m.u if m.u != "Z" else half.u
        return D(Un(u, NOERR))

    def random(self, c, args, kw, ps, node):
        self.sinks += 1
        e = NOERR
        for p in ps + [self.L(v) for v in kw.values()]:
            e = e | p.e
        self.report(e, "a random draw", node)
        short = c.split(".")[-1]
        if short == "choice":
            pr = kw.get("p", args[3] if len(args) > 3 else None)
            if pr is not None:
                self.report(self.dimless([self.L(pr)], node, "probability vector"), "a random draw")
            return D(Un(self.L(args[0]).u if args else "T"))
        if short in ("geometric", "poisson", "binomial", "rvs", "exponential", "multinomial", "nbinom"):
            self.report(self.dimless([p for p in ps[:2]], node, "parameter of a random draw"), "a random draw")
            return D(ONE_)
        if short == "normal":
            vals = [p for p in ps[:2]] + [self.L(kw[k]) for k in ("loc", "scale") if k in kw]
            if vals:
                return D(self.unify(vals, node, "mixed-units", "normal distribution"))
            return D(ONE_)
        if short in ("rand", "randn", "random", "uniform", "randint", "permutation", "shuffle", "random_sample"):
            return D(ONE_)
        return D(T_)

    def call_unknown(self, f, args, kw, node):
        e = NOERR
        for a in args:
            e = e | self.L(a).e
        return D(Un("T", e))

    def summary(self, info, bound, node):
        if "hbar" in bound and isinstance(bound["hbar"], K) and isinstance(bound["hbar"].v, (int, float)):
            self.hbar_consts.setdefault(float(bound["hbar"].v), (info.full, self.it.where(node)))
        if info.public and info.name in KERNELS and self.it.stack and info.parent is None:
            ps = [self.L(v) for v in bound.values()]
            e = NOERR
            for v in ps:
                e = e | v.e
            bad = [v for v in ps if not isinstance(v.u, str)]
            e = e | self.dimless(bad, node, info.name)
            return D(Un(ZERO, e))
        return None

    def enter(self, info, bound, node):
        pass

    def branch(self, node, test, frame):
        self.sinks += 1
        p = self.L(test)
        if p.e:
            self.report(p.e, "a branch", node)

    def leave(self, info, bound, ret, node):
        # the order of a 2x2 or 2kx2k reduction is used for determinants of known size
        if info.name == "reduced_gaussian" and isinstance(ret, Tup) and len(ret.items) == 2:
            m = bound.get("modes")
            its = self.it.items_of(m) if m is not None else None
            if its is not None:
                a, b = ret.items
                if isinstance(b, D):
                    return Tup([a, D(Un(b.p.u, b.p.e, 2 * len(its)))])
        return ret

    def isinstance_(self, p, names):
        return None

    def mutate_list(self, lst, node, how, args=()):
        pass


def src(node):
    try:
        s = ast.unparse(node)
    except Exception:
        return "?"
    s = " ".join(s.split())
    return s if len(s) < 140 else s[:137] + "..."


def show(u):
    if isinstance(u, str):
        return u
    return " or ".join("dimensionless" if x == 0 else f"hbar^({x})" for x in sorted(u))


# expected dimension of results: public functions with an hbar parameter
CV = (H, 1)
EXPECT = {
    "threshold_detection_prob": 0, "random_covariance": 1, "decompose_cov": None, "mu_to_alpha": 0,
    "generate_hafnian_sample": 0, "hafnian_sample_state": 0, "generate_torontonian_sample": 0,
    "torontonian_sample_state": 0, "hafnian_sample_classical_state": 0, "torontonian_sample_classical_state": 0,
    "expand_vector": H, "vacuum_state": CV, "passive_transformation": CV, "loss": CV, "mean_photon_number": 0,
    "Qmat": 0, "Covmat": 1, "Amat": 0, "complex_to_real_displacements": 0, "real_to_complex_displacements": H,
    "vonneumann_entropy": 0, "entanglement_entropy": 0, "log_negativity": 0, "pure_state_amplitude": 0,
    "state_vector": 0, "density_matrix_element": 0, "density_matrix": 0, "probabilities": 0,
    "find_classical_subsystem": 0, "tvd_cutoff_bounds": 0, "n_body_marginals": 0, "is_valid_cov": 0,
    "is_pure_cov": 0, "is_classical_cov": 0, "fidelity": 0, "photon_number_mean": 0, "photon_number_mean_vector": 0,
    "photon_number_covar": 0, "photon_number_covmat": 0, "photon_number_expectation": 0,
    "photon_number_squared_expectation": 0, "normal_ordered_expectation": 0, "s_ordered_expectation": 0,
    "mean_clicks": 0, "variance_clicks": 0, "photon_number_moment": 0, "photon_number_cumulant": 0,
    "click_cumulant": 0, "pure_state_distribution": 0,
    # no hbar parameter: equivariant
    "reduced_gaussian": CV, "reduced_state": CV, "symplectic_eigenvals": 1, "williamson": (1, 0),
}
# per-parameter units that differ from PARAM_UNITS
OVERRIDE = {
    ("complex_to_real_displacements", "mu"): H,
    ("williamson", "V"): 1,
    ("expand_vector", "alpha"): 0,
    ("real_to_complex_displacements", "beta"): 0,
    ("Covmat", "Q"): 0,
    ("pure_state_distribution", "cov"): 1,
    ("loss", "T"): 0, ("loss", "nbar"): 0, ("passive_transformation", "T"): 0,
}


def variants(info):
    """Assignments of abstract values to the parameters of a root."""
    dfl = info.defaults()
    out = [{}]
    for p in info.params:
        d = dfl.get(p)
        u = OVERRIDE.get((info.name, p), PARAM_UNITS.get(p, "unknown"))
        alts = []
        if u == "unknown":
            if d is not None and isinstance(d, ast.Constant):
                if isinstance(d.value, bool):
                    alts = [K(True), K(False)]
                elif d.value is None:
                    alts = [NONE, D(ONE_)]
                elif isinstance(d.value, str):
                    alts = [D(T_)]
                else:
                    alts = [D(T_ if p in TOLS else ONE_)]
            else:
                alts = [D(T_ if p in TOLS else ONE_)]
        else:
            alts = [D(un(u))]
            if d is not None and isinstance(d, ast.Constant) and d.value is None:
                alts.append(NONE)
        nxt = []
        for b in out:
            for a in alts:
                nb = dict(b)
                nb[p] = a
                nxt.append(nb)
        out = nxt
        if len(out) > 64:
            out = out[:64]
    fixed = []
    for b in out:
        if info.name == "Amat" and isinstance(b.get("cov_is_qmat"), K) and b["cov_is_qmat"].v:
            b["cov"] = D(un(0))
        fixed.append(b)
    return fixed


def leaves(v):
    if isinstance(v, (Tup, Lst)):
        if v.items is not None:
            for x in v.items:
                yield from leaves(x)
        elif v.elem is not None:
            yield from leaves(v.elem)
    elif isinstance(v, Dct):
        for x in (v.items or {}).values():
            yield from leaves(x)
        if v.val is not None:
            yield from leaves(v.val)
    elif isinstance(v, U):
        for x in v.alts:
            yield from leaves(x)
    else:
        yield v


def run(prog):
    findings = {}
    stats = {"roots": 0, "variants": 0, "returns_determined": 0, "returns_unknown": 0, "functions": 0,
             "unification_obligations": 0, "sinks": 0}
    analysed = set()
    missing = []
    undetermined = []
    unknown = {}
    roots = []
    for name in EXPECT:
        fs = prog.find_by_name(name)
        fs = [f for f in fs if name not in ("loss",) or "symplectic" in f.module.name or "hbar" in f.params] or fs
        if not fs:
            missing.append(name)
        roots.extend(fs)
    for info in roots:
        exp = EXPECT[info.name]
        stats["roots"] += 1
        for b in variants(info):
            dom = UnitDomain()
            it = Interp(prog, dom)
            dom.it = it
            dom.root = info
            stats["variants"] += 1
            ret = it.invoke(info, dict(b), info.node)
            analysed |= it.analysed
            stats["unification_obligations"] += dom.ops
            stats["sinks"] += dom.sinks
            for k, v in dom.unknown.items():
                unknown[k] = unknown.get(k, 0) + v
            where = info.loc()

            def chk(v, e, what):
                for x in leaves(v):
                    if isinstance(x, K) and (x.v is None or isinstance(x.v, (str, bool))):
                        continue
                    if x is BOT:
                        continue
                    p = it.lift(x)
                    if p.e:
                        dom.report(p.e, f"the result of {info.full}")
                        continue
                    if e is None:
                        continue
                    if p.u == "T":
                        stats["returns_unknown"] += 1
                        undetermined.append(info.full)
                        continue
                    if p.u == "Z":
                        continue
                    stats["returns_determined"] += 1
                    bad = [y for y in p.u if y != Fr(e)]
                    if bad:
                        key = f"result-units:{info.full}"
                        dom.reported[key] = Finding(
                            key, where, f"{info.full} returns {what} scaling as {show(p.u)}, expected {show(frozenset([Fr(e)]))}")
            alts = ret.alts if isinstance(ret, U) else [ret]
            for r in alts:
                if isinstance(exp, tuple) and isinstance(r, (Tup, Lst)) and r.items is not None \
                        and len(r.items) == len(exp):
                    for i, (x, e) in enumerate(zip(r.items, exp)):
                        chk(x, e, f"item {i}")
                else:
                    chk(r, exp if not isinstance(exp, tuple) else None, "a value")
            for k, f in dom.reported.items():
                f.path = f.path or []
                findings.setdefault(k, f)
    # functions without an hbar parameter use one value of hbar throughout
    nohbar = 0
    for info in prog.public_functions():
        if "hbar" in info.params:
            continue
        if not any(isinstance(n, ast.Call) for n in ast.walk(info.node)):
            continue
        dom = UnitDomain()
        it = Interp(prog, dom)
        b = {}
        for p in info.params:
            d = info.defaults().get(p)
            b[p] = K(d.value) if isinstance(d, ast.Constant) and isinstance(d.value, (bool, str)) else D(T_)
        try:
            it.invoke(info, b, info.node)
        except RecursionError:
            continue
        if dom.hbar_consts:
            nohbar += 1
            if len(dom.hbar_consts) > 1:
                key = f"two-hbars:{info.full}"
                findings[key] = Finding(key, info.loc(),
                                        f"{info.full} mixes hbar values {sorted(dom.hbar_consts)} in one computation: "
                                        f"{dom.hbar_consts}")
    stats["functions"] = len(analysed)
    stats["functions_with_implicit_hbar"] = nohbar
    return list(findings.values()), stats, missing, sorted(set(undetermined)), unknown
