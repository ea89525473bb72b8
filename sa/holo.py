"""Conjugation parity: whether a value depends holomorphically on the complex inputs.

Payload ``Ho(s, why)``: ``I`` independent of the inputs, ``H`` holomorphic (a polynomial or analytic function of the
entries), ``A`` antiholomorphic (conjugated), ``X`` neither (a modulus, a real part, a mixture of an entry and a
conjugate).  ``why`` names the operation that destroyed holomorphy.
"""
import ast

from .interp import BOT, D, Dct, Domain, Ext, Fn, Interp, K, Lst, NONE, Slice, TOP, Tup, U
from .npk import CAT, canon
from .units import src


class Ho:
    __slots__ = ("s", "why")

    def __init__(self, s, why=None):
        self.s, self.why = s, why

    def __repr__(self):
        return f"Ho({self.s})"


IND = Ho("I")
HOL = Ho("H")
REAL_TYPES = {"float64", "float32", "float_", "double", "py.float", "int64", "int_", "py.int", "longdouble", "float16"}
COMPLEX_TYPES = {"complex128", "complex64", "complex_", "py.complex", "cdouble", "clongdouble", "numba.complex128"}
NO_VALUE = {"zeros_like", "ones_like", "empty_like", "full_like", "shape", "ndim", "size", "py.len", "py.type", "py.isinstance",
            "result_type", "common_type", "promote_types"}
DESTROY = {"abs", "real", "imag", "angle", "linalg.norm", "linalg.svdvals", "linalg.cond", "linalg.eigvalsh", "round", "floor",
           "ceil", "trunc", "rint", "fix", "sign", "linalg.eigh", "linalg.svd", "linalg.qr", "linalg.rq", "linalg.cholesky",
           "linalg.polar", "vdot", "vecdot", "hypot", "linalg.pinvh", "linalg.pinv", "std", "var", "cov", "linalg.lstsq"}
MULTI = {"linalg.eigh": 2, "linalg.svd": 3, "linalg.qr": 2, "linalg.rq": 2, "linalg.polar": 2, "linalg.eig": 2,
         "linalg.schur": 2, "linalg.hessenberg": 2, "linalg.slogdet": 2, "py.divmod": 2}


class HoloDomain(Domain):
    max_depth = 24
    unroll = 3

    def __init__(self):
        self.ops = 0
        self.destroyed = {}

    def top(self):
        return IND

    def const(self, v):
        return IND

    def key(self, p):
        return (p.s, p.why[0] if p.why else None)

    def join(self, p, q):
        if p.s == q.s:
            return p if p.why else q
        if p.s == "I":
            return q
        if q.s == "I":
            return p
        for x in (p, q):
            if x.s == "X":
                return x
        w = p.why or q.why
        return Ho("X", w)

    def index_value(self):
        return IND

    def iter_elem(self, p):
        return D(p)

    def arrayish(self, p):
        return p.s != "I"

    def L(self, v):
        return self.it.lift(v)

    def destroy(self, p, node, what):
        """the state after an operation that is not holomorphic"""
        if p.s == "I":
            return p
        if p.s == "X":
            return p
        f = self.it.cur
        w = (f"{f.full if f else '?'}:{what}", self.it.where(node), f"{what}: `{src(node)}`", tuple(self.it.call_path()))
        self.destroyed[w[0]] = w
        return Ho("X", w)

    def conj(self, p, node):
        if p.s in ("I", "X"):
            return p
        if p.s == "A":
            return Ho("H", None)
        f = self.it.cur
        w = (f"{f.full if f else '?'}:conj", self.it.where(node), f"complex conjugate: `{src(node)}`", tuple(self.it.call_path()))
        self.destroyed[w[0]] = w
        return Ho("A", w)

    def binop(self, op, a, b, node):
        self.ops += 1
        p, q = self.L(a), self.L(b)
        if op in ("Mod", "FloorDiv"):
            return D(self.destroy(self.join(p, q), node, op))
        return D(self.join(p, q))

    def unop(self, op, a, node):
        return D(self.L(a) if op != "Not" else IND)

    def compare(self, op, a, b, node):
        # complex inputs: element types, and comparisons of an imaginary part with zero
        if isinstance(a, Ext) or isinstance(b, Ext):
            na = canon(a.name) if isinstance(a, Ext) else a.v if isinstance(a, K) else None
            nb = canon(b.name) if isinstance(b, Ext) else b.v if isinstance(b, K) else None

            def cls(n):
                if n in COMPLEX_TYPES or n in ("c", "complex", "D"):
                    return "C"
                if n in REAL_TYPES or n in ("f", "i", "float", "int", "b"):
                    return "R"
                return None
            ca, cb = cls(na), cls(nb)
            if ca and cb and op in ("Eq", "NotEq", "Is", "IsNot"):
                eq = ca == cb == "C"
                if ca != cb or eq:
                    return K(eq == (op in ("Eq", "Is")))
        if op in ("In", "NotIn") and isinstance(a, (Ext, K)):
            its = self.it.items_of(b)
            if its is not None and its:
                rs = [self.compare("Eq", a, x, node) if not (isinstance(a, K) and isinstance(x, K)) else K(a.v == x.v) for x in its]
                ts = [r.v if isinstance(r, K) else None for r in rs]
                if any(t is True for t in ts):
                    return K(op == "In")
                if all(t is False for t in ts):
                    return K(op == "NotIn")
        if op in ("Eq", "NotEq") and self.imag_part(a, b):
            return K(op == "NotEq")
        return D(IND)

    def imag_part(self, a, b):
        """is one side the imaginary part of an input and the other zero?"""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, D) and x.p.s == "X" and x.p.why and x.p.why[0].endswith(":imag") and isinstance(y, K) and y.v == 0:
                return True
        return False

    def attr(self, v, name, node):
        p = self.L(v)
        if name in ("T", "flat", "mT"):
            return D(p)
        if name == "H":
            return D(self.conj(p, node))
        if name in ("real", "imag"):
            return D(self.destroy(p, node, name))
        if name == "shape":
            return Lst(None, D(IND), "tuple")
        if name == "dtype":
            return Ext("numpy.complex128") if p.s != "I" else D(IND)
        return D(IND)

    def getitem(self, v, idx, node):
        return D(self.L(v))

    def setitem(self, v, idx, val, node, aug=False):
        if isinstance(v, D):
            return D(self.join(v.p, self.L(val)))
        return v

    def augassign(self, cur, v, new, node):
        return new

    def method(self, v, name, args, kw, node):
        p = self.L(v)
        if name in ("conj", "conjugate"):
            return D(self.conj(p, node))
        if name in ("item", "tolist", "copy", "reshape", "flatten", "ravel", "transpose", "squeeze", "view"):
            return D(p)
        return self.call_ext("numpy." + name, [v] + list(args), kw, node)

    def isinstance_(self, v, names):
        return None

    def call_unknown(self, f, args, kw, node):
        return D(self.joined(args, kw))

    def joined(self, args, kw):
        p = IND
        for a in list(args) + [v for k, v in kw.items() if k not in ("axis", "dtype", "rtol", "atol")]:
            p = self.join(p, self.L(a))
        return p

    def type_of(self, v):
        if isinstance(v, Ext):
            c = canon(v.name)
            return "R" if c in REAL_TYPES else "C" if c in COMPLEX_TYPES else None
        if isinstance(v, K) and isinstance(v.v, str):
            return "R" if v.v in ("float", "float64", "int", "d", "f8", "int64") else None
        return None

    def call_ext(self, name, args, kw, node):
        self.ops += 1
        c = canon(name)
        p0 = self.L(args[0]) if args else IND
        if c == "conj":
            return D(self.conj(p0, node))
        if c in ("iscomplexobj", "isrealobj") and p0.s in ("H", "A"):
            return K(c == "iscomplexobj")
        if c in ("isreal",) and p0.s in ("H", "A"):
            return K(False)
        if c in ("iscomplex",) and p0.s in ("H", "A"):
            return K(True)
        if c in ("any", "all") and isinstance(args[0] if args else None, K):
            return args[0]
        if c in ("any", "count_nonzero") and p0.s == "X" and p0.why and p0.why[0].endswith(":imag"):
            return K(True)
        if c in ("allclose", "array_equal") and len(args) >= 2:
            if self.imag_part(args[0], args[1]):
                return K(False)
            q = self.L(args[1])
            for x, y in ((p0, q), (q, p0)):
                if x.s == "H" and (y.s == "A" or y.s == "X" and y.why and y.why[0].endswith((":real", ":imag"))):
                    return K(False)
            return D(IND)
        if c == "issubdtype" and len(args) == 2:
            t0, t1 = self.type_of(args[0]), canon(args[1].name) if isinstance(args[1], Ext) else None
            if t0 == "C" and t1:
                if t1 in ("complexfloating", "inexact", "number") or t1 in COMPLEX_TYPES:
                    return K(True)
                if t1 in ("floating", "integer") or t1 in REAL_TYPES:
                    return K(False)
            return D(IND)
        if c in ("result_type", "common_type", "promote_types"):
            if any(self.L(a).s != "I" for a in args) or any(self.type_of(a) == "C" for a in args):
                return Ext("numpy.complex128")
            return D(IND)
        if c == "dtype" and args:
            return args[0]
        if c in NO_VALUE or CAT.get(c) in ("bool", "index"):
            return D(IND) if c != "shape" else Lst(None, D(IND), "tuple")
        if c == "real_if_close":
            tol = kw.get("tol", args[1] if len(args) > 1 else None)
            if isinstance(tol, K) and isinstance(tol.v, (int, float)) and not isinstance(tol.v, bool):
                if tol.v >= 1e6 or 1e-9 < tol.v <= 1:
                    return D(self.destroy(p0, node, "real_if_close with a coarse tolerance"))
            return D(p0)
        if c in ("astype", "array", "asarray", "ascontiguousarray", "asfortranarray"):
            t = kw.get("dtype", args[1] if len(args) > 1 else None)
            if self.type_of(t) == "R":
                return D(self.destroy(p0, node, "conversion to real"))
            return D(p0)
        if c in ("py.float", "float64", "float32", "py.int", "int64"):
            return D(self.destroy(p0, node, "conversion to real"))
        if c in ("py.complex",) and len(args) == 2:
            return D(self.join(p0, self.L(args[1])))
        if c == "where" and len(args) == 3:
            return D(self.join(self.L(args[1]), self.L(args[2])))
        if c == "where":
            return Lst(None, D(IND), "tuple")
        if c == "compress" or c == "extract":
            return D(self.L(args[1]) if len(args) > 1 else p0)
        if c in ("vdot", "vecdot") and len(args) >= 2:
            p, q = self.conj(p0, node), self.L(args[1])
            return D(self.join(p, q))
        if c in ("linalg.eigvalsh",) or c in DESTROY:
            r = self.destroy(p0, node, c)
            n = MULTI.get(c)
            if c == "linalg.svd" and isinstance(kw.get("compute_uv"), K) and not kw["compute_uv"].v:
                n = None
            if c == "linalg.eigh" and isinstance(kw.get("eigvals_only"), K) and kw["eigvals_only"].v:
                n = None
            return Tup([D(r)] * n) if n else D(r)
        r = self.joined(args, kw)
        n = MULTI.get(c)
        return Tup([D(r)] * n) if n else D(r)

    def summary(self, info, bound, node):
        # the reduction to Hessenberg form is a unitary similarity: it uses moduli and conjugates by construction and keeps
        # the spectrum
        if info.name == "reduce_matrix_to_hessenberg":
            return next(iter(bound.values()), NONE)
        return None
