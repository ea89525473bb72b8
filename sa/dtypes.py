"""Element-type analysis: which of bool/int/real/complex a value is, per assignment of input kinds.

Payload: a set of kinds out of B < I < F < C, with W for "real or complex
depending on the values" (e.g. eigenvalues of a real matrix), or None when
unknown; ``a`` says whether the value is an array (True), a scalar (False) or
either (None); ``dt`` marks values that are element types themselves.
"""
import ast

from .interp import BOT, D, Dct, Domain, Ext, Fn, Interp, K, Lst, NONE, Slice, TOP, Tup, U
from .npk import CAT, canon
from .report import Finding
from .units import src

RANK = {"B": 0, "I": 1, "F": 2, "W": 3, "C": 4}
ORD = "BIFWC"


class Dt:
    __slots__ = ("k", "a", "dt")

    def __init__(self, k, a=None, dt=False):
        self.k = k
        self.a = a
        self.dt = dt

    def __repr__(self):
        return f"Dt({'?' if self.k is None else ''.join(sorted(self.k))},{'arr' if self.a else 'num' if self.a is False else '?'}{',dtype' if self.dt else ''})"


def ks(s, a=None):
    return Dt(frozenset(s), a)


TOPK = Dt(None)
DTYPES = {
    "float64": "F", "float32": "F", "float_": "F", "double": "F", "py.float": "F", "complex128": "C", "complex64": "C",
    "complex_": "C", "cdouble": "C", "py.complex": "C", "int64": "I", "int32": "I", "int_": "I", "int8": "I", "int16": "I",
    "intp": "I", "uint8": "I", "uint64": "I", "py.int": "I", "integer": "I", "bool_": "B", "py.bool": "B", "longdouble": "F",
    "floating": "F", "complexfloating": "C", "inexact": None, "number": None, "object_": None, "numba.float64": "F",
    "numba.complex128": "C", "numba.int64": "I", "float16": "F", "uint": "I", "uint32": "I", "intc": "I", "clongdouble": "C",
}
STRD = {"float64": "F", "float": "F", "complex128": "C", "complex": "C", "int": "I", "int64": "I", "d": "F", "D": "C",
        "f8": "F", "c16": "C", "i8": "I", "bool": "B"}


def mx(*sets):
    """kinds of an arithmetic combination"""
    out = None
    for s in sets:
        if s is None:
            return None
        if out is None:
            out = set(s)
        else:
            out = {x if RANK[x] >= RANK[y] else y for x in out for y in s}
    return frozenset(out) if out is not None else None


def atleast(s, k):
    if s is None:
        return None
    return frozenset(x if RANK[x] >= RANK[k] else k for x in s)


def mapk(s, m):
    if s is None:
        return None
    return frozenset(m.get(x, x) for x in s)


REALPART = {"C": "F", "W": "F"}


class DtypeDomain(Domain):
    max_depth = 20
    unroll = 3

    def __init__(self):
        self.losses = {}
        self.stores = 0
        self.unknown = {}

    def top(self):
        return TOPK

    def const(self, v):
        if isinstance(v, bool):
            return ks("B", False)
        if isinstance(v, int):
            return ks("I", False)
        if isinstance(v, float):
            return ks("F", False)
        if isinstance(v, complex):
            return ks("C", False)
        return TOPK

    def key(self, p):
        return (tuple(sorted(p.k)) if p.k is not None else None, p.a, p.dt)

    def join(self, p, q):
        if p.dt != q.dt:
            return TOPK
        return Dt(p.k | q.k if p.k is not None and q.k is not None else None, p.a if p.a == q.a else None, p.dt)

    def lift_seq(self, ps):
        if not ps:
            return Dt(frozenset("F"), True)
        k = None
        for i, p in enumerate(ps):
            k = p.k if i == 0 else mx(k, p.k)
        return Dt(k, True)

    def index_value(self):
        return ks("I", False)

    def iter_elem(self, p):
        return D(Dt(p.k, None if p.a is not False else False))

    def arrayish(self, p):
        return p.a is True

    def L(self, v):
        if v is NONE:
            return TOPK
        return self.it.lift(v)

    def dtype_of(self, v):
        """kinds named by a dtype argument, or None; False when absent"""
        if v is None or isinstance(v, K) and v.v is None:
            return False
        if isinstance(v, Ext):
            c = canon(v.name)
            k = DTYPES.get(c, DTYPES.get(v.name, "none"))
            return frozenset(k) if k not in (None, "none") else None
        if isinstance(v, K) and isinstance(v.v, str):
            k = STRD.get(v.v)
            return frozenset(k) if k else None
        if isinstance(v, D) and v.p.dt:
            return v.p.k
        if isinstance(v, U):
            r = frozenset()
            for x in v.alts:
                y = self.dtype_of(x)
                if y is None or y is False:
                    return None
                r = r | y
            return r
        return None

    def loss(self, node, buf, val, what):
        self.stores += 1
        if buf is None or val is None:
            return
        def lossy(b, v):
            return b in "BI" and v in "FC" or b == "F" and v == "C"

        for b in buf:
            for v in val:
                # where both have alternatives the two may go together (the same branch chose both)
                if lossy(b, v) and (len(val) == 1 or all(lossy(x, v) for x in buf)):
                    f = self.it.cur
                    nm = {"I": "integer", "B": "boolean", "F": "real", "C": "complex"}
                    key = f"{what.replace(' ', '-')}:{f.full if f else '?'}:{nm[v]}-into-{nm[b]}"
                    self.losses.setdefault(key, (self.it.where(node), f"{nm[v]} value lost in {nm[b]} {what}: `{src(node)}`",
                                                 self.it.call_path()))

    def product(self, node, p, q):
        """matrix product inside a compiled function: both operands floating point or complex, and of the same kind"""
        f = self.it.cur
        if f is None or not f.jit or not p.k or not q.k:
            return
        self.stores += 1
        for a in p.k:
            for b in q.k:
                if "W" in (a, b):
                    continue
                if a in "BI" or a != b and (len(p.k) == 1 or len(q.k) == 1):
                    nm = {"I": "integer", "B": "boolean", "F": "real", "C": "complex"}
                    key = f"compiled-product:{f.full}:{nm[a]}-by-{nm[b]}"
                    self.losses.setdefault(key, (self.it.where(node),
                                                 f"compiled matrix product of {nm[a]} and {nm[b]} arrays does not compile: `{src(node)}`",
                                                 self.it.call_path()))

    # operations ----------------------------------------------------------
    def binop(self, op, a, b, node):
        p, q = self.L(a), self.L(b)
        arr = True if p.a or q.a else False if p.a is False and q.a is False else None
        k = mx(p.k, q.k)
        if op == "Div":
            k = atleast(k, "F")
        elif op in ("Add", "Sub", "Mult", "FloorDiv", "Mod", "MatMult"):
            k = atleast(k, "I")
            if op == "MatMult":
                arr = None if arr else arr
                self.product(node, p, q)
        elif op == "Pow":
            k = atleast(k, "I")
            if isinstance(b, K) and isinstance(b.v, float) and float(b.v).is_integer() is False and p.a is False:
                k = atleast(k, "F")
        elif op in ("LShift", "RShift"):
            k = frozenset("I")
        return D(Dt(k, arr))

    def unop(self, op, a, node):
        p = self.L(a)
        if op == "Not":
            return D(ks("B", False))
        return D(Dt(atleast(p.k, "I") if op != "Invert" else p.k, p.a))

    def compare(self, op, a, b, node):
        p, q = self.L(a), self.L(b)
        if p.dt or q.dt:
            ka, kb = self.dtype_of(a), self.dtype_of(b)
            if ka and kb and op in ("Eq", "NotEq", "Is", "IsNot"):
                pos = op in ("Eq", "Is")
                if not (ka & kb):
                    return K(not pos)
                if len(ka) == 1 and ka == kb and "W" not in ka:
                    return K(pos)
            if op in ("In", "NotIn"):
                its = self.it.items_of(b)
                if its is not None and ka:
                    kk = [self.dtype_of(x) for x in its]
                    if all(kk):
                        if all(not (ka & x) for x in kk):
                            return K(op == "NotIn")
                        if len(ka) == 1 and any(x == ka for x in kk):
                            return K(op == "In")
            return D(ks("B", False))
        return D(ks("B", True if p.a or q.a else False if p.a is False and q.a is False else None))

    def attr(self, v, name, node):
        p = self.L(v)
        if name in ("T", "flat", "mT", "H"):
            return D(Dt(p.k, p.a))
        if name in ("real", "imag"):
            return D(Dt(mapk(p.k, REALPART), p.a))
        if name == "dtype":
            return D(Dt(p.k, None, True))
        if name == "kind" and p.dt:
            if p.k is not None and len(p.k) == 1 and "W" not in p.k:
                return K({"B": "b", "I": "i", "F": "f", "C": "c"}[next(iter(p.k))])
            return D(TOPK)
        if name == "root" and p.k is None:
            return D(ks("F", False))
        if name == "type" and p.dt:
            return v
        if name == "shape":
            return Lst(None, D(ks("I", False)), "tuple")
        if name in ("size", "ndim", "itemsize", "nbytes"):
            return D(ks("I", False))
        return D(TOPK)

    def getitem(self, v, idx, node):
        p = self.L(v)
        a = p.a
        if p.a:
            if isinstance(idx, Slice) or isinstance(idx, Lst):
                a = True
            elif isinstance(idx, Tup) and any(isinstance(x, (Slice, Lst)) for x in idx.items):
                a = True
            elif isinstance(idx, D) and idx.p.a:
                a = True
            else:
                a = None
        return D(Dt(p.k, a))

    def setitem(self, v, idx, val, node, aug=False):
        p, q = self.L(v), self.L(val)
        if p.a is not False and isinstance(v, D):
            self.loss(node, p.k, q.k, "array element store")
        return v

    def augassign(self, cur, v, new, node):
        alts = cur.alts if isinstance(cur, U) else [cur]
        for c in alts:
            if isinstance(c, D) and c.p.a is True:
                self.loss(node, c.p.k, self.L(new).k, "in-place operation")
                return c
        return new

    def method(self, v, name, args, kw, node):
        p = self.L(v)
        if p.dt:
            return D(Dt(p.k, False)) if name == "type" else D(TOPK)
        return self.call_ext("numpy." + name, [v] + list(args), kw, node)

    def isinstance_(self, v, names):
        if not isinstance(v, D):
            return None
        p = v.p
        if p.k is None:
            return None
        if p.a is True:
            if "numpy.ndarray" in names:
                return True
            if all(n in ("builtins.int", "builtins.float", "builtins.complex", "builtins.list", "builtins.tuple",
                         "builtins.dict", "builtins.str") for n in names):
                return False
        return None

    def select(self, t, a, b, node):
        return None

    def call_unknown(self, f, args, kw, node):
        return TOP

    def dt_arg(self, args, kw, pos):
        v = kw.get("dtype")
        if v is None and len(args) > pos:
            v = args[pos]
        return self.dtype_of(v) if v is not None else False

    def axis_arr(self, args, kw, pos=1):
        ax = kw.get("axis")
        if ax is None and len(args) > pos:
            ax = args[pos]
        return False if ax is None or isinstance(ax, K) and ax.v is None else True

    def seqkind(self, v):
        its = self.it.items_of(v)
        if its is not None:
            k = None
            for i, x in enumerate(its):
                y = self.L(x).k
                k = y if i == 0 else mx(k, y)
            return k if its else frozenset()
        return self.L(v).k

    def call_ext(self, name, args, kw, node):
        c = canon(name)
        cat = CAT.get(c)
        ps = [self.L(a) for a in args]
        p0 = ps[0] if ps else TOPK
        k0 = p0.k
        if c in DTYPES and c not in ("py.bool",) or c in ("py.int", "py.float", "py.complex"):
            # conversion of a number
            kk = DTYPES.get(c)
            if c == "py.float" or kk == "F":
                return D(Dt(frozenset("F"), False))
            return D(Dt(frozenset(kk) if kk else None, False))
        if c == "py.type" and args:
            return D(Dt(k0, None, True))
        if name == "scipy.sparse.issparse":
            return K(False) if args and isinstance(args[0], (D, Lst, Tup)) else D(ks("B", False))
        if name == "numba.cpython.unsafe.tuple.tuple_setitem" and len(args) == 3:
            return Lst(None, self.it.join(self.it.elem(args[0]), args[2]), "tuple")
        if c in ("mod", "remainder", "floor_divide", "fmod") and len(args) == 2:
            return self.binop("Mod", args[0], args[1], node)
        if c in ("sign", "heaviside"):
            return D(Dt(atleast(k0, "F" if c == "heaviside" else "I"), p0.a))
        if name.startswith("scipy.stats.") and c.split(".")[-1] in ("pmf", "cdf", "pdf", "logpmf", "sf"):
            return D(ks("F", None))
        if c in ("result_type", "promote_types", "common_type"):
            k = None
            vals = []
            for a in args:
                d = self.dtype_of(a)
                vals.append(d if d not in (None, False) else (None if d is None and not isinstance(a, (D, Lst, Tup, K)) else self.L(a).k))
            for i, s in enumerate(vals):
                k = s if i == 0 else mx(k, s)
            if c == "common_type":
                k = atleast(k, "F")
            return D(Dt(k, None, True))
        if c == "dtype":
            d = self.dtype_of(args[0]) if args else None
            return D(Dt(d or None, None, True))
        if c in ("iscomplexobj", "isrealobj") and args:
            if k0 is not None and "W" not in k0:
                if "C" not in k0:
                    return K(c == "isrealobj")
                if k0 == frozenset("C"):
                    return K(c == "iscomplexobj")
            return D(ks("B", False))
        if c in ("iscomplex", "isreal") and args:
            return D(ks("B", p0.a))
        if c == "issubdtype" and len(args) == 2:
            d = self.dtype_of(args[0])
            t = args[1]
            if d and isinstance(t, Ext) and "W" not in d:
                cls = {"integer": "I", "signedinteger": "I", "floating": "F", "complexfloating": "C", "inexact": "FC",
                       "number": "IFC", "py.int": "I", "py.float": "F", "py.complex": "C", "int64": "I", "float64": "F",
                       "complex128": "C", "bool_": "B", "py.bool": "B"}.get(canon(t.name))
                if cls:
                    if all(x in cls for x in d):
                        return K(True)
                    if all(x not in cls for x in d):
                        return K(False)
            return D(ks("B", False))
        if c in ("array", "asarray", "ascontiguousarray", "asfortranarray", "require"):
            d = self.dt_arg(args, kw, 1)
            k = self.seqkind(args[0]) if args else None
            if d is not False:
                if d is not None:
                    self.loss(node, d, k, "conversion")
                return D(Dt(d, True))
            return D(Dt(k if k != frozenset() else frozenset("F"), True))
        if c == "astype":
            v = args[1] if len(args) > 1 else kw.get("dtype")
            d = self.dtype_of(v)
            if d and not isinstance(v, Ext):
                self.loss(node, d, k0, "conversion")
            elif d and "F" in d and k0 is not None and "C" in k0:
                self.loss(node, d, k0, "conversion")
            return D(Dt(d or None, True))
        if cat == "zeros" or c in ("ones", "ones_like", "full", "full_like", "eye", "identity", "tri"):
            like = c.endswith("_like")
            pos = {"full": 2, "full_like": 2, "eye": 3, "identity": 1, "tri": 3}.get(c, 1)
            d = self.dt_arg(args, kw, pos)
            if d is not False:
                return D(Dt(d, True))
            if like:
                return D(Dt(k0 if not isinstance(args[0], (Lst, Tup)) else self.seqkind(args[0]), True))
            if c == "full":
                return D(Dt(ps[1].k if len(ps) > 1 else None, True))
            return D(Dt(frozenset("F"), True))
        if c in ("arange",):
            d = self.dt_arg(args, kw, 3)
            if d is not False:
                return D(Dt(d, True))
            k = None
            for i, p in enumerate(ps[:3]):
                k = p.k if i == 0 else mx(k, p.k)
            return D(Dt(k, True))
        if c in ("linspace", "logspace"):
            return D(Dt(atleast(mx(*[p.k for p in ps[:2]]), "F") if len(ps) >= 2 else None, True))
        if c in ("meshgrid", "ix_"):
            return Lst(None, D(Dt(frozenset("I") if c == "ix_" else None, True)), "tuple")
        if c == "indices":
            return D(ks("I", True))
        if cat == "bool":
            arr = p0.a if c in ("isnan", "isinf", "isfinite", "isclose", "greater", "less", "equal", "not_equal", "logical_not",
                                "logical_and", "logical_or", "greater_equal", "less_equal", "isin") else \
                (self.axis_arr(args, kw) if c in ("all", "any") else False)
            return D(ks("B", arr))
        if c in ("nonzero", "unravel_index", "where") and (c != "where" or len(args) == 1):
            return Lst(None, D(ks("I", True)), "tuple")
        if c == "shape":
            return Lst(None, D(ks("I", False)), "tuple")
        if cat == "index":
            return D(ks("I", True if c in ("argsort", "flatnonzero", "bincount") else False if c.startswith("py.") else None))
        if c in ("abs", "angle"):
            return D(Dt(atleast(mapk(k0, REALPART), "I" if c == "abs" else "F"), p0.a))
        if c in ("real", "imag"):
            return D(Dt(mapk(k0, REALPART), p0.a))
        if c == "real_if_close":
            # complex stays complex when rounding noise exceeds the (absolute) tolerance
            return D(Dt(mapk(k0, {"C": "W", "W": "F"}), p0.a))
        if c in ("linalg.norm", "linalg.eigvalsh", "linalg.svdvals", "linalg.cond"):
            return D(Dt(frozenset("F"), c != "linalg.norm" or None))
        if c == "linalg.eigvals":
            return D(Dt(frozenset("W") if k0 is not None and "C" not in k0 else frozenset("C") if k0 is not None else None, True))
        if c == "linalg.eigh":
            if isinstance(kw.get("eigvals_only"), K) and kw["eigvals_only"].v:
                return D(ks("F", True))
            return Tup([D(ks("F", True)), D(Dt(atleast(k0, "F"), True))])
        if c == "linalg.eig":
            k = None if k0 is None else frozenset("C" if "C" in k0 else "W")
            return Tup([D(Dt(k, True)), D(Dt(k, True))])
        if c == "linalg.svd":
            if isinstance(kw.get("compute_uv"), K) and not kw["compute_uv"].v:
                return D(ks("F", True))
            k = atleast(k0, "F")
            return Tup([D(Dt(k, True)), D(ks("F", True)), D(Dt(k, True))])
        if c in ("linalg.qr", "linalg.rq", "linalg.schur", "linalg.polar", "linalg.hessenberg"):
            k = atleast(k0, "F")
            if c == "linalg.schur":
                out = kw.get("output", args[1] if len(args) > 1 else None)
                if out is not None:
                    k = frozenset("C")
            return Tup([D(Dt(k, True)), D(Dt(k, True))])
        if c in ("linalg.sqrtm", "linalg.logm", "linalg.fractional_matrix_power"):
            return D(Dt(None if k0 is None else frozenset("C" if k0 == frozenset("C") else "W"), True))
        if c in ("linalg.expm", "linalg.inv", "linalg.pinv", "linalg.cholesky", "linalg.det", "linalg.solve", "linalg.matrix_power"):
            k = mx(*[p.k for p in ps[:2]]) if c == "linalg.solve" and len(ps) > 1 else k0
            return D(Dt(atleast(k, "F"), False if c == "linalg.det" and False else (None if c == "linalg.det" else True)))
        if c.startswith("fft."):
            return D(ks("C", True))
        if c.startswith("random.") or c.startswith("stats."):
            short = c.split(".")[-1]
            if short in ("randint", "binomial", "poisson", "geometric", "multinomial", "permutation"):
                return D(ks("I", None))
            if short == "choice":
                return D(Dt(k0, None))
            if short in ("rand", "randn", "normal", "uniform", "random", "multivariate_normal", "exponential", "standard_normal"):
                return D(ks("F", None if args or kw else False))
            return D(TOPK)
        if c in ("floor", "ceil", "round", "trunc", "rint", "fix"):
            # integral values of whatever type: no loss when stored in integers
            return D(Dt(None if k0 is None or k0 & frozenset("F") else k0, p0.a))
        if c in ("mean", "average", "std", "median", "ptp"):
            return D(Dt(atleast(k0, "F"), self.axis_arr(args, kw)))
        if c in ("sum", "trace", "cumsum", "max", "min", "item"):
            if name.startswith("builtins.") and c == "sum":
                e = self.it.elem(args[0]) if args else TOP
                pe = self.L(e) if e is not BOT else ks("I", False)
                k = mx(pe.k, self.L(args[1]).k if len(args) > 1 else frozenset("I"))
                return D(Dt(k, pe.a))
            if name.startswith("builtins.") and len(args) > 1:
                return D(Dt(None if any(p.k is None for p in ps) else frozenset().union(*[p.k for p in ps]), False))
            if name.startswith("builtins."):
                e = self.it.elem(args[0])
                return D(Dt(self.L(e).k, False)) if e is not BOT else D(TOPK)
            d = self.dt_arg(args, kw, 9)
            k = atleast(k0, "I") if c in ("sum", "trace", "cumsum") else k0
            if d is not False:
                self.loss(node, d, k, "conversion")
                k = d
            return D(Dt(k, True if c == "cumsum" else self.axis_arr(args, kw) if c != "trace" else None))
        if cat == "same":
            k = self.seqkind(args[0]) if args and isinstance(args[0], (Lst, Tup)) else k0
            if c == "conj":
                return D(Dt(k, p0.a))
            if c in ("diag", "diagonal", "transpose", "reshape", "ravel", "flatten", "copy", "tile", "repeat", "take", "roll",
                     "flip", "sort", "atleast_1d", "atleast_2d", "squeeze"):
                return D(Dt(k, True))
            return D(Dt(k, p0.a))
        if cat == "concat":
            if c in ("append", "block_diag"):
                return D(Dt(mx(*[p.k for p in ps[:2 if c == "append" else None]]) if ps else None, True))
            return D(Dt(self.seqkind(args[0]) if args else None, True))
        if cat == "mul":
            if c == "einsum":
                ps = ps[1:]
            if c == "multi_dot":
                return D(Dt(self.seqkind(args[0]) if args else None, True))
            k = mx(*[p.k for p in (ps if c == "einsum" else ps[:2])]) if ps else None
            arr = True if c in ("outer", "kron", "matmul_", "convolve") else None
            return D(Dt(atleast(k, "I"), arr))
        if cat == "add":
            return D(Dt(atleast(mx(*[p.k for p in ps[:2]]), "I"), ps[0].a if ps else None)) if len(ps) > 1 else D(TOPK)
        if cat == "div":
            return D(Dt(atleast(mx(*[p.k for p in ps[:2]]), "F"), ps[0].a or (ps[1].a if len(ps) > 1 else None)))
        if cat == "sel":
            v = ps[1:3] if c == "where" else ps[:2]
            return D(Dt(mx(*[p.k for p in v]) if v else None, True if c == "where" or any(p.a for p in v) else None))
        if cat in ("trans", "sqrt"):
            if c == "special.factorial":
                ex = kw.get("exact")
                return D(Dt(frozenset("I") if isinstance(ex, K) and ex.v or name.startswith("math.") else frozenset("F"), p0.a))
            if c in ("special.comb", "special.binom", "special.perm") and name.startswith("math."):
                return D(ks("I", False))
            if c in ("special.comb", "special.binom", "special.factorial2", "special.perm"):
                ex = kw.get("exact")
                return D(Dt(frozenset("I") if isinstance(ex, K) and ex.v else frozenset("F"), p0.a))
            return D(Dt(atleast(k0, "F"), p0.a))
        if cat == "square":
            return D(Dt(atleast(k0, "I"), p0.a))
        if cat == "var":
            return D(Dt(frozenset("F"), None))
        if cat == "power":
            return self.binop("Pow", args[0], args[1], node) if len(args) > 1 else D(TOPK)
        if cat == "recip":
            return D(Dt(k0, p0.a))
        if cat == "prod":
            k = self.seqkind(args[0]) if args and isinstance(args[0], (Lst, Tup)) else k0
            if name.startswith("math.") and args:
                e = self.it.elem(args[0])
                k = self.L(e).k if e is not BOT else None
            return D(Dt(atleast(k, "I"), self.axis_arr(args, kw)))
        if c == "linalg.slogdet":
            return Tup([D(Dt(atleast(k0, "F"), False)), D(ks("F", False))])
        if c == "py.divmod" and len(ps) > 1:
            k = mx(ps[0].k, ps[1].k)
            return Tup([D(Dt(k, False)), D(Dt(k, False))])
        if c in ("dask.compute", "copy.copy", "copy.deepcopy"):
            return args[0] if args else D(TOPK)
        if c == "py.str" or c == "py.repr":
            return D(TOPK)
        if c == "optimize.root_scalar" or c.startswith("optimize."):
            return D(TOPK)
        self.unknown[name] = self.unknown.get(name, 0) + 1
        return D(TOPK)


# parameters that hold indices or counts whatever the caller does
INDEX_PARAMS = {"kept_edges", "fixed_edges", "rows", "cols", "Z", "idx", "modes", "edges", "rpt", "reps", "S", "nonzero_rows"}
# building blocks that document (and compile for) floating-point or complex data only: element kind forced
FORCED = {
    "grad_displacement": {"T": "C"}, "grad_squeezing": {"T": "C"}, "grad_two_mode_squeezing": {"T": "C"},
    "grad_beamsplitter": {"T": "C"}, "grad_mzgate": {"T": "C"},
    "solve": {"b": None, "w": None, "g": None},
    "f": {"A": "F"}, "f_loop": {"AX": "F", "AX_S": "F", "XD_S": "F", "D_S": "F"},
    "f_loop_odd": {"AX": "F", "AX_S": "F", "XD_S": "F", "D_S": "F", "oddVX_S": "F", "oddloop": "F"},
    "montrealer": {"Sigma": "F"}, "lmontrealer": {"Sigma": "F", "zeta": "F"}, "power_loop": {"Sigma": "F", "zeta": "F"},
    "quad_cholesky": {"L": "F", "mat": "F"}, "recursiveTor": {"L": "F", "A": "F"}, "solve_triangular": {"L": "F", "y": "F"},
    "recursiveLTor": {"L": "F", "A": "F", "gammaL": "F"}, "get_reflection_vector": {"matrix": "F"},
    "apply_householder": {"A": "F", "v": "F"}, "reduce_matrix_to_hessenberg": {"matrix": "F"},
    "charpoly": {"H": "F"}, "powertrace": {"H": "F"}, "beta": {"H": "F"}, "alpha": {"H": "F"}, "hij": {"H": "F"},
}


def configs(info, kinds, cx=()):
    """Assignments of element kinds to the numeric parameters of a function."""
    forced = FORCED.get(info.name, {})
    num = [p for p, k in kinds.items() if k in ("array", "real", "complex") and p not in forced and p not in INDEX_PARAMS]
    base = dict(forced)
    out = [("all real", {p: "F" for p in num})]
    if num:
        out.append(("all integer", {p: "I" for p in num}))
    if len(num) > 1:
        for p in num:
            out.append((f"{p} integer", {q: ("I" if q == p else "F") for q in num}))
    cx = [p for p in cx if p in num or forced.get(p) == "F"]
    if cx:
        out.append(("all complex", {p: ("C" if p in cx else "F") for p in num + cx}))
        if len(num) > 1 or len(cx) > 1:
            for p in cx:
                out.append((f"{p} complex", {q: ("C" if q == p else "F") for q in num + cx}))
                out.append((f"{p} complex, others integer", {q: ("C" if q == p else "I") for q in num}))
    return [(n, {**base, **c}) for n, c in out]


def initial(info, kinds, cfg):
    alts = [{}]
    dfl = info.defaults()
    for p in info.params:
        k = kinds.get(p)
        d = dfl.get(p)
        vals = None
        if k in ("array", "real", "complex"):
            kk = "I" if p in INDEX_PARAMS else cfg.get(p, "F")
            v = D(Dt(frozenset(kk) if kk is not None else None, True if k == "array" else False))
            vals = [v]
            if isinstance(d, ast.Constant) and d.value is None:
                vals.append(NONE)
        elif k == "int":
            vals = [D(ks("I", False))]
            if isinstance(d, ast.Constant) and d.value is None:
                vals.append(NONE)
        elif k == "list":
            kk = "I"
            vals = [Lst(None, D(Dt(frozenset(kk), None)), "list")]
            if p == "etas":
                vals = [Lst(None, D(ks("F", False)), "list")]
            if p == "probs_noise":
                vals = [Lst(None, D(ks("F", True)), "list")]
            if isinstance(d, ast.Constant) and d.value is None:
                vals.append(NONE)
        elif k == "dict":
            vals = [Dct(None, D(ks("I", False)), D(ks("I", False)))]
            if isinstance(d, ast.Constant) and d.value is None:
                vals.append(NONE)
        elif k == "bool":
            vals = [K(True), K(False)]
        elif k == "dtype" and d is not None:
            nm = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else None
            kk = DTYPES.get(nm)
            if isinstance(d, ast.Constant) and d.value is None:
                vals = [NONE]
            elif kk:
                vals = [D(Dt(frozenset(kk), None, True))]
        elif k == "str" and isinstance(d, ast.Constant):
            vals = [D(TOPK)]
        if vals is None:
            continue
        alts = [dict(b, **{p: v}) for b in alts for v in vals]
        if len(alts) > 32:
            alts = alts[:32]
    return alts
