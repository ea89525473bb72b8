"""Which quadrature of which mode every row, column and index refers to.

Numbers carry ``i``, an integer polynomial in the number of modes and in the mode labels the caller gave.  Index vectors
carry ``vec``, a list of pieces (offset, word): the offset is 0 for positions and N for momenta, the word says which modes
in which order (the caller's list, its sorted version, all modes, a single one...).  Arrays carry ``ax``, for every axis
the pieces it consists of, in order.
"""
import ast

from .interp import BOT, D, Dct, Domain, Ext, Fn, Interp, K, Lst, NONE, Slice, TOP, Tup, U
from .npk import canon
from .sizes import Poly
from .units import src

ZERO = Poly.const(0)
ONE = ("one",)


def allw(n):
    return ("all", n)


def word_len(w):
    if w == ONE:
        return Poly.const(1)
    if w[0] == "all":
        return w[1]
    if w[0] == "par":
        return Poly.var("#" + w[1]) if len(w) < 3 or w[2] is None else w[2]
    if w[0] == "perm" and w[2] is not None:
        return w[2]
    if w[0] in ("sorted", "rev", "perm"):
        return word_len(w[1])
    return Poly.var("#" + repr(w))


def pieces_len(ps):
    n = ZERO
    for _, w in ps:
        n = n + word_len(w)
    return n


def half(p):
    """p / 2 when that is a polynomial"""
    if all(v % 2 == 0 for _, v in p.m):
        return Poly({k: v // 2 for k, v in p.m})
    return None


def leading(n):
    """a monomial and its coefficient by which multiples of n are recognised"""
    ms = [(k, v) for k, v in n.m if k]
    if len(ms) != 1:
        return None
    return ms[0]


def split_off(p, n):
    """(0 for a position or 1 for a momentum, the offset within that half) or None"""
    l = leading(n)
    if l is None:
        c = dict(n.m).get((), 0)
        if len(n.m) <= 1 and c > 0:
            d = dict(p.m)
            if set(d) <= {()} and 0 <= d.get((), 0) < 2 * c:
                return divmod(d.get((), 0), c)[0], Poly.const(d.get((), 0) % c)
        return None
    c = dict(p.m).get(l[0], 0)
    if c == 0:
        return (0, p) if all(v >= 0 for _, v in p.m) else None
    if c == l[1]:
        q = p - n
        return (1, q) if all(v >= 0 for _, v in q.m) else None
    return None


def swap(p, n):
    s = split_off(p, n)
    if s is None:
        return None
    return s[1] + n if s[0] == 0 else s[1]


def root_of(w):
    """(the word it was made from, the transformations that change order or content)"""
    t = []
    while isinstance(w, tuple) and w and w[0] in ("sorted", "set", "unique", "rev", "perm", "drop", "dedup"):
        t.append(w[0])
        w = w[1]
    return w, tuple(t)


def comparable(a, b):
    """two different words that are certainly different selections or orders for some input"""
    if a == b:
        return False
    ra, ta = root_of(a)
    rb, tb = root_of(b)
    if ra != rb or ta == tb:
        return False
    return not any(t == "perm" for t in ta + tb)


class Md:
    __slots__ = ("i", "vec", "role", "ax", "base", "dep", "part", "fresh", "lab", "eq", "cls", "row")

    def __init__(self, i=None, vec=None, role=None, ax=None, base=None, dep="", part=None, fresh=False, lab=None, eq=None, cls=None, row=None):
        self.cls, self.row = cls, row
        self.i, self.vec, self.role, self.ax, self.base = i, vec, role, ax, base
        self.dep, self.part, self.fresh, self.lab, self.eq = dep, part, fresh, lab, eq

    def k(self):
        return tuple(getattr(self, s) for s in self.__slots__)

    def with_(self, **kw):
        d = {s: getattr(self, s) for s in self.__slots__}
        d["cls"] = d["row"] = None
        d.update(kw)
        return Md(**d)

    def __repr__(self):
        return "Md(" + ",".join(f"{s}={getattr(self, s)!r}" for s in self.__slots__ if getattr(self, s) not in (None, "", False)) + ")"


ANY = Md()
CLASSES = ("builtins.list", "builtins.tuple", "builtins.int", "builtins.float", "builtins.complex", "builtins.str", "builtins.dict", "builtins.set",
           "builtins.range", "numpy.ndarray", "numpy.integer", "numpy.int64")
RANKD = {"": 0, "S": 1, "E": 2, "?": 3, "O": 4}


def full(n):
    return ((ZERO, allw(n)), (n, allw(n)))


def modes_of(ax):
    """N when the axis is the whole of (x, p)"""
    if ax is not None and len(ax) == 2 and ax[0][0] == ZERO and ax[0][1][0] == "all" and ax[1] == (ax[0][1][1], ax[0][1]):
        return ax[1][0]
    return None


class ModeDomain(Domain):
    max_depth = 22
    unroll = 8

    def __init__(self, order_roots=()):
        self.hits = {}
        self.gets = {}
        self.sets = {}
        self.nsel = 0
        self.nstore = 0
        self.nlab = 0
        self.guards = {}
        self.naxes = 0
        self.entry = None

    def top(self):
        return ANY

    def key(self, p):
        return p.k()

    def summary(self, info, bound, node):
        if info.name == "photon_means_order" and info.params and info.params[0] in bound:
            p = self.L(bound[info.params[0]])
            n = modes_of(p.ax[0]) if p.ax else None
            if n is not None:
                return D(Md(vec=((ZERO, ("perm", ("call", info.name), n)),)))
        return None

    def const(self, v):
        if isinstance(v, int) and not isinstance(v, bool):
            return Md(i=Poly.const(v))
        if isinstance(v, float) and v == v and abs(v) < 1e9 and v == int(v):
            return Md(i=Poly.const(int(v)))
        return ANY

    def join(self, p, q):
        if p.k() == q.k():
            return p
        d = p.dep if RANKD[p.dep] >= RANKD[q.dep] else q.dep
        if not d and (p.k() != q.k()):
            d = ""
        g = {s: (getattr(p, s) if getattr(p, s) == getattr(q, s) else None) for s in Md.__slots__ if s not in ("dep", "fresh")}
        if g["base"] is None and p.base and q.base and p.base.startswith("new:") and q.base.startswith("new:"):
            g["base"] = "new:"
        return Md(dep=d, fresh=p.fresh and q.fresh, **g)

    def lift_seq(self, ps):
        d = ""
        for p in ps:
            if RANKD[p.dep] > RANKD[d]:
                d = p.dep
        return Md(dep=d)

    def index_value(self):
        return Md(dep="?")

    def arrayish(self, p):
        return p.ax is not None or p.vec is not None

    def isinstance_(self, v, names):
        if isinstance(v, D):
            if v.p.cls and all(n in CLASSES for n in names):
                return v.p.cls in names
            if v.p.vec is not None or v.p.ax is not None:
                if all(n in ("builtins.int", "builtins.float", "builtins.complex", "numpy.integer", "builtins.str", "builtins.dict",
                             "numbers.Integral", "numpy.int64") for n in names):
                    return False
            elif v.p.i is not None and all(n in ("builtins.int", "numpy.integer", "numbers.Integral") for n in names):
                return True
            elif v.p.i is not None and all(n in ("builtins.list", "builtins.tuple", "numpy.ndarray", "builtins.range") for n in names):
                return False
        return None

    def report(self, key, node, msg):
        f = self.it.cur
        self.hits.setdefault(f"{key}:{self.entry if self.entry and key.startswith('axes') else f.full if f else '?'}", (self.it.where(node), msg, self.it.call_path()))

    # structure
    def elem_of(self, ps, dep=""):
        if ps is not None and len(ps) == 1:
            o, w = ps[0]
            if w == ONE:
                return Md(i=o, dep=dep)
            return Md(i=o + Poly.var(f"@{w!r}"), dep=dep or ("E" if root_of(w)[0][0] == "par" else ""))
        return Md(dep=dep)

    def iter_elem(self, p):
        if p.vec is not None:
            return D(self.elem_of(p.vec, p.dep))
        if p.ax is not None and len(p.ax) > 1:
            return D(Md(ax=p.ax[1:], dep=p.dep))
        return D(Md(dep=p.dep, part=p.part))

    def range_elem(self, a, n):
        p = [self.L(x) for x in a]
        d = max((x.dep for x in p), key=lambda x: RANKD[x], default="")
        if len(p) == 3 and (p[2].i is None or dict(p[2].i.m).get((), 0) != 1):
            return D(Md(dep=d))
        return D(Md(i=Poly.var(f"ix{n.lineno}:{n.col_offset}"), dep=d))

    def L(self, v):
        if isinstance(v, (D, K)):
            return self.it.lift(v)
        if isinstance(v, (Tup, Lst)):
            vec = self.it.vec(v)
            ax = self.it.axis1(v)
            its = v.items if v.items is not None else [v.elem] if v.elem is not None and v.elem is not BOT else []
            d = ""
            for x in its:
                y = self.L(x).dep
                d = y if RANKD[y] > RANKD[d] else d
            return Md(vec=vec, dep=d, ax=ax)
        if isinstance(v, U):
            r = None
            for x in v.alts:
                if isinstance(x, K) and x.v is None:
                    continue
                p = self.L(x)
                r = p if r is None else self.join(r, p)
            return r or ANY
        if v is TOP:
            return Md(dep="?")
        return ANY

    def deps(self, p, q):
        """order dependence of a combination of two values"""
        a, b = p.dep, q.dep
        if RANKD[a] < RANKD[b]:
            a, b, p, q = b, a, q, p
        if a == "E" and (q.vec is not None or q.ax is not None or b == "E" and p.k() != q.k()):
            return "O"
        if a == "E" and q.i is None and b == "":
            return "O"
        if a == "E" and b == "" and q.i is not None and any(x.startswith(("ix", "@")) for k, _ in q.i.m for x in k):
            return "O"
        return a

    # operations
    def binop(self, op, a, b, node):
        p, q = self.L(a), self.L(b)
        dep = self.deps(p, q)
        r = Md(dep=dep)
        if p.i is not None and q.i is not None:
            if op == "Add":
                r.i = p.i + q.i
            elif op == "Sub":
                r.i = p.i - q.i
            elif op == "Mult":
                r.i = p.i * q.i
            elif op in ("FloorDiv", "Div", "RShift") and len(q.i.m) == 1 and next(iter(q.i.m)) [0] == () and next(iter(q.i.m))[1] > 0:
                c = next(iter(q.i.m))[1]
                c = c if op != "RShift" else 2 ** min(c, 20)
                if all(v % c == 0 for _, v in p.i.m):
                    r.i = Poly({k: v // c for k, v in p.i.m})
                elif op != "Div":
                    r.i = Poly.var(f"[{p.i!r}/{c}]")
            if r.i is not None:
                return D(r)
            return D(r)
        for x, y, sw in ((p, q, False), (q, p, True)):
            if x.vec is not None and y.i is not None and y.vec is None and y.ax is None:
                if op == "Add":
                    r.vec = tuple((o + y.i, w) for o, w in x.vec)
                    r.role = x.role
                    return D(r)
                if op == "Sub" and not sw:
                    r.vec = tuple((o - y.i, w) for o, w in x.vec)
                    r.role = x.role
                    return D(r)
                return D(r)
        if op == "MatMult":
            if p.ax is not None and q.ax is not None:
                if len(p.ax) == 2 and len(q.ax) == 2:
                    r.ax = (p.ax[0], q.ax[1])
                elif len(p.ax) == 2 and len(q.ax) == 1:
                    r.ax = (p.ax[0],)
                elif len(p.ax) == 1 and len(q.ax) == 2:
                    r.ax = (q.ax[1],)
            return D(r)
        if p.ax is not None or q.ax is not None:
            r.ax = self.merge(p, q)
            if r.ax is not None and all(modes_of(a) is not None for a in r.ax):
                r.base = p.base or q.base or "expr"
            if p.ax is not None and q.ax is not None and len(p.ax) == len(q.ax) == 1 and op in ("Add", "Sub"):
                u, v = p.ax[0], q.ax[0]
                if u and v and len(u) == len(v) == 1 and u != v and u[0][1] == v[0][1] and (u[0][0] == ZERO or v[0][0] == ZERO):
                    r.ax = (((ZERO, u[0][1]),),)
                elif u and v and len(u) == len(v) == 1 and comparable(u[0][1], v[0][1]):
                    self.report("mixed-modes", node, f"positions and momenta of different selections of modes are combined: `{src(node)}`")
        r.part = p.part if q.part is None else q.part if p.part is None else None
        return D(r)

    @staticmethod
    def merge(p, q):
        if p.ax is None:
            return p.ax if q.ax is None else (q.ax if q_scalar(p) else None)
        if q.ax is None:
            return p.ax if q_scalar(q) else None
        if p.ax == q.ax:
            return p.ax
        if len(p.ax) == len(q.ax) and all(u is not None and v is not None and [w for _, w in u] == [w for _, w in v] and len(u) == 1 for u, v in zip(p.ax, q.ax)):
            # positions and momenta of the same modes combined: amplitudes
            return tuple(u if u == v else ((ZERO, u[0][1]),) for u, v in zip(p.ax, q.ax))
        return None

    def unop(self, op, a, node):
        p = self.L(a)
        if op == "USub" and p.i is not None:
            return D(Md(i=-p.i, dep=p.dep))
        return D(Md(ax=p.ax, dep=p.dep, part=p.part))

    def compare(self, op, a, b, node):
        if isinstance(a, Ext) and isinstance(b, Ext) and a.name in CLASSES and b.name in CLASSES and op in ("Eq", "NotEq", "Is", "IsNot"):
            return K((a.name == b.name) == (op in ("Eq", "Is")))
        if op in ("In", "NotIn") and isinstance(a, Ext) and a.name in CLASSES and isinstance(b, (Tup, Lst)) and b.items and \
                all(isinstance(x, Ext) and x.name in CLASSES for x in b.items):
            return K((a.name in {x.name for x in b.items}) == (op == "In"))
        p, q = self.L(a), self.L(b)
        if p.i is not None and q.i is not None:
            d = p.i - q.i
            if not d.m or all(not k for k, _ in d.m):
                c = sum(v for _, v in d.m)
                r = {"Eq": c == 0, "NotEq": c != 0, "Lt": c < 0, "LtE": c <= 0, "Gt": c > 0, "GtE": c >= 0}.get(op)
                if r is not None:
                    return K(r)
            if op in ("Eq", "NotEq") and p.dep == q.dep == "":
                lo = min((v for _, v in d.m), default=0)
                hi = max((v for _, v in d.m), default=0)
                # the number of modes is taken to be larger than the constants compared with
                if all(k for k, _ in d.m if k) and any(k for k, _ in d.m) and len([1 for k, _ in d.m if k]) == 1:
                    k, v = next((k, v) for k, v in d.m if k)
                    if len(k) == 1 and k[0] in self.big:
                        return K(op == "NotEq")
        eq = None
        if op in ("Eq", "NotEq") and p.vec is not None and q.vec is not None:
            if self.differ(p.vec, q.vec) and isinstance(a, (Lst, Tup)) and isinstance(b, (Lst, Tup)):
                return K(op == "NotEq")
            eq = (p.vec, q.vec)
        return D(Md(dep=self.deps(p, q), eq=eq))

    def differ(self, u, v):
        """two index vectors certainly have different lengths (the number of modes is larger than the constants)"""
        d = pieces_len(u) - pieces_len(v)
        return len([1 for k, _ in d.m if k]) == 1 and all(len(k) == 1 and k[0] in self.big for k, _ in d.m if k)

    big = frozenset()

    def attr(self, v, name, node):
        p = self.L(v)
        if name == "shape":
            if p.ax is not None and all(x is not None for x in p.ax):
                return Tup([D(Md(i=pieces_len(x))) for x in p.ax])
            if p.vec is not None:
                return Tup([D(Md(i=pieces_len(p.vec)))])
            return D(Md(dep="S" if p.dep in ("E", "O") else p.dep))
        if name in ("T", "mT"):
            if p.ax is not None:
                return D(p.with_(ax=p.ax[::-1]))
            if p.role is not None:
                return D(p.with_(role={"r": "c", "c": "r"}[p.role]))
            return D(p)
        if name in ("real", "imag"):
            if p.part == "cplx":
                return D(p.with_(part="re" if name == "real" else "im"))
            return D(p)
        if name in ("size",):
            return D(Md(i=pieces_len(p.vec))) if p.vec is not None else D(Md(dep="S" if p.dep else ""))
        if name in ("ndim", "dtype"):
            return D(ANY)
        return D(Md(dep=p.dep))

    # selection
    def full_slice(self, s):
        return isinstance(s, Slice) and all(isinstance(x, K) and x.v is None for x in (s.lo, s.hi, s.step))

    def slice_axis(self, ax, s):
        if ax is None:
            return None
        if isinstance(s.step, K) and s.step.v is None or isinstance(s.step, K) and s.step.v == 1:
            n = pieces_len(ax)
            lo = ZERO if isinstance(s.lo, K) and s.lo.v is None else self.L(s.lo).i
            hi = n if isinstance(s.hi, K) and s.hi.v is None else self.L(s.hi).i
            if lo is None or hi is None:
                return None
            if hi.m and all(not k for k, _ in hi.m) and sum(v for _, v in hi.m) < 0:
                hi = n + hi
            if lo == ZERO and hi == n:
                return ax
            # at the boundaries of the pieces
            cuts = [ZERO]
            for _, w in ax:
                cuts.append(cuts[-1] + word_len(w))
            if lo in cuts and hi in cuts and cuts.index(lo) < cuts.index(hi):
                return ax[cuts.index(lo):cuts.index(hi)]
            if modes_of(ax) is not None or len(ax) == 1 and ax[0][1][0] == "all":
                return ((lo, allw(hi - lo)),)
            return None
        if isinstance(s.step, K) and s.step.v == -1 and all(isinstance(x, K) and x.v is None for x in (s.lo, s.hi)) and len(ax) == 1:
            return ((ax[0][0], rev(ax[0][1])),)
        return None

    def pick(self, ax, i):
        """label of position i of an axis"""
        if ax is None or i is None:
            return None
        c = sum(v for k, v in i.m if not k) if all(not k for k, _ in i.m) else None
        N = modes_of(ax)
        if N is not None or len(ax) == 1 and ax[0][1][0] == "all":
            if c is not None and c < 0:
                return pieces_len(ax) + i
            return ax[0][0] + i
        if c is not None:
            if all(w == ONE for _, w in ax):
                return ax[c][0] if -len(ax) <= c < len(ax) else None
        # at a known boundary
        at = ZERO
        for o, w in ax:
            if i == at and w[0] == "par":
                return o + Poly.var(f"first{w!r}")
            at = at + word_len(w)
        return None

    def select_axis(self, ax, vec):
        """axis after indexing with a vector"""
        if ax is None or vec is None:
            return None
        if modes_of(ax) is not None or len(ax) == 1 and ax[0] == (ZERO, allw(pieces_len(ax))):
            return vec
        if all(w == ONE for _, w in vec):
            out = []
            for o, _ in vec:
                l = self.pick(ax, o)
                if l is None:
                    return None
                out.append((l, ONE))
            return tuple(out)
        return None

    def check_vec(self, ax, vec, node, what):
        """an index vector used on a whole (x, p) axis"""
        N = modes_of(ax) if ax is not None else None
        if N is None or vec is None:
            return
        self.nsel += 1
        m = mismatch(vec, N)
        if m:
            self.report("quadratures", node, f"{what} takes {m}: `{src(node)}`")

    def index(self, idx):
        """what an index is: ('s', Slice) | ('i', Poly or None) | ('v', vec, role) | ('n',) new axis | ('e',) ellipsis | ('?',)"""
        if isinstance(idx, Slice):
            return ("s", idx)
        if isinstance(idx, K):
            if idx.v is None:
                return ("n",)
            if idx.v is Ellipsis:
                return ("e",)
        p = self.L(idx)
        if p.vec is not None:
            return ("v", p.vec, p.role)
        m = mask_of(p)
        if m is not None:
            return ("v", m, None)
        if isinstance(idx, (D, K)) and p.i is not None:
            return ("i", p.i)
        return ("?", p)

    def getitem(self, v, idx, node):
        return self.select(v, idx, node)

    def select(self, v, idx=None, node=None, *rest):
        if rest:  # the hook of conditional expressions
            return None
        p = self.L(v)
        its = list(idx.items) if isinstance(idx, Tup) else [idx]
        ii = [self.index(x) for x in its]
        dep = p.dep
        for x in its:
            if not isinstance(x, Slice):
                y = self.L(x).dep
                dep = y if RANKD[y] > RANKD[dep] else dep
        if p.vec is not None and p.ax is None:
            return D(self.vec_item(p, ii, dep))
        if p.ax is None:
            if len(ii) == 1 and ii[0][0] == "v" and len(ii[0][1]) == 1 and ii[0][1][0][1] != ONE:
                return D(Md(dep=dep, eq=("axes", ii[0][1][0][1], None, None)))
            return D(Md(dep=dep, part=p.part))
        ax = list(p.ax)
        # x[rows, cols] with rows a column vector and cols a row vector
        vs = [x for x in ii if x[0] == "v"]
        if any(x[0] == "?" for x in ii):
            self.note(p, None, node, self.gets)
            return D(Md(dep=dep, part=p.part))
        out = []
        labels = []
        k = 0
        scalars = True
        ix = [x for x in ii]
        if sum(1 for x in ix if x[0] not in ("n", "e")) > len(ax) or any(x[0] == "e" for x in ix):
            return D(Md(dep=dep))
        outer = len(vs) == 2 and {vs[0][2], vs[1][2]} == {"r", "c"}
        if len(vs) == 2 and not outer:
            self.note(p, None, node, self.gets)
            return D(Md(dep=dep, part=p.part))
        for x in ix:
            if x[0] == "n":
                return D(Md(dep=dep))
            a = ax[k]
            k += 1
            if x[0] == "s":
                out.append(self.slice_axis(a, x[1]))
                scalars = False
                labels.append(("s", out[-1]))
            elif x[0] == "i":
                labels.append(("i", self.pick(a, x[1])))
            else:
                self.check_vec(a, x[1], node, "the selection")
                out.append(self.select_axis(a, x[1]))
                scalars = False
                labels.append(("s", out[-1]))
        for a in ax[k:]:
            out.append(a)
            labels.append(("s", a))
            scalars = False
        if len(out) == 2 and out[0] is not None and out[1] is not None and len(vs) == 2:
            u, w = out
            if len(u) == len(w) and u != w and all(comparable(x[1], y[1]) for x, y in zip(u, w)):
                self.report("rows-columns", node, f"rows and columns are taken in different orders: `{src(node)}`")
        if scalars and p.row is not None and len(labels) == 1:
            # m[i][j] is m[i, j]
            whole, labels = Md(ax=p.row[0], base=p.row[1]), [p.row[2]] + labels
            self.note(whole, tuple(l for _, l in labels), node, self.gets)
            return D(Md(dep=dep, part=p.part, base=p.base, lab=tuple(quad(l, a) for (_, l), a in zip(labels, whole.ax))))
        if scalars:
            self.note(p, tuple(l for _, l in labels), node, self.gets)
            return D(Md(dep=dep, part=p.part, base=p.base, lab=tuple(quad(l, a) for (_, l), a in zip(labels, ax))))
        if len(vs) == 2 and p.base == "cov" and all(modes_of(a) is not None for a in p.ax):
            t = [root_of(x[1][0][1])[1][:1] for x in vs]
            if ("perm",) in t and any(len(x[1]) == 1 and x[1][0] == (ZERO, allw(pieces_len(p.ax[0]))) for x in vs):
                self.report("rows-columns", node, f"only the rows or only the columns are reordered: `{src(node)}`")
        if not out:
            return D(Md(dep=dep, part=p.part))
        row = (p.ax, p.base, labels[0]) if len(ii) == 1 and len(p.ax) == 2 and labels[0][0] == "i" else None
        return D(Md(ax=tuple(out), base=p.base, dep=dep, part=p.part, row=row))

    def vec_item(self, p, ii, dep):
        r = Md(dep=dep)
        if len(ii) == 2 and {ii[0][0], ii[1][0]} == {"s", "n"}:
            return p.with_(role="r" if ii[1][0] == "n" else "c", dep=dep)
        if len(ii) != 1:
            return r
        x = ii[0]
        if x[0] == "i":
            c = dict(x[1].m)
            if all(w == ONE for _, w in p.vec) and set(c) <= {()}:
                n = c.get((), 0)
                if -len(p.vec) <= n < len(p.vec):
                    return Md(i=p.vec[n][0], dep=dep)
            if len(p.vec) == 1:
                o, w = p.vec[0]
                if w[0] == "all":
                    return Md(i=o + x[1], dep=dep) if set(c) != {()} or c.get((), 0) >= 0 else Md(i=o + w[1] + x[1], dep=dep)
                return Md(i=o + Poly.var(f"{w!r}[{x[1]!r}]"), dep="?" if dep else "")
            return r
        if x[0] == "s":
            a = self.slice_axis(p.vec, x[1])
            if a is not None:
                d = dep
                return Md(vec=a, dep=d)
            return Md(dep="O" if dep == "E" else dep)
        if x[0] == "v":
            if len(p.vec) == 1 and p.vec[0][1][0] == "all" and x[2] is None:
                return Md(vec=tuple((o + p.vec[0][0], w) for o, w in x[1]), dep=dep)
            if len(p.vec) == 1:
                return Md(vec=((p.vec[0][0], ("perm", p.vec[0][1], pieces_len(x[1]))),), dep="O" if dep else "")
        return r

    # labels of single elements
    def note(self, p, labels, node, table):
        if p.ax is None or p.base is None:
            return
        Ns = [modes_of(a) if a is not None else None for a in p.ax]
        # an axis selected before still tells which quadrature its elements are
        f = self.it.cur
        key = (f.full, p.base)
        t = table.setdefault(key, {"N": None, "labels": {}, "bad": False})
        if labels is None or any(l is None for l in labels):
            t["bad"] = True
            return
        self.nlab += 1
        t["labels"].setdefault(tuple(labels), (self.it.where(node), src(node), self.it.call_path(), p.ax))

    # stores
    def setitem(self, v, idx, val, node, aug=False):
        p, q = self.L(v), self.L(val)
        if p.eq is not None and p.eq[0] == "mask" and not aug:
            x = self.index(idx)
            true = isinstance(val, K) and bool(val.v) is True
            if x[0] == "v" and x[2] is None and true and p.eq[1] is not None and all(w != ONE for _, w in x[1]):
                return D(p.with_(eq=("mask", p.eq[1] + tuple(x[1]))))
            return D(p.with_(eq=("mask", None)))
        if p.ax is None:
            x = self.index(idx)
            if q.eq is not None and q.eq[0] == "axes" and x[0] == "v" and len(x[1]) == 1 and not aug:
                self.naxes += 1
                w, (_, u, how, ku) = x[1][0][1], q.eq
                if u[0] == "sorted" and "sorted" not in root_of(w)[1] and root_of(u)[0] == root_of(w)[0] and (how is None or how == "argsort" and ku == w):
                    self.report(f"axes-{how}", node, "the result for the sorted modes is stored for the modes in another order with its axes "
                                + ("not permuted" if how is None else "permuted by the inverse of the right permutation") + f": `{src(node)}`")
            return v
        its = list(idx.items) if isinstance(idx, Tup) else [idx]
        ii = [self.index(x) for x in its]
        n = sum(1 for x in ii if x[0] in "siv")
        if any(x[0] in ("?", "n", "e") for x in ii) or n > len(p.ax):
            self.note(p, None, node, self.sets)
            return v
        vs = [x for x in ii if x[0] == "v"]
        if len(vs) == 2 and {vs[0][2], vs[1][2]} != {"r", "c"}:
            self.note(p, None, node, self.sets)
            return v
        self.nstore += 1
        dest = []
        lab = []
        for k, a in enumerate(p.ax):
            if k >= len(ii):
                dest.append(a)
                lab.append("*")
                continue
            x = ii[k]
            if x[0] == "i":
                l = self.pick(a, x[1])
                lab.append(l)
                dest.append(None if l is None else "i")
            elif x[0] == "v":
                self.check_vec(a, x[1], node, "the assignment")
                dest.append(self.select_axis(a, x[1]))
                lab.append("v")
            else:
                dest.append(self.slice_axis(a, x[1]))
                lab.append("*")
        # which quadratures a block of the value holds, and in what order
        da = [d for d in dest if d != "i"]
        if not aug and q.ax is not None and len(q.ax) == len(da):
            for d, a, b in zip(da, q.ax, [x for x, d in zip(p.ax, dest) if d != "i"]):
                self.match(d, a, b, node)
        if not aug and q.part in ("re", "im") and len(lab) == 1:
            N = modes_of(p.ax[0])
            if N is not None:
                qs = None
                if isinstance(lab[0], Poly):
                    qs = split_off(lab[0], N)
                elif lab[0] == "v" and dest[0] is not None and len(dest[0]) == 1:
                    qs = split_off(dest[0][0][0], N)
                if qs is not None and qs[0] != (0 if q.part == "re" else 1):
                    self.report("part", node, f"the {'real' if q.part == 're' else 'imaginary'} part of the displacement is stored as a "
                                f"{'momentum' if qs[0] else 'position'}: `{src(node)}`")
        if not any(l == "v" for l in lab):
            self.note(p, tuple(lab), node, self.sets)
        if not aug and q.lab is not None and q.base == "S" and len(lab) == len(q.lab) == len(p.ax):
            for l, a, y in zip(lab, p.ax, q.lab):
                x = quad(l, a) if isinstance(l, Poly) else None
                if x is not None and y is not None and x != y:
                    self.report("block", node, f"a {'momentum' if y else 'position'} entry is stored in a {'momentum' if x else 'position'} "
                                f"row or column: `{src(node)}`")
        return v

    def match(self, d, a, whole, node):
        """axis a of the value is stored where axis pieces d of the target are"""
        if d is None or a is None or len(d) != len(a):
            return
        N = modes_of(whole)
        for (o, w), (oo, ww) in zip(d, a):
            wr, wt = root_of(w)
            vr, vt = root_of(ww)
            src_n = ww[1] if ww[0] == "all" else None
            if ww[0] == "all" and wr[0] == "par":
                if any(t in ("sorted", "set", "unique", "rev") for t in wt):
                    self.report("order", node, f"the block is stored for the modes in another order than the caller listed them: `{src(node)}`")
                if N is not None and self.src_modes is not None:
                    x, y = split_off(o, N), split_off(oo, self.src_modes)
                    if x is not None and y is not None and x[0] != y[0]:
                        self.report("block", node, f"the {'momentum' if y[0] else 'position'} block is stored in the "
                                    f"{'momentum' if x[0] else 'position'} rows or columns: `{src(node)}`")

    src_modes = None

    def augassign(self, cur, v, new, node):
        return new

    def method(self, v, name, args, kw, node):
        return self.call_ext("numpy." + name, [v] + list(args), kw, node, meth=True)

    def branch(self, node, test, frame):
        p = self.L(test) if not isinstance(test, K) else ANY
        d = p.dep
        if test is TOP:
            d = "?"
        g = self.guards.setdefault(frame.info.full, {})
        k = id(node)
        if k not in g or RANKD[g[k]] < RANKD[d]:
            g[k] = d

    def boolop(self, isand, vals, n, decided):
        if decided is not None:
            return None
        d = ""
        for v in vals:
            x = "?" if v is TOP else self.L(v).dep if not isinstance(v, K) else ""
            d = x if RANKD[x] > RANKD[d] else d
        return D(Md(dep=d))

    def dims(self, v):
        if isinstance(v, (Tup, Lst)):
            its = self.it.items_of(v)
            return [self.L(x).i for x in its] if its is not None else None
        p = self.L(v)
        return [p.i]

    def axis_for(self, n):
        if n is None:
            return None
        h = half(n)
        # an array of 2N rows is taken to be ordered (x, p)
        if h is not None and h.m and any(k for k, _ in h.m):
            return full(h)
        return ((ZERO, allw(n)),)

    def new_array(self, dims, node):
        if dims is None or any(d is None for d in dims):
            return D(ANY)
        return D(Md(ax=tuple(self.axis_for(d) for d in dims), base=f"new:{src(node)}", fresh=True))

    def axis_arg(self, args, kw, pos):
        a = kw.get("axis")
        if a is None and len(args) > pos:
            a = args[pos]
        if a is None:
            return "none"
        return a.v if isinstance(a, K) else "?"

    def call_ext(self, name, args, kw, node, meth=False):
        c = canon(name)
        ps = [self.L(a) for a in args]
        p0 = ps[0] if ps else ANY
        dep = ""
        for p in ps:
            dep = p.dep if RANKD[p.dep] > RANKD[dep] else dep
        if c == "py.len" and args:
            return self.it.length(args[0])
        if c in ("py.int", "int64", "intp", "floor", "py.float", "py.round") and len(args) == 1:
            return D(Md(i=p0.i, dep=p0.dep))
        if c in ("array", "asarray", "ascontiguousarray", "copy", "tolist", "astype", "asanyarray", "asfortranarray", "atleast_1d", "squeeze",
                 "ravel", "flatten", "toarray", "todense"):
            if c in ("array", "asarray") and isinstance(args[0], (Lst, Tup)) and not meth:
                e = [x for x in (args[0].items or [])]
                if len(e) == 1 and self.L(e[0]).vec is not None:
                    return D(self.L(e[0]))
            if c in ("flatten", "ravel"):
                return D(p0.with_(role=None)) if p0.vec is not None or p0.ax is not None and len(p0.ax) == 1 else D(Md(dep=p0.dep))
            if c == "atleast_1d" and p0.i is not None and p0.vec is None and p0.ax is None:
                return D(Md(vec=((p0.i, ONE),), dep=p0.dep))
            if p0.i is not None and p0.vec is None and p0.ax is None and c in ("array", "asarray"):
                return D(p0)
            cls = "builtins.list" if c == "tolist" and p0.cls == "numpy.ndarray" else p0.cls if c == "copy" and meth else "numpy.ndarray" \
                if c in ("array", "asarray") and p0.cls else None
            return D(p0.with_(fresh=False, cls=cls) if c != "astype" or p0.ax is not None or p0.vec is not None or p0.i is not None else p0)
        if c in ("real", "imag") and args:
            return self.attr(args[0], c, node)
        if c in ("conj", "sqrt", "abs", "positive", "negative", "exp", "cosh", "sinh", "cos", "sin", "real_if_close"):
            return D(Md(ax=p0.ax, base=p0.base if c in ("conj", "real_if_close") else None, dep=p0.dep, part=p0.part if c in ("sqrt", "real_if_close") else None,
                        vec=p0.vec if c in ("conj",) else None))
        if c in ("zeros", "full") and args and self.boolean(args, kw, c):
            d = self.dims(args[0])
            if d is not None and len(d) == 1 and d[0] is not None:
                return D(Md(ax=(self.axis_for(d[0]),), eq=("mask", ()), fresh=True))
        if c in ("zeros", "empty", "ones", "identity", "eye", "zeros_like", "ones_like", "full", "full_like", "scipy.sparse.identity", "scipy.sparse.eye",
                 "scipy.sparse.eye_array", "empty_like", "copy.copy", "copy.deepcopy") and args:
            if c.endswith("_like"):
                return D(Md(ax=p0.ax, base=f"new:{src(node)}", fresh=True)) if p0.ax is not None else D(ANY)
            if c.startswith("copy."):
                return D(p0)
            d = self.dims(args[0])
            if c in ("identity", "eye") or "sparse" in c:
                d = [d[0], d[0]] if d else None
            return self.new_array(d, node)
        if c == "arange":
            lo, hi = (ZERO, p0.i) if len(ps) == 1 else (p0.i, ps[1].i) if len(ps) >= 2 else (None, None)
            if lo is None or hi is None or len(ps) > 2:
                return D(Md(dep=dep))
            return D(Md(vec=((lo, allw(hi - lo)),), dep=dep))
        if c == "block" and args:
            rows = self.it.items_of(args[0])
            if rows and len(rows) == 2 and all(self.it.items_of(x) is not None and len(self.it.items_of(x)) == 2 for x in rows):
                q = [[self.L(y) for y in self.it.items_of(x)] for x in rows]
                ws = {a[0][1] for r in q for y in r if y.ax is not None and len(y.ax) == 2 for a in y.ax if a is not None and len(a) == 1}
                if len(ws) == 1 and all(y.ax is not None and len(y.ax) == 2 and all(a is not None and len(a) == 1 for a in y.ax) for r in q for y in r):
                    w = next(iter(ws))
                    if w[0] == "all":
                        return D(Md(ax=(full(w[1]), full(w[1])), base="expr", dep=dep))
            return D(Md(dep=dep))
        if c in ("concatenate", "hstack", "append", "r_"):
            if c == "append":
                parts = list(args[:2])
            elif args:
                its = self.it.items_of(args[0])
                parts = its
            else:
                parts = None
            if self.axis_arg(args, kw, 2 if c == "append" else 1) not in ("none", 0, -1):
                return D(Md(dep=dep))
            if not parts:
                return D(Md(dep=dep))
            qs = [self.L(x) for x in parts]
            dd = ""
            for q in qs:
                dd = q.dep if RANKD[q.dep] > RANKD[dd] else dd
            if all(q.vec is not None and q.role is None for q in qs):
                return D(Md(vec=tuple(x for q in qs for x in q.vec), dep=dd))
            if all(q.ax is not None and len(q.ax) == 1 and q.ax[0] is not None for q in qs):
                cat = tuple(x for q in qs for x in q.ax[0])
                if len(cat) == 2 and cat[0] == cat[1] and cat[0][0] == ZERO and cat[0][1][0] == "all":
                    # amplitudes and their conjugates, or one number per quadrature
                    cat = (cat[0], (cat[0][1][1], cat[0][1]))
                elif len(cat) == 2 and cat[0][0] == cat[1][0] == ZERO and comparable(cat[0][1], cat[1][1]):
                    self.report("mixed-modes", node, f"the two halves list the modes in different orders: `{src(node)}`")
                return D(Md(ax=(cat,), dep=dd))
            return D(Md(dep=dd))
        if c in ("ix_", "thewalrus.ix_") and len(args) == 2:
            ps = [Md(vec=mask_of(p), dep=p.dep) if mask_of(p) is not None else p for p in ps]
            return Tup([D(p.with_(role=r)) if p.vec is not None else D(Md(dep=p.dep)) for p, r in zip(ps, "rc")])
        if c in ("reshape", "expand_dims") and args:
            sh = args[1:] if len(args) > 2 else self.it.items_of(args[1]) if len(args) == 2 and self.it.items_of(args[1]) is not None else args[1:]
            if c == "expand_dims" and p0.vec is not None:
                a = self.axis_arg(args, kw, 1)
                return D(p0.with_(role="r" if a in (1, -1) else "c" if a == 0 else None)) if a in (0, 1, -1) else D(Md(dep=dep))
            if c == "reshape" and p0.vec is not None:
                s = [x.v if isinstance(x, K) else None for x in sh]
                if len(s) == 2 and s[1] == 1:
                    return D(p0.with_(role="r"))
                if len(s) == 2 and s[0] == 1:
                    return D(p0.with_(role="c"))
                if s == [-1]:
                    return D(p0.with_(role=None))
            return D(Md(dep=p0.dep if len(ps) == 1 else dep))
        if c == "transpose" and len(args) == 2 and p0.eq is not None and p0.eq[0] == "axes":
            v = ps[1].vec
            if p0.eq[2] is None and v is not None and len(v) == 1 and v[0][1][0] in ("argsort", "rank"):
                return D(Md(dep=dep, eq=("axes", p0.eq[1], v[0][1][0], v[0][1][1])))
            return D(Md(dep=dep))
        if c == "argsort" and p0.vec is not None and len(p0.vec) == 1 and p0.vec[0][1] != ONE and len(args) == 1 and not kw:
            w = p0.vec[0][1]
            return D(Md(vec=((ZERO, ("rank", w[1]) if w[0] == "argsort" else ("argsort", w)),), dep="O" if p0.dep == "E" else p0.dep))
        if c in ("transpose",) and p0.ax is not None and len(args) == 1:
            return D(p0.with_(ax=p0.ax[::-1]))
        if c in ("sort", "py.sorted") and p0.vec is not None:
            return D(Md(vec=sort_vec(p0.vec), dep="S" if p0.dep in ("E", "S") else p0.dep))
        if c == "unique" and p0.vec is not None:
            return D(Md(vec=tuple((o, uniq(w)) for o, w in p0.vec) if len(p0.vec) == 1 else None, dep="S" if p0.dep in ("E", "S") else p0.dep))
        if c in ("flip", "flipud") and p0.vec is not None and len(p0.vec) == 1:
            return D(Md(vec=((p0.vec[0][0], rev(p0.vec[0][1])),), dep="O" if p0.dep == "E" else p0.dep))
        if c == "argsort" or c.endswith("invert_permutation"):
            return D(Md(vec=((ZERO, ("perm", ("call", src(node)), pieces_len(p0.vec) if p0.vec is not None else None)),), dep="O" if p0.dep else "")) \
                if False else D(Md(dep="O" if p0.dep == "E" else p0.dep))
        if c in ("where", "nonzero", "flatnonzero") and len(args) == 1 and mask_of(p0) is not None:
            v = D(Md(vec=mask_of(p0), dep="S"))
            return v if c == "flatnonzero" else Tup([v])
        if c in ("where", "nonzero", "flatnonzero") and len(args) == 1:
            v = D(Md(vec=((ZERO, ("sel", src(node))),), dep="O" if p0.dep == "E" else p0.dep))
            return v if c == "flatnonzero" else Tup([v])
        if c in ("take", "compress") and len(args) >= 2 and p0.ax is not None:
            ax = self.axis_arg(args, kw, 2)
            v = ps[1].vec
            if ax in ("none", 0) and v is not None and (ax == 0 or len(p0.ax) == 1):
                self.check_vec(p0.ax[0], v, node, "the selection")
                return D(Md(ax=(self.select_axis(p0.ax[0], v),) + p0.ax[1:], base=p0.base, dep=dep))
            if ax in (1, -1) and v is not None and len(p0.ax) == 2:
                self.check_vec(p0.ax[1], v, node, "the selection")
                return D(Md(ax=(p0.ax[0], self.select_axis(p0.ax[1], v)), base=p0.base, dep=dep))
            return D(Md(dep=dep))
        if c in ("array_equal", "array_equiv") and len(args) >= 2 and p0.vec and ps[1].vec and self.differ(p0.vec, ps[1].vec):
            return K(False)
        if c in ("array_equal", "allclose", "array_equiv") and len(args) >= 2:
            return D(Md(dep=self.deps(ps[0], ps[1]), eq=(ps[0].vec, ps[1].vec) if ps[0].vec is not None and ps[1].vec is not None else None))
        if c in ("sum", "count_nonzero") and len(args) == 1 and not kw and p0.ax is None and p0.i is None:
            return D(Md(i=Poly.var(f"sum:{src(node)}")))
        if c in ("any", "all", "py.any", "py.all", "sum", "max", "min", "prod", "py.set", "py.frozenset", "collections.Counter", "count_nonzero", "bincount"):
            return D(Md(dep="S" if dep == "E" else dep))
        if c in ("linalg.inv", "inv") and p0.ax is not None and len(p0.ax) == 2:
            return D(Md(ax=p0.ax[::-1], base=p0.base and "inv:" + p0.base))
        if c in ("dot", "matmul") and len(args) == 2:
            return self.binop("MatMult", args[0], args[1], node)
        if c in ("add", "subtract", "multiply", "divide") and len(args) == 2:
            return self.binop({"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div"}[c], args[0], args[1], node)
        if c in ("type", "py.type") and len(ps) == 1 and p0.cls:
            return Ext(p0.cls)
        if c in ("isinstance", "issparse", "scipy.sparse.issparse", "type", "py.type", "py.hasattr", "isscalar", "ndim"):
            return D(Md(dep="S" if dep else ""))
        if c in ("isin", "in1d"):
            if len(ps) >= 2 and not kw and p0.vec is not None and len(p0.vec) == 1 and p0.vec[0][0] == ZERO and p0.vec[0][1][0] == "all" \
                    and ps[1].vec is not None and len(ps[1].vec) == 1 and ps[1].vec[0][1] != ONE:
                return D(Md(ax=(p0.vec,), eq=("mask", ps[1].vec), dep="S"))
            return D(Md(dep=dep))
        if c.startswith("scipy.sparse.") and args and p0.ax is not None:
            return D(p0)
        return D(Md(dep="O" if dep == "E" else dep))

    @staticmethod
    def boolean(args, kw, c):
        if c == "full":
            v = args[1] if len(args) > 1 else kw.get("fill_value")
            return isinstance(v, K) and v.v is False
        v = args[1] if len(args) > 1 else kw.get("dtype")
        return v is not None and "bool" in repr(getattr(v, "name", getattr(v, "v", v)))

    def call_unknown(self, f, args, kw, node):
        return TOP

    def to_seq(self, v, kind, n):
        p = self.L(v)
        if isinstance(v, D) and p.vec is not None:
            r = Lst(None, D(self.elem_of(p.vec, p.dep)), kind)
            r.tag = p.vec
            return r
        return None


def quad(l, ax):
    """0 for a position, 1 for a momentum"""
    N = modes_of(ax) if ax is not None else None
    s = split_off(l, N) if N is not None and l is not None else None
    return s[0] if s else None


def q_scalar(p):
    return p.ax is None and p.vec is None


def mask_of(p):
    """the indices a boolean mask selects: always in increasing order"""
    if p.eq is None or p.eq[0] != "mask" or not p.eq[1]:
        return None
    return sort_vec(tuple(sorted(p.eq[1], key=lambda x: x[0] != ZERO)))


def srt(w):
    w0 = root_of(w)
    if w[0] in ("all", "sorted") or w == ONE:
        return w
    return ("sorted", w)


def sort_vec(ps):
    """pieces after sorting: positions come before momenta"""
    if len(ps) == 1:
        return tuple((o, srt(w)) for o, w in ps)
    if len(ps) == 2 and ps[0][0] == ZERO and all(w[0] in ("par", "sorted", "perm") for _, w in ps) and all(v > 0 for _, v in ps[1][0].m) and ps[1][0].m:
        return tuple((o, srt(w)) for o, w in ps)
    return None


def uniq(w):
    if w[0] in ("all", "unique") or w == ONE:
        return w
    return ("unique", w)


def rev(w):
    if w == ONE:
        return w
    return w[1] if w[0] == "rev" else ("rev", w)


def mismatch(vec, N):
    """why an index vector does not take both quadratures of the same modes in the same order, or None"""
    xs, ps = [], []
    if len(vec) == 2 and vec[0][1][0] != "all" and vec[0][1] == vec[1][1] != ONE:
        d = vec[1][0] - vec[0][0]
        if d != N and d != -N and d != ZERO:
            return f"the momenta of other modes than the positions: they are {d!r} places apart, not {N!r}"
    if len(vec) == 2 and {root_of(w)[1][:1] for _, w in vec} == {("perm",), ()} and any(w[0] == "all" for _, w in vec):
        return "positions and momenta in different orders"
    for o, w in vec:
        s = split_off(o, N)
        if s is None:
            return None
        (ps if s[0] else xs).append((s[1], w))
    if not xs or not ps:
        if len(xs) != len(set(xs)) and not any(w == ONE for _, w in xs):
            return "the same quadrature of the modes twice"
        if len(ps) != len(set(ps)) and not any(w == ONE for _, w in ps):
            return "the same quadrature of the modes twice"
        return None
    if xs == ps:
        return None
    sx, sp = sorted(map(repr, xs)), sorted(map(repr, ps))
    if sx == sp:
        return "positions and momenta in different orders"
    if len(xs) == len(ps):
        for (o, w), (oo, ww) in zip(xs, ps):
            if w == ww and o != oo:
                return f"the positions of modes {name(o, w)} but the momenta of modes {name(oo, ww)}"
            if o == oo and comparable(w, ww):
                return "positions and momenta of the modes in different orders or selections"
        return None
    if all(w == ONE for _, w in xs + ps):
        return "positions and momenta of different modes"
    return None


def name(o, w):
    if w == ONE:
        return repr(o)
    b = {"all": "all", "par": w[1]}.get(w[0], w[0])
    return b if o == ZERO else f"{b} + {o!r}"


class ModeInterp(Interp):
    def call_ext(self, name, args, kw, n, env, fr):
        r = super().call_ext(name, args, kw, n, env, fr)
        if name == "itertools.product" and isinstance(r, Lst) and isinstance(r.elem, Lst) and r.elem.items is None:
            r.elem.tag = ((ZERO, ("par", f"product:{src(n)}")),)
        if name in ("collections.OrderedDict.fromkeys", "builtins.dict.fromkeys") and len(args) == 1 and not isinstance(args[0], tuple):
            w = self.vec(args[0])
            if w is not None and len(w) == 1 and w[0][1] != ONE:
                r = Lst(None, self.elem(args[0]), "gen")
                r.tag = ((w[0][0], ("dedup", w[0][1])),)
        return r

    def vkey(self, v):
        if isinstance(v, Lst):
            return super().vkey(v) + (v.tag,)
        return super().vkey(v)

    def vec(self, v):
        """the pieces of a sequence used as an index vector"""
        if isinstance(v, (Tup, Lst)) and v.items is not None:
            if isinstance(v, Lst) and v.kind == "set":
                return None
            out = []
            for x in v.items:
                if not isinstance(x, (D, K)):
                    return None
                p = self.dom.L(x)
                if p.i is None or p.vec is not None or p.ax is not None:
                    return None
                out.append((p.i, ONE))
            return tuple(out) if out else None
        if isinstance(v, Lst):
            return v.tag if v.tag and v.tag[0] != "ax" else None
        if isinstance(v, D):
            return v.p.vec
        return None

    def axis1(self, v):
        if isinstance(v, Lst) and v.items is None and v.tag and v.tag[0] == "ax":
            return (v.tag[1],)
        return None

    def length(self, v):
        ps = self.vec(v)
        if ps is not None and not (isinstance(v, Lst) and v.kind == "set"):
            return D(Md(i=pieces_len(ps)))
        p = self.dom.L(v)
        if p.ax is not None and p.ax[0] is not None:
            return D(Md(i=pieces_len(p.ax[0])))
        return D(Md(dep="S" if p.dep in ("E", "S") else p.dep))

    def join_tag(self, a, b, r):
        x, y = self.vec(a), self.vec(b)
        r.tag = x if x == y else None
        return r

    def _join1(self, a, b):
        r = super()._join1(a, b)
        if isinstance(r, Lst) and r.items is None and isinstance(a, (Lst, Tup)) and isinstance(b, (Lst, Tup)):
            return self.join_tag(a, b, r)
        return r

    def binop(self, op, a, b, n):
        r = super().binop(op, a, b, n)
        if isinstance(r, Lst) and r.items is None:
            r.tag = None
            if op == "Add":
                s, m = self.vec(a), self.vec(b)
                r.tag = s + m if s is not None and m is not None else None
        return r

    def bi_range(self, a, kw, n, env, fr):
        r = super().bi_range(a, kw, n, env, fr)
        if r.items is None:
            v = [self.dom.L(x).i for x in a]
            if len(v) == 1 and v[0] is not None:
                r.tag = ((ZERO, allw(v[0])),)
            elif len(v) == 2 and None not in v:
                r.tag = ((v[0], allw(v[1] - v[0])),)
        return r

    def _to_seq(self, v, kind, n):
        r = super()._to_seq(v, kind, n)
        if isinstance(r, Lst) and r.items is None and isinstance(v, (Lst, Tup)):
            w = self.vec(v)
            r.tag = w
            if isinstance(v, Lst) and v.kind == "set":
                r.tag = v.tag
        return r

    def bi_set(self, a, kw, n, env, fr):
        r = super().bi_set(a, kw, n, env, fr)
        if a:
            w = self.vec(a[0])
            r.tag = tuple((o, ("set", x)) for o, x in w) if w is not None and len(w) == 1 and w[0][1] != ONE else None
            e = self.dom.L(a[0])
            if isinstance(r.elem, D) and r.elem.p.dep == "E":
                r.elem = D(r.elem.p.with_(dep="S"))
        return r

    bi_frozenset = bi_set

    def bi_sorted(self, a, kw, n, env, fr):
        r = super().bi_sorted(a, kw, n, env, fr)
        w = self.vec(a[0])
        if w is None and isinstance(a[0], Lst) and a[0].kind == "set":
            w = a[0].tag
        r.tag = tuple((o, srt(x)) for o, x in w) if w is not None and len(w) == 1 and not kw else None
        if isinstance(r.elem, D) and r.elem.p.dep == "E":
            r.elem = D(r.elem.p.with_(dep="S"))
        return r

    def bi_reversed(self, a, kw, n, env, fr):
        r = super().bi_reversed(a, kw, n, env, fr)
        if isinstance(r, Lst) and r.items is None:
            w = self.vec(a[0])
            r.tag = tuple((o, rev(x)) for o, x in w[::-1]) if w is not None else None
        return r

    def bi_len(self, a, kw, n, env, fr):
        r = super().bi_len(a, kw, n, env, fr)
        return r if r is not None else self.length(a[0])

    def bi_enumerate(self, a, kw, n, env, fr):
        r = super().bi_enumerate(a, kw, n, env, fr)
        if isinstance(r, Lst) and r.items is None:
            e = r.elem
            if isinstance(e, Tup):
                r.elem = Tup([D(Md(i=Poly.var(f"ix{n.lineno}:{n.col_offset}"))), e.items[1]])
        return r

    def subscript(self, v, idx, n):
        if isinstance(v, Lst) and v.items is None and v.tag is not None and v.kind != "set":
            p = self.dom.L(v)
            ii = self.dom.index(idx)
            if p.vec is not None and ii[0] in ("i", "s"):
                r = self.dom.vec_item(p, [ii], p.dep)
                if ii[0] == "s" and r.vec is not None:
                    q = Lst(None, D(self.dom.elem_of(r.vec, r.dep)), v.kind)
                    q.tag = r.vec
                    return q
                if ii[0] == "i":
                    return D(r)
        return super().subscript(v, idx, n)

    def list_method(self, lst, name, args, kw, n):
        old = self.vec(lst)
        r = super().list_method(lst, name, args, kw, n)
        if name in ("append", "extend", "insert", "pop", "remove", "clear", "add", "update"):
            lst.tag = None
        elif name == "sort":
            lst.tag = tuple((o, srt(w)) for o, w in old) if old is not None and len(old) == 1 and not kw else None
        elif name == "reverse":
            lst.tag = tuple((o, rev(w)) for o, w in old[::-1]) if old is not None else None
        elif name == "copy" and isinstance(r, Lst):
            r.tag = lst.tag
        return r

    def _comp(self, n, env, fr, elt):
        items, e = super()._comp(n, env, fr, elt)
        self.comp_tag = None
        if items is None and len(n.generators) == 1 and len(n.generators[0].ifs) == 1 and isinstance(n.generators[0].target, ast.Name):
            g = n.generators[0]
            c = g.ifs[0]
            if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.In) and isinstance(c.left, ast.Name) \
                    and isinstance(n, (ast.ListComp, ast.GeneratorExp)) and c.left.id == g.target.id \
                    and isinstance(n.elt, ast.Name) and n.elt.id == g.target.id:
                w, m = self.vec(self.ev(g.iter, dict(env), fr)), self.ev(c.comparators[0], dict(env), fr)
                m = m.tag if isinstance(m, Lst) and m.kind == "set" else self.vec(m)
                if w is not None and len(w) == 1 and w[0][0] == ZERO and w[0][1][0] == "all" and m is not None and len(m) == 1 and m[0][1] != ONE:
                    self.comp_tag = sort_vec(m)
        if items is None and len(n.generators) == 1 and not n.generators[0].ifs and isinstance(e, D) and e.p.i is not None:
            g = n.generators[0]
            w = self.vec(self.ev(g.iter, dict(env), fr))
            if w is not None and len(w) == 1 and isinstance(g.target, ast.Name):
                v = self.dom.elem_of(w).i
                if v is not None:
                    d = e.p.i - v
                    if not any(x in str(k) for k, _ in d.m for x in ("@", "ix")) or not d.m:
                        self.comp_tag = ((w[0][0] + d, w[0][1]),)
        return items, e

    def ev_ListComp(self, n, env, fr):
        r = super().ev_ListComp(n, env, fr)
        if r.items is None:
            r.tag = self.comp_tag
        return r

    def ev_GeneratorExp(self, n, env, fr):
        r = super().ev_GeneratorExp(n, env, fr)
        if r.items is None:
            r.tag = self.comp_tag
        return r
