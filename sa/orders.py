"""In which order the modes of a value are listed.

Payload ``Ord(w, kind, ix)``: ``w`` a word of permutations applied to the order of the input (``()`` is the input's order,
``None`` means no mode order: a scalar, a size, an option; ``"?"`` unknown).  ``kind`` is ``data`` or ``perm``; the value
of a permutation is a letter ``(id, +1/-1)``.  Indexing data of order ``w`` with the permutation ``p`` gives order
``w.p``; letters cancel with their inverse.  An index variable acquires the order of the data it addresses, and an array
filled through it has that order.
"""
import ast

from .interp import BOT, D, Dct, Domain, Ext, Fn, Interp, K, Lst, NONE, Slice, TOP, Tup, U
from .npk import canon
from .units import src


class Ord:
    __slots__ = ("w", "perm", "ix", "arange", "pend", "stale")

    def __init__(self, w=None, perm=None, ix=None, arange=False, pend=None):
        self.w, self.perm, self.ix, self.arange, self.pend = w, perm, ix, arange, pend

    def k(self):
        return (self.w, self.perm, self.ix, self.arange, self.pend)

    def __repr__(self):
        return f"Ord(w={self.w}, perm={self.perm}, ix={self.ix})"


NEUT = Ord()
UNKN = Ord("?")
SCALARS = {"sum", "prod", "linalg.det", "trace", "linalg.norm", "py.len", "shape", "ndim", "size", "allclose", "all", "any", "max", "min",
           "linalg.slogdet", "mean", "py.isinstance", "array_equal", "linalg.matrix_rank", "isclose", "iscomplexobj", "isrealobj", "std",
           "count_nonzero", "item", "zeros_like", "ones_like", "empty_like"}
# functions of the eigen-decomposition whose rows keep the order but whose columns do not: treated as ordered data
KEEP_AXIS = {"sum", "mean", "max", "min", "prod", "any", "all"}
REORDER = {"sort", "unique", "flip", "roll", "flipud", "partition", "random.permutation", "random.shuffle"}


def cancel(w, letters):
    w = list(w)
    for x in letters:
        if w and w[-1][0] == x[0] and w[-1][1] == -x[1]:
            w.pop()
        else:
            w.append(x)
    return tuple(w)


def inv(p):
    return tuple((a, -s) for a, s in reversed(p))


class OrdDomain(Domain):
    max_depth = 24
    unroll = 0

    def __init__(self, ixmap=None, public=()):
        self.public = public
        self.ixmap = ixmap if ixmap is not None else {}
        self.conflicts = {}
        self.applied = []

    def top(self):
        return NEUT

    def const(self, v):
        return NEUT

    def key(self, p):
        return p.k()

    def index_value(self):
        return NEUT

    def jw(self, a, b):
        if a == b:
            return a
        if a is None:
            return b
        if b is None:
            return a
        return "?"

    def join(self, p, q):
        if p.k() == q.k():
            return p
        perm = p.perm if p.perm == q.perm else None
        return Ord(self.jw(p.w, q.w), perm, p.ix if p.ix == q.ix else None, p.arange and q.arange, p.pend or q.pend)

    def lift_seq(self, ps):
        r = NEUT
        for i, p in enumerate(ps):
            r = p if i == 0 else self.join(r, p)
        return Ord(r.w, r.perm)

    def arrayish(self, p):
        return p.w is not None or p.perm is not None

    def range_elem(self, a, n):
        return D(Ord(ix=(self.it.cur.full if self.it.cur else "", n.lineno, n.col_offset)))

    def iter_elem(self, p):
        return D(Ord(p.w))

    def L(self, v):
        if v is TOP:
            return UNKN
        if isinstance(v, Slice):
            return NEUT
        if isinstance(v, Dct) or v is BOT:
            return NEUT
        if isinstance(v, (Fn, Ext)):
            return NEUT
        if isinstance(v, (Tup, Lst)):
            its = v.items if v.items is not None else [v.elem] if v.elem is not None and v.elem is not BOT else []
            return self.lift_seq([self.L(x) for x in its])
        return self.it.lift(v)

    def combine(self, ps, node, what):
        """elementwise or linear combination of ordered values"""
        ws = []
        for p in ps:
            if p.w is not None and p.w not in ws:
                ws.append(p.w)
        if not ws:
            perms = {p.perm for p in ps if p.perm is not None}
            return Ord(None, perms.pop() if len(perms) == 1 else None)
        if len(ws) == 1:
            return Ord(ws[0])
        if "?" in ws:
            return UNKN
        f = self.it.cur
        k = f"{f.full if f else '?'}:{src(node)[:60]}"
        self.conflicts[k] = (self.it.where(node), src(node), ws, tuple(self.it.call_path()))
        return UNKN

    def binop(self, op, a, b, node):
        p, q = self.L(a), self.L(b)
        if op in ("Add", "Sub", "Mod") and (p.perm is not None) != (q.perm is not None) and (p.w is None and q.w is None):
            return D(Ord(None, p.perm or q.perm))
        return D(self.combine([p, q], node, op))

    def unop(self, op, a, node):
        return D(Ord(self.L(a).w))

    def compare(self, op, a, b, node):
        return D(self.combine([self.L(a), self.L(b)], node, op))

    def attr(self, v, name, node):
        p = self.L(v)
        if name in ("shape", "size", "ndim", "dtype"):
            return Lst(None, D(NEUT), "tuple") if name == "shape" else D(NEUT)
        return D(Ord(p.w, p.perm))

    def getitem(self, v, idx, node):
        p = self.L(v)
        its = list(idx.items) if isinstance(idx, Tup) else [idx]
        w = p.w
        reord = False
        for i in its:
            if isinstance(i, Slice):
                if isinstance(i.step, K) and isinstance(i.step.v, int) and i.step.v < 0 and w is not None and w != "?":
                    w = cancel(w, (("reversal", 1),))
                continue
            q = self.L(i)
            if q.perm is not None:
                if p.perm is not None and w is None:
                    return D(Ord(None, cancel(p.perm, q.perm)))
                if w is None:
                    if p.pend:
                        w = self.ixmap.get(p.pend)
                if w is not None and w != "?" and not reord:
                    self.applied.append((self.it.where(node), w, q.perm))
                    w = cancel(w, q.perm)
                    reord = True
            elif q.ix is not None and w is not None:
                self.note(q.ix, w)
        return D(Ord(w, None, None, False, p.pend))

    def note(self, ix, w):
        o = self.ixmap.get(ix)
        if o is None:
            self.ixmap[ix] = w
        elif o != w:
            self.ixmap[ix] = "?"

    def setitem(self, v, idx, val, node, aug=False):
        p, q = self.L(v), self.L(val)
        its = list(idx.items) if isinstance(idx, Tup) else [idx]
        for i in its:
            x = self.L(i) if not isinstance(i, Slice) else NEUT
            if x.perm is not None and q.arange:
                return D(Ord(None, inv(x.perm)))
            if x.perm is not None and q.w not in (None, "?"):
                # scattering: y[p] = x puts element k of x at place p[k]
                return D(Ord(cancel(q.w, inv(x.perm))))
            if x.ix is not None:
                if p.w not in (None, "?"):
                    self.note(x.ix, p.w)
                w = self.ixmap.get(x.ix)
                if w is not None:
                    nw = w if p.w is None else p.w if p.w == w else "?"
                    return D(Ord(nw, None, None, False, None))
                return D(Ord(self.jw(p.w, q.w), None, None, False, x.ix))
        if p.perm is not None:
            return D(NEUT)
        return D(Ord(self.jw(p.w, q.w), None, None, False, p.pend))

    def method(self, v, name, args, kw, node):
        return self.ext(name, [v] + list(args), kw, node)

    def call_unknown(self, f, args, kw, node):
        return D(UNKN)

    def call_ext(self, name, args, kw, node):
        return self.ext(canon(name), args, kw, node)

    def sorted_elem(self, e, n):
        f = self.it.cur
        perm = D(Ord(None, ((f.full if f else "?", 1),)))
        if isinstance(e, Tup) and e.items:
            ws = [self.L(x) for x in e.items]
            if ws[0].w == ():
                return Tup([perm if p.ix is not None or p.arange or (p.w is None and i == len(ws) - 1 and p.perm is None) else x
                            for i, (x, p) in enumerate(zip(e.items, ws))])
            return D(UNKN)
        p = self.L(e)
        if (p.ix is not None or p.arange) and any(k.arg == "key" for k in getattr(n, "keywords", [])):
            return perm
        if p.perm is not None or p.w is None:
            return D(UNKN)
        return D(Ord(cancel(p.w, ((f"sorted at {self.it.where(n)}", 1),))) if p.w != "?" else UNKN)

    def summary(self, info, bound, node):
        if not self.it.stack or info.module.name.endswith("samples") or info.parent is not None:
            return None
        if info.full not in self.public:
            return None
        return D(Ord(self.combine([Ord(self.L(v).w) for v in bound.values()], node, info.name).w))

    def ext(self, c, args, kw, node):
        ps = [self.L(a) for a in args] + [self.L(a) for k, a in kw.items() if k not in ("axis", "dtype")]
        f = self.it.cur
        if c == "argsort" and ps:
            p = ps[0]
            if p.perm is not None:
                return D(Ord(None, inv(p.perm)))
            if p.w == ():
                return D(Ord(None, ((f"{f.full}", 1),)))
            return D(UNKN)
        if c in ("ix_", "concatenate", "hstack", "append", "array", "asarray", "copy", "astype", "tile", "py.list", "tolist", "int64", "ravel",
                 "flatten", "reshape", "vstack", "stack", "block", "column_stack"):
            perms = {p.perm for p in ps if p.perm is not None}
            if perms and len(perms) == 1 and all(p.w is None for p in ps):
                return D(Ord(None, perms.pop()))
            return D(self.combine([Ord(p.w) for p in ps], node, c))
        if c in ("arange", "py.range"):
            return D(Ord(arange=True))
        if c in SCALARS and "axis" not in kw and not (c in KEEP_AXIS and len(args) > 1):
            return D(NEUT)
        if c in REORDER:
            return D(Ord(cancel(ps[0].w, ((f"{c} at {self.it.where(node)}", 1),)))) if ps and ps[0].w not in (None, "?") else D(NEUT)
        if c.startswith("random."):
            r = self.combine([Ord(p.w) for p in ps], node, c)
            return D(r)
        if c in ("linalg.eigh", "linalg.eig", "linalg.svd", "linalg.qr", "linalg.schur", "linalg.polar", "linalg.slogdet"):
            n = 3 if c == "linalg.svd" else 2
            return Tup([D(Ord(self.combine(ps, node, c).w))] * n)
        return D(Ord(self.combine([Ord(p.w) for p in ps], node, c).w))
