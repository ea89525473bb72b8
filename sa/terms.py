"""Terms: every value is represented by the expression over the parameters that computes it (value numbering).

A term is hash-consed, so two values are known to be equal when their terms are identical.  ``UNK`` is an unknown value;
an atom ``v:...`` names the unknown value bound to a variable, equal to itself within one run but to nothing else.
``arr(base, stores)`` is an array with elements overwritten, ``phi`` one of up to three alternatives.
"""
from .interp import BOT, D, Dct, Domain, Ext, Fn, Interp, K, Lst, NONE, Slice, TOP, Tup, U
from .npk import canon

MAX = 600


class Term:
    __slots__ = ("name", "args", "unk", "size", "id")
    _tab = {}

    def __repr__(self):
        if not self.args:
            return self.name
        return f"{self.name}({', '.join(repr(a) for a in self.args)})"


def mk(name, *args):
    key = (name,) + tuple(a.id for a in args)
    t = Term._tab.get(key)
    if t is None:
        t = Term()
        t.name, t.args = name, args
        t.unk = name == "?" or name.startswith("v:") or any(a.unk for a in args)
        t.size = 1 + sum(a.size for a in args)
        if t.size > MAX:
            return UNK
        t.id = len(Term._tab)
        Term._tab[key] = t
    return t


UNK = mk("?")


def num(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return mk("k:" + repr(v))
    if isinstance(v, (int, float)) and v == v and abs(v) < 1e15:
        return mk("k:" + repr(float(v)))
    return mk("k:" + repr(v))


def subterms(t):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        todo.extend(x.args)


MULTI = {"linalg.eigh": 2, "linalg.eig": 2, "linalg.svd": 3, "linalg.qr": 2, "linalg.schur": 2, "linalg.polar": 2,
         "linalg.slogdet": 2, "py.divmod": 2, "linalg.rq": 2, "linalg.hessenberg": 2}
BIN = {"Add": "add", "Sub": "subtract", "Mult": "multiply", "Div": "divide", "Pow": "power", "MatMult": "matmul",
       "Mod": "mod", "FloorDiv": "floor_divide"}
COMM = {"add", "multiply", "maximum", "minimum", "Eq", "NotEq"}


class TermDomain(Domain):
    max_depth = 24
    unroll = 3
    name_unknown = False

    def __init__(self, opaque=None):
        self.opaque = opaque or (lambda info: False)
        self.calls = []
        self.exts = []
        self.tests = []

    def top(self):
        return UNK

    def const(self, v):
        return num(v)

    def key(self, p):
        return p.id

    def index_value(self):
        return UNK

    def lift_seq(self, ps):
        return mk("seq", *ps)

    def iter_elem(self, p):
        return D(UNK if p is UNK else mk("elem", p))

    def range_elem(self, a, n):
        t = [self.T(x) for x in a]
        if len(t) == 2 and t[0].name == "k:0.0":
            t = t[1:]
        return D(mk("elem", mk("range", *t)))

    def unpack(self, p, n, node):
        return [D(UNK if p is UNK else mk("getitem", p, num(i))) for i in range(n)]

    def join(self, p, q):
        if p is q:
            return p
        if p is UNK or q is UNK:
            return UNK
        bp, sp = (p.args[0], p.args[1:]) if p.name == "arr" else (p, ())
        bq, sq = (q.args[0], q.args[1:]) if q.name == "arr" else (q, ())
        if bp is bq:
            return self.arr(bp, sp + sq)
        alts = []
        for x in (p, q):
            for y in x.args if x.name == "phi" else (x,):
                if y not in alts:
                    alts.append(y)
        if len(alts) > 3:
            return UNK
        return mk("phi", *sorted(alts, key=lambda t: t.id))

    def arr(self, base, stores):
        if base is UNK:
            return UNK
        ss = []
        for s in stores:
            if s not in ss:
                ss.append(s)
        if len(ss) > 6:
            return UNK
        return mk("arr", base, *sorted(ss, key=lambda t: t.id))

    def arrayish(self, p):
        return False

    def T(self, v):
        if isinstance(v, D):
            return v.p
        if isinstance(v, K):
            return num(v.v)
        if v is BOT or v is TOP or v is None:
            return UNK
        if isinstance(v, (Tup, Lst)):
            if v.items is not None:
                return mk("seq", *[self.T(x) for x in v.items])
            return mk("listof", self.T(v.elem)) if v.elem is not None and v.elem is not BOT else mk("listof")
        if isinstance(v, Slice):
            return mk("slice", self.T(v.lo), self.T(v.hi), self.T(v.step))
        if isinstance(v, U):
            r = None
            for x in v.alts:
                t = self.T(x)
                r = t if r is None else self.join(r, t)
            return r
        if isinstance(v, Ext):
            return mk("ext:" + canon(v.name))
        if isinstance(v, Fn):
            return mk("fn:" + v.info.full, *[self.T(x) for x in v.pre_args])
        if isinstance(v, Dct):
            if v.items is not None and v.val is None:
                return mk("dict", *[mk("kw:" + str(k), self.T(x)) for k, x in sorted(v.items.items(), key=lambda e: str(e[0]))])
            return UNK
        return UNK

    L = T

    def ap(self, name, *args):
        if name in COMM:
            args = sorted(args, key=lambda t: t.id)
        return mk(name, *args)

    def binop(self, op, a, b, node):
        return D(self.ap(BIN.get(op, op), self.T(a), self.T(b)))

    def unop(self, op, a, node):
        return D(mk("negative" if op == "USub" else op, self.T(a))) if op != "UAdd" else D(self.T(a))

    def compare(self, op, a, b, node):
        return D(self.ap(op, self.T(a), self.T(b)))

    def attr(self, v, name, node):
        t = self.T(v)
        if name == "T":
            return D(mk("transpose", t))
        return D(mk(name, t))

    def getitem(self, v, idx, node):
        return D(mk("getitem", self.T(v), self.T(idx)))

    def setitem(self, v, idx, val, node, aug=False):
        t = self.T(v)
        if t is UNK:
            return D(UNK)
        s = mk("st", self.T(idx), self.T(val))
        if t.name == "arr":
            return D(self.arr(t.args[0], t.args[1:] + (s,)))
        return D(self.arr(t, (s,)))

    def kwterms(self, kw):
        return [mk("kw:" + k, self.T(x)) for k, x in sorted(kw.items())]

    def higher(self, name, args, kw, node):
        """a function handed to an external function is applied to the elements of the other arguments"""
        fs = [a for a in args if isinstance(a, Fn)]
        if fs and name.split(".")[-1] in ("map", "imap", "starmap", "map_async", "submit", "apply", "apply_async", "vectorize"):
            f = fs[0]
            rest = [a for a in args if a is not f]
            m = name.split(".")[-1]
            if m == "vectorize":
                return f
            if m in ("submit", "apply", "apply_async"):
                return self.it.call_fn(f, list(f.pre_args) + rest, dict(f.pre_kw), node)
            es = [self.it.elem(a) for a in rest]
            if m == "starmap" and len(es) == 1:
                its = self.it.items_of(es[0])
                if its is None:
                    return D(UNK)
                es = its
            return Lst(None, self.it.call_fn(f, list(f.pre_args) + es, dict(f.pre_kw), node), "gen")
        return None

    def method(self, v, name, args, kw, node):
        h = self.higher(name, args, kw, node)
        if h is not None:
            return h
        self.exts.append((name, [v] + list(args), kw, node, self.it.call_path(), self.it.cur))
        return self.apply(name, [v] + list(args), kw)

    def inplace_method(self, v, name, args, kw, node):
        return D(mk("inplace:" + name, self.T(v), *[self.T(a) for a in args]))

    def call_unknown(self, f, args, kw, node):
        h = self.higher(getattr(f, "name", "") or "", args, kw, node)
        return h if h is not None else D(UNK)

    def apply(self, c, args, kw):
        ts = [self.T(a) for a in args] + self.kwterms(kw)
        if "**" in kw:
            return D(UNK)
        if c == "add.reduce":
            c = "sum"
        t = self.ap(c, *ts)
        n = MULTI.get(c)
        if n:
            return Tup([D(mk("getitem", t, num(i))) for i in range(n)])
        return D(t)

    def call_ext(self, name, args, kw, node):
        c = canon(name)
        h = self.higher(name, args, kw, node)
        if h is not None:
            return h
        self.exts.append((c, list(args), kw, node, self.it.call_path(), self.it.cur))
        if c in ("py.float", "py.int", "asarray", "ascontiguousarray") and len(args) == 1 and not kw and isinstance(args[0], D):
            return args[0]
        if c.startswith("random."):
            return D(mk("draw:" + c[7:], *[self.T(a) for a in args], *self.kwterms(kw)))
        return self.apply(c, args, kw)

    def summary(self, info, bound, node):
        if self.it.stack and self.opaque(info):
            self.calls.append((info, dict(bound), node, self.it.stack[-1], self.it.call_path()))
            return D(mk("call:" + info.full, *[mk("kw:" + k, self.T(x)) for k, x in sorted(bound.items())]))
        return None

    def branch(self, node, test, frame):
        self.tests.append((node, test, frame.info, self.it.call_path()))

    def bind_name(self, name, v, st, fr):
        if self.name_unknown and (v is TOP or isinstance(v, D) and v.p is UNK):
            return D(mk(f"v:{fr.info.full}:{name}:{getattr(st, 'lineno', 0)}:{getattr(st, 'col_offset', 0)}"))
        return v
