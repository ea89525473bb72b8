"""Option data flow: which caller-supplied options a value depends on, and whether it is exactly the option's value.

Payload ``Op(t, e)``: ``t`` the set of option names the value depends on, ``e`` the name of the option it is equal to (or
None); ``u`` is True when unknown operations contributed, so absence of a tag proves nothing.
"""
import ast

from .interp import BOT, D, Dct, Domain, Ext, Fn, Interp, K, Lst, NONE, Slice, TOP, Tup, U
from .npk import CAT, canon

NO = frozenset()
MULTI = {"linalg.eigh": 2, "linalg.eig": 2, "linalg.svd": 3, "linalg.qr": 2, "linalg.schur": 2, "linalg.polar": 2,
         "linalg.slogdet": 2, "py.divmod": 2, "linalg.rq": 2, "linalg.hessenberg": 2}


class Op:
    __slots__ = ("t", "e", "u")

    def __init__(self, t=NO, e=None, u=False):
        self.t, self.e, self.u = t, e, u

    def __repr__(self):
        return f"Op({sorted(self.t)},{self.e}{',?' if self.u else ''})"


NOTHING = Op()
UNKNOWN = Op(NO, None, True)


class OptDomain(Domain):
    max_depth = 24
    unroll = 3
    public = frozenset()     # full names of the public functions

    def __init__(self):
        self.sinks = {}
        self.entered = []
        self.unknown_sink = False
        self.ext_tol = []

    def top(self):
        return NOTHING

    def const(self, v):
        return NOTHING

    def key(self, p):
        return (tuple(sorted(p.t)), p.e, p.u)

    def join(self, p, q):
        e = p.e if p.e == q.e else None
        if e is None:
            # the option's value on one path and a constant on another
            for a, b in ((p, q), (q, p)):
                if a.e and not b.t and not b.u and b.e is None:
                    e = a.e if a.e.startswith("~") else "~" + a.e
                elif a.e and b.e and a.e.lstrip("~") == b.e.lstrip("~"):
                    e = "~" + a.e.lstrip("~")
        return Op(p.t | q.t, e, p.u or q.u)

    def mix(self, *ps):
        t, u = NO, False
        for p in ps:
            t = t | p.t
            u = u or p.u
        return Op(t, None, u)

    def lift_seq(self, ps):
        return self.mix(*ps)

    def index_value(self):
        return NOTHING

    def iter_elem(self, p):
        return D(Op(p.t, None, p.u))

    def L(self, v):
        if v is BOT:
            return NOTHING
        if v is TOP:
            return UNKNOWN
        if isinstance(v, Slice):
            return self.mix(*(self.L(x) for x in (v.lo, v.hi, v.step)))
        if isinstance(v, Dct):
            ps = [self.L(x) for x in (v.items or {}).values()]
            for x in (v.val, v.keyv):
                if x is not None:
                    ps.append(self.L(x))
            return self.mix(*ps)
        if isinstance(v, (Fn, Ext)):
            if isinstance(v, Fn):
                return self.mix(*[self.L(x) for x in list(v.pre_args) + list(v.pre_kw.values())])
            return NOTHING
        if isinstance(v, U):
            return self.mix(*[self.L(x) for x in v.alts])
        if isinstance(v, (Tup, Lst)):
            its = v.items if v.items is not None else [v.elem] if v.elem is not None else []
            return self.mix(*[self.L(x) for x in its])
        return self.it.lift(v)

    def arrayish(self, p):
        return False

    def sink(self, p, kind):
        for t in p.t:
            self.sinks.setdefault(t, set()).add(kind)
        if p.u:
            self.unknown_sink = True

    # operations
    def binop(self, op, a, b, node):
        return D(self.mix(self.L(a), self.L(b)))

    def unop(self, op, a, node):
        return D(self.mix(self.L(a)))

    def compare(self, op, a, b, node):
        return D(self.mix(self.L(a), self.L(b)))

    def attr(self, v, name, node):
        if name == "shape":
            return Lst(None, D(self.mix(self.L(v))), "tuple")
        return D(self.mix(self.L(v)))

    def getitem(self, v, idx, node):
        return D(self.mix(self.L(v), self.L(idx)))

    def setitem(self, v, idx, val, node, aug=False):
        if isinstance(v, D):
            return D(self.mix(v.p, NOTHING if idx is TOP else self.L(idx), self.L(val)))
        return v

    def boolop(self, isand, vals, n, decided):
        # the operands before the deciding one were tested
        for v in vals:
            self.sink(self.L(v), "test")
        return None

    def select(self, t, a, b, node):
        self.sink(self.L(t), "test")
        return None

    def method(self, v, name, args, kw, node):
        return self.call_ext("numpy." + name, [v] + list(args), kw, node)

    def call_unknown(self, f, args, kw, node):
        return D(self.mix(UNKNOWN, *[self.L(a) for a in args], *[self.L(a) for a in kw.values()]))

    def call_ext(self, name, args, kw, node):
        c = canon(name)
        r = self.mix(*[self.L(a) for a in args], *[self.L(a) for a in kw.values()])
        if c.startswith("random.") and c.split(".")[-1] in ("seed", "default_rng", "RandomState", "SeedSequence"):
            self.sink(r, "seed")
        if c in ("allclose", "isclose"):
            if all(f.full not in self.public for f in self.it.stack[1:]):
                self.ext_tol.append((self.it.cur, node, [self.L(a) for a in args], {k: self.L(a) for k, a in kw.items()}))
        for a in list(args) + list(kw.values()):
            # a function handed to an optimiser or integrator is analysed with arguments of its own
            if isinstance(a, Fn) and not name.startswith(("functools.", "numba.")):
                info = a.info
                n = max(0, len(info.node.args.args) - len(a.pre_args))
                try:
                    rr = self.it.call_fn(a, list(a.pre_args) + [D(NOTHING)] * n, dict(a.pre_kw), node)
                    r = self.mix(r, self.L(rr))
                except RecursionError:
                    pass
        if c == "real_if_close" or c in ("py.float", "py.int", "py.bool", "asarray"):
            if len(args) == 1 and not kw:
                return D(self.L(args[0]))
        if c == "shape":
            return Lst(None, D(r), "tuple")
        n = MULTI.get(c)
        return Tup([D(r)] * n) if n else D(r)

    # sinks ----------------------------------------------------------------
    def branch(self, node, test, frame):
        self.sink(self.L(test), "test")

    def on_for(self, st, it, fr):
        self.sink(self.L(it), "loop")

    def comp_iter(self, n, it, fr):
        self.sink(self.L(it), "loop")

    def range_elem(self, a, n):
        p = self.mix(*[self.L(x) for x in a])
        self.sink(p, "loop")
        return D(p)

    def on_return(self, frame, val, node):
        if len(self.it.stack) == 1:
            self.sink(self.L(val), "return")

    def enter(self, info, bound, node):
        if len(self.it.stack) > 1:
            self.entered.append((info, dict(bound), node, self.it.stack[-2], self.it.call_path(), tuple(f.name for f in self.it.stack[:-1])))
