"""Bounds of array accesses in compiled functions.

An abstract interpreter over symbolic sizes: integers are polynomials over the sizes of the arguments and over loop
variables (each with its exact range), arrays carry their shape and, for integer arrays, the ranges of their elements.
Branches on sizes are followed with their condition as a constraint; calls of compiled functions are followed with the
shapes of the actual arguments.  An access is proven when its bounds follow from the constraints; it is a violation when
sizes (small numbers) exist that satisfy every constraint on the way to it, all of them exact, and break the bound.
Everything else is undecided and raises no alarm.
"""
import ast

from .poly import Poly, Prover, Syms, topoly


class _Const:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


DATA = _Const("data")      # a number (or anything else) that comes from the data: either branch of a test on it is possible
UNK = _Const("unknown")
NONE = _Const("None")


class Arr:
    """An array: dims (Poly or None each) or a generic shape followed by dims; ranges of its integer elements."""

    def __init__(self, dims, elem=None, gen=None, ident=None, lst=False, items=None, data=True):
        self.dims = tuple(dims)
        self.elem = elem    # None or tuple of (lo, hi, exact)
        self.gen = gen      # Generic or None
        self.ident = ident
        self.lst = lst
        self.items = items  # values of a short list, if known
        self.data = data    # elements without ranges are data (not unknown integers)

    def key(self):
        return (self.dims, self.elem, self.gen, self.ident, self.lst, self.items, self.data)

    def __eq__(self, o):
        return isinstance(o, Arr) and self.key() == o.key()

    def __hash__(self):
        return hash((self.dims, self.lst))

    def __repr__(self):
        return f"Arr{self.dims}{self.elem or ''}"


class Tup:
    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return f"Tup{self.items}"


class Generic:
    """The shape of an array of unknown rank: rank, the dimension at each (symbolic) position, the largest."""

    def __init__(self, sy, name):
        self.sy = sy
        self.name = name
        self.rank = sy.new(f"{name}.ndim", True, [lambda r: r - 1])
        self.largest = sy.new(f"max({name}.shape)", True, [lambda r: r - 1])
        self.least = None
        self.at = {}

    def dim(self, pos):
        if pos not in self.at:
            facts = [lambda r: r - 1, lambda r: self.largest - r]
            if self.least is not None:
                facts.append(lambda r: r - self.least)
            self.at[pos] = self.sy.new(f"{self.name}.shape[{pos!r}]", True, facts)
        return self.at[pos]

    def smallest(self):
        if self.least is None:
            self.least = self.sy.new(f"min({self.name}.shape)", True, [lambda r: r - 1, lambda r: self.largest - r])
            for p in self.at.values():
                s = next(iter(p.syms()))
                self.sy.facts[s] += (p - self.least,)
        return self.least


class GShape:
    """G.shape of a generic array."""

    def __init__(self, gen):
        self.gen = gen

    def __eq__(self, o):
        return isinstance(o, GShape) and o.gen is self.gen

    def __hash__(self):
        return hash(id(self.gen))


class GTup:
    """An index tuple of a generic array: elements 0 <= e < dim, except where changed."""

    def __init__(self, gen, ident, changed=()):
        self.gen = gen
        self.ident = ident
        self.changed = tuple(changed)  # ((position, value), ...)

    def __eq__(self, o):
        return isinstance(o, GTup) and (self.gen, self.ident, self.changed) == (o.gen, o.ident, o.changed)

    def __hash__(self):
        return hash((self.ident, self.changed))


class Iter:
    """Something to loop over: ('range', a, b, step), ('arr', Arr), ('enum', x), ('zip', xs), ('nd', GShape|dims)"""

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    def __eq__(self, o):
        return isinstance(o, Iter) and self.kind == o.kind and self.args == o.args

    def __hash__(self):
        return hash(self.kind)


class State:
    __slots__ = ("env", "cons", "exact", "fog")

    def __init__(self, env, cons=(), exact=True, fog=frozenset()):
        self.fog = fog      # names read by tests on the way that could not be turned into constraints ("*": any)
        self.env = env
        self.cons = cons
        self.exact = exact

    def copy(self):
        return State(dict(self.env), self.cons, self.exact, self.fog)

    def add(self, cons):
        s = self.copy()
        new = [c for c in cons if not (c.is_const and c.c >= 0) and c not in s.cons]
        s.cons = s.cons + tuple(dict.fromkeys(new))
        return s


class GiveUp(Exception):
    pass


MAXSTATES = 24
MAXDEPTH = 7


class Site:
    __slots__ = ("fn", "node", "text", "status", "witness", "why", "n")

    def __init__(self, fn, node):
        self.fn = fn
        self.node = node
        self.text = ast.unparse(node)
        self.status = None
        self.witness = None
        self.why = ""
        self.n = 0


class Machine:
    def __init__(self, prog):
        self.prog = prog
        self.sy = Syms()
        self.pr = Prover(self.sy)
        self.sites = {}
        self.record = True
        self.stack = []
        self.ids = 0
        self.calls = 0
        self.cur_it = None
        self.done = {}
        self.calls_of = set()
        self.loopsyms = {}
        self.cur_for = None
        self.inside = False
        self.while_tests = set()

    # -- recording -------------------------------------------------------
    def site(self, node):
        fn = self.stack[-1][0]
        k = (fn.full, node.lineno, node.col_offset, getattr(node, "end_col_offset", 0))
        if k not in self.sites:
            self.sites[k] = Site(fn, node)
        return self.sites[k]

    def note(self, node, status, witness=None, why=""):
        if not self.record:
            return
        s = self.site(node)
        s.n += 1
        rank = {"ok": 0, "undecided": 1, "bad": 2}
        if s.status is None or rank[status] > rank[s.status]:
            s.status, s.witness, s.why = status, witness, why

    def check(self, st, node, idx, length):
        """-length <= idx < length"""
        if idx is None or length is None:
            self.note(node, "undecided", why="index or length unknown")
            return
        hi = length - 1 - idx
        lo = idx + length
        okh = self.pr.proves(st.cons, hi)
        okl = self.pr.proves(st.cons, lo)
        if okh and okl:
            self.note(node, "ok")
            return
        if not self.record:
            return
        if st.exact and self.reach_exact():
            for ok, bad in ((okh, -hi - 1), (okl, -lo - 1)):
                if ok:
                    continue
                w = self.pr.witness(st.cons, [bad] + list(st.cons))
                if w is not None:
                    txt = f"index {idx!r} of {length!r}"
                    vals = ", ".join(f"{s.split('#')[0]}={w[s]}" for s in sorted(w, key=lambda s: self.sy.order[s])
                                     if s not in self.sy.define)
                    self.note(node, "bad", f"{txt} for {vals}")
                    return
        if not self.clear(st, node):
            self.note(node, "undecided", why=f"{idx!r} within {length!r}, under a test that is not understood")
            return
        # the range of the index is known, and ends just outside the array
        for ok, good in ((okh, hi), (okl, lo)):
            if ok:
                continue
            over = next((d for d in (1, 2, 3) if self.pr.proves(st.cons, good + d)), None)
            if over is not None and self.pr.witness(st.cons, [-good - 1] + list(st.cons), relaxed=True) is not None:
                self.note(node, "bad", f"the index {idx!r} ranges up to {over} beyond the length {length!r}")
                return
            w = self.pr.robust(st.cons, -good - 1)
            if w is not None:
                vals = ", ".join(f"{s.split('#')[0]}={w[s]}" for s in sorted(w, key=lambda s: self.sy.order[s]))
                self.note(node, "bad", f"index {idx!r} of {length!r} for {vals}")
                return
        self.note(node, "undecided", why=f"{idx!r} within {length!r}")

    def reach_exact(self):
        return all(ex for _, ex in self.stack)

    def new_id(self):
        self.ids += 1
        return self.ids

    # -- element ranges ----------------------------------------------------
    def element(self, a, st, key=None):
        """The value of an element of a."""
        if a.items is not None and a.lst:
            vals = list(dict.fromkeys(a.items))
            if len(vals) == 1:
                return vals[0]
        if not a.elem:
            return DATA if a.data else UNK
        k = ("el", a.ident, a.elem, key)
        if a.ident is not None and key is not None and k in self.sy.cache:
            return self.sy.cache[k]
        rs = a.elem
        if len(rs) == 1 and rs[0][0] is not None and rs[0][0] == rs[0][1]:
            return rs[0][0]
        exact = all(r[2] for r in rs)
        if len(rs) == 1:
            lo, hi, _ = rs[0]
            f = []
            if lo is not None:
                f.append(lambda v: v - lo)
            if hi is not None:
                f.append(lambda v: hi - v)
            v = self.sy.new("element", exact and lo is not None, f)
        else:
            cases = []
            for lo, hi, ex in rs:
                if lo is None or hi is None:
                    v = self.sy.new("element", False)
                    cases = None
                    break
                u = self.sy.new("element", ex, [lambda v, lo=lo: v - lo, lambda v, hi=hi: hi - v])
                cases.append((u, (hi - lo,)))
            if cases:
                v = self.sy.choice("element", cases, exact)
        if a.ident is not None and key is not None:
            self.sy.cache[k] = v
        return v

    def shift(self, elem, mul, add):
        if elem is None or mul is None or add is None:
            return None
        out = []
        for lo, hi, ex in elem:
            nlo, nhi = lo, hi
            if mul < 0:
                nlo, nhi = hi, lo
            nlo = None if nlo is None else nlo * mul + add
            nhi = None if nhi is None else nhi * mul + add
            out.append((nlo, nhi, ex and abs(mul) == 1))
        return tuple(out)

    # -- values ---------------------------------------------------------------
    def as_int(self, v):
        return v if isinstance(v, Poly) else None

    def length(self, v):
        if isinstance(v, Arr):
            if v.gen is not None:
                return v.gen.dim(Poly())
            return v.dims[0] if v.dims else None
        if isinstance(v, Tup):
            return Poly.const(len(v.items))
        if isinstance(v, GShape):
            return v.gen.rank
        if isinstance(v, GTup):
            return v.gen.rank
        return None

    def nonneg(self, p, st):
        """max(0, p), simplified."""
        if p is None:
            return None
        if self.pr.proves(st.cons, p):
            return p
        return self.sy.minmax("max", [Poly(), p])

    def gelem(self, t, pos, st):
        for p, v in t.changed:
            if p == pos:
                return v
        base = self.gbase(t, pos)
        if t.changed:
            key = ("gch", t.ident, t.changed, pos)
            if key not in self.sy.cache:
                d = t.gen.dim(pos)
                self.sy.cache[key] = self.sy.new("index", True, [lambda v: v + 1, lambda v: d - 1 - v])
            return self.sy.cache[key]
        return base

    def gbase(self, t, pos):
        key = ("g", t.ident, pos)
        if key not in self.sy.cache:
            d = t.gen.dim(pos)
            self.sy.cache[key] = self.sy.new(f"index[{pos!r}]", True, [lambda v: v, lambda v: d - 1 - v])
        return self.sy.cache[key]

    # -- expressions -------------------------------------------------------------
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, st)
            return UNK
        return m(e, st)

    def e_Constant(self, e, st):
        if e.value is None:
            return NONE
        if isinstance(e.value, bool):
            return Poly.const(int(e.value))
        if isinstance(e.value, int):
            return Poly.const(e.value)
        return DATA

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        fn = self.stack[-1][0]
        r = self.prog.resolve(fn.module, e.id)
        if r and r[0] == "expr":
            return self.ev_global(r[2])
        return UNK

    def ev_global(self, node):
        if isinstance(node, ast.Constant):
            return self.e_Constant(node, None)
        return UNK

    def e_Tuple(self, e, st):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.ev(x.value, st)
                return UNK
            items.append(self.ev(x, st))
        return Tup(items)

    def e_List(self, e, st):
        t = self.e_Tuple(e, st)
        if not isinstance(t, Tup):
            return UNK
        return Arr((Poly.const(len(t.items)),), elem=self.join_elems([((v, v, True),) if isinstance(v, Poly) else None for v in t.items])
                   if all(isinstance(v, Poly) for v in t.items) and t.items else None, lst=True, items=t.items,
                   data=all(v is DATA or isinstance(v, (Poly, Arr)) for v in t.items))

    def join_elems(self, es):
        out = []
        for e in es:
            if e is None:
                return None
            for r in e:
                if r not in out:
                    out.append(r)
        if len(out) > 4:
            return None
        return tuple(out)

    def e_IfExp(self, e, st):
        t, f = self.cond(e.test, st)
        if not t:
            return self.ev(e.orelse, self.alt(st, f, e.test))
        if not f:
            return self.ev(e.body, self.alt(st, t, e.test))
        a = self.ev(e.body, self.alt(st, t, e.test))
        b = self.ev(e.orelse, self.alt(st, f, e.test))
        return self.join(a, b, st, (t, f))

    def fogged(self, test, st):
        """The names a test reads; any name if it is a truth value computed before."""
        out = set()

        def leaf(e):
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                leaf(e.operand)
            elif isinstance(e, ast.BoolOp):
                for v in e.values:
                    leaf(v)
            elif isinstance(e, ast.Compare):
                out.update(n.id for n in ast.walk(e) if isinstance(n, ast.Name))
            else:
                out.add("*")
        leaf(test)
        if test in self.while_tests:
            out.add("*")
        return st.fog | out

    def clear(self, st, node):
        """No test that could not be expressed protects this access."""
        if not st.fog:
            return True
        return "*" not in st.fog and not any(isinstance(n, ast.Name) and n.id in st.fog for n in ast.walk(node))

    def spread(self, st, value, targets):
        if st.fog and "*" not in st.fog and not self.clear(st, value):
            st.fog = st.fog | {n.id for t in targets for n in ast.walk(t) if isinstance(n, ast.Name)}

    def alt(self, st, alts, test):
        """The state with one set of alternatives (only a single conjunction is kept)."""
        if len(alts) == 1:
            s = st.add(alts[0][0])
            if not alts[0][1]:
                s.exact = False
                s.fog = self.fogged(test, st)
            return s
        s = st.copy()
        s.exact = False
        s.fog = self.fogged(test, st)
        return s

    def join(self, a, b, st, guards=None):
        if a == b:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            if guards and all(len(g) == 1 and g[0][1] for g in guards):
                ex = all(self.sy.exact[s] for s in a.syms() | b.syms())
                return self.sy.choice("choice", [(a, tuple(guards[0][0][0])), (b, tuple(guards[1][0][0]))], ex)
            lo, hi = None, None
            return self.sy.choice("choice", [(a, ()), (b, ())], False)
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.dims) == len(b.dims) and a.gen is b.gen:
            dims = [x if x == y else (self.join(x, y, st, guards) if x is not None and y is not None else None)
                    for x, y in zip(a.dims, b.dims)]
            elem = self.join_elems([a.elem, b.elem]) if a.elem and b.elem else None
            return Arr(dims, elem, a.gen, None, a.lst or b.lst, None, a.data and b.data and not (bool(a.elem) ^ bool(b.elem)))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.join(x, y, st, guards) for x, y in zip(a.items, b.items)])
        if {a is DATA or isinstance(a, Poly), b is DATA or isinstance(b, Poly)} == {True}:
            return DATA
        if a is NONE or b is NONE:
            return UNK
        return UNK

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.USub) and isinstance(v, Poly):
            return -v
        if isinstance(e.op, ast.USub) and isinstance(v, Arr):
            return Arr(v.dims, self.shift(v.elem, -1, Poly()), v.gen, None, data=v.data)
        if isinstance(e.op, ast.Not):
            return DATA if v is DATA else UNK
        if isinstance(e.op, ast.UAdd):
            return v
        return v if isinstance(v, Arr) else (DATA if v is DATA else UNK)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(e.op, a, b, st)

    def binop(self, op, a, b, st):
        if isinstance(a, Poly) and isinstance(b, Poly):
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                p = a * b
                return p if p.degree() <= 4 else UNK
            if isinstance(op, ast.FloorDiv):
                if b.is_const and b.c == 0:
                    return UNK
                if not b.is_const and not self.pr.proves(st.cons, b - 1):
                    return UNK
                q = self.sy.floordiv(a, b)
                return UNK if q is None else q
            if isinstance(op, ast.Mod):
                if b.is_const and b.c <= 0:
                    return UNK
                if not b.is_const and not self.pr.proves(st.cons, b - 1):
                    return UNK
                q = self.sy.mod(a, b)
                return UNK if q is None else q
            if isinstance(op, ast.RShift) and b.is_const and 0 <= b.c < 20:
                q = self.sy.floordiv(a, Poly.const(2 ** b.c))
                return UNK if q is None else q
            if isinstance(op, ast.LShift) and b.is_const and 0 <= b.c < 20:
                return a * (2 ** b.c)
            if isinstance(op, ast.Pow):
                if a.is_const and a.c >= 2:
                    return self.sy.pow2(a.c, b)
                if b.is_const and b.c == 2:
                    return a * a
                return DATA
            if isinstance(op, ast.Div):
                if b.is_const and b.c > 0:
                    q = self.sy.floordiv(a, b)
                    return UNK if q is None else q
                return DATA
            return UNK
        if isinstance(op, ast.MatMult):
            return self.matmul(a, b)
        if isinstance(a, (Arr,)) or isinstance(b, (Arr,)):
            if isinstance(a, Arr) and isinstance(b, Arr):
                if (a.lst or b.lst) and isinstance(op, ast.Add) and len(a.dims) == 1 == len(b.dims):
                    n = None if a.dims[0] is None or b.dims[0] is None else a.dims[0] + b.dims[0]
                    return Arr((n,), self.join_elems([a.elem, b.elem]), lst=True, data=a.data and b.data)
                if a.gen is not b.gen:
                    if a.gen is not None and b.gen is None and not b.dims:
                        return Arr(a.dims, None, a.gen)
                    return UNK
                return Arr(self.broadcast(a, b), self.elem_op(op, a.elem, b.elem), a.gen, None, data=a.data and b.data)
            arr, o, left = (a, b, True) if isinstance(a, Arr) else (b, a, False)
            if o is UNK:
                return Arr(arr.dims, None, arr.gen, data=False) if not arr.lst else UNK
            if arr.lst and isinstance(op, ast.Mult) and isinstance(o, Poly) and len(arr.dims) == 1:
                n = None if arr.dims[0] is None else arr.dims[0] * o
                return Arr((n,), arr.elem, lst=True, data=arr.data)
            elem = None
            if arr.elem and isinstance(o, Poly):
                if isinstance(op, ast.Add):
                    elem = self.shift(arr.elem, 1, o)
                elif isinstance(op, ast.Sub):
                    elem = self.shift(arr.elem, 1, -o) if left else self.shift(arr.elem, -1, o)
                elif isinstance(op, ast.Mult) and o.is_const:
                    elem = self.shift(arr.elem, o.c, Poly())
            data = arr.data and (o is DATA or isinstance(o, Poly)) and not (arr.elem and elem is None and isinstance(o, Poly) and
                                                                            not isinstance(op, (ast.Div, ast.Pow)))
            return Arr(arr.dims, elem, arr.gen, None, data=data)
        if isinstance(op, ast.Mod) and isinstance(b, Poly) and a is UNK and self.pr.proves(st.cons, b - 1):
            return self.sy.new("remainder", False, [lambda r: r, lambda r: b - 1 - r])
        if a is DATA or b is DATA:
            if a is UNK or b is UNK:
                return UNK if not isinstance(op, ast.Div) else DATA
            return DATA
        return UNK

    def elem_op(self, op, x, y):
        if not x or not y or len(x) > 1 or len(y) > 1:
            return None
        (a, b, _), (c, d, _) = x[0], y[0]
        if isinstance(op, ast.Add):
            return ((None if a is None or c is None else a + c, None if b is None or d is None else b + d, False),)
        if isinstance(op, ast.Sub):
            return ((None if a is None or d is None else a - d, None if b is None or c is None else b - c, False),)
        if isinstance(op, ast.Mod) and d is not None and c is not None:
            return ((Poly(), d - 1, False),)
        return None

    def broadcast(self, a, b):
        x, y = list(a.dims), list(b.dims)
        n = max(len(x), len(y))
        x = [Poly.const(1)] * (n - len(x)) + x
        y = [Poly.const(1)] * (n - len(y)) + y
        out = []
        for p, q in zip(x, y):
            one = Poly.const(1)
            if p == q:
                out.append(p)
            elif p == one:
                out.append(q)
            elif q == one:
                out.append(p)
            elif p is None:
                out.append(q if q is not None and not q.is_const else None)
            elif q is None:
                out.append(p if not p.is_const else None)
            else:
                out.append(p)  # equal, or the operation fails
        return out

    def matmul(self, a, b):
        if isinstance(a, Arr) and isinstance(b, Arr) and a.gen is None and b.gen is None:
            if len(a.dims) == 2 and len(b.dims) == 2:
                return Arr((a.dims[0], b.dims[1]))
            if len(a.dims) == 2 and len(b.dims) == 1:
                return Arr((a.dims[0],))
            if len(a.dims) == 1 and len(b.dims) == 2:
                return Arr((b.dims[1],))
            if len(a.dims) == 1 and len(b.dims) == 1:
                return DATA
        return UNK

    def e_Compare(self, e, st):
        vals = [self.ev(e.left, st)] + [self.ev(c, st) for c in e.comparators]
        for v in vals:
            if isinstance(v, Arr):
                return Arr(v.dims, None, v.gen, data=True)
        if all(v is DATA or isinstance(v, Poly) or v is NONE for v in vals):
            if any(v is DATA for v in vals):
                return DATA
            return self.sy.new("test", False, [lambda v: v, lambda v: 1 - v])
        return UNK

    def e_BoolOp(self, e, st):
        vals = [self.ev(c, st) for c in e.values]
        return DATA if all(v is DATA for v in vals) else UNK

    def e_JoinedStr(self, e, st):
        return UNK

    def e_Attribute(self, e, st):
        if isinstance(e.value, ast.Name) and e.value.id not in st.env:
            return UNK
        v = self.ev(e.value, st)
        a = e.attr
        if isinstance(v, Arr):
            if a == "shape":
                if v.gen is not None:
                    return GShape(v.gen) if not v.dims else UNK
                return Tup([d if d is not None else UNK for d in v.dims])
            if a == "T":
                return Arr(v.dims[::-1], v.elem) if v.gen is None else UNK
            if a in ("real", "imag"):
                return Arr(v.dims, None, v.gen, data=True)
            if a == "size":
                n = Poly.const(1)
                for d in v.dims:
                    if d is None or v.gen is not None:
                        return UNK
                    n = n * d
                return n
            if a == "ndim":
                return Poly.const(len(v.dims)) if v.gen is None else v.gen.rank + len(v.dims)
            if a == "dtype":
                return UNK
        if v is DATA and a in ("real", "imag"):
            return DATA
        return UNK

    def e_Subscript(self, e, st):
        v = self.ev(e.value, st)
        return self.subscript(e, v, st)

    def slice_dim(self, sl, n, st):
        """Length of v[lo:hi:step] along a dimension of length n, and the start (None if not known to be 0)."""
        step = 1
        if sl.step is not None:
            s = self.ev(sl.step, st)
            if not isinstance(s, Poly) or not s.is_const or s.c == 0:
                return None, None
            step = s.c
        lo = self.ev(sl.lower, st) if sl.lower is not None else None
        hi = self.ev(sl.upper, st) if sl.upper is not None else None
        if n is None:
            return None, None
        if step == -1 and lo is None and hi is None:
            return n, None
        if step < 0:
            return None, None

        def bound(x, default):
            if x is None or x is NONE:
                return default
            if not isinstance(x, Poly):
                return None
            if self.pr.proves(st.cons, -x - 1):
                x = n + x
                if not self.pr.proves(st.cons, x):
                    x = self.sy.minmax("max", [Poly(), x])
                return x
            if not self.pr.proves(st.cons, x):
                return None
            if self.pr.proves(st.cons, n - x):
                return x
            return self.sy.minmax("min", [x, n])

        a, b = bound(lo, Poly()), bound(hi, n)
        if a is None or b is None:
            return None, None
        d = self.nonneg(b - a, st)
        if step > 1:
            d = self.sy.floordiv(d + (step - 1), Poly.const(step))
        return d, a

    def subscript(self, e, v, st):
        """Value of e = v[...]; checks every integer index."""
        sl = e.slice
        if isinstance(v, Tup):
            if isinstance(sl, ast.Slice):
                try:
                    lo = self.ev(sl.lower, st) if sl.lower is not None else None
                    hi = self.ev(sl.upper, st) if sl.upper is not None else None
                    if all(x is None or (isinstance(x, Poly) and x.is_const) for x in (lo, hi)) and sl.step is None:
                        return Tup(v.items[(lo.c if lo is not None else None):(hi.c if hi is not None else None)])
                except AttributeError:
                    pass
                return UNK
            i = self.ev(sl, st)
            if isinstance(i, Poly):
                self.check(st, e, i, Poly.const(len(v.items)))
                if i.is_const and -len(v.items) <= i.c < len(v.items):
                    return v.items[i.c]
                vals = list(dict.fromkeys(v.items))
                if len(vals) == 1:
                    return vals[0]
            return DATA if all(x is DATA for x in v.items) else UNK
        if isinstance(v, GShape):
            if isinstance(sl, ast.Slice):
                return UNK
            i = self.ev(sl, st)
            if isinstance(i, Poly):
                self.check(st, e, i, v.gen.rank)
                return v.gen.dim(i)
            return UNK
        if isinstance(v, GTup):
            if isinstance(sl, ast.Slice):
                if sl.lower is None and sl.upper is None and sl.step is None:
                    return v
                return UNK
            i = self.ev(sl, st)
            if isinstance(i, Poly):
                self.check(st, e, i, v.gen.rank)
                return self.gelem(v, i, st)
            return UNK
        parts = list(sl.elts) if isinstance(sl, ast.Tuple) else [sl]
        if not isinstance(v, Arr):
            for p in parts:
                self.visit_index(p, st)
            if v is not DATA:
                self.note(e, "undecided", why="array of unknown shape")
            return DATA if v is DATA else UNK
        if len(parts) == 1 and not isinstance(parts[0], (ast.Slice, ast.Constant)):
            i = self.ev(parts[0], st)
            if isinstance(i, GTup):
                return self.generic_access(e, v, i, st)
            if isinstance(i, Tup):
                return self.indexed(e, v, list(i.items), st)
            return self.indexed(e, v, [i], st)
        idx = []
        for p in parts:
            if isinstance(p, ast.Slice):
                idx.append(p)
            elif isinstance(p, ast.Constant) and p.value is Ellipsis:
                idx.append(Ellipsis)
            else:
                idx.append(self.ev(p, st))
        return self.indexed(e, v, idx, st)

    def visit_index(self, p, st):
        if isinstance(p, ast.Slice):
            for x in (p.lower, p.upper, p.step):
                if x is not None:
                    self.ev(x, st)
        else:
            self.ev(p, st)

    def generic_access(self, e, v, i, st):
        if v.gen is not i.gen:
            self.note(e, "undecided", why="index tuple of another array")
            return UNK
        if not i.changed:
            self.note(e, "ok")
        for pos, val in i.changed:
            self.check(st, e, val, v.gen.dim(pos))
        return Arr(v.dims, None) if v.dims else DATA

    def indexed(self, e, v, idx, st):
        if v.gen is not None:
            for p in idx:
                if isinstance(p, ast.Slice):
                    self.visit_index(p, st)
            self.note(e, "undecided", why="array of unknown rank")
            return UNK
        if Ellipsis in idx:
            k = idx.index(Ellipsis)
            n = len(v.dims) - (len([x for x in idx if x is not NONE]) - 1)
            idx = idx[:k] + [ast.Slice()] * max(n, 0) + idx[k + 1:]
        if len([x for x in idx if x is not NONE]) > len(v.dims):
            return DATA if not v.dims else UNK
        dims = []
        elem = v.elem
        fancy = False
        scalar_all = True
        pos = 0
        for x in idx:
            if x is NONE:
                dims.append(Poly.const(1))
                scalar_all = False
                continue
            n = v.dims[pos]
            pos += 1
            if isinstance(x, ast.Slice):
                d, start = self.slice_dim(x, n, st)
                dims.append(d)
                scalar_all = False
            elif isinstance(x, Poly):
                self.check(st, e, x, n)
            elif isinstance(x, Tup) and len(x.items) == 1 and isinstance(x.items[0], Arr):
                self.fancy(e, x.items[0], n, st)
                dims.append(x.items[0].dims[0] if x.items[0].dims else None)
                scalar_all = False
            elif isinstance(x, Arr):
                if len(x.dims) == 1:
                    self.fancy(e, x, n, st)
                    if not fancy:
                        dims.append(x.dims[0])
                    fancy = True
                else:
                    return UNK
                scalar_all = False
            else:
                self.note(e, "undecided", why="unknown index")
                if x is UNK:
                    dims.append(None)
                    return UNK if not v.data else (DATA if len(idx) == len(v.dims) else UNK)
        rest = list(v.dims[pos:])
        if scalar_all and not rest:
            key = tuple(x for x in idx)
            if v.items is not None and len(idx) == 1 and isinstance(idx[0], Poly) and idx[0].is_const and \
                    -len(v.items) <= idx[0].c < len(v.items):
                return v.items[idx[0].c]
            return self.element(v, st, key)
        if v.lst and v.items is not None and len(idx) == 1 and isinstance(idx[0], Poly):
            vals = list(dict.fromkeys(v.items))
            return vals[0] if len(vals) == 1 else UNK
        if v.items is not None and any(isinstance(x, Arr) for x in v.items):
            return UNK
        ident = v.ident if not (scalar_all or fancy) and False else None
        return Arr(dims + rest, elem, None, ident, v.lst, None, v.data)

    def fancy(self, e, x, n, st):
        """Indexing with an array of integers."""
        if not x.elem or n is None:
            self.note(e, "ok" if x.data and not x.elem and x.ident == "mask" else "undecided", why="values of the index unknown")
            return
        for lo, hi, ex in x.elem:
            if lo is None or hi is None:
                self.note(e, "undecided", why="values of the index unknown")
                continue
            v = self.sy.new("element", ex, [lambda v: v - lo, lambda v: hi - v])
            self.check(st, e, v, n)

    def comp_states(self, e, st):
        states = [st.copy()]
        for g in e.generators:
            nxt = []
            for s in states:
                for s2, _ in self.iterate(g.iter, g.target, s):
                    for c in g.ifs:
                        t, _f = self.cond(c, s2)
                        if not t:
                            s2 = None
                            break
                        s2 = self.alt(s2, t, c)
                    if s2 is not None:
                        nxt.append(s2)
            states = nxt[:6]
        return states

    def e_ListComp(self, e, st):
        g = e.generators[0]
        it = self.iter_of(g.iter, st)
        n = self.trip(it, st)
        vals = [self.ev(e.elt, s) for s in self.comp_states(e, st)]
        if len(e.generators) > 1 or any(x.ifs for x in e.generators):
            n = None
        inner = ()
        elem = None
        data = bool(vals)
        if vals and all(isinstance(v, Arr) and v.lst and v.gen is None for v in vals) and len({v.dims for v in vals}) == 1:
            inner = vals[0].dims
        data = all(v is DATA or isinstance(v, Arr) for v in vals)
        return Arr((n,) + tuple(inner), elem, lst=True, data=data)

    e_GeneratorExp = e_ListComp

    def e_Lambda(self, e, st):
        return UNK

    # -- calls -------------------------------------------------------------------------
    def callee(self, f, st):
        """('ext', dotted) | ('func', FuncInfo) | ('method', value, name) | None"""
        fn = self.stack[-1][0]
        if isinstance(f, ast.Name):
            if f.id in st.env:
                return None
            r = self.prog.resolve(fn.module, f.id)
            if r is None:
                return ("builtin", f.id)
            if r[0] == "func":
                return r
            if r[0] == "ext":
                return ("ext", r[1])
            return None
        if isinstance(f, ast.Attribute):
            chain = []
            x = f
            while isinstance(x, ast.Attribute):
                chain.append(x.attr)
                x = x.value
            if isinstance(x, ast.Name) and x.id not in st.env:
                r = self.prog.resolve(fn.module, x.id)
                chain = chain[::-1]
                if r is not None:
                    while r is not None and r[0] == "mod" and chain:
                        r = self.prog.member(r[1], chain.pop(0))
                    if r is not None and r[0] == "func" and not chain:
                        return r
                    if r is not None and r[0] == "ext":
                        return ("ext", ".".join([r[1]] + chain))
                return None
            return ("method", self.ev(f.value, st), f.attr)
        return None

    def e_Call(self, e, st):
        c = self.callee(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                self.ev(a.value, st)
                args.append(UNK)
            elif isinstance(a, (ast.GeneratorExp,)):
                args.append(self.e_ListComp(a, st))
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in e.keywords:
            if k.arg is not None:
                kw[k.arg] = self.ev(k.value, st)
        if c is None:
            return UNK
        if c[0] == "func":
            return self.call_func(c[1], args, kw, st, e)
        if c[0] == "method":
            return self.method(c[1], c[2], args, kw, st)
        if c[0] == "builtin":
            return self.builtin(c[1], args, kw, st, e)
        if c[1].rsplit(".", 1)[-1] in self.PURE and not kw:
            key = ("ext", c[1], tuple(args), frozenset(self.relevant(args, st)))
            if key not in self.sy.cache:
                self.sy.cache[key] = self.ext(c[1], args, kw, st, e)
            return self.sy.cache[key]
        return self.ext(c[1], args, kw, st, e)

    PURE = {"concatenate", "where", "nonzero", "arange", "asarray", "array", "copy", "flatnonzero"}

    def relevant(self, vals, st):
        """The constraints connected to the symbols of some values."""
        syms = set()

        def collect(v):
            if isinstance(v, Poly):
                syms.update(v.syms())
            elif isinstance(v, Arr):
                for d in v.dims:
                    collect(d)
                for lo, hi, _ in v.elem or ():
                    collect(lo)
                    collect(hi)
                for x in v.items or ():
                    collect(x)
            elif isinstance(v, Tup):
                for x in v.items:
                    collect(x)
            elif isinstance(v, Iter):
                for x in v.args:
                    collect(x)
            elif isinstance(v, GTup):
                for p, x in v.changed:
                    collect(p)
                    collect(x)
        for v in vals:
            collect(v)
        used, _ = self.sy.closure(st.cons, sum((Poly.sym(s) for s in sorted(syms)), Poly()))
        return used

    def builtin(self, name, args, kw, st, e=None):
        if name == "len":
            n = self.length(args[0]) if args else None
            return UNK if n is None else n
        if name in ("min", "max"):
            if len(args) == 1:
                a = args[0]
                if isinstance(a, GShape):
                    return a.gen.largest if name == "max" else a.gen.smallest()
                if isinstance(a, Tup) and all(isinstance(x, Poly) for x in a.items):
                    return self.sy.minmax(name, a.items)
                if isinstance(a, Arr) and a.elem:
                    return self.extreme(a, name, st)
                return DATA if isinstance(a, Arr) and a.data else UNK
            if all(isinstance(x, Poly) for x in args):
                ps = list(args)
                for p in list(ps):
                    for q in list(ps):
                        if p is not q and p in ps and q in ps and len(ps) > 1 and self.pr.proves(st.cons, p - q):
                            ps.remove(p if name == "min" else q)
                return self.sy.minmax(name, ps)
            return DATA if all(x is DATA or isinstance(x, Poly) for x in args) else UNK
        if name == "abs" and args and isinstance(args[0], Poly):
            return self.sy.minmax("max", [args[0], -args[0]])
        if name == "int" and args:
            return args[0] if isinstance(args[0], Poly) else UNK
        if name in ("float", "complex", "bool", "abs", "round", "sum", "pow") and args:
            a = args[0]
            if name == "sum" and isinstance(a, Arr) and a.elem:
                return self.total(a, st)
            return DATA if a is DATA or isinstance(a, Poly) or (isinstance(a, Arr) and a.data) else UNK
        if name in ("range", "prange"):
            return self.mkrange(args)
        if name == "enumerate" and args:
            return Iter("enum", args[0], args[1] if len(args) > 1 else kw.get("start", Poly()))
        if name == "zip":
            return Iter("zip", *args)
        if name in ("list", "tuple") and len(args) == 1:
            a = args[0]
            if isinstance(a, (Tup, GTup, GShape)):
                return a
            if isinstance(a, Arr) and len(a.dims) == 1:
                return Arr(a.dims, a.elem, None, a.ident, True, a.items, a.data)
            if isinstance(a, Iter):
                n = self.trip(a, st)
                if a.kind == "range":
                    return self.arange(a, st, True)
                return Arr((n,), None, lst=True, data=False)
            return UNK
        if name in ("list",) and not args:
            return Arr((Poly(),), None, lst=True, items=())
        if name == "reversed" and args:
            return args[0] if isinstance(args[0], Arr) else UNK
        if name == "next":
            return UNK
        return UNK

    def mkrange(self, args):
        a, b, s = Poly(), None, Poly.const(1)
        if len(args) == 1:
            b = args[0]
        elif len(args) >= 2:
            a, b = args[0], args[1]
            if len(args) > 2:
                s = args[2]
        return Iter("range", a, b, s)

    def arange(self, it, st, lst=False):
        a, b, s = it.args
        n = self.trip(it, st)
        elem = None
        if isinstance(a, Poly) and isinstance(b, Poly) and isinstance(s, Poly) and s.is_const and s.c == 1:
            elem = ((a, b - 1, True),)
        return Arr((n,), elem, None, self.new_id(), lst, None, elem is not None)

    def extreme(self, a, kind, st):
        k = ("ext", kind, a.ident, a.elem)
        if a.ident is not None and k in self.sy.cache:
            return self.sy.cache[k]
        if len(a.elem) > 1:
            return UNK
        lo, hi, ex = a.elem[0]
        v = hi if kind == "max" else lo
        if v is None:
            return UNK
        if a.ident is not None:
            self.sy.cache[k] = v
        return v

    def total(self, a, st):
        """Sum of the elements of an integer array."""
        k = ("sum", a.ident, a.elem)
        if a.ident is not None and k in self.sy.cache:
            return self.sy.cache[k]
        los = [lo for lo, hi, ex in a.elem]
        if all(lo is not None and self.pr.proves(st.cons, lo) for lo in los):
            f = [lambda v: v]
            if a.ident is not None and len(a.elem) == 1 and a.elem[0][1] is not None:
                hi = a.elem[0][1]
                f.append(lambda v: v - hi) if a.elem[0][1].syms() and all(
                    s.startswith("max(") for s in a.elem[0][1].syms()) else None
            v = self.sy.new("sum", all(ex for _, _, ex in a.elem), f)
        else:
            v = self.sy.new("sum", False)
        if a.ident is not None:
            self.sy.cache[k] = v
        return v

    def shape_arg(self, v):
        if isinstance(v, Poly):
            return (v,)
        if isinstance(v, Tup):
            return tuple(x if isinstance(x, Poly) else None for x in v.items)
        if isinstance(v, Arr) and v.lst and v.items is not None:
            return tuple(x if isinstance(x, Poly) else None for x in v.items)
        return None

    ELEMENTWISE = {"sqrt", "exp", "conj", "conjugate", "abs", "absolute", "cos", "sin", "tan", "cosh", "sinh", "tanh", "log", "real",
                   "imag", "square", "sign", "angle", "log2", "log10", "floor", "ceil", "round", "isnan", "negative", "arctan",
                   "arccosh", "arcsinh", "arctanh", "arcsin", "arccos"}

    def ext(self, name, args, kw, st, e):
        parts = name.split(".")
        top, last = parts[0], parts[-1]
        if name in ("numba.prange",):
            return self.mkrange(args)
        if name.endswith("tuple_setitem") and len(args) == 3:
            t, i, v = args
            if isinstance(t, GTup) and isinstance(i, Poly) and isinstance(v, Poly):
                self.check(st, e, i, t.gen.rank)
                ch = [(p, x) for p, x in t.changed if p != i] + [(i, v)]
                return GTup(t.gen, t.ident, ch)
            return UNK
        if top == "math":
            return DATA
        if top != "numpy":
            return UNK
        if last in ("zeros", "empty", "ones", "full"):
            sh = args[0] if args else kw.get("shape", UNK)
            if isinstance(sh, GShape):
                return Arr((), None, sh.gen)
            d = self.shape_arg(sh)
            if d is None:
                return UNK
            self.check_alloc(e, d, st)
            elem = None
            if last in ("zeros", "ones"):
                elem = None
            return Arr(d, elem, None, self.new_id())
        if last in ("zeros_like", "empty_like", "ones_like", "full_like", "copy", "ascontiguousarray", "asarray", "array", "require") and args:
            a = args[0]
            if isinstance(a, Arr):
                keep = last in ("copy", "ascontiguousarray", "asarray", "array", "require")
                if a.lst and a.items is not None and a.items and all(isinstance(x, Arr) for x in a.items):
                    inner = a.items[0].dims
                    if all(x.dims == inner for x in a.items):
                        return Arr(a.dims + tuple(inner))
                    return UNK
                items = a.items if keep and a.lst and a.items is not None and all(isinstance(x, Poly) or x is DATA for x in a.items) else None
                return Arr(a.dims, a.elem if keep else None, a.gen, (a.ident or self.new_id()) if keep else self.new_id(), False, items,
                           a.data if keep else True)
            if isinstance(a, Tup):
                return Arr((Poly.const(len(a.items)),), data=all(x is DATA or isinstance(x, Poly) for x in a.items), items=None)
            if isinstance(a, GTup):
                return UNK
            return UNK
        if last in ("identity", "eye") and args:
            n = self.as_int(args[0])
            m = self.as_int(args[1]) if len(args) > 1 else n
            return Arr((n, m))
        if last == "arange":
            r = self.mkrange(args)
            return self.arange(r, st)
        if last == "ndindex":
            return Iter("nd", args[0] if len(args) == 1 else Tup(args))
        if last in self.ELEMENTWISE and args:
            a = args[0]
            if isinstance(a, Arr):
                keep = last in ("conj", "conjugate", "real", "abs", "absolute")
                return Arr(a.dims, a.elem if keep and last not in ("abs", "absolute") else None, a.gen, data=True)
            return DATA if a is not UNK else (UNK if last in ("real", "abs", "sign", "floor", "ceil", "round", "square") else DATA)
        if last == "concatenate" or last == "hstack":
            a = args[0] if args else UNK
            xs = a.items if isinstance(a, Tup) else (a.items if isinstance(a, Arr) and a.lst else None)
            if xs and all(isinstance(x, Arr) and len(x.dims) == 1 for x in xs):
                n = Poly()
                for x in xs:
                    n = None if n is None or x.dims[0] is None else n + x.dims[0]
                elem = self.join_elems([x.elem for x in xs])
                out = Arr((n,), elem, None, self.new_id(), False, None, all(x.data for x in xs))
                if all(isinstance(x, Arr) and x.items is not None and all(isinstance(i, Poly) for i in x.items) for x in xs[:1]):
                    out.head = xs[0].items
                self.concat_facts(out, xs, st)
                return out
            return UNK
        if last == "append" and len(args) == 2:
            a, b = args
            if isinstance(a, Arr) and len(a.dims) == 1:
                n = None if a.dims[0] is None else a.dims[0] + 1
                return Arr((n,), None, data=False) if not isinstance(b, Arr) else UNK
            return UNK
        if last in ("where", "nonzero", "flatnonzero") and len(args) == 1:
            a = args[0]
            if isinstance(a, Arr) and a.gen is None and len(a.dims) == 1:
                n = a.dims[0]
                k = self.sy.new("count", False, [lambda v: v] + ([lambda v: n - v] if n is not None else []))
                elem = ((Poly(), n - 1, False),) if n is not None else None
                r = Arr((k,), elem, None, self.new_id(), data=elem is None)
                return r if last == "flatnonzero" else Tup([r])
            return UNK
        if last in ("diag", "diagonal") and args and isinstance(args[0], Arr):
            a = args[0]
            if len(a.dims) == 2:
                return Arr((a.dims[0] if a.dims[0] == a.dims[1] else None,))
            if len(a.dims) == 1:
                return Arr((a.dims[0], a.dims[0]))
            return UNK
        if last == "outer" and len(args) == 2 and all(isinstance(x, Arr) and len(x.dims) == 1 for x in args):
            return Arr((args[0].dims[0], args[1].dims[0]))
        if last == "dot" and len(args) == 2:
            return self.matmul(args[0], args[1])
        if last == "transpose" and args and isinstance(args[0], Arr) and args[0].gen is None and len(args) == 1:
            return Arr(args[0].dims[::-1])
        if last == "sum" and args and isinstance(args[0], Arr):
            return self.method(args[0], "sum", args[1:], kw, st)
        if last in ("prod", "max", "min", "amax", "amin", "mean") and args and isinstance(args[0], Arr):
            return self.method(args[0], last.replace("amax", "max").replace("amin", "min"), args[1:], kw, st)
        if len(parts) > 2 and parts[1] == "linalg":
            a = args[0] if args else UNK
            if last in ("inv", "cholesky") and isinstance(a, Arr):
                return Arr(a.dims)
            if last == "eigvals" and isinstance(a, Arr) and len(a.dims) == 2:
                return Arr(a.dims[:1])
            if last == "solve" and len(args) == 2 and isinstance(args[1], Arr):
                return Arr(args[1].dims)
            if last in ("det", "norm"):
                return DATA
            return UNK
        if len(parts) > 2 and parts[1] == "random":
            if not args and not kw:
                return DATA
            if last in ("normal", "uniform") and len(args) < 3 and "size" not in kw:
                return DATA
            return UNK
        if last in ("trace", "vdot", "isclose", "allclose"):
            return DATA
        if last in ("complex128", "float64", "complex64", "float32"):
            a = args[0] if args else DATA
            return Arr(a.dims, None, a.gen) if isinstance(a, Arr) else DATA
        if last in ("int64", "int32", "intp", "int_"):
            return args[0] if args and isinstance(args[0], Poly) else UNK
        if last in ("minimum", "maximum") and all(isinstance(x, Poly) for x in args):
            return self.sy.minmax(last[:3], args)
        return UNK

    def check_alloc(self, e, dims, st):
        pass

    def concat_facts(self, out, xs, st):
        """The largest element of a concatenation is at least that of each part; known first elements."""
        if out.elem is None:
            return
        his = []
        for x in xs:
            for lo, hi, ex in x.elem or ():
                if hi is None:
                    return
                his.append(hi)
        los = [lo for lo, hi, ex in out.elem]
        if any(lo is None for lo in los) or len(out.elem) == 1:
            return
        hi = self.sy.minmax("max", his)
        self.sy.cache[("ext", "max", out.ident, out.elem)] = hi
        pos = 0
        for x in xs:
            if x.items is None or not all(isinstance(i, Poly) for i in x.items):
                break
            for it in x.items:
                self.sy.cache[("el", out.ident, out.elem, (Poly.const(pos),))] = it
                pos += 1

    def method(self, v, name, args, kw, st):
        if isinstance(v, Arr):
            if name in ("copy", "conj", "conjugate", "astype"):
                return Arr(v.dims, v.elem, v.gen, v.ident if name in ("copy", "astype") else None, v.lst, v.items, v.data)
            if name == "sum":
                ax = args[0] if args else kw.get("axis")
                if ax is None or ax is NONE:
                    if v.elem:
                        return self.total(v, st)
                    return DATA if v.data else UNK
                if isinstance(ax, Poly) and ax.is_const and v.gen is None and -len(v.dims) <= ax.c < len(v.dims):
                    d = list(v.dims)
                    del d[ax.c]
                    return Arr(d, None, data=v.data) if d else DATA
                return UNK
            if name in ("max", "min") and not args and not kw:
                if v.elem:
                    return self.extreme(v, name, st)
                return DATA if v.data else UNK
            if name in ("prod", "mean", "trace", "std", "var") and not args and not kw:
                return DATA if v.data or v.elem else UNK
            if name in ("index", "count"):
                n = self.length(v)
                if name == "index" and n is not None:
                    return self.sy.new("position", False, [lambda p: p, lambda p: n - 1 - p])
                return UNK
            if name in ("transpose",) and not args:
                return Arr(v.dims[::-1])
            if name in ("flatten", "ravel") and v.gen is None:
                n = Poly.const(1)
                for d in v.dims:
                    n = None if n is None or d is None else n * d
                return Arr((n,), v.elem, data=v.data)
            if name == "reshape":
                sh = self.shape_arg(args[0] if len(args) == 1 else Tup(args))
                if sh is not None and not any(isinstance(x, Poly) and x.is_const and x.c < 0 for x in sh if x is not None):
                    return Arr(sh, v.elem, data=v.data)
                return UNK
            if name == "pop":
                return UNK
            if name == "dot" and args:
                return self.matmul(v, args[0])
        if v is DATA and name in ("conjugate", "conj", "item", "real"):
            return DATA
        if isinstance(v, Poly) and name in ("conjugate", "conj", "item"):
            return v
        return UNK

    # -- repository functions ---------------------------------------------------------
    def call_func(self, fi, args, kw, st, node):
        if fi.jit is None or len(self.stack) > MAXDEPTH or any(f is fi for f, _ in self.stack) or isinstance(fi.node, ast.Lambda):
            return UNK
        env = self.bind(fi, args, kw)
        if env is None:
            return UNK
        if fi.is_gen:
            return Iter("gen", fi, tuple(sorted(env.items(), key=lambda kv: kv[0])))
        self.calls += 1
        if fi.full not in self.calls_of:
            self.calls_of.add(fi.full)
        cons = tuple(self.relevant(env.values(), st))
        fog = frozenset() if all(self.clear(st, a) for a in node.args + [k.value for k in node.keywords]) else frozenset("*")
        key = (fi.full, tuple(sorted(env.items(), key=lambda kv: kv[0])), frozenset(cons), st.exact and self.reach_exact(), fog)
        if (key, True) in self.done:
            return self.done[key, True]
        if not self.record and (key, False) in self.done:
            return self.done[key, False]
        r = self.run_call(fi, env, State(env, tuple(c for c in st.cons if c in set(cons)), st.exact, fog), st)
        self.done[key, self.record] = r
        return r

    def run_call(self, fi, env, st, caller):
        self.stack.append((fi, caller.exact))
        try:
            outs = self.run_body(fi, State(env, st.cons, True, st.fog))
        finally:
            self.stack.pop()
        base = set(st.cons)
        rets = []
        for s, v in outs:
            extra = tuple(c for c in s.cons if c not in base)
            rets.append((v, extra, s.exact))
        if not rets:
            return UNK
        vals = rets[0][0]
        if all(r[0] == vals for r in rets):
            return vals
        return self.join_rets(rets, st)

    def join_rets(self, rets, st):
        first = rets[0][0]
        vs = [r[0] for r in rets]
        if all(isinstance(v, Poly) for v in vs):
            ex = all(r[2] for r in rets) and all(self.sy.exact[s] for v in vs for s in v.syms())
            return self.sy.choice("result", [(v, e) for v, e, _ in rets], ex)
        if all(isinstance(v, Arr) and len(v.dims) == len(first.dims) and v.gen is first.gen for v in vs):
            dims = []
            for k in range(len(first.dims)):
                ds = [v.dims[k] for v in vs]
                if all(d == ds[0] for d in ds):
                    dims.append(ds[0])
                elif any(d is None for d in ds):
                    dims.append(None)
                else:
                    dims.append(self.join_rets([(d, r[1], r[2]) for d, r in zip(ds, rets)], st))
            elem = None
            if all(v.elem for v in vs):
                elem = self.join_elems([v.elem for v in vs])
            return Arr(dims, elem, first.gen, None, any(v.lst for v in vs), None, all(v.data for v in vs) and not any(v.elem for v in vs))
        if all(isinstance(v, Tup) and len(v.items) == len(first.items) for v in vs):
            return Tup([self.join_rets([(v.items[k], r[1], r[2]) for v, r in zip(vs, rets)], st) if
                        any(v.items[k] != first.items[k] for v in vs) else first.items[k] for k in range(len(first.items))])
        if all(v is DATA or isinstance(v, Poly) for v in vs):
            return DATA
        return UNK

    def bind(self, fi, args, kw):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names):
            return None
        env = dict(zip(names, args))
        env.update({k: v for k, v in kw.items() if k in fi.params})
        for n, d in fi.defaults().items():
            if n not in env:
                env[n] = self.e_Constant(d, None) if isinstance(d, ast.Constant) else UNK
        for n in fi.params:
            env.setdefault(n, UNK)
        return env

    def run_body(self, fi, st):
        outs = []
        for s, flow, v in self.block(fi.node.body, [st]):
            if flow == "return":
                outs.append((s, v))
            elif flow == "normal":
                outs.append((s, NONE))
        return outs

    # -- statements ----------------------------------------------------------------------
    def block(self, body, states):
        """Run statements; returns [(state, flow, value)]."""
        done = []
        cur = states
        for stmt in body:
            nxt = []
            for s in cur:
                for s2, flow, v in self.stmt(stmt, s):
                    if flow == "normal":
                        nxt.append(s2)
                    else:
                        done.append((s2, flow, v))
            cur = self.merge(nxt)
            if not cur:
                break
        return done + [(s, "normal", None) for s in cur]

    def merge(self, states):
        """Merge states with the same environment; widen when there are too many."""
        out = []
        for s in states:
            for i, o in enumerate(out):
                if o.env.keys() == s.env.keys() and all(o.env[k] == s.env[k] for k in s.env):
                    common = set(o.cons) & set(s.cons)
                    a = [c for c in o.cons if c not in common]
                    b = [c for c in s.cons if c not in common]
                    if self.complementary(a, b):
                        out[i] = State(o.env, tuple(c for c in o.cons if c in common), o.exact and s.exact, o.fog & s.fog)
                        break
                    if not a and not b:
                        out[i] = State(o.env, o.cons, o.exact or s.exact, o.fog & s.fog)
                        break
            else:
                out.append(s)
        if len(out) > MAXSTATES:
            st = out[0].copy()
            for s in out[1:]:
                st = self.widen_state(st, s)
            st.exact = False
            return [st]
        return out

    def complementary(self, a, b):
        if not a or not b:
            return not a and not b
        if len(a) == 1 and len(b) == 1:
            return a[0] + b[0] == Poly.const(-1)
        return False

    def widen_state(self, a, b):
        env = {}
        for k in set(a.env) | set(b.env):
            env[k] = self.join(a.env[k], b.env[k], a) if k in a.env and k in b.env else UNK
        common = set(a.cons) & set(b.cons)
        return State(env, tuple(c for c in a.cons if c in common), False, a.fog | b.fog)

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is not None:
            return m(s, st)
        if isinstance(s, ast.Expr):
            return self.s_Expr(s, st)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return [(st, "normal", None)]

    def s_Expr(self, s, st):
        e = s.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) \
                and e.func.value.id in st.env:
            v = st.env[e.func.value.id]
            if isinstance(v, Arr) and v.lst and e.func.attr in ("append", "extend", "insert", "pop", "remove", "clear"):
                args = [self.ev(a, st) for a in e.args]
                st = st.copy()
                name = e.func.value.id
                if e.func.attr == "append" and len(args) == 1:
                    n = None if v.dims[0] is None else v.dims[0] + 1
                    x = args[0]
                    elem = None
                    if isinstance(x, Poly):
                        if v.items == () or (v.dims[0] is not None and v.dims[0] == Poly()):
                            elem = ((x, x, True),)
                        elif v.elem is not None:
                            elem = self.join_elems([v.elem, ((x, x, True),)])
                    data = v.data and (x is DATA or isinstance(x, (Poly, Arr)))
                    st.env[name] = Arr((n,), elem, lst=True, data=data)
                else:
                    st.env[name] = Arr((None,), None, lst=True, data=False)
                return [(st, "normal", None)]
        if isinstance(e, (ast.Yield,)):
            v = self.ev(e.value, st) if e.value is not None else NONE
            self.yields[-1].append((st, v))
            return [(st, "normal", None)]
        self.ev(e, st)
        return [(st, "normal", None)]

    yields = [[]]

    def s_Pass(self, s, st):
        return [(st, "normal", None)]

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        return [(st, "return", v)]

    def s_Raise(self, s, st):
        return []

    def s_Assert(self, s, st):
        t, _ = self.cond(s.test, st)
        return [(x, "normal", None) for x in self.alts(st, t, s.test)]

    def s_Break(self, s, st):
        return [(st, "break", None)]

    def s_Continue(self, s, st):
        return [(st, "continue", None)]

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        st = st.copy()
        self.spread(st, s.value, s.targets)
        for t in s.targets:
            self.assign(t, v, st)
        return [(st, "normal", None)]

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, "normal", None)]
        v = self.ev(s.value, st)
        st = st.copy()
        self.assign(s.target, v, st)
        return [(st, "normal", None)]

    def s_AugAssign(self, s, st):
        v = self.ev(s.value, st)
        if st.fog:
            st = st.copy()
            self.spread(st, s.value, [s.target])
        if isinstance(s.target, ast.Name):
            old = st.env.get(s.target.id, UNK)
            st = st.copy()
            new = self.binop(s.op, old, v, st)
            if isinstance(old, Arr) and not old.lst and isinstance(new, Arr):
                new = Arr(old.dims, new.elem, old.gen, None, False, None, new.data)
            st.env[s.target.id] = new
            return [(st, "normal", None)]
        self.ev(s.target, st)
        st = st.copy()
        self.store(s.target, v, st)
        return [(st, "normal", None)]

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = None
            if isinstance(v, Tup) and len(v.items) == len(t.elts):
                items = v.items
            elif isinstance(v, Arr) and v.items is not None and len(v.items) == len(t.elts):
                items = v.items
            for i, x in enumerate(t.elts):
                y = items[i] if items is not None else (DATA if v is DATA else UNK)
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, st)
        elif isinstance(t, ast.Subscript):
            self.ev(t, st)
            self.store(t, v, st)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value, st)

    def store(self, t, v, st):
        """An element store into a local array: its elements are no longer what they were."""
        x = t.value
        while isinstance(x, (ast.Subscript, ast.Attribute)):
            x = x.value
        if isinstance(x, ast.Name) and isinstance(st.env.get(x.id), Arr):
            a = st.env[x.id]
            new = None
            if isinstance(v, Arr) and v.elem and a.elem:
                new = self.join_elems([a.elem, v.elem])
            elif isinstance(v, Arr) and v.elem and not a.elem and isinstance(t.slice, ast.Slice):
                # the array is filled by slices (np.empty): keep the union
                new = self.join_elems([getattr(a, "filled", None) or v.elem, v.elem])
            data = a.data and (v is DATA or isinstance(v, Poly) or (isinstance(v, Arr) and (v.data or v.elem is not None)))
            b = Arr(a.dims, None, a.gen, a.ident if not a.elem else None, a.lst, None, data)
            if isinstance(v, Arr) and v.elem and new:
                b.elem = new
                b.ident = self.new_id()
            elif a.elem and isinstance(v, Poly):
                b.elem = self.join_elems([a.elem, ((v, v, True),)])
                b.ident = self.new_id()
            elif isinstance(v, Poly) and not a.elem:
                b.data = a.data
            st.env[x.id] = b

    # -- conditions --------------------------------------------------------------------------
    def alts(self, st, alts, test):
        out = []
        for cons, exact in alts:
            if any(c.is_const and c.c < 0 for c in cons):
                continue
            s = st.add(cons)
            if not exact:
                s.exact = False
                s.fog = self.fogged(test, st)
            elif any(x.startswith("test#") for c in cons for x in c.syms()):
                s.fog = s.fog | {"*"}
            out.append(s)
        return out

    def cond(self, e, st):
        """(alternatives for true, alternatives for false): lists of (constraints, exact)."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st)
            return f, t
        if isinstance(e, ast.BoolOp):
            parts = [self.cond(v, st) for v in e.values]
            if isinstance(e.op, ast.Or):
                parts = [(f, t) for t, f in parts]
            true = [((), True)]
            false = []
            for t, f in parts:
                for c, x in true:
                    for d, y in f:
                        false.append((tuple(c) + tuple(d), x and y))
                true = [(tuple(c) + tuple(d), x and y) for c, x in true for d, y in t]
                if len(true) > 6 or len(false) > 8:
                    return [((), False)], [((), False)]
            return (true, false) if isinstance(e.op, ast.And) else (false, true)
        if isinstance(e, ast.Compare):
            if len(e.ops) > 1:
                left = e.left
                tests = []
                for op, c in zip(e.ops, e.comparators):
                    tests.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[c]), e))
                    left = c
                return self.cond(ast.copy_location(ast.BoolOp(op=ast.And(), values=tests), e), st)
            a = self.ev(e.left, st)
            op = e.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                b = self.ev(e.comparators[0], st)
                if isinstance(a, Poly) and isinstance(b, Tup) and all(isinstance(x, Poly) for x in b.items):
                    t = [((a - x, x - a), True) for x in b.items]
                    f = [((), True)]
                    for x in b.items:
                        f = [(c + (d,), y) for c, y in f for d in (a - x - 1, x - a - 1)]
                        f = [(c, y) for c, y in f if not any(q.is_const and q.c < 0 for q in c)]
                    return (t, f) if isinstance(op, ast.In) else (f, t)
                return [((), False)], [((), False)]
            b = self.ev(e.comparators[0], st)
            if isinstance(op, (ast.Is, ast.IsNot)):
                if NONE in (a, b):
                    o = b if a is NONE else a
                    if o is NONE:
                        r = ([((), True)], [])
                    elif o is UNK:
                        r = ([((), False)], [((), False)])
                    else:
                        r = ([], [((), True)])
                    return r if isinstance(op, ast.Is) else (r[1], r[0])
                return [((), False)], [((), False)]
            if isinstance(a, Poly) and isinstance(b, Poly):
                d = b - a
                le, lt, ge, gt = (d,), (d - 1,), (-d,), (-d - 1,)
                eq = ((d, -d), True)
                ne = [(lt, True), (gt, True)]
                ne = [(c, x) for c, x in ne if not self.pr.proves(st.cons, -c[0] - 1)]
                r = {ast.Lt: ([(lt, True)], [(ge, True)]), ast.LtE: ([(le, True)], [(gt, True)]),
                     ast.Gt: ([(gt, True)], [(le, True)]), ast.GtE: ([(ge, True)], [(lt, True)]),
                     ast.Eq: ([eq], ne), ast.NotEq: (ne, [eq])}.get(type(op))
                if r is not None:
                    t = [x for x in r[0] if self.possible(st, x[0])]
                    f = [x for x in r[1] if self.possible(st, x[0])]
                    return t, f
            if a is DATA or b is DATA:
                if UNK not in (a, b):
                    return [((), True)], [((), True)]
            return [((), False)], [((), False)]
        v = self.ev(e, st)
        if isinstance(v, Poly):
            z = ((v, -v), True)
            nz = [((v - 1,), True), ((-v - 1,), True)]
            nz = [(c, x) for c, x in nz if self.possible(st, c)]
            return nz, ([z] if self.possible(st, z[0]) else [])
        if v is NONE:
            return [], [((), True)]
        if v is DATA:
            return [((), True)], [((), True)]
        if isinstance(v, Arr) and v.lst and v.dims[0] is not None:
            n = v.dims[0]
            return [((n - 1,), True)], [((n, -n), True)]
        return [((), False)], [((), False)]

    def possible(self, st, cons):
        for c in cons:
            if c.is_const:
                if c.c < 0:
                    return False
            elif self.pr.proves(st.cons, -c - 1):
                return False
        return True

    def s_If(self, s, st):
        t, f = self.cond(s.test, st)
        ts, fs = self.alts(st, t, s.test), self.alts(st, f, s.test)
        a = self.block(s.body, ts) if ts else []
        b = (self.block(s.orelse, fs) if s.orelse else [(x, "normal", None) for x in fs]) if fs else []
        # states that differ only by the alternatives of this test and have the same environment are one state again
        na = [x for x, fl, _ in a if fl == "normal"]
        nb = [x for x, fl, _ in b if fl == "normal"]
        others = [x for x in a + b if x[1] != "normal"]
        if na and nb and len(ts) == len([1 for x in a if x[1] == "normal"]) and len(fs) == len(nb):
            env0 = na[0].env
            if all(x.env.keys() == env0.keys() and all(x.env[k] == env0[k] for k in env0) for x in na + nb):
                keep = tuple(c for c in na[0].cons if all(c in x.cons for x in na + nb))
                return others + [(State(env0, keep, st.exact, st.fog), "normal", None)]
        return others + [(x, "normal", None) for x in na + nb]

    def s_With(self, s, st):
        return self.block(s.body, [st])

    def s_Try(self, s, st):
        st = st.copy()
        st.exact = False
        return self.block(s.body, [st])

    def s_Delete(self, s, st):
        return [(st, "normal", None)]

    # -- loops ---------------------------------------------------------------------------------
    def iter_of(self, e, st):
        v = self.ev(e, st)
        if isinstance(v, (Arr, Tup, GTup, GShape)):
            return Iter("arr", v)
        if isinstance(v, Iter):
            return v
        return Iter("unknown", v)

    def trip(self, it, st):
        """Number of iterations, or None."""
        if it.kind == "range":
            a, b, s = it.args
            if all(isinstance(x, Poly) for x in (a, b, s)) and s.is_const and s.c != 0:
                k = s.c
                n = (b - a) if k > 0 else (a - b)
                k = abs(k)
                if k > 1:
                    n = self.sy.floordiv(n + (k - 1), Poly.const(k))
                return self.nonneg(n, st)
            return None
        if it.kind == "arr":
            return self.length(it.args[0])
        if it.kind == "enum":
            x = it.args[0]
            return self.trip(x, st) if isinstance(x, Iter) else self.length(x)
        if it.kind == "zip":
            ns = [self.trip(x, st) if isinstance(x, Iter) else self.length(x) for x in it.args]
            if any(n is None for n in ns):
                return None
            return self.sy.minmax("min", ns)
        return None

    def loop_symbol(self, name, it, st):
        """The symbol of a loop variable; the same one for every pass over the same loop if it cannot leave the loop."""
        node, self.cur_for = self.cur_for, None
        if node is None or self.has_exit(node.body):
            return self.sy.new(name, True)
        key = (id(node), it, len(self.stack))
        v = self.loopsyms.get(key)
        if v is None:
            v = self.loopsyms[key] = self.sy.new(name, True)
            return v
        s = next(iter(v.syms()))
        if any(s in c.syms() for c in st.cons):
            return self.sy.new(name, True)
        return v

    def iterate(self, iter_expr, target, st):
        """States for an arbitrary iteration, with the target bound: [(state, iteration number or None)]."""
        it = self.iter_of(iter_expr, st)
        return self.iterate_it(it, target, st)

    def iterate_it(self, it, target, st):
        res = self.item(it, st, "t" if not isinstance(target, ast.Name) else target.id, target)
        out = []
        for val, cons, k, exact in res:
            s = st.add(cons)
            s.exact = s.exact and exact
            self.assign(target, val, s)
            out.append((s, k))
        return out

    def item(self, it, st, name, target=None):
        """[(value, constraints, iteration number, exact)] of an arbitrary iteration."""
        if it.kind == "range":
            a, b, s = it.args
            if isinstance(s, Poly) and s.is_const and s.c != 0 and isinstance(a, Poly):
                c = s.c
                if isinstance(b, Poly):
                    if abs(c) == 1:
                        v = self.loop_symbol(name, it, st)
                        if c == 1:
                            return [(v, (v - a, b - 1 - v), v - a, True)]
                        return [(v, (a - v, v - b - 1), a - v, True)]
                    k = self.sy.new(name + "'", True, [lambda k: k])
                    v = a + k * c
                    return [(v, (b - 1 - v,) if c > 0 else (v - b - 1,), k, True)]
                v = self.sy.new(name, True if b is DATA else False)
                # the end is unknown: only the start is
                self.sy.exact[next(iter(v.syms()))] = False
                return [(v, (v - a,) if c > 0 else (a - v,), None, b is DATA)]
            return [(UNK, (), None, False)]
        if it.kind == "arr":
            x = it.args[0]
            n = self.length(x)
            k = self.sy.new("k", True, [lambda k: k])
            cons = (n - 1 - k,) if n is not None else ()
            if isinstance(x, Tup):
                vals = list(dict.fromkeys(x.items))
                if len(x.items) == 0:
                    return []
                if len(vals) == 1:
                    return [(vals[0], cons, k, True)]
                return [(v, (), None, True) for v in x.items] if len(x.items) <= 4 else [(UNK, (), None, False)]
            if isinstance(x, GTup):
                return [(self.gelem(x, k, st), cons, k, True)]
            if isinstance(x, GShape):
                return [(x.gen.dim(k), cons, k, True)]
            if isinstance(x, Arr) and x.gen is None:
                if len(x.dims) == 1:
                    return [(self.element(x, st, (k,)), cons, k, True)]
                return [(Arr(x.dims[1:], x.elem, data=x.data), cons, k, True)]
            return [(UNK, (), None, False)]
        if it.kind == "enum":
            x, start = it.args
            inner = self.item(x if isinstance(x, Iter) else Iter("arr", x), st, name)
            out = []
            for v, c, k, ex in inner:
                idx = k + start if k is not None and isinstance(start, Poly) else UNK
                out.append((Tup([idx, v]), c, k, ex))
            return out
        if it.kind == "zip":
            inner = [self.item(x if isinstance(x, Iter) else Iter("arr", x), st, name) for x in it.args]
            if all(len(i) == 1 for i in inner):
                cons = ()
                ks = [i[0][2] for i in inner if i[0][2] is not None]
                for i in inner:
                    cons += tuple(i[0][1])
                for k in ks[1:]:
                    cons += (k - ks[0], ks[0] - k)
                return [(Tup([i[0][0] for i in inner]), cons, ks[0] if ks else None, all(i[0][3] for i in inner))]
            return [(UNK, (), None, False)]
        if it.kind == "nd":
            x = it.args[0]
            if isinstance(x, GShape):
                return [(GTup(x.gen, self.new_id()), (), None, True)]
            if isinstance(x, Tup) and len(x.items) == 1 and isinstance(x.items[0], Tup):
                x = x.items[0]
            if isinstance(x, Tup) and all(isinstance(d, Poly) for d in x.items):
                vs, cons = [], ()
                for d in x.items:
                    v = self.sy.new("i", True)
                    vs.append(v)
                    cons += (v, d - 1 - v)
                return [(Tup(vs), cons, None, True)]
            return [(UNK, (), None, False)]
        if it.kind == "gen":
            fi, env = it.args
            self.yields = self.yields + [[]]
            self.stack.append((fi, st.exact))
            try:
                self.run_body(fi, State(dict(env), st.cons, True, frozenset("*") if st.fog else frozenset()))
            finally:
                self.stack.pop()
                ys = self.yields[-1]
                self.yields = self.yields[:-1]
            if not self.record:
                pass
            seen = []
            for s, v in ys:
                extra = tuple(c for c in s.cons if c not in st.cons)
                seen.append((v, extra, None, s.exact))
            return seen[-4:] if seen else []
        return [(DATA if it.args and it.args[0] is DATA else UNK, (), None, False)]

    def assigned(self, body):
        out = []
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.append(n.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                        n.func.attr in ("append", "extend", "insert", "pop", "clear", "remove"):
                    out.append(n.func.value.id)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    x = n.value
                    while isinstance(x, (ast.Subscript, ast.Attribute)):
                        x = x.value
                    if isinstance(x, ast.Name):
                        out.append(x.id)
        return list(dict.fromkeys(out))

    def induction(self, body, st):
        """Variables whose only update is one unconditional x += c (or list append) per iteration: name -> step / 'append'."""
        jumps = any(isinstance(n, (ast.Continue, ast.Break, ast.Return)) for s in body for n in ast.walk(s))
        if jumps and any(isinstance(n, ast.Continue) for s in body for n in ast.walk(s)):
            return {}
        count = {}
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    count[n.id] = count.get(n.id, 0) + 1
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                        n.func.attr in ("append", "extend", "insert", "pop", "clear", "remove"):
                    count[n.func.value.id] = count.get(n.func.value.id, 0) + 1
        out = {}
        for s in body:
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)) and \
                    isinstance(s.value, ast.Constant) and isinstance(s.value.value, int) and count.get(s.target.id) == 1:
                out[s.target.id] = s.value.value * (1 if isinstance(s.op, ast.Add) else -1)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                    isinstance(s.value, ast.BinOp) and isinstance(s.value.op, (ast.Add, ast.Sub)) and \
                    isinstance(s.value.left, ast.Name) and s.value.left.id == s.targets[0].id and \
                    isinstance(s.value.right, ast.Constant) and isinstance(s.value.right.value, int) and \
                    count.get(s.targets[0].id) == 1:
                out[s.targets[0].id] = s.value.right.value * (1 if isinstance(s.value.op, ast.Add) else -1)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                    s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name) and \
                    count.get(s.value.func.value.id) == 1:
                out[s.value.func.value.id] = "append"
        return out

    def s_For(self, s, st):
        it = self.iter_of(s.iter, st)
        trip = self.trip(it, st)
        names = [n for n in self.assigned(s.body)]
        ind = self.induction(s.body, st)
        targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        exits = any(isinstance(n, (ast.Break, ast.Return)) for b in s.body for n in ast.walk(b))
        pre = st

        def entry(values):
            base = pre.copy()
            base.env.update(values)
            self.spread(base, s.iter, [s.target])
            self.cur_for = s
            try:
                return self.iterate_it(it, s.target, base)
            finally:
                self.cur_for = None

        saved, self.cur_it = self.cur_it, it
        body, after_vals, flows = self.loop(s.body, pre, names, ind, entry, trip, exits)
        self.cur_it = saved
        out = [x for x in flows if x[1] == "return"]
        end = pre.copy()
        end.env.update(after_vals)
        if exits:
            end.exact = False
        for t in targets:
            end.env[t] = self.last_value(it, t, s.target, pre, st)
        brk = []
        for x, fl, _ in flows:
            if fl == "break":
                b = x.copy()
                brk.append(b)
        outs = [(x, "return", v) for x, _, v in out]
        if s.orelse:
            for x in self.block(s.orelse, [end]):
                outs.append(x)
        else:
            outs.append((end, "normal", None))
        # a break leaves with the values of that iteration
        for b in brk[:3]:
            for n in names:
                if n in ind or True:
                    pass
            outs.append((b, "normal", None))
        return outs

    def last_value(self, it, t, target, pre, st):
        """The loop variable after the loop."""
        old = pre.env.get(t)
        if it.kind == "range" and isinstance(target, ast.Name):
            a, b, s = it.args
            if all(isinstance(x, Poly) for x in (a, b, s)) and s == Poly.const(1) and isinstance(old, Poly):
                return self.sy.choice(t, [(b - 1, (b - a - 1,)), (old, (a - b,))], True)
            if all(isinstance(x, Poly) for x in (a, b, s)) and s == Poly.const(1) and self.pr.proves(st.cons, b - a - 1):
                return b - 1
        if isinstance(old, Poly) and it.kind in ("arr", "enum"):
            n = self.trip(it, st)
            if n is not None and isinstance(target, ast.Tuple) and target.elts and isinstance(target.elts[0], ast.Name) and \
                    target.elts[0].id == t and it.kind == "enum":
                return self.sy.choice(t, [(n - 1, (n - 1,)), (old, (-n,))], True)
        return UNK

    def loop(self, body, pre, names, ind, entry, trip, exits):
        """Fixpoint over the values of the variables assigned in the body; then one recorded pass."""
        start = {n: pre.env.get(n) for n in names}
        invariant = {}
        for n in names:
            if start[n] is None:
                continue
            invariant[n] = start[n]
        rec = self.record
        mark = next(self.sy.n)
        cand = {}
        flows, ends = [], []
        for rnd in range(6):
            self.record = False
            try:
                flows, ends = self.pass_(body, entry, invariant, ind, pre)
            finally:
                self.record = rec
            changed = False
            for n in list(invariant):
                if n in ind and self.induct_ok(start[n], ind[n]):
                    continue
                olds = invariant[n]
                for e in ends:
                    v = e.env.get(n, UNK)
                    if v == invariant[n]:
                        continue
                    if n in cand:
                        # preserved bounds of an integer
                        keep = [c for c in cand[n]["c"] if isinstance(v, Poly) and self.pr.proves(e.cons, c[1](v))]
                        if len(keep) == len(cand[n]["c"]):
                            continue
                        if keep:
                            cand[n]["c"] = keep
                            invariant[n] = self.bounded(n, keep)
                        else:
                            del cand[n]
                            invariant[n] = UNK if not isinstance(v, Poly) and v is not DATA else (DATA if v is DATA else UNK)
                        changed = True
                        continue
                    new = self.widen(invariant[n], v, n, cand, start[n], pre)
                    if new != invariant[n]:
                        invariant[n] = new
                        changed = True
                if invariant[n] is not olds and not changed:
                    changed = True
            if not changed:
                break
        else:
            for n in invariant:
                if not (n in ind and self.induct_ok(start[n], ind[n])):
                    invariant[n] = self.forget(invariant[n])
        flows, ends = self.pass_(body, entry, invariant, ind, pre)
        # values after the loop
        after = {}
        for n in names:
            if start[n] is None:
                vals = [e.env.get(n, UNK) for e in ends]
                after[n] = DATA if vals and all(v is DATA for v in vals) else UNK
                if vals and all(isinstance(v, Arr) for v in vals) and all(v == vals[0] for v in vals):
                    local = {x for d in vals[0].dims if d is not None for x in d.syms()}
                    after[n] = vals[0] if not local or all(self.sy.order[x] < 0 for x in local) else UNK
            elif n in ind and self.induct_ok(start[n], ind[n]):
                after[n] = self.induct_value(start[n], ind[n], trip, self.appended(n, ends, mark)) if trip is not None else self.forget(start[n])
            else:
                after[n] = invariant[n]
        return body, after, flows

    def bounded(self, n, keep):
        return self.sy.new(n, False, [c[1] for c in keep])

    def induct_ok(self, v, step):
        return (isinstance(v, Poly) and step != "append") or (isinstance(v, Arr) and v.lst and step == "append" and v.dims[0] is not None)

    def induct_value(self, v, step, k, elem=None):
        if step == "append":
            if v.items == () or v.dims[0] == Poly():
                base = ()
            else:
                base = v.elem
            if base is not None and elem is not None:
                elem = self.join_elems([base, elem])
                return Arr((v.dims[0] + k,), elem, None, self.new_id(), True, None, v.data)
            return Arr((v.dims[0] + k,), base if elem is None and self.inside else None, lst=True, data=v.data)
        return v + k * step

    def forget(self, v):
        if isinstance(v, Arr):
            return Arr([None] * len(v.dims), None, v.gen, None, v.lst, None, False)
        return DATA if v is DATA else UNK

    def widen(self, a, b, n, cand, start, pre):
        if a == b:
            return a
        if isinstance(a, Poly) and isinstance(b, Poly):
            s = start
            cs = [("ge0", lambda v: v), ("le1", lambda v: 1 - v)]
            if isinstance(s, Poly):
                cs += [("ge", lambda v, s=s: v - s), ("le", lambda v, s=s: s - v)]
            cs = [c for c in cs if self.pr.proves(pre.cons, c[1](s))]
            if not cs:
                return UNK
            cand[n] = {"c": cs}
            return self.bounded(n, cs)
        if (a is DATA or isinstance(a, Poly)) and b is DATA:
            return DATA
        if a is DATA and isinstance(b, Poly):
            return DATA
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.dims) == len(b.dims) and a.gen is b.gen:
            dims = [x if x == y else None for x, y in zip(a.dims, b.dims)]
            elem = a.elem if a.elem == b.elem else None
            return Arr(dims, elem, a.gen, a.ident if a.ident == b.ident else None, a.lst, a.items if a.items == b.items else None,
                       a.data and b.data and (a.elem == b.elem))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([x if x == y else (DATA if x is DATA and y is DATA else UNK) for x, y in zip(a.items, b.items)])
        return UNK

    def pass_(self, body, entry, invariant, ind, pre):
        flows, ends = [], []
        vals = dict(invariant)
        for st, k in entry({}):
            s = st.copy()
            for n, v in vals.items():
                if n in ind and self.induct_ok(pre.env.get(n), ind[n]):
                    kk = k if k is not None else self.sy.new("k", False, [lambda x: x])
                    self.inside = True
                    s.env[n] = self.induct_value(pre.env[n], ind[n], kk)
                    self.inside = False
                else:
                    s.env[n] = v
            # the loop target wins over an assigned name
            for n in st.env:
                if st.env[n] is not pre.env.get(n) and n not in vals:
                    s.env[n] = st.env[n]
            if self.has_exit(body):
                s.exact = s.exact and self.data_exit(body, s)
            for x, fl, v in self.block(body, [s]):
                if fl in ("normal", "continue"):
                    ends.append(x)
                else:
                    flows.append((x, fl, v))
        return flows, ends

    def has_exit(self, body):
        """A break of this loop, or a return."""
        def walk(stmts, top):
            for s in stmts:
                if isinstance(s, ast.Return) or (top and isinstance(s, ast.Break)):
                    return True
                inner = top and not isinstance(s, (ast.For, ast.While))
                for f in ("body", "orelse", "finalbody"):
                    if walk(getattr(s, f, []) or [], inner if f == "body" else top):
                        return True
            return False
        return walk(body, True)

    def data_exit(self, body, st):
        """Leaving early depends on elements that can be anything, so any iteration can be reached."""
        it = self.cur_it
        while it is not None and it.kind == "enum" and isinstance(it.args[0], Iter):
            it = it.args[0]
        return it is not None and it.kind in ("enum", "arr") and isinstance(it.args[0], GTup)

    def upper(self, p, st, mark, sign=1, depth=0):
        """A bound of p (upper for sign 1, lower for -1) over the symbols older than mark, or None."""
        if p is None or depth > 8:
            return None
        new = [s for s in p.syms() if self.sy.order[s] >= mark]
        if not new:
            return p
        s = max(new, key=lambda s: self.sy.order[s])
        c = p.t.get((s,), 0)
        if not c or any(s in m and len(m) > 1 for m in p.t):
            return None
        want = sign if c > 0 else -sign   # the side of s that is needed
        if s in self.sy.cases:
            bs = []
            for v, extra in self.sy.cases[s]:
                bs.append(self.upper(v, st, mark, want, depth + 1))
            if any(b is None for b in bs):
                return None
            b = self.sy.minmax("max" if want > 0 else "min", bs)
            if any(self.sy.order[x] >= mark and not all(self.sy.order[y] < mark for y in self.sy.inputs.get(x, {s})) for x in b.syms()):
                return None
            mark = max([mark] + [self.sy.order[x] + 1 for x in b.syms()])
            return self.upper(p.subst(s, b), st, mark, sign, depth + 1)
        for f in tuple(self.sy.facts.get(s, ())) + tuple(st.cons):
            k = f.t.get((s,), 0)
            if (k == -1 and want > 0 or k == 1 and want < 0) and not any(s in m and len(m) > 1 for m in f.t):
                rest = f - Poly({(s,): k})
                b = rest if k == -1 else -rest
                if s in b.syms():
                    continue
                r = self.upper(p.subst(s, b), st, mark, sign, depth + 1)
                if r is not None:
                    return r
        return None

    def appended(self, n, ends, mark):
        """The ranges of the elements appended to list n in one iteration, over older symbols."""
        out = []
        for e in ends:
            v = e.env.get(n)
            if not isinstance(v, Arr) or v.elem is None:
                return None
            for lo, hi, ex in v.elem:
                a = self.upper(lo, e, mark, -1) if lo is not None else None
                b = self.upper(hi, e, mark, 1) if hi is not None else None
                out.append(((a, b, False),))
        return self.join_elems(out)

    def s_While(self, s, st):
        names = self.assigned(s.body)
        ind = self.induction(s.body, st)
        exits = self.has_exit(s.body)

        def entry(values):
            base = st.copy()
            base.env.update(values)
            k = self.sy.new("k", only, [lambda k: k])
            for n, (c, first) in halved.items():
                v = self.sy.new(n, False, [lambda v: v, lambda v, first=first: first - v])
                base.env[n] = v
                base = base.add([first - v * self.sy.pow2(c, k)])
            return [(base, k)]

        only = all(n in ind for n in names if n in st.env)
        halved = self.halving(s, st)
        test = s.test
        machine = self
        outer = self.block

        def guarded(body):
            return [ast.copy_location(ast.If(test=test, body=body, orelse=[ast.copy_location(ast.Break(), s)]), s)]

        del machine, outer
        self.while_tests.add(test)
        st0 = st
        if not only:
            st0 = st.copy()
            st0.exact = False
        g = guarded(s.body)
        saved = self.has_exit
        self.has_exit = lambda body: saved(s.body)
        try:
            _, after, flows = self.loop(g, st0, [n for n in names if n not in halved], {k: v for k, v in ind.items()}, lambda v: [(x, k) for x, k in self._fix(entry(v), st0)],
                                        None, exits)
        finally:
            self.has_exit = saved
        end = st.copy()
        end.env.update(after)
        for n, (_, first) in halved.items():
            end.env[n] = self.sy.new(n, False, [lambda v: v, lambda v, first=first: first - v])
        for n in names:
            if n in ind and isinstance(st.env.get(n), Poly):
                end.env[n] = UNK
        end.exact = False
        outs = [(x, "return", v) for x, fl, v in flows if fl == "return"]
        outs.append((end, "normal", None))
        return outs

    def halving(self, s, st):
        """Variables that every iteration divides by a constant: name -> (divisor, value before the loop)."""
        out = {}
        if any(isinstance(n, ast.Continue) for b in s.body for n in ast.walk(b)):
            return out
        for b in s.body:
            by = None
            if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and isinstance(b.value, ast.Constant):
                name, op, by = b.target.id, b.op, b.value.value
            elif isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Name) and isinstance(b.value, ast.BinOp) and \
                    isinstance(b.value.left, ast.Name) and b.value.left.id == b.targets[0].id and isinstance(b.value.right, ast.Constant):
                name, op, by = b.targets[0].id, b.value.op, b.value.right.value
            if not isinstance(by, int):
                continue
            if isinstance(op, ast.RShift):
                by = 2 ** by
            elif not isinstance(op, ast.FloorDiv):
                continue
            stores = sum(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name for x in s.body for n in ast.walk(x))
            first = st.env.get(name)
            if by >= 2 and stores == 1 and isinstance(first, Poly) and self.pr.proves(st.cons, first):
                out[name] = (by, first)
        return out

    def _fix(self, pairs, st0):
        out = []
        for x, k in pairs:
            x = x.copy()
            x.exact = x.exact and st0.exact
            out.append((x, k))
        return out
