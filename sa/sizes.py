"""How many rows a returned collection of shots has, as a polynomial in the integer parameters, and whether a sentinel for
an abandoned shot can be among them.

Lists carry their length in ``tag``; arrays carry the number of rows.  A list filled in a loop gets its length from an
accounting of the loop body: every way through the body is enumerated with the number of elements it appends and the
amount it adds to the counter of the loop.  ``Deficit`` is a length that provably differs from the loop bound on some way
through the loop.
"""
import ast

from .interp import BOT, D, Dct, Domain, Ext, Fn, Interp, K, Lst, NONE, Slice, TOP, Tup, U, fr_in_loop
from .npk import canon
from .units import src


class Poly:
    """an integer polynomial in the parameters"""
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = frozenset((k, v) for k, v in dict(m).items() if v != 0)

    @staticmethod
    def const(n):
        return Poly({(): n})

    @staticmethod
    def var(x):
        return Poly({(x,): 1})

    def __add__(self, o):
        d = dict(self.m)
        for k, v in o.m:
            d[k] = d.get(k, 0) + v
        return Poly(d)

    def __neg__(self):
        return Poly({k: -v for k, v in self.m})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = {}
        for k, v in self.m:
            for l, w in o.m:
                key = tuple(sorted(k + l))
                d[key] = d.get(key, 0) + v * w
        return Poly(d)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        return hash(self.m)

    def __repr__(self):
        if not self.m:
            return "0"
        return " + ".join(("*".join(k) if v == 1 and k else str(v) if not k else f"{v}*" + "*".join(k)) for k, v in sorted(self.m)).replace("+ -", "- ")


FLOORV = {}


def floordiv(p, k):
    """p // k as a variable of its own"""
    if all(not x for x, _ in p.m):
        return Poly.const(sum(v for _, v in p.m) // k)
    n = f"({p})//{k}"
    FLOORV[n] = (p, k)
    return Poly.var(n)


def value(p, env):
    t = 0
    for vs, c in p.m:
        for x in vs:
            if x in FLOORV:
                q, k = FLOORV[x]
                q = value(q, env)
                if q is None:
                    return None
                c *= q // k
            elif x in env:
                c *= env[x]
            else:
                return None
        t += c
    return t


def same(p, q):
    """equal for every value tried of the variables (floor divisions make equal polynomials look different)"""
    if p == q:
        return True
    names = set()

    def vs(r):
        for m, _ in r.m:
            for x in m:
                if x in FLOORV:
                    vs(FLOORV[x][0])
                else:
                    names.add(x)

    vs(p)
    vs(q)
    if not any(x in FLOORV for r in (p, q) for m, _ in r.m for x in m):
        return False
    return all(value(p, {x: s + i for i, x in enumerate(sorted(names))}) == value(q, {x: s + i for i, x in enumerate(sorted(names))})
               for s in range(0, 40))


class Deficit:
    __slots__ = ("why", "where", "key")

    def __init__(self, key, why, where):
        self.key, self.why, self.where = key, why, where

    def __eq__(self, o):
        return isinstance(o, Deficit) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return f"Deficit({self.why})"


class Sz:
    __slots__ = ("lead", "val", "rows", "sent", "empty", "ix")

    def __init__(self, lead=None, val=None, rows=False, sent=frozenset(), empty=False, ix=None):
        self.lead, self.val, self.rows, self.sent, self.empty, self.ix = lead, val, rows, sent, empty, ix

    def __repr__(self):
        return f"Sz({self.lead},{self.val},{self.rows},{sorted(self.sent)},{self.empty})"

    def k(self):
        return (self.lead, self.val, self.rows, self.sent, self.empty, self.ix)

    def with_(self, **kw):
        d = dict(lead=self.lead, val=self.val, rows=self.rows, sent=self.sent, empty=self.empty, ix=self.ix)
        d.update(kw)
        return Sz(**d)


ANY = Sz()
SAMEROWS = {"asarray", "array", "ascontiguousarray", "copy", "where", "abs", "real", "imag", "conj", "poisson", "round", "rint", "maximum",
            "minimum", "clip", "astype", "square", "sqrt", "exp", "greater", "logical_not", "py.list", "tolist", "binomial", "sign", "int64"}


class SizeDomain(Domain):
    max_depth = 24
    unroll = 0

    def __init__(self):
        self.sentinels = set()

    def top(self):
        return ANY

    def key(self, p):
        return p.k()

    def const(self, v):
        if isinstance(v, int) and not isinstance(v, bool):
            return Sz(val=Poly.const(v))
        if isinstance(v, float) and v == int(v):
            return Sz(val=Poly.const(int(v)))
        return ANY

    def join(self, p, q):
        if p.k() == q.k():
            return p
        lead = p.lead if p.lead == q.lead else None
        for a, b in ((p, q), (q, p)):
            if isinstance(a.lead, Deficit):
                lead = a.lead
        if p.empty != q.empty and p.lead == q.lead:
            return Sz(lead, None, p.rows and q.rows, p.sent | q.sent, False)
        return Sz(lead, p.val if p.val == q.val else None, p.rows and q.rows, p.sent | q.sent, p.empty and q.empty,
                  p.ix if p.ix == q.ix else None)

    def lift_seq(self, ps):
        s = frozenset()
        for p in ps:
            s |= p.sent
        return Sz(sent=s)

    def index_value(self):
        return ANY

    def arrayish(self, p):
        return p.lead is not None

    def iter_elem(self, p):
        return D(Sz(sent=p.sent))

    def range_elem(self, a, n):
        lo, hi = (K(0), a[0]) if len(a) == 1 else a[:2] if len(a) == 2 else (None, None)
        if lo is None:
            return D(ANY)
        l, h = self.L(lo).val, self.L(hi).val
        return D(Sz(ix=(l, h) if l is not None and h is not None else None))

    def L(self, v):
        if isinstance(v, (D, K)):
            return self.it.lift(v)
        if isinstance(v, (Tup, Lst)):
            sent = frozenset()
            its = v.items if v.items is not None else [v.elem] if v.elem is not None and v.elem is not BOT else []
            rows = bool(its)
            for x in its:
                p = self.L(x)
                sent |= p.sent
            return Sz(lead=self.it.size(v), sent=sent)
        if isinstance(v, U):
            r = None
            for x in v.alts:
                if isinstance(x, K) and x.v is None:
                    continue
                p = self.L(x)
                r = p if r is None else self.join(r, p)
            return r or ANY
        return ANY

    # operations
    def binop(self, op, a, b, node):
        p, q = self.L(a), self.L(b)
        val = None
        if p.val is not None and q.val is not None and op in ("Add", "Sub", "Mult"):
            val = p.val + q.val if op == "Add" else p.val - q.val if op == "Sub" else p.val * q.val
        if p.val is not None and op in ("FloorDiv", "Mod") and isinstance(b, K) and isinstance(b.v, int) and b.v > 0:
            f = floordiv(p.val, b.v)
            val = f if op == "FloorDiv" else p.val - Poly.const(b.v) * f
        lead, rows = (p.lead, p.rows) if p.lead is not None else (q.lead, q.rows)
        if p.lead is not None and q.lead is not None and p.lead != q.lead:
            lead = None
        if op == "MatMult":
            lead, rows = p.lead, p.rows
        return D(Sz(lead, val, rows, p.sent | q.sent))

    def unop(self, op, a, node):
        p = self.L(a)
        return D(Sz(p.lead, -p.val if op == "USub" and p.val is not None else None, p.rows, p.sent))

    def compare(self, op, a, b, node):
        p, q = self.L(a), self.L(b)
        return D(Sz(p.lead if p.lead is not None else q.lead, None, p.rows or q.rows))

    def attr(self, v, name, node):
        p = self.L(v)
        if name in ("real", "imag"):
            return D(p)
        if name == "shape":
            return D(Sz(val=None, ix=None, lead=None))
        return D(ANY)

    def getitem(self, v, idx, node):
        p = self.L(v)
        its = idx.items if isinstance(idx, Tup) else [idx]
        if its and isinstance(its[0], Slice) and all(isinstance(x, K) and x.v is None for x in (its[0].lo, its[0].hi, its[0].step)):
            return D(Sz(p.lead, None, p.rows and len(its) == 1 or p.rows, p.sent))
        if its and isinstance(its[0], Slice):
            return D(Sz(None, None, p.rows, p.sent))
        return D(Sz(sent=p.sent))

    def setitem(self, v, idx, val, node, aug=False):
        p = self.L(v)
        q = self.L(val)
        if p.empty and not aug and p.lead is not None:
            i = idx.items[0] if isinstance(idx, Tup) and idx.items else idx
            x = self.L(i) if isinstance(i, D) else ANY
            if x.ix is not None:
                if x.ix == (Poly.const(0), p.lead):
                    return D(p.with_(empty=False, sent=p.sent | q.sent))
                f = self.it.cur
                return D(p.with_(empty=False, lead=Deficit(f"fill:{f.full}", f"the rows {x.ix[0]} to {x.ix[1]} of an uninitialised array of "
                                                            f"{p.lead} rows are filled", self.it.where(node))))
            return D(p.with_(lead=None, empty=False, sent=p.sent | q.sent))
        return D(p.with_(sent=p.sent | q.sent))

    def size_arg(self, v):
        if isinstance(v, (Tup, Lst)) and v.items:
            return self.L(v.items[0]).val, True
        if isinstance(v, (D, K)):
            return self.L(v).val, False
        return None, False

    def ext(self, c, args, kw, node):
        ps = [self.L(a) for a in args]
        sent = frozenset()
        for p in ps:
            sent |= p.sent
        if c in ("vstack", "row_stack", "concatenate") and args:
            e = self.it.elem(args[0]) if isinstance(args[0], (Lst, Tup)) else None
            n = self.it.size(args[0])
            if e is None or e is BOT or n is None:
                if isinstance(n, Poly) and e is BOT:
                    return D(Sz(n, None, True, sent))
                return D(Sz(sent=sent))
            if isinstance(n, Deficit):
                return D(Sz(n, None, True, sent))
            if c == "concatenate" and "axis" in kw and not (isinstance(kw["axis"], K) and kw["axis"].v == 0):
                return D(Sz(sent=sent))
            q = self.L(e)
            if q.rows:
                if isinstance(q.lead, Deficit):
                    return D(Sz(q.lead, None, True, sent))
                return D(Sz(n * q.lead if isinstance(q.lead, Poly) else None, None, True, sent))
            if c == "concatenate":
                return D(Sz(sent=sent))
            return D(Sz(n, None, True, sent))
        if c in ("array", "asarray", "stack") and args and isinstance(args[0], (Lst, Tup)):
            return D(Sz(self.it.size(args[0]), None, True, sent))
        if c in ("empty", "zeros", "ones", "full") and args:
            n, t = self.size_arg(args[0])
            return D(Sz(n, None, t, empty=c == "empty"))
        if c == "random.multivariate_normal":
            s = args[2] if len(args) > 2 else kw.get("size")
            n, _ = self.size_arg(s) if s is not None else (None, False)
            return D(Sz(n, None, True))
        if c == "where" and len(args) == 3:
            return D(Sz(ps[0].lead, None, ps[0].rows, sent))
        if c in ("py.int", "int64", "py.float"):
            return D(Sz(val=ps[0].val, sent=sent)) if ps else D(ANY)
        if c == "py.len" and args:
            n = self.it.size(args[0])
            return D(Sz(val=n if isinstance(n, Poly) else None))
        b = c.split(".")[-1] if c.startswith("random.") else c
        if b in SAMEROWS and ps:
            return D(Sz(ps[0].lead, None, ps[0].rows, sent))
        return D(Sz(sent=sent))

    def higher(self, name, args, kw, node):
        fs = [a for a in args if isinstance(a, Fn)]
        if fs and name in ("map", "imap"):
            rest = [a for a in args if a is not fs[0]]
            r = self.it.call_fn(fs[0], list(fs[0].pre_args) + [self.it.elem(a) for a in rest], dict(fs[0].pre_kw), node)
            return Lst(None, r, "gen", tag=self.it.size(rest[0]) if rest else None)
        return None

    def method(self, v, name, args, kw, node):
        h = self.higher(name, args, kw, node)
        return h if h is not None else self.ext(name, [v] + list(args), kw, node)

    def call_unknown(self, f, args, kw, node):
        h = self.higher(getattr(f, "name", "") or "", args, kw, node)
        return h if h is not None else D(ANY)

    def call_ext(self, name, args, kw, node):
        return self.ext(canon(name), args, kw, node)

    # abandoned shots
    def leave(self, info, bound, ret, node):
        if isinstance(info.node, ast.Lambda) or not self.it.frames:
            return ret
        fr = self.it.frames[-1]
        vals = [v for v, _ in fr.returns]
        sents = [v for v in vals if isinstance(v, K) and not isinstance(v.v, (str, bool)) or isinstance(v, K) and v.v is False]
        others = [v for v in vals if not isinstance(v, K)]
        shots = [v for v in others if isinstance(v, (Lst, Tup)) or isinstance(v, D)]
        if sents and shots and len(shots) == len(others) and info.module.name.endswith("samples"):
            r = frozenset((repr(s.v), info.full) for s in sents)
            self.sentinels |= r
            return D(Sz(sent=r))
        return ret


class SizeInterp(Interp):
    def vkey(self, v):
        if isinstance(v, Lst):
            return super().vkey(v) + (v.tag,)
        return super().vkey(v)

    def size(self, v):
        """number of elements of a sequence: a Poly, a Deficit or None"""
        if isinstance(v, Tup):
            return Poly.const(len(v.items))
        if isinstance(v, Lst):
            if v.items is not None:
                return Poly.const(len(v.items)) if v.kind != "set" else None
            return v.tag
        if isinstance(v, D):
            return v.p.lead
        if isinstance(v, U):
            ss = {self.size(x) for x in v.alts}
            return ss.pop() if len(ss) == 1 else None
        return None

    def join_tag(self, a, b, r):
        x, y = self.size(a), self.size(b)
        r.tag = x if x == y else x if isinstance(x, Deficit) else y if isinstance(y, Deficit) else None
        return r

    def _join1(self, a, b):
        r = super()._join1(a, b)
        if isinstance(r, Lst) and r.items is None and isinstance(a, (Lst, Tup)) and isinstance(b, (Lst, Tup)):
            return self.join_tag(a, b, r)
        return r

    def binop(self, op, a, b, n):
        r = super().binop(op, a, b, n)
        if isinstance(r, Lst) and r.items is None:
            if op == "Mult":
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, (Lst, Tup)):
                        s = self.size(x)
                        m = self.dom.L(y).val if isinstance(y, (D, K)) else None
                        r.tag = s * m if isinstance(s, Poly) and m is not None else s if isinstance(s, Deficit) else None
                        break
            elif op == "Add":
                s, m = self.size(a), self.size(b)
                r.tag = s + m if isinstance(s, Poly) and isinstance(m, Poly) else None
        return r

    def st_AugAssign(self, st, env, fr):
        old = cur = None
        if isinstance(st.target, ast.Name) and isinstance(st.op, ast.Add):
            cur = self.lookup(st.target.id, env, fr)
            if isinstance(cur, Lst) and cur.kind == "list":
                old, m = self.size(cur), self.size(self.ev(st.value, env, fr))
        env = super().st_AugAssign(st, env, fr)
        if old is not None or isinstance(cur, Lst):
            new = self.lookup(st.target.id, env, fr)
            if isinstance(new, Lst) and new.items is None and cur.kind == "list":
                new.tag = None
                if not fr_in_loop(self):
                    new.tag = old + m if isinstance(old, Poly) and isinstance(m, Poly) else next(
                        (x for x in (old, m) if isinstance(x, Deficit)), None)
        return env

    def bi_range(self, a, kw, n, env, fr):
        r = super().bi_range(a, kw, n, env, fr)
        if r.items is None:
            v = [self.dom.L(x).val for x in a]
            if len(v) == 1:
                r.tag = v[0]
            elif len(v) == 2 and None not in v:
                r.tag = v[1] - v[0]
        return r

    def _to_seq(self, v, kind, n):
        r = super()._to_seq(v, kind, n)
        if isinstance(r, Lst) and r.items is None:
            r.tag = self.size(v)
        return r

    def bi_sorted(self, a, kw, n, env, fr):
        r = super().bi_sorted(a, kw, n, env, fr)
        r.tag = self.size(a[0])
        return r

    def bi_reversed(self, a, kw, n, env, fr):
        r = super().bi_reversed(a, kw, n, env, fr)
        if isinstance(r, Lst) and r.items is None:
            r.tag = self.size(a[0])
        return r

    def bi_enumerate(self, a, kw, n, env, fr):
        r = super().bi_enumerate(a, kw, n, env, fr)
        if isinstance(r, Lst) and r.items is None:
            r.tag = self.size(a[0])
        return r

    def bi_map(self, a, kw, n, env, fr):
        r = super().bi_map(a, kw, n, env, fr)
        if isinstance(r, Lst) and r.items is None and len(a) == 2:
            r.tag = self.size(a[1])
        return r

    def bi_len(self, a, kw, n, env, fr):
        r = super().bi_len(a, kw, n, env, fr)
        if r is not None:
            return r
        s = self.size(a[0])
        return D(Sz(val=s if isinstance(s, Poly) else None))

    def _comp(self, n, env, fr, elt):
        items, e = super()._comp(n, env, fr, elt)
        if items is None:
            self.comp_tag = None
            tot = Poly.const(1)
            en = dict(env)
            for g in n.generators:
                s = self.size(self.ev(g.iter, en, fr))
                if g.ifs and isinstance(s, Poly):
                    f = fr.info
                    s = Deficit(f"filter:{f.full}", f"elements are dropped by the condition `{src(g.ifs[0])}`", self.where(n))
                if isinstance(s, Deficit):
                    tot = s
                    break
                tot = tot * s if isinstance(s, Poly) else None
                if tot is None:
                    break
                self.assign(g.target, self.elem(self.ev(g.iter, en, fr)), en, fr, n)
            self.comp_tag = tot
        return items, e

    def ev_ListComp(self, n, env, fr):
        r = super().ev_ListComp(n, env, fr)
        if r.items is None:
            r.tag = self.comp_tag
        return r

    def ev_GeneratorExp(self, n, env, fr):
        r = super().ev_GeneratorExp(n, env, fr)
        if r.items is None:
            r.tag = self.comp_tag
        return r

    def list_method(self, lst, name, args, kw, n):
        old = self.size(lst)
        r = super().list_method(lst, name, args, kw, n)
        inl = fr_in_loop(self)
        if name in ("append", "insert"):
            lst.tag = old + Poly.const(1) if isinstance(old, Poly) and not inl else None
        elif name in ("extend", "pop", "clear", "remove", "add", "update"):
            lst.tag = None
            if name == "extend" and not inl and isinstance(old, Poly) and args:
                m = self.size(args[0])
                lst.tag = old + m if isinstance(m, Poly) else m if isinstance(m, Deficit) else None
        elif name in ("sort", "reverse"):
            lst.tag = old
        elif name == "copy" and isinstance(r, Lst):
            r.tag = old
        return r

    def ev_Call(self, n, env, fr):
        r = super().ev_Call(n, env, fr)
        if isinstance(r, Lst) and r.items is None and r.tag is None and len(n.args) == 1 and isinstance(n.args[0], ast.Starred) \
                and isinstance(n.args[0].value, ast.Name):
            r.tag = self.size(self.ev(n.args[0].value, env, fr))
        return r

    # refinement by tests on a shot
    def assume(self, test, env, fr, truth):
        if env is None:
            return None
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, env, fr, not truth)
        if isinstance(test, ast.BoolOp):
            return super().assume(test, env, fr, truth)
        names = {}
        for x in ast.walk(test):
            if isinstance(x, ast.Name) and isinstance(env.get(x.id), D) and env[x.id].p.sent:
                names[x.id] = env[x.id]
        if not names:
            return super().assume(test, env, fr, truth)
        env = dict(env)
        for nm, v in names.items():
            keep = frozenset(s for s in v.p.sent if self.sat(test, nm, s[0], truth))
            env[nm] = D(v.p.with_(sent=keep))
        return env

    @staticmethod
    def sat(test, nm, val, truth):
        """may the test have this outcome when the variable is the sentinel"""
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, r = test.left, test.comparators[0]
            l = l.target if isinstance(l, ast.NamedExpr) else l
            r = r.target if isinstance(r, ast.NamedExpr) else r
            for a, b in ((l, r), (r, l)):
                if isinstance(a, ast.Name) and a.id == nm:
                    try:
                        c = ast.literal_eval(b)
                    except (ValueError, SyntaxError):
                        return False
                    s = ast.literal_eval(val)
                    op = test.ops[0]
                    if isinstance(op, (ast.Eq, ast.Is)):
                        return (s == c) == truth
                    if isinstance(op, (ast.NotEq, ast.IsNot)):
                        return (s != c) == truth
        if isinstance(test, ast.Name):
            return bool(ast.literal_eval(val)) == truth
        return False

    # loops
    def loop(self, st, env, fr, bind, test, nonempty):
        before = {k: self.size(v) for k, v in env.items() if isinstance(v, Lst)}
        vals = {k: self.dom.L(v).val for k, v in env.items() if isinstance(v, (D, K))}
        ex = super().loop(st, env, fr, bind, test, nonempty)
        if ex is None:
            return ex
        for name, l0 in before.items():
            v = ex.get(name)
            if not isinstance(v, Lst) or v.items is not None or not self.touches(st.body, name):
                continue
            v.tag = self.account(st, name, l0, vals, ex, fr)
        return ex

    def touches(self, body, name):
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) \
                        and x.func.value.id == name and x.func.attr in ("append", "extend", "insert", "pop", "remove", "clear"):
                    return True
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name:
                    return True
        return False

    def account(self, st, name, l0, vals, env, fr):
        f = fr.info
        if not isinstance(l0, Poly) and not isinstance(st, ast.While):
            return l0 if isinstance(l0, Deficit) else None
        if isinstance(st, (ast.For, ast.AsyncFor)):
            n = self.size(self.ev(st.iter, dict(env), fr))
            ps = paths(st.body, name, None)
            if ps is None:
                return None
            if any(t in ("break", "return") for _, _, t in ps):
                return None
            das = {a for a, _, t in ps}
            if isinstance(n, Deficit):
                return n
            if n is None:
                return None
            if len(das) == 1:
                return l0 + n * Poly.const(das.pop())
            return Deficit(f"loop:{f.full}", f"one pass of the loop over `{src(st.iter)}` adds {min(das)} or {max(das)} elements to {name}",
                           f.loc(st))
        t = st.test
        if not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        l, op, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            # n > j
            l, r = r, l
            op = ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
        if not isinstance(op, (ast.Lt, ast.LtE, ast.NotEq)):
            return None
        extra = Poly.const(1 if isinstance(op, ast.LtE) else 0)

        def islen(x):
            return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" and len(x.args) == 1 \
                and isinstance(x.args[0], ast.Name) and x.args[0].id == name

        def value(x):
            v = self.ev(x, dict(env), fr)
            return self.dom.L(v).val if isinstance(v, (D, K)) else None

        if islen(l):
            ps = paths(st.body, name, None)
            n = value(r)
            if ps is None or n is None or any(t in ("break", "return") for _, _, t in ps) or any(a not in (0, 1) for a, _, _ in ps):
                return None
            return n + extra
        if not isinstance(l0, Poly):
            return l0 if isinstance(l0, Deficit) else None
        for cnt, other, down in ((l, r, False), (r, l, True)):
            if not isinstance(cnt, ast.Name) or down and isinstance(op, ast.NotEq) and not isinstance(cnt, ast.Name):
                continue
            j0 = vals.get(cnt.id)
            if j0 is None:
                continue
            ps = paths(st.body, name, cnt.id)
            if ps is None:
                return None
            if not any(d for _, d, _ in ps):
                continue
            n = value(other)
            if n is None or any(t in ("break", "return") for _, _, t in ps):
                return None
            sign = -1 if down else 1
            if isinstance(op, ast.NotEq):
                sign = 1 if all(d >= 0 for _, d, _ in ps) else -1
            bad = [(a, d) for a, d, _ in ps if a != sign * d]
            if any(abs(d) > 1 for _, d, _ in ps):
                return None
            if bad:
                a, d = bad[0]
                return Deficit(f"loop:{f.full}", f"a pass through the loop `while {src(t)}` counts {abs(d)} but adds {a} elements to {name}",
                               f.loc(st))
            return l0 + extra + (n - j0 if sign == 1 else j0 - n)
        return None


def paths(body, name, counter, cap=64):
    """(elements appended, change of the counter, how the pass ends) for every way through the statements; None if unknown"""
    class Unknown(Exception):
        pass

    def mentions(node, skip_append=True):
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and x.id in (name, counter) and isinstance(x.ctx, (ast.Store, ast.Del)):
                return True
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == name:
                    return True
                if not (isinstance(x.func, ast.Name) and x.func.id == "len") and \
                        any(isinstance(a, ast.Name) and a.id == name for a in x.args):
                    return True
        return False

    def const(x):
        try:
            v = ast.literal_eval(x)
        except (ValueError, SyntaxError):
            return None
        return v if isinstance(v, int) else None

    def stmt(s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == name:
            if s.value.func.attr == "append":
                return [(1, 0, "next")]
            raise Unknown
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in (name, counter):
            if s.target.id == counter:
                k = const(s.value)
                if k is None or not isinstance(s.op, (ast.Add, ast.Sub)):
                    raise Unknown
                return [(0, k if isinstance(s.op, ast.Add) else -k, "next")]
            if isinstance(s.op, ast.Add) and isinstance(s.value, ast.List):
                return [(len(s.value.elts), 0, "next")]
            raise Unknown
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == counter \
                and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, (ast.Add, ast.Sub)):
            a, b = s.value.left, s.value.right
            if isinstance(a, ast.Name) and a.id == counter and const(b) is not None:
                return [(0, const(b) if isinstance(s.value.op, ast.Add) else -const(b), "next")]
            if isinstance(b, ast.Name) and b.id == counter and const(a) is not None and isinstance(s.value.op, ast.Add):
                return [(0, const(a), "next")]
            raise Unknown
        if isinstance(s, ast.If):
            if mentions(s.test):
                raise Unknown
            return seq(s.body) + seq(s.orelse)
        if isinstance(s, (ast.For, ast.While, ast.Try, ast.With, ast.AsyncFor, ast.Match)):
            if mentions(s):
                raise Unknown
            if isinstance(s, (ast.With, ast.Try, ast.Match)):
                for x in ast.walk(s):
                    if isinstance(x, (ast.Continue, ast.Break, ast.Return)):
                        raise Unknown
            elif any(isinstance(x, ast.Return) for x in ast.walk(s)):
                raise Unknown
            return [(0, 0, "next")]
        if isinstance(s, ast.Continue):
            return [(0, 0, "continue")]
        if isinstance(s, ast.Break):
            return [(0, 0, "break")]
        if isinstance(s, ast.Return):
            return [(0, 0, "return")]
        if isinstance(s, ast.Raise):
            return []
        if mentions(s):
            raise Unknown
        return [(0, 0, "next")]

    def seq(stmts):
        cur = [(0, 0, "next")]
        for s in stmts:
            nxt = [p for p in cur if p[2] != "next"]
            live = [p for p in cur if p[2] == "next"]
            if live:
                for a, d, t in stmt(s):
                    for p in live:
                        nxt.append((p[0] + a, p[1] + d, t))
            cur = list(dict.fromkeys(nxt))
            if len(cur) > cap:
                raise Unknown
        return cur

    try:
        return seq(body)
    except Unknown:
        return None
