"""Path-sensitive abstract interpretation over classes of arguments.

A function is walked once per way of deciding the tests its source leaves open.  The arguments are abstract: arrays are
known by the polynomials that are their dimensions and by facts (a NaN somewhere, not symmetric, complex Hermitian, a
negative entry, an unphysical covariance matrix, ...), integers by polynomials, numbers by intervals.  ``solve`` then asks
whether the function can hand back a result for that class of arguments:

* a path that raises is good, a path that returns is bad;
* a test that does not depend on the invalid argument can go either way (the caller chooses the other arguments), so one
  bad outcome is enough;
* a test that does depend on it, but that the facts do not decide, is taken to go whichever way raises, as is any
  operation on it the analysis knows nothing about.

Nothing of the repository is run.
"""
import ast
import itertools
import math

from .loader import FuncInfo
from .sizes import Poly

INF = float("inf")


def P(x):
    return x if isinstance(x, Poly) else Poly.const(x)


def pconst(p):
    """the integer a polynomial is, or None"""
    if p is None:
        return None
    if all(not k for k, _ in p.m):
        return sum(v for _, v in p.m)
    return None


def sign(p):
    """'+', '-', '0', '>=', '<=' or None; every variable is at least 0"""
    c = pconst(p)
    if c is not None:
        return "+" if c > 0 else "-" if c < 0 else "0"
    pos = [v for k, v in p.m if k]
    c0 = sum(v for k, v in p.m if not k)
    if all(v > 0 for v in pos):
        return "+" if c0 > 0 else ">=" if c0 == 0 else None
    if all(v < 0 for v in pos):
        return "-" if c0 < 0 else "<=" if c0 == 0 else None
    return None


def pdiv(p, k):
    """p // k, or None"""
    c = pconst(p)
    if c is not None:
        return Poly.const(c // k)
    if all(v % k == 0 for x, v in p.m if x):
        c0 = sum(v for x, v in p.m if not x)
        return Poly({**{x: v // k for x, v in p.m if x}, (): c0 // k})
    return None


def pmod(p, k):
    c = pconst(p)
    if c is not None:
        return c % k
    if all(v % k == 0 for x, v in p.m if x):
        return sum(v for x, v in p.m if not x) % k
    return None


# ---------------------------------------------------------------------------
# values
# ---------------------------------------------------------------------------
class Val:
    t = False
    term = None


class C(Val):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    @property
    def term(self):
        return ("c", repr(self.v))

    def __repr__(self):
        return f"C({self.v!r})"


NONE, TRUE, FALSE = C(None), C(True), C(False)


class Num(Val):
    """a number: integer polynomial or interval; kind i, f, c or b"""

    def __init__(self, kind, p=None, lo=-INF, hi=INF, fx=(), t=False, term=None, np_=False, frac=False):
        self.kind, self.p, self.lo, self.hi, self.fx, self.t, self.term = kind, p, lo, hi, frozenset(fx), t, term
        self.np_ = np_
        self.frac = frac  # certainly not an integer
        if p is not None:
            c = pconst(p)
            if c is not None:
                self.lo = self.hi = c
            else:
                s = [v for k, v in p.m if k]
                c0 = sum(v for k, v in p.m if not k)
                if all(v > 0 for v in s):
                    self.lo = c0
                elif all(v < 0 for v in s):
                    self.hi = c0
            if term is None:
                self.term = ("p", repr(p))

    def __repr__(self):
        return f"Num({self.kind},{self.p},{self.lo},{self.hi},{sorted(self.fx)},{'T' if self.t else ''})"


_uid = itertools.count()


class Base:
    """the array an expression derives from"""

    def __init__(self, name, sym=None, cplx=None, states=(), offdiag=True):
        self.name, self.sym, self.cplx, self.states, self.offdiag = name, sym, cplx, frozenset(states), offdiag


class Arr(Val):
    def __init__(self, dims=None, dt=None, fx=(), base=None, tr=False, cj=False, part="full", t=False, term=None,
                 items=None, ba=None, ops=(), uid=None):
        self.dims = tuple(dims) if dims is not None else None
        self.dt, self.fx, self.base, self.tr, self.cj, self.part = dt, frozenset(fx), base, tr, cj, part
        self.t, self.term, self.items, self.ba, self.ops = t, term, items, ba, ops

        self.uid = uid if uid is not None else next(_uid)

    def but(self, **kw):
        d = dict(dims=self.dims, dt=self.dt, fx=self.fx, base=self.base, tr=self.tr, cj=self.cj, part=self.part, t=self.t,
                 term=self.term, items=self.items, ba=self.ba, ops=self.ops, uid=self.uid)
        d.update(kw)
        return Arr(**d)

    def __repr__(self):
        return f"Arr({self.dims},{self.dt},{sorted(self.fx)},{self.base and self.base.name},{self.part}{'T' if self.tr else ''}{'*' if self.cj else ''},{'taint' if self.t else ''},{self.items},{self.ba})"


class Seq(Val):
    def __init__(self, items=None, elem=None, n=None, kind="list", t=False):
        self.items = list(items) if items is not None else None
        self.elem = elem
        self.n = P(len(self.items)) if items is not None else n
        self.kind, self.t = kind, t

    def __repr__(self):
        return f"Seq<{self.kind}>({self.items if self.items is not None else (self.n, self.elem)})"


class Dct(Val):
    def __init__(self, items, t=False):
        self.items, self.t = items, t


class Fun(Val):
    def __init__(self, info, env=None, pre=(), prekw=None):
        self.info, self.env, self.pre, self.prekw = info, env, tuple(pre), dict(prekw or {})


class Lib(Val):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Lib({self.name})"


class ModV(Val):
    def __init__(self, name):
        self.name = name


class Meth(Val):
    def __init__(self, obj, name):
        self.obj, self.name, self.t = obj, name, obj.t


class Del(Val):
    """dask.delayed(f)"""

    def __init__(self, f):
        self.f, self.t = f, f.t


class Unk(Val):
    def __init__(self, t=False, term=None):
        self.t, self.term = t, term

    def __repr__(self):
        return f"Unk({'T' if self.t else ''},{self.term})"


class Slc(Val):
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st
        self.t = any(x.t for x in (lo, hi, st))


def taint(*vs):
    for v in vs:
        if isinstance(v, (list, tuple)):
            if taint(*v):
                return True
        elif isinstance(v, dict):
            if taint(*v.values()):
                return True
        elif isinstance(v, Seq):
            if v.t or (v.items is not None and taint(*v.items)) or (v.elem is not None and taint(v.elem)):
                return True
        elif isinstance(v, Dct):
            if v.t or v.items and taint(*v.items.values()):
                return True
        elif isinstance(v, Val) and v.t:
            return True
    return False


# ---------------------------------------------------------------------------
# control
# ---------------------------------------------------------------------------
class Raised(Exception):
    def __init__(self, name, where):
        self.name, self.where = name, where


class May(Exception):
    """an operation on the invalid argument that may raise, outside every try"""


class Need(Exception):
    def __init__(self, key, mode, where):
        self.key, self.mode, self.where = key, mode, where


class Give(Exception):
    """no answer"""


class Ret(Exception):
    def __init__(self, v, node, where):
        self.v, self.node, self.where = v, node, where


class Brk(Exception):
    pass


class Cont(Exception):
    pass


BUILTIN_EXC = {"ValueError", "TypeError", "AssertionError", "NotImplementedError", "IndexError", "KeyError", "RuntimeError",
               "AttributeError", "ZeroDivisionError", "LookupError", "ArithmeticError", "OverflowError", "StopIteration"}
PARENT = {"IndexError": "LookupError", "KeyError": "LookupError", "ZeroDivisionError": "ArithmeticError",
          "OverflowError": "ArithmeticError", "NotImplementedError": "RuntimeError", "LinAlgError": "ValueError"}
BUILTINS = {"len", "isinstance", "sum", "any", "all", "min", "max", "range", "list", "tuple", "set", "sorted", "zip", "enumerate",
            "int", "float", "complex", "bool", "abs", "map", "filter", "hasattr", "getattr", "type", "divmod", "reversed", "round",
            "print", "str", "repr", "iter", "next", "dict", "frozenset", "slice", "pow", "callable", "issubclass", "id"} | BUILTIN_EXC | {"Exception"}


def bool_(v, t=False, term=None):
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    return Num("b", lo=0, hi=1, t=t, term=term)


class Evaluator:
    MAX_STEPS = 60_000
    MAX_DEPTH = 9

    def __init__(self, prog, summaries=None):
        self.prog = prog
        self.summaries = summaries or {}
        self._raises = {}
        self.globals = {}
        self.functions = set()
        self.predicate = False
        self.state_kind = self.nan_kind = False
        self.kind = None  # 'content' (the entries are wrong), 'shape' (only the sizes are), or None

    # -- game ----------------------------------------------------------------
    def solve(self, info, make_args, max_runs=250):
        """('reject' | 'return' | 'unknown', where, decisions); ``make_args`` builds fresh arguments"""
        self.runs = 0
        self.max_runs = max_runs
        try:
            return self._solve(info, make_args, {}, 0)
        except Give as e:
            return ("unknown", str(e), {})
        except RecursionError:
            return ("unknown", "recursion", {})

    def _solve(self, info, make_args, dec, depth):
        self.runs += 1
        if self.runs > self.max_runs or depth > 40:
            raise Give("too many cases")
        self.dec = dec
        self.counts = {}
        self.steps = 0
        self.stack = []
        self.try_depth = 0
        self.root = info
        try:
            v = self.call_info(info, [], make_args(), None)
            if self.predicate:
                # what a predicate must not do is answer True
                b = self.tri(v)
                if b is None:
                    b = self.decide(v, info.node)
                if not b:
                    return ("reject", f"False at {self.last_return}", dict(dec))
            return ("return", (self.last_return, v), dict(dec))
        except Raised as e:
            return ("reject", f"{e.name} at {e.where}", dict(dec))
        except May as e:
            return ("reject?", f"may raise at {e}", dict(dec))
        except Need as e:
            key, mode, where = e.key, e.mode, e.where
        first = None
        for b in (True, False):
            r = self._solve(info, make_args, {**dec, key: (b, where)}, depth + 1)
            if mode == "or" and r[0] == "return":
                return r
            if mode == "and" and r[0] != "return":
                return r if r[0] == "unknown" else ("reject?", r[1], r[2])
            first = first or r
            if r[0] == "reject?":
                first = r
        return first

    # -- decisions -------------------------------------------------------------
    def where(self, node):
        return self.stack[-1].loc(node) if self.stack else "?"

    def decide(self, v, node, term=None):
        t = taint(v)
        neg = False
        term = term if term is not None else v.term
        if term is not None:
            while term[0] == "not":
                neg, term = not neg, term[1]
        if term is None:
            k0 = (self.where(node), getattr(node, "col_offset", 0))
            n = self.counts[k0] = self.counts.get(k0, 0) + 1
            # some outcome of the test that leads to a return is all that is needed: repeated tests may as well agree
            key = k0 + (n if t else min(n, 2),)
        else:
            key = ("t", term)
        if key in self.dec:
            return self.dec[key][0] != neg
        if t and term is not None and term[0] == "cmp" and {term[2][0], term[3][0]} == {"par", "c"}:
            t = False  # every value in the range of the parameter is wrong: the caller picks one
        raise Need(key, "and" if t else "or", self.where(node))

    def narrowed(self, x):
        """the range of a parameter after the comparisons decided so far"""
        lo, hi = x.lo, x.hi
        for key, (b, _w) in self.dec.items():
            if key[0] != "t" or key[1][0] != "cmp":
                continue
            _, op, ta, tb = key[1]
            if ta == x.term and tb[0] == "c":
                c, flip = tb[1], False
            elif tb == x.term and ta[0] == "c":
                c, flip = ta[1], True
            else:
                continue
            try:
                c = float(c)
            except ValueError:
                continue
            if op == "Lt":
                if b != flip:  # x < c, or not c < x
                    hi = min(hi, c)
                else:
                    lo = max(lo, c)
            elif op == "Eq" and b:
                lo, hi = max(lo, c), min(hi, c)
        return lo, hi

    def may_raise(self, node, library=False):
        """an operation on the invalid argument that the analysis knows nothing about"""
        if library and (self.state_kind or self.kind == "content" and not self.nan_kind):
            return  # finite entries of the right shapes: numerical routines do not mind them being unphysical, asymmetric, ...
        if self.try_depth == 0:
            raise May(self.where(node))
        if self.decide(Unk(True), node):
            raise Raised("?", self.where(node))

    def tri(self, v):
        if isinstance(v, C):
            return bool(v.v)
        if isinstance(v, Num):
            if "nan" in v.fx:
                return True
            if v.p is not None:
                s = sign(v.p)
                if s in ("+", "-"):
                    return True
                if s == "0":
                    return False
                return None
            if v.lo > 0 or v.hi < 0:
                return True
            if v.lo == v.hi == 0:
                return False
            return None
        if isinstance(v, Seq):
            s = sign(v.n) if v.n is not None else None
            return True if s == "+" else False if s == "0" else None
        if isinstance(v, Dct):
            return bool(v.items) if v.items is not None else None
        if isinstance(v, Arr):
            if v.ba and v.dims == ():
                return v.ba[0]
            if v.dims is not None and v.dims and all(pconst(d) == 1 for d in v.dims):
                if v.items is not None and len(v.items) == 1:
                    return self.tri(v.items[0])
                if v.ba:
                    return v.ba[0]
            return None
        if isinstance(v, (Fun, Lib, ModV, Meth)):
            return True
        return None

    def truth(self, v, node):
        if isinstance(v, Arr) and v.dims is not None and v.dims and all(sign(d - P(1)) == "+" for d in v.dims):
            raise Raised("ValueError", self.where(node))
        b = self.tri(v)
        return self.decide(v, node) if b is None else b

    # -- calls -------------------------------------------------------------------
    def may_contain_raise(self, info, seen=None):
        """a raise or an assert somewhere below the function"""
        if info.full in self._raises:
            return self._raises[info.full]
        seen = seen if seen is not None else set()
        if info.full in seen:
            return False
        seen.add(info.full)
        r = False
        for n in ast.walk(info.node):
            if isinstance(n, (ast.Raise, ast.Assert)):
                r = True
                break
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                g = None
                if isinstance(n.func, ast.Name):
                    g = self.prog.resolve(info.module, n.func.id)
                if g and g[0] == "func" and self.may_contain_raise(g[1], seen):
                    r = True
                    break
        self._raises[info.full] = r
        return r

    def call(self, f, args, kw, node, env=None):
        if isinstance(f, Del):
            return self.call(f.f, args, kw, node)
        if isinstance(f, Fun):
            return self.call_info(f.info, list(f.pre) + list(args), {**f.prekw, **kw}, f.env, node)
        if isinstance(f, Lib):
            return self.lib(f.name, args, kw, node)
        if isinstance(f, Meth):
            return self.method(f.obj, f.name, args, kw, node)
        t = taint(f, list(args), kw)
        if t:
            self.may_raise(node)
        return Unk(t)

    def call_info(self, info, args, kw, env, node=None):
        if self.stack:
            s = self.summaries.get(info.full)
            if s is not None:
                b = self.bind(info, args, kw, node, env)
                r = s(self, b, node)
                if r is not None:
                    return r
                t = taint(b)
                return Num("b", lo=0, hi=1, t=t, term=self.sum_term(info, b))
            if info.jit is not None and not self.may_contain_raise(info):
                return Unk(taint(list(args), kw))
            if len(self.stack) >= self.MAX_DEPTH or sum(1 for x in self.stack if x is info) >= 2:
                return Unk(taint(list(args), kw))
        if info.is_gen:
            return Unk(taint(list(args), kw))
        self.functions.add(info.full)
        b = self.bind(info, args, kw, node, env)
        fenv = dict(b)
        if env is not None:
            fenv["$outer"] = env
        self.stack.append(info)
        td = self.try_depth
        try:
            if isinstance(info.node, ast.Lambda):
                return self.ev(info.node.body, fenv)
            self.block(info.node.body, fenv)
            self.last_return = self.stack[-1].loc(info.node)
            return NONE
        except Ret as r:
            self.last_return = r.where
            return r.v
        finally:
            self.stack.pop()
            self.try_depth = td

    def sum_term(self, info, b):
        ts = []
        for k in sorted(b):
            v = b[k]
            if isinstance(v, Arr) and v.base is not None:
                ts.append((k, v.base.name, v.tr, v.part, v.ops))
            elif v.term is not None:
                ts.append((k, v.term))
            else:
                return None
        return ("call", info.full, tuple(ts))

    def bind(self, info, args, kw, node, env=None):
        a = info.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(pos):
                out[pos[i]] = v
            else:
                extra.append(v)
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        rest = {}
        for k, v in kw.items():
            if k in names:
                if k in out:
                    raise Raised("TypeError", self.where(node))
                out[k] = v
            else:
                rest[k] = v
        if a.vararg:
            out[a.vararg.arg] = Seq(extra, kind="tuple")
        elif extra:
            raise Raised("TypeError", self.where(node))
        if a.kwarg:
            out[a.kwarg.arg] = Dct(rest)
        elif rest and "**" not in rest:
            raise Raised("TypeError", self.where(node))
        for p, d in info.defaults().items():
            if p not in out:
                self.stack.append(info)
                try:
                    out[p] = self.ev(d, {"$outer": env} if env is not None else {})
                finally:
                    self.stack.pop()
        for p in names:
            if p not in out:
                if "**" in rest:
                    out[p] = Unk(taint(rest["**"]))
                else:
                    raise Raised("TypeError", self.where(node))
        return out

    # -- statements -----------------------------------------------------------------
    def block(self, body, env):
        for st in body:
            self.steps += 1
            if self.steps > self.MAX_STEPS:
                raise Give("too long")
            m = getattr(self, "st_" + type(st).__name__, None)
            if m is not None:
                m(st, env)

    def st_Expr(self, st, env):
        if not isinstance(st.value, ast.Constant):
            self.ev(st.value, env)

    def st_Return(self, st, env):
        v = self.ev(st.value, env) if st.value is not None else NONE
        raise Ret(v, st, self.where(st))

    def st_Raise(self, st, env):
        name = "?"
        e = st.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Attribute):
            name = e.attr
        elif isinstance(e, ast.Name):
            name = e.id
        raise Raised(name, self.where(st))

    def st_Assert(self, st, env):
        if not self.truth(self.ev(st.test, env), st.test):
            raise Raised("AssertionError", self.where(st))

    def st_If(self, st, env):
        self.block(st.body if self.truth(self.ev(st.test, env), st.test) else st.orelse, env)

    def st_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env, st)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env, st)

    def st_AugAssign(self, st, env):
        if isinstance(st.target, ast.Name):
            a = self.ev(st.target, env)
            b = self.ev(st.value, env)
            op = type(st.op).__name__
            if isinstance(a, Seq) and op == "Add" and a.kind == "list":
                if a.items is not None and isinstance(b, Seq) and b.items is not None:
                    a.items.extend(b.items)
                    a.n = P(len(a.items))
                else:
                    a.items, a.elem, a.n, a.t = None, Unk(taint(a, b)), None, taint(a, b)
                return
            env[st.target.id] = self.binop(op, a, b, st)
        else:
            v = self.ev(st.value, env)
            self.assign(st.target, Unk(taint(v)), env, st)

    def st_FunctionDef(self, st, env):
        fi = FuncInfo(self.stack[-1].module, st, self.stack[-1].qualname + "." + st.name, self.stack[-1])
        env[st.name] = Fun(fi, env)

    def st_Import(self, st, env):
        for k, b in self.stack[-1].module.import_bindings(st).items():
            if b[0] == "import":
                env[k] = self.ref(self.prog.module_ref(b[1]), k)

    def st_ImportFrom(self, st, env):
        for k, b in self.stack[-1].module.import_bindings(st).items():
            if b[0] == "from":
                env[k] = self.ref(self.prog.member(b[1], b[2]), k)

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)

    def st_Break(self, st, env):
        raise Brk()

    def st_Continue(self, st, env):
        raise Cont()

    def st_With(self, st, env):
        for it in st.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, Unk(taint(v)), env, st)
        self.block(st.body, env)

    def st_Try(self, st, env):
        try:
            self.try_depth += 1
            try:
                self.block(st.body, env)
            finally:
                self.try_depth -= 1
            self.block(st.orelse, env)
        except Raised as e:
            for h in st.handlers:
                if self.catches(h, e):
                    if h.name:
                        env[h.name] = Unk()
                    self.block(h.body, env)
                    break
            else:
                self.block(st.finalbody, env)
                raise
        self.block(st.finalbody, env)

    def catches(self, h, e):
        if h.type is None:
            return True
        names = [x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "?")
                 for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
        if e.name == "?" or "Exception" in names or "BaseException" in names:
            return True
        n = e.name
        while n:
            if n in names:
                return True
            n = PARENT.get(n)
        return False

    def assigned(self, body):
        out = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                    x = n
                    while isinstance(x, (ast.Subscript, ast.Attribute)):
                        x = x.value
                    if isinstance(x, ast.Name):
                        out.add(x.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.attr in ("append", "extend", "insert", "add", "update", "pop", "remove", "sort", "reverse", "setdefault", "clear"):
                    out.add(n.func.value.id)
        return out

    def havoc(self, names, env):
        for x in names:
            v = env.get(x)
            if v is None:
                continue
            if isinstance(v, Arr):
                env[x] = Arr(v.dims, v.dt, t=v.t)
            elif isinstance(v, Seq):
                env[x] = Seq(None, Unk(taint(v)), None, v.kind, t=taint(v))
            elif isinstance(v, Dct):
                env[x] = Dct(None, taint(v))
            elif isinstance(v, Num) and v.kind == "i" or isinstance(v, C) and type(v.v) is int:
                env[x] = Num("i", t=v.t)
            else:
                env[x] = Unk(taint(v))

    def iter_items(self, v):
        """explicit elements of an iterable, or None"""
        if isinstance(v, Seq):
            return v.items
        if isinstance(v, Dct):
            return [C(k) for k in v.items] if v.items is not None else None
        if isinstance(v, C) and isinstance(v.v, str):
            return [C(x) for x in v.v]
        if isinstance(v, Arr) and v.items is not None and v.dims is not None and len(v.dims) == 1:
            return v.items
        return None

    def elem(self, v):
        if isinstance(v, Seq):
            if v.elem is not None:
                return v.elem
            return Unk(taint(v))
        if isinstance(v, Arr):
            if v.dims is not None and len(v.dims) > 1:
                return Arr(v.dims[1:], v.dt, t=v.t)
            return Num(v.dt or "f", t=v.t, np_=True) if v.dims is not None and len(v.dims) == 1 else Unk(v.t)
        return Unk(taint(v))

    def st_For(self, st, env):
        it = self.ev(st.iter, env)
        if isinstance(it, C) and not isinstance(it.v, str):
            raise Raised("TypeError", self.where(st))
        if isinstance(it, Num):
            raise Raised("TypeError", self.where(st))
        items = self.iter_items(it)
        if items is not None and len(items) <= 12:
            for x in list(items):
                self.assign(st.target, x, env, st)
                try:
                    self.block(st.body, env)
                except Brk:
                    return
                except Cont:
                    continue
            self.block(st.orelse, env)
            return
        if isinstance(it, Seq) and it.n is not None and pconst(it.n) == 0:
            self.block(st.orelse, env)
            return
        names = self.assigned(st.body)
        self.havoc(names, env)
        self.assign(st.target, self.elem(it), env, st)
        try:
            self.block(st.body, env)
        except (Brk, Cont):
            pass
        self.havoc(names | self.assigned([st.target]), env)
        self.block(st.orelse, env)

    def st_While(self, st, env):
        names = self.assigned(st.body)
        for _ in range(10):
            b = self.tri(self.ev(st.test, env))
            if b is False:
                self.block(st.orelse, env)
                return
            if b is None:
                break
            if isinstance(st.test, ast.Constant):
                break
            try:
                self.block(st.body, env)
            except Brk:
                return
            except Cont:
                continue
        self.havoc(names, env)
        try:
            self.block(st.body, env)
        except (Brk, Cont):
            pass
        self.havoc(names, env)

    # -- assignment --------------------------------------------------------------------
    def assign(self, t, v, env, node):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.iter_items(v)
            n = len(t.elts)
            if items is None and isinstance(v, Arr) and v.dims:
                c = pconst(v.dims[0])
                if c is not None and c <= 12:
                    items = [self.elem(v) for _ in range(c)]
            if items is not None:
                if not star and len(items) != n or star and len(items) < n - 1:
                    raise Raised("ValueError", self.where(node))
                if star:
                    i = star[0]
                    k = len(items) - n + 1
                    items = items[:i] + [Seq(items[i:i + k])] + items[i + k:]
                for e, x in zip(t.elts, items):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env, node)
                return
            if isinstance(v, (C, Num)):
                raise Raised("TypeError", self.where(node))
            if isinstance(v, Arr) and v.dims == ():
                raise Raised("TypeError", self.where(node))
            if taint(v):
                self.may_raise(node, True)
            for e in t.elts:
                self.assign(e.value if isinstance(e, ast.Starred) else e, self.elem(v), env, node)
        elif isinstance(t, ast.Subscript):
            idx = self.ev(t.slice, env)
            obj = self.ev(t.value, env)
            if isinstance(obj, Dct) and obj.items is not None and isinstance(idx, C):
                obj.items[idx.v] = v
                return
            if isinstance(obj, Dct):
                obj.items = None
                return
            if isinstance(obj, Seq):
                if obj.items is not None and isinstance(idx, C) and isinstance(idx.v, int) and -len(obj.items) <= idx.v < len(obj.items):
                    obj.items[idx.v] = v
                else:
                    obj.items, obj.elem, obj.t = None, Unk(taint(obj, v)), taint(obj, v)
                return
            if isinstance(t.value, ast.Name) and isinstance(obj, Arr):
                env[t.value.id] = self.setitem(obj, idx, v)
            elif isinstance(t.value, ast.Name) and isinstance(obj, Unk):
                env[t.value.id] = Unk(taint(obj, v))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, node)

    def setitem(self, a, idx, v):
        small = isinstance(v, C) and isinstance(v.v, (int, float)) and v.v == 0
        if small and isinstance(idx, Arr) and "tiny" in idx.fx:
            return a.but(items=None, base=None)
        if small and isinstance(idx, Arr) and "negs" in idx.fx:
            return a.but(fx=(a.fx - {"neg", "nan", "nanim"}) | {"nonneg"}, items=None, base=None)
        return Arr(a.dims, a.dt, t=a.t or taint(v, idx))

    # -- names ------------------------------------------------------------------------
    def ref(self, r, name=None):
        if r is None:
            return Lib("builtins." + name) if name in BUILTINS else Unk()
        if r[0] == "func":
            return Fun(r[1])
        if r[0] == "mod":
            return ModV(r[1])
        if r[0] == "ext":
            return self.libref(r[1])
        if r[0] == "expr":
            k = (r[1].name, id(r[2]))
            if k not in self.globals:
                self.globals[k] = Unk()
                fi = FuncInfo.__new__(FuncInfo)
                fi.module, fi.node, fi.qualname = r[1], r[2], "<module>"
                fi.parent, fi.doc, fi.params, fi.jit, fi.is_gen, fi._locals = None, "", [], None, False, None
                self.stack.append(fi)
                try:
                    self.globals[k] = self.ev(r[2], {})
                except (Raised, May, Need):
                    pass
                finally:
                    self.stack.pop()
            return self.globals[k]
        return Unk()

    def libref(self, name):
        if name in LIBCONST:
            return LIBCONST[name]
        return Lib(name)

    def ev_Name(self, n, env):
        e = env
        while e is not None:
            if n.id in e:
                return e[n.id]
            e = e.get("$outer")
        mod = self.stack[-1].module
        return self.ref(self.prog.resolve(mod, n.id), n.id)

    # -- expressions --------------------------------------------------------------------
    def ev(self, n, env):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Give("too long")
        m = getattr(self, "ev_" + type(n).__name__, None)
        return m(n, env) if m is not None else Unk()

    def ev_Constant(self, n, env):
        return C(n.value)

    def elts(self, n, env):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, env)
                its = self.iter_items(v)
                if its is None:
                    return None, taint(v)
                out.extend(its)
            else:
                out.append(self.ev(e, env))
        return out, False

    def ev_Tuple(self, n, env):
        its, t = self.elts(n, env)
        return Seq(its, kind="tuple") if its is not None else Seq(None, Unk(t), None, "tuple", t)

    def ev_List(self, n, env):
        its, t = self.elts(n, env)
        return Seq(its) if its is not None else Seq(None, Unk(t), None, "list", t)

    def ev_Set(self, n, env):
        its, t = self.elts(n, env)
        return Seq(its, kind="set") if its is not None else Seq(None, Unk(t), None, "set", t)

    def ev_Dict(self, n, env):
        d = {}
        t = False
        for k, v in zip(n.keys, n.values):
            vv = self.ev(v, env)
            t = t or taint(vv)
            if k is None:
                d = None
                continue
            kv = self.ev(k, env)
            if isinstance(kv, C) and d is not None:
                d[kv.v] = vv
            else:
                d = None
        return Dct(d, t)

    def ev_JoinedStr(self, n, env):
        return Unk()

    def ev_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env, n)
        return v

    def ev_Lambda(self, n, env):
        fi = FuncInfo(self.stack[-1].module, n, self.stack[-1].qualname + ".<lambda>", self.stack[-1])
        return Fun(fi, env)

    def ev_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env), n.test) else n.orelse, env)

    def ev_BoolOp(self, n, env):
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, env)
            if i == len(n.values) - 1:
                return v
            b = self.truth(v, e)
            if isinstance(n.op, ast.And) and not b or isinstance(n.op, ast.Or) and b:
                return v if isinstance(v, C) else C(b)
        return v

    def ev_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            b = self.tri(v)
            if b is None:
                if isinstance(v, Arr) and v.dims != ():
                    return C(not self.truth(v, n.operand))
                return Num("b", lo=0, hi=1, t=taint(v), term=("not", v.term) if v.term is not None else None)
            return C(not b)
        return self.unop(type(n.op).__name__, v, n)

    def unop(self, op, v, node):
        if isinstance(v, C):
            try:
                return C({"USub": lambda x: -x, "UAdd": lambda x: +x, "Invert": lambda x: ~x}[op](v.v))
            except TypeError:
                raise Raised("TypeError", self.where(node)) from None
        if isinstance(v, Num):
            if op == "USub":
                return Num(v.kind, -v.p if v.p is not None else None, -v.hi, -v.lo, v.fx, v.t, ("-", v.term) if v.term else None)
            if op == "Invert" and v.kind == "b":
                return Num("b", lo=0, hi=1, t=v.t, term=("not", v.term) if v.term else None)
            return v
        if isinstance(v, Arr):
            if op == "Invert":
                ba = None
                if v.ba:
                    ba = (None if v.ba[1] is None else not v.ba[1], None if v.ba[0] is None else not v.ba[0])
                return v.but(ba=ba, items=[self.unop("Invert", C(bool(self.tri(x))), node) if self.tri(x) is not None and False else Num("b", t=taint(x)) for x in v.items] if v.items is not None else None)
            if op == "USub":
                return self.binop("Mult", v, C(-1), node)
            return v
        if isinstance(v, Seq) and op == "USub":
            raise Raised("TypeError", self.where(node))
        return Unk(taint(v))

    def ev_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(type(n.op).__name__, a, b, n)

    # numbers
    def num(self, v):
        if isinstance(v, Num):
            return v
        if isinstance(v, C):
            x = v.v
            if isinstance(x, bool):
                return Num("b", P(int(x)), term=v.term)
            if isinstance(x, int):
                return Num("i", P(x), term=v.term)
            if isinstance(x, float):
                return Num("f", None, x, x, term=v.term, fx=["nan"] if x != x else []) if x == x else Num("f", fx=["nan"], term=v.term)
            if isinstance(x, complex):
                return Num("c", term=v.term)
        return None

    def binop(self, op, a, b, node):
        if isinstance(a, C) and isinstance(b, C) and not isinstance(a.v, type(None)) and not isinstance(b.v, type(None)):
            try:
                r = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": lambda x, y: x * y, "Div": lambda x, y: x / y,
                     "FloorDiv": lambda x, y: x // y, "Mod": lambda x, y: x % y,
                     "Pow": lambda x, y: x ** y if abs(y) <= 64 and abs(x) < 1e6 else None,
                     "BitAnd": lambda x, y: x & y, "BitOr": lambda x, y: x | y, "BitXor": lambda x, y: x ^ y,
                     "LShift": lambda x, y: x << y if y < 64 else None, "RShift": lambda x, y: x >> y}[op](a.v, b.v)
                return C(r) if r is not None else Unk()
            except ZeroDivisionError:
                raise Raised("ZeroDivisionError", self.where(node)) from None
            except (TypeError, KeyError, OverflowError):
                return Unk()
            except ValueError:
                return Unk()
        if op == "Add" and isinstance(a, Seq) and isinstance(b, Seq):
            if a.items is not None and b.items is not None:
                return Seq(a.items + b.items, kind=a.kind)
            n = a.n + b.n if a.n is not None and b.n is not None else None
            return Seq(None, Unk(taint(a, b)), n, a.kind, taint(a, b))
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Seq) and (isinstance(y, Num) or isinstance(y, C) and isinstance(y.v, int)):
                    k = self.num(y)
                    c = pconst(k.p)
                    if x.items is not None and c is not None and len(x.items) * max(c, 0) <= 24:
                        return Seq(x.items * max(c, 0), kind=x.kind)
                    n = x.n * k.p if x.n is not None and k.p is not None else None
                    e = x.elem
                    if x.items is not None:
                        e = x.items[0] if len(x.items) == 1 else Unk(taint(x))
                    return Seq(None, e, n, x.kind, taint(x, y))
        if op == "Sub" and isinstance(a, Seq) and a.kind == "set":
            return Seq(None, Unk(taint(a, b)), None, "set", taint(a, b))
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_binop(op, a, b, node)
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            return self.num_binop(op, x, y, node)
        if isinstance(a, (Seq, C)) and isinstance(b, (Seq, C, Num)) or isinstance(b, Seq) and isinstance(a, Num):
            if not (isinstance(a, C) and isinstance(a.v, str)) and op != "Mod":
                raise Raised("TypeError", self.where(node))
        return Unk(taint(a, b), (op, a.term, b.term) if a.term and b.term else None)

    def num_binop(self, op, x, y, node):
        t = taint(x, y)
        term = (op, x.term, y.term) if x.term is not None and y.term is not None else None
        fx = ["nan"] if "nan" in x.fx or "nan" in y.fx else []
        kind = "c" if "c" in (x.kind, y.kind) else "f" if "f" in (x.kind, y.kind) or op == "Div" else "i"
        p = None
        if x.p is not None and y.p is not None:
            if op == "Add":
                p = x.p + y.p
            elif op == "Sub":
                p = x.p - y.p
            elif op == "Mult":
                p = x.p * y.p
            elif op == "FloorDiv" and (pconst(y.p) or 0) > 0:
                p = pdiv(x.p, pconst(y.p))
            elif op == "Mod" and (pconst(y.p) or 0) > 0:
                m = pmod(x.p, pconst(y.p))
                if m is not None:
                    return C(m) if x.kind != "f" else Num("f", None, m, m)
                return Num("i", lo=0, hi=pconst(y.p) - 1, t=t, term=term)
            elif op == "Pow" and (pconst(y.p) or 99) <= 3 and (pconst(y.p) or -1) >= 0:
                p = P(1)
                for _ in range(pconst(y.p)):
                    p = p * x.p
            elif op == "Div" and (pconst(y.p) or 0) > 0:
                k = pconst(y.p)
                if all(v % k == 0 for _, v in x.p.m):
                    return Num("f", pdiv(x.p, k), t=t)
        if p is not None:
            c = pconst(p)
            return C(c) if c is not None and kind == "i" and not t else Num(kind, p, fx=fx, t=t)
        lo, hi = -INF, INF

        def mul(u, v):
            return 0.0 if u == 0 or v == 0 else u * v
        if op == "Add":
            lo, hi = x.lo + y.lo, x.hi + y.hi
        elif op == "Sub":
            lo, hi = x.lo - y.hi, x.hi - y.lo
        elif op == "Mult":
            c = [mul(u, v) for u in (x.lo, x.hi) for v in (y.lo, y.hi)]
            lo, hi = min(c), max(c)
        elif op == "Div" and (y.lo > 0 or y.hi < 0):
            inv = sorted((1 / y.hi if abs(y.hi) != INF else 0.0, 1 / y.lo if abs(y.lo) != INF else 0.0))
            c = [mul(u, v) for u in (x.lo, x.hi) for v in inv]
            lo, hi = min(c), max(c)
        elif op == "FloorDiv" and y.lo > 0 and y.lo == y.hi:
            lo, hi = (x.lo // y.lo if x.lo > -INF else -INF), (x.hi // y.lo if x.hi < INF else INF)
        elif op == "Mod" and y.lo == y.hi and y.lo > 0:
            lo, hi = 0, y.lo
            if x.frac and y.lo == 1:
                lo, hi = 0.1, 0.9
        if lo != lo or hi != hi:
            lo, hi = -INF, INF
        if kind == "c":
            lo, hi = -INF, INF
        if op == "Pow" and kind != "c" and x.lo >= 0:
            lo = 0.0
        return Num(kind, None, lo, hi, fx, t, term, frac=op in ("Add", "Sub") and (x.frac != y.frac) and x.kind + y.kind in ("fi", "if"))

    # arrays
    def broadcast(self, d1, d2, node, t):
        if d1 is None or d2 is None:
            return None
        out = []
        n = max(len(d1), len(d2))
        d1 = (None,) * 0 + (P(1),) * (n - len(d1)) + tuple(d1)
        d2 = (P(1),) * (n - len(d2)) + tuple(d2)
        for x, y in zip(d1, d2):
            if x is None or y is None:
                out.append(x if y is None and x is not None and sign(x - P(1)) == "+" else None if x is None else None)
                continue
            if x == y:
                out.append(x)
            elif pconst(x) == 1:
                out.append(y)
            elif pconst(y) == 1:
                out.append(x)
            else:
                s = sign(x - y)
                if s in ("+", "-") and sign(x - P(1)) == "+" and sign(y - P(1)) == "+":
                    raise Raised("ValueError", self.where(node))
                out.append(None)
        return tuple(out)

    def as_arr(self, v):
        """an array seen in an array operation"""
        if isinstance(v, Arr):
            return v
        if isinstance(v, Seq):
            return self.to_array(v)
        n = self.num(v)
        if n is not None:
            return Arr((), n.kind, fx=n.fx | {"fin"} if "nan" not in n.fx else n.fx, t=n.t, items=None, term=n.term)
        return None

    def to_array(self, v, node=None):
        if isinstance(v, Arr):
            return v
        if isinstance(v, Seq):
            its = v.items
            if its is not None and len(its) <= 24:
                if all(isinstance(x, (C, Num)) and self.num(x) is not None for x in its):
                    ks = {self.num(x).kind for x in its}
                    dt = "c" if "c" in ks else "f" if "f" in ks else "i" if "i" in ks else "b" if ks else "f"
                    return Arr((P(len(its)),), dt, t=taint(v), items=its)
                sub = [self.to_array(x) for x in its]
                if sub and all(isinstance(s, Arr) and s.dims is not None for s in sub):
                    return Arr((P(len(its)),) + sub[0].dims, None, t=taint(v))
                return Arr(None, None, t=taint(v))
            if isinstance(v.elem, (Num, C)):
                return Arr((v.n,), self.num(v.elem).kind if self.num(v.elem) else None, t=taint(v), fx=v_fx(v) | ({"el"} if self.kind == "shape" else set()))
            if isinstance(v.elem, Arr) and v.elem.dims is not None:
                return Arr((v.n,) + v.elem.dims, v.elem.dt, t=taint(v))
            return Arr((v.n,) if v.n is not None and not isinstance(v.elem, (Unk, Seq)) else None, None, t=taint(v))
        n = self.num(v)
        if n is not None:
            return Arr((), n.kind, t=n.t, term=n.term, items=[v])
        return Arr(None, None, t=taint(v))

    def scal(self, v):
        """a scalar operand: (True, Num) or (False, None)"""
        if isinstance(v, Arr):
            return None
        return self.num(v)

    def arr_binop(self, op, a, b, node):
        t = taint(a, b)
        if op == "MatMult":
            return self.matmul(a, b, node)
        sa, sb = self.scal(a), self.scal(b)
        x, y = self.as_arr(a), self.as_arr(b)
        if x is None or y is None:
            o = x or y
            return Arr(None, None, t=t, fx=o.fx & {"nan", "nanim"})
        dims = self.broadcast(x.dims, y.dims, node, t)
        if op in ("BitAnd", "BitOr"):
            ba = None
            if x.ba and y.ba:
                if op == "BitOr":
                    ba = (True if True in (x.ba[0], y.ba[0]) else False if (x.ba[0], y.ba[0]) == (False, False) else None,
                          True if True in (x.ba[1], y.ba[1]) else None)
                else:
                    ba = (False if False in (x.ba[0], y.ba[0]) else None,
                          False if False in (x.ba[1], y.ba[1]) else True if (x.ba[1], y.ba[1]) == (True, True) else None)
            return Arr(dims, "b", t=t, ba=ba)
        fx = set()
        if self.kind == "shape" and t and not self.entry_taint(x, y):
            fx.add("el")
        for o in (x, y):
            fx |= {f for f in o.fx if f in ("nan", "nanim")}
        if "fin" in x.fx and "fin" in y.fx and op in ("Add", "Sub", "Mult"):
            fx.add("fin")
        kinds = {k for k in (x.dt, y.dt)}
        dt = None if None in kinds else "c" if "c" in kinds else "f" if "f" in kinds or op == "Div" else "i"
        items = None
        if x.items is not None and sb is not None:
            items = [self.binop(op, e, b, node) for e in x.items]
        elif y.items is not None and sa is not None:
            items = [self.binop(op, a, e, node) for e in y.items]
        elif x.items is not None and y.items is not None and len(x.items) == len(y.items):
            items = [self.binop(op, e, g, node) for e, g in zip(x.items, y.items)]
        if items is not None and not all(self.num(i) is not None for i in items):
            items = None
        # one operand is a scalar
        for o, s, other in ((x, sb, b), (y, sa, a)):
            if s is None:
                continue
            scale = op == "Mult" or op == "Div" and o is x
            if op in ("Mult", "Div") and scale:
                pos = s.lo > 0
                keep = {f for f in o.fx if f in ("sym", "omega", "ident", "bigdiff", "zero", "nonzero") and (s.lo > 0 or s.hi < 0 or s.kind == "c")}
                if pos:
                    keep |= o.fx & {"neg", "nonneg", "pos", "negherm", "possemi"}
                if s.kind == "c" and "omega" in o.fx:
                    keep |= {"iomega"}
                if "iomega" in o.fx:
                    keep |= {"iomega"}
                if "ident" in o.fx and pos:
                    keep |= {"cident"}
                if "cident" in o.fx and pos:
                    keep |= {"cident"}
                base = o.base if s.lo > 0 or s.hi < 0 else None
                return Arr(dims, dt, fx | keep, base, o.tr, o.cj, o.part, t, items=items, ops=o.ops + ((op, s.term or id(s)),))
            if op in ("Add", "Sub"):
                return Arr(dims, dt, fx, None, t=t, items=items)
        # two arrays
        if op in ("Add", "Sub") and self.kind == "content":
            for o, w in ((x, y), (y, x)):
                if not w.t and (o.base is not None and o.base.sym in ("asym", "asymim", "herm") or "asymx" in o.fx):
                    fx.add("asymx")
        if op in ("Add", "Sub") and x.base is not None and y.base is x.base and x.ops == y.ops and x.part == y.part:
            e = self.same_entries(x, y)
            if op == "Sub" and e is True:
                fx |= {"zero"}
            elif op == "Sub" and e is False:
                fx |= {"bigdiff", "nonzero"}
            return Arr(dims, dt, fx, None, t=t)
        if op in ("Add", "Sub"):
            for o, w in ((x, y), (y, x)):
                if o.base is not None and "iomega" in w.fx and o.part == "full":
                    st = o.base.states
                    if "unphysical" in st or "indef" in st:
                        return Arr(dims, "c", fx | {"negherm"}, t=t)
                    if "valid" in st:
                        return Arr(dims, "c", fx | {"possemi"}, t=t)
                if o.base is not None and "posdef" in o.base.states and "cident" in w.fx and op == "Add" and o.part == "full":
                    return Arr(dims, dt, fx | {"possemi"}, t=t)
                    # other facts of the matrix survive
            tx, ty = mterm(x), mterm(y)
            if op == "Sub" and tx is not None and ty is not None and tx[0] == ty[0] == "mm":
                return Arr(dims, dt, fx, None, t=t, term=("sub", tx, ty))
            if op == "Sub" and x.base is not None and "cident" in y.fx:
                st = x.base.states
                if "nonclassical" in st:
                    return Arr(dims, dt, fx | {"negherm"}, t=t)
                if "classical" in st:
                    return Arr(dims, dt, fx | {"possemi"}, t=t)
        return Arr(dims, dt, fx, None, t=t, items=items)

    def matmul(self, a, b, node):
        t = taint(a, b)
        x, y = self.as_arr(a), self.as_arr(b)
        if x is None or y is None:
            return Arr(None, None, t=t)
        fx = (x.fx | y.fx) & {"nan", "nanim"}
        if x.dims is None or y.dims is None or not x.dims or not y.dims:
            return Arr(None, None, t=t, fx=fx)
        p, q = x.dims[-1], y.dims[-2] if len(y.dims) > 1 else y.dims[0]
        if p is not None and q is not None and sign(p - q) in ("+", "-"):
            raise Raised("ValueError", self.where(node))
        dims = tuple(x.dims[:-1]) + (tuple(y.dims[-1:]) if len(y.dims) > 1 else ())
        if len(x.dims) > 2 or len(y.dims) > 2:
            dims = None
        term = None
        ta, tb = mterm(x), mterm(y)
        if ta is not None and tb is not None:
            term = ("mm", ta, tb)
        kinds = {x.dt, y.dt}
        dt = None if None in kinds else "c" if "c" in kinds else "f" if "f" in kinds else "i"
        return Arr(dims, dt, fx, t=t, term=term)

    def same_entries(self, x, y):
        """x and y are equal everywhere (True), differ somewhere by a lot (False), or None"""
        if x.base is None or x.base is not y.base or x.ops != y.ops or x.part != y.part:
            return None
        b = x.base
        if x.fx & {"nan", "nanim"}:
            return False if (x.part in ("full", "abs") or "nan" in x.fx and x.part == "re" or "nanim" in x.fx and x.part == "im") else None
        tr, cj = x.tr != y.tr, x.cj != y.cj
        real = x.dt in ("f", "i") or x.part in ("re", "im", "abs") or b.cplx is False
        if x.part in ("re", "im", "abs"):
            cj = False
        if not tr and not cj:
            return True
        if not tr and cj:
            return True if real else False if b.cplx else None
        if tr and cj and not real:
            return {"herm": True, "asym": False}.get(b.sym)
        if not tr:
            return None
        if x.part == "full":
            return {"sym": True, "asym": False, "asymim": False, "herm": False}.get(b.sym)
        if x.part == "re":
            return {"sym": True, "asym": False, "asymim": True, "herm": True}.get(b.sym)
        if x.part == "im":
            return {"sym": True, "asymim": False, "herm": False}.get(b.sym)
        if x.part == "abs":
            return {"sym": True, "herm": True, "asym": False if real and x.dt == "f" and False else None}.get(b.sym)
        return None

    # comparison
    def ev_Compare(self, n, env):
        left = self.ev(n.left, env)
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, env)
            v = self.compare(type(op).__name__, left, right, n)
            if i == len(n.ops) - 1:
                return v
            if not self.truth(v, n):
                return FALSE
            left = right
        return v

    def compare(self, op, a, b, node):
        t = taint(a, b)
        if op in ("Is", "IsNot"):
            r = None
            if isinstance(a, C) and isinstance(b, C):
                r = a.v is b.v or (type(a.v) is type(b.v) and a.v == b.v)
            elif isinstance(b, C) and b.v is None or isinstance(a, C) and a.v is None:
                o = a if isinstance(b, C) and b.v is None else b
                r = False if not isinstance(o, Unk) else None
            elif isinstance(b, C) and isinstance(b.v, bool) and isinstance(a, Num) and a.kind == "b":
                r = None
                return Num("b", lo=0, hi=1, t=t, term=(a.term if b.v == (op == "Is") else ("not", a.term)) if a.term else None)
            elif isinstance(a, Lib) and isinstance(b, Lib):
                r = a.name == b.name
            if r is None:
                return bool_(None, t, self.cterm("Is", a, b, op == "IsNot"))
            return C(r == (op == "Is"))
        if op in ("In", "NotIn"):
            its = self.iter_items(b)
            r = None
            if its is not None:
                rs = [self.tri(self.compare("Eq", a, x, node)) for x in its]
                r = True if True in rs else False if all(x is False for x in rs) else None
            elif isinstance(b, Seq) and b.kind == "range" and isinstance(b.elem, Num) and b.n is not None:
                x = self.num(a)
                if x is not None:
                    lo = self.num_cmp("Lt", x, Num("i", b.elem.p0))
                    hi = self.num_cmp("GtE", x, Num("i", b.elem.p1))
                    r = False if lo or hi else True if lo is False and hi is False and x.kind == "i" else None
            if r is None:
                return bool_(None, t, None)
            return C(r == (op == "In"))
        if isinstance(a, C) and isinstance(b, C):
            try:
                return C(bool({"Eq": lambda x, y: x == y, "NotEq": lambda x, y: x != y, "Lt": lambda x, y: x < y, "LtE": lambda x, y: x <= y,
                          "Gt": lambda x, y: x > y, "GtE": lambda x, y: x >= y}[op](a.v, b.v)))
            except TypeError:
                raise Raised("TypeError", self.where(node)) from None
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_cmp(op, a, b, node)
        if isinstance(a, Seq) and isinstance(b, Seq) and op in ("Eq", "NotEq"):
            r = None
            if a.kind != b.kind and {a.kind, b.kind} <= {"list", "tuple", "range", "set"}:
                r = False
            elif a.n is not None and b.n is not None and sign(a.n - b.n) in ("+", "-"):
                r = False
            elif a.items is not None and b.items is not None:
                rs = [self.tri(self.compare("Eq", x, y, node)) for x, y in zip(a.items, b.items)]
                r = False if False in rs else True if all(x is True for x in rs) else None
            if r is None:
                return bool_(None, t)
            return C(r == (op == "Eq"))
        x, y = self.num(a), self.num(b)
        if x is not None and y is not None:
            r = self.num_cmp(op, x, y)
            if r is not None:
                return C(r)
            neg = op in ("NotEq", "LtE", "GtE")
            return bool_(None, t, self.cterm({"NotEq": "Eq", "LtE": "Gt", "GtE": "Lt"}.get(op, op), a, b, neg))
        if op in ("Eq", "NotEq"):
            known = (C, Num, Seq, Dct, Fun, Lib, ModV)
            if isinstance(a, known) and isinstance(b, known) and type(a) is not type(b) and not (x is not None and y is not None):
                return C(op == "NotEq")
            if isinstance(a, Lib) and isinstance(b, Lib):
                return C((a.name == b.name) == (op == "Eq"))
        elif isinstance(a, Seq) and y is not None or isinstance(b, Seq) and x is not None:
            raise Raised("TypeError", self.where(node))
        elif isinstance(a, C) and a.v is None or isinstance(b, C) and b.v is None:
            raise Raised("TypeError", self.where(node))
        elif isinstance(a, C) and isinstance(a.v, str) and y is not None or isinstance(b, C) and isinstance(b.v, str) and x is not None:
            raise Raised("TypeError", self.where(node))
        neg = op in ("NotEq", "LtE", "GtE")
        return bool_(None, t, self.cterm({"NotEq": "Eq", "LtE": "Gt", "GtE": "Lt"}.get(op, op), a, b, neg))

    def cterm(self, op, a, b, neg):
        if a.term is None or b.term is None:
            return None
        ta, tb = a.term, b.term
        if op == "Gt":
            op, ta, tb = "Lt", tb, ta
        if op in ("Eq", "Is") and repr(ta) > repr(tb):
            ta, tb = tb, ta
        r = ("cmp", op, ta, tb)
        return ("not", r) if neg else r

    def num_cmp(self, op, x, y):
        if "nan" in x.fx or "nan" in y.fx:
            return op == "NotEq"
        lt = eq = gt = None  # can it be <, ==, >?
        if x.p is not None and y.p is not None:
            s = sign(x.p - y.p)
            lt, eq, gt = {"+": (0, 0, 1), "-": (1, 0, 0), "0": (0, 1, 0), ">=": (0, 1, 1), "<=": (1, 1, 0)}.get(s, (1, 1, 1))
        else:
            if x.kind == "c" or y.kind == "c":
                return None
            xl, xh = self.narrowed(x) if x.term is not None and x.term[0] == "par" else (x.lo, x.hi)
            yl, yh = self.narrowed(y) if y.term is not None and y.term[0] == "par" else (y.lo, y.hi)
            lt, gt = xl < yh, xh > yl
            eq = not (xl > yh or xh < yl)
            if x.term is not None and x.term == y.term:
                lt, eq, gt = 0, 1, 0
            if eq and (x.frac and y.kind in "ib" or y.frac and x.kind in "ib"):
                eq = 0
        t = {"Lt": (1, 0, 0), "LtE": (1, 1, 0), "Gt": (0, 0, 1), "GtE": (0, 1, 1), "Eq": (0, 1, 0), "NotEq": (1, 0, 1)}[op]
        can = [c for c in zip((lt, eq, gt), t) if c[0]]
        if can and all(c[1] for c in can):
            return True
        if can and not any(c[1] for c in can):
            return False
        return None

    def arr_cmp(self, op, a, b, node):
        t = taint(a, b)
        if (isinstance(a, Arr) and isinstance(b, (C,)) and (b.v is None or isinstance(b.v, str))) or \
           (isinstance(b, Arr) and isinstance(a, (C,)) and (a.v is None or isinstance(a.v, str))):
            return Arr((isinstance(a, Arr) and a or b).dims, "b", t=t)
        x, y = self.as_arr(a), self.as_arr(b)
        if x is None or y is None:
            return Arr(None, "b", t=t)
        try:
            dims = self.broadcast(x.dims, y.dims, node, t)
        except Raised:
            if op in ("Eq", "NotEq"):
                return FALSE if op == "Eq" else TRUE
            raise
        sa, sb = self.scal(a), self.scal(b)
        its = None
        if x.items is not None and sb is not None:
            its = [self.compare(op, e, b, node) for e in x.items]
        elif y.items is not None and sa is not None:
            its = [self.compare(op, a, e, node) for e in y.items]
        elif x.items is not None and y.items is not None and len(x.items) == len(y.items):
            its = [self.compare(op, e, g, node) for e, g in zip(x.items, y.items)]
        ba = None
        fx = set()
        if its is not None:
            rs = [self.tri(i) for i in its]
            ba = (True if True in rs else False if all(r is False for r in rs) else None,
                  False if False in rs else True if all(r is True for r in rs) else None)
        elif dims is not None and any(d is not None and pconst(d) == 0 for d in dims):
            ba = (False, True)
        else:
            o, s, opp = (x, sb, op) if sb is not None else (y, sa, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op))
            if s is not None:
                near0 = s.lo >= -0.1 and s.hi <= 0.1 and s.kind != "c"
                big = o.dims is None or all(d is None or sign(d - P(1)) in ("+",) for d in o.dims)
                if o.fx & {"nan", "nanim"}:
                    ba = (True, None) if opp == "NotEq" else (None, False)
                elif "neg" in o.fx and near0:
                    # an entry far below zero (and, in anything but one element, one far above)
                    ba = {"Lt": (True, None), "LtE": (True, None), "Gt": (None, False), "GtE": (None, False), "Eq": (None, False),
                          "NotEq": (True, None)}[opp]
                elif "nonneg" in o.fx and s.lo == s.hi == 0:
                    ba = {"Lt": (False, False), "GtE": (True, True)}.get(opp)
                elif "bigdiff" in o.fx and near0 and o.part == "abs":
                    ba = {"Lt": (None, False), "LtE": (None, False), "Gt": (True, None), "GtE": (True, None), "Eq": (None, False),
                          "NotEq": (True, None)}[opp]
                elif o.fx & {"bigdiff", "nonzero"} and s.lo == s.hi == 0 and opp in ("Eq", "NotEq"):
                    ba = (None, False) if opp == "Eq" else (True, None)
                elif "zero" in o.fx and s.lo == s.hi == 0:
                    ba = {"Lt": (False, False), "Gt": (False, False), "NotEq": (False, False), "Eq": (True, True), "LtE": (True, True), "GtE": (True, True)}[opp]
                if o.part == "abs" and opp in ("Lt", "LtE") and s.hi <= 0.1:
                    fx.add("tiny")
                if opp in ("Lt", "LtE") and near0 and o.part != "abs":
                    fx.add("negs")
                del big
            else:
                e = self.same_entries(x, y)
                if e is False and op in ("Eq", "NotEq"):
                    ba = (None, False) if op == "Eq" else (True, None)
                elif e is True and op in ("Eq", "NotEq"):
                    ba = (True, True) if op == "Eq" else (False, False)
        if self.kind == "shape" and t and not self.entry_taint(x, y):
            fx.add("el")
        return Arr(dims, "b", fx, t=t, ba=ba, items=its)

    # attributes
    def ev_Attribute(self, n, env):
        return self.attr(self.ev(n.value, env), n.attr, n)

    def attr(self, v, name, node):
        if isinstance(v, ModV):
            r = self.prog.member(v.name, name)
            return self.ref(r) if r is not None else Unk()
        if isinstance(v, Lib):
            return self.libref(f"{v.name}.{name}")
        if isinstance(v, Arr):
            st = self.shape_taint(v)
            if name == "shape":
                if v.dims is None:
                    return Seq(None, Num("i", t=st), None, "tuple", st)
                return Seq([Num("i", d, lo=0, t=st) if d is None or pconst(d) is None else C(pconst(d)) for d in v.dims], kind="tuple")
            if name == "ndim":
                return C(len(v.dims)) if v.dims is not None else Num("i", lo=0, t=st)
            if name == "size":
                p = P(1)
                for d in v.dims if v.dims is not None else (None,):
                    p = p * d if p is not None and d is not None else None
                return Num("i", p, lo=0, t=st)
            if name == "T":
                return self.transpose(v)
            if name == "real":
                return self.part(v, "re")
            if name == "imag":
                return self.part(v, "im")
            if name == "dtype":
                return Unk(v.t, ("dtype", v.dt) if v.dt else None)
            if name in ARR_METHODS:
                return Meth(v, name)
            return Unk(v.t)
        if isinstance(v, (Num, C)) and self.num(v) is not None:
            if name == "real":
                return v if self.num(v).kind != "c" else Num("f", t=v.t)
            if name == "imag":
                return C(0) if self.num(v).kind != "c" else Num("f", t=v.t)
            if isinstance(v, Num) and v.np_:
                return Meth(v, name) if name not in ("shape", "dtype", "ndim", "T") else Unk(v.t)
            if name in ("conjugate", "is_integer", "bit_length"):
                return Meth(v, name)
            if name in ("shape", "T", "ndim", "dtype", "size", "any", "all"):
                raise Raised("AttributeError", self.where(node))
            return Meth(v, name)
        if isinstance(v, Seq):
            if name in ("shape", "T", "ndim", "dtype", "size", "any", "all", "conj", "real", "imag", "astype", "reshape", "diagonal", "flatten"):
                raise Raised("AttributeError", self.where(node))
            return Meth(v, name)
        if isinstance(v, C) and isinstance(v.v, str):
            return Meth(v, name)
        if isinstance(v, C) and v.v is None:
            raise Raised("AttributeError", self.where(node))
        if isinstance(v, Fun):
            return Unk()
        return Meth(v, name) if not isinstance(v, Meth) else Unk(taint(v))

    def shape_taint(self, v):
        """does the shape depend on what is wrong with the argument?"""
        if self.kind == "content" and isinstance(v, Arr) and v.term != ("mask",):
            return False
        return taint(v)

    def entry_taint(self, *vs):
        """do the entries depend on what is wrong with the argument?"""
        if self.kind != "shape":
            return taint(vs)
        return any(taint(v) for v in vs if not (isinstance(v, Arr) and "el" in v.fx))

    def transpose(self, v):
        its = v.items if v.dims is not None and len(v.dims) == 1 else None
        if v.dims is not None and len(v.dims) <= 1:
            return v
        term = None
        if v.term is not None and v.term[0] in ("mm", "blk", "T", "sub"):
            term = tterm(v.term)
        return v.but(dims=tuple(reversed(v.dims)) if v.dims is not None else None, tr=not v.tr, items=its, term=term)

    def part(self, v, p):
        dt = "f" if v.dt in ("f", "c") else v.dt
        if v.dt in ("f", "i", "b") and p == "re":
            return v
        if v.dt in ("f", "i", "b") and p == "im":
            return Arr(v.dims, v.dt, {"zero", "fin"}, t=v.t)
        fx = set(v.fx) & {"fin"}
        if v.part != "full":
            return Arr(v.dims, dt, v.fx & {"nan", "fin"}, t=v.t)
        if p == "re" and "nan" in v.fx:
            fx = {"nan"}
        elif p == "re" and "nanim" in v.fx:
            fx = {"fin"}
        elif p == "im" and "nanim" in v.fx:
            fx = {"nan"}
        elif p == "im" and "nan" in v.fx:
            fx = {"fin"}
        return Arr(v.dims, dt, fx | (v.fx & {"neg"} if p == "re" else set()), v.base, v.tr, False, p, v.t, ops=v.ops)

    # subscripts
    def ev_Slice(self, n, env):
        return Slc(*(self.ev(x, env) if x is not None else NONE for x in (n.lower, n.upper, n.step)))

    def ev_Subscript(self, n, env):
        v = self.ev(n.value, env)
        idx = self.ev(n.slice, env)
        return self.getitem(v, idx, n)

    def getitem(self, v, idx, node):
        if isinstance(v, C) and isinstance(v.v, str):
            if isinstance(idx, Slc):
                return Unk()
            if isinstance(idx, C):
                try:
                    return C(v.v[idx.v])
                except (IndexError, TypeError):
                    raise Raised("IndexError", self.where(node)) from None
            return Unk()
        if isinstance(v, C) or isinstance(v, Num) and not v.np_:
            raise Raised("TypeError", self.where(node))
        if isinstance(v, Seq):
            if v.items is not None:
                if isinstance(idx, C) and isinstance(idx.v, int):
                    if -len(v.items) <= idx.v < len(v.items):
                        return v.items[idx.v]
                    raise Raised("IndexError", self.where(node))
                if isinstance(idx, Slc):
                    b = [x.v if isinstance(x, C) else "?" for x in (idx.lo, idx.hi, idx.st)]
                    if "?" not in b:
                        return Seq(v.items[slice(*b)], kind=v.kind)
                    return Seq(None, Unk(taint(v)), None, v.kind, taint(v, idx))
                if isinstance(idx, (Seq, Arr)):
                    raise Raised("TypeError", self.where(node))
                return Unk(taint(v, idx))
            if isinstance(idx, Slc):
                return Seq(None, v.elem, None, v.kind, taint(v, idx))
            if isinstance(idx, Seq):
                raise Raised("TypeError", self.where(node))
            return v.elem if v.elem is not None else Unk(taint(v))
        if isinstance(v, Dct):
            if v.items is not None and isinstance(idx, C):
                if idx.v in v.items:
                    return v.items[idx.v]
                raise Raised("KeyError", self.where(node))
            return Unk(taint(v))
        if isinstance(v, Arr):
            return self.arr_getitem(v, idx, node)
        return Unk(taint(v, idx))

    def slice_len(self, s, d):
        """(length, lower bound) of a slice of a dimension"""
        if d is None:
            return None, None
        if not (isinstance(s.st, C) and s.st.v in (None, 1)):
            if isinstance(s.st, C) and s.st.v == -1 and all(isinstance(x, C) and x.v is None for x in (s.lo, s.hi)):
                return d, None
            return None, None
        lo, hi = P(0), d
        for k, x in (("lo", s.lo), ("hi", s.hi)):
            if isinstance(x, C) and x.v is None:
                continue
            n = self.num(x)
            if n is None or n.p is None:
                return None, None
            p = n.p
            s_ = sign(p)
            if s_ == "-":
                p = d + p
                if sign(p) not in ("+", "0", ">="):
                    return None, None
            elif s_ not in ("+", "0", ">="):
                return None, None
            if sign(d - p) not in ("+", "0", ">="):
                if sign(d - p) in ("-", "<="):
                    p = d
                else:
                    return None, None
            if k == "lo":
                lo = p
            else:
                hi = p
        r = hi - lo
        if sign(r) in ("+", "0", ">="):
            return r, lo
        if sign(r) == "-":
            return P(0), lo
        return None, None

    def arr_getitem(self, v, idx, node):
        t = taint(v, idx)
        parts = idx.items if isinstance(idx, Seq) and idx.kind == "tuple" and idx.items is not None else [idx]
        if isinstance(idx, Seq) and idx.kind == "tuple" and idx.items is None:
            return Unk(t)
        if v.dims is None:
            return Unk(t) if any(not isinstance(p, Slc) for p in parts) else Arr(None, v.dt, t=t)
        fancy = any(isinstance(p, (Arr, Unk)) or isinstance(p, Seq) for p in parts)
        if fancy:
            if len(parts) == 1 and isinstance(parts[0], Arr) and parts[0].dt == "b":
                return Arr((None,) + v.dims[len(parts[0].dims or (1,)):], v.dt, t=t, term=("mask",))
            if len(parts) == 1 and isinstance(parts[0], (Arr, Seq)):
                ia = self.as_arr(parts[0])
                if ia.items is not None and v.items is not None and all(isinstance(i, C) for i in ia.items):
                    try:
                        return Arr(ia.dims, v.dt, t=t, items=[v.items[i.v] for i in ia.items])
                    except IndexError:
                        raise Raised("IndexError", self.where(node)) from None
                if ia.items is not None and v.dims and v.dims[0] is not None:
                    for i in ia.items:
                        k = self.num(i)
                        if k is not None and k.p is not None and sign(k.p - v.dims[0]) in ("+", "0", ">="):
                            raise Raised("IndexError", self.where(node))
                return Arr((ia.dims if ia.dims is not None else (None,)) + v.dims[1:], v.dt, t=t) if ia.dims is not None else Arr(None, v.dt, t=t, term=("mask",))
            # index arrays of tainted content may be out of range
            d = 0
            for p in parts:
                if isinstance(p, C) and p.v is None:
                    continue
                if isinstance(p, (Arr, Seq)) and d < len(v.dims) and v.dims[d] is not None:
                    ia = self.as_arr(p)
                    for i in ia.items or ():
                        k = self.num(i)
                        if k is not None and k.p is not None and sign(k.p - v.dims[d]) in ("+", "0", ">="):
                            raise Raised("IndexError", self.where(node))
                d += 1
            return Arr(None, v.dt, t=t, term=("mask",))
        dims = []
        lows = []
        d = 0
        scalar = []
        n_el = sum(1 for p in parts if isinstance(p, C) and p.v is Ellipsis)
        for p in parts:
            if isinstance(p, C) and p.v is Ellipsis:
                k = len(v.dims) - (len(parts) - n_el - sum(1 for q in parts if isinstance(q, C) and q.v is None))
                dims += v.dims[d:d + k]
                lows += [P(0)] * k
                d += k
                continue
            if isinstance(p, C) and p.v is None:
                dims.append(P(1))
                continue
            if d >= len(v.dims):
                raise Raised("IndexError", self.where(node))
            if isinstance(p, Slc):
                ln, lo = self.slice_len(p, v.dims[d])
                dims.append(ln)
                lows.append(lo)
            else:
                k = self.num(p)
                scalar.append(p)
                if k is not None and k.kind in ("f", "c"):
                    raise Raised("IndexError", self.where(node))
                if k is not None and k.p is not None and v.dims[d] is not None:
                    if not self.unchecked() and (sign(k.p - v.dims[d]) in ("+", "0", ">=") or sign(k.p + v.dims[d]) == "-"):
                        raise Raised("IndexError", self.where(node))
            d += 1
        dims += v.dims[d:]
        lows += [P(0)] * (len(v.dims) - d)
        if v.items is not None and len(v.dims) == 1 and len(parts) == 1:
            p = parts[0]
            if isinstance(p, C) and isinstance(p.v, int) and -len(v.items) <= p.v < len(v.items):
                return v.items[p.v]
            if isinstance(p, Slc):
                b = [x.v if isinstance(x, C) else "?" for x in (p.lo, p.hi, p.st)]
                if "?" not in b:
                    its = v.items[slice(*b)]
                    return Arr((P(len(its)),), v.dt, t=t, items=its)
        sub = v.fx & {"fin", "nonneg", "el"}
        if self.elsewhere(v) and scalar and all(isinstance(p, C) for p in scalar):
            # a fixed row or entry of an array of any size: what is wrong is somewhere else
            t = taint(idx)
            sub = sub | {"fin"}
        if "el" in v.fx and not taint(idx) and not dims:
            t = False
        if not dims:
            if "neg" in v.fx and "asc" in v.fx and isinstance(scalar[0], C) and scalar[0].v == 0:
                return Num(v.dt or "f", None, -INF, -0.3, t=t, np_=True)
            if "asc" in v.fx and self.kind == "content" and isinstance(scalar[0], C) and pconst(v.dims[0]) != 1 and v.dims[0] is not None:
                t = False  # the other eigenvalues are as the caller likes
            return Num(v.dt or "f", t=t, np_=True)
        term = None
        if v.base is not None and len(v.dims) == 2 and len(dims) == 2 and not scalar and v.part == "full" and None not in dims and None not in lows:
            half = pdiv(v.dims[0], 2)
            blk = []
            for ln, lo in zip(dims, lows):
                if half is not None and ln == half and lo == P(0):
                    blk.append(0)
                elif half is not None and ln == half and lo == half:
                    blk.append(1)
                elif lo == P(0) and ln == v.dims[0]:
                    blk.append("all")
                else:
                    blk.append("?")
            if blk == ["all", "all"]:
                return v
            if all(isinstance(x, int) for x in blk) and not v.ops:
                if v.tr:
                    blk = blk[::-1]
                term = ("blk", v.base.name, blk[0], blk[1])
                return Arr(dims, v.dt, sub, base=None, t=t, term=("T", term) if v.tr else term)
        return Arr(dims, v.dt, sub, t=t)

    def unchecked(self):
        """compiled code does not check its indices"""
        return bool(self.stack) and self.stack[-1].jit is not None

    def elsewhere(self, v):
        """an array whose wrong entries a fixed row, entry or the diagonal need not contain"""
        return (self.kind == "content" and v.base is not None and v.dims is not None and v.dims and all(d is not None and pconst(d) is None for d in v.dims)
                and not (v.base.states & {"unphysical", "impure", "nonclassical", "indef", "nonsymp"})
                and (v.fx & {"nan", "nanim", "neg"} or v.base.sym in ("asym", "asymim", "herm")))

    # comprehension
    def comp(self, n, env, kind):
        """elements of a comprehension: list, or (None, generic element)"""
        env2 = {"$outer": env}
        out = []
        unknown = [False, False, None, None]

        def go(i):
            if i == len(n.generators):
                if isinstance(n, ast.DictComp):
                    out.append((self.ev(n.key, env2), self.ev(n.value, env2)))
                else:
                    out.append(self.ev(n.elt, env2))
                return
            g = n.generators[i]
            it = self.ev(g.iter, env2)
            if isinstance(it, Num) or isinstance(it, C) and not isinstance(it.v, str):
                raise Raised("TypeError", self.where(n))
            items = self.iter_items(it)
            if items is not None and len(items) <= 24 and len(out) < 64:
                xs = list(items)
            else:
                unknown[0] = True
                unknown[1] = unknown[1] or taint(it)
                if i == 0 and len(n.generators) == 1 and not g.ifs:
                    unknown[2] = self.length(it)
                xs = [self.elem(it)]
            for x in xs:
                self.assign(g.target, x, env2, n)
                ok = True
                for c in g.ifs:
                    b = self.tri(self.ev(c, env2))
                    if b is False:
                        ok = False
                        break
                    if b is None:
                        unknown[0] = True
                        unknown[1] = unknown[1] or taint(self.ev(c, env2))
                if ok:
                    go(i + 1)
        go(0)
        return out, unknown

    def ev_ListComp(self, n, env, kind="list"):
        out, u = self.comp(n, env, kind)
        if not u[0]:
            return Seq(out, kind=kind)
        t = u[1] or taint(*out)
        e = out[0] if len(out) == 1 else Unk(t)
        return Seq(None, e, u[2], kind, t)

    def ev_GeneratorExp(self, n, env):
        return self.ev_ListComp(n, env, "gen")

    def ev_SetComp(self, n, env):
        r = self.ev_ListComp(n, env, "set")
        return Seq(None, r.elem or Unk(taint(r)), None, "set", taint(r))

    def ev_DictComp(self, n, env):
        out, u = self.comp(n, env, "dict")
        if not u[0] and all(isinstance(k, C) for k, _ in out):
            return Dct({k.v: v for k, v in out})
        return Dct(None, u[1] or any(taint(k, v) for k, v in out))

    def ev_Starred(self, n, env):
        return self.ev(n.value, env)

    def length(self, v):
        if isinstance(v, Seq):
            return v.n
        if isinstance(v, Arr):
            return v.dims[0] if v.dims else None
        if isinstance(v, Dct):
            return P(len(v.items)) if v.items is not None else None
        if isinstance(v, C) and isinstance(v.v, str):
            return P(len(v.v))
        return None

    def ev_Call(self, n, env):
        f = self.ev(n.func, env)
        args = []
        star_unknown = False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                its = self.iter_items(v)
                if its is None:
                    star_unknown = True
                    args.append(Unk(taint(v)))
                else:
                    args.extend(its)
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, Dct) and v.items is not None:
                    kw.update({str(a): b for a, b in v.items.items()})
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        if star_unknown and isinstance(f, Fun):
            t = taint(args, kw)
            if t:
                self.may_raise(n)
            return Unk(t)
        return self.call(f, args, kw, n, env)

    # -- library -----------------------------------------------------------------------
    def lib(self, name, args, kw, node):
        f = LIB.get(name)
        if f is not None:
            return f(self, args, kw, node)
        t = taint(args, kw)
        root = name.split(".")[0]
        short = name.split(".")[-1]
        if name.startswith("builtins.") and short in BUILTIN_EXC | {"Exception"}:
            return Unk()
        if name.startswith(("numpy.linalg.", "scipy.linalg.")):
            return linalg(self, short, args, kw, node)
        if name in ("warnings.warn", "builtins.print"):
            return NONE
        if root in ("numpy", "scipy", "math", "itertools", "collections", "functools", "builtins", "dask", "sympy", "numba", "operator"):
            if short in TOTAL or not t:
                return Unk(t)
            if name.startswith("numpy.random") or name.startswith("scipy.special") or name.startswith("scipy.stats"):
                return Unk(t)
        if t:
            self.may_raise(node, root in ("numpy", "scipy"))
        return Unk(t)

    def method(self, obj, name, args, kw, node):
        if isinstance(obj, Arr):
            f = ARR_METHODS.get(name)
            if f is not None:
                return f(self, [obj] + list(args), kw, node)
            return Unk(taint(obj, args, kw))
        if isinstance(obj, Seq):
            if name == "append":
                if obj.items is not None:
                    obj.items.append(args[0])
                    obj.n = P(len(obj.items))
                else:
                    obj.n, obj.t = None, taint(obj, args)
                return NONE
            if name == "extend":
                its = self.iter_items(args[0])
                if obj.items is not None and its is not None:
                    obj.items.extend(its)
                    obj.n = P(len(obj.items))
                else:
                    obj.items, obj.elem, obj.n, obj.t = None, Unk(taint(obj, args)), None, taint(obj, args)
                return NONE
            if name == "copy":
                return Seq(obj.items, obj.elem, obj.n, obj.kind, obj.t) if obj.items is not None else Seq(None, obj.elem, obj.n, obj.kind, obj.t)
            if name in ("sort", "reverse", "insert", "remove", "clear", "add", "update", "discard"):
                obj.items, obj.elem, obj.t = None, Unk(taint(obj, args)), taint(obj, args)
                if name not in ("sort", "reverse"):
                    obj.n = None
                return NONE
            if name == "tolist":
                raise Raised("AttributeError", self.where(node))
            return Unk(taint(obj, args))
        if isinstance(obj, Dct):
            if name == "items" and obj.items is not None:
                return Seq([Seq([C(k), v], kind="tuple") for k, v in obj.items.items()])
            if name == "keys" and obj.items is not None:
                return Seq([C(k) for k in obj.items])
            if name == "values" and obj.items is not None:
                return Seq(list(obj.items.values()))
            if name == "get" and obj.items is not None and args and isinstance(args[0], C):
                return obj.items.get(args[0].v, args[1] if len(args) > 1 else NONE)
            return Unk(taint(obj, args))
        if isinstance(obj, (Num, C)):
            if name == "conjugate" or name == "conj":
                return obj
            if name == "is_integer" and isinstance(obj, Num):
                return FALSE if obj.frac else bool_(None, obj.t)
            if isinstance(obj, C) and isinstance(obj.v, str) and all(isinstance(a, C) for a in args) and not kw:
                try:
                    r = getattr(obj.v, name)(*[a.v for a in args])
                    if isinstance(r, (str, bool, int)):
                        return C(r)
                except (AttributeError, TypeError, ValueError, KeyError, IndexError):
                    pass
            if name in ("any", "all") and isinstance(obj, Num):
                return obj
            return Unk(taint(obj, args))
        t = taint(obj, args, kw)
        return Unk(t)


def v_fx(v):
    return {"fin"}


def mterm(a):
    if a.term is not None and a.term[0] in ("blk", "mm", "T", "sub"):
        return a.term
    if a.base is not None and a.part == "full" and not a.ops:
        t = ("base", a.base.name)
        return ("T", t) if a.tr else t
    if "omega" in a.fx and not a.ops:
        return ("-omega",) if a.tr else ("omega",)
    if "ident" in a.fx and not a.ops:
        return ("eye",)
    return None


def factors(t):
    return factors(t[1]) + factors(t[2]) if t[0] == "mm" else [t]


def tterm(t):
    if t[0] == "mm":
        return ("mm", tterm(t[2]), tterm(t[1]))
    if t[0] == "T":
        return t[1]
    if t[0] == "sub":
        return ("sub", tterm(t[1]), tterm(t[2]))
    if t[0] == "eye":
        return t
    if t[0] in ("omega", "-omega"):
        return ("-omega",) if t[0] == "omega" else ("omega",)
    return ("T", t)


# ---------------------------------------------------------------------------
# library functions
# ---------------------------------------------------------------------------
LIBCONST = {"sys.platform": C("linux"), "numpy.pi": C(math.pi), "math.pi": C(math.pi), "numpy.inf": C(INF), "numpy.newaxis": NONE,
            "numpy.nan": C(float("nan")), "numpy.e": C(math.e), "math.inf": C(INF)}

TOTAL = set("""sqrt exp log log2 prod cosh sinh tanh cos sin arctan arctanh arcsinh angle sign heaviside argsort sort argmax argmin
where nonzero cumsum cumprod outer kron ix_ unique roots poly polyval polymul convolve factorial binom comb product combinations
permutations chain from_iterable repeat accumulate fft ifft round around rint floor ceil trunc power multiply add subtract divide
unravel_index searchsorted histogram tile repeat flip roll fill_diagonal result_type real_if_close trace maximum minimum ndindex
bincount var std mean median average OrderedDict Counter namedtuple defaultdict partial reduce lru_cache islice zip_longest
float64 complex128 int64 int32 float32 complex64 int8 uint8 vectorize apply_along_axis count_nonzero expand_dims squeeze swapaxes
moveaxis rollaxis flatnonzero isin in1d setdiff1d intersect1d union1d nan_to_num clip diff ediff1d triu_indices tril_indices indices
meshgrid linspace logspace geomspace compute delayed dict str repr iter next set frozenset sorted map filter id hash pow Fraction
hyp2f1 eval_hermite nbinom gammaln root_scalar issubdtype can_cast finfo iinfo copyto""".split())


def _arr(ev, v):
    return ev.to_array(v)


def _any(ev, args, kw, node, which=0):
    v = args[0]
    t = ev.entry_taint(v)
    if isinstance(v, (C, Num)):
        b = ev.tri(v)
        return bool_(b, t, v.term)
    if isinstance(v, Seq):
        its = v.items
        if its is not None and all(isinstance(x, (C, Num)) for x in its):
            rs = [ev.tri(x) for x in its]
            if which == 0:
                return bool_(True if True in rs else False if all(r is False for r in rs) else None, t)
            return bool_(False if False in rs else True if all(r is True for r in rs) else None, t)
        if its is None and v.elem is not None:
            b = ev.tri(v.elem)
            if b is not None and v.n is not None and sign(v.n) == "+":
                return C(b)
        return bool_(None, t)
    if isinstance(v, Arr):
        if kw.get("axis") is not None and not (isinstance(kw["axis"], C) and kw["axis"].v is None) or len(args) > 1:
            return Arr(None, "b", t=t)
        if v.ba is not None:
            if t and ev.kind == "content" and v.ba[1 - which] is not None and v.dims is not None and None not in v.dims and any(pconst(d) != 1 for d in v.dims):
                t = False  # the entry that is wrong settles the other question only
            return bool_(v.ba[which], t)
        if v.items is not None:
            return _any(ev, [Seq(v.items)], {}, node, which)
        if v.dims is not None and any(d is not None and pconst(d) == 0 for d in v.dims):
            return C(which == 1)
        if v.fx & {"nan", "nonzero"} and which == 0:
            return TRUE
        return bool_(None, t)
    return bool_(None, t)


def _all(ev, args, kw, node):
    return _any(ev, args, kw, node, 1)


def _b_any(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Arr) and v.dims is not None and len(v.dims) > 1:
        if all(d is not None and sign(d - P(1)) == "+" for d in v.dims):
            raise Raised("ValueError", ev.where(node))
    return _any(ev, [v], {}, node, 0)


def _b_all(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Arr) and v.dims is not None and len(v.dims) > 1:
        if all(d is not None and sign(d - P(1)) == "+" for d in v.dims):
            raise Raised("ValueError", ev.where(node))
    return _any(ev, [v], {}, node, 1)


def _isnan(ev, args, kw, node):
    v = args[0]
    n = ev.num(v)
    if n is not None and not isinstance(v, Arr):
        if "nan" in n.fx:
            return TRUE
        return FALSE if n.kind in "ib" or not n.t and n.term is not None and "nan" not in n.fx else bool_(None, n.t)
    if isinstance(v, Seq):
        v = ev.to_array(v)
    if isinstance(v, Arr):
        ba = None
        if v.dims is not None and any(d is not None and pconst(d) == 0 for d in v.dims):
            ba = (False, True)
        elif v.part == "full" and v.fx & {"nan", "nanim"} or v.part != "full" and "nan" in v.fx:
            one = v.dims is not None and all(pconst(d) == 1 for d in v.dims if d is not None) and None not in v.dims
            ba = (True, True if one else False)
        elif "fin" in v.fx or v.dt in ("i", "b"):
            ba = (False, False)
        t = v.t
        if ba is None and ev.kind == "content" and not v.fx & {"nan", "nanim"} and ev.state_kind:
            t = False  # nothing that can be told from a state being unphysical, mixed, ...
        return Arr(v.dims, "b", v.fx & {"el"}, t=t, ba=ba)
    return Unk(taint(v))


def _isfinite(ev, args, kw, node):
    r = _isnan(ev, args, kw, node)
    if isinstance(r, Arr):
        return ev.unop("Invert", r, node)
    if isinstance(r, C):
        return C(not r.v)
    return bool_(None, taint(r))


def tol_ok(ev, v):
    """a tolerance that is certainly small"""
    if v is None:
        return True
    n = ev.num(v)
    return n is not None and n.hi <= 0.05 and n.kind != "c"


def _allclose(ev, args, kw, node):
    a, b = args[0], args[1]
    t = ev.entry_taint(a, b)
    tol = list(args[2:]) + [kw.get("rtol"), kw.get("atol")]
    if "equal_nan" in kw and not (isinstance(kw["equal_nan"], C) and kw["equal_nan"].v is False):
        return bool_(None, t)
    x, y = ev.as_arr(a), ev.as_arr(b)
    if x is None or y is None:
        return bool_(None, t)
    ev.broadcast(x.dims, y.dims, node, t)
    if nan_in(x) or nan_in(y):
        return FALSE
    if not all(tol_ok(ev, v) for v in tol):
        return bool_(None, t)
    e = ev.same_entries(x, y)
    if e is not None:
        return C(e)
    for p, q, s in ((x, y, b), (y, x, a)):
        n = ev.num(s) if not isinstance(s, Arr) else None
        zero = n is not None and n.lo == n.hi == 0 and n.kind != "c" or "zero" in q.fx
        if zero and p.fx & {"bigdiff", "nonzero", "neg"}:
            return FALSE
        if zero and p.base is not None and "nonzero" in p.fx:
            return FALSE
        if zero and "zero" in p.fx:
            return TRUE
        if q.term is not None and q.term[0] == "diagm" and p.base is not None and q.term[1] == p.base.name and p.base.offdiag:
            if p.part == "full":
                return FALSE
    nx, ny = ev.num(a) if not isinstance(a, Arr) else None, ev.num(b) if not isinstance(b, Arr) else None
    if nx is not None and ny is not None and nx.kind != "c" and ny.kind != "c":
        if nx.hi < ny.lo - 0.06 * max(1, abs(ny.lo)) and abs(ny.lo) <= 2 or nx.lo > ny.hi + 0.06 * max(1, abs(ny.hi)) and abs(ny.hi) <= 2:
            return FALSE
    if x.term is not None and x.term == y.term and x.term[0] == "diag" and "fin" in x.fx and not nan_in(x):
        return TRUE
    # block products of a symplectic matrix
    r = symp_close(x, y)
    if r is not None:
        return C(r)
    if x.items is not None and y.items is not None and len(x.items) == len(y.items):
        rs = [ev.num_cmp("Eq", ev.num(p), ev.num(q)) for p, q in zip(x.items, y.items)]
        if all(r is True for r in rs):
            return TRUE
    ta, tb = (mterm(x) or x.term), (mterm(y) or y.term)
    if ev.state_kind and x.uid == y.uid and x.tr != y.tr:
        t = False  # symmetric or not: nothing that can be told from a state being unphysical, mixed, ...
    return bool_(None, t, ("close", ta, tb) if ta is not None and tb is not None and not t else None)


SYMP = {}  # base name -> set of the violated conditions


def symp_close(x, y):
    tx, ty = mterm(x), mterm(y)
    if tx is None:
        tx = x.term
    if ty is None:
        ty = y.term
    if tx is None or ty is None:
        return None
    for p, q in ((tx, ty), (ty, tx)):
        # S^T Omega S = Omega, or S Omega S^T = Omega
        if p[0] == "mm" and q[0] == "omega":
            f = factors(p)
            if len(f) == 3 and f[1] == ("omega",) and f[0] == tterm(f[2]) and f[2][-1:] != () and f[0][0] in ("T", "base") and f[2][0] in ("T", "base"):
                n = (f[0][1] if f[0][0] == "T" else f[0])[1]
                if n in SYMP:
                    return not SYMP[n]
        if p[0] == "sub" and q[0] == "eye":
            g, h = (factors(u) for u in p[1:])
            if len(g) == len(h) == 2 and all(u[0] == "T" and u[1][0] == "blk" for u in (g[0], h[0])) and all(u[0] == "blk" for u in (g[1], h[1])):
                n = g[1][1]
                ix = (g[0][1][2:], g[1][2:], h[0][1][2:], h[1][2:])
                if n in SYMP and all(u[1] == n for u in (g[0][1], h[0][1], h[1])) and ix in (
                        ((0, 0), (1, 1), (1, 0), (0, 1)), ((1, 1), (0, 0), (0, 1), (1, 0))):
                    return "ad" not in SYMP[n]
        if p[0] == "mm" and q == tterm(p) and p[1][0] == "T" and p[1][1][0] == "blk" and p[2][0] == "blk":
            name = p[1][1][1]
            if name in SYMP and p[2][1] == name:
                l, r = p[1][1][2:], p[2][2:]
                if {l, r} == {(0, 0), (1, 0)}:
                    return "ac" not in SYMP[name]
                if {l, r} == {(0, 1), (1, 1)}:
                    return "bd" not in SYMP[name]
    return None


def nan_in(v):
    if v.part == "full" or v.base is None:
        return bool(v.fx & {"nan", "nanim"})
    return "nan" in v.fx


def _isclose(ev, args, kw, node):
    a, b = args[0], args[1]
    x, y = ev.as_arr(a), ev.as_arr(b)
    r = _allclose(ev, args, kw, node)
    if x is not None and y is not None and x.dims == () and y.dims == ():
        return r
    dims = ev.broadcast(x.dims, y.dims, node, False) if x is not None and y is not None else None
    if isinstance(r, C):
        return Arr(dims, "b", t=taint(a, b), ba=(True, True) if r.v else (None, False))
    return Arr(dims, "b", t=taint(a, b))


def _array_equal(ev, args, kw, node):
    a, b = args[0], args[1]
    x, y = ev.to_array(a), ev.to_array(b)
    t = taint(a, b)
    if x.dims is not None and y.dims is not None:
        if len(x.dims) != len(y.dims):
            return FALSE
        for p, q in zip(x.dims, y.dims):
            if p is not None and q is not None and sign(p - q) in ("+", "-"):
                return FALSE
    if nan_in(x) or nan_in(y):
        return FALSE
    e = ev.same_entries(x, y)
    return bool_(e, t)


def _transpose(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Seq):
        v = ev.to_array(v)
    if isinstance(v, Arr) and len(args) == 1 and not kw:
        return ev.transpose(v)
    if isinstance(v, Arr):
        return Arr(None, v.dt, v.fx & {"nan", "nanim", "fin"}, t=taint(args, kw))
    return Unk(taint(args, kw))


def _conj(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Arr):
        return v.but(cj=not v.cj) if v.dt != "f" and v.term is None or v.base is not None else v
    return v


def _real(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Seq):
        v = ev.to_array(v)
    if isinstance(v, Arr):
        return ev.part(v, "re")
    return Unk(taint(v)) if ev.num(v) is None else v if ev.num(v).kind != "c" else Num("f", t=v.t)


def _imag(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Arr):
        return ev.part(v, "im")
    return Unk(taint(v))


def _abs(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Arr):
        if v.items is not None:
            return v.but(items=[_abs(ev, [x], {}, node) for x in v.items], base=None, part="abs", fx=(v.fx & {"nan", "fin"}) | {"nonneg"})
        fx = v.fx & {"fin", "bigdiff", "zero", "nonzero"}
        if v.fx & {"nan", "nanim"} and nan_in(v):
            fx = fx | {"nan"}
        if "neg" in v.fx and "asc" in v.fx:
            return Arr(v.dims, v.dt, fx | {"nonneg"}, None, part="abs", t=False)  # the sign is gone
        fx = fx | (v.fx & {"el"})
        return Arr(v.dims, "f" if v.dt in ("c", "f") else v.dt, fx | {"nonneg"}, v.base if v.part == "full" else None, v.tr, False, "abs", v.t, ops=v.ops)
    n = ev.num(v)
    if isinstance(v, C) and n is not None:
        return C(abs(v.v))
    if n is not None:
        if n.lo >= 0:
            return v
        if n.hi <= 0:
            return ev.unop("USub", v, node)
        return Num("f" if n.kind == "c" else n.kind, None, 0, max(abs(n.lo), abs(n.hi)) if n.kind != "c" else INF, n.fx, n.t)
    return Unk(taint(v))


def _diag(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Seq):
        v = ev.to_array(v)
    if not isinstance(v, Arr) or v.dims is None:
        return Unk(taint(args, kw)) if not isinstance(v, Arr) else Arr(None, v.dt, t=taint(args, kw))
    k = args[1] if len(args) > 1 else kw.get("k", kw.get("offset"))
    main = k is None or isinstance(k, C) and k.v == 0
    if len(v.dims) == 2:
        d = None
        if v.dims[0] is not None and v.dims[1] is not None and main:
            s = sign(v.dims[0] - v.dims[1])
            d = v.dims[0] if s in ("-", "0", "<=") else v.dims[1] if s in ("+", ">=") else None
        t, fx = taint(args, kw), v.fx & {"fin", "nonneg", "el"}
        if ev.elsewhere(v) and main:
            t, fx = False, fx | {"fin"}
        return Arr((d,), v.dt, fx, t=t, term=("diag", v.base.name) if v.base is not None and main and v.part == "full" else None)
    if len(v.dims) == 1 and main:
        term = ("diagm", v.term[1]) if v.term is not None and v.term[0] == "diag" else None
        return Arr((v.dims[0], v.dims[0]), v.dt, t=taint(args, kw), term=term)
    return Arr((None, None) if len(v.dims) == 1 else None, v.dt, t=taint(args, kw))


def _array(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Unk):
        return Arr(None, None, t=v.t)
    r = ev.to_array(v)
    d = kw.get("dtype", args[1] if len(args) > 1 else None)
    if d is not None:
        return _cast(ev, r, d, node)
    return r


def dt_of(d):
    if isinstance(d, Lib):
        s = d.name.split(".")[-1]
        if s.startswith("int") or s.startswith("uint"):
            return "i"
        if s.startswith("float"):
            return "f"
        if s.startswith("complex"):
            return "c"
        if s.startswith("bool"):
            return "b"
    return None


def _cast(ev, v, d, node):
    k = dt_of(d)
    if not isinstance(v, Arr):
        return Unk(taint(v, d))
    its = v.items
    if k == "i":
        if its is not None:
            its = [to_int(ev, x) for x in its]
        fx = set(v.fx) & {"neg", "fin", "el", "nonneg"}
        return Arr(v.dims, "i", fx, t=v.t, items=its)
    if k == "f" and v.dt == "c":
        return ev.part(v, "re").but(part=v.part) if False else ev.part(v, "re")
    if k == "c" and v.dt == "f":
        return v.but(dt="c", base=v.base)
    if k is None:
        return v.but(t=taint(v, d))
    return v.but(dt=k)


def to_int(ev, x):
    if isinstance(x, C):
        try:
            return C(int(x.v))
        except (TypeError, ValueError, OverflowError):
            return Num("i", t=False)
    n = ev.num(x)
    if n is None:
        return Num("i", t=taint(x))
    if n.p is not None:
        return Num("i", n.p, t=n.t)
    lo = math.trunc(n.lo) if abs(n.lo) != INF else n.lo
    hi = math.trunc(n.hi) if abs(n.hi) != INF else n.hi
    if lo == hi:
        return Num("i", P(lo), t=n.t)
    return Num("i", None, lo, hi, t=n.t)


def _astype(ev, args, kw, node):
    return _cast(ev, args[0], args[1] if len(args) > 1 else kw.get("dtype", Unk()), node)


def _same(ev, args, kw, node):
    v = args[0]
    return v if isinstance(v, (Arr, C, Num)) else Unk(taint(v)) if not isinstance(v, Seq) else ev.to_array(v)


def _shape_arg(ev, v):
    if isinstance(v, Seq):
        if v.items is None:
            return None
        out = []
        for x in v.items:
            n = ev.num(x)
            out.append(n.p if n is not None else None)
        return tuple(out)
    n = ev.num(v)
    return (n.p,) if n is not None else None


def _filled(fx, square=False):
    def f(ev, args, kw, node):
        s = args[0] if args else kw.get("shape", kw.get("N", Unk()))
        dims = _shape_arg(ev, s)
        if square:
            n = ev.num(s)
            p = n.p if n is not None else None
            m = args[1] if len(args) > 1 and isinstance(args[1], (C, Num)) else kw.get("M")
            q = ev.num(m).p if m is not None and ev.num(m) is not None else p
            dims = (p, q)
        d = kw.get("dtype")
        return Arr(dims, dt_of(d) if d is not None else "f", set(fx) | {"fin"}, t=taint(args, kw))
    return f


def _like(fx):
    def f(ev, args, kw, node):
        v = ev.to_array(args[0])
        return Arr(v.dims, v.dt, set(fx) | {"fin"}, t=v.t)
    return f


def _sum(ev, args, kw, node):
    v = args[0]
    t = taint(args, kw)
    if "axis" in kw or len(args) > 1 and isinstance(v, Arr):
        return Arr(None, v.dt if isinstance(v, Arr) else None, t=t)
    its = ev.iter_items(v)
    if its is not None and all(ev.num(x) is not None for x in its):
        r = C(0)
        for x in its:
            r = ev.binop("Add", r, x, node)
        return r
    if isinstance(v, Arr):
        if nan_in(v):
            return Num("f", fx=["nan"], t=t)
        if "el" in v.fx or ev.kind == "content" and "neg" in v.fx and v.dims is not None and all(d is not None and pconst(d) != 1 for d in v.dims):
            t = False  # the other entries make up for the negative one
        return Num(v.dt or "f", None, 0 if "nonneg" in v.fx else -INF, t=t, np_=True, term=None)
    if isinstance(v, Seq) and isinstance(v.elem, (Num, C)):
        e = ev.num(v.elem)
        if e is not None and v.n is not None and e.p is not None and pconst(e.p) is not None:
            return Num("i", v.n * e.p, t=t)
        return Num(e.kind if e is not None else "f", lo=0 if e is not None and e.lo >= 0 else -INF, t=t)
    if isinstance(v, (C, Num)):
        raise Raised("TypeError", ev.where(node))
    return Unk(t)


def _npsum(ev, args, kw, node):
    if isinstance(args[0], (Num, C)):
        return args[0]
    return _sum(ev, args, kw, node)


def _minmax(which):
    def f(ev, args, kw, node):
        t = taint(args, kw)
        if "axis" in kw:
            return Unk(t)
        v = args[0]
        its = ev.iter_items(v) if len(args) == 1 else args
        if its is not None and its and all(ev.num(x) is not None for x in its):
            ns = [ev.num(x) for x in its]
            if all(isinstance(x, C) for x in its):
                try:
                    return C((min if which == "min" else max)(x.v for x in its))
                except TypeError:
                    pass
            if any("nan" in n.fx for n in ns):
                return Num("f", fx=["nan"], t=t)
            g = min if which == "min" else max
            return Num("f" if any(n.kind == "f" for n in ns) else "i", None, g(n.lo for n in ns), g(n.hi for n in ns), t=t)
        if its is not None and not its:
            raise Raised("ValueError", ev.where(node))
        if isinstance(v, Arr):
            if nan_in(v):
                return Num("f", fx=["nan"], t=t)
            if which == "min" and "neg" in v.fx:
                return Num(v.dt or "f", None, -INF, -0.3, t=t)
            if which == "min" and "nonneg" in v.fx:
                return Num(v.dt or "f", None, 0 if "bigdiff" not in v.fx else 0, INF, t=t)
            if which == "max" and "bigdiff" in v.fx and v.part == "abs":
                return Num("f", None, 0.4, INF, t=t)
            if which == "max" and "zero" in v.fx:
                return Num("f", None, 0, 0, t=t)
            return Num(v.dt or "f", t=t and "el" not in v.fx)
        return Unk(t)
    return f


def _norm(ev, args, kw, node):
    v = args[0]
    t = taint(args, kw)
    if isinstance(v, Arr):
        if nan_in(v):
            return Num("f", fx=["nan"], t=t)
        if "bigdiff" in v.fx or "nonzero" in v.fx:
            return Num("f", None, 0.4, INF, t=t)
        if "zero" in v.fx:
            return Num("f", None, 0, 0, t=t)
    return Num("f", None, 0, INF, t=t)


def _det(ev, args, kw, node):
    v = args[0]
    t = taint(args, kw)
    if isinstance(v, Arr):
        nonsquare(ev, v, node)
        if nan_in(v):
            return Num("f", fx=["nan"], t=t)
        if v.base is not None:
            if "impure" in v.base.states and v.ops:
                return Num("f", None, 2.0, 1e6, t=t)
            if "pure" in v.base.states and v.ops:
                return Num("f", None, 1.0, 1.0, t=t)
            if "indef" in v.base.states and v.dims and v.dims[0] is not None and pconst(v.dims[0]) != 1:
                t = False  # two negative eigenvalues
    return Num("f", t=t)


def nonsquare(ev, v, node):
    if v.dims is not None:
        if len(v.dims) == 1:
            raise Raised("LinAlgError", ev.where(node))
        p, q = v.dims[-2], v.dims[-1]
        if p is not None and q is not None and sign(p - q) in ("+", "-"):
            raise Raised("LinAlgError", ev.where(node))


def linalg(ev, name, args, kw, node):
    t = taint(args, kw)
    v = args[0] if args else Unk()
    if isinstance(v, Seq):
        v = ev.to_array(v)
    if name == "norm":
        return _norm(ev, [v] + args[1:], kw, node)
    if isinstance(v, Arr) and "el" in v.fx and name in ("svd", "svdvals", "pinv", "matrix_rank", "qr", "norm"):
        t = False
    if name in ("svd", "svdvals") and isinstance(v, Arr) and (name == "svdvals" or isinstance(kw.get("compute_uv"), C) and not kw["compute_uv"].v):
        return Arr((None,), "f", {"nonneg"} | (v.fx & {"el"}), t=t)
    if name in ("det", "slogdet"):
        return _det(ev, [v], kw, node) if name == "det" else Unk(t)
    if name == "multi_dot":
        return Unk(t)
    if isinstance(v, Arr):
        if name not in ("svd", "svdvals", "qr", "lstsq", "pinv", "block_diag", "polar", "null_space", "matrix_rank"):
            nonsquare(ev, v, node)
        if nan_in(v):
            if name in ("inv", "matrix_power"):
                return Arr(v.dims, v.dt, {"nan"}, t=t)
            if name != "block_diag":
                raise Raised("LinAlgError", ev.where(node))
        n = v.dims[0] if v.dims else None
        if name in ("eigvalsh", "eigh"):
            fx = {"fin"} | (v.fx & {"el"})
            if "negherm" in v.fx or v.base is not None and "indef" in v.base.states and v.part == "full":
                fx |= {"neg", "asc"}
            elif "possemi" in v.fx or v.base is not None and "posdef" in v.base.states:
                fx |= {"nonneg", "pos"}
            if "asymx" in v.fx or v.base is not None and v.base.sym in ("asym", "asymim", "herm"):
                t = False  # LAPACK reads one triangle: the caller puts what is wrong in the other
            vals = Arr((n,), "f", fx, t=t)
            return vals if name == "eigvalsh" else Seq([vals, Arr(v.dims, v.dt, t=t)], kind="tuple")
        if name in ("eigvals",):
            fx = {"neg"} if "negherm" in v.fx or v.base is not None and "indef" in v.base.states and v.base.sym == "sym" else set()
            return Arr((n,), None, fx, t=t)
        if name == "cholesky":
            if v.base is not None and "indef" in v.base.states or "negherm" in v.fx:
                raise Raised("LinAlgError", ev.where(node))
            if t:
                ev.may_raise(node)
            return Arr(v.dims, v.dt, t=t)
        if name in ("inv", "sqrtm", "expm", "matrix_power", "logm"):
            return Arr(v.dims, None, t=t)
        return Unk(t)
    if t:
        ev.may_raise(node, name != "cholesky")
    return Unk(t)


def _len(ev, args, kw, node):
    v = args[0]
    if isinstance(v, (Num, Fun)) or isinstance(v, C) and not isinstance(v.v, str) or isinstance(v, Arr) and v.dims == ():
        raise Raised("TypeError", ev.where(node))
    p = ev.length(v)
    if p is not None:
        c = pconst(p)
        return C(c) if c is not None else Num("i", p, t=ev.shape_taint(v))
    return Num("i", lo=0, t=ev.shape_taint(v))


TYPES = {"builtins.int": "int", "builtins.float": "float", "builtins.complex": "complex", "builtins.bool": "bool", "builtins.list": "list",
         "builtins.tuple": "tuple", "builtins.set": "set", "builtins.range": "range", "builtins.dict": "dict", "builtins.str": "str",
         "numpy.ndarray": "ndarray", "numpy.integer": "npint", "numpy.floating": "npfloat", "numbers.Integral": "Integral", "numbers.Number": "Number",
         "numbers.Real": "Real", "collections.abc.Iterable": "Iterable", "collections.abc.Sequence": "Sequence", "typing.Iterable": "Iterable",
         "collections.abc.Sized": "Sized", "numpy.int64": "npint", "numpy.generic": "npgen", "numpy.matrix": "npmatrix"}


def classes(ev, v):
    """the classes a value is certainly an instance of, or None"""
    if isinstance(v, C):
        if v.v is None:
            return {"NoneType"}
        n = type(v.v).__name__
        out = {n}
        if n == "bool":
            out |= {"int"}
        if n in ("int", "bool"):
            out |= {"Integral", "Real", "Number"}
        if n == "float":
            out |= {"Real", "Number"}
        if n == "complex":
            out |= {"Number"}
        if n == "str":
            out |= {"Iterable", "Sequence", "Sized"}
        return out
    if isinstance(v, Num):
        if v.np_:
            return {"i": {"npint", "npgen", "Integral", "Real", "Number"}, "f": {"npfloat", "npgen", "float", "Real", "Number"}, "c": {"npgen", "complex", "Number"}}.get(v.kind)
        return {"i": {"int", "Integral", "Real", "Number"}, "f": {"float", "Real", "Number"}, "c": {"complex", "Number"}}.get(v.kind)
    if isinstance(v, Seq):
        return {v.kind} | {"Iterable", "Sized"} | ({"Sequence"} if v.kind in ("list", "tuple", "range") else set()) if v.kind in ("list", "tuple", "set", "range") else None
    if isinstance(v, Dct):
        return {"dict", "Iterable", "Sized"}
    if isinstance(v, Arr):
        return {"ndarray", "Iterable", "Sized"}
    return None


def _isinstance(ev, args, kw, node):
    v, ty = args[0], args[1]
    ts = ty.items if isinstance(ty, Seq) else [ty]
    if ts is None:
        return bool_(None, taint(v))
    cl = classes(ev, v)
    names = [TYPES.get(x.name) if isinstance(x, Lib) else None for x in ts]
    if cl is None:
        return bool_(None, taint(v))
    if any(n in cl for n in names if n):
        return TRUE
    if None in names:
        return bool_(None, taint(v))
    return FALSE


def _range(ev, args, kw, node):
    ns = [ev.num(a) for a in args]
    if any(n is None or n.kind in ("f", "c") for n in ns):
        if any(isinstance(a, (Seq, Arr)) or n is not None and n.kind in ("f", "c") for a, n in zip(args, ns)):
            raise Raised("TypeError", ev.where(node))
        return Seq(None, Num("i", t=taint(args)), None, "range", taint(args))
    cs = [pconst(n.p) for n in ns]
    if all(c is not None for c in cs) and (len(cs) < 3 or cs[2] != 0) and len(range(*cs)) <= 12:
        return Seq([C(i) for i in range(*cs)], kind="range")
    if len(ns) <= 2:
        lo = P(0) if len(ns) == 1 else ns[0].p
        hi = ns[-1].p
        if lo is not None and hi is not None:
            s = sign(hi - lo)
            n = hi - lo if s in ("+", "0", ">=") else P(0) if s in ("-", "<=") else None
            e = Num("i", None, lo=Num("i", lo).lo, hi=INF, t=taint(args))
            e.p0, e.p1 = lo, hi
            return Seq(None, e, n, "range", taint(args))
    e = Num("i", t=taint(args))
    return Seq(None, e, None, "range", taint(args))


def _tolist(kind):
    def f(ev, args, kw, node):
        if not args:
            return Seq([], kind=kind)
        v = args[0]
        its = ev.iter_items(v)
        if its is not None:
            if kind == "set":
                if all(isinstance(x, C) for x in its):
                    try:
                        return Seq([C(x) for x in dict.fromkeys(y.v for y in its)], kind="set")
                    except TypeError:
                        raise Raised("TypeError", ev.where(node)) from None
                return Seq(None, Unk(taint(v)), None, "set", taint(v))
            return Seq(list(its), kind=kind)
        if isinstance(v, (C, Num)) or isinstance(v, Arr) and v.dims == ():
            raise Raised("TypeError", ev.where(node))
        return Seq(None, ev.elem(v), ev.length(v) if kind != "set" else None, kind, taint(v))
    return f


def _sorted(ev, args, kw, node):
    its = ev.iter_items(args[0])
    if its is not None and all(isinstance(x, C) for x in its) and not kw:
        try:
            return Seq([C(x) for x in sorted(y.v for y in its)])
        except TypeError:
            pass
    return Seq(None, ev.elem(args[0]) if its is None else Unk(taint(args)), ev.length(args[0]), "list", taint(args))


def _zip(ev, args, kw, node):
    its = [ev.iter_items(a) for a in args]
    if all(i is not None for i in its):
        return Seq([Seq(list(x), kind="tuple") for x in zip(*its)], kind="gen")
    return Seq(None, Seq([ev.elem(a) if i is None else (i[0] if i else Unk()) for a, i in zip(args, its)], kind="tuple"), None, "gen", taint(args))


def _enumerate(ev, args, kw, node):
    its = ev.iter_items(args[0])
    start = args[1] if len(args) > 1 else kw.get("start", C(0))
    if its is not None and isinstance(start, C):
        return Seq([Seq([C(i + start.v), x], kind="tuple") for i, x in enumerate(its)], kind="gen")
    return Seq(None, Seq([Num("i", lo=0), ev.elem(args[0])], kind="tuple"), ev.length(args[0]), "gen", taint(args))


def _int(ev, args, kw, node):
    if not args:
        return C(0)
    v = args[0]
    if isinstance(v, (Seq, Dct)):
        raise Raised("TypeError", ev.where(node))
    if isinstance(v, C):
        try:
            return C(int(v.v))
        except (TypeError, ValueError, OverflowError):
            raise Raised("ValueError", ev.where(node)) from None
    return to_int(ev, v) if ev.num(v) is not None else Num("i", t=taint(v))


def _float(ev, args, kw, node):
    v = args[0] if args else C(0)
    n = ev.num(v)
    if isinstance(v, C) and n is not None and n.kind != "c":
        return C(float(v.v))
    if n is not None:
        return Num("f", n.p, n.lo, n.hi, n.fx, n.t)
    return Num("f", t=taint(v))


def _bool(ev, args, kw, node):
    return C(ev.truth(args[0], node)) if args else FALSE


def _type(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Arr):
        return Lib("numpy.ndarray")
    if isinstance(v, C) and v.v is not None:
        return Lib("builtins." + type(v.v).__name__)
    if isinstance(v, Seq) and v.kind in ("list", "tuple", "set", "range"):
        return Lib("builtins." + v.kind)
    if isinstance(v, Num) and not v.np_ and v.kind in "if":
        return Lib({"i": "builtins.int", "f": "builtins.float"}[v.kind])
    return Unk(taint(v))


def _hasattr(ev, args, kw, node):
    v, n = args
    if isinstance(v, Arr) and isinstance(n, C):
        return C(n.v in ARR_METHODS or n.v in ("shape", "ndim", "T", "real", "imag", "dtype", "size", "__len__", "__iter__", "__getitem__", "__array__"))
    if isinstance(v, Seq) and isinstance(n, C):
        return C(n.v in ("__len__", "__iter__", "append", "__getitem__", "index", "count"))
    if isinstance(v, (C, Num)) and isinstance(n, C) and n.v in ("__len__", "__iter__", "shape", "ndim"):
        return C(isinstance(v, C) and isinstance(v.v, str) and n.v in ("__len__", "__iter__")) if not (isinstance(v, Num) and v.np_) else bool_(None, taint(v))
    return bool_(None, taint(v))


def _getattr(ev, args, kw, node):
    if isinstance(args[1], C) and isinstance(args[1].v, str):
        try:
            return ev.attr(args[0], args[1].v, node)
        except Raised:
            if len(args) > 2:
                return args[2]
            raise
    return Unk(taint(args))


def _shape(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Seq):
        v = ev.to_array(v)
    return ev.attr(v, "shape", node) if isinstance(v, Arr) else Unk(taint(v))


def _ndim(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Seq):
        v = ev.to_array(v)
    if isinstance(v, Arr):
        return ev.attr(v, "ndim", node)
    return C(0) if ev.num(v) is not None else Unk(taint(v))


def _size(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Seq):
        v = ev.to_array(v)
    return ev.attr(v, "size", node) if isinstance(v, Arr) and len(args) == 1 else Unk(taint(args))


def _iscomplex(neg):
    def f(ev, args, kw, node):
        v = args[0]
        if isinstance(v, Seq):
            v = ev.to_array(v)
        if isinstance(v, Arr):
            ba = None
            if v.dt in ("f", "i", "b") or v.base is not None and v.base.cplx is False or v.part in ("re", "im", "abs"):
                ba = (False, False)
            elif v.base is not None and v.base.cplx and not v.ops:
                ba = (True, False if neg else None)
                if neg:
                    return Arr(v.dims, "b", t=v.t, ba=(None, False))
                return Arr(v.dims, "b", t=v.t, ba=(True, None))
            r = Arr(v.dims, "b", t=v.t, ba=ba)
            return ev.unop("Invert", r, node) if neg else r
        n = ev.num(v)
        if n is not None and n.kind != "c":
            return C(neg)
        return bool_(None, taint(v))
    return f


def _iscomplexobj(neg):
    def f(ev, args, kw, node):
        v = args[0]
        k = v.dt if isinstance(v, Arr) else ev.num(v).kind if ev.num(v) is not None else None
        return bool_(None if k is None else (k == "c") != neg, taint(v), ("cplxobj", id(v)) if False else None)
    return f


def _mod(ev, args, kw, node):
    a, b = args
    if isinstance(a, Seq):
        a = ev.to_array(a)
    return ev.binop("Mod", a, b, node)


def _fn2(op):
    def f(ev, args, kw, node):
        a, b = [ev.to_array(x) if isinstance(x, Seq) else x for x in args[:2]]
        return ev.compare(op, a, b, node) if op in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq") else ev.binop(op, a, b, node)
    return f


def _not(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Arr):
        return ev.unop("Invert", v, node)
    b = ev.tri(v)
    return bool_(None if b is None else not b, taint(v), ("not", v.term) if v.term else None)


def _logical(op):
    def f(ev, args, kw, node):
        a, b = args[:2]
        if isinstance(a, Arr) or isinstance(b, Arr):
            return ev.arr_binop("BitAnd" if op == "and" else "BitOr", a, b, node)
        x, y = ev.tri(a), ev.tri(b)
        if op == "and":
            return bool_(False if False in (x, y) else True if (x, y) == (True, True) else None, taint(a, b))
        return bool_(True if True in (x, y) else False if (x, y) == (False, False) else None, taint(a, b))
    return f


def _dot(ev, args, kw, node):
    return ev.matmul(args[0], args[1], node)


def _tri(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Arr):
        return Arr(v.dims, v.dt, v.fx & {"fin"}, t=taint(args, kw))
    return Unk(taint(args, kw))


def _concat(ev, args, kw, node):
    v = args[0]
    t = taint(args, kw)
    its = ev.iter_items(v)
    ax = kw.get("axis", args[1] if len(args) > 1 else C(0))
    if its is not None:
        arrs = [ev.to_array(x) for x in its]
        if all(a.dims is not None and len(a.dims) == 1 and a.dims[0] is not None for a in arrs) and arrs:
            n = P(0)
            for a in arrs:
                n = n + a.dims[0]
            items = None
            if all(a.items is not None for a in arrs):
                items = [i for a in arrs for i in a.items]
            fx = {"nan"} if any(nan_in(a) for a in arrs) else {"fin"} if all("fin" in a.fx for a in arrs) else set()
            return Arr((n,), arrs[0].dt, fx, t=t, items=items)
        fx = {"nan"} if any(nan_in(a) for a in arrs) else set()
        return Arr(None, None, fx, t=t)
    del ax
    return Arr(None, None, t=t)


def _math1(name):
    def f(ev, args, kw, node):
        v = args[0]
        n = ev.num(v) if not isinstance(v, Arr) else None
        if n is not None:
            g = getattr(math, name)
            fx = n.fx & {"nan"}
            if n.kind == "c":
                return Num("c", t=n.t)
            try:
                lo = g(n.lo) if abs(n.lo) != INF else (0.0 if name in ("exp",) else -INF)
                hi = g(n.hi) if abs(n.hi) != INF else INF
            except (ValueError, OverflowError):
                lo, hi = -INF, INF
            if name == "sqrt" and n.lo >= 0 and lo == -INF:
                lo = 0.0
            return Num("f", None, lo, hi, fx, n.t, (name, n.term) if n.term else None)
        if isinstance(v, Arr):
            return Arr(v.dims, v.dt if v.dt != "i" else "f", v.fx & {"nan", "nanim"}, t=v.t)
        return Unk(taint(v))
    return f


def _reshape(ev, args, kw, node):
    v = args[0]
    if not isinstance(v, Arr):
        return Unk(taint(args, kw))
    s = args[1:] if len(args) != 2 else (args[1].items if isinstance(args[1], Seq) and args[1].items is not None else [args[1]])
    dims = []
    for x in s:
        n = ev.num(x)
        dims.append(n.p if n is not None and n.p is not None and sign(n.p) != "-" else None)
    return Arr(dims, v.dt, v.fx & {"nan", "nanim", "fin"}, t=v.t)


def _flatten(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Seq):
        v = ev.to_array(v)
    if not isinstance(v, Arr):
        return Unk(taint(v))
    if v.dims is not None and len(v.dims) == 1:
        return v
    p = P(1)
    for d in v.dims if v.dims is not None else (None,):
        p = p * d if p is not None and d is not None else None
    return Arr((p,), v.dt, v.fx & {"nan", "nanim", "fin", "neg", "nonneg", "zero", "nonzero", "bigdiff"}, None, part=v.part, t=v.t)


def _arange(ev, args, kw, node):
    r = _range(ev, args, {}, node) if all(ev.num(a) is not None and ev.num(a).kind in "ib" for a in args) else None
    if r is None:
        return Arr((None,), None, t=taint(args))
    return Arr((r.n,), "i", {"fin"}, t=taint(args), items=r.items)


def _array_tolist(ev, args, kw, node):
    v = args[0]
    if v.items is not None:
        return Seq([Num(x.kind, x.p, x.lo, x.hi, x.fx, x.t, x.term, frac=x.frac) if isinstance(x, Num) else x for x in v.items])
    e = ev.elem(v)
    if isinstance(e, Num):
        e.np_ = False
    elif isinstance(e, Arr):
        e = Seq(None, Unk(v.t), e.dims[0] if e.dims else None, "list", v.t)
    return Seq(None, e, ev.length(v), "list", v.t)


def _real_if_close(ev, args, kw, node):
    v = args[0]
    if isinstance(v, Arr):
        if v.base is not None and v.base.cplx and not v.ops or v.dt == "f":
            return v
        return Arr(v.dims, None, v.fx & {"nan", "nanim", "fin"}, t=v.t)
    return v


def _delayed(ev, args, kw, node):
    return Del(args[0]) if args else Unk()


def _partial(ev, args, kw, node):
    f = args[0]
    if isinstance(f, Fun):
        return Fun(f.info, f.env, f.pre + tuple(args[1:]), {**f.prekw, **kw})
    return Unk(taint(args, kw))


def _block(ev, args, kw, node):
    v = args[0]
    t = taint(args, kw)
    if not isinstance(v, Seq) or not v.items:
        return Arr(None, None, t=t)
    rows = [r.items if isinstance(r, Seq) else None for r in v.items]
    cells = [[ev.as_arr(c) for c in r] if r else None for r in rows]
    if None in cells or any(c is None or c.dims is None or len(c.dims) != 2 for r in cells for c in r):
        return Arr(None, None, t=t)
    fx = {f for r in cells for c in r for f in c.fx if f in ("nan", "nanim")}
    if all("fin" in c.fx for r in cells for c in r):
        fx.add("fin")
    h, w = P(0), P(0)
    for r in cells:
        h = h + r[0].dims[0] if h is not None and r[0].dims[0] is not None else None
    for c in cells[0]:
        w = w + c.dims[1] if w is not None and c.dims[1] is not None else None
    kinds = {c.dt for r in cells for c in r}
    return Arr((h, w), None if None in kinds else "c" if "c" in kinds else "f" if "f" in kinds else "i", fx, t=t)


def _map(ev, args, kw, node):
    f, s = args[0], args[1]
    its = ev.iter_items(s)
    if len(args) == 2 and its is not None and len(its) <= 24:
        return Seq([ev.call(f, [x], {}, node) for x in its], kind="gen")
    if len(args) == 2:
        return Seq(None, ev.call(f, [ev.elem(s)], {}, node), ev.length(s), "gen", taint(s))
    return Seq(None, Unk(taint(args)), None, "gen", taint(args))


def _divmod(ev, args, kw, node):
    return Seq([ev.binop("FloorDiv", args[0], args[1], node), ev.binop("Mod", args[0], args[1], node)], kind="tuple")


def _assert_fn(ev, args, kw, node):
    r = _allclose(ev, args, kw, node)
    if not ev.truth(r, node):
        raise Raised("AssertionError", ev.where(node))
    return NONE


LIB = {}
for _n in ("numpy.", ):
    LIB.update({
        _n + "any": _any, _n + "all": _all, _n + "isnan": _isnan, _n + "isfinite": _isfinite, _n + "allclose": _allclose, _n + "isclose": _isclose,
        _n + "array_equal": _array_equal, _n + "array_equiv": _array_equal, _n + "transpose": _transpose, _n + "conj": _conj, _n + "conjugate": _conj,
        _n + "real": _real, _n + "imag": _imag, _n + "abs": _abs, _n + "absolute": _abs, _n + "fabs": _abs, _n + "diag": _diag, _n + "diagonal": _diag,
        _n + "array": _array, _n + "asarray": _array, _n + "asanyarray": _array, _n + "ascontiguousarray": _array, _n + "asfortranarray": _array,
        _n + "copy": _same, _n + "zeros": _filled({"zero"}), _n + "ones": _filled({"nonzero"}), _n + "empty": _filled(()), _n + "eye": _filled({"ident", "nonzero"}, True),
        _n + "identity": _filled({"ident", "nonzero"}, True), _n + "zeros_like": _like({"zero"}), _n + "ones_like": _like({"nonzero"}), _n + "empty_like": _like(()),
        _n + "sum": _npsum, _n + "min": _minmax("min"), _n + "max": _minmax("max"), _n + "amin": _minmax("min"), _n + "amax": _minmax("max"),
        _n + "shape": _shape, _n + "ndim": _ndim, _n + "size": _size, _n + "iscomplex": _iscomplex(False), _n + "isreal": _iscomplex(True),
        _n + "iscomplexobj": _iscomplexobj(False), _n + "isrealobj": _iscomplexobj(True), _n + "mod": _mod, _n + "remainder": _mod,
        _n + "less": _fn2("Lt"), _n + "less_equal": _fn2("LtE"), _n + "greater": _fn2("Gt"), _n + "greater_equal": _fn2("GtE"), _n + "equal": _fn2("Eq"),
        _n + "not_equal": _fn2("NotEq"), _n + "subtract": _fn2("Sub"), _n + "add": _fn2("Add"), _n + "multiply": _fn2("Mult"), _n + "divide": _fn2("Div"),
        _n + "logical_not": _not, _n + "invert": _not, _n + "logical_and": _logical("and"), _n + "logical_or": _logical("or"),
        _n + "dot": _dot, _n + "matmul": _dot, _n + "triu": _tri, _n + "tril": _tri, _n + "concatenate": _concat, _n + "hstack": _concat,
        _n + "sqrt": _math1("sqrt"), _n + "exp": _math1("exp"), _n + "log": _math1("log"), _n + "reshape": _reshape, _n + "ravel": _flatten,
        _n + "arange": _arange, _n + "real_if_close": _real_if_close, _n + "block": _block, _n + "vstack": _block, _n + "stack": _block,
        _n + "atleast_1d": _array, _n + "require": _array, _n + "testing.assert_allclose": _assert_fn,
    })
def _product(ev, args, kw, node):
    """tuples of entries of the arguments"""
    e = ev.elem(args[0]) if len(args) == 1 else None
    if e is None:
        return Unk(taint(args, kw))
    return Seq(None, Seq(None, e, None, "tuple", taint(args)), None, "gen", taint(args))


LIB.update({
    "itertools.product": _product, "scipy.sparse.issparse": lambda ev, args, kw, node: FALSE if isinstance(args[0], Arr) else bool_(None, taint(args)),
    "math.sqrt": _math1("sqrt"), "math.exp": _math1("exp"), "math.isnan": _isnan,
    "builtins.len": _len, "builtins.isinstance": _isinstance, "builtins.sum": _sum, "builtins.any": _b_any, "builtins.all": _b_all,
    "builtins.min": _minmax("min"), "builtins.max": _minmax("max"), "builtins.range": _range, "builtins.list": _tolist("list"), "builtins.tuple": _tolist("tuple"),
    "builtins.set": _tolist("set"), "builtins.frozenset": _tolist("set"), "builtins.sorted": _sorted, "builtins.zip": _zip, "builtins.enumerate": _enumerate,
    "builtins.int": _int, "builtins.float": _float, "builtins.bool": _bool, "builtins.abs": _abs, "builtins.type": _type, "builtins.hasattr": _hasattr,
    "builtins.getattr": _getattr, "dask.delayed": _delayed, "functools.partial": _partial, "builtins.map": _map, "builtins.divmod": _divmod,
    "builtins.reversed": _tolist("gen"), "operator.eq": _fn2("Eq"), "operator.ne": _fn2("NotEq"),
})


ARR_METHODS = {
    "any": _any, "all": _all, "sum": _npsum, "min": _minmax("min"), "max": _minmax("max"), "copy": _same, "astype": _astype, "conj": _conj,
    "conjugate": _conj, "transpose": _transpose, "flatten": _flatten, "ravel": _flatten, "reshape": _reshape, "diagonal": _diag, "dot": _dot,
    "tolist": _array_tolist,
}
for _m in ("mean", "prod", "cumsum", "argsort", "sort", "item", "round", "trace", "argmax", "argmin", "nonzero", "fill", "repeat", "take",
           "std", "var", "view", "swapaxes", "squeeze", "clip", "searchsorted", "tobytes", "cumprod"):
    ARR_METHODS.setdefault(_m, lambda ev, args, kw, node: Unk(taint(args, kw)))
