"""A generic interprocedural abstract interpreter over Python syntax trees.

The interpreter walks the syntax tree of a function with abstract values.
Structure that is visible in the source (tuples, lists, None, literal
constants, functions, modules) is kept; everything numeric is delegated to a
domain (units, numeric types, memory origins, ...).  Branches whose test is
not decided by the structure are both followed and joined, loops are iterated
to a fixpoint, and calls to functions of the repository are analysed in the
context of their abstract arguments.
"""
import ast

from .loader import FuncInfo, Module


# ---------------------------------------------------------------------------
# values
# ---------------------------------------------------------------------------
class V:
    __slots__ = ()


class K(V):
    """A literal constant."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"K({self.v!r})"


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"Tup{self.items!r}"


class Lst(V):
    """A list-like object; ``items`` is None when only the element summary is known."""
    __slots__ = ("items", "elem", "kind", "tag")

    def __init__(self, items=None, elem=None, kind="list", tag=None):
        self.items = list(items) if items is not None else None
        self.elem = elem
        self.kind = kind
        self.tag = tag

    def __repr__(self):
        return f"Lst<{self.kind}>({self.items if self.items is not None else '*' + repr(self.elem)})"


class Dct(V):
    __slots__ = ("items", "val", "keyv", "tag")

    def __init__(self, items=None, val=None, keyv=None, tag=None):
        self.items = dict(items) if items is not None else None
        self.val = val
        self.keyv = keyv
        self.tag = tag

    def __repr__(self):
        return f"Dct({self.items}, *{self.val})"


class Fn(V):
    __slots__ = ("info", "env", "frame_id", "pre_args", "pre_kw")

    def __init__(self, info, env=None, frame_id=None, pre_args=(), pre_kw=None):
        self.info = info
        self.env = env
        self.frame_id = frame_id
        self.pre_args = tuple(pre_args)
        self.pre_kw = dict(pre_kw or {})

    def __repr__(self):
        return f"Fn({self.info.full})"


class Ext(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Ext({self.name})"


class Mod(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class BoundM(V):
    """A method of a value."""
    __slots__ = ("obj", "name", "expr")

    def __init__(self, obj, name, expr=None):
        self.obj = obj
        self.name = name
        self.expr = expr


class U(V):
    """A small union of structurally different values."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return f"U{self.alts!r}"


class D(V):
    """A value described by the domain."""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return f"D({self.p!r})"


class _Top(V):
    def __repr__(self):
        return "TOP"


class _Bot(V):
    def __repr__(self):
        return "BOT"


TOP = _Top()
BOT = _Bot()
NONE = K(None)
SLICE_FULL = "full"


class Slice(V):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Frame:
    _n = 0

    def __init__(self, info, parent=None):
        Frame._n += 1
        self.id = Frame._n
        self.info = info
        self.returns = []
        self.yields = []
        self.loops = []
        self.env = None
        self.parent = parent


class LoopCtx:
    def __init__(self):
        self.breaks = []
        self.conts = []


# ---------------------------------------------------------------------------
# domain base
# ---------------------------------------------------------------------------
class Domain:
    """Default domain: knows nothing."""

    max_depth = 24
    memo = True

    # lattice ----------------------------------------------------------
    def top(self):
        return None

    def const(self, v):
        return None

    def join(self, p, q):
        return p if p == q else self.top()

    def key(self, p):
        return p

    # structure ----------------------------------------------------------
    def lift_seq(self, ps):
        out = None
        for i, p in enumerate(ps):
            out = p if i == 0 else self.join(out, p)
        return self.top() if out is None else out

    def index_value(self):
        """payload of an integer of unknown value"""
        return self.top()

    def iter_elem(self, p):
        return D(p)

    def unpack(self, p, n, node):
        return [self.iter_elem(p)] * n

    # operations -------------------------------------------------------
    def binop(self, op, a, b, node):
        return TOP

    def unop(self, op, a, node):
        return TOP

    def compare(self, op, a, b, node):
        return TOP

    def attr(self, v, name, node):
        return TOP

    def getitem(self, v, idx, node):
        return TOP

    def setitem(self, v, idx, val, node, aug=False):
        return v

    def augassign(self, v, val, new, node):
        """In-place operator on a name; returns the new value."""
        return new

    def call_ext(self, name, args, kw, node):
        return TOP

    def method(self, v, name, args, kw, node):
        return TOP

    def call_unknown(self, f, args, kw, node):
        return TOP

    def summary(self, info, bound, node):
        return None

    def enter(self, info, bound, node):
        pass

    def leave(self, info, bound, ret, node):
        return ret

    def branch(self, node, test, frame):
        pass

    def on_return(self, frame, val, node):
        pass

    def truth(self, v):
        return None

    def isinstance_(self, v, types):
        return None

    def mutate_list(self, lst, node, how, args=()):
        pass

    def on_raise(self, frame, node):
        pass


# ---------------------------------------------------------------------------
class Budget(Exception):
    pass


class Interp:
    MAX_STEPS = 3_000_000

    def __init__(self, prog, dom):
        self.prog = prog
        self.dom = dom
        dom.it = self
        self.stack = []  # (info, node)
        self.frames = []
        self.memo = {}
        self.active = {}
        self.globals_cache = {}
        self.steps = 0
        self.analysed = set()
        self.calls_analysed = 0
        self.path = []

    # -- helpers -----------------------------------------------------------
    def where(self, node=None):
        if self.stack:
            return self.stack[-1].loc(node)
        return "?"

    def call_path(self):
        return [f"{f.full} ({f.module.rel}:{f.node.lineno})" for f in self.stack]

    @property
    def cur(self):
        return self.stack[-1] if self.stack else None

    def lift(self, v):
        d = self.dom
        if isinstance(v, D):
            return v.p
        if isinstance(v, K):
            return d.const(v.v)
        if isinstance(v, Tup):
            return d.lift_seq([self.lift(x) for x in v.items])
        if isinstance(v, Lst):
            if v.items is not None:
                return d.lift_seq([self.lift(x) for x in v.items])
            return self.lift(v.elem) if v.elem is not None else d.lift_seq([])
        if isinstance(v, U):
            xs = [x for x in v.alts if not (isinstance(x, K) and x.v is None)]
            if not xs:
                return d.const(None)
            p = self.lift(xs[0])
            for x in xs[1:]:
                p = d.join(p, self.lift(x))
            return p
        return d.top()

    def vkey(self, v):
        if isinstance(v, K):
            return ("k", type(v.v).__name__, repr(v.v))
        if isinstance(v, Tup):
            return ("t",) + tuple(self.vkey(x) for x in v.items)
        if isinstance(v, Lst):
            if v.items is not None:
                return ("l", v.kind) + tuple(self.vkey(x) for x in v.items)
            return ("ls", v.kind, self.vkey(v.elem) if v.elem is not None else None)
        if isinstance(v, Dct):
            return ("d", tuple(sorted(((repr(k), self.vkey(x)) for k, x in (v.items or {}).items()))),
                    self.vkey(v.val) if v.val is not None else None, v.items is None)
        if isinstance(v, Fn):
            return ("f", id(v.info), id(v.env) if v.env is not None else 0,
                    tuple(self.vkey(x) for x in v.pre_args))
        if isinstance(v, Ext):
            return ("e", v.name)
        if isinstance(v, Mod):
            return ("m", v.name)
        if isinstance(v, U):
            return ("u",) + tuple(sorted((self.vkey(x) for x in v.alts), key=repr))
        if isinstance(v, D):
            return ("p", self.dom.key(v.p))
        if isinstance(v, BoundM):
            return ("b", self.vkey(v.obj), v.name)
        if isinstance(v, Slice):
            return ("s", self.vkey(v.lo), self.vkey(v.hi), self.vkey(v.step))
        return (repr(v),)

    def same(self, a, b):
        return a is b or self.vkey(a) == self.vkey(b)

    def join(self, a, b):
        if a is b:
            return a
        if a is BOT or a is None:
            return b
        if b is BOT or b is None:
            return a
        if a is TOP or b is TOP:
            return TOP
        if isinstance(a, U) or isinstance(b, U):
            alts = list(a.alts) if isinstance(a, U) else [a]
            for x in b.alts if isinstance(b, U) else [b]:
                alts = self._add_alt(alts, x)
            return alts[0] if len(alts) == 1 else U(alts)
        if self.same(a, b):
            return a
        r = self._join1(a, b)
        return r if r is not None else U([a, b])

    def _add_alt(self, alts, x):
        out = []
        done = False
        for y in alts:
            if not done:
                if self.same(x, y):
                    out.append(y)
                    done = True
                    continue
                r = self._join1(y, x)
                if r is not None:
                    out.append(r)
                    done = True
                    continue
            out.append(y)
        if not done:
            out.append(x)
        if len(out) > 5:
            return [TOP]
        return out

    def _num(self, v):
        return isinstance(v, D) or (isinstance(v, K) and isinstance(v.v, (int, float, complex, bool)))

    def _join1(self, a, b):
        """Join of two values of compatible structure, or None."""
        if a is TOP or b is TOP:
            return TOP
        if self._num(a) and self._num(b):
            return D(self.dom.join(self.lift(a), self.lift(b)))
        if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, str) and isinstance(b.v, str):
            return None
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) == len(b.items):
                return Tup([self.join(x, y) for x, y in zip(a.items, b.items)])
            return Lst(None, self.join(self.elem(a), self.elem(b)), "tuple")
        if isinstance(a, Lst) and isinstance(b, Lst):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return Lst([self.join(x, y) for x, y in zip(a.items, b.items)], kind=a.kind, tag=a.tag or b.tag)
            return Lst(None, self.join(self.elem(a), self.elem(b)), a.kind, tag=a.tag or b.tag)
        if isinstance(a, (Tup, Lst)) and isinstance(b, (Tup, Lst)):
            return Lst(None, self.join(self.elem(a), self.elem(b)), "list")
        if isinstance(a, Dct) and isinstance(b, Dct):
            if a.items is not None and b.items is not None and set(a.items) == set(b.items):
                return Dct({k: self.join(a.items[k], b.items[k]) for k in a.items},
                           self.join(a.val, b.val) if a.val or b.val else None, tag=a.tag or b.tag)
            vs = BOT
            for d in (a, b):
                for x in (d.items or {}).values():
                    vs = self.join(vs, x)
                if d.val is not None:
                    vs = self.join(vs, d.val)
            return Dct(None, vs, tag=a.tag or b.tag)
        if isinstance(a, Lst) and isinstance(b, D) or isinstance(a, D) and isinstance(b, Lst):
            return None
        return None

    def elem(self, v):
        """Element summary of an iterable."""
        if isinstance(v, (Tup, Lst)):
            items = v.items
            if items is None:
                return v.elem if v.elem is not None else BOT
            r = BOT
            for x in items:
                r = self.join(r, x)
            return r
        if isinstance(v, Dct):
            if v.keyv is not None:
                return v.keyv
            r = BOT
            for k in v.items or {}:
                r = self.join(r, K(k))
            return r if v.items else TOP
        if isinstance(v, K) and isinstance(v.v, str):
            return K(v.v[0]) if len(v.v) == 1 else D(self.dom.top())
        if isinstance(v, D):
            return self.dom.iter_elem(v.p)
        if isinstance(v, U):
            r = BOT
            for x in v.alts:
                if isinstance(x, K) and x.v is None:
                    continue
                r = self.join(r, self.elem(x))
            return r
        if v is BOT:
            return BOT
        return TOP

    def join_env(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in a.keys() | b.keys():
            if k in a and k in b:
                out[k] = a[k] if a[k] is b[k] else self.join(a[k], b[k])
            elif k.startswith("$"):
                continue
            else:
                # possibly unbound: keep the bound value
                out[k] = a.get(k, b.get(k))
        return out

    def env_same(self, a, b):
        if a is None or b is None:
            return a is b
        if a.keys() != b.keys():
            return False
        return all(a[k] is b[k] or self.same(a[k], b[k]) for k in a)

    # -- names ---------------------------------------------------------------
    def lookup(self, name, env, fr):
        if name in env:
            return env[name]
        # enclosing functions
        f = fr
        while f is not None:
            if f.parent is not None:
                penv = f.parent
                if name in penv:
                    return penv[name]
                f = penv.get("$outer_frame") if isinstance(penv, dict) else None
                continue
            f = None
        return self.global_value(fr.info.module, name)

    def global_value(self, module, name):
        ck = (module.name, name)
        if ck in self.globals_cache:
            return self.globals_cache[ck]
        self.globals_cache[ck] = TOP
        r = self.prog.resolve(module, name)
        v = self.from_ref(r, name)
        self.globals_cache[ck] = v
        return v

    def from_ref(self, r, name=None):
        if r is None:
            if name is not None and name in BUILTINS:
                return Ext("builtins." + name)
            return TOP
        if r[0] == "func":
            return Fn(r[1])
        if r[0] == "mod":
            return Mod(r[1])
        if r[0] == "ext":
            return Ext(r[1])
        if r[0] == "expr":
            module, node = r[1], r[2]
            info = FuncInfo.__new__(FuncInfo)
            info.module, info.node, info.qualname = module, node, "<module>"
            info.parent, info.doc, info.params, info.jit, info.is_gen, info._locals = None, "", [], None, False, None
            fr = Frame(info)
            fr.env = {}
            self.stack.append(info)
            self.frames.append(fr)
            try:
                return self.ev(node, {}, fr)
            finally:
                self.stack.pop()
                self.frames.pop()
        if r[0] == "class":
            return TOP
        return TOP

    # -- expressions ---------------------------------------------------------
    def ev(self, n, env, fr):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Budget()
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            return TOP
        return m(n, env, fr)

    def ev_Constant(self, n, env, fr):
        return K(n.value)

    def ev_Name(self, n, env, fr):
        return self.lookup(n.id, env, fr)

    def ev_Tuple(self, n, env, fr):
        return self._seq(n, env, fr, True)

    def ev_List(self, n, env, fr):
        return self._seq(n, env, fr, False)

    def ev_Set(self, n, env, fr):
        items = [self.ev(e, env, fr) for e in n.elts]
        return Lst(items, kind="set")

    def _seq(self, n, env, fr, tup):
        items = []
        unknown = None
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, env, fr)
                its = self.items_of(v)
                if its is None:
                    unknown = self.join(unknown or BOT, self.elem(v))
                else:
                    items.extend(its)
            else:
                items.append(self.ev(e, env, fr))
        if unknown is not None:
            r = unknown
            for x in items:
                r = self.join(r, x)
            return Lst(None, r, "tuple" if tup else "list")
        return Tup(items) if tup else Lst(items)

    def items_of(self, v):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Lst) and v.items is not None:
            return list(v.items)
        if isinstance(v, K) and isinstance(v.v, str) and len(v.v) <= 8:
            return [K(c) for c in v.v]
        if isinstance(v, Dct) and v.items is not None and v.val is None:
            return [K(k) for k in v.items]
        return None

    def ev_Dict(self, n, env, fr):
        d = Dct({})
        for k, v in zip(n.keys, n.values):
            vv = self.ev(v, env, fr)
            if k is None:
                if isinstance(vv, Dct) and vv.items is not None and d.items is not None:
                    d.items.update(vv.items)
                else:
                    d = Dct(None, TOP)
                continue
            kv = self.ev(k, env, fr)
            if isinstance(kv, K) and d.items is not None:
                d.items[kv.v] = vv
            else:
                allv = vv
                for x in (d.items or {}).values():
                    allv = self.join(allv, x)
                if d.val is not None:
                    allv = self.join(allv, d.val)
                d = Dct(None, allv, self.join(d.keyv or BOT, kv))
        return d

    def ev_Attribute(self, n, env, fr):
        obj = self.ev(n.value, env, fr)
        return self.get_attr(obj, n.attr, n)

    def get_attr(self, obj, name, n):
        if isinstance(obj, Mod):
            r = self.prog.member(obj.name, name)
            if r is None and name == "__name__":
                return K(obj.name)
            return self.from_ref(r) if r is not None else TOP
        if isinstance(obj, Ext):
            full = f"{obj.name}.{name}"
            if full in EXT_CONSTS:
                return K(EXT_CONSTS[full])
            return Ext(full)
        if isinstance(obj, U):
            r = BOT
            for x in obj.alts:
                if isinstance(x, K) and x.v is None:
                    continue
                r = self.join(r, self.get_attr(x, name, n))
            return r if r is not BOT else TOP
        if isinstance(obj, BoundM):
            return TOP
        if isinstance(obj, Fn):
            if name == "__name__":
                return K(obj.info.name)
            return TOP
        if isinstance(obj, K) and isinstance(obj.v, (int, float, complex)) and not isinstance(obj.v, bool):
            if name == "real":
                return K(obj.v.real)
            if name == "imag":
                return K(obj.v.imag)
        if name in METHODS and not isinstance(obj, (D,)) or (name in METHODS and isinstance(obj, D)):
            return BoundM(obj, name)
        if isinstance(obj, (D, K, Tup, Lst)):
            return self.dom.attr(obj, name, n)
        return TOP

    def ev_Subscript(self, n, env, fr):
        v = self.ev(n.value, env, fr)
        idx = self.ev(n.slice, env, fr)
        return self.subscript(v, idx, n)

    def ev_Slice(self, n, env, fr):
        return Slice(*(self.ev(x, env, fr) if x is not None else NONE for x in (n.lower, n.upper, n.step)))

    def subscript(self, v, idx, n):
        if isinstance(v, U):
            r = BOT
            for x in v.alts:
                if isinstance(x, K) and x.v is None:
                    continue
                r = self.join(r, self.subscript(x, idx, n))
            return r if r is not BOT else TOP
        if isinstance(v, (Tup, Lst)):
            items = v.items
            if isinstance(idx, K) and isinstance(idx.v, int) and not isinstance(idx.v, bool):
                if items is not None:
                    if -len(items) <= idx.v < len(items):
                        return items[idx.v]
                    return self.elem(v) if items else TOP
                return v.elem if v.elem is not None else TOP
            if isinstance(idx, Slice):
                if items is not None:
                    b = [x.v if isinstance(x, K) else "?" for x in (idx.lo, idx.hi, idx.step)]
                    if "?" not in b:
                        sub = list(items)[slice(*b)]
                        return Tup(sub) if isinstance(v, Tup) else Lst(sub, kind=v.kind)
                return Lst(None, self.elem(v), v.kind if isinstance(v, Lst) else "tuple")
            e = self.elem(v)
            return e if e is not BOT else TOP
        if isinstance(v, Dct):
            if isinstance(idx, K) and v.items is not None and idx.v in v.items:
                return v.items[idx.v]
            r = v.val if v.val is not None else BOT
            for x in (v.items or {}).values():
                r = self.join(r, x)
            return r if r is not BOT else TOP
        if isinstance(v, K) and isinstance(v.v, str):
            if isinstance(idx, K) and isinstance(idx.v, int) and -len(v.v) <= idx.v < len(v.v):
                return K(v.v[idx.v])
            return D(self.dom.top())
        if isinstance(v, (D, K)):
            return self.dom.getitem(v, idx, n)
        return TOP

    def ev_BinOp(self, n, env, fr):
        a = self.ev(n.left, env, fr)
        b = self.ev(n.right, env, fr)
        return self.binop(type(n.op).__name__, a, b, n)

    def binop(self, op, a, b, n):
        if isinstance(a, U) or isinstance(b, U):
            r = BOT
            for x in a.alts if isinstance(a, U) else [a]:
                if isinstance(x, K) and x.v is None:
                    continue
                for y in b.alts if isinstance(b, U) else [b]:
                    if isinstance(y, K) and y.v is None:
                        continue
                    r = self.join(r, self.binop(op, x, y, n))
            return r if r is not BOT else TOP
        if isinstance(a, K) and isinstance(b, K):
            r = fold_bin(op, a.v, b.v)
            if r is not None:
                return r
        if op == "Add":
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, Lst) and isinstance(b, Lst):
                if a.items is not None and b.items is not None:
                    return Lst(a.items + b.items, kind=a.kind)
                return Lst(None, self.join(self.elem(a), self.elem(b)), a.kind)
            if isinstance(a, (Tup, Lst)) and isinstance(b, (Tup, Lst)):
                return Lst(None, self.join(self.elem(a), self.elem(b)), "list")
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (Tup, Lst)) and (isinstance(y, K) and isinstance(y.v, int) or isinstance(y, D) or y is TOP):
                    if isinstance(y, D) and self.is_arrayish(y):
                        continue
                    if isinstance(y, K) and x.items is not None and len(x.items) * max(y.v, 0) <= 16:
                        its = list(x.items) * y.v
                        return Tup(its) if isinstance(x, Tup) else Lst(its, kind=x.kind)
                    return Lst(None, self.elem(x), "tuple" if isinstance(x, Tup) else x.kind)
        if op == "Mod" and isinstance(a, K) and isinstance(a.v, str):
            return D(self.dom.top())
        if a is BOT or b is BOT:
            return BOT
        return self.dom.binop(op, a, b, n)

    def is_arrayish(self, v):
        return bool(getattr(self.dom, "arrayish", lambda p: False)(v.p))

    def ev_UnaryOp(self, n, env, fr):
        a = self.ev(n.operand, env, fr)
        op = type(n.op).__name__
        if op == "Not":
            t = self.truth(a)
            if t is None:
                return self.dom.unop("Not", a, n)
            return K(not t)
        if isinstance(a, K):
            try:
                if op == "USub":
                    return K(-a.v)
                if op == "UAdd":
                    return K(+a.v)
                if op == "Invert":
                    return K(~a.v)
            except TypeError:
                pass
        if isinstance(a, U):
            r = BOT
            for x in a.alts:
                if isinstance(x, K) and x.v is None:
                    continue
                r = self.join(r, self.dom.unop(op, x, n))
            return r if r is not BOT else TOP
        if a is BOT:
            return BOT
        return self.dom.unop(op, a, n)

    def truth(self, v):
        if isinstance(v, K):
            try:
                return bool(v.v)
            except Exception:  # pragma: no cover
                return None
        if isinstance(v, (Tup,)):
            return len(v.items) > 0
        if isinstance(v, Lst) and v.items is not None:
            return len(v.items) > 0
        if isinstance(v, (Fn, Ext, Mod)):
            return True
        if isinstance(v, U):
            ts = {self.truth(x) for x in v.alts}
            return ts.pop() if len(ts) == 1 else None
        if isinstance(v, D):
            return self.dom.truth(v)
        return None

    def ev_BoolOp(self, n, env, fr):
        isand = isinstance(n.op, ast.And)
        vals = []
        cur = env
        for e in n.values:
            v = self.ev(e, cur, fr)
            t = self.truth(v)
            if t is not None:
                if isand and not t:
                    if not vals:
                        return v
                    return self.bool_result(isand, vals + [v], n, decided=False)
                if not isand and t:
                    if not vals:
                        return v
                    return self.bool_result(isand, vals + [v], n, decided=True)
                if e is n.values[-1]:
                    vals.append(v)
                continue
            vals.append(v)
            cur = self.assume(e, cur, fr, isand)
        if len(vals) == 1:
            return vals[0]
        return self.bool_result(isand, vals, n)

    def bool_result(self, isand, vals, n, decided=None):
        hook = getattr(self.dom, "boolop", None)
        if hook is not None:
            r = hook(isand, vals, n, decided)
            if r is not None:
                return r
        if decided is not None:
            # some operands before are unknown: the truth value is still decided
            r = K(decided)
            return r
        r = BOT
        for v in vals:
            r = self.join(r, v)
        return r

    def ev_Compare(self, n, env, fr):
        left = self.ev(n.left, env, fr)
        res = []
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, env, fr)
            res.append(self.compare(type(op).__name__, left, right, n))
            left = right
        if len(res) == 1:
            return res[0]
        ts = [self.truth(r) for r in res]
        if any(t is False for t in ts):
            return K(False)
        if all(t is True for t in ts):
            return K(True)
        rest = [r for r, t in zip(res, ts) if t is None]
        return self.bool_result(True, rest, n) if len(rest) > 1 else rest[0]

    def compare(self, op, a, b, n):
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b)
            if r is None:
                return self.dom.compare(op, a, b, n)
            return K(r if op == "Is" else not r)
        if isinstance(a, K) and isinstance(b, K):
            r = fold_cmp(op, a.v, b.v)
            if r is not None:
                return K(r)
        if op in ("In", "NotIn"):
            its = None
            if isinstance(b, (Tup, Lst)) and b.items is not None:
                its = b.items
            elif isinstance(b, Dct) and b.items is not None and b.val is None:
                its = [K(k) for k in b.items]
            if its is not None and isinstance(a, K) and all(isinstance(x, K) for x in its):
                r = any(type(x.v) is type(a.v) and x.v == a.v or x.v == a.v for x in its)
                return K(r if op == "In" else not r)
            return self.dom.compare(op, a, b, n)
        if op in ("Eq", "NotEq"):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, K) and x.v is None and isinstance(y, (D, Tup, Lst, Fn)):
                    return K(op == "NotEq")
            if isinstance(a, (Tup,)) and isinstance(b, Tup):
                if len(a.items) != len(b.items):
                    return K(op == "NotEq")
                ts = [self.truth(self.compare("Eq", x, y, n)) for x, y in zip(a.items, b.items)]
                if any(t is False for t in ts):
                    return K(op == "NotEq")
                if all(t is True for t in ts):
                    return K(op == "Eq")
            if isinstance(a, Ext) and isinstance(b, Ext):
                if a.name == b.name:
                    return K(op == "Eq")
        if isinstance(a, U) or isinstance(b, U):
            rs = []
            for x in a.alts if isinstance(a, U) else [a]:
                for y in b.alts if isinstance(b, U) else [b]:
                    rs.append(self.compare(op, x, y, n))
            r = BOT
            for x in rs:
                r = self.join(r, x)
            return r
        return self.dom.compare(op, a, b, n)

    def is_same(self, a, b):
        def cls(v):
            if isinstance(v, K):
                return ("k", v.v)
            if isinstance(v, U):
                cs = {cls(x) if isinstance(x, K) else "obj" for x in v.alts}
                return cs.pop() if len(cs) == 1 else None
            if v is TOP or v is BOT:
                return None
            if isinstance(v, D):
                return "num"
            if isinstance(v, (Fn, Ext)):
                return ("v", self.vkey(v))
            return "obj"

        ca, cb = cls(a), cls(b)
        if ca is None or cb is None:
            return None
        for x, y in ((ca, cb), (cb, ca)):
            if x == ("k", None):
                if y == ("k", None):
                    return True
                if y == "num":
                    t = self.dom.may_be_none(a if y == ca else b) if hasattr(self.dom, "may_be_none") else False
                    return None if t else False
                return False
        if isinstance(ca, tuple) and isinstance(cb, tuple) and ca[0] == "k" and cb[0] == "k":
            if isinstance(ca[1], (bool, str, int)) or isinstance(cb[1], (bool, str, int)):
                return ca[1] == cb[1] and type(ca[1]) is type(cb[1])
        if isinstance(ca, tuple) and isinstance(cb, tuple) and ca[0] == "v" and cb[0] == "v":
            return ca == cb
        return None

    def ev_IfExp(self, n, env, fr):
        t = self.ev(n.test, env, fr)
        tr = self.truth(t)
        self.dom.branch(n, t, fr)
        if tr is True:
            return self.ev(n.body, env, fr)
        if tr is False:
            return self.ev(n.orelse, env, fr)
        a = self.ev(n.body, self.assume(n.test, env, fr, True), fr)
        b = self.ev(n.orelse, self.assume(n.test, env, fr, False), fr)
        hook = getattr(self.dom, "select", None)
        if hook is not None:
            r = hook(t, a, b, n)
            if r is not None:
                return r
        return self.join(a, b)

    def ev_Lambda(self, n, env, fr):
        info = FuncInfo(fr.info.module, n, (fr.info.qualname + ".<lambda>"), parent=fr.info)
        return Fn(info, env, fr.id)

    def ev_NamedExpr(self, n, env, fr):
        v = self.ev(n.value, env, fr)
        env[n.target.id] = v
        return v

    def ev_JoinedStr(self, n, env, fr):
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                self.ev(x.value, env, fr)
        return D(self.dom.top())

    def ev_Starred(self, n, env, fr):
        return self.ev(n.value, env, fr)

    def ev_Await(self, n, env, fr):
        return TOP

    def ev_Yield(self, n, env, fr):
        if n.value is not None:
            fr.yields.append(self.ev(n.value, env, fr))
        else:
            fr.yields.append(NONE)
        return NONE

    def ev_YieldFrom(self, n, env, fr):
        fr.yields.append(self.elem(self.ev(n.value, env, fr)))
        return TOP

    def _comp(self, n, env, fr, elt):
        env = dict(env)
        # precise expansion of a single generator over known items
        if len(n.generators) == 1 and not n.generators[0].ifs:
            g = n.generators[0]
            it = self.ev(g.iter, env, fr)
            its = self.items_of(it)
            if its is not None and len(its) <= 8:
                out = []
                for x in its:
                    e2 = dict(env)
                    self.assign(g.target, x, e2, fr, n)
                    out.append(elt(e2))
                return out, None
            self.assign(g.target, self.elem(it), env, fr, n)
            hook = getattr(self.dom, "comp_iter", None)
            if hook is not None:
                hook(n, it, fr)
            return None, elt(env)
        for g in n.generators:
            it = self.ev(g.iter, env, fr)
            self.assign(g.target, self.elem(it), env, fr, n)
            for c in g.ifs:
                t = self.ev(c, env, fr)
                self.dom.branch(c, t, fr)
                if self.truth(t) is False:
                    return None, BOT
                env = self.assume(c, env, fr, True)
        return None, elt(env)

    def ev_ListComp(self, n, env, fr):
        items, e = self._comp(n, env, fr, lambda en: self.ev(n.elt, en, fr))
        return Lst(items, e)

    def ev_GeneratorExp(self, n, env, fr):
        items, e = self._comp(n, env, fr, lambda en: self.ev(n.elt, en, fr))
        return Lst(items, e, "gen")

    def ev_SetComp(self, n, env, fr):
        items, e = self._comp(n, env, fr, lambda en: self.ev(n.elt, en, fr))
        r = e if e is not None else BOT
        for x in items or []:
            r = self.join(r, x)
        return Lst(None, r, "set")

    def ev_DictComp(self, n, env, fr):
        items, e = self._comp(n, env, fr, lambda en: Tup([self.ev(n.key, en, fr), self.ev(n.value, en, fr)]))
        if items is not None and all(isinstance(x.items[0], K) for x in items):
            return Dct({x.items[0].v: x.items[1] for x in items})
        r = BOT
        kk = BOT
        for x in (items if items is not None else [e]):
            if isinstance(x, Tup):
                r = self.join(r, x.items[1])
                kk = self.join(kk, x.items[0])
        return Dct(None, r, kk)

    # -- calls -----------------------------------------------------------------
    def ev_Call(self, n, env, fr):
        if isinstance(n.func, ast.Attribute):
            obj = self.ev(n.func.value, env, fr)
            if isinstance(obj, (Mod, Ext)):
                f = self.get_attr(obj, n.func.attr, n.func)
            elif isinstance(obj, Fn):
                f = TOP
            else:
                f = BoundM(obj, n.func.attr, n.func.value)
        else:
            f = self.ev(n.func, env, fr)
        args = []
        star = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, fr)
                its = self.items_of(v)
                if its is None:
                    star = self.elem(v)
                    args.append(("*", star))
                else:
                    args.extend(its)
            else:
                args.append(self.ev(a, env, fr))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, env, fr)
            if k.arg is None:
                if isinstance(v, Dct) and v.items is not None:
                    kw.update(v.items)
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, n, env, fr)

    def call(self, f, args, kw, n, env=None, fr=None):
        if isinstance(f, U):
            r = BOT
            for x in f.alts:
                r = self.join(r, self.call(x, args, kw, n, env, fr))
            return r
        if isinstance(f, Fn):
            return self.call_fn(f, list(f.pre_args) + args, {**f.pre_kw, **kw}, n)
        plain = [a[1] if isinstance(a, tuple) else a for a in args]
        if isinstance(f, Ext):
            r = self.call_ext(f.name, args, kw, n, env, fr)
            return r
        if isinstance(f, BoundM):
            return self.call_method(f, plain, kw, n, env, fr)
        for a in plain:
            self.escape(a, n)
        return self.dom.call_unknown(f, plain, kw, n)

    def escape(self, v, n):
        pass

    def bind(self, info, args, kw, fnenv=None, fr=None):
        a = info.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        extra = []
        star = None
        i = 0
        for v in args:
            if isinstance(v, tuple):
                star = v[1]
                continue
            if star is not None:
                star = self.join(star, v)
                continue
            if i < len(pos):
                bound[pos[i]] = v
                i += 1
            else:
                extra.append(v)
        kw = dict(kw)
        dstar = kw.pop("**", None)
        names = pos + [x.arg for x in a.kwonlyargs]
        extra_kw = {}
        for k, v in kw.items():
            if k in names:
                bound[k] = v
            else:
                extra_kw[k] = v
        dfl = info.defaults()
        for p in names:
            if p in bound:
                continue
            if star is not None and p in pos:
                bound[p] = star
                if p in dfl:
                    bound[p] = self.join(star, self.default_value(info, dfl[p], fnenv))
                continue
            if p in dfl:
                bound[p] = self.default_value(info, dfl[p], fnenv)
                if dstar is not None:
                    bound[p] = TOP
            else:
                bound[p] = TOP
        if a.vararg is not None:
            if star is not None:
                bound[a.vararg.arg] = Lst(None, star, "tuple")
            else:
                bound[a.vararg.arg] = Tup(extra)
        if a.kwarg is not None:
            bound[a.kwarg.arg] = Dct(extra_kw if dstar is None else None,
                                     None if dstar is None else TOP)
        return bound

    def default_value(self, info, node, fnenv):
        fr = Frame(info)
        fr.env = {}
        fr.parent = fnenv
        self.stack.append(info)
        try:
            return self.ev(node, {}, fr)
        finally:
            self.stack.pop()

    def call_fn(self, f, args, kw, n):
        info = f.info
        fenv = f.env
        if fenv is not None and f.frame_id is not None:
            for g in reversed(self.frames):
                if g.id == f.frame_id and g.env is not None:
                    fenv = g.env
                    break
        bound = self.bind(info, args, kw, fenv)
        return self.invoke(info, bound, n, fenv)

    def invoke(self, info, bound, n, fenv=None):
        s = self.dom.summary(info, bound, n)
        if s is not None:
            return s
        if len(self.stack) > self.dom.max_depth:
            return TOP
        key = None
        try:
            key = (id(info.node), id(fenv) if fenv is not None else 0,
                   tuple((k, self.vkey(v)) for k, v in sorted(bound.items())))
        except Exception:  # unhashable payloads
            key = None
        has_mut = any(self._has_mut(v) for v in bound.values())
        use_memo = key is not None and self.dom.memo and fenv is None
        if use_memo and not has_mut and key in self.memo:
            return self.memo[key]
        if key is not None and key in self.active:
            st = self.active[key]
            st["used"] = True
            return st["val"]
        if sum(1 for s_ in self.stack if s_.node is info.node) > 6:
            return TOP
        st = {"used": False, "val": BOT}
        if key is not None:
            self.active[key] = st
        try:
            for _ in range(4):
                st["used"] = False
                r = self._run(info, dict(bound), n, fenv)
                if not st["used"] or self.same(r, st["val"]):
                    break
                st["val"] = self.join(st["val"], r)
            else:
                r = TOP if r is not BOT else BOT
        finally:
            if key is not None:
                self.active.pop(key, None)
        if use_memo and not has_mut:
            self.memo[key] = r
        return r

    def _has_mut(self, v):
        if isinstance(v, (Lst, Dct)):
            return True
        if isinstance(v, (Tup,)):
            return any(self._has_mut(x) for x in v.items)
        if isinstance(v, U):
            return any(self._has_mut(x) for x in v.alts)
        return False

    def _run(self, info, bound, n, fenv):
        fr = Frame(info, fenv)
        self.stack.append(info)
        self.frames.append(fr)
        self.analysed.add(info.full)
        self.calls_analysed += 1
        self.dom.enter(info, bound, n)
        try:
            env = dict(bound)
            if fenv is not None and "$state" in fenv:
                env.setdefault("$state", fenv["$state"])
            fr.env = env
            if isinstance(info.node, ast.Lambda):
                ret = self.ev(info.node.body, env, fr)
            else:
                out = self.block(info.node.body, env, fr)
                ret = BOT
                for v, _ in fr.returns:
                    ret = self.join(ret, v)
                if out is not None and not info.is_gen:
                    self.dom.on_return(fr, NONE, info.node)
                    ret = self.join(ret, NONE)
                if info.is_gen:
                    r = BOT
                    for y in fr.yields:
                        r = self.join(r, y)
                    ret = Lst(None, r, "gen")
            return self.dom.leave(info, bound, ret, n)
        finally:
            self.stack.pop()
            self.frames.pop()

    # -- external calls with structural meaning ----------------------------------
    def call_ext(self, name, args, kw, n, env, fr):
        plain = [a[1] if isinstance(a, tuple) else a for a in args]
        starred = any(isinstance(a, tuple) for a in args)
        if name in INPLACE_CALLS and plain:
            # stores into its first argument
            val = plain[INPLACE_CALLS[name]] if len(plain) > INPLACE_CALLS[name] else TOP
            nv = self.store_value(plain[0], TOP, val, n, False, n)
            root = n.args[0] if getattr(n, "args", None) else None
            if isinstance(root, ast.Name) and env is not None and root.id in env and nv is not plain[0]:
                env[root.id] = nv
            return NONE
        out = kw.get("out")
        if out is not None and not (isinstance(out, K) and out.v is None) and name.startswith(("numpy.", "scipy.")):
            kw2 = {k: v for k, v in kw.items() if k != "out"}
            r = self.call_ext(name, args, kw2, n, env, fr)
            o = out.items[0] if isinstance(out, Tup) and len(out.items) == 1 else out
            nv = self.store_value(o, TOP, r, n, False, n)
            root = next((k.value for k in getattr(n, "keywords", []) if k.arg == "out"), None)
            if isinstance(root, ast.Name) and env is not None and root.id in env:
                env[root.id] = nv
            return nv
        if name.startswith("builtins."):
            b = name[9:]
            m = getattr(self, "bi_" + b, None)
            if m is not None and not starred:
                r = m(plain, kw, n, env, fr)
                if r is not None:
                    return r
        if name in ("dask.delayed", "functools.wraps", "functools.lru_cache", "numba.jit", "numba.njit",
                    "functools.cache"):
            if name == "functools.wraps":
                return Ext("$identity")
            if plain and isinstance(plain[0], (Fn, U)):
                hook = getattr(self.dom, "wrapped", None)
                if hook is not None:
                    hook(name, plain[0], kw, n)
                return plain[0]
            return Ext("$identity")
        if name == "$identity":
            return plain[0] if plain else TOP
        if name == "functools.partial" and plain and isinstance(plain[0], Fn):
            f = plain[0]
            return Fn(f.info, f.env, f.frame_id, f.pre_args + tuple(plain[1:]), {**f.pre_kw, **kw})
        if name == "functools.reduce" and len(plain) >= 2:
            e = self.elem(plain[1])
            acc = plain[2] if len(plain) > 2 else e
            for _ in range(3):
                new = self.join(acc, self.call(plain[0], [acc, e], {}, n, env, fr))
                if self.same(new, acc):
                    break
                acc = new
            return acc
        if name in ("itertools.product",):
            rep = kw.get("repeat")
            if rep is None and plain and all(not isinstance(a, tuple) for a in args) and not starred:
                return Lst(None, Tup([self.elem(x) for x in plain]), "gen")
            e = BOT
            for x in plain:
                e = self.join(e, self.elem(self.elem(x)) if starred and isinstance(self.elem(x), (Lst, Tup)) else self.elem(x))
            if starred:
                e = BOT
                for a in args:
                    e = self.join(e, self.elem(a[1]) if isinstance(a, tuple) else self.elem(a))
            if isinstance(rep, K) and isinstance(rep.v, int) and rep.v <= 8 and len(plain) == 1:
                return Lst(None, Tup([e] * rep.v), "gen")
            return Lst(None, Lst(None, e, "tuple"), "gen")
        if name in ("itertools.chain",):
            e = BOT
            for a in args:
                e = self.join(e, self.elem(self.elem(a[1])) if False else self.elem(a[1] if isinstance(a, tuple) else a))
            if starred:
                e = BOT
                for a in args:
                    e = self.join(e, self.elem(a[1]) if isinstance(a, tuple) else self.elem(a))
            return Lst(None, e, "gen")
        if name == "itertools.chain.from_iterable":
            return Lst(None, self.elem(self.elem(plain[0])) if plain else TOP, "gen")
        if name in ("itertools.combinations", "itertools.permutations", "itertools.combinations_with_replacement"):
            k = plain[1] if len(plain) > 1 else kw.get("r")
            e = self.elem(plain[0]) if plain else TOP
            if isinstance(k, K) and isinstance(k.v, int) and k.v <= 6:
                return Lst(None, Tup([e] * k.v), "gen")
            return Lst(None, Lst(None, e, "tuple"), "gen")
        if name == "itertools.count":
            return Lst(None, D(self.dom.index_value()), "gen")
        if name == "itertools.tee":
            return Tup([plain[0], plain[0]]) if plain else TOP
        if name in ("numpy.ndindex",):
            return Lst(None, Lst(None, D(self.dom.index_value()), "tuple"), "gen")
        if name == "numpy.ndenumerate" and plain:
            return Lst(None, Tup([Lst(None, D(self.dom.index_value()), "tuple"), self.elem(plain[0])]), "gen")
        if name in ("numba.prange",):
            return Lst(None, D(self.dom.index_value()), "range")
        if name == "collections.OrderedDict.fromkeys" or name == "builtins.dict.fromkeys":
            return Dct(None, TOP, self.elem(plain[0]) if plain else TOP)
        if name == "dask.compute":
            e = BOT
            for a in args:
                e = self.join(e, a[1] if isinstance(a, tuple) else a)
            r = self.dom.call_ext(name, plain, kw, n)
            if starred:
                return Lst(None, e, "tuple")
            return Tup(plain)
        if name in ("copy.copy", "copy.deepcopy") and plain:
            return self.dom.call_ext(name, plain, kw, n) if isinstance(plain[0], D) else plain[0]
        if name in ("operator.mul",):
            return self.binop("Mult", plain[0], plain[1], n)
        if name in ("warnings.warn", "builtins.print"):
            return NONE
        return self.dom.call_ext(name, plain, kw, n)

    def call_method(self, f, args, kw, n, env, fr):
        obj, name = f.obj, f.name
        if isinstance(obj, U):
            r = BOT
            for x in obj.alts:
                if isinstance(x, K) and x.v is None:
                    continue
                r = self.join(r, self.call_method(BoundM(x, name, f.expr), args, kw, n, env, fr))
            return r if r is not BOT else TOP
        if obj is BOT:
            return BOT
        if isinstance(obj, Lst):
            r = self.list_method(obj, name, args, kw, n)
            if r is not None:
                return r
        if isinstance(obj, Tup):
            if name == "index" or name == "count":
                return D(self.dom.index_value())
        if isinstance(obj, Dct):
            r = self.dict_method(obj, name, args, kw, n)
            if r is not None:
                return r
        if isinstance(obj, K) and isinstance(obj.v, str):
            if name == "format":
                return D(self.dom.top())
            if all(isinstance(a, K) for a in args):
                try:
                    r = getattr(obj.v, name)(*[a.v for a in args])
                    if isinstance(r, list):
                        return Lst([K(x) for x in r])
                    return K(r)
                except Exception:
                    return TOP
            return D(self.dom.top())
        if isinstance(obj, (D, K, Tup, Lst)):
            r = self.dom.method(obj, name, args, kw, n)
            if name in INPLACE_METHODS:
                # in-place methods rebind the receiver's abstract value
                hook = getattr(self.dom, "inplace_method", None)
                if hook is not None and isinstance(f.expr, ast.Name) and env is not None:
                    nv = hook(obj, name, args, kw, n)
                    if nv is not None and f.expr.id in env:
                        env[f.expr.id] = nv
            return r
        return self.dom.call_unknown(f, args, kw, n)

    def list_method(self, lst, name, args, kw, n):
        if name in ("append", "add"):
            self.dom.mutate_list(lst, n, name, args)
            lst.elem = self.join(self.elem(lst), args[0] if args else TOP)
            lst.items = None
            return NONE
        if name in ("extend", "update"):
            self.dom.mutate_list(lst, n, name, args)
            lst.elem = self.join(self.elem(lst), self.elem(args[0]) if args else TOP)
            lst.items = None
            return NONE
        if name == "insert":
            self.dom.mutate_list(lst, n, name, args)
            lst.elem = self.join(self.elem(lst), args[1] if len(args) > 1 else TOP)
            lst.items = None
            return NONE
        if name in ("pop",):
            self.dom.mutate_list(lst, n, name, args)
            e = self.elem(lst)
            lst.elem = e
            lst.items = None
            return e if e is not BOT else TOP
        if name in ("sort", "reverse", "clear", "remove", "discard"):
            self.dom.mutate_list(lst, n, name, args)
            e = self.elem(lst)
            lst.elem = e
            lst.items = None
            return NONE
        if name == "copy":
            return Lst(lst.items, lst.elem, lst.kind)
        if name in ("index", "count"):
            return D(self.dom.index_value())
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            e = self.elem(lst)
            for a in args:
                e = self.join(e, self.elem(a))
            return Lst(None, e, "set")
        return None

    def dict_method(self, d, name, args, kw, n):
        def allv():
            r = d.val if d.val is not None else BOT
            for x in (d.items or {}).values():
                r = self.join(r, x)
            return r

        def allk():
            if d.keyv is not None:
                return d.keyv
            r = BOT
            for k in d.items or {}:
                r = self.join(r, K(k))
            return r if d.items is not None and d.val is None else TOP

        if name in ("get", "pop", "setdefault"):
            if name != "get":
                self.dom.mutate_list(d, n, name, args)
            if args and isinstance(args[0], K) and d.items is not None:
                if args[0].v in d.items:
                    r = d.items[args[0].v]
                    return r
                if d.val is None:
                    return args[1] if len(args) > 1 else NONE
            r = self.join(allv(), args[1] if len(args) > 1 else NONE)
            return r
        if name == "items":
            if d.items is not None and d.val is None:
                return Lst([Tup([K(k), v]) for k, v in d.items.items()], kind="view")
            return Lst(None, Tup([allk(), allv()]), "view")
        if name == "keys":
            return Lst(None, allk(), "view")
        if name == "values":
            if d.items is not None and d.val is None:
                return Lst(list(d.items.values()), kind="view")
            return Lst(None, allv(), "view")
        if name in ("update",):
            self.dom.mutate_list(d, n, name, args)
            d.val = TOP
            return NONE
        if name == "copy":
            return Dct(d.items, d.val, d.keyv)
        return None

    # builtins -------------------------------------------------------------------
    def bi_len(self, a, kw, n, env, fr):
        if a and isinstance(a[0], (Tup, Lst)) and a[0].items is not None and getattr(a[0], "kind", "") != "set":
            return K(len(a[0].items))
        if a and isinstance(a[0], K) and isinstance(a[0].v, str):
            return K(len(a[0].v))
        return None

    def bi_range(self, a, kw, n, env, fr):
        if all(isinstance(x, K) and isinstance(x.v, int) for x in a) and a:
            r = range(*[x.v for x in a])
            if len(r) <= 6:
                return Lst([K(i) for i in r], kind="range")
        hook = getattr(self.dom, "range_elem", None)
        if hook is not None:
            return Lst(None, hook(a, n), "range")
        return Lst(None, D(self.dom.index_value()), "range")

    def bi_enumerate(self, a, kw, n, env, fr):
        its = self.items_of(a[0])
        if its is not None and len(a) == 1 and not kw:
            return Lst([Tup([K(i), x]) for i, x in enumerate(its)], kind="gen")
        return Lst(None, Tup([D(self.dom.index_value()), self.elem(a[0])]), "gen")

    def bi_zip(self, a, kw, n, env, fr):
        its = [self.items_of(x) for x in a]
        if a and all(x is not None for x in its):
            return Lst([Tup(t) for t in zip(*its)], kind="gen")
        return Lst(None, Tup([self.elem(x) for x in a]), "gen")

    def bi_list(self, a, kw, n, env, fr):
        if not a:
            return Lst([])
        return self._to_seq(a[0], "list", n)

    def bi_tuple(self, a, kw, n, env, fr):
        if not a:
            return Tup([])
        v = self._to_seq(a[0], "tuple", n)
        if isinstance(v, Lst) and v.items is not None:
            return Tup(v.items)
        return v

    def bi_set(self, a, kw, n, env, fr):
        if not a:
            return Lst([], kind="set")
        return Lst(None, self.elem(a[0]), "set")

    bi_frozenset = bi_set

    def bi_dict(self, a, kw, n, env, fr):
        if not a:
            return Dct(kw)
        if isinstance(a[0], Dct):
            return Dct(a[0].items, a[0].val, a[0].keyv)
        e = self.elem(a[0])
        if isinstance(e, Tup) and len(e.items) == 2:
            return Dct(None, e.items[1], e.items[0])
        return Dct(None, TOP, TOP)

    def _to_seq(self, v, kind, n):
        if isinstance(v, U):
            r = BOT
            for x in v.alts:
                if isinstance(x, K) and x.v is None:
                    continue
                r = self.join(r, self._to_seq(x, kind, n))
            return r if r is not BOT else TOP
        its = self.items_of(v)
        if its is not None:
            return Lst(its, kind=kind)
        hook = getattr(self.dom, "to_seq", None)
        if hook is not None:
            r = hook(v, kind, n)
            if r is not None:
                return r
        e = self.elem(v)
        return Lst(None, e, kind)

    def bi_sorted(self, a, kw, n, env, fr):
        hook = getattr(self.dom, "sorted_elem", None)
        e = self.elem(a[0])
        if hook is not None:
            e = hook(e, n)
        return Lst(None, e, "list")

    def bi_reversed(self, a, kw, n, env, fr):
        its = self.items_of(a[0])
        if its is not None:
            return Lst(list(reversed(its)), kind="gen")
        return Lst(None, self.elem(a[0]), "gen")

    def bi_map(self, a, kw, n, env, fr):
        if len(a) == 2:
            its = self.items_of(a[1])
            if its is not None and len(its) <= 8:
                return Lst([self.call(a[0], [x], {}, n, env, fr) for x in its], kind="gen")
        r = self.call(a[0], [self.elem(x) for x in a[1:]], {}, n, env, fr)
        return Lst(None, r, "gen")

    def bi_filter(self, a, kw, n, env, fr):
        return Lst(None, self.elem(a[1]), "gen")

    def bi_next(self, a, kw, n, env, fr):
        e = self.elem(a[0]) if a else TOP
        return e if e is not BOT else TOP

    def bi_iter(self, a, kw, n, env, fr):
        return a[0]

    def bi_isinstance(self, a, kw, n, env, fr):
        if len(a) < 2:
            return D(self.dom.top())
        types = [a[1]]
        if isinstance(a[1], Tup):
            types = list(a[1].items)
        names = [t.name if isinstance(t, Ext) else None for t in types]
        v = a[0]
        r = self.isinstance1(v, names)
        if r is None:
            return D(self.dom.top())
        return K(r)

    def isinstance1(self, v, names):
        if isinstance(v, U):
            rs = {self.isinstance1(x, names) for x in v.alts}
            return rs.pop() if len(rs) == 1 else None
        if isinstance(v, K):
            tn = type(v.v).__name__
            pynames = {"builtins." + tn}
            if tn == "bool":
                pynames.add("builtins.int")
            if any(x in pynames for x in names):
                return True
            if None not in names:
                return False
            return None
        if isinstance(v, Tup):
            return True if "builtins.tuple" in names else (None if None in names or any(
                "abc" in (x or "") or "typing" in (x or "") for x in names) else False)
        if isinstance(v, Lst) and v.kind == "list":
            return True if "builtins.list" in names else (None if None in names or any(
                "abc" in (x or "") or "typing" in (x or "") for x in names) else False)
        if isinstance(v, Dct):
            return True if "builtins.dict" in names else None
        if isinstance(v, D):
            return self.dom.isinstance_(v, names)
        return None

    def bi_getattr(self, a, kw, n, env, fr):
        if len(a) >= 2 and isinstance(a[1], K) and isinstance(a[1].v, str):
            return self.get_attr(a[0], a[1].v, n)
        return TOP

    def bi_print(self, a, kw, n, env, fr):
        return NONE

    # -- statements ------------------------------------------------------------
    def block(self, stmts, env, fr):
        for st in stmts:
            if env is None:
                return None
            fr.env = env
            env = self.stmt(st, env, fr)
        if env is not None:
            fr.env = env
        return env

    def stmt(self, st, env, fr):
        self.steps += 1
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            return self.havoc(st, env)
        return m(st, env, fr)

    def havoc(self, st, env):
        env = dict(env)
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                env[x.id] = TOP
        return env

    def st_Expr(self, st, env, fr):
        self.ev(st.value, env, fr)
        return env

    def st_Pass(self, st, env, fr):
        return env

    st_Global = st_Pass
    st_Nonlocal = st_Pass

    def st_Assign(self, st, env, fr):
        v = self.ev(st.value, env, fr)
        for t in st.targets:
            self.assign(t, v, env, fr, st)
        return env

    def st_AnnAssign(self, st, env, fr):
        if st.value is not None:
            v = self.ev(st.value, env, fr)
            self.assign(st.target, v, env, fr, st)
        return env

    def assign(self, t, v, env, fr, st):
        if isinstance(t, ast.Name):
            hook = getattr(self.dom, "bind_name", None)
            if hook is not None:
                v = hook(t.id, v, st, fr)
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, env, fr, st)
        elif isinstance(t, ast.Subscript):
            self.store(t, v, env, fr, st)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env, fr)
            hook = getattr(self.dom, "setattr", None)
            if hook is not None:
                hook(base, t.attr, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, Lst(None, self.elem(v)), env, fr, st)

    def unpack(self, t, v, env, fr, st):
        n = len(t.elts)
        its = self.items_of(v)
        star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
        if its is not None:
            if star is None and len(its) == n:
                for e, x in zip(t.elts, its):
                    self.assign(e, x, env, fr, st)
                return
            if star is not None and len(its) >= n - 1:
                k = len(its) - (n - 1)
                parts = its[:star] + [Lst(its[star:star + k])] + its[star + k:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env, fr, st)
                return
        if isinstance(v, U):
            tups = [x for x in v.alts if isinstance(x, Tup) and len(x.items) == n]
            others = [x for x in v.alts if not (isinstance(x, K) and x.v is None)]
            if tups and len(tups) == len(others):
                acc = list(tups[0].items)
                for x in tups[1:]:
                    acc = [self.join(p, q) for p, q in zip(acc, x.items)]
                for e, x in zip(t.elts, acc):
                    self.assign(e, x, env, fr, st)
                return
        if isinstance(v, D) and star is None:
            parts = self.dom.unpack(v.p, n, st)
        else:
            parts = [self.elem(v)] * n
        for e, x in zip(t.elts, parts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, Lst(None, self.elem(v)), env, fr, st)
            else:
                self.assign(e, x if x is not BOT else TOP, env, fr, st)

    def store(self, t, v, env, fr, st, aug=False):
        """``t`` is a Subscript target."""
        base = self.ev(t.value, env, fr)
        idx = self.ev(t.slice, env, fr)
        new = self.store_value(base, idx, v, st, aug, t)
        # propagate to the name at the root of the expression
        root = t.value
        depth = 0
        while isinstance(root, (ast.Subscript, ast.Attribute)):
            root = root.value
            depth += 1
        if isinstance(root, ast.Name):
            if depth == 0:
                if new is not base:
                    if root.id in env:
                        env[root.id] = new
            elif new is not base:
                old = self.lookup(root.id, env, fr)
                if isinstance(old, D):
                    nv = self.dom.setitem(old, TOP, v, st, aug)
                    if root.id in env:
                        env[root.id] = nv
                elif isinstance(old, Lst):
                    if isinstance(new, V):
                        old.elem = self.join(self.elem(old), new)
                        old.items = None

    def store_value(self, base, idx, v, st, aug, t):
        if isinstance(base, U):
            alts = []
            for x in base.alts:
                alts.append(self.store_value(x, idx, v, st, aug, t))
            r = BOT
            for x in alts:
                r = self.join(r, x)
            return r
        if isinstance(base, Lst):
            self.dom.mutate_list(base, st, "setitem", (idx, v))
            if base.items is not None and isinstance(idx, K) and isinstance(idx.v, int) and \
                    -len(base.items) <= idx.v < len(base.items) and not fr_in_loop(self):
                new = Lst(base.items, kind=base.kind, tag=base.tag)
                base.items[idx.v] = v
                return base
            base.elem = self.join(self.elem(base), self.elem(v) if isinstance(idx, Slice) else v)
            base.items = None
            return base
        if isinstance(base, Dct):
            self.dom.mutate_list(base, st, "setitem", (idx, v))
            if isinstance(idx, K) and base.items is not None:
                old = base.items.get(idx.v)
                base.items[idx.v] = v if old is None or not fr_in_loop(self) else self.join(old, v)
            else:
                base.val = self.join(base.val or BOT, v)
                base.keyv = self.join(base.keyv or BOT, idx)
            return base
        if isinstance(base, (D, K, Tup)):
            if isinstance(base, (K, Tup)):
                return base
            return self.dom.setitem(base, idx, v, st, aug)
        self.dom.setitem(base, idx, v, st, aug) if base is TOP and getattr(self.dom, "top_store", False) else None
        return base

    def st_AugAssign(self, st, env, fr):
        v = self.ev(st.value, env, fr)
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env, fr)
            if isinstance(cur, Lst) and op == "Add" and cur.kind == "list":
                self.dom.mutate_list(cur, st, "iadd", (v,))
                cur.elem = self.join(self.elem(cur), self.elem(v))
                cur.items = None
                return env
            new = self.binop(op, cur, v, st)
            if isinstance(cur, (D, U)) or cur is TOP:
                new = self.dom.augassign(cur, v, new, st)
            env[t.id] = new
        elif isinstance(t, ast.Subscript):
            load = ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
            cur = self.ev_Subscript(load, env, fr)
            new = self.binop(op, cur, v, st)
            self.store(t, new, env, fr, st, aug=True)
        return env

    def st_Return(self, st, env, fr):
        v = self.ev(st.value, env, fr) if st.value is not None else NONE
        fr.env = env
        self.dom.on_return(fr, v, st)
        fr.returns.append((v, st))
        return None

    def st_Raise(self, st, env, fr):
        fr.env = env
        self.dom.on_raise(fr, st)
        return None

    def st_Assert(self, st, env, fr):
        t = self.ev(st.test, env, fr)
        self.dom.branch(st, t, fr)
        if self.truth(t) is False:
            return None
        hook = getattr(self.dom, "guard", None)
        env2 = self.assume(st.test, env, fr, True)
        if hook is not None and self.truth(t) is None:
            hook(t, env2, False, True, fr, st)
        return env2

    def st_Delete(self, st, env, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, env, fr)
                if isinstance(b, (Lst, Dct)):
                    self.dom.mutate_list(b, st, "del")
                    if isinstance(b, Lst):
                        b.elem = self.elem(b)
                        b.items = None
                elif isinstance(b, D):
                    self.dom.setitem(b, TOP, TOP, st)
        return env

    def st_Import(self, st, env, fr):
        for k, v in fr.info.module.import_bindings(st).items():
            if k == "*":
                continue
            if v[0] == "import":
                env[k] = self.from_ref(self.prog.module_ref(v[1]))
            else:
                env[k] = self.from_ref(self.prog.member(v[1], v[2]))
        return env

    st_ImportFrom = st_Import

    def st_FunctionDef(self, st, env, fr):
        info = FuncInfo(fr.info.module, st, fr.info.qualname + ".<locals>." + st.name, parent=fr.info)
        env[st.name] = Fn(info, env, fr.id)
        return env

    def st_ClassDef(self, st, env, fr):
        env[st.name] = TOP
        return env

    def st_If(self, st, env, fr):
        t = self.ev(st.test, env, fr)
        self.dom.branch(st, t, fr)
        tr = self.truth(t)
        if tr is True:
            return self.block(st.body, env, fr)
        if tr is False:
            return self.block(st.orelse, env, fr)
        split = getattr(self.dom, "split", None)
        e1 = self.assume(st.test, dict(env), fr, True)
        e2 = self.assume(st.test, dict(env), fr, False)
        nr = len(fr.returns)
        o1 = self.block(st.body, e1, fr) if e1 is not None else None
        o2 = self.block(st.orelse, e2, fr) if e2 is not None else None
        hook = getattr(self.dom, "guard", None)
        if hook is not None:
            hook(t, o1, self.always_raises(st.orelse) if st.orelse else False, True, fr, st)
            hook(t, o2, self.always_raises(st.body), False, fr, st)
        self.mark_choice(st, t, o1, o2)
        return self.join_env(o1, o2)

    def mark_choice(self, st, t, o1, o2):
        hook = getattr(self.dom, "on_join", None)
        if hook is not None:
            hook(st, t, o1, o2)

    @staticmethod
    def always_raises(stmts):
        """Syntactically: every way through the statements ends in a raise."""
        for s in stmts:
            if isinstance(s, ast.Raise):
                return True
            if isinstance(s, ast.If) and s.orelse and Interp.always_raises(s.body) and Interp.always_raises(s.orelse):
                return True
            if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
                return False
        return False

    def assume(self, test, env, fr, truth):
        """Refine an environment by a branch condition."""
        if env is None:
            return None
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(test.operand, env, fr, not truth)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == truth:
                for v in test.values:
                    env = self.assume(v, env, fr, truth)
                    if env is None:
                        return None
            return env
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None \
                and isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            pos = isinstance(test.ops[0], (ast.Is, ast.Eq)) == truth
            v = env.get(test.left.id)
            if v is None:
                return env
            env = dict(env)
            if pos:
                if isinstance(v, (U,)) or v is TOP:
                    env[test.left.id] = NONE
            elif isinstance(v, U):
                alts = [x for x in v.alts if not (isinstance(x, K) and x.v is None)]
                env[test.left.id] = alts[0] if len(alts) == 1 else U(alts)
            return env
        if isinstance(test, ast.Name):
            v = env.get(test.id)
            if isinstance(v, U):
                alts = [x for x in v.alts if self.truth(x) is not (not truth)]
                if alts and len(alts) < len(v.alts):
                    env = dict(env)
                    env[test.id] = alts[0] if len(alts) == 1 else U(alts)
            return env
        hook = getattr(self.dom, "assume", None)
        if hook is not None:
            return hook(test, env, fr, truth)
        return env

    def st_For(self, st, env, fr):
        it = self.ev(st.iter, env, fr)
        hook = getattr(self.dom, "on_for", None)
        if hook is not None:
            hook(st, it, fr)
        its = self.items_of(it)
        if its is not None and len(its) == 0:
            return self.block(st.orelse, env, fr) if st.orelse else env
        unroll = getattr(self.dom, "unroll", 0)
        if its is not None and 0 < len(its) <= unroll:
            brk = None
            for x in its:
                lc = LoopCtx()
                fr.loops.append(lc)
                self.assign(st.target, x, env, fr, st)
                out = self.block(st.body, env, fr)
                fr.loops.pop()
                for e in lc.conts:
                    out = self.join_env(out, e)
                for e in lc.breaks:
                    brk = self.join_env(brk, e)
                env = out
                if env is None:
                    break
            if env is not None and st.orelse:
                env = self.block(st.orelse, env, fr)
            return self.join_env(env, brk)
        elem = self.elem(it)
        if elem is BOT and its is None:
            # nothing is known to be in the iterable (recursion): skip the body
            return env
        nonempty = its is not None

        def bind(e):
            self.assign(st.target, elem, e, fr, st)
            return e

        return self.loop(st, env, fr, bind, None, nonempty)

    st_AsyncFor = st_For

    def st_While(self, st, env, fr):
        return self.loop(st, env, fr, lambda e: e, st.test, False)

    def loop(self, st, env, fr, bind, test, nonempty):
        state = env
        breaks = None
        out = None
        for k in range(12):
            e = bind(dict(state))
            exit_env = None
            if test is not None:
                t = self.ev(test, e, fr)
                self.dom.branch(st, t, fr)
                tr = self.truth(t)
                if tr is False:
                    exit_env = e
                    e = None
                elif tr is None:
                    exit_env = self.assume(test, dict(e), fr, False)
                    e = self.assume(test, e, fr, True)
            lc = LoopCtx()
            fr.loops.append(lc)
            out = self.block(st.body, e, fr) if e is not None else None
            fr.loops.pop()
            for x in lc.conts:
                out = self.join_env(out, x)
            for x in lc.breaks:
                breaks = self.join_env(breaks, x)
            new = self.join_env(state, out)
            if self.env_same(new, state):
                break
            if k >= 6:
                new = {kk: (vv if kk in state and self.same(vv, state[kk]) else
                            (vv if kk.startswith("$") else TOP)) for kk, vv in new.items()}
            state = new
        hook = getattr(self.dom, "loop_exit", None)
        if test is not None:
            t = self.truth(self.ev(test, dict(state), fr))
            ex = None if t is True else self.assume(test, dict(state), fr, False)
        else:
            ex = out if nonempty and out is not None else state
            if nonempty and out is None:
                ex = None
            if hook is not None:
                ex = hook(st, env, state, out, ex)
        if ex is not None and st.orelse:
            ex = self.block(st.orelse, ex, fr)
        return self.join_env(ex, breaks)

    def st_Break(self, st, env, fr):
        if fr.loops:
            fr.loops[-1].breaks.append(env)
        return None

    def st_Continue(self, st, env, fr):
        if fr.loops:
            fr.loops[-1].conts.append(env)
        return None

    def st_Try(self, st, env, fr):
        e0 = dict(env)
        out = self.block(st.body, env, fr)
        mid = self.join_env(dict(e0), out)
        res = out
        if res is not None and st.orelse:
            res = self.block(st.orelse, res, fr)
        for h in st.handlers:
            he = dict(mid)
            if h.name:
                he[h.name] = TOP
            res = self.join_env(res, self.block(h.body, he, fr))
        if st.finalbody:
            if res is None:
                self.block(st.finalbody, dict(mid), fr)
            else:
                res = self.block(st.finalbody, res, fr)
        return res

    st_TryStar = st_Try

    def st_With(self, st, env, fr):
        for i in st.items:
            v = self.ev(i.context_expr, env, fr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, TOP, env, fr, st)
        return self.block(st.body, env, fr)

    def st_Match(self, st, env, fr):
        self.ev(st.subject, env, fr)
        res = dict(env)
        for c in st.cases:
            e = dict(env)
            for x in ast.walk(c.pattern):
                nm = getattr(x, "name", None)
                if isinstance(nm, str):
                    e[nm] = TOP
            res = self.join_env(res, self.block(c.body, e, fr))
        return res


def fr_in_loop(it):
    return bool(it.frames and it.frames[-1].loops)


BUILTINS = {
    "abs", "all", "any", "bool", "bytes", "callable", "complex", "dict", "divmod", "enumerate", "filter", "float",
    "frozenset", "getattr", "hasattr", "hash", "id", "int", "isinstance", "issubclass", "iter", "len", "list", "map",
    "max", "min", "next", "object", "open", "ord", "chr", "pow", "print", "range", "repr", "reversed", "round", "set",
    "setattr", "slice", "sorted", "str", "sum", "super", "tuple", "type", "vars", "zip", "ValueError", "TypeError",
    "NotImplementedError", "Exception", "RuntimeError", "KeyError", "IndexError", "AttributeError", "StopIteration",
    "ZeroDivisionError", "AssertionError", "DeprecationWarning", "UserWarning", "FutureWarning", "ArithmeticError",
    "OverflowError", "MemoryError", "RecursionError", "Warning", "globals", "locals", "__import__", "eval", "exec",
    "input", "format", "bin", "hex", "memoryview", "bytearray", "staticmethod", "classmethod", "property",
}

EXT_CONSTS = {
    "numpy.pi": 3.141592653589793,
    "numpy.e": 2.718281828459045,
    "math.pi": 3.141592653589793,
    "math.e": 2.718281828459045,
    "numpy.newaxis": None,
    "numpy.inf": float("inf"),
    "math.inf": float("inf"),
}

METHODS = {
    "copy", "astype", "conj", "conjugate", "reshape", "transpose", "sum", "flatten", "ravel", "tolist", "any", "all",
    "max", "min", "append", "pop", "extend", "insert", "get", "items", "keys", "values", "index", "count", "sort",
    "diagonal", "dot", "trace", "prod", "cumsum", "mean", "argsort", "nonzero", "item", "fill", "format", "join",
    "split", "swapaxes", "squeeze", "take", "view", "round", "clip", "var", "std", "argmax", "argmin", "repeat",
    "update", "add", "remove", "clear", "reverse", "setdefault", "itemset", "put", "resize", "partition", "conjugate",
    "intersection", "union", "difference", "popitem", "discard",
}

# functions that store into their first argument -> position of the stored value
INPLACE_CALLS = {"numpy.fill_diagonal": 1, "numpy.copyto": 1, "numpy.put": 2, "numpy.place": 2, "numpy.putmask": 2,
                 "numpy.put_along_axis": 2, "numpy.random.shuffle": 9, "numpy.add.at": 2}

INPLACE_METHODS = {"fill", "sort", "resize", "put", "itemset", "partition"}


def fold_bin(op, a, b):
    if not isinstance(a, (int, float, complex, bool)) or not isinstance(b, (int, float, complex, bool)):
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return K(a + b)
        if op == "Mult" and isinstance(a, str) and isinstance(b, int) and len(a) * b < 200:
            return K(a * b)
        return None
    try:
        if op == "Add":
            return K(a + b)
        if op == "Sub":
            return K(a - b)
        if op == "Mult":
            return K(a * b)
        if op == "Div":
            return K(a / b)
        if op == "FloorDiv":
            return K(a // b)
        if op == "Mod":
            return K(a % b)
        if op == "Pow":
            if isinstance(b, (int, float)) and abs(b) > 64:
                return None
            return K(a**b)
        if op == "LShift":
            return K(a << b) if b < 64 else None
        if op == "RShift":
            return K(a >> b)
        if op == "BitAnd":
            return K(a & b)
        if op == "BitOr":
            return K(a | b)
        if op == "BitXor":
            return K(a ^ b)
    except Exception:
        return None
    return None


def fold_cmp(op, a, b):
    try:
        if op == "Eq":
            return a == b
        if op == "NotEq":
            return a != b
        if op == "Lt":
            return a < b
        if op == "LtE":
            return a <= b
        if op == "Gt":
            return a > b
        if op == "GtE":
            return a >= b
        if op == "In":
            return a in b
        if op == "NotIn":
            return a not in b
    except Exception:
        return None
    return None
