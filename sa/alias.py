"""Alias and effect analysis: which caller-owned (or shared) objects a store can reach.

The payload of a value is the set of *owners* whose memory it may share
(``p:<param>`` for a caller's argument, ``g:<module>.<name>`` for a module
level object, ``d:<function>.<param>`` for a mutable default, ``c:<function>``
for an object returned from a cache) and a kind: ``arr`` (an array, or a view),
``seq`` (list/dict), ``num`` (a number) or ``?``.
"""
import ast

from .interp import BOT, D, Dct, Domain, Ext, Fn, Interp, K, Lst, NONE, Slice, TOP, Tup, U
from .npk import CAT, VIEW, canon
from .report import Finding
from .units import src

NO = frozenset()
KIND = {"array": "arr", "list": "seq", "dict": "seq", "int": "num", "real": "num", "complex": "num", "bool": "num",
        "str": "num", "dtype": "num"}


class Al:
    __slots__ = ("o", "k")

    def __init__(self, o=NO, k="?"):
        self.o, self.k = o, k

    def __repr__(self):
        return f"Al({sorted(self.o)},{self.k})"


FRESH = Al(NO, "arr")
NUM = Al(NO, "num")
UNK = Al(NO, "?")
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "reverse", "sort", "update", "setdefault", "popitem",
            "add", "discard", "fill", "resize", "put", "itemset", "partition", "setflags", "byteswap", "setfield"}
# numpy functions that write into an argument position
WRITERS = {"random.shuffle": 0, "fft.": None}
REDUCE = {"sum", "trace", "max", "min", "mean", "prod", "linalg.det", "linalg.norm", "item", "median", "any", "all"}


class AliasDomain(Domain):
    max_depth = 18
    unroll = 3

    def __init__(self, exempt=()):
        self.hits = {}
        self.stores = 0
        self.owned_stores = 0
        self.exempt = set(exempt)
        self.globals_tagged = {}

    # lattice
    def top(self):
        return UNK

    def const(self, v):
        return NUM

    def key(self, p):
        return (tuple(sorted(p.o)), p.k)

    def join(self, p, q):
        return Al(p.o | q.o, p.k if p.k == q.k else "?")

    def lift_seq(self, ps):
        return Al(NO, "seq")

    def index_value(self):
        return NUM

    def iter_elem(self, p):
        return D(Al(p.o, "num" if p.k == "num" else "?"))

    def arrayish(self, p):
        return p.k == "arr"

    def owners(self, v):
        if isinstance(v, D):
            return v.p.o
        if isinstance(v, (Lst, Dct)):
            return v.tag or NO
        if isinstance(v, U):
            r = NO
            for x in v.alts:
                r = r | self.owners(x)
            return r
        return NO

    def hit(self, owners, node, what):
        self.stores += 1
        if not owners:
            return
        self.owned_stores += 1
        f = self.it.cur
        if f is not None and f.name in self.exempt:
            return
        for o in owners:
            k = (o, f.full if f else "?", what.split(" ")[0])
            if k not in self.hits:
                self.hits[k] = (self.it.where(node), f"{what}: `{src(node)}`", self.it.call_path())

    # operations
    def kind_of(self, v):
        return self.it.lift(v).k

    def binop(self, op, a, b, node):
        ks = {self.kind_of(a), self.kind_of(b)}
        k = "arr" if "arr" in ks else "num" if ks == {"num"} else "?"
        return D(Al(NO, k))

    def unop(self, op, a, node):
        return D(Al(NO, self.kind_of(a)))

    def compare(self, op, a, b, node):
        return D(Al(NO, "arr" if "arr" in (self.kind_of(a), self.kind_of(b)) else "num"))

    def attr(self, v, name, node):
        p = self.it.lift(v)
        if name in ("T", "real", "imag", "flat", "mT", "base", "data"):
            return D(Al(p.o, p.k))
        if name == "shape":
            return Lst(None, D(NUM), "tuple")
        return D(NUM)

    def index_kind(self, idx):
        """'basic' (a view), 'fancy' (a copy) or '?'"""
        if isinstance(idx, Slice):
            return "basic"
        if isinstance(idx, K):
            return "basic"
        if isinstance(idx, Lst):
            return "fancy"
        if isinstance(idx, Tup):
            ks = {self.index_kind(x) for x in idx.items}
            return "fancy" if "fancy" in ks else "?" if "?" in ks else "basic"
        if isinstance(idx, D):
            return "basic" if idx.p.k == "num" else "fancy" if idx.p.k in ("arr", "seq") else "?"
        return "?"

    def getitem(self, v, idx, node):
        p = self.it.lift(v)
        if p.k == "seq":
            return D(Al(p.o, "?"))
        ik = self.index_kind(idx)
        if ik == "basic":
            has_slice = isinstance(idx, Slice) or isinstance(idx, Tup) and any(
                isinstance(x, Slice) or isinstance(x, K) and x.v in (None, Ellipsis) for x in idx.items) \
                or isinstance(idx, K) and idx.v in (None, Ellipsis)
            return D(Al(p.o, p.k if has_slice else "?"))
        return D(Al(NO, "arr" if ik == "fancy" else "?"))

    def setitem(self, v, idx, val, node, aug=False):
        self.hit(self.owners(v), node, "store into an element")
        return v

    def setattr(self, base, name, v, node):
        self.hit(self.owners(base), node, f"attribute {name} set")

    def augassign(self, cur, v, new, node):
        alts = cur.alts if isinstance(cur, U) else [cur]
        out = BOT
        for c in alts:
            if isinstance(c, D) and c.p.k in ("arr", "seq"):
                self.hit(c.p.o, node, "in-place operator")
                out = self.it.join(out, c)
            elif isinstance(c, D) and c.p.k == "?" and c.p.o:
                # a number or a view: assignment of a number rebinds the name
                out = self.it.join(out, D(Al(NO, "?")))
        return out if out is not BOT else new

    def mutate_list(self, lst, node, how, args=()):
        self.hit(lst.tag or NO, node, f"{how} on a list or dictionary")

    def inplace_method(self, obj, name, args, kw, n):
        return None

    def method(self, v, name, args, kw, node):
        p = self.it.lift(v)
        if name in MUTATORS and not (name in ("pop", "add", "update", "remove") and p.k == "num"):
            self.hit(self.owners(v), node, f"{name}() in place")
            return D(Al(p.o, "?")) if name in ("pop", "setdefault", "popitem") else NONE
        if name in ("get",):
            return D(Al(p.o, "?"))
        if name in ("items",):
            return Lst(None, Tup([D(NUM), D(Al(p.o, "?"))]), "view")
        if name in ("values",):
            return Lst(None, D(Al(p.o, "?")), "view")
        if name in ("keys",):
            return Lst(None, D(NUM), "view")
        return self.call_ext("numpy." + name, [v] + list(args), kw, node, meth=True)

    def call_ext(self, name, args, kw, node, meth=False):
        c = canon(name)
        p0 = self.it.lift(args[0]) if args else UNK
        for k in ("overwrite_a", "overwrite_b", "overwrite_x", "overwrite_input"):
            v = kw.get(k)
            if v is not None and not (isinstance(v, K) and not v.v):
                i = 1 if k == "overwrite_b" else 0
                if len(args) > i:
                    self.hit(self.owners(args[i]), node, f"{k}=True")
        if c == "random.shuffle" and args:
            self.hit(self.owners(args[0]), node, "shuffle in place")
            return NONE
        if c in ("array", "astype", "nan_to_num"):
            cp = kw.get("copy")
            if cp is not None and isinstance(cp, K) and not cp.v:
                return D(Al(p0.o, "arr"))
            return D(FRESH)
        if c in VIEW:
            if c == "diag":
                return D(FRESH)
            o = self.owners(args[0]) if args else NO
            return D(Al(o, p0.k if p0.k != "seq" else "arr"))
        if c in REDUCE:
            ax = kw.get("axis") or (args[1] if len(args) > 1 else None)
            return D(Al(NO, "num" if ax is None or isinstance(ax, K) and ax.v is None else "arr"))
        if c in ("linalg.eigh", "linalg.eig", "linalg.qr", "linalg.schur", "linalg.polar"):
            return Tup([D(FRESH), D(FRESH)])
        if c == "linalg.svd":
            return Tup([D(FRESH)] * 3)
        if c in ("nonzero", "unravel_index", "indices") or c == "where" and len(args) == 1:
            return Lst(None, D(FRESH), "tuple")
        if c == "shape":
            return Lst(None, D(NUM), "tuple")
        if c in ("ix_", "meshgrid"):
            return Lst(None, D(FRESH), "tuple")
        if c.startswith("py."):
            if c in ("py.len", "py.int", "py.float", "py.complex", "py.bool", "py.str", "py.hash", "py.id", "py.isinstance",
                     "py.repr", "py.divmod", "py.callable", "py.type"):
                return D(NUM)
            if c in ("py.setattr",):
                self.hit(self.owners(args[0]), node, "setattr")
                return NONE
            return D(UNK)
        cat = CAT.get(c)
        if cat in ("zeros", "ones", "full", "concat", "sel"):
            return D(FRESH)
        if cat == "bool":
            return D(NUM if c not in ("isnan", "isclose", "logical_and", "logical_or", "logical_not", "greater", "less") else UNK)
        if cat == "number":
            return D(NUM)
        if cat in ("same", "trans", "sqrt", "square", "power"):
            return D(Al(NO, p0.k if p0.k != "seq" else "arr"))
        if cat in ("mul", "add", "div"):
            return D(Al(NO, "?"))
        if cat == "index" and c in ("argsort", "flatnonzero", "bincount"):
            return D(FRESH)
        if c in ("copy.copy", "copy.deepcopy"):
            return D(Al(NO, p0.k))
        return D(UNK)

    def call_unknown(self, f, args, kw, node):
        return TOP

    def select(self, t, a, b, node):
        return None

    def isinstance_(self, p, names):
        return None

    # shared objects ------------------------------------------------------
    def leave(self, info, bound, ret, node):
        if cached(info):
            o = frozenset(["c:" + info.full])
            return self.tag(ret, o)
        return ret

    def tag(self, v, o):
        if isinstance(v, D):
            return D(Al(v.p.o | o, v.p.k)) if v.p.k != "num" else v
        if isinstance(v, Lst):
            # shared container: keep its owner
            return Lst(v.items, v.elem, v.kind, tag=(v.tag or NO) | o)
        if isinstance(v, Dct):
            return Dct(v.items, v.val, v.keyv, tag=(v.tag or NO) | o)
        if isinstance(v, U):
            return U([self.tag(x, o) for x in v.alts])
        return v


CACHES = ("lru_cache", "cache", "memoized", "cached", "memoize", "memo")


def cached(info):
    if isinstance(info.node, ast.Lambda):
        return False
    for d in info.node.decorator_list:
        f = d.func if isinstance(d, ast.Call) else d
        nm = ast.unparse(f).split(".")[-1]
        if nm in CACHES:
            return True
    return False


class AliasInterp(Interp):
    """Adds owners to module-level objects and mutable defaults."""

    def from_ref(self, r, name=None):
        v = super().from_ref(r, name)
        if r is not None and r[0] == "expr":
            tag = frozenset([f"g:{r[1].name}.{name or '?'}"])
            if isinstance(v, (Lst, Dct)) or isinstance(v, D) and v.p.k in ("arr", "seq"):
                return self.dom.tag(v, tag)
        return v

    def default_value(self, info, node, fnenv):
        v = super().default_value(info, node, fnenv)
        if isinstance(v, (Lst, Dct)) or isinstance(v, D) and v.p.k in ("arr", "seq"):
            return self.dom.tag(v, frozenset([f"d:{info.full}"]))
        return v


def initial(info, kinds):
    b = {}
    dfl = info.defaults()
    for p in info.params:
        k = kinds.get(p)
        if k is None:
            d = dfl.get(p)
            if d is None:
                k = "?"
            else:
                continue
        if k == "dtype":
            b[p] = D(Al(NO, "num"))
            continue
        kd = KIND.get(k, "?")
        v = D(Al(frozenset(["p:" + p]) if kd != "num" else NO, kd))
        d = dfl.get(p)
        if isinstance(d, ast.Constant) and d.value is None:
            v = U([NONE, v])
        b[p] = v
    return b
