"""State that outlives a call: module-level objects, mutable defaults, variables of decorators, attributes of functions,
``global`` names and caches; and the dependence of cached values on their keys."""
import ast

from .loader import walk_local

LOSSY_CALLS = {"len", "id", "type", "sum", "min", "max", "round", "hash", "any", "all", "abs", "norm", "trace", "det", "mean", "prod",
               "bool", "shape", "size", "ndim", "rank", "matrix_rank", "around", "floor", "ceil", "real", "imag", "isnan", "sorted", "set",
               "frozenset", "keys", "diag", "diagonal", "argmax", "int", "count_nonzero", "std", "var", "median", "first", "next", "item",
               "allclose", "array_equal", "isinstance", "callable"}
LOSSY_ATTRS = {"shape", "size", "ndim", "dtype", "nbytes", "real", "imag", "__class__", "itemsize"}
MUT = {"append", "extend", "insert", "pop", "remove", "clear", "reverse", "sort", "update", "setdefault", "popitem", "add", "discard",
       "move_to_end", "fill"}
CACHEDEC = {"lru_cache", "cache", "memoized", "cached", "memoize", "memo"}
ITERS = {"iter", "map", "zip", "filter", "open", "itertools.count", "itertools.cycle", "count", "cycle", "chain", "product",
         "permutations", "combinations", "itertools.chain", "itertools.product", "enumerate", "reversed"}


class Scope:
    """a function, with the definitions of its local names"""

    def __init__(self, prog, module, node, parent=None, name=None):
        self.prog, self.module, self.node, self.parent = prog, module, node, parent
        self.name = name or getattr(node, "name", "<lambda>")
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.star = [x.arg for x in (a.vararg, a.kwarg) if x is not None]
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.globals, self.nonlocals = set(), set()
        self.binds = set()
        self.defs = {}      # name -> [(expr, [tests])]
        self.parents = {}
        self.children = []
        body = node.body if isinstance(node.body, list) else [node.body]
        self._walk(body, [])

    @property
    def all_params(self):
        return self.params + self.star

    def qual(self):
        return (self.parent.qual() + "." if self.parent else self.module.name + ".") + self.name

    def loc(self, node):
        return f"{self.module.rel}:{getattr(node, 'lineno', self.node.lineno)}"

    def add(self, target, expr, tests):
        if isinstance(target, ast.Name):
            self.binds.add(target.id)
            self.defs.setdefault(target.id, []).append((expr, list(tests)))
        elif isinstance(target, (ast.Tuple, ast.List)):
            for e in target.elts:
                self.add(e, expr, tests)
        elif isinstance(target, ast.Starred):
            self.add(target.value, expr, tests)
        elif isinstance(target, ast.Subscript):
            b = target.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                self.defs.setdefault(b.id, []).append((expr, list(tests)))

    def _walk(self, body, tests):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.children.append(Scope(self.prog, self.module, st, self))
                continue
            if isinstance(st, ast.ClassDef):
                continue
            for x in ast.walk(st) if not hasattr(st, "body") else expr_parts(st):
                if isinstance(x, ast.NamedExpr):
                    self.add(x.target, x.value, tests)
            if isinstance(st, ast.Global):
                self.globals |= set(st.names)
            elif isinstance(st, ast.Nonlocal):
                self.nonlocals |= set(st.names)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    self.add(t, st.value, tests)
            elif isinstance(st, (ast.AugAssign, ast.AnnAssign)) and st.value is not None:
                self.add(st.target, st.value, tests)
            elif isinstance(st, (ast.For, ast.AsyncFor)):
                self.add(st.target, st.iter, tests)
                self._walk(st.body + st.orelse, tests + [st.iter])
            elif isinstance(st, ast.While):
                self._walk(st.body + st.orelse, tests + [st.test])
            elif isinstance(st, ast.If):
                self._walk(st.body, tests + [st.test])
                self._walk(st.orelse, tests + [st.test])
            elif isinstance(st, (ast.With, ast.AsyncWith)):
                for i in st.items:
                    if i.optional_vars is not None:
                        self.add(i.optional_vars, i.context_expr, tests)
                self._walk(st.body, tests)
            elif isinstance(st, ast.Try):
                self._walk(st.body, tests)
                for h in st.handlers:
                    self._walk(h.body, tests)
                self._walk(st.orelse + st.finalbody, tests)

    def local(self, name):
        return (name in self.binds and name not in self.globals and name not in self.nonlocals) or name in self.all_params


def expr_parts(st):
    for f, v in ast.iter_fields(st):
        if f in ("body", "orelse", "handlers", "finalbody"):
            continue
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, ast.AST):
                yield from ast.walk(x)


def scopes(prog):
    """every function of the repository, nested ones included"""
    out = []

    def rec(s):
        out.append(s)
        for c in s.children:
            rec(c)

    for m in prog.modules.values():
        for f in m.funcs.values():
            rec(Scope(prog, m, f.node))
        for b, v in m.bindings.items():
            if v[0] == "class":
                for st in v[1].body:
                    if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        rec(Scope(prog, m, st, None, f"{b}.{st.name}"))
    return out


def unp(e):
    return ast.unparse(e)


class Deps:
    """which parameters an expression depends on, and whether completely"""

    def __init__(self, scope, constant_scopes=(), stop=(), skip=(), through=()):
        self.scope = scope
        self.const = set(constant_scopes)
        self.stop = set(stop)        # expressions that are part of the key
        self.skip = set(skip)        # the names of the cache itself
        self.through = through

    def of(self, e):
        out = set()
        self._go(e, False, out, set())
        return out

    def _name(self, name, lossy, out, seen):
        if name in self.stop or name in self.skip:
            return
        s = self.scope
        while s is not None and not s.local(name):
            s = s.parent
        if s is None or id(s) in self.const:
            return
        if (id(s), name) in seen:
            return
        seen = seen | {(id(s), name)}
        if name in s.all_params:
            out.add((name, lossy))
        for ex, tests in s.defs.get(name, ()):
            old = self.scope
            self.scope = s
            self._go(ex, lossy, out, seen)
            for t in tests:
                if not any(isinstance(x, ast.Name) and x.id in self.skip for x in ast.walk(t)):
                    self._go(t, True, out, seen)
            self.scope = old

    def _go(self, e, lossy, out, seen):
        if not isinstance(e, ast.AST):
            return
        if isinstance(e, (ast.expr,)) and not isinstance(e, ast.Constant) and unp(e) in self.stop:
            return
        if isinstance(e, ast.Name):
            self._name(e.id, lossy, out, seen)
            return
        if isinstance(e, ast.Lambda):
            for x in ast.walk(e.body):
                if isinstance(x, ast.Name) and x.id not in {a.arg for a in e.args.args}:
                    self._name(x.id, lossy, out, seen)
            return
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            bound = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and x.id not in bound:
                    self._name(x.id, lossy or isinstance(e, ast.SetComp), out, seen)
            return
        if isinstance(e, ast.Call):
            f = e.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            l2 = lossy or nm in LOSSY_CALLS
            if nm in ("sorted", "frozenset", "set", "tuple", "list") and len(e.args) == 1:
                a = e.args[0]
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == "items":
                    self._go(a.func.value, lossy, out, seen)
                    return
                if nm in ("tuple", "list") and isinstance(a, ast.Name) and a.id == self.scope.kwarg:
                    l2 = True
            if isinstance(f, ast.Attribute):
                self._go(f.value, l2, out, seen)
            elif isinstance(f, ast.Name):
                self._name(f.id, lossy, out, seen)
            for a in e.args:
                self._go(a, l2, out, seen)
            for k in e.keywords:
                self._go(k.value, l2, out, seen)
            return
        if isinstance(e, ast.Attribute):
            self._go(e.value, lossy or e.attr in LOSSY_ATTRS, out, seen)
            return
        if isinstance(e, ast.Subscript):
            self._go(e.value, True, out, seen)
            self._go(e.slice, True, out, seen)
            return
        if isinstance(e, (ast.Compare, ast.BoolOp)):
            lossy = True
        if isinstance(e, ast.BinOp) and not isinstance(e.left, ast.Constant) and not isinstance(e.right, ast.Constant):
            lossy = lossy or not (isinstance(e.op, ast.Add) and isinstance(e.left, ast.Tuple) or isinstance(e.right, ast.Tuple))
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.FloorDiv, ast.Mod)):
            lossy = True
        for c in ast.iter_child_nodes(e):
            self._go(c, lossy, out, seen)


def key_parts(scope, key, seen=()):
    """the expressions a key consists of (a tuple's elements, looked up through local names)"""
    out = set()
    if isinstance(key, ast.Tuple):
        for e in key.elts:
            out |= key_parts(scope, e, seen)
        return out
    out.add(unp(key))
    if isinstance(key, ast.Name) and key.id not in seen and key.id not in scope.all_params:
        ds = scope.defs.get(key.id, ())
        if len(ds) == 1 and isinstance(ds[0][0], (ast.Tuple, ast.Name)):
            out |= key_parts(scope, ds[0][0], seen + (key.id,))
    if isinstance(key, ast.Call) and isinstance(key.func, ast.Name) and key.func.id == "tuple" and len(key.args) == 1:
        out |= key_parts(scope, key.args[0], seen)
    return out


def missing_from_key(scope, key, values, cache_names, const=()):
    """[(parameter, how the key mentions it)] for parameters the value depends on but the key does not determine"""
    parts = set()
    for k in key:
        parts |= key_parts(scope, k)
    kd = set()
    for k in key:
        kd |= Deps(scope, const, (), cache_names).of(k)
    full = {p for p, l in kd if not l}
    part = {p for p, l in kd if l}
    vd = set()
    for v in values:
        vd |= {p for p, _ in Deps(scope, const, parts, cache_names).of(v)}
    return [(p, "only in part" if p in part else "not at all") for p in sorted(vd) if p not in full]


def is_cachedec(d):
    f = d.func if isinstance(d, ast.Call) else d
    return unp(f).split(".")[-1] in CACHEDEC


def reads_key(scope, names, key):
    """does the function look the key up in the container"""
    for x in ast.walk(scope.node):
        if isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.In, ast.NotIn)) and any(unp(c) in names for c in x.comparators):
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "setdefault") and unp(x.func.value) in names:
            return True
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and unp(x.value) in names:
            return True
    return False


def uninitialised(prog):
    """certain reads of memory from numpy.empty that nothing wrote: (where, key, message)"""
    out = []
    n = 0
    for s in scopes(prog):
        body = s.node.body if isinstance(s.node.body, list) else []
        order = list(linear(body))
        for i, st in enumerate(order):
            if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)
                    and isinstance(st.value, ast.Call)):
                continue
            c = unp(st.value.func).split(".")[-1]
            if c not in ("empty", "empty_like", "ndarray"):
                continue
            if st.value.args and isinstance(st.value.args[0], ast.Constant) and st.value.args[0].value == 0:
                continue
            n += 1
            x = st.targets[0].id
            out += first_use(s, x, st, order, i) or only_conditional(s, x, st) or partial_range(s, x, st)
    return out, n


def linear(body):
    for st in body:
        yield st
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            yield from linear(getattr(st, f, []) or [])
        for h in getattr(st, "handlers", []) or []:
            yield from linear(h.body)


def head(st):
    """the expressions evaluated by a statement itself, not by the statements inside it"""
    return list(expr_parts(st)) if hasattr(st, "body") else list(ast.walk(st))


def first_use(s, x, alloc, order, i):
    for st in order[i + 1:]:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(st)):
                return []
            continue
        uses = [y for y in head(st) if isinstance(y, ast.Name) and y.id == x]
        if not uses:
            continue
        if isinstance(st, ast.AugAssign):
            t = st.target
            while isinstance(t, ast.Subscript):
                t = t.value
            if isinstance(t, ast.Name) and t.id == x:
                return [(s.loc(st), f"uninit:{s.qual()}:{x}", f"{s.qual()}: `{unp(st)[:60]}` reads {x}, which comes from "
                         f"`{unp(alloc.value)[:60]}` and has not been written")]
            return []
        if isinstance(st, ast.Return) and st.value is not None:
            v = st.value
            if isinstance(v, ast.Name) or isinstance(v, ast.BinOp):
                return [(s.loc(st), f"uninit:{s.qual()}:{x}", f"{s.qual()}: returns {x}, which comes from `{unp(alloc.value)[:60]}` and "
                         "has not been written")]
        return []
    return []


def stores_of(s, x):
    """(statement, index, [enclosing statements]) of the element stores to x; None when x may be written in another way"""
    out = []

    def rec(body, enc):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                if any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(st)):
                    raise KeyError
                continue
            if isinstance(st, (ast.Assign, ast.AugAssign)):
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                flat = []
                for t in ts:
                    flat += t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
                for t in flat:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == x:
                        out.append((st, t.slice, list(enc)))
                    elif isinstance(t, ast.Subscript) and any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(t.value)):
                        raise KeyError
            for y in head(st):
                if isinstance(y, ast.Call):
                    for a in list(y.args) + [k.value for k in y.keywords]:
                        if isinstance(a, ast.Name) and a.id == x or isinstance(a, ast.Starred) or \
                                isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id == x:
                            if unp(y.func) not in ("len", "list", "tuple"):
                                later.append(st)
                    if isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.value.id == x \
                            and y.func.attr in ("fill", "put", "itemset"):
                        raise KeyError
            if isinstance(st, ast.Assign) and isinstance(st.value, (ast.Name, ast.Subscript, ast.Attribute)):
                b = st.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id == x:
                    views.append(st)
            for f in ("body", "orelse", "finalbody"):
                sub = getattr(st, f, None)
                if sub:
                    rec(sub, enc + [(st, f)])
            for h in getattr(st, "handlers", []) or []:
                rec(h.body, enc + [(h, "body")])

    later, views = [], []
    try:
        rec(s.node.body, [])
    except KeyError:
        return None
    first = min((st.lineno for st, _, _ in out), default=10 ** 9)
    if any(st.lineno <= first for st in later) or views:
        return None
    return out


def only_conditional(s, x, alloc):
    """every store to x happens under a condition, without an alternative store"""
    ss = stores_of(s, x)
    if not ss or sum(1 for e, _ in s.defs.get(x, ()) if e is alloc.value) != 1:
        return []
    if any(isinstance(i, ast.Slice) for _, i, _ in ss):
        return []
    arms = {}
    for st, _, enc in ss:
        if isinstance(st, ast.AugAssign):
            continue
        ifs = [(e, f) for e, f in enc if isinstance(e, ast.If)]
        if not ifs:
            return []
        if any(isinstance(e, ast.Try) or isinstance(e, ast.ExceptHandler) or isinstance(e, ast.While) for e, _ in enc):
            return []
        for e, f in ifs:
            arms.setdefault(id(e), (e, set()))[1].add(f)
    if any({"body", "orelse"} <= fs for _, fs in arms.values()):
        return []
    # a branch that leaves, or a condition that does not depend on the loop, may be deliberate
    for e, fs in arms.values():
        other = e.orelse if fs == {"body"} else e.body
        if other:
            return []
        loops = [y for _, _, enc in ss for y, _ in enc if isinstance(y, (ast.For, ast.AsyncFor))]
        if not any(any(z is e for z in ast.walk(lp)) for lp in loops):
            return []
    # the array must be used as a whole afterwards
    if not whole_use(s, x):
        return []
    st = ss[0][0]
    return [(s.loc(st), f"uninit:{s.qual()}:{x}", f"{s.qual()}: the elements of {x} from `{unp(alloc.value)[:60]}` are only written under a "
             f"condition (`{unp(next(iter(arms.values()))[0].test)[:60]}`), the others keep what the memory held")]


def whole_use(s, x):
    for y in walk_local(s.node):
        if isinstance(y, ast.Return) and y.value is not None:
            for z in ast.walk(y.value):
                if isinstance(z, ast.Name) and z.id == x:
                    return True
    return False


def partial_range(s, x, alloc):
    """a loop over range(k, ...) with k > 0 is the only store to the elements of a one-dimensional array"""
    ss = stores_of(s, x)
    if not ss or len(alloc.value.args) < 1 or isinstance(alloc.value.args[0], (ast.Tuple, ast.List)) and len(alloc.value.args[0].elts) != 1:
        return []
    if unp(alloc.value.func).split(".")[-1] != "empty":
        return []
    lows = []
    for st, ix, enc in ss:
        if isinstance(st, ast.AugAssign):
            continue
        if not isinstance(ix, ast.Name):
            return []
        lp = [e for e, _ in enc if isinstance(e, (ast.For,)) and isinstance(e.target, ast.Name) and e.target.id == ix.id]
        if not lp or not isinstance(lp[-1].iter, ast.Call) or unp(lp[-1].iter.func).split(".")[-1] not in ("range", "prange"):
            return []
        a = lp[-1].iter.args
        lo = a[0].value if len(a) >= 2 and isinstance(a[0], ast.Constant) else 0 if len(a) == 1 else None
        if len(a) == 3 or lo is None or not isinstance(lo, int):
            return []
        lows.append(lo)
    if lows and min(lows) > 0 and whole_use(s, x):
        st = ss[0][0]
        return [(s.loc(st), f"uninit:{s.qual()}:{x}", f"{s.qual()}: the first {min(lows)} element(s) of {x} from `{unp(alloc.value)[:60]}` "
                 "are never written")]
    return []
