"""Iteration order of sets: where a set is turned into something ordered and the order can matter."""
import ast

from .interp import D, Dct, Domain, Interp, K, Lst, TOP, Tup, U

# consumers for which the order of the elements does not matter
FREE = {"sorted", "len", "sum", "min", "max", "set", "frozenset", "any", "all", "Counter", "unique", "sort", "prod", "union", "intersection",
        "difference", "update", "issubset", "issuperset", "symmetric_difference", "bool", "isdisjoint", "fsum", "count", "dict", "intersection_update",
        "difference_update", "lexsort", "OrderedDict_sorted", "nanmax", "nanmin", "amax", "amin", "mean", "bincount", "isin", "in1d"}
COMM = (ast.Add, ast.Sub, ast.Mult, ast.BitOr, ast.BitAnd, ast.BitXor)


class SetDomain(Domain):
    max_depth = 12
    unroll = 2


def unp(e):
    return ast.unparse(e)


class SetInterp(Interp):
    def __init__(self, prog, dom):
        super().__init__(prog, dom)
        self.events = {}
        self.sets = set()
        self.pm = {}
        self.consumed = 0

    def parent(self, node):
        m = self.cur.module if self.cur else None
        if m is None:
            return None
        if m.name not in self.pm:
            d = {}
            for x in ast.walk(m.tree):
                for c in ast.iter_child_nodes(x):
                    d[id(c)] = x
            self.pm[m.name] = d
        return self.pm[m.name].get(id(node))

    def is_set(self, v):
        if isinstance(v, U):
            return any(self.is_set(x) for x in v.alts)
        return isinstance(v, Lst) and v.kind == "set" and v.tag != "ordered" and not (v.items is not None and len(v.items) < 2)

    def mk(self, n, what, expr):
        p = self.parent(n)
        top = n
        while isinstance(p, (ast.Starred, ast.GeneratorExp, ast.comprehension)) or isinstance(p, ast.Call) and unp(p.func).split(".")[-1] in \
                ("list", "tuple", "map", "filter", "iter", "array", "asarray", "fromiter") and top is not p.func:
            top, p = p, self.parent(p)
        self.consumed += 1
        if isinstance(p, ast.Call) and top is not p.func and unp(p.func).split(".")[-1] in FREE:
            return
        if isinstance(p, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops):
            return
        if isinstance(p, ast.Attribute) and p.attr in ("sort",):
            return
        if isinstance(p, (ast.SetComp,)):
            return
        # a name that is sorted right afterwards
        if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name):
            x = p.targets[0].id
            gp = self.parent(p)
            for f in ("body", "orelse"):
                b = getattr(gp, f, None) or []
                if p in b:
                    nxt = b[b.index(p) + 1:]
                    if nxt and isinstance(nxt[0], ast.Expr) and isinstance(nxt[0].value, ast.Call) and unp(nxt[0].value.func) == x + ".sort":
                        return
                    uses = [y for st in nxt for y in ast.walk(st) if isinstance(y, ast.Name) and y.id == x]
                    if uses and all(self.free_use(y) for y in uses):
                        return
        if isinstance(p, ast.For) and top is p.iter and loop_free(p):
            return
        k = (self.cur.full, what)
        if k not in self.events:
            self.events[k] = (self.where(n), f"{what} of a set: `{unp(expr)[:60]}`", self.call_path())

    def free_use(self, y):
        p = self.parent(y)
        if isinstance(p, ast.Call) and y is not p.func:
            return unp(p.func).split(".")[-1] in FREE
        if isinstance(p, ast.Compare):
            return any(isinstance(o, (ast.In, ast.NotIn)) for o in p.ops) and y is not p.left
        return isinstance(p, ast.Attribute) and p.attr in ("sort", "count")

    # sources
    def bi_set(self, a, kw, n, env, fr):
        r = super().bi_set(a, kw, n, env, fr)
        self.sets.add((self.cur.full if self.cur else "", n.lineno, n.col_offset))
        if a and isinstance(a[0], Lst) and a[0].kind == "range":
            r.tag = "ordered"      # a set of consecutive small integers
        return r

    bi_frozenset = bi_set

    def binop(self, op, a, b, n):
        if op in ("Sub", "BitAnd", "BitOr", "BitXor") and (self.is_set(a) or self.is_set(b)):
            return Lst(None, self.join(self.elem(a), self.elem(b)), "set")
        return super().binop(op, a, b, n)

    def list_method(self, lst, name, args, kw, n):
        r = super().list_method(lst, name, args, kw, n)
        if lst.kind == "set" and name == "copy" and isinstance(r, Lst):
            r.kind = "set"
        return r

    # consumers
    def _to_seq(self, v, kind, n):
        if self.is_set(v) and isinstance(n, ast.Call):
            self.mk(n, f"{kind}()", n)
        return super()._to_seq(v, kind, n)

    def bi_enumerate(self, a, kw, n, env, fr):
        if self.is_set(a[0]):
            self.mk(n, "enumerate()", n)
        return super().bi_enumerate(a, kw, n, env, fr)

    def bi_zip(self, a, kw, n, env, fr):
        if any(self.is_set(x) for x in a):
            self.mk(n, "zip()", n)
        return super().bi_zip(a, kw, n, env, fr)

    def bi_map(self, a, kw, n, env, fr):
        r = super().bi_map(a, kw, n, env, fr)
        if any(self.is_set(x) for x in a[1:]):
            r = Lst(None, self.elem(r), "set")
        return r

    def bi_filter(self, a, kw, n, env, fr):
        r = super().bi_filter(a, kw, n, env, fr)
        if self.is_set(a[1]):
            r = Lst(None, self.elem(r), "set")
        return r

    def bi_next(self, a, kw, n, env, fr):
        return super().bi_next(a, kw, n, env, fr)

    def _comp(self, n, env, fr, elt):
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            e = dict(env)
            for g in n.generators:
                it = self.ev(g.iter, e, fr)
                if self.is_set(it):
                    self.mk(n, "iteration", n)
                    break
                self.assign(g.target, self.elem(it), e, fr, n)
        return super()._comp(n, env, fr, elt)

    def st_For(self, st, env, fr):
        it = self.ev(st.iter, env, fr)
        if self.is_set(it):
            self.consumed += 1
            if not loop_free(st):
                k = (self.cur.full, "loop")
                self.events.setdefault(k, (self.where(st), f"loop over a set: `for {unp(st.target)} in {unp(st.iter)[:50]}`", self.call_path()))
        return super().st_For(st, env, fr)

    def call_ext(self, name, args, kw, n, env, fr):
        c = name.split(".")[-1]
        if c in ("array", "asarray", "fromiter", "stack", "vstack", "concatenate", "ix_", "fromkeys") and any(self.is_set(x) for x in args):
            self.mk(n, f"{c}()", n)
        return super().call_ext(name, args, kw, n, env, fr)


def loop_free(st):
    """does the result of the loop not depend on the order of the elements"""
    lv = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)}
    assigned = {x.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | lv

    def free(b, written):
        if isinstance(b, ast.AugAssign):
            if isinstance(b.target, ast.Name):
                if isinstance(b.op, ast.Add) and isinstance(b.value, (ast.List, ast.Tuple, ast.JoinedStr, ast.ListComp)):
                    return False
                return isinstance(b.op, COMM + (ast.Div,)) and b.target.id not in {
                    x.id for x in ast.walk(b.value) if isinstance(x, ast.Name)}
            if isinstance(b.target, ast.Subscript):
                return isinstance(b.op, COMM + (ast.Div,)) or bool({x.id for x in ast.walk(b.target.slice) if isinstance(x, ast.Name)} & lv)
            return False
        if isinstance(b, ast.Assign):
            for t in b.targets:
                for e in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                    if isinstance(e, ast.Subscript):
                        if not {x.id for x in ast.walk(e.slice) if isinstance(x, ast.Name)} & assigned:
                            return False
                        continue
                    if isinstance(e, ast.Name):
                        # a local of the pass: not read before it is written
                        if e.id in {x.id for x in ast.walk(b.value) if isinstance(x, ast.Name)} and e.id not in written:
                            return False
                        written.add(e.id)
                        continue
                    return False
            return True
        if isinstance(b, ast.If):
            return all(free(x, written) for x in b.body + b.orelse)
        if isinstance(b, (ast.For, ast.While)):
            return all(free(x, set(written) | {y.id for y in ast.walk(b) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)})
                       for x in b.body + b.orelse)
        if isinstance(b, ast.Expr):
            v = b.value
            if isinstance(v, ast.Constant):
                return True
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
                return v.func.attr in ("add", "discard", "remove", "update", "setdefault")
            return False
        if isinstance(b, ast.Return):
            return b.value is None or isinstance(b.value, ast.Constant)
        return isinstance(b, (ast.Continue, ast.Pass, ast.Raise, ast.Assert, ast.Import, ast.ImportFrom))

    return all(free(b, set()) for b in st.body)
