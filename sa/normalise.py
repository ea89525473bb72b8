"""Conditions with a name are put back where they are tested.

``c = x is None`` ... ``if c:`` says the same as ``if x is None:``; every analysis below refines values by the expression
that is tested, so the named form is rewritten to the direct one wherever that is certainly equivalent: the name is
assigned once, every use is a test in the same block after the assignment, and nothing the condition reads is assigned
in between (or the only use is the test of the very next statement).
"""
import ast
import copy

PURE_CALLS = {"isinstance", "len", "bool", "callable", "hasattr", "all", "any", "abs", "max", "min", "int", "float", "type"}


def boolean(v):
    if isinstance(v, ast.Compare):
        return True
    if isinstance(v, ast.BoolOp):
        return all(boolean(x) or isinstance(x, ast.Name) for x in v.values)
    if isinstance(v, ast.UnaryOp):
        return isinstance(v.op, ast.Not)
    if isinstance(v, ast.Call):
        f = v.func
        if isinstance(f, ast.Name):
            return f.id in ("isinstance", "bool", "callable", "hasattr", "all", "any")
        return isinstance(f, ast.Attribute) and (f.attr in ("allclose", "any", "all", "isnan", "isclose", "array_equal", "isscalar", "iscomplexobj", "isrealobj")
                                                 or f.attr.startswith("is"))
    return False


def pure(v):
    for n in ast.walk(v):
        if isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return False
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id not in PURE_CALLS:
            return False
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "append", "popitem", "setdefault", "next", "send", "update"):
            return False
    return True


def stores(nodes):
    out = set()
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add("[]" + b.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out


def reads(v):
    return {n.id for n in ast.walk(v) if isinstance(n, ast.Name)}


def test_uses(nodes, x):
    """the uses of x in tests, or None when it is used in another way"""
    out, total = [], 0
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id == x:
                total += 1
            if isinstance(n, (ast.If, ast.IfExp, ast.Assert)):
                stack = [(n, "test", None)]
                while stack:
                    par, f, i = stack.pop()
                    y = getattr(par, f) if i is None else getattr(par, f)[i]
                    if isinstance(y, ast.Name) and y.id == x:
                        out.append((par, f, i))
                    elif isinstance(y, ast.BoolOp):
                        stack += [(y, "values", k) for k in range(len(y.values))]
                    elif isinstance(y, ast.UnaryOp) and isinstance(y.op, ast.Not):
                        stack.append((y, "operand", None))
    return out if len(out) == total else None


def put(place, v):
    par, f, i = place
    new = copy.deepcopy(v)
    if i is None:
        setattr(par, f, new)
    else:
        getattr(par, f)[i] = new


def function(fn):
    loads, sts, nested = {}, {}, set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            d = loads if isinstance(n.ctx, ast.Load) else sts
            d[n.id] = d.get(n.id, 0) + 1
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
            nested |= {y.id for y in ast.walk(n) if isinstance(y, ast.Name)}
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            nested |= set(n.names)
    a = fn.args
    nested |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    changed = False

    def block(stmts):
        nonlocal changed
        i = 0
        while i < len(stmts):
            s = stmts[i]
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    block(b)
            for h in getattr(s, "handlers", []):
                block(h.body)
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                x, v = s.targets[0].id, s.value
                if x not in nested and sts.get(x) == 1 and loads.get(x) and boolean(v) and pure(v) and i + 1 < len(stmts):
                    rest = stmts[i + 1:]
                    uses = test_uses(rest, x)
                    if uses and len(uses) == loads[x]:
                        st = stores(rest)
                        r = reads(v)
                        deep = any(isinstance(n, (ast.Subscript, ast.Call)) for n in ast.walk(v))
                        direct = len(uses) == 1 and isinstance(rest[0], ast.If) and any(n is uses[0][0] for n in ast.walk(rest[0].test)) or \
                            len(uses) == 1 and uses[0][0] is rest[0]
                        if direct or not (st & r) and not (deep and st & {"[]" + y for y in r}):
                            for u in uses:
                                put(u, v)
                            for y in r:
                                loads[y] = loads.get(y, 0) + len(uses) - 1
                            if len(stmts) > 1:
                                del stmts[i]
                                changed = True
                                # a condition made of other conditions
                                i = max(0, i - 1)
                                continue
            i += 1

    block(fn.body)
    return changed


def counters(fn):
    """names that only ever are range() counters"""
    cnt, sts = {}, {}
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Call) \
                and ast.unparse(n.iter.func).split(".")[-1] in ("range", "prange"):
            cnt[n.target.id] = cnt.get(n.target.id, 0) + 1
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            sts[n.id] = sts.get(n.id, 0) + 1
    a = fn.args
    return {x for x in cnt if cnt[x] == sts[x]} - {y.arg for y in a.posonlyargs + a.args + a.kwonlyargs}


class Chains(ast.NodeTransformer):
    """``m[i][j]`` of a two-dimensional array is ``m[i, j]``"""

    def __init__(self, fn):
        self.count = counters(fn)
        self.arrays = {n.value.id for n in ast.walk(fn) if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Tuple)
                       and len(n.slice.elts) == 2}

    def scalar(self, e):
        if isinstance(e, ast.Name):
            return e.id in self.count
        if isinstance(e, ast.BinOp):
            return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)) and (self.scalar(e.left) or self.scalar(e.right)) and \
                all(isinstance(x, (ast.Name, ast.Constant)) or self.scalar(x) for x in (e.left, e.right))
        return False

    def visit_Subscript(self, n):
        self.generic_visit(n)
        v = n.value
        if isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name) and v.value.id in self.arrays and self.scalar(v.slice) and not isinstance(n.slice, ast.Tuple):
            return ast.copy_location(ast.Subscript(v.value, ast.copy_location(ast.Tuple([v.slice, n.slice], ast.Load()), n), n.ctx), n)
        return n


def module(tree):
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            Chains(s).visit(s)
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            while function(n):
                pass
    return tree
