"""Helpers that the pinned tree does not have are put back into their callers.

A function extracted from a known one (a validator, the second half of a body, a loop step, an expression) is expanded at its
direct calls, so that every analysis sees the same flow of values as before the extraction.  Only functions that are not
in ``known_functions.json`` are expanded; a helper that cannot be expanded exactly (recursive, decorated, generators,
returns inside loops in the middle of a statement list) stays a call.
"""
import ast
import builtins
import copy

LIMIT = 6000
BUILTINS = set(dir(builtins))


def is_jit(f):
    return any(ast.unparse(d).split("(")[0].split(".")[-1] in ("jit", "njit") for d in f.decorator_list)


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def doc_split(body):
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        return body[:1], body[1:]
    return [], body


def all_names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {x.arg for x in ast.walk(n) if isinstance(x, ast.arg)} \
        | {x.name for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.ExceptHandler)) and x.name}


def walk(node):
    """without the inside of nested functions"""
    stack = [node]
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda)) or n is node and not isinstance(n, ast.FunctionDef):
            stack.extend(ast.iter_child_nodes(n))


def nested_names(stmts):
    """names bound inside nested functions"""
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                out |= {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
                if isinstance(n, ast.FunctionDef):
                    out |= {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return out


def stored(stmts):
    out = set()
    for s in stmts:
        for n in walk(s):
            if isinstance(n, ast.FunctionDef):
                out.add(n.name)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split(".")[0] for a in n.names}
    return out


def usable(f):
    """a function that can be expanded at all"""
    if f.args.vararg or f.args.kwarg or f.args.posonlyargs:
        return False
    if f.decorator_list and not (is_jit(f) and len(f.decorator_list) == 1):
        return False
    for n in ast.walk(f):
        if n is not f and isinstance(n, (ast.AsyncFunctionDef, ast.ClassDef, ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)):
            return False
        if isinstance(n, ast.Name) and n.id in ("locals", "globals", "vars"):
            return False
    return True


def returns(stmts):
    return [n for s in stmts for n in walk(s) if isinstance(n, ast.Return)]


def terminates(stmts):
    if not stmts:
        return False
    s = stmts[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    return isinstance(s, ast.If) and terminates(s.body) and terminates(s.orelse)


class No(Exception):
    pass


def tailify(stmts, budget):
    """the same statements with every return in tail position"""
    out = []
    for i, s in enumerate(stmts):
        if isinstance(s, (ast.Return, ast.Raise)):
            return out + [s]
        if returns([s]):
            if not isinstance(s, ast.If):
                raise No()
            rest = stmts[i + 1:]
            budget[0] -= len(rest)
            if budget[0] < 0:
                raise No()
            b = s.body if terminates(s.body) else s.body + copy.deepcopy(rest)
            o = s.orelse if terminates(s.orelse) else s.orelse + rest
            n = copy.copy(s)
            n.body, n.orelse = tailify(b, budget), tailify(o, budget)
            return out + [n]
        out.append(s)
    return out


def leaves(stmts, put):
    """replace returns in tail position, and the fall-through, by put(value)"""
    if not stmts:
        return put(None)
    s = stmts[-1]
    if isinstance(s, ast.Return):
        return stmts[:-1] + put(s.value or ast.Constant(None))
    if isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
        return stmts
    if isinstance(s, ast.If) and returns([s]):
        n = copy.copy(s)
        n.body, n.orelse = leaves(s.body, put), leaves(s.orelse, put)
        if not n.body:
            n.body = [ast.Pass()]
        return stmts[:-1] + [n]
    return stmts + put(None)


class Subst(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        v = self.m.get(n.id)
        if v is None:
            return n
        if isinstance(v, str):
            return ast.copy_location(ast.Name(v, n.ctx), n)
        return copy.deepcopy(v) if isinstance(n.ctx, ast.Load) else n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if isinstance(self.m.get(n.name), str):
            n.name = self.m[n.name]
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if isinstance(self.m.get(n.name), str):
            n.name = self.m[n.name]
        return n


def simple(e):
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.Attribute):
        return simple(e.value) and not isinstance(e.value, ast.Constant)
    return isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant)


class Module:
    def __init__(self, tree, known, kept):
        self.tree = tree
        self.kept = kept            # names that other modules use
        self.funcs = {s.name: s for s in tree.body if isinstance(s, ast.FunctionDef)}
        count = {}
        for s in tree.body:
            if isinstance(s, ast.FunctionDef):
                count[s.name] = count.get(s.name, 0) + 1
        self.helpers = {n: f for n, f in self.funcs.items() if n not in known and count[n] == 1 and usable(f)}
        # recursive helpers stay
        calls = {n: {x.id for x in ast.walk(f) if isinstance(x, ast.Name)} & set(self.helpers) for n, f in self.helpers.items()}
        for n in list(self.helpers):
            seen, todo = set(), list(calls[n])
            while todo:
                m = todo.pop()
                if m not in seen:
                    seen.add(m)
                    todo += calls[m]
            if n in seen:
                del self.helpers[n]
        self.k = 0
        self.size = 0
        self.done = 0

    def run(self):
        if not self.helpers:
            return self.tree
        for _ in range(8):
            before = self.done
            for f in self.tree.body:
                if isinstance(f, ast.FunctionDef):
                    self.caller = f
                    self.names = all_names(f)
                    self.local = stored(f.body) | set(params(f))
                    f.body = self.block(f.body)
            if self.done == before or self.size > LIMIT:
                break
        # expanded everywhere: the definition is no longer needed
        for n, f in list(self.helpers.items()):
            if n not in self.kept and self.done and not any(isinstance(x, ast.Name) and x.id == n for s in self.tree.body if s is not f for x in ast.walk(s)):
                self.tree.body.remove(f)
        ast.fix_missing_locations(self.tree)
        return self.tree

    # calls
    def helper(self, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in self.helpers and e.func.id not in self.local:
            f = self.helpers[e.func.id]
            if f is self.caller or self.size > LIMIT:
                return None
            if is_jit(f) != is_jit(self.caller):
                return None
            if is_jit(f) and "parallel" in ast.unparse(f.decorator_list[0]) and not any("parallel" in ast.unparse(d) for d in self.caller.decorator_list):
                return None
            free = {x.id for x in ast.walk(f) if isinstance(x, ast.Name)} - stored(f.body) - set(params(f))
            if free & self.local:
                return None
            return f
        return None

    def arguments(self, f, call):
        ps = params(f)
        pos = [a.arg for a in f.args.args]
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords) or len(call.args) > len(pos):
            raise No()
        got = dict(zip(pos, call.args))
        for k in call.keywords:
            if k.arg not in ps or k.arg in got:
                raise No()
            got[k.arg] = k.value
        dfl = dict(zip(pos[len(pos) - len(f.args.defaults):], f.args.defaults))
        dfl.update({a.arg: d for a, d in zip(f.args.kwonlyargs, f.args.kw_defaults) if d is not None})
        for p in ps:
            if p not in got:
                if p not in dfl:
                    raise No()
                got[p] = copy.deepcopy(dfl[p])
        return {p: got[p] for p in ps}

    def fresh(self, n):
        while True:
            self.k += 1
            x = f"{n}__{self.k}"
            if x not in self.names:
                self.names.add(x)
                self.local.add(x)
                return x

    def prepare(self, f, call, targets):
        """(statements binding the arguments, body with its names renamed)"""
        args = self.arguments(f, call)
        _, body = doc_split(f.body)
        body = copy.deepcopy(body)
        st = stored(body)
        m, pre = {}, []
        dead = lambda v: targets is None or v in targets  # noqa: E731
        argnames = {}
        for p, a in args.items():
            for v in {x.id for x in ast.walk(a) if isinstance(x, ast.Name)}:
                argnames.setdefault(v, []).append((p, a))
        ps = set(args)
        for v in sorted(st - ps):
            if v in self.names and not (dead(v) and v not in argnames):
                m[v] = self.fresh(v)
        for p, a in args.items():
            own = isinstance(a, ast.Name) and a.id == p
            if p not in st and simple(a):
                if not own:
                    m[p] = a
            elif own and p in st and dead(p) and len(argnames.get(p, [])) == 1:
                pass
            else:
                x = p if p not in self.names else self.fresh(p)
                self.names.add(x)
                self.local.add(x)
                if x != p:
                    m[p] = x
                pre.append(ast.copy_location(ast.Assign([ast.Name(x, ast.Store())], a), call))
        if set(m) & nested_names(body):
            raise No()
        self.names |= st
        self.local |= {m.get(v, v) for v in st if isinstance(m.get(v, v), str)}
        r = Subst(m)
        return pre, [r.visit(s) for s in body]

    def expand(self, f, call, targets, put):
        """statements that do what the call does, ending in put(value)"""
        names, local = set(self.names), set(self.local)
        try:
            pre, body = self.prepare(f, call, targets)
            if put is None:
                out = pre + body + ([] if terminates(body) else [ast.Return(ast.Constant(None))])
            else:
                out = pre + leaves(tailify(body, [400]), put)
        except No:
            self.names, self.local = names, local
            return None
        self.done += 1
        self.size += sum(1 for s in out for _ in ast.walk(s)) // 10
        for s in out:
            for n in ast.walk(s):
                if not hasattr(n, "lineno") and isinstance(n, (ast.stmt, ast.expr)):
                    ast.copy_location(n, call)
        return out or [ast.copy_location(ast.Pass(), call)]

    def expression(self, e, inside=False):
        """expand helpers that are one returned expression"""
        mod = self

        class R(ast.NodeTransformer):
            def visit_Lambda(self, n):
                return n

            def visit_FunctionDef(self, n):
                return n

            def visit_Call(self, n):
                self.generic_visit(n)
                f = mod.helper(n)
                if f is None:
                    return n
                _, body = doc_split(f.body)
                if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
                    return n
                try:
                    args = mod.arguments(f, n)
                except No:
                    return n
                v = copy.deepcopy(body[0].value)
                st = stored([ast.Expr(v)])
                if any(isinstance(x, ast.NamedExpr) for x in ast.walk(v)) or st & set(args):
                    return n
                m = {}
                inargs = {x.id for a in args.values() for x in ast.walk(a) if isinstance(x, ast.Name)}
                for x in st & inargs:
                    m[x] = mod.fresh(x)
                loops = [x for x in ast.walk(v) if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda))]
                for p, a in args.items():
                    uses = sum(1 for x in ast.walk(v) if isinstance(x, ast.Name) and x.id == p)
                    if not simple(a) and (uses != 1 or loops) and any(isinstance(x, ast.Call) for x in ast.walk(a)):
                        return n
                    m[p] = a
                mod.done += 1
                mod.size += 1
                return ast.copy_location(Subst(m).visit(v), n)

        return R().visit(e)

    def nested(self, e):
        """(parent, field, index, call) of a helper call that is evaluated exactly once and can be hoisted"""
        stack = [(None, None, None, e)]
        while stack:
            par, fl, i, x = stack.pop(0)
            if self.helper(x) is not None and par is not None:
                return par, fl, i, x
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(x, ast.IfExp):
                stack.append((x, "test", None, x.test))
                continue
            if isinstance(x, ast.BoolOp):
                stack.append((x, "values", 0, x.values[0]))
                continue
            for fl2, v in ast.iter_fields(x):
                if isinstance(v, ast.expr):
                    stack.append((x, fl2, None, v))
                elif isinstance(v, list):
                    for k, y in enumerate(v):
                        if isinstance(y, ast.expr):
                            stack.append((x, fl2, k, y))
                        elif isinstance(y, ast.keyword):
                            stack.append((y, "value", None, y.value))
        return None

    def block(self, stmts):
        out = []
        for s in stmts:
            out.extend(self.stmt(s))
        return out

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            s.body = self.block(s.body)
            return [s]
        if isinstance(s, ast.ClassDef):
            return [s]
        for f in ("body", "orelse", "finalbody"):
            b = getattr(s, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(s, f, self.block(b))
        for h in getattr(s, "handlers", []):
            h.body = self.block(h.body)
        for f in ("value", "test", "iter", "exc"):
            v = getattr(s, f, None)
            if isinstance(v, ast.expr):
                setattr(s, f, self.expression(v))
        if isinstance(s, ast.Assign):
            s.targets = [self.expression(t) for t in s.targets]
        # whole statements
        v = getattr(s, "value", None)
        f = self.helper(v) if isinstance(s, (ast.Expr, ast.Return, ast.Assign, ast.AugAssign)) else None
        if f is not None:
            if isinstance(s, ast.Return):
                r = self.expand(f, v, None, None)
            elif isinstance(s, ast.Expr):
                r = self.expand(f, v, set(), lambda e: [] if e is None or not any(isinstance(x, ast.Call) for x in ast.walk(e)) else [ast.copy_location(ast.Expr(e), s)])
            elif isinstance(s, ast.Assign):
                flat = [t for t in s.targets]
                ok = len(flat) == 1 and (isinstance(flat[0], ast.Name) or isinstance(flat[0], ast.Tuple) and all(isinstance(x, ast.Name) for x in flat[0].elts))
                tg = {x.id for x in ast.walk(flat[0]) if isinstance(x, ast.Name)} if ok else set()

                def put(e, s=s):
                    if e is None:
                        e = ast.Constant(None)
                    if len(s.targets) == 1 and ast.unparse(s.targets[0]) == ast.unparse(e):
                        return []
                    return [ast.copy_location(ast.Assign(copy.deepcopy(s.targets), e), s)]

                r = self.expand(f, v, tg, put)
            else:
                r = self.expand(f, v, set(), lambda e: [ast.copy_location(ast.AugAssign(copy.deepcopy(s.target), s.op, e or ast.Constant(None)), s)])
            return r if r is not None else [s]
        # calls inside an expression
        for fl in ("value", "test", "iter", "exc"):
            e = getattr(s, fl, None)
            if not isinstance(e, ast.expr) or isinstance(s, (ast.While, ast.AugAssign)):
                continue
            got = self.nested(ast.Expression(e))
            if got is None:
                continue
            par, f2, i, call = got
            x = self.fresh("value")
            pre = self.expand(self.helper(call), call, set(), lambda y: [ast.copy_location(ast.Assign([ast.Name(x, ast.Store())], y or ast.Constant(None)), call)])
            if pre is None:
                continue
            new = ast.copy_location(ast.Name(x, ast.Load()), call)
            if isinstance(par, ast.Expression):
                setattr(s, fl, new)
            elif i is None:
                setattr(par, f2, new)
            else:
                getattr(par, f2)[i] = new
            return pre + self.stmt(s)
        return [s]


def module(tree, known, kept):
    return Module(tree, known, kept).run()
