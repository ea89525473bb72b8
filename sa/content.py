"""Which parameters the result of a function can depend on by their content, not only by their length, type or presence.

An over-approximation, flow-insensitive within a function and following calls of repository functions: a parameter missing
from ``Flow.result(info)`` certainly does not reach the result except through its length."""
import ast

from .loader import walk_local

SHAPE = {"len", "shape", "ndim", "size", "isinstance", "type", "hasattr", "callable", "issparse", "result_type"}
LIKE = {"zeros_like", "ones_like", "empty_like"}
ATTRS = {"shape", "ndim", "size", "dtype", "nbytes", "itemsize"}


class Flow:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.stack = []
        self.calls = 0

    def result(self, info):
        """the parameters whose content may reach the returned value"""
        if info.full in self.memo:
            return self.memo[info.full]
        if info.full in self.stack or len(self.stack) > 25:
            return set(info.params)
        self.stack.append(info.full)
        r = One(self, info).run()
        self.stack.pop()
        if not self.stack or info.full not in self.memo:
            self.memo[info.full] = r
        return r


class One:
    def __init__(self, flow, info):
        self.flow, self.info = flow, info
        self.deps = {p: {p} for p in info.params}
        a = info.node.args
        for x in (a.vararg, a.kwarg):
            if x is not None:
                self.deps[x.arg] = {x.arg}
        self.ret = set()
        self.all = set()

    def run(self):
        node = self.info.node
        if isinstance(node, ast.Lambda):
            return self.e(node.body, self.deps)
        for _ in range(12):
            before = (sum(map(len, self.deps.values())), len(self.ret), len(self.all))
            self.block(node.body, set())
            if (sum(map(len, self.deps.values())), len(self.ret), len(self.all)) == before:
                break
        return self.ret | self.all

    # -- expressions
    def e(self, n, env):
        if n is None:
            return set()
        if isinstance(n, ast.Constant):
            return set()
        if isinstance(n, ast.Name):
            return set(env.get(n.id, ()))
        if isinstance(n, ast.Attribute):
            if n.attr in ATTRS:
                return set()
            return self.e(n.value, env)
        if isinstance(n, ast.Compare):
            if all(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops) and any(
                    isinstance(c, ast.Constant) and c.value is None for c in [n.left] + n.comparators):
                return set()
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env = dict(env)
            out = set()
            for g in n.generators:
                self.bind(g.target, g.iter, env, weak=False)
                for c in g.ifs:
                    out |= self.e(c, env)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                out |= self.e(x, env)
            return out
        if isinstance(n, ast.Lambda):
            env = dict(env)
            for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                env[a.arg] = set()
            return self.e(n.body, env) | set().union(set(), *[self.e(d, env) for d in n.args.defaults])
        if isinstance(n, ast.NamedExpr):
            d = self.e(n.value, env)
            self.deps.setdefault(n.target.id, set()).update(d)
            return d
        if isinstance(n, ast.Call):
            return self.call(n, env)
        out = set()
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr) or isinstance(c, (ast.Slice, ast.keyword)):
                out |= self.e(c.value if isinstance(c, ast.keyword) else c, env)
        return out

    def callee(self, f):
        r = None
        if isinstance(f, ast.Name):
            if f.id in self.deps:
                return None
            r = self.flow.prog.resolve(self.info.module, f.id)
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in self.deps:
            m = self.flow.prog.resolve(self.info.module, f.value.id)
            if m and m[0] == "mod":
                r = self.flow.prog.member(m[1], f.attr)
        return r[1] if r and r[0] == "func" else None

    def call(self, n, env):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if name in SHAPE and name not in env:
            return set()
        if name in LIKE:
            return set().union(set(), *[self.e(a, env) for a in n.args[1:]], *[self.e(k.value, env) for k in n.keywords])
        star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
        c = self.callee(f)
        if c is not None and not star:
            self.flow.calls += 1
            r = self.flow.result(c)
            a = c.node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            out = set()
            for i, x in enumerate(n.args):
                p = pos[i] if i < len(pos) else None
                if p is None or p in r:
                    out |= self.e(x, env)
            for k in n.keywords:
                if k.arg in r or k.arg not in c.params:
                    out |= self.e(k.value, env)
            return out
        out = self.e(f, env)
        for a in n.args:
            out |= self.e(a, env)
        for k in n.keywords:
            out |= self.e(k.value, env)
        return out

    # -- binding
    def put(self, name, d, env, weak):
        if env is self.deps or weak:
            env.setdefault(name, set()).update(d)
        else:
            env[name] = set(d)

    def target(self, t, d, env, weak):
        if isinstance(t, ast.Name):
            self.put(t.id, d, env, weak)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, d, env, weak)
        elif isinstance(t, ast.Starred):
            self.target(t.value, d, env, weak)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            d = set(d)
            r = t
            while isinstance(r, (ast.Subscript, ast.Attribute)):
                if isinstance(r, ast.Subscript):
                    d |= self.e(r.slice, env)
                r = r.value
            if isinstance(r, ast.Name):
                self.put(r.id, d, self.deps, True)

    def bind(self, t, it, env, weak):
        """loop targets: counting the elements of a sequence does not use their content"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and isinstance(t, (ast.Tuple, ast.List)):
            if it.func.id == "enumerate" and len(t.elts) == 2 and it.args:
                self.target(t.elts[0], set(), env, weak)
                self.bind(t.elts[1], it.args[0], env, weak)
                return
            if it.func.id == "zip" and len(t.elts) == len(it.args):
                for x, y in zip(t.elts, it.args):
                    self.bind(x, y, env, weak)
                return
        self.target(t, self.e(it, env), env, weak)

    # -- statements
    def assigned(self, stmts):
        return {x.id for s in stmts for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def leaves(self, stmts):
        return any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield)) for s in stmts for x in ast.walk(s))

    def block(self, ss, ctrl):
        env = self.deps
        for s in ss:
            if isinstance(s, ast.Assign):
                d = self.e(s.value, env) | ctrl
                for t in s.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                        for x, y in zip(t.elts, s.value.elts):
                            self.target(x, self.e(y, env) | ctrl, env, True)
                    else:
                        self.target(t, d, env, True)
                    # an alias: writing through one name changes the other
                    if isinstance(t, ast.Name):
                        r = s.value
                        while isinstance(r, (ast.Subscript, ast.Attribute)):
                            r = r.value
                        if isinstance(r, ast.Name) and r.id in env and r is not s.value:
                            env[r.id] |= env.get(t.id, set()) - env[r.id] if not self.param_only(r.id) else set()
            elif isinstance(s, ast.AugAssign):
                self.target(s.target, self.e(s.value, env) | ctrl, env, True)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    self.target(s.target, self.e(s.value, env) | ctrl, env, True)
            elif isinstance(s, (ast.If, ast.While)):
                d = self.e(s.test, env)
                if self.leaves(s.body + s.orelse):
                    self.all |= d
                self.block(s.body, ctrl | d)
                self.block(s.orelse, ctrl | d)
            elif isinstance(s, (ast.For, ast.AsyncFor)):
                self.bind(s.target, s.iter, env, True)
                self.block(s.body, ctrl)
                self.block(s.orelse, ctrl)
            elif isinstance(s, ast.With):
                for i in s.items:
                    d = self.e(i.context_expr, env)
                    if i.optional_vars is not None:
                        self.target(i.optional_vars, d | ctrl, env, True)
                self.block(s.body, ctrl)
            elif isinstance(s, ast.Try):
                if any(self.leaves(h.body) or self.assigned(h.body) for h in s.handlers):
                    for st in s.body:
                        for x in ast.walk(st):
                            if isinstance(x, ast.expr):
                                self.all |= self.e(x, env)
                self.block(s.body, ctrl)
                for h in s.handlers:
                    self.block(h.body, ctrl)
                self.block(s.orelse, ctrl)
                self.block(s.finalbody, ctrl)
            elif isinstance(s, ast.Return):
                self.ret |= self.e(s.value, env) | ctrl
            elif isinstance(s, ast.Expr):
                v = s.value
                if isinstance(v, (ast.Yield, ast.YieldFrom)):
                    self.ret |= self.e(v.value, env) | ctrl
                elif isinstance(v, ast.Call):
                    d = self.e(v, env) | ctrl
                    for a in v.args:
                        d |= self.e(a, env)
                    names = [x.id for a in list(v.args) + [v.func] for x in ast.walk(a) if isinstance(x, ast.Name)]
                    for x in names:
                        if x in env:
                            env[x] |= d
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                d = set()
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                        d |= env.get(x.id, set())
                env.setdefault(s.name, set()).update(d)
                for x in self.assigned(s.body):
                    env.setdefault(x, set()).update(d)
            else:
                for x in ast.iter_child_nodes(s):
                    if isinstance(x, ast.stmt):
                        self.block([x], ctrl)

    def param_only(self, name):
        return name in self.info.params and self.deps.get(name) == {name}
