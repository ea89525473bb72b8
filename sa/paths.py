"""Paths through a function body, with the branch conditions that hold on them: which local names are bound, where a path ends, what it
returns.  A loop is taken to run at least once; conditions written alike (up to negation, operand order and naming in a boolean) are
decided alike."""
import ast

CAP = 400
BUILTIN_EXIT = {"sys.exit", "exit", "quit", "os._exit", "os.abort"}
NEG = {"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}


class State:
    __slots__ = ("bound", "facts", "trace")

    def __init__(self, bound, facts, trace=()):
        self.bound, self.facts, self.trace = bound, facts, trace

    def key(self):
        return (self.bound, self.facts)


def maybe_none(v):
    """a lookup with a missing default"""
    if not isinstance(v, ast.Call) or v.keywords:
        return False
    none = lambda a: isinstance(a, ast.Constant) and a.value is None  # noqa: E731
    if isinstance(v.func, ast.Attribute) and v.func.attr == "get":
        return len(v.args) == 1 and not isinstance(v.args[0], ast.Starred) or len(v.args) == 2 and none(v.args[1])
    return isinstance(v.func, ast.Name) and v.func.id in ("next", "getattr") and len(v.args) > 1 and none(v.args[-1])


def boolean(v):
    """an expression that is a condition"""
    if isinstance(v, ast.Compare):
        return True
    if isinstance(v, ast.BoolOp):
        return all(boolean(x) for x in v.values)
    if isinstance(v, ast.UnaryOp):
        return isinstance(v.op, ast.Not)
    return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("bool", "isinstance", "callable", "hasattr")


def not_none(v):
    """an expression whose value is certainly not None"""
    if isinstance(v, (ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.BinOp, ast.Compare, ast.JoinedStr, ast.Lambda)):
        return True
    if not isinstance(v, ast.Call):
        return False
    f = v.func
    if isinstance(f, ast.Name):
        return f.id in ("range", "list", "tuple", "set", "dict", "int", "float", "complex", "bool", "len", "sorted", "sum", "abs", "enumerate", "zip", "map")
    while isinstance(f, ast.Attribute):
        f = f.value
    return isinstance(f, ast.Name) and f.id in ("np", "numpy", "math", "scipy")


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def atom(test):
    """(text, sign) of an atomic condition"""
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op = type(test.ops[0]).__name__
        l, r = ast.unparse(test.left), ast.unparse(test.comparators[0])
        if op in NEG:
            return atom(ast.Compare(test.left, [getattr(ast, NEG[op])()], test.comparators))[0], False
        if op == "Eq":
            if isinstance(test.left, ast.Constant) and not isinstance(test.comparators[0], ast.Constant):
                l, r = r, l
            return f"{l} == {r}", True
        if op == "Lt":
            return f"{l} < {r}", True
        if op == "GtE":
            return f"{l} < {r}", False
        if op == "Gt":
            return f"{r} < {l}", True
        if op == "LtE":
            return f"{r} < {l}", False
    return ast.unparse(test), True


class Paths:
    def __init__(self, fn, local, noreturn=None, on_call=None):
        self.on_call = on_call
        self.fn = fn
        self.local = local          # names local to the function
        self.noreturn = noreturn or (lambda call: False)
        self.unbound = {}           # name -> (node, trace)
        self.none_uses = {}         # name -> (node, trace): a value that is None by default is used as a number, array or list
        a = fn.args
        pos = a.posonlyargs + a.args
        self.noneable = {x.arg for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]
                         if isinstance(d, ast.Constant) and d.value is None}
        self.returns = []           # (node, state)
        self.falls = []             # states falling off the end
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and maybe_none(x.value):
                self.noneable.add(x.targets[0].id)
        grew = True
        while grew:
            grew = False
            for x in ast.walk(fn):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Name) \
                        and x.value.id in self.noneable and x.targets[0].id not in self.noneable:
                    self.noneable.add(x.targets[0].id)
                    grew = True
        self.alias = {}
        counts = {}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                counts[x.id] = counts.get(x.id, 0) + 1
        self.counts = counts
        params = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
        for x in ast.walk(fn):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and counts[x.targets[0].id] == 1 \
                    and x.targets[0].id not in params and isinstance(x.value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call, ast.Attribute, ast.Name, ast.Constant)):
                v = x.value
                if isinstance(v, ast.UnaryOp) and not isinstance(v.op, ast.Not):
                    continue
                if isinstance(v, ast.Call) and not (isinstance(v.func, ast.Name) and v.func.id in ("bool", "isinstance", "len", "callable", "hasattr")):
                    continue
                if all(counts.get(y, 0) <= (0 if y in params else 1) for y in names(v)):
                    self.alias[x.targets[0].id] = v
        self.cap_hit = False
        # names compared with None, and names used as (part of) a condition
        self.compared = {y.id for x in ast.walk(fn) if isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.Is, ast.IsNot))
                         for y in [x.left] + x.comparators if isinstance(y, ast.Name)}
        self.tested = set()
        for x in ast.walk(fn):
            if isinstance(x, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                stack = [x.test]
                while stack:
                    y = stack.pop()
                    if isinstance(y, ast.Name):
                        self.tested.add(y.id)
                    elif isinstance(y, ast.BoolOp):
                        stack.extend(y.values)
                    elif isinstance(y, ast.UnaryOp):
                        stack.append(y.operand)

    # conditions
    def expand(self, t, depth=0):
        if depth > 5:
            return t
        if isinstance(t, ast.Name) and t.id in self.alias:
            v = self.alias[t.id]
            if isinstance(v, ast.Name) or isinstance(v, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
                return self.expand(v, depth + 1)
            if isinstance(v, ast.Call) and v.args:
                return self.expand(v.args[0], depth + 1) if v.func.id == "bool" else v
            return v
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "bool" and len(t.args) == 1:
            return self.expand(t.args[0], depth + 1)
        return t

    def subst(self, t):
        """copies of plain names inside a condition replaced by what they stand for"""
        ex = {k: v for k, v in self.alias.items() if isinstance(v, (ast.Name, ast.Attribute)) or isinstance(v, ast.Call) and v.func.id == "len"}
        if not (names(t) & set(ex)):
            return t

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                return ex.get(n.id, n) if isinstance(n.ctx, ast.Load) else n

        import copy
        return R().visit(copy.deepcopy(t))

    def truth(self, t, facts):
        t = self.expand(t)
        if isinstance(t, ast.Constant):
            return bool(t.value)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.truth(t.operand, facts)
            return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            rs = [self.truth(v, facts) for v in t.values]
            if isinstance(t.op, ast.And):
                return False if False in rs else True if all(r is True for r in rs) else None
            return True if True in rs else False if all(r is False for r in rs) else None
        if isinstance(t, ast.NamedExpr):
            return self.truth(t.value, facts)
        if isinstance(t, ast.Compare) and len(t.ops) > 1:
            rs, l = [], t.left
            for o, c in zip(t.ops, t.comparators):
                rs.append(self.truth(ast.Compare(l, [o], [c]), facts))
                l = c
            return False if False in rs else True if all(r is True for r in rs) else None
        if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.In, ast.NotIn)) and isinstance(t.comparators[0], (ast.Tuple, ast.List, ast.Set)) \
                and all(isinstance(e, ast.Constant) for e in t.comparators[0].elts):
            rs = [self.truth(ast.Compare(t.left, [ast.Eq()], [e]), facts) for e in t.comparators[0].elts]
            r = True if True in rs else False if all(x is False for x in rs) else None
            if r is None:
                a, s = atom(t)
                r = dict(facts).get(a)
                return r if r is None or s else not r
            return r if isinstance(t.ops[0], ast.In) else not r
        t = self.subst(t)
        a, s = atom(t)
        d = dict(facts)
        r = d.get(a)
        if r is None and isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Eq, ast.NotEq)) and " == " in a:
            l, _, v = a.rpartition(" == ")
            if isinstance(t.comparators[0], ast.Constant) or isinstance(t.left, ast.Constant):
                for k, val in facts:
                    if val and k.startswith(l + " == ") and k != a and (k[len(l) + 4:][:1] in "'\"-0123456789" and v[:1] in "'\"-0123456789"):
                        r = False
        if r is None and isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Eq, ast.NotEq)):
            # a < b and b < a exclude a == b
            l, _, v = a.rpartition(" == ")
            if d.get(f"{l} < {v}") or d.get(f"{v} < {l}"):
                r = False
            elif d.get(f"{l} < {v}") is False and d.get(f"{v} < {l}") is False:
                r = True
            elif d.get(f"{v} == {l}") is not None:
                r = d[f"{v} == {l}"]
        if r is None and isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) and " < " in a:
            l, _, v = a.partition(" < ")
            if d.get(f"{v} < {l}") or d.get(f"{l} == {v}") or d.get(f"{v} == {l}"):
                r = False
            elif d.get(f"{v} < {l}") is False and (d.get(f"{l} == {v}") is False or d.get(f"{v} == {l}") is False):
                r = True
        if r is None and isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.Is, ast.IsNot)) and a.endswith(" is None") and d.get(a[:-8]) is True:
            r = False
        if r is None and d.get(a + " is None") is True:
            r = False       # the truth of a name that is None
        return None if r is None else (r if s else not r)

    def assume(self, t, val, facts):
        t = self.expand(t)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume(t.operand, not val, facts)
        if isinstance(t, ast.NamedExpr):
            return self.assume(t.value, val, facts)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And)
            if val == conj:
                for v in t.values:
                    facts = self.assume(v, val, facts)
                return facts
            rest = [v for v in t.values if self.truth(v, facts) is not conj]
            if len(rest) == 1:
                return self.assume(rest[0], val, facts)
            return facts | {(ast.unparse(t), val)}
        if isinstance(t, ast.Constant):
            return facts
        if isinstance(t, ast.Compare) and len(t.ops) > 1:
            if val:
                l = t.left
                for o, c in zip(t.ops, t.comparators):
                    facts = self.assume(ast.Compare(l, [o], [c]), True, facts)
                    l = c
            return facts
        if isinstance(t, ast.Compare) and isinstance(t.ops[0], (ast.In, ast.NotIn)) and isinstance(t.comparators[0], (ast.Tuple, ast.List, ast.Set)) \
                and all(isinstance(e, ast.Constant) for e in t.comparators[0].elts):
            inn = val == isinstance(t.ops[0], ast.In)
            if not inn:
                for e in t.comparators[0].elts:
                    facts = self.assume(ast.Compare(t.left, [ast.Eq()], [e]), False, facts)
                return facts
            rest = [e for e in t.comparators[0].elts if self.truth(ast.Compare(t.left, [ast.Eq()], [e]), facts) is not False]
            if len(rest) == 1:
                return self.assume(ast.Compare(t.left, [ast.Eq()], [rest[0]]), True, facts)
        t = self.subst(t)
        a, s = atom(t)
        return facts | {(a, val == s)}

    def kill(self, facts, vs):
        if not facts or not vs:
            return facts
        out = set()
        for f in facts:
            try:
                ns = names(ast.parse(f[0], mode="eval"))
            except SyntaxError:
                continue
            if not ns & vs:
                out.add(f)
        return frozenset(out)

    def feasible(self, facts):
        """no compound condition assumed before is contradicted by what is known now"""
        for f in facts:
            if " in " in f[0] or " or " in f[0] or " and " in f[0]:
                try:
                    t = ast.parse(f[0], mode="eval").body
                except SyntaxError:
                    continue
                r = self.truth(t, facts - {f})
                if r is not None and r != f[1]:
                    return False
        return True

    # reads
    def reads(self, e, st, own=frozenset()):
        """check the names read by an expression; returns the state after it (walrus)"""
        if e is None:
            return st
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.local and e.id not in own and e.id not in st.bound:
                self.unbound.setdefault(e.id, (e, st.trace))
                return State(st.bound | {e.id}, st.facts, st.trace)
            return st
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                st = self.reads(d, st, own)
            return st
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            o = set(own)
            s2 = st
            for i, g in enumerate(e.generators):
                s2 = self.reads(g.iter, s2, frozenset(o))
                o |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    s2 = self.reads(c, s2, frozenset(o))
            if isinstance(e, ast.DictComp):
                s2 = self.reads(e.key, s2, frozenset(o))
                self.reads(e.value, s2, frozenset(o))
            else:
                self.reads(e.elt, s2, frozenset(o))
            return st
        if isinstance(e, ast.NamedExpr):
            st = self.reads(e.value, st, own)
            return State(st.bound | {e.target.id}, self.kill(st.facts, {e.target.id}), st.trace)
        if isinstance(e, ast.IfExp):
            st = self.reads(e.test, st, own)
            t = self.truth(e.test, st.facts)
            for val, sub in ((True, e.body), (False, e.orelse)):
                if t is None or t == val:
                    self.reads(sub, State(st.bound, self.assume(e.test, val, st.facts), st.trace), own)
            return st
        if isinstance(e, ast.BoolOp):
            cur = st
            for i, v in enumerate(e.values):
                nxt = self.reads(v, cur, own)
                if i == 0:
                    st = nxt
                t = self.truth(v, nxt.facts)
                conj = isinstance(e.op, ast.And)
                if t is not None and t != conj:
                    break
                cur = State(nxt.bound, self.assume(v, conj, nxt.facts), nxt.trace)
            return st
        self.deref(e, st, own)
        for c in ast.iter_child_nodes(e):
            st = self.reads(c, st, own)
        return st

    def is_none(self, x, facts, depth=0):
        """True when the name is certainly or possibly None here"""
        r = self.truth(ast.Compare(ast.Name(x, ast.Load()), [ast.Is()], [ast.Constant(None)]), facts)
        if r is not None:
            return r
        if x not in self.noneable or depth > 4:
            return False
        d = dict(facts)
        for k, v in facts:
            if v and (k.startswith(f"{x} is ") or k.endswith(f" is {x}")) and k.count(" ") == 2 and not k.endswith(" is None"):
                y = k[len(x) + 4:] if k.startswith(f"{x} is ") else k[:-len(x) - 4]
                if y.isidentifier() and not self.is_none(y, frozenset(facts) - {(k, v)}, depth + 1):
                    return False
        if d.get(x) is True or any(v and (k.startswith(f"isinstance({x},") or k.startswith(f"{x} == ") and k != f"{x} == None" or k.startswith(f"{x} < ")
                                          or k.endswith(f" < {x}")) for k, v in facts):
            return False
        return True

    def deref(self, e, st, own):
        xs = []
        if self.on_call and isinstance(e, ast.Call):
            self.on_call(self, e, st, own)
        if isinstance(e, ast.Attribute):
            xs = [e.value]
        elif isinstance(e, ast.Subscript):
            xs = [e.value]
        elif isinstance(e, ast.BinOp):
            xs = [e.left, e.right]
        elif isinstance(e, ast.UnaryOp) and not isinstance(e.op, ast.Not):
            xs = [e.operand]
        elif isinstance(e, ast.Starred):
            xs = [e.value]
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("len", "range", "int", "float", "complex", "abs", "sum", "max", "min", "sorted",
                                                                                       "list", "tuple", "set", "enumerate", "zip", "iter", "round"):
            xs = list(e.args)
        elif isinstance(e, ast.Compare) and any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in e.ops):
            xs = [e.left] + e.comparators
        for x in xs:
            if isinstance(x, ast.Name) and x.id not in own and x.id in self.local and self.is_none(x.id, st.facts):
                self.none_uses.setdefault(x.id, (e, st.trace))

    def bind(self, target, st):
        if isinstance(target, ast.Name):
            f = self.kill(st.facts, {target.id})
            if target.id in self.noneable:
                f = f | {(f"{target.id} is None", False)}
            return State(st.bound | {target.id}, f, st.trace)
        if isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                st = self.bind(t, st)
            return st
        if isinstance(target, ast.Starred):
            return self.bind(target.value, st)
        st = self.reads(target, st)
        return st

    # statements
    def dedupe(self, sts):
        out = {}
        for s in sts:
            out.setdefault(s.key(), s)
        sts = list(out.values())
        if len(sts) > CAP:
            # keep the facts every path shares; a name bound on some path counts as bound: fewer alarms
            self.cap_hit = True
            by = {}
            for s in sts:
                b = by.get(s.bound)
                by[s.bound] = s if b is None else State(s.bound, s.facts & b.facts, s.trace)
            sts = list(by.values())
            if len(sts) > CAP:
                bound = frozenset().union(*[s.bound for s in sts])
                facts = sts[0].facts
                for s in sts:
                    facts = facts & s.facts
                sts = [State(bound, facts, sts[0].trace)]
        return sts

    def block(self, stmts, sts, loop):
        for s in stmts:
            if not sts:
                break
            nxt = []
            for st in sts:
                nxt.extend(self.stmt(s, st, loop))
            sts = self.dedupe(nxt)
        return sts

    def stmt(self, s, st, loop):
        if isinstance(s, ast.Return):
            st = self.reads(s.value, st)
            self.returns.append((s, st))
            return []
        if isinstance(s, ast.Raise):
            self.reads(s.exc, st)
            return []
        if isinstance(s, ast.Assign):
            st = self.reads(s.value, st)
            for t in s.targets:
                st = self.bind(t, st)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in self.compared and not_none(s.value):
                st = State(st.bound, st.facts | {(f"{s.targets[0].id} is None", False)}, st.trace)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Name) and s.value.id in self.noneable \
                    and s.value.id != s.targets[0].id:
                x, y = s.targets[0].id, s.value.id
                f = st.facts - {(f"{x} is None", False)}
                d = dict(f)
                if f"{y} is None" in d:
                    f = f | {(f"{x} is None", d[f"{y} is None"])}
                st = State(st.bound, f | {(f"{x} is {y}", True)}, st.trace)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and maybe_none(s.value):
                st = State(st.bound, st.facts - {(f"{s.targets[0].id} is None", False)}, st.trace)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
                x = s.targets[0].id
                st = State(st.bound, st.facts - {(f"{x} is None", False)}, st.trace)
                if s.value.value is None:
                    st = State(st.bound, st.facts | {(f"{x} is None", True)}, st.trace)
                else:
                    st = State(st.bound, st.facts | {(f"{x} is None", False), (f"{x} == {ast.unparse(s.value)}", True), (x, bool(s.value.value))}, st.trace)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in self.tested \
                    and s.targets[0].id not in self.alias and s.targets[0].id not in names(s.value) and boolean(s.value):
                # a condition with a name: both outcomes, each with what it says about its operands
                x, out = s.targets[0].id, []
                t = self.truth(s.value, st.facts)
                for val in (True, False):
                    if t is None or t == val:
                        f = self.assume(s.value, val, st.facts)
                        if f is not st.facts and not self.feasible(f):
                            continue
                        out.append(State(st.bound, f | {(x, val)}, st.trace if t is not None else st.trace + ((s.lineno, ast.unparse(s.value), val),)))
                return out
            return [st]
        if isinstance(s, ast.AugAssign):
            st = self.reads(s.value, st)
            if isinstance(s.target, ast.Name):
                st = self.reads(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            return [self.bind(s.target, st)]
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return [st]
            return [self.bind(s.target, self.reads(s.value, st))]
        if isinstance(s, ast.If):
            st = self.reads(s.test, st)
            t = self.truth(s.test, st.facts)
            out = []
            for val, body in ((True, s.body), (False, s.orelse)):
                if t is None or t == val:
                    tr = st.trace if t is not None else st.trace + ((s.lineno, ast.unparse(s.test), val),)
                    st2 = State(st.bound, self.assume(s.test, val, st.facts), tr)
                    if st2.facts is not st.facts and not self.feasible(st2.facts):
                        continue
                    out.extend(self.block(body, [st2], loop))
            return out
        if isinstance(s, (ast.For, ast.AsyncFor)):
            if isinstance(s.iter, ast.Name):
                self.deref(ast.copy_location(ast.Starred(s.iter, ast.Load()), s.iter), st, frozenset())
            st = self.reads(s.iter, st)
            vs = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            st = State(st.bound, self.kill(st.facts, vs), st.trace)
            return self.loop(s, self.bind(s.target, st), vs, loop)
        if isinstance(s, ast.While):
            st = self.reads(s.test, st)
            vs = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            const = isinstance(s.test, ast.Constant) and s.test.value
            st = State(st.bound, self.kill(st.facts, vs), st.trace)
            if not const:
                st = State(st.bound, self.assume(s.test, True, st.facts), st.trace)
            return self.loop(s, st, vs, loop, bool(const))
        if isinstance(s, ast.Break):
            if loop is not None:
                loop["break"].append(st)
            return []
        if isinstance(s, ast.Continue):
            if loop is not None:
                loop["cont"].append(st)
            return []
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            body = self.block(s.body, [st], loop)
            out = self.block(s.orelse, body, loop) if s.orelse else body
            vs = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for h in s.handlers:
                h0 = State(st.bound | ({h.name} if h.name else set()), self.kill(st.facts, vs), st.trace + ((h.lineno, "except", True),))
                out = out + self.block(h.body, [h0], loop)
            if s.finalbody:
                n = len(self.returns)
                out = self.block(s.finalbody, self.dedupe(out) or [], loop) if out else out
                del n
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.reads(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.bind(i.optional_vars, st)
            return self.block(s.body, [st], loop)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                st = self.reads(d, st)
            if not isinstance(s, ast.ClassDef):
                st = self.reads(s, st)
            return [State(st.bound | {s.name}, st.facts, st.trace)]
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return [State(st.bound | {(a.asname or a.name.split(".")[0]) for a in s.names}, st.facts, st.trace)]
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st = self.reads(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
                    st = State(st.bound - {t.id}, st.facts, st.trace)
                else:
                    st = self.reads(t, st)
            return [st]
        if isinstance(s, ast.Assert):
            st = self.reads(s.test, st)
            if self.truth(s.test, st.facts) is False:
                return []
            return [State(st.bound, self.assume(s.test, True, st.facts), st.trace)]
        if isinstance(s, ast.Expr):
            st = self.reads(s.value, st)
            if isinstance(s.value, ast.Call) and (ast.unparse(s.value.func) in BUILTIN_EXIT or self.noreturn(s.value)):
                return []
            return [st]
        if isinstance(s, ast.Match):
            st = self.reads(s.subject, st)
            out = []
            total = False
            for c in s.cases:
                b = st.bound | {x.name for x in ast.walk(c.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name} \
                    | {x.rest for x in ast.walk(c.pattern) if isinstance(x, ast.MatchMapping) and x.rest}
                st2 = State(b, st.facts, st.trace + ((c.pattern.lineno, "case " + ast.unparse(c.pattern), True),))
                if c.guard is not None:
                    st2 = self.reads(c.guard, st2)
                elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    total = True
                out.extend(self.block(c.body, [st2], loop))
            return out if total else out + [st]
        return [st]

    def loop(self, s, st, vs, outer, endless=False):
        ctx = {"break": [], "cont": []}
        body = self.block(s.body, [st], ctx)
        done = self.dedupe([State(x.bound, x.facts, x.trace) for x in body + ctx["cont"]])
        if isinstance(s, ast.While) and not endless:
            done = [State(x.bound, self.assume(s.test, False, x.facts), x.trace) for x in done if self.truth(s.test, x.facts) is not True]
        out = [] if endless else (self.block(s.orelse, done, outer) if s.orelse else done)
        # what holds at the end of one pass need not hold for the pass that left the loop
        return self.dedupe(out + ctx["break"])

    def run(self):
        a = self.fn.args
        bound = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                bound.add(x.arg)
        out = self.block(self.fn.body, [State(frozenset(bound), frozenset())], None)
        self.falls = out
        return self


def local_names(fn):
    """names that are local variables of the function (not of functions inside it)"""
    out, glob = set(), set()
    stack = list(fn.body)
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(al.asname or al.name.split(".")[0]) for al in n.names}
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return out - glob
