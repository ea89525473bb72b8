"""Integer polynomials over named sizes, systems of constraints on them, and two questions about such systems:
does a bound follow (Fourier-Motzkin elimination), and is there a small assignment of sizes that breaks it."""
import itertools


class Poly:
    """An integer polynomial: {monomial (sorted tuple of symbol names): coefficient}."""

    __slots__ = ("t", "_h")

    def __init__(self, t=None):
        self.t = {m: c for m, c in (t or {}).items() if c}
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c})

    @staticmethod
    def sym(s):
        return Poly({(s,): 1})

    def __add__(self, o):
        o = topoly(o)
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-topoly(o))

    def __rsub__(self, o):
        return topoly(o) - self

    def __mul__(self, o):
        o = topoly(o)
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n))
                t[k] = t.get(k, 0) + c * d
        return Poly(t)

    __rmul__ = __mul__

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    @property
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    @property
    def c(self):
        return self.t.get((), 0)

    def syms(self):
        return {s for m in self.t for s in m}

    def degree(self):
        return max((len(m) for m in self.t), default=0)

    def eval(self, env):
        tot = 0
        for m, c in self.t.items():
            for s in m:
                c *= env[s]
            tot += c
        return tot

    def subst(self, s, p):
        out = Poly()
        for m, c in self.t.items():
            q = Poly.const(c)
            for x in m:
                q = q * (p if x == s else Poly.sym(x))
            out = out + q
        return out

    def __repr__(self):
        if not self.t:
            return "0"
        parts = []
        for m, c in sorted(self.t.items(), key=lambda mc: (-len(mc[0]), mc[0])):
            name = "*".join(x.split("#")[0] for x in m)
            if not name:
                parts.append(str(c))
            elif c == 1:
                parts.append(name)
            elif c == -1:
                parts.append("-" + name)
            else:
                parts.append(f"{c}*{name}")
        return " + ".join(parts).replace("+ -", "- ")


def topoly(x):
    return x if isinstance(x, Poly) else Poly.const(int(x))


class Syms:
    """The symbols of one analysis: names, exactness, definitions."""

    def __init__(self):
        self.n = itertools.count()
        self.order = {}
        self.exact = {}
        self.define = {}   # name -> function of an environment
        self.inputs = {}   # name -> symbols the definition reads
        self.cases = {}    # name -> [(poly, (constraint, ...)), ...]
        self.facts = {}    # name -> constraints that hold by definition
        self.cache = {}
        self.pows = {}     # name -> (base, exponent)

    def new(self, base, exact=True, facts=(), define=None, inputs=(), cases=None):
        k = next(self.n)
        s = f"{base}#{k}"
        self.order[s] = k
        self.exact[s] = exact
        p = Poly.sym(s)
        self.facts[s] = tuple(f(p) if callable(f) else f for f in facts)
        if define is not None:
            self.define[s] = define
            self.inputs[s] = set(inputs)
        if cases is not None:
            self.cases[s] = cases
        return p

    # -- derived quantities -------------------------------------------
    def floordiv(self, a, b):
        a, b = topoly(a), topoly(b)
        if b.is_const:
            d = b.c
            if d <= 0:
                return None
            if all(c % d == 0 for m, c in a.t.items() if m):
                return Poly({m: c // d for m, c in a.t.items()})
        if a.is_const and a.c == 0:
            return Poly()
        key = ("//", a, b)
        if key not in self.cache:
            ins = a.syms() | b.syms()
            f = [lambda q: a - b * q, lambda q: b * q + b - 1 - a]
            self.cache[key] = self.new("(%r//%r)" % (a, b), all(self.exact[s] for s in ins), f,
                                       lambda e: a.eval(e) // b.eval(e) if b.eval(e) else 0, ins)
        return self.cache[key]

    def mod(self, a, b):
        a, b = topoly(a), topoly(b)
        if b.is_const:
            q = self.floordiv(a, b)
            return None if q is None else a - q * b
        key = ("%", a, b)
        if key not in self.cache:
            ins = a.syms() | b.syms()
            f = [lambda r: r, lambda r: b - 1 - r]
            self.cache[key] = self.new("(%r mod %r)" % (a, b), all(self.exact[s] for s in ins), f,
                                       lambda e: a.eval(e) % b.eval(e) if b.eval(e) else 0, ins)
        return self.cache[key]

    def pow2(self, base, a):
        key = ("**", base, a)
        if key not in self.cache:
            self.cache[key] = self.new("(%d**%r)" % (base, a), True, [lambda r: r - 1, lambda r: r - a - 1],
                                       lambda e: base ** max(0, min(40, a.eval(e))), a.syms())
            self.pows[next(iter(self.cache[key].syms()))] = (base, a)
        return self.cache[key]

    def minmax(self, kind, ps):
        ps = list(dict.fromkeys(topoly(p) for p in ps))
        diffs = [(p, q) for p in ps for q in ps if p is not q and (p - q).is_const]
        for p, q in diffs:  # constants apart
            if p in ps and q in ps and len(ps) > 1:
                lose = p if ((p - q).c > 0) == (kind == "min") else q
                ps.remove(lose)
        if len(ps) == 1:
            return ps[0]
        key = (kind, frozenset(ps))
        if key not in self.cache:
            ins = set().union(*[p.syms() for p in ps])
            sg = 1 if kind == "max" else -1
            cases = [(p, tuple((p - q) * sg for q in ps if q is not p)) for p in ps]
            facts = [(lambda r, p=p: (r - p) * sg) for p in ps]
            fn = max if kind == "max" else min
            self.cache[key] = self.new(kind + "(" + ", ".join(map(repr, ps)) + ")", all(self.exact[s] for s in ins), facts,
                                       lambda e: fn(p.eval(e) for p in ps), ins, cases)
        return self.cache[key]

    def choice(self, base, cases, exact):
        """One of several values, each under its own constraints."""
        return self.new(base, exact, (), None, (), cases)

    # -- constraint closure -----------------------------------------------
    def closure(self, cons, goal):
        """The constraints (with the facts of all symbols involved) connected to goal."""
        todo = list(goal.syms())
        seen = set()
        used = []
        rest = list(cons)
        have = set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            for f in self.facts.get(s, ()):
                if f not in have:
                    have.add(f)
                    used.append(f)
                todo += [x for x in f.syms() if x not in seen]
            todo += [x for x in self.inputs.get(s, ()) if x not in seen]
            keep = []
            for f in rest:
                if s in f.syms():
                    if f not in have:
                        have.add(f)
                        used.append(f)
                    todo += [x for x in f.syms() if x not in seen]
                else:
                    keep.append(f)
            rest = keep
        return used, seen


def reduce_row(p):
    from math import gcd
    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, abs(c))
    if g > 1:
        return Poly({m: (c // g) for m, c in p.t.items()})
    return p


def infeasible(rows, limit=600):
    """Fourier-Motzkin: True if the rows (each >= 0) have no solution, monomials taken as independent variables."""
    rows = {reduce_row(r) for r in rows}
    while True:
        for r in rows:
            if r.is_const and r.c < 0:
                return True
        rows = {r for r in rows if not r.is_const}
        if not rows:
            return False
        best = {}
        for r in rows:
            k = frozenset((m, c) for m, c in r.t.items() if m)
            if k not in best or r.c < best[k].c:
                best[k] = r
        rows = set(best.values())
        occ = {}
        for r in rows:
            for m, c in r.t.items():
                if m:
                    a = occ.setdefault(m, [0, 0])
                    a[0 if c > 0 else 1] += 1
        m = min(occ, key=lambda m: (occ[m][0] * occ[m][1] - occ[m][0] - occ[m][1], m))
        pos = [r for r in rows if r.t.get(m, 0) > 0]
        neg = [r for r in rows if r.t.get(m, 0) < 0]
        out = {r for r in rows if m not in r.t}
        for p in pos:
            for q in neg:
                out.add(reduce_row(p * (-q.t[m]) + q * p.t[m]))
        if len(out) > limit:
            return False
        rows = out


def sign_products(sy, rows, rounds=1):
    """Products of known-sign pairs for the non-linear monomials in rows."""
    monos = {m for r in rows for m in r.t if len(m) == 2}
    extra = []
    lin = [r for r in rows if r.degree() == 1 and len(r.t) <= 4]
    if monos and len(lin) <= 14:
        products = [a * b for i, a in enumerate(lin) for b in lin[i:]]
        for _ in range(rounds):
            extra = [p for p in products if any(m in monos for m in p.t)]
            monos = monos | {m for p in extra for m in p.t if len(m) == 2}
    return extra


class Prover:
    def __init__(self, sy):
        self.sy = sy
        self.memo = {}
        self.stats = {"proofs": 0, "witnesses": 0}

    def proves(self, cons, goal, depth=0):
        """goal >= 0 follows from the constraints."""
        if goal.is_const:
            return goal.c >= 0
        used, seen = self.sy.closure(cons, goal)
        powers = {x for c in cons for x in c.syms() if x in self.sy.pows and x not in seen and self.sy.inputs[x] & seen}
        linked, far = set(seen), []
        for s in sorted(powers):
            more, s2 = self.sy.closure(cons, Poly.sym(s))
            far += [c for c in more if c not in used and c not in far]
            linked |= s2
        key = (frozenset(used), frozenset(far), goal, depth)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        rows = used + [-goal - 1]
        ok = infeasible(rows)
        if not ok:
            ok = infeasible(rows + sign_products(self.sy, rows)) or infeasible(rows + sign_products(self.sy, rows, 2))
        if not ok and depth < 3:
            for s in sorted((s for s in seen if s in self.sy.cases), key=lambda s: (s not in goal.syms(), self.sy.order[s])):
                if all(self.proves([f.subst(s, v) for f in used] + list(extra), goal.subst(s, v), depth + 1)
                       for v, extra in self.sy.cases[s]):
                    ok = True
                    break
        if not ok and depth < 3:
            ok = self.by_powers(linked, used + far, goal)
        self.stats["proofs"] += 1
        self.memo[key] = ok
        return ok

    def by_powers(self, seen, used, goal):
        """Powers of one base are ordered like their exponents."""
        ps = sorted((s for s in seen if s in self.sy.pows), key=lambda s: self.sy.order[s])
        for i, s in enumerate(ps):
            for t in ps[:i]:
                (b1, a1), (b2, a2) = self.sy.pows[s], self.sy.pows[t]
                d, v = a1 - a2, Poly.sym(s) - Poly.sym(t)
                if b1 != b2 or d.is_const:
                    continue
                up = Poly.sym(s) - Poly.sym(t) * (b1 if infeasible(used + [-a2 - 1]) else 1)
                down = Poly.sym(t) - Poly.sym(s) * (b1 if infeasible(used + [-a1 - 1]) else 1)
                for split in (([d, v], [-d - 1, -v]), ([d, -d, v], [d - 1, up], [-d - 1, down])):
                    if all(infeasible(rows) or infeasible(rows + sign_products(self.sy, rows))
                           for rows in (used + extra + [-goal - 1] for extra in split)):
                        return True
        return False

    # -- witnesses ---------------------------------------------------------
    def witness(self, cons, goals, lo=-2, hi=7, budget=60000, relaxed=False):
        """An assignment of the symbols that satisfies the constraints and makes every goal >= 0; None if none is found, or if
        a symbol involved is only an approximation."""
        sy = self.sy
        self.stats["witnesses"] += 1
        allg = Poly()
        used, seen = list(goals), set()
        for g in goals:
            u, s = sy.closure(cons, g)
            used += [x for x in u if x not in used]
            seen |= s
        # close over case constraints
        grow = True
        while grow:
            grow = False
            for s in list(seen):
                for v, extra in sy.cases.get(s, ()):
                    if s in sy.define:
                        continue
                    for p in (v,) + tuple(extra):
                        for x in p.syms() - seen:
                            u, s2 = sy.closure(cons, Poly.sym(x))
                            used += [q for q in u if q not in used]
                            seen |= s2 | {x}
                            grow = True
        if not relaxed and not all(sy.exact[s] for s in seen):
            return None
        names = sorted(seen, key=lambda s: sy.order[s])
        checks = list(dict.fromkeys(used))
        self.left = budget
        return self._search(names, {}, checks, lo, hi)

    def robust(self, cons, bad, lo=0, hi=4, budget=150):
        """Values of the exact symbols for which bad >= 0 follows whatever the values of the approximated symbols are."""
        sy = self.sy
        used, seen = sy.closure(cons, bad)
        for s in list(seen):
            for v, extra in sy.cases.get(s, ()):
                for p in (v,) + tuple(extra):
                    for x in p.syms():
                        u, s2 = sy.closure(cons, Poly.sym(x))
                        used += [q for q in u if q not in used]
                        seen |= s2
        free = sorted((s for s in seen if sy.exact[s] and s not in sy.define and s not in sy.cases), key=lambda s: sy.order[s])
        if not free or len(free) > 7:
            return None
        # largest violations first: every size small but one
        tries = 0
        todo = [{}]
        while todo and tries < budget:
            env = todo.pop()
            pins = [c for s, v in env.items() for c in (Poly.sym(s) - v, v - Poly.sym(s))]
            rows = used + pins
            if infeasible(rows + [bad]):
                continue
            tries += 1
            if len(env) == len(free):
                if self.proves(rows, bad):
                    return env
                continue
            s = free[len(env)]
            todo += [dict(env, **{s: v}) for v in range(lo, hi + 1)]
        return None

    def _search(self, names, env, checks, lo, hi):
        sy = self.sy
        self.left -= 1
        if self.left < 0:
            return None
        rest = []
        for c in checks:
            if all(s in env for s in c.syms()):
                if c.eval(env) < 0:
                    return None
            else:
                rest.append(c)
        if not names:
            return dict(env)
        # a symbol that is determined
        for s in names:
            if s in sy.define and all(x in env for x in sy.inputs[s]):
                e = dict(env)
                e[s] = sy.define[s](env)
                return self._search([n for n in names if n != s], e, rest, lo, hi)
        for s in names:
            if s in sy.cases and s not in sy.define:
                ready = all(x in env for v, extra in sy.cases[s] for p in (v,) + tuple(extra) for x in p.syms())
                if ready:
                    for v, extra in sy.cases[s]:
                        if all(x.eval(env) >= 0 for x in extra):
                            e = dict(env)
                            e[s] = v.eval(env)
                            r = self._search([n for n in names if n != s], e, rest, lo, hi)
                            if r is not None:
                                return r
                    return None
        free = [s for s in names if s not in sy.define and s not in sy.cases]
        if not free:
            return None
        s = free[0]
        a, b = lo, hi
        for c in rest:
            t = [(m, k) for m, k in c.t.items() if s in m]
            if len(t) == 1 and t[0][0] == (s,) and all(x in env for x in c.syms() if x != s):
                k = t[0][1]
                v = (c - Poly({(s,): k})).eval(env)
                if k > 0:   # k*s + v >= 0
                    a = max(a, -(v // k))
                else:
                    b = min(b, v // (-k))
        far = [abs(k) + d for c in rest for m, k in c.t.items() if m == () and abs(k) > hi for d in (0, 1)]
        top = max([b] + [x for x in far if all(c.eval({**env, s: x}) >= 0 for c in rest if c.syms() <= {*env, s})])
        for x in list(range(a, b + 1)) + sorted({x for x in far if b < x <= top}):
            e = dict(env)
            e[s] = x
            r = self._search([n for n in names if n != s], e, rest, lo, hi)
            if r is not None:
                return r
            if self.left < 0:
                return None
        return None
