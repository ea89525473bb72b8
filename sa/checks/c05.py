"""Dependence analysis of parallel loops.  In every numba.prange loop of a function compiled with parallel=True, each
name and array written in the body is classified: private to an iteration (assigned before it is read), a recognised
reduction (only updated by one associative operator and not read), or shared.  Stores to shared arrays must go to a
region selected by the loop variable (an affine index with a non-zero coefficient and loop-invariant offset), and every
other access of that array in the body must use the same region.  Views are followed back to the array they share memory
with, and calls are followed into the callee to see which of its arguments it writes.  Workers run by dask or an executor
in threads must not write to their arguments or to module level objects."""
import ast

from ..alias import Al, AliasDomain, AliasInterp, D as _D, FRESH, NO, UNK, cached
from ..interp import D, Dct, Domain, Fn, Interp, K, Lst, TOP, Tup, U
from ..loader import AnalysisError, walk_local
from ..report import Finding
from ..units import src

# read the shape and type of an array, not its elements
SHAPE_ONLY = {"len", "zeros_like", "empty_like", "ones_like", "full_like", "shape", "size", "ndim"}
FLOORS = {"parallel_loops": 4, "written_names": 60, "reductions": 4, "calls_followed": 19, "thread_workers": 1}
ASSUMPTIONS = ["numba privatises names assigned in the body and reduces names updated by += , -= or *= only",
               "slices, transposes and reshapes are views; indexing with an array copies",
               "numpy's global random generator is locked"]

ADD, MUL = "sum", "product"
OPS = {"Add": ADD, "Sub": ADD, "Mult": MUL}
VIEWS = {"reshape", "ravel", "transpose", "swapaxes", "view", "diagonal", "squeeze", "asarray", "flatten_view", "ascontiguousarray",
         "asfortranarray", "atleast_1d", "atleast_2d"}
ALLOC = {"zeros", "ones", "empty", "full", "zeros_like", "ones_like", "empty_like", "full_like", "copy", "array", "eye",
         "identity", "arange", "concatenate", "where", "nonzero"}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "fill", "add", "update", "setdefault"}


def counter(fn):
    """a function returning a number it only ever increases by one or by a bit"""
    ret = [x.value for x in ast.walk(fn) if isinstance(x, ast.Return)]
    if not ret or not all(isinstance(r, ast.Name) for r in ret) or len({r.id for r in ret}) != 1:
        return False
    ups = [x for x in ast.walk(fn) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == ret[0].id]

    def bit(v):
        if isinstance(v, ast.Constant):
            return v.value == 1
        return isinstance(v, ast.BinOp) and isinstance(v.right, ast.Constant) and (
            isinstance(v.op, ast.Mod) and v.right.value == 2 or isinstance(v.op, ast.BitAnd) and v.right.value == 1)

    return bool(ups) and all(isinstance(x.op, ast.Add) and bit(x.value) for x in ups)


def names_in(n, ctx=ast.Load):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def targets(t):
    """plain names bound by an assignment target"""
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        r = set()
        for e in t.elts:
            r |= targets(e)
        return r
    if isinstance(t, ast.Starred):
        return targets(t.value)
    return set()


def root_name(n):
    while isinstance(n, (ast.Subscript, ast.Attribute)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


class Loop:
    """Analysis of one parallel loop."""

    def __init__(self, prog, info, loop, after, before, stats):
        self.prog, self.info, self.loop, self.stats = prog, info, loop, stats
        self.after, self.before = after, before
        self.j = targets(loop.target)
        self.hits = []
        self.body = loop.body
        self.stmts = [x for s in self.body for x in ast.walk(s)]
        self.bound = {}       # name -> list of assignment nodes in the body
        self.red = {}         # name -> set of operators (reduction candidates)
        for x in self.stmts:
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    self.note(t, x)
            elif isinstance(x, ast.AnnAssign) and x.value is not None:
                self.note(x.target, x)
            elif isinstance(x, ast.AugAssign):
                if isinstance(x.target, ast.Name):
                    self.red.setdefault(x.target.id, []).append((OPS.get(type(x.op).__name__, "other"), x))
            elif isinstance(x, ast.For):
                self.note(x.target, x)
            elif isinstance(x, ast.NamedExpr):
                self.note(x.target, x)
        self.comp = set()
        for x in self.stmts:
            if isinstance(x, ast.comprehension):
                self.comp |= targets(x.target)

    def hit(self, rule, name, node, msg):
        self.hits.append((rule, name, node, msg))

    def self_update(self, st):
        """x = x + e, x = e + x, x = max(x, e): the operator, or None"""
        if not (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name)):
            return None
        x, v = st.targets[0].id, st.value
        if isinstance(v, ast.BinOp):
            op = type(v.op).__name__
            if isinstance(v.left, ast.Name) and v.left.id == x and x not in names_in(v.right):
                return OPS.get(op)
            if isinstance(v.right, ast.Name) and v.right.id == x and x not in names_in(v.left) and op in ("Add", "Mult"):
                return OPS.get(op)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("max", "min") and len(v.args) == 2 \
                and any(isinstance(a, ast.Name) and a.id == x for a in v.args):
            return v.func.id
        return None

    def note(self, t, st):
        for x in targets(t):
            self.bound.setdefault(x, []).append(st)

    # -- private / reduction / carried names --------------------------------
    def names(self):
        outside = set(self.before) | set(self.info.params)
        exposed = self.exposed(self.body, set(self.j))
        updates = {}
        for x, l in self.red.items():
            updates.setdefault(x, []).extend(l)
        for x, l in self.bound.items():
            for st in l:
                op = self.self_update(st)
                if op is not None:
                    updates.setdefault(x, []).append((op, st))
        self.reductions = set()
        for x in sorted(set(self.bound) | set(self.red)):
            self.stats["written_names"] += 1
            if x in self.j:
                self.hit("carried", x, self.loop, f"the loop variable {x} is reassigned in the parallel body")
                continue
            ups = updates.get(x, [])
            plain = [st for st in self.bound.get(x, []) if self.self_update(st) is None]
            carried = x in exposed and x in outside
            if not carried:
                continue
            upnodes = [st for _, st in ups]
            ops = {op for op, _ in ups}
            if ups and not plain:
                # reduction candidate
                if len(ops) > 1 or "other" in ops:
                    self.hit("reduction", x, upnodes[0], f"{x} is updated with different operators in parallel iterations")
                    continue
                bad = self.other_reads(x, upnodes)
                if bad is not None:
                    self.hit("reduction-read", x, bad, f"{x} is accumulated over parallel iterations and also read in the body")
                    continue
                self.reductions.add(x)
                self.stats["reductions"] += 1
                continue
            node = exposed[x]
            self.hit("carried", x, node, f"{x} carries a value from one parallel iteration to another")
        # values left over after the loop
        live = self.exposed(self.after, set())
        for x in sorted(set(self.bound) | set(self.j)):
            if x in self.reductions or x not in live:
                continue
            if all(self.self_update(st) is not None for st in self.bound.get(x, [])) and x in self.reductions:
                continue
            if any(h[1] == x for h in self.hits):
                continue
            self.hit("live-out", x, live[x], f"{x} is assigned by parallel iterations and read after the loop")

    def other_reads(self, x, upnodes):
        """a read of x in the body outside its own updates"""
        for st in self.stmts:
            if isinstance(st, ast.Name) and st.id == x and isinstance(st.ctx, ast.Load):
                inside = any(st is y for u in upnodes for y in ast.walk(u))
                if not inside:
                    # element updates of an array that is reduced as a whole are private
                    if any(isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript)
                           and OPS.get(type(s.op).__name__) == ADD and any(y is st for y in ast.walk(s.target.value))
                           and x not in names_in(s.value) for s in self.stmts):
                        continue
                    if any(isinstance(a, ast.Attribute) and a.value is st and a.attr in ("shape", "dtype", "ndim", "size")
                           for a in self.stmts):
                        continue
                    if any(isinstance(c, ast.Call) and ast.unparse(c.func).split(".")[-1] in SHAPE_ONLY
                           and c.args and c.args[0] is st for c in self.stmts):
                        continue
                    return st
                u = next(u for u in upnodes if any(st is y for y in ast.walk(u)))
                if isinstance(u, ast.AugAssign) and any(st is y for y in ast.walk(u.value)):
                    return st
        return None

    def exposed(self, stmts, assigned):
        """names read before they are certainly assigned: {name: node}"""
        out = {}

        def expr(n, done):
            comp = set()
            for x in ast.walk(n):
                if isinstance(x, ast.comprehension):
                    comp |= targets(x.target)
                if isinstance(x, ast.Lambda):
                    comp |= {a.arg for a in x.args.args}
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in done and x.id not in comp:
                    out.setdefault(x.id, x)
                if isinstance(x, ast.NamedExpr):
                    done = done | targets(x.target)
            return done

        def block(ss, done):
            for s in ss:
                if done is None:
                    return None
                if isinstance(s, ast.Assign):
                    expr(s.value, done)
                    for t in s.targets:
                        if not isinstance(t, ast.Name):
                            for x in ast.walk(t):
                                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in done:
                                    out.setdefault(x.id, x)
                        done = done | targets(t)
                elif isinstance(s, ast.AugAssign):
                    expr(s.value, done)
                    if isinstance(s.target, ast.Name):
                        if s.target.id not in done:
                            out.setdefault(s.target.id, s.target)
                    else:
                        expr(s.target, done)
                elif isinstance(s, ast.AnnAssign):
                    if s.value is not None:
                        expr(s.value, done)
                        done = done | targets(s.target)
                elif isinstance(s, ast.If):
                    expr(s.test, done)
                    a, b = block(s.body, done), block(s.orelse, done)
                    done = b if a is None else a if b is None else a & b
                elif isinstance(s, ast.For):
                    expr(s.iter, done)
                    block(s.body, done | targets(s.target))
                    block(s.orelse, done)
                elif isinstance(s, ast.While):
                    expr(s.test, done)
                    block(s.body, done)
                elif isinstance(s, ast.With):
                    for i in s.items:
                        expr(i.context_expr, done)
                        if i.optional_vars is not None:
                            done = done | targets(i.optional_vars)
                    done = block(s.body, done)
                elif isinstance(s, ast.Try):
                    block(s.body, done)
                    for h in s.handlers:
                        block(h.body, done)
                    block(s.finalbody, done)
                elif isinstance(s, (ast.Return, ast.Raise)):
                    expr(s, done)
                    return None
                elif isinstance(s, (ast.Continue, ast.Break)):
                    return None
                elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    done = done | {s.name}
                else:
                    expr(s, done)
            return done

        block(stmts, set(assigned))
        return out

    # -- arrays ---------------------------------------------------------------
    def invariant(self, n):
        """does not depend on anything assigned in the body"""
        ns = names_in(n)
        return not (ns & (set(self.bound) | set(self.red) | self.j | self.comp)) and not any(
            isinstance(x, ast.Call) for x in ast.walk(n))

    def expand(self, n, depth=0):
        """replace a body-local name bound once to a simple expression by that expression"""
        if isinstance(n, ast.Name) and n.id in self.bound and n.id not in self.red and len(self.bound[n.id]) == 1 and depth < 4:
            st = self.bound[n.id][0]
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st in self.body:
                return self.expand(st.value, depth + 1)
        return n

    def affine(self, n):
        """(coefficient, offset source) of an expression affine in the loop variable, or None.  coefficient None: invariant"""
        n = self.expand(n)
        if isinstance(n, ast.Name) and n.id in self.j:
            return 1, "0"
        if self.invariant(n):
            return 0, ast.unparse(n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            r = self.affine(n.operand)
            return None if r is None else (-r[0] if isinstance(r[0], int) else "-" + r[0], f"-({r[1]})")
        if isinstance(n, ast.BinOp):
            a, b = self.affine(n.left), self.affine(n.right)
            if a is None or b is None:
                return None
            op = type(n.op).__name__
            if op in ("Add", "Sub"):
                if a[0] == 0 or b[0] == 0:
                    c = a[0] if b[0] == 0 else (b[0] if op == "Add" else (-b[0] if isinstance(b[0], int) else "-" + b[0]))
                    s = "+" if op == "Add" else "-"
                    off = a[1] if b[1] == "0" else (f"{s}{b[1]}" if a[1] == "0" and s == "-" else b[1] if a[1] == "0" else f"{a[1]}{s}{b[1]}")
                    return c, off
                if isinstance(a[0], int) and isinstance(b[0], int):
                    return (a[0] + b[0] if op == "Add" else a[0] - b[0]), f"{a[1]}{'+' if op == 'Add' else '-'}{b[1]}"
                return None
            if op == "Mult":
                for p, q, e in ((a, b, n.right), (b, a, n.left)):
                    if q[0] == 0 and p[1] == "0":
                        e = self.expand(e)
                        if isinstance(e, ast.Constant) and isinstance(e.value, int):
                            return (p[0] * e.value if isinstance(p[0], int) else None), "0"
                        if p[0] == 1:
                            return ast.unparse(e), "0"
        return None

    def region(self, idx):
        """the part of the array an index expression selects, as far as the loop variable selects it.

        ('j', dimension, coefficient, offset): disjoint between iterations;  'all': certainly (partly) common to several
        iterations;  None: unknown.
        """
        dims = idx.elts if isinstance(idx, ast.Tuple) else [idx]
        any_unknown = False
        for d, e in enumerate(dims):
            if isinstance(e, ast.Slice):
                lo = self.affine(e.lower) if e.lower is not None else (0, "0")
                hi = self.affine(e.upper) if e.upper is not None else (0, "end")
                if lo is None or hi is None:
                    any_unknown = True
                    continue
                if lo[0] == 0 and hi[0] == 0:
                    continue
                # blocks [j*m : (j+1)*m] or [j*m : j*m + m]
                up = ast.unparse(self.expand(e.upper)).replace(" ", "") if e.upper is not None else ""
                low = ast.unparse(self.expand(e.lower)).replace(" ", "") if e.lower is not None else ""
                j = next(iter(self.j))
                m = str(lo[0])
                if low in (f"{j}*{m}", f"{m}*{j}", f"({j})*{m}", j) and up in (
                        f"({j}+1)*{m}", f"{m}*({j}+1)", f"{j}*{m}+{m}", f"{m}*{j}+{m}", f"{low}+{m}", f"{j}+1"):
                    return ("j", d, m, "block")
                any_unknown = True
                continue
            r = self.affine(e)
            if r is None:
                any_unknown = True
            elif r[0] not in (0, None):
                return ("j", d, str(r[0]), r[1])
        if any_unknown:
            # an index computed in the body: common elements unless it can be shown injective in the loop variable
            if all(self.index_free(e) for e in dims):
                return "all"
            cl = [self.classify(e) for e in dims]
            if None in cl:
                return None
            return "data" if "data" in cl else "all"
        return "all"

    def direct(self, e):
        """the loop variable occurs in the expression after expanding body names"""
        e = self.expand(e)
        for x in ast.walk(e):
            if isinstance(x, ast.Name):
                if x.id in self.j:
                    return True
                y = self.expand(x)
                if y is not x and self.direct(y):
                    return True
        return False

    def classify(self, e):
        """of an index that is not affine: 'all' (many iterations share it), 'data' (computed from data), None (unknown)"""
        if isinstance(e, ast.Slice):
            ends = [x is None or self.invariant(x) for x in (e.lower, e.upper)]
            if ends[0] != ends[1] and e.step is None:
                return "all"      # slices with a common end overlap
            return None if self.direct(ast.Tuple([x for x in (e.lower, e.upper) if x is not None], ast.Load())) else "data"
        e = self.expand(e)
        if self.affine(e) is not None:
            return "all"
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mod, ast.FloorDiv, ast.BitAnd, ast.RShift)) \
                and not self.direct(e.right) and not (isinstance(e.right, ast.Constant) and e.right.value in (0, 1)):
            if ast.unparse(e.right) not in ast.unparse(self.loop.iter):
                return "all"
            return None
        if isinstance(e, ast.Name) and any(isinstance(st, ast.For) for st in self.bound.get(e.id, [])):
            for st in self.bound[e.id]:
                it = getattr(st, "iter", None)
                if isinstance(it, ast.Call) and getattr(it.func, "id", "") == "range":
                    if len(it.args) == 1 or not self.direct(it.args[0]):
                        continue
                return None
            return "all"
        if self.summary(e):
            return "all"
        if any(isinstance(x, ast.Call) and "thread_id" in ast.unparse(x.func) for x in ast.walk(e)):
            return None
        return None if self.direct(e) else "data"

    def summary(self, e, depth=0):
        """a length, sum, extreme or count of something: the same for many iterations"""
        e = self.expand(e)
        if depth > 4:
            return False
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.FloorDiv, ast.Mod, ast.RShift, ast.BitAnd)):
            l, r = self.summary(e.left, depth + 1), self.summary(e.right, depth + 1)
            return (l and (r or not self.direct(e.right))) or (r and not self.direct(e.left))
        if isinstance(e, ast.Attribute):
            return e.attr in ("size", "ndim")
        if isinstance(e, ast.Subscript):
            return isinstance(e.value, ast.Attribute) and e.value.attr == "shape"
        if not isinstance(e, ast.Call):
            return False
        f = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        if f in ("int", "abs", "int64", "int32", "intp", "uint64") and e.args:
            return self.summary(e.args[0], depth + 1)
        if f in ("len", "max", "min", "amax", "amin", "any", "all", "count_nonzero", "argmax", "argmin", "size"):
            return not (f in ("max", "min") and len(e.args) > 1)
        if f == "sum":
            parts = list(e.args) + ([e.func.value] if isinstance(e.func, ast.Attribute) else [])
            work, seen = list(parts), 0
            while work and seen < 200:
                seen += 1
                for x in ast.walk(work.pop()):
                    if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Mult, ast.Pow, ast.LShift, ast.MatMult)) and (
                            self.direct(x.left) and self.direct(x.right) or not self.constant_factor(x)):
                        return False
                    if isinstance(x, ast.Name):
                        y = self.expand(x)
                        if y is not x:
                            work.append(y)
            return True
        callee = self.prog.resolve(self.info.module, f) if isinstance(e.func, ast.Name) else None
        if callee and callee[0] == "func":
            return counter(callee[1].node)
        return False

    def constant_factor(self, x):
        return any(isinstance(y, ast.Constant) and not isinstance(x.op, (ast.Pow, ast.LShift)) for y in (x.left, x.right))

    def index_free(self, e):
        """the index does not involve the loop variable at all (so the same elements are hit by different iterations)"""
        seen = set()
        work = [e]
        while work:
            n = work.pop()
            for x in names_in(n):
                if x in self.j:
                    return False
                if x in seen:
                    continue
                seen.add(x)
                for st in self.bound.get(x, []):
                    if isinstance(st, ast.For):
                        work.append(st.iter)
                    elif getattr(st, "value", None) is not None:
                        work.append(st.value)
                for _, st in self.red.get(x, []):
                    work.append(st.value)
        return True

    def small_range(self, e):
        """a name bound by an inner loop (or computed from one): takes overlapping values in all iterations"""
        if isinstance(e, ast.Slice) or self.affine(e) is not None:
            return True
        n = self.expand(e)
        if isinstance(n, ast.Name):
            return any(isinstance(st, ast.For) for st in self.bound.get(n.id, []))
        return False

    def is_array_index(self, e):
        """certainly an array or list (indexing copies)"""
        e = self.expand(e)
        if isinstance(e, (ast.List, ast.ListComp)):
            return True
        if isinstance(e, ast.Call):
            f = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
            return f in ALLOC or f in ("ix_", "argsort", "flatnonzero")
        if isinstance(e, ast.Subscript):
            return self.is_array_index(e.value) if isinstance(e.value, ast.Call) else False
        return False

    def shared(self, name):
        """a name whose object lives outside the iteration"""
        return name not in self.bound and name not in self.j and name not in self.comp \
            and (name in self.before or name in self.info.params)

    def aliases(self):
        """body name -> [(shared array, region)] it may be a view of"""
        al = {}
        for _ in range(4):
            ch = False
            for x, l in self.bound.items():
                for st in l:
                    if isinstance(st, ast.For):
                        # iterating over a shared 2d array yields views
                        continue
                    v = getattr(st, "value", None)
                    if v is None:
                        continue
                    pairs = []
                    for t in getattr(st, "targets", [getattr(st, "target", None)]):
                        if isinstance(t, ast.Name):
                            pairs.append((t.id, v))
                        elif isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(v.elts) == len(t.elts):
                            pairs += [(a.id, b) for a, b in zip(t.elts, v.elts) if isinstance(a, ast.Name)]
                    for nm, e in pairs:
                        if nm != x:
                            continue
                        for r in self.view_of(e, al):
                            if r not in al.setdefault(x, []):
                                al[x].append(r)
                                ch = True
            if not ch:
                break
        return al

    def view_of(self, e, al):
        if isinstance(e, ast.Name):
            if self.shared(e.id):
                return [(e.id, "all")]
            return list(al.get(e.id, []))
        if isinstance(e, ast.IfExp):
            return self.view_of(e.body, al) + self.view_of(e.orelse, al)
        if isinstance(e, ast.Attribute) and e.attr in ("T", "real", "imag", "flat"):
            return self.view_of(e.value, al)
        if isinstance(e, ast.Subscript):
            base = self.view_of(e.value, al)
            if not base:
                return []
            dims = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if any(self.is_array_index(d) for d in dims):
                return []
            reg = self.region(e.slice)
            return [(b, r if isinstance(r, tuple) else reg) for b, r in base]
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr in VIEWS:
                if isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy"):
                    return self.view_of(e.args[0], al) if e.args else []
                return self.view_of(f.value, al)
        return []

    def arrays(self):
        al = self.aliases()
        regions = {}   # shared array -> list of (region, node, is_store)
        stores = []
        for st in self.stmts:
            tg = []
            if isinstance(st, ast.Assign):
                tg = [t for t in st.targets]
            elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
                tg = [st.target]
            flat = []
            for t in tg:
                flat += list(t.elts) if isinstance(t, (ast.Tuple, ast.List)) else [t]
            for t in flat:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    base = t.value if isinstance(t, ast.Subscript) else t.value
                    for arr, reg in self.view_of(base, al):
                        r = reg if isinstance(reg, tuple) else self.region(t.slice) if isinstance(t, ast.Subscript) and reg == "all" else reg
                        stores.append((arr, r, st, t))
                elif isinstance(t, ast.Name) and isinstance(st, ast.AugAssign) and t.id in al:
                    for arr, reg in al[t.id]:
                        if self.seems_array(arr):
                            stores.append((arr, reg, st, t))
            if isinstance(st, ast.Call):
                self.call(st, al, stores)
        self.stats["shared_stores"] = self.stats.get("shared_stores", 0) + len(stores)
        byarr = {}
        for arr, r, st, t in stores:
            if arr in self.reductions:
                if isinstance(st, ast.AugAssign) and OPS.get(type(st.op).__name__) == ADD:
                    continue
                self.hit("reduction-store", arr, st, f"{arr} is accumulated over parallel iterations and also stored into")
                continue
            if r == "all":
                self.hit("store", arr, st, f"different parallel iterations write the same elements of {arr}")
            elif r == "data":
                if isinstance(st, ast.AugAssign):
                    self.hit("store", arr, st, f"parallel iterations accumulate into the same elements of {arr}")
                else:
                    self.stats["unresolved_stores"] = self.stats.get("unresolved_stores", 0) + 1
            elif r is None:
                self.stats["unresolved_stores"] = self.stats.get("unresolved_stores", 0) + 1
            else:
                byarr.setdefault(arr, []).append((r, st))
        for arr, l in byarr.items():
            regs = {r for r, _ in l}
            if len({(r[1], r[2], r[3]) for r in regs}) > 1:
                self.hit("overlap", arr, l[0][1], f"parallel iterations write overlapping elements of {arr}")
                continue
            reg = next(iter(regs))
            for n, rr in self.reads(arr, al):
                if rr == "all":
                    self.hit("read", arr, n, f"a parallel iteration reads elements of {arr} that other iterations write")
                    break
                if isinstance(rr, tuple) and rr[1:] != reg[1:]:
                    self.hit("read", arr, n, f"a parallel iteration reads elements of {arr} that another iteration writes")
                    break

    def seems_array(self, name):
        for st in self.before.get(name, []):
            v = getattr(st, "value", None)
            if isinstance(v, ast.Call):
                f = v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, "id", "")
                if f in ALLOC:
                    return True
        return name in self.info.params and any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name)
                                                and x.value.id == name for x in ast.walk(self.info.node))

    def reads(self, arr, al):
        names = {arr} | {x for x, l in al.items() if any(a == arr for a, _ in l)}
        store_nodes = set()
        for st in self.stmts:
            if isinstance(st, (ast.Assign,)):
                for t in st.targets:
                    if isinstance(t, ast.Subscript):
                        store_nodes.add(id(t))
        covered = set()
        for x in self.stmts:
            if isinstance(x, ast.Attribute) and x.attr in ("shape", "dtype", "size", "ndim") and isinstance(x.value, ast.Name):
                covered.add(id(x.value))
            if isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in SHAPE_ONLY and x.args:
                covered.add(id(x.args[0]))
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in names:
                covered.add(id(x.value))
                if isinstance(x.ctx, ast.Load) or id(x) not in store_nodes:
                    if x.value.id == arr:
                        yield x, self.region(x.slice)
        for x in self.stmts:
            if isinstance(x, ast.Name) and x.id == arr and isinstance(x.ctx, ast.Load) and id(x) not in covered:
                yield x, "all" if not self.is_alias_stmt(x) else None

    def is_alias_stmt(self, name):
        return any(isinstance(s, ast.Assign) and s.value is name for s in self.stmts)

    def call(self, c, al, stores):
        f = c.func
        if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
            for arr, reg in self.view_of(f.value, al):
                stores.append((arr, reg, c, f.value))
            return
        kw_out = [k.value for k in c.keywords if k.arg == "out"]
        for o in kw_out:
            for arr, reg in self.view_of(o, al):
                stores.append((arr, reg, c, o))
        callee = None
        if isinstance(f, ast.Name):
            r = self.prog.resolve(self.info.module, f.id)
            callee = r[1] if r and r[0] == "func" else None
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            r = self.prog.resolve(self.info.module, f.value.id)
            if r and r[0] == "mod":
                m = self.prog.member(r[1], f.attr)
                callee = m[1] if m and m[0] == "func" else None
        if callee is None:
            return
        self.stats["calls_followed"] += 1
        pos = [a.arg for a in callee.node.args.posonlyargs + callee.node.args.args]
        args = list(zip(pos, c.args)) + [(k.arg, k.value) for k in c.keywords if k.arg]
        views = {p: self.view_of(a, al) for p, a in args}
        shared = {p for p, v in views.items() if v}
        w = written_params(self.prog, callee, frozenset(shared))
        for p in sorted(w):
            for arr, reg in views.get(p, []):
                stores.append((arr, reg if reg is not None else "all" if isinstance(dict(args)[p], ast.Name) else None, c, c))
        for g in sorted(x for x in w if x.startswith("g:")):
            self.hit("global", g[2:], c, f"a function called by parallel iterations writes the module level object {g[2:]}")

    def check(self):
        self.names()
        self.arrays()
        return self.hits


_memo = {}


def written_params(prog, callee, shared):
    """parameters (as arrays) that the callee, or anything it calls, may write to"""
    k = (id(prog), callee.full, shared)
    if k in _memo:
        return _memo[k]
    dom = AliasDomain()
    it = AliasInterp(prog, dom)
    b = {}
    dfl = callee.defaults()
    for p in callee.params:
        if p in shared:
            b[p] = D(Al(frozenset(["p:" + p]), "arr"))
        elif p in dfl:
            continue
        else:
            b[p] = D(UNK)
    for p in callee.params:
        if p not in b:
            b[p] = it.default_value(callee, dfl[p], None)
    it.invoke(callee, b, callee.node)
    r = set()
    for (o, f, what) in dom.hits:
        if o.startswith("p:"):
            r.add(o[2:])
        elif o.startswith("g:"):
            r.add(o)
    _memo[k] = r
    return r


def parallel(info):
    return info.jit is not None and (info.jit.get("parallel") not in (None, False) or None in info.jit)


def is_prange(info, prog, it):
    if not isinstance(it, ast.Call):
        return False
    n = ast.unparse(it.func)
    if n.split(".")[-1] in ("prange", "pndindex"):
        return True
    if isinstance(it.func, ast.Name):
        r = prog.resolve(info.module, it.func.id)
        if r and r[0] == "ext" and r[1].endswith(".prange"):
            return True
        if r and r[0] == "expr":
            return ast.unparse(r[2]).endswith("prange")
    return False


def loops(info, prog):
    """(loop, statements after it, names assigned outside it)"""
    out = []

    def block(ss, after):
        for i, s in enumerate(ss):
            rest = ss[i + 1:] + after
            if isinstance(s, ast.For) and is_prange(info, prog, s.iter):
                out.append((s, rest))
                continue   # nested parallel loops run serially inside
            for fld in ("body", "orelse", "finalbody"):
                sub = getattr(s, fld, None)
                if isinstance(sub, list) and sub and isinstance(sub[0], ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    block(sub, rest)
    block(info.node.body, [])
    res = []
    for l, rest in out:
        inside = {id(x) for x in ast.walk(l)}
        before = {}
        for x in ast.walk(info.node):
            if id(x) in inside:
                continue
            ts = []
            if isinstance(x, ast.Assign):
                ts = x.targets
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For)):
                ts = [x.target]
            for t in ts:
                for nm in targets(t):
                    before.setdefault(nm, []).append(x)
        # names assigned only after the loop are not shared state
        first = l.lineno
        before = {k: v for k, v in before.items() if any(getattr(y, "lineno", 0) < first for y in v)}
        res.append((l, rest, before))
    return res


class Threads(AliasDomain):
    """records the functions handed to thread pools, and what they write"""

    def __init__(self):
        super().__init__()
        self.workers = []
        self.writes = {}

    def wrapped(self, name, f, kw, node):
        if name == "dask.delayed":
            for x in f.alts if isinstance(f, U) else [f]:
                if isinstance(x, Fn):
                    self.workers.append((x, node, self.it.cur))

    def hit(self, owners, node, what):
        ws = {f.info.full for f, _, _ in self.workers}
        w = next((i.full for i in self.it.stack if i.full in ws), None)
        if w is not None:
            for o in owners:
                self.writes.setdefault((w, o, self.it.cur.full, what.split(" ")[0]),
                                       (self.it.where(node), f"{what}: `{src(node)}`", self.it.call_path()))
        super().hit(owners, node, what)


def memo(prog, o, f, what):
    """a module level dictionary that is only filled, each entry once under its own key: the same value whoever wins"""
    if not o.startswith("g:") or not what.startswith(("setitem", "setdefault")):
        return False
    name = o.split(".")[-1]
    fi = next((x for x in prog.functions() if x.full == f), None)
    m = next((m for m in prog.modules.values() if o[2:].startswith(m.name + ".") and o[2:][len(m.name) + 1:] == name), None)
    if fi is None or m is None:
        return False
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Delete) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n)):
            return False
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                and n.func.value.id == name and n.func.attr not in ("get", "setdefault", "keys", "items", "values"):
            return False
        if isinstance(n, ast.AugAssign) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
            return False
    guard = False
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.NotIn, ast.In)) and isinstance(n.comparators[0], ast.Name) \
                and n.comparators[0].id == name:
            guard = True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "setdefault") \
                and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
            guard = True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == name \
                and isinstance(n.slice, ast.Constant):
            return False
    return guard


def thread_workers(prog, stats, add):
    """functions run in threads must not write shared objects"""
    from ..alias import initial
    from ..api import roots
    seen = {}
    hits = {}
    for info, kinds in roots(prog)[0]:
        if "parallel" not in info.params:
            continue
        dom = Threads()
        it = AliasInterp(prog, dom)
        b = initial(info, kinds)
        b["parallel"] = K(True)
        it.invoke(info, b, info.node)
        for f, node, cur in dom.workers:
            seen[f.info.full] = (f.info, node, cur)
        hits.update(dom.writes)
    for m in prog.modules.values():
        for fi in m.funcs.values():
            for c in ast.walk(fi.node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("submit", "map", "start_new_thread") \
                        and "Thread" in ast.unparse(fi.node) and c.args and isinstance(c.args[0], ast.Name):
                    r = prog.resolve(m, c.args[0].id)
                    if r and r[0] == "func":
                        seen[r[1].full] = (r[1], c, fi)
    for full, (w, node, cur) in sorted(seen.items()):
        stats["thread_workers"] += 1
        dom = AliasDomain()
        it = AliasInterp(prog, dom)
        b = {}
        for p in w.params:
            o = frozenset(["p:" + p])
            b[p] = D(Al(o, "?"))
        if len(w.params) == 1:
            # the samplers hand over one list of parameters, the same object for every worker
            o = frozenset(["p:" + w.params[0]])
            b[w.params[0]] = Lst(None, D(Al(o, "?")), "list", tag=o)
        it.invoke(w, b, w.node)
        for (o, f, what), v in dom.hits.items():
            hits.setdefault((full, o, f, what), v)
    for (full, o, f, what), (where, msg, path) in sorted(hits.items()):
        if o.startswith(("p:", "g:")) and not memo(prog, o, f, msg):
            add(f"thread:{full}:{o}:{f}", where, f"{full}, run in parallel threads, writes an object shared by all "
                f"workers ({msg})", path)


def check(prog):
    findings = {}
    stats = {"parallel_loops": 0, "serial_prange_loops": 0, "written_names": 0, "reductions": 0, "calls_followed": 0,
             "shared_stores": 0, "unresolved_stores": 0, "thread_workers": 0}
    analysed = []

    def add(key, where, msg, path=None):
        if key not in findings:
            findings[key] = Finding(key, where, msg, path or [])

    for info in prog.functions():
        ls = loops(info, prog)
        if not ls:
            continue
        if not parallel(info):
            stats["serial_prange_loops"] += len(ls)
            continue
        for l, after, before in ls:
            stats["parallel_loops"] += 1
            analysed.append(f"{info.full}: for {ast.unparse(l.target)} in {ast.unparse(l.iter)}")
            for rule, name, node, msg in Loop(prog, info, l, after, before, stats).check():
                add(f"race:{info.full}:{rule}:{name}", info.loc(node), f"{info.full}: {msg}: `{src(node)}`")
    # whole-array statements of parallel functions that overlap themselves
    for info in prog.functions():
        if not parallel(info):
            continue
        for st in walk_local(info.node):
            if isinstance(st, (ast.Assign, ast.AugAssign)):
                t = st.targets[0] if isinstance(st, ast.Assign) else st.target
                if not (isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and has_slice(t.slice)):
                    continue
                for x in ast.walk(st.value):
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == t.value.id \
                            and has_slice(x.slice) and ast.unparse(x.slice) != ast.unparse(t.slice) and shifted(x.slice, t.slice):
                        add(f"race:{info.full}:overlap-slice:{t.value.id}", info.loc(st),
                            f"{info.full}: an automatically parallelised assignment reads elements it also writes: `{src(st)}`")
    thread_workers(prog, stats, add)
    stats["loops"] = analysed
    return list(findings.values()), stats


def has_slice(s):
    return any(isinstance(d, ast.Slice) for d in (s.elts if isinstance(s, ast.Tuple) else [s]))


def shifted(a, b):
    """same dimension sliced with different bounds, and no dimension with different constant indices"""
    da = a.elts if isinstance(a, ast.Tuple) else [a]
    db = b.elts if isinstance(b, ast.Tuple) else [b]
    if len(da) != len(db):
        return False
    sh = False
    for x, y in zip(da, db):
        if isinstance(x, ast.Slice) and isinstance(y, ast.Slice):
            if ast.unparse(x) != ast.unparse(y):
                sh = True
        elif ast.unparse(x) != ast.unparse(y):
            return False
    return sh
