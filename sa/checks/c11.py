"""Well-formed paths.  Every path through every function of the package (branch conditions decided alike wherever they are written
alike, loops taken at least once) is followed and each read of a local name must come after a binding of it on that path; a function
that returns values must not fall off its end or mix structures that its callers unpack.  Every other name, every attribute of the
package and of the installed libraries must exist, and every call of a known function must fit its signature."""
import ast
import builtins
import json
import os

from ..loader import walk_local
from ..paths import Paths, local_names, names
from ..report import Finding

FLOORS = {"functions": 132, "paths": 323, "optional_values": 10, "names": 4000, "library_calls": 215,
          "external_calls": 499, "attributes": 833, "returning_functions": 123}
ASSUMPTIONS = [
    "a for or while loop that is reached runs at least once",
    "the names and signatures of the third-party libraries are those of the installed versions (sa/external.json, made by tools/gen_external.py)",
    "objects whose type is unknown are only checked for attributes no known type has",
]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DUNDER = {"__name__", "__file__", "__doc__", "__package__", "__spec__", "__path__", "__builtins__", "__all__", "__version__", "__class__", "__debug__",
          "__annotations__", "__loader__", "__dict__", "__qualname__", "__module__"}
KEEPS_SIGNATURE = {"jit", "njit", "lru_cache", "cache", "wraps", "vectorize", "staticmethod", "delayed"}


class Scope:
    def __init__(self, module, fn=None, parent=None):
        self.module, self.fn, self.parent = module, fn, parent
        self.local = local_names(fn) if fn is not None else set()
        self.inner = {}
        if fn is not None:
            for x in walk_local(fn):
                if isinstance(x, ast.FunctionDef):
                    # a nested function whose name is bound only once
                    self.inner[x.name] = x if x.name not in self.inner else None
            stores = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            for k in list(self.inner):
                if k in stores:
                    self.inner[k] = None
            self.imports = {}
            for x in walk_local(fn):
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    self.imports.update(module.import_bindings(x))
                    self.star = getattr(self, "star", False) or any(a.name == "*" for a in x.names)

    def lookup(self, name):
        """('local',) | ('nested', node, scope) | a resolution of the module's binding | ('builtin',) | None"""
        s = self
        while s is not None and s.fn is not None:
            if name in s.local:
                if s.inner.get(name) is not None:
                    return ("nested", s.inner[name])
                if name in s.imports and sum(1 for x in ast.walk(s.fn) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)) == 0:
                    b = s.imports[name]
                    if b[0] == "import":
                        return s.module.prog.module_ref(b[1])
                    if b[0] == "from":
                        return s.module.prog.member(b[1], b[2]) or ("missing", f"{b[1]}.{b[2]}")
                return ("local",)
            s = s.parent
        b = self.module.bindings
        if name in b or "*" in b:
            r = self.module.prog.resolve(self.module, name)
            if r is not None:
                return r
            if name in b:
                return ("missing", name) if b[name][0] == "from" and b[name][1] in self.module.prog.modules else ("opaque",)
        if name in self.module_names():
            return ("opaque",)
        if name in EXT["names"]["builtins"] or name in DUNDER:
            return ("ext", "builtins." + name)
        if "*" in b and any(st[1] not in self.module.prog.modules for st in b["*"]):
            return ("opaque",)
        return None

    def module_names(self):
        m = self.module
        if not hasattr(m, "_all_names"):
            out = set()
            stack = list(m.tree.body)
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    out.add(x.name)
                    continue
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    out |= {(a.asname or a.name.split(".")[0]) for a in x.names}
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                if isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
                stack.extend(ast.iter_child_nodes(x))
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Global):
                    out |= set(x.names)
            m._all_names = out
        return m._all_names


with open(os.path.join(HERE, "external.json"), encoding="utf-8") as _f:
    EXT = json.load(_f)
for _m in list(EXT["names"]):
    EXT["names"][_m] = set(EXT["names"][_m])
assert hasattr(builtins, "len")


def ext_attr(dotted, name):
    """resolution of an attribute of something external: ('ext', dotted), 'missing', or None when nothing is known"""
    full = f"{dotted}.{name}"
    if full in EXT["names"]:
        return ("ext", full)
    known = EXT["names"].get(dotted)
    if known is None:
        return None
    return ("ext", full) if name in known or name.startswith("__") else "missing"


def same(dotted):
    return EXT["sig"].get(dotted)


class Sig:
    def __init__(self, pos, ponly, req, kwo, va, vk, name):
        self.pos, self.ponly, self.req, self.kwo, self.va, self.vk, self.name = pos, ponly, set(req), kwo, va, vk, name


def sig_of(node, name):
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = pos[:len(pos) - nd] if nd else list(pos)
    req += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return Sig(pos, len(a.posonlyargs), req, [x.arg for x in a.kwonlyargs], a.vararg is not None, a.kwarg is not None, name)


def decorated_ok(node):
    for d in node.decorator_list:
        f = d.func if isinstance(d, ast.Call) else d
        if ast.unparse(f).split(".")[-1] not in KEEPS_SIGNATURE:
            return False
    return True


def misfit(sig, nargs, kws, star, dstar, partial=False):
    """why a call does not fit a signature, or None"""
    if nargs > len(sig.pos) and not sig.va:
        return f"takes at most {len(sig.pos)} positional arguments, {nargs} are given"
    allowed = set(sig.pos[sig.ponly:]) | set(sig.kwo)
    for k in kws:
        if k not in allowed and not sig.vk:
            return f"takes no argument `{k}`"
        if k in sig.pos[:nargs] and k not in sig.pos[:sig.ponly]:
            return f"gets `{k}` twice"
    if not star and not dstar and not partial:
        missing = [p for i, p in enumerate(sig.pos) if p in sig.req and i >= nargs and p not in kws]
        missing += [p for p in sig.kwo if p in sig.req and p not in kws]
        if missing:
            return f"is called without `{', '.join(missing)}`"
    return None


class Checker:
    def __init__(self, prog):
        self.prog = prog
        self.findings = {}
        self.stats = dict.fromkeys(("functions", "paths", "names", "library_calls", "external_calls", "attributes", "returning_functions", "unpacked_calls", "path_caps", "optional_values"), 0)
        self.noret = set()
        self.retinfo = {}
        self.needed = {}
        self.classes = {n.name: n for m in prog.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.ClassDef)}
        self.own_attrs = {x.attr for m in prog.modules.values() for x in ast.walk(m.tree) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        for c in self.classes.values():
            for x in ast.walk(c):
                if isinstance(x, ast.FunctionDef):
                    self.own_attrs.add(x.name)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.own_attrs.add(x.id)
        for m in prog.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in ("namedtuple", "setattr", "SimpleNamespace", "make_dataclass"):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Constant) and isinstance(y.value, str):
                            self.own_attrs |= set(y.value.replace(",", " ").split())
                    self.own_attrs |= {k.arg for k in x.keywords if k.arg}

    def add(self, key, module, node, msg, path=None):
        self.findings.setdefault(key, Finding(key, f"{module.rel}:{getattr(node, 'lineno', 0)}", msg, path or []))

    def dotted(self, e, sc):
        """resolution of a Name or Attribute chain"""
        if isinstance(e, ast.Name):
            return sc.lookup(e.id)
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value, sc)
            if b is None:
                return None
            if b[0] == "mod":
                r = self.prog.member(b[1], e.attr)
                if r is not None:
                    return r
                m = self.prog.modules[b[1]]
                if e.attr in Scope(m).module_names() or e.attr in DUNDER:
                    return ("opaque",)
                if "*" in m.bindings:
                    return ("opaque",)
                return ("missing", f"{b[1]}.{e.attr}")
            if b[0] == "ext":
                r = ext_attr(b[1], e.attr)
                if r == "missing":
                    return ("missing", f"{b[1]}.{e.attr}")
                return r or ("opaque",)
            return ("value",)
        return ("value",)

    def qual(self, fn, m):
        return f"{m.name}.{fn.name}" if fn is not None else m.name

    # calls and names of one scope
    def visit(self, stmts, sc, m, qual):
        def walk(n, hidden):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    walk(d, hidden)
                s2 = Scope(m, n, sc)
                self.function(n, s2, m, f"{qual}.{n.name}" if sc.fn is not None or isinstance(getattr(n, "_cls", None), str) else f"{m.name}.{n.name}")
                return
            if isinstance(n, ast.Lambda):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    walk(d, hidden)
                a = n.args
                h = hidden | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
                walk(n.body, h)
                return
            if isinstance(n, ast.ClassDef):
                for d in n.decorator_list + n.bases:
                    walk(d, hidden)
                h = hidden | {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {
                    b.name for b in n.body if isinstance(b, (ast.FunctionDef, ast.ClassDef))}
                for b in n.body:
                    if isinstance(b, ast.FunctionDef):
                        for d in b.decorator_list + b.args.defaults:
                            walk(d, h)
                        self.function(b, Scope(m, b, sc), m, f"{qual}.{n.name}.{b.name}", method=True)
                    else:
                        walk(b, h)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                h = set(hidden)
                for g in n.generators:
                    walk(g.iter, frozenset(h))
                    h |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    for c in g.ifs:
                        walk(c, frozenset(h))
                for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                    walk(e, frozenset(h))
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in hidden:
                self.stats["names"] += 1
                r = sc.lookup(n.id)
                if r is None:
                    self.add(f"name:{qual}:{n.id}", m, n, f"{qual} reads `{n.id}`, which is defined nowhere")
                elif r[0] == "missing":
                    self.add(f"import:{qual}:{n.id}", m, n, f"{qual} uses `{n.id}`: {r[1]} does not exist")
            if isinstance(n, ast.Attribute) and not (names_root(n) in hidden):
                self.attribute(n, sc, m, qual)
            if isinstance(n, ast.Call):
                self.call(n, sc, m, qual, hidden)
            if isinstance(n, (ast.Assign,)) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) and isinstance(n.value, ast.Call):
                self.unpack(n, sc, m, qual, hidden)
            for c in ast.iter_child_nodes(n):
                walk(c, hidden)

        for s in stmts:
            walk(s, frozenset())

    def attribute(self, n, sc, m, qual):
        self.stats["attributes"] += 1
        b = self.dotted(n.value, sc)
        if b is None or b[0] == "missing":
            return
        if b[0] in ("mod", "ext"):
            r = self.dotted(n, sc)
            if r and r[0] == "missing" and isinstance(n.ctx, ast.Load):
                if guarded_by_hasattr(sc.fn, n):
                    return
                self.add(f"attribute:{qual}:{r[1]}", m, n, f"{qual} uses {r[1]}, which does not exist: `{ast.unparse(n)}`")
        elif b[0] in ("local", "value") and isinstance(n.ctx, ast.Load):
            if n.attr not in KNOWN_ATTRS and n.attr not in self.own_attrs and not n.attr.startswith("__"):
                self.add(f"attribute:{qual}:.{n.attr}", m, n, f"{qual} uses an attribute `.{n.attr}` that no type it can have provides: `{ast.unparse(n)[:80]}`")

    def target(self, f, sc, hidden, depth=0):
        """(signature, name, node of the function if it is ours) of the callable an expression denotes"""
        if names_root(f) in hidden or depth > 3:
            return None
        if isinstance(f, ast.Call):
            inner = self.dotted(f.func, sc)
            if inner and inner[0] == "ext" and inner[1] in ("dask.delayed", "numba.njit", "numba.jit", "functools.wraps") and f.args:
                return self.target(f.args[0], sc, hidden, depth + 1)
            return None
        r = self.dotted(f, sc)
        if r is None:
            return None
        if r[0] == "func":
            return (sig_of(r[1].node, r[1].full), r[1].full, r[1].node) if decorated_ok(r[1].node) else None
        if r[0] == "nested":
            return (sig_of(r[1], r[1].name), r[1].name, r[1]) if decorated_ok(r[1]) else None
        if r[0] == "class":
            init = [x for x in r[2].body if isinstance(x, ast.FunctionDef) and x.name == "__init__"]
            if len(init) == 1 and not r[2].decorator_list:
                s = sig_of(init[0], r[2].name)
                s.req.discard(s.pos[0] if s.pos else None)
                s.pos = s.pos[1:]
                return s, r[2].name, None
            return None
        if r[0] == "ext":
            g = same(r[1])
            if g:
                return Sig(*g, r[1]), r[1], None
        if r[0] == "expr":
            # an alias made by a module level assignment
            return self.target(r[2], Scope(r[1]), frozenset(), depth + 1)
        return None

    def call(self, n, sc, m, qual, hidden):
        t = self.target(n.func, sc, hidden)
        partial = False
        args, kws = n.args, n.keywords
        if t is None:
            return
        if t[1] == "functools.partial" and n.args:
            t2 = self.target(n.args[0], sc, hidden)
            if t2 is None:
                return
            t, args, partial = t2, n.args[1:], True
        sig, name, node = t
        self.stats["library_calls" if not name.split(".")[0] in ("builtins", "numpy", "scipy", "math", "itertools", "functools", "dask", "numba", "sympy",
                                                               "collections", "warnings") else "external_calls"] += 1
        star = any(isinstance(a, ast.Starred) for a in args)
        dstar = any(k.arg is None for k in kws)
        # dask adds its own options to delayed calls
        given = [k.arg for k in kws if k.arg is not None and not (isinstance(n.func, ast.Call) and k.arg in ("dask_key_name", "pure"))]
        nargs = sum(1 for a in args if not isinstance(a, ast.Starred))
        why = misfit(sig, nargs, given, star, dstar, partial)
        if why:
            self.add(f"call:{qual}:{name}", m, n, f"{qual}: {name} {why}: `{ast.unparse(n)[:90]}`")

    def needs(self, node):
        """parameters a function uses as a number, array or list before any test"""
        if id(node) not in self.needed:
            self.needed[id(node)] = set()
            P = Paths(node, local_names(node))
            a = node.args
            ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            P.noneable = set(ps)
            P.run()
            self.needed[id(node)] = {k for k, (e, tr) in P.none_uses.items() if not tr and k in ps}
        return self.needed[id(node)]

    def passes_none(self, sc, m, qual):
        def on_call(P, call, st, own):
            if not any(isinstance(a, ast.Name) and a.id in sc.local or isinstance(a, ast.Constant) and a.value is None for a in
                       list(call.args) + [k.value for k in call.keywords]):
                return
            t = self.target(call.func, sc, own)
            if t is None or t[2] is None:
                return
            need = self.needs(t[2])
            if not need:
                return
            pairs = []
            for i, a in enumerate(call.args):
                if isinstance(a, ast.Starred):
                    break
                if i < len(t[0].pos):
                    pairs.append((t[0].pos[i], a))
            pairs += [(k.arg, k.value) for k in call.keywords if k.arg]
            for p, a in pairs:
                none = isinstance(a, ast.Constant) and a.value is None or isinstance(a, ast.Name) and a.id in sc.local and a.id not in own \
                    and P.is_none(a.id, st.facts)
                if p in need and none:
                    cond = ", ".join(("" if v else "not ") + f"({x})" for _, x, v in st.trace[-4:])
                    self.add(f"none:{qual}:{t[1]}:{p}", m, call, f"{qual} passes `{ast.unparse(a)}`, which can be None"
                             + (f" when {cond}" if cond else "") + f", to {t[1]}, which uses it at once: `{ast.unparse(call)[:80]}`")
        return on_call

    # returns
    def arities(self, node):
        """lengths of the tuples a function returns; None when not all of them are known"""
        if id(node) in self.retinfo:
            return self.retinfo[id(node)]
        self.retinfo[id(node)] = None
        rets = [x for x in walk_local(node) if isinstance(x, ast.Return)]
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_local(node)):
            return None
        out = set()
        for r in rets:
            v = r.value
            if isinstance(v, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in v.elts):
                out.add(len(v.elts))
            elif v is None or isinstance(v, ast.Constant) and not isinstance(v.value, str) or isinstance(v, (ast.Compare, ast.UnaryOp)) and not (
                    isinstance(v, ast.UnaryOp) and not isinstance(v.op, ast.Not)):
                out.add("one")
            else:
                return None
        self.retinfo[id(node)] = out or None
        return self.retinfo[id(node)]

    def unpack(self, n, sc, m, qual, hidden):
        t = self.target(n.value.func, sc, hidden)
        if t is None or t[2] is None:
            return
        self.stats["unpacked_calls"] += 1
        ar = self.arities(t[2])
        el = n.targets[0].elts
        if ar is None or any(isinstance(e, ast.Starred) for e in el):
            return
        if len(el) not in ar:
            self.add(f"unpack:{qual}:{t[1]}", m, n, f"{qual} unpacks {len(el)} results of {t[1]}, which returns {sorted(map(str, ar))}: `{ast.unparse(n)[:80]}`")

    def noreturn(self, call, sc):
        r = self.dotted(call.func, sc) if isinstance(call.func, (ast.Name, ast.Attribute)) else None
        if r and r[0] == "func":
            return id(r[1].node) in self.noret
        if r and r[0] == "nested":
            return id(r[1]) in self.noret
        return False

    def function(self, fn, sc, m, qual, method=False):
        self.stats["functions"] += 1
        P = Paths(fn, sc.local, lambda c: self.noreturn(c, sc), self.passes_none(sc, m, qual)).run()
        self.stats["paths"] += len(P.returns) + len(P.falls)
        self.stats["path_caps"] += P.cap_hit
        for k, (e, tr) in P.unbound.items():
            cond = ", ".join(("" if v else "not ") + f"({t})" for _, t, v in tr[-4:])
            self.add(f"unbound:{qual}:{k}", m, e, f"{qual} reads `{k}` before it is bound" + (f" when {cond}" if cond else ""),
                     [f"{m.rel}:{ln}: {t} is {v}" for ln, t, v in tr])
        for k, (e, tr) in P.none_uses.items():
            cond = ", ".join(("" if v else "not ") + f"({t})" for _, t, v in tr[-4:])
            self.add(f"none:{qual}:{k}", m, e, f"{qual} uses `{k}` while it can be None" + (f" when {cond}" if cond else "") + f": `{ast.unparse(e)[:70]}`",
                     [f"{m.rel}:{ln}: {t} is {v}" for ln, t, v in tr])
        self.stats["optional_values"] += len(P.noneable)
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_local(fn))
        val = [(r, s) for r, s in P.returns if r.value is not None and not is_none(r.value)]
        bare = [(r, s) for r, s in P.returns if r.value is None]
        if val and not gen:
            self.stats["returning_functions"] += 1
            for s in P.falls[:1]:
                self.add(f"return:{qual}", m, fn, f"{qual} falls off its end without a result" + cond_text(s), [f"{m.rel}:{ln}: {t} is {v}" for ln, t, v in s.trace])
            for r, s in bare[:1]:
                self.add(f"return:{qual}", m, r, f"{qual} returns nothing" + cond_text(s))
            self.structure(fn, P, val, m, qual)
        self.visit(fn.body, sc, m, qual)

    def structure(self, fn, P, val, m, qual):
        """the number of results may depend on an option, not on the data"""
        a = fn.args
        opts = {x.arg for x in a.kwonlyargs}
        pos = a.posonlyargs + a.args
        opts |= {x.arg for x in pos[len(pos) - len(a.defaults):]} if a.defaults else set()
        kinds = {}
        for r, s in val:
            v = r.value
            if isinstance(v, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in v.elts):
                kinds.setdefault(len(v.elts), []).append((r, s))
            elif isinstance(v, (ast.Constant, ast.Compare, ast.BinOp, ast.List, ast.Dict)) or isinstance(v, ast.UnaryOp):
                kinds.setdefault("one", []).append((r, s))
            elif isinstance(v, ast.Call):
                kinds.setdefault(None, []).append((r, s))
        known = [k for k in kinds if k is not None]
        if len(known) < 2:
            return
        # returns of different structure whose conditions involve no option and no type of an argument
        by = sorted(known, key=lambda k: -len(kinds[k]))
        for k in by[1:]:
            for r, s in kinds[k]:
                if not any(names(ast.parse(t, mode="eval")) & opts or "isinstance" in t or "type(" in t or ".ndim" in t or ".shape" in t or "len(" in t
                           for _, t, _ in s.trace if parses(t)):
                    self.add(f"structure:{qual}", m, r, f"{qual} returns {'one result' if k == 'one' else f'{k} results'} here and "
                             f"{'one' if by[0] == 'one' else by[0]} elsewhere, whatever the options" + cond_text(s) + f": `{ast.unparse(r)[:70]}`")
                    return


def parses(t):
    try:
        ast.parse(t, mode="eval")
        return True
    except SyntaxError:
        return False


def cond_text(s):
    cond = ", ".join(("" if v else "not ") + f"({t})" for _, t, v in s.trace[-4:])
    return f" when {cond}" if cond else ""


def is_none(v):
    return isinstance(v, ast.Constant) and v.value is None


def names_root(e):
    while isinstance(e, (ast.Attribute, ast.Call, ast.Subscript)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def guarded_by_hasattr(fn, n):
    if fn is None:
        return False
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 \
                and isinstance(x.args[1], ast.Constant) and x.args[1].value == n.attr:
            return True
        if isinstance(x, ast.Try) and any(h.type is None or "Attribute" in ast.unparse(h.type) or "Exception" in ast.unparse(h.type) for h in x.handlers) \
                and any(y is n for b in x.body for y in ast.walk(b)):
            return True
    return False


KNOWN_ATTRS = set(EXT["attrs"])


def check(prog):
    ck = Checker(prog)
    # helpers that always raise
    for _ in range(3):
        n = len(ck.noret)
        for m in prog.modules.values():
            for fn in ast.walk(m.tree):
                if isinstance(fn, ast.FunctionDef) and id(fn) not in ck.noret and any(isinstance(x, ast.Raise) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Call)
                                                                                       for x in fn.body):
                    sc = Scope(m, fn)
                    P = Paths(fn, sc.local, lambda c, sc=sc: ck.noreturn(c, sc)).run()
                    if not P.returns and not P.falls and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_local(fn)):
                        ck.noret.add(id(fn))
        if len(ck.noret) == n:
            break
    for m in prog.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom):
                base = m._abs(x.level, x.module)
                for al in x.names:
                    if al.name == "*":
                        continue
                    if base in prog.modules and prog.member(base, al.name) is None and al.name not in Scope(prog.modules[base]).module_names() \
                            and "*" not in prog.modules[base].bindings:
                        ck.add(f"import:{m.name}:{al.name}", m, x, f"{m.name} imports {al.name} from {base}, which does not define it")
                    elif base not in prog.modules and base in EXT["names"] and ext_attr(base, al.name) == "missing":
                        ck.add(f"import:{m.name}:{al.name}", m, x, f"{m.name} imports {al.name} from {base}, which does not define it")
        sc = Scope(m)
        ck.visit(m.tree.body, sc, m, m.name)
    return list(ck.findings.values()), ck.stats
