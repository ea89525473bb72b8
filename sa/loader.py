"""Parse the current tree of the repository and resolve names.

Nothing of the repository is imported or run: every module under
``thewalrus/`` (tests excluded) is parsed with :mod:`ast`.
"""
import ast
import hashlib
import json
import os

from . import inline, normalise

REPO = os.environ.get("WALRUS_REPO", "/repo")
PKG = "thewalrus"


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (vanished anchor, unparsable file)."""


class FuncInfo:
    """A function definition of the repository."""

    __slots__ = ("module", "node", "qualname", "parent", "jit", "is_gen", "params", "doc", "_locals")

    def __init__(self, module, node, qualname, parent=None):
        self.module = module
        self.node = node
        self.qualname = qualname
        self.parent = parent
        self.doc = ast.get_docstring(node) or "" if not isinstance(node, ast.Lambda) else ""
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.jit = None
        self.is_gen = False
        self._locals = None
        if not isinstance(node, ast.Lambda):
            for sub in walk_local(node):
                if isinstance(sub, (ast.Yield, ast.YieldFrom)):
                    self.is_gen = True

    @property
    def name(self):
        return self.qualname.rsplit(".", 1)[-1]

    @property
    def full(self):
        return f"{self.module.name}.{self.qualname}"

    @property
    def public(self):
        return not any(p.startswith("_") for p in self.qualname.split(".")) and "<" not in self.qualname

    def defaults(self):
        """name -> default AST node"""
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return out

    def loc(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return f"{self.module.rel}:{n.lineno}"

    def __repr__(self):
        return f"<F {self.full}>"


def walk_local(fn):
    """Walk the body of a function without entering nested function definitions."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                yield c
                continue
            stack.append(c)


class Module:
    def __init__(self, prog, name, path, is_pkg):
        self.prog = prog
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, prog.repo)
        self.is_pkg = is_pkg
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        try:
            self.tree = ast.parse(self.src, filename=path)
        except SyntaxError as e:
            raise AnalysisError(f"cannot parse {path}: {e}") from e
        self.digest = hashlib.sha256(self.src.encode()).hexdigest()
        self.tree = normalise.module(inline.module(self.tree, prog.known, prog.imported_names(name)))
        self.bindings = {}  # name -> ("func", FuncInfo) | ("import", dotted) | ("from", mod, name) | ("expr", node) | ("class", node)
        self.funcs = {}
        self.mutated_globals = set()
        self._scan(self.tree.body)

    def _abs(self, level, mod):
        if level == 0:
            return mod or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        base = ".".join(parts)
        return base + ("." + mod if mod else "")

    def import_bindings(self, node):
        out = {}
        if isinstance(node, ast.Import):
            for al in node.names:
                if al.asname:
                    out[al.asname] = ("import", al.name)
                else:
                    top = al.name.split(".")[0]
                    out[top] = ("import", top)
        elif isinstance(node, ast.ImportFrom):
            base = self._abs(node.level, node.module)
            for al in node.names:
                if al.name == "*":
                    out["*"] = ("star", base)
                else:
                    out[al.asname or al.name] = ("from", base, al.name)
        return out

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(self, st, st.name)
                fi.jit = jit_info(st)
                self.funcs[st.name] = fi
                self.bindings[st.name] = ("func", fi)
            elif isinstance(st, ast.ClassDef):
                self.bindings[st.name] = ("class", st)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for k, v in self.import_bindings(st).items():
                    if k == "*":
                        self.bindings.setdefault("*", []).append(v)
                    else:
                        self.bindings[k] = v
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.bindings[t.id] = ("expr", st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                if isinstance(st.value, (ast.Tuple, ast.List)) and len(st.value.elts) == len(t.elts):
                                    self.bindings[e.id] = ("expr", st.value.elts[i])
                                else:
                                    self.bindings[e.id] = ("opaque", st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.bindings[st.target.id] = ("expr", st.value)
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)
                for h in getattr(st, "handlers", []):
                    self._scan(h.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.With):
                self._scan(st.body)


def jit_info(node):
    """Return the keyword dict of a numba jit decorator, or None."""
    for d in node.decorator_list:
        call = d if isinstance(d, ast.Call) else None
        f = call.func if call else d
        name = ast.unparse(f).split(".")[-1]
        if name in ("jit", "njit", "vectorize", "guvectorize", "generated_jit", "stencil"):
            kw = {}
            if call:
                for k in call.keywords:
                    kw[k.arg] = k.value.value if isinstance(k.value, ast.Constant) else ast.unparse(k.value)
            if name == "njit":
                kw.setdefault("nopython", True)
            return kw
    return None


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisError(f"package directory {root} not found")
        files_ = []
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_functions.json"), encoding="utf-8") as fh:
            self.known = {n for v in json.load(fh).values() for n in v}
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                files_.append(p)
        self._imported = None
        self._files = files_
        for p in files_:
            rel = os.path.relpath(p, self.repo)[:-3].split(os.sep)
            is_pkg = rel[-1] == "__init__"
            if is_pkg:
                rel = rel[:-1]
            name = ".".join(rel)
            self.modules[name] = Module(self, name, p, is_pkg)

    def imported_names(self, module):
        """names that some module imports from another one, uses as an attribute, or exports"""
        if self._imported is None:
            out = set()
            for p in self._files:
                with open(p, encoding="utf-8") as fh:
                    try:
                        t = ast.parse(fh.read())
                    except SyntaxError:
                        continue
                for n in ast.walk(t):
                    if isinstance(n, ast.ImportFrom):
                        out |= {a.name for a in n.names}
                    elif isinstance(n, ast.Attribute):
                        out.add(n.attr)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                        out.add(n.value)
            self._imported = out
        return self._imported

    # -- name resolution ------------------------------------------------
    def resolve(self, module, name, _depth=0):
        """Resolve a global name of a module.

        Returns one of ("func", FuncInfo), ("mod", name), ("ext", dotted),
        ("expr", module, node), ("class", module, node), ("opaque",), None.
        """
        if _depth > 12:
            return None
        b = module.bindings.get(name)
        if b is None:
            for st in module.bindings.get("*", []):
                m = self.modules.get(st[1])
                if m is not None:
                    r = self.resolve(m, name, _depth + 1)
                    if r is not None:
                        return r
            return None
        if b[0] == "func":
            return b
        if b[0] == "expr":
            return ("expr", module, b[1])
        if b[0] == "class":
            return ("class", module, b[1])
        if b[0] == "opaque":
            return ("opaque",)
        if b[0] == "import":
            return self.module_ref(b[1])
        if b[0] == "from":
            return self.member(b[1], b[2], _depth)
        return None

    def module_ref(self, dotted):
        if dotted in self.modules:
            return ("mod", dotted)
        return ("ext", canon(dotted))

    def member(self, mod, name, _depth=0):
        full = f"{mod}.{name}"
        m = self.modules.get(mod)
        if m is not None:
            r = self.resolve(m, name, _depth + 1)
            if r is not None:
                return r
            if full in self.modules:
                return ("mod", full)
            return None
        if full in self.modules:
            return ("mod", full)
        return ("ext", canon(full))

    # -- functions --------------------------------------------------------
    def functions(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f

    def public_functions(self):
        for f in self.functions():
            if f.public:
                yield f

    def find(self, dotted):
        """Find a function by 'module.func' relative to the package, or by public name."""
        mod, _, name = dotted.rpartition(".")
        m = self.modules.get(f"{PKG}.{mod}" if mod else PKG)
        if m is None:
            return None
        r = self.resolve(m, name)
        return r[1] if r and r[0] == "func" else None

    def find_by_name(self, name, prefer=None):
        """All functions with that simple name in the package."""
        out = [f for f in self.functions() if f.qualname == name]
        if prefer:
            out.sort(key=lambda f: 0 if f.module.name.endswith(prefer) else 1)
        return out

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].digest.encode())
        return h.hexdigest()[:16]


_CANON = {
    "np": "numpy",
    "sp": "scipy",
}


def canon(dotted):
    return dotted
