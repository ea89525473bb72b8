"""State between calls.  (shared) An alias and effect analysis of every public function with module-level objects, mutable
defaults and cached objects as owners: stores that reach them, and public functions that return them in a modifiable
form.  (caches) Every store under a key into something that outlives a call must be determined by the key: the parameters
the stored value depends on (transitive definitions and the conditions around them) occur in the key undiminished.
(global) Names declared global, attributes of functions, iterators at module level.  (sets) Sets turned into sequences or
iterated where the order of the elements can matter.  (memory) Reads of numpy.empty memory that was not written."""
import ast

from ..alias import AliasDomain, AliasInterp, cached, initial
from ..api import roots
from ..interp import D, Dct, K, Lst, Tup, U
from ..loader import AnalysisError
from ..report import Finding
from ..setorder import SetDomain, SetInterp
from ..state import (CACHEDEC, Deps, ITERS, MUT, is_cachedec, missing_from_key, reads_key, scopes, uninitialised, unp)
from ..units import src
from .c15 import draws

FLOORS = {"public_functions": 107, "functions": 125, "scopes": 132}
ASSUMPTIONS = [
    "view/copy table of sa/npk.py; a helper called with a parameter may use all of it",
    "a set of consecutive integers (set(range(...))) iterates in increasing order",
    "click_cumulant's patterns are all ones, so the order of its set of modes does not matter",
]
ORDER_FREE_ROOTS = {"click_cumulant"}


class Dom(AliasDomain):
    def __init__(self):
        super().__init__()
        self.events = []

    def hit(self, owners, node, what):
        self.stores += 1
        for o in owners:
            if o[:2] in ("g:", "d:", "c:"):
                self.events.append((o, node, what, self.it.cur, self.it.call_path()))


class StateInterp(AliasInterp):
    """What is taken out of a container that outlives the call, or put into it, is shared as well."""

    def shared(self, v):
        out = frozenset()
        for x in v.alts if isinstance(v, U) else [v]:
            if isinstance(x, (Lst, Dct)) and x.tag:
                out |= frozenset(o for o in x.tag if o[:2] in ("g:", "d:", "c:"))
        return out

    def subscript(self, v, idx, n):
        r = super().subscript(v, idx, n)
        o = self.shared(v)
        return self.dom.tag(r, o) if o else r

    def dict_method(self, d, name, args, kw, n):
        r = super().dict_method(d, name, args, kw, n)
        o = self.shared(d)
        return self.dom.tag(r, o) if o and name in ("get", "setdefault", "pop") else r

    def st_Assign(self, st, env, fr):
        env = super().st_Assign(st, env, fr)
        for t in st.targets:
            if env is not None and isinstance(t, ast.Subscript) and isinstance(st.value, ast.Name) and st.value.id in env:
                o = self.shared(self.ev(t.value, env, fr))
                if o:
                    env[st.value.id] = self.dom.tag(env[st.value.id], o)
        return env


def owners(v):
    """owners of the modifiable objects a value may be"""
    out = set()
    if isinstance(v, D):
        if v.p.k in ("arr", "seq"):
            out |= v.p.o
    elif isinstance(v, (Lst, Dct)):
        if isinstance(v, Dct) or v.kind == "list":
            out |= v.tag or frozenset()
        if isinstance(v, Lst):
            for x in v.items or ([v.elem] if v.elem is not None else []):
                out |= owners(x)
    elif isinstance(v, Tup):
        for x in v.items:
            out |= owners(x)
    elif isinstance(v, U):
        for x in v.alts:
            out |= owners(x)
    return out


def reach(prog, info, seen):
    """functions and module-level names a function refers to, transitively"""
    todo = [(info.module, info.node, info)]
    names = set()
    while todo:
        m, node, fi = todo.pop()
        if id(node) in seen:
            continue
        seen[id(node)] = fi
        for x in ast.walk(node):
            r = None
            if isinstance(x, ast.Name):
                r = prog.resolve(m, x.id)
                if r is not None and r[0] == "expr":
                    names.add((r[1].name, x.id))
            elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                b = prog.resolve(m, x.value.id)
                if b is not None and b[0] == "mod":
                    r = prog.resolve(prog.modules[b[1]], x.attr)
            if r is None:
                continue
            if r[0] == "func":
                todo.append((r[1].module, r[1].node, r[1]))
            elif r[0] == "expr":
                todo.append((r[1], r[2], None))
            elif r[0] == "class":
                todo.append((r[1], r[2], None))
    return names


def check(prog):
    rs, missing = roots(prog)
    if len(missing) > 10:
        raise AnalysisError("public functions not found: " + ", ".join(missing))
    st = {"public_functions": 0, "functions": 0, "scopes": 0, "stores_checked": 0, "caches": 0, "keyed_stores": 0, "global_names": 0,
          "sets": 0, "set_consumers": 0, "uninitialised_arrays": 0, "module_level_objects_used": 0}
    found = {}

    def add(key, where, msg, path=None):
        found.setdefault(key, Finding(key, where, msg, path))

    allsc = scopes(prog)
    st["scopes"] = len(allsc)
    bynode = {id(s.node): s for s in allsc}
    reachable, gnames = {}, set()
    for info, _ in rs:
        gnames |= reach(prog, info, reachable)
    st["module_level_objects_used"] = len(gnames)

    def live(s):
        while s is not None:
            if id(s.node) in reachable:
                return True
            s = s.parent
        return False

    def loads(module, name):
        """is the module-level name read anywhere but where it is modified"""
        for s in allsc:
            if s.parent is not None or s.module.name != module:
                continue
            for x in ast.walk(s.node):
                if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
                    return True
        return False

    keyed(prog, allsc, live, loads, st, add)
    globals_(prog, allsc, live, loads, st, add, gnames)
    decorated(prog, allsc, live, st, add)
    # effects through calls
    seen, evs = set(), {}
    setseen = set()
    for info, kinds in rs:
        st["public_functions"] += 1
        dom = Dom()
        it = StateInterp(prog, dom)
        r = it.invoke(info, initial(info, kinds), info.node)
        st["stores_checked"] += dom.stores
        seen |= it.analysed
        for o, node, what, cur, path in dom.events:
            evs.setdefault((o, cur.full if cur else "?", what.split(" ")[0]), (node, what, cur, path))
        if cached(info):
            # the decorator of the function itself
            r = dom.tag(r, frozenset(["c:" + info.full]))
        for o in sorted(owners(r)):
            if o[:2] in ("g:", "c:", "d:"):
                add(f"hands-out:{info.full}:{o}", info.loc(), f"{info.full} returns {name_owner(o)} itself: a caller that modifies the result "
                    "changes the result of later calls")
        if True:
            it = SetInterp(prog, SetDomain())
            it.invoke(info, {p: v for p, v in initial_plain(info, kinds).items()}, info.node)
            setseen |= it.sets
            st["set_consumers"] += it.consumed
            if info.name not in ORDER_FREE_ROOTS:
                for (f, what), (where, msg, path) in it.events.items():
                    add(f"set-order:{f}:{what}", where, f"{f}: the result depends on the iteration order of a set: {msg}", path)
    st["sets"] = len(setseen)
    for (o, f, what), (node, full, cur, path) in sorted(evs.items()):
        if keyed_ok(prog, bynode, cur, node, o, st, add):
            continue
        if o[:2] == "g:" and not loads(*o[2:].rsplit(".", 1)):
            continue
        add(f"shared-store:{o}:{f}:{what}", cur.loc(node), f"{f} modifies {name_owner(o)}, which outlives the call: {full}: `{src(node)[:80]}`", path)
    un, n = uninitialised(prog)
    st["uninitialised_arrays"] = n
    for where, key, msg in un:
        add(key, where, msg)
    st["functions"] = len(seen)
    st["functions_not_found"] = missing
    return list(found.values()), st


def initial_plain(info, kinds):
    b = {}
    dfl = info.defaults()
    for p in info.params:
        if p not in dfl or kinds.get(p):
            b[p] = D(None)
    return b


def name_owner(o):
    k, n = o[:2], o[2:]
    return {"g:": f"the module-level object {n}", "d:": f"a mutable default argument of {n}", "c:": f"the object held by the cache of {n}"}[k]


# ------------------------------------------------------------------ keyed stores
def containers(prog, allsc):
    """per scope: the names that denote something outliving a call, with a description and the scopes that run only once"""
    # functions whose inner functions are made once, at import: decorators and functions called at module level
    once = set()
    for m in prog.modules.values():
        for f in m.funcs.values():
            for d in getattr(f.node, "decorator_list", []):
                for x in ast.walk(d):
                    if isinstance(x, ast.Name):
                        r = prog.resolve(m, x.id)
                        if r is not None and r[0] == "func":
                            once.add(id(r[1].node))
        for b in m.bindings.values():
            if b[0] in ("expr", "opaque"):
                for x in ast.walk(b[1]):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                        r = prog.resolve(m, x.func.id)
                        if r is not None and r[0] == "func":
                            once.add(id(r[1].node))
    return once


def shared_name(prog, s, name, once):
    """(description, constant scopes) when the name denotes a shared object, else None"""
    t = s
    while t is not None:
        if t.local(name):
            if t is s:
                dfl = dict(zip([a.arg for a in reversed(s.node.args.posonlyargs + s.node.args.args)], reversed(s.node.args.defaults)))
                dfl.update({a.arg: d for a, d in zip(s.node.args.kwonlyargs, s.node.args.kw_defaults) if d is not None})
                d = dfl.get(name)
                if name in s.params and d is not None and mutable(d) and name not in s.binds:
                    return f"the default of {name}", ()
                ds = s.defs.get(name, ())
                if len(ds) == 1 and isinstance(ds[0][0], (ast.Name, ast.Attribute)) and name not in s.params:
                    e = ds[0][0]
                    if isinstance(e, ast.Name) and e.id != name:
                        return shared_name(prog, s, e.id, once)
                    if isinstance(e, ast.Attribute):
                        return shared_attr(prog, s, e)
                return None
            if id(t.node) in once or any(id(u.node) in once for u in up(t)):
                return f"the variable {name} of {t.qual()}, which runs once", tuple(id(u) for u in up(t))
            return None
        t = t.parent
    r = prog.resolve(s.module, name)
    if r is not None and r[0] == "expr" and mutable(r[2]):
        return f"the module-level object {name}", ()
    return None


def up(s):
    while s is not None:
        yield s
        s = s.parent


def shared_attr(prog, s, e):
    """f.attr for a function, module or class f"""
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and not any(u.local(e.value.id) for u in up(s)):
        r = prog.resolve(s.module, e.value.id)
        if r is not None and r[0] in ("func", "class", "mod"):
            return f"the attribute {unp(e)}", ()
    return None


def mutable(e):
    if isinstance(e, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        n = unp(e.func).split(".")[-1]
        return n not in ("tuple", "frozenset", "int", "float", "complex", "str", "namedtuple", "sqrt", "deprecate", "jit", "njit", "float64",
                         "lru_cache", "getLogger", "MappingProxyType", "dtype", "wraps", "partial", "ThreadPoolExecutor", "compile")
    return False


def keyed(prog, allsc, live, loads, st, add):
    once = containers(prog, allsc)
    for s in allsc:
        if not live(s):
            continue
        for x in own_nodes(s):
            base = key = val = None
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    for e in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                        if isinstance(e, ast.Subscript):
                            base, key, val = e.value, e.slice, x.value
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "setdefault" and len(x.args) == 2:
                base, key, val = x.func.value, x.args[0], x.args[1]
            if base is None:
                continue
            sh = shared_name(prog, s, base.id, once) if isinstance(base, ast.Name) else shared_attr(prog, s, base)
            if sh is None:
                continue
            judge_keyed(s, x, base, key, val, sh, st, add)
        # other modifications of objects only this analysis knows (attributes of functions, variables of decorators)
        for x in own_nodes(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT - {"pop", "popitem", "clear", "move_to_end",
                                                                                                      "setdefault", "remove", "discard"}:
                b = x.func.value
                sh = shared_name(prog, s, b.id, once) if isinstance(b, ast.Name) else shared_attr(prog, s, b)
                if sh is not None and (sh[0].startswith(("the attribute", "the variable"))):
                    add(f"shared-store:{s.qual()}:{unp(b)}", s.loc(x), f"{s.qual()} modifies {sh[0]}, which outlives the call: `{unp(x)[:80]}`")
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    if isinstance(t, ast.Attribute) and shared_attr(prog, s, t):
                        scalar_state(s, unp(t), x, st, add, f"the attribute {unp(t)}")
            # rebinding a variable of a decorator
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    if isinstance(t, ast.Name) and t.id in s.nonlocals:
                        p = s.parent
                        while p is not None and not p.local(t.id):
                            p = p.parent
                        if p is not None and any(id(u.node) in once for u in up(p)):
                            scalar_state(s, t.id, x, st, add, f"the variable {t.id} of {p.qual()}")


def own_nodes(s):
    """nodes of a function without the functions inside it"""
    todo = list(s.node.body) if isinstance(s.node.body, list) else [s.node.body]
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))


def judge_keyed(s, x, base, key, val, sh, st, add):
    names = {unp(base)}
    st["keyed_stores"] += 1
    # aliases of the container inside the function
    for n, ds in s.defs.items():
        if len(ds) == 1 and unp(ds[0][0]) in names:
            names.add(n)
    if isinstance(x, ast.AugAssign) or not reads_key(s, names, key):
        if isinstance(x, ast.AugAssign):
            add(f"shared-store:{s.qual()}:{unp(base)}", s.loc(x), f"{s.qual()} modifies {sh[0]}, which outlives the call: `{unp(x)[:80]}`")
        return
    if any(isinstance(y, ast.BinOp) and any(unp(z) in names for z in ast.walk(y) if isinstance(z, (ast.Name, ast.Attribute)))
           for y in ast.walk(val)):
        add(f"shared-store:{s.qual()}:{unp(base)}", s.loc(x), f"{s.qual()} accumulates in {sh[0]}, which outlives the call: `{unp(x)[:80]}`")
        return
    st["caches"] += 1
    miss = missing_from_key(s, [key], [val], {unp(base).split(".")[0] if isinstance(base, ast.Name) else unp(base)} | names, sh[1])
    for p, how in miss:
        add(f"cache-key:{s.qual()}:{unp(base)}:{p}", s.loc(x), f"{s.qual()}: what is stored in {sh[0]} depends on {p}, which the key "
            f"`{unp(key)[:60]}` contains {how}")
    # the stored object handed out
    if isinstance(val, ast.Name):
        for y in own_nodes(s):
            if isinstance(y, ast.AugAssign) and isinstance(y.target, (ast.Name, ast.Subscript)) and y.lineno > x.lineno:
                t = y.target.value if isinstance(y.target, ast.Subscript) else y.target
                if isinstance(t, ast.Name) and t.id == val.id and isinstance(y.target, ast.Subscript):
                    add(f"cached-modified:{s.qual()}:{val.id}", s.loc(y), f"{s.qual()} modifies {val.id} after storing it in {sh[0]}")
    for k in Deps(s, sh[1], (), names).of(key):
        if k[0] and any(isinstance(z, ast.Call) and isinstance(z.func, ast.Name) and z.func.id == "id" for z in ast.walk(key)):
            add(f"cache-id:{s.qual()}:{unp(base)}", s.loc(x), f"{s.qual()}: the key `{unp(key)[:60]}` is an object's address, which is reused "
                "after the object is gone and does not change when it is modified")


def scalar_state(s, name, x, st, add, what):
    """a rebound name that outlives the call: fine when what is stored depends on no argument (computed once), or when it is
    guarded by a comparison of the arguments with what was stored along with it"""
    st["global_names"] += 1
    val = x.value
    if isinstance(x, ast.AugAssign):
        reads = [y for y in ast.walk(s.node) if isinstance(y, (ast.Name, ast.Attribute)) and isinstance(y.ctx, ast.Load) and unp(y) == name]
        if reads:
            add(f"state:{s.qual()}:{name}", s.loc(x), f"{s.qual()} changes {what} on every call and reads it: `{unp(x)[:80]}`")
        return
    names = {name}
    keys = []
    for y in ast.walk(s.node):
        if isinstance(y, ast.Compare) and len(y.ops) == 1 and isinstance(y.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            l, r = y.left, y.comparators[0]
            for a, b in ((l, r), (r, l)):
                if isinstance(a, (ast.Name, ast.Attribute)) and (unp(a) in s.globals or unp(a) in s.nonlocals or "." in unp(a)) \
                        and not isinstance(b, ast.Constant):
                    keys.append(b)
                    names.add(unp(a))
    if isinstance(val, ast.Constant):
        return
    miss = missing_from_key(s, keys, [val], names)
    for p, how in miss:
        add(f"state:{s.qual()}:{name}", s.loc(x), f"{s.qual()} keeps a value that depends on its argument {p} in {what}, which outlives the call: "
            f"`{unp(x)[:80]}`")


def globals_(prog, allsc, live, loads, st, add, gnames):
    for s in allsc:
        if not live(s) or not s.globals:
            continue
        for x in own_nodes(s):
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    for e in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                        if isinstance(e, ast.Name) and e.id in s.globals and loads(s.module.name, e.id):
                            scalar_state(s, e.id, x, st, add, f"the global name {e.id}")
    for mod, name in sorted(gnames):
        b = prog.modules[mod].bindings.get(name)
        if b is None or b[0] != "expr":
            continue
        e = b[1]
        if isinstance(e, ast.GeneratorExp) or isinstance(e, ast.Call) and unp(e.func) in ITERS:
            add(f"iterator:{mod}.{name}", f"{prog.modules[mod].rel}:{e.lineno}", f"the module-level iterator {name} = `{unp(e)[:60]}` is used up by "
                "the first calls")


def decorated(prog, allsc, live, st, add):
    for s in allsc:
        ds = [d for d in getattr(s.node, "decorator_list", []) if is_cachedec(d)]
        if not ds or not live(s):
            continue
        st["caches"] += 1
        nm = unp(ds[0].func if isinstance(ds[0], ast.Call) else ds[0]).split(".")[-1]
        if nm in ("lru_cache", "cache"):
            own = list(own_nodes(s))
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own) or any(
                    isinstance(x, ast.Return) and (isinstance(x.value, ast.GeneratorExp) or isinstance(x.value, ast.Call) and unp(x.value.func) in ITERS)
                    for x in own):
                add(f"cached-iterator:{s.qual()}", s.loc(s.node), f"{s.qual()} is cached by {nm} but returns an iterator, which the first caller uses up")
        if s.parent is None:
            fi = prog.modules[s.module.name].funcs.get(s.name)
            if fi is not None and draws(prog, None, fi):
                add(f"cached-draw:{s.qual()}", s.loc(s.node), f"{s.qual()} is cached but draws random numbers: equal calls return the first draw")
        else:
            stale(s, add)


def stale(s, add):
    """a cached inner function whose free variables change while its cache is in use"""
    free = {x.id for x in ast.walk(s.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and not s.local(x.id)}
    p = s.parent
    body = list(p.node.body)
    d = s.node.lineno
    for x in own_nodes(p):
        if not isinstance(x, (ast.Assign, ast.AugAssign)) or x.lineno <= d:
            continue
        for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
            b = t
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name) and b.id in free and p.local(b.id):
                used = [y for y in own_nodes(p) if isinstance(y, ast.Name) and y.id == s.name and isinstance(y.ctx, ast.Load)]
                loops = [lp for lp in own_nodes(p) if isinstance(lp, (ast.For, ast.While)) and any(z is x for z in ast.walk(lp))
                         and not any(z is s.node for z in ast.walk(lp))]
                if any(y.lineno > x.lineno for y in used) and any(y.lineno < x.lineno for y in used) or \
                        any(any(z is y for z in ast.walk(lp)) for lp in loops for y in used):
                    add(f"stale-cache:{s.qual()}:{b.id}", p.loc(x), f"{p.qual()} changes {b.id} while the cache of {s.name}, which reads it, is in use")


def keyed_ok(prog, bynode, cur, node, o, st, add):
    """is the store one of the keyed stores judged above, or the upkeep of such a cache"""
    s = bynode.get(id(cur.node)) if cur is not None else None
    if s is None:
        return False
    name = o[2:].rsplit(".", 1)[-1]
    keyed_here = False
    for x in own_nodes(s):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Subscript):
                    names = {unp(t.value)}
                    if reads_key(s, names, t.slice):
                        keyed_here = True
                        if any(z is t or z is x for z in (node,)) or any(z is node for z in ast.walk(x)):
                            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "setdefault" and len(x.args) == 2:
            if any(z is node for z in ast.walk(x)):
                return True
    if keyed_here and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in \
            ("pop", "popitem", "clear", "move_to_end"):
        return True
    if keyed_here and isinstance(node, ast.Delete):
        return True
    return False
