"""Random-number effects.  Every public function is followed through the resolved call graph (closures, decorators,
dask.delayed, functions passed as arguments); every call that draws random numbers, seeds, sets or creates a generator
is an effect.  Deterministic functions may have none; samplers may only draw from numpy's global generator, from
interpreted code and in the caller's process; only seed and the grouped-click functions may seed, with exactly the
caller's value and before drawing."""
import ast

from ..api import roots
from ..interp import BOT, D, Domain, Fn, Interp, K, Lst, TOP, Tup, U
from ..loader import AnalysisError
from ..npk import canon
from ..report import Finding
from ..units import src

FLOORS = {"public_functions": 107, "draw_sites": 10, "seed_sites": 1, "functions": 129, "samplers_that_draw": 10}
ASSUMPTIONS = ["table of numpy.random / scipy.stats drawing functions; calls of unknown external functions draw nothing",
               "functions compiled by numba use numba's own generator, which numpy's seed does not reach"]

# public functions documented as samplers / generators of random matrices
SAMPLERS = {
    "random": None, "samples": {"generate_hafnian_sample", "hafnian_sample_state", "hafnian_sample_graph",
                                "hafnian_sample_classical_state", "hafnian_sample_graph_rank_one",
                                "generate_torontonian_sample", "torontonian_sample_state", "torontonian_sample_graph",
                                "torontonian_sample_classical_state", "photon_number_sampler",
                                "get_heterodyne_fanout", "hafnian_sample_graph_rank_one", "hafnian_sample_graph"},
    "csamples": {"rescale_adjacency_matrix_thermal", "vibronic", "to_subgraphs", "generate_thermal_samples",
                 "evolve"},
    "distinguishable_squeezers": {"sample"},
}
SAMPLERS["csamples"] = {"generate_thermal_samples"}
APPROX = {"hafnian_approx"}
SEED = {"samples.seed"}
GROUPED = {"grouped_click_probabilities.grouped_click_probabilities",
           "grouped_click_probabilities.grouped_click_probabilities_squeezed"}
DRAWS = set("""beta binomial bytes chisquare choice dirichlet exponential f gamma geometric gumbel hypergeometric laplace
 logistic lognormal logseries multinomial multivariate_normal negative_binomial noncentral_chisquare noncentral_f normal
 pareto permutation poisson power rand randint randn random random_integers random_sample ranf rayleigh sample shuffle
 standard_cauchy standard_exponential standard_gamma standard_normal standard_t triangular uniform vonmises wald weibull
 zipf""".split())
SEEDS = {"seed", "set_state"}
NEUTRAL = {"get_state"}
SAME = {"py.int", "int32", "int64", "uint32", "uint64", "operator.index", "asarray", "array", "intp"}
PY_OK = {"random.getstate"}
MULTI = ("multiprocessing.", "concurrent.futures.ProcessPool", "joblib.", "pathos.")


def effect(name):
    """(kind, label) of an external call, or None"""
    if name.startswith("numpy.random."):
        r = name[len("numpy.random."):]
        if r.startswith("mtrand."):
            r = r[len("mtrand."):]
        if r in DRAWS:
            return "draw", r
        if r in SEEDS:
            return "seed", r
        if r in NEUTRAL:
            return None
        return "private", name
    if name.startswith("random.") or name.startswith("secrets.") or name in ("os.urandom", "uuid.uuid4", "uuid.uuid1"):
        return ("private", name) if name not in PY_OK else None
    if name.startswith("scipy.stats.") and name.endswith(".rvs"):
        return "draw", name
    if name in ("scipy.sparse.random", "scipy.sparse.rand", "scipy.linalg.interpolative.rand"):
        return "draw", name
    return None


class Dom(Domain):
    """The payload is the parameter whose unchanged value this is, or None."""
    max_depth = 20

    def __init__(self):
        self.events = []   # (kind, label, node, path, compiled, seed value)
        self.undecided = {}

    def branch(self, node, test, frame):
        if self.it.truth(test) is None:
            self.undecided[id(node)] = node

    def record(self, kind, label, node, val=None):
        comp = any(f.jit is not None and f.jit.get("nopython") for f in self.it.stack)
        here = self.it.stack[-1] if self.it.stack else None
        self.events.append((kind, label, node, here, self.it.call_path(), comp, val))

    def join(self, p, q):
        return p if p == q else None

    def iter_elem(self, p):
        return D(None)

    def binop(self, op, a, b, node):
        return D(None)

    unop = lambda self, op, a, node: D(None)
    compare = lambda self, op, a, b, node: D(None)
    attr = lambda self, v, name, node: D(None)
    getitem = lambda self, v, idx, node: D(None)

    def funcs(self, vals, node):
        """functions handed to something unknown are called there"""
        for v in vals:
            for x in v.alts if isinstance(v, U) else [v]:
                if isinstance(x, Fn):
                    n = len(x.info.node.args.args) - len(x.pre_args)
                    self.it.call_fn(x, list(x.pre_args) + [TOP] * max(n, 0), dict(x.pre_kw), node)
                elif type(x).__name__ == "Ext":
                    self.call_ext(x.name, [], {}, node)

    def method(self, v, name, args, kw, node):
        self.funcs(args, node)
        return D(None)

    def call_unknown(self, f, args, kw, node):
        self.funcs(args, node)
        if name_of(node) == "rvs":
            self.record("draw", "rvs", node)
            self.state(kw, node)
        return D(None)

    def state(self, kw, node):
        rs = kw.get("random_state")
        if rs is not None and not (isinstance(rs, K) and rs.v is None):
            self.record("private", "random_state=", node)

    def call_ext(self, name, args, kw, node):
        e = effect(name)
        if e is not None:
            self.record(e[0], e[1], node, args[0] if args else (list(kw.values())[0] if kw else K(None)))
        if name.startswith("scipy.stats."):
            self.state(kw, node)
            if name.endswith(".rvs"):
                return D(None)
        if name == "dask.compute":
            sch = kw.get("scheduler")
            if isinstance(sch, K) and sch.v in ("processes", "multiprocessing"):
                self.record("process", "scheduler=" + repr(sch.v), node)
        if name.startswith(MULTI):
            self.record("process", name, node)
        c = canon(name)
        if c in SAME and len(args) == 1 and isinstance(args[0], (K, D)):
            return args[0]
        self.funcs(list(args) + [v for v in kw.values() if v is not None], node)
        return D(None)


def name_of(node):
    f = getattr(node, "func", None)
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""


class It(Interp):
    def get_attr(self, obj, name, n):
        return super().get_attr(obj, name, n)


def run(prog, info, bound):
    dom = Dom()
    it = It(prog, dom)
    b = {}
    for p in info.params:
        b[p] = bound[p] if p in bound else D("p:" + p)
    it.invoke(info, b, info.node)
    return dom, it


def category(info):
    m = info.module.name.split(".")[-1]
    q = m + "." + info.name
    if q in SEED:
        return "seed"
    if q in GROUPED:
        return "grouped"
    if info.name in APPROX:
        return "approx"
    if m in SAMPLERS and (SAMPLERS[m] is None or info.name in SAMPLERS[m]):
        return "sampler"
    return "deterministic"


def check(prog):
    rs, missing = roots(prog)
    if len(missing) > 10:
        raise AnalysisError("public functions not found: " + ", ".join(missing))
    findings = {}
    draw, seeds, fns = set(), set(), set()
    stats = {"public_functions": 0, "samplers_that_draw": 0, "samplers": 0, "deterministic_functions": 0}

    def add(key, ev, msg):
        if key not in findings:
            where = ev[3].loc(ev[2]) if ev and ev[3] is not None else "?"
            findings[key] = Finding(key, where, msg, ev[4] if ev else [])

    for info, _ in rs:
        stats["public_functions"] += 1
        cat = category(info)
        runs = []
        if cat == "seed":
            p = info.params[0]
            runs = [{p: K(v)} for v in (0, 1, 7, 2 ** 32 - 1, None)] + [{}]
        elif cat == "grouped":
            runs = [{"seed": K(v)} for v in (0, 1, 7, 1990)] + [{}]
        elif "approx" in info.params:
            runs = [{"approx": K(False)}, {"approx": K(True)}]
        else:
            runs = [{}]
        for bound in runs:
            dom, it = run(prog, info, bound)
            fns |= it.analysed
            drew = False
            seeded = None
            approx = cat == "approx" or isinstance(bound.get("approx"), K) and bound["approx"].v is True
            for ev in dom.events:
                kind, label, node, here, path, comp, val = ev
                site = f"{here.full if here else '?'}:{label}"
                (draw if kind == "draw" else seeds if kind == "seed" else set()).add((here.full if here else "?", src(node)))
                if kind == "private":
                    add(f"private:{info.full}:{site}", ev,
                        f"{info.full} uses a generator other than numpy's global one: `{src(node)}`")
                    continue
                if kind == "process":
                    if cat in ("sampler", "grouped"):
                        add(f"process:{info.full}:{site}", ev,
                            f"{info.full} samples in other processes, whose generators the seed does not reach: `{src(node)}`")
                    continue
                if kind == "seed":
                    if cat in ("deterministic", "sampler", "approx"):
                        add(f"seeds:{info.full}:{site}", ev, f"{info.full} seeds the global generator: `{src(node)}`")
                    elif drew:
                        add(f"late-seed:{info.full}:{site}", ev,
                            f"{info.full} seeds after random numbers were drawn: `{src(node)}`")
                    else:
                        want = bound.get("seed") if cat == "grouped" else bound.get(info.params[0])
                        pname = "seed" if cat == "grouped" else info.params[0]
                        if label != "seed":
                            add(f"seed-value:{info.full}", ev, f"{info.full} sets a generator state: `{src(node)}`")
                        elif want is not None:
                            if isinstance(val, K) and val.v != want.v:
                                add(f"seed-value:{info.full}", ev,
                                    f"{info.full}({pname}={want.v!r}) seeds with {val.v!r}: `{src(node)}`")
                        elif not (isinstance(val, D) and val.p == "p:" + pname):
                            add(f"seed-value:{info.full}", ev,
                                f"{info.full} does not seed with the caller's {pname}: `{src(node)}`")
                    seeded = ev
                    continue
                # draws
                drew = True
                if cat == "deterministic" and not approx or cat == "seed":
                    add(f"draws:{info.full}:{site}", ev, f"{info.full} draws random numbers: `{src(node)}`")
                elif cat == "sampler" and comp:
                    add(f"compiled:{info.full}:{site}", ev, f"{info.full} draws in compiled code, from numba's own "
                        f"generator, which seed() does not reach: `{src(node)}`")
                elif cat == "grouped":
                    if seeded is None:
                        add(f"unseeded:{info.full}:{site}", ev,
                            f"{info.full} draws before seeding with its seed argument: `{src(node)}`")
                    elif seeded[5] != comp:
                        add(f"other-generator:{info.full}:{site}", ev, f"{info.full} seeds "
                            f"{'numba' if seeded[5] else 'numpy'}'s generator but draws from the other: `{src(node)}`")
            if cat in ("seed", "grouped") and seeded is not None:
                for n in dom.undecided.values():
                    if isinstance(n, ast.If) and _within(n.body, seeded[2]) != _within(n.orelse, seeded[2]) \
                            and not any(isinstance(x, ast.Raise) for y in n.body + n.orelse for x in ast.walk(y)) \
                            and sum(e[0] == "seed" for e in dom.events) < 2:
                        add(f"sometimes-seeds:{info.full}", seeded, f"{info.full} seeds only on some paths: `{src(n.test)}`")
            if cat in ("seed", "grouped") and seeded is None:
                add(f"no-seed:{info.full}", None, f"{info.full} does not seed the generator"
                    + "".join(f" for {k}={v.v!r}" for k, v in bound.items()))
                findings[f"no-seed:{info.full}"].where = info.loc()
        stats["samplers"] += cat == "sampler"
        stats["deterministic_functions"] += cat == "deterministic"
        stats["samplers_that_draw"] += cat == "sampler" and drew
    # module level code and generator objects created anywhere
    for m in prog.modules.values():
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                continue
            dom = Dom()
            it = It(prog, dom)
            info = _module_info(m, st)
            from ..interp import Frame
            fr = Frame(info)
            fr.env = {}
            it.stack.append(info)
            it.frames.append(fr)
            try:
                it.stmt(st, {}, fr)
            finally:
                it.stack.pop()
                it.frames.pop()
            for ev in dom.events:
                add(f"import:{m.name}:{ev[0]}:{ev[1]}", ev, f"importing {m.name} has the effect {ev[0]}: `{src(ev[2])}`")
    stats["draw_sites"] = len(draw)
    stats["seed_sites"] = len(seeds)
    stats["functions"] = len(fns)
    stats["draws"] = sorted(f"{a}: {b}" for a, b in draw)
    stats["seeds"] = sorted(f"{a}: {b}" for a, b in seeds)
    return list(findings.values()), stats


def _within(stmts, node):
    return any(x is node for y in stmts for x in ast.walk(y))


def _module_info(m, st):
    from ..loader import FuncInfo
    i = FuncInfo.__new__(FuncInfo)
    i.module, i.node, i.qualname = m, st, "<module>"
    i.parent, i.doc, i.params, i.jit, i.is_gen, i._locals = None, "", [], None, False, None
    return i
