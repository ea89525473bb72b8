"""The guarded arguments of the public functions (C06): valid arguments, and classes of invalid ones."""
import itertools

from . import facts
from .facts import (Arr, Base, C, INF, NONE, Num, P, Seq, Unk)
from .sizes import Poly

m = Poly.var("m")
EVEN = P(2) * m + P(10)
ODD = P(2) * m + P(11)
EV = [EVEN] + [P(k) for k in (2, 4, 6, 8)]
OD = [ODD] + [P(k) for k in (3, 5, 7)]
SZ = EV + OD
EV2 = [EVEN] + [P(k) for k in (4, 6, 8)]

BOOL = [C(False), C(True)]
SMALL = Num("f", None, 1e-12, 1e-3, term=("par", "tol"))


def tol(n):
    return Num("f", None, 1e-12, 1e-3, term=("par", n))


HBAR = Num("f", None, 0.1, 10.0, term=("par", "hbar"))


def integer(name, lo=0, hi=INF):
    return Num("i", None, lo, hi, term=("par", name))


def arr(dims, dt="f", fx=("fin",), base=None, t=False, **kw):
    return Arr([P(d) for d in dims], dt, set(fx), base, t=t, **kw)


_n = itertools.count()


def reset():
    """the same arguments get the same names in every walk"""
    global _n
    _n = itertools.count()
    facts.SYMP.clear()


def mat(n, kind="ok", t=False, states=(), k=None, nonneg=False):
    """a square (or n x k) matrix"""
    k = n if k is None else k
    nm = f"A{next(_n)}"
    dt, fx, sym, cplx = "f", {"fin"}, "sym", False
    if kind in ("okc", "asymc", "asymim", "herm", "nanim", "nanc"):
        dt, cplx = "c", True
    if kind == "cplx":
        dt, cplx = "c", True
    if kind in ("asym", "asymc"):
        sym = "asym"
    elif kind in ("asymim", "herm"):
        sym = kind
    elif kind in ("nan", "nanc"):
        fx = {"nan"}
    elif kind == "nanim":
        fx = {"nanim"}
    elif kind == "neg":
        fx = {"fin", "neg"}
    elif kind == "gen":
        sym = None
    if n is not k and n != k:
        sym = None
    if nonneg:
        fx = fx | {"nonneg"}
    return Arr((P(n), P(k)), dt, fx, Base(nm, sym, cplx, states), t=t)


def vec(n, t=False, dt="f", **kw):
    return Arr((P(n),), dt, {"fin"}, t=t, **kw)


def ints(n, t=False):
    """a list of n non-negative integers"""
    c = facts.pconst(P(n))
    if c is not None:
        return Seq([Num("i", None, 1, 9, t=t, term=("par", f"k{i}")) for i in range(c)], t=t)
    return Seq(None, Num("i", None, 0, INF, t=t), P(n), "list", t)


def reals(n, t=False):
    c = facts.pconst(P(n))
    if c is not None:
        return Seq([Num("f", None, 0, 1, t=t) for _ in range(c)], t=t)
    return Seq(None, Num("f", None, 0, 1, t=t), P(n), "list", t)


def like(param):
    """a vector that fits the matrix"""
    def f(args):
        a = args[param]
        return vec(a.dims[0] if isinstance(a, Arr) else P(2))
    return f


def nested(t=True):
    return Seq([Seq([C(0.3), C(0.5)]), Seq([C(0.5), C(0.7)])], t=t)


SHAPES = [(EVEN, EVEN + P(1)), (EVEN, EVEN * P(2)), (ODD, ODD + P(1)), (ODD, ODD * P(2)), (EVEN, EVEN + P(2))] + \
    [(P(a), P(b)) for a, b in ((1, 2), (2, 3), (2, 4), (3, 4), (3, 6), (4, 6), (4, 5), (6, 8), (8, 9))]
RECT = SHAPES + [(b, a) for a, b in SHAPES]


def rect(param, shapes=RECT, kind="gen"):
    for a, b in shapes:
        yield f"{a!r}x{b!r}", (lambda a=a, b=b: {param: mat(a, kind, True, k=b)})


def square(param, kind, sizes=SZ, **kw):
    for n in sizes:
        yield f"{n!r}", (lambda n=n: {param: mat(n, kind, True, **kw)})


def one(**kw):
    """one instance: values given as functions"""
    yield "", (lambda: {k: v() for k, v in kw.items()})


def both(*gens):
    for i, g in enumerate(gens):
        for lbl, mk in g:
            yield f"{i}:{lbl}" if len(gens) > 1 else lbl, mk


class Entry:
    def __init__(self, name, base, classes, opts=None, content=()):
        self.name, self.base, self.classes, self.opts, self.content = name, base, classes, opts or {}, set(content)


ENTRIES = []


def entry(name, base, classes, opts=None, content=()):
    ENTRIES.append(Entry(name, base, classes, opts, content))


CONTENT = ("asym", "asymc", "asymim", "herm", "nan", "nanim", "nanc", "neg")
TOLS = {"rtol": lambda: tol("rtol"), "atol": lambda: tol("atol")}


def symmetric(param, extra=None, lst=True):
    """a square symmetric array without NaNs"""
    d = {"rect": lambda: rect(param), "nan": lambda: square(param, "nan"), "nanim": lambda: square(param, "nanim"),
         "asym": lambda: square(param, "asym"), "asymc": lambda: square(param, "asymc"), "asymim": lambda: square(param, "asymim"),
         "herm": lambda: square(param, "herm")}
    if lst:
        d["list"] = lambda: one(**{param: nested})
    d.update(extra or {})
    return d


# -- _hafnian ------------------------------------------------------------------------------------------------------------
entry("_hafnian.input_validation", {"A": lambda: mat(EVEN), **TOLS}, symmetric("A"), content=CONTENT)
entry("_hafnian.hafnian", {"A": lambda: mat(EVEN), **TOLS, "num_samples": lambda: integer("num_samples", 1)}, symmetric("A"),
      {"loop": BOOL, "approx": BOOL, "method": [C("glynn"), C("recursive"), C("inclexcl")]}, CONTENT)
entry("_hafnian.hafnian", {"A": lambda: mat(EVEN), **TOLS, "approx": lambda: C(True)},
      {"approx:neg": lambda: square("A", "neg"), "approx:complex": lambda: square("A", "okc", nonneg=True)},
      {"loop": BOOL, "method": [C("glynn"), C("recursive"), C("inclexcl")]}, ("approx:neg", "approx:complex"))


def rpts(bad):
    for n in EV + OD:
        c = facts.pconst(n)
        for lbl, L in (("long", n + P(1)), ("short", n - P(1)), ("double", n * P(2)), ("empty", P(0))):
            yield f"{n!r}:{lbl}", (lambda n=n, L=L: {"A": mat(n), bad: ints(L, True) if bad == "rpt" else vec(L, True), **({"rpt": ints(n)} if bad != "rpt" else {})})
        del c


def badrpt(v):
    for n in (2, 3, 4):
        for pos in range(n):
            yield f"{n}@{pos}", (lambda n=n, pos=pos: {"A": mat(P(n)), "rpt": Seq([v() if i == pos else C(1) for i in range(n)], t=True)})
            yield f"{n}@{pos}/0", (lambda n=n, pos=pos: {"A": mat(P(n)), "rpt": Seq([v() if i == pos else C(0) for i in range(n)], t=True)})
            yield f"{n}@{pos}/a", (lambda n=n, pos=pos: {"A": mat(P(n)), "rpt": Arr((P(n),), "f", {"fin"}, t=True, items=[v() if i == pos else C(2) for i in range(n)])})


entry("_hafnian.hafnian_repeated", {"A": lambda: mat(EVEN), "rpt": lambda: ints(EVEN), **TOLS},
      {k: ((lambda g: lambda: ((l, (lambda mk=mk: {"rpt": ints(_first(mk())), **mk()})) for l, mk in g()))(g))
       for k, g in symmetric("A").items()},
      {"loop": BOOL, "glynn": BOOL, "mu": [NONE, like("A")]}, CONTENT)
entry("_hafnian.hafnian_repeated", {**TOLS},
      {"rpt-length": lambda: rpts("rpt"), "mu-length": lambda: rpts("mu"),
       "rpt-negative": lambda: both(badrpt(lambda: C(-1)), badrpt(lambda: C(-2))),
       "rpt-fraction": lambda: both(badrpt(lambda: C(0.5)), badrpt(lambda: C(1.5)))},
      {"loop": BOOL, "glynn": BOOL})


def _first(d):
    a = d["A"]
    return a.dims[0] if isinstance(a, Arr) else P(2)


entry("_hafnian.hafnian_banded", {"A": lambda: mat(EVEN), **TOLS}, symmetric("A"), {"loop": BOOL}, CONTENT)
entry("_hafnian.recursive_hafnian", {"A": lambda: mat(EVEN)}, {"rect": lambda: rect("A"), "odd": lambda: square("A", "ok", OD + [P(1)])})
entry("_hafnian.loop_hafnian", {"A": lambda: mat(EVEN), "D": lambda: vec(EVEN), "reps": lambda: Seq(None, C(2), EVEN)},
      {"D-length": lambda: ((f"{L!r}", (lambda L=L: {"D": vec(L, True)})) for L in (EVEN + P(1), EVEN - P(1), EVEN * P(2), P(1))),
       "reps-length": lambda: ((f"{L!r}", (lambda L=L: {"reps": Seq(None, C(2), L, "list", True)})) for L in (EVEN + P(1), EVEN - P(1), EVEN * P(2)))},
      {"glynn": BOOL})
entry("reference.hafnian", {"M": lambda: mat(EVEN)}, {"rect": lambda: rect("M")}, {"loop": BOOL})

# -- _hermite_multidimensional ---------------------------------------------------------------------------------------------
HM = {"cutoff": lambda: integer("cutoff", 2, 40), **TOLS}
HMO = {"renorm": BOOL, "make_tensor": BOOL}


def noy(g, *names):
    return g


entry("_hermite_multidimensional.hermite_multidimensional", {"R": lambda: mat(EVEN), **HM}, symmetric("R"),
      {**HMO, "modified": BOOL, "y": [NONE, like("R")]}, CONTENT)
entry("_hermite_multidimensional.hermite_multidimensional", {**HM},
      {"y-length": lambda: ((f"{n!r}:{L!r}", (lambda n=n, L=L: {"R": mat(n), "y": vec(L, True)}))
                            for n in (EVEN, ODD, P(2), P(3), P(4)) for L in (n + P(1), n - P(1), n * P(2)))},
      {**HMO, "modified": BOOL})
entry("_hermite_multidimensional.interferometer", {"R": lambda: mat(EVEN), **HM}, symmetric("R"), HMO, CONTENT)
entry("_hermite_multidimensional.hafnian_batched", {"A": lambda: mat(EVEN), **HM}, symmetric("A"), {**HMO, "mu": [NONE, like("A")]}, CONTENT)
entry("_hermite_multidimensional.hafnian_batched", {**HM},
      {"mu-length": lambda: ((f"{n!r}:{L!r}", (lambda n=n, L=L: {"A": mat(n), "mu": vec(L, True)}))
                             for n in (EVEN, ODD, P(2), P(3), P(4)) for L in (n + P(1), n - P(1), n * P(2)))}, HMO)
entry("_hermite_multidimensional.grad_hermite_multidimensional",
      {"G": lambda: Arr(None, "c"), "R": lambda: mat(EVEN), "y": lambda: vec(EVEN)},
      {"y-length": lambda: ((f"{L!r}", (lambda L=L: {"y": vec(L, True)})) for L in (EVEN + P(1), EVEN - P(1), EVEN * P(2), P(1)))},
      {"renorm": BOOL, "dtype": [NONE, facts.Lib("numpy.complex128")]})

# -- _permanent ----------------------------------------------------------------------------------------------------------
entry("_permanent.perm", {"A": lambda: mat(EVEN, "gen")},
      {"rect": lambda: rect("A"), "nan": lambda: square("A", "nan", SZ + [P(1)]), "nanim": lambda: square("A", "nanim", SZ + [P(1)]), "list": lambda: one(A=nested)},
      {"method": [C("bbfg"), C("ryser")]}, ("nan", "nanim"))


def photons():
    for n in (1, 2, 3, 4):
        base = [1] * n
        for i in range(n):
            for d in (1, 2, -1):
                b = list(base)
                b[i] += d
                yield f"{n}@{i}{d:+d}", (lambda n=n, b=b: {"n": Seq([C(1)] * n, t=True), "m": Seq([C(x) for x in b], t=True), "U": mat(P(n), "gen")})
                yield f"{n}@{i}{d:+d}r", (lambda n=n, b=b: {"m": Seq([C(1)] * n, t=True), "n": Seq([C(x) for x in b], t=True), "U": mat(P(n), "gen")})
        yield f"{n}vac", (lambda n=n: {"n": Seq([C(0)] * n, t=True), "m": Seq([C(1)] + [C(0)] * (n - 1), t=True), "U": mat(P(n), "gen")})
        yield f"{n}vacr", (lambda n=n: {"m": Seq([C(0)] * n, t=True), "n": Seq([C(1)] + [C(0)] * (n - 1), t=True), "U": mat(P(n), "gen")})


entry("_permanent.fock_prob", {}, {"photon-number": photons})


def fthr(kind):
    for M, D in ((EVEN, EVEN), (EVEN, EVEN - P(1)), (P(3), P(3)), (P(3), P(2)), (P(4), P(2))):
        if kind == "tall":
            yield f"{M!r},{D!r}", (lambda M=M, D=D: {"T": mat(M + P(1), "gen", True, k=M), "n": ints(M), "d": ints(M + P(1))})
            continue
        for L in (P(1), P(-1), P(2)):
            if kind == "n":
                yield f"{M!r},{D!r}:{L!r}", (lambda M=M, D=D, L=L: {"T": mat(D, "gen", k=M), "n": ints(M + L, True), "d": ints(D)})
            else:
                yield f"{M!r},{D!r}:{L!r}", (lambda M=M, D=D, L=L: {"T": mat(D, "gen", k=M), "n": ints(M), "d": ints(D + L, True)})


entry("_permanent.fock_threshold_prob", {}, {"n-length": lambda: fthr("n"), "d-length": lambda: fthr("d"), "tall": lambda: fthr("tall")})

# -- _torontonian / _montrealer -------------------------------------------------------------------------------------------
for nm, A, g, o in (("_torontonian.tor_input_checks", "A", None, {}), ("_torontonian.tor", "A", None, {"recursive": BOOL}),
                    ("_montrealer.mtl", "A", None, {})):
    entry(nm, {A: lambda: mat(EVEN)}, {"list": lambda: one(A=nested), "rect": lambda: rect("A"), "odd": lambda: square("A", "ok", OD + [P(1)])}, o)


def gammas(name):
    for n in EV:
        for L in (n + P(1), n - P(1), n * P(2), facts.pdiv(n, 2)):
            yield f"{n!r}:{L!r}", (lambda n=n, L=L: {"A": mat(n), name: vec(L, True)})


for nm, g, o in (("_torontonian.tor_input_checks", "loops", {}), ("_torontonian.ltor", "gamma", {"recursive": BOOL}), ("_montrealer.lmtl", "zeta", {})):
    def _ltor(nm=nm, g=g, o=o):
        def w(it):
            return lambda: ((l, (lambda mk=mk: {g: vec(_first(mk())), **mk()})) for l, mk in it())
        entry(nm, {"A": lambda: mat(EVEN), g: lambda: vec(EVEN)},
              {"list": w(lambda: one(A=nested)), "rect": w(lambda: rect("A")), "odd": w(lambda: square("A", "ok", OD + [P(1)])),
               g + "-length": lambda: gammas(g),
               g + "-list": lambda: ((f"{n}", (lambda n=n: {"A": mat(P(n)), g: Seq([C(0.1)] * n, t=True)})) for n in (2, 4, 6))}, o)
    _ltor()

# -- decompositions ----------------------------------------------------------------------------------------------------------


def nonsymp(param, viols=(("ac",), ("bd",), ("ad",), ("ac", "bd", "ad")), kind="gen"):
    for viol in viols:
        for n in EV:
            def mk(viol=viol, n=n):
                a = mat(n, kind, True, states=("nonsymp",))
                facts.SYMP[a.base.name] = set(viol)
                return {param: a}
            yield f"{'/'.join(viol)}:{n!r}", mk


entry("decompositions.williamson", {"V": lambda: mat(EVEN, states=("posdef",)), **TOLS},
      {"rect": lambda: rect("V"), "asym": lambda: square("V", "asym", EV), "odd": lambda: square("V", "ok", OD + [P(1)], states=("posdef",)),
       "indefinite": lambda: square("V", "ok", EV, states=("indef",)), "nan": lambda: square("V", "nan", EV)}, content=("asym", "nan", "indefinite"))
for nm in ("blochmessiah", "pre_iwasawa", "iwasawa"):
    entry("decompositions." + nm, {"S": lambda: mat(EVEN, "gen")},
          {"rect": lambda: rect("S"), "odd": lambda: square("S", "gen", OD + [P(1)], states=("nonsymp",)), "nonsymplectic": lambda: nonsymp("S")}, content=("nonsymplectic",))
entry("decompositions.takagi", {"A": lambda: mat(EVEN)}, {"rect": lambda: rect("A")}, {"svd_order": BOOL})
for nm in ("symplectic.is_symplectic", "quantum.gaussian_checks.is_symplectic"):
    entry(nm, {"S": lambda: mat(EVEN, "gen"), **TOLS},
          {"rect": lambda: rect("S"), "odd": lambda: square("S", "gen", OD + [P(1)], states=("nonsymp",)), "nonsymplectic": lambda: nonsymp("S"),
           "nan": lambda: nonsymp("S", (("ad",),), "nan")}, content=("nonsymplectic", "nan"))

# -- states --------------------------------------------------------------------------------------------------------------------


def cov(n, t=False, states=("valid", "pure", "classical"), kind="ok"):
    return mat(n, kind, t, states)


def badcov(param, what, extra=lambda n: {}):
    """classes of invalid covariance matrices"""
    d = {
        "rect": lambda: ((l, (lambda mk=mk: {**extra(mk()[param].dims[0]), **mk()})) for l, mk in rect(param)),
        "odd": lambda: ((f"{n!r}", (lambda n=n: {**extra(n), param: mat(n, "ok", True)})) for n in OD + [P(1)]),
        "asym": lambda: ((f"{n!r}", (lambda n=n: {**extra(n), param: mat(n, "asym", True)})) for n in EV),
        "nan": lambda: ((f"{n!r}", (lambda n=n: {**extra(n), param: mat(n, "nan", True)})) for n in EV),
        "unphysical": lambda: ((f"{n!r}", (lambda n=n: {**extra(n), param: cov(n, True, ("unphysical", "posdef"))})) for n in EV),
        "impure": lambda: ((f"{n!r}", (lambda n=n: {**extra(n), param: cov(n, True, ("valid", "impure"))})) for n in EV),
        "nonclassical": lambda: ((f"{n!r}", (lambda n=n: {**extra(n), param: cov(n, True, ("valid", "nonclassical"))})) for n in EV),
    }
    return {k: d[k] for k in what}


VALID = ("rect", "odd", "asym", "nan", "unphysical")
SC = ("asym", "nan", "unphysical", "impure", "nonclassical")
H = {"hbar": lambda: HBAR}
entry("quantum.gaussian_checks.is_valid_cov", {"cov": lambda: cov(EVEN), **H, **TOLS}, badcov("cov", VALID), content=SC)
entry("quantum.gaussian_checks.is_pure_cov", {"cov": lambda: cov(EVEN), **H, **TOLS}, badcov("cov", VALID + ("impure",)), content=SC)
entry("quantum.gaussian_checks.is_classical_cov", {"cov": lambda: cov(EVEN), **H, "atol": lambda: tol("atol")}, badcov("cov", VALID + ("nonclassical",)), content=SC)


def fid(which):
    for n in EV2:
        for L in (n + P(2), n - P(2), n * P(2)):
            if which.startswith("mu"):
                yield f"{n!r}:{L!r}", (lambda n=n, L=L: {**fidb(n), which: vec(L, True)})
            else:
                yield f"{n!r}:{L!r}", (lambda n=n, L=L: {**fidb(n), which: mat(L, "ok", True, ("valid",))})
                yield f"{n!r}:w{L!r}", (lambda n=n, L=L: {**fidb(n), which: mat(n, "gen", True, ("valid",), L)})
                yield f"{n!r}:t{L!r}", (lambda n=n, L=L: {**fidb(n), which: mat(L, "gen", True, ("valid",), n)})
        if which == "mu2":
            yield f"{n!r}:12", (lambda n=n: {"mu1": vec(n, True), "cov1": mat(n, "ok", True, ("valid",)), "mu2": vec(n + P(2), True), "cov2": mat(n + P(2), "ok", True, ("valid",))})


def fidb(n):
    return {"mu1": vec(n), "mu2": vec(n), "cov1": cov(n), "cov2": cov(n)}


entry("quantum.gaussian_checks.fidelity", {**H, **TOLS}, {w: (lambda w=w: fid(w)) for w in ("mu1", "mu2", "cov1", "cov2")})

entry("quantum.entanglement.vonneumann_entropy", {"cov": lambda: cov(EVEN), **H}, badcov("cov", VALID), content=SC)
for nm, w in (("entanglement_entropy", VALID), ("log_negativity", VALID)):
    if nm == "entanglement_entropy":
        w = VALID + ("impure",)
    entry("quantum.entanglement." + nm, {"cov": lambda: cov(EVEN), **H}, badcov("cov", w),
          {("modes_A", "split"): [(C(0), NONE), (Seq([C(0)]), NONE), (NONE, C(1))]}, SC)


def parts(full):
    """partitions that are not partitions of M modes"""
    for M in (1, 2, 3, 4):
        b = (lambda M=M: {"M": C(M)}) if full is None else (lambda M=M: {"cov": cov(P(2 * M)), **{"hbar": HBAR}})
        for x in (-1, M, M + 1, -M, -M - 1, 2 * M):
            yield "range", f"{M}:{x}", (lambda b=b, x=x: {**b(), "modes_A": C(x), "split": NONE})
            for k in range(1, 3):
                for pos in range(k):
                    yield "range", f"{M}:{x}@{pos}/{k}", (lambda b=b, x=x, k=k, pos=pos: {**b(), "modes_A": Seq([C(x) if i == pos else C(0) for i in range(k)], t=True), "split": NONE})
                    yield "range", f"{M}:{x}@{pos}/{k}t", (lambda b=b, x=x, k=k, pos=pos: {**b(), "modes_A": Seq([C(x) if i == pos else C(0) for i in range(k)], kind="tuple", t=True), "split": C(1)})
        for v, nm in ((0.0, "0.0"), ("0", "str"), (1.5, "1.5")):
            for k in (1, 2):
                for pos in range(k):
                    yield "type", f"{M}:{nm}@{pos}/{k}", (lambda b=b, v=v, k=k, pos=pos: {**b(), "modes_A": Seq([C(v) if i == pos else C(0) for i in range(k)], t=True), "split": NONE})
        for v, nm in ((1.0, "1.0"), ("0", "str")):
            yield "type", f"{M}:{nm}", (lambda b=b, v=v: {**b(), "modes_A": C(v), "split": NONE})
        yield "type", f"{M}:set", (lambda b=b: {**b(), "modes_A": Seq([C(0)], kind="set", t=True), "split": NONE})
        for x in (M, M + 1, 2 * M):
            yield "split", f"{M}:{x}", (lambda b=b, x=x: {**b(), "modes_A": NONE, "split": C(x)})
        for x in (1.0, 0.5, "1"):
            yield "split", f"{M}:{x!r}", (lambda b=b, x=x: {**b(), "modes_A": NONE, "split": C(x)})
        yield "none", f"{M}", (lambda b=b: {**b(), "modes_A": NONE, "split": NONE})


for nm in ("get_partition", "entanglement_entropy", "log_negativity"):
    entry("quantum.entanglement." + nm, {},
          {c: (lambda nm=nm, c=c: ((l, mk) for k, l, mk in parts(None if nm == "get_partition" else True) if k == c)) for c in ("range", "type", "split", "none")})

entry("quantum.photon_number_distributions.pure_state_distribution",
      {"cov": lambda: cov(EVEN), **H, "cutoff": lambda: integer("cutoff", 1), "padding_factor": lambda: integer("padding_factor", 1)},
      badcov("cov", ("impure", "unphysical")), content=SC)
FT = {"include_prefactor": BOOL}
entry("quantum.fock_tensors.pure_state_amplitude",
      {"mu": lambda: vec(EVEN), "cov": lambda: cov(EVEN), "i": lambda: ints(P(1) * m + P(5)), "tol": lambda: SMALL, **H},
      badcov("cov", ("impure", "unphysical", "asym", "nan"), lambda n: {"mu": vec(n), "i": ints(facts.pdiv(n, 2))}), {**FT, "check_purity": [C(True)]}, SC)
entry("quantum.fock_tensors.state_vector",
      {"mu": lambda: vec(EVEN), "cov": lambda: cov(EVEN), "cutoff": lambda: integer("cutoff", 2, 40), **H},
      badcov("cov", ("impure", "unphysical", "asym", "nan"), lambda n: {"mu": vec(n)}),
      {"normalize": BOOL, "check_purity": [C(True)], "post_select": [NONE, facts.Dct({0: C(1)})]}, SC)
entry("quantum.fock_tensors.fock_tensor",
      {"S": lambda: mat(EVEN, "gen"), "alpha": lambda: vec(m + P(5)), "cutoff": lambda: integer("cutoff", 2, 40), **TOLS},
      {"nonsymplectic": lambda: ((l, (lambda mk=mk: {"alpha": vec(facts.pdiv(mk()["S"].dims[0], 2)), **mk()})) for l, mk in nonsymp("S")),
       "rect": lambda: ((l, (lambda mk=mk: {"alpha": vec(m + P(5)), **mk()})) for l, mk in rect("S")),
       "odd": lambda: ((l, (lambda mk=mk: {"alpha": vec(m + P(5)), **mk()})) for l, mk in square("S", "gen", OD, states=("nonsymp",)))},
      {"check_symplectic": [C(True)], "sf_order": BOOL}, ("nonsymplectic",))
entry("quantum.fock_tensors.fock_tensor",
      {"S": lambda: mat(EVEN, "gen", states=("symp",)), "cutoff": lambda: integer("cutoff", 2, 40), **TOLS},
      {"alpha-length": lambda: ((f"{n!r}:{k}", (lambda n=n, k=k: {"S": mat(n, "gen", states=("symp",)), "alpha": vec(facts.pdiv(n, 2) * P(k[0]) + P(k[1]), True)}))
                                for n in EV for k in ((1, 1), (1, -1), (2, 0), (1, 2)))},
      {"check_symplectic": BOOL, "sf_order": BOOL})


def etas():
    for lbl, lo, hi in (("-far", -INF, -1.5), ("-1", -1, -1), ("-near", -0.3, -0.01), ("+near", 1.01, 1.3), ("2", 2, 2), ("+far", 2.5, INF)):
        yield lbl, (lambda lo=lo, hi=hi: {"eta": Num("f", None, lo, hi, t=True, term=("par", "eta"))})


entry("quantum.fock_tensors.loss_mat", {"cutoff": lambda: integer("cutoff", 1)}, {"eta": etas})


def probs(k):
    return Arr((Poly.var("c") + P(3),) * k, "f", {"fin", "nonneg"})


def lens(name, elem):
    for k in (1, 2, 3, 4):
        for L in (k + 1, k - 1, 2 * k, k + 2):
            if L > 0 and L != k:
                yield f"{k}:{L}", (lambda k=k, L=L: {"probs": probs(k), name: Seq([elem() for _ in range(L)], t=True)})


entry("quantum.fock_tensors.update_probabilities_with_loss", {}, {
    "length": lambda: lens("etas", lambda: Num("f", None, 0.2, 0.9)),
    "eta": lambda: ((f"{k}@{pos}{l}", (lambda k=k, pos=pos, mk=mk: {"probs": probs(k), "etas": Seq([mk()["eta"] if i == pos else Num("f", None, 0.2, 0.9) for i in range(k)], t=True)}))
                    for k in (1, 2, 3) for pos in range(k) for l, mk in etas())})
entry("quantum.fock_tensors.update_probabilities_with_noise", {}, {"length": lambda: lens("probs_noise", lambda: vec(Poly.var("c") + P(3)))})
entry("quantum.fock_tensors.tvd_cutoff_bounds",
      {"mu": lambda: vec(EVEN), "cov": lambda: cov(EVEN), "cutoff": lambda: integer("cutoff", 1), **H, **TOLS},
      badcov("cov", VALID, lambda n: {"mu": vec(n)}), {"check_is_valid_cov": [C(True)]}, SC)


def nbm(kind):
    for M in (P(1) * m + P(6), P(1), P(2), P(3), P(4)):
        n2 = M * P(2)
        if kind == "shape":
            for L in (n2 + P(2), n2 - P(2), n2 * P(2), n2 + P(1)):
                yield f"{M!r}:mean{L!r}", (lambda n2=n2, L=L: {"mean": vec(L, True), "cov": mat(n2, "ok", True), "n": C(1)})
                yield f"{M!r}:wide{L!r}", (lambda n2=n2, L=L: {"mean": vec(n2), "cov": mat(n2, "gen", True, k=L), "n": C(1)})
                yield f"{M!r}:tall{L!r}", (lambda n2=n2, L=L: {"mean": vec(n2), "cov": mat(L, "gen", True, k=n2), "n": C(1)})
        elif kind == "odd":
            yield f"{M!r}", (lambda n2=n2: {"mean": vec(n2 + P(1), True), "cov": mat(n2 + P(1), "ok", True), "n": C(1)})
        else:
            for d in (1, 2, 5):
                yield f"{M!r}:{d}", (lambda n2=n2, M=M, d=d: {"mean": vec(n2), "cov": cov(n2), "n": Num("i", M + P(d), t=True)})


entry("quantum.fock_tensors.n_body_marginals", {"cutoff": lambda: integer("cutoff", 1), **H}, {k: (lambda k=k: nbm(k)) for k in ("shape", "odd", "order")})


def reduced(extra=()):
    for M in (P(1) * m + P(6), P(1), P(2), P(3)):
        for d in (1, 2, 7):
            v = lambda M=M, d=d: Num("i", M + P(d), t=True)
            b = lambda M=M: {"mu": vec(M * P(2)), "cov": cov(M * P(2))}
            yield f"{M!r}+{d}", (lambda b=b, v=v: {**b(), "modes": v() if facts.pconst(v().p) is None else C(facts.pconst(v().p))})
            for k in (1, 2, 3):
                for pos in range(k):
                    yield f"{M!r}+{d}@{pos}/{k}", (lambda b=b, v=v, k=k, pos=pos: {**b(), "modes": Seq([v() if i == pos else C(0) for i in range(k)], t=True)})


entry("symplectic.reduced_state", {}, {"modes": reduced})
entry("quantum.conversions.reduced_gaussian", {}, {"modes": reduced})


def clicks():
    for n in (m + P(5), P(1), P(3)):
        for lbl, lo, hi in (("-far", -INF, -2), ("-near", -0.3, -0.01), ("-1", -1, -1)):
            yield f"{n!r}{lbl}", (lambda n=n, lo=lo, hi=hi: {"A": mat(n), "c_mean": Num("f", None, lo, hi, t=True, term=("par", "c_mean"))})
        for d in (1, 2, 5):
            yield f"{n!r}+{d}", (lambda n=n, d=d: {"A": mat(n), "c_mean": Num("i", n + P(d), t=True)})


entry("quantum.adjacency_matrices.adj_scaling_torontonian", {}, {"c_mean": clicks})
entry("quantum.adjacency_matrices.adj_to_qmat", {"A": lambda: mat(EVEN), "n_mean": lambda: Num("f", None, 0.1, 5)}, {"rect": lambda: rect("A")})

# -- samplers --------------------------------------------------------------------------------------------------------------------
SAMP = {"samples": lambda: C(2), **H, "max_photons": lambda: integer("max_photons", 1), "cutoff": lambda: integer("cutoff", 1)}
COVC = {"list": lambda: one(cov=nested), "rect": lambda: rect("cov"), "nan": lambda: square("cov", "nan", EV)}
entry("samples.hafnian_sample_state", {"cov": lambda: cov(EVEN), **SAMP}, COVC, {"parallel": BOOL, "mean": [NONE, like("cov")]}, ("nan",))
entry("samples.torontonian_sample_state", {"cov": lambda: cov(EVEN), **SAMP, "fanout": lambda: integer("fanout", 1)}, COVC, {"parallel": BOOL, "mu": [NONE, like("cov")]}, ("nan",))
CLS = ("rect", "odd", "asym", "nan", "unphysical", "nonclassical")
for nm in ("hafnian_sample_classical_state", "torontonian_sample_classical_state"):
    entry("samples." + nm, {"cov": lambda: cov(EVEN), "samples": lambda: integer("samples", 1), **H, "atol": lambda: tol("atol")},
          badcov("cov", CLS), {"mean": [NONE, like("cov")]}, SC)
    entry("samples." + nm, {"samples": lambda: integer("samples", 1), **H, "atol": lambda: tol("atol")},
          {"mean-shape": lambda: [(f"{n!r}:{L!r}", (lambda n=n, L=L: {"cov": cov(n), "mean": vec(L, True)})) for n in EV for L in (n + P(1), n - P(1), n * P(2), facts.pdiv(n, 2))]
           + [(f"{n!r}:2d{i}", (lambda n=n, i=i: {"cov": cov(n), "mean": Arr((n, P(1)) if i else (P(1), n), "f", {"fin"}, t=True)})) for n in EV for i in (0, 1)]})

# -- symplectic -------------------------------------------------------------------------------------------------------------------
entry("symplectic.expand_passive", {"N": lambda: Num("i", P(3) * m + P(20)), "modes": lambda: ints(EVEN)},
      {"rect": lambda: ((l, (lambda mk=mk: {"modes": ints(mk()["T"].dims[0]), **mk()})) for l, mk in rect("T")),
       "modes-length": lambda: ((f"{n!r}:{L!r}", (lambda n=n, L=L: {"T": mat(n, "gen"), "modes": ints(L, True)}))
                                for n in (m + P(5), P(1), P(2), P(3)) for L in (n + P(1), n - P(1), n * P(2) + P(1)))})
for nm in ("xxpp_to_xpxp", "xpxp_to_xxpp"):
    entry("symplectic." + nm, {}, {"rect": lambda: rect("S"), "odd": lambda: both(square("S", "gen", OD + [P(1)]), (((f"v{n!r}"), (lambda n=n: {"S": vec(n, True)})) for n in OD + [P(1)]))})

# -- csamples -------------------------------------------------------------------------------------------------------------------
for nm, ex in (("rescale_adjacency_matrix_thermal", {}), ("rescale_adjacency_matrix", {"scale": lambda: Num("f", None, 0.1, 10)})):
    b = {"A": lambda: mat(EVEN, states=("posdef",)), "n_mean": lambda: Num("f", None, 0.1, 5), **ex, **TOLS}
    entry("csamples." + nm, b, {"asym": lambda: square("A", "asym", SZ, states=("posdef",)), "nan": lambda: square("A", "nan", SZ), "rect": lambda: rect("A")},
          {"check_positivity": BOOL, "check_symmetry": [C(True)]}, ("asym", "nan"))
    entry("csamples." + nm, b, {"negative": lambda: square("A", "ok", SZ, states=("indef",))}, {"check_positivity": [C(True)], "check_symmetry": BOOL}, ("negative",))

entry("random.random_banded_interferometer", {},
      {"bandwidth": lambda: [(f"{N}:{w}", (lambda N=N, w=w: {"N": C(N), "w": C(w)})) for N in (1, 2, 3, 4) for w in (N, N + 1, N + 3)]
       + [("gen", (lambda: {"N": Num("i", m + P(2), t=True), "w": Num("i", m + P(2), t=True)})), ("gen+", (lambda: {"N": Num("i", m + P(2), t=True), "w": Num("i", m + P(5), t=True)}))]},
      {"top_one_init": BOOL, "real": BOOL})


def lhb(gamma):
    for n in (EVEN, ODD, P(2), P(3), P(4)):
        D = (lambda L, t=False: vec(L, t)) if not gamma else (lambda L, t=False: Arr((Poly.var("g") + P(1), P(L)), "c", {"fin"}, t=t))
        b = lambda n=n: {"A": mat(n, "ok"), "D": D(n), "fixed_reps": ints(n - P(1))}
        for L in (n + P(1), n - P(1), n * P(2)):
            yield "A", f"{n!r}:{L!r}", (lambda b=b, n=n, L=L: {**b(), "A": mat(n, "gen", True, k=L)})
            yield "D", f"{n!r}:{L!r}", (lambda b=b, L=L: {**b(), "D": D(L, True)})
        for L in (n, n - P(2), n * P(2)):
            yield "reps", f"{n!r}:{L!r}", (lambda b=b, L=L: {**b(), "fixed_reps": ints(L, True)})


for nm, g in (("loop_hafnian_batch.loop_hafnian_batch", False), ("loop_hafnian_batch_gamma.loop_hafnian_batch_gamma", True)):
    entry(nm, {"N_cutoff": lambda: integer("N_cutoff", 1)},
          {c: (lambda g=g, c=c: ((l, mk) for k, l, mk in lhb(g) if k == c)) for c in ("A", "D", "reps")}, {"glynn": BOOL})


def combos(opts):
    """option combinations; a value None leaves the option at its default"""
    if not opts:
        yield {}, ""
        return
    keys = list(opts)
    for vs in itertools.product(*[range(len(opts[k])) for k in keys]):
        d = {}
        lbl = []
        for k, i in zip(keys, vs):
            v = opts[k][i]
            if isinstance(k, tuple):
                for p, x in zip(k, v):
                    d[p] = x
            elif v is not None:
                d[k] = v
            lbl.append(str(i))
        yield d, "".join(lbl)
