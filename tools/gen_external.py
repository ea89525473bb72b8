"""Development aid (never run by a check): writes sa/external.json, the names and signatures of the installed third-party
modules the package may use.  Run with /opt/venv/bin/python."""
import importlib
import inspect
import json
import os

MODS = """builtins math cmath itertools functools operator collections collections.abc copy warnings random time os os.path sys string typing
fractions decimal concurrent.futures multiprocessing threading contextlib dataclasses enum numbers numpy numpy.linalg numpy.random
numpy.fft numpy.lib numpy.ma numpy.polynomial numpy.testing scipy scipy.linalg scipy.special scipy.optimize scipy.sparse scipy.sparse.linalg
scipy.stats scipy.integrate scipy.interpolate scipy.constants scipy.linalg.blas scipy.linalg.lapack sympy sympy.utilities sympy.utilities.iterables dask dask.array dask.bag
numba numba.typed numba.types numba.core joblib networkx""".split()
out = {"names": {}, "sig": {}}
for m in MODS:
    try:
        mod = importlib.import_module(m)
    except Exception as e:
        print("skip", m, e)
        continue
    out["names"][m] = sorted(set(dir(mod)))
    if m in ("numba.core", "numba.types", "sympy.utilities"):
        continue
    for n in dir(mod):
        if n.startswith("_"):
            continue
        o = getattr(mod, n)
        if not callable(o):
            continue
        if inspect.isclass(o) and m != "builtins" and not (m.startswith("scipy") or m.startswith("numpy")):
            continue
        if m == "sympy" and inspect.isclass(o):
            continue
        try:
            s = inspect.signature(o)
        except Exception:
            continue
        P = inspect.Parameter
        pos = [p.name for p in s.parameters.values() if p.kind in (P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD)]
        ponly = sum(1 for p in s.parameters.values() if p.kind == P.POSITIONAL_ONLY)
        req = [p.name for p in s.parameters.values() if p.default is P.empty and p.kind in (P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD, P.KEYWORD_ONLY)]
        kwo = [p.name for p in s.parameters.values() if p.kind == P.KEYWORD_ONLY]
        va = any(p.kind == P.VAR_POSITIONAL for p in s.parameters.values())
        vk = any(p.kind == P.VAR_KEYWORD for p in s.parameters.values())
        out["sig"][f"{m}.{n}"] = [pos, ponly, req, kwo, int(va), int(vk)]
import numpy as np, scipy.sparse as sp, dask, sympy, fractions, collections, itertools, threading
import scipy.optimize, scipy.stats
attrs = set()
for o in (np.ndarray, np.matrix, np.generic, np.float64, np.complex128, np.int64, np.dtype, np.random.Generator, np.random.RandomState, np.ufunc, np.iinfo, np.finfo,
          np.poly1d, np.errstate, list, dict, set, frozenset, tuple, str, bytes, int, float, complex, bool, range, slice, type(iter([])), (x for x in ()), type(lambda: 0),
          Exception, sp.csr_matrix, sp.csr_array, sp.lil_matrix, sp.coo_matrix, sp.dok_matrix, fractions.Fraction, collections.Counter,
          collections.OrderedDict, collections.defaultdict, collections.deque, itertools.count, itertools.chain, itertools.permutations,
          dask.delayed(len), sympy.Symbol("x"), sympy.Integer(1), sympy.Poly(sympy.Symbol("x")), sympy.Matrix([[1]]), threading.Lock(), threading.Thread(),
          open("/dev/null"), np.nditer([1]), np.ndindex(1), scipy.optimize.OptimizeResult(x=1), np.linalg.eigh(np.eye(1)), np.linalg.svd(np.eye(1)),
          np.linalg.qr(np.eye(1)), np.linalg.slogdet(np.eye(1)), scipy.stats.norm(), inspect.Signature, type, object, np.flatiter, np.broadcast(1, 2), np.unique_all(np.eye(1))):
    attrs |= set(dir(o))
import numba
@numba.njit
def f(x):
    return x
attrs |= set(dir(f))
import functools
@functools.lru_cache
def g(x):
    return x
attrs |= set(dir(g)) | set(dir(functools.partial(g)))
for m in MODS + ["multiprocessing.pool", "concurrent.futures", "queue", "types", "array", "io", "pathlib", "logging", "json"]:
    try:
        mod = importlib.import_module(m)
    except Exception:
        continue
    for n in dir(mod):
        o = getattr(mod, n, None)
        if inspect.isclass(o):
            attrs |= {a for a in dir(o) if not a.startswith("_")}
attrs |= {"x", "fun", "success", "message", "root", "iterations", "converged", "function_calls", "flag"}
out["attrs"] = sorted(attrs)
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa", "external.json")
json.dump(out, open(p, "w"), separators=(",", ":"), sort_keys=True)
print(len(out["sig"]), len(out["attrs"]), os.path.getsize(p))
