"""What the analyses know about numpy, scipy, math and the builtins.

``canon(name)`` maps a dotted external name to a short canonical name, and
``CAT`` maps that to a category of operations the domains implement.
"""

_PREFIX = [
    ("numpy.linalg.", "linalg."), ("scipy.linalg.", "linalg."), ("numpy.random.", "random."),
    ("scipy.special.", "special."), ("numpy.fft.", "fft."), ("scipy.fft.", "fft."),
    ("scipy.optimize.", "optimize."), ("scipy.stats.", "stats."), ("numpy.", ""), ("math.", "math."),
    ("cmath.", "math."), ("builtins.", "py."),
]

_ALIAS = {
    "math.exp": "exp", "math.log": "log", "math.sin": "sin", "math.cos": "cos", "math.tan": "tan",
    "math.sqrt": "sqrt", "math.fabs": "abs", "math.factorial": "special.factorial", "math.comb": "special.comb",
    "math.prod": "prod", "math.pow": "power", "math.floor": "floor", "math.ceil": "ceil", "math.atan": "arctan",
    "math.sinh": "sinh", "math.cosh": "cosh", "math.tanh": "tanh", "math.isclose": "isclose", "math.fsum": "sum",
    "math.gcd": "index.gcd", "math.log2": "log2", "math.log10": "log10", "math.acos": "arccos", "math.asin": "arcsin",
    "math.atanh": "arctanh", "math.asinh": "arcsinh", "math.acosh": "arccosh", "math.gamma": "special.gamma",
    "math.isnan": "isnan", "math.isinf": "isinf", "math.isfinite": "isfinite", "math.hypot": "hypot",
    "py.abs": "abs", "py.sum": "sum", "py.max": "max", "py.min": "min", "py.round": "round", "py.pow": "power",
    "linalg.matmul": "matmul", "linalg.multi_dot": "multi_dot", "linalg.block_diag": "block_diag",
    "linalg.kron": "kron", "linalg.toeplitz": "array", "linalg.triu": "triu", "linalg.tril": "tril",
    "absolute": "abs", "amax": "max", "amin": "min", "conjugate": "conj", "around": "round", "true_divide": "divide",
    "linalg.diagonal": "diagonal", "linalg.trace": "trace", "linalg.outer": "outer",
    "lib.stride_tricks.sliding_window_view": "ravel", "asanyarray": "asarray", "fabs": "abs",
    "float_power": "power", "pow": "power", "concat": "concatenate", "permute_dims": "transpose",
    "core.multiarray.array": "array", "product": "prod",
}


def canon(name):
    for p, q in _PREFIX:
        if name.startswith(p):
            name = q + name[len(p):]
            break
    return _ALIAS.get(name, name)


CAT = {}


def _put(cat, names):
    for n in names.split():
        CAT[n] = cat


_put("same", """sum mean max min median abs real imag conj array asarray atleast_1d atleast_2d atleast_3d sort flip roll
 tile repeat round trace diag diagonal transpose reshape ravel squeeze swapaxes moveaxis expand_dims broadcast_to copy
 flatten real_if_close nan_to_num rot90 fliplr flipud resize negative positive ascontiguousarray asfortranarray triu tril
 cumsum nansum nanmax nanmin take compress delete unique pad diagflat average std ptp diff item tolist astype view
 rollaxis require asarray_chkfinite array_split split hsplit vsplit quantile percentile floor ceil trunc rint fix
 ix_same matrix squeeze""")
_put("concat", "concatenate hstack vstack stack column_stack row_stack dstack block block_diag append")
_put("mul", "multiply dot matmul inner outer kron vdot tensordot einsum convolve multi_dot cross vecdot")
_put("add", "add subtract hypot")
_put("div", "divide")
_put("sel", "where maximum minimum fmax fmin clip choose select")
_put("zeros", "zeros zeros_like empty empty_like")
_put("ones", "ones ones_like eye identity arange linspace logspace tri indices meshgrid fromfunction mgrid")
_put("full", "full full_like")
_put("bool", """isnan isinf isfinite allclose isclose array_equal array_equiv all any logical_and logical_or logical_not
 logical_xor greater less greater_equal less_equal equal not_equal iscomplexobj isrealobj issubdtype iscomplex isreal
 isin in1d py.bool py.isinstance py.hasattr py.callable py.issubclass isscalar may_share_memory shares_memory""")
_put("index", """argsort argmax argmin nonzero flatnonzero searchsorted count_nonzero shape ndim size unravel_index
 ravel_multi_index bincount digitize py.len py.int py.range py.hash py.id index.gcd lexsort argwhere argpartition
 linalg.matrix_rank ix_ diag_indices triu_indices tril_indices diag_indices_from triu_indices_from tril_indices_from
 integer int64 int32 intp int_ int8 uint8 py.ord bitwise_and right_shift left_shift""")
_put("trans", """exp expm1 log log1p log2 log10 sin cos tan arcsin arccos arctan sinh cosh tanh arcsinh arccosh arctanh
 sinc special.factorial special.comb special.binom special.gamma special.loggamma special.factorial2 special.erf
 special.xlogy special.perm special.gammaln special.eval_hermite special.eval_laguerre special.eval_genlaguerre
 linalg.expm linalg.logm angle arctan2 special.entr unwrap exp2 special.hyp2f1 special.hyperu special.hyp1f1
 special.expit special.logit""")
_put("sqrt", "sqrt linalg.sqrtm linalg.cholesky")
_put("square", "square")
_put("var", "var cov")
_put("power", "power linalg.matrix_power linalg.fractional_matrix_power")
_put("recip", "reciprocal linalg.inv linalg.pinv linalg.pinvh")
_put("prod", "prod cumprod")
_put("det", "linalg.det")
_put("norm", "linalg.norm linalg.eigvals linalg.eigvalsh linalg.svdvals linalg.hessenberg")
_put("number", "py.float py.complex float64 complex128 float32 complex64 float_ complex_")

# the first argument may be returned itself or as a view
VIEW = set("""asarray atleast_1d atleast_2d atleast_3d real real_if_close transpose reshape ravel squeeze swapaxes moveaxis
 expand_dims broadcast_to diagonal flip flipud fliplr rot90 ascontiguousarray asfortranarray rollaxis array_split split
 hsplit vsplit view imag require asarray_chkfinite diag""".split())
