"""Dimension analysis.  Every public function that takes hbar is analysed interprocedurally with its covariance
arguments of dimension 1, means of dimension 1/2 and hbar of dimension 1 (in powers of hbar), once per setting of its
boolean and optional arguments.  A sum, comparison, array store, transcendental function or matrix-function argument
of mismatched dimension that reaches a result, a branch or a random draw is a violation; so is a result whose
dimension is not the documented one, and a computation without an hbar parameter that mixes two values of hbar."""
from .. import units
from ..loader import AnalysisError

FLOORS = {"roots": 29, "returns_determined": 54, "unification_obligations": 1000, "functions": 40}
ASSUMPTIONS = [
    "the unit tables of numpy/scipy functions in sa/units.py are right",
    "numerical literals below 1e-3 in comparisons are tolerances",
    "the order of modes chosen by sorting (argsort) does not affect a result",
    "values of unknown dimension raise no alarm (counted in returns_unknown)",
]


def check(prog):
    findings, stats, missing, undetermined, unknown = units.run(prog)
    if missing:
        raise AnalysisError("functions not found: " + ", ".join(missing))
    stats["returns_of_unknown_dimension_in"] = undetermined
    stats["external_functions_without_unit_rule"] = sorted(unknown)
    return findings, stats
