"""compare_with_tolerance: trichotomy with a tolerance."""
from pyvc.api import *

F = "wulfric._numerical.compare_with_tolerance"


def conditions(vc, L, x, y, tol, **k):
    f = L.get(F)
    r = {c: zbool(f(x, c, y, **k)) for c in ("<", ">", "==", "<=", ">=", "!=")}
    vc.prove(r["<"] == zbool(x < y - tol), "'<' iff x < y - eps")
    vc.prove(r[">"] == zbool(y < x - tol), "'>' iff y < x - eps")
    vc.prove(r["=="] == z3.And(z3.Not(zbool(x < y - tol)), z3.Not(zbool(y < x - tol))), "'==' iff neither")
    vc.prove(z3.And(z3.Or(r["<"], r["=="], r[">"]), z3.Not(z3.And(r["<"], r[">"])), z3.Not(z3.And(r["<"], r["=="])), z3.Not(z3.And(r[">"], r["=="]))), "exactly one of <, ==, >")
    vc.prove(r["<="] == z3.Not(r[">"]), "'<=' is not '>'")
    vc.prove(r[">="] == z3.Not(r["<"]), "'>=' is not '<'")
    vc.prove(r["!="] == z3.Not(r["=="]), "'!=' is not '=='")
    vc.cover("returned")


@harness(F, covers=["returned"])
def given_eps(vc, L):
    x, y, eps = vc.reals("x y eps")
    vc.assume(eps >= 0)
    conditions(vc, L, x, y, eps, eps=eps)


@harness(F, covers=["returned"])
def computed_eps(vc, L):
    x, y, atol, rtol = vc.reals("x y atol rtol")
    vc.assume(atol >= 0)
    vc.assume(rtol >= 0)
    conditions(vc, L, x, y, atol + rtol * abs(y), atol=atol, rtol=rtol)


@harness(F)
def default_eps(vc, L):
    import inspect

    x, y = vc.reals("x y")
    sig = inspect.signature(L.get(F)).parameters
    vc.check(sig["eps"].default is None, "the default of eps is None")
    conditions(vc, L, x, y, sig["atol"].default + sig["rtol"].default * abs(y))


@harness(F, covers=["refused"])
def other_conditions(vc, L):
    """every string that is none of the six"""
    x, y, eps = vc.reals("x y eps")
    c = vc.string("condition")
    for k in ("<", ">", "==", "<=", ">=", "!="):
        vc.assume(c != k)
    st, e = vc.call(L.get(F), x, c, y, eps=eps)
    vc.check(st == "raise" and isinstance(e, ValueError), "refused with ValueError", str(e))
    vc.cover("refused")
