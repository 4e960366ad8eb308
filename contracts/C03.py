"""parallelepiped_check"""
from pyvc.api import *
from pyvc import lemmas

F = "wulfric.geometry._geometry.parallelepiped_check"


def valid(p, lt, at):
    a, b, c, al, be, ga = p
    return z3.And(*[zbool(x) for x in (
        a - lt > 0, b - lt > 0, c - lt > 0,
        al - at > 0, be - at > 0, ga - at > 0, al < 180 - at, be < 180 - at, ga < 180 - at,
        al < be + ga - at, be < al + ga - at, ga < al + be - at,
        al + be + ga < 360 - at)])


@harness(F, cases=["exact", "default"], covers=["True", "False"])
def exact(vc, L, kind):
    p = vc.reals("a b c alpha beta gamma")
    f = L.get(F)
    if kind == "exact":
        lt, at = vc.reals("length_tolerance angle_tolerance")
        vc.assume(lt >= 0)
        vc.assume(at >= 0)
        r = f(*p, length_tolerance=lt, angle_tolerance=at)
    else:
        import inspect

        sig = inspect.signature(f).parameters
        lt, at = sig["length_tolerance"].default, sig["angle_tolerance"].default
        r = f(*p)
    vc.prove(zbool(r) == valid(p, lt, at), "True iff all conditions hold")
    vc.cover("True" if bool(r) else "False")


@harness(F, covers=["raises", "True"])
def raise_error(vc, L):
    p = vc.reals("a b c alpha beta gamma")
    lt, at = vc.reals("length_tolerance angle_tolerance")
    vc.assume(lt >= 0)
    vc.assume(at >= 0)
    st, r = vc.call(L.get(F), *p, raise_error=True, length_tolerance=lt, angle_tolerance=at)
    if st == "raise":
        vc.check(isinstance(r, ValueError), "the error is a ValueError", str(type(r)))
        vc.prove(z3.Not(valid(p, lt, at)), "raises only if the conditions do not hold")
        vc.cover("raises")
    else:
        vc.prove(zbool(r), "returns True if it does not raise")
        vc.prove(valid(p, lt, at), "raises if the conditions do not hold")
        vc.cover("True")


@harness(F, "wulfric.cell._basic_manipulation.from_params", "wulfric.geometry._geometry.get_volume", covers=["accepted"])
def accepted_has_volume(vc, L):
    """an accepted set of parameters has a positive volume and from_params builds a cell with it"""
    p = vc.reals("a b c alpha beta gamma")
    lt, at = vc.reals("length_tolerance angle_tolerance")
    vc.assume(lt >= 0)
    vc.assume(at >= 0)
    r = L.get(F)(*p, length_tolerance=lt, angle_tolerance=at)
    if not bool(r):
        return
    vc.cover("accepted")
    G = lemmas.half_angles(vc, *p[3:])
    vc.prove(And(p[0] > 0, p[1] > 0, p[2] > 0), "lengths are positive")
    s = sym.sqrt(G)
    v = L.get("wulfric.geometry._geometry.get_volume")(*p)
    lemmas.prod_pos(vc, p[0], p[1])
    lemmas.prod_pos(vc, p[0] * p[1], p[2])
    lemmas.prod_pos(vc, p[0] * p[1] * p[2], s)
    vc.prove(v > 0, "the volume is positive")
