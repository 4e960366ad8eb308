import numpy as np

from wulfric import compare_with_tolerance as f
from wulfric._numerical import compare_with_tolerance as g

COND = ("<", ">", "==", "<=", ">=", "!=")


def expected(x, y, e):
    lt, gt = x < y - e, y < x - e
    return {"<": lt, ">": gt, "==": not (lt or gt), "<=": not gt, ">=": not lt, "!=": lt or gt}


def one(T, x, y, e, **k):
    with T.case(x=x, y=y, tolerance=e, given=k):
        exp = expected(x, y, e)
        got = {c: bool(f(x, c, y, **k)) for c in COND}
        for c in COND:
            T.ok(got[c] == exp[c], f"x {c} y", f"{got[c]} instead of {exp[c]}")
        T.ok(got["<"] + got["=="] + got[">"] == 1, "exactly one of <, ==, >", got)
        T.ok(got["<="] == (not got[">"]) and got[">="] == (not got["<"]) and got["!="] == (not got["=="]), "negations", got)


def run(T):
    rng = T.rng
    dy = lambda k: float(rng.integers(-(2**k), 2**k + 1)) / 64.0
    # exact dyadic numbers: no rounding, boundaries hit exactly
    for _ in T.loop(2500, name="given eps, dyadic"):
        y, e = dy(9), abs(dy(6))
        x = y + rng.choice([-1, 0, 1]) * e if rng.random() < 0.5 else y + rng.choice([-2, -0.5, 0.5, 2]) * e if rng.random() < 0.5 else dy(9)
        one(T, x, y, e, eps=e)
    for _ in T.loop(300, name="eps = 0"):
        y = float(rng.normal())
        x = float(rng.choice([y, np.nextafter(y, 9), np.nextafter(y, -9), y + 1e-9, y - 1e-9]))
        one(T, x, y, 0.0, eps=0.0)
        one(T, x, y, 0, eps=0)
    for _ in T.loop(2500, name="atol + rtol*|y|, dyadic"):
        y = dy(6)
        a, r = abs(dy(4)), float(rng.choice([0, 0.25, 0.5, 1, 2, 4]))
        e = a + r * abs(y)
        x = y + rng.choice([-1, 1]) * e * rng.choice([0.5, 1, 2]) if rng.random() < 0.7 else dy(9)
        one(T, float(x), y, e, atol=a, rtol=r)
    for _ in T.loop(800, name="default tolerance"):
        y = float(rng.normal() * 10.0 ** rng.integers(-9, 7))
        e = 1e-8 + 1e-5 * abs(y)
        x = y + float(rng.choice([-1, 1]) * e * rng.choice([0, 0.5, 0.9, 1.1, 2, 100]))
        one(T, x, y, e)
    for x, y in ((1, 2), (2, 1), (3, 3), (-5, -5), (0, 0), (-1, 1), (10**6, 10**6 + 1)):
        one(T, x, y, 1e-8 + 1e-5 * abs(y))
    for y in (0.0, -0.0, 1e308, -1e308, 1e-300):
        one(T, y, y, 0.0, eps=0.0)
    T.part = "other conditions"
    for c in ("", "=", "=<", "=>", "<>", "===", "<<", ">>", "! =", " <", "< ", "lt", "gt", "eq", "<==", "!==", "!", "is", "~=", "≤", "<=>", "><", "not", "==="):
        with T.case(condition=c):
            for x, y in ((1.0, 2.0), (2.0, 1.0), (1.0, 1.0)):
                T.raises(ValueError, lambda: f(x, c, y, eps=0.1), "other conditions are refused")
                T.raises(ValueError, lambda: f(x, c, y), "other conditions are refused")
    T.ok(f is g, "exported function")
