import numpy as np

from wulfric.cell import from_params
from wulfric.geometry import get_volume, parallelepiped_check as f

# dyadic numbers: all sums and differences are exact


def expected(a, b, c, al, be, ga, lt, at):
    lt_ = lambda x, y, e: x < y - e
    return bool(
        all(lt_(0.0, x, lt) for x in (a, b, c))
        and all(lt_(0.0, x, at) and lt_(x, 180.0, at) for x in (al, be, ga))
        and lt_(ga, al + be, at)
        and lt_(be, al + ga, at)
        and lt_(al, be + ga, at)
        and lt_(al + be + ga, 360.0, at)
    )


def one(T, p, kw):
    with T.case(params=p, **kw):
        lt, at = kw.get("length_tolerance", 1e-8), kw.get("angle_tolerance", 1e-4)
        exp = expected(*p, lt, at)
        r = f(*p, **kw)
        T.ok(bool(r) == exp, "True iff all conditions hold", f"returned {r} instead of {exp}")
        try:
            r2 = f(*p, raise_error=True, **kw)
            T.ok(exp and bool(r2), "raises ValueError iff it would return False", f"returned {r2}, expected {exp}")
        except ValueError as e:
            T.ok(not exp, "raises ValueError iff it would return False", f"raised {str(e)[:100]}")
        if exp:
            if at >= 0.001:
                v = get_volume(*p)
                T.ok(v > 0, "accepted parameters have a positive volume", v)
                if not kw:
                    T.ok(np.linalg.det(from_params(*p)) > 0, "a cell can be built")
        elif not kw:
            T.raises(ValueError, lambda: from_params(*p), "from_params refuses what the check refuses")


def run(T):
    rng = T.rng
    q = lambda lo, hi: float(rng.integers(lo * 16, hi * 16 + 1)) / 16

    def angles():
        k = rng.integers(8)
        if k == 0:
            return [q(-10, 200) for _ in range(3)]
        if k == 1:
            return [q(1, 179) for _ in range(3)]
        x, y = q(1, 179), q(1, 179)
        at = float(rng.choice([0, 1 / 16, 1 / 4, 1]))
        off = float(rng.choice([-1, -1 / 16, 0, 1 / 16, 1])) if rng.random() < 0.5 else float(rng.choice([-1, 1])) * at
        if k == 2:
            t = [x, y, x + y + off]
        elif k == 3:
            t = [x, y, abs(x - y) + off]
        elif k == 4:
            t = [x, y, 360 - x - y + off]
        elif k == 5:
            t = [x, y, 180 + off]
        elif k == 6:
            t = [x, y, 0 + off]
        else:
            t = [60.0, 90.0, float(rng.choice([60.0, 90.0, 120.0, 30.0, 150.0, 30.0625, 149.9375]))]
        return [t[i] for i in rng.permutation(3)]

    def length(lt):
        return float(rng.choice([lt, lt + 1 / 64, lt - 1 / 64, 0, -lt, -1, 1, 2.5, 3, 7, 1e-3, 1e6, 0.5])) if rng.random() < 0.25 else float(rng.choice([1, 2, 3.5, 5]))

    for _ in T.loop(6000, name="dyadic tolerances"):
        lt, at = float(rng.choice([0, 1 / 64, 1 / 4, 1])), float(rng.choice([0, 1 / 16, 1 / 4, 1]))
        one(T, [length(lt) for _ in range(3)] + angles(), dict(length_tolerance=lt, angle_tolerance=at))
    for _ in T.loop(2500, name="default tolerances"):
        # keep away from the rounding of the default tolerance
        one(T, [length(1e-8) for _ in range(3)] + angles(), {})
    for _ in T.loop(300, name="near the default tolerance"):
        al, be = q(20, 120), q(20, 120)
        ga = float(rng.choice([al + be, abs(al - be), 360 - al - be, 180.0, 0.0])) + float(rng.choice([-1, 1])) * float(rng.choice([0.5e-4, 2e-4, 0]))
        p = [float(rng.choice([1.0, 0.5e-8, 2e-8, 3e-3])) for _ in range(3)]
        t = [al, be, ga]
        one(T, p + [t[i] for i in rng.permutation(3)], {})
