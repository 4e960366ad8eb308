import numpy as np

from rt import gen
from wulfric.geometry import get_angle, get_spherical


def vec(rng):
    k = rng.integers(4)
    if k == 0:
        v = rng.integers(-3, 4, size=3).astype(float)
        return v if np.any(v) else np.array([0, 0, 1.0])
    return rng.normal(size=3) * 10.0 ** rng.uniform(-3, 3)


def run(T):
    rng = T.rng
    for _ in T.loop(1500, name="angle"):
        u = vec(rng)
        k = rng.integers(5)
        v = vec(rng)
        if k == 0:
            v = u * rng.choice([-1, 1]) * 10.0 ** rng.uniform(-3, 3)
        if k == 1:
            v = np.cross(u, v)
            if np.linalg.norm(v) < 1e-12:
                continue
        with T.case(v1=u, v2=v):
            d = get_angle(u, v)
            c = np.cos(np.radians(d))
            nu, nv = np.linalg.norm(u), np.linalg.norm(v)
            T.ok(0 <= d <= 180, "in [0, 180]", d)
            T.close(c, u @ v / nu / nv, "cosine is the normalised scalar product", 1e-9)
            T.close(np.sin(np.radians(d)), np.linalg.norm(np.cross(u, v)) / nu / nv, "sine of the angle", 3e-8)
            T.close(get_angle(v, u), d, "symmetric", 1e-5)
            t = 10.0 ** rng.uniform(-3, 3)
            T.close(get_angle(t * u, v), d, "scaling", 1e-5)
            T.close(get_angle(u, t * v), d, "scaling", 1e-5)
            T.close(get_angle(-u, v), 180 - d, "reversed", 1e-5)
            T.close(get_angle(u, -v), 180 - d, "reversed", 1e-5)
            T.close(get_angle(list(u), tuple(v)), d, "list input", 1e-9)
            T.close(get_angle(u, v, radians=True), np.radians(d), "radians", 1e-9)
            T.ok(isinstance(d, float), "float")
    for _ in T.loop(30, name="zero vector"):
        u = vec(rng)
        with T.case(v=u):
            T.raises(ValueError, lambda: get_angle(u, [0, 0, 0]), "zero vector is refused")
            T.raises(ValueError, lambda: get_angle([0.0, 0, 0], u), "zero vector is refused")
            T.raises(ValueError, lambda: get_angle(np.zeros(3), np.zeros(3), radians=True), "zero vector is refused")
    for _ in T.loop(1500, name="spherical"):
        v = vec(rng)
        R = gen.rotation(rng)
        if rng.random() < 0.3:
            perms = [np.eye(3)[list(p)] for p in ((0, 1, 2), (1, 2, 0), (2, 0, 1))]
            R = perms[rng.integers(3)]
        q, s, p = R
        if np.linalg.det(R) < 0:
            s = -s
        kw = dict(polar_axis=p * rng.choice([1, 1, 2.5, 0.1]), radial_line_zero=q * rng.choice([1, 3, 0.2]))
        if rng.random() < 0.3:
            kw, q, s, p = {}, np.eye(3)[0], np.eye(3)[1], np.eye(3)[2]
        n = np.linalg.norm(v)
        if np.linalg.norm(np.cross(v / n, p)) < 1e-3:
            continue
        with T.case(vector=v, **kw):
            g = v.copy()
            for deg in (True, False, None):
                r, th, ph = get_spherical(v, **kw) if deg is None else get_spherical(v, in_degrees=deg, **kw)
                if deg is None or deg:
                    th, ph = np.radians(th), np.radians(ph)
                T.close(r, n, "r is the length", 1e-12, n)
                T.ok(0 <= th <= np.pi + 1e-12, "polar angle in [0, pi]", th)
                T.ok(-1e-12 <= ph <= 2 * np.pi + 1e-12, "azimuth in [0, 2 pi]", ph)
                w = r * (np.cos(th) * p + np.sin(th) * (np.cos(ph) * q + np.sin(ph) * np.cross(p, q)))
                T.close(w, v, "reproduces the vector (right-hand rule)", 1e-6, n)
            T.ok(np.array_equal(v, g), "input is not modified")
            T.close(get_spherical(v.tolist(), **{k: list(x) for k, x in kw.items()}), get_spherical(v, **kw), "list input", 1e-12)
    for _ in T.loop(150, name="on the axis"):
        R = gen.rotation(rng)
        q, s, p = R
        z = 10.0 ** rng.uniform(-2, 2)
        with T.case(polar_axis=p, radial_line_zero=q, z=z):
            T.close(get_spherical(z * p, polar_axis=p, radial_line_zero=q), [z, 0, 0], "azimuth 0 on the axis", 1e-6)
            T.close(get_spherical(-z * p, polar_axis=p, radial_line_zero=q), [z, 180, 180], "azimuth pi on the negative axis", 1e-6)
            T.close(get_spherical(-z * p, in_degrees=False, polar_axis=2 * p, radial_line_zero=q), [z, np.pi, np.pi], "azimuth pi on the negative axis", 1e-6)
            T.close(get_spherical([0, 0, z]), [z, 0, 0], "default axis", 1e-9)
            T.close(get_spherical([0, 0, -z]), [z, 180, 180], "default axis", 1e-9)
