import numpy as np
from wulfric.constants import HPKOT_DEFAULT_K_PATHS, SC_DEFAULT_K_PATHS
from wulfric.kpoints import get_path_as_list, get_path_as_string

ALPHABET = list("ABCDEFGKLMNPQRSTUVWXYZabcxyz0123456789_ $^{}'\\/.,:;+*()[]<>#\u0393\u03a3\t") + ["GAMMA", "_P", "SIGMA0"]


def name(rng):
    if rng.random() < 0.04:
        return ""
    return "".join(ALPHABET[i] for i in rng.integers(len(ALPHABET), size=int(rng.integers(1, 6))))


def path(rng):
    return [[name(rng) for _ in range(int(rng.integers(2, 8)))] for _ in range(int(rng.integers(1, 6)))]


def run(T):
    rng = T.rng
    for s in list(HPKOT_DEFAULT_K_PATHS.values()) + list(SC_DEFAULT_K_PATHS.values()):
        with T.case(text=s):
            T.ok(get_path_as_string(get_path_as_list(s)) == s, "text -> list -> text")
    for i in T.loop(3000, seconds=10, name="random paths"):
        p = path(rng)
        if rng.random() < 0.3:  # repeated names and subpaths
            p[-1][-1] = p[0][0]
            p.append(list(p[0]))
        with T.case(path=p):
            given = [list(x) for x in p]
            s = get_path_as_string(p)
            T.ok(isinstance(s, str) and s == "|".join("-".join(x) for x in p), "text form", s)
            T.ok(p == given, "the path is not modified")
            q = get_path_as_list(s)
            T.ok(isinstance(q, list) and all(isinstance(x, list) for x in q) and q == p, "list -> text -> list", q)
            T.ok(get_path_as_string(q) == s, "text -> list -> text")
            T.ok(get_path_as_string(tuple(tuple(x) for x in p)) == s, "tuples are read as lists")
            # refused
            k = int(rng.integers(len(p)))
            bad = p[:k] + [[name(rng)]] + p[k:]
            txt = "|".join("-".join(x) for x in bad)
            T.raises(ValueError, lambda: get_path_as_list(txt), "a subpath with less than two points is refused")
            n1 = name(rng)
            T.raises(ValueError, lambda: get_path_as_list(n1), "a single point is refused")
            T.raises(ValueError, lambda: get_path_as_list(s + "|"), "an empty subpath is refused")
            T.raises(ValueError, lambda: get_path_as_list("|" + s), "an empty subpath is refused")
    for x in (None, 1, 2.5, ["A-B"], ("A", "B"), {"A-B": 1}, b"A-B", [], np.array([1]), object(), True, [["A", "B"]]):
        with T.case(value=repr(x)):
            T.raises(ValueError, lambda: get_path_as_list(x), "anything that is not text is refused")
    for x in (None, 1, 2.5, [1, 2], [["A", "B"], 3], [None]):
        with T.case(value=repr(x)):
            T.raises(ValueError, lambda: get_path_as_string(x), "anything that is not a list of lists is refused")
    with T.case(text=""):
        T.raises(ValueError, lambda: get_path_as_list(""), "empty text is refused")
