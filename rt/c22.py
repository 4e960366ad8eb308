import copy
import pickle

import numpy as np
from wulfric import add_sugar, remove_sugar

METHODS = set(dir(dict))


def value(rng, depth=0):
    k = int(rng.integers(7))
    if k == 0 and depth < 2:
        return {key(rng): value(rng, depth + 1) for _ in range(int(rng.integers(3)))}
    return [1, 2.5, "text", None, [1, 2], (3, "a")][int(rng.integers(6))]


IDS = ["a", "positions", "names", "_private", "x1", "Cell", "k_points", "\u03b1", "__odd", "a1b2", "number", "std_lattice"]
OTHER = ["with space", "1st", "a-b", "", 5, 2.5, None, (1, 2), True, "a.b", "keys", "items", "values", "get", "pop", "update", "copy"]


def key(rng):
    return IDS[int(rng.integers(len(IDS)))] if rng.random() < 0.65 else OTHER[int(rng.integers(len(OTHER)))]


def dot(k):
    return isinstance(k, str) and k.isidentifier() and k not in METHODS


def run(T):
    rng = T.rng
    for i in T.loop(4000, seconds=10, name="dictionaries"):
        d = {key(rng): value(rng) for _ in range(int(rng.integers(0, 7)))}
        with T.case(dictionary=repr(d)):
            d0 = copy.deepcopy(d)
            s = add_sugar(d)
            T.ok(isinstance(s, dict) and s is not d, "a new dictionary")
            T.ok(list(s) == list(d) and all(s[k] is d[k] for k in d) and len(s) == len(d) and dict(s) == d, "all keys and values are kept", s)
            T.ok(type(d) is dict and d == d0 and list(d) == list(d0), "the given dictionary is not modified")
            for k in d:
                if dot(k):
                    T.ok(getattr(s, k) is d[k], "readable with the dot", k)
                    T.ok(hasattr(s, k), "hasattr", k)
            for k in METHODS - {"__class__", "__doc__", "__dict__"}:
                if k in ("keys", "items", "values", "get", "pop", "update"):
                    T.ok(callable(getattr(s, k)), "methods of the dictionary still work", k)
            # history of reads, writes and deletions
            m = dict(d)
            for _ in range(int(rng.integers(1, 10))):
                k = key(rng)
                op = int(rng.integers(6))
                v = value(rng)
                if op == 0:
                    s[k] = v
                    m[k] = v
                elif op == 1 and dot(k):
                    setattr(s, k, v)
                    m[k] = v
                elif op == 2 and k in m:
                    del s[k]
                    del m[k]
                elif op == 3 and dot(k) and k in m:
                    delattr(s, k)
                    del m[k]
                elif op == 4 and dot(k) and k not in m:
                    T.raises(AttributeError, lambda: getattr(s, k), "reading a missing key with the dot raises AttributeError")
                    T.ok(not hasattr(s, k) and getattr(s, k, 17) == 17, "missing key")
                    T.raises(KeyError, lambda: s[k], "reading a missing key with the bracket raises KeyError")
                T.ok(list(s) == list(m) and dict(s) == m, "dot and bracket agree", lambda: f"{dict(s)} instead of {m}")
                for q in list(m):
                    if dot(q):
                        T.ok(getattr(s, q) is s[q], "dot and bracket agree", q)
            r0 = dict(s)
            r = remove_sugar(s)
            T.ok(type(r) is dict and r == m and list(r) == list(m) and all(r[q] is m[q] for q in m), "removing the sugar gives back an equal plain dictionary", r)
            T.ok(dict(s) == r0 and type(s) is not dict, "the given dictionary is not modified (remove)")
            r["added"] = 1
            T.ok("added" in m or "added" not in s, "the result is independent")
            T.ok(dict(d) == d0, "the first dictionary is still not modified")
            if rng.random() < 0.2:
                T.ok(copy.deepcopy(s) == s and add_sugar(s) == s and add_sugar(remove_sugar(s)) == s and remove_sugar(d) == d, "copies")
    for x in (None, 1, "a", [("a", 1)], (), {1, 2}, object(), np.zeros(3), [{"a": 1}]):
        with T.case(value=repr(x)):
            T.raises(ValueError, lambda: add_sugar(x), "input that is not a dictionary is refused (add)")
            T.raises(ValueError, lambda: remove_sugar(x), "input that is not a dictionary is refused (remove)")
