"""Evaluation of the contracts on the real code (CPython, floats): bounded, seeded."""
import contextlib
import json
import os
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import numpy as np


class Skip(Exception):
    """this generated case does not meet the precondition"""


class Stop(Exception):
    pass


def plain(x, depth=0):
    if isinstance(x, np.ndarray):
        return plain(x.tolist(), depth)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, dict):
        return {str(k): plain(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(i, depth + 1) for i in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:300]


class Tester:
    def __init__(self, prop, seed, tier, only=None):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.scale = 1 if tier == "quick" else 6
        self.rng = np.random.default_rng([seed, int(prop[1:])])
        self.evaluations = 0
        self.cases = 0
        self.skipped = 0
        self.distinct = set()
        self.samples = []
        self.clauses = {}
        self.fails = []
        self.t0 = time.time()
        self.cur = {}
        self.limit = 60 if tier == "quick" else 500
        self.part = ""

    def loop(self, n, seconds=None, name=""):
        """n (times the tier's scale) cases, at most `seconds`"""
        t = time.time()
        self.part = name
        seconds = (seconds or 20) * self.scale
        for i in range(int(n * self.scale)):
            if time.time() - t > seconds or time.time() - self.t0 > self.limit:
                break
            yield i

    @contextlib.contextmanager
    def case(self, **inputs):
        self.cur = inputs
        self.cases += 1
        try:
            key = json.dumps(plain(inputs), sort_keys=True, default=str)
        except Exception:
            key = repr(inputs)
        self.distinct.add(hash(key))
        if len(self.samples) < 4 or (self.cases % 997 == 0 and len(self.samples) < 8):
            self.samples.append({"part": self.part, **{k: v for k, v in plain(inputs).items()}})
        try:
            yield
        except (Stop, KeyboardInterrupt):
            raise
        except Skip:
            self.skipped += 1
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-4:]]
            self.fail("no unexpected exception", f"{type(e).__name__}: {str(e)[:300]} at {' > '.join(where)}")

    def fail(self, clause, detail=""):
        self.fails.append(dict(part=self.part, clause=clause, detail=str(detail)[:600], inputs=plain(self.cur)))
        if len(self.fails) >= 8:
            raise Stop()

    def ok(self, cond, clause, detail=""):
        self.evaluations += 1
        self.clauses[clause] = self.clauses.get(clause, 0) + 1
        if not cond:
            self.fail(clause, detail() if callable(detail) else detail)
        return bool(cond)

    def close(self, a, b, clause, tol=1e-9, scale=None):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            return self.ok(False, clause, f"shape {a.shape} instead of {b.shape}")
        s = scale if scale is not None else max(1.0, float(np.abs(b).max()) if b.size else 1.0)
        d = np.abs(a - b)
        good = bool(np.all(np.isfinite(a))) and (d.size == 0 or float(d.max()) <= tol * s)
        return self.ok(good, clause, lambda: f"got {a.tolist()} expected {b.tolist()}")

    def raises(self, exc, fn, clause):
        self.evaluations += 1
        self.clauses[clause] = self.clauses.get(clause, 0) + 1
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:
            self.fail(clause, f"raised {type(e).__name__}: {str(e)[:200]}")
            return False
        self.fail(clause, f"did not raise, returned {repr(r)[:200]}")
        return False

    def result(self):
        return dict(
            property=self.prop,
            tier=self.tier,
            seed=self.seed,
            cases=self.cases,
            skipped=self.skipped,
            evaluations=self.evaluations,
            distinct=len(self.distinct),
            clauses=self.clauses,
            samples=self.samples,
            fails=self.fails,
            wall_s=round(time.time() - self.t0, 2),
        )


def main():
    import importlib

    prop, out = sys.argv[1:3]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    T = Tester(prop, seed, tier)
    try:
        mod = importlib.import_module("rt." + prop.lower())
    except Exception as e:
        # the code under test cannot be imported
        T.fail("wulfric can be imported", traceback.format_exc()[-500:])
        json.dump(T.result(), open(out, "w"), default=str)
        return
    try:
        mod.run(T)
    except Stop:
        pass
    except Exception as e:
        tb = traceback.format_exc()
        T.fail("no unexpected exception (outside of a case)", tb[-600:])
    json.dump(T.result(), open(out, "w"), default=str)
    r = T.result()
    print(prop, "cases", r["cases"], "distinct", r["distinct"], "evaluations", r["evaluations"], "skipped", r["skipped"], "fails", len(r["fails"]), r["wall_s"], "s")
    for f in r["fails"][:5]:
        print("   ", json.dumps(f, default=str)[:700])


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import rt.base

    rt.base.main()
