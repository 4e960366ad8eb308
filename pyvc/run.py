"""python3-vt -m pyvc.run <property> <out.json>: generate and discharge all obligations."""

import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
warnings.simplefilter("ignore")


def one(args):
    mod, k = args
    import resource
    import signal

    from . import api
    from .sym import Engine

    m = importlib.import_module("contracts." + mod)
    name, fn, params, functions, assumed, opts = api.HARNESSES[k]
    opts = dict(opts)
    eng = Engine(name, **{k: v for k, v in opts.items() if k in ("z3_timeout", "nl_feasibility", "max_depth", "max_paths", "budget")})
    eng.invariants = opts.get("invariants", {})
    eng.cut_whiles = bool(opts.get("cut_whiles"))
    t = time.time()
    src = {}
    try:
        L = api.Loader()
        if "setup" in opts:
            opts["setup"](L, eng)
        eng.run(lambda vc: fn(vc, L, *params), name)
        src = L.sources
        for q in functions:
            try:
                L.get(q)
            except Exception as e:
                eng._plain(f"function under contract exists: {q}", "unsupported", str(e))
    except BaseException as e:  # an engine failure is an obligation that was not discharged
        eng.harness = name
        tb = traceback.format_exc().strip().split("\n")
        eng._plain("engine", "unsupported", f"{type(e).__name__}: {e} | " + " | ".join(tb[-6:]))
    return dict(
        harness=name,
        functions=list(functions),
        assumed=list(assumed),
        obligations=[o.as_dict() for o in eng.obligations],
        paths=eng.paths,
        ended=eng.ended,
        covers=eng.covers,
        solver_s=round(eng.solver_time, 3),
        wall_s=round(time.time() - t, 3),
        sources=src,
        expect=opts.get("covers", []),
    )


def main():
    mod, out = sys.argv[1:3]
    only = sys.argv[3] if len(sys.argv) > 3 else None
    from . import api

    t = time.time()
    try:
        importlib.import_module("contracts." + mod)
    except BaseException as e:
        json.dump(dict(error=traceback.format_exc()), open(out, "w"))
        print("contract module failed:", e)
        return 3
    todo = [(mod, i) for i, h in enumerate(api.HARNESSES) if only is None or only in h[0]]
    n = int(os.environ.get("VERIF_JOBS", "8"))
    with mp.get_context("fork").Pool(min(n, max(1, len(todo))), maxtasksperchild=1) as pool:
        res = pool.map(one, todo, chunksize=1)
    json.dump(dict(results=res, wall_s=time.time() - t), open(out, "w"), indent=1, default=str)
    for r in res:
        ob = r["obligations"]
        bad = [o for o in ob if o["status"] != "discharged"]
        missing = [c for c in r["expect"] if not r["covers"].get(f"{r['harness']}: {c}")]
        print(f"{r['harness']}: {len(ob) - len(bad)}/{len(ob)} obligations, {r['paths']} paths, {r['wall_s']} s" + (f" NOT COVERED {missing}" if missing else ""))
        for o in bad[:6]:
            print("   ", o["status"], o["label"], "|", o["where"], "|", o["detail"], "|", o["model"])
    return 0


if __name__ == "__main__":
    sys.exit(main())
