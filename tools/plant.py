"""Makes and confirms planted bugs in scratch copies (development only, no check reads seeded/).

python3 tools/plant.py make SPEC.py [id...]   build seeded/<id> from SPECS, keep those that are confirmed
python3 tools/plant.py check [id...]          run the property's check against each planted bug
"""
import concurrent.futures, json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(H, "seeded")
W = "/tmp/w/plant"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def copy(i):
    d = f"{W}/{i}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("__pycache__"))
    return d


def demo(i, d):
    return sh(f"bash {S}/{i}/demo.sh", cwd=d, timeout=300)


def tests(d):
    env = dict(os.environ, CI="true", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONPATH=d + "/src")
    common = "-q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o 'doctest_optionflags=ELLIPSIS IGNORE_EXCEPTION_DETAIL DONT_ACCEPT_TRUE_FOR_1'"
    a = sh(f"/opt/venv/bin/python -m pytest {common} -n 2 --doctest-modules src/wulfric", cwd=d, env=env)
    b = sh(f"/opt/venv/bin/python -m pytest {common} --doctest-glob='*.rst' --ignore-glob='*.py' docs/source", cwd=d, env=env)
    return a.stdout.strip().splitlines()[-1] + " + " + b.stdout.strip().splitlines()[-1]


def make1(s):
    i = s["id"]
    r = copy(i)
    d = os.path.join(S, i)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(r, "src/wulfric", f)
            t = open(p).read()
            if t.count(old) != 1:
                shutil.rmtree(d)
                return f"{i} TEXT FOUND {t.count(old)} times: {old[:70]}"
            open(p, "w").write(t.replace(old, new))
        diff = sh(f"git -C {r} diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].strip() + "\n")
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# run with cwd = the repository\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH=$PWD/src exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0, r1 = demo(i, "/repo"), demo(i, r)
        t = tests(r) if r0.returncode == 0 and r1.returncode else "-"
        ok = r0.returncode == 0 and r1.returncode != 0 and "failed" not in t and "error" not in t
        if not ok:
            shutil.rmtree(d)
        return f"{i} {'OK' if ok else 'REJECTED'} | unpatched {r0.returncode} | patched {r1.returncode} | {t} " + ("" if r0.returncode == 0 else r0.stdout[-300:] + r0.stderr[-600:])
    finally:
        shutil.rmtree(r, ignore_errors=True)


def check1(i):
    p = json.load(open(f"{S}/{i}/meta.json"))["property"]
    d = copy(i)
    v = f"{W}/v_{i}"
    try:
        a = sh(f"git -C {d} apply {S}/{i}/patch.diff")
        if a.returncode:
            return f"{i} does not apply"
        shutil.rmtree(v, ignore_errors=True)
        shutil.copytree(H, v, ignore=shutil.ignore_patterns(".git", "seeded", "work", "evidence"))
        r = sh(f"python3 check.py {p}", cwd=v, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"))
        vio = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        first = [l.strip()[:150] for l in r.stdout.splitlines() if "failing input" in l or "obligation not" in l][:2]
        kinds = "".join(k for k, w in (("D", "obligation not"), ("R", "failing input:")) if w in r.stdout)
        return f"{i} {p} {'CAUGHT' if r.returncode == 1 and vio else 'MISSED'} {r.returncode} {kinds} {vio[-1][-30:] if vio else ''} {first[:1]}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    if a[0] == "make":
        g = {}
        exec(open(a[1]).read(), g)
        todo = [s for s in g["SPECS"] if not a[2:] or s["id"] in a[2:]]
        f = make1
    else:
        todo = [i for i in sorted(os.listdir(S)) if not a[1:] or i in a[1:]]
        f = check1
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for r in ex.map(f, todo):
            print(r, flush=True)
