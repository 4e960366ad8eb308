"""Applies behaviour-preserving edits in scratch copies of /repo and runs the checks on them
(development only).   python3 tools/refactor.py SPEC.py [id...] [--checks C01,C02]

A SPEC defines R(id, file, {function: new source}, checks)."""
import ast, concurrent.futures, json, os, shutil, subprocess, sys, time

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def replace(path, new):
    src = open(path).read()
    for name, text in new.items():
        lines = src.split("\n")
        tree = ast.parse(src)
        body, node = tree.body, None
        for part in name.split("."):
            node = next(n for n in body if getattr(n, "name", None) == part)
            body = node.body
        a = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
        ind = " " * node.col_offset
        text = "\n".join(ind + l if l else l for l in text.strip("\n").split("\n"))
        lines[a : node.end_lineno] = text.split("\n")
        src = "\n".join(lines)
    open(path, "w").write(src)


def one(s, checks, test):
    d = f"/tmp/w/ref/{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "build", "docs"))
    out = []
    try:
        for f, new in s["edits"]:
            replace(os.path.join(d, "src/wulfric", f), new)
        for c in checks or s["checks"]:
            t = time.time()
            v = f"/tmp/w/ref/v_{s['id']}_{c}"
            shutil.rmtree(v, ignore_errors=True)
            shutil.copytree(H, v, ignore=shutil.ignore_patterns(".git", "seeded", "work", "evidence"))
            p = subprocess.run([sys.executable, "check.py", c], cwd=v, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"), capture_output=True, text=True)
            shutil.rmtree(v, ignore_errors=True)
            why = [l for l in p.stdout.splitlines() if "not discharged" in l or "failing input" in l or "VIOLATION" in l]
            out.append(f"{'ok   ' if p.returncode == 0 else 'ALARM'} {s['id']:28s} {c} {time.time() - t:5.0f} s " + ("" if p.returncode == 0 else "\n      " + "\n      ".join(w[:330] for w in [*why[:3], *why[-1:]])) + ("" if p.returncode in (0, 1) else p.stderr[-300:]))
    except Exception as e:
        out.append(f"ERROR {s['id']} {type(e).__name__}: {e}")
    shutil.rmtree(d, ignore_errors=True)
    return "\n".join(out)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    checks = next((x.split("=")[1].split(",") for x in sys.argv if x.startswith("--checks=")), None)
    g = {"REFS": []}
    g["R"] = lambda id, edits, checks: g["REFS"].append(dict(id=id, edits=edits, checks=checks.split()))
    exec(open(a[0]).read(), g)
    apply = next((x.split("=")[1] for x in sys.argv if x.startswith("--apply=")), None)
    if apply:  # leave the edited tree there and run nothing
        (s,) = [s for s in g["REFS"] if s["id"] in a[1:]]
        shutil.copytree("/repo", apply, ignore=shutil.ignore_patterns(".git", "build", "docs"))
        for f, new in s["edits"]:
            replace(os.path.join(apply, "src/wulfric", f), new)
        return
    todo = [s for s in g["REFS"] if not a[1:] or s["id"] in a[1:]]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda s: one(s, checks, True), todo):
            print(r, flush=True)


main()
