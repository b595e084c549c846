"""Development helper: verify planted bugs in scratch copies and run the checks against them.

    plant.py verify ID...       tests + demo, unpatched and patched
    plant.py check ID [Sxx...]  run checks (default: the bug's own property) against a patched copy
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "JAX_PLATFORMS": "cpu", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"}


def copy(name, patch=None):
    d = os.path.join(W, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
    if patch:
        subprocess.run(["git", "-C", d, "apply", patch], check=True)
    return d


def tests(d):
    x = os.path.join(d, ".junit.xml")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "8", "-p", "seed_rng", "-p", "no:cacheprovider", "--timeout=300",
                    "--continue-on-collection-errors", "--doctest-modules", "--ignore=noxfile.py", "--ignore=setup.py",
                    "--ignore=lie_nn/_src/reduce_test.py", "-o", "junit_family=xunit2", f"--junitxml={x}", "."],
                   cwd=d, env={**ENV, "PYTHONPATH": f"{d}:/opt/vp"}, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    o = os.path.join(d, ".out.json")
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", o, f"junit:{x}"], check=True, stdout=subprocess.DEVNULL)
    r = json.load(open(o))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(r.get("passed", []))
    return [t for t in stable if t not in passed]


def demo(d, bug):
    p = subprocess.run(["bash", os.path.join(ROOT, "seeded", bug, "demo.sh")], cwd=d, env={**os.environ, "PYTHONPATH": d}, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-300:]


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "verify":
        base = copy("base")
        for b in ids:
            d = copy(b, os.path.join(ROOT, "seeded", b, "patch.diff"))
            bad = tests(d)
            r0, o0 = demo(base, b)
            r1, o1 = demo(d, b)
            ok = not bad and r0 == 0 and r1 != 0
            print(b, "OK" if ok else "BAD", "failed tests", len(bad), bad[:3], "demo", r0, r1, "" if ok else (o0, o1), flush=True)
            shutil.rmtree(d)
        shutil.rmtree(base)
    elif cmd == "check":
        b = ids[0]
        props = ids[1:] or [json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))["property"]]
        d = copy(b, os.path.join(ROOT, "seeded", b, "patch.diff"))
        for p in props:
            r = subprocess.run(["./check", p], cwd=ROOT, env={**os.environ, "LIE_NN_REPO": d, "PYTHONPATH": d, "SIM_NOEVIDENCE": "1"}, capture_output=True, text=True)
            print(b, p, "exit", r.returncode, flush=True)
            print((r.stdout[-900:] + r.stderr[-600:]) if r.returncode != 0 else r.stdout[-300:], flush=True)
        shutil.rmtree(d)


main()
