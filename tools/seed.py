"""
Makes a planted bug: seed.py DEF.py...  Each DEF.py defines ID, PROPERTY,
EDITS [(file, old, new)], NEEDS, BREAKS and DEMO (python source, run with the
repository on the path and, if it says "STUB", a stand-in gurobipy).  Confirms
that the stable tests pass with the change and that the demonstration
separates the two trees, writes seeded/ID, and runs the property's check.
Development aid only (no check uses it).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
PY = "/opt/venv/bin/python"


def tests(wt):
    ids = []
    for s in STABLE:
        mod, t = s.split("::")
        q = mod.split(".")
        ids.append("/".join(q[:-1]) + ".py::" + q[-1] + "::" + t)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", PYTHONPATH=wt)
    p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                        "--timeout=300"] + ids, cwd=wt, env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode == 0, p.stdout[-600:]


def main(path):
    d = runpy.run_path(path)
    wt = tempfile.mkdtemp(prefix="seed_")
    shutil.rmtree(wt)
    subprocess.check_call(["cp", "-a", "/repo", wt])
    try:
        for f, old, new in d["EDITS"]:
            p = os.path.join(wt, "neural_network_lyapunov", f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=wt, text=True)
        out = os.path.join(V, "seeded", d["ID"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        stub = "STUB" in d["DEMO"]
        if stub:
            os.makedirs(out + "/stub/gurobipy")
            shutil.copy(V + "/shim/gurobipy/__init__.py",
                        out + "/stub/gurobipy/__init__.py")
        open(out + "/demo.py", "w").write(d["DEMO"].lstrip())
        open(out + "/demo.sh", "w").write(
            '#!/bin/bash\n# Run in the repository: 0 when the property holds '
            'for the case shown.\nD="$(cd "$(dirname "$0")" && pwd)"\n'
            'export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n'
            'PYTHONPATH="$PWD:$D/stub" exec %s "$D/demo.py"\n' % PY)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"],
                   "what_it_breaks": d["BREAKS"]},
                  open(out + "/meta.json", "w"), indent=1)
        r0 = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo",
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            text=True)
        r1 = subprocess.run(["bash", out + "/demo.sh"], cwd=wt,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            text=True)
        ok, t = tests(wt)
        print(d["ID"], "demo clean", r0.returncode, "patched", r1.returncode,
              "tests", ok)
        if r0.returncode or not r1.returncode or not ok:
            print(r0.stdout[-1500:], "-----", r1.stdout[-1500:], t)
            return
        print("   ", r1.stdout.strip().splitlines()[-1:])
        for seed in "1":
            env = dict(os.environ, NNL_REPO=wt, NNL_OUT=wt + "/.out",
                       VERIF_SEED=seed, VERIF_TIER="quick")
            c = subprocess.run(["./check", d["PROPERTY"]], cwd=V, env=env,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            lines = c.stdout.strip().splitlines()
            print("    check", d["PROPERTY"], "seed", seed, "rc",
                  c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED",
                  [q for q in lines if "key=" in q][-2:])
    finally:
        shutil.rmtree(wt, ignore_errors=True)


for a in sys.argv[1:]:
    main(a)
