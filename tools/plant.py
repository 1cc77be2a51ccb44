"""Confirms planted bugs in a scratch copy of /repo and files them under /verif/seeded.
usage: python3 plant.py DEFS.py [id ...]      DEFS.py defines BUGS = {id: {...}}
fields: prop, file, old, new, demo (python text), needs, breaks   (or edits = [(file, old, new), ...])"""
import json, os, runpy, shutil, subprocess, sys, tempfile

PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
           OPENBLAS_NUM_THREADS="1", QISKIT_PARALLEL="FALSE")
BASE = {l.strip() for l in []}


def baseline():
    data = json.load(open("/opt/vp/BASELINE.json"))
    return data


def run_tests(copy):
    out = os.path.join(copy, "..", "out.json")
    script = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + copy)
    subprocess.run(["bash", "-c", script, "x", out], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return json.load(open(out))


DEMO_SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    base = baseline()
    stable = set(base.get("stable", base.get("passed", base if isinstance(base, list) else [])))
    for bid in ids:
        b = bugs[bid]
        work = tempfile.mkdtemp(prefix="plant_")
        copy = os.path.join(work, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        try:
            ok = True
            for f, old, new in b.get("edits") or [(b["file"], b["old"], b["new"])]:
                path = os.path.join(copy, "qiskit_optimization", f)
                text = open(path).read()
                if text.count(old) != 1:
                    print(bid, "OLD TEXT COUNT", text.count(old), f)
                    ok = False
                    break
                open(path, "w").write(text.replace(old, new))
            if not ok:
                continue
            dest = os.path.join(work, "seed")
            os.makedirs(dest)
            open(os.path.join(dest, "demo.py"), "w").write(b["demo"])
            open(os.path.join(dest, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(dest, "demo.sh"), 0o755)
            good = subprocess.run(["bash", dest + "/demo.sh"], cwd="/repo", env=ENV, capture_output=True, timeout=280)
            badr = subprocess.run(["bash", dest + "/demo.sh"], cwd=copy, env=ENV, capture_output=True, timeout=280)
            if good.returncode != 0 or badr.returncode == 0:
                print(bid, "DEMO clean={} planted={}".format(good.returncode, badr.returncode), good.stderr.decode()[-600:])
                continue
            res = run_tests(copy)
            passed = set(res.get("passed", []))
            lost = sorted(stable - passed)
            if lost:
                print(bid, "TESTS LOST", lost[:5])
                continue
            diff = subprocess.run(["git", "-C", copy, "diff"], capture_output=True).stdout
            open(os.path.join(dest, "patch.diff"), "wb").write(diff)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(dest, "meta.json"), "w"), indent=1)
            final = os.path.join("/verif/seeded", bid)
            shutil.rmtree(final, ignore_errors=True)
            shutil.copytree(dest, final)
            print(bid, "planted")
            env = dict(ENV, VERIF_REPO=copy)
            r = subprocess.run(["/verif/bin/check", b["prop"]], env=env, capture_output=True, timeout=900)
            print("   check exit", r.returncode, [l for l in r.stdout.decode().splitlines() if l.startswith("#")][:2])
        finally:
            shutil.rmtree(work, ignore_errors=True)


main()
