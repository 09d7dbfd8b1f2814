#!/opt/venv/bin/python
"""Planted bugs.
seed.py make <definitions.py>     writes seeded/<id>/ from definitions (in a scratch copy: patch, demo; confirms tests and demo)
seed.py test [id ...]             runs the check of the bug's property against a scratch copy with the bug
"""
import json, os, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, "seeded")
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\n# exit 0: the property holds\nPYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def copy():
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    subprocess.run("git -C /repo archive HEAD | tar -x -C " + d, shell=True, check=True)
    return d


def tests(d):
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg", HYPOTHESIS_STORAGE_DIRECTORY=d + "/.hyp")
    base = json.load(open("/opt/vp/BASELINE.json"))
    p = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--hypothesis-profile=ci", "--timeout=300", "tests"], cwd=d, env=env, capture_output=True, text=True)
    return p.returncode == 0, p.stdout[-1500:]


def demo(sid, d):
    p = subprocess.run(["bash", os.path.join(SEEDED, sid, "demo.sh")], cwd=d, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-800:]


def make(defs):
    ok = True
    jobs = []
    for s in defs:
        d = copy()
        sid = s["id"]
        out = os.path.join(SEEDED, sid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "demo.py"), "w").write(s["demo"])
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        rc0, o0 = demo(sid, d)
        subprocess.run("git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x", cwd=d, shell=True, check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(d, "cameratransform", f)
            t = open(p).read()
            if t.count(old) != 1:
                print(sid, "EDIT DOES NOT APPLY", t.count(old), repr(old[:60]))
                ok = False
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(out, "patch.diff"), "w").write(subprocess.check_output(["git", "diff"], cwd=d, text=True))
        jobs.append((sid, d, rc0, o0))

    def fin(j):
        sid, d, rc0, o0 = j
        rc1, o1 = demo(sid, d)
        good, tout = tests(d)
        shutil.rmtree(d)
        return sid, rc0, rc1, good, o0, o1, tout
    with ThreadPoolExecutor(6) as ex:
        for sid, rc0, rc1, good, o0, o1, tout in ex.map(fin, jobs):
            print(sid, "demo clean:", rc0, "demo bug:", rc1, "tests:", good, "" if rc0 == 0 and rc1 and good else "<<<<<<<< NOT USABLE\n" + o0 + o1 + (tout if not good else ""))


def test(ids):
    ids = ids or sorted(os.listdir(SEEDED))
    res = {}

    def one(sid):
        m = json.load(open(os.path.join(SEEDED, sid, "meta.json")))
        d = copy()
        try:
            subprocess.run("git init -q . && git apply %s" % os.path.join(SEEDED, sid, "patch.diff"), cwd=d, shell=True, check=True)
            ev = os.path.join(d, "evid")
            p = subprocess.run(["./check.py", m["property"]], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=ev), capture_output=True, text=True)
            return sid, m["property"], p.returncode, [l for l in p.stdout.splitlines() if l.startswith("violated")][:2], p.stdout[-1500:] if p.returncode not in (0, 1) else ""
        finally:
            shutil.rmtree(d)
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, ids):
            print(*r, flush=True)


if sys.argv[1] == "make":
    make(runpy.run_path(sys.argv[2])["SEEDS"])
else:
    test(sys.argv[2:])
