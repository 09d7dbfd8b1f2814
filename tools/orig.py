"""Lists planted bugs that change lines which are not in the original repository, or do not apply."""
import glob, json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "a0bfc90"
bad = 0
for d in sorted(glob.glob(os.path.join(here, "seeded", "*"))):
    p = os.path.join(d, "patch.diff")
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", p], capture_output=True, text=True)
    if r.returncode:
        print("DOES NOT APPLY", os.path.basename(d)); bad += 1; continue
    f, foreign, removed = None, [], 0
    for l in open(p):
        l = l.rstrip("\n")
        if l.startswith("--- a/"):
            f = l[6:]
            base = set(subprocess.run(["git", "-C", "/repo", "show", BASE + ":" + f], capture_output=True, text=True).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---"):
            removed += 1
            if l[1:] not in base:
                foreign.append(l)
    if foreign or not removed:
        print(os.path.basename(d), "removed", removed, foreign); bad += 1
print("problems:", bad)
