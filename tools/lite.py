#!/opt/venv/bin/python
"""Development aid: runs one check in one shard with a fraction of its size, against VERIF_REPO.
lite.py <property> [fraction]      LITE_CACHE=<dir>: keep the behaviours exported by the design models
                                   LITE_COVER=<file>: write the executed lines of cameratransform"""
import os, sys, json, pickle
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import runner, registry, vh
pid, frac = sys.argv[1], float(sys.argv[2]) if len(sys.argv) > 2 else 1.0
spec = registry.CHECKS[pid]
for t in spec["traces"]:
    n, size = t["quick"]
    t["quick"] = (1, max(1, int(size * frac)))
cache = os.environ.get("LITE_CACHE")
real_model = runner.run_model


def run_model(job):
    p = os.path.join(cache, pid + "_" + job[0]) if cache else None
    if p and os.path.exists(p):
        return pickle.load(open(p, "rb"))
    r = real_model(job)
    if p and "error" not in r:
        pickle.dump(r, open(p, "wb"))
    return r


runner.run_model = run_model
cover = os.environ.get("LITE_COVER")
if cover:
    mon = sys.monitoring
    lines = set()
    root = os.path.join(vh.REPO, "cameratransform") + os.sep

    def line(code, no):
        if code.co_filename.startswith(root):
            lines.add((os.path.basename(code.co_filename), no))
        return mon.DISABLE
    mon.use_tool_id(1, "cover")
    mon.register_callback(1, mon.events.LINE, line)
    mon.set_events(1, mon.events.LINE)
    real_shard = runner.run_shard

    def run_shard(job):
        r = real_shard(job)
        with open("%s.%d" % (cover, os.getpid()), "w") as fp:
            json.dump(sorted(lines), fp)
        return r
    run_shard.__qualname__ = "run_shard"
    run_shard.__module__ = "runner"
    runner.run_shard = run_shard
sys.exit(runner.main([pid]))
