"""Runs one check: design models, shards of recorded traces, verdict, evidence."""
import json, os, shutil, sys, tempfile, time, traceback, zlib
import multiprocessing as mp
import numpy as np
import vh
from vh import Machinery

EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(vh.VERIF, "evidence")
KNOWN = os.path.join(vh.VERIF, "known_findings.json")


def rng_for(pid, shard):
    return np.random.default_rng([vh.SEED, zlib.crc32(pid.encode()), shard])


def run_shard(job):
    """generate a trace on the real code and validate it with TLC"""
    pid, idx, spec, module, genname, size, cls, scratch, extra = job
    t0 = time.time()
    generated = False
    try:
        import importlib
        mod, fn = genname.split(":")
        gen = getattr(importlib.import_module(mod), fn)
        work = os.path.join(scratch, "s%d" % idx)
        os.makedirs(work)
        cwd = os.path.join(work, "cwd")
        os.makedirs(cwd)
        os.chdir(cwd)
        out = os.dup(1)
        devnull = os.open(os.devnull, os.O_WRONLY)
        sys.stdout.flush()
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        np.random.seed(int(rng_for(pid, idx).integers(2**31)))
        kw = dict(extra)
        if "cases" in kw:
            kw["cases"] = kw["cases"]
        events = gen(rng_for(pid, idx), size, **kw)
        generated = True
        t1 = time.time()
        os.dup2(out, 1)
        os.chdir("/")
        fails, states, nstates = vh.validate(cls, work, module, events)
        shutil.rmtree(work, ignore_errors=True)
        return dict(idx=idx, events=len(events), fails=[(i, c, context(events, i)) for i, c in fails[:50]], nfails=len(fails), states=states,
                    generated=nstates, kinds=kinds(events), sample=slim(events[min(1, len(events) - 1)]) if events else None, gen_s=t1 - t0, tlc_s=time.time() - t1,
                    distinct=len(set(json.dumps(e, sort_keys=True) for e in events)))
    except Machinery as err:
        return dict(idx=idx, error=str(err))
    except BaseException as err:
        # a failure inside the code under test where the specification expects a result, or of the harness on what the code handed it
        frames = [f.filename for f in traceback.extract_tb(err.__traceback__)]
        inside = any(f.startswith(os.path.join(vh.REPO, "cameratransform") + os.sep) for f in frames)
        usage = not isinstance(err, (OSError, MemoryError, ImportError, KeyboardInterrupt, SystemExit)) and isinstance(err, Exception) and not generated
        if inside or usage:
            ev = dict(k="crash", err=type(err).__name__, msg=str(err)[:200], traceback=traceback.format_exc()[-3000:])
            return dict(idx=idx, events=1, fails=[(0, [pid + ".crash"], [ev])], nfails=1, states=0, generated=0, kinds=dict(crash=1), sample=ev,
                        gen_s=time.time() - t0, tlc_s=0, distinct=1)
        return dict(idx=idx, error=traceback.format_exc())


def slim(e, depth=0):
    if isinstance(e, dict):
        return {k: slim(v, depth + 1) for k, v in e.items()}
    if isinstance(e, list):
        if len(e) == 2 and all(isinstance(x, int) and not isinstance(x, bool) for x in e) and (abs(e[0]) > 4096 or e == [0, 0]):
            return vh.unR(e)
        return [slim(x, depth + 1) for x in e[:6]] + (["..."] if len(e) > 6 else [])
    return e


def kinds(events):
    d = {}
    for e in events:
        d[e["k"]] = d.get(e["k"], 0) + 1
    return d


def context(events, i):
    """the events since the last reset point, for the replay file"""
    j = i
    while j > 0 and events[j]["k"] not in ("camera", "reset"):
        j -= 1
    return events[j:i + 1]


def run_model(job):
    name, fn, cls, work = job
    try:
        import importlib
        mod, f = fn.split(":")
        r = getattr(importlib.import_module(mod), f)(cls, work)
        shutil.rmtree(work, ignore_errors=True)
        r["name"] = name
        return r
    except Machinery as err:
        return dict(name=name, error=str(err))
    except BaseException:
        return dict(name=name, error=traceback.format_exc())


def known_findings(pid):
    try:
        with open(KNOWN) as fp:
            data = json.load(fp)
    except FileNotFoundError:
        return []
    return [f for f in data.get("known", []) if f["property"] == pid]


def main(argv):
    if len(argv) == 2 and argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    import registry
    spec = registry.CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        return run(pid, spec, scratch, t0)
    except Machinery as err:
        print("MACHINERY ERROR:", err)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, spec, scratch, t0):
    cls = vh.compile_arith(scratch)
    ctx = mp.get_context("fork")
    # the design models run first: their behaviours are replayed by the shards
    models = []
    jobs = [(m[0], m[1], cls, os.path.join(scratch, "m_" + m[0])) for m in spec.get("models", [])]
    if jobs:
        with ctx.Pool(min(4, len(jobs))) as pool:
            models = pool.map(run_model, jobs, 1)
    for m in models:
        if "error" in m:
            raise Machinery("model %s: %s" % (m["name"], m["error"]))
    tier = "thorough" if vh.THOROUGH else "quick"
    sjobs = []
    for t in spec["traces"]:
        shards, size = t[tier]
        extra = dict(t.get("extra", {}))
        for s in range(shards):
            ex = dict(extra)
            if "cases" in t:      # behaviours exported by a model, dealt out to the shards
                cs = next(m["cases"] for m in models if m["name"] == t["cases"])
                ex["cases"] = cs[s::shards]
            sjobs.append((pid, len(sjobs), spec, t["module"], t["gen"], size, cls, scratch, ex))
    with ctx.Pool(min(8, len(sjobs)), maxtasksperchild=1) as pool:
        res = pool.map(run_shard, sjobs, 1)
    for r in res:
        if "error" in r:
            raise Machinery("shard %d: %s" % (r["idx"], r["error"]))
    known = known_findings(pid)
    viol, kf, other = [], {}, {}
    for r in res:
        for i, clauses, ctxt in r["fails"]:
            mine = [c for c in clauses if c.startswith(pid + ".") or c == "*.rejected"]
            for c in clauses:
                if not c.startswith(pid + "."):
                    other[c] = other.get(c, 0) + 1
            if not mine:
                continue
            tag = ctxt[-1].get("kf")
            hit = [f for f in known if tag is not None and f["id"] == tag and set(mine) <= set(f["clauses"])]
            if hit:
                kf[hit[0]["id"]] = hit[0]
            else:
                viol.append((r["idx"], i, mine, ctxt))
    for f in kf.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    os.makedirs(EVID, exist_ok=True)
    kinds_all = {}
    for r in res:
        for k, n in r["kinds"].items():
            kinds_all[k] = kinds_all.get(k, 0) + n
    ev = dict(property=pid, tier=tier, seed=vh.SEED, level=spec["level"],
              coverage=dict(states=sum(m.get("states", 0) for m in models) + sum(r["states"] for r in res),
                            transitions=sum(m.get("generated", 0) for m in models) + sum(r["generated"] for r in res),
                            traces_validated_against_impl=len(res),
                            evaluations=sum(r["events"] for r in res),
                            distinct_nontrivial=sum(r["distinct"] for r in res),
                            rule=spec["rule"],
                            events_by_kind=kinds_all,
                            design_models=[{k: v for k, v in m.items() if k not in ("cases", "out")} for m in models],
                            exhaustive_design_model=any(m.get("exhaustive") for m in models),
                            samples=[r["sample"] for r in res if r["sample"]][:2]),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(EVID, pid + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    if os.environ.get("VERIF_DEBUG"):
        print("events", kinds_all, "gen %.1fs tlc %.1fs wall %.1fs" % (max(r["gen_s"] for r in res), max(r["tlc_s"] for r in res), time.time() - t0), "other", other)
    if viol:
        path = os.path.join(EVID, pid + ".replay.json")
        with open(path, "w") as fp:
            json.dump(dict(property=pid, seed=vh.SEED, tier=tier, module=sjobs[viol[0][0]][3], clauses=viol[0][2], shard=viol[0][0], event=viol[0][1],
                           readable=slim(viol[0][3][-1]), events=viol[0][3]), fp, indent=1)
        for idx, i, mine, ctxt in viol[:5]:
            print("violated %s at event %d of shard %d (%s)" % (", ".join(mine), i, idx, ctxt[-1]["k"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s events=%d states=%d wall=%.1fs" % (pid, ev["coverage"]["evaluations"], ev["coverage"]["states"], ev["wall_s"]))
    return 0


def replay(path):
    with open(path) as fp:
        d = json.load(fp)
    if d["events"][-1]["k"] == "crash":
        print(d["events"][-1]["traceback"])
        return 1
    scratch = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        cls = vh.compile_arith(scratch)
        fails, _, _ = vh.validate(cls, os.path.join(scratch, "r"), d["module"], d["events"])
        for i, c in fails:
            print("event", i, d["events"][i]["k"], c)
        return 1 if any(c.startswith(d["property"] + ".") or c == "*.rejected" for _, cs in fails for c in cs) else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
