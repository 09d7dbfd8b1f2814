"""Shared machinery: encoding of observations, running TLC, shards, evidence."""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402


# ------------------------------------------------------------------ encoding
def R(x):
    """a double as [hi, lo]"""
    return list(struct.unpack(">ii", struct.pack(">d", float(x))))


def unR(p):
    return struct.unpack(">d", struct.pack(">ii", *p))[0]


def RL(a):
    """nested sequence of numbers -> nested lists of [hi, lo]"""
    if isinstance(a, (list, tuple)) or (isinstance(a, np.ndarray) and a.ndim > 0):
        return [RL(x) for x in a]
    return R(a)


class CallTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CallTimeout()


CALL_SECONDS = 20      # of processor time, so that a loaded machine raises no alarm


def call(fn, *args, **kw):
    """run fn; returns (result, None) or (None, exception)"""
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CALL_SECONDS)
    try:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*args, **kw), None
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as err:  # the verdict needs every failure of the code under test
        return None, err
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def encode(res):
    try:
        a = np.asarray(res)
        if a.dtype == object:
            a = np.array(a.tolist(), dtype=float)
        if a.dtype.kind not in "fiub":
            return dict(ok=False, err="type:" + str(a.dtype), shape=[], v=[])
        a = a.astype(float)
    except Exception as err:
        return dict(ok=False, err="convert:" + type(err).__name__, shape=[], v=[])
    return dict(ok=True, err="", shape=list(a.shape), v=[R(x) for x in a.ravel()])


def failed(err):
    return dict(ok=False, err=type(err).__name__, msg=str(err)[:120].encode("ascii", "replace").decode(), shape=[], v=[])


def obs(fn, *args, **kw):
    """call fn and encode the result (or the failure) as an observation"""
    res, err = call(fn, *args, **kw)
    if err is not None:
        return failed(err)
    if isinstance(res, list) and type(getattr(fn, "__self__", None)).__name__ in ("Camera", "SpatialOrientation", "SpatialOrientationYawPitchRoll"):
        return failed(TypeError("list"))     # documented as arrays, with which callers calculate
    return encode(res)


def values(o):
    """numpy array of an observation (None if the call failed)"""
    if not o["ok"]:
        return None
    return np.array([unR(x) for x in o["v"]]).reshape(o["shape"])


# ------------------------------------------------------------------ TLC
class Machinery(Exception):
    """an error of the check itself (not of the code under test)"""


def compile_arith(scratch):
    cls = os.path.join(scratch, "cls")
    os.makedirs(cls, exist_ok=True)
    p = subprocess.run(["javac", "-cp", TLA_CP, "-d", cls, os.path.join(SPEC, "Arith.java")],
                       capture_output=True, text=True)
    if p.returncode:
        raise Machinery("javac: " + p.stderr)
    return cls


def tlc(cls, workdir, module, cfg, args=(), workers=1, heap="2g", timeout=600, env=None):
    """run TLC on module.tla (all specs are copied into workdir); returns stdout"""
    os.makedirs(workdir, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), workdir)
    with open(os.path.join(workdir, module + ".cfg"), "w") as fp:
        fp.write(cfg)
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + workdir,
           "-cp", cls + ":" + workdir + ":" + TLA_CP, "tlc2.TLC", "-config", module + ".cfg",
           "-workers", str(workers), "-metadir", os.path.join(workdir, "meta"), "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=workdir, capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timeout on " + module)
    return p.returncode, p.stdout + p.stderr


TRACE_CFG = "INIT TInit\nNEXT TNext\nPOSTCONDITION TAccepted\nCHECK_DEADLOCK FALSE\n"
_fail = re.compile(r'<<\s*"@FAIL",\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)


def validate(cls, workdir, module, events, timeout=700, cfg=TRACE_CFG):
    """validate a recorded trace with TLC; returns (list of (index, [clauses]), states)"""
    os.makedirs(workdir, exist_ok=True)
    with open(os.path.join(workdir, "trace.ndjson"), "w") as fp:
        for e in events:
            fp.write(json.dumps(e) + "\n")
    rc, out = tlc(cls, workdir, module, cfg, timeout=timeout)
    fails = []
    for m in _fail.finditer(out):
        fails.append((int(m.group(1)) - 1, sorted(x.strip().strip('"') for x in m.group(2).split(",") if x.strip())))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    stuck = re.search(r"Attempted to|was not in the domain|The exception was a|overridden by", out)
    if "Model checking completed. No error has been found." not in out and stuck and "OutOfMemory" not in out and "StackOverflow" not in out:
        # the specification has no meaning for this event (for example a result of an unexpected form): the trace is rejected here
        k = re.findall(r"/\\ l = (\d+)", out)
        if k and int(k[-1]) <= len(events):
            return fails + [(int(k[-1]) - 1, ["*.rejected"])], int(k[-1]), int(k[-1])
    if "Model checking completed. No error has been found." not in out or not m:
        raise Machinery("TLC did not accept the trace (%s):\n%s" % (workdir, out[-3000:]))
    if int(m.group(2)) != len(events) + 1:
        raise Machinery("TLC consumed %s of %d events" % (m.group(2), len(events)))
    return fails, int(m.group(2)), int(m.group(1))


def model(cls, workdir, module, cfg, args=(), workers=4, timeout=600, heap="4g", must_fail=None):
    """exhaustive (or simulated) run of a design model.  Returns dict(states, generated, depth, out)."""
    rc, out = tlc(cls, workdir, module, cfg, args=args, workers=workers, timeout=timeout, heap=heap)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if must_fail:
        if must_fail not in out:
            raise Machinery("%s: expected TLC to report %r:\n%s" % (module, must_fail, out[-2000:]))
        return dict(states=int(m[-1][1]) if m else 0, generated=int(m[-1][0]) if m else 0, out=out)
    if "-simulate" in args:
        if "Error:" in out:
            raise Machinery("%s:\n%s" % (module, out[-3000:]))
        return dict(states=0, generated=0, out=out)
    if "Model checking completed. No error has been found." not in out:
        raise Machinery("%s: the design model violates its properties:\n%s" % (module, out[-3000:]))
    d = re.search(r"depth of the complete state graph search is (\d+)", out)
    return dict(states=int(m[-1][1]), generated=int(m[-1][0]), depth=int(d.group(1)) if d else 0, out=out)


_case = re.compile(r'^"?@CASE (.*?)"?$', re.M)


def cases(out):
    """JSON values printed by a model with PrintT("@CASE " \\o ToJson(..))"""
    res = []
    for m in _case.finditer(out):
        res.append(json.loads(m.group(1).replace('\\"', '"')))
    return res
