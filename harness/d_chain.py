"""Metropolis chains and fits (C18, C25) in histories of cameras and groups."""
import os, sys, types
import numpy as np
import pandas as pd
import scipy.stats
from vh import R, RL, obs, call, values, encode
import vh
import cams
from cams import pick
from d_store import World, world
from d_terms import Terms
import cameratransform as ct
from cameratransform.statistic import FitParameter, metropolis

OPS = ["set", "set", "set", "unc", "none", "default", "fit", "sample", "mean", "gps"]
INF = float("inf")


def m_chain(cls, work):
    cfg = "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Len0 = %d Export = %s ZeroRule = %s\n"
    r = vh.model(cls, os.path.join(work, "a"), "MC_Chain", cfg % (5, "TRUE", "TRUE"))
    vh.model(cls, os.path.join(work, "b"), "MC_Chain", cfg % (4, "FALSE", "FALSE"), must_fail="Invariant Inv is violated")
    return dict(states=r["states"], generated=r["generated"], exhaustive=True, cases=vh.cases(r["out"]), negative_variant_fails=True, module="MC_Chain.tla")


class Scripted:
    """a target whose value depends on how many different positions were asked before"""

    def __init__(self, case, read):
        self.case, self.read, self.memo, self.order, self.calls = case, read, {}, [], []
        self.cur = None

    def __call__(self, *pos):
        p = tuple(float(x) for x in (pos[0] if pos else self.read()))
        if p not in self.memo:
            i = len(self.order)
            if i == 0:
                v = -INF if self.case["start"] == 0 else -2.0
            else:
                kind = self.case["script"][(i - 1) % len(self.case["script"])]
                last = max([x for x in self.memo.values()])       # only an estimate of where the chain is
                v = dict(up=(last if np.isfinite(last) else -3) + 0.7, same=last, down=last - 0.7, zero=-INF)[kind]
            self.memo[p] = v
            self.order.append(p)
        self.calls.append((list(p), self.memo[p]))
        return self.memo[p]


class Known:
    """normal densities and walls"""

    def __init__(self, rng, read, n, w, nan):
        self.read, self.n, self.w, self.nan, self.calls = read, n, w, nan, []

    def value(self, p):
        for i, lo, hi in self.w:
            if not lo <= p[i] <= hi:
                return -INF
        return -float(np.sum([((p[i] - c) / s) ** 2 / 2 for i, c, s in self.n]))

    def __call__(self, *pos):
        p = [float(x) for x in (pos[0] if pos else self.read())]
        v = self.value(p)
        self.calls.append((p, v))
        return float("nan") if self.nan and v == -INF else v

    def tgt(self):
        return dict(n=[dict(i=i + 1, c=R(c), s=R(s)) for i, c, s in self.n], w=[dict(i=i + 1, lo=R(lo), hi=R(hi)) for i, lo, hi in self.w])


NOTGT = dict(n=[], w=[])


def resolve_burn(burn, it):
    return int(it * burn) if burn < 1 else int(burn)


def chain_event(pid, obj, it, burn, lo, hi, calls, cols, want, rows, ok, tgt=None, re=(), items=(), step=(), pri=()):
    return dict(k="chain", pid=pid, obj=obj, it=int(it), burn=resolve_burn(burn, it), lo=RL(lo), hi=RL(hi), ok=ok,
                calls=[dict(p=RL(p), lp=R(v)) for p, v in calls], cols=cols, want=want, rows=[dict(p=RL(r[:-1]), lp=R(r[-1])) for r in rows],
                step=RL(list(step)), pri=RL([list(p) for p in pri]), exact=tgt is not None, tgt=tgt or NOTGT, re=RL(list(re)), items=list(items), ret=dict(ok=False, err="none", shape=[], v=[]))


def shape_ok(rows, n):
    try:
        rows = [[float(x) for x in r] for r in rows]
    except (TypeError, ValueError):
        return None
    return rows if all(len(r) == n + 1 for r in rows) else None


# ------------------------------------------------------------------ the chain function itself
def direct(rng, pid, case=None, long=False):
    d = int(rng.integers(1, 4))
    step = rng.uniform(.2, 1.5, d)
    start = rng.uniform(-1, 1, d)
    bounded = rng.random() < .6
    lo = np.where(rng.random(d) < .7, start - rng.uniform(0, 1.5, d) * step, -INF) if bounded else np.full(d, -INF)
    hi = np.where(rng.random(d) < .7, start + rng.uniform(.05, 1.5, d) * step, INF) if bounded else np.full(d, INF)
    ranges = [[None if x == -INF else float(x), None if y == INF else float(y)] for x, y in zip(lo, hi)] if bounded else None
    kw = dict(step=step if rng.random() < .7 else list(step), disable_bar=bool(rng.random() < .5))
    if bounded:
        kw["ranges"] = ranges
    npri = 0
    if rng.random() < .25:
        npri = int(rng.integers(1, 3))
        rowsp = int(rng.integers(1, 6))
        kw["prior_trace"] = pd.DataFrame(index=np.arange(rowsp) * int(rng.integers(1, 3)) + int(rng.integers(0, 2)), data=rng.normal(0, .5, (rowsp, npri + 1)), columns=["q%d" % i for i in range(npri)] + ["probability"])
    if case is not None:
        it, burn = len(case["script"]), case["burn"]
        f = Scripted(case, None)
        tgt = None
    else:
        it = int(pick(rng, [30, 80, 200, 350]))
        burn = pick(rng, [0, 0.1, 0.3, 5, 20, 1])
        if long:                  # the step size is adapted every 100 iterations of the burn-in
            it = int(pick(rng, [320, 500, 620]))
            burn = pick(rng, [.5, 210, 310])
            step = step * pick(rng, [.01, .3, 1, 30])
            kw["step"] = pick(rng, [step, list(step)])
        n = [(i, rng.normal(0, .7), rng.uniform(.4, 1.5)) for i in range(d + npri)]
        w = [(0, start[0] - rng.uniform(.1, 1), start[0] + rng.uniform(.1, 1))] if rng.random() < .4 else []
        f = Known(rng, None, n, w, False)
        tgt = f.tgt()
    s = list(start) if rng.random() < .5 else start.copy()
    res, err = call(metropolis, f, s, iterations=pick(rng, [int, float])(it), burn=burn, **kw)
    ok = err is None
    rows = shape_ok(res, d + npri) if ok else None
    allnames = ["x"] * (d + npri) + ["probability"]
    lo2, hi2 = list(lo) + [-INF] * npri, list(hi) + [INF] * npri
    return chain_event(pid, "", it, burn, lo2, hi2, f.calls, allnames, allnames, rows or [], ok and rows is not None, tgt, step=step,
                       pri=kw["prior_trace"].values[:, :-1].tolist() if npri else [])


def long_rate(rng, pid, n=3000, small=False):
    """one long chain; only the less probable proposals are of interest"""
    d = int(rng.integers(1, 3))
    f = Known(rng, None, [(i, 0., 1.) for i in range(d)], [], False)
    kw = dict(step=rng.uniform(.2, .5, d) if small else rng.uniform(1.5, 3, d), disable_bar=True)
    if not small and rng.random() < .5:
        kw["ranges"] = [[-6, 6]] * d
    res, err = call(metropolis, f, [float(x) for x in rng.normal(0, .5, d)], iterations=n, burn=0, **kw)
    rows = shape_ok(res, d) if err is None else None
    ev = dict(k="rate", pid=pid, ok=rows is not None, dl=[], acc=[], z=[])
    if rows is not None:
        props = f.calls[len(f.calls) - len(rows):]
        if "ranges" not in kw:    # the moves in units of the step, early and late in the chain
            z = [[(q[i] - a[i]) / kw["step"][i] for i in range(d)] for (q, _), a in zip(props[1:], rows)]
            ev["z"] = RL([np.ravel(z[:700]).tolist(), np.ravel(z[-700:]).tolist()])
        for (q, v), a, b in zip(props[1:], rows, rows[1:]):
            if v < a[-1]:
                ev["dl"].append(R(v - a[-1]))
                ev["acc"].append(1 if b[:-1] == q else 0)
    return ev


# ------------------------------------------------------------------ cameras and groups
def free_names(w, o):
    out, seen = [], set()
    every = list(w.names[o].items())
    w.rng.shuffle(every)                 # a parameter is fitted under one of its names
    for n, c in every:
        base = w.cells[c]["n"]
        if c in seen:
            continue
        if base in ("pos_x_m", "pos_y_m", "elevation_m", "tilt_deg", "roll_deg", "heading_deg", "k1", "focallength_x_px", "center_y_px") \
                and w.cells[c]["m"] is None and not w.f_uncertain(c):
            out.append(str(n))
            seen.add(c)
    return out


SCALE = dict(pos_x_m=2., pos_y_m=2., elevation_m=2., tilt_deg=1., roll_deg=1., heading_deg=3., k1=.002, focallength_x_px=20., center_y_px=5.)


def parameters(w, o, names, walls=False):
    """FitParameter objects; returns them with start, bounds and scales"""
    rng = w.rng
    ps, start, lo, hi, sc, dist = [], [], [], [], [], []
    for n in names:
        s = SCALE[w.cells[w.names[o][n]]["n"]]
        v = float(w.value(w.cells[w.names[o][n]]["n"], False)) % 300 if n.endswith("heading_deg") else float(w.value(w.cells[w.names[o][n]]["n"], False))
        r = rng.random()
        step = float(s * rng.uniform(.3, 1))
        if r < .18 and n.endswith(("pos_x_m", "pos_y_m", "elevation_m", "roll_deg", "heading_deg", "k1")):      # a bound that is exactly zero
            v = float(s * rng.uniform(.05, 1))
            a, b = 0, float(v + s * rng.uniform(.1, 2))
            if not n.endswith(("elevation_m", "heading_deg")) and rng.random() < .5:
                v, a, b = -v, -b, 0
            ps.append(FitParameter(n, lower=pick(rng, [int, float])(a) if a == 0 else a, upper=pick(rng, [int, float])(b) if b == 0 else b, value=v, step=step))
            dist.append(((a + b) / 2, (b - a) / np.sqrt(12), np.sqrt(3) + 1e-9))
        elif r < .6:
            a, b = float(v - s * rng.uniform(.1, 2)), float(v + s * rng.uniform(.1, 2))
            ps.append(FitParameter(n, lower=a, upper=b, value=v, step=step))
            dist.append(((a + b) / 2, (b - a) / np.sqrt(12), np.sqrt(3) + 1e-9))
        elif r < .8:
            a, b = -INF, INF
            ps.append(FitParameter(n, mean=v, std=s, value=v, step=step))
            dist.append((v, s, 50.))
        else:
            a, b = -INF, INF
            ps.append(FitParameter(n, distribution=scipy.stats.uniform(loc=v - s, scale=2 * s), value=v, step=step))
            dist.append((v, 2 * s / np.sqrt(12), np.sqrt(3) + 1e-9))
        start.append(v), lo.append(a), hi.append(b), sc.append(s)
    return ps, start, lo, hi, sc, dist


def chain_on(w, o, pid, case=None):
    rng, obj = w.rng, w.objs[o]
    names = free_names(w, o)
    if not names:
        return False
    rng.shuffle(names)
    names = [str(n) for n in names[:int(rng.integers(1, 4))]]
    ps, start, lo, hi, sc, _ = parameters(w, o, names)
    nadd = int(rng.integers(0, 3)) if rng.random() < .7 else 0
    add = []
    for i in range(nadd):
        v = float(rng.uniform(-1, 1))
        a, b = (v - float(rng.uniform(.2, 1)), v + float(rng.uniform(.2, 1))) if rng.random() < .6 else (-INF, INF)
        st = float(.5 * 10 ** rng.uniform(-1.5, .5))
        add.append(FitParameter("extra%d" % i, lower=a, upper=b, value=v, step=st) if b < INF else FitParameter("extra%d" % i, mean=v, std=1., value=v, step=st))
        start.append(v), lo.append(a), hi.append(b), sc.append(1.)
    for _ in range(int(rng.integers(1, 3)) if rng.random() < .35 else 0):      # a term that is cleared, with its parameters
        call(obj.addCustomoLogProbability, lambda: 0., [FitParameter("gone%d" % i, lower=0, upper=1, value=.5) for i in range(int(rng.integers(0, 3)))])
    call(obj.clearLogProbability)
    w.emit("clear", obj=o, ok=True)
    read = lambda: [getattr(obj, n) for n in names] + [float(v.value) for v in add]
    if case is not None:
        f, it, burn = Scripted(case, read), len(case["script"]), case["burn"]
        tgt = None
        if case["start"] == 0:      # a camera starts with a possible position
            f.case = dict(case, start=1)
    else:
        it = int(pick(rng, [40, 90, 150]))
        burn = pick(rng, [0, .1, .25, 3, 15])
        n = [(i, start[i] + rng.normal(0, .7) * sc[i], rng.uniform(.4, 1.5) * sc[i]) for i in range(len(start))]
        wall = []
        if rng.random() < .5:
            i = int(rng.integers(len(start)))
            wall = [(i, start[i] - sc[i] * rng.uniform(.02, .4), start[i] + sc[i] * rng.uniform(.02, .4))]
            if rng.random() < .4:     # the start is not possible
                ps2 = (ps + add)[i]
                ps2.set_value(wall[0][1] - 1e-3 * sc[i] if lo[i] == -INF else max(lo[i], wall[0][1] - 1e-3 * sc[i]))
        f = Known(rng, read, n, wall, bool(rng.random() < .5))
        tgt = f.tgt()
    call(obj.addCustomoLogProbability, f, *([add] if add else []))
    factor = pick(rng, [None, None, 1, .3, 2.])
    res, err = call(obj.metropolis, ps if rng.random() < .7 else tuple(ps), iterations=pick(rng, [int, float])(it), burn=burn, **({} if factor is None else dict(step=factor)),
                    disable_bar=bool(rng.random() < .7), print_trace=bool(rng.random() < .5))
    ok = err is None and isinstance(res, pd.DataFrame)
    want = names + [v.__name__ for v in add] + ["probability"]
    cols = [str(c) for c in res.columns] if ok else []
    rows = shape_ok(res.values.tolist(), len(start)) if ok else None
    items = w.read_items([(o, n) for n in names])
    w.ev.append(chain_event(pid, o, it, burn, lo, hi, f.calls, cols, want, rows or [], ok and rows is not None, tgt, items=items, step=[p.step * (factor or 1) for p in ps + add]))
    call(obj.clearLogProbability)
    w.traced[o] = names
    w.adopt(items)
    return ok


def chain_fridge(w, o, pid):
    """the sampler of another package, which is given a model of the variables and their probability; here a stand-in for it"""
    rng, obj = w.rng, w.objs[o]
    names = free_names(w, o)
    if not names:
        return False
    rng.shuffle(names)
    names = [str(n) for n in names[:int(rng.integers(1, 4))]]
    ps, start, lo, hi, sc, dist = parameters(w, o, names)
    add = []
    for i in range(int(rng.integers(0, 3))):
        v = float(rng.uniform(-1, 1))
        add.append(FitParameter("extra%d" % i, mean=v, std=1., value=v, step=.5))
        start.append(v), lo.append(-INF), hi.append(INF), sc.append(1.), dist.append((v, 1., 50.))
    call(obj.clearLogProbability)
    w.emit("clear", obj=o, ok=True)
    n = [(i, start[i] + rng.normal(0, .7) * sc[i], rng.uniform(.4, 1.5) * sc[i]) for i in range(len(start))]
    wall = []
    if rng.random() < .4:
        i = int(rng.integers(len(start)))
        wall = [(i, start[i] - sc[i], start[i] + sc[i])]
    f = Known(rng, lambda: [getattr(obj, m) for m in names] + [float(v.value) for v in add], n, wall, bool(rng.random() < .5))
    call(obj.addCustomoLogProbability, f, *([add] if add else []))
    evals, got, want, draws = [], {}, names + [v.__name__ for v in add], []

    def sample(model, count, **kwargs):
        got.update(count=count, kwargs=kwargs, names=[str(v) for v in model.variables])
        kept = []
        for j in range(60):
            if j < 30 or rng.random() < .3:
                model.draw_from_prior()
                if len(evals) < 30:
                    draws.append([float(v.value) for v in model.variables])
            else:
                v = model.variables[int(rng.integers(len(model.variables)))]
                x = float(v.value) + float(rng.normal(0, .3)) * v.step
                if rng.random() < .5:
                    v.set_value(x)
                else:
                    v.value = np.array(x)
            p = [float(v.value) for v in model.variables]
            if rng.random() < .2:
                model.logp
            evals.append((p, float(model.logp)))
            if rng.random() < .5:
                kept.append(p)
        kept = np.array(kept)[rng.permutation(len(kept))]
        got["kept"] = kept.tolist()
        return {str(v): kept[:, i] for i, v in enumerate(model.variables)}, 1.0

    stub = types.ModuleType("bayesianfridge")
    stub.sample = sample
    old, sys.modules["bayesianfridge"] = sys.modules.get("bayesianfridge"), stub
    kw = pick(rng, [{}, dict(tune=3)])
    it = int(rng.integers(50, 200))
    try:
        res, err = call(obj.fridge, ps, **dict(kw, iterations=pick(rng, [int, float])(it)))
    finally:
        del sys.modules["bayesianfridge"]
        if old is not None:
            sys.modules["bayesianfridge"] = old
    ok = err is None and isinstance(res, pd.DataFrame) and "kept" in got
    cols = [str(c) for c in res.columns] if ok else []
    rows = shape_ok(res.values.tolist(), len(start)) if ok else None
    items = w.read_items([(o, m) for m in names])
    e = chain_event(pid, o, it, 0, lo, hi, [], cols, want + ["probability"], rows or [], ok and rows is not None, f.tgt(), items=items)
    e.update(k="fridge", evals=[dict(p=RL(p), lp=R(v)) for p, v in evals], kept=RL(got.get("kept", [])),
             given=ok and got["count"] == it and got["kwargs"] == kw and got["names"] == want)
    w.ev.append(e)
    w.emit("draws", z=RL([[(p[i] - dist[i][0]) / dist[i][1] for p in draws] for i in range(len(start))]), zmax=RL([d[2] for d in dist]))
    call(obj.clearLogProbability)
    w.traced[o] = names
    w.adopt(items)
    return ok


def chain_real(w, pid):
    """information terms as the target: the probability of every row is evaluated again"""
    rng = w.rng
    k = pick(rng, list(w.cams))
    obj = w.objs[k]
    names = [n for n in free_names(w, k) if n in ("elevation_m", "tilt_deg", "pos_x_m")]
    if not names:
        return False
    ps, start, lo, hi, sc, _ = parameters(w, k, names)
    t = Terms(w)
    call(obj.clearLogProbability)
    w.emit("clear", obj=k, ok=True)
    n0 = len(w.ev)
    for _ in range(2):
        t.add_objects(k, bool(rng.random() < .5))
    w.ev[n0:] = []            # these terms are cleared below
    add = [v for v in t.vars.values() if any(x[0]["var"] == v.__name__ for x in t.own[k])]
    lp, err = call(obj.getLogProbability)
    it, burn = 30, 5
    res, err = call(obj.metropolis, ps, iterations=it, burn=burn, disable_bar=True, print_trace=False)
    if isinstance(err, ValueError):
        call(obj.clearLogProbability)
        w.op_set(k, "elevation_m", 20.0)
        return None
    ok = err is None and isinstance(res, pd.DataFrame)
    want = names + [v.__name__ for v in add] + ["probability"]
    cols = [str(c) for c in res.columns] if ok else []
    rows = shape_ok(res.values.tolist(), len(want) - 1) if ok else None
    items = w.read_items([(k, n) for n in names])
    re = []
    for r in rows or []:
        obj.parameters.set_fit_parameters(names, r[:len(names)])
        for v, x in zip(add, r[len(names):]):
            v.set_value(x)
        re.append(float(call(obj.getLogProbability)[0]))
    w.ev.append(chain_event(pid, k, it, burn, lo + [.01] * len(add), hi + [5.] * len(add), [], cols, want, rows or [], ok and rows is not None, None, re, items))
    call(obj.clearLogProbability)
    w.traced[k] = names
    if ok:
        w.op_sample(k, mean=True)
    return ok


def after(w, o, pid):
    rng = w.rng
    w.reads(pairs=[(o, n) for n in w.names[o]])
    for k in (w.groups[o] if o in w.groups else [o]):
        w.probe(k)
    for _ in range(2):
        w.op_sample(o, mean=bool(rng.random() < .4))
    w.reads(pairs=[(o, n) for n in w.names[o]])
    w.open(o)


def c18(rng, size, pid="C18"):
    ev = [dict(k="reset"), long_rate(rng, pid), long_rate(rng, pid, 1500, True)]
    for _ in range(size):
        w = world(rng, pid)
        for _ in range(2):
            for _ in range(3):
                w.random_op(OPS)
            o = pick(rng, list(w.cams) + list(w.groups))
            if rng.random() < .3:
                if chain_real(w, pid) is None:
                    break
                continue
            if (chain_fridge if rng.random() < .25 else chain_on)(w, o, pid):
                after(w, o, pid)
            else:
                break
        ev += w.ev
        for _ in range(2):
            ev.append(direct(rng, pid))
        if rng.random() < .15:
            ev.append(direct(rng, pid, long=True))
    return ev


def c18_script(rng, size, cases, pid="C18"):
    """every sequence of proposals of the design model"""
    ev = [dict(k="reset")]
    cases = list(cases)
    if size and len(cases) > size:
        cases = [cases[i] for i in rng.choice(len(cases), size, replace=False)]
    for n, case in enumerate(cases):
        ev.append(direct(rng, pid, case))
        if n % 8 == 0:
            w = world(rng, pid, group=rng.random() < .3)
            o = pick(rng, list(w.cams) + list(w.groups))
            if len(case["script"]) - case["burn"] >= 3 and chain_on(w, o, pid, case):
                w.reads(pairs=[(o, m) for m in w.names[o]])
            ev += w.ev
    return ev


# ------------------------------------------------------------------ fits
def fit_on(w, o, pid):
    """returns False when the camera is in an unspecified state afterwards"""
    rng, obj = w.rng, w.objs[o]
    names = free_names(w, o)
    if not names:
        return True
    rng.shuffle(names)
    names = [str(n) for n in names[:int(rng.integers(1, 4))]]
    ps, start, lo, hi, sc, dist = parameters(w, o, names)
    call(obj.clearLogProbability)
    w.emit("clear", obj=o, ok=True)
    read = lambda: [getattr(obj, n) for n in names]
    n = [(i, start[i] + rng.normal(0, .8) * sc[i], rng.uniform(.4, 1.5) * sc[i]) for i in range(len(start))]
    r = rng.random()
    wall, feasible = [], True
    if r < .35:
        i = int(rng.integers(len(start)))
        wall = [(i, start[i] - sc[i] * rng.uniform(.02, .4), start[i] + sc[i] * rng.uniform(.02, .4))]
        if rng.random() < .6:
            v = wall[0][1] - 1e-3 * sc[i]
            v = max(lo[i], v)
            if v < wall[0][1]:
                ps[i].set_value(v)
                start[i] = v
    elif r < .5:
        wall, feasible = [(0, INF, -INF)], False
    f = Known(rng, read, n, wall, bool(rng.random() < .5))
    call(obj.addCustomoLogProbability, f, *([[FitParameter("extra", lower=0, upper=1, value=.5)]] if rng.random() < .2 else []))
    kw = pick(rng, [{}, {}, dict(iterations=40), dict(iterations=2), dict(method="Nelder-Mead"), dict(method="L-BFGS-B", iterations=30)])
    res, err = call(obj.fit, ps if rng.random() < .7 else tuple(ps), **kw)
    ok = err is None
    x, fun = [], R(0)
    if ok:
        try:
            x, fun = [float(v) for v in np.atleast_1d(res["x"])], R(float(np.ravel(res["fun"])[0]))
        except Exception:
            ok = False
    w.emit("fitrun", obj=o, names=names, lo=RL(lo), hi=RL(hi), start=RL(start), x=RL(x), fun=fun, ok=ok, err=type(err).__name__ if err is not None else "",
           feasible=feasible, exact=True, tgt=f.tgt(), calls=[dict(p=RL(p), lp=R(v)) for p, v in f.calls], lp0=R(0), lpx=R(0))
    if not feasible:
        draws = []
        for p, _ in f.calls[1:]:
            if not draws or p != draws[-1]:
                draws.append(p)
        if draws and draws[0] == start:
            draws = draws[1:]
        z = [[(p[i] - dist[i][0]) / dist[i][1] for p in draws] for i in range(len(names))]
        w.emit("draws", z=RL(z), zmax=RL([d[2] for d in dist]))
    call(obj.clearLogProbability)
    if not ok or not feasible:
        return False
    for m, v in zip(names, x):
        w.cells[w.names[o][m]]["v"] = v
    return True


def fit_real(w, pid):
    rng = w.rng
    k = pick(rng, list(w.cams))
    obj = w.objs[k]
    names = [n for n in free_names(w, k) if n in ("elevation_m", "tilt_deg", "roll_deg")]
    if not names:
        return True
    ps, start, lo, hi, sc, _ = parameters(w, k, names)
    t = Terms(w)
    call(obj.clearLogProbability)
    w.emit("clear", obj=k, ok=True)
    n0 = len(w.ev)
    for _ in range(2):
        t.add_objects(k, bool(rng.random() < .5))
    if rng.random() < .5:
        t.add_landmark(k, False)
    w.ev[n0:] = []
    old = [getattr(obj, n) for n in names]
    obj.parameters.set_fit_parameters(names, start)
    lp0 = call(obj.getLogProbability)[0]
    if lp0 is None or not np.isfinite(lp0):
        call(obj.clearLogProbability)
        for n, v in zip(names, old):
            w.op_set(k, n, v)
        return True
    res, err = call(obj.fit, ps, **pick(rng, [{}, dict(iterations=10), dict(method="Nelder-Mead", iterations=40)]))
    ok = err is None
    x, fun = [], R(0)
    if ok:
        x, fun = [float(v) for v in np.atleast_1d(res["x"])], R(float(np.ravel(res["fun"])[0]))
    lpx = call(obj.getLogProbability)[0]
    w.emit("fitrun", obj=k, names=names, lo=RL(lo), hi=RL(hi), start=RL(start), x=RL(x), fun=fun, ok=ok, err=type(err).__name__ if err is not None else "",
           feasible=True, exact=False, tgt=NOTGT, calls=[], lp0=R(lp0), lpx=R(np.nan if lpx is None else lpx))
    call(obj.clearLogProbability)
    for m, v in zip(names, x):
        w.cells[w.names[k][m]]["v"] = v
    return ok


def c25(rng, size, pid="C25"):
    ev = []
    for _ in range(size):
        w = world(rng, pid)
        for _ in range(4):
            for _ in range(2):
                w.random_op(OPS)
            if rng.random() < .25:
                go = fit_real(w, pid)
                o = None
            else:
                o = pick(rng, list(w.cams) + list(w.groups))
                go = fit_on(w, o, pid)
            if not go:
                break
            for q in list(w.cams) + list(w.groups):
                if q == o or rng.random() < .5:
                    w.reads(pairs=[(q, n) for n in w.names[q]])
            w.probe_all()
            w.open(o)
        ev += w.ev
    return ev
