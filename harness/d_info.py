"""Plots of the fit information and summaries of traces in histories of camera changes (C27)."""
import contextlib, io
import numpy as np
from vh import R, RL, call
import cams
from cams import pick
from d_store import world
from d_terms import Terms, OPS, flat
from cameratransform.statistic import printTraceSummary


def pts(a):
    return [[float(x), float(y)] for x, y in np.asarray(np.ma.filled(np.ma.asarray(a, dtype=float), np.nan)).reshape(-1, 2)]


class Shown(Terms):
    behind = True

    def __init__(self, w):
        super().__init__(w)
        self.infos, self.frames = {}, {}

    def show(self, obj, id, info):
        lm, hor = info.get("lm"), info.get("hor")
        self.infos.setdefault(obj, []).append((id, lm, hor))
        self.w.emit("infoadd", obj=obj, t=dict(id=id, kind=info["kind"], a=RL(pts(info["a"])), b=RL(pts(info["b"])) if "b" in info else [],
                                               size=info.get("size", []), Z=R(info.get("Z", 0)), lm=[], hor=[]))

    def plot(self, k):
        import matplotlib.pyplot as plt
        w, rng = self.w, self.rng
        cam, p = w.objs[k], w.rec(k)
        seen = {}
        horizon = False
        for id, lm, hor in self.infos.get(k, []):
            a, e1 = call(lm) if lm else ([], None)
            b, e2 = call(hor) if hor else ([], None)
            horizon = horizon or bool(hor)
            if e1 or e2:
                return
            seen[id] = dict(lm=RL(np.asarray(a, dtype=float).reshape(-1, 3)) if lm else [], hor=RL(pts(b)) if hor else [])
        line, err = call(cam.getImageHorizon, np.arange(cam.image_width_px)) if horizon else (np.zeros((0, 2)), None)
        if err is not None:
            return
        plt.close("all")
        ax = plt.figure().gca()
        image = rng.integers(0, 255, (p["h"], p["w"])).astype("uint8") if rng.random() < .4 else None
        _, err = call(cam.plotFitInformation, *(() if image is None and rng.random() < .5 else (image,)))
        marks, segs, dashes, rings = [], [], [], []
        for l in ax.lines:
            d = pts(np.c_[np.asarray(l.get_xdata(), dtype=float).ravel(), np.asarray(l.get_ydata(), dtype=float).ravel()])
            if l.get_linestyle() in ("None", "", " ", "none"):
                marks += d
            elif l.get_linestyle() == "--":
                dashes.append(d)
            else:
                segs += [[a, b] for a, b in zip(d, d[1:]) if np.all(np.isfinite(a)) and np.all(np.isfinite(b))]
        for c in ax.collections:
            rings += pts(c.get_offsets())
        w.emit("info", cam=k, ok=err is None, seen=seen, marks=RL(marks), segs=RL(segs), dashes=RL(dashes), rings=RL(rings), line=RL(pts(line)),
               xlim=RL(ax.get_xlim()), ylim=RL(ax.get_ylim()), image=len(ax.images), wantimage=int(image is not None))
        plt.close("all")

    def summary(self, o):
        w = self.w
        out = io.StringIO()
        log = []
        with contextlib.redirect_stdout(out):
            if self.rng.random() < .5 and o in self.frames:
                df = self.frames[o]
                kw = {}
                if self.rng.random() < .7:
                    log = [bool(b) and bool(np.all(np.abs(df[c]) < 20)) for b, c in zip(self.rng.random(len(df.columns) - 1) < .6, df.columns)]
                    kw = dict(logarithmic=log)
                _, err = call(printTraceSummary, df, **kw)
            else:
                _, err = call(w.objs[o].printTraceSummary)
        names, mean, std, n = [], [], [], -1
        ok = err is None
        try:
            lines = [l for l in out.getvalue().splitlines() if l.strip()] if ok else []
            for l in lines:
                if l.startswith("Trace"):
                    n = int(l.split()[1])
                    continue
                name, v = l.rsplit(None, 1)
                a, b = v.split("±")
                names.append(name)
                mean.append(float(a))
                std.append(float(b))
        except (ValueError, IndexError):
            ok = False
        w.emit("summary", obj=o, ok=ok, n=n, names=names, mean=RL(mean), std=RL(std), log=log)

    def traceplot(self, o):
        import matplotlib.pyplot as plt
        w, rng = self.w, self.rng
        plt.close("all")
        fig = plt.figure()
        kw = {}
        just, marked, skip, N = bool(rng.random() < .3), bool(rng.random() < .8), int(pick(rng, [1, 1, 2, 3])), 99
        if just:
            kw["just_distributions"] = True
        if not marked:
            kw["show_mean_median"] = False
        if skip > 1:
            kw["skip"] = skip
        if rng.random() < .3:
            N = kw["N"] = int(rng.integers(1, 4))
        with contextlib.redirect_stdout(io.StringIO()):
            _, err = call(w.objs[o].plotTrace, **kw)
        names, lines, v, h = [], [], [], []
        for ax in fig.axes:
            straight = [l for l in ax.lines if len(l.get_xdata()) == 2 and l.get_transform() != ax.transData]
            if ax.get_xlabel():               # the distribution
                names.append(ax.get_xlabel())
                v.append([float(l.get_xdata()[0]) for l in straight])
                if just:
                    h.append([])
            else:
                h.append([float(l.get_ydata()[0]) for l in straight])
                rest = [l for l in ax.lines if l not in straight]
                lines.append([float(y) for y in rest[0].get_ydata()] if len(rest) == 1 else [])
        w.emit("traceplot", obj=o, ok=err is None, just=just, marked=marked, skip=skip, N=N, names=names, lines=RL(lines), v=RL(v), h=RL(h))
        plt.close("all")


def c27(rng, size, pid="C27"):
    ev = []
    for _ in range(size):
        w = world(rng, pid, small=rng.random() < .7, group=rng.random() < .2)
        t = Shown(w)
        for _ in range(8):
            r = rng.random()
            if r < .7:
                k = pick(rng, list(w.cams))
                [lambda: t.add_objects(k, False), lambda: t.add_objects(k, True), lambda: t.add_landmark(k, False), lambda: t.add_landmark(k, True), lambda: t.add_horizon(k)][int(rng.integers(5))]()
            if .5 < r < .85:
                w.random_op(OPS)
            if r > .96:
                t.clear()
            if rng.random() < .3:
                o = pick(rng, list(w.cams) + list(w.groups))
                df = w.op_trace(o)
                if df is not None:
                    t.frames[o] = df
            for o in [o for o in w.traced if o in w.objs]:
                if rng.random() < .3:
                    t.summary(o)
                if rng.random() < .15:
                    t.traceplot(o)
            t.plot(pick(rng, list(w.cams)))
        for k in list(w.cams):
            t.plot(k)
        ev += w.ev
    return ev
