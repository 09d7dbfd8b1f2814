"""Information terms in histories of camera changes (C17)."""
import numpy as np
from vh import R, RL, obs, call, encode, failed, values
import cams
from cams import pick
from d_store import World, world, sample_group, PARAM_OPS
from cameratransform.statistic import FitParameter

OPS = ["set", "set", "unc", "none", "default", "fit", "sample", "mean", "gps"]


def flat(a):
    return [R(x) for x in np.asarray(a, dtype=float).ravel()]


class Terms:
    behind = False      # landmarks behind the camera have no defined density

    def __init__(self, w):
        self.w, self.rng = w, w.rng
        self.own = {o: [] for o in list(w.cams) + list(w.groups)}
        self.data, self.vars, self.n = [], {}, 0

    def keep(self, *arrays):
        self.data += [a for a in arrays if isinstance(a, np.ndarray)]

    def var(self):
        v = FitParameter("v%d" % len(self.vars), lower=0.01, upper=5, value=float(self.rng.uniform(.05, 2)))
        self.vars[v.__name__] = v
        return v

    def emit(self, obj, t, plot, fn, seen, info=None):
        self.n += 1
        t["id"] = "t%d" % self.n
        ok, _ = self.w.do(fn)
        self.w.emit("term", obj=obj, plot=plot, ok=ok, t=t)
        if not plot:
            self.own[obj].append((t, seen))
        if info is not None:
            self.show(obj, t["id"], info)

    def show(self, obj, id, info):
        pass

    def kw(self):
        r = self.rng.random()
        color = dict(plot_color=pick(self.rng, [None, "r", "C0"])) if self.rng.random() < 0.4 else {}
        return (True, dict(only_plot=True, **color)) if r < 0.2 else (False, dict(only_plot=False, **color)) if r < 0.35 else (False, color)

    # ------------------------------------------------------------ cameras
    def ground(self, k, n):
        """n pairs of pixels of points on the ground in view"""
        p = self.w.rec(k)
        rng = self.rng
        cam = cams.camera(p)
        out = []
        for _ in range(n):
            q = np.array([rng.uniform(0.1, .9) * p["w"], rng.uniform(.5, .95) * p["h"]])
            g, err = call(cam.spaceFromImage, q, Z=0)
            if err is None and np.all(np.isfinite(g)) and rng.random() < 0.9:
                a, d = rng.uniform(0, 2 * np.pi), rng.uniform(.3, 3)
                h = np.array(g) + (np.array([0, 0, d]) if rng.random() < .5 else d * np.array([np.cos(a), np.sin(a), 0]))
                q2, err = call(cam.imageFromSpace, h)
                if err is None and np.all(np.isfinite(q2)):
                    out.append((q, np.asarray(q2)))
                    continue
            out.append((q, q + rng.uniform(-30, 30, 2)))
        return np.array([a for a, _ in out], dtype=float), np.array([b for _, b in out], dtype=float)

    def add_objects(self, k, length):
        rng, cam = self.rng, self.w.objs[k]
        n = int(rng.integers(0, 4))
        a, b = self.ground(k, max(n, 1))
        if n == 0:
            a, b = a[0], b[0]
        vec = n > 0
        mu = rng.uniform(.5, 3, n) if vec and rng.random() < .4 else float(rng.uniform(.5, 3))
        r = rng.random()
        v = self.var() if r < .3 else rng.uniform(.1, 2, n) if vec and r < .6 else float(rng.uniform(.1, 2))
        plot, kw = self.kw()
        t = dict(kind="objects", mu=flat(mu), sd=flat([1]) if isinstance(v, FitParameter) else flat(v), var=v.__name__ if isinstance(v, FitParameter) else "")
        self.keep(a, b, mu, v)
        A, B = a.copy(), b.copy()
        if length:
            Z = pick(rng, [0, 0, 1.5, -1.0])
            if Z or rng.random() < .3:
                kw["Z"] = Z
            fn = lambda: cam.addObjectLengthInformation(a, b, mu, v, **kw)
            seen = lambda: dict(x=flat(cam.getObjectLength(A, B, Z)))
        else:
            fn = lambda: cam.addObjectHeightInformation(a, b, mu, v, **kw)
            seen = lambda: dict(x=flat(cam.getObjectHeight(A, B)))
        self.emit(k, t, plot, fn, seen, dict(kind="length" if length else "height", a=A, b=B, size=flat(mu), Z=Z if length else 0))

    def add_landmark(self, k, gps):
        rng, cam, p = self.rng, self.w.objs[k], self.w.rec(k)
        n = int(rng.integers(0, 4))
        m = max(n, 1)
        fresh = cams.camera(p)
        pix, lm = [], []
        for _ in range(m):
            q = np.array([rng.uniform(0.1, .9) * p["w"], rng.uniform(.1, .95) * p["h"]])
            g, err = call(fresh.spaceFromImage, q, D=float(rng.uniform(5, 80)))
            if err is not None or not np.all(np.isfinite(g)):
                g = np.array(p["pos"]) + rng.uniform(-20, 20, 3)
            elif self.behind and rng.random() < .15:
                g = 2 * np.array(p["pos"]) - np.array(g)
            pix.append(q)
            lm.append(np.array(g) + rng.normal(0, .5, 3))
        pix, lm = np.array(pix), np.array(lm)
        r = rng.random()
        sd = float(rng.uniform(.5, 4)) if r < .3 else rng.uniform(.5, 5, 3) if r < .65 or n == 0 else rng.uniform(.5, 5, (m, 3))
        if gps:
            lm, err = call(cam.gpsFromSpace, lm)
            if err is not None or not np.all(np.isfinite(lm)):
                return
            lm = np.array(lm, dtype=float)
        if n == 0:
            pix, lm = pix[0], lm[0]
        plot, kw = self.kw()
        unc = pick(rng, [sd, np.array(sd).tolist()])
        S = np.broadcast_to(np.atleast_2d(sd) if np.ndim(sd) else np.full((1, 3), sd), (m, 3))
        t = dict(kind="landmark", sd3=RL(S), off=R(np.max(sd)), var="", mu=[], sd=[])
        self.keep(pix, lm, unc)
        P, L = np.atleast_2d(pix.copy()), np.atleast_2d(lm.copy())

        def seen():
            o, d = cam.getRay(P, normed=True)
            return dict(org=flat(o), dir=RL(np.asarray(d)), lm=RL(np.asarray(cam.spaceFromGPS(L)) if gps else L))
        add = cam.addLandmarkInformationGPS if gps else cam.addLandmarkInformation
        self.emit(k, t, plot, lambda: add(pix, lm, unc, **kw), seen, dict(kind="landmark", a=P, lm=lambda: np.asarray(cam.spaceFromGPS(L)) if gps else L))

    def add_horizon(self, k):
        rng, cam, p = self.rng, self.w.objs[k], self.w.rec(k)
        n = int(rng.integers(0, 4))
        h = np.array([[rng.uniform(0, p["w"]), rng.uniform(0, .6) * p["h"]] for _ in range(max(n, 1))])
        if n == 0:
            h = h[0]
        sd = rng.uniform(1, 60, n) if n and rng.random() < .5 else float(rng.uniform(1, 60))
        plot, kw = self.kw()
        arg = h if rng.random() < .6 else h.tolist()
        self.keep(arg, sd)
        H = h.copy()
        self.emit(k, dict(kind="objects", mu=flat([0]), sd=flat(sd), var=""), plot, lambda: cam.addHorizonInformation(arg, sd, **kw),
                  lambda: dict(x=flat(H[..., 1] - np.asarray(cam.getImageHorizon(H[..., 0]))[..., 1])),
                  dict(kind="horizon", a=H, hor=lambda: np.asarray(cam.getImageHorizon(H[..., 0]))))

    def add_custom(self, o):
        rng, obj = self.rng, self.w.objs[o]
        if rng.random() < .12:
            c = pick(rng, [np.nan, -np.inf, -3.5])
            self.custom(o, lambda: c, dict(kind="constant", c=R(c), var="", mu=[], sd=[]))
            return
        names = [n for n in self.w.names[o] if n.split("_")[-1] in ("m", "deg") and "heading" not in n and "pitch" not in n]
        if not names:
            return
        n = pick(rng, names)
        c = float(rng.uniform(-5, 40))
        t = dict(kind="custom", cam=o, name=n, c=R(c), var="", mu=[], sd=[])
        if rng.random() < .3:
            v = self.var()
            fn = lambda: obj.addCustomoLogProbability(lambda: -(getattr(obj, n) - c) ** 2, [v])
        else:
            return self.custom(o, lambda: -(getattr(obj, n) - c) ** 2, t)
        self.emit(o, t, False, fn, lambda: dict(x=[]))

    def custom(self, o, fn, t):
        """the same function perhaps several times, with the same or other cameras"""
        for q in [o] + ([pick(self.rng, list(self.own)) for _ in range(int(self.rng.integers(1, 3)))] if self.rng.random() < .5 else []):
            self.emit(q, dict(t), False, lambda: self.w.objs[q].addCustomoLogProbability(fn), lambda: dict(x=[]))

    # ------------------------------------------------------------ groups
    def add_baseline(self, g):
        rng, obj = self.rng, self.w.objs[g]
        mu, sd = float(rng.uniform(1, 40)), float(rng.uniform(1, 10))
        t = dict(kind="baseline", cam=g, mu=[R(mu)], sd=[R(sd)], var="")
        if rng.random() < .3:
            t["sd"] = [R(6)]
            fn = lambda: obj.addBaselineInformation(mu)
        else:
            fn = lambda: obj.addBaselineInformation(mu, sd)
        self.emit(g, t, False, fn, lambda: dict(x=[]))

    def add_pairs(self, g):
        rng, obj = self.rng, self.w.objs[g]
        ks = self.w.groups[g][:2]
        n = int(rng.integers(1, 4))
        c = []
        recs = [self.w.rec(k) for k in ks]
        fr = [cams.camera(p) for p in recs]
        one, two = [], []
        for _ in range(n):
            for _ in range(6):
                q = np.array([rng.uniform(0.1, .9) * recs[0]["w"], rng.uniform(.4, .9) * recs[0]["h"]])
                x, err = call(fr[0].spaceFromImage, q, D=float(rng.uniform(5, 100)))
                y, err2 = call(fr[1].imageFromSpace, x) if err is None else (None, err)
                if err2 is None and np.all(np.isfinite(y)) and np.all(np.abs(y) < 5000):
                    break
            else:
                y = q + 1.0
            one.append(q + rng.normal(0, .5, 2))
            two.append(np.asarray(y, dtype=float) + rng.normal(0, 2, 2))
        c = [np.array(one), np.array(two)]
        C = [x.copy() for x in c]
        sd = float(rng.uniform(.5, 4))
        self.keep(*c)
        t = dict(kind="pairs", mu=[], sd=[R(sd)], var="")
        if rng.random() < .3:
            t["sd"] = [R(1)]
            fn = lambda: obj.addPointCorrespondenceInformation(c[0], c[1])
        else:
            fn = lambda: obj.addPointCorrespondenceInformation(c[0], c[1], sd)

        def seen():
            a, b, q = [], [], []
            for i in (0, 1):
                o, d = self.w.objs[ks[i]].getRay(C[i])
                a.append(RL(np.asarray(self.w.objs[ks[1 - i]].imageFromSpace(o + d * 1))))
                b.append(RL(np.asarray(self.w.objs[ks[1 - i]].imageFromSpace(o + d * 2))))
                q.append(RL(C[1 - i]))
            return dict(a=a, b=b, q=q)
        self.emit(g, t, False, fn, seen)

    # ------------------------------------------------------------ histories
    def add(self):
        rng, w = self.rng, self.w
        if w.groups and rng.random() < .3:
            g = pick(rng, list(w.groups))
            if len(w.groups[g]) < 2:
                return self.add_custom(g)
            return pick(rng, [self.add_baseline, self.add_pairs, self.add_pairs, self.add_custom])(g)
        k = pick(rng, list(w.cams))
        r = rng.random()
        if r < .25:
            self.add_objects(k, False)
        elif r < .5:
            self.add_objects(k, True)
        elif r < .65:
            self.add_landmark(k, False)
        elif r < .78:
            self.add_landmark(k, True)
        elif r < .88:
            self.add_horizon(k)
        else:
            self.add_custom(k)

    def clear(self):
        o = pick(self.rng, list(self.own))
        ok, _ = self.w.do(self.w.objs[o].clearLogProbability)
        self.w.emit("clear", obj=o, ok=ok)
        self.own[o] = []

    def vary(self):
        for v in self.vars.values():
            if self.rng.random() < .5:
                v.set_value(float(self.rng.uniform(.05, 2)))

    def logprob(self, o):
        w = self.w
        terms = self.own[o] + [t for k in w.groups.get(o, []) for t in self.own[k]]
        seen = {}
        for t, fn in terms:
            s, err = call(fn)
            if err is not None:
                return
            seen[t["id"]] = s
        before = [flat(a) for a in self.data]
        fn = w.objs[o].getLogProbability
        ev = dict(obj=o, o=obs(fn), o2=obs(fn), seen=seen, vars={n: R(v.value) for n, v in self.vars.items()}, before=before, after=[flat(a) for a in self.data])
        w.emit("logprob", **ev)
        w.reads(pairs=[(o, n) for n in w.names[o]])


def c17(rng, size, pid="C17"):
    ev = []
    for _ in range(size):
        w = world(rng, pid, group=rng.random() < .7)
        t = Terms(w)
        for o in t.own:
            if rng.random() < .3:
                t.logprob(o)
        for _ in range(9):
            r = rng.random()
            if r < .55:
                for _ in range(int(rng.integers(1, 3))):
                    t.add()
            if .45 < r < .8:
                w.random_op(OPS)
                t.vary()
            if r > .93:
                t.clear()
            o = pick(rng, list(t.own))
            t.logprob(o)
            if rng.random() < .3:
                o = pick(rng, list(t.own))
                t.logprob(o)
        for o in t.own:
            t.logprob(o)
        ev += w.ev
    return ev
