"""Scenes and the epipolar plots of a camera pair (C28, T_Scene.tla)."""
import contextlib, io, os, struct
import numpy as np
from vh import R, RL, obs, call
import cams
from cams import pick
import cameratransform as ct

NAMES = dict(thr=["tilt_deg", "roll_deg", "heading_deg"], ypr=["yaw_deg", "pitch_deg", "roll_deg"])


def xy(l):
    return np.c_[np.asarray(l.get_xdata(), dtype=float).ravel(), np.asarray(l.get_ydata(), dtype=float).ravel()].tolist()


def segments(ax):
    out = []
    for l in ax.lines:
        if l.get_linestyle() in ("None", "", " ", "none"):
            continue
        d = xy(l)
        out += [[a, b] for a, b in zip(d, d[1:]) if np.all(np.isfinite(a)) and np.all(np.isfinite(b))]
    for c in ax.collections:
        if hasattr(c, "get_segments"):
            for d in c.get_segments():
                d = np.asarray(d, dtype=float)[:, :2].tolist()
                out += [[a, b] for a, b in zip(d, d[1:]) if np.all(np.isfinite(a)) and np.all(np.isfinite(b))]
    return out


def camera_params(rng):
    p = cams.params(rng, sane=rng.random() < .7, lens=pick(rng, ["none", "none", "brown", "abc"]))
    p["w"], p["h"] = int(rng.integers(8, 40)), int(rng.integers(8, 40))
    p["fx"] = float(rng.uniform(.6, 2)) * p["w"]
    p["fy"] = max(p["fx"] * float(rng.uniform(.8, 1.2)), p["h"] / 2.5)
    p["cx"], p["cy"] = p["w"] * float(rng.uniform(.3, .7)), p["h"] * float(rng.uniform(.3, .7))
    p["pos"][0], p["pos"][1] = float(rng.uniform(-20, 20)), float(rng.uniform(-20, 20))
    return p


class Run:
    def __init__(self, rng):
        self.rng, self.ev, self.cam, self.p = rng, [dict(k="reset", c=[])], None, None
        self.scene = ct.Scene()

    def setcam(self, new):
        rng = self.rng
        err = None
        if new or self.cam is None:
            self.p = camera_params(rng)
            self.cam, err = call(cams.camera, self.p)
        else:                                    # the camera of the scene moves
            for i, n in enumerate(["pos_x_m", "pos_y_m"]):
                self.p["pos"][i] = float(rng.uniform(-20, 20))
                setattr(self.cam, n, self.p["pos"][i])
            i = int(rng.integers(3))
            self.p["a"][i] = float(rng.uniform(-80, 80))
            setattr(self.cam, NAMES[self.p["ori"]][i], self.p["a"][i])
        if err is None and (new or self.scene.camera is not self.cam):
            _, err = call(self.scene.setCamera, self.cam)
        self.ev.append(dict(k="setcam", ok=err is None, c=cams.record(self.p)))

    def spot(self):
        """somewhere, mostly in view"""
        rng = self.rng
        if self.p is not None and rng.random() < .8:
            v = np.array([rng.uniform(-.5, .5), rng.uniform(-.5, .5), -1.0])
            return np.array(self.p["pos"]) + cams.rot(self.p).T @ v * rng.uniform(3, 60)
        return rng.uniform(-30, 30, 3)

    def add(self):
        rng = self.rng
        kind = pick(rng, ["own", "cube", "rect", "grid"])
        o = dict(kind=kind, pts=[], pos=[], width=R(0), xs=[], ys=[])
        if kind == "own":
            pts = np.array([self.spot() for _ in range(int(rng.integers(1, 7)))])
            if rng.random() < .4 and len(pts) > 2:
                pts[int(rng.integers(1, len(pts)))] = np.nan
            o["pts"] = RL(pts)
            ret, err = call(self.scene.add, pts)
        elif kind == "grid":
            xs = rng.permutation(np.round(rng.uniform(-20, 20, int(rng.integers(1, 4))), 2) + (0 if self.p is None else self.p["pos"][0]))
            ys = rng.permutation(np.round(rng.uniform(1, 40, int(rng.integers(1, 4))), 2) + (0 if self.p is None else self.p["pos"][1]))
            o["xs"], o["ys"] = RL(xs), RL(ys)
            ret, err = call(self.scene.addGrid, *pick(rng, [(xs, ys), (xs.tolist(), ys.tolist())]))
        else:
            pos, width = self.spot(), pick(rng, [1, 2, 0.5, 3, float(rng.uniform(.1, 10))])
            o["pos"], o["width"] = RL(pos), R(width)
            ret, err = call(self.scene.addCube if kind == "cube" else self.scene.addRect, *pick(rng, [(pos, width), (pos.tolist(), width), (tuple(pos), width)]))
        e = dict(k="add", o=o, ok=err is None, ret=[])
        if err is None and kind != "own":
            try:
                e["ret"] = RL(np.asarray(ret, dtype=float).reshape(-1, 3))
            except (TypeError, ValueError):
                e["ok"] = False
        self.ev.append(e)

    def views(self):
        import matplotlib.pyplot as plt
        rng = self.rng
        plt.close("all")
        fig = plt.figure()
        axes = [fig.add_subplot(1, 4, i + 1) for i in range(4)] if rng.random() < .3 else None
        _, err = call(self.scene.plotSceneViews, *(() if axes is None and rng.random() < .5 else (axes,)))
        axes = axes or fig.axes
        e = dict(k="views", ok=err is None and len(axes) >= 3, views=[[], [], []], img=[], hp=[], cone=[], horizon=False, xlim=[], ylim=[])
        if e["ok"]:
            e["views"] = RL([segments(a) for a in axes[:3]])
        if e["ok"] and self.cam is not None:
            cone, e1 = call(self.cam.getCameraCone)
            w = self.cam.image_width_px
            line, e2 = call(self.cam.getImageHorizon, np.linspace(0, w, 100))
            if e1 or e2:
                return
            e["cone"] = RL(np.asarray(cone, dtype=float))
            e["horizon"] = bool(np.all(np.isfinite(np.asarray(line, dtype=float))))
            if len(axes) < 4:
                e["ok"] = False
            else:
                img = segments(axes[3])
                e["img"], e["xlim"], e["ylim"] = RL(img), RL(axes[3].get_xlim()), RL(axes[3].get_ylim())
                h, _ = call(lambda: np.asarray(self.cam.getImageHorizon(np.array([p[0] for s in img for p in s])), dtype=float)[:, 1].reshape(-1, 2)) if img else ([], None)
                e["hp"] = RL(np.full((len(img), 2), np.nan) if h is None else h)
        self.ev.append(e)
        plt.close("all")

    def render(self, keep):
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        if not keep:
            plt.close("all")
        drawn = {}
        real = Figure.savefig

        def savefig(fig, *args, **kw):
            ax = fig.axes[0]
            drawn.update(img=RL(segments(ax)), xlim=RL(ax.get_xlim()), ylim=RL(ax.get_ylim()))
            return real(fig, *args, **kw)
        name = "render_%d.png" % self.rng.integers(1 << 30)
        Figure.savefig = savefig
        try:
            _, err = call(self.scene.renderImage, name)
        finally:
            Figure.savefig = real
        size = [0, 0]
        if os.path.exists(name):
            with open(name, "rb") as fp:
                size = struct.unpack(">II", fp.read(24)[16:24])
            os.remove(name)
        self.ev.append(dict(dict(img=[], xlim=[], ylim=[]), **dict(drawn, k="render", ok=err is None, size=RL(list(size)))))


def scenes(rng, size):
    ev = []
    for _ in range(size):
        r = Run(rng)
        if rng.random() < .8:
            r.setcam(True)
        for _ in range(int(rng.integers(2, 5))):
            for _ in range(int(rng.integers(1, 3))):
                r.add()
            if rng.random() < .4:
                r.setcam(rng.random() < .5)
            if r.cam is None or rng.random() < .6:
                r.views()
            else:
                r.render(rng.random() < .6)
        ev += r.ev
    return ev


# ------------------------------------------------------------------ epipolar plots
def shown(ax):
    g = dict(curves=[], points=[], feet=[], joins=[], texts=[])
    for l in ax.lines:
        d, solid = xy(l), l.get_linestyle() not in ("None", "", " ", "none")
        if l.get_marker() == "o":
            g["points"] += d
        elif l.get_marker() == "+":
            g["feet"] += d
        elif solid and l.get_linestyle() == "--":
            g["joins"].append(d if len(d) == 2 else [[np.nan, np.nan]] * 2)
        elif solid:
            g["curves"].append(d)
    for t in ax.texts:
        try:
            g["texts"].append(float(t.get_text()))
        except ValueError:
            g["texts"].append(np.nan)
    return g


def pair(rng):
    w, h = pick(rng, [(640, 480), (1000, 700), (300, 900)])
    f = float(rng.uniform(.6, 2.5)) * w
    p = dict(proj="rect", ori="thr", lens="none", w=w, h=h, fx=f, fy=f * float(rng.uniform(.9, 1.1)), cx=w * float(rng.uniform(.4, .6)), cy=h * float(rng.uniform(.4, .6)),
             a=[float(x) for x in rng.uniform(-60, 60, 3)], pos=[float(x) for x in rng.uniform(-100, 100, 3)], l=[0., 0., 0.])
    n = int(rng.integers(20, 40))
    depth = float(rng.uniform(20, 100))
    cam, _ = call(cams.camera, p)
    a = np.column_stack([rng.uniform(.03, .97, n) * w, rng.uniform(.03, .97, n) * h])
    X, err = call(lambda: cam.spaceFromImage(a, D=depth * rng.uniform(.6, 1.5, n)))
    if err is not None:
        return None
    u = rng.normal(size=3)
    q = dict(p, w=int(w * 1.2) if rng.random() < .4 else w)
    q["pos"] = [float(x) for x in np.array(p["pos"]) + rng.uniform(.15, .4) * depth * u / np.linalg.norm(u)]
    v = np.mean(X, axis=0) - q["pos"]
    q["a"] = [float(np.rad2deg(np.arctan2(np.hypot(v[0], v[1]), -v[2]))), float(rng.uniform(-180, 180)), float(np.rad2deg(np.arctan2(v[0], v[1])))]
    other, _ = call(cams.camera, q)
    b, err = call(lambda: other.imageFromSpace(X))
    if err is not None:
        return None
    ok = np.isfinite(b).all(1) & (b[:, 0] > 1) & (b[:, 1] > 1) & (b[:, 0] < q["w"] - 1) & (b[:, 1] < h - 1)
    return (p, q, a[ok], b[ok]) if ok.sum() >= 12 else None


def epilines(rng, size):
    import matplotlib.pyplot as plt
    import cv2
    ev = [dict(k="reset", c=[])]
    while size > 0:
        size -= 1
        r = pair(rng)
        if r is None:
            continue
        p, q, a, b = r
        g, err = call(lambda: ct.CameraGroup([cams.projection(p), cams.projection(q)], [cams.orientation(p), cams.orientation(q)]))
        if err is not None:
            ev.append(dict(k="myepi", ok=False))
            continue
        plt.close("all")
        fig = plt.figure()
        im = [np.zeros((x["h"], x["w"])) for x in (p, q)]
        out = io.StringIO()
        base = dict(c1=cams.record(p), c2=cams.record(q))
        if rng.random() < .5:
            k = int(rng.integers(1, 4))
            a, b = a[:k] + rng.normal(size=(k, 2)) * pick(rng, [0, 1, 10]), b[:k]
            with contextlib.redirect_stdout(out):
                _, err = call(g.plotMyEpiploarLines, a, b, *(im if rng.random() < .5 else ()))
            e = dict(base, k="myepi")
        else:
            if rng.random() < .3:                 # a wrong correspondence
                a[int(rng.integers(len(a)))] = [float(rng.uniform(0, p["w"])), float(rng.uniform(0, p["h"]))]
            F, _ = cv2.findFundamentalMat(a, b)
            if F is None or F.shape != (3, 3):
                continue
            with contextlib.redirect_stdout(out):
                _, err = call(g.plotEpilines, a.copy(), b.copy(), *im)
            e = dict(base, k="correpi", F=RL(F))
        e.update(ok=err is None and len(fig.axes) == 2, p1=RL(a), p2=RL(b), sides=[])
        if e["ok"]:
            sides = [shown(x) for x in fig.axes]
            if e["k"] == "correpi":              # without the image border
                for s, x in zip(sides, (p, q)):
                    s["curves"] = [c for c in s["curves"] if len(c) < 100]
            else:                                 # some of the points of the long curves
                for s in sides:
                    s["curves"] = [[c[i] for i in sorted(set(int(j) for j in rng.integers(0, len(c), 20)))] + [c[0], c[-1]] if len(c) > 22 else c for c in s["curves"]]
            e["sides"] = [{k: RL(v) for k, v in s.items()} for s in sides]
        ev.append(e)
        plt.close("all")
    return ev


def c28(rng, size, pid="C28"):
    return scenes(rng, size) + epilines(rng, size)
