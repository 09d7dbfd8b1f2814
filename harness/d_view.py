"""C20 rotated and scaled spaces, C21 object sizes, C22 horizon, border and cone (T_View.tla)."""
import numpy as np
from vh import R, RL, obs, call, encode, failed, values
import cams
from cams import pick
import cameratransform as ct

SIZES = [0, 0, 1, 2, 2, 3, 4, 6]


def reset(*P):
    return dict(k="reset", c=[cams.record(p) for p in P])


def reads(cam, p):
    names = ["tilt_deg", "roll_deg", "heading_deg"] if p["ori"] == "thr" else ["yaw_deg", "pitch_deg", "roll_deg"]
    names += ["pos_x_m", "pos_y_m", "elevation_m", "focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px"]
    return obs(lambda: [getattr(cam, n) for n in names])


# ------------------------------------------------------------------ C20
def c20(rng, size, pid="C20"):
    ev = []
    for _ in range(size):
        p = cams.params(rng)
        cam, err = call(cams.camera, p)
        ev.append(reset(p))
        if err is None:
            X = np.array(cams.space_points(rng, p, 4))
            for _ in range(4):                    # rotations add up
                a = float(pick(rng, [90, -90, 180, 45, 360, -400, 0, rng.uniform(-180, 180), rng.uniform(-720, 720)]))
                hide = dict(hide_backpoints=bool(rng.random() < 0.5))
                old = obs(cam.imageFromSpace, X, **hide)
                _, err = call(cam.rotateSpace, a)
                t = np.deg2rad(a)
                Y = X @ np.array([[np.cos(t), np.sin(t), 0], [-np.sin(t), np.cos(t), 0], [0, 0, 1]]).T
                ev.append(dict(k="rotate", a=R(a), x=RL(X), old=old, new=failed(err) if err else obs(cam.imageFromSpace, Y, **hide), reads=reads(cam, p)))
                X = Y
        else:
            ev.append(dict(k="rotate", a=R(0), x=[], old=failed(err), new=failed(err), reads=failed(err)))
        # groups: own and shared orientations
        n = pick(rng, [1, 2, 3])
        shared = rng.random() < 0.3
        P = [cams.params(rng) for _ in range(n)]
        if shared:
            for q in P[1:]:
                for k in ("ori", "a", "pos"):
                    q[k] = P[0][k]
        elif rng.random() < 0.3:              # different cameras at the same place
            for q in P[1:]:
                q["pos"] = list(P[0]["pos"])
                if rng.random() < 0.4:        # and in the same direction
                    q["ori"], q["a"] = P[0]["ori"], list(P[0]["a"])
        build = lambda: ct.CameraGroup([cams.projection(q) for q in P], cams.orientation(P[0]) if shared else [cams.orientation(q) for q in P],
                                       [cams.make_lens(q) for q in P])
        g, err = call(build)
        ev.append(reset(*P))
        if err is not None or len(g) != n:
            bad = failed(err or Exception())
            ev.append(dict(k="scale", f=R(1), x=[], old=[bad] * n, new=[bad] * n, reads=[bad] * n))
            continue
        X = np.array(sum([cams.space_points(rng, q, 2) for q in P], []))
        for _ in range(2):
            f = float(pick(rng, [2, 0.5, 1, 10, 1.7, rng.uniform(0.05, 20)]))
            if rng.random() < 0.08:           # a reflection moves the cameras, pixels are not kept
                f, X = -f, X[:0]
            old = [obs(c.imageFromSpace, X) for c in g]
            _, err = call(g.scaleSpace, f)
            Y = X * f
            ev.append(dict(k="scale", f=R(f), x=RL(X), old=old, new=[failed(err) if err else obs(c.imageFromSpace, Y) for c in g],
                           reads=[reads(c, q) for c, q in zip(g, P)]))
            X = Y
    return ev


# ------------------------------------------------------------------ C21
def looking_down(rng, **kw):
    p = cams.params(rng, sane=True, **kw)
    p["pos"][0], p["pos"][1] = [pick(rng, [0.0, float(rng.uniform(-50, 50))]) for _ in range(2)]
    p["pos"][2] = float(rng.uniform(2, 60))
    return p


def ground(rng, p, n, z):
    """points of the plane z in view of the camera, also exactly in the axis directions"""
    Rm, pos = cams.rot(p), np.array(p["pos"], float)
    out = []
    for _ in range(200):
        if len(out) == n:
            break
        q = np.array([rng.uniform(-.6, .6), rng.uniform(-.6, .6), -1.0])
        if rng.random() < 0.15:
            q[0] = 0.0
        v = Rm.T @ q
        if rng.random() < 0.15:
            j = int(rng.integers(2))
            v[j] = 0.0
        zz = z[len(out)] if np.ndim(z) else z
        if v[2] > -0.02:
            continue
        x = pos + v * (zz - pos[2]) / v[2]
        x[2] = zz
        out.append(x)
    while len(out) < n:
        out.append(pos + [0.3, 0.4, -pos[2] + (z[len(out)] if np.ndim(z) else z)])
    return np.array(out)


def c21_objects(rng, size, pid="C21"):
    ev = []
    for _ in range(size):
        p = looking_down(rng)
        cam, err = call(cams.camera, p)
        ev.append(reset(p))
        if err is not None:
            ev.append(dict(k="length", n=0, x=[], y=[], o=failed(err)))
            continue
        for _ in range(4):
            n = pick(rng, SIZES)
            N = max(n, 1)
            Z = pick(rng, [0.0, 0.0, 1.0, -2.5, "each"])
            if Z == "each":
                Z = rng.uniform(-3, 1.5, N) if n else float(rng.uniform(-3, 1))
            X = ground(rng, p, N, Z)
            hs = rng.uniform(0.1, 3, N)
            if rng.random() < 0.2:
                hs[:] = pick(rng, [1.0, 0.5])
            H = X.copy()
            H[:, 2] += hs
            Y = ground(rng, p, N, Z)
            imgs, err = call(lambda: [cam.imageFromSpace(a) for a in (X, H, Y)])
            if err is not None:
                ev.append(dict(k="length", n=n, x=[], y=[], o=failed(err)))
                continue
            pick1 = lambda a: a[0] if n == 0 else a
            f, h, y = map(pick1, imgs)
            if rng.random() < 0.3:
                f, h, y = f.tolist(), h.tolist(), y.tolist()
            kw = {} if np.ndim(Z) == 0 and Z == 0 and rng.random() < 0.5 else dict(Z=Z)
            bad = ~(np.isfinite(imgs[0]).all(1) & np.isfinite(imgs[1]).all(1))
            Xh = np.where(bad[:, None], np.nan, X)
            ev.append(dict(k="height", n=n, x=RL(Xh), h=RL(hs), o=obs(cam.getObjectHeight, f, h, **kw)))
            ev.append(dict(k="length", n=n, x=RL(X), y=RL(Y), o=obs(cam.getObjectLength, f, y, **kw)))
    return ev


def c21_lut(rng, size, pid="C21"):
    ev = []
    for _ in range(size):
        p = looking_down(rng)
        p["w"], p["h"] = int(rng.integers(3, 14)), int(rng.integers(3, 14))
        p["fx"] = float(rng.uniform(.6, 2)) * p["w"]
        p["fy"] = max(p["fx"] * float(rng.uniform(.8, 1.2)), p["h"] / 2.5)
        p["cx"], p["cy"] = p["w"] * float(rng.uniform(.3, .7)), p["h"] * float(rng.uniform(.3, .7))
        cam, err = call(cams.camera, p)
        ev.append(reset(p))
        if err is not None:
            ev.append(dict(k="lut", m=0, shape=[], undef=R(0), o=failed(err), corners=failed(err)))
            continue
        for whole in (False, True):
            w, h = p["w"], p["h"]
            pts = [[x, y] for y in range(h) for x in range(w)] if whole else [[w / 2, y] for y in range(h)]
            sq = np.array([[[x + a, y + b] for a, b in ((-.5, -.5), (.5, -.5), (.5, .5), (-.5, .5))] for x, y in pts])
            undef = pick(rng, [0.0, None, -1.0, float("nan"), 7.5])
            kw = {} if undef is None else dict(undef_value=undef)
            if whole or rng.random() < 0.5:
                kw["whole_image"] = whole
            cs, err = call(lambda: cam.spaceFromImage(sq.reshape(-1, 2), Z=0).reshape(-1, 4, 3))
            ev.append(dict(k="lut", m=len(pts), shape=[h, w] if whole else [h], undef=R(0 if undef is None else undef), o=obs(cam.generateLUT, **kw),
                           corners=failed(err) if err else encode(cs)))
    return ev


# ------------------------------------------------------------------ C22
def c22(rng, size, pid="C22"):
    ev = []
    for _ in range(size):
        p = cams.params(rng, sane=rng.random() < 0.5, lens=pick(rng, ["none", "none", "none", "brown", "abc"]))
        p["w"], p["h"] = int(rng.integers(6, 60)), int(rng.integers(6, 50))
        p["pos"][2] = float(pick(rng, [rng.uniform(1, 100), rng.uniform(100, 5000), 0.0 if rng.random() < 0.2 else 2.0]))
        p["fx"] = float(rng.uniform(.6, 2)) * p["w"]
        p["fy"] = max(p["fx"] * float(rng.uniform(.8, 1.2)), p["h"] / 2.5)
        p["cx"], p["cy"] = p["w"] * float(rng.uniform(.3, .7)), p["h"] * float(rng.uniform(.3, .7))
        if p["ori"] == "thr" and rng.random() < 0.6:
            p["a"] = [float(rng.uniform(75, 100)), float(rng.uniform(-30, 30)), p["a"][2]]
        cam, err = call(cams.camera, p)
        ev.append(reset(p))
        if err is not None:
            ev.append(dict(k="hdist", o=failed(err)))
            continue
        ev.append(dict(k="hdist", o=obs(cam.distanceToHorizon)))
        w, h = p["w"], p["h"]
        r = rng.random()
        if r < 0.4:
            ev.append(dict(k="horizon", n=3, rows=h, xs=RL([0, w / 2, w]), o=obs(cam.getImageHorizon)))
        elif r < 0.7:
            xs = [float(v) for v in rng.uniform(0, w, pick(rng, [1, 2, 4]))]
            ev.append(dict(k="horizon", n=len(xs), rows=h, xs=RL(xs), o=obs(cam.getImageHorizon, pick(rng, [np.array(xs), xs]))))
        else:
            x = pick(rng, [0, int(rng.integers(0, w)), float(rng.uniform(0, w))])
            ev.append(dict(k="horizon", n=0, rows=h, xs=RL([x]), o=obs(cam.getImageHorizon, x)))
        s = pick(rng, [1, 1, 2, 3, 7, 0.5, 10, w, h, h + 1, max(w, h) + 3])
        ev.append(dict(k="border", s=R(s), o=obs(cam.getImageBorder) if s == 1 and rng.random() < 0.5 else obs(cam.getImageBorder, s)))
        if rng.random() < 0.6:
            px = [[0, h], [w, h], [w, 0], [0, 0], [0, h]]
            D = pick(rng, [1, 1, float(rng.uniform(0.1, 500)), float(10 ** rng.uniform(-4, -1)), float(10 ** rng.uniform(3, 6))])
            ev.append(dict(k="cone", ground=False, D=R(D), px=RL(px), o=obs(cam.getCameraCone) if D == 1 and rng.random() < .5 else obs(cam.getCameraCone, D=D),
                           border=obs(cam.spaceFromImage, px, D=D)))
        else:
            px = [[0, y] for y in range(h)] + [[x, h] for x in range(w)] + [[w, y] for y in range(h, 0, -1)] + [[x, 0] for x in range(w, 0, -1)]
            ev.append(dict(k="cone", ground=True, D=R(1), px=RL(px), o=obs(cam.getCameraCone, project_to_ground=True), border=obs(cam.spaceFromImage, px, Z=0)))
    return ev
