"""Drivers for the transformations of a single camera (T_Camera.tla)."""
import numpy as np
from vh import R, RL, obs, values, call, encode
import cams
from cams import pick

SIZES = [0, 1, 2, 3, 3, 4, 5, 8, 17]


def asarg(pts, n):
    a = np.array(pts, dtype=float)
    return a[0] if n == 0 else a


def cam_event(p):
    return dict(k="camera", c=cams.record(p))


def new_camera(rng, **kw):
    p = cams.params(rng, **kw)
    cam, err = call(cams.camera, p)
    return p, cam, err


# ------------------------------------------------------------------ C01 (and the NaN part of C03)
def space_event(pid, rng, p, cam, n, pix, con):
    """con: dict of constraints for the call; values are scalars or arrays"""
    arg = asarg(pix, n)
    N = max(n, 1)
    o = obs(cam.spaceFromImage, arg, **con)
    ray = obs(lambda: cam.getRay(arg)[1])
    s = values(o)
    back = obs(cam.imageFromSpace, s) if s is not None else dict(ok=False, err="skipped", shape=[], v=[])
    ev = dict(k="space", pid=pid, n=n, p=RL(pix[:N]), o=o, ray=ray, back=back)
    for key in "XYZD":
        v = con.get(key, 0.0 if key == "Z" else None)
        ev[key] = [] if v is None else RL([float(x) for x in np.broadcast_to(np.asarray(v, dtype=float), (N,))])
    return ev


def constraints(rng, p, n, pix, cam):
    """a random constraint, mostly one that the rays can meet"""
    N = max(n, 1)
    key = pick(rng, ["default", "Z", "Z", "X", "Y", "D", "D", "XY", "XD", "YZ"])
    pos = np.array(p["pos"], dtype=float)
    if key == "default":
        return {}

    def val(k, near):
        r = rng.random()
        i = "XYZ".index(k) if k in "XYZ" else None
        if k == "D":
            base = [float(10 ** rng.uniform(-1, 4)) * p.get("scale", 1.0) for _ in range(N)]
            if rng.random() < 0.25:            # a distance of zero, and no point at a negative distance
                base = [b * pick(rng, [-1, -1, 0, 1]) for b in base]
        elif r < 0.15:
            base = [0.0] * N
        elif r < 0.2:
            base = [float(pos[i])] * N
        elif r < 0.55 and near is not None:
            base = [float(near[j][i]) for j in range(N)]
        else:
            base = [float(pos[i] + p.get("scale", 1.0) * rng.uniform(-1, 1) * 10 ** rng.uniform(0, 3)) for _ in range(N)]
        if n == 0:
            return base[0] if rng.random() < 0.7 else np.float64(base[0])
        if rng.random() < 0.4:
            return base[0]
        return np.array(base) if rng.random() < 0.7 else [float(x) for x in base]

    ray, err = call(lambda: np.atleast_2d(cam.getRay(asarg(pix, n), normed=True)[1]))
    near = None
    if err is None:
        near = [pos + ray[j % len(ray)] * p.get("scale", 1.0) * 10 ** rng.uniform(-0.5, 3.5) for j in range(N)]
    con = {}
    for k in (key if key in ("XY", "XD", "YZ") else [key]):
        con[k] = val(k, near)
    if rng.random() < 0.05 and "D" not in con:
        con.setdefault("Z", 0)
    return con


def c01(rng, size, pid="C01"):
    ev = []
    for _ in range(size):
        p, cam, err = new_camera(rng)
        ev.append(cam_event(p))
        if err is not None:
            ev.append(dict(k="img", pid=pid, n=0, x=[RL([0, 0, 0])], hide=True, o=encode(None) | dict(ok=False, err=type(err).__name__)))
            continue
        for _ in range(6):
            n = pick(rng, SIZES)
            pix = cams.pixels(rng, p, max(n, 1))
            ev.append(space_event(pid, rng, p, cam, n, pix, constraints(rng, p, n, pix, cam)))
    return ev


# ------------------------------------------------------------------ C02 / C03
def img_event(pid, cam, n, x, hide=True):
    arg = asarg(x, n)
    kw = {} if hide is None else dict(hide_backpoints=hide)
    return dict(k="img", pid=pid, n=n, x=RL(x[:max(n, 1)]), hide=True if hide is None else bool(hide), o=obs(cam.imageFromSpace, arg, **kw))


def ray_event(pid, cam, n, pix, normed):
    arg = asarg(pix, n)
    res, err = call(cam.getRay, arg, normed=normed)
    if err is None and isinstance(res, tuple) and len(res) == 2:
        off, d = encode(res[0]), encode(res[1])
    else:
        off = d = dict(ok=False, err=type(err).__name__, shape=[], v=[])
    return dict(k="ray", pid=pid, n=n, p=RL(pix[:max(n, 1)]), normed=normed, off=off, o=d)


def c02(rng, size, pid="C02"):
    ev = []
    for _ in range(size):
        p, cam, err = new_camera(rng)
        ev.append(cam_event(p))
        if err is not None:
            ev.append(dict(k="img", pid=pid, n=0, x=[RL([0, 0, 0])], hide=True, o=dict(ok=False, err=type(err).__name__, shape=[], v=[])))
            continue
        N = lambda n: max(n, 1)
        for _ in range(3):
            n = pick(rng, SIZES)
            ev.append(img_event(pid, cam, n, cams.space_points(rng, p, N(n)), pick(rng, [None, True, False])))
        for _ in range(2):
            n = pick(rng, SIZES)
            ev.append(ray_event(pid, cam, n, cams.pixels(rng, p, N(n)), bool(rng.random() < 0.5)))
        n = pick(rng, SIZES)
        x = cams.space_points(rng, p, N(n))
        ev.append(dict(k="cfs", pid=pid, n=n, x=RL(x), o=obs(cam.orientation.cameraFromSpace, asarg(x, n))))
        q = [[float(v) for v in rng.normal(size=3) * 10 ** rng.uniform(-1, 3)] for _ in range(N(n))]
        d = bool(rng.random() < 0.5)
        ev.append(dict(k="sfc", pid=pid, n=n, x=RL(q), dir=d, o=obs(cam.orientation.spaceFromCamera, asarg(q, n), direction=d)))
        for j in range(N(n)):
            if rng.random() < 0.3:
                q[j] = [float(v) for v in pick(rng, [(1, 0, 0), (-1, 0, 0), (0, 0, -2), (0, 1, -1), (2, 1, 0), (0, 0, 3), (-1, 2, 1)])]
        hide = bool(rng.random() < 0.5)
        ev.append(dict(k="proj", pid=pid, n=n, x=RL(q), hide=hide, o=obs(cam.projection.imageFromCamera, asarg(q, n), hide_backpoints=hide)))
        pix = cams.pixels(rng, p, N(n))
        nm = bool(rng.random() < 0.5)
        ev.append(dict(k="projray", pid=pid, n=n, p=RL(pix), normed=nm, o=obs(cam.projection.getRay, asarg(pix, n), normed=nm)))
    return ev


def c03(rng, size, pid="C03"):
    ev = []
    for _ in range(size):
        p, cam, err = new_camera(rng)
        ev.append(cam_event(p))
        if err is not None:
            ev.append(dict(k="img", pid=pid, n=0, x=[RL([0, 0, 0])], hide=True, o=dict(ok=False, err=type(err).__name__, shape=[], v=[])))
            continue
        for _ in range(4):
            n = pick(rng, SIZES)
            x = cams.space_points(rng, p, max(n, 1))
            # mix with the mirror images behind the camera
            pos = np.array(p["pos"])
            for j in range(len(x)):
                if rng.random() < 0.4:
                    x[j] = [float(v) for v in 2 * pos - np.array(x[j])]
            ev.append(img_event(pid, cam, n, x, pick(rng, [None, True, True, False])))
        for _ in range(4):
            n = pick(rng, SIZES)
            pix = cams.pixels(rng, p, max(n, 1))
            ev.append(space_event(pid, rng, p, cam, n, pix, constraints(rng, p, n, pix, cam)))
    return ev


# ------------------------------------------------------------------ C08
def c08(rng, size, pid="C08"):
    ev = []
    for _ in range(size):
        p, cam, err = new_camera(rng, lens=pick(rng, ["none", "brown", "brown", "abc", "abc"]))
        ev.append(cam_event(p))
        if err is not None:
            ev.append(dict(k="img", pid=pid, n=0, x=[RL([0, 0, 0])], hide=True, o=dict(ok=False, err=type(err).__name__, shape=[], v=[])))
            continue
        L = cam.lens
        for _ in range(3):
            n = pick(rng, SIZES)
            N = max(n, 1)
            pix = cams.pixels(rng, p, N)
            for j in range(N):   # the whole trusted radius, in every direction
                if p["lens"] != "none" and rng.random() < 0.6:
                    s = (p["fx"], p["fy"]) if p["lens"] == "brown" else (min(p["w"], p["h"]) / 2,) * 2
                    a, r = rng.uniform(0, 2 * np.pi), rng.uniform(0, 1.25)
                    pix[j] = [float(p["cx"] + s[0] * r * np.cos(a)), float(p["cy"] + s[1] * r * np.sin(a))]
            ev.append(dict(k="lens", pid=pid, n=n, p=RL(pix), fwd=True, o=obs(L.distortedFromImage, asarg(pix, n))))
            ev.append(dict(k="lens", pid=pid, n=n, p=RL(pix), fwd=False, o=obs(L.imageFromDistorted, asarg(pix, n))))
            if p["lens"] != "none":
                ev.append(dict(k="lenspair", pid=pid, n=n, p=RL(pix), o=obs(lambda: L.imageFromDistorted(L.distortedFromImage(asarg(pix, n))))))
    return ev
