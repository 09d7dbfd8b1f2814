"""Random and special cameras: parameters, real objects and their specification record."""
import numpy as np
from vh import R
import cameratransform as ct

PROJ = dict(rect=ct.RectilinearProjection, cyl=ct.CylindricalProjection, equi=ct.EquirectangularProjection)


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def lens_coeffs(rng, kind):
    """coefficients with a monotone radius polynomial on [0, 2]"""
    while True:
        s = pick(rng, [0.01, 0.03, 0.05])
        k = rng.uniform(-1, 1, 3) * s
        if rng.random() < 0.3:
            k[int(rng.integers(3))] = 0.0
        if rng.random() < 0.1:
            k[:] = 0.0
        r = np.linspace(0, 2, 101)
        if kind == "brown":
            d = 1 + 3 * k[0] * r**2 + 5 * k[1] * r**4 + 7 * k[2] * r**6
        else:
            d = 1 - k.sum() + 2 * k[2] * r + 3 * k[1] * r**2 + 4 * k[0] * r**3
        if d.min() > 0.4:
            return [float(x) for x in k]


def angle(rng, special, lo, hi):
    r = rng.random()
    if r < 0.45:
        return pick(rng, special)
    if r < 0.52:     # several turns
        return float(rng.uniform(-1200, 1200))
    return float(rng.uniform(lo, hi))


def params(rng, proj=None, ori=None, lens=None, small=False, sane=False):
    """a random camera description.  sane: the camera sees ground in front of it"""
    p = {}
    p["proj"] = proj or pick(rng, ["rect", "rect", "cyl", "equi"])
    if small:
        w, h = int(rng.integers(8, 40)), int(rng.integers(8, 40))
    else:
        w, h = pick(rng, [(640, 480), (4608, 2592), (101, 77), (33, 90), (1, 1), (1000, 1000), (1920, 1081), (7, 300)])
    p["w"], p["h"] = w, h
    f = float(rng.uniform(0.4, 3)) * max(w, h, 10)
    if p["proj"] == "equi":
        f = max(f, h / 2.9)
    if rng.random() < 0.2:
        f = float(int(f) + 1)
    p["fx"] = f
    p["fy"] = f if rng.random() < 0.4 else f * float(rng.uniform(0.7, 1.5))
    if p["proj"] == "equi":
        p["fy"] = max(p["fy"], h / 2.9)
    r = rng.random()
    if r < 0.3:
        p["cx"], p["cy"] = w / 2, h / 2
    elif r < 0.4:
        p["cx"], p["cy"] = 0.0, 0.0
    elif r < 0.5:
        p["cx"], p["cy"] = -0.1 * w - 1, 1.2 * h
    else:
        p["cx"], p["cy"] = float(rng.uniform(0.3, 0.7)) * w, float(rng.uniform(0.3, 0.7)) * h
    p["ori"] = ori or pick(rng, ["thr", "thr", "thr", "ypr"])
    if p["ori"] == "thr":
        if sane:
            a = [float(rng.uniform(20, 85)), float(rng.uniform(-25, 25)), angle(rng, [0, 90, 180, -90, 270, 45], -360, 360)]
        else:
            a = [angle(rng, [0, 90, 180, 45, 85, 30, -20, -90, 120], -180, 180),
                 angle(rng, [0, 0, 0, 90, -90, 180, 45], -180, 180),
                 angle(rng, [0, 90, 180, 270, 360, -90, -180, 400, -45, 725.5, -1000], -360, 360)]
    else:
        if sane:
            a = [angle(rng, [0, 90, 180, -90, 270, 45], -360, 360), float(rng.uniform(-70, -10)), float(rng.uniform(-25, 25))]
        else:
            a = [angle(rng, [0, 90, 180, 270, 360, -90, -180, 400, -45], -360, 360),
                 angle(rng, [0, -90, 90, -45, 30, 400, -361], -90, 90),
                 angle(rng, [0, 0, 90, -90, 180], -180, 180)]
    p["a"] = [float(x) if rng.random() < 0.7 or x != int(x) else int(x) for x in a]
    p["pos"] = [pick(rng, [0.0, float(rng.uniform(-100, 100)), float(rng.uniform(-3000, 3000))]) for _ in range(2)]
    p["pos"].append(float(rng.uniform(2, 200)) if sane else
                    pick(rng, [0.0, 1.5, float(rng.uniform(0, 50)), float(rng.uniform(100, 3000)), float(rng.uniform(-60, 0))]))
    p["scale"] = 1.0
    if not sane and rng.random() < 0.2:      # scenes of other sizes, e.g. under a microscope
        p["scale"] = pick(rng, [1e-6, 1e-4, 1e-3, 1e-2, 1e2, 1e3])
        p["pos"] = [float(x * p.get("scale", 1.0)) for x in p["pos"]]
    p["lens"] = lens or pick(rng, ["none", "none", "brown", "abc"])
    p["l"] = [0.0, 0.0, 0.0] if p["lens"] == "none" else lens_coeffs(rng, p["lens"])
    return p


def projection(p):
    return PROJ[p["proj"]](focallength_x_px=p["fx"], focallength_y_px=p["fy"], center_x_px=p["cx"], center_y_px=p["cy"],
                           image=(p["w"], p["h"]))


def orientation(p):
    x, y, z = p["pos"]
    a = p["a"]
    if p["ori"] == "thr":
        return ct.SpatialOrientation(elevation_m=z, tilt_deg=a[0], roll_deg=a[1], heading_deg=a[2], pos_x_m=x, pos_y_m=y)
    return ct.SpatialOrientationYawPitchRoll(elevation_m=z, yaw_deg=a[0], pitch_deg=a[1], roll_deg=a[2], pos_x_m=x, pos_y_m=y)


def make_lens(p):
    if p["lens"] == "brown":
        return ct.BrownLensDistortion(*p["l"])
    if p["lens"] == "abc":
        return ct.ABCDistortion(*p["l"])
    return ct.NoDistortion()


def camera(p):
    return ct.Camera(projection(p), orientation(p), make_lens(p))


def record(p):
    """the specification record (Geometry.tla)"""
    d = dict(proj=p["proj"], ori=p["ori"], lens=p["lens"])
    for k in ("fx", "fy", "cx", "cy", "w", "h"):
        d[k] = R(p[k])
    for i in range(3):
        d["a%d" % (i + 1)] = R(p["a"][i])
        d["p" + "xyz"[i]] = R(p["pos"][i])
        d["l%d" % (i + 1)] = R(p["l"][i])
    return d


def rot(p):
    """rotation matrix, only used to aim the generated points"""
    a = [np.deg2rad(float(x)) for x in p["a"]]
    t, r, h = a if p["ori"] == "thr" else (np.pi / 2 + a[1], -a[2], a[0])
    c, s = np.cos, np.sin
    Rr = np.array([[c(r), s(r), 0], [-s(r), c(r), 0], [0, 0, 1]])
    Rt = np.array([[1, 0, 0], [0, c(t), s(t)], [0, -s(t), c(t)]])
    Rh = np.array([[c(h), -s(h), 0], [s(h), c(h), 0], [0, 0, 1]])
    return Rr @ Rt @ Rh


def lens_limit(p, radius=1.2):
    """pixel half-width around the centre that stays inside the trusted lens radius"""
    if p["lens"] == "none":
        return None
    s = (p["fx"], p["fy"]) if p["lens"] == "brown" else (min(p["w"], p["h"]) / 2,) * 2
    return s[0] * radius / 1.5, s[1] * radius / 1.5


def pixels(rng, p, n):
    """pixels inside and around the image, the centre, corners and integer pixels"""
    out = []
    w, h = p["w"], p["h"]
    lim = lens_limit(p)
    for _ in range(n):
        r = rng.random()
        if r < 0.12:
            q = [p["cx"], p["cy"]]
        elif r < 0.2:
            q = [p["cx"], float(rng.uniform(0, h))]
        elif r < 0.28:
            q = [float(rng.uniform(0, w)), p["cy"]]
        elif r < 0.4:
            q = [pick(rng, [0, w]), pick(rng, [0, h])]
        elif r < 0.6:
            q = [int(rng.integers(0, w + 1)), int(rng.integers(0, h + 1))]
        else:
            q = [float(rng.uniform(-0.2, 1.2)) * w, float(rng.uniform(-0.2, 1.2)) * h]
        if lim is not None:
            q = [float(np.clip(q[0], p["cx"] - lim[0], p["cx"] + lim[0])), float(np.clip(q[1], p["cy"] - lim[1], p["cy"] + lim[1]))]
        if p["proj"] == "equi":
            q[1] = float(np.clip(q[1], p["cy"] - 1.4 * p["fy"], p["cy"] + 1.4 * p["fy"]))
        if p["proj"] != "rect" and p["lens"] != "none":
            q[0] = float(np.clip(q[0], p["cx"] - 2.8 * p["fx"], p["cx"] + 2.8 * p["fx"]))
        out.append([float(q[0]), float(q[1])])
    return out


def space_points(rng, p, n):
    """points in all directions around the camera, also exactly on its axes"""
    Rm = rot(p)
    pos = np.array(p["pos"])
    out = []
    for _ in range(n):
        dist = float(10 ** rng.uniform(-1, 4)) * p.get("scale", 1.0)
        r = rng.random()
        if r < 0.55:      # in view
            q = np.array([rng.uniform(-1, 1), rng.uniform(-1, 1), -1.0])
        elif r < 0.8:     # anywhere
            q = rng.normal(size=3)
        elif r < 0.9:     # behind
            q = np.array([rng.uniform(-1, 1), rng.uniform(-1, 1), 1.0])
        elif r < 0.94:    # next to the plane through the camera
            q = np.array([rng.uniform(-1, 1), rng.uniform(-1, 1), pick(rng, [-1, -1, 1]) * 10 ** rng.uniform(-7, -1)])
        else:             # on an axis or in a coordinate plane
            q = np.array(pick(rng, [(0, 0, -1.), (0, 0, 1.), (1., 0, 0), (-1., 0, 0), (0, 1., 0), (0, -1., 0),
                                    (1., 1., 0), (0, 1., -1.), (1., 0, -1.), (-1., 0, 1.)]))
        if p["lens"] != "none" and q[2] < 0:
            q[:2] *= 0.6
        x = pos + Rm.T @ (q / np.linalg.norm(q) * dist)
        if rng.random() < 0.1 and p.get("scale", 1.0) >= 1:
            x = np.round(x)
        out.append([float(v) for v in x])
    return out
