"""C04: batches, containers and arguments of every public point transformation."""
import numpy as np
from vh import R, RL, obs, encode, call, failed
import cams
from cams import pick
import cameratransform as ct
from cameratransform import ray as ctray


def flat(args):
    out = []
    for a in args:
        out.append([R(x) for x in np.asarray(a, dtype=float).ravel()])
    return out


def ground_pixels(rng, p, cam, n):
    """pixels that look at the ground well below the horizon"""
    Rm, pos = cams.rot(p), np.array(p["pos"], float)
    out = []
    while len(out) < n:
        if p["lens"] == "none":
            q = [rng.uniform(0, p["w"]), rng.uniform(0, p["h"])]
        else:
            s = (p["fx"], p["fy"]) if p["lens"] == "brown" else (min(p["w"], p["h"]) / 2,) * 2
            q = [p["cx"] + s[0] * rng.uniform(-.6, .6), p["cy"] + s[1] * rng.uniform(-.6, .6)]
        r = rng.random()
        if r < 0.08:        # exactly the centre, or in line with it
            q = [p["cx"], p["cy"]]
        elif r < 0.12:
            q[0] = p["cx"]
        elif r < 0.16:
            q[1] = p["cy"]
        elif r < 0.22 and out:
            q = list(out[-1])
        out.append([float(q[0]), float(q[1])])
    return np.array(out)


def table(rng, p, cam, n):
    """name -> (function, args, output shape, containers allowed)"""
    pix = ground_pixels(rng, p, cam, n)
    pix2 = ground_pixels(rng, p, cam, n)
    Rm, pos = cams.rot(p), np.array(p["pos"], float)
    # points in front of, beside and behind the camera, not close to its image plane
    q = np.c_[rng.uniform(-1, 1, (n, 2)), np.where(rng.random(n) < 0.7, -1.0, 1.0)] * rng.uniform(1, 100, (n, 1))
    axis = rng.random(n) < 0.1             # on the optical axis, in front
    q[axis] = np.c_[0 * q[axis, :2], -np.abs(q[axis, 2])] + 0.0
    x = pos + q @ Rm
    gps = np.c_[rng.uniform(-0.01, 0.01, (n, 2)) + [48.1, 11.5], rng.uniform(0, 50, (n, 1))]
    gps_b = np.c_[rng.uniform(-80, 80, (n, 1)), rng.uniform(-180, 180, (n, 1)), rng.uniform(0, 50, (n, 1))]
    arr = lambda lo, hi: rng.uniform(lo, hi, n)
    T = {}

    def add(name, fn, args, out, lists=True):
        T[name] = (fn, args, out, lists)
    add("imageFromSpace", cam.imageFromSpace, [x], (2,))
    add("imageFromSpace/back", lambda a: cam.imageFromSpace(a, hide_backpoints=False), [x], (2,))
    add("getRay", lambda a: cam.getRay(a)[1], [pix], (3,))
    add("getRay/normed", lambda a: cam.getRay(a, normed=True)[1], [pix], (3,))
    add("spaceFromImage", cam.spaceFromImage, [pix], (3,))
    add("spaceFromImage/Zs", lambda a: cam.spaceFromImage(a, Z=1.25), [pix], (3,))
    for key, lo, hi in (("X", pos[0] - 50, pos[0] + 50), ("Y", pos[1] - 50, pos[1] + 50), ("Z", pos[2] - 50, pos[2] + 10), ("D", 1, 100)):
        vals = arr(lo, hi)
        add("spaceFromImage/" + key, lambda a, v, key=key: cam.spaceFromImage(a, **{key: v}), [pix, vals], (3,))
    add("cameraFromSpace", cam.orientation.cameraFromSpace, [x], (3,))
    add("spaceFromCamera", cam.orientation.spaceFromCamera, [q], (3,))
    add("spaceFromCamera/dir", lambda a: cam.orientation.spaceFromCamera(a, direction=True), [q], (3,))
    add("imageFromCamera", cam.projection.imageFromCamera, [q], (2,))
    q0 = q.copy()
    q0[:, 0] = np.where(q0[:, 0] < 0, -1.0, 1.0) * (np.abs(q0[:, 0]) + 1)   # the azimuth is defined
    q0[rng.random(n) < 0.3, 2] = 1e-13
    if p["proj"] != "rect":
        add("imageFromCamera/side", cam.projection.imageFromCamera, [q0], (2,))
    add("projection.getRay", cam.projection.getRay, [pix], (3,))
    add("projection.getRay/normed", lambda a: cam.projection.getRay(a, normed=True), [pix], (3,))
    add("distort", cam.lens.distortedFromImage, [pix], (2,))
    add("undistort", cam.lens.imageFromDistorted, [pix], (2,))
    add("gpsFromSpace", cam.gpsFromSpace, [x], (3,), False)
    add("spaceFromGPS", cam.spaceFromGPS, [gps], (3,), False)
    add("spaceFromGPS/2", cam.spaceFromGPS, [gps[:, :2].copy()], (3,), False)
    add("gpsFromImage", cam.gpsFromImage, [pix], (3,))
    add("imageFromGPS", cam.imageFromGPS, [gps], (2,), False)
    heads = pix + np.c_[rng.uniform(-.05, .05, n), -rng.uniform(1, 5, n)]
    add("getObjectHeight", cam.getObjectHeight, [pix, heads], ())
    add("getObjectHeight/Z", lambda a, b, z: cam.getObjectHeight(a, b, Z=z), [pix, heads, arr(0, 1)], ())
    add("getObjectLength", cam.getObjectLength, [pix, pix2], ())
    add("getObjectLength/Z", lambda a, b, z: cam.getObjectLength(a, b, Z=z), [pix, pix2, arr(0, 1)], ())
    add("getDistance", ct.getDistance, [gps, gps_b], ())
    add("getDistance/2", ct.getDistance, [gps[:, :2].copy(), gps_b[:, :2].copy()], ())
    add("getBearing", ct.getBearing, [gps, gps_b], ())
    add("getBearing/2", ct.getBearing, [gps[:, :2].copy(), gps_b[:, :2].copy()], ())
    add("moveDistance", ct.moveDistance, [gps, arr(1, 1e6), arr(-180, 180)], (3,))
    add("moveDistance/2", ct.moveDistance, [gps[:, :2].copy(), arr(1, 1e6), arr(-180, 180)], (2,))
    add("moveDistance/s", lambda a: ct.moveDistance(a, 1234.5, 67.8), [gps], (3,))
    o1, o2 = rng.normal(size=3) * 10, rng.normal(size=3) * 10
    v1, v2 = rng.normal(size=(n, 3)), rng.normal(size=(n, 3))
    add("intersectionOfTwoLines", lambda a, b: ctray.intersectionOfTwoLines(o1, a, o2, b), [v1, v2], (3,), False)
    v2p = v2.copy()
    v2p[rng.random(n) < 0.4] = 0.0      # degenerate direction: no intersection
    par = rng.random(n) < 0.3
    add("distanceOfTwoLines", lambda a, b: ctray.distanceOfTwoLines(o1, a, o2, b), [v1, np.where(par[:, None], v1, v2)], (), False)
    add("getClosestPointFromLine", lambda a, b: ctray.getClosestPointFromLine(o1, a, b), [v1, x], (3,), False)
    add("getClosestPointFromLine/o", lambda a, b: ctray.getClosestPointFromLine(a, v1[0], b) if np.ndim(a) == 1 else
        ctray.getClosestPointFromLine(a, np.broadcast_to(v1[0], a.shape).copy(), b), [q, x], (3,), False)
    mesh = rng.normal(size=(6, 3, 3)) * 5 + [0, 0, 12]
    dirs = np.c_[rng.normal(size=(n, 2)) * 0.3, np.ones(n)]
    add("ray_intersect_triangle", lambda a: ctray.ray_intersect_triangle(np.zeros(3), a, mesh), [dirs], (3,))
    add("ray_intersect_triangle/1", lambda a: ctray.ray_intersect_triangle(np.zeros(3), a, mesh[0]), [dirs], (3,))
    add("ray_intersect_triangle/plane", lambda a: ctray.ray_intersect_triangle(np.zeros(3), a, mesh, use_planes=True), [dirs], (3,))
    wall = np.array([pos + [60, 30, -50], pos + [60, -30, -50], pos + [-60, 0, -40]])
    meshw = np.array([wall, wall + [0, 0, 20]])
    add("spaceFromImage/mesh", lambda a: cam.spaceFromImage(a, mesh=meshw), [pix], (3,))
    quad = rng.normal(size=(n, 4, 2))
    add("areaOfQuadrilateral", ctray.areaOfQuadrilateral, [quad], ())
    add("getImageHorizon", cam.getImageHorizon, [arr(0, p["w"])], (2,))
    other = ct.Camera(cam.projection, ct.SpatialOrientation(elevation_m=pos[2] + 2, tilt_deg=50, heading_deg=7, roll_deg=3, pos_x_m=pos[0] + 9, pos_y_m=pos[1] + 1))
    if p["lens"] == "none":
        grp = ct.CameraGroup(cam.projection, [cam.orientation, other.orientation])
        add("group.spaceFromImages", grp.spaceFromImages, [pix, pix2], (3,))
        add("group.discanteBetweenRays", grp.discanteBetweenRays, [pix, pix2], ())
        add("group.imagesFromSpace", lambda a: grp.imagesFromSpace(a)[1], [x], (2,))
    return T


def refusals(rng, p, cam):
    """points with a wrong number of coordinates, paired points that do not match"""
    pair, err = call(lambda: ct.CameraGroup([cams.projection(p)], [cams.orientation(p), cams.orientation(p)]))
    two = [cam.spaceFromImage, cam.getRay, cam.projection.getRay, cam.gpsFromImage]
    three = [cam.imageFromSpace, cam.projection.imageFromCamera]
    paired = [cam.getObjectHeight, cam.getObjectLength]
    if err is None:
        three.append(pair.imagesFromSpace)
        paired += [pair.spaceFromImages, pair.discanteBetweenRays]
    n = pick(rng, [1, 2, 3, 4, 7])

    def points(k, lead):
        return np.column_stack([rng.uniform(.3, .7, n) * p["w"] for _ in range(k)])[slice(None) if lead else 0]
    ev = []

    def tell(fn, *args):
        args = [a.tolist() if rng.random() < .3 else a for a in args]
        _, err = call(fn, *args)
        ev.append(dict(k="refuse", fn=getattr(fn, "__name__", "?"), refused=err is not None))
    for fns, ks in ((two, [1, 3, 4]), (three, [1, 2, 4])):
        for fn in fns:
            tell(fn, points(pick(rng, ks), rng.random() < .7))
    for fn in paired:
        a, b = points(2, True), points(2, True)
        how = int(rng.integers(4))
        if how == 0:
            b = np.vstack([b, b[:1]])
        elif how == 1:
            a = a[0]
        elif how == 2:
            b = b[0]
        else:
            b = np.column_stack([b, b[:, 0]])
        tell(fn, *((a, b) if rng.random() < .5 else (b, a)))
    return ev


def c04(rng, size, pid="C04"):
    ev = []
    for _ in range(size):
        p = cams.params(rng, sane=True)
        p["w"], p["h"] = pick(rng, [(640, 480), (301, 77), (90, 133)])
        p["cx"], p["cy"] = p["w"] * float(rng.uniform(.4, .6)), p["h"] * float(rng.uniform(.4, .6))
        p["fx"], p["fy"] = float(rng.uniform(.8, 2)) * p["w"], float(rng.uniform(.8, 2)) * p["w"]
        a = [float(x) + float(rng.uniform(-.3, .3)) for x in p["a"]]
        p["a"] = a
        cam, err = call(cams.camera, p)
        ev.append(dict(k="camera", c=cams.record(p)))
        if err is None:
            _, err = call(cam.setGPSpos, 48.1, 11.5)
        if err is not None:
            ev.append(dict(k="batch", pid=pid, fn="Camera", kk=0, many=failed(err), ones=[], shape=[], before=[], after=[]))
            continue
        ev += refusals(rng, p, cam)
        n = pick(rng, [1, 2, 2, 3, 3, 4, 5, 9])
        T, err = call(table, rng, p, cam, n)
        if err is not None:
            raise err
        for name, (fn, args, out, lists) in T.items():
            before = flat(args)
            work = [a.copy() for a in args]
            many = obs(fn, *work)
            after = flat(work)
            ones = []
            for i in range(n):
                single = [a[i].copy() if a[i].ndim else float(a[i]) for a in args]
                ones.append(obs(fn, *single))
                if flat(single) != flat([a[i] for a in args]):
                    after = after + [[R(1)]]         # a single call changed its argument
            kk = int(np.prod(out)) if out else 1
            ev.append(dict(k="batch", pid=pid, fn=name, kk=kk, shape=[n] + list(out), many=many, ones=ones, before=before, after=after))
            # the same points in other containers
            if rng.random() < 0.5:
                how = pick(rng, ["readonly", "fortran", "strided"] + (["list", "tuple", "int", "intlist", "list", "int"] if lists else []))
                vargs = [a.copy() for a in args]
                if how in ("int", "intlist"):
                    vargs = [np.rint(a) + 0.0 for a in vargs]      # no negative zeros
                ref = obs(fn, *[a.copy() for a in vargs])
                # the values of the constraints can be lists, too
                least = 1 if name.startswith(("spaceFromImage", "getObject", "getImageHorizon")) else 2
                if how == "list":
                    work = [a.tolist() if a.ndim >= least else a for a in vargs]
                elif how == "tuple":
                    work = [tuple(map(tuple, a.tolist())) if a.ndim == 2 else a for a in vargs]
                elif how == "int":
                    work = [a.astype(int) for a in vargs]
                elif how == "intlist":
                    work = [a.astype(int).tolist() if a.ndim >= least else a.astype(int) for a in vargs]
                elif how == "readonly":
                    work = [a.copy() for a in vargs]
                    for a in work:
                        a.flags.writeable = False
                elif how == "fortran":
                    work = [np.asfortranarray(a) for a in vargs]
                else:
                    work = [np.repeat(a, 2, axis=0)[::2] for a in vargs]
                before = flat(work)
                o = obs(fn, *work)
                ev.append(dict(k="variant", pid=pid, fn=name, how=how, o=o, ref=ref, before=before, after=flat(work)))
    return ev
