"""C13 meshes, C14 lines and areas, C15 stereo (T_Lines.tla)."""
import numpy as np
from vh import R, RL, obs, call, encode, failed, values
import cams
from cams import pick
import cameratransform as ct
from cameratransform import ray as ctray

SIZES = [0, 0, 1, 2, 2, 3, 3, 4, 6]


def flat(args):
    return [[R(x) for x in np.asarray(a, dtype=float).ravel()] for a in args]


def arg(pts, n):
    a = np.array(pts, dtype=float)
    return a[0] if n == 0 else a


def small(rng, k=3):
    """a vector, sometimes with exact integer coordinates"""
    v = rng.normal(size=k) * pick(rng, [1, 10, 100])
    if rng.random() < 0.3:
        v = np.round(v)
    return v


# ------------------------------------------------------------------ C13
def soup(rng, o, n):
    """triangles around an origin, some of them behind each other"""
    T = []
    base = None
    for _ in range(n):
        r = rng.random()
        if base is not None and r < 0.4:       # a shifted or turned copy: hits in a row
            t = base + rng.normal(size=3) * pick(rng, [0.5, 5])
            if rng.random() < 0.5:
                t = t[::-1]
            if rng.random() < 0.3:
                t = 2 * o - t                   # behind the origin
        else:
            d = rng.normal(size=3)
            d /= np.linalg.norm(d)
            t = o + d * rng.uniform(2, 30) + rng.normal(size=(3, 3)) * rng.uniform(1, 8)
        if rng.random() < 0.25:
            t = np.round(t)
        if np.linalg.norm(np.cross(t[1] - t[0], t[2] - t[0])) < 0.05:
            continue
        T.append(t)
        base = t
    return np.array(T) if T else np.array([[[1.0, 0, 5], [0, 1, 5], [-1, -1, 5]]])


def aim(rng, o, mesh, n):
    D = []
    for _ in range(n):
        r = rng.random()
        t = mesh[int(rng.integers(len(mesh)))]
        if r < 0.65:                            # inside a triangle
            b = rng.dirichlet([1, 1, 1])
            d = b @ t - o
        elif r < 0.75:                          # close to an edge, on one side or the other
            b = rng.dirichlet([1, 1, 1])
            k = int(rng.integers(3))
            b[k] = float(pick(rng, [1, -1]) * 10 ** rng.uniform(-4.5, -1.5))
            b[[j for j in range(3) if j != k]] *= (1 - b[k]) / (b.sum() - b[k])
            if rng.random() < 0.3:             # close to a corner
                b = np.where(np.arange(3) == k, 1 + pick(rng, [1, -1, -1]) * abs(b[k]), -abs(b[k]) * pick(rng, [0.5, -0.5, -0.5]))
            d = b @ t / b.sum() - o
        elif r < 0.82:                          # outside of it
            b = rng.dirichlet([1, 1, 1])
            b[int(rng.integers(3))] *= -1
            d = b @ t / b.sum() - o if abs(b.sum()) > 0.1 else rng.normal(size=3)
        elif r < 0.9:
            d = rng.normal(size=3)
        else:                                   # away from it: it lies behind the origin
            d = -(t.mean(axis=0) - o)
        D.append(d * pick(rng, [1.0, 0.01, 7.0, 100.0, 1 / max(np.linalg.norm(d), 1e-9)]))
    return np.array(D)


def c13(rng, size, pid="C13"):
    ev = []
    for _ in range(size):
        for _ in range(4):
            n = pick(rng, SIZES)
            N = max(n, 1)
            o = small(rng)
            mesh = soup(rng, o, pick(rng, [1, 1, 2, 3, 5, 9]))
            d = aim(rng, o, mesh, N)
            many = n > 0 and rng.random() < 0.3
            org = o + rng.normal(size=(N, 3)) if many else o[None]
            oa = org if many else o
            planes = bool(rng.random() < 0.3)
            da = d[0] if n == 0 else d
            m = mesh[0] if len(mesh) == 1 and rng.random() < 0.6 else mesh
            args = [oa.copy(), da.copy(), m.copy()]
            res = obs(ctray.ray_intersect_triangle, *args, **(dict(use_planes=True) if planes else {}))
            after = flat(args)
            # the same triangles in another order and orientation
            perm = rng.permutation(len(mesh))
            m2 = mesh[perm].copy()
            for j in range(len(m2)):
                if rng.random() < 0.5:
                    m2[j] = m2[j][[0, 2, 1]]
                m2[j] = np.roll(m2[j], int(rng.integers(3)), axis=0)
            res2 = obs(ctray.ray_intersect_triangle, oa, da, m2 if rng.random() < 0.7 else m2.tolist(), use_planes=planes)
            ev.append(dict(k="mesh", pid=pid, n=n, org=RL(org), d=RL(d), mesh=RL(mesh), planes=planes, o=res, o2=order_stable(res, res2, oa, d, mesh), scale=R(np.abs(mesh).max()),
                           before=flat([oa, da, m]), after=after))
        p = cams.params(rng, sane=True)
        cam, err = call(cams.camera, p)
        if err is not None:
            ev.append(dict(k="meshimg", n=0, mesh=[], o=failed(err), ray=failed(err), off=failed(err)))
            continue
        for _ in range(2):
            n = pick(rng, SIZES)
            N = max(n, 1)
            pix = cams.pixels(rng, p, N)
            pa = arg(pix, n)
            rr, err = call(cam.getRay, pa)
            if err is not None:
                ev.append(dict(k="meshimg", n=n, mesh=[], o=failed(err), ray=failed(err), off=failed(err)))
                continue
            pos = np.array(p["pos"], float)
            dirs = np.atleast_2d(rr[1])
            T = []
            for _ in range(pick(rng, [1, 2, 4])):
                j = int(rng.integers(len(dirs)))
                c = pos + dirs[j] / np.linalg.norm(dirs[j]) * rng.uniform(3, 60) * pick(rng, [1, 1, 1, -1])
                t = c + rng.normal(size=(3, 3)) * rng.uniform(2, 20)
                if np.linalg.norm(np.cross(t[1] - t[0], t[2] - t[0])) > 0.05:
                    T.append(t)
            if not T:
                continue
            mesh = np.array(T)
            m = mesh[0] if len(mesh) == 1 and rng.random() < 0.5 else mesh if rng.random() < 0.7 else mesh.tolist()
            ev.append(dict(k="meshimg", n=n, mesh=RL(mesh), o=obs(cam.spaceFromImage, pa, mesh=m), ray=encode(rr[1]), off=encode(rr[0])))
    return ev


def order_stable(res, res2, o, d, mesh):
    """hits on the border of a triangle may be decided differently after turning it: such rays are
    not compared (they are judged by the tolerant clause of the specification)"""
    a, b = values(res), values(res2)
    if a is None or b is None or a.shape != b.shape:
        return res2
    A, B = np.atleast_2d(a), np.atleast_2d(b)
    D, O = np.atleast_2d(d), np.broadcast_to(np.atleast_2d(o), np.atleast_2d(d).shape)
    B = B.copy()
    for i in range(len(A)):
        if not np.allclose(A[i], B[i], rtol=1e-6, atol=1e-6, equal_nan=True):
            for t in mesh:
                u, v = t[1] - t[0], t[2] - t[0]
                M = np.array([u, v, -D[i]]).T
                if abs(np.linalg.det(M)) < 1e-6 * np.linalg.norm(u) * np.linalg.norm(v) * np.linalg.norm(D[i]):
                    B[i] = A[i]
                    break
                s = np.linalg.solve(M, O[i] - t[0])
                if min(abs(s[0]), abs(s[1]), abs(1 - s[0] - s[1])) < 1e-6 or abs(s[2]) < 1e-6:
                    B[i] = A[i]
                    break
    return dict(res2, v=[R(x) for x in B.ravel()])


# ------------------------------------------------------------------ C14
def c14(rng, size, pid="C14"):
    ev = []

    def rec(e, args, before):
        ev.append(dict(e, pid=pid, before=before, after=flat(args)))
    for _ in range(size):
        n = pick(rng, SIZES)
        N = max(n, 1)
        V = np.array([small(rng) for _ in range(N)])
        V[np.linalg.norm(V, axis=1) < 0.1] = [1.0, 2, -1]
        V *= pick(rng, [1, 1e-2, 1e2])
        X = np.array([small(rng) for _ in range(N)])
        o = small(rng)
        dim = pick(rng, [3, 3, 2])
        v, x, og = V[:, :dim], X[:, :dim], o[:dim]
        v = np.where(np.linalg.norm(v, axis=1)[:, None] < 0.001, 1.0, v)
        onemany = n > 0 and rng.random() < 0.25
        a = [og.copy(), v[0].copy() if n == 0 else v.copy(), x[0].copy() if n == 0 else x.copy()]
        O = og[None]
        if n and rng.random() < 0.3:          # one origin per line
            O = og + rng.normal(size=(N, dim))
            a[0] = O.copy()
        xs = x
        if onemany:
            a[2] = x[0].copy()
            xs = x[:1]
        before = flat(a)
        r = obs(ctray.getClosestPointFromLine, *a)
        rec(dict(k="closest", n=n, dim=dim, org=RL(O), d=RL(v), x=RL(xs), o=r), a, before)
        # two lines
        p1, p2 = small(rng), small(rng)
        if rng.random() < 0.2:
            p2 = p1.copy()
        W = np.array([small(rng) for _ in range(N)])
        W[np.linalg.norm(W, axis=1) < 0.1] = [2.0, -1, 1]
        V2 = np.array([small(rng) for _ in range(N)])
        V2[np.linalg.norm(V2, axis=1) < 0.1] = [1.0, 0, 3]
        par = rng.random(N) < pick(rng, [0, 0, 0.3, 1])
        f = np.array([pick(rng, [1.0, -1.0, 2.0, -0.5]) for _ in range(N)])
        V2[par] = W[par] * f[par, None]
        close = ~par & (rng.random(N) < 0.25)  # nearly parallel lines
        V2[close] = W[close] * f[close, None] + rng.normal(size=(N, 3))[close] * np.linalg.norm(W[close], axis=1)[:, None] * 10.0 ** rng.uniform(-5.5, -1)
        if rng.random() < 0.4:                # lines that meet in a point
            c = small(rng)
            k = int(rng.integers(N))
            W[k], V2[k] = c - p1, c - p2
            if np.linalg.norm(W[k]) < 0.1 or np.linalg.norm(V2[k]) < 0.1:
                W[k], V2[k] = [1, 2, 3], [3, -1, 0.5]
        # other lengths of the direction vectors change nothing
        # (powers of two keep the parallel lines exactly parallel)
        W *= pick(rng, [1.0, 1.0, 0.125, 16.0, 2.0 ** -20, 2.0 ** 20])
        V2 *= pick(rng, [1.0, 1.0, 1.0, 0.5, 2.0 ** -20, 2.0 ** -30, 2.0 ** 20])
        a = [p1.copy(), W[0].copy() if n == 0 else W.copy(), p2.copy(), V2[0].copy() if n == 0 else V2.copy()]
        before = flat(a)
        r = obs(ctray.intersectionOfTwoLines, *a)
        e = dict(k="inter", n=n, p1=RL(p1), v1=RL(W), p2=RL(p2), v2=RL(V2), o=r)
        keep = [q.copy() for q in a]
        e["swap"] = obs(ctray.intersectionOfTwoLines, keep[2], keep[3], keep[0], keep[1])
        rec(e, a, before)
        Wd, Vd = W.copy(), V2.copy()
        if rng.random() < 0.3:
            k = int(rng.integers(N))
            (Wd if rng.random() < 0.5 else Vd)[k] = 0.0
            if rng.random() < 0.3:
                Wd[k] = Vd[k] = 0.0
        a = [p1.copy(), Wd[0].copy() if n == 0 else Wd.copy(), p2.copy(), Vd[0].copy() if n == 0 else Vd.copy()]
        before = flat(a)
        r = obs(ctray.distanceOfTwoLines, *a)
        e = dict(k="ldist", n=n, p1=RL(p1), v1=RL(Wd), p2=RL(p2), v2=RL(Vd), o=r)
        keep = [q.copy() for q in a]
        e["swap"] = obs(ctray.distanceOfTwoLines, keep[2], keep[3], keep[0], keep[1])
        rec(e, a, before)
        a = [o.copy(), V[0].copy(), X[0].copy()]
        before = flat(a)
        rec(dict(k="pdist", org=RL(o), d=RL(V[0]), x=RL(X[0]), o=obs(ctray.distanceLinePoint, *a)), a, before)
        # areas
        dim = pick(rng, [2, 3])
        t = np.array([small(rng, dim) for _ in range(3)])
        if rng.random() < 0.3:                # three points on a line
            t[2] = t[0] + (t[1] - t[0]) * pick(rng, [0.0, 0.5, 1.0, float(rng.uniform(-3, 3))])
        t *= pick(rng, [1.0, 1.0, 1e-4, 1e5])
        a = [t.copy()]
        rec(dict(k="tri", t=RL(t), o=obs(ctray.areaOfTriangle, *a)), a, flat([t]))
        q = np.array([quad(rng) for _ in range(N)])
        a = [q[0].copy() if n == 0 else q.copy()]
        before = flat(a)
        r = obs(ctray.areaOfQuadrilateral, *(a if rng.random() < 0.7 else [a[0].tolist()]))
        rec(dict(k="quad", n=n, q=RL(q), o=r), a, before)
        # walls
        m = pick(rng, [2, 2, 3, 4, 6])
        line = np.cumsum(rng.normal(size=(m, 2)) * pick(rng, [1, 20]), axis=0)
        if rng.random() < 0.3:
            line = np.round(line * 3)
        line += np.arange(m)[:, None] * 0.5
        z0 = pick(rng, [0.0, float(rng.uniform(-5, 5))])
        z1 = z0 + pick(rng, [1.0, float(rng.uniform(0.1, 20))])
        ln = line if rng.random() < 0.5 else [tuple(q) for q in line.tolist()]
        ev.append(dict(k="extrude", line=RL(line), z0=R(z0), z1=R(z1), o=obs(ctray.extrudeLine, ln, z0, z1)))
    return ev


def quad(rng):
    r = rng.random()
    c = small(rng, 2)
    if r < 0.3:
        w, h = rng.uniform(0.1, 30, 2)
        return np.array([c, c + [w, 0], c + [w, h], c + [0, h]])
    if r < 0.4:
        return np.array([c, c + [1, 0], c + [1, 1], c + [0, 1]])[::-1]
    a = np.sort(rng.uniform(0, 2 * np.pi, 4))
    s = rng.uniform(0.5, 20, 4)
    return c + np.array([np.cos(a), np.sin(a)]).T * s[:, None]


# ------------------------------------------------------------------ C15
def pair(rng, straight=False):
    """two cameras looking at the same region"""
    P = []
    base = np.array([rng.uniform(-100, 100), rng.uniform(-100, 100), rng.uniform(2, 40)])
    target = base + np.array([rng.uniform(-40, 40), rng.uniform(-40, 40), rng.uniform(-20, 10)])
    shared = rng.random() < 0.4
    for i in range(2):
        p = cams.params(rng, sane=True, proj="rect" if straight else None, lens="none" if straight else None, ori=None)
        p["w"], p["h"] = pick(rng, [(640, 480), (1000, 700), (301, 200)])
        p["cx"], p["cy"] = p["w"] * float(rng.uniform(.4, .6)), p["h"] * float(rng.uniform(.4, .6))
        p["fx"] = float(rng.uniform(.6, 1.6)) * p["w"]
        p["fy"] = p["fx"] * float(rng.uniform(.8, 1.2))
        pos = base + (rng.normal(size=3) * rng.uniform(1, 15) if i else 0)
        v = target - pos
        p["ori"] = "thr" if rng.random() < 0.8 else "ypr"
        head = np.rad2deg(np.arctan2(v[0], v[1]))
        tilt = 90 - np.rad2deg(np.arctan2(-v[2], np.linalg.norm(v[:2])))
        roll = float(rng.uniform(-20, 20))
        p["a"] = [float(tilt + rng.normal() * 5), roll, float(head + rng.normal() * 5)]
        if p["ori"] == "ypr":
            p["a"] = [float(head), float(tilt - 90), roll]
        p["pos"] = [float(x) for x in pos]
        P.append(p)
    if shared:
        for k in ("w", "h", "cx", "cy", "fx", "fy", "proj"):
            P[1][k] = P[0][k]
        P[1]["lens"], P[1]["l"] = P[0]["lens"], P[0]["l"]
    return P, target, shared


def group(P, shared):
    if shared and P[0]["lens"] == "none":
        return ct.CameraGroup(cams.projection(P[0]), [cams.orientation(p) for p in P])
    return ct.CameraGroup([cams.projection(p) for p in P], [cams.orientation(p) for p in P], [cams.make_lens(p) for p in P])


def c15(rng, size, pid="C15"):
    ev = []
    for _ in range(size):
        straight = rng.random() < 0.5
        P, target, shared = pair(rng, straight)
        if rng.random() < 0.3:                # the pair is the first two cameras of a larger group
            for _ in range(pick(rng, [1, 1, 2])):
                P.append(dict(P[0], pos=[float(x) for x in np.array(P[0]["pos"]) + rng.normal(size=3) * 5], a=[float(x + rng.normal() * 5) for x in P[0]["a"]]))
        g, err = call(group, P, shared)
        ev.append(dict(k="reset", c=[cams.record(p) for p in P]))
        bad = failed(err) if err is not None else None
        if bad:
            ev.append(dict(k="rays", n=0, a=[], b=[], o=bad, dist=bad))
            continue
        for _ in range(2):
            n = pick(rng, SIZES)
            N = max(n, 1)
            X = target + rng.normal(size=(N, 3)) * pick(rng, [0.5, 4])
            if rng.random() < 0.3:
                X[0] = 2 * np.array(P[0]["pos"]) - X[0]
            xa = X[0] if n == 0 else X
            imgs = obs(g.imagesFromSpace, xa)
            im = values(imgs)
            if im is not None and len(im) == len(P):
                o = obs(g.spaceFromImages, im[0], im[1])
                d = obs(g.discanteBetweenRays, im[0], im[1])
            else:
                o = d = imgs
            ev.append(dict(k="stereo", n=n, x=RL(X), imgs=imgs, o=o, dist=d, base=obs(g.getBaseline)))
            if straight and im is not None and len(im) == len(P):
                ev.append(dict(k="epi", n=n, exact=True, a=RL(np.atleast_2d(im[0])), b=RL(np.atleast_2d(im[1])),
                               o=obs(g.pointCorrespondenceError, im[0], im[1]))) if np.all(np.isfinite(im[:2])) else None
            n = pick(rng, SIZES)
            N = max(n, 1)
            a, b = cams.pixels(rng, P[0], N), cams.pixels(rng, P[1], N)
            aa, bb = arg(a, n), arg(b, n)
            ev.append(dict(k="rays", n=n, a=RL(a), b=RL(b), o=obs(g.spaceFromImages, aa, bb), dist=obs(g.discanteBetweenRays, aa, bb)))
            if straight:
                ev.append(dict(k="epi", n=n, exact=False, a=RL(a), b=RL(b), o=obs(g.pointCorrespondenceError, aa, bb)))
    return ev


# ------------------------------------------------------------------ C26
def c26(rng, size, pid="C26"):
    """a pair of cameras of one kind, its parameters reconstructed from exact correspondences"""
    import cv2
    ev = [dict(k="reset", c=[])]
    while size > 0:
        f = float(rng.uniform(0.6, 2.5))
        w, h = pick(rng, [(640, 480), (1000, 700), (300, 900)])
        p0 = dict(proj="rect", ori="thr", lens="none", w=w, h=h, fx=f * w, fy=f * w, cx=w * float(rng.uniform(.4, .6)), cy=h * float(rng.uniform(.4, .6)),
                  a=[float(x) for x in rng.uniform(-60, 60, 3)], pos=[float(x) for x in rng.uniform(-100, 100, 3)], l=[0., 0., 0.])
        if rng.random() < 0.3:
            p0["pos"] = [0., 0., float(rng.integers(0, 50))]
        n = int(rng.integers(30, 80))
        depth = float(rng.uniform(20, 100))
        c0, err = call(cams.camera, p0)
        x0 = call(lambda: c0.spaceFromImage(np.column_stack([rng.uniform(.03, .97, n) * w, rng.uniform(.03, .97, n) * h]), D=depth * rng.uniform(.6, 1.5, n)))[0]
        base = float(rng.uniform(0.15, 0.4)) * depth
        u = rng.normal(size=3)
        u /= np.linalg.norm(u)
        q = dict(p0, pos=[float(x) for x in np.array(p0["pos"]) + base * u])
        v = np.mean(x0, axis=0) - q["pos"]
        q["a"] = [float(np.rad2deg(np.arctan2(np.hypot(v[0], v[1]), -v[2]))), float(rng.uniform(-180, 180)), float(np.rad2deg(np.arctan2(v[0], v[1])))]
        a, _ = call(c0.imageFromSpace, x0)
        b, _ = call(lambda: cams.camera(q).imageFromSpace(x0))
        if a is None or b is None or not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            size -= 0.1
            continue
        size -= 1
        k = np.array([[p0["fx"], 0, p0["cx"]], [0, p0["fx"], p0["cy"]], [0, 0, 1]])
        try:
            m, _ = cv2.findEssentialMat(a, b, p0["fx"], (p0["cx"], p0["cy"]))
            _, r, t, _ = cv2.recoverPose(m, a, b, k)
        except cv2.error:
            continue
        first = cams.orientation(p0)
        if rng.random() < 0.3:                    # only the position was set by the user
            first = ct.SpatialOrientation(pos_x_m=p0["pos"][0], pos_y_m=p0["pos"][1], elevation_m=p0["pos"][2])
        g = ct.CameraGroup(cams.projection(p0), [first, cams.orientation(dict(q, a=[float(x) for x in rng.uniform(-90, 90, 3)], pos=[1., 2., 3.]))])
        scale = pick(rng, [base, 1.0, float(rng.uniform(0.5, 30))])
        if rng.random() < 0.3:                    # a pair that was reconstructed before
            call(g.setCameraParametersByPointCorrespondence, a[:20].copy(), b[:20].copy(), 2 * scale)
        _, err = call(g.setCameraParametersByPointCorrespondence, a.copy(), b.copy(), scale)

        def state(c):
            e = lambda nm: float(getattr(c, nm))
            return cams.record(dict(p0, w=e("image_width_px"), h=e("image_height_px"), fx=e("focallength_x_px"), fy=e("focallength_y_px"), cx=e("center_x_px"),
                                    cy=e("center_y_px"), a=[e("tilt_deg"), e("roll_deg"), e("heading_deg")], pos=[e("pos_x_m"), e("pos_y_m"), e("elevation_m")]))
        c1, c2 = state(g[0]), state(g[1])
        ev.append(dict(k="pose", ok=err is None, c0=cams.record(p0), c1=c1, c2=c2, a=RL(a), b=RL(b), r=RL(r), t=RL(t.ravel()), base=R(scale),
                       o=obs(g.spaceFromImages, a, b)))
    return ev
