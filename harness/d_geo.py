"""C10 geodesy, C11 GPS text, C12 GPS frame (T_Geo.tla)."""
import numpy as np
import vh
from vh import R, RL, obs, call, encode, failed, values
import cams
from cams import pick
import cameratransform as ct

SIZES = [0, 0, 1, 2, 2, 3, 3, 4, 7]


def latlon(rng, poles=True):
    r = rng.random()
    lat = float(rng.uniform(-90, 90))
    lon = float(rng.uniform(-180, 180))
    if r < 0.12 and poles:
        lat = pick(rng, [90.0, -90.0, 89.9999, -89.999999])
    elif r < 0.22:
        lat = 0.0
    if rng.random() < 0.25:
        lon = pick(rng, [180.0, -180.0, 0.0, 179.9999, -179.99999, 90.0, 360.0])
    return lat, lon


def point(rng, dim):
    lat, lon = latlon(rng)
    return [lat, lon] + ([pick(rng, [0.0, float(rng.uniform(-100, 9000))])] if dim == 3 else [])


def near(rng, p, dim):
    """a second point: anywhere, close by, equal, antipodal, across the date line"""
    r = rng.random()
    if r < 0.35:
        return point(rng, dim)
    if r < 0.75:
        s = 10 ** rng.uniform(-7, 1)
        q = [float(np.clip(p[0] + rng.normal() * s, -90, 90)), float(p[1] + rng.normal() * s)]
    elif r < 0.82:
        q = [p[0], p[1]]
    elif r < 0.9:
        q = [p[0], p[1] + 360.0 * pick(rng, [-1, 1])] if rng.random() < 0.5 else [p[0], float(rng.uniform(-180, 180))]
    else:
        q = [-p[0], p[1] + 180.0]
    return q + ([p[2] + pick(rng, [0.0, float(rng.normal() * 100)])] if dim == 3 else [])


def arg(pts, n):
    a = np.array(pts, dtype=float)
    return a[0] if n == 0 else a


def c10(rng, size, pid="C10"):
    ev = []
    for _ in range(size):
        n = pick(rng, SIZES)
        N = max(n, 1)
        d1, d2 = pick(rng, [(2, 2), (3, 3), (2, 3), (3, 2)])
        P = [point(rng, 3) for _ in range(N)]
        Q = [near(rng, p, 3) for p in P]
        P, Q = [p[:d1] for p in P], [q[:d2] for q in Q]
        one = n > 0 and rng.random() < 0.2       # one point against many
        pa = np.array(P[0]) if one else arg(P, n)
        qa = arg(Q, n)
        ev.append(dict(k="dist", n=n, p=RL(P[:1] if one else P), q=RL(Q), o=obs(ct.getDistance, pa, qa), rev=obs(ct.getDistance, qa, pa),
                       same=obs(ct.getDistance, qa, qa)))
        ev.append(dict(k="bear", n=n, p=RL(P[:1] if one else P), q=RL(Q), o=obs(ct.getBearing, pa, qa)))
        # movement: single start with many moves, many starts with one move, element wise
        dim = pick(rng, [2, 3])
        mode = pick(rng, ["each", "starts", "moves"]) if n else "each"
        S = [point(rng, dim) for _ in range(1 if mode == "moves" else N)]
        M = 1 if mode == "starts" else N
        D = [float(pick(rng, [0.0, 10 ** rng.uniform(-2, 7.3), rng.uniform(0, 2.5e7)])) for _ in range(M)]
        B = [float(pick(rng, [0, 90, 180, -90, 270, 360, rng.uniform(-180, 360)])) for _ in range(M)]
        if rng.random() < 0.15:                  # ends exactly at a pole
            lat0 = S[0][0]
            h = S[0][2] if dim == 3 else 0.0
            B[0] = 0.0
            D[0] = float(np.deg2rad(90 - lat0) * (6371e3 + h))
        sa = np.array(S[0]) if (n == 0 or mode == "moves") else np.array(S)
        da, ba = (D[0], B[0]) if (n == 0 or mode == "starts") else (np.array(D), np.array(B))
        ev.append(dict(k="move", n=n, dim=dim, p=RL(S), d=RL(D), b=RL(B), o=obs(ct.moveDistance, sa, da, ba)))
    return ev


# ------------------------------------------------------------------ text
def codes(s):
    return [ord(c) for c in s]


def coordinate(rng, lim):
    r = rng.random()
    s = -1 if rng.random() < 0.5 else 1
    if r < 0.2:
        v = rng.uniform(0, lim)
    elif r < 0.4:                                 # just below or above a full degree, minute or second
        k = pick(rng, [1, 60, 3600])
        v = int(rng.integers(0, int(lim) * k)) / k + pick(rng, [0, 1, -1]) * 10 ** rng.uniform(-13, -4)
    elif r < 0.6:
        v = rng.uniform(0, 1)
    elif r < 0.7:
        v = rng.uniform(0, 1 / 60)
    elif r < 0.8:
        v = pick(rng, [0.0, 0.5, 1 / 60, 59.9999999 / 60, 0.9999999, 1e-9, lim, 1 - 1e-16, 9 - 2e-15])
    else:
        v = int(rng.integers(0, int(lim) * 36000)) / 36000
    return float(s * min(abs(v), lim))


FORMATS = [  # format, n, decimals of the last number (-1: %d), letter, parsable
    (None, 3, 3, True, True),
    ("%2d° %2d' %6.3f\" %s", 3, 3, True, True), ("%2d° %2d' %6.3f\"", 3, 3, False, True), ("%d°%d'%.1f\" %s", 3, 1, True, True),
    ("%02d° %02d′ %06.3f″ %s", 3, 3, True, True), ("%2d° %2d' %.0f\" %s", 3, 0, True, True), ("%2d° %2d' %2d\" %s", 3, -1, True, True),
    ("%2d° %2d' %2d\"", 3, -1, False, True),
    ("%2d° %2.3f' %s", 2, 3, True, True), ("%2d° %2.3f'", 2, 3, False, True), ("%2d° %.5f %s", 2, 5, True, True), ("%2d° %2d' %s", 2, -1, True, True),
    ("%2d° %.1f' %s", 2, 1, True, True), ("%2d° %.0f' %s", 2, 0, True, True),
    ("%2.3f°", 1, 3, False, True), ("%.6f° %s", 1, 6, True, True), ("%f°", 1, 6, False, True), ("%2d° %s", 1, -1, True, True), ("%2d°", 1, -1, False, True),
    ("%.0f°", 1, 0, False, True), ("%s %2d° %2d' %6.3f\"", 3, 3, True, False), ("%s%.4f", 1, 4, True, False), ("%3d %2d %6.3f", 3, 3, False, False)]
MARK = {"'": "'", "p": "′", "a": "´", "q": "’", "": "", "''": "''", "dq": '"', "aa": "´´", "pp": "″", "qq": "’’", "qd": "”", " ": " ", "t": "\t"}


def c11_text(rng, size, pid="C11"):
    ev = []
    for _ in range(size):
        for fmt, n, dec, letter, parsable in FORMATS:
            lat, lon = coordinate(rng, 90), coordinate(rng, 180)
            h = pick(rng, [float(np.round(rng.uniform(-50, 5000), 3))] * 3 + [0.0, int(rng.integers(-50, 5000))])
            kw = {} if fmt is None else dict(format=fmt)
            if rng.random() < 0.1:
                kw["asLatex"] = True
            res, err = call(ct.formatGPS, lat, lon, **kw)
            bad = encode(np.nan)
            e = dict(k="text", ok=False, f=dict(n=n, dec=dec, letter=letter), fmt=codes(str(fmt)), lat=R(lat), lon=R(lon), h=R(h), slat=[], slon=[], parse=parsable,
                     pair=bad, list=bad, high=bad, many=bad, one=bad, listhigh=bad, batch=[], batchhigh=bad)
            if err is None and len(res) == 2 and all(isinstance(s, str) for s in res):
                e["ok"] = True
                a, b = res
                e["slat"], e["slon"] = codes(a), codes(b)
                if parsable:
                    sep = pick(rng, [" ", " ", ", ", "  "])
                    e["pair"] = obs(ct.gpsFromString, a + sep + b)
                    e["list"] = obs(ct.gpsFromString, pick(rng, [[a, b], (a, b)]))
                    e["high"] = obs(ct.gpsFromString, a + sep + b, h)
                    e["listhigh"] = obs(ct.gpsFromString, [a, b], h) if rng.random() < 0.5 else obs(ct.gpsFromString, (a + sep + b, h))
                    e["many"] = obs(ct.gpsFromString, [[a + sep + b, h], (a + " " + b, h)])
                    e["one"] = obs(ct.gpsFromString, b)
                    m = int(rng.integers(1, 4))           # several points, one height for all or one for each
                    hs = [h] * m if rng.random() < .5 else [float(np.round(x, 3)) for x in rng.uniform(-50, 5000, m)]
                    e["batch"] = RL(hs)
                    e["batchhigh"] = obs(ct.gpsFromString, [a + sep + b] * m, h if hs == [h] * m and rng.random() < .5 else hs)
            ev.append(e)
        for fmt in ("", "no place holder", "%2d %2d %2d %2d", "%d° %d' %f %f %s"):
            ev.append(dict(k="badfmt", o=obs(ct.formatGPS, 1.0, 2.0, fmt)))
    return ev


def notation(rng, x):
    """instantiate a notation case of MC_GpsText with random numbers"""
    def num(axis):
        lim = 90 if axis == 0 else 180
        deg = int(rng.integers(0, lim))
        if rng.random() < 0.2:
            deg = 0
        mi = int(rng.integers(0, 60))
        dec = int(rng.integers(0, 6))
        if x["n"] == 1:
            t = "%.*f" % (dec, deg + rng.random())
            return [float(t)], t + "°"
        pad = rng.random() < 0.3
        d = ("%03d" if pad else "%d") % deg
        gap = " " * x["gap"]
        if x["n"] == 2:
            t = "%.*f" % (dec, min(mi + rng.random(), 59.9))
            return [float(d), float(t)], d + "°" + gap + t + MARK[x["mm"]]
        m = ("%02d" if pad else "%d") % mi
        t = "%.*f" % (dec, min(rng.random() * 60, 59.9))
        return [float(d), float(m), float(t)], d + "°" + gap + m + MARK[x["mm"]] + gap + t + MARK[x["sm"]]
    axes = 1 if x["kind"] == "single" else 2
    nums, neg, txt = [], [], []
    use = [int(rng.integers(2))] if axes == 1 else [0, 1]
    for axis in use:
        v, t = num(axis)
        s = bool(rng.random() < 0.5)
        sign = x["sign"]
        if sign == "latletter":
            sign = "letters" if axis == 0 else "none"
        if sign == "letters":
            t = t + " " * int(rng.integers(0, 2)) + ("NS" if axis == 0 else "EW")[s]
        elif sign == "minus":
            t = ("-" if s else "") + t
        elif sign == "both":                  # a negative number with the letter of the positive axis
            t = ("-" if s else "") + t + " " * int(rng.integers(0, 2)) + "NE"[axis]
        elif sign == "plus":
            s = False
            t = "+" + t
        else:
            s = False
        nums.append(v)
        neg.append(s)
        txt.append(t)
    return axes, nums, neg, txt


def c11_notations(rng, size, cases, pid="C11"):
    ev = []
    for _ in range(size):
        for x in cases:
            axes, nums, neg, txt = notation(rng, x)
            h = float(np.round(rng.uniform(-50, 5000), 3))
            high = x["kind"] == "high"
            if x["kind"] == "single":
                a = txt[0]
            elif x["kind"] == "list":
                a = txt
            else:
                a = txt[0] + (MARK[x["sep"]] if x["sep"] in MARK else x["sep"]) + txt[1]
            o = obs(ct.gpsFromString, a, h) if high else obs(ct.gpsFromString, a)
            ev.append(dict(k="parse", axes=axes, nums=RL(nums), neg=neg, high=high, h=R(h), text=codes(a if isinstance(a, str) else "|".join(a)), o=o))
    return ev


def m_text(cls, work):
    cfg = "INIT Init\nNEXT Next\nINVARIANT RoundTrip InRange\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxDeg = %d Carry = %s Export = %s\n"
    r = vh.model(cls, work, "MC_GpsText", cfg % (3 if vh.THOROUGH else 1, "TRUE", "TRUE"), workers=2)
    vh.model(cls, work + "n", "MC_GpsText", cfg % (1, "FALSE", "FALSE"), workers=2, must_fail="Invariant InRange is violated")
    return dict(states=r["states"], generated=r["generated"], depth=r["depth"], exhaustive=True, cases=vh.cases(r["out"]))


# ------------------------------------------------------------------ frame
def crecord(p, lat, lon):
    d = cams.record(p)
    d["lat"], d["lon"] = R(lat), R(lon)
    return d


def gps_near(rng, lat, lon, n, dim):
    out = []
    for _ in range(n):
        s = 10 ** rng.uniform(-6, 0.3)
        out.append([float(np.clip(lat + rng.normal() * s, -89.9, 89.9)), float(lon + rng.normal() * s)] + ([float(rng.uniform(-10, 300))] if dim == 3 else []))
    if rng.random() < 0.2:
        out[0][:2] = [lat, lon]
    return out


def space_near(rng, n, dim=3):
    out = []
    for _ in range(n):
        s = 10 ** rng.uniform(-1, 5.5)
        x = [float(v) for v in rng.normal(size=2) * s]
        if rng.random() < 0.2:
            x[int(rng.integers(2))] = 0.0
        if rng.random() < 0.05:
            x = [0.0, 0.0]
        out.append(x + ([float(rng.normal() * 50)] if dim == 3 else []))
    return out


def c12(rng, size, pid="C12"):
    ev = []
    for _ in range(size):
        p = cams.params(rng, sane=True)
        p["pos"][2] = float(rng.uniform(1, 300))
        cam, err = call(cams.camera, p)
        lat, lon = float(rng.uniform(-75, 75)), pick(rng, [float(rng.uniform(-180, 180)), 179.9995, 0.0])
        if rng.random() < 0.1:
            lat = 0.0
        ev.append(dict(k="camera", c=crecord(p, 0, 0)))
        if err is not None:
            ev.append(dict(k="sfg", n=0, g0=RL([0, 0]), g=[RL([0, 0])], o=failed(err)))
            continue
        # the position is set in several ways, one after the other
        for _ in range(3):
            mode = pick(rng, ["nums", "nums3", "text", "text3", "point2", "point3", "list2", "list3", "np2", "elev3"])
            elev = float(np.round(rng.uniform(1, 300), 3))
            if rng.random() < 0.15:
                elev = pick(rng, [0.0, 0, -3.5])
            vlat, vlon = lat, lon
            if mode == "nums":
                _, err = call(cam.setGPSpos, lat, lon)
            elif mode == "nums3":
                _, err = call(cam.setGPSpos, lat, lon, elev)
            elif mode == "elev3":
                _, err = call(cam.setGPSpos, pick(rng, [np.array, list])([lat, lon]), elevation=elev)
            elif mode in ("text", "text3"):
                a = int(abs(lat) * 3600 * 100) / 360000
                b = int(abs(lon) * 3600 * 100) / 360000
                vlat, vlon = (-a if lat < 0 else a), (-b if lon < 0 else b)
                t = "%.9f° %.9f°" % (vlat, vlon)
                vlat, vlon = [float(x[:-1]) for x in t.split()]
                _, err = call(cam.setGPSpos, t) if mode == "text" else call(cam.setGPSpos, t, elevation=elev)
            else:
                q = [lat, lon] + ([elev] if mode.endswith("3") else [])
                _, err = call(cam.setGPSpos, np.array(q) if mode.startswith(("point", "np")) else q)
            given = mode.endswith("3")
            got, gerr = call(lambda: [cam.gps_lat, cam.gps_lon, cam.elevation_m])
            o = failed(err) if err is not None else obs(lambda: got)
            plain = gerr is None and all(np.ndim(v) == 0 and not isinstance(v, np.ndarray) for v in got)
            ev.append(dict(k="setgps", lat=R(vlat), lon=R(vlon), given=given, elev=R(elev), plain=bool(plain), mode=mode, o=o))
            if given:
                p["pos"][2] = elev
            lat, lon = vlat, vlon
        g2 = [lat, lon]
        g3 = [lat, lon, p["pos"][2]]
        for _ in range(2):
            n = pick(rng, SIZES)
            N = max(n, 1)
            dim = pick(rng, [2, 3, 3])
            G = gps_near(rng, lat, lon, N, dim)
            ev.append(dict(k="sfg", n=n, g0=RL(g2), g=RL(G), o=obs(cam.spaceFromGPS, arg(G, n))))
            ev.append(dict(k="ifg", n=n, g=RL(G), o=obs(cam.imageFromGPS, arg(G, n))))
            X = space_near(rng, N)
            o = obs(cam.gpsFromSpace, arg(X, n))
            g = values(o)
            ev.append(dict(k="gfs", n=n, dim=3, g0=RL(g3), x=RL(X), o=o, back=obs(cam.spaceFromGPS, g) if g is not None else o))
            pix = cams.pixels(rng, p, N)
            con = pick(rng, [{}, dict(Z=0.5), dict(D=float(rng.uniform(1, 500))), dict(X=p["pos"][0] + 3.0), dict(Y=p["pos"][1] - 2.5),
                             dict(Z=np.linspace(0, 1, N) if n else 0.25), dict(D=np.linspace(5, 50, N) if n else 7.0),
                             dict(X=p["pos"][0] + 3.0, D=20.0), dict(Y=p["pos"][1] - 2.5, D=20.0), dict(Z=0.5, D=20.0),
                             dict(Z=None, D=20.0), dict(X=p["pos"][0] + 3.0, Z=0.5), dict(Y=p["pos"][1] - 2.5, Z=None),
                             dict(X=p["pos"][0] + 3.0, Y=p["pos"][1] - 2.5)])
            ev.append(dict(k="gfi", n=n, o=obs(cam.gpsFromImage, arg(pix, n), **con), s=obs(cam.spaceFromImage, arg(pix, n), **con)))
            # the module level functions
            g0 = pick(rng, [g2, g3])
            dim = pick(rng, [2, 3])
            X = space_near(rng, N, dim)
            o = obs(ct.gpsFromSpace, arg(X, n), pick(rng, [np.array(g0), g0]))
            g = values(o)
            ev.append(dict(k="gfs", n=n, dim=dim, g0=RL(g0), x=RL(X), o=o, back=obs(ct.spaceFromGPS, g, np.array(g2)) if g is not None else o))
            dim = pick(rng, [2, 3])
            G = gps_near(rng, lat, lon, N, dim)
            ev.append(dict(k="sfg", n=n, g0=RL(g2), g=RL(G), o=obs(ct.spaceFromGPS, arg(G, n), pick(rng, [np.array(g2), g2]))))
    return ev
