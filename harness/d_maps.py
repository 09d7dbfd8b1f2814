"""Top views and undistorted images in histories of camera changes (C16)."""
import numpy as np
import os
from vh import R, RL, call
import vh
import cams
from cams import pick
from d_store import World, world, PARAM_OPS, id_


def ints(a):
    return [int(x) for x in np.asarray(a).ravel()]


def image(rng, w, h):
    C = pick(rng, [1, 1, 3, 4])
    img = rng.integers(2, 250, size=(h, w) if C == 1 else (h, w, C)).astype("uint8")
    return C, img


def dyadic(rng, lo, hi, q=0.25):
    return float(np.round(rng.uniform(lo, hi) / q) * q)


def pictures():
    import matplotlib.pyplot as plt
    return [im for n in plt.get_fignums() for ax in plt.figure(n).axes for im in ax.images]


def stretched(p, Z):
    """the ground that the border shows is too long and thin for a picture in memory"""
    cam = cams.camera(p)
    with np.errstate(all="ignore"):
        g, err = call(lambda: np.asarray(cam.spaceFromImage(np.asarray(cam.getImageBorder(), dtype=float), Z=Z)))
    if err is not None:
        return True
    g = g[np.all(np.isfinite(g), axis=1)]
    if not len(g):
        return False
    d = np.ptp(g[:, :2], axis=0)
    return not (1e-3 < d[0] < 1e12 and 1e-3 < d[1] < 1e12 and 1e-4 < d[0] / d[1] < 1e4)


def map_event(w, k, mode, img, C, args, refuse=False):
    """args: keyword arguments of the call; the fresh camera is built from the current parameters"""
    rng = w.rng
    p = w.rec(k)
    skip = False
    if mode == "top" and args.get("extent") is None:
        skip = stretched(p, args.get("Z", 0))
        if skip:
            return
    fn = "getTopViewOfImage" if mode == "top" else "undistortImage"
    before = img.copy()
    a = dict(args)
    seen = pictures()
    res, err = call(getattr(w.objs[k], fn), img, **a)
    new = [im for im in pictures() if not any(im is o for o in seen)]
    pe = new[-1].get_extent() if a.get("do_plot") and len(new) else []
    shown = [] if not new else np.asarray(new[-1].get_array())[:: -1 if getattr(new[-1], "origin", "upper") == "lower" else 1]
    same = bool(len(new) and err is None and np.array_equal(shown, res))
    fresh, errf = call(lambda: getattr(cams.camera(p), fn)(before.copy(), **dict(args, **({"extent": list(args["extent"])} if args.get("extent") is not None else {}))))
    ok, okf = err is None and isinstance(res, np.ndarray), errf is None and isinstance(fresh, np.ndarray)
    ev = dict(cam=k, mode=mode, W=int(img.shape[1]), H=int(img.shape[0]), C=C, img=ints(before),
              ext=RL(args["extent"]) if args.get("extent") is not None else [], sc=[R(args["scaling"])] if args.get("scaling") else [],
              Z=R(args.get("Z", 0)), hide=bool(args.get("hide_backpoints", True)), refuse=refuse, skip=skip,
              plot=bool(a.get("do_plot")), drawn=len(new), same=same, pe=RL(pe) if len(pe) else [],
              ok=ok, okf=okf, shape=list(res.shape) if ok else [], shapef=list(fresh.shape) if okf else [],
              out=ints(res)[:6000] if ok else [], outf=ints(fresh)[:6000] if okf else [])
    if not np.array_equal(before, img):
        ev["ok"] = False      # the image of the caller was changed
    w.emit("map", **ev)


def calls(rng, p, mode, mirror=0.25):
    """arguments of one call, aimed at what the camera sees"""
    if mode == "undistort":
        r = rng.random()
        if r < 0.25:
            return {}, False
        s = pick(rng, [1, 1, 2, 0.5, 1.5])
        x0, y0 = dyadic(rng, -4, 6, 0.5), dyadic(rng, -4, 6, 0.5)
        ext = [x0, x0 + s * int(rng.integers(3, 9)), y0, y0 + s * int(rng.integers(3, 9))]
        return dict(extent=ext, scaling=s), True
    cam = cams.camera(p)
    Z = pick(rng, [0, 0, 1.5, -2])
    c = np.array([p["cx"] + rng.uniform(-.3, .3) * p["w"], p["cy"] + rng.uniform(0, .4) * p["h"]])
    g, err = call(cam.spaceFromImage, c, Z=Z)
    back = False
    if p["proj"] == "rect" and rng.random() < mirror:
        # a place behind the camera that is mirrored into the image
        res, err = call(cam.getRay, np.array([p["cx"] + rng.uniform(-.3, .3) * p["w"], p["cy"] + rng.uniform(-.4, .4) * p["h"]]))
        if err is None and abs(res[1][2]) > 1e-3:
            Z = float(np.round((p["pos"][2] - np.sign(res[1][2]) * rng.uniform(2, 20)) * 4) / 4)
            t = (Z - res[0][2]) / res[1][2]
            if t < 0:
                g, back = np.asarray(res[0]) + t * np.asarray(res[1]), True
    if err is not None or not np.all(np.isfinite(g)) or np.linalg.norm(np.array(g) - p["pos"]) > 2000:
        g = np.array(p["pos"]) + rng.uniform(-20, 20, 3)
    size = max(1.0, float(np.linalg.norm(np.array(g) - p["pos"])) * pick(rng, [0.3, 0.7, 1.5]))
    nx, ny = int(rng.integers(3, 9)), int(rng.integers(3, 9))
    s = max(0.25, np.round(size / 6 * 4) / 4)
    x0, y0 = float(np.round((g[0] - nx * s / 2) * 4) / 4), float(np.round((g[1] - ny * s / 2) * 4) / 4)
    args = dict(extent=[x0, x0 + nx * s, y0, y0 + ny * s], scaling=float(s))
    if Z != 0 or rng.random() < 0.3:
        args["Z"] = Z
    if rng.random() < (0.8 if back else 0.3):
        args["hide_backpoints"] = pick(rng, [True, False])
    r = rng.random()
    if r < 0.08:
        args.pop("scaling")
        return args, False
    if r < 0.22:
        args.pop("extent")
        args.pop("scaling")
        return args, False
    return args, True


def wide(rng, pid):
    """an image with some thousand columns, of which a few far right are looked at"""
    w = world(rng, pid, small=True, group=False, ncam=1, lenses=("none", "none", "brown"))
    k = list(w.cams)[0]
    p = w.rec(k)
    W, H = int(rng.integers(2100, 4200)), int(rng.integers(3, 6))
    w.op_set(k, "image_width_px", W)
    w.op_set(k, "image_height_px", H)
    w.op_set(k, "center_x_px", float(rng.integers(W // 3, W)))
    w.op_set(k, "focallength_px", float(W))
    p = w.rec(k)
    C, img = image(rng, W, H)
    if C > 1:
        C, img = 1, np.ascontiguousarray(img[..., 0])
    x0 = float(rng.integers(2060, W - 10))
    map_event(w, k, "undistort", img, C, dict(extent=[x0, x0 + 9, 0., float(H)], scaling=1.))
    g, err = call(cams.camera(p).spaceFromImage, np.array([x0, H / 2]), Z=0)
    if err is None and np.all(np.isfinite(g)):
        s = float(2.0 ** np.round(np.log2(max(np.linalg.norm(np.array(g) - p["pos"]) / W, 2. ** -12))))
        a, b = float(np.round(g[0] / s) * s), float(np.round(g[1] / s) * s)
        map_event(w, k, "top", img, C, dict(extent=[a - 4 * s, a + 4 * s, b - 4 * s, b + 4 * s], scaling=s))
    return w.ev


def twins(rng, pid):
    """cameras of the same numbers with another projection or lens, loaded into each other between equal calls"""
    w = World(rng, pid, small=True)
    ks = []
    p, l = pick(rng, [(("rect", "cyl"), None), (("cyl", "equi"), None), (("rect", "equi"), None),
                      (None, ("brown", "abc")), (None, ("brown", "abc")), (None, ("none", "brown")), (None, ("abc", "none"))])
    projs = p or (pick(rng, ["rect", "rect", "cyl"]),) * 2
    lenses = l or (pick(rng, ["none", "brown", "abc"]),) * 2
    vp = {n: w.value(n) for n in ("focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "image_width_px", "image_height_px")}
    vo = dict(elevation_m=float(rng.uniform(5, 40)), tilt_deg=float(rng.uniform(20, 75)), roll_deg=float(rng.uniform(-20, 20)),
              heading_deg=float(rng.uniform(0, 360)), pos_x_m=float(rng.uniform(-20, 20)), pos_y_m=float(rng.uniform(-20, 20)))
    num = [float(rng.uniform(0.02, .09)) for _ in range(3)]
    for p, l in zip(projs, lenses):
        vl = dict(zip(("k1", "k2", "k3") if l == "brown" else ("a", "b", "c"), num)) if l != "none" else {}
        ks.append(w.cam(w.part(p, vals=dict(vp)), w.part("thr", vals=dict(vo)), w.part(l, vals=vl)))
    files = [w.op_save(k, f) for k, f in zip(ks, ("ta.json", "tb.json"))]
    k = ks[0]
    p = w.rec(k)
    C, img = image(rng, p["w"], p["h"])
    args = {m: calls(rng, p, m, 0.6)[0] for m in ("top", "undistort")}
    for f in (None, files[1], None, files[0], None):
        if f:
            w.op_load(k, f)
        elif args["top"].get("extent") is not None and rng.random() < 0.7:
            args["top"]["hide_backpoints"] = not args["top"].get("hide_backpoints", True)
        for m in args:
            map_event(w, k, m, img, C, dict(args[m]))
    return w.ev


def c16(rng, size, pid="C16"):
    import matplotlib.pyplot as plt
    ev = wide(rng, pid)
    for _ in range(max(1, size // 3)):
        ev += twins(rng, pid)
    for _ in range(size):
        w = world(rng, pid, small=True, group=False, ncam=int(rng.integers(1, 3)))
        last = {}
        for _ in range(7):
            k = pick(rng, list(w.cams))
            r = rng.random()
            if r < 0.75:
                for _ in range(int(rng.integers(1, 3))):
                    w.random_op(PARAM_OPS + ["save", "load"])
            for k in list(w.cams):
                p = w.rec(k)
                for mode in ("top", "undistort"):
                    if rng.random() < 0.35:
                        continue
                    if (k, mode) in last and rng.random() < 0.6:
                        args, explicit = last[k, mode]         # the same call again, perhaps with one argument changed
                        q = rng.random()
                        if q < 0.25 and explicit:
                            # the caller re-uses his list
                            d = float(rng.integers(-3, 4))
                            args["extent"][0] += d
                            args["extent"][1] += d
                        elif q < 0.35 and explicit and mode == "top":
                            args["Z"] = pick(rng, [0, 1.5, 3])
                        elif q < 0.45 and explicit and mode == "top":
                            args["hide_backpoints"] = not args.get("hide_backpoints", True)
                        elif q < 0.55 and explicit:
                            args["extent"] = list(args["extent"])
                            n = [(args["extent"][1] - args["extent"][0]) / args["scaling"], (args["extent"][3] - args["extent"][2]) / args["scaling"]]
                            f = pick(rng, [0.5, 2])
                            args["scaling"] *= f
                            if f == 0.5:
                                args["extent"][1] = args["extent"][0] + (args["extent"][1] - args["extent"][0]) / 2
                                args["extent"][3] = args["extent"][2] + (args["extent"][3] - args["extent"][2]) / 2
                    else:
                        args, explicit = calls(rng, p, mode)
                    last[k, mode] = args, explicit
                    C, img = image(rng, p["w"], p["h"])
                    a = dict(args)
                    q, refuse = rng.random(), False
                    if q < 0.15:
                        # another image size
                        C, img = image(rng, p["w"] + 2, max(3, p["h"] - 2))
                        a["skip_size_check"] = True
                    elif q < 0.2:
                        C, img = image(rng, p["w"] + int(rng.integers(0, 2)), p["h"] + 1) if rng.random() < 0.5 else image(rng, p["w"] + 1, p["h"])
                        refuse = True
                    if rng.random() < (0.15 if a.get("extent") is not None else 0.6):
                        a["do_plot"] = True
                    map_event(w, k, mode, img, C, a, refuse)
                    if a.get("do_plot") and rng.random() < 0.5:
                        map_event(w, k, mode, img, C, dict(a, extent=list(a["extent"])) if a.get("extent") is not None else dict(a), refuse)
                plt.close("all")
        ev += w.ev
    return ev


# ------------------------------------------------------------------ histories of the design model
FAULTS = ["pose", "turn", "focal", "center", "lens", "extent", "scaling", "Z", "hide", "reference", "shared"]


def m_maps(cls, work):
    cfg = "INIT Init\nNEXT Next\nINVARIANT Right\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps = %d Fault = \"%s\" Export = %s\n"
    r = vh.model(cls, os.path.join(work, "a"), "MC_Maps", cfg % (3, "none", "TRUE"))
    deep = vh.model(cls, os.path.join(work, "deep"), "MC_Maps", cfg % (6 if vh.THOROUGH else 5, "none", "FALSE"))
    for f in FAULTS if vh.THOROUGH else ["pose", "Z", "reference", "shared"]:
        vh.model(cls, os.path.join(work, f), "MC_Maps", cfg % (3, f, "FALSE"), must_fail="Invariant Right is violated")
    return dict(states=r["states"] + deep["states"], generated=r["generated"] + deep["generated"], exhaustive=True, cases=vh.cases(r["out"]),
                negative_variant_fails=True, module="MC_Maps.tla")


def c16_cases(rng, size, cases, pid="C16"):
    import matplotlib.pyplot as plt
    ev = []
    cases = list(cases)
    if size and len(cases) > size:
        cases = [cases[i] for i in rng.choice(len(cases), size, replace=False)]
    for case in cases:
        w = World(rng, pid, small=True)
        lens = pick(rng, ["brown", "abc", "none"])
        ori = pick(rng, ["thr", "thr", "ypr"])
        vo = dict(elevation_m=float(rng.uniform(5, 40)), pos_x_m=float(rng.uniform(-20, 20)), pos_y_m=float(rng.uniform(-20, 20)), roll_deg=float(rng.uniform(-20, 20)))
        vo.update(dict(tilt_deg=float(rng.uniform(20, 75)), heading_deg=float(rng.uniform(0, 360))) if ori == "thr"
                  else dict(pitch_deg=float(rng.uniform(-70, -15)), yaw_deg=float(rng.uniform(0, 360))))
        proj = pick(rng, ["rect", "rect", "cyl", "equi"])
        vp = {n: w.value(n) for n in ("focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "image_width_px", "image_height_px")}
        names = dict(brown=("k1", "k2", "k3"), abc=("a", "b", "c"), none=())[lens]
        vl = {n: float(rng.uniform(0.02, .08)) for n in names}
        two = [w.cam(w.part(proj, vals=dict(vp)), w.part(ori, vals=dict(v)), w.part(lens, vals=dict(vl)))
               for v in (vo, dict(vo, elevation_m=vo["elevation_m"] + 4., roll_deg=vo["roll_deg"] + 30.))]
        k = two[0]
        saved = w.op_save(k, "keep.json")
        p = w.rec(k)
        C, img = image(rng, p["w"], p["h"])
        args, explicit = {}, {}
        for m in ("top", "undistort"):
            explicit[m] = False
            while not explicit[m]:
                args[m], explicit[m] = calls(rng, p, m, 0.4)
        state = {}

        def toggle(name, steps):
            """the other one of two values"""
            state[name] = not state.get(name, False)
            return steps if state[name] else -steps
        changes = dict(pose=("pos_y_m", 2.5), turn=(pick(rng, ["roll_deg", "heading_deg" if ori == "thr" else "yaw_deg"]), 20.), focal=("focallength_x_px", 0.2 * vp["focallength_x_px"]),
                       center=(pick(rng, ["center_x_px", "center_y_px"]), 3.), lens=(names[0], 0.05) if names else None)

        def ask(c):
            for m in args:
                map_event(w, c, m, img, C, args[m])
        ask(k)
        for op in list(case) + ["call"]:
            if op == "call":
                ask(k)
            elif op == "other":
                ask(two[1])
            elif op == "load":
                w.op_load(k, saved)
                state = {n: v for n, v in state.items() if n not in changes}
            elif op in changes:
                if changes[op]:
                    n, d = changes[op]
                    w.op_set(k, n, dict(vp, **vo, **vl)[n] + (d if toggle(op, 1) > 0 else 0.0))
            else:
                for m, a in args.items():
                    if op in ("extent", "slide"):
                        d = toggle(m + "extent", 2.0)
                        if op == "extent":
                            a["extent"] = list(a["extent"])
                        a["extent"][0] += d
                        a["extent"][1] += d
                    elif op == "scaling":
                        a["scaling"] *= 2.0 if toggle(m + "scaling", 1) > 0 else 0.5
                    elif op == "Z" and m == "top":
                        a["Z"] = a.get("Z", 0) + toggle("Z", 1.5)
                    elif op == "hide" and m == "top":
                        a["hide_backpoints"] = not a.get("hide_backpoints", True)
        plt.close("all")
        ev += w.ev
    return ev
