"""C09: constructors of the projections with every combination of arguments, and the field of view conversions."""
import os
import numpy as np
from vh import R, RL, obs, call, failed, encode
import vh
import cams
from cams import pick
import cameratransform as ct


def m_intrinsics(cls, work):
    inv = "INIT Init\nNEXT Next\nINVARIANT Agrees\nINVARIANT Ends\nCHECK_DEADLOCK FALSE\nCONSTANTS Export = %s KeepGiven = %s\n"
    r = vh.model(cls, os.path.join(work, "a"), "MC_Intrinsics", inv % ("TRUE", "TRUE"))
    r["cases"] = vh.cases(r["out"])
    neg = vh.model(cls, os.path.join(work, "b"), "MC_Intrinsics", inv % ("FALSE", "FALSE"), must_fail="Invariant Agrees is violated")
    return dict(states=r["states"], generated=r["generated"], exhaustive=True, cases=r["cases"], negative_variant_fails=True, module="MC_Intrinsics.tla")


def num(rng, lo, hi, integer=0.3):
    return int(rng.integers(int(lo) + 1, int(hi) + 1)) if rng.random() < integer else float(rng.uniform(lo, hi))


def args_for(rng, p, proj):
    iw, ih = int(rng.integers(2, 60)), int(rng.integers(2, 60))
    a = dict(iw=iw, ih=ih, w=int(rng.integers(2, 5000)), h=int(rng.integers(2, 4000)), f=num(rng, 10, 5000), fp=[num(rng, 10, 5000), num(rng, 10, 5000)],
             fx=num(rng, 10, 5000), fy=num(rng, 10, 5000), mm=num(rng, 1, 400), s=[num(rng, 1, 40), num(rng, 1, 40)], sw=num(rng, 1, 40), sh=num(rng, 1, 40),
             vx=num(rng, 1, 170), vy=num(rng, 1, 120), c=[num(rng, -50, 5000), num(rng, -50, 5000)], cx=num(rng, 1, 5000), cy=num(rng, 1, 5000))
    if not p["c"] and rng.random() < 0.3:      # a centre coordinate of zero counts as given
        a[pick(rng, ["cx", "cy"])] = pick(rng, [0, 0.0, -3.5])
    if p["c"] and not (p["cx"] or p["cy"]) and rng.random() < 0.3:
        a["c"] = [0, pick(rng, [0, 5.0])]
    kw = {}
    if p["img"] == "tuple":
        kw["image"] = pick(rng, [tuple, list])((iw, ih))
    elif p["img"] == "array":
        kw["image"] = np.zeros(pick(rng, [(ih, iw), (ih, iw, 3), (ih, iw, 4)]), dtype=pick(rng, ["uint8", "float64"]))
    for k, n in (("w", "image_width_px"), ("h", "image_height_px"), ("fx", "focallength_x_px"), ("fy", "focallength_y_px"), ("mm", "focallength_mm"),
                 ("sw", "sensor_width_mm"), ("sh", "sensor_height_mm"), ("vx", "view_x_deg"), ("vy", "view_y_deg"), ("cx", "center_x_px"), ("cy", "center_y_px")):
        if p[k]:
            kw[n] = a[k]
    if p["f"] == "one":
        kw["focallength_px"] = a["f"]
    elif p["f"] == "pair":
        kw["focallength_px"] = pick(rng, [tuple, list])(a["fp"])
    if p["s"]:
        kw["sensor"] = pick(rng, [tuple, list])(a["s"])
    if p["c"]:
        kw["center"] = pick(rng, [tuple, list])(a["c"])
    return a, kw


NAMES = ("focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "image_width_px", "image_height_px", "sensor_width_mm", "sensor_height_mm")


def c09_args(rng, size, cases):
    """size: how many of the combinations are tried (0: all), each once"""
    out = [dict(k="reset")]
    order = rng.permutation(len(cases))
    # combinations without an error are rare: try all of them, and a sample of the others
    def ok(p):
        return not (p["c"] and (p["cx"] or p["cy"])) and not (p["s"] and (p["sw"] or p["sh"])) and not (p["img"] != "none" and (p["w"] or p["h"])) \
            and not (p["img"] == "none" and not (p["w"] and p["h"]))
    if size:
        good = [i for i in order if ok(cases[i])]
        bad = [i for i in order if not ok(cases[i])]
        order = good[:size] + bad[:size // 4]
    for i in order:
        p = cases[i]
        proj = pick(rng, ["rect", "cyl", "equi"])
        a, kw = args_for(rng, p, proj)
        keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
        pr, err = call(cams.PROJ[proj], **kw)
        q = rng.normal(size=(2, 3)) * 3
        q[:, 2] = -np.abs(q[:, 2]) - 0.5
        if err is not None:
            res, pix = failed(err), failed(err)
        else:
            res = obs(lambda: [getattr(pr, n) for n in NAMES])
            pix = obs(pr.imageFromCamera, q)
        out.append(dict(k="init", proj=proj, p=p, a={k: RL(v) for k, v in a.items()}, res=res, pix=pix, q=RL(q)))
    return out


def c09_views(rng, size):
    out = [dict(k="reset")]
    for _ in range(size):
        proj = pick(rng, ["rect", "cyl", "equi"])
        p = cams.params(rng, proj=proj, lens="none")
        pr = cams.projection(p)
        if rng.random() < 0.4:      # after a change of the parameters
            p["fx"], p["fy"] = float(rng.uniform(10, 3000)), float(rng.uniform(10, 3000))
            p["w"] = int(rng.integers(2, 3000))
            pr.focallength_x_px, pr.focallength_y_px, pr.image_width_px = p["fx"], p["fy"], p["w"]
        vx, vy = num(rng, 1, 170), num(rng, 1, 170)

        def back():
            v = pr.getFieldOfView()
            return [pr.focallengthFromFOV(v[0]), pr.focallengthFromFOV(view_y=v[1]), pr.imageFromFOV(v[0]), pr.imageFromFOV(view_y=v[1])]
        out.append(dict(k="view", c=dict(proj=proj, fx=R(p["fx"]), fy=R(p["fy"]), w=R(p["w"]), h=R(p["h"])), vx=R(vx), vy=R(vy),
                        view=obs(lambda: list(pr.getFieldOfView())),
                        foc=obs(lambda: [pr.focallengthFromFOV(vx), pr.focallengthFromFOV(view_y=vy)]),
                        img=obs(lambda: [pr.imageFromFOV(vx), pr.imageFromFOV(view_y=vy)]), back=obs(back)))
    return out
