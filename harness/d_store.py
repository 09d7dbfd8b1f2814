"""Histories of the parameter store (Store.tla, T_Store.tla): shared parts, cameras and groups."""
import os, re
import json
import numpy as np
import pandas as pd
from vh import R, RL, obs, values, call, encode, failed
import cams
from cams import pick
import cameratransform as ct

PROJ9 = ["focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "image_width_px", "image_height_px",
         "sensor_width_mm", "sensor_height_mm", "focallength_px"]
LENSPROJ = PROJ9[:6]
NAMES = dict(rect=PROJ9, cyl=PROJ9, equi=PROJ9,
             thr=["elevation_m", "tilt_deg", "roll_deg", "heading_deg", "pos_x_m", "pos_y_m"],
             ypr=["elevation_m", "yaw_deg", "pitch_deg", "roll_deg", "pos_x_m", "pos_y_m"],
             brown=["k1", "k2", "k3"], abc=["a", "b", "c"], none=[])
DEFAULTS = dict(elevation_m=30, tilt_deg=85, yaw_deg=85, roll_deg=0, heading_deg=0, pitch_deg=0, pos_x_m=0, pos_y_m=0,
                k1=0, k2=0, k3=0, a=0, b=0, c=0, center_x_px=0, center_y_px=0, sensor_width_mm=17.3, sensor_height_mm=13.0)
LENS = dict(brown=ct.BrownLensDistortion, abc=ct.ABCDistortion, none=ct.NoDistortion)
ORI = dict(thr=ct.SpatialOrientation, ypr=ct.SpatialOrientationYawPitchRoll)
FS = ("focallength_x_px", "focallength_y_px")
STD = dict(elevation_m=.3, tilt_deg=.3, yaw_deg=2, roll_deg=.5, heading_deg=3, pitch_deg=.3, pos_x_m=1, pos_y_m=1, k1=.0005, k2=.0001,
           k3=.00002, a=.0002, b=.0005, c=.001, gps_lat=.01, gps_lon=.01, sensor_width_mm=.1, sensor_height_mm=.1)
TYPES = dict(I=1 << 1, E1=1 << 2, E2=1 << 3, D=1 << 4, G=1 << 5)


def kind_of(obj):
    for d in (cams.PROJ, ORI, LENS):
        for k, c in d.items():
            if type(obj) is c:
                return k
    return "?"


class World:
    """real objects, and a shadow of the store that only serves to choose sensible operations"""

    def __init__(self, rng, pid, small=False):
        self.rng, self.pid, self.small = rng, pid, small
        self.objs, self.kind, self.names, self.cells = {}, {}, {}, {}
        self.cams, self.groups, self.bind, self.ingroup, self.files, self.traced = {}, {}, {}, set(), {}, {}
        self.n, self.recent = 0, []
        self.ev = [dict(k="reset")]

    def new_id(self, c):
        self.n += 1
        return "%s%d" % (c, self.n)

    def emit(self, k, **kw):
        self.ev.append(dict(k=k, pid=self.pid, **kw))

    def do(self, fn, *a, **kw):
        res, err = call(fn, *a, **kw)
        return err is None, res

    # ---------------------------------------------------------------- values
    def value(self, name, typed=True):
        rng = self.rng
        u = lambda a, b: float(rng.uniform(a, b))
        if name in ("heading_deg", "yaw_deg"):
            v = pick(rng, [0, 90, -90, 360, -360, 400, 725.5, -1000, u(-360, 360), u(-360, 360), u(-360, 360), u(360, 800)])
        elif name == "tilt_deg":
            v = pick(rng, [85, 45, 0, u(30, 88), u(30, 88), u(30, 88), u(30, 88)])
        elif name == "pitch_deg":
            v = pick(rng, [0, -45, 340, u(-60, -5), u(-60, -5), u(-60, -5) + 360 * int(rng.integers(-2, 3))])
        elif name == "roll_deg":
            v = pick(rng, [0, u(-25, 25), u(-25, 25), u(-170, 170)])
        elif name == "elevation_m":
            v = pick(rng, [30, 0, u(5, 60), u(5, 60), u(5, 60), u(60, 500)])
        elif name in ("pos_x_m", "pos_y_m"):
            v = pick(rng, [0, u(-50, 50), u(-50, 50), -7])
        elif name in ("focallength_x_px", "focallength_y_px", "focallength_px"):
            v = u(12, 30) if self.small else pick(rng, [500, u(300, 900), u(300, 900)])
        elif name == "center_x_px":
            v = u(4, 16) if self.small else pick(rng, [0, 320, u(150, 400), u(150, 400)])
        elif name == "center_y_px":
            v = u(4, 16) if self.small else pick(rng, [0, 240, u(100, 300), u(100, 300)])
        elif name in ("image_width_px", "image_height_px"):
            v = int(rng.integers(8, 20)) if self.small else int(rng.integers(300, 640))
        elif name in ("sensor_width_mm", "sensor_height_mm"):
            v = pick(rng, [u(5, 30), 17.3, 13])
        elif name == "gps_lat":
            v = pick(rng, [0, u(-80, 80), u(-80, 80)])
        elif name == "gps_lon":
            v = pick(rng, [0, u(-180, 180), u(-180, 180)])
        else:
            lim = dict(k1=.018, k2=.002, k3=.0003, a=.004, b=.01, c=.03)[name]
            v = pick(rng, [0, u(-lim, lim), u(-lim, lim), lim])
        if typed and rng.random() < 0.2:
            v = pick(rng, [np.float64, np.float64, float])(v)
        elif typed and name in ("pos_x_m", "pos_y_m") and self.pid not in ("C16", "C17", "C27") and rng.random() < 0.1:
            v = np.float32(v)      # measured values of a small type, they are kept as they are
        elif typed and isinstance(v, int) and rng.random() < 0.2:
            v = pick(rng, [np.int64, np.int32])(v)
        return v

    def std(self, name):
        return STD[name] if name in STD else (.2 if self.small else 3.)

    # ---------------------------------------------------------------- objects
    def part(self, kind, id=None, obj=None, vals=None):
        rng = self.rng
        cls = "P" if kind in cams.PROJ else "O" if kind in ORI else "L"
        id = id or self.new_id(cls)
        if vals is None:
            vals = {}
            for n in NAMES[kind]:
                if cls == "P":
                    if n in PROJ9[:6] or (n in PROJ9[6:8] and rng.random() < 0.5):
                        vals[n] = self.value(n)
                elif rng.random() < 0.65:
                    vals[n] = self.value(n)
        if cls == "P":
            kw = {n: vals[n] for n in vals if n != "focallength_px"}
            for n in FS + ("center_x_px", "center_y_px"):   # C09 decides how the constructor treats zeros
                kw[n] = kw[n] if kw[n] else 1.5
            for n in ("sensor_width_mm", "sensor_height_mm"):
                if ("sensor_width_mm" in kw) != ("sensor_height_mm" in kw):
                    kw.pop(n, None)
            vals = dict(kw)
            vals["focallength_px"] = kw["focallength_x_px"]
            if obj is None:
                obj = cams.PROJ[kind](**kw)
        elif obj is None:
            obj = (ORI if cls == "O" else LENS)[kind](**vals)
        self.emit("part", id=id, kind=kind, vals={n: R(v) for n, v in vals.items()})
        self.add_part(id, kind, obj, vals)
        return id

    def add_part(self, id, kind, obj, vals):
        self.objs[id], self.kind[id] = obj, kind
        self.names[id] = {}
        for n in NAMES[kind]:
            c = id + "." + n
            self.cells[c] = dict(n=n, v=vals.get(n), d=DEFAULTS.get(n), m=None, s=None, part=id)
            self.names[id][n] = c

    def add_cam(self, id, obj, p, o, l, own):
        for n in ("gps_lat", "gps_lon"):
            self.cells[own + "." + n] = dict(n=n, v=0, d=0, m=None, s=None, part=id)
        names = {n: own + "." + n for n in ("gps_lat", "gps_lon")}
        if self.kind[l] != "none":
            self.names[l] = {n: l + "." + n for n in NAMES[self.kind[l]]}
            self.names[l].update({n: p + "." + n for n in LENSPROJ})
        for q in (p, o, l):
            names.update({n: self.names[q][n] for n in self.names[q]})
        self.bind[l] = p
        self.names[id], self.objs[id] = names, obj
        self.cams[id] = (p, o, l)
        self.traced.pop(id, None)

    def cam(self, p, o, l):
        id = self.new_id("K")
        ok, obj = self.do(ct.Camera, self.objs[p], self.objs[o], self.objs[l])
        self.emit("cam", id=id, p=p, o=o, l=l, ok=ok)
        self.add_cam(id, obj, p, o, l, id)
        return id

    def cam_default(self):
        """a camera built without orientation and lens"""
        p = self.part(pick(self.rng, ["rect", "cyl", "equi"]))
        ok, obj = self.do(ct.Camera, self.objs[p])
        o = self.part("thr", obj=obj.orientation, vals={})
        l = self.part("none", obj=obj.lens, vals={})
        id = self.new_id("K")
        self.emit("cam", id=id, p=p, o=o, l=l, ok=ok)
        self.add_cam(id, obj, p, o, l, id)
        return id

    def group(self, ps, os, ls, single=(True, True, True), omit=(False, False)):
        """ps, os, ls: lists of part ids; single: pass a list of one part as the bare part; omit: leave the argument out"""
        id = self.new_id("G")
        arg = lambda ids, s: self.objs[ids[0]] if len(ids) == 1 and s else pick(self.rng, [list, tuple])([self.objs[i] for i in ids])
        args = [arg(ps, single[0])]
        if not omit[0]:
            args.append(arg(os, single[1]))
        elif not omit[1]:
            args.append(None)
        if not omit[1]:
            args.append(arg(ls, single[2]))
        g, err = call(ct.CameraGroup, *args)
        n = max(len(ps), len(os) if not omit[0] else 1, len(ls) if not omit[1] else 1)
        if err is not None:
            self.emit("group", id=id, ids=[], ps=ps, os=os or ["?"], ls=ls or ["?"], len=-1, iter=-1, index=-1, same=False, parts=[], names=[])
            return None
        it, _ = call(lambda: list(iter(g)))
        it = it or []
        if omit[0]:
            os = [self.part("thr", obj=it[0].orientation, vals={})]
        if omit[1]:
            ls = [self.part("none", obj=it[0].lens, vals={})]
        idx = []
        for i in range(n + 3):
            r, e = call(lambda: g[i])
            if e is not None:
                break
            idx.append(r)
        length, e = call(len, g)
        same = len(it) == len(idx) and all(a is b for a, b in zip(it, idx)) and len({id_(c) for c in it}) == len(it) and \
            call(lambda: g[-1])[0] is (it[-1] if it else None)
        ids = [self.new_id("K") for _ in range(len(it))]
        find = lambda obj, among: next((q for q in among if self.objs[q] is obj), "?")
        parts = [[find(c.projection, ps), find(c.orientation, os), find(c.lens, ls)] for c in it]
        # the same object at several places of a list is reported under the name expected there
        for i, pr in enumerate(parts):
            for j, lst in enumerate((ps, os, ls)):
                want = lst[i % len(lst)]
                if pr[j] != "?" and self.objs[pr[j]] is self.objs[want]:
                    pr[j] = want
        names, e = call(lambda: list(g.parameters.parameters))
        self.emit("group", id=id, ids=ids, ps=ps, os=os, ls=ls, len=int(length) if e is None and length is not None else -1, iter=len(it),
                  index=len(idx), same=bool(same), parts=parts, names=names or [])
        if len(ids) != n:
            return None
        gnames = {}
        for lst in (ps, os, ls):
            for i, q in enumerate(lst):
                for nme in NAMES[self.kind[q]]:
                    gnames[nme if len(lst) == 1 else "C%d_%s" % (i, nme)] = q + "." + nme
        for i, k in enumerate(ids):
            self.add_cam(k, it[i], ps[i % len(ps)], os[i % len(os)], ls[i % len(ls)], k)
            self.ingroup.add(k)
        self.objs[id], self.names[id], self.groups[id] = g, gnames, ids
        return id

    # ---------------------------------------------------------------- shadow
    def eff(self, c):
        c = self.cells[c]
        return c["d"] if c["v"] is None else c["v"]

    def spread(self, c):
        cell = self.cells[c]
        if cell["n"] == "focallength_px":
            for n in FS:
                self.cells[cell["part"] + "." + n]["v"] = cell["v"]

    def rec(self, k):
        """cams.params style dictionary of the effective parameters"""
        p, o, l = self.cams[k]
        e = lambda n: float(self.eff(self.names[k][n]))
        d = dict(proj=self.kind[p], ori=self.kind[o], lens=self.kind[l], w=int(e("image_width_px")), h=int(e("image_height_px")),
                 fx=e("focallength_x_px"), fy=e("focallength_y_px"), cx=e("center_x_px"), cy=e("center_y_px"))
        d["a"] = [e(n) for n in (("tilt_deg", "roll_deg", "heading_deg") if d["ori"] == "thr" else ("yaw_deg", "pitch_deg", "roll_deg"))]
        d["pos"] = [e("pos_x_m"), e("pos_y_m"), e("elevation_m")]
        d["l"] = [e(n) for n in NAMES[d["lens"]]] or [0., 0., 0.]
        return d

    def views(self, c):
        return [(o, n) for o, ns in self.names.items() for n, x in ns.items() if x == c]

    def f_uncertain(self, c):
        """are other focal lengths of the same projection uncertain"""
        cell = self.cells[c]
        if cell["n"] not in FS + ("focallength_px",):
            return False
        others = [n for n in FS + ("focallength_px",) if n != cell["n"]]
        return any(self.cells[cell["part"] + "." + n]["m"] is not None for n in others)

    # ---------------------------------------------------------------- operations
    def pick_view(self, only=None, cell=None):
        objs = [o for o in self.names if self.names[o] and (only is None or o in only)]
        if self.recent and self.rng.random() < 0.45:      # several operations on the same parameter, through any view of it
            c = pick(self.rng, self.recent[-3:])
            views = [(o, n) for o in objs for n in self.names[o] if self.names[o][n] == c]
            if views:
                o, n = pick(self.rng, views)
                return o, n, c
        o = pick(self.rng, objs)
        n = pick(self.rng, list(self.names[o]))
        self.recent.append(self.names[o][n])
        return o, n, self.names[o][n]

    def op_set(self, o, n, v, std=None):
        c = self.names[o][n]
        cell = self.cells[c]
        ok, _ = self.do(setattr, self.objs[o], n, v if std is None else (v, std))
        self.emit("set", obj=o, name=n, val=[] if v is None else [R(v)], std=[] if std is None else [R(std)], ok=ok)
        cell.update(v=v, m=None if std is None else v, s=std)
        self.spread(c)

    def op_default(self, o, n, v):
        ok, _ = self.do(lambda: setattr(self.objs[o].defaults, n, v))
        self.emit("default", obj=o, name=n, val=[R(v)], ok=ok)
        self.cells[self.names[o][n]]["d"] = v

    def op_fit(self, o, names, vals):
        s = self.objs[o].parameters
        r = self.rng.random()
        if r < 0.3:
            ok, _ = self.do(s.set_fit_parameters, dict(zip(names, vals)))
        else:
            ok, _ = self.do(s.set_fit_parameters, names, vals if r < 0.6 else np.array(vals, dtype=float))
        self.emit("fit", obj=o, names=names, vals=[R(v) for v in vals], ok=ok)
        for n, v in zip(names, vals):
            if n in self.names[o]:
                self.cells[self.names[o][n]]["v"] = float(v)
                self.spread(self.names[o][n])

    def siblings(self, o, n):
        """the parameters of the same name of the other parts of a group"""
        c = self.names[o][n]
        return [m for m, q in self.names[o].items() if q != c and self.cells[q]["n"] == self.cells[c]["n"]]

    def uncertain(self, o):
        return [n for n, c in self.names[o].items() if self.cells[c]["m"] is not None]

    def read_items(self, pairs):
        return [dict(obj=o, name=n, o=obs(getattr, self.objs[o], n)) for o, n in pairs]

    def adopt(self, items):
        for it in items:
            v = values(it["o"])
            if v is not None and v.shape == ():
                c = self.names[it["obj"]][it["name"]]
                self.cells[c]["v"] = float(v)
                self.spread(c)

    def op_sample(self, o, mean=False):
        fn = self.objs[o].set_to_mean if mean else self.objs[o].sample
        res, err = call(fn)
        if o in self.traced:
            items = self.read_items([(o, n) for n in self.traced[o] if n in self.names[o]])
        else:
            items = self.read_items([(o, n) for n in self.uncertain(o)])
        self.emit("mean" if mean else "sample", obj=o, items=items, ok=err is None,
                  ret=encode(res) if err is None and res is not None else dict(ok=False, err="none", shape=[], v=[]))
        if mean and o not in self.traced:
            for n in self.uncertain(o):
                c = self.names[o][n]
                self.cells[c]["v"] = self.cells[c]["m"]
                self.spread(c)
        else:
            self.adopt(items)

    def op_trace(self, o):
        rng = self.rng
        free = [n for n, c in self.names[o].items() if self.cells[c]["m"] is None and not self.f_uncertain(c)
                and self.cells[c]["n"] not in ("image_width_px", "image_height_px", "focallength_px")]
        if not free:
            return
        rng.shuffle(free)
        cols = free[:int(rng.integers(1, 4))]
        if rng.random() < 0.5:
            cols += [m for m in self.siblings(o, cols[0]) if m in free and m not in cols and self.names[o][m] not in [self.names[o][q] for q in cols]]
        rows = int(rng.integers(1, 5))
        data = [[float(self.value(self.cells[self.names[o][c]]["n"], False)) for c in cols] for _ in range(rows)]
        prob = [float(rng.uniform(-100, -1)) for _ in range(rows)]
        allcols = list(cols)
        if rng.random() < 0.3:      # the column of an additional parameter
            allcols.insert(int(rng.integers(len(cols) + 1)), "something_else")
            k = allcols.index("something_else")
            data = [r[:k] + [float(rng.uniform(0, 1))] + r[k:] for r in data]
        df = pd.DataFrame([r + [q] for r, q in zip(data, prob)], columns=allcols + ["probability"])
        if rng.random() < 0.3:
            df.index = [5 + 3 * i for i in range(rows)]
        elif rng.random() < 0.4:
            df.index = [int(i) for i in rng.permutation(rows)] if rng.random() < 0.6 else list(range(rows))[::-1]
        elif rng.random() < 0.2:
            df.index = [2] * rows
        ok, _ = self.do(self.objs[o].set_trace, df)
        self.emit("trace", obj=o, cols=allcols, rows=[RL(r) for r in data], prob=RL(prob), ok=ok)
        self.traced[o] = allcols
        return df.copy()

    def op_gps(self, k):
        rng = self.rng
        lat, lon, h = self.value("gps_lat", False), self.value("gps_lon", False), float(rng.uniform(5, 80))
        high = bool(rng.random() < 0.5)
        r = rng.random()
        if r < 0.4:
            ok, _ = self.do(self.objs[k].setGPSpos, lat, lon, h) if high else self.do(self.objs[k].setGPSpos, lat, lon)
        elif r < 0.7:
            pt = pick(rng, [np.array, list])([lat, lon] + ([h] if high else []))
            ok, _ = self.do(self.objs[k].setGPSpos, np.array(pt, dtype=float))
        else:
            txt = "%.6f° %.6f°" % (lat, lon)
            lat, lon = float("%.6f" % lat), float("%.6f" % lon)
            ok, _ = self.do(self.objs[k].setGPSpos, txt, elevation=h) if high else self.do(self.objs[k].setGPSpos, txt)
        self.emit("gps", obj=k, lat=R(lat), lon=R(lon), height=[R(h)] if high else [], ok=ok)
        self.cells[self.names[k]["gps_lat"]].update(v=lat, m=None)
        self.cells[self.names[k]["gps_lon"]].update(v=lon, m=None)
        if high:
            self.cells[self.names[k]["elevation_m"]].update(v=h, m=None)

    def op_save(self, o, file=None):
        file = file or pick(self.rng, ["a.json", "b.json", "c.json"])
        ok, _ = self.do(self.objs[o].save, file)
        self.emit("save", obj=o, file=file, ok=ok)
        if ok and o in self.cams and [self.kind[q] for q in self.cams[o]][::2] == ["rect", "none"] and self.rng.random() < 0.3:
            # a file without the kinds, as written by hand or by older versions: the kinds that are the default
            d = json.load(open(file))
            for n in ("projection", "lens")[:int(self.rng.integers(1, 3))]:
                d.pop(n, None)
            json.dump(d, open(file, "w"))
        vals = {n: self.eff(c) for n, c in self.names[o].items() if n != "focallength_px"}
        self.files[file] = dict(cam=o in self.cams, kinds=[self.kind[q] for q in self.cams[o]] if o in self.cams else self.kind.get(o), vals=vals,
                                bound=o in self.bind and self.kind[o] != "none")
        return file

    def op_load(self, k, file, fresh=False):
        """load a camera file into an existing camera or with load_camera"""
        f = self.files[file]
        if fresh:
            ok, obj = self.do(ct.load_camera, file)
            k = self.new_id("K")
            if ok:
                self.objs[k] = obj
        else:
            ok, _ = self.do(self.objs[k].load, file)
        obj = self.objs.get(k)
        p, o, l = self.new_id("P"), self.new_id("O"), self.new_id("L")
        kinds = [kind_of(obj.projection), kind_of(obj.orientation), kind_of(obj.lens)] if ok else ["?", "?", "?"]
        self.emit("load", what="camera", obj=k, file=file, p=p, o=o, l=l, kinds=kinds, ok=ok)
        vals = dict(f["vals"])
        vals["focallength_px"] = vals["focallength_x_px"]
        for q, kd, part in zip((p, o, l), f["kinds"], (obj.projection, obj.orientation, obj.lens) if ok else (None,) * 3):
            self.add_part(q, kd, part, {n: vals[n] for n in NAMES[kd]})
        self.add_cam(k, obj, p, o, l, p + "gps")
        for n in ("gps_lat", "gps_lon"):
            self.cells[self.names[k][n]]["v"] = vals[n]
        return k

    def op_load_part(self, q, file):
        ok, _ = self.do(self.objs[q].load, file)
        self.emit("load", what="part", obj=q, file=file, ok=ok)
        for n, v in self.files[file]["vals"].items():
            self.cells[self.names[q][n]].update(v=v, m=None, s=None)
        if self.kind[q] in cams.PROJ:
            self.cells[q + ".focallength_px"]["v"] = self.files[file]["vals"]["focallength_x_px"]

    def op_failsave(self, o):
        """a value that cannot be stored as a number"""
        rng = self.rng
        quiet = [n for n, c in self.names[o].items() if self.cells[c]["n"] in ("gps_lat", "gps_lon", "sensor_width_mm", "sensor_height_mm")]
        if not quiet:
            return
        n = pick(rng, quiet)
        old = call(getattr, self.objs[o], n)[0]
        if old is None:
            return
        file = pick(rng, list(self.files) or ["new.json"])
        before = open(file).read() if os.path.exists(file) else None
        setattr(self.objs[o], n, pick(rng, [1j, object(), np.array([1., 2.]), {"x": 1j}]))
        ok, _ = self.do(self.objs[o].save, file)
        after = open(file).read() if os.path.exists(file) else None
        self.emit("failsave", obj=o, file=file, ok=ok, kept=before == after)
        self.op_set(o, n, old)

    # ---------------------------------------------------------------- observations
    def reads(self, n=6, pairs=None):
        if pairs is None:
            pairs = []
            for _ in range(n):
                o, nm, c = self.pick_view()
                pairs.append((o, nm))
        self.emit("reads", items=self.read_items(pairs))

    def text(self, o):
        """the printed form of a part or a camera: the numbers with the decimals that are shown"""
        txt, err = call(str, self.objs[o])
        label = dict(x="pos_x_m", y="pos_y_m", h="elevation_m", tilt="tilt_deg", roll="roll_deg", heading="heading_deg", yaw="yaw_deg", pitch="pitch_deg",
                     f="focallength_x_px", sensor=("sensor_width_mm", "sensor_height_mm"), image=("image_width_px", "image_height_px"))
        items, sec = [], ""
        num = r"[-+]?(?:\d+(?:\.(\d+))?(?:[eE][-+]?\d+)?|nan|inf)"
        for line in (txt or "").split("\n"):
            m = re.match(r"\s+(.+?):\s*(.*)$", line)
            if not m:
                continue
            if not m[2]:
                sec = m[1].split()[0]
                continue
            names = m[1] if sec == "lens" else label.get(m[1], "?")
            names = (names,) if isinstance(names, str) else names
            vals = list(re.finditer(num, m[2]))
            for n, v in zip(names, vals) if len(vals) == len(names) else [("?", None)]:
                items.append(dict(sec="lens" if sec == "lens" else "own", name=n, v=R(float(v[0]) if v else 0.), dec=len(v[1] or "") if v else 0))
        self.emit("text", obj=o, items=items, ok=err is None)

    def read_cell_everywhere(self, c):
        self.reads(pairs=self.views(c))

    def read_defaults(self, n=3):
        items = []
        for _ in range(n):
            o, nm, c = self.pick_view()
            r, err = call(lambda: getattr(self.objs[o].defaults, nm))
            items.append(dict(obj=o, name=nm, none=r is None, o=failed(err) if err is not None else dict(ok=True, err="", shape=[], v=[]) if r is None else encode(r)))
        self.emit("defaults", items=items)

    def open(self, o=None):
        o = o or pick(self.rng, [q for q in self.names if self.names[q]])
        ts = []
        if self.rng.random() < 0.7:
            ts = [t for t in TYPES if self.rng.random() < 0.4]
        mask = sum(TYPES[t] for t in ts) or None
        if set(ts) == {"E1", "E2"}:
            mask = ct.TYPE_EXTRINSIC if hasattr(ct, "TYPE_EXTRINSIC") else mask
        got, err = call(lambda: [str(x) for x in (self.objs[o].parameters.get_fit_parameters() if mask is None else self.objs[o].parameters.get_fit_parameters(mask))])
        self.emit("open", obj=o, types=ts, got=got or [], ok=err is None)

    def probe(self, k):
        rng = self.rng
        p = self.rec(k)
        try:
            pix = cams.pixels(rng, p, 2)
            if p["lens"] != "none":
                s = (p["fx"], p["fy"]) if p["lens"] == "brown" else (min(p["w"], p["h"]) / 2,) * 2
                for q in pix:
                    a, r = rng.uniform(0, 2 * np.pi), rng.uniform(0.3, 1.15)
                    q[:] = [float(p["cx"] + s[0] * r * np.cos(a)), float(p["cy"] + s[1] * r * np.sin(a))]
            x = cams.space_points(rng, p, 2)
        except (ValueError, ZeroDivisionError):
            return
        cam = self.objs[k]
        normed = bool(rng.random() < 0.5)
        res, err = call(cam.getRay, np.array(pix), normed=normed)
        good = err is None and isinstance(res, tuple) and len(res) == 2
        ev = dict(cam=k, x=RL(x), img=obs(cam.imageFromSpace, np.array(x)), p=RL(pix), normed=normed,
                  off=encode(res[0]) if good else failed(err or ValueError()), ray=encode(res[1]) if good else failed(err or ValueError()),
                  hor=obs(cam.distanceToHorizon), pos=obs(cam.getPos))
        self.emit("probe", **ev)

    def probe_all(self):
        for k in self.cams:
            self.probe(k)

    def settle(self, o, t):
        """what is left of an earlier uncertainty, of open parameters or of a default after o got new values"""
        rng = self.rng
        if rng.random() < 0.5:
            self.open(o)
        if rng.random() < 0.5 and hasattr(self.objs[o], "sample"):
            self.op_sample(o, mean=bool(rng.random() < 0.5))
            self.reads(pairs=[(t, n) for n in self.names[t]])
            for k in self.cams:
                if k == t or t in self.cams[k]:
                    self.probe(k)

    # ---------------------------------------------------------------- random operation
    def random_op(self, kinds, among=None):
        """one random parameter operation; returns the cells it was aimed at"""
        rng = self.rng
        for _ in range(50):
            op = pick(rng, kinds)
            o, n, c = self.pick_view(among)
            cell = self.cells[c]
            if cell["n"] == "focallength_px" and self.f_uncertain(c) and op in ("set", "unc", "fit"):
                continue
            if op == "set":
                v = self.value(cell["n"])
                r = rng.random()
                same = cell["m"] if r < 0.08 else self.eff(c) if r < 0.12 else cell["d"] if r < 0.17 else None
                if cell["m"] is not None and rng.random() < 0.3:
                    same = cell["m"]        # exactly the mean of an uncertain value
                if same is not None and not (cell["n"] in ("image_width_px", "image_height_px") and same != int(same)):
                    v = same                # assigning a value the parameter already shows
                self.op_set(o, n, v)
            elif op == "unc":
                if self.f_uncertain(c) or cell["n"] in ("image_width_px", "image_height_px"):
                    continue
                self.op_set(o, n, float(self.value(cell["n"], False)), self.std(cell["n"]))
                if o in self.groups and rng.random() < 0.4:
                    for m in self.siblings(o, n):
                        if not self.f_uncertain(self.names[o][m]):
                            self.op_set(o, m, float(self.value(cell["n"], False)), self.std(cell["n"]))
            elif op == "none":
                if cell["d"] is None or cell["n"] == "focallength_px":
                    continue
                self.op_set(o, n, None)
            elif op == "default":
                if cell["n"] in ("image_width_px", "image_height_px") + FS + ("focallength_px",) and rng.random() < 0.7:
                    continue
                self.op_default(o, n, self.value(cell["n"]))
            elif op == "redefault":           # back to the default, then another default
                if rng.random() < 0.7:
                    every = [q for q in self.cells if self.cells[q]["n"] in ("k1", "k2", "k3", "a", "b", "c", "center_x_px", "center_y_px")]
                    views = self.views(pick(rng, every)) if every else []
                    views = [x for x in views if among is None or x[0] in among]
                    if not views:
                        continue
                    o, n = pick(rng, views)
                    c = self.names[o][n]
                    cell = self.cells[c]
                if cell["d"] is None or cell["n"] in ("focallength_px", "image_width_px", "image_height_px") or self.f_uncertain(c):
                    continue
                self.op_set(o, n, None)
                o, n = pick(rng, [x for x in self.views(c) if among is None or x[0] in among])
                self.op_default(o, n, self.value(cell["n"]))
                if rng.random() < 0.3:
                    self.op_default(o, n, self.value(cell["n"]))
            elif op == "fit":
                ns = [n]
                if o in self.groups and rng.random() < 0.6:     # several parts of a kind at once
                    sib = {m: self.siblings(o, m) for m in self.names[o]}
                    ns = [pick(rng, [m for m in sib if sib[m]] or ns)]
                    if rng.random() < 0.6:                      # parts that are built anew from their parameters
                        ns = [pick(rng, [m for m in sib if sib[m] and self.cells[self.names[o][m]]["n"] in NAMES["thr"] + NAMES["ypr"]] or ns)]
                    ns += [m for i, m in enumerate(sib[ns[0]]) if self.names[o][m] not in [self.names[o][q] for q in sib[ns[0]][:i]]]
                for _ in range(int(rng.integers(0, 3))):
                    m = pick(rng, list(self.names[o]))
                    if m not in ns:
                        ns.append(m)
                cs = [self.cells[self.names[o][m]] for m in ns]
                if any(x["m"] is not None for x in cs) or any(x["n"] == "focallength_px" for x in cs) and len(ns) > 1:
                    continue
                if any(x["n"] in ("image_width_px", "image_height_px") for x in cs):
                    continue
                vals = [float(self.value(x["n"], False)) for x in cs]
                if rng.random() < 0.15:
                    ns, vals = ns + ["no_such_parameter"], vals + [1.0]
                self.op_fit(o, ns, vals)
            elif op == "sample":
                self.op_sample(o)
            elif op == "mean":
                self.op_sample(o, mean=True)
            elif op == "trace":
                o = pick(rng, list(self.cams) + list(self.groups))
                if o in self.traced:
                    continue
                self.op_trace(o)
            elif op == "gps":
                if not self.cams:
                    continue
                self.op_gps(pick(rng, list(self.cams)))
            elif op == "save":
                self.op_save(pick(rng, list(self.cams)))
            elif op == "load":
                fs = [f for f, d in self.files.items() if d["cam"]]
                ks = [k for k in self.cams if k not in self.ingroup]
                if not fs or not ks:
                    continue
                self.op_load(pick(rng, ks), pick(rng, fs), fresh=bool(rng.random() < 0.3) and len(self.cams) < 6)
            return c
        return None


def id_(x):
    return id(x)


def world(rng, pid, small=False, group=True, lenses=("brown", "abc", "none", "brown"), ncam=2):
    w = World(rng, pid, small)
    P = [w.part(pick(rng, ["rect", "rect", "cyl", "equi"])) for _ in range(2)]
    O = [w.part(pick(rng, ["thr", "thr", "ypr"])) for _ in range(2)]
    for i in range(ncam):     # parts are shared between the cameras
        p = pick(rng, P)
        free = [l for l in w.objs if l.startswith("L")]
        l = pick(rng, free) if free and rng.random() < 0.4 else w.part(pick(rng, lenses))
        w.cam(p, pick(rng, O), l)
    if group and rng.random() < 0.7:
        sample_group(w, P, O, lenses)
    return w


def sample_group(w, P=None, O=None, lenses=("brown", "abc", "none"), big=False):
    rng = w.rng
    m = 4 if big else 3
    P = P or [w.part(pick(rng, ["rect", "cyl", "equi"])) for _ in range(2)]
    O = O or [w.part(pick(rng, ["thr", "thr", "ypr"])) for _ in range(2)]
    size = lambda: pick(rng, [1, 1, 2, 3] if big else [1, 1, 2])
    newp = lambda ids, n, kinds: [ids[i] if i < len(ids) and rng.random() < 0.6 else w.part(pick(rng, kinds)) for i in range(n)]
    np_, no, nl = size(), size(), size()
    ps, os = newp(P, np_, ["rect", "cyl", "equi"]), newp(O, no, ["thr", "ypr"])
    # lenses may be shared by different projections, and may have belonged to another camera before
    used = [l for l in w.objs if l.startswith("L") and w.kind[l] in lenses]
    ls = []
    while len(ls) < nl:
        old = [l for l in used if l not in ls]
        ls.append(pick(rng, old) if old and rng.random() < 0.35 else w.part(pick(rng, lenses)))
    for lst in (ps, os, ls):                 # the same part at several places of a list
        if len(lst) > 1 and rng.random() < (0.25 if big else 0.15):
            lst[int(rng.integers(1, len(lst)))] = lst[0]
    omit = (len(os) == 1 and rng.random() < 0.15, len(ls) == 1 and rng.random() < 0.15)
    return w.group(ps, os, ls, single=tuple(bool(rng.random() < 0.7) for _ in range(3)), omit=omit)


PARAM_OPS = ["set", "set", "set", "unc", "none", "default", "fit", "sample", "mean", "gps", "redefault"]


# ------------------------------------------------------------------ C05
def c05(rng, size, pid="C05"):
    ev = []
    for _ in range(size):
        w = world(rng, pid, group=rng.random() < 0.6)
        for _ in range(10):
            w.random_op(PARAM_OPS + ["save", "load", "trace"] if rng.random() < 0.4 else PARAM_OPS)
            w.probe_all()
        ev += w.ev
    return ev


# ------------------------------------------------------------------ C06
def c06(rng, size, pid="C06"):
    ev = []
    for _ in range(size):
        w = world(rng, pid)
        for _ in range(12):
            c = w.random_op(PARAM_OPS + ["set", "none", "default", "fit"])
            if c:
                w.read_cell_everywhere(c)
            w.reads(5)
            w.read_defaults(2)
            w.open()
            if rng.random() < .3:
                w.text(pick(rng, [o for o in w.names if o not in w.groups]))
        w.reads(pairs=[(o, n) for o in w.names for n in w.names[o] if rng.random() < 0.5])
        ev += w.ev
    return ev


# ------------------------------------------------------------------ C07
def c07(rng, size, pid="C07"):
    ev = []
    for _ in range(size):
        for f in ("a.json", "b.json", "c.json", "new.json", "p.json", "o.json", "l.json"):
            if os.path.exists(f):
                os.remove(f)
        w = world(rng, pid, group=rng.random() < 0.3)
        if rng.random() < 0.3:
            w.cam_default()
        for _ in range(4):
            for _ in range(int(rng.integers(1, 5))):
                w.random_op(PARAM_OPS)
            k = pick(rng, list(w.cams))
            f = w.op_save(k)
            w.reads(pairs=[(k, n) for n in w.names[k]])       # saving changes nothing
            w.probe(k)
            if rng.random() < 0.4:
                w.op_failsave(k)
                w.reads(pairs=[(k, n) for n in w.names[k]])
            targets = [q for q in w.cams if q not in w.ingroup]
            if len(w.cams) < 6 and rng.random() < 0.4 or not targets:
                q = w.op_load(None, f, fresh=True)
            else:
                q = w.op_load(pick(rng, targets), f)
            w.reads(pairs=[(q, n) for n in w.names[q]])
            w.probe(q)
            w.probe(k)
            w.settle(q, q)
            # the parts on their own
            q = pick(rng, [x for x in w.kind if w.names[x]])
            kd = w.kind[q]
            unb = kd in ("brown", "abc")
            if unb:
                q = w.part(kd)
            f = w.op_save(q, dict(P="p.json", O="o.json", L="l.json")[q[0]])
            w.reads(pairs=[(q, n) for n in w.names[q]])
            same = [x for x in w.kind if w.kind[x] == kd and x != q and (not unb or x not in w.bind)]
            t = pick(rng, same) if same and rng.random() < 0.6 else w.part(kd)
            if not any(w.f_uncertain(w.names[t][n]) for n in w.names[t] if n in FS + ("focallength_px",)):
                w.op_load_part(t, f)
                w.reads(pairs=[(t, n) for n in w.names[t]])
                for k in w.cams:
                    if t in w.cams[k]:
                        w.probe(k)
                loaded = [t] + [k for k in w.cams if t in w.cams[k]]
                w.settle(pick(rng, loaded), t)
            if unb:
                w.probe(w.cam(w.part("rect"), w.part("thr"), t))
        ev += w.ev
    return ev


# ------------------------------------------------------------------ C19
def c19(rng, size, pid="C19"):
    ev = []
    for _ in range(size):
        w = world(rng, pid)
        for _ in range(12):
            c = w.random_op(["unc", "unc", "unc", "sample", "sample", "sample", "mean", "mean", "set", "set", "fit", "none", "trace"])
            if c:
                w.read_cell_everywhere(c)
            w.reads(6)
            w.probe(pick(rng, list(w.cams)))
        o = pick(rng, list(w.cams) + list(w.groups))
        w.op_sample(o)
        w.reads(pairs=[(o, n) for n in w.names[o]])
        for k in (w.groups[o] if o in w.groups else [o]):
            w.probe(k)
        w.op_sample(o, mean=True)
        w.reads(pairs=[(o, n) for n in w.names[o]])
        for k in (w.groups[o] if o in w.groups else [o]):
            w.probe(k)
        ev += w.ev
    return ev


def c19_stat(rng, size, pid="C19"):
    """statistics of many draws"""
    ev = [dict(k="reset")]
    for _ in range(size):
        w = world(rng, pid)
        o = pick(rng, list(w.cams) + list(w.groups) + [q for q in w.kind if q[0] in "PO"])
        ns = [n for n in w.names[o] if w.cells[w.names[o][n]]["n"] not in ("image_width_px", "image_height_px", "focallength_px", "heading_deg", "pitch_deg")]
        rng.shuffle(ns)
        ns = ns[:4]
        mean = [float(w.value(w.cells[w.names[o][n]]["n"], False)) for n in ns]
        std = [w.std(w.cells[w.names[o][n]]["n"]) * float(rng.uniform(0.5, 2)) for n in ns]
        for n, m, s in zip(ns, mean, std):
            setattr(w.objs[o], n, (m, s))
        draws = []
        for _ in range(400):
            _, err = call(w.objs[o].sample)
            draws.append([float(getattr(w.objs[o], n)) for n in ns])
        ev.append(dict(k="stat", pid=pid, mean=RL(mean), std=RL(std), draws=[RL(c) for c in zip(*draws)]))
        # the tails
        n = ns[0]
        c = [(float(getattr(w.objs[o], n)) - mean[0]) / std[0] for _ in range(16000) if call(w.objs[o].sample)[1] is None]
        ev.append(dict(k="tails", pid=pid, z=RL(sorted(c)[:12] + sorted(c)[-12:]), n=len(c)))
        # rows of a trace
        m = int(rng.integers(2, 10))
        df = pd.DataFrame(dict(pos_x_m=np.arange(1, m + 1, dtype=float), probability=-np.arange(m, dtype=float)))
        k = w.cams and list(w.cams)[0]
        w.objs[k].set_trace(df)
        got = []
        for _ in range(50 * m):
            call(w.objs[k].sample)
            v = float(w.objs[k].pos_x_m)
            got.append(int(v) if v == int(v) and 1 <= v <= m else 0)
        ev.append(dict(k="rows", pid=pid, n=m, got=got))
    return ev


# ------------------------------------------------------------------ C23
def c23(rng, size, pid="C23"):
    ev = []
    for _ in range(size):
        w = World(rng, pid)
        # some parts belonged to other cameras or another group before
        if rng.random() < .5:
            for _ in range(int(rng.integers(1, 3))):
                w.cam(w.part(pick(rng, ["rect", "cyl", "equi"])), w.part(pick(rng, ["thr", "thr", "ypr"])), w.part(pick(rng, ["brown", "abc", "none"])))
            if rng.random() < .4:
                sample_group(w)
        g = sample_group(w, big=True)
        if g is not None:
            among = [g] + w.groups[g] + [q for q in w.kind if w.names[q]]
            for _ in range(8):
                c = w.random_op(["set", "set", "set", "none", "default", "fit", "unc", "sample", "mean"], among)
                if c:
                    w.read_cell_everywhere(c)
                w.reads(6)
                w.probe(pick(rng, list(w.cams)))
            w.reads(pairs=[(o, n) for o in w.names for n in w.names[o]])
            w.probe_all()
        ev += w.ev
    return ev
