"""C24: the sensor database under faults of network, disk and process, and EXIF data."""
import os, resource, signal, sys, threading
import numpy as np
from vh import R, RL, call
import vh
from cams import pick
import requests
import requests.adapters
from PIL import Image
from PIL.TiffImagePlugin import IFDRational
import cameratransform as ct
import cameratransform.camera as cc

DB = "sensor_database_detailed.csv"
MAKERS = ["Canon", "Nikon", "Sony", "Pentax", "Casio"]
MODELS = ["EOS 5D", "EOS 5D Mark II", "EOS 5D Mark III", "EOS 50D", "D5", "D50", "D5000", "D5 00", "A1", "A1 B", "X", "X;Y"[:1], "QV-R51", "D50 (special)", "eos 5d"]


def m_sensor(cls, work):
    cfg = "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS Pieces = 3 MaxOps = 4 Direct = %s Export = %s\n"
    r = vh.model(cls, os.path.join(work, "a"), "MC_Sensor", cfg % ("FALSE", "TRUE"))
    vh.model(cls, os.path.join(work, "b"), "MC_Sensor", cfg % ("TRUE", "FALSE"), must_fail="Invariant Inv is violated")
    return dict(states=r["states"], generated=r["generated"], exhaustive=True, cases=vh.cases(r["out"]), negative_variant_fails=True, module="MC_Sensor.tla")


class Net:
    def __init__(self):
        self.mode, self.text, self.asked = "ok", "", 0

    def send(self, adapter, request, **kw):
        self.asked += 1
        if self.mode == "refused":
            raise pick(self.rng, [requests.exceptions.ConnectionError, requests.exceptions.Timeout, requests.exceptions.ChunkedEncodingError])("no network")
        r = requests.Response()
        r.status_code = 200
        r._content = self.text.encode("utf8")
        if self.mode == "http":
            r.status_code = int(pick(self.rng, [404, 403, 500, 503]))
            r._content = pick(self.rng, [b"404: Not Found", b"<html>error</html>", b""])
        r.encoding = "utf8"
        r.url, r.request = request.url, request
        r.reason = "stub"
        return r


class Sensors:
    def __init__(self, rng):
        self.rng, self.net = rng, Net()
        self.net.rng = rng
        self.ev = [dict(k="reset")]
        self.there = False
        for f in os.listdir("."):
            os.remove(f)
        self.fresh_rows()

    def fresh_rows(self):
        rng = self.rng
        names = [(a, b) for a in MAKERS for b in MODELS]
        idx = rng.choice(len(names), int(rng.integers(3, 20)), replace=False)
        self.rows = [(names[i][0], names[i][1], float(np.round(rng.uniform(3, 40), 2)), float(np.round(rng.uniform(2, 30), 2))) for i in idx]
        lines = ["CameraMaker;CameraModel;CameraSensor;CameraSensorWidth(mm);CameraSensorHeight(mm);pixels"] if rng.random() < .5 else []
        lines += ["%s;%s;%s;%s;%s;%d" % (a, b, pick(rng, ["Full frame (36 x 24 mm)", "1/2.5\"", "APS-C"]), w, h, rng.integers(1, 50)) for a, b, w, h in self.rows]
        self.text = "\n".join(lines) + "\n"

    def recs(self):
        return [dict(maker=a, model=b, w=R(w), h=R(h)) for a, b, w, h in self.rows]

    def model(self):
        rng = self.rng
        if self.rows and rng.random() < .6:
            a, b, _, _ = self.rows[int(rng.integers(len(self.rows)))]
            m = a + " " + b
            if rng.random() < .25:
                m = pick(rng, [a, m + "X", m[:-1], m + " II", b, m.lower() + "q"])
            return m
        return pick(rng, MAKERS) + " " + pick(rng, MODELS)

    def under(self, mode, fn):
        """run fn with the fault; returns (result, error)"""
        self.net.mode, self.net.text, self.net.asked = mode, self.text, 0
        old = requests.adapters.HTTPAdapter.send
        net = self.net
        requests.adapters.HTTPAdapter.send = lambda adapter, request, **kw: net.send(adapter, request, **kw)
        limit = int(pick(self.rng, [0, 1, 20, max(1, len(self.text) - 5)]))
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        try:
            if mode == "disk":
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
                try:
                    return call(fn)
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            if mode == "kill":
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                        send = net.send

                        def tell(*a, **kw):
                            os.write(wr, b"x")
                            return send(*a, **kw)
                        net.send = tell
                        call(fn)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(wr)
                self.net.asked = len(os.read(rd, 100))
                os.close(rd)
                os.waitpid(pid, 0)
                return None, None
            return call(fn)
        finally:
            requests.adapters.HTTPAdapter.send = old

    def file(self):
        if not os.path.exists(DB):
            return "absent"
        with open(DB, encoding="utf8") as fp:
            return "complete" if fp.read().replace("\r\n", "\n") == (self.stored if self.there else self.text) else "other"

    def learn(self, mode):
        f = self.file()
        if not self.there and mode == "ok" and f == "complete":
            self.there, self.stored, self.dbrows = True, self.text, list(self.rows)
        return f

    # ---------------------------------------------------------------- operations
    def lookup(self, mode):
        find = getattr(cc, "_getSensorFromDatabase", None)
        if find is None:          # not public
            return self.exif(mode)
        m = self.model()
        if self.there and mode == "kill":
            mode = "ok"
        res, err = self.under(mode, lambda: find(m))
        ok = err is None
        ret = []
        if res is not None:
            try:
                ret = RL([float(res[0]), float(res[1])]) if len(res) == 2 else [R(0)]
            except Exception:
                ok = False
        self.ev.append(dict(k="lookup", model=m, net=mode, rows=self.recs(), asked=self.net.asked, ok=ok, ret=ret, file=self.learn(mode)))

    def exif(self, mode, use=None):
        rng = self.rng
        m = self.model()
        w, h = int(rng.integers(2, 6000)), int(rng.integers(2, 6000))
        unit = int(pick(rng, [0, 2, 2, 3]))
        num, den = int(rng.integers(1, 5000)), int(pick(rng, [1, 10, 7]))
        rx, ry = (int(rng.integers(1000, 10**7)), int(pick(rng, [1, 100, 333]))), (int(rng.integers(1000, 10**7)), int(pick(rng, [1, 100, 333])))
        focal = bool(rng.random() < .85)
        use = bool(rng.random() < .7) if use is None else use
        if mode == "kill" and (self.there or not use):
            mode = "ok"
        im = Image.new("RGB", (4, 3))
        ex = Image.Exif()
        ex[272] = m
        sub = {37386: IFDRational(num, den), 40962: w, 40963: h}
        if focal:
            sub.update({41486: IFDRational(*rx), 41487: IFDRational(*ry)})
            if unit:
                sub[41488] = unit
        ex._ifds[0x8769] = sub
        im.save("img.jpg", exif=ex.tobytes())
        kw = {} if use and rng.random() < .5 else dict(sensor_from_database=use)
        if rng.random() < .3:
            kw["verbose"] = True
        res, err = self.under(mode, lambda: ct.getCameraParametersFromExif("img.jpg", **kw))
        ok, f, size, sensor = err is None, R(0), [], []
        if ok and res is not None:
            try:
                f, sensor, size = R(res[0]), RL([float(x) for x in res[1]]), [int(x) for x in res[2]]
            except Exception:
                ok = False
        os.remove("img.jpg")
        self.ev.append(dict(k="exif", model=m, net=mode, rows=self.recs(), asked=self.net.asked, ok=ok, use=use, focal=focal, w=w, h=h, unit=unit,
                            f=R(num / den), rx=R(rx[0] / rx[1]), ry=R(ry[0] / ry[1]), gotf=f, sensor=sensor, size=size, file=self.learn(mode)))

    def remove(self):
        if os.path.exists(DB):
            os.remove(DB)
        self.there = False
        self.ev.append(dict(k="remove"))
        if self.rng.random() < .5:
            self.fresh_rows()

    def watched(self):
        """a large download: whenever the process would die, the database is absent or complete"""
        self.remove()
        self.text += "Maker;Model %s;APS-C;20;10;5\n" % ("x" * 200) * 20000
        full, sizes, stop = len(self.text.encode("utf8")), set(), threading.Event()

        def look():
            while not stop.is_set():
                try:
                    sizes.add(os.stat(DB).st_size)
                except OSError:
                    pass
        old = sys.getswitchinterval()
        thread = threading.Thread(target=look)
        sys.setswitchinterval(1e-5)
        thread.start()
        try:
            self.exif("ok", use=True)
        finally:
            stop.set()
            thread.join()
            sys.setswitchinterval(old)
        self.ev.append(dict(k="watched", partial=len(sizes - {full})))
        self.remove()
        self.fresh_rows()

    def put(self):
        self.fresh_rows()
        with open(DB, "w", encoding="utf8") as fp:
            fp.write(self.text)
        self.there, self.stored = True, self.text
        self.ev.append(dict(k="put", rows=self.recs()))


def c24(rng, size, cases, pid="C24"):
    ev = []
    cases = list(cases)
    if size and len(cases) > size:
        cases = [cases[i] for i in rng.choice(len(cases), size, replace=False)]
    for _ in range(2):
        s = Sensors(rng)
        s.watched()
        ev += s.ev
    for case in cases:
        s = Sensors(rng)
        if rng.random() < .15:
            s.put()
        for op in case:
            if op == "remove":
                s.remove()
            elif rng.random() < .6:
                s.lookup(op)
            else:
                s.exif(op)
        s.lookup("ok")
        s.exif("ok")
        ev += s.ev
    return ev
