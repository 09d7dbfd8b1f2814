---------------------------------- MODULE T_Geo ----------------------------------
(* Trace specification of the geodetic functions, the GPS text format and the local  *)
(* GPS frame of a camera.  State: the current camera (see T_Camera) with its GPS      *)
(* position lat, lon.                                                                *)
EXTENDS Sphere, Obs, Json
VARIABLES l, st

At(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]     \* broadcasting of one value to the batch

(* ------------------------------ C10: geodesy ------------------------------ *)
DistEv(e) ==
  IF ~(Good(e.o, ShpS(e.n)) /\ Good(e.rev, ShpS(e.n)) /\ Good(e.same, ShpS(e.n))) THEN {"C10.call"}
  ELSE UNION { LET p == At(e.p, i)  q == At(e.q, i)  d == Dist(p, q)
                   tol == DistTol(p, q) \oplus (RSci(1, -9) \otimes d)
               IN  Chk("C10.distance", Near(e.o.v[i], d, tol)) \cup
                   Chk("C10.symmetric", Near(e.o.v[i], e.rev.v[i], tol)) \cup
                   Chk("C10.zero", Near(e.same.v[i], R0, RSci(1, -6))) : i \in 1..Cnt(e.n) }
BearEv(e) ==
  IF ~Good(e.o, ShpS(e.n)) THEN {"C10.call"}
  ELSE UNION { LET p == At(e.p, i)  q == At(e.q, i)  t == Toward(p, q)  m == V2Len(t)
               IN  Chk("C10.bearingRange", RAbs(e.o.v[i]) \preceq RInt(180)) \cup
                   (IF m \prec RSci(1, -9) THEN {}
                    ELSE Chk("C10.bearing", NearDeg(e.o.v[i], BearingDeg(p, q), (RSci(1, -12) \oslash m) \oplus RSci(1, -9))))
             : i \in 1..Cnt(e.n) }
MoveEv(e) ==
  LET k == e.dim IN
  IF ~Good(e.o, Shp(e.n, k)) THEN {"C10.call"}
  ELSE UNION { LET p == At(e.p, i)  r == Row(e.o, i, k)
                   rad == IF k = 3 THEN EarthR \oplus p[3] ELSE EarthR
                   a == At(e.d, i) \oslash rad
                   want == MoveVec(p, a, At(e.b, i))
                   got == UVec(r[1], r[2])
                   c1 == RMax(RCos(Deg2Rad(p[1])), RSci(1, -16))
                   (* an arcsine next to a pole, a longitude measured from a pole *)
                   pole == Sq(want[1]) \oplus Sq(want[2])
                   tol == RSci(1, -11) \oplus (RSci(1, -15) \oslash c1) \oplus
                          (IF pole \prec RSci(1, -8) THEN RSci(1, -7) ELSE RSci(1, -13) \oslash RSqrt(pole))
               IN  IF ~AllFin(r) THEN {"C10.finite"}
                   ELSE Chk("C10.latRange", RAbs(r[1]) \preceq RInt(90)) \cup
                        Chk("C10.moveDistance",
                            RAbs(V3Dot(got, UVec(p[1], p[2])) \ominus RCos(a)) \preceq (RSci(1, -7) \oplus RSci(1, -11))) \cup
                        (IF tol \prec RSci(1, -3) THEN Chk("C10.move", NearSeq(got, want, tol)) ELSE {}) \cup
                        (IF k = 3 THEN Chk("C10.height", REq(r[3], p[3])) ELSE {})
             : i \in 1..Cnt(e.n) }

(* ------------------------------ C11: GPS text ------------------------------ *)
(* characters are code points; the tokens of one coordinate *)
IsDigit(ch) == ch >= 48 /\ ch <= 57
Letters == {78, 83, 69, 87}    \* N S E W
Blank == [nums |-> <<>>, cur |-> R0, dec |-> -1, in |-> FALSE, decs |-> <<>>, minus |-> FALSE, letters |-> <<>>, bad |-> FALSE]
Close(a) == IF a.in THEN [a EXCEPT !.nums = Append(@, IF a.dec > 0 THEN a.cur \oslash RPowI(RInt(10), a.dec) ELSE a.cur),
                                   !.decs = Append(@, IF a.dec = -1 THEN 0 ELSE a.dec), !.in = FALSE, !.cur = R0, !.dec = -1]
            ELSE a
RECURSIVE Scan(_, _, _)
Scan(s, i, a) ==
  IF i > Len(s) THEN Close(a)
  ELSE LET ch == s[i] IN
       Scan(s, i + 1,
            IF IsDigit(ch) THEN [a EXCEPT !.in = TRUE, !.cur = (@ \otimes RInt(10)) \oplus RInt(ch - 48), !.dec = IF @ >= 0 THEN @ + 1 ELSE @]
            ELSE IF ch = 46 /\ a.in /\ a.dec = -1 THEN [a EXCEPT !.dec = 0]
            ELSE LET b == Close(a) IN
                 IF ch = 45 THEN [b EXCEPT !.minus = TRUE, !.bad = @ \/ Len(b.nums) > 0]
                 ELSE IF ch \in Letters THEN [b EXCEPT !.letters = Append(@, ch)]
                 ELSE b)
Unit60(n) == CASE n = 1 -> R1 [] n = 2 -> RInt(60) [] n = 3 -> RInt(3600)
RECURSIVE Sum60(_, _)
Sum60(nums, i) == IF i > Len(nums) THEN R0 ELSE (nums[i] \oslash Unit60(i)) \oplus Sum60(nums, i + 1)
(* axis 1: latitude, 2: longitude.  f: n numbers, dec decimals of the last (-1: integer), letter *)
TextOne(f, axis, v, s) ==
  LET t == Scan(s, 1, Blank)
      neg == v \prec R0
      val == Sum60(t.nums, 1)
      unit == RPowI(RInt(10), IF f.dec > 0 THEN -f.dec ELSE 0) \oslash Unit60(f.n)
      eps == RSci(1, -11)
      want == IF axis = 1 THEN (IF neg THEN 83 ELSE 78) ELSE (IF neg THEN 87 ELSE 69)
  IN  IF Len(t.nums) # f.n \/ t.bad THEN {"C11.numbers"}
      ELSE Chk("C11.decimals", \A i \in 1..f.n : t.decs[i] = (IF i = f.n /\ f.dec > 0 THEN f.dec ELSE 0)) \cup
           Chk("C11.range60", \A i \in 2..f.n : t.nums[i] \prec RInt(60)) \cup
           Chk("C11.value", IF f.dec >= 0 THEN Near(val, RAbs(v), (unit \oslash R2) \oplus eps)
                            ELSE (RAbs(v) \ominus val) \succeq RNeg(eps) /\ (RAbs(v) \ominus val) \preceq (unit \oplus eps)) \cup
           (IF f.letter THEN Chk("C11.letter", t.letters = <<want>> /\ ~t.minus)
            ELSE Chk("C11.sign", t.letters = <<>> /\ (REq(val, R0) \/ t.minus = neg)))
Signed(s) == LET t == Scan(s, 1, Blank)
                 val == Sum60(t.nums, 1)
             IN  IF t.minus \/ (Len(t.letters) > 0 /\ t.letters[1] \in {83, 87}) THEN RNeg(val) ELSE val
ParseTol == RSci(1, -10)
TextEv(e) ==
  IF ~e.ok THEN {"C11.call"}
  ELSE TextOne(e.f, 1, e.lat, e.slat) \cup TextOne(e.f, 2, e.lon, e.slon) \cup
       (IF ~e.parse THEN {}
        ELSE IF ~(Good(e.pair, <<2>>) /\ Good(e.list, <<2>>) /\ Good(e.high, <<3>>) /\ Good(e.many, <<2, 3>>)
                  /\ Good(e.one, <<>>) /\ Good(e.listhigh, <<3>>)) THEN {"C11.parse"}
        ELSE LET w == <<Signed(e.slat), Signed(e.slon)>> IN
             Chk("C11.pair", NearSeq(e.pair.v, w, ParseTol)) \cup
             Chk("C11.list", NearSeq(e.list.v, w, ParseTol)) \cup
             Chk("C11.height", NearSeq(e.high.v, Append(w, e.h), ParseTol)) \cup
             Chk("C11.height", NearSeq(e.listhigh.v, Append(w, e.h), ParseTol)) \cup
             Chk("C11.heights", Good(e.batchhigh, <<Len(e.batch), 3>>) /\
                                \A i \in DOMAIN e.batch : NearSeq(Row(e.batchhigh, i, 3), Append(w, e.batch[i]), ParseTol)) \cup
             Chk("C11.many", NearSeq(e.many.v, Append(w, e.h) \o Append(w, e.h), ParseTol)) \cup
             Chk("C11.single", NearSeq(e.one.v, <<w[2]>>, ParseTol)))
(* a notation produced from numbers: nums of each coordinate, signs; the text itself is not looked at *)
ParseEv(e) ==
  IF ~Good(e.o, IF e.axes = 1 THEN <<>> ELSE IF e.high THEN <<3>> ELSE <<2>>) THEN {"C11.parse"}
  ELSE LET val(i) == LET x == Sum60(e.nums[i], 1) IN IF e.neg[i] THEN RNeg(x) ELSE x
           w == [i \in 1..e.axes |-> val(i)]
       IN  Chk("C11.notation", NearSeq(e.o.v, IF e.high THEN Append(w, e.h) ELSE w, ParseTol))
(* malformed format strings *)
BadFmt(e) == Chk("C11.badformat", ~e.o.ok /\ e.o.err = "ValueError")

(* ------------------------------ C12: GPS frame ------------------------------ *)
SpaceOf(g0, g) ==
  LET d == Ground(g0, g)
      t == Toward(g0, g)
      m == V2Len(t)
      z == IF Len(g) = 3 THEN g[3] ELSE R0
  IN  IF REq(m, R0) THEN <<R0, R0, z>> ELSE <<(d \otimes t[1]) \oslash m, (d \otimes t[2]) \oslash m, z>>
SpaceOfTol(g0, g) == RSci(2, -6) \oplus (RSci(1, -9) \otimes Ground(g0, g))
Sfg(e) ==
  IF ~Good(e.o, Shp(e.n, 3)) THEN {"C12.call"}
  ELSE UNION { LET g == e.g[i] IN Chk("C12.spaceFromGPS", NearSeq(Row(e.o, i, 3), SpaceOf(e.g0, g), SpaceOfTol(e.g0, g))) : i \in 1..Cnt(e.n) }
(* g0 = <<lat, lon>> or <<lat, lon, elevation>> of the origin *)
GpsOk(g0, x, r) ==
  LET d == V2Len(<<x[1], x[2]>>)
      rad == IF Len(g0) = 3 THEN EarthR \oplus g0[3] ELSE EarthR
      b == Rad2Deg(RAtan2(x[1], x[2]))
      want == MoveVec(g0, d \oslash rad, b)
  IN  NearSeq(UVec(r[1], r[2]), want, RSci(1, -12))
Gfs(e) ==
  LET k == IF e.dim = 2 THEN Len(e.g0) ELSE 3 IN
  IF ~Good(e.o, Shp(e.n, k)) THEN {"C12.call"}
  ELSE UNION { LET r == Row(e.o, i, k)  x == e.x[i] IN
               Chk("C12.gpsFromSpace", AllFin(r) /\ GpsOk(e.g0, x, r)) \cup
               (IF e.dim = 3 THEN Chk("C12.height", Near(r[3], x[3], RSci(1, -9))) ELSE {}) \cup
               (IF Good(e.back, Shp(e.n, 3))
                THEN LET f == IF Len(e.g0) = 3 THEN EarthR \oslash (EarthR \oplus e.g0[3]) ELSE R1
                         w == <<x[1] \otimes f, x[2] \otimes f, IF e.dim = 3 THEN x[3] ELSE IF k = 3 THEN e.g0[3] ELSE R0>>
                     IN  Chk("C12.roundtrip", NearSeq(Row(e.back, i, 3), w, RSci(1, -5) \oplus (RSci(1, -9) \otimes V2Len(<<x[1], x[2]>>))))
                ELSE {"C12.call"})
             : i \in 1..Cnt(e.n) }
(* gps from image: the composition with the recorded space point of the pixel *)
Gfi(c, e) ==
  IF ~(Good(e.o, Shp(e.n, 3)) /\ Good(e.s, Shp(e.n, 3))) THEN {"C12.call"}
  ELSE UNION { LET r == Row(e.o, i, 3)  x == Row(e.s, i, 3) IN
               IF AllFin(x) THEN Chk("C12.gpsFromImage", AllFin(r) /\ GpsOk(<<c.lat, c.lon, c.pz>>, x, r) /\ Near(r[3], x[3], RSci(1, -6)))
               ELSE Chk("C12.gpsFromImage", AnyNaN(r)) : i \in 1..Cnt(e.n) }
Ifg(c, e) ==
  IF ~Good(e.o, Shp(e.n, 2)) THEN {"C12.call"}
  ELSE UNION { LET x == SpaceOf(<<c.lat, c.lon>>, e.g[i])
                   q == CameraFromSpace(c, x)
                   d == TolCam(c, x) \oplus SpaceOfTol(<<c.lat, c.lon>>, e.g[i])
                   r == Row(e.o, i, 2)
                   tol == TolLens(c, ProjRaw(c, q), TolProj(c, q, d))
               IN  IF RAbs(q[3]) \preceq (RInt(100) \otimes d) \/ Rho(q) \preceq (RInt(100) \otimes d)
                      \/ (c.proj # "rect" /\ c.lens # "none" /\ AtSeam(c, ProjRaw(c, q))) THEN {}
                   ELSE IF Behind(c, q) THEN Chk("C12.imageFromGPS", AllNaN(r))
                   ELSE IF tol \prec R1 THEN Chk("C12.imageFromGPS", NearPixel(c, r, Distort(c, ProjRaw(c, q)), tol)) ELSE {}
             : i \in 1..Cnt(e.n) }
(* setting the position: what is read afterwards *)
SetGps(c, e) ==
  IF ~Good(e.o, <<3>>) THEN {"C12.setcall"}
  ELSE Chk("C12.setLat", Near(e.o.v[1], e.lat, ParseTol)) \cup
       Chk("C12.setLon", Near(e.o.v[2], e.lon, ParseTol)) \cup
       Chk("C12.setElevation", REq(e.o.v[3], IF e.given THEN e.elev ELSE c.pz)) \cup
       Chk("C12.setPlain", e.plain)
SetState(c, e) == [c EXCEPT !.lat = e.lat, !.lon = e.lon, !.pz = IF e.given THEN e.elev ELSE @]

Judge(c, e) ==
  CASE e.k = "dist" -> DistEv(e)
    [] e.k = "bear" -> BearEv(e)
    [] e.k = "move" -> MoveEv(e)
    [] e.k = "text" -> TextEv(e)
    [] e.k = "parse" -> ParseEv(e)
    [] e.k = "badfmt" -> BadFmt(e)
    [] e.k = "sfg" -> Sfg(e)
    [] e.k = "gfs" -> Gfs(e)
    [] e.k = "gfi" -> Gfi(c, e)
    [] e.k = "ifg" -> Ifg(c, e)
    [] e.k = "setgps" -> SetGps(c, e)
Step(s, e) == IF e.k = "camera" THEN [st |-> e.c, fails |-> {}]
              ELSE [st |-> IF e.k = "setgps" THEN SetState(s, e) ELSE s, fails |-> Judge(s, e)]
Start == <<>>
Trace == ndJsonDeserialize("trace.ndjson")
INSTANCE TraceRun
===================================================================================
