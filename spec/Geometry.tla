--------------------------------- MODULE Geometry ---------------------------------
(* The documented camera model.                                                    *)
(*                                                                                 *)
(* A camera is a record of its effective parameters:                               *)
(*   proj  "rect" | "cyl" | "equi";  fx, fy, cx, cy, w, h   (pixels)               *)
(*   ori   "thr" (tilt, roll, heading) | "ypr" (yaw, pitch, roll)  in degrees      *)
(*         a1, a2, a3 are tilt, roll, heading  or  yaw, pitch, roll                *)
(*   px, py, pz  position and elevation in metres                                  *)
(*   lens  "none" | "brown" (l1, l2, l3 = k1, k2, k3) | "abc" (l1, l2, l3 = a,b,c) *)
EXTENDS Vec

(* ---------- orientation: ZXZ Euler angles, camera looks along -z ---------- *)
Tilt(c) == Deg2Rad(IF c.ori = "thr" THEN c.a1 ELSE RInt(90) \oplus c.a2)
Roll(c) == Deg2Rad(IF c.ori = "thr" THEN c.a2 ELSE RNeg(c.a3))
Heading(c) == Deg2Rad(IF c.ori = "thr" THEN c.a3 ELSE c.a1)

RotRoll(a) == << <<RCos(a), RSin(a), R0>>, <<RNeg(RSin(a)), RCos(a), R0>>, <<R0, R0, R1>> >>
RotTilt(a) == << <<R1, R0, R0>>, <<R0, RCos(a), RSin(a)>>, <<R0, RNeg(RSin(a)), RCos(a)>> >>
RotHead(a) == << <<RCos(a), RNeg(RSin(a)), R0>>, <<RSin(a), RCos(a), R0>>, <<R0, R0, R1>> >>
Rot(c) == MM(MM(RotRoll(Roll(c)), RotTilt(Tilt(c))), RotHead(Heading(c)))
Pos(c) == <<c.px, c.py, c.pz>>

CameraFromSpace(c, x) == MV(Rot(c), V3Sub(x, Pos(c)))
SpaceDir(c, q) == MV(MT(Rot(c)), q)                        \* rotation only
SpaceFromCamera(c, q) == V3Add(SpaceDir(c, q), Pos(c))

(* ---------- projections ---------- *)
Rho(q) == RSqrt(Sq(q[1]) \oplus Sq(q[3]))
(* the formula value, also for points behind a rectilinear camera *)
ProjRaw(c, q) ==
  CASE c.proj = "rect" -> << ((RNeg(q[1]) \otimes c.fx) \oslash q[3]) \oplus c.cx,
                             ((q[2] \otimes c.fy) \oslash q[3]) \oplus c.cy >>
    [] c.proj = "cyl"  -> << c.cx \ominus (c.fx \otimes RAtan2(RNeg(q[1]), RNeg(q[3]))),
                             c.cy \ominus (c.fy \otimes (q[2] \oslash Rho(q))) >>
    [] c.proj = "equi" -> << c.cx \ominus (c.fx \otimes RAtan2(RNeg(q[1]), RNeg(q[3]))),
                             c.cy \ominus (c.fy \otimes RAtan2(q[2], Rho(q))) >>
(* what a pixel looks at, in camera coordinates *)
RayOf(c, p) ==
  LET ax == (p[1] \ominus c.cx) \oslash c.fx
      ay == (p[2] \ominus c.cy) \oslash c.fy
  IN  CASE c.proj = "rect" -> <<ax, RNeg(ay), RInt(-1)>>
        [] c.proj = "cyl"  -> <<RSin(ax), RNeg(ay), RNeg(RCos(ax))>>
        [] c.proj = "equi" -> <<RSin(ax), RNeg(RTan(ay)), RNeg(RCos(ax))>>

(* ---------- lenses ---------- *)
LensScale(c) == IF c.lens = "brown" THEN <<c.fx, c.fy>>
                ELSE LET s == RMin(c.w, c.h) \oslash R2 IN <<s, s>>
Radius(c, r) ==
  IF c.lens = "brown"
  THEN LET q == Sq(r)
       IN  r \otimes ((R1 \oplus (c.l1 \otimes q)) \oplus ((c.l2 \otimes Sq(q)) \oplus (c.l3 \otimes (Sq(q) \otimes q))))
  ELSE LET d == ((R1 \ominus c.l1) \ominus c.l2) \ominus c.l3
       IN  ((d \otimes r) \oplus (c.l3 \otimes Sq(r))) \oplus ((c.l2 \otimes (Sq(r) \otimes r)) \oplus (c.l1 \otimes Sq(Sq(r))))
(* derivative of Radius *)
RadiusD(c, r) ==
  IF c.lens = "brown"
  THEN LET q == Sq(r)
       IN  (R1 \oplus ((RInt(3) \otimes c.l1) \otimes q)) \oplus
           (((RInt(5) \otimes c.l2) \otimes Sq(q)) \oplus ((RInt(7) \otimes c.l3) \otimes (Sq(q) \otimes q)))
  ELSE LET d == ((R1 \ominus c.l1) \ominus c.l2) \ominus c.l3
       IN  (d \oplus ((R2 \otimes c.l3) \otimes r)) \oplus
           (((RInt(3) \otimes c.l2) \otimes Sq(r)) \oplus ((RInt(4) \otimes c.l1) \otimes (Sq(r) \otimes r)))
LensUnits(c, p) == LET s == LensScale(c)
                   IN <<(p[1] \ominus c.cx) \oslash s[1], (p[2] \ominus c.cy) \oslash s[2]>>
LensRadius(c, p) == IF c.lens = "none" THEN R0 ELSE V2Len(LensUnits(c, p))
Distort(c, p) ==
  IF c.lens = "none" THEN p
  ELSE LET s == LensScale(c)
           u == LensUnits(c, p)
           r == V2Len(u)
           k == IF REq(r, R0) THEN R1 ELSE Radius(c, r) \oslash r
       IN  <<((u[1] \otimes k) \otimes s[1]) \oplus c.cx, ((u[2] \otimes k) \otimes s[2]) \oplus c.cy>>
(* the radius whose distortion is d: Newton steps (the polynomial is nearly linear where it is used; *)
(* undefined where it is not and the steps lead nowhere)                                             *)
RECURSIVE InvRadius(_, _, _, _)
InvRadius(c, d, r, n) ==
  IF n = 0 THEN (IF r \succeq R0 /\ RAbs(Radius(c, r) \ominus d) \preceq (RSci(1, -9) \otimes (R1 \oplus d)) THEN r ELSE RNaN)
  ELSE InvRadius(c, d, r \ominus ((Radius(c, r) \ominus d) \oslash RadiusD(c, r)), n - 1)
Undistort(c, p) ==
  IF c.lens = "none" THEN p
  ELSE LET s == LensScale(c)
           u == LensUnits(c, p)
           d == V2Len(u)
           k == IF REq(d, R0) THEN R1 ELSE InvRadius(c, d, d, 12) \oslash d
       IN  <<((u[1] \otimes k) \otimes s[1]) \oplus c.cx, ((u[2] \otimes k) \otimes s[2]) \oplus c.cy>>
(* the range of radii for which the interpolated inverse of the lens is trusted *)
LensDomain(c, r) == c.lens = "none" \/ (r \preceq RRat(13, 10) /\ RadiusD(c, r) \succ RRat(4, 10))

(* ---------- composition ---------- *)
ImageRaw(c, x) == Distort(c, ProjRaw(c, CameraFromSpace(c, x)))
Behind(c, q) == c.proj = "rect" /\ q[3] \succ R0
ImageFromSpace(c, x, hide) ==
  LET q == CameraFromSpace(c, x)
  IN  IF hide /\ Behind(c, q) THEN <<RNaN, RNaN>> ELSE Distort(c, ProjRaw(c, q))
RayDir(c, p) == SpaceDir(c, RayOf(c, Undistort(c, p)))

(* ---------- conditioning: how far two correct computations may differ ---------- *)
Eps == RSci(1, -10)
L1(a) == (RAbs(a[1]) \oplus RAbs(a[2])) \oplus RAbs(a[3])
(* error of a camera coordinate *)
TolCam(c, x) == Eps \otimes ((L1(x) \oplus L1(Pos(c))) \oplus RSci(1, -6))
(* distances to the camera plane below 1e-10 count as zero *)
Floor == RSci(2, -10)
Snap(c, q, d) == IF c.proj # "rect" /\ RAbs(q[3]) \prec Floor THEN d \oplus Floor ELSE d
(* error of an undistorted pixel, for camera coordinates known up to d *)
TolProj(c, q, d) ==
  LET base == Eps \otimes (((RAbs(c.cx) \oplus RAbs(c.cy)) \oplus (RAbs(c.fx) \oplus RAbs(c.fy))) \oplus R1)
      f == RMax(RAbs(c.fx), RAbs(c.fy))
  IN  CASE c.proj = "rect" -> base \oplus (((f \otimes d) \oslash RAbs(q[3])) \otimes (R1 \oplus ((RAbs(q[1]) \oplus RAbs(q[2])) \oslash RAbs(q[3]))))
        [] c.proj = "cyl"  -> base \oplus (((f \otimes d) \oslash Rho(q)) \otimes (R1 \oplus (RAbs(q[2]) \oslash Rho(q))))
        [] c.proj = "equi" -> base \oplus ((f \otimes d) \oslash Rho(q))
(* error of the distorted pixel, for an undistorted pixel p known up to t *)
TolLens(c, p, t) ==
  IF c.lens = "none" THEN t
  ELSE LET s == LensScale(c)
           r == LensRadius(c, p)
           g == RMax(RAbs(s[1]), RAbs(s[2])) \oslash RMin(RAbs(s[1]), RAbs(s[2]))
           n == Sq(r)
           a == (RAbs(c.l1) \oplus RAbs(c.l2)) \oplus RAbs(c.l3)
           m == R1 \oplus ((RInt(8) \otimes a) \otimes (R1 \oplus (n \otimes (R1 \oplus (n \otimes (R1 \oplus n))))))
       IN  ((t \otimes R2) \otimes g) \otimes m
TolImage(c, x) ==
  LET q == CameraFromSpace(c, x) IN TolLens(c, ProjRaw(c, q), TolProj(c, q, Snap(c, q, TolCam(c, x))))
(* agreement of pixels; the azimuth of a panorama is ambiguous at the seam behind the camera *)
Turn(c) == (R2 \otimes RPi) \otimes c.fx
AtSeam(c, p) == RAbs((p[1] \ominus c.cx) \oslash c.fx) \succ (RPi \ominus RSci(1, -6))
NearPixel(c, a, b, tol) ==
  /\ Near(a[2], b[2], tol)
  /\ \/ Near(a[1], b[1], tol)
     \/ /\ c.proj # "rect" /\ c.lens = "none" /\ AtSeam(c, b)
        /\ (Near(a[1], b[1] \oplus Turn(c), tol) \/ Near(a[1], b[1] \ominus Turn(c), tol))
(* the same viewing direction: azimuths may differ by full turns *)
NearPixelMod(c, a, b, tol) ==
  /\ Near(a[2], b[2], tol)
  /\ \/ Near(a[1], b[1], tol)
     \/ /\ c.proj # "rect" /\ c.lens = "none" /\ RIsFin(a[1]) /\ RIsFin(b[1])
        /\ LET n == RInt(RRound((a[1] \ominus b[1]) \oslash Turn(c)))
           IN  Near(a[1], b[1] \oplus (n \otimes Turn(c)), tol)
===================================================================================
