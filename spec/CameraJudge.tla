------------------------------- MODULE CameraJudge -------------------------------
(* Judgement of observed camera transformations against the camera model (Geometry): *)
(* the names of the violated clauses for a camera record c and an event e.            *)
EXTENDS Geometry, Obs

Vals(s, i) == IF Len(s) = 0 THEN RNaN ELSE s[i]
Unit(k) == k   \* readability of the case tables below

(* --------------------------- C02 / C03: space -> image --------------------------- *)
ImgPoint(c, x, hide, r) ==
  LET q == CameraFromSpace(c, x)
      d == TolCam(c, x)
      clear == IF c.proj = "rect" THEN RAbs(q[3]) \succ RMax(RInt(100) \otimes d, Floor)
               ELSE Rho(q) \succ RMax(RInt(100) \otimes d, Floor) /\ ~(c.lens # "none" /\ AtSeam(c, ProjRaw(c, q)))
      p == Distort(c, ProjRaw(c, q))
      tol == TolImage(c, x)
  IN  IF ~clear THEN {}
      ELSE IF hide /\ Behind(c, q)
           THEN Chk("C03.hidden", AllNaN(r))
           ELSE Chk("C03.visible", AllFin(r)) \cup
                (IF tol \prec R1
                 THEN Chk("C02.pixel", NearPixel(c, r, p, tol)) \cup
                      (IF ~hide /\ Behind(c, q) THEN Chk("C03.backpoint", NearPixel(c, r, p, tol)) ELSE {})
                 ELSE {})

(* a point exactly above or below a panoramic camera: the azimuth is undefined *)
OnAxis(c, x) == LET q == CameraFromSpace(c, x) IN c.proj # "rect" /\ Rho(q) \preceq (RInt(100) \otimes TolCam(c, x))
AxisPoint(c, x, r) ==
  IF c.proj = "equi"
  THEN LET q == CameraFromSpace(c, x)
           y == ProjRaw(c, q)[2]
       IN  Chk("C03.visible", AllFin(r)) \cup
           (IF c.lens = "none" THEN Chk("C02.pole", Near(r[2], y, RSci(1, -5) \otimes (c.fy \oplus R1))) ELSE {})
  ELSE {}

Img(c, e) ==
  IF ~Good(e.o, Shp(e.n, 2)) THEN {Tag(e.pid, "call")}
  ELSE UNION { IF OnAxis(c, e.x[i]) THEN AxisPoint(c, e.x[i], Row(e.o, i, 2))
               ELSE ImgPoint(c, e.x[i], e.hide, Row(e.o, i, 2)) : i \in 1..Cnt(e.n) }

(* ------------------------------ C02: image -> ray ------------------------------ *)
(* the interpolated lens inverse limits the accuracy of a direction *)
LensSlack(c) == IF c.lens = "none" THEN R0 ELSE RSci(2, -4)
RayPoint(c, p, normed, off, r) ==
  LET u == Undistort(c, p)
      want == RayOf(c, u)
      dir == SpaceDir(c, want)
      len == V3Len(dir)
      tol == (RSci(1, -8) \oplus LensSlack(c)) \otimes (R1 \oplus len)
      ok == IF c.lens = "none" THEN TRUE ELSE LensDomain(c, LensRadius(c, u))
  IN  IF ~ok THEN {}
      ELSE Chk("C02.origin", NearSeq(off, Pos(c), Eps \otimes (R1 \oplus L1(Pos(c))))) \cup
           IF normed
           THEN Chk("C02.unit", Near(V3Len(r), R1, RSci(1, -9))) \cup
                Chk("C02.ray", NearSeq(r, V3Scale(R1 \oslash len, dir), RSci(1, -8) \oplus LensSlack(c)))
           ELSE Chk("C02.ray", NearSeq(r, dir, tol \otimes (R1 \oplus len)))
Ray(c, e) ==
  IF ~(Good(e.o, Shp(e.n, 3)) /\ Good(e.off, <<3>>)) THEN {Tag(e.pid, "call")}
  ELSE UNION { RayPoint(c, e.p[i], e.normed, e.off.v, Row(e.o, i, 3)) : i \in 1..Cnt(e.n) }

(* --------------------- C02: orientation and projection alone --------------------- *)
Cfs(c, e) ==
  IF ~Good(e.o, Shp(e.n, 3)) THEN {Tag(e.pid, "call")}
  ELSE UNION { Chk("C02.cameraFromSpace", NearSeq(Row(e.o, i, 3), CameraFromSpace(c, e.x[i]), TolCam(c, e.x[i]))) : i \in 1..Cnt(e.n) }
Sfc(c, e) ==
  IF ~Good(e.o, Shp(e.n, 3)) THEN {Tag(e.pid, "call")}
  ELSE UNION { Chk("C02.spaceFromCamera",
                   NearSeq(Row(e.o, i, 3), IF e.dir THEN SpaceDir(c, e.x[i]) ELSE SpaceFromCamera(c, e.x[i]), TolCam(c, e.x[i])))
               : i \in 1..Cnt(e.n) }
ProjPoint(c, q, hide, r) ==
  LET d == Eps \otimes (L1(q) \oplus RSci(1, -6))
      clear == IF c.proj = "rect" THEN RAbs(q[3]) \succ RMax(RInt(100) \otimes d, Floor)
               ELSE Rho(q) \succ RMax(RInt(100) \otimes d, Floor)
      tol == TolProj(c, q, Snap(c, q, d))
  IN  IF ~clear THEN {}
      ELSE IF hide /\ Behind(c, q) THEN Chk("C03.hidden", AllNaN(r))
           ELSE Chk("C03.visible", AllFin(r)) \cup
                IF tol \prec R1 THEN Chk("C02.projection", NearPixel([c EXCEPT !.lens = "none"], r, ProjRaw(c, q), tol)) ELSE {}
Proj(c, e) ==
  IF ~Good(e.o, Shp(e.n, 2)) THEN {Tag(e.pid, "call")}
  ELSE UNION { ProjPoint(c, e.x[i], e.hide, Row(e.o, i, 2)) : i \in 1..Cnt(e.n) }
ProjRay(c, e) ==
  IF ~Good(e.o, Shp(e.n, 3)) THEN {Tag(e.pid, "call")}
  ELSE UNION { LET want == RayOf(c, e.p[i])
                   len == V3Len(want)
                   r == Row(e.o, i, 3)
                   tol == RSci(1, -9) \otimes (Sq(len) \oplus R1)
               IN  IF e.normed THEN Chk("C02.projray", NearSeq(r, V3Scale(R1 \oslash len, want), RSci(1, -9)))
                   ELSE Chk("C02.projray", NearSeq(r, want, tol))
             : i \in 1..Cnt(e.n) }

(* ------------------------ C01 / C03: image -> space ------------------------ *)
(* the constraint in force: D over X over Y over Z *)
ConKind(e) == IF Len(e.D) > 0 THEN "D" ELSE IF Len(e.X) > 0 THEN "X" ELSE IF Len(e.Y) > 0 THEN "Y" ELSE "Z"
ConVal(e, i) == IF Len(e.D) > 0 THEN e.D[i] ELSE IF Len(e.X) > 0 THEN e.X[i] ELSE IF Len(e.Y) > 0 THEN e.Y[i] ELSE e.Z[i]
ConIdx(k) == CASE k = "X" -> 1 [] k = "Y" -> 2 [] OTHER -> 3

SpacePoint(c, kind, val, p, s, ray, back) ==
  LET u == Undistort(c, p)
      lensok == c.lens = "none" \/ LensDomain(c, LensRadius(c, u))
      pos == Pos(c)
      len == V3Len(ray)
      idx == ConIdx(kind)
      comp == ray[idx] \oslash len                     \* cosine to the constrained axis
      gap == val \ominus pos[idx]
      (* clearly in front / behind: the sign of the factor is certain *)
      sure == IF kind = "D" THEN RAbs(val) \succ RSci(1, -9)
              ELSE RAbs(comp) \succ (RSci(1, -6) \oplus (R2 \otimes LensSlack(c)))
                   /\ RAbs(gap) \succ (RSci(1, -10) \otimes (RSci(1, -3) \oplus (RAbs(val) \oplus RAbs(pos[idx]))))
      front == IF kind = "D" THEN val \succ R0 ELSE (gap \oslash comp) \succ R0
      here == IF kind = "D" THEN REq(val, R0) ELSE REq(gap, R0) /\ RAbs(comp) \succ RSci(1, -3)
      rel == V3Sub(s, pos)
      dist == V3Len(rel)
      scale == (RAbs(val) \oplus L1(pos)) \oplus RSci(1, -6)
      q == CameraFromSpace(c, s)
      principal == c.proj = "rect" \/ c.lens = "none" \/ RAbs((u[1] \ominus c.cx) \oslash c.fx) \prec (RPi \ominus RSci(1, -3))
      upper == c.proj # "equi" \/ RAbs((u[2] \ominus c.cy) \oslash c.fy) \prec ((RPi \oslash R2) \ominus RSci(1, -3))
      tol == (TolImage(c, s) \otimes RInt(10)) \oplus
             (IF c.lens = "none" THEN R0 ELSE RSci(2, -4) \otimes RMax(LensScale(c)[1], LensScale(c)[2]))
  IN  IF ~lensok \/ ~upper THEN {}
      ELSE IF here THEN Chk("C01.origin", NearSeq(s, pos, RSci(1, -9) \otimes scale))
      ELSE IF ~sure THEN {}
      ELSE IF ~front THEN Chk("C03.behind", AllNaN(s)) \cup Chk("C01.mirrored", AllNaN(s))
      ELSE IF ~AllFin(s) THEN {"C03.lost", "C01.lost"}
      ELSE (IF kind = "D" THEN Chk("C01.distance", Near(dist, val, RSci(1, -9) \otimes scale))
            ELSE Chk("C01.constraint", Near(s[idx], val, RSci(1, -9) \otimes scale))) \cup
           Chk("C01.onray", SameDir(rel, ray, RSci(1, -8) \otimes (R1 \oplus (L1(pos) \oslash dist)))) \cup
           (IF principal /\ tol \prec R1
            THEN Chk("C01.roundtrip", NearPixelMod(c, back, p, tol)) ELSE {})
Space(c, e) ==
  IF ~(Good(e.o, Shp(e.n, 3)) /\ Good(e.ray, Shp(e.n, 3)) /\ Good(e.back, Shp(e.n, 2))) THEN {Tag(e.pid, "call")}
  ELSE UNION { SpacePoint(c, ConKind(e), ConVal(e, i), e.p[i], Row(e.o, i, 3), Row(e.ray, i, 3), Row(e.back, i, 2))
               : i \in 1..Cnt(e.n) }

(* ---------------------------------- C08: lenses ---------------------------------- *)
DistPoint(c, p, r) ==
  LET want == Distort(c, p)
      tol == TolLens(c, p, Eps \otimes ((RAbs(p[1]) \oplus RAbs(p[2])) \oplus ((RAbs(c.cx) \oplus RAbs(c.cy)) \oplus (c.fx \oplus c.fy))))
  IN  Chk("C08.distort", NearSeq(r, want, tol))
UndistPoint(c, p, r) ==
  LET rad == LensRadius(c, r)
      want == Undistort(c, p)
      wr == LensRadius(c, want)
      s == LensScale(c)
      slack == RMax(RAbs(s[1]), RAbs(s[2]))
  IN  IF ~AllFin(want) \/ ~LensDomain(c, wr) THEN {}
      ELSE IF REq(wr, R0) THEN Chk("C08.centre", NearSeq(r, p, RSci(1, -9) \otimes (R1 \oplus (RAbs(p[1]) \oplus RAbs(p[2])))))
      ELSE IF ~AllFin(r) THEN {"C08.lost"}
      ELSE Chk("C08.undistort", NearSeq(r, want, (RSci(2, -4) \otimes slack) \otimes (RSci(1, -2) \oplus wr))) \cup
           (* purely radial: the direction from the centre is exact *)
           (IF wr \succ RSci(1, -3)
            THEN LET a == LensUnits(c, p)  b == LensUnits(c, r)
                     cr == RAbs((a[1] \otimes b[2]) \ominus (a[2] \otimes b[1]))
                 IN  Chk("C08.radial", cr \preceq (RSci(1, -7) \otimes (V2Len(a) \otimes V2Len(b))))
            ELSE {})
Lens(c, e) ==
  IF ~Good(e.o, Shp(e.n, 2)) THEN {Tag(e.pid, "call")}
  ELSE UNION { IF c.lens = "none" THEN Chk("C08.identity", SameSeq(Row(e.o, i, 2), e.p[i]))
               ELSE IF e.fwd THEN DistPoint(c, e.p[i], Row(e.o, i, 2)) ELSE UndistPoint(c, e.p[i], Row(e.o, i, 2))
               : i \in 1..Cnt(e.n) }
(* undistort(distort(p)) = p, and a lens of zero coefficients is the identity *)
LensPair(c, e) ==
  IF ~(Good(e.o, Shp(e.n, 2))) THEN {Tag(e.pid, "call")}
  ELSE UNION { LET p == e.p[i]  r == Row(e.o, i, 2)
                   s == LensScale(c)
                   slack == (RSci(2, -4) \otimes RMax(RAbs(s[1]), RAbs(s[2]))) \otimes (RSci(1, -2) \oplus LensRadius(c, p))
               IN  IF ~LensDomain(c, LensRadius(c, p)) THEN {} ELSE Chk("C08.inverse", NearSeq(r, p, slack))
             : i \in 1..Cnt(e.n) }
===================================================================================
