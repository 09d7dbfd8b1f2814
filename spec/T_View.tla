---------------------------------- MODULE T_View ----------------------------------
(* Trace specification of what is derived from the camera transformation: rotated and  *)
(* scaled spaces (C20), object sizes and pixel areas (C21), horizon, border and cone    *)
(* (C22).  State: the sequence of cameras of the current set-up.                        *)
EXTENDS Geometry, Obs, Json
VARIABLES l, st

NearDeg(a, b, tol) ==
  RIsFin(a) /\ RIsFin(b) /\
  LET d == RAbs(a \ominus b)  k == RInt(RRound(d \oslash RInt(360))) IN RAbs(d \ominus (k \otimes RInt(360))) \preceq tol

(* ------------------------------ C20 ------------------------------ *)
TurnXY(a, x) == LET s == RSin(Deg2Rad(a))  c == RCos(Deg2Rad(a))       \* clockwise seen from above
                IN <<(c \otimes x[1]) \oplus (s \otimes x[2]), (c \otimes x[2]) \ominus (s \otimes x[1]), x[3]>>
Rotated(c, a) == LET p == TurnXY(a, Pos(c))
                     d == [c EXCEPT !.px = p[1], !.py = p[2]]
                 IN IF c.ori = "thr" THEN [d EXCEPT !.a3 = @ \oplus a] ELSE [d EXCEPT !.a1 = @ \oplus a]
Scaled(c, k) == [c EXCEPT !.px = k \otimes @, !.py = k \otimes @, !.pz = k \otimes @]
(* reads: <<a1, a2, a3, px, py, pz, fx, fy, cx, cy>> *)
ReadOk(c, r) ==
  LET tp == RSci(1, -9) \otimes (R1 \oplus L1(Pos(c)))
      ta == RSci(1, -9)
  IN  /\ NearDeg(r[1], c.a1, ta) /\ NearDeg(r[2], c.a2, ta) /\ NearDeg(r[3], c.a3, ta)
      /\ Near(r[4], c.px, tp) /\ Near(r[5], c.py, tp) /\ Near(r[6], c.pz, tp)
      /\ Same(r[7], c.fx) /\ Same(r[8], c.fy) /\ Same(r[9], c.cx) /\ Same(r[10], c.cy)
(* the pixels of moved points are those of the original points *)
KeepPixels(name, c, d, was, xs, old, new) ==
  UNION { LET a == Row(old, i, 2)  b == Row(new, i, 2)
              q == CameraFromSpace(d, xs[i])
              q0 == CameraFromSpace(c, was[i])
              dd == TolCam(d, xs[i]) \otimes R2
              d0 == TolCam(c, was[i]) \otimes R2
              far(p, t) == p \succ RMax(RInt(100) \otimes t, Floor)
              clear == IF d.proj = "rect" THEN far(RAbs(q[3]), dd) /\ far(RAbs(q0[3]), d0) ELSE far(Rho(q), dd) /\ far(Rho(q0), d0)
              tol == RInt(10) \otimes (TolLens(d, ProjRaw(d, q), TolProj(d, q, Snap(d, q, dd))) \oplus
                                      TolLens(c, ProjRaw(c, q0), TolProj(c, q0, Snap(c, q0, d0))))
              seam == d.proj # "rect" /\ AtSeam(d, ProjRaw(d, q))
          IN  IF ~clear \/ seam \/ tol \succeq R1 THEN {} ELSE Chk(name, NearSeq(a, b, tol))
        : i \in DOMAIN xs }
RotEv(cs, e) ==
  LET d == Rotated(cs[1], e.a)
      n == Len(e.x)
      y == [i \in 1..n |-> TurnXY(e.a, e.x[i])]
  IN  IF ~(Good(e.reads, <<10>>) /\ Good(e.old, <<n, 2>>) /\ Good(e.new, <<n, 2>>)) THEN {"C20.call"}
      ELSE Chk("C20.rotated", ReadOk(d, e.reads.v)) \cup
           KeepPixels("C20.rotatedPixels", cs[1], d, e.x, y, e.old, e.new)
ScaleEv(cs, e) ==
  UNION { LET d == Scaled(cs[j], e.f)
              n == Len(e.x)
              y == [i \in 1..n |-> V3Scale(e.f, e.x[i])]
          IN  IF ~(Good(e.reads[j], <<10>>) /\ Good(e.old[j], <<n, 2>>) /\ Good(e.new[j], <<n, 2>>)) THEN {"C20.call"}
              ELSE Chk("C20.scaled", ReadOk(d, e.reads[j].v)) \cup
                   KeepPixels("C20.scaledPixels", cs[j], d, e.x, y, e.old[j], e.new[j])
        : j \in DOMAIN cs }

(* ------------------------------ C21 ------------------------------ *)
At(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
Slack(c) == IF c.lens = "none" THEN RSci(1, -9) ELSE RSci(4, -4)
InLens(c, x) == LensDomain(c, LensRadius(c, ProjRaw(c, CameraFromSpace(c, x))))
Seen(c, x) == LET q == CameraFromSpace(c, x) IN (c.proj # "rect" \/ q[3] \prec R0) /\ InLens(c, x)
              /\ (c.proj = "rect" \/ c.lens = "none" \/ ~AtSeam(c, ProjRaw(c, q)))
(* error of the ground point of a foot pixel *)
FootTol(c, x) == LET v == V3Sub(x, Pos(c))  r == V3Len(v)
                 IN (Slack(c) \otimes (r \oplus L1(Pos(c)))) \otimes (R1 \oplus (r \oslash RAbs(v[3])))
HeightEv(c, e) ==
  IF ~Good(e.o, ShpS(e.n)) THEN {"C21.call"}
  ELSE UNION { LET x == e.x[i]  hh == At(e.h, i)
                   top == <<x[1], x[2], x[3] \oplus hh>>
                   v == V3Sub(x, Pos(c))
                   hor == V2Len(<<v[1], v[2]>>)
                   r == V3Len(v) \oplus RAbs(hh)
                   small == RMin(RAbs(v[1]), RAbs(v[2]))
                   axis == small \prec (RSci(1, -9) \otimes hor)        \* exactly in an axis direction
                   arm == IF axis THEN hor ELSE small
                   tol == RInt(4) \otimes (((FootTol(c, x) \oplus (Slack(c) \otimes (r \oplus L1(Pos(c))))) \otimes (R1 \oplus (r \oslash hor))) \otimes (hor \oslash arm))
               IN  IF ~Seen(c, x) \/ ~Seen(c, top) \/ ~AllFin(e.x[i]) \/ (~axis /\ small \prec (RSci(1, -3) \otimes hor))
                      \/ RAbs(v[3]) \prec RSci(1, -2) \/ tol \succ (RRat(1, 20) \otimes (RAbs(hh) \oplus RRat(1, 10))) THEN {}
                   ELSE Chk("C21.height", Near(e.o.v[i], hh, tol \oplus (RSci(1, -9) \otimes RAbs(hh)))) : i \in 1..Cnt(e.n) }
LengthEv(c, e) ==
  IF ~Good(e.o, ShpS(e.n)) THEN {"C21.call"}
  ELSE UNION { LET a == e.x[i]  b == e.y[i]
                   tol == RInt(4) \otimes (FootTol(c, a) \oplus FootTol(c, b))
                   w == V3Len(V3Sub(a, b))
               IN  IF ~Seen(c, a) \/ ~Seen(c, b) \/ tol \succ (RRat(1, 20) \otimes (w \oplus RRat(1, 10))) THEN {}
                   ELSE Chk("C21.length", Near(e.o.v[i], w, tol)) : i \in 1..Cnt(e.n) }
(* the area table: the ground points of the pixel corners are recorded *)
Shoelace(q) == LET c(a, b) == (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1])
                   z == [i \in 1..4 |-> <<q[i][1] \ominus q[1][1], q[i][2] \ominus q[1][2]>>]
               IN  RHalf \otimes RAbs((c(z[1], z[2]) \oplus c(z[2], z[3])) \oplus (c(z[3], z[4]) \oplus c(z[4], z[1])))
LutEv(c, e) ==
  IF ~(Good(e.o, e.shape) /\ Good(e.corners, <<e.m, 4, 3>>)) THEN {"C21.call"}
  ELSE UNION { LET q == [k \in 1..4 |-> SubSeq(e.corners.v, (i - 1) * 12 + (k - 1) * 3 + 1, (i - 1) * 12 + k * 3)]
                   s == L1(q[1]) \oplus L1(q[2]) \oplus L1(q[3]) \oplus L1(q[4])
                   w == Shoelace(q)
                   (* a footprint over the horizon: at least one corner has no ground point *)
                   over == \E k \in 1..4 : AnyNaN(q[k])
                   span == V3Len(V3Sub(q[1], q[3])) \oplus V3Len(V3Sub(q[2], q[4]))
               IN  IF over THEN Chk("C21.undefined", Same(e.o.v[i], e.undef))
                   ELSE Chk("C21.area", Near(e.o.v[i], w, (RSci(1, -8) \otimes w) \oplus (RSci(1, -12) \otimes (s \otimes (span \oplus RSci(1, -3))))))
             : i \in 1..e.m }

(* ------------------------------ C22 ------------------------------ *)
REarth == RInt(6371000)
Horizon(c) == RSqrt((R2 \otimes Sq(REarth)) \otimes (R1 \ominus (REarth \oslash (REarth \oplus c.pz))))
HorizonDist(c, e) ==
  IF ~Good(e.o, <<>>) THEN {"C22.call"}
  ELSE Chk("C22.distance", Near(Num(e.o), Horizon(c), RSci(1, -2) \oplus (RSci(1, -5) \otimes Horizon(c))))
(* the height above ground of the ray of a pixel at the distance of the horizon *)
HeightAt(c, p, d) == LET v == RayDir(c, p) IN c.pz \oplus ((d \otimes v[3]) \oslash V3Len(v))
HorizonEv(c, e) ==
  LET n == Len(e.xs)  d == Horizon(c)  rows == e.rows IN
  IF ~Good(e.o, Shp(e.n, 2)) THEN {"C22.call"}
  ELSE UNION { LET r == Row(e.o, i, 2)
                   x == e.xs[i]
                   hs == [y \in 1..rows |-> RAbs(HeightAt(c, <<x, RInt(y - 1)>>, d))]
                   yy == IF RIsFin(r[2]) THEN RRound(r[2]) ELSE -1
                   tol == (IF c.lens = "none" THEN RSci(1, -7) ELSE RSci(4, -4)) \otimes (d \oplus R1)
                   inLens == c.lens = "none" \/ \A y \in 1..rows : LensDomain(c, LensRadius(c, Undistort(c, <<x, RInt(y - 1)>>)))
               IN  IF ~inLens THEN {}
                   ELSE Chk("C22.column", Same(r[1], x)) \cup
                        Chk("C22.row", yy >= 0 /\ yy < rows /\ REq(r[2], RInt(yy)) /\ \A y \in 1..rows : hs[yy + 1] \preceq (hs[y] \oplus tol))
             : i \in 1..n }
(* the border with spacing s: down the left edge, along the bottom, up the right edge, back along the top *)
CeilDiv(a, s) == LET q == a \oslash s  f == RFloor(q) IN IF REq(q, f) THEN RRound(f) ELSE RRound(f) + 1
BorderEv(c, e) ==
  LET nh == CeilDiv(c.h, e.s)  nw == CeilDiv(c.w, e.s)
      n == 2 * (nh + nw)
      want(i) == IF i <= nh THEN <<R0, RInt(i - 1) \otimes e.s>>
                 ELSE IF i <= nh + nw THEN <<RInt(i - nh - 1) \otimes e.s, c.h>>
                 ELSE IF i <= 2 * nh + nw THEN <<c.w, c.h \ominus (RInt(i - nh - nw - 1) \otimes e.s)>>
                 ELSE <<c.w \ominus (RInt(i - 2 * nh - nw - 1) \otimes e.s), R0>>
  IN  IF ~Good(e.o, <<n, 2>>) THEN {"C22.border"}
      ELSE Chk("C22.border", \A i \in 1..n : NearSeq(Row(e.o, i, 2), want(i), RSci(1, -9) \otimes (c.w \oplus c.h)))
(* the cone.  e.border: recorded space points of the border pixels the cone starts with *)
Corners(c) == { <<R0, R0>>, <<c.w, R0>>, <<R0, c.h>>, <<c.w, c.h>> }
ConeEv(c, e) ==
  IF ~(e.o.ok /\ Len(e.o.shape) = 2 /\ e.o.shape[2] = 3 /\ e.border.ok) THEN {"C22.call"}
  ELSE LET m == e.o.shape[1]
           rows == [i \in 1..m |-> Row(e.o, i, 3)]
           nb == e.border.shape[1]
           b == [i \in 1..nb |-> Row(e.border, i, 3)]
           isOrg(r) == NearSeq(r, Pos(c), RSci(1, -9) \otimes (R1 \oplus L1(Pos(c))))
           same(r, s) == AllFin(s) /\ AllFin(r) /\ NearSeq(r, s, RSci(1, -9) \otimes (R1 \oplus L1(s)))
           isBorder(r) == \E i \in 1..nb : same(r, b[i])
       IN  Chk("C22.coneBorder", m >= nb /\ \A i \in 1..nb : (AllFin(b[i]) => same(rows[i], b[i])) /\ (AnyNaN(b[i]) => AnyNaN(rows[i]))) \cup
           Chk("C22.coneRows", \A i \in 1..m : AnyNaN(rows[i]) \/ isOrg(rows[i]) \/ isBorder(rows[i])) \cup
           Chk("C22.coneCorner", \A i \in 1..nb : (e.px[i] \in Corners(c) /\ AllFin(b[i])) =>
                 \E j \in 1..(m - 1) : isOrg(rows[j]) /\ same(rows[j + 1], b[i])) \cup
           (IF e.ground THEN Chk("C22.coneGround", \A i \in 1..nb : AllFin(b[i]) => Near(b[i][3], R0, RSci(1, -6) \otimes (R1 \oplus L1(b[i]))))
            ELSE Chk("C22.coneDistance", \A i \in 1..nb : AllFin(b[i]) => Near(V3Len(V3Sub(b[i], Pos(c))), e.D, RSci(1, -9) \otimes (R1 \oplus L1(Pos(c)) \oplus e.D))) \cup
                 Chk("C22.coneAll", \A q \in Corners(c) : \E i \in 1..nb : e.px[i] = q))

Judge(c, e) ==
  CASE e.k = "rotate" -> RotEv(c, e)
    [] e.k = "scale" -> ScaleEv(c, e)
    [] e.k = "height" -> HeightEv(c[1], e)
    [] e.k = "length" -> LengthEv(c[1], e)
    [] e.k = "lut" -> LutEv(c[1], e)
    [] e.k = "hdist" -> HorizonDist(c[1], e)
    [] e.k = "horizon" -> HorizonEv(c[1], e)
    [] e.k = "border" -> BorderEv(c[1], e)
    [] e.k = "cone" -> ConeEv(c[1], e)
Next1(s, e) == CASE e.k = "rotate" -> <<Rotated(s[1], e.a)>>
                 [] e.k = "scale" -> [j \in DOMAIN s |-> Scaled(s[j], e.f)]
                 [] OTHER -> s
Step(s, e) == IF e.k = "reset" THEN [st |-> e.c, fails |-> {}]
              ELSE [st |-> Next1(s, e), fails |-> Judge(s, e)]
Start == <<>>
Trace == ndJsonDeserialize("trace.ndjson")
INSTANCE TraceRun
===================================================================================
