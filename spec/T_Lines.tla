---------------------------------- MODULE T_Lines ----------------------------------
(* Trace specification of rays, lines, triangles, walls and stereo pairs.              *)
(* State: the two cameras of the current group (stereo events).                        *)
EXTENDS Geometry, Obs, Json
VARIABLES l, st
At(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]

(* ------------------------- C13: rays and triangles ------------------------- *)
(* Moeller-Trumbore: distance factor and barycentric coordinates of the hit *)
Hit(o, d, tri) ==
  LET e1 == V3Sub(tri[2], tri[1])  e2 == V3Sub(tri[3], tri[1])
      p == V3Cross(d, e2)
      det == V3Dot(e1, p)
      s == V3Sub(o, tri[1])
      q == V3Cross(s, e1)
      size == (V3Len(e1) \otimes V3Len(e2)) \otimes V3Len(d)
  IN  [det |-> det, flat |-> RAbs(det) \preceq (RSci(1, -7) \otimes size),
       parallel |-> REq(det, R0),
       t |-> V3Dot(e2, q) \oslash det, u |-> V3Dot(s, p) \oslash det, v |-> V3Dot(d, q) \oslash det]
BaryEps == RSci(1, -6)
TEps(o, d, tri) == RSci(1, -6) \otimes ((R1 \oplus L1(o) \oplus L1(tri[1])) \oslash V3Len(d))
Inside(h, m) == h.u \succeq m /\ h.v \succeq m /\ (R1 \ominus (h.u \oplus h.v)) \succeq m
Sure(o, d, tri, planes) == LET h == Hit(o, d, tri)
                           IN ~h.flat /\ h.t \succ TEps(o, d, tri) /\ (planes \/ Inside(h, BaryEps))
Maybe(o, d, tri, planes) == LET h == Hit(o, d, tri)
                            IN h.flat \/ (h.t \succeq RNeg(TEps(o, d, tri)) /\ (planes \/ Inside(h, RNeg(BaryEps))))
MeshPoint(o, d, mesh, planes, r) ==
  LET sure == { i \in DOMAIN mesh : Sure(o, d, mesh[i], planes) }
      maybe == { i \in DOMAIN mesh : Maybe(o, d, mesh[i], planes) }
      flat == { i \in maybe : Hit(o, d, mesh[i]).flat }
      len == V3Len(d)
      pt(i) == V3Add(o, V3Scale(Hit(o, d, mesh[i]).t, d))
      tol(i) == RSci(1, -7) \otimes ((R1 \oplus L1(o)) \oplus (RAbs(Hit(o, d, mesh[i]).t) \otimes len))
      (* a hit is acceptable if no certain hit is clearly nearer *)
      nearest(i) == \A j \in sure : Hit(o, d, mesh[i]).t \preceq (Hit(o, d, mesh[j]).t \oplus (tol(j) \oslash len))
  IN  IF flat # {} THEN {}                  \* rays within the plane of a triangle
      ELSE IF AllNaN(r) THEN Chk("C13.lost", sure = {})
      ELSE IF AnyNaN(r) THEN {"C13.partial"}
      ELSE IF maybe = {} THEN {"C13.ghost"}
      ELSE Chk("C13.nearest", \E i \in maybe : nearest(i) /\ NearSeq(r, pt(i), tol(i)))
MeshEv(e) ==
  IF ~Good(e.o, Shp(e.n, 3)) THEN {"C13.call"}
  ELSE UNION { MeshPoint(At(e.org, i), At(e.d, i), e.mesh, e.planes, Row(e.o, i, 3)) : i \in 1..Cnt(e.n) } \cup
       Chk("C13.order", e.o2.ok /\ e.o2.shape = e.o.shape /\ NearSeq(e.o2.v, e.o.v, RSci(1, -6) \otimes (R1 \oplus e.scale)))
(* projecting pixels on a mesh: the rays of the pixels are recorded *)
MeshImg(e) ==
  IF ~(Good(e.o, Shp(e.n, 3)) /\ Good(e.ray, Shp(e.n, 3)) /\ Good(e.off, <<3>>)) THEN {"C13.call"}
  ELSE UNION { MeshPoint(e.off.v, Row(e.ray, i, 3), e.mesh, FALSE, Row(e.o, i, 3)) : i \in 1..Cnt(e.n) }

(* ------------------------------ C14: lines ------------------------------ *)
Ins(a) == IF Len(a) = 2 THEN Append(a, R0) ELSE a          \* lines of the image plane
Foot(o, v, x) == LET d == V3Sub(x, o) IN V3Add(o, V3Scale(V3Dot(d, v) \oslash V3Dot(v, v), v))
LineTol(a, b) == RSci(1, -9) \otimes (R1 \oplus (L1(a) \oplus L1(b)))
ClosestEv(e) ==
  IF ~Good(e.o, Shp(e.n, e.dim)) THEN {"C14.call"}
  ELSE UNION { LET o == Ins(At(e.org, i))  v == Ins(At(e.d, i))  x == Ins(At(e.x, i))
               IN  Chk("C14.foot", NearSeq(Ins(Row(e.o, i, e.dim)), Foot(o, v, x), LineTol(o, x))) : i \in 1..Cnt(e.n) }
SinAngle(a, b) == V3Len(V3Cross(a, b)) \oslash (V3Len(a) \otimes V3Len(b))
(* the feet of the common perpendicular *)
Mid(p1, v1, p2, v2) ==
  LET n == V3Cross(v1, v2)  nn == V3Dot(n, n)  w == V3Sub(p2, p1)
      s == V3Dot(V3Cross(w, v2), n) \oslash nn
      t == V3Dot(V3Cross(w, v1), n) \oslash nn
  IN  V3Mean(V3Add(p1, V3Scale(s, v1)), V3Add(p2, V3Scale(t, v2)))
LineDist(p1, v1, p2, v2) ==
  LET w == V3Sub(p2, p1)  n == V3Cross(v1, v2)  l1 == V3Len(v1)  l2 == V3Len(v2) IN
  IF REq(l1, R0) /\ REq(l2, R0) THEN V3Len(w)
  ELSE IF REq(l1, R0) THEN V3Len(V3Cross(w, v2)) \oslash l2
  ELSE IF REq(l2, R0) \/ SinAngle(v1, v2) \prec RSci(1, -12) THEN V3Len(V3Cross(w, v1)) \oslash l1
  ELSE RAbs(V3Dot(w, n)) \oslash V3Len(n)
InterEv(e) ==
  IF ~(Good(e.o, Shp(e.n, 3)) /\ Good(e.swap, Shp(e.n, 3))) THEN {"C14.call"}
  ELSE UNION { LET v1 == At(e.v1, i)  v2 == At(e.v2, i)  r == Row(e.o, i, 3)
                   sn == SinAngle(v1, v2)
                   m == Mid(e.p1, v1, e.p2, v2)
                   tol == (RSci(1, -9) \otimes (R1 \oplus (L1(e.p1) \oplus L1(e.p2)))) \oslash Sq(sn)
                   (* parallel lines: no unique point; if one is given it is half way between the lines *)
                   half(x) == LET d == RHalf \otimes LineDist(e.p1, v1, e.p2, v2)
                                  t == RSci(1, -3) \otimes (R1 \oplus (L1(x) \oplus (L1(e.p1) \oplus L1(e.p2))))
                              IN  /\ Near(V3Len(V3Sub(x, Foot(e.p1, v1, x))), d, t)
                                  /\ Near(V3Len(V3Sub(x, Foot(e.p2, v2, x))), d, t)
                   between(x) == AllNaN(x) \/ (AllFin(x) /\ half(x))
               IN  IF sn \prec RSci(1, -12) THEN Chk("C14.parallel", between(r) /\ between(Row(e.swap, i, 3)))
                   ELSE IF sn \prec RSci(1, -3) THEN {}
                   ELSE Chk("C14.intersection", NearSeq(r, m, tol)) \cup Chk("C14.swap", NearSeq(Row(e.swap, i, 3), m, tol))
             : i \in 1..Cnt(e.n) }
DistEv(e) ==
  IF ~(Good(e.o, ShpS(e.n)) /\ Good(e.swap, ShpS(e.n))) THEN {"C14.call"}
  ELSE UNION { LET v1 == At(e.v1, i)  v2 == At(e.v2, i)
                   sn == SinAngle(v1, v2)
                   d == LineDist(e.p1, v1, e.p2, v2)
                   zero == REq(V3Len(v1), R0) \/ REq(V3Len(v2), R0)
                   (* nearly parallel lines: the direction of the perpendicular loses digits *)
                   near == ~zero /\ sn \succ RSci(1, -12)
                   tol == (RSci(1, -8) \oplus (IF near THEN RSci(1, -12) \oslash sn ELSE R0)) \otimes (R1 \oplus (L1(e.p1) \oplus L1(e.p2)))
               IN  IF near /\ sn \prec RSci(1, -6) THEN {}
                   ELSE Chk("C14.distance", Near(e.o.v[i], d, tol)) \cup Chk("C14.swap", Near(e.swap.v[i], d, tol))
             : i \in 1..Cnt(e.n) }
PointDist(e) == IF ~Good(e.o, <<>>) THEN {"C14.call"}
                ELSE Chk("C14.linePoint", Near(Num(e.o), V3Len(V3Sub(e.x, Foot(e.org, e.d, e.x))), LineTol(e.org, e.x)))
TriEv(e) == IF ~Good(e.o, <<>>) THEN {"C14.call"}
            ELSE LET a == Ins(e.t[1])  b == Ins(e.t[2])  c == Ins(e.t[3])
                     s == (L1(V3Sub(b, a)) \oplus L1(V3Sub(c, a)))
                     w == RHalf \otimes V3Len(V3Cross(V3Sub(b, a), V3Sub(c, a)))
                 IN  (* Heron's formula loses digits for needles *)
                     IF w \prec (RSci(1, -3) \otimes Sq(s)) THEN Chk("C14.triangle", RIsFin(Num(e.o)) /\ Num(e.o) \succeq R0 /\ Num(e.o) \preceq (RSci(2, -3) \otimes Sq(s)))
                     ELSE Chk("C14.triangle", Near(Num(e.o), w, RSci(1, -8) \otimes Sq(s)))
Shoelace(q) == LET c(a, b) == (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1])
               IN  RHalf \otimes RAbs((c(q[1], q[2]) \oplus c(q[2], q[3])) \oplus (c(q[3], q[4]) \oplus c(q[4], q[1])))
QuadEv(e) == IF ~Good(e.o, ShpS(e.n)) THEN {"C14.call"}
             ELSE UNION { LET q == e.q[i]
                              s == R1 \oplus (L1(Ins(q[1])) \oplus L1(Ins(q[2])) \oplus L1(Ins(q[3])) \oplus L1(Ins(q[4])))
                          IN Chk("C14.quadrilateral", Near(e.o.v[i], Shoelace(q), RSci(1, -10) \otimes Sq(s))) : i \in 1..Cnt(e.n) }
(* a wall: every wall point is covered, every triangle stays on its wall *)
InTri(p, tri) == LET e1 == V3Sub(tri[2], tri[1])  e2 == V3Sub(tri[3], tri[1])  n == V3Cross(e1, e2)
                     w == V3Sub(p, tri[1])  nn == V3Dot(n, n)
                     u == V3Dot(V3Cross(w, e2), n) \oslash nn
                     v == V3Dot(V3Cross(e1, w), n) \oslash nn
                 IN  u \succeq RNeg(RSci(1, -7)) /\ v \succeq RNeg(RSci(1, -7)) /\ (u \oplus v) \preceq (R1 \oplus RSci(1, -7))
ExtrudeEv(e) ==
  LET n == Len(e.line)
      m == 2 * (n - 1)
  IN  IF ~Good(e.o, <<m, 3, 3>>) THEN {"C14.call"}
      ELSE LET tri(k) == [v \in 1..3 |-> SubSeq(e.o.v, (k - 1) * 9 + (v - 1) * 3 + 1, (k - 1) * 9 + v * 3)]
               seg(k) == (k + 1) \div 2
               corner(x, k) == \E p \in {e.line[k], e.line[k + 1]}, z \in {e.z0, e.z1} : SameSeq(x, Append(p, z))
               at(k, s, z) == Append(V2Add(e.line[k], <<s \otimes (e.line[k + 1][1] \ominus e.line[k][1]), s \otimes (e.line[k + 1][2] \ominus e.line[k][2])>>),
                                     e.z0 \oplus (z \otimes (e.z1 \ominus e.z0)))
               grid == {RRat(1, 10), RRat(1, 2), RRat(9, 10)}
           IN  Chk("C14.wallcorner", \A k \in 1..m : \A v \in 1..3 : \E s \in 1..(n - 1) : corner(tri(k)[v], s)) \cup
               Chk("C14.wallcover", \A s \in 1..(n - 1) : \A a \in grid : \A b \in grid :
                      \E k \in 1..m : (\A v \in 1..3 : corner(tri(k)[v], s)) /\ InTri(at(s, a, b), tri(k)))

(* ------------------------------ C15: stereo ------------------------------ *)
LensSlack(c) == IF c.lens = "none" THEN R0 ELSE RSci(2, -4)
PixOk(c, x, r) == LET q == CameraFromSpace(c, x)
                      tol == TolImage(c, x)
                  IN IF Behind(c, q) THEN AllNaN(r)
                     ELSE tol \succeq R1 \/ (c.proj # "rect" /\ c.lens # "none" /\ AtSeam(c, ProjRaw(c, q)))
                          \/ NearPixel(c, r, Distort(c, ProjRaw(c, q)), tol)
ClearOf(c, x) == LET q == CameraFromSpace(c, x)  d == RInt(100) \otimes TolCam(c, x)
                 IN (IF c.proj = "rect" THEN RAbs(q[3]) \succ d ELSE Rho(q) \succ d)
Trusted(c, p) == c.lens = "none" \/ LensDomain(c, LensRadius(c, Undistort(c, p)))
(* triangulation of the images of known points *)
StereoEv(cs, e) ==
  IF ~(e.imgs.ok /\ e.imgs.shape = <<Len(cs)>> \o Shp(e.n, 2) /\ Good(e.o, Shp(e.n, 3)) /\ Good(e.dist, ShpS(e.n))) THEN {"C15.call"}
  ELSE UNION { LET x == e.x[i]
                   N == Cnt(e.n)
                   img(k) == SubSeq(e.imgs.v, 2 * N * (k - 1) + (i - 1) * 2 + 1, 2 * N * (k - 1) + i * 2)
                   d1 == V3Sub(x, Pos(cs[1]))  d2 == V3Sub(x, Pos(cs[2]))
                   sn == SinAngle(d1, d2)
                   reach == V3Len(d1) \oplus V3Len(d2)
                   slack == (RSci(1, -8) \oplus (LensSlack(cs[1]) \oplus LensSlack(cs[2])) \oplus
                             ((RSci(1, -8) \otimes (L1(Pos(cs[1])) \oplus L1(Pos(cs[2])))) \oslash reach)) \otimes reach
                   vis(c) == ClearOf(c, x) /\ ~Behind(c, CameraFromSpace(c, x))
                   inLens(c) == LensDomain(c, LensRadius(c, ProjRaw(c, CameraFromSpace(c, x))))
                   ok == vis(cs[1]) /\ vis(cs[2]) /\ inLens(cs[1]) /\ inLens(cs[2])
               IN  Chk("C15.images", \A k \in DOMAIN cs : ClearOf(cs[k], x) => PixOk(cs[k], x, img(k))) \cup
                   (IF ~ok \/ sn \prec RSci(3, -2) THEN {}
                    ELSE Chk("C15.triangulate", NearSeq(Row(e.o, i, 3), x, slack \oslash Sq(sn))) \cup
                         Chk("C15.zeroDistance", RIsFin(e.dist.v[i]) /\ e.dist.v[i] \preceq (slack \oslash sn)))
             : i \in 1..Cnt(e.n) } \cup
       Chk("C15.baseline", Good(e.base, <<>>) /\ NearRel(Num(e.base),
             V2Len(<<cs[1].px \ominus cs[2].px, cs[1].py \ominus cs[2].py>>), RSci(1, -12)))
(* arbitrary pairs of pixels: mid point and distance of the viewing rays *)
RaysEv(cs, e) ==
  IF ~(Good(e.o, Shp(e.n, 3)) /\ Good(e.dist, ShpS(e.n))) THEN {"C15.call"}
  ELSE UNION { LET a == e.a[i]  b == e.b[i]
                   v1 == RayDir(cs[1], a)  v2 == RayDir(cs[2], b)
                   u1 == V3Scale(R1 \oslash V3Len(v1), v1)  u2 == V3Scale(R1 \oslash V3Len(v2), v2)
                   sn == SinAngle(v1, v2)
                   m == Mid(Pos(cs[1]), u1, Pos(cs[2]), u2)
                   reach == (L1(V3Sub(m, Pos(cs[1]))) \oplus L1(V3Sub(m, Pos(cs[2])))) \oplus (L1(Pos(cs[1])) \oplus L1(Pos(cs[2])))
                   slack == (RSci(1, -8) \oplus (LensSlack(cs[1]) \oplus LensSlack(cs[2]))) \otimes (R1 \oplus reach)
               IN  IF sn \prec RSci(3, -2) \/ ~Trusted(cs[1], a) \/ ~Trusted(cs[2], b) THEN {}
                   ELSE Chk("C15.midpoint", NearSeq(Row(e.o, i, 3), m, slack \oslash Sq(sn))) \cup
                        Chk("C15.rayDistance", Near(e.dist.v[i], LineDist(Pos(cs[1]), u1, Pos(cs[2]), u2), slack \oslash Sq(sn)))
             : i \in 1..Cnt(e.n) }
(* epipolar distances; rectilinear cameras without lens, so that epipolar lines are straight *)
EpiDist(c, d, p, q) ==
  LET dir == RayDir(c, p)
      x1 == V3Add(Pos(c), dir)  x2 == V3Add(Pos(c), V3Scale(R2, dir))
      a == ProjRaw(d, CameraFromSpace(d, x1))  b == ProjRaw(d, CameraFromSpace(d, x2))
      f == Foot(Ins(a), V3Sub(Ins(b), Ins(a)), Ins(q))
      z1 == CameraFromSpace(d, x1)[3]  z2 == CameraFromSpace(d, x2)[3]
      good == RMin(RAbs(z1), RAbs(z2)) \succ RSci(1, -2) /\ V2Len(V2Sub(a, b)) \succ RSci(1, -2)
  IN  [ok |-> good, v |-> V3Len(V3Sub(f, Ins(q))),
       tol |-> RSci(1, -7) \otimes (((R1 \oplus V3Len(V3Sub(Ins(a), Ins(q)))) \otimes (R1 \oplus V2Len(a) \oplus V2Len(b))) \oslash RMin(R1, V2Len(V2Sub(a, b))))]
EpiEv(cs, e) ==
  IF ~(Good(e.o, <<2>> \o ShpS(e.n))) THEN {"C15.call"}
  ELSE UNION { LET N == Cnt(e.n)
                   w1 == EpiDist(cs[1], cs[2], e.a[i], e.b[i])
                   w2 == EpiDist(cs[2], cs[1], e.b[i], e.a[i])
               IN  (IF w1.ok /\ w1.tol \prec RSci(1, -1) THEN Chk("C15.epipolar", Near(e.o.v[i], w1.v, w1.tol)) ELSE {}) \cup
                   (IF w2.ok /\ w2.tol \prec RSci(1, -1) THEN Chk("C15.epipolar", Near(e.o.v[N + i], w2.v, w2.tol)) ELSE {}) \cup
                   (IF e.exact /\ w1.ok /\ w2.ok /\ RMax(w1.tol, w2.tol) \prec RSci(1, -1)
                    THEN Chk("C15.epipolarZero", e.o.v[i] \preceq (w1.tol \oplus RSci(1, -4)) /\ e.o.v[N + i] \preceq (w2.tol \oplus RSci(1, -4))) ELSE {})
             : i \in 1..Cnt(e.n) }

(* ------------------------------ C26: reconstructed pairs ------------------------------ *)
(* The first camera looks straight down from where it is, the second one is at the given distance, and both see   *)
(* the triangulated points at the corresponding pixels.  e.r, e.t: what the estimator of the essential matrix      *)
(* found for these pixels (turned into the y-downwards, z-forwards frame of the first camera); the pair is judged  *)
(* if this estimate is an accurate one.                                                                            *)
Down(v) == <<v[1], RNeg(v[2]), RNeg(v[3])>>
PoseEv(e) ==
  LET c1 == e.c1  c2 == e.c2
      N == Len(e.a)
      see(c, p) == <<(p[1] \ominus c.cx) \oslash c.fx, (p[2] \ominus c.cy) \oslash c.fy, R1>>
      cen == V3Scale(RInt(-1), MV(MT(e.r), e.t))                    \* second camera seen from the first one, length one
      est(i) == LET u == see(e.c0, e.a[i])  v == MV(MT(e.r), see(e.c0, e.b[i]))
                IN [gap |-> LineDist(<<R0, R0, R0>>, u, cen, v), sn |-> SinAngle(u, v)]
      sharp == \A i \in 1..N : LET x == est(i) IN x.gap \prec RSci(1, -6) /\ x.sn \succ RSci(2, -2)
      gap(i) == LineDist(Pos(c1), RayDir(c1, e.a[i]), Pos(c2), RayDir(c2, e.b[i]))
      mid(i) == Mid(Pos(c1), RayDir(c1, e.a[i]), Pos(c2), RayDir(c2, e.b[i]))
      sees(c, x, p) == LET q == ImageFromSpace(c, x, TRUE) IN NearSeq(q, p, RSci(5, -2))
      same(n) == Same(c1[n], e.c0[n]) /\ Same(c2[n], e.c0[n])
      dist == V3Len(V3Sub(Pos(c2), Pos(c1)))
  IN  IF ~sharp THEN {}
      ELSE IF ~e.ok THEN {"C26.call"}
      ELSE Chk("C26.first", /\ \A n \in {"a1", "a2", "a3"} : REq(c1[n], R0)
                            /\ \A n \in {"px", "py", "pz"} : Same(c1[n], e.c0[n])) \cup
           Chk("C26.intrinsics", \A n \in {"fx", "fy", "cx", "cy", "w", "h"} : same(n)) \cup
           Chk("C26.baseline", NearRel(dist, e.base, RSci(1, -6) \oplus (RSci(1, -9) \otimes ((L1(Pos(c1)) \oplus R1) \oslash e.base)))) \cup
           Chk("C26.rays", \A i \in 1..N : gap(i) \preceq (RSci(1, -4) \otimes e.base)) \cup
           Chk("C26.pixels", \A i \in 1..N : sees(c1, mid(i), e.a[i]) /\ sees(c2, mid(i), e.b[i])) \cup
           Chk("C26.triangulate", Good(e.o, <<N, 3>>) /\ \A i \in 1..N : NearSeq(Row(e.o, i, 3), mid(i), RSci(1, -3) \otimes (e.base \oplus V3Len(V3Sub(mid(i), Pos(c1))))))

Judge(c, e) ==
  CASE e.k = "pose" -> PoseEv(e)
    [] e.k = "mesh" -> MeshEv(e)
    [] e.k = "meshimg" -> MeshImg(e)
    [] e.k = "closest" -> ClosestEv(e)
    [] e.k = "inter" -> InterEv(e)
    [] e.k = "ldist" -> DistEv(e)
    [] e.k = "pdist" -> PointDist(e)
    [] e.k = "tri" -> TriEv(e)
    [] e.k = "quad" -> QuadEv(e)
    [] e.k = "extrude" -> ExtrudeEv(e)
    [] e.k = "stereo" -> StereoEv(c, e)
    [] e.k = "rays" -> RaysEv(c, e)
    [] e.k = "epi" -> EpiEv(c, e)
Args(e) == IF "before" \in DOMAIN e
           THEN Chk(e.pid \o ".arguments", \A i \in DOMAIN e.before : SameSeq(e.before[i], e.after[i])) ELSE {}
Step(s, e) == IF e.k = "reset" THEN [st |-> e.c, fails |-> {}]
              ELSE [st |-> s, fails |-> Judge(s, e) \cup Args(e)]
Start == <<>>
Trace == ndJsonDeserialize("trace.ndjson")
INSTANCE TraceRun
===================================================================================
