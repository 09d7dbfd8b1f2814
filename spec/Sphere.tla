---------------------------------- MODULE Sphere ----------------------------------
(* The spherical earth of 6371 km: distances, bearings and movement, in vector form. *)
EXTENDS Geometry
EarthR == RInt(6371000)
UVec(lat, lon) == LET a == Deg2Rad(lat)  b == Deg2Rad(lon)
                  IN <<RCos(a) \otimes RCos(b), RCos(a) \otimes RSin(b), RSin(a)>>
North(lat, lon) == LET a == Deg2Rad(lat)  b == Deg2Rad(lon)
                   IN <<RNeg(RSin(a) \otimes RCos(b)), RNeg(RSin(a) \otimes RSin(b)), RCos(a)>>
East(lat, lon) == LET b == Deg2Rad(lon) IN <<RNeg(RSin(b)), RCos(b), R0>>
Central(u, v) == RAtan2(V3Len(V3Cross(u, v)), V3Dot(u, v))
(* p, q: <<lat, lon>> or <<lat, lon, height>> *)
Ground(p, q) == EarthR \otimes Central(UVec(p[1], p[2]), UVec(q[1], q[2]))
Dist(p, q) == IF Len(p) = 3 /\ Len(q) = 3 THEN RSqrt(Sq(Ground(p, q)) \oplus Sq(p[3] \ominus q[3])) ELSE Ground(p, q)
(* east and north component of the direction from p to q; its length is the sine of the central angle *)
Toward(p, q) == LET v == UVec(q[1], q[2]) IN <<V3Dot(v, East(p[1], p[2])), V3Dot(v, North(p[1], p[2]))>>
BearingDeg(p, q) == LET t == Toward(p, q) IN Rad2Deg(RAtan2(t[1], t[2]))
(* the unit vector reached from p by the central angle a along the bearing b (degrees) *)
MoveVec(p, a, b) ==
  LET beta == Deg2Rad(b)
      t == V3Add(V3Scale(RCos(beta), North(p[1], p[2])), V3Scale(RSin(beta), East(p[1], p[2])))
  IN  V3Add(V3Scale(RCos(a), UVec(p[1], p[2])), V3Scale(RSin(a), t))
(* metres of uncertainty of a distance: the haversine formula loses digits at the antipode *)
DistTol(p, q) == LET c == Central(UVec(p[1], p[2]), UVec(q[1], q[2]))
                 IN  IF (RPi \ominus c) \prec RSci(1, -3) THEN RInt(2) ELSE RSci(2, -6)
(* agreement of angles in degrees modulo full turns *)
NearDeg(a, b, tol) ==
  RIsFin(a) /\ RIsFin(b) /\
  LET d == RAbs(a \ominus b)  k == RInt(RRound(d \oslash RInt(360))) IN RAbs(d \ominus (k \otimes RInt(360))) \preceq tol
===================================================================================
