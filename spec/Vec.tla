----------------------------------- MODULE Vec -----------------------------------
(* Vectors (tuples of two or three reals) and 3x3 matrices (tuples of rows).      *)
EXTENDS Arith

V3Add(a, b) == <<a[1] \oplus b[1], a[2] \oplus b[2], a[3] \oplus b[3]>>
V3Sub(a, b) == <<a[1] \ominus b[1], a[2] \ominus b[2], a[3] \ominus b[3]>>
V3Scale(k, a) == <<k \otimes a[1], k \otimes a[2], k \otimes a[3]>>
V3Neg(a) == <<RNeg(a[1]), RNeg(a[2]), RNeg(a[3])>>
V3Dot(a, b) == ((a[1] \otimes b[1]) \oplus (a[2] \otimes b[2])) \oplus (a[3] \otimes b[3])
V3Cross(a, b) == << (a[2] \otimes b[3]) \ominus (a[3] \otimes b[2]),
                    (a[3] \otimes b[1]) \ominus (a[1] \otimes b[3]),
                    (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1]) >>
V3Len(a) == RSqrt(V3Dot(a, a))
V3Mean(a, b) == V3Scale(RHalf, V3Add(a, b))
V2Sub(a, b) == <<a[1] \ominus b[1], a[2] \ominus b[2]>>
V2Add(a, b) == <<a[1] \oplus b[1], a[2] \oplus b[2]>>
V2Dot(a, b) == (a[1] \otimes b[1]) \oplus (a[2] \otimes b[2])
V2Len(a) == RSqrt(V2Dot(a, a))

MV(M, a) == <<V3Dot(M[1], a), V3Dot(M[2], a), V3Dot(M[3], a)>>
MT(M) == << <<M[1][1], M[2][1], M[3][1]>>, <<M[1][2], M[2][2], M[3][2]>>, <<M[1][3], M[2][3], M[3][3]>> >>
MM(A, B) == LET Bt == MT(B) IN <<MV(Bt, A[1]), MV(Bt, A[2]), MV(Bt, A[3])>>

AllFin(a) == \A i \in DOMAIN a : RIsFin(a[i])
AllNaN(a) == \A i \in DOMAIN a : RIsNaN(a[i])
AnyNaN(a) == \E i \in DOMAIN a : RIsNaN(a[i])
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(a[i], b[i])
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], tol)
NearSeqRel(a, b, e) == Len(a) = Len(b) /\ \A i \in DOMAIN a : NearRel(a[i], b[i], e)

(* a and b point in the same direction: sine of the angle at most e, and not opposite *)
SameDir(a, b, e) ==
  LET la == V3Len(a)  lb == V3Len(b)
  IN  /\ RIsFin(la) /\ RIsFin(lb) /\ la \succ R0 /\ lb \succ R0
      /\ V3Len(V3Cross(a, b)) \preceq ((e \otimes la) \otimes lb)
      /\ V3Dot(a, b) \succ R0
==================================================================================
