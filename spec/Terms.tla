----------------------------------- MODULE Terms -----------------------------------
(* The documented information terms: sums of normal log densities.                       *)
EXTENDS Vec

LogNorm(x, mu, sd) == LET z == (x \ominus mu) \oslash sd
                      IN (RNeg(Sq(z) \oslash R2) \ominus RLog(sd)) \ominus (RLog(R2 \otimes RPi) \oslash R2)
Pick(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]        \* one value for all, or one for each
NormSum(xs, mus, sds) == RSum([i \in DOMAIN xs |-> LogNorm(xs[i], Pick(mus, i), Pick(sds, i))])

(* landmarks: the densities of 1000 points on the viewing ray, evenly spread over twice the  *)
(* largest uncertainty before and behind the point of the ray closest to the landmark.       *)
(* The offsets s_k are symmetric, so the sum has a closed form.                              *)
LandmarkOne(org, dir, lm, sd, off) ==
  LET n == RInt(1000)
      t == RAbs(V3Dot(V3Sub(lm, org), dir))            \* distance of the closest point from the camera
      step == (RInt(4) \otimes off) \oslash RInt(999)
      ss == ((Sq(step) \otimes n) \otimes (Sq(n) \ominus R1)) \oslash RInt(12)
      axis(j) == LET a == (org[j] \oplus (dir[j] \otimes t)) \ominus lm[j]
                 IN  RNeg(((n \otimes Sq(a)) \oplus (Sq(dir[j]) \otimes ss)) \oslash (R2 \otimes Sq(sd[j])))
                     \ominus (n \otimes (RLog(sd[j]) \oplus (RLog(R2 \otimes RPi) \oslash R2)))
  IN  (axis(1) \oplus axis(2)) \oplus axis(3)
LandmarkSum(org, dirs, lms, sds, off) == RSum([i \in DOMAIN lms |-> LandmarkOne(org, dirs[i], lms[i], Pick(sds, i), off)])

(* distance of the pixel q from the line through the pixels a and b *)
LineGap(a, b, q) == LET u == V2Sub(b, a)  v == V2Sub(q, a)
                    IN RAbs((u[1] \otimes v[2]) \ominus (u[2] \otimes v[1])) \oslash V2Len(u)
====================================================================================
