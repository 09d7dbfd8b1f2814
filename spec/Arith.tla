---------------------------------- MODULE Arith ----------------------------------
(* Real arithmetic.  Integers of TLC have 32 bits, so a real number is the pair   *)
(* <<hi, lo>> of the halves of an IEEE-754 double (JSON: [hi, lo]).  The          *)
(* primitives are evaluated by Arith.java (a TLC module override); the            *)
(* definitions below are only their signatures.                                   *)
EXTENDS Integers, Sequences

LOCAL Prim == CHOOSE x \in {} : TRUE

RInt(n) == Prim          \* integer to real
RRat(n, m) == Prim       \* n / m
RSci(n, e) == Prim       \* n * 10^e
RAdd(x, y) == Prim
RSub(x, y) == Prim
RMul(x, y) == Prim
RDiv(x, y) == Prim       \* IEEE: x/0 is infinite, 0/0 is NaN
RNeg(x) == Prim
RAbs(x) == Prim
RSqrt(x) == Prim
RSin(x) == Prim
RCos(x) == Prim
RTan(x) == Prim
RAsin(x) == Prim
RAcos(x) == Prim
RAtan(x) == Prim
RAtan2(y, x) == Prim
RExp(x) == Prim
RLog(x) == Prim
RFloor(x) == Prim
RPowI(x, n) == Prim
RMin(x, y) == Prim
RMax(x, y) == Prim
RMod(x, y) == Prim
RLt(x, y) == Prim
RLe(x, y) == Prim
REq(x, y) == Prim
RIsNaN(x) == Prim
RIsInf(x) == Prim
RIsFin(x) == Prim
RRound(x) == Prim        \* real to the nearest TLC integer
RStr(x) == Prim
RSum(s) == Prim

x \oplus y == RAdd(x, y)
x \ominus y == RSub(x, y)
x \otimes y == RMul(x, y)
x \oslash y == RDiv(x, y)
x \prec y == RLt(x, y)
x \preceq y == RLe(x, y)
x \succ y == RLt(y, x)
x \succeq y == RLe(y, x)

R0 == RInt(0)
R1 == RInt(1)
R2 == RInt(2)
RHalf == RRat(1, 2)
RPi == RAcos(RInt(-1))
RNaN == R0 \oslash R0
RInf == R1 \oslash R0
Deg2Rad(a) == (a \otimes RPi) \oslash RInt(180)
Rad2Deg(a) == (a \otimes RInt(180)) \oslash RPi
Sq(x) == x \otimes x

(* both NaN, the same infinity, or finite and at most tol apart *)
Near(x, y, tol) ==
  IF RIsFin(x) /\ RIsFin(y) THEN RAbs(x \ominus y) \preceq tol
  ELSE (RIsNaN(x) /\ RIsNaN(y)) \/ REq(x, y)
(* equal bit patterns up to the sign of zero and the payload of NaN *)
Same(x, y) == REq(x, y) \/ (RIsNaN(x) /\ RIsNaN(y))
RelTol(x, y, e) == e \otimes ((RAbs(x) \oplus RAbs(y)) \oplus RSci(1, -3))
NearRel(x, y, e) == Near(x, y, IF RIsFin(x) /\ RIsFin(y) THEN RelTol(x, y, e) ELSE R0)
==================================================================================
