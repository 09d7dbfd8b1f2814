----------------------------------- MODULE Chain -----------------------------------
(* The Metropolis chain and the fit, judged from the outside: the positions at which the  *)
(* target was evaluated, and the rows or the solution returned.  Whether a less probable  *)
(* proposal is accepted is not visible before the first recorded row, so the judge keeps  *)
(* the set of all states the chain may be in (CUR).                                       *)
EXTENDS Arith, Obs

NegInf == RNeg(RInf)
SameSeqR(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(a[i], b[i])
SamePlace(a, b) == SameSeqR(a.p, b.p) /\ Same(a.lp, b.lp)
(* the states the chain may be in after proposal q in state c *)
Moves(c, q) ==
  IF REq(c.lp, NegInf) /\ REq(q.lp, NegInf) THEN {c, q}
  ELSE IF q.lp \succeq c.lp THEN {q}
  ELSE IF REq(q.lp, NegInf) \/ RIsNaN(q.lp) \/ ((q.lp \ominus c.lp) \prec RInt(-740)) THEN {c}
  ELSE {c, q}
InBounds(p, lo, hi) == \A i \in DOMAIN lo : lo[i] \preceq p[i] /\ p[i] \preceq hi[i]

(* target known to the specification: normal densities without their constants, and walls   *)
(*   t.n: sequence of [i, c, s] with -((p[i]-c)/s)^2/2;  t.w: sequence of [i, lo, hi]: zero  *)
(*   probability outside                                                                     *)
Target(t, p) ==
  IF \E k \in DOMAIN t.w : ~(t.w[k].lo \preceq p[t.w[k].i] /\ p[t.w[k].i] \preceq t.w[k].hi) THEN NegInf
  ELSE RSum([k \in DOMAIN t.n |-> RNeg(Sq((p[t.n[k].i] \ominus t.n[k].c) \oslash t.n[k].s) \oslash R2)])
TargetOk(t, p, lp) ==
  LET w == Target(t, p)
  IN  IF RIsFin(w) THEN Near(lp, w, RSci(1, -9) \otimes (R1 \oplus RAbs(w))) ELSE REq(lp, w)

(* ------------------------------ the chain ------------------------------ *)
Prop(e, i) == e.calls[(Len(e.calls) - e.it) + i]
RECURSIVE Walk(_, _, _)
(* CUR: the possible states before the i-th proposal; returns whether the rows can be explained *)
Walk(e, i, CUR) ==
  IF i > e.it THEN TRUE
  ELSE LET m == Len(e.rows)
           nxt == UNION {Moves(c, Prop(e, i)) : c \in CUR}
           j == i - (e.it - m)
           hit == IF j < 1 THEN nxt ELSE {c \in nxt : SamePlace(c, e.rows[j])}
       IN  hit # {} /\ Walk(e, i + 1, hit)
(* number of less probable proposals, accepted ones, and their expectation and variance *)
Down(e) ==
  LET m == Len(e.rows)
      q(j) == Prop(e, (e.it - m) + j)
      at == {j \in 2..m : RIsFin(q(j).lp) /\ RIsFin(e.rows[j-1].lp) /\ (q(j).lp \prec e.rows[j-1].lp)}
      P == [j \in at |-> RExp(q(j).lp \ominus e.rows[j-1].lp)]
      A == [j \in at |-> IF SamePlace(e.rows[j], q(j)) THEN R1 ELSE R0]
  IN  [at |-> at, P |-> P, A |-> A]
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN R0 ELSE LET j == CHOOSE x \in S : TRUE IN f[j] \oplus SumOver(f, S \ {j})
Rate(e) ==
  LET d == Down(e)
      ok(S) == LET a == SumOver(d.A, S)  p == SumOver(d.P, S)
                   v == SumOver([j \in S |-> d.P[j] \otimes (R1 \ominus d.P[j])], S)
               IN  RAbs(a \ominus p) \preceq (RInt(3) \oplus (RInt(6) \otimes RSqrt(v)))
      low == {j \in d.at : d.P[j] \prec RRat(1, 5)}
      high == {j \in d.at : d.P[j] \succ RRat(3, 5)}
  IN  ok(low) /\ ok(high) /\ ok(d.at \ (low \cup high)) /\ ok(d.at)

(* one long chain: the log ratios of the less probable proposals and whether they were accepted, and the *)
(* moves proposed in units of the step (without bounds: normal, the step is adapted in the burn-in only)  *)
RateJudge(e) ==
  LET n == Len(e.dl)
      P == [j \in 1..n |-> RExp(e.dl[j])]
      bin(a, b) == LET in(j) == a \preceq P[j] /\ P[j] \prec b
                       exp == RSum([j \in 1..n |-> IF in(j) THEN P[j] ELSE R0])
                       var == RSum([j \in 1..n |-> IF in(j) THEN P[j] \otimes (R1 \ominus P[j]) ELSE R0])
                       acc == RSum([j \in 1..n |-> IF in(j) THEN RInt(e.acc[j]) ELSE R0])
                   IN  RAbs(acc \ominus exp) \preceq (RInt(3) \oplus (RInt(6) \otimes RSqrt(var)))
  IN  IF ~e.ok THEN {Tag(e.pid, "call")}
      ELSE Chk(Tag(e.pid, "ratio"), bin(R0, RRat(1, 20)) /\ bin(RRat(1, 20), RRat(1, 4)) /\ bin(RRat(1, 4), RRat(1, 2))
                                    /\ bin(RRat(1, 2), RRat(4, 5)) /\ bin(RRat(4, 5), R2)) \cup
           Chk(Tag(e.pid, "stepsize"), \A k \in DOMAIN e.z :
             LET m == RInt(Len(e.z[k]))
             IN  /\ RAbs(RSum(e.z[k]) \oslash m) \preceq (RInt(6) \oslash RSqrt(m))
                 /\ RAbs((RSum([i \in DOMAIN e.z[k] |-> Sq(e.z[k][i])]) \oslash m) \ominus R1) \preceq (RInt(6) \otimes RSqrt(R2 \oslash m)))

(* the moves proposed from the recorded rows in units of the step, in the columns without bounds    *)
(* (the step is only adapted after the 200th iteration of the burn-in)                              *)
StepSize(e) ==
  LET m == Len(e.rows)
      z(i) == [j \in 1..(m - 1) |-> (Prop(e, (e.it - m) + j + 1).p[i] \ominus e.rows[j].p[i]) \oslash e.step[i]]
      ms(i) == RSum([j \in 1..(m - 1) |-> Sq(z(i)[j])]) \oslash RInt(m - 1)
  IN  (m > 30 /\ e.burn < 200) => \A i \in DOMAIN e.step :
        (REq(e.lo[i], NegInf) /\ REq(e.hi[i], RInf)) => (IF m > 60 THEN RRat(3, 10) \prec ms(i) /\ ms(i) \prec RRat(23, 10) ELSE RRat(3, 20) \prec ms(i) /\ ms(i) \prec RRat(33, 10))
(* the additional values of every position are a row of the given trace, and all of its rows are used *)
Prior(e) ==
  Len(e.pri) > 0 =>
    LET d == Len(e.lo) - Len(e.pri[1])
        of(c) == SubSeq(c.p, d + 1, Len(c.p))
    IN  /\ \A i \in DOMAIN e.calls : \E j \in DOMAIN e.pri : SameSeqR(of(e.calls[i]), e.pri[j])
        /\ e.it >= 30 * Len(e.pri) => \A j \in DOMAIN e.pri : \E i \in DOMAIN e.calls : SameSeqR(of(e.calls[i]), e.pri[j])

ChainJudge(e) ==
  LET T(x) == Tag(e.pid, x)
      m == Len(e.rows)
  IN  IF ~e.ok THEN {T("call")}
      ELSE Chk(T("columns"), e.cols = e.want) \cup
           Chk(T("count"), m \in {e.it - e.burn, e.it - e.burn - 1}) \cup
           Chk(T("bounds"), \A j \in 1..m : InBounds(e.rows[j].p, e.lo, e.hi)) \cup
           Chk(T("probability"), \A j \in 1..m : (e.exact => TargetOk(e.tgt, e.rows[j].p, e.rows[j].lp))
                                              /\ (Len(e.re) = m => Near(e.rows[j].lp, e.re[j], RSci(1, -9) \otimes (R1 \oplus RAbs(e.re[j]))))) \cup
           Chk(T("zero"), \A j \in 2..m : RIsFin(e.rows[j-1].lp) => RIsFin(e.rows[j].lp)) \cup
           (IF Len(e.calls) = 0 \/ m > e.it THEN {}
            ELSE IF Len(e.calls) <= e.it THEN {T("proposals")}
            ELSE Chk(T("stepsize"), StepSize(e)) \cup
                 Chk(T("prior"), Prior(e)) \cup
                 Chk(T("step"), Walk(e, 1, {e.calls[Len(e.calls) - e.it]})) \cup
                 Chk(T("rate"), Rate(e)))

(* the sampler of another package: it is given the variables (the fitted parameters and the additional *)
(* ones), and asks for the probability at values it chooses (e.evals); the trace are the samples it    *)
(* returns (e.kept)                                                                                    *)
FridgeJudge(e) ==
  LET T(x) == Tag(e.pid, x)
  IN  IF ~e.ok THEN {T("call")}
      ELSE Chk(T("model"), e.given /\ \A i \in DOMAIN e.evals : TargetOk(e.tgt, e.evals[i].p, e.evals[i].lp)) \cup
           Chk(T("columns"), e.cols = e.want) \cup
           Chk(T("samples"), Len(e.rows) = Len(e.kept) /\ \A i \in DOMAIN e.rows : SameSeqR(e.rows[i].p, e.kept[i])) \cup
           Chk(T("probability"), \A i \in DOMAIN e.rows : TargetOk(e.tgt, e.rows[i].p, e.rows[i].lp))

(* ------------------------------ the fit ------------------------------ *)
(* e.start: starting position, e.x: solution, e.fun: the value returned for it, e.feasible: is there *)
(* enough room with non-zero probability for a start to be found                                     *)
FitJudge(e) ==
  LET T(x) == Tag(e.pid, x)
      LP(p) == Target(e.tgt, p)
  IN  IF ~e.feasible THEN Chk(T("noStart"), ~e.ok /\ e.err = "ValueError")
      ELSE IF ~e.ok THEN {T("call")}
      ELSE Chk(T("bounds"), InBounds(e.x, e.lo, e.hi) /\ \A i \in DOMAIN e.calls : InBounds(e.calls[i].p, e.lo, e.hi)) \cup
           Chk(T("solution"), IF e.exact THEN RIsFin(LP(e.x)) /\ Near(RNeg(e.fun), LP(e.x), RSci(1, -9) \otimes (R1 \oplus RAbs(LP(e.x))))
                              ELSE RIsFin(e.lpx) /\ Near(RNeg(e.fun), e.lpx, RSci(1, -9) \otimes (R1 \oplus RAbs(e.lpx)))) \cup
           Chk(T("notWorse"), IF e.exact THEN RIsFin(LP(e.start)) => LP(e.x) \succeq (LP(e.start) \ominus (RSci(1, -9) \otimes (R1 \oplus RAbs(LP(e.start)))))
                              ELSE RIsFin(e.lp0) => e.lpx \succeq (e.lp0 \ominus (RSci(1, -9) \otimes (R1 \oplus RAbs(e.lp0)))))
(* the starts drawn when none is valid: columns of draws in units of their distribution            *)
(* (mean 0, deviation 1), within the bounds                                                         *)
DrawJudge(e) ==
  LET n == Len(e.z[1])
      six == RInt(6) \oslash RSqrt(RInt(n))
      avg(x) == RSum(x) \oslash RInt(n)
      mom(x, y) == RSum([i \in 1..n |-> x[i] \otimes y[i]]) \oslash RInt(n)
  IN  Chk(Tag(e.pid, "draws"),
          /\ n >= 20
          /\ \A k \in DOMAIN e.z : RAbs(avg(e.z[k])) \preceq six
          /\ \A k \in DOMAIN e.z : RAbs(mom(e.z[k], e.z[k]) \ominus R1) \preceq (R2 \otimes six)
          /\ \A k \in DOMAIN e.z : \A i \in 1..n : RAbs(e.z[k][i]) \preceq e.zmax[k]
          /\ \A j, k \in DOMAIN e.z : j < k => RAbs(mom(e.z[j], e.z[k])) \preceq six)
====================================================================================
