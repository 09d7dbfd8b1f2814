------------------------------------ MODULE Info ------------------------------------
(* What the plot of the fit information and the summary of a trace show (C27).          *)
EXTENDS Maps

SizeAt(t, i) == t.size[((i - 1) % Len(t.size)) + 1]
SameOrNaN(p, q) == \A k \in 1..2 : Same(p[k], q[k]) \/ Near(p[k], q[k], RSci(1, -6))
(* where the ray of a pixel meets the plane Z *)
GroundPoint(c, p, Z) == LET h == HitAt(c, p, Z) IN [ok |-> h.front, hidden |-> h.sure /\ ~h.front, x |-> <<h.x, h.y, Z>>, tol |-> h.tol]
(* the pixel of a space point that is known up to d: state "at", "hidden" or "unknown" *)
PixelOf(c, x, d) ==
  LET q == CameraFromSpace(c, x)
      dd == d \oplus TolCam(c, x)
      clear == IF c.proj = "rect" THEN RAbs(q[3]) \succ (RInt(100) \otimes dd)
               ELSE Rho(q) \succ (RInt(100) \otimes dd) /\ ~AtSeam(c, ProjRaw(c, q))
      tol == TolLens(c, ProjRaw(c, q), TolProj(c, q, dd))
      px == Distort(c, ProjRaw(c, q))
  IN  IF ~clear \/ ~AllFin(px) \/ ~(tol \prec RRat(1, 2)) THEN [st |-> "unknown", p |-> <<R0, R0>>, tol |-> R0]
      ELSE IF Behind(c, q) THEN [st |-> "hidden", p |-> <<R0, R0>>, tol |-> R0]
      ELSE [st |-> "at", p |-> px, tol |-> tol \oplus RSci(1, -6)]
Nowhere(h) == [st |-> IF h THEN "hidden" ELSE "unknown", p |-> <<R0, R0>>, tol |-> R0]
(* the prediction of the i-th pair of an information: t.kind, t.a, t.b, t.size, t.Z; lm and hor: recorded public results *)
Predicted(c, t, i) ==
  CASE t.kind = "height" ->
         LET f == GroundPoint(c, t.a[i], R0)
             h == SizeAt(t, i)
         IN  IF ~f.ok THEN Nowhere(f.hidden) ELSE PixelOf(c, <<f.x[1], f.x[2], h>>, f.tol)
    [] t.kind = "length" ->
         LET f == GroundPoint(c, t.a[i], t.Z)
             g == GroundPoint(c, t.b[i], t.Z)
             d == V3Sub(g.x, f.x)
             n == V3Len(d)
             far == SizeAt(t, i)
             tol == (f.tol \oplus ((f.tol \oplus g.tol) \otimes (R1 \oplus (far \oslash n))))
         IN  IF ~f.ok \/ ~g.ok THEN Nowhere(f.hidden \/ g.hidden)
             ELSE IF ~(n \succ (RInt(10) \otimes (f.tol \oplus g.tol))) THEN Nowhere(FALSE)
             ELSE PixelOf(c, V3Add(f.x, V3Scale(far \oslash n, d)), tol)
    [] t.kind = "landmark" -> IF AllFin(t.lm[i]) THEN PixelOf(c, t.lm[i], R0) ELSE Nowhere(FALSE)
    [] t.kind = "horizon" -> IF AllFin(t.hor[i]) THEN [st |-> "at", p |-> t.hor[i], tol |-> RSci(1, -6)] ELSE Nowhere(TRUE)
(* the end of the connecting line that is not the prediction *)
From(t, i) == IF t.kind = "height" THEN t.b[i] ELSE t.a[i]
Measured(t) == {t.a[i] : i \in DOMAIN t.a} \cup {t.b[i] : i \in DOMAIN t.b}
At(p, q, tol) == AllFin(q) /\ NearSeq(q, p, tol)
Small == RSci(1, -6)
InfoJudge(c, ts, e) ==
  IF ~e.ok THEN {"C27.call"}
  ELSE LET items == {<<j, i>> : j \in DOMAIN ts, i \in 1..20}
           all == {ji \in items : ji[2] \in DOMAIN ts[ji[1]].a}
           pred == [ji \in all |-> Predicted(c, ts[ji[1]], ji[2])]
           marks == {e.marks[k] : k \in DOMAIN e.marks}
           rings == {e.rings[k] : k \in DOMAIN e.rings}
           segs == {e.segs[k] : k \in DOMAIN e.segs}
           measured == UNION {Measured(ts[j]) : j \in DOMAIN ts}
           horizon == \E j \in DOMAIN ts : ts[j].kind = "horizon"
       IN  Chk("C27.measured", \A m \in measured : \E p \in marks : At(m, p, Small)) \cup
           Chk("C27.strayMeasured", e.cleared \/ \A p \in marks : \E m \in measured : At(m, p, Small)) \cup
           Chk("C27.predicted", \A ji \in all : pred[ji].st = "at" => \E p \in rings : At(pred[ji].p, p, pred[ji].tol)) \cup
           Chk("C27.strayPredicted", e.cleared \/ (\E ji \in all : pred[ji].st = "unknown") \/
                  \A p \in rings : ~AllFin(p) \/ \E ji \in all : pred[ji].st = "at" /\ At(pred[ji].p, p, pred[ji].tol)) \cup
           Chk("C27.hidden", e.cleared \/ Cardinality({k \in DOMAIN e.rings : AllFin(e.rings[k])}) <= Cardinality({ji \in all : pred[ji].st # "hidden"})) \cup
           Chk("C27.joined", \A ji \in all : pred[ji].st = "at" =>
                  \E sg \in segs : At(From(ts[ji[1]], ji[2]), sg[1], Small) /\ At(pred[ji].p, sg[2], pred[ji].tol)) \cup
           Chk("C27.strayLine", e.cleared \/ \A sg \in segs : \E ji \in all : At(From(ts[ji[1]], ji[2]), sg[1], Small) \/ At(From(ts[ji[1]], ji[2]), sg[2], Small)) \cup
           Chk("C27.horizon", ~horizon \/ \E k \in DOMAIN e.dashes : Len(e.dashes[k]) = Len(e.line) /\ \A i \in DOMAIN e.line : SameOrNaN(e.dashes[k][i], e.line[i])) \cup
           Chk("C27.frame", NearSeq(e.xlim, <<R0, c.w>>, Small) /\ NearSeq(e.ylim, <<c.h, R0>>, Small)) \cup
           Chk("C27.image", e.image = e.wantimage)

(* the summary: a line for every sampled parameter, rounded as far as the deviation allows *)
Log10Floor(y) == IF RAbs(y) \preceq R0 THEN 0 ELSE RRound(RFloor(RLog(RAbs(y)) \oslash RLog(RInt(10))))
Pow10(n) == RSci(1, n)
MeanOf(x) == RSum(x) \oslash RInt(Len(x))
DevOf(x, ddof) == LET m == MeanOf(x) IN RSqrt(RSum([i \in DOMAIN x |-> Sq(x[i] \ominus m)]) \oslash RInt(Len(x) - ddof))
SummaryJudge(tr, e) ==
  IF ~e.ok THEN {"C27.summaryCall"}
  ELSE Chk("C27.summaryRows", e.n = Len(tr.rows) /\ e.names = tr.cols) \cup
       UNION { LET x == [j \in DOMAIN tr.rows |-> IF k \in DOMAIN e.log /\ e.log[k] THEN RExp(tr.rows[j][k]) ELSE tr.rows[j][k]]
                   m == MeanOf(x)
                   ss == {DevOf(x, 0)} \cup (IF Len(x) > 1 THEN {DevOf(x, 1)} ELSE {})
                   tiny == RSci(1, -12) \otimes (R1 \oplus RAbs(m))
               IN  Chk("C27.summaryMean", \E s \in ss : Near(e.mean[k], m, tiny \oplus (RRat(51, 100) \otimes (IF s \preceq tiny THEN R0 ELSE Pow10(Log10Floor(s)))))) \cup
                   Chk("C27.summaryDeviation", \E s \in ss : Near(e.std[k], s, tiny \oplus (RRat(51, 1000) \otimes (IF s \preceq tiny THEN R0 ELSE Pow10(Log10Floor(s))))))
             : k \in (DOMAIN tr.cols) \cap (DOMAIN e.mean) }
(* the trace plot: for every column the values in their order, their mean, and the value of the most probable row *)
TracePlotJudge(tr, e) ==
  IF ~e.ok THEN {"C27.traceCall"}
  ELSE LET best == {i \in DOMAIN tr.prob : \A j \in DOMAIN tr.prob : tr.prob[j] \preceq tr.prob[i]}
       IN  Chk("C27.traceColumns", e.names = SubSeq(tr.cols, 1, Len(e.names)) /\ Len(e.names) = (IF e.N < Len(tr.cols) THEN e.N ELSE Len(tr.cols))) \cup
           UNION { LET x == [j \in DOMAIN tr.rows |-> tr.rows[j][k]]
                       shown == [j \in 1..((Len(x) + e.skip - 1) \div e.skip) |-> x[(j - 1) * e.skip + 1]]
                       tiny == RSci(1, -9) \otimes (R1 \oplus RAbs(MeanOf(x)))
                       has(v, l) == \E i \in DOMAIN l : Near(l[i], v, tiny)
                       only(l) == \A i \in DOMAIN l : Near(l[i], MeanOf(x), tiny) \/ \E b \in best : REq(l[i], x[b])
                   IN  (IF e.just THEN {} ELSE Chk("C27.traceValues", e.lines[k] = shown)) \cup
                       Chk("C27.traceMean", e.marked => has(MeanOf(x), e.v[k]) /\ (e.just \/ has(MeanOf(x), e.h[k]))) \cup
                       Chk("C27.traceBest", e.marked => (\E b \in best : has(x[b], e.v[k])) /\ (e.just \/ \E b \in best : has(x[b], e.h[k]))) \cup
                       Chk("C27.traceStray", only(e.v[k]) /\ only(e.h[k]) /\ (e.marked \/ Len(e.v[k]) + Len(e.h[k]) = 0))
                 : k \in (DOMAIN e.names) \cap (DOMAIN tr.cols) }
====================================================================================
