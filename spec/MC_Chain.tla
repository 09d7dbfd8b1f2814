---------------------------------- MODULE MC_Chain ----------------------------------
(* Design model of the Metropolis chain: a target with small integer log probabilities    *)
(* (0 stands for zero probability), every sequence of proposals and every decision the    *)
(* rule allows.  Every behaviour's sequence of proposal classes is exported and replayed:  *)
(* a scripted target makes the real chain face the same proposals.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Len0, Export, ZeroRule    \* ZeroRule FALSE: zero probability counts as any lower probability
VARIABLES burn, cur, script, trace, seen, started
vars == <<burn, cur, script, trace, seen, started>>
(* log probabilities: 0 = impossible, otherwise larger is more probable *)
Classes == {"up", "same", "down", "zero"}
PropLp(c, k) == CASE k = "up" -> c + 1 [] k = "same" -> c [] k = "down" -> IF c > 1 THEN c - 1 ELSE c [] k = "zero" -> 0
Init == /\ burn \in 0..2 /\ cur \in {[id |-> 0, lp |-> x] : x \in {0, 2}}
        /\ script = <<>> /\ trace = <<>> /\ seen = <<cur>> /\ started = cur.lp
(* may a proposal with probability q be refused / taken in a state with probability c *)
MayTake(c, q) == q >= c \/ q > 0 \/ ~ZeroRule
MayStay(c, q) == q < c
Step(k) ==
  LET i == Len(script)
      q == [id |-> i + 1, lp |-> PropLp(cur.lp, k)]
      rec(s) == IF i > burn THEN Append(trace, s) ELSE trace
  IN  /\ i < Len0
      /\ script' = Append(script, k)
      /\ seen' = Append(seen, q)
      /\ \/ MayTake(cur.lp, q.lp) /\ cur' = q /\ trace' = rec(q)
         \/ MayStay(cur.lp, q.lp) /\ cur' = cur /\ trace' = rec(cur)
      /\ UNCHANGED <<burn, started>>
Next == \E k \in Classes : Step(k)
(* ------------------------------ properties ------------------------------ *)
RowsAreEvaluated == \A j \in DOMAIN trace : trace[j] \in {seen[i] : i \in DOMAIN seen}
NeverLost == started > 0 => cur.lp > 0
RowCount == Len(trace) = IF Len(script) > burn + 1 THEN Len(script) - burn - 1 ELSE 0
Uphill == \A j \in 2..Len(trace) : LET i == burn + 1 + j IN seen[i + 1].lp > trace[j-1].lp => trace[j] = seen[i + 1]
MovesOnly == \A j \in 2..Len(trace) : LET i == burn + 1 + j IN trace[j] \in {trace[j-1], seen[i + 1]}
Inv == RowsAreEvaluated /\ NeverLost /\ RowCount /\ Uphill /\ MovesOnly
Scripts == [1..Len0 -> Classes]
ASSUME Export => \A b \in 0..2 : \A s \in Scripts : \A z \in {0, 2} : PrintT("@CASE " \o ToJson([burn |-> b, script |-> s, start |-> z]))
=====================================================================================
