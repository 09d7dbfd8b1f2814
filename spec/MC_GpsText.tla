-------------------------------- MODULE MC_GpsText --------------------------------
(* Design model of the coordinate text: (1) splitting a coordinate into degrees,      *)
(* minutes and seconds with rounding of the last number and carry; exhaustive over    *)
(* every tick (a tenth of a second) of some degrees; (2) the enumeration of all       *)
(* documented notations, exported as cases for the parser.                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxDeg, Carry, Export
VARIABLES v, f, phase, note
Tick == 36000                       \* ticks per degree
(* formats: n numbers, the last one rounded to r ticks *)
Formats == { [n |-> 1, r |-> 36], [n |-> 1, r |-> 3600], [n |-> 2, r |-> 6], [n |-> 2, r |-> 60], [n |-> 2, r |-> 600],
             [n |-> 3, r |-> 1], [n |-> 3, r |-> 5], [n |-> 3, r |-> 10] }
RoundTo(x, r) == ((2 * x + r) \div (2 * r)) * r
(* the algorithm: split first, round the last number, carry when it reaches 60 *)
Split(x, fm) ==
  LET deg == x \div Tick  minT == x % Tick  min == minT \div 600  secT == minT % 600
  IN  CASE fm.n = 1 -> <<RoundTo(x, fm.r)>>
        [] fm.n = 2 -> LET m == RoundTo(minT, fm.r)
                       IN IF m = Tick /\ Carry THEN <<deg + 1, 0>> ELSE <<deg, m>>
        [] fm.n = 3 -> LET s == RoundTo(secT, fm.r)
                           m2 == IF s = 600 /\ Carry THEN min + 1 ELSE min
                           s2 == IF s = 600 /\ Carry THEN 0 ELSE s
                       IN IF m2 = 60 /\ Carry THEN <<deg + 1, 0, s2>> ELSE <<deg, m2, s2>>
Join(p, fm) == CASE fm.n = 1 -> p[1] [] fm.n = 2 -> p[1] * Tick + p[2] [] fm.n = 3 -> p[1] * Tick + p[2] * 600 + p[3]
RoundTrip == phase = "split" => Join(Split(v, f), f) = RoundTo(v, f.r)
InRange == phase = "split" => LET p == Split(v, f)
                              IN  /\ (f.n = 2 => p[2] < Tick)
                                  /\ (f.n = 3 => p[2] < 60 /\ p[3] < 600)
(* ---- notations ---- *)
MinMarks == {"'", "p", "a", "q", ""}              \* ' prime acute quote none
SecMarks == {"''", "dq", "aa", "pp", "qq", "qd", " "}
Notes == { [n |-> n, mm |-> mm, sm |-> sm, gap |-> g, sep |-> s, sign |-> sg, kind |-> k] :
           n \in 1..3, mm \in MinMarks, sm \in SecMarks, g \in {0, 1, 2}, s \in {" ", ", ", "  ", "t"},
           sg \in {"letters", "minus", "latletter", "plus", "both"}, k \in {"single", "pair", "list", "high"} }
Valid(x) == /\ (x.n = 1 => x.mm = "'" /\ x.sm = "''")
            /\ (x.n = 2 => x.sm = "''")
            /\ (x.n = 3 => x.mm # "")
            /\ (x.kind = "single" => x.sep = " ")
            /\ (x.sign = "plus" => x.n = 1)
            /\ (x.kind = "single" => x.sign # "latletter")
ASSUME Export => \A x \in {y \in Notes : Valid(y)} : PrintT("@CASE " \o ToJson(x))
Init == v = 0 /\ f \in Formats /\ phase = "split" /\ note = <<>>
Next == v < MaxDeg * Tick /\ v' = v + 1 /\ UNCHANGED <<f, phase, note>>
===================================================================================
