--------------------------------- MODULE TraceRun ---------------------------------
(* Trace validation: the recorded events are consumed one by one by the total       *)
(* operator Step(state, event) of the specification, which returns the next state    *)
(* and the names of the violated clauses.  Every event is judged; a violated clause  *)
(* is reported and the specification goes on with the state it prescribes.           *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Trace, Step(_, _), Start
VARIABLES l, st
TInit == l = 1 /\ st = Start
TNext == /\ l <= Len(Trace)
         /\ LET r == Step(st, Trace[l])
            IN  /\ IF r.fails = {} THEN TRUE ELSE PrintT(<<"@FAIL", l, r.fails>>)
                /\ st' = r.st
         /\ l' = l + 1
TAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===================================================================================
