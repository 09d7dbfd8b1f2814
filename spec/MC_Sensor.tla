---------------------------------- MODULE MC_Sensor ----------------------------------
(* Design model of the download: request, creation of a file, writing in pieces, and the   *)
(* step that makes it the database; the network, the disk or the process may fail before   *)
(* every step.  The database is absent or complete at all times, and a lookup after any    *)
(* number of failures works as soon as nothing fails.  Every history of lookups and faults *)
(* is exported and replayed on the real code.                                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Pieces, MaxOps, Direct, Export     \* Direct TRUE: the pieces are written to the database file itself
VARIABLES db, part, pc, ops, answer
vars == <<db, part, pc, ops, answer>>
Init == db = -1 /\ part = -1 /\ pc = "idle" /\ ops = <<>> /\ answer = "none"
(* db, part: number of pieces in the file, -1 if it does not exist *)
Call == /\ pc = "idle" /\ Len(ops) < MaxOps
        /\ \E f \in {"ok", "refused", "http", "disk", "kill"} : ops' = Append(ops, f)
        /\ pc' = IF db >= 0 THEN "read" ELSE "request"
        /\ UNCHANGED <<db, part, answer>>
Fault == ops[Len(ops)]
Give(a) == pc' = "idle" /\ answer' = a /\ UNCHANGED ops
Request == /\ pc = "request"
           /\ IF Fault \in {"refused", "http"} THEN Give("error") /\ UNCHANGED <<db, part>>
              ELSE /\ pc' = "write" /\ UNCHANGED <<ops, answer>>
                   /\ IF Direct THEN db' = 0 /\ UNCHANGED part ELSE part' = 0 /\ UNCHANGED db
Write == /\ pc = "write"
         /\ IF Fault \in {"disk", "kill"} /\ (IF Direct THEN db ELSE part) > 0
            THEN Give("error") /\ UNCHANGED <<db, part>>
            ELSE IF (IF Direct THEN db ELSE part) < Pieces
            THEN (IF Direct THEN db' = db + 1 /\ UNCHANGED part ELSE part' = part + 1 /\ UNCHANGED db) /\ UNCHANGED <<pc, ops, answer>>
            ELSE /\ pc' = "read" /\ UNCHANGED <<ops, answer>>
                 /\ IF Direct THEN UNCHANGED <<db, part>> ELSE db' = part /\ part' = -1
Read == pc = "read" /\ Give(IF db = Pieces THEN "found" ELSE "wrong") /\ UNCHANGED <<db, part>>
Remove == pc = "idle" /\ db >= 0 /\ db' = -1 /\ Len(ops) < MaxOps /\ ops' = Append(ops, "remove") /\ UNCHANGED <<part, pc, answer>>
Next == Call \/ Request \/ Write \/ Read \/ Remove
NeverWrong == answer # "wrong"
Complete == pc = "idle" => db \in {-1, Pieces}
Works == (pc = "idle" /\ Len(ops) > 0 /\ ops[Len(ops)] = "ok") => answer = "found"
Inv == NeverWrong /\ Complete /\ Works
Kinds == {"ok", "refused", "http", "disk", "kill", "remove"}
ASSUME Export => \A n \in 1..MaxOps : \A s \in [1..n -> Kinds] : PrintT("@CASE " \o ToJson(s))
======================================================================================
