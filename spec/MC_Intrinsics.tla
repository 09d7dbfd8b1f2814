------------------------------ MODULE MC_Intrinsics ------------------------------
(* Design model of the resolution of projection arguments: the arguments are handled   *)
(* step by step (image, centre, focal length in px, sensor, focal length in mm, field   *)
(* of view, completeness), exhaustively for every combination of arguments, and the     *)
(* result is compared with the declarative definition of Intrinsics.tla.  Every         *)
(* combination is exported and replayed on the real constructors.                      *)
EXTENDS Intrinsics, TLC, Json
CONSTANTS Export, KeepGiven        \* KeepGiven FALSE: a field of view overwrites the other axis
VARIABLES p, pc, q
vars == <<p, pc, q>>
Presence == [img : {"none", "tuple", "array"}, w : BOOLEAN, h : BOOLEAN, f : {"none", "one", "pair"}, fx : BOOLEAN, fy : BOOLEAN,
             mm : BOOLEAN, s : BOOLEAN, sw : BOOLEAN, sh : BOOLEAN, vx : BOOLEAN, vy : BOOLEAN, c : BOOLEAN, cx : BOOLEAN, cy : BOOLEAN]
Empty == [fx |-> "", fy |-> "", cx |-> "", cy |-> "", sw |-> "", sh |-> ""]
Init == p \in Presence /\ pc = "image" /\ q = Empty
Fail == pc' = "error" /\ q' = q
Go(l) == pc' = l
Image == /\ pc = "image"
         /\ IF (p.img # "none" /\ (p.w \/ p.h)) \/ (p.img = "none" /\ (~p.w \/ ~p.h)) THEN Fail ELSE Go("centre") /\ q' = q
Centre == /\ pc = "centre"
          /\ IF p.c /\ (p.cx \/ p.cy) THEN Fail
             ELSE /\ Go("focal")
                  /\ q' = [q EXCEPT !.cx = IF p.c THEN "c" ELSE IF p.cx THEN "cx" ELSE "half", !.cy = IF p.c THEN "c" ELSE IF p.cy THEN "cy" ELSE "half"]
Focal == /\ pc = "focal"
         /\ IF (Joint(p) /\ (p.fx \/ p.fy)) \/ ((Joint(p) \/ p.fx \/ p.fy) /\ p.mm) THEN Fail
            ELSE /\ Go("sensor")
                 /\ q' = [q EXCEPT !.fx = IF Joint(p) THEN "f1" ELSE IF p.fx THEN "fx" ELSE "", !.fy = IF Joint(p) THEN "f2" ELSE IF p.fy THEN "fy" ELSE ""]
Sensor == /\ pc = "sensor"
          /\ IF p.s /\ (p.sw \/ p.sh) THEN Fail
             ELSE /\ Go("mm")
                  /\ q' = [q EXCEPT !.sw = IF p.s THEN "s" ELSE IF p.sw THEN "sw" ELSE IF p.sh THEN "sh" ELSE "",
                                    !.sh = IF p.s THEN "s" ELSE IF p.sh THEN "sh" ELSE IF p.sw THEN "sw" ELSE ""]
MM == /\ pc = "mm"
      /\ IF p.mm /\ q.sw = "" THEN Fail
         ELSE Go("viewx") /\ q' = IF p.mm THEN [q EXCEPT !.fx = "mm", !.fy = "mm"] ELSE q
ViewX == /\ pc = "viewx"
         /\ IF p.vx /\ q.fx # "" THEN Fail
            ELSE /\ Go("viewy")
                 /\ q' = IF p.vx THEN [q EXCEPT !.fx = "vx", !.fy = IF ~p.vy /\ (q.fy = "" \/ ~KeepGiven) THEN "vx" ELSE @] ELSE q
ViewY == /\ pc = "viewy"
         /\ IF p.vy /\ q.fy # "" THEN Fail
            ELSE /\ Go("complete")
                 /\ q' = IF p.vy THEN [q EXCEPT !.fy = "vy", !.fx = IF ~p.vx /\ (q.fx = "" \/ ~KeepGiven) THEN "vy" ELSE @] ELSE q
Complete == /\ pc = "complete"
            /\ IF q.fx = "" \/ q.fy = "" THEN Fail
               ELSE Go("done") /\ q' = [q EXCEPT !.sw = IF @ = "" THEN "default" ELSE @, !.sh = IF @ = "" THEN "default" ELSE @]
Next == (Image \/ Centre \/ Focal \/ Sensor \/ MM \/ ViewX \/ ViewY \/ Complete) /\ p' = p
Agrees == /\ pc = "error" => Bad(p)
          /\ pc = "done" => ~Bad(p) /\ Resolve(p) = [ok |-> TRUE] @@ q
Ends == pc \notin {"error", "done"} => ENABLED Next
ASSUME Export => \A x \in Presence : PrintT("@CASE " \o ToJson(x))
===================================================================================
