---------------------------------- MODULE MC_Maps ----------------------------------
(* Design model of the images that a camera keeps (top view, undistorted image): a call is  *)
(* answered from the kept map if the key of the call equals that of the kept one.  Between  *)
(* calls the camera changes or is loaded again, the caller passes other arguments or        *)
(* changes the list of the extent he passed before, and another camera is asked.  Every     *)
(* answer must be the map of the camera and the arguments of this call.  Every history of   *)
(* operations is exported and replayed on the real code.                                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxOps, Fault, Export
VARIABLES cam, args, kept, ops, got
vars == <<cam, args, kept, ops, got>>
Aspects == {"pose", "turn", "focal", "center", "lens"}
ArgOps == {"extent", "slide", "scaling", "Z", "hide"}
Names == {"extent", "scaling", "Z", "hide"}
Kinds == Aspects \cup ArgOps \cup {"load", "call", "other"}
Nothing == [full |-> FALSE, key |-> <<>>, map |-> <<>>, alias |-> FALSE]
Init == /\ cam = [c \in 1..2 |-> [a \in Aspects |-> c - 1]]
        /\ args = [n \in Names |-> 0]
        /\ kept = [c \in 1..2 |-> Nothing] /\ ops = <<>> /\ got = <<TRUE, 0>>
(* what two calls have to agree in to share the map; a faulty design forgets one part of it *)
Key(c) == [x \in (IF Fault = "shared" THEN Names ELSE Names \cup Aspects) \ {Fault} |-> IF x \in Names THEN args[x] ELSE cam[c][x]]
Slot(c) == IF Fault = "shared" THEN 1 ELSE c
Map(c) == [x \in Names \cup Aspects |-> IF x \in Names THEN args[x] ELSE cam[c][x]]
Did(o) == Len(ops) < MaxOps /\ ops' = Append(ops, o)
Call(o, c) == /\ Did(o) /\ UNCHANGED <<cam, args>>
              /\ LET s == Slot(c) IN
                 IF kept[s].full /\ kept[s].key = Key(c)
                 THEN got' = <<kept[s].map = Map(c), Len(ops')>> /\ UNCHANGED kept
                 ELSE got' = <<TRUE, Len(ops')>> /\ kept' = [kept EXCEPT ![s] = [full |-> TRUE, key |-> Key(c), map |-> Map(c), alias |-> TRUE]]
Change(a) == Did(a) /\ cam' = [cam EXCEPT ![1][a] = 1 - @] /\ UNCHANGED <<args, kept, got>>
Load == Did("load") /\ cam' = [cam EXCEPT ![1] = [a \in Aspects |-> 0]] /\ UNCHANGED <<args, got>> /\ kept' = kept
Arg(n) == /\ Did(n) /\ args' = [args EXCEPT ![n] = 1 - @] /\ UNCHANGED <<cam, got>>
          /\ kept' = IF n = "extent" THEN [c \in 1..2 |-> [kept[c] EXCEPT !.alias = FALSE]] ELSE kept
(* the caller changes his list: a key that refers to it follows *)
Slide == /\ Did("slide") /\ args' = [args EXCEPT !["extent"] = 1 - @] /\ UNCHANGED <<cam, got>>
         /\ kept' = IF Fault # "reference" THEN kept
                    ELSE [c \in 1..2 |-> IF kept[c].full /\ kept[c].alias THEN [kept[c] EXCEPT !.key["extent"] = 1 - @] ELSE kept[c]]
Next == Call("call", 1) \/ Call("other", 2) \/ Load \/ Slide \/ (\E a \in Aspects : Change(a)) \/ (\E n \in Names : Arg(n))
Right == got[1]
ASSUME Export => \A n \in 1..MaxOps : \A s \in [1..n -> Kinds] : PrintT("@CASE " \o ToJson(s))
======================================================================================
