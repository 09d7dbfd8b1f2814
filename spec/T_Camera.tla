--------------------------------- MODULE T_Camera ---------------------------------
(* Trace specification of a single camera: every public transformation call of the   *)
(* implementation is an event and is judged against the camera model.                *)
(* State: the effective parameters of the current camera.                            *)
EXTENDS CameraJudge, Json
VARIABLES l, st

(* ----------------------- C04: batches, containers, arguments ----------------------- *)
(* e.many: the batch call, e.ones: the single calls, e.before/e.after: flattened arguments *)
Batch(e) ==
  (IF ~e.many.ok \/ \E i \in DOMAIN e.ones : ~e.ones[i].ok THEN {"C04.call"}
   ELSE Chk("C04.shape", e.many.shape = e.shape) \cup
        Chk("C04.single", \A i \in DOMAIN e.ones : e.ones[i].shape = Tail(e.shape)) \cup
        (IF e.many.shape = e.shape /\ \A i \in DOMAIN e.ones : e.ones[i].shape = Tail(e.shape)
         THEN Chk("C04.values", \A i \in DOMAIN e.ones :
                    NearSeqRel(SubSeq(e.many.v, (i - 1) * e.kk + 1, i * e.kk), e.ones[i].v, RSci(1, -6)))
         ELSE {})) \cup
  Chk("C04.arguments", Len(e.before) = Len(e.after) /\ \A i \in DOMAIN e.before : SameSeq(e.before[i], e.after[i]))
(* the same call with the points in another container *)
Variant(e) ==
  IF ~e.o.ok \/ ~e.ref.ok THEN {"C04.container"}
  ELSE Chk("C04.container", e.o.shape = e.ref.shape /\ NearSeqRel(e.o.v, e.ref.v, RSci(1, -9))) \cup
       Chk("C04.arguments", Len(e.before) = Len(e.after) /\ \A i \in DOMAIN e.before : SameSeq(e.before[i], e.after[i]))

Judge(c, e) ==
  CASE e.k = "img" -> Img(c, e)
    [] e.k = "ray" -> Ray(c, e)
    [] e.k = "cfs" -> Cfs(c, e)
    [] e.k = "sfc" -> Sfc(c, e)
    [] e.k = "proj" -> Proj(c, e)
    [] e.k = "projray" -> ProjRay(c, e)
    [] e.k = "space" -> Space(c, e)
    [] e.k = "lens" -> Lens(c, e)
    [] e.k = "lenspair" -> LensPair(c, e)
    [] e.k = "batch" -> Batch(e)
    [] e.k = "variant" -> Variant(e)
    [] e.k = "refuse" -> Chk("C04.refused", e.refused)     \* points that are none are not answered

Step(s, e) == IF e.k = "camera" THEN [st |-> e.c, fails |-> {}]
              ELSE [st |-> s, fails |-> Judge(s, e)]
Start == <<>>
Trace == ndJsonDeserialize("trace.ndjson")
INSTANCE TraceRun
===================================================================================
