----------------------------------- MODULE T_Scene -----------------------------------
(* Trace specification of scenes: the camera and the objects of a scene are the state,    *)
(* every plot is judged in it (C28).                                                      *)
EXTENDS Scene, Json
VARIABLES l, st

Res(s, f) == [st |-> s, fails |-> f]
Step(s, e) ==
  CASE e.k = "reset" -> Res([cam |-> <<>>, objs |-> <<>>], {})
    [] e.k = "setcam" -> Res([s EXCEPT !.cam = <<e.c>>], Chk("C28.call", e.ok))
    [] e.k = "add" -> Res([s EXCEPT !.objs = Append(@, e.o)], AddJudge(e.o, e))
    [] e.k = "views" -> Res(s, ViewsJudge(s, e))
    [] e.k = "render" -> Res(s, RenderJudge(s, e))
    [] e.k = "myepi" -> Res(s, MyEpiJudge(e))
    [] e.k = "correpi" -> Res(s, CorrEpiJudge(e))
Start == [cam |-> <<>>, objs |-> <<>>]
Trace == ndJsonDeserialize("trace.ndjson")
INSTANCE TraceRun
===================================================================================
