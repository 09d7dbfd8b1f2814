---------------------------------- MODULE MC_Store ----------------------------------
(* Design model of the parameter store (Store) and of the derived quantities of the       *)
(* implementation.  Values are small integers.  Every part keeps a snapshot of what it     *)
(* derived from its parameters (rotation and position of an orientation, inverse and        *)
(* scale of a lens); a change re-derives the parts whose callbacks it fires.                *)
(* Checked for every sequence of operations of a small set-up:                              *)
(*   Fresh    no snapshot survives the change of a parameter it depends on        (C05)     *)
(*   Meaning  a parameter is what the history says: independent of the store, the value,    *)
(*            mean and set-by-user mark are computed by looking back in the history         *)
(*            (C06, C19)                                                                     *)
(*   Loaded   a loaded camera has the values it had when it was saved             (C07)     *)
(*   Views    all views of a parameter are the same cell; a group names exactly the          *)
(*            parameters of its parts                                             (C23)     *)
(* Fault selects a faulty design, which must violate Fresh.  The sequences are exported      *)
(* and replayed on real cameras.                                                             *)
EXTENDS Store, Integers, Json
CONSTANTS Topo, Len0, Fault, Export
VARIABLES st, snap, hist, saved, init
vars == <<st, snap, hist, saved, init>>

(* ------------------------------ the set-ups ------------------------------ *)
Zero == <<0>>
Given(kind) == [n \in PartNames(kind) |->
   IF n \in {"focallength_x_px", "focallength_y_px", "focallength_px", "center_x_px", "center_y_px", "image_width_px", "image_height_px",
             "tilt_deg", "yaw_deg", "k1", "a"} THEN <<5>> ELSE None]
Df(n) == IF n \in ProjNames \ {"center_x_px", "center_y_px", "sensor_width_mm", "sensor_height_mm"} THEN None ELSE <<9>>
Deft(kind) == [n \in PartNames(kind) |-> Df(n)]
P(s, id, kind) == AddPart(s, id, kind, Given(kind), Deft(kind))
Start ==
  CASE Topo = 1 -> AddCam(P(P(P(EmptyStore, "P1", "rect"), "O1", "thr"), "L1", "brown"), "K1", "K1", "P1", "O1", "L1", Zero)
    [] Topo = 2 -> LET s == P(P(P(P(P(EmptyStore, "P1", "rect"), "P2", "cyl"), "O1", "thr"), "L1", "brown"), "L2", "none")
                   IN  AddCam(AddCam(s, "K1", "K1", "P1", "O1", "L1", Zero), "K2", "K2", "P2", "O1", "L2", Zero)
    [] Topo = 3 -> LET s == P(P(P(P(EmptyStore, "P1", "equi"), "O1", "ypr"), "O2", "ypr"), "L1", "abc")
                   IN  AddGroup(s, "G1", <<"K1", "K2">>, <<"P1">>, <<"O1", "O2">>, <<"L1">>, Zero)
    [] Topo = 4 -> LET s == P(P(P(P(P(EmptyStore, "P1", "rect"), "P2", "rect"), "O1", "thr"), "L1", "brown"), "L2", "abc")
                   IN  AddGroup(s, "G1", <<"K1", "K2">>, <<"P1", "P2">>, <<"O1">>, <<"L1", "L2">>, Zero)
    (* two cameras of different projections with one lens object *)
    [] Topo = 5 -> LET s == P(P(P(P(EmptyStore, "P1", "rect"), "P2", "rect"), "O1", "thr"), "L1", "brown")
                   IN  AddCam(AddCam(s, "K1", "K1", "P1", "O1", "L1", Zero), "K2", "K2", "P2", "O1", "L1", Zero)

(* the views the operations go through *)
Views ==
  CASE Topo = 1 -> {<<"K1", "tilt_deg">>, <<"O1", "elevation_m">>, <<"K1", "focallength_x_px">>, <<"P1", "focallength_px">>, <<"L1", "k1">>, <<"K1", "gps_lat">>}
    [] Topo = 2 -> {<<"K1", "tilt_deg">>, <<"K2", "heading_deg">>, <<"L1", "center_x_px">>, <<"K2", "focallength_px">>, <<"K1", "k2">>}
    [] Topo = 3 -> {<<"G1", "C0_yaw_deg">>, <<"K2", "pitch_deg">>, <<"G1", "focallength_y_px">>, <<"K1", "a">>, <<"O1", "elevation_m">>}
    [] Topo = 4 -> {<<"G1", "elevation_m">>, <<"K1", "roll_deg">>, <<"G1", "C1_focallength_px">>, <<"G1", "C0_k1">>, <<"K2", "center_y_px">>}
    [] Topo = 5 -> {<<"K1", "tilt_deg">>, <<"K1", "focallength_x_px">>, <<"K2", "focallength_px">>, <<"L1", "center_y_px">>, <<"K2", "k1">>}
Whole == IF Topo \in {3, 4} THEN {"G1", "K1", "K2"} ELSE IF Topo = 1 THEN {"K1", "O1"} ELSE {"K1", "K2"}
Cams == IF Topo = 1 THEN {"K1"} ELSE {"K1", "K2"}
Loaders == IF Topo \in {3, 4} THEN {} ELSE Cams
CellAt(s, v) == s.names[v[1]][v[2]]

(* ------------------------------ operations ------------------------------ *)
Op(k, o, n, x) == [k |-> k, o |-> o, n |-> n, x |-> x]
Ops == {Op(k, v[1], v[2], x) : k \in {"set"}, v \in Views, x \in {"new", "zero", "current", "default", "mean"}}
       \cup {Op("none", v[1], v[2], "") : v \in Views} \cup {Op("unc", v[1], v[2], "") : v \in Views}
       \cup {Op("default", v[1], v[2], x) : v \in Views, x \in {"new", "current"}}
       \cup {Op("fit", v[1], v[2], x) : v \in Views, x \in {"new", "current"}}
       \cup {Op(k, o, "", "") : k \in {"sample", "mean"}, o \in Whole}
       \cup {Op("trace", o, "", "") : o \in Whole}
       \cup {Op("save", o, "", "") : o \in Cams} \cup {Op("load", o, "", "") : o \in Loaders}
(* two focal lengths of one projection: their order is not specified when one of them is uncertain *)
Family(s, c) == UNION {{j} \cup {s.joint[j][1], s.joint[j][2]} : j \in {j \in DOMAIN s.joint : c = j \/ c = s.joint[j][1] \/ c = s.joint[j][2]}}
Shaky(s, c) == \E x \in Family(s, c) \ {c} : s.cells[x].m # None
Enabled(s, o) ==
  LET c == IF o.n = "" THEN "" ELSE CellAt(s, <<o.o, o.n>>) IN
  CASE o.k = "set" -> /\ ~(c \in DOMAIN s.joint /\ Shaky(s, c))
                      /\ o.x = "mean" => s.cells[c].m # None
                      /\ o.x = "default" => s.cells[c].d # None
    [] o.k = "unc" -> ~Shaky(s, c)
    [] o.k = "none" -> s.cells[c].d # None /\ c \notin DOMAIN s.joint
    [] o.k = "default" -> c \notin DOMAIN s.joint
    [] o.k = "fit" -> s.cells[c].m = None /\ ~(c \in DOMAIN s.joint /\ Shaky(s, c))
    [] o.k = "trace" -> o.o \notin DOMAIN s.traces /\ (\E v \in Views : v[2] \in DOMAIN s.names[o.o])
                        /\ \A v \in Views : v[2] \in DOMAIN s.names[o.o] => LET d == s.names[o.o][v[2]] IN s.cells[d].m = None /\ d \notin DOMAIN s.joint
    [] o.k = "load" -> DOMAIN s.files # {}
    [] OTHER -> TRUE
Num(s, c, x) ==
  CASE x = "new" -> 1 [] x = "zero" -> 0 [] x = "current" -> Eff(s.cells[c])[1]
    [] x = "default" -> s.cells[c].d[1] [] x = "mean" -> s.cells[c].m[1]
(* the columns of a trace: one parameter among the views *)
Column(s, o) == CHOOSE n \in {v[2] : v \in Views} : n \in DOMAIN s.names[o]
TraceRow == 8
Drawn == 6
Traced(s, o) == o \in DOMAIN s.traces
NewIds(h) == LET i == ToString(Len(h)) IN <<"P" \o i \o "x", "O" \o i \o "x", "L" \o i \o "x">>
Do(s, h, o) ==
  LET c == IF o.n = "" THEN "" ELSE CellAt(s, <<o.o, o.n>>) IN
  CASE o.k = "set" -> SetOp(s, c, <<Num(s, c, o.x)>>)
    [] o.k = "unc" -> UncertainOp(s, c, <<3>>, <<1>>)
    [] o.k = "none" -> SetOp(s, c, None)
    [] o.k = "default" -> DefaultOp(s, c, <<IF o.x = "new" THEN 7 ELSE Num(s, c, o.x)>>)
    [] o.k = "fit" -> FitOp(s, o.o, <<o.n>>, <<IF o.x = "new" THEN 4 ELSE Num(s, c, o.x)>>)
    [] o.k = "trace" -> [s EXCEPT !.traces = (o.o :> Column(s, o.o)) @@ @]
    [] o.k \in {"sample", "mean"} ->
         IF Traced(s, o.o) THEN FitOp(s, o.o, <<s.traces[o.o]>>, <<TraceRow>>)
         ELSE IF o.k = "sample" THEN SampleOp(s, o.o, [x \in Uncertain(s, o.o) |-> Drawn]) ELSE MeanOp(s, o.o)
    [] o.k = "save" -> SaveCam(s, o.o, "file")
    [] o.k = "load" -> LET i == NewIds(h) IN LoadCam(s, o.o, "file", i[1], i[2], i[3], Df, Zero)
    [] OTHER -> s
(* ------------------------------ the implementation ------------------------------ *)
(* the parameters whose callbacks are called *)
With(s, cs) == cs \cup UNION {IF c \in DOMAIN s.joint THEN {s.joint[c][1], s.joint[c][2]} ELSE {} : c \in cs}
Fired(s, o) ==
  LET c == IF o.n = "" THEN "" ELSE CellAt(s, <<o.o, o.n>>) IN
  CASE o.k = "set" -> With(s, {c})
    [] o.k = "unc" -> IF Fault = "uncertain" THEN {} ELSE With(s, {c})
    [] o.k = "none" -> IF Fault = "none" THEN {} ELSE With(s, {c})
    [] o.k = "default" -> IF Fault = "default" \/ s.cells[c].v # None THEN {} ELSE {c}
    [] o.k = "fit" -> IF Fault = "fit" THEN {} ELSE With(s, {c})
    [] o.k \in {"sample", "mean"} ->
         IF Traced(s, o.o) THEN (IF Fault = "trace" THEN {} ELSE With(s, {s.names[o.o][s.traces[o.o]]}))
         ELSE IF Fault = o.k THEN {} ELSE With(s, Uncertain(s, o.o))
    [] OTHER -> {}
(* orientations keep rotation and position, lenses their inverse; the scale and centre of a lens are    *)
(* those of the projection of the camera that uses it (Fault "lens": kept by the lens, too, and          *)
(* derived when its own parameters change; "shared": those of the projection the lens was last bound to) *)
Parts(s) == {p \in DOMAIN s.kind : p \in {s.cams[k].o : k \in DOMAIN s.cams} \cup {s.cams[k].l : k \in DOMAIN s.cams}}
Own(s, p) == {s.names[p][n] : n \in PartNames(s.kind[p])}
Deps(s, p) == IF Fault = "lens" THEN {s.names[p][n] : n \in DOMAIN s.names[p]} ELSE Own(s, p)
Listens(s, p, c) == c \in Own(s, p)
Derive(s, p) == [c \in Deps(s, p) |-> Eff(s.cells[c])]
Snap(s, s1, sn, fired) ==
  [p \in Parts(s1) |-> IF p \notin DOMAIN sn \/ \E c \in fired : Listens(s, p, c) THEN Derive(s1, p) ELSE sn[p]]

Init == /\ st = Start /\ snap = [p \in Parts(Start) |-> Derive(Start, p)] /\ hist = <<>> /\ saved = NoFun /\ init = Start
Step(o) ==
  /\ Len(hist) < Len0 /\ Enabled(st, o)
  /\ st' = Do(st, hist, o)
  /\ snap' = Snap(st, st', snap, Fired(st, o))
  /\ hist' = Append(hist, o)
  /\ saved' = IF o.k = "save" THEN [n \in DOMAIN st.names[o.o] \ {"focallength_px"} |-> Eff(st.cells[st.names[o.o][n]])] ELSE saved
  /\ UNCHANGED init
  /\ (Export /\ Len(hist') = Len0 => PrintT("@CASE " \o ToJson([topo |-> Topo, ops |-> hist'])))
Next == \E o \in Ops : Step(o)

(* ------------------------------ C05 ------------------------------ *)
CamDeps(s, k) == LET c == s.cams[k] IN Own(s, c.o) \cup {s.names[k][n] : n \in DOMAIN s.names[k] \cap DOMAIN s.names[c.l]}
Live(s, p) == [c \in {s.names[p][n] : n \in LensProjNames} |-> Eff(s.cells[c])]
Bound(s, l) == IF s.names[l] = NoFun THEN NoFun ELSE [c \in {s.names[l][n] : n \in DOMAIN s.names[l] \cap LensProjNames} |-> Eff(s.cells[c])]
CamSees(s, sn, k) == LET c == s.cams[k] IN sn[c.o] @@ sn[c.l] @@ (IF Fault = "shared" THEN Bound(s, c.l) ELSE Live(s, c.p))
Fresh == \A k \in DOMAIN st.cams : LET seen == CamSees(st, snap, k) IN
           \A c \in CamDeps(st, k) : c \in DOMAIN seen /\ seen[c] = Eff(st.cells[c])
(* ------------------------------ C06, C19 ------------------------------ *)
(* looking back in a history without loads: the cells an operation assigns, in the set-up of the start *)
Jn(c) == {j \in DOMAIN init.joint : c = init.joint[j][1] \/ c = init.joint[j][2]}
At(o) == IF o.n = "" THEN "" ELSE CellAt(init, <<o.o, o.n>>)
Has(o, c) == c \in CellsOf(init, o)
RECURSIVE BVal(_, _), BMean(_, _), BDef(_, _), BUser(_, _)
Back(h) == SubSeq(h, 1, Len(h) - 1)
Lst(h) == h[Len(h)]
BEff(h, c) == IF BVal(h, c) # None THEN BVal(h, c) ELSE BDef(h, c)
BNum(h, c, x) == CASE x = "new" -> <<1>> [] x = "zero" -> <<0>> [] x = "current" -> BEff(h, c) [] x = "default" -> BDef(h, c) [] x = "mean" -> BMean(h, c)
HadTrace(h, o) == \E i \in DOMAIN h : h[i].k = "trace" /\ h[i].o = o
Assigned(h, c) ==      \* the value the last operation gives to exactly this cell, <<>> for none; wrapped once more
  LET o == Lst(h)  b == Back(h) IN
  CASE o.k = "set" /\ At(o) = c -> <<BNum(b, c, o.x)>>
    [] o.k = "unc" /\ At(o) = c -> << <<3>> >>
    [] o.k = "none" /\ At(o) = c -> <<None>>
    [] o.k = "fit" /\ At(o) = c -> <<IF o.x = "new" THEN <<4>> ELSE BEff(b, c)>>
    [] o.k \in {"sample", "mean"} /\ Has(o.o, c) ->
         IF HadTrace(b, o.o) THEN (IF init.names[o.o][Column(init, o.o)] = c THEN << <<TraceRow>> >> ELSE <<>>)
         ELSE IF BMean(b, c) # None THEN <<IF o.k = "sample" THEN <<Drawn>> ELSE BMean(b, c)>> ELSE <<>>
    [] OTHER -> <<>>
BVal(h, c) ==
  IF h = <<>> THEN init.cells[c].v
  ELSE LET j == Jn(c) IN
       IF j # {} /\ Assigned(h, CHOOSE x \in j : TRUE) # <<>> THEN Assigned(h, CHOOSE x \in j : TRUE)[1]
       ELSE IF Assigned(h, c) # <<>> THEN Assigned(h, c)[1] ELSE BVal(Back(h), c)
BMean(h, c) ==
  IF h = <<>> THEN None
  ELSE LET o == Lst(h) IN
       IF At(o) = c /\ o.k \in {"set", "none"} THEN None ELSE IF At(o) = c /\ o.k = "unc" THEN <<3>> ELSE BMean(Back(h), c)
BDef(h, c) ==
  IF h = <<>> THEN init.cells[c].d
  ELSE LET o == Lst(h) IN
       IF At(o) = c /\ o.k = "default" THEN (IF o.x = "new" THEN <<7>> ELSE BEff(Back(h), c)) ELSE BDef(Back(h), c)
BUser(h, c) ==
  IF h = <<>> THEN init.cells[c].u
  ELSE LET o == Lst(h)  j == Jn(c) IN
       IF j # {} /\ Assigned(h, CHOOSE x \in j : TRUE) # <<>> THEN "?"
       ELSE IF At(o) = c /\ o.k \in {"set", "unc", "none"} THEN "y"
       ELSE IF At(o) = c /\ o.k = "fit" THEN "n"
       ELSE IF o.k \in {"sample", "mean"} /\ HadTrace(Back(h), o.o) /\ Assigned(h, c) # <<>> THEN "n"
       ELSE BUser(Back(h), c)
NoLoad == \A i \in DOMAIN hist : hist[i].k # "load"
Meaning == NoLoad => \A c \in DOMAIN st.cells :
             /\ Eff(st.cells[c]) = BEff(hist, c) /\ st.cells[c].m = BMean(hist, c) /\ st.cells[c].d = BDef(hist, c) /\ st.cells[c].u = BUser(hist, c)
OpenIsNotUser == NoLoad => \A o \in DOMAIN st.names :
             SurelyOpen(st, o, {}) = {n \in DOMAIN st.names[o] : LET c == st.names[o][n] IN BUser(hist, c) = "n" \/ BVal(hist, c) = None}
(* ------------------------------ C07 ------------------------------ *)
Loaded == hist # <<>> /\ Lst(hist).k = "load" =>
            /\ DOMAIN saved = DOMAIN st.names[Lst(hist).o] \ {"focallength_px"}
            /\ \A n \in DOMAIN saved : Eff(st.cells[st.names[Lst(hist).o][n]]) = saved[n]
(* ------------------------------ C23 ------------------------------ *)
GroupCells == \A g \in DOMAIN st.groups : NoLoad =>
            /\ CellsOf(st, g) = UNION {LET c == st.cams[st.groups[g][i]] IN
                                       UNION {{st.names[q][n] : n \in PartNames(st.kind[q])} : q \in {c.p, c.o, c.l}} : i \in DOMAIN st.groups[g]}
            /\ \A a, b \in DOMAIN st.names[g] : st.names[g][a] = st.names[g][b] => a = b
Inv == Fresh /\ Meaning /\ OpenIsNotUser /\ Loaded /\ GroupCells
====================================================================================
