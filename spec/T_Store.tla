---------------------------------- MODULE T_Store ----------------------------------
(* Trace specification of the parameter store (Store) bound to real cameras: every       *)
(* operation of the implementation is a transition of the store, and every observation    *)
(* (reads, open parameters, transformations, files, maps, log probabilities) is judged in  *)
(* the state the history prescribes.  Events carry the property that is being decided.    *)
EXTENDS Store, CameraJudge, Terms, Info, Chain, Json
VARIABLES l, st

R(x) == <<x>>
Zero == <<R0>>
Dflt(n) ==
  CASE n = "elevation_m" -> R(RInt(30))
    [] n \in {"tilt_deg", "yaw_deg"} -> R(RInt(85))
    [] n \in {"roll_deg", "heading_deg", "pitch_deg", "pos_x_m", "pos_y_m", "k1", "k2", "k3", "a", "b", "c",
              "center_x_px", "center_y_px"} -> R(R0)
    [] n = "sensor_width_mm" -> R(RRat(173, 10))
    [] n = "sensor_height_mm" -> R(RInt(13))
    [] OTHER -> None

(* the effective parameters of a camera *)
Val(s, obj, n) == Eff(s.cells[s.names[obj][n]])[1]
CamRec(s, k) ==
  LET c == s.cams[k]
      pk == s.kind[c.p]  ok == s.kind[c.o]  lk == s.kind[c.l]
      v(n) == Val(s, k, n)
      ln(i) == IF lk = "none" THEN R0
               ELSE v(IF lk = "brown" THEN <<"k1", "k2", "k3">>[i] ELSE <<"a", "b", "c">>[i])
  IN  [proj |-> pk, ori |-> ok, lens |-> lk,
       fx |-> v("focallength_x_px"), fy |-> v("focallength_y_px"), cx |-> v("center_x_px"), cy |-> v("center_y_px"),
       w |-> v("image_width_px"), h |-> v("image_height_px"),
       a1 |-> v(IF ok = "thr" THEN "tilt_deg" ELSE "yaw_deg"),
       a2 |-> v(IF ok = "thr" THEN "roll_deg" ELSE "pitch_deg"),
       a3 |-> v(IF ok = "thr" THEN "heading_deg" ELSE "roll_deg"),
       px |-> v("pos_x_m"), py |-> v("pos_y_m"), pz |-> v("elevation_m"),
       l1 |-> ln(1), l2 |-> ln(2), l3 |-> ln(3)]

(* a heading or pitch beyond a full turn may be stored normalised *)
Wraps(s, c, want) == c \in DOMAIN s.cells /\ RAbs(want) \succ RInt(360)
                     /\ \E id \in DOMAIN s.names : \E n \in {"heading_deg", "pitch_deg"} \cap DOMAIN s.names[id] : s.names[id][n] = c
NearTurn(a, b) ==
  RIsFin(a) /\ RIsFin(b) /\
  LET d == RAbs(a \ominus b)  k == RInt(RRound(d \oslash RInt(360))) IN RAbs(d \ominus (k \otimes RInt(360))) \preceq RSci(1, -8)
ReadOk(s, obj, n, o) ==
  LET c == s.names[obj][n]  want == Eff(s.cells[c])
  IN  /\ Good(o, <<>>)
      /\ (Same(Num(o), want[1]) \/ (Wraps(s, c, want[1]) /\ NearTurn(Num(o), want[1])))

(* ------------------------------ observations ------------------------------ *)
Reads(s, e) == UNION { LET r == e.items[i] IN
                       IF r.name \notin DOMAIN s.names[r.obj] THEN {Tag(e.pid, "unknown")}
                       ELSE Chk(Tag(e.pid, IF r.obj \in DOMAIN s.groups THEN "readGroup" ELSE "read"), ReadOk(s, r.obj, r.name, r.o))
                     : i \in DOMAIN e.items }
Printed1(s, id) ==
  CASE s.kind[id] \in {"rect", "cyl", "equi"} -> {"own"} \X {"focallength_x_px", "sensor_width_mm", "sensor_height_mm", "image_width_px", "image_height_px"}
    [] s.kind[id] \in {"thr", "ypr"} -> {"own"} \X PartNames(s.kind[id])
    [] OTHER -> {"lens"} \X DOMAIN s.names[id]
(* the printed form shows the parameters of the parts; the lens lists all it knows *)
Printed(s, k) ==
  IF k \in DOMAIN s.cams THEN Printed1(s, s.cams[k].p) \cup Printed1(s, s.cams[k].o) \cup Printed1(s, s.cams[k].l) ELSE Printed1(s, k)
TextEv(s, e) ==
  LET part(i) == IF e.items[i].sec # "lens" \/ e.obj \notin DOMAIN s.cams THEN e.obj ELSE s.cams[e.obj].l
      good(i) == LET r == e.items[i]
                     c == s.names[part(i)][r.name]
                     want == Eff(s.cells[c])[1]
                     tol == IF r.dec = 0 THEN R1 ELSE (RSci(51, -2 - r.dec) \oplus (RSci(1, -12) \otimes RAbs(want)))
                 IN  Same(r.v, want) \/ (RIsFin(want) /\ Near(r.v, want, tol))
                     \/ (Wraps(s, c, want) /\ \E k \in -3..3 : Near(r.v, want \oplus RInt(360 * k), RSci(1, -3)))
  IN  Chk(Tag(e.pid, "text"),
          /\ e.ok
          /\ {<<e.items[i].sec, e.items[i].name>> : i \in DOMAIN e.items} = Printed(s, e.obj)
          /\ \A i \in DOMAIN e.items : good(i))
ReadDefaults(s, e) ==
  UNION { LET r == e.items[i]  d == s.cells[s.names[r.obj][r.name]].d IN
          Chk(Tag(e.pid, "readDefault"), IF d = None THEN r.o.ok /\ r.none ELSE Good(r.o, <<>>) /\ Same(Num(r.o), d[1]))
        : i \in DOMAIN e.items }
OpenEv(s, e) ==
  LET got == {e.got[i] : i \in DOMAIN e.got}
      types == {e.types[i] : i \in DOMAIN e.types}
  IN  Chk(Tag(e.pid, "open"),
          /\ e.ok
          /\ Cardinality(got) = Len(e.got)
          /\ SurelyOpen(s, e.obj, types) \subseteq got
          /\ got \subseteq (SurelyOpen(s, e.obj, types) \cup PerhapsOpen(s, e.obj, types)))
(* transformations of a camera for its current parameters *)
Probe(s, e) ==
  LET c == CamRec(s, e.cam)
      n == Len(e.x)  m == Len(e.p)
      img == IF ~Good(e.img, <<n, 2>>) THEN {"call"}
             ELSE UNION { IF OnAxis(c, e.x[i]) THEN {} ELSE ImgPoint(c, e.x[i], TRUE, Row(e.img, i, 2)) : i \in 1..n }
      ray == IF ~(Good(e.ray, <<m, 3>>) /\ Good(e.off, <<3>>)) THEN {"call"}
             ELSE UNION { RayPoint(c, e.p[i], e.normed, e.off.v, Row(e.ray, i, 3)) : i \in 1..m }
      hor == RSqrt((R2 \otimes Sq(RInt(6371000))) \otimes (R1 \ominus (RInt(6371000) \oslash (RInt(6371000) \oplus c.pz))))
  IN  Chk(Tag(e.pid, "image"), img = {}) \cup Chk(Tag(e.pid, "ray"), ray = {}) \cup
      Chk(Tag(e.pid, "position"), Good(e.pos, <<3>>) /\ NearSeq(e.pos.v, Pos(c), RSci(1, -9) \otimes (R1 \oplus L1(Pos(c))))) \cup
      (IF c.pz \succ R1
       THEN Chk(Tag(e.pid, "horizon"), Good(e.hor, <<>>) /\ Near(Num(e.hor), hor, RSci(1, -2) \oplus (RSci(1, -5) \otimes hor))) ELSE {})

(* ------------------------------ transitions ------------------------------ *)
Res(s, f) == [st |-> s, fails |-> f]
Done(e) == Chk(Tag(e.pid, "operation"), e.ok)
CellOf(s, e) == s.names[e.obj][e.name]
PartEv(s, e) ==
  LET ns == PartNames(e.kind)
      vals == [n \in ns |-> IF n \in DOMAIN e.vals THEN <<e.vals[n]>> ELSE None]
  IN  Res(AddPart(s, e.id, e.kind, vals, [n \in ns |-> Dflt(n)]), {})
CamEv(s, e) == Res(AddCam(s, e.id, e.id, e.p, e.o, e.l, Zero), Chk(Tag(e.pid, "operation"), e.ok))
GroupEv(s, e) ==
  LET n == GroupSize(e.ps, e.os, e.ls)
      s1 == AddGroup(s, e.id, e.ids, e.ps, e.os, e.ls, Zero)
      seen == {e.names[i] : i \in DOMAIN e.names}
  IN  Res(IF Len(e.ids) = n THEN s1 ELSE s,
          Chk(Tag(e.pid, "size"), e.len = n /\ e.iter = n /\ e.index = n) \cup
          Chk(Tag(e.pid, "identity"), e.same) \cup
          Chk(Tag(e.pid, "parts"), /\ e.len = n
                                   /\ \A i \in 1..n : e.parts[i] = <<Cyc(e.ps, i), Cyc(e.os, i), Cyc(e.ls, i)>>) \cup
          Chk(Tag(e.pid, "names"), Len(e.ids) # n \/ seen = DOMAIN s1.names[e.id]))
SetEv(s, e) == Res(IF Len(e.std) = 0 THEN SetOp(s, CellOf(s, e), e.val) ELSE UncertainOp(s, CellOf(s, e), e.val, e.std), Done(e))
DefaultEv(s, e) == Res(DefaultOp(s, CellOf(s, e), e.val), Done(e))
FitEv(s, e) == Res(FitOp(s, e.obj, e.names, e.vals), Done(e))
GpsEv(s, e) ==
  LET s1 == SetOp(SetOp(s, s.names[e.obj]["gps_lat"], <<e.lat>>), s.names[e.obj]["gps_lon"], <<e.lon>>)
  IN  Res(IF Len(e.height) = 0 THEN s1 ELSE SetOp(s1, s.names[e.obj]["elevation_m"], e.height), Done(e))
TraceEv(s, e) == Res([s EXCEPT !.traces = (e.obj :> [cols |-> e.cols, rows |-> e.rows, prob |-> e.prob]) @@ @], Done(e))

(* a row of the trace is in force in the observed parameters *)
RowOf(s, e, i) == LET t == s.traces[e.obj] IN FitOp(s, e.obj, t.cols, t.rows[i])
RowSeen(s, e, i) == LET s1 == RowOf(s, e, i) IN
  \A j \in DOMAIN e.items : ReadOk(s1, e.items[j].obj, e.items[j].name, e.items[j].o)
TraceSample(s, e) ==
  LET t == s.traces[e.obj]
      ok == {i \in DOMAIN t.rows : RowSeen(s, e, i) /\ Good(e.ret, <<>>) /\ Same(Num(e.ret), t.prob[i])}
  IN  IF ok = {} THEN Res(RowOf(s, e, 1), {Tag(e.pid, "traceSample")}) ELSE Res(RowOf(s, e, CHOOSE i \in ok : TRUE), Done(e))
TraceMean(s, e) ==
  LET t == s.traces[e.obj]
      best == {i \in DOMAIN t.rows : \A j \in DOMAIN t.rows : t.prob[j] \preceq t.prob[i]}
      ok == {i \in best : RowSeen(s, e, i)}
  IN  IF ok = {} THEN Res(RowOf(s, e, CHOOSE i \in best : TRUE), {Tag(e.pid, "traceMean")}) ELSE Res(RowOf(s, e, CHOOSE i \in ok : TRUE), Done(e))
(* the uncertain cells take the drawn values, within eight standard deviations; everything else stays *)
SampleEv(s, e) ==
  IF e.obj \in DOMAIN s.traces THEN TraceSample(s, e)
  ELSE LET un == Uncertain(s, e.obj)
           at(c) == {i \in DOMAIN e.items : s.names[e.items[i].obj][e.items[i].name] = c /\ Good(e.items[i].o, <<>>)}
           drawn == [c \in un |-> IF at(c) = {} THEN s.cells[c].m[1] ELSE Num(e.items[CHOOSE i \in at(c) : TRUE].o)]
           near(c) == LET x == s.cells[c] IN
             \/ RAbs(drawn[c] \ominus x.m[1]) \preceq (RInt(8) \otimes x.s[1])
             \/ (Wraps(s, c, RInt(400)) /\ \E k \in -3..3 : RAbs((drawn[c] \oplus RInt(360 * k)) \ominus x.m[1]) \preceq (RInt(8) \otimes x.s[1]))
       IN  Res(SampleOp(s, e.obj, drawn), Done(e) \cup Chk(Tag(e.pid, "drawn"), \A c \in un : at(c) # {} /\ near(c)))
MeanEv(s, e) == IF e.obj \in DOMAIN s.traces THEN TraceMean(s, e) ELSE Res(MeanOp(s, e.obj), Done(e))

SaveEv(s, e) == Res(IF e.obj \in DOMAIN s.cams THEN SaveCam(s, e.obj, e.file) ELSE SavePart(s, e.obj, e.file), Done(e))
LoadEv(s, e) ==
  Res(IF e.what = "camera" THEN LoadCam(s, e.obj, e.file, e.p, e.o, e.l, Dflt, Zero) ELSE LoadPart(s, e.obj, e.file),
      Done(e) \cup (IF e.what = "camera"
                    THEN Chk(Tag(e.pid, "kinds"), e.kinds = <<s.files[e.file].p, s.files[e.file].o, s.files[e.file].l>>) ELSE {}))
(* a value that cannot be stored: the save fails and the file stays as it was *)
FailSaveEv(s, e) == Res(s, Chk(Tag(e.pid, "failedSave"), ~e.ok /\ e.kept))

(* ------------------------------ C19: statistics of sampling ------------------------------ *)
Mean(x) == RSum(x) \oslash RInt(Len(x))
Cov(x, y) == LET a == Mean(x)  b == Mean(y)
             IN  RSum([i \in DOMAIN x |-> (x[i] \ominus a) \otimes (y[i] \ominus b)]) \oslash RInt(Len(x))
(* columns of draws, each with its mean and deviation *)
StatEv(e) ==
  LET n == Len(e.draws[1])
      six == RInt(6) \oslash RSqrt(RInt(n))
      z == [k \in DOMAIN e.draws |-> [i \in 1..n |-> (e.draws[k][i] \ominus e.mean[k]) \oslash e.std[k]]]
  IN  UNION { Chk("C19.mean", RAbs(Mean(z[k])) \preceq six) \cup
              Chk("C19.deviation", RAbs(Cov(z[k], z[k]) \ominus R1) \preceq (RSqrt(R2) \otimes six)) \cup
              Chk("C19.serial", RAbs(Cov(SubSeq(z[k], 1, n - 1), SubSeq(z[k], 2, n))) \preceq six)
            : k \in DOMAIN z } \cup
      Chk("C19.independent", \A j, k \in DOMAIN z : j < k => RAbs(Cov(z[j], z[k])) \preceq six)
(* e.z: the extreme ones of e.n draws, in units of the deviation: both tails are there, none beyond reason *)
TailsEv(e) == Chk("C19.tails", /\ e.n = 16000
                               /\ \E i \in DOMAIN e.z : e.z[i] \prec RInt(-3)
                               /\ \E i \in DOMAIN e.z : e.z[i] \succ RInt(3)
                               /\ \A i \in DOMAIN e.z : RAbs(e.z[i]) \prec RInt(8))
(* all rows of a trace are drawn *)
RowsEv(e) == Chk("C19.rows", \A i \in 1..e.n : \E j \in DOMAIN e.got : e.got[j] = i)

(* ------------------------------ C16 / C17 ------------------------------ *)
MapEv(s, e) == MapJudge(CamRec(s, e.cam), e)
(* a term: id, kind and its data; what was observed of the cameras for it is in the event *)
TermEv(s, e) == Res(IF e.plot THEN s ELSE [s EXCEPT !.terms[e.obj] = Append(@, e.t)], Done(e))
(* whether the plot still shows cleared information is not specified *)
ClearEv(s, e) == Res([s EXCEPT !.terms[e.obj] = <<>>, !.infos = IF e.obj \in DOMAIN @ THEN [@ EXCEPT ![e.obj] = [ts |-> <<>>, cleared |-> TRUE]] ELSE @], Done(e))
(* C27: the information that is shown, also that which is only for the plot *)
InfoAddEv(s, e) == Res([s EXCEPT !.infos[e.obj].ts = Append(@, e.t)], {})
InfoEv(s, e) ==
  LET known == s.infos[e.cam].ts
      ts == [i \in DOMAIN known |-> [known[i] EXCEPT !.lm = e.seen[known[i].id].lm, !.hor = e.seen[known[i].id].hor]]
  IN  InfoJudge(CamRec(s, e.cam), ts, [cleared |-> s.infos[e.cam].cleared] @@ e)
Sds(e, t) == IF t.var = "" THEN t.sd ELSE <<e.vars[t.var]>>
TermValue(s, e, t) ==
  CASE t.kind = "objects" -> NormSum(e.seen[t.id].x, t.mu, Sds(e, t))
    [] t.kind = "landmark" -> LandmarkSum(e.seen[t.id].org, e.seen[t.id].dir, e.seen[t.id].lm, t.sd3, t.off)
    [] t.kind = "custom" -> RNeg(Sq(Val(s, t.cam, t.name) \ominus t.c))
    [] t.kind = "constant" -> t.c
    [] t.kind = "baseline" ->
         LET g == s.groups[t.cam]
             dx == Val(s, g[1], "pos_x_m") \ominus Val(s, g[2], "pos_x_m")
             dy == Val(s, g[1], "pos_y_m") \ominus Val(s, g[2], "pos_y_m")
         IN  LogNorm(V2Len(<<dx, dy>>), t.mu[1], t.sd[1])
    [] t.kind = "pairs" ->
         LET o == e.seen[t.id]
             one(i) == RSum([k \in DOMAIN o.a[i] |-> LogNorm(LineGap(o.a[i][k], o.b[i][k], o.q[i][k]), R0, t.sd[1])])
         IN  one(1) \oplus one(2)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
TermsOf(s, obj) == IF obj \in DOMAIN s.groups
                   THEN s.terms[obj] \o Concat([i \in DOMAIN s.groups[obj] |-> s.terms[s.groups[obj][i]]])
                   ELSE s.terms[obj]
(* landmarks that are behind the camera, and rays that leave the other image, have no defined density *)
Undecided(e, t) ==
  CASE t.kind = "landmark" ->
         LET o == e.seen[t.id]
         IN  \E i \in DOMAIN o.lm : ~(V3Dot(V3Sub(o.lm[i], o.org), o.dir[i]) \succ RRat(1, 100))
    [] t.kind = "pairs" ->
         LET o == e.seen[t.id]
         IN  \E i \in 1..2 : \E k \in DOMAIN o.a[i] : ~(AllFin(o.a[i][k]) /\ AllFin(o.b[i][k])) \/ V2Len(V2Sub(o.a[i][k], o.b[i][k])) \prec RSci(1, -3)
    [] OTHER -> FALSE
LogProbEv(s, e) ==
  LET ts == TermsOf(s, e.obj)
      vs == [i \in DOMAIN ts |-> TermValue(s, e, ts[i])]
      sum == RSum(vs)
      mag == RSum([i \in DOMAIN vs |-> RAbs(vs[i])])
      nan == RIsNaN(sum) \/ \E i \in DOMAIN vs : RIsNaN(vs[i])
  IN  (IF \E i \in DOMAIN ts : Undecided(e, ts[i]) THEN {} ELSE
      Chk(Tag(e.pid, "logprob"),
          /\ Good(e.o, <<>>)
          /\ IF nan THEN REq(Num(e.o), RNeg(RInf))
             ELSE IF RIsFin(sum) THEN Near(Num(e.o), sum, (RSci(1, -7) \otimes mag) \oplus RSci(1, -9)) ELSE REq(Num(e.o), sum))) \cup
      Chk(Tag(e.pid, "repeatable"), Good(e.o2, <<>>) /\ Same(Num(e.o), Num(e.o2))) \cup
      Chk(Tag(e.pid, "data"), Len(e.before) = Len(e.after) /\ \A i \in DOMAIN e.before : SameSeq(e.before[i], e.after[i]))

(* ------------------------------ C18 / C25 ------------------------------ *)
(* a chain leaves its trace with the object, and the object at the most probable row *)
ChainEv(s, e) ==
  LET f == IF e.k = "fridge" THEN FridgeJudge(e) ELSE ChainJudge(e)
      s1 == [s EXCEPT !.traces = (e.obj :> [cols |-> SubSeq(e.cols, 1, Len(e.cols) - 1), rows |-> [j \in DOMAIN e.rows |-> e.rows[j].p],
                                            prob |-> [j \in DOMAIN e.rows |-> e.rows[j].lp]]) @@ @]
  IN  IF e.obj = "" THEN Res(s, f)
      ELSE IF ~e.ok \/ Len(e.rows) = 0 THEN Res(s, f \cup {Tag(e.pid, "rows")})
      ELSE LET r == TraceMean(s1, e) IN Res(r.st, f \cup {IF x = Tag(e.pid, "traceMean") THEN Tag(e.pid, "mostProbable") ELSE x : x \in r.fails})
FitRunEv(s, e) == Res(IF e.ok /\ Len(e.x) = Len(e.names) THEN FitOp(s, e.obj, e.names, e.x) ELSE s, FitJudge(e))

Step(s, e) ==
  CASE e.k = "reset" -> Res(EmptyStore, {})
    [] e.k = "part" -> PartEv(s, e)
    [] e.k = "cam" -> CamEv(s, e)
    [] e.k = "group" -> GroupEv(s, e)
    [] e.k = "set" -> SetEv(s, e)
    [] e.k = "default" -> DefaultEv(s, e)
    [] e.k = "fit" -> FitEv(s, e)
    [] e.k = "gps" -> GpsEv(s, e)
    [] e.k = "trace" -> TraceEv(s, e)
    [] e.k = "sample" -> SampleEv(s, e)
    [] e.k = "mean" -> MeanEv(s, e)
    [] e.k = "save" -> SaveEv(s, e)
    [] e.k = "load" -> LoadEv(s, e)
    [] e.k = "failsave" -> FailSaveEv(s, e)
    [] e.k = "reads" -> Res(s, Reads(s, e))
    [] e.k = "text" -> Res(s, TextEv(s, e))
    [] e.k = "defaults" -> Res(s, ReadDefaults(s, e))
    [] e.k = "open" -> Res(s, OpenEv(s, e))
    [] e.k = "probe" -> Res(s, Probe(s, e))
    [] e.k = "stat" -> Res(s, StatEv(e))
    [] e.k = "rows" -> Res(s, RowsEv(e))
    [] e.k = "tails" -> Res(s, TailsEv(e))
    [] e.k = "map" -> Res(s, MapEv(s, e))
    [] e.k = "term" -> TermEv(s, e)
    [] e.k = "clear" -> ClearEv(s, e)
    [] e.k = "infoadd" -> InfoAddEv(s, e)
    [] e.k = "info" -> Res(s, InfoEv(s, e))
    [] e.k = "summary" -> Res(s, SummaryJudge(s.traces[e.obj], e))
    [] e.k = "traceplot" -> Res(s, TracePlotJudge(s.traces[e.obj], e))
    [] e.k \in {"chain", "fridge"} -> ChainEv(s, e)
    [] e.k = "fitrun" -> FitRunEv(s, e)
    [] e.k = "rate" -> Res(s, RateJudge(e))
    [] e.k = "draws" -> Res(s, DrawJudge(e))
    [] e.k = "logprob" -> Res(s, LogProbEv(s, e))
Start == EmptyStore
Trace == ndJsonDeserialize("trace.ndjson")
INSTANCE TraceRun
====================================================================================
