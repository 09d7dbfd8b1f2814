----------------------------------- MODULE Store -----------------------------------
(* The parameter store: which parameters exist, who shares them, what they hold, and    *)
(* what every public operation does to them.  The values themselves are not looked at,   *)
(* so that the module is used with real numbers (T_Store) and small integers (MC_Store). *)
(*                                                                                       *)
(* A cell is one parameter of one part:                                                  *)
(*   v  the value, d the default, m and s mean and deviation of an uncertain parameter   *)
(*      (each <<>> or <<x>>),  u  "y": set by the user, "n": not, "?": unspecified,      *)
(*      t  its type (intrinsic, extrinsic 1/2, distortion, GPS)                          *)
(* A part is a projection, an orientation or a lens; a camera is composed of three parts *)
(* and its own GPS position; a group is a list of cameras.  Every object has a map of    *)
(* parameter names to cells.                                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

None == <<>>
NoFun == [x \in {} |-> x]
Cell(v, d, t) == [t |-> t, v |-> v, d |-> d, m |-> None, s |-> None, u |-> IF v = None THEN "n" ELSE "y"]
Eff(c) == IF c.v # None THEN c.v ELSE c.d

EmptyStore == [cells |-> NoFun, kind |-> NoFun, names |-> NoFun, joint |-> NoFun, cams |-> NoFun, groups |-> NoFun,
               files |-> NoFun, traces |-> NoFun, terms |-> NoFun, infos |-> NoFun]

(* ------------------------------ the parameters of the parts ------------------------------ *)
ProjNames == {"focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "image_width_px", "image_height_px",
              "sensor_width_mm", "sensor_height_mm", "focallength_px"}
LensProjNames == {"focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "image_width_px", "image_height_px"}
PartNames(kind) ==
  CASE kind \in {"rect", "cyl", "equi"} -> ProjNames
    [] kind = "thr" -> {"elevation_m", "tilt_deg", "roll_deg", "heading_deg", "pos_x_m", "pos_y_m"}
    [] kind = "ypr" -> {"elevation_m", "yaw_deg", "pitch_deg", "roll_deg", "pos_x_m", "pos_y_m"}
    [] kind = "brown" -> {"k1", "k2", "k3"}
    [] kind = "abc" -> {"a", "b", "c"}
    [] kind = "none" -> {}
TypeOf(name) ==
  CASE name \in {"elevation_m", "tilt_deg", "roll_deg", "yaw_deg"} -> "E1"
    [] name \in {"heading_deg", "pitch_deg", "pos_x_m", "pos_y_m"} -> "E2"
    [] name \in {"k1", "k2", "k3", "a", "b", "c"} -> "D"
    [] name \in {"gps_lat", "gps_lon"} -> "G"
    [] OTHER -> "I"

(* ------------------------------ building objects ------------------------------ *)
(* vals, dflts: functions from the names to <<>> or <<x>> *)
AddPart(st, id, kind, vals, dflts) ==
  LET ns == PartNames(kind)
      cid(n) == id \o "." \o n
      new == [c \in {cid(n) : n \in ns} |-> LET n == CHOOSE m \in ns : cid(m) = c IN Cell(vals[n], dflts[n], TypeOf(n))]
  IN  [st EXCEPT !.cells = new @@ @, !.kind = (id :> kind) @@ @,
                 !.names = (id :> [n \in ns |-> cid(n)]) @@ @,
                 !.joint = IF "focallength_px" \in ns
                           THEN (cid("focallength_px") :> <<cid("focallength_x_px"), cid("focallength_y_px")>>) @@ @ ELSE @]
(* a camera; own: prefix of the cells of its own GPS position.  Its lens follows its projection. *)
AddCam(st, id, own, p, o, ln, zero) ==
  LET gps == ("gps_lat" :> (own \o ".gps_lat")) @@ ("gps_lon" :> (own \o ".gps_lon"))
      lens == IF st.kind[ln] = "none" THEN st.names[ln]
              ELSE [n \in PartNames(st.kind[ln]) |-> st.names[ln][n]] @@ [n \in LensProjNames |-> st.names[p][n]]
  IN  [st EXCEPT !.cells = (gps["gps_lat"] :> Cell(zero, zero, "G")) @@ (gps["gps_lon"] :> Cell(zero, zero, "G")) @@ @,
                 !.names = (id :> (gps @@ st.names[p] @@ st.names[o] @@ lens)) @@ (ln :> lens) @@ @,
                 !.cams = (id :> [p |-> p, o |-> o, l |-> ln]) @@ @,
                 !.terms = (id :> <<>>) @@ @,
                 !.infos = (id :> [ts |-> <<>>, cleared |-> FALSE]) @@ @,
                 !.traces = [k \in DOMAIN @ \ {id} |-> @[k]]]
(* the i-th of a repeated list *)
Cyc(s, i) == s[((i - 1) % Len(s)) + 1]
GroupSize(ps, os, ls) == LET m == {Len(ps), Len(os), Len(ls)} IN CHOOSE x \in m : \A y \in m : y <= x
RECURSIVE Merge(_)
Merge(fs) == IF fs = <<>> THEN NoFun ELSE Head(fs) @@ Merge(Tail(fs))
(* plain names for a single part, numbered names for listed parts *)
ListNames(st, s) ==
  LET own(id) == [n \in PartNames(st.kind[id]) |-> st.names[id][n]]
      tag(i, n) == "C" \o ToString(i - 1) \o "_" \o n
      one(i) == LET ns == PartNames(st.kind[s[i]])
                IN [t \in {tag(i, n) : n \in ns} |-> own(s[i])[CHOOSE n \in ns : tag(i, n) = t]]
  IN  IF Len(s) = 1 THEN own(s[1]) ELSE Merge([i \in DOMAIN s |-> one(i)])
RECURSIVE AddCams(_, _, _, _, _, _, _)
AddCams(st, ids, i, ps, os, ls, zero) ==
  IF i > Len(ids) THEN st
  ELSE AddCams(AddCam(st, ids[i], ids[i], Cyc(ps, i), Cyc(os, i), Cyc(ls, i), zero), ids, i + 1, ps, os, ls, zero)
AddGroup(st, id, ids, ps, os, ls, zero) ==
  LET nm == ListNames(st, ps) @@ ListNames(st, os) @@ ListNames(st, ls)
      s1 == AddCams(st, ids, 1, ps, os, ls, zero)
  IN  [s1 EXCEPT !.names = (id :> nm) @@ @, !.groups = (id :> ids) @@ @, !.terms = (id :> <<>>) @@ @]

(* ------------------------------ operations on parameters ------------------------------ *)
(* the joint focal length sets both focal lengths *)
Spread(st, c) ==
  IF c \notin DOMAIN st.joint THEN st
  ELSE LET two == {st.joint[c][1], st.joint[c][2]}
       IN  [st EXCEPT !.cells = [x \in DOMAIN @ |-> IF x \in two THEN [@[x] EXCEPT !.v = st.cells[c].v, !.u = "?"] ELSE @[x]]]
SetOp(st, c, v) == Spread([st EXCEPT !.cells[c] = [@ EXCEPT !.v = v, !.m = None, !.s = None, !.u = "y"]], c)
UncertainOp(st, c, m, s) == Spread([st EXCEPT !.cells[c] = [@ EXCEPT !.v = m, !.m = m, !.s = s, !.u = "y"]], c)
DefaultOp(st, c, d) == [st EXCEPT !.cells[c].d = d]
FitOne(st, c, v) == Spread([st EXCEPT !.cells[c] = [@ EXCEPT !.v = v, !.u = "n"]], c)
RECURSIVE FitOp(_, _, _, _)
(* names that the object does not have are ignored *)
FitOp(st, obj, ns, vs) ==
  IF ns = <<>> THEN st
  ELSE FitOp(IF Head(ns) \in DOMAIN st.names[obj] THEN FitOne(st, st.names[obj][Head(ns)], <<Head(vs)>>) ELSE st, obj, Tail(ns), Tail(vs))
CellsOf(st, obj) == {st.names[obj][n] : n \in DOMAIN st.names[obj]}
Uncertain(st, obj) == {c \in CellsOf(st, obj) : st.cells[c].m # None}
RECURSIVE SpreadAll(_, _)
SpreadAll(st, cs) == IF cs = {} THEN st ELSE LET c == CHOOSE x \in cs : TRUE IN SpreadAll(Spread(st, c), cs \ {c})
(* drawn: function from the uncertain cells to the drawn values *)
SampleOp(st, obj, drawn) ==
  LET un == Uncertain(st, obj)
      s1 == [st EXCEPT !.cells = [x \in DOMAIN @ |-> IF x \in un THEN [@[x] EXCEPT !.v = <<drawn[x]>>] ELSE @[x]]]
  IN  SpreadAll(s1, un)
MeanOp(st, obj) ==
  LET un == Uncertain(st, obj)
      s1 == [st EXCEPT !.cells = [x \in DOMAIN @ |-> IF x \in un THEN [@[x] EXCEPT !.v = st.cells[x].m] ELSE @[x]]]
  IN  SpreadAll(s1, un)
(* open for fitting *)
OfType(c, types) == types = {} \/ c.t \in types
SurelyOpen(st, obj, types) == {n \in DOMAIN st.names[obj] : LET c == st.cells[st.names[obj][n]] IN
                                OfType(c, types) /\ (c.u = "n" \/ c.v = None)}
PerhapsOpen(st, obj, types) == {n \in DOMAIN st.names[obj] : LET c == st.cells[st.names[obj][n]] IN
                                OfType(c, types) /\ c.u = "?"}

(* ------------------------------ files ------------------------------ *)
Stored(st, obj) == [n \in DOMAIN st.names[obj] \ {"focallength_px"} |-> Eff(st.cells[st.names[obj][n]])]
SaveCam(st, k, file) ==
  LET c == st.cams[k]
  IN  [st EXCEPT !.files = (file :> [what |-> "camera", p |-> st.kind[c.p], o |-> st.kind[c.o], l |-> st.kind[c.l], vals |-> Stored(st, k)]) @@ @]
SavePart(st, id, file) == [st EXCEPT !.files = (file :> [what |-> st.kind[id], vals |-> Stored(st, id)]) @@ @]
(* the camera gets three new parts that hold the stored values; it forgets its terms and its trace *)
LoadCam(st, k, file, p, o, ln, dfl(_), zero) ==
  LET f == st.files[file]
      vals(kind) == [n \in PartNames(kind) |-> IF n = "focallength_px" THEN f.vals["focallength_x_px"] ELSE f.vals[n]]
      dfs(kind) == [n \in PartNames(kind) |-> dfl(n)]
      s1 == AddPart(AddPart(AddPart(st, p, f.p, vals(f.p), dfs(f.p)), o, f.o, vals(f.o), dfs(f.o)), ln, f.l, vals(f.l), dfs(f.l))
      own == p \o "gps"
      s2 == AddCam(s1, k, own, p, o, ln, zero)
  IN  SetOp(SetOp(s2, own \o ".gps_lat", f.vals["gps_lat"]), own \o ".gps_lon", f.vals["gps_lon"])
RECURSIVE SetAll(_, _, _, _)
SetAll(st, obj, vals, ns) ==
  IF ns = {} THEN st
  ELSE LET n == CHOOSE x \in ns : TRUE IN SetAll(SetOp(st, st.names[obj][n], vals[n]), obj, vals, ns \ {n})
LoadPart(st, id, file) ==
  LET f == st.files[file]
      s1 == SetAll(st, id, f.vals, DOMAIN f.vals)
  IN  IF "focallength_px" \in DOMAIN st.names[id]
      THEN [s1 EXCEPT !.cells[st.names[id]["focallength_px"]].v = f.vals["focallength_x_px"]] ELSE s1
====================================================================================
