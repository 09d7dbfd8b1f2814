---------------------------------- MODULE T_Init ----------------------------------
(* Trace specification of the projection constructors (C09): the intrinsic parameters   *)
(* that follow from the arguments (Intrinsics.tla), and the conversions between field of *)
(* view, focal length and image size.                                                   *)
EXTENDS Intrinsics, Geometry, Obs, Json
VARIABLES l, st

(* ---- conversions of the three projections ---- *)
TanHalf(v) == RTan(Deg2Rad(v) \oslash R2)
FocalFromView(proj, axis, v, n) ==
  IF proj = "rect" \/ (proj = "cyl" /\ axis = "y") THEN n \oslash (R2 \otimes TanHalf(v)) ELSE n \oslash Deg2Rad(v)
ImageFromView(proj, axis, v, f) ==
  IF proj = "rect" \/ (proj = "cyl" /\ axis = "y") THEN (R2 \otimes TanHalf(v)) \otimes f ELSE f \otimes Deg2Rad(v)
ViewFrom(proj, axis, f, n) ==
  IF proj = "rect" \/ (proj = "cyl" /\ axis = "y") THEN Rad2Deg(R2 \otimes RAtan(n \oslash (R2 \otimes f))) ELSE Rad2Deg(n \oslash f)

(* ---- values: a is the record of argument values, p of their presence ---- *)
W(p, a) == IF p.img = "none" THEN a.w ELSE a.iw
H(p, a) == IF p.img = "none" THEN a.h ELSE a.ih
SwVal(r, p, a) == CASE r.sw = "s" -> a.s[1] [] r.sw = "sw" -> a.sw [] r.sw = "sh" -> (a.sh \oslash H(p, a)) \otimes W(p, a) [] OTHER -> RRat(173, 10)
ShVal(r, p, a) == CASE r.sh = "s" -> a.s[2] [] r.sh = "sh" -> a.sh [] r.sh = "sw" -> (a.sw \oslash W(p, a)) \otimes H(p, a) [] OTHER -> RInt(13)
FromView(proj, axis, p, a) == IF axis = "x" THEN FocalFromView(proj, "x", a.vx, W(p, a)) ELSE FocalFromView(proj, "y", a.vy, H(p, a))
FxVal(proj, r, p, a) == CASE r.fx = "fx" -> a.fx [] r.fx = "f1" -> (IF p.f = "pair" THEN a.fp[1] ELSE a.f)
                          [] r.fx = "mm" -> (a.mm \oslash SwVal(r, p, a)) \otimes W(p, a)
                          [] r.fx = "vx" -> FromView(proj, "x", p, a) [] r.fx = "vy" -> FromView(proj, "y", p, a)
FyVal(proj, r, p, a) == CASE r.fy = "fy" -> a.fy [] r.fy = "f2" -> (IF p.f = "pair" THEN a.fp[2] ELSE a.f)
                          [] r.fy = "mm" -> (a.mm \oslash ShVal(r, p, a)) \otimes H(p, a)
                          [] r.fy = "vx" -> FromView(proj, "x", p, a) [] r.fy = "vy" -> FromView(proj, "y", p, a)
CxVal(r, p, a) == CASE r.cx = "c" -> a.c[1] [] r.cx = "cx" -> a.cx [] OTHER -> W(p, a) \oslash R2
CyVal(r, p, a) == CASE r.cy = "c" -> a.c[2] [] r.cy = "cy" -> a.cy [] OTHER -> H(p, a) \oslash R2
E9 == RSci(1, -9)
(* e.res: <<fx, fy, cx, cy, w, h, sw, sh>>;  e.pix: two pixels of the camera points e.q *)
InitEv(e) ==
  LET r == Resolve(e.p)
  IN  IF ~r.ok THEN Chk("C09.rejects", ~e.res.ok /\ e.res.err = "ValueError")
      ELSE IF ~Good(e.res, <<8>>) THEN {"C09.accepts"}
      ELSE LET x == <<FxVal(e.proj, r, e.p, e.a), FyVal(e.proj, r, e.p, e.a), CxVal(r, e.p, e.a), CyVal(r, e.p, e.a), W(e.p, e.a), H(e.p, e.a),
                      SwVal(r, e.p, e.a), ShVal(r, e.p, e.a)>>
               c == [proj |-> e.proj, fx |-> x[1], fy |-> x[2], cx |-> x[3], cy |-> x[4]]
           IN  Chk("C09.focal", NearSeqRel(<<e.res.v[1], e.res.v[2]>>, <<x[1], x[2]>>, E9)) \cup
               Chk("C09.centre", NearSeqRel(<<e.res.v[3], e.res.v[4]>>, <<x[3], x[4]>>, E9)) \cup
               Chk("C09.image", NearSeqRel(<<e.res.v[5], e.res.v[6]>>, <<x[5], x[6]>>, E9)) \cup
               Chk("C09.sensor", NearSeqRel(<<e.res.v[7], e.res.v[8]>>, <<x[7], x[8]>>, E9)) \cup
               Chk("C09.pixel", Good(e.pix, <<Len(e.q), 2>>) /\
                   \A i \in DOMAIN e.q : NearSeqRel(Row(e.pix, i, 2), ProjRaw(c, e.q[i]), RSci(1, -8)))
(* conversions: e.c has proj, fx, fy, w, h;  e.view, e.foc (from view_x, view_y), e.img (from view_x, view_y); e.vx, e.vy asked views *)
ViewEv(e) ==
  LET c == e.c
  IN  IF ~(Good(e.view, <<2>>) /\ Good(e.foc, <<2>>) /\ Good(e.img, <<2>>) /\ Good(e.back, <<4>>)) THEN {"C09.viewCall"}
      ELSE Chk("C09.view", NearSeqRel(e.view.v, <<ViewFrom(c.proj, "x", c.fx, c.w), ViewFrom(c.proj, "y", c.fy, c.h)>>, E9)) \cup
           Chk("C09.focalFromView", NearSeqRel(e.foc.v, <<FocalFromView(c.proj, "x", e.vx, c.w), FocalFromView(c.proj, "y", e.vy, c.h)>>, E9)) \cup
           Chk("C09.imageFromView", NearSeqRel(e.img.v, <<ImageFromView(c.proj, "x", e.vx, c.fx), ImageFromView(c.proj, "y", e.vy, c.fy)>>, E9)) \cup
           (* inverse: the view of the camera gives its focal lengths and image size back *)
           Chk("C09.inverse", NearSeqRel(e.back.v, <<c.fx, c.fy, c.w, c.h>>, RSci(1, -8)))

Trace == ndJsonDeserialize("trace.ndjson")
Start == <<>>
Step(s, e) ==
  CASE e.k = "reset" -> [st |-> s, fails |-> {}]
    [] e.k = "init" -> [st |-> s, fails |-> InitEv(e)]
    [] e.k = "view" -> [st |-> s, fails |-> ViewEv(e)]
INSTANCE TraceRun
===================================================================================
