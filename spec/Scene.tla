------------------------------------ MODULE Scene ------------------------------------
(* Scenes and the epipolar plots of a camera pair (C28): what is drawn where.             *)
EXTENDS Info

(* -------------------------- the objects: sets of edges -------------------------- *)
(* an edge is a sequence of two points; polylines are interrupted by NaN *)
EdgesOf(pts) == {<<pts[i], pts[i + 1]>> : i \in {j \in 1..(Len(pts) - 1) : AllFin(pts[j]) /\ AllFin(pts[j + 1])}}
Corner(pos, r, s) == <<pos[1] \oplus (RInt(s[1]) \otimes r), pos[2] \oplus (RInt(s[2]) \otimes r), pos[3] \oplus (RInt(s[3]) \otimes r)>>
Signs(S) == {<<a, b, c>> : a \in S[1], b \in S[2], c \in S[3]}
Differ(s, t) == Cardinality({k \in 1..3 : s[k] # t[k]})
Box(pos, r, S) == {<<Corner(pos, r, st[1]), Corner(pos, r, st[2])>> : st \in {x \in Signs(S) \X Signs(S) : Differ(x[1], x[2]) = 1}}
Cube(pos, width) == Box(pos, width \oslash R2, <<{-1, 1}, {-1, 1}, {-1, 1}>>)
(* upright, parallel to the x axis *)
Rect(pos, width) == Box(pos, width \oslash R2, <<{-1, 1}, {0}, {-1, 1}>>)
RECURSIVE MinOf(_, _), MaxOf(_, _)
MinOf(s, i) == IF i = Len(s) THEN s[i] ELSE RMin(s[i], MinOf(s, i + 1))
MaxOf(s, i) == IF i = Len(s) THEN s[i] ELSE RMax(s[i], MaxOf(s, i + 1))
GridLines(xs, ys) ==
  LET two == { << <<MinOf(xs, 1), ys[j], R0>>, <<MaxOf(xs, 1), ys[j], R0>> >> : j \in DOMAIN ys } \cup
             { << <<xs[i], MinOf(ys, 1), R0>>, <<xs[i], MaxOf(ys, 1), R0>> >> : i \in DOMAIN xs }
  IN  two \cup {<<s[2], s[1]>> : s \in two}
Edges(o) == CASE o.kind = "own" -> EdgesOf(o.pts) \cup {<<s[2], s[1]>> : s \in EdgesOf(o.pts)}
              [] o.kind = "cube" -> Cube(o.pos, o.width)
              [] o.kind = "rect" -> Rect(o.pos, o.width)
              [] o.kind = "grid" -> GridLines(o.xs, o.ys)
(* ------------------------------- what is drawn ------------------------------- *)
Fine(v) == RSci(1, -9) \otimes (R1 \oplus RAbs(v))
SamePoint(p, q) == \A k \in DOMAIN p : Near(p[k], q[k], Fine(p[k]))
SameEdge(s, t) == SamePoint(s[1], t[1]) /\ SamePoint(s[2], t[2])
(* drawn: set of drawn segments; want: set of wanted edges in both directions (one of both is enough) *)
AllDrawn(want, drawn) == \A s \in want : \E t \in drawn : SameEdge(s, t) \/ SameEdge(<<s[2], s[1]>>, t)
NothingElse(want, drawn) == \A t \in drawn : \E s \in want : SameEdge(s, t) \/ SameEdge(<<s[2], s[1]>>, t)
ToSet(s) == {s[i] : i \in DOMAIN s}
Cut(p, ax) == <<p[ax[1]], p[ax[2]]>>
CutEdges(S, ax) == {<<Cut(s[1], ax), Cut(s[2], ax)>> : s \in S}
ViewAxes == << <<1, 2>>, <<1, 3>>, <<2, 3>> >>

PixelOfPoint(c, x) == PixelOf(c, x, R0)
Seen(c, S) == {[a |-> PixelOfPoint(c, s[1]), b |-> PixelOfPoint(c, s[2])] : s \in S}
SeenAs(v, t) == v.a.st = "at" /\ v.b.st = "at" /\ At(v.a.p, t[1], v.a.tol) /\ At(v.b.p, t[2], v.b.tol)
(* the lines of the image: horizon: indices of drawn segments that are part of the horizon *)
ImageJudge(c, S, drawn, horizon) ==
  LET seen == Seen(c, S)
      both == {v \in seen : v.a.st = "at" /\ v.b.st = "at"}
      known == \A v \in seen : v.a.st # "unknown" /\ v.b.st # "unknown"
      is(v, t) == SeenAs(v, t) \/ SeenAs([a |-> v.b, b |-> v.a], t)
  IN  Chk("C28.image", \A v \in both : \E k \in DOMAIN drawn : is(v, drawn[k])) \cup
      Chk("C28.imageStray", ~known \/ \A k \in DOMAIN drawn : k \in horizon \/ \E v \in both : is(v, drawn[k]))

ObjectsOf(s) == UNION {Edges(s.objs[i]) : i \in DOMAIN s.objs}
HorizonSegs(e) == {k \in DOMAIN e.img : Len(e.hp[k]) = 2 /\ At(<<e.hp[k][1], e.hp[k][2]>>, <<e.img[k][1][2], e.img[k][2][2]>>, Small)}
ViewsJudge(s, e) ==
  IF ~e.ok THEN {"C28.call"}
  ELSE LET S == ObjectsOf(s)
           cone == IF Len(s.cam) = 0 THEN {} ELSE EdgesOf(e.cone)
           all == S \cup cone
           c == s.cam[1]
           hz == HorizonSegs(e)
       IN  Chk("C28.views", \A j \in 1..3 : AllDrawn(CutEdges(all, ViewAxes[j]), ToSet(e.views[j]))) \cup
           Chk("C28.viewsStray", \A j \in 1..3 : NothingElse(CutEdges(all, ViewAxes[j]), ToSet(e.views[j]))) \cup
           (IF Len(s.cam) = 0 THEN {}
            ELSE ImageJudge(c, S, e.img, hz) \cup
                 Chk("C28.horizon", e.horizon => (\E k \in hz : REq(e.img[k][1][1], R0)) /\ (\E k \in hz : REq(e.img[k][2][1], c.w))) \cup
                 Chk("C28.frame", NearSeq(e.xlim, <<R0, c.w>>, Small) /\ NearSeq(e.ylim, <<c.h, R0>>, Small)))
RenderJudge(s, e) ==
  IF ~e.ok THEN {"C28.call"}
  ELSE LET c == s.cam[1]
       IN  Chk("C28.size", Near(e.size[1], c.w, R1) /\ Near(e.size[2], c.h, R1)) \cup
           Chk("C28.frame", NearSeq(e.xlim, <<R0, c.w>>, Small) /\ NearSeq(e.ylim, <<c.h, R0>>, Small)) \cup
           ImageJudge(c, ObjectsOf(s), e.img, {})
(* an object that is built returns its lines *)
AddJudge(o, e) ==
  IF ~e.ok THEN {"C28.call"}
  ELSE IF o.kind = "own" THEN {}
  ELSE Chk("C28.built", AllDrawn(Edges(o), EdgesOf(e.ret)) /\ NothingElse(Edges(o), EdgesOf(e.ret)))

(* ------------------------------- epipolar plots ------------------------------- *)
(* pairs of rectilinear cameras without lens; the line of a pixel p of camera d in the image of camera c: a x + b y + f = 0, normed *)
Hom(c, x) == LET q == CameraFromSpace(c, x) IN << ((RNeg(q[1]) \otimes c.fx) \oplus (c.cx \otimes q[3])), ((q[2] \otimes c.fy) \oplus (c.cy \otimes q[3])), q[3] >>
LineOf(c, d, p) ==
  LET ray == SpaceDir(d, RayOf(d, p))
      u == V3Scale(R1 \oslash V3Len(ray), ray)
      base == V3Len(V3Sub(Pos(c), Pos(d)))
      l == V3Cross(Hom(c, Pos(d)), Hom(c, V3Add(Pos(d), V3Scale(base, u))))
      n == V2Len(<<l[1], l[2]>>)
  IN  <<l[1] \oslash n, l[2] \oslash n, l[3] \oslash n>>
Off(l, p) == ((l[1] \otimes p[1]) \oplus (l[2] \otimes p[2])) \oplus l[3]
Foot(l, p) == LET o == Off(l, p) IN <<p[1] \ominus (o \otimes l[1]), p[2] \ominus (o \otimes l[2])>>
NearLine(l, p, tol) == RAbs(Off(l, p)) \preceq tol
(* e.sides[s]: what is drawn in one subplot: curves, points, feet, joins, texts (per correspondence, in their order) *)
MySide(c, d, pc, pd, g) ==
  LET n == Len(pc)
      l == [i \in 1..n |-> LineOf(c, d, pd[i])]
      ok(i) == AllFin(l[i]) /\ RSci(1, -6) \prec V2Len(<<l[i][1], l[i][2]>>)
  IN  Chk("C28.epiPoints", Len(g.points) = n /\ \A i \in 1..n : At(pc[i], g.points[i], Small)) \cup
      Chk("C28.epiLine", Len(g.curves) = n /\ \A i \in 1..n : ok(i) =>
            /\ Len(g.curves[i]) >= 2
            /\ \A k \in DOMAIN g.curves[i] : LET p == g.curves[i][k] IN AllFin(p) /\ (RAbs(p[1]) \oplus RAbs(p[2])) \prec RInt(100000) => NearLine(l[i], p, RSci(1, -3))) \cup
      Chk("C28.epiFoot", Len(g.feet) = n /\ \A i \in 1..n : ok(i) => At(Foot(l[i], pc[i]), g.feet[i], RSci(1, -2))) \cup
      Chk("C28.epiJoin", Len(g.joins) = n /\ \A i \in 1..n : ok(i) => At(pc[i], g.joins[i][1], Small) /\ At(Foot(l[i], pc[i]), g.joins[i][2], RSci(1, -2))) \cup
      Chk("C28.epiText", Len(g.texts) = n /\ \A i \in 1..n : ok(i) => Near(g.texts[i], RAbs(Off(l[i], pc[i])), RRat(7, 100)))
MyEpiJudge(e) ==
  IF ~e.ok THEN {"C28.call"}
  ELSE MySide(e.c1, e.c2, e.p1, e.p2, e.sides[1]) \cup MySide(e.c2, e.c1, e.p2, e.p1, e.sides[2])
(* lines of a fundamental matrix that was estimated from the points: judged where the estimate is good *)
CorrSide(c, d, pc, pd, F, g) ==
  LET n == Len(pc)
      raw(i) == MV(F, <<pd[i][1], pd[i][2], R1>>)
      fl(i) == LET m == V2Len(<<raw(i)[1], raw(i)[2]>>) IN <<raw(i)[1] \oslash m, raw(i)[2] \oslash m, raw(i)[3] \oslash m>>
      good(i) == LET l == LineOf(c, d, pd[i])  t == fl(i)
                     a == Foot(l, <<R0, R0>>)  b == Foot(l, <<c.w, c.h>>)
                 IN  AllFin(l) /\ AllFin(t) /\ NearLine(t, a, R1) /\ NearLine(t, b, R1) /\ NearLine(t, pc[i], RHalf)
      inside(p) == (RNeg(R1) \preceq p[1] /\ p[1] \preceq (c.w \oplus R1)) /\ (RNeg(R1) \preceq p[2] /\ p[2] \preceq (c.h \oplus R1))
      edge(p) == \/ Near(p[1], R0, RSci(1, -3)) \/ Near(p[1], c.w, RSci(1, -3)) \/ Near(p[2], R0, RSci(1, -3)) \/ Near(p[2], c.h, RSci(1, -3))
      epi == PixelOf(c, Pos(d), R0)
  IN  Chk("C28.corrPoints", Len(g.points) = n /\ \A i \in 1..n : At(pc[i], g.points[i], Small)) \cup
      (* a line that misses the image is not drawn; the points lie inside of the image *)
      Chk("C28.corrLine", Len(g.curves) <= n /\ \A i \in 1..n : good(i) => \E j \in DOMAIN g.curves :
            /\ Len(g.curves[j]) = 2
            /\ \A k \in DOMAIN g.curves[j] : LET p == g.curves[j][k] IN AllFin(p) /\ NearLine(fl(i), p, RSci(1, -1)) /\ inside(p) /\ edge(p)) \cup
      Chk("C28.epipole", CASE epi.st = "at" -> \E k \in DOMAIN g.feet : At(epi.p, g.feet[k], epi.tol)
                           [] epi.st = "hidden" -> \A k \in DOMAIN g.feet : ~AllFin(g.feet[k])
                           [] OTHER -> TRUE)
CorrEpiJudge(e) ==
  IF ~e.ok THEN {"C28.call"}
  ELSE CorrSide(e.c1, e.c2, e.p1, e.p2, MT(e.F), e.sides[1]) \cup CorrSide(e.c2, e.c1, e.p2, e.p1, e.F, e.sides[2])
====================================================================================
