------------------------------------ MODULE Maps ------------------------------------
(* Top views and undistorted images: which image pixel every pixel of the result shows.  *)
EXTENDS Geometry, Obs, FiniteSets

CeilCount(a, b, s) == LET q == (b \ominus a) \oslash s  f == RFloor(q) IN IF REq(q, f) THEN RRound(f) ELSE RRound(f) + 1
(* e.img: flat integers, rows of pixels of e.C channels; a missing alpha channel is opaque *)
OutChannels(e) == IF e.C = 3 THEN 4 ELSE e.C
ImgPix(e, x, y) ==
  IF x < 0 \/ y < 0 \/ x >= e.W \/ y >= e.H
  THEN (IF OutChannels(e) = 1 THEN <<0>> ELSE <<0, 1, 0, 0>>)
  ELSE LET at == (y * e.W + x) * e.C
           px == [i \in 1..e.C |-> e.img[at + i]]
       IN  IF e.C = 3 THEN Append(px, 255) ELSE px
Far == RInt(20000)
RoundBoth(v, d) == {RRound(v \ominus d), RRound(v \oplus d)}
(* the values allowed at an image position known up to tol *)
Shown(e, p, tol) ==
  IF ~AllFin(p) \/ RAbs(p[1]) \succ Far \/ RAbs(p[2]) \succ Far THEN {ImgPix(e, -1, -1)}
  ELSE LET d == tol \oplus RRat(1, 50)
       IN  {ImgPix(e, x, y) : x \in RoundBoth(p[1], d), y \in RoundBoth(p[2], d)}
MapPixel(c, e, x, y) ==
  IF e.mode = "undistort"
  THEN Shown(e, Distort(c, <<x, y>>), RSci(1, -6) \otimes (R1 \oplus (RAbs(x) \oplus RAbs(y))))
  ELSE LET s == <<x, y, e.Z>>
           q == CameraFromSpace(c, s)
           d == TolCam(c, s)
           clear == IF c.proj = "rect" THEN RAbs(q[3]) \succ (RInt(1000) \otimes d)
                    ELSE Rho(q) \succ (RInt(1000) \otimes d) /\ ~AtSeam(c, ProjRaw(c, q))
           tol == TolImage(c, s)
       IN  IF ~clear \/ tol \succ RRat(1, 10) THEN {}            \* undecided
           ELSE Shown(e, ImageFromSpace(c, s, e.hide), tol \oplus (RSci(1, -6) \otimes (RAbs(ProjRaw(c, q)[1]) \oplus RAbs(ProjRaw(c, q)[2]))))

(* -------------------------------- a guessed extent -------------------------------- *)
(* the pixels of the border, and where their rays meet the plane; sure: the ray is clearly up or down *)
BorderPixels(c) == LET W == RRound(c.w)  H == RRound(c.h)
                   IN  {<<0, y>> : y \in 0..H} \cup {<<W, y>> : y \in 0..H} \cup {<<x, 0>> : x \in 0..W} \cup {<<x, H>> : x \in 0..W}
MapSlack(c) == IF c.lens = "none" THEN R0 ELSE RSci(2, -4)
HitAt(c, p, Z) ==
  LET u == Undistort(c, p)
      ray == SpaceDir(c, RayOf(c, u))
      len == V3Len(ray)
      comp == ray[3] \oslash len
      gap == Z \ominus Pos(c)[3]
      f == gap \oslash ray[3]
      sure == /\ AllFin(u) /\ (c.lens = "none" \/ LensDomain(c, LensRadius(c, u)))
              /\ RAbs(comp) \succ (RSci(1, -4) \oplus (R2 \otimes MapSlack(c)))
              /\ RAbs(gap) \succ (RSci(1, -6) \otimes (R1 \oplus RAbs(Z)))
  IN  [sure |-> sure, front |-> sure /\ f \succ R0,
       x |-> IF sure THEN Pos(c)[1] \oplus (f \otimes ray[1]) ELSE R0,
       y |-> IF sure THEN Pos(c)[2] \oplus (f \otimes ray[2]) ELSE R0,
       tol |-> IF sure THEN ((RSci(1, -7) \oplus (RInt(4) \otimes MapSlack(c))) \otimes (R1 \oplus (RAbs(gap) \oslash Sq(comp)))) \oplus (RSci(1, -9) \otimes L1(Pos(c))) ELSE R0]
GroundHit(c, px, Z) == HitAt(c, <<RInt(px[1]), RInt(px[2])>>, Z)
Guessed(c, e) ==
  LET all == {GroundHit(c, px, e.Z) : px \in BorderPixels(c)}
      hits == {b \in all : b.front}
      certain == \A b \in all : b.sure
      (* the extent is wide enough for a picture *)
      wideX == \E g, h \in hits : (h.x \ominus g.x) \succ (RRat(1, 10) \oplus (RInt(4) \otimes (g.tol \oplus h.tol)))
      wideY == \E g, h \in hits : (h.y \ominus g.y) \succ (RRat(1, 10) \oplus (RInt(4) \otimes (g.tol \oplus h.tol)))
      wide == certain /\ hits # {} /\ wideX /\ wideY
  IN  Chk(Tag(e.pid, "guess.call"), e.skip \/ ~wide \/ e.ok) \cup
      IF ~e.ok \/ Len(e.pe) # 4 \/ hits = {} THEN {}
      ELSE Chk(Tag(e.pid, "guess.covers"),
               \A h \in hits : /\ (e.pe[1] \ominus h.tol) \preceq h.x /\ h.x \preceq (e.pe[2] \oplus h.tol)
                               /\ (e.pe[3] \ominus h.tol) \preceq h.y /\ h.y \preceq (e.pe[4] \oplus h.tol)) \cup
           (IF ~certain THEN {}
            ELSE Chk(Tag(e.pid, "guess.tight"),
                     /\ (\E h \in hits : Near(h.x, e.pe[1], h.tol)) /\ (\E h \in hits : Near(h.x, e.pe[2], h.tol))
                     /\ (\E h \in hits : Near(h.y, e.pe[3], h.tol)) /\ (\E h \in hits : Near(h.y, e.pe[4], h.tol))))

Counts(a, b, s) == LET q == (b \ominus a) \oslash s  d == RSci(1, -9) \otimes (R1 \oplus q)
                       up(v) == LET f == RFloor(v) IN IF REq(v, f) THEN RRound(f) ELSE RRound(f) + 1
                   IN  {up(q \ominus d), up(q), up(q \oplus d)}
(* the extent in force: given, all of the image, or the guessed one that was drawn (empty: unknown) *)
ExtOf(c, e) == IF Len(e.ext) = 4 THEN e.ext
               ELSE IF e.mode = "undistort" THEN <<R0, c.w, R0, c.h>>
               ELSE e.pe
ScaleOf(c, e, x) == IF Len(e.sc) = 1 THEN e.sc[1]
                    ELSE IF e.mode = "undistort" THEN R1
                    ELSE RSqrt((x[2] \ominus x[1]) \otimes (x[4] \ominus x[3])) \oslash RSqrt(c.w \otimes c.h)
MapJudge(c, e) ==
  LET K == OutChannels(e)
      fresh == Chk(Tag(e.pid, "fresh"), e.ok /\ e.okf /\ e.shape = e.shapef /\ e.out = e.outf)
      guess == e.mode = "top" /\ Len(e.ext) = 0
      x == ExtOf(c, e)
      sc == ScaleOf(c, e, x)
      drawn == IF ~e.plot THEN Chk(Tag(e.pid, "undrawn"), e.drawn = 0)
               ELSE Chk(Tag(e.pid, "drawn"), e.ok => e.drawn = 1 /\ e.same /\ Len(e.pe) = 4 /\ AllFin(e.pe))
  IN  IF e.refuse THEN Chk(Tag(e.pid, "size.check"), ~e.ok)          \* an image of another size than the camera's
      ELSE drawn \cup
      IF guess /\ ~e.ok THEN Guessed(c, e)
      ELSE IF ~e.ok THEN {Tag(e.pid, "call")}
      ELSE fresh \cup (IF guess THEN Guessed(c, e) ELSE {}) \cup
           IF Len(x) # 4 THEN {}
           ELSE LET ny == e.shape[1]
                    nx == e.shape[2]
                    yOf(r) == IF e.mode = "undistort" THEN x[3] \oplus (RInt(r - 1) \otimes sc)
                              ELSE x[3] \oplus (RInt(ny - r) \otimes sc)
                    xOf(k) == x[1] \oplus (RInt(k - 1) \otimes sc)
                    got(r, k) == SubSeq(e.out, ((r - 1) * nx + (k - 1)) * K + 1, ((r - 1) * nx + k) * K)
                    (* where the drawn picture shows a pixel *)
                    atX(k) == e.pe[1] \oplus (((RInt(k) \ominus RRat(1, 2)) \otimes (e.pe[2] \ominus e.pe[1])) \oslash RInt(nx))
                    atY(r) == e.pe[4] \oplus (((RInt(r) \ominus RRat(1, 2)) \otimes (e.pe[3] \ominus e.pe[4])) \oslash RInt(ny))
                    near == (RRat(8, 5) \otimes sc) \oplus (IF e.mode = "undistort" THEN R1 ELSE R0)
                IN  (IF ~(Len(e.shape) = (IF K = 1 THEN 2 ELSE 3) /\ (K > 1 => e.shape[3] = K)
                          /\ nx \in Counts(x[1], x[2], sc) /\ ny \in Counts(x[3], x[4], sc)) THEN {Tag(e.pid, "size")}
                     ELSE (IF Len(e.img) = 0 \/ Len(e.out) < nx * ny * K THEN {}
                           ELSE Chk(Tag(e.pid, "pixels"),
                                    \A r \in 1..ny : \A k \in 1..nx :
                                       LET w == MapPixel(c, e, xOf(k), yOf(r)) IN w = {} \/ got(r, k) \in w)) \cup
                          (IF ~e.plot \/ Len(e.pe) # 4 THEN {}
                           ELSE Chk(Tag(e.pid, "display"),
                                    /\ \A k \in {1, nx} : Near(atX(k), xOf(k), near)
                                    /\ \A r \in {1, ny} : Near(atY(r), yOf(r), near))))
====================================================================================
