-------------------------------- MODULE Intrinsics --------------------------------
(* How the arguments of a projection resolve to its intrinsic parameters.             *)
(* p is a record of the presence of the arguments:                                     *)
(*   img "none" | "tuple" | "array";  w, h : image_width_px, image_height_px           *)
(*   f "none" | "one" | "pair" : focallength_px;  fx, fy : per axis;  mm : focallength_mm *)
(*   s, sw, sh : sensor tuple, width, height;  vx, vy : field of view;                 *)
(*   c, cx, cy : centre tuple, x, y                                                    *)
(* The result names where each quantity comes from.                                    *)
EXTENDS Naturals, Sequences

(* ---- declarative ---- *)
ImageBad(p) == \/ p.img # "none" /\ (p.w \/ p.h)
               \/ p.img = "none" /\ ~(p.w /\ p.h)
CentreBad(p) == p.c /\ (p.cx \/ p.cy)
SensorBad(p) == p.s /\ (p.sw \/ p.sh)
HasSensor(p) == p.s \/ p.sw \/ p.sh
(* the number of independent statements about each focal length *)
Joint(p) == p.f # "none"
OverFocal(p) == \/ Joint(p) /\ (p.fx \/ p.fy)
                \/ p.mm /\ (Joint(p) \/ p.fx \/ p.fy)
                \/ p.vx /\ (Joint(p) \/ p.fx \/ p.mm)
                \/ p.vy /\ (Joint(p) \/ p.fy \/ p.mm)
UnderFocal(p) == \/ p.mm /\ ~HasSensor(p)
                 \/ ~(p.mm \/ Joint(p) \/ p.vx \/ p.vy \/ (p.fx /\ p.fy))
Bad(p) == ImageBad(p) \/ CentreBad(p) \/ SensorBad(p) \/ OverFocal(p) \/ UnderFocal(p)
FxFrom(p) == CASE p.fx -> "fx" [] Joint(p) -> "f1" [] p.mm -> "mm" [] p.vx -> "vx" [] OTHER -> "vy"
FyFrom(p) == CASE p.fy -> "fy" [] Joint(p) -> "f2" [] p.mm -> "mm" [] p.vy -> "vy" [] OTHER -> "vx"
CxFrom(p) == CASE p.c -> "c" [] p.cx -> "cx" [] OTHER -> "half"
CyFrom(p) == CASE p.c -> "c" [] p.cy -> "cy" [] OTHER -> "half"
SwFrom(p) == CASE p.s -> "s" [] p.sw -> "sw" [] p.sh -> "sh" [] OTHER -> "default"
ShFrom(p) == CASE p.s -> "s" [] p.sh -> "sh" [] p.sw -> "sw" [] OTHER -> "default"
Resolve(p) == IF Bad(p) THEN [ok |-> FALSE]
              ELSE [ok |-> TRUE, fx |-> FxFrom(p), fy |-> FyFrom(p), cx |-> CxFrom(p), cy |-> CyFrom(p),
                    sw |-> SwFrom(p), sh |-> ShFrom(p)]
===================================================================================
